#!/bin/bash
# Exits with 0 if the behaviour shown by demo.go is right.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go GOCACHE=/root/.cache/go-build
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'chmod -R u+rwX "$t"; rm -rf -- "$t"' EXIT
cat > "$t/overlay.json" <<END
{"Replace": {"/repo/internal/verifdemo/demo.go": "$here/demo.go", "/repo/internal/verifdemo/lib.go": "$here/lib.go"}}
END
mkdir "$t/work"
cd /repo || exit 2
go build -o "$t/btrfscue" ./cmd/btrfscue || exit 2
go build @RACE@ -overlay "$t/overlay.json" -o "$t/demo" ./internal/verifdemo || exit 2
cd "$t/work" && timeout 250 "$t/demo" "$t/work" "$t/btrfscue"
