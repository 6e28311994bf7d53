#!/bin/bash
# Offline preparation: nothing is kept, this only makes sure that the
# toolchains work and that the specification parses.
cd "$(dirname "$0")/../spec" || exit 1
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
jars=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
java -cp $jars tla2sany.SANY Trace*.tla MC*.tla > /tmp/verif-sany.$$ 2>&1
rc=$?
grep -iE -A12 "error|abort" /tmp/verif-sany.$$
rm -f "/tmp/verif-sany.$$"
exit $rc
