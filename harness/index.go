package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"syscall"

	"go.etcd.io/bbolt"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

type indexExec struct {
	dir   string
	path  string
	ix    *index.Index
	copyN int
	bulkN uint64
}

func newIndexExec(s *scenario) executor {
	return &indexExec{dir: s.Dir, path: filepath.Join(s.Dir, "index")}
}

func (e *indexExec) done() {
	if e.ix != nil {
		e.ix.Close()
		e.ix = nil
	}
}

func hashFile(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "none"
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

func locked(path string) bool {
	f, err := os.Open(path)
	if err != nil {
		return false
	}
	defer f.Close()
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
		return true
	}
	syscall.Flock(int(f.Fd()), syscall.LOCK_UN)
	return false
}

func header(owner, gen uint64) btrfs.Header {
	h := make([]byte, btrfs.HeaderLen)
	binary.LittleEndian.PutUint64(h[80:], gen)
	binary.LittleEndian.PutUint64(h[88:], owner)
	return btrfs.Header(h)
}

func itemHeader(i uint64, t uint8, f uint64, off, size uint32) []byte {
	b := make([]byte, 25)
	binary.LittleEndian.PutUint64(b, i)
	b[8] = t
	binary.LittleEndian.PutUint64(b[9:], f)
	binary.LittleEndian.PutUint32(b[17:], off)
	binary.LittleEndian.PutUint32(b[21:], size)
	return b
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		fail("%v", err)
	}
	return b
}

func rawKey(o, i uint64, t uint8, f, g uint64) []byte {
	b := make([]byte, 33)
	binary.BigEndian.PutUint64(b, o)
	b[8] = t
	binary.BigEndian.PutUint64(b[9:], i)
	binary.BigEndian.PutUint64(b[17:], f)
	binary.BigEndian.PutUint64(b[25:], g)
	return b
}

type putItem struct {
	O uint64 `json:"o"`
	T uint8  `json:"t"`
	I uint64 `json:"i"`
	F uint64 `json:"f"`
	G uint64 `json:"g"`
	D string `json:"data"`
}

func insertItem(ix *index.Index, p *putItem) error {
	data := unhex(p.D)
	return ix.InsertItem(btrfs.Key{ObjectID: p.I, Type: p.T, Offset: p.F},
		header(p.O, p.G), itemHeader(p.I, p.T, p.F, 0, uint32(len(data))), data)
}

func errStr(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

type rangeLike interface {
	HasNext() bool
	Next() []byte
	Owner() uint64
	Key() btrfs.Key
	Generation() uint64
	Item() btrfs.Item
}

const maxRange = 4000

func collect(r rangeLike, v []byte) obs {
	list := [][]interface{}{}
	for ; r.HasNext(); v = r.Next() {
		if len(list) >= maxRange {
			return obs{"r": "endless"}
		}
		k := r.Key()
		list = append(list, []interface{}{r.Owner(), k.Type, k.ObjectID,
			k.Offset, r.Generation(), hex.EncodeToString(r.Item()),
			hex.EncodeToString(v)})
	}
	return obs{"r": "ok", "list": list}
}

func found(b []byte) obs {
	if b == nil {
		return obs{"r": "ok", "list": []string{}}
	}
	return obs{"r": "ok", "list": []string{hex.EncodeToString(b)}}
}

func (e *indexExec) key(o op, i, t, f string) btrfs.Key {
	return btrfs.Key{ObjectID: o.u64(i), Type: uint8(o.u64(t)), Offset: o.u64(f)}
}

func copyFile(from, to string) {
	b, err := os.ReadFile(from)
	if err != nil {
		if os.IsNotExist(err) {
			return
		}
		fail("%v", err)
	}
	if err := os.WriteFile(to, b, 0600); err != nil {
		fail("%v", err)
	}
}

func dumpAll(path string) obs {
	ix, err := index.OpenReadOnly(path)
	if err != nil {
		return obs{"r": "err", "list": [][]interface{}{}}
	}
	defer ix.Close()
	r, v := ix.FullRange()
	return collect(&r, v)
}

// dumpRaw reads all item records of a metadata index as stored.
func dumpRaw(path string) obs {
	db, err := bbolt.Open(path, 0600, &bbolt.Options{ReadOnly: true})
	if err != nil {
		return obs{"r": "err", "list": [][]interface{}{}}
	}
	defer db.Close()
	list := [][]interface{}{}
	hdr := ""
	err = db.View(func(tx *bbolt.Tx) error {
		b := tx.Bucket([]byte("index"))
		if b == nil {
			return errors.New("no bucket")
		}
		return b.ForEach(func(k, v []byte) error {
			if len(k) != 33 {
				return errors.New("bad key")
			}
			if string(k) == string(index.MetadataKey) {
				hdr = hex.EncodeToString(v)
				return nil
			}
			list = append(list, []interface{}{
				binary.BigEndian.Uint64(k), k[8], binary.BigEndian.Uint64(k[9:]),
				binary.BigEndian.Uint64(k[17:]), binary.BigEndian.Uint64(k[25:]),
				hex.EncodeToString(v)})
			return nil
		})
	})
	if err != nil {
		return obs{"r": "err", "list": list, "why": err.Error()}
	}
	return obs{"r": "ok", "list": list, "hdr": hdr}
}

// scanRuns reports the numbers of the items of a scan that are in an index, as
// runs. An item has its number and key as its data. If the file is no index,
// it reports how many items are stored in it all the same.
func scanRuns(o op) obs {
	path := o.str("path")
	runs := [][2]uint64{}
	if st, err := os.Stat(path); err != nil {
		return obs{"r": "none", "runs": runs}
	} else if st.Size() == 0 {
		return obs{"r": "noindex", "runs": runs}
	}
	res := dumpRaw(path)
	if res["r"] != "ok" || res["hdr"] == "" {
		if res["why"] == "no bucket" {
			return obs{"r": "noindex", "runs": runs}
		} else if res["r"] == "ok" {
			return obs{"r": "noindex", "runs": runs, "stored": len(res["list"].([][]interface{}))}
		}
		return obs{"r": "err", "runs": runs}
	}
	if ix, err := index.OpenReadOnly(path); err != nil {
		return obs{"r": "unopenable", "runs": runs}
	} else {
		ix.Close()
	}
	bad := 0
	seen := []uint64{}
	for _, e := range res["list"].([][]interface{}) {
		v := unhex(e[5].(string))
		if len(v) != 25+41 {
			bad++
			continue
		}
		d := v[25:]
		u := binary.LittleEndian.Uint64
		if e[0].(uint64) != u(d[8:]) || e[1].(byte) != d[24] || e[2].(uint64) != u(d[16:]) ||
			e[3].(uint64) != u(d[25:]) || e[4].(uint64) != u(d[33:]) || u(v) != u(d[16:]) ||
			v[8] != d[24] || u(v[9:]) != u(d[25:]) {
			bad++
			continue
		}
		seen = append(seen, u(d))
	}
	sort.Slice(seen, func(i, j int) bool { return seen[i] < seen[j] })
	for _, n := range seen {
		if l := len(runs); l > 0 && runs[l-1][1]+1 == n {
			runs[l-1][1] = n
		} else if l < 50 {
			runs = append(runs, [2]uint64{n, n})
		}
	}
	return obs{"r": "ok", "runs": runs, "bad": bad}
}

func (e *indexExec) run(o op) obs {
	ix := e.ix
	switch o.str("op") {
	case "open", "load", "runs", "crash", "crashruns", "tamper", "snap", "dumpraw",
		"dumpall", "copyto", "scanruns":
	default:
		if ix == nil {
			return obs{"r": "skip"}
		}
	}
	switch o.str("op") {
	case "open":
		before := hashFile(e.path)
		var err error
		if o.flag("ro") && o.flag("short") {
			e.ix, err = index.OpenReadOnly(e.path)
		} else {
			opt := &index.Options{ReadOnly: o.flag("ro"),
				BlockSize: uint(o.u64("bs")), Generation: o.u64("gen")}
			copy(opt.FSID[:], unhex(o.str("fsid")))
			e.ix, err = index.Open(e.path, 0644, opt)
		}
		if err != nil {
			e.ix = nil
			_, serr := os.Lstat(e.path)
			return obs{"r": "err", "changed": hashFile(e.path) != before,
				"exists": serr == nil, "locked": locked(e.path)}
		}
		if e.ix == nil {
			return obs{"r": "nil"}
		}
		return obs{"r": "ok"}
	case "insert":
		p := &putItem{O: o.u64("o"), T: uint8(o.u64("t")), I: o.u64("i"),
			F: o.u64("f"), G: o.u64("g"), D: o.str("data")}
		return obs{"r": errStr(insertItem(ix, p))}
	case "load": // Creates a complete index file
		var items []putItem
		o.into("items", &items)
		opt := &index.Options{BlockSize: uint(o.u64("bs")), Generation: ^uint64(0)}
		copy(opt.FSID[:], unhex(o.str("fsid")))
		path := o.str("path")
		if path == "" {
			path = e.path
		}
		nix, err := index.Open(path, 0644, opt)
		if err != nil {
			return obs{"r": "err"}
		}
		for i := range items {
			if err := insertItem(nix, &items[i]); err != nil {
				nix.Close()
				return obs{"r": "err"}
			}
		}
		nix.Close()
		return obs{"r": "ok"}
	case "bulk":
		n, from := o.u64("n"), e.bulkN // Numbered in insertion order
		e.bulkN += n
		for j := uint64(0); j < n; j++ {
			data := make([]byte, bulkSize(from+j, o))
			if len(data) > 0 {
				binary.LittleEndian.PutUint64(data, from+j)
			}
			f := (from + j) % o.u64("period")
			if err := ix.InsertItem(btrfs.Key{ObjectID: o.u64("i"), Type: uint8(o.u64("t")),
				Offset: f}, header(o.u64("o"), o.u64("g")),
				itemHeader(o.u64("i"), uint8(o.u64("t")), f, 0, uint32(len(data))),
				data); err != nil {
				return obs{"r": "err"}
			}
		}
		return obs{"r": "ok"}
	case "runs": // Stored items of a bulk insert as runs of consecutive numbers
		path := o.str("path")
		if path == "" {
			path = e.path
		}
		return bulkRuns(path, o)
	case "crashruns":
		e.copyN++
		p := filepath.Join(e.dir, fmt.Sprintf("index%d", e.copyN))
		copyFile(e.path, p)
		e.path, e.ix = p, nil
		res := bulkRuns(e.path, o)
		e.bulkN = 0 // Inserts go on after the last one that is still there
		if runs := res["runs"].([][2]uint64); len(runs) > 0 {
			e.bulkN = runs[len(runs)-1][1] + 1
		}
		return res
	case "query_runs":
		return queryRuns(ix, o)
	case "find":
		return found(ix.FindItem(o.u64("o"), e.key(o, "i", "t", "f")))
	case "find_inode":
		return found(ix.FindInodeItem(o.u64("o"), o.u64("i")))
	case "find_extent":
		return found(ix.FindFileExtentItem(o.u64("o"), o.u64("i")))
	case "find_extitem":
		return found(ix.FindExtentItem(o.u64("i"), o.u64("f")))
	case "range":
		r, v := ix.Range(o.u64("o"), e.key(o, "i", "t", "f"), e.key(o, "i2", "t2", "f2"))
		return collect(&r, v)
	case "rall":
		r, v := ix.RangeAll(o.u64("o"), uint8(o.u64("t")), o.u64("i"))
		return collect(&r, v)
	case "dir":
		r, v := ix.DirItems(o.u64("o"), o.u64("i"))
		return collect(&r, v)
	case "xattr":
		r, v := ix.XAttrItems(o.u64("o"), o.u64("i"))
		return collect(&r, v)
	case "ext":
		r, v := ix.FileExtentItems(o.u64("o"), o.u64("i"))
		return collect(&r, v)
	case "chunks":
		r, v := ix.Chunks()
		return collect(&r, v)
	case "devs":
		r, v := ix.DevItems()
		return collect(&r, v)
	case "subvols":
		r, v := ix.Subvolumes()
		return collect(&r, v)
	case "full":
		r, v := ix.FullRange()
		return collect(&r, v)
	case "meta":
		m := ix.Metadata()
		if m == nil {
			return obs{"r": "none"}
		}
		id := m.FSID()
		return obs{"r": "ok", "ver": m.Version(), "bs": m.BlockSize(),
			"fsid": hex.EncodeToString(id[:]), "gen": m.Generation()}
	case "phys":
		dev, off, n, ok := ix.Physical(o.u64("addr"))
		return obs{"r": "ok", "ok": ok, "dev": dev, "off": off, "len": n}
	case "commit":
		return obs{"r": errStr(ix.Commit())}
	case "close":
		ix.Close()
		e.ix = nil
		return obs{"r": "ok"}
	case "rawtx":
		var items []putItem
		o.into("items", &items)
		err := ix.RawTx(func(db *bbolt.DB, tx *bbolt.Tx, b *bbolt.Bucket) error {
			for _, p := range items {
				data := unhex(p.D)
				v := append(itemHeader(p.I, p.T, p.F, 0, uint32(len(data))), data...)
				if err := b.Put(rawKey(p.O, p.I, p.T, p.F, p.G), v); err != nil {
					return err
				}
			}
			if o.flag("fail") {
				return errors.New("injected failure")
			}
			return nil
		})
		return obs{"r": errStr(err)}
	case "crash": // The process dies: what it has written so far remains
		e.copyN++
		p := filepath.Join(e.dir, fmt.Sprintf("index%d", e.copyN))
		copyFile(e.path, p)
		e.path, e.ix = p, nil
		return dumpAll(e.path)
	case "tamper":
		return e.tamper(o)
	case "snap":
		return obs{"r": "ok", "hash": hashFile(e.path), "locked": locked(e.path)}
	case "dumpraw":
		path := o.str("path")
		if path == "" {
			path = e.path
		}
		return dumpRaw(path)
	case "scanruns":
		return scanRuns(o)
	case "dumpall":
		return dumpAll(o.str("path"))
	case "copyto":
		copyFile(e.path, o.str("path"))
		return obs{"r": "ok"}
	}
	fail("unknown op %s", o.str("op"))
	return nil
}

// bulkSize returns the size of the n-th item, at least 8 unless its number is
// that of its key.
func bulkSize(n uint64, o op) int {
	switch o.str("sizes") {
	case "empty":
		return 0
	case "mixed":
		return []int{0, 8, 0, 300, 9}[n%5]
	case "large":
		return []int{8, 1500, 8, 8}[n%4]
	}
	return 8
}

func bulkRuns(path string, o op) obs {
	ix, err := index.OpenReadOnly(path)
	if err != nil {
		return obs{"r": "err", "runs": [][2]uint64{}}
	}
	defer ix.Close()
	return queryRuns(ix, o)
}

func queryRuns(ix *index.Index, o op) obs {
	runs := [][2]uint64{}
	bad := 0
	seen := []uint64{}
	r, v := ix.FullRange()
	for ; r.HasNext(); v = r.Next() {
		k := r.Key()
		n := uint64(0)
		if len(v) >= 8 {
			n = binary.LittleEndian.Uint64(v)
		} else if len(v) == 0 {
			n = k.Offset
		}
		if len(v) != bulkSize(n, o) || n%o.u64("period") != k.Offset ||
			len(r.Item()) != 25+len(v) || r.Owner() != o.u64("o") ||
			r.Generation() != o.u64("g") || k.Type != uint8(o.u64("t")) ||
			k.ObjectID != o.u64("i") || n > 1<<30 {
			bad++
			continue
		}
		seen = append(seen, n)
	}
	sort.Slice(seen, func(i, j int) bool { return seen[i] < seen[j] })
	for _, n := range seen {
		if l := len(runs); l > 0 && runs[l-1][1]+1 == n {
			runs[l-1][1] = n
		} else if l < 50 {
			runs = append(runs, [2]uint64{n, n})
		}
	}
	return obs{"r": "ok", "runs": runs, "bad": bad}
}

func (e *indexExec) tamper(o op) obs {
	edit := func(fn func(tx *bbolt.Tx) error) {
		db, err := bbolt.Open(e.path, 0600, nil)
		if err != nil {
			fail("tamper: %v", err)
		}
		defer db.Close()
		if err := db.Update(fn); err != nil {
			fail("tamper: %v", err)
		}
	}
	switch o.str("kind") {
	case "none":
		os.Remove(e.path)
	case "empty":
		os.WriteFile(e.path, nil, 0600)
	case "garbage":
		b := make([]byte, o.u64("n"))
		for i := range b {
			b[i] = byte(i*7 + i>>8)
		}
		os.WriteFile(e.path, b, 0600)
	case "nobucket":
		os.Remove(e.path)
		edit(func(tx *bbolt.Tx) error {
			_, err := tx.CreateBucket([]byte("other"))
			return err
		})
	case "nohdr":
		edit(func(tx *bbolt.Tx) error {
			b, err := tx.CreateBucketIfNotExists([]byte("index"))
			if err != nil {
				return err
			}
			return b.Delete(index.MetadataKey)
		})
	case "hdr":
		edit(func(tx *bbolt.Tx) error {
			b, err := tx.CreateBucketIfNotExists([]byte("index"))
			if err != nil {
				return err
			}
			return b.Put(index.MetadataKey, unhex(o.str("hdr")))
		})
	default:
		fail("unknown tamper kind")
	}
	return obs{"r": "ok"}
}

var _ = io.EOF
var _ = uuid.UUID{}
