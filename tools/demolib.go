package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

// Scratch directory and the command line tool, built from /repo.
var scratch, cli = os.Args[1], os.Args[2]

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("FAILED: "+format+"\n", args...)
		os.Exit(1)
	}
}

func must(err error) {
	if err != nil {
		fmt.Println("demo error:", err)
		os.Exit(1)
	}
}

func le(n int, v uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b[:n]
}

func cat(parts ...[]byte) []byte { return bytes.Join(parts, nil) }

const top = ^uint64(0)

var fsid = uuid.UUID{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}

func openIndex(path string) *index.Index {
	ix, err := index.Open(path, 0644, &index.Options{BlockSize: 4096, FSID: fsid, Generation: top})
	must(err)
	return ix
}

func header(owner, gen uint64) btrfs.Header {
	h := make([]byte, btrfs.HeaderLen)
	binary.LittleEndian.PutUint64(h[80:], gen)
	binary.LittleEndian.PutUint64(h[88:], owner)
	return h
}

func itemHeader(id uint64, t uint8, off uint64, at, size int) []byte {
	return cat(le(8, id), []byte{t}, le(8, off), le(4, uint64(at)), le(4, uint64(size)))
}

func put(ix *index.Index, owner uint64, t uint8, id, off, gen uint64, data []byte) {
	must(ix.InsertItem(btrfs.Key{ObjectID: id, Type: t, Offset: off}, header(owner, gen),
		itemHeader(id, t, off, 0, len(data)), data))
}

func inode(mode uint32, size uint64, nlink, uid, gid uint32, mtime int64) []byte {
	t := cat(le(8, uint64(mtime)), le(4, 0))
	return cat(le(8, 1), le(8, 1), le(8, size), le(8, size), le(8, 0), le(4, uint64(nlink)),
		le(4, uint64(uid)), le(4, uint64(gid)), le(4, uint64(mode)), le(8, 0), le(8, 0), le(8, 0),
		make([]byte, 32), t, t, t, t)
}

func entry(name string, ftype uint8, id uint64, keyType uint8, keyOff uint64) []byte {
	return cat(le(8, id), []byte{keyType}, le(8, keyOff), le(8, 1), le(2, 0), le(2, uint64(len(name))),
		[]byte{ftype}, []byte(name))
}

func xattr(name, value string) []byte {
	return cat(le(8, 0), []byte{0}, le(8, 0), le(8, 1), le(2, uint64(len(value))), le(2, uint64(len(name))),
		[]byte{8}, []byte(name), []byte(value))
}

func putEntry(ix *index.Index, owner, dir uint64, name string, ftype uint8, id, gen uint64) {
	put(ix, owner, 84, dir, uint64(index.NameHash(name)), gen, entry(name, ftype, id, 1, 0))
}

func inline(data []byte) []byte {
	return cat(le(8, 1), le(8, uint64(len(data))), []byte{0, 0}, le(2, 0), []byte{0}, data)
}

func extent(typ byte, disk, diskNum, off, num uint64) []byte {
	return cat(le(8, 1), le(8, num), []byte{0, 0}, le(2, 0), []byte{typ}, le(8, disk), le(8, diskNum),
		le(8, off), le(8, num))
}

func chunk(length uint64, stripes ...uint64) []byte {
	b := cat(le(8, length), le(8, 2), le(8, 65536), le(8, 1), le(4, 4096), le(4, 4096), le(4, 4096),
		le(2, uint64(len(stripes))), le(2, 0))
	for i, s := range stripes {
		b = cat(b, le(8, uint64(i+1)), le(8, s), make([]byte, 16))
	}
	return b
}

// run executes the command line tool.
func run(args ...string) (string, string, error) {
	c := exec.Command(cli, args...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	c.Dir = scratch
	c.Env = append(os.Environ(), "TZ=UTC")
	must(c.Start())
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	return o.String(), e.String(), err
}

func tmp(name string) string { return filepath.Join(scratch, name) }

type leafItem struct {
	id   uint64
	t    uint8
	off  uint64
	data []byte
}

// leaf builds a metadata block.
func leaf(bs int, id uuid.UUID, owner, gen uint64, level byte, items ...leafItem) []byte {
	b := make([]byte, bs)
	copy(b[32:], id[:])
	binary.LittleEndian.PutUint64(b[80:], gen)
	binary.LittleEndian.PutUint64(b[88:], owner)
	binary.LittleEndian.PutUint32(b[96:], uint32(len(items)))
	b[100] = level
	end := bs - btrfs.HeaderLen
	for n, i := range items {
		end -= len(i.data)
		copy(b[btrfs.HeaderLen+end:], i.data)
		copy(b[btrfs.HeaderLen+25*n:], itemHeader(i.id, i.t, i.off, end, len(i.data)))
	}
	return b
}

const devSize = 64<<20 + 100*4096

func image(name string, size int64, blocks map[int64][]byte) string {
	f, err := os.Create(tmp(name))
	must(err)
	defer f.Close()
	must(f.Truncate(size))
	for at, b := range blocks {
		_, err := f.WriteAt(b, at)
		must(err)
	}
	return f.Name()
}

var _ = image

// fuseMount runs the mount command with one end of a socket for /dev/fuse.
type fuseMount struct {
	fd   int
	next uint64
	cmd  *exec.Cmd
	mu   sync.Mutex
	wait map[uint64]chan []byte
	dead bool
}

const fusermount = `#!/usr/bin/python3 -SE
import sys, socket, array
if sys.argv[1] == '-u':
    sys.exit(0)
fd = int(sys.argv[1].rsplit('-', 1)[1])
s = socket.socket(fileno=3)
s.sendmsg([b'x'], [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array('i', [fd]))])
`

func mount(metadata, img string) *fuseMount {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_SEQPACKET, 0)
	must(err)
	syscall.CloseOnExec(fds[0])
	for _, fd := range fds {
		syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_SNDBUF, 1<<22)
	}
	point := tmp(fmt.Sprintf("mnt-%d", fds[1]))
	must(os.MkdirAll(point, 0755))
	must(os.MkdirAll(tmp("bin"), 0755))
	os.Remove(tmp("bin/fusermount"))
	must(os.WriteFile(tmp("bin/fusermount"), []byte(fusermount), 0755))
	args := []string{"--metadata", metadata, "mount"}
	if img != "" {
		args = append(args, img)
	}
	m := &fuseMount{fd: fds[0], next: 2, wait: map[uint64]chan []byte{}}
	m.cmd = exec.Command(cli, append(args, point)...)
	m.cmd.Dir = scratch
	m.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	m.cmd.Env = append(os.Environ(), "TZ=UTC", "PATH="+tmp("bin")+":/usr/bin:/bin")
	var log bytes.Buffer
	m.cmd.Stderr = &log
	must(m.cmd.Start())
	syscall.Close(fds[1])
	go func() {
		b := make([]byte, 1<<22)
		for {
			n, err := syscall.Read(m.fd, b)
			if err == syscall.EINTR {
				continue
			}
			m.mu.Lock()
			if err != nil || n < 16 {
				m.dead = true
				for _, c := range m.wait {
					close(c)
				}
				m.mu.Unlock()
				return
			}
			u := binary.LittleEndian.Uint64(b[8:])
			if c := m.wait[u]; c != nil {
				delete(m.wait, u)
				c <- append([]byte(nil), b[:n]...)
			}
			m.mu.Unlock()
		}
	}()
	e, _ := m.ask(26, 0, cat(le(4, 7), le(4, 31), le(4, 1<<17), le(4, 0xffffffff&^(1<<24))))
	check(e == 0, "mount does not start: %d %s", e, log.String())
	return m
}

// ask sends a request and returns the error number (-1: no answer) and data.
func (m *fuseMount) ask(op uint32, node uint64, body []byte) (int, []byte) {
	c := make(chan []byte, 1)
	m.mu.Lock()
	u := m.next
	m.next += 2
	dead := m.dead
	if !dead {
		m.wait[u] = c
	}
	m.mu.Unlock()
	if dead {
		return -1, nil
	}
	b := cat(le(4, uint64(40+len(body))), le(4, uint64(op)), le(8, u), le(8, node), le(4, 0), le(4, 0), le(4, 1), le(4, 0), body)
	if _, err := syscall.Write(m.fd, b); err != nil {
		return -1, nil
	}
	select {
	case r, ok := <-c:
		if !ok {
			return -1, nil
		}
		return int(-int32(binary.LittleEndian.Uint32(r[4:]))), r[16:]
	case <-time.After(20 * time.Second):
		return -1, nil
	}
}

type fuseAttr struct {
	node, ino, size        uint64
	atime, mtime, ctime    uint64
	mode, nlink, uid, gid  uint32
	atimeN, mtimeN, ctimeN uint32
}

func parseAttr(b []byte) (a fuseAttr) {
	l, q := binary.LittleEndian.Uint32, binary.LittleEndian.Uint64
	return fuseAttr{ino: q(b), size: q(b[8:]), atime: q(b[24:]), mtime: q(b[32:]), ctime: q(b[40:]), atimeN: l(b[48:]),
		mtimeN: l(b[52:]), ctimeN: l(b[56:]), mode: l(b[60:]), nlink: l(b[64:]), uid: l(b[68:]), gid: l(b[72:])}
}

func (m *fuseMount) lookup(node uint64, name string) (fuseAttr, int) {
	e, b := m.ask(1, node, append([]byte(name), 0))
	if e != 0 {
		return fuseAttr{}, e
	}
	a := parseAttr(b[40:])
	a.node = binary.LittleEndian.Uint64(b)
	return a, 0
}

func (m *fuseMount) root() uint64 {
	a, e := m.lookup(1, "rescue")
	check(e == 0, "no rescue directory: %d", e)
	return a.node
}

func (m *fuseMount) getattr(node uint64) (fuseAttr, int) {
	e, b := m.ask(3, node, make([]byte, 16))
	if e != 0 {
		return fuseAttr{}, e
	}
	return parseAttr(b[16:]), 0
}

func (m *fuseMount) open(op uint32, node uint64, flags uint64) (uint64, int) {
	e, b := m.ask(op, node, cat(le(4, flags), le(4, 0)))
	if e != 0 {
		return 0, e
	}
	return binary.LittleEndian.Uint64(b), 0
}

func (m *fuseMount) read(node, fh, off uint64, n int) ([]byte, int) {
	e, b := m.ask(15, node, cat(le(8, fh), le(8, off), le(4, uint64(n)), make([]byte, 20)))
	return b, e
}

func (m *fuseMount) readdir(node uint64) (names []string) {
	fh, e := m.open(27, node, 0)
	check(e == 0, "opendir: %d", e)
	off := uint64(0)
	for {
		e, b := m.ask(28, node, cat(le(8, fh), le(8, off), le(4, 60000), make([]byte, 20)))
		check(e == 0, "readdir: %d", e)
		if len(b) == 0 {
			break
		}
		for len(b) >= 24 {
			off = binary.LittleEndian.Uint64(b[8:])
			n := int(binary.LittleEndian.Uint32(b[16:]))
			if s := string(b[24 : 24+n]); s != "." && s != ".." {
				names = append(names, s)
			}
			b = b[(24+n+7)/8*8:]
		}
	}
	m.ask(29, node, cat(le(8, fh), make([]byte, 16)))
	return
}

func (m *fuseMount) getxattr(node uint64, name string) (string, int) {
	e, b := m.ask(22, node, cat(le(4, 65536), le(4, 0), []byte(name), []byte{0}))
	return string(b), e
}

func (m *fuseMount) stop() {
	m.cmd.Process.Kill()
	m.cmd.Wait()
}
