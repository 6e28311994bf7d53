"""Talks the FUSE protocol to a real `btrfscue mount` process.  A stand-in for
the fusermount helper hands it one end of a socket instead of /dev/fuse, so
nothing is ever mounted and the whole command runs as it is."""
import fcntl, os, select, signal, socket, struct, subprocess, time

HELPER = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fusermount')
(LOOKUP, FORGET, GETATTR, SETATTR, READLINK, SYMLINK, MKNOD, MKDIR, UNLINK, RMDIR, RENAME, LINK, OPEN, READ, WRITE, STATFS, RELEASE,
 FSYNC, SETXATTR, GETXATTR, LISTXATTR, REMOVEXATTR, FLUSH, INIT, OPENDIR, READDIR, RELEASEDIR, ACCESS, CREATE, FALLOCATE,
 READDIRPLUS, RENAME2, COPYRANGE) = (1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 28,
                                     29, 34, 35, 43, 44, 45, 47)
ENOENT, EIO, ENODATA = 2, 5, 61


class Gone(Exception):
    """The process does not answer."""

    def __init__(self, how):
        Exception.__init__(self, how)
        self.how = how


def attr(b, at=0):
    ino, size, blocks, a, m, c = struct.unpack_from('<QQQqqq', b, at)
    an, mn, cn, mode, nlink, uid, gid, rdev, blk = struct.unpack_from('<9I', b, at + 48)
    return {'ino': ino, 'size': str(size), 'mode': str(mode), 'nlink': str(nlink), 'uid': str(uid), 'gid': str(gid),
            'times': ['%d.%09d' % x for x in ((a, an), (m, mn), (c, cn))]}


class Mount:
    hangs = 0

    def __init__(self, exe, base, metadata, image=None, env=None, timeout=20, prefix=(), **kw):
        self.timeout, self.base = timeout, base
        os.makedirs(base, exist_ok=True)
        self.sock, other = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for s in (self.sock, other):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 22)
        fd = fcntl.fcntl(other.fileno(), fcntl.F_DUPFD, 200)
        other.close()
        self.point = os.path.join(base, 'mnt-%d' % fd)
        os.mkdir(self.point)
        h = os.path.join(base, 'bin')
        if not os.path.isdir(h):
            os.mkdir(h)
            # Not written from here, as a child of another thread might keep it open: it could not be executed then
            subprocess.run(['install', '-m', '755', HELPER, h + '/fusermount'], check=True)
        e = dict(os.environ)
        e.pop('BTRFSCUE_METADATA', None)
        e.update(TZ='UTC', PATH=h + ':/usr/bin:/bin', **(env or {}))
        self.errpath = os.path.join(base, 'stderr')
        with open(self.errpath, 'wb') as err:
            self.p = subprocess.Popen([*prefix, exe, '--metadata', metadata, 'mount'] + ([image] if image else []) + [self.point],
                                      stdin=subprocess.DEVNULL, stdout=err, stderr=err, cwd=base, env=e, pass_fds=[fd],
                                      start_new_session=True, **kw)
        os.close(fd)
        self.next, self.answers = 2, {}
        self.alive = True
        try:
            r = self.ask(INIT, 0, struct.pack('<IIII', 7, 31, 1 << 17, 0xffffffff & ~(1 << 24)))
            if r[0] != 0:
                raise Gone('init')
        except Gone:
            pass

    def send(self, op, nodeid, body=b''):
        u = self.next
        self.next += 2
        try:
            self.sock.send(struct.pack('<IIQQIIII', 40 + len(body), op, u, nodeid, 0, 0, 1, 0) + body)
        except OSError:
            self.alive = False
            raise Gone(self.how())
        return u

    def how(self):
        """What became of the process"""
        self.alive = False
        try:
            return 'died' if self.p.wait(1) is not None else 'silent'
        except subprocess.TimeoutExpired:
            return 'silent'

    def collect(self, u):
        """Answer to a request: (errno, data)"""
        # Once something hangs, everything else does not need to wait as long
        end = time.time() + (min(self.timeout, 4) if Mount.hangs > 2 else self.timeout)
        while u not in self.answers:
            left = end - time.time()
            if left <= 0 or not select.select([self.sock], [], [], left)[0]:
                self.alive = False
                Mount.hangs += 1
                raise Gone('hang')
            try:
                b = self.sock.recv(1 << 22)
            except OSError:
                b = b''
            if len(b) < 16:
                raise Gone(self.how())
            n, err, un = struct.unpack_from('<IiQ', b)
            self.answers[un] = (-err, b[16:])
        return self.answers.pop(u)

    def ask(self, op, nodeid, body=b''):
        return self.collect(self.send(op, nodeid, body))

    def stop(self):
        """Ends the process; returns its exit code (None if it had to be killed) and what it said"""
        rc = None
        if self.p.poll() is None and self.alive:
            self.sock.close()
            os.kill(self.p.pid, signal.SIGTERM)
            try:
                rc = self.p.wait(self.timeout)
            except subprocess.TimeoutExpired:
                pass
        if self.p.poll() is None:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        else:
            rc = self.p.returncode
        self.sock.close()
        return rc, open(self.errpath, 'rb').read()


def entry(b):
    return struct.unpack_from('<Q', b)[0], attr(b, 40)


def dirents(b, plus=False):
    """List of (offset cookie, name, type, node id, attributes)"""
    at, out = 0, []
    while at + (152 if plus else 24) <= len(b):
        node, a = 0, None
        if plus:
            node, a = entry(b[at:])
            at += 128
        ino, off, n, typ = struct.unpack_from('<QQII', b, at)
        out.append((off, b[at + 24:at + 24 + n], typ, node, a))
        at += (24 + n + 7) // 8 * 8
    return out
