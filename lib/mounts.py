"""C15-C17: the mounted view, observed by speaking its protocol."""
import hashlib, os, re, shutil, struct, subprocess
from common import *
from meta import *
from load import load
from indexes import negative_controls
from trees import FS, RFS, Contents, WORDS, DEVSIZE, LOGBASE, ok_name
import fuse
from fuse import Mount, Gone, entry, attr, dirents

XNAMES = [b'user.a', b'user.b', b'user.comment', b'security.selinux', b'system.posix_acl_access', b'trusted.x', b'user.' + b'n' * 200,
          b'a', b'user.\xc3\xbc', b'user.A', b'security.capability', b'security.ima', b'system.posix_acl_default', b'btrfs.compression',
          b'trusted.overlay.opaque', b'user.x', b'user.']


def possible(c):
    return c not in (b'', b'.', b'..') and b'/' not in c and b'\x00' not in c


class VFS(RFS):
    """Metadata with extended attributes."""

    def build(self):
        RFS.build(self)
        r = self.rng
        objs = sorted({(o, i) for (o, t, i, f, g) in self.m.items if t == TINODE and i >= 256})
        for o, i in objs:
            if r.random() < self.get('xattrs', .3):
                for n in r.sample(XNAMES, r.choice([1, 1, 2, 4])):
                    self.xattr(o, i, n)
                if r.random() < .2:
                    for n in r.choice(COLLIDING):
                        self.xattr(o, i, n)
                if r.random() < .03:
                    for n in range(r.choice([20, 70])):
                        self.xattr(o, i, b'user.x%d' % n)
        return self

    def xattr(self, o, i, name):
        r = self.rng
        h = name_hash(name) if r.random() < .9 else r.choice([0, 1, U64])
        shared = [g for g in self.gens if (o, TXATTR, i, h, g) in self.m.items]
        data = lambda n: bytes(r.randrange(256) for _ in range(n))
        if shared:
            self.m.entry(o, i, name, 8, (0, 0, 0), max(shared), key=h, t=TXATTR, data=data(3))
            return
        self.put_versions(lambda g, real: self.m.entry(o, i, name if real else r.choice([name, b'user.gone']), 8, (0, 0, 0), g,
                                                       key=h, t=TXATTR, data=data(r.choice([0, 1, 20, 3000, 3000, 4096, 9000] if real else [7]))))


class Session:
    """A client of the mounted view that records what it is told"""

    def __init__(self, mt, names, rng):
        self.mt, self.names, self.rng = mt, names, rng
        self.ops, self.nodes, self.top = [], {}, 0
        self.numbers = {}
        self.kids = {}          # slot -> live slots below
        self.up = {}
        self.attrs = {}
        self.listed = {}        # slot -> names
        self.files = {}         # open handles: handle id -> (slot, fh)
        self.mfiles = []        # open handles of the metadata file
        self.metadata_node, self.metadata = None, b''
        self.faults, self.failures = None, 0     # log of what was made to fail

    def ino(self, n):
        return self.numbers.setdefault(n, len(self.numbers) + 1)

    def slot(self, node, a, up):
        self.top += 1
        self.nodes[self.top] = node
        self.attrs[self.top] = a
        self.kids[self.top] = set()
        self.up[self.top] = up
        if up:
            self.kids[up].add(self.top)
        return self.top

    def shown(self, a):
        return {'a': {k: a[k] for k in ('mode', 'size', 'nlink', 'uid', 'gid', 'times')}, 'ino': self.ino(a['ino'])}

    def rec(self, op, obs, **kw):
        self.ops.append(dict(kw, op=op, obs=obs))

    def is_dir(self, s):
        return int(self.attrs[s]['mode']) >> 12 == 4

    def is_reg(self, s):
        return int(self.attrs[s]['mode']) >> 12 == 8

    # Every request in two halves: what to send, and what to make of the answer

    def own(self):
        def done(e, b):
            self.rec('own', {'r': 'ok', 'ino': self.ino(attr(b, 16)['ino'])} if e == 0 else {'r': 'err', 'e': e}, which=0)
        return fuse.GETATTR, 1, struct.pack('<IIQ', 0, 0, 0), done

    def own_metadata(self):
        def done(e, b):
            self.rec('own', {'r': 'ok', 'ino': self.ino(entry(b)[1]['ino'])} if e == 0 else {'r': 'err', 'e': e}, which=1)
            if e == 0:
                self.metadata_node = entry(b)[0]
                self.rec('mattr', {'r': 'ok', 'type': entry(b)[1]['mode'], 'size': entry(b)[1]['size']})
        return fuse.LOOKUP, 1, b'metadata\0', done

    # The copy of the index file in the view

    def mopen(self, flags=0):
        def done(e, b):
            self.rec('mopen', {'r': 'ok'} if e == 0 else {'r': 'err', 'e': e})
            if e == 0:
                self.mfiles.append(struct.unpack_from('<Q', b)[0])
        return fuse.OPEN, self.metadata_node, struct.pack('<II', flags, 0), done

    def mread(self):
        fh = self.rng.choice(self.mfiles)
        size = len(self.metadata)
        off = self.rng.choice([0, 0, 4096, size - 1, size, size + 1, max(0, size - 4096), self.rng.randrange(size)])
        n = self.rng.choice([1, 100, 4096, 16384, 49152])      # more would be spliced in several packets

        def done(e, b):
            self.rec('mread', {'r': 'ok', 'n': len(b), 'same': b == self.metadata[off:off + len(b)]} if e == 0 else {'r': 'err', 'e': e},
                     off=off, len=n)
        return fuse.READ, self.metadata_node, struct.pack('<QQIIQII', fh, off, n, 0, 0, 0, 0), done

    def mrelease(self):
        fh = self.mfiles.pop(self.rng.randrange(len(self.mfiles)))
        return fuse.RELEASE, self.metadata_node, struct.pack('<QIIQ', fh, 0, 0, 0), lambda e, b: None

    def some_metadata(self, n):
        """Requests on the metadata file, to be sent one by one"""
        for _ in range(n if self.metadata_node else 0):
            w = self.rng.random()
            if not self.mfiles or w < .25:
                self.do(self.mopen())
            elif w < .45:
                self.do(self.mrelease())
            else:
                self.do(self.mread())

    def enter(self):
        def done(e, b):
            if e == 0:
                node, a = entry(b)
                s = self.slot(node, a, 0)
                self.rec('enter', dict(self.shown(a), r='ok'), to=s)
            else:
                self.rec('enter', {'r': 'err', 'e': e}, to=0)
        return fuse.LOOKUP, 1, b'rescue\0', done

    def lookup(self, s, name):
        def done(e, b):
            if e == 0:
                node, a = entry(b)
                t = self.slot(node, a, s)
                self.rec('lookup', dict(self.shown(a), r='ok'), n=s, name=self.names(name), to=t)
            else:
                self.rec('lookup', {'r': 'err', 'e': e}, n=s, name=self.names(name), to=0)
        return fuse.LOOKUP, self.nodes[s], name + b'\0', done

    def getattr(self, s, fh=None):
        def done(e, b):
            self.rec('getattr', dict(self.shown(attr(b, 16)), r='ok') if e == 0 else {'r': 'err', 'e': e}, n=s)
        return fuse.GETATTR, self.nodes[s], struct.pack('<IIQ', 0 if fh is None else 1, 0, fh or 0), done

    def readlink(self, s):
        def done(e, b):
            self.rec('readlink', {'r': 'ok', 'target': list(b)} if e == 0 else {'r': 'err', 'e': e}, n=s)
        return fuse.READLINK, self.nodes[s], b'', done

    def getxattr(self, s, name, size=65536):
        def done(e, b):
            if e == 0 and size == 0:
                n = struct.unpack('<II', b)[0]
                self.rec('xattrsize', {'r': 'ok', 'len': n}, n=s, name=self.names(name))
            elif e == 0:
                self.rec('getxattr', {'r': 'ok', 'val': self.names.known(b)}, n=s, name=self.names(name))
            else:
                self.rec('getxattr', {'r': 'err', 'e': e}, n=s, name=self.names(name))
        return fuse.GETXATTR, self.nodes[s], struct.pack('<II', size, 0) + name + b'\0', done

    def listxattr(self, s):
        def done(e, b):
            l = b.split(b'\0')
            whole = l[-1] == b''
            self.xattrs = l[:-1] if e == 0 and whole else []
            self.rec('listxattr', {'r': 'ok' if whole else 'garbage', 'list': [self.names.known(x) for x in l[:-1]]} if e == 0
                     else {'r': 'err', 'e': e}, n=s)
        return fuse.LISTXATTR, self.nodes[s], struct.pack('<II', 65536, 0), done

    def dump_xattrs(self, s):
        self.do(self.listxattr(s))
        for name in self.rng.sample(self.xattrs, min(3, len(self.xattrs))):
            if b'\0' not in name:
                self.do(self.getxattr(s, name))

    # Directory listings are several requests

    def opendir(self, s, then):
        def done(e, b):
            if e:
                self.rec('readdir', {'r': 'err', 'e': e}, n=s)
            else:
                then(struct.unpack_from('<Q', b)[0])
        return fuse.OPENDIR, self.nodes[s], struct.pack('<II', 0, 0), done

    def page(self, s, fh, off, size, plus):
        return (fuse.READDIRPLUS if plus else fuse.READDIR, self.nodes[s], struct.pack('<QQIIQII', fh, off, size, 0, 0, 0, 0))

    def listing(self, s, l):
        out, dots = [], set()
        for off, name, typ, node, a in l:
            if name in (b'.', b'..'):        # not more than one of each
                if name in dots:
                    out.append({'name': -1, 'type': 0, 'plus': False})
                dots.add(name)
                continue
            d = {'name': self.names.known(name), 'type': typ & 15, 'plus': node != 0}
            if node != 0:
                d.update(self.shown(a))
            out.append(d)
            self.listed.setdefault(s, set()).add(name)
        return out

    def readdir(self, s):
        """A complete listing, in pages; sometimes twice on the same handle, sometimes from the middle"""
        r = self.rng
        e, b = self.mt.ask(*self.opendir(s, None)[:3])
        if e:
            self.rec('readdir', {'r': 'err', 'e': e}, n=s)
            return
        fh = struct.unpack_from('<Q', b)[0]
        for _ in range(r.choice([1, 1, 2])):
            plus = r.random() < .4
            off, got, cookies = 0, [], []
            while True:
                size = r.choice([700, 1000, 4096, 4096]) if plus else r.choice([300, 500, 4096, 4096])
                e, b = self.mt.ask(*self.page(s, fh, off, size, plus))
                if e:
                    break
                l = dirents(b, plus)
                if not l:
                    break
                got += l
                off = l[-1][0]
                cookies += [x[0] for x in l]
                if len(got) > 5000:
                    e = 9999
                    break
            if e:
                self.rec('readdir', {'r': 'err', 'e': e}, n=s)
                continue
            if len(cookies) > 2 and r.random() < .3:      # again from somewhere
                k = r.randrange(len(cookies) - 1)
                e, b = self.mt.ask(*self.page(s, fh, cookies[k], 1 << 16, plus))
                l = dirents(b, plus) if e == 0 else []
                if e or not l or [x[1] for x in l] != [x[1] for x in got[k + 1:k + 1 + len(l)]]:
                    got = got[:k + 1] + l
            self.rec('readdir', {'r': 'ok', 'list': self.listing(s, got)}, n=s)
        self.mt.ask(fuse.RELEASEDIR, self.nodes[s], struct.pack('<QIIQ', fh, 0, 0, 0))

    def open(self, s, flags=0):
        def done(e, b):
            self.rec('open', {'r': 'ok'} if e == 0 else {'r': 'err', 'e': e}, n=s)
            if e == 0:
                self.files[len(self.files)] = (s, struct.unpack_from('<Q', b)[0])
        return fuse.OPEN, self.nodes[s], struct.pack('<II', flags, 0), done

    def read(self, h, off, n, base, size_at):
        """size_at: positions, absolute, that are compared if they are in the window"""
        s, fh = self.files[h]

        def done(e, b):
            if e:
                self.rec('read', {'r': 'err', 'e': e}, n=s, off=clip(off - base), len=n)
                return
            if len(b) <= 4096:
                at = range(len(b))
            else:
                at = sorted({p - off for p in size_at if 0 <= p - off < len(b)} | {0, len(b) - 1})
            self.rec('read', {'r': 'ok', 'n': len(b), 'at': [clip(off + k - base) for k in at], 'bytes': [b[k] for k in at]},
                     n=s, off=clip(off - base), len=n)
        return fuse.READ, self.nodes[s], struct.pack('<QQIIQII', fh, off, n, 0, 0, 0, 0), done

    def release(self, h):
        s, fh = self.files.pop(h)
        return fuse.RELEASE, self.nodes[s], struct.pack('<QIIQ', fh, 0, 0, 0), lambda e, b: None

    def can_forget(self):
        used = {s for s, fh in self.files.values()}
        return [s for s in self.nodes if self.up[s] and not self.kids[s] and s not in used]

    def forget(self, s):
        self.mt.send(fuse.FORGET, self.nodes[s], struct.pack('<Q', 1))
        self.kids[self.up[s]].discard(s)
        del self.nodes[s]
        self.rec('forget', {'r': 'ok'}, n=s)

    def do(self, req):
        op, node, body, done = req
        try:
            e, b = self.mt.ask(op, node, body)
        except Gone as g:
            self.died(g, op)
            raise
        done(e, b)
        if self.faults and op == fuse.READ:
            with open(self.faults) as fh:
                n = fh.read().count('(INJECTED)')
            self.ops[-1]['failed'] = n > self.failures
            self.failures = n

    def burst(self, reqs):
        """All at once"""
        try:
            us = [(self.mt.send(op, node, body), done) for op, node, body, done in reqs]
            for u, done in us:
                e, b = self.mt.collect(u)
                done(e, b)
        except Gone as g:
            self.died(g, 0)
            raise

    def died(self, g, op):
        try:
            with open(self.mt.errpath, 'rb') as fh:
                said = fh.read()[-2000:].decode('latin-1')
        except OSError:
            said = ''
        self.rec('open', {'r': g.how, 'request': op, 'said': said}, n=0)


RACE = re.compile(r'WARNING: DATA RACE\n(.*?)\n==================', re.S)


def own_races(text):
    """Races between accesses of the code under test itself"""
    n = 0
    for rep in RACE.findall(text):
        own = False
        for part in re.split(r'\n\n', rep):
            head, _, frames = part.partition('\n')
            if not re.search(r'(?i)(read|write) at 0x', head):
                continue
            for f in re.findall(r'^  (\S.*?)\(', frames, re.M):
                if f.startswith(('runtime.', 'sync.', 'internal/', 'strings.', 'sort.')):
                    continue
                own |= f.startswith('blichmann.eu/code/btrfscue')
                break
        n += own
    return n


class MountBatch:
    def __init__(self, ctx, name='mount'):
        self.ctx, self.name, self.scens = ctx, name, []

    def add(self, m, script, size=DEVSIZE, logbase=LOGBASE, posbase=None, race=False, yielding=False):
        """script: function of a session; size: of the device, 0 for none"""
        self.scens.append((m, script, size, logbase, posbase, (race, yielding)))

    def prefix(self, n, rng, sd, image):
        return (), None

    def run(self, workers=CORES):
        ctx = self.ctx
        exes = {b: ctx.yielding(b[0]) if b[1] else ctx.cli(b[0]) for b in sorted({s[5] for s in self.scens})}
        d = ctx.dir(self.name)
        load(ctx, [(s[0], os.path.join(d, str(n), 'm')) for n, s in enumerate(self.scens)])
        vals = {0, 1, 3, 5, 256, LAST}
        for s in self.scens:
            vals |= values(s[0])
        pal = Palette(vals)
        images = {0: None}
        for s in self.scens:
            if s[2] not in images:
                images[s[2]] = os.path.join(d, 'img-%d' % s[2])
                with open(images[s[2]], 'wb') as fh:
                    fh.write(dev_bytes(s[2]))
        seeds = [ctx.rng.randrange(1 << 60) for _ in self.scens]

        def work(n):
            m, script, size, logbase, posbase, build = self.scens[n]
            race = build[0]
            names = Names()
            sd = os.path.join(d, str(n))
            items = [decode_item(k, v, pal, names, posbase, logbase) for k, v in m.items.items()]
            rng = random.Random(seeds[n])
            inputs = [p for p in (os.path.join(sd, 'm'), images[size]) if p]
            before = [fingerprint(p) for p in inputs]
            env = {'GORACE': 'halt_on_error=0 history_size=5'} if race else {}
            pre, log = self.prefix(n, rng, sd, images[size])
            mt = Mount(exes[build], os.path.join(sd, 'mnt'), os.path.join(sd, 'm'), images[size], env=env, prefix=pre)
            s = Session(mt, names, rng)
            s.faults = log
            with open(os.path.join(sd, 'm'), 'rb') as fh:
                s.metadata = fh.read()
            err = b''
            try:
                try:
                    if not mt.alive:
                        raise Gone('died')
                    script(s)
                except Gone as g:
                    if not s.ops or s.ops[-1]['obs']['r'] in ('ok', 'err'):
                        s.died(g, 0)
            finally:
                rc, err = mt.stop()
            text = err.decode(errors='replace')
            panic = 'panic:' in text or 'fatal error:' in text
            s.rec('inputs', {'r': 'ok', 'same': [fingerprint(p) for p in inputs] == before})
            s.rec('end', {'r': 'crash' if panic else 'ok', 'races': own_races(text) if race else 0, 'rc': rc if rc is not None else -1})
            if panic or 'DATA RACE' in text:
                s.ops[-1]['err'] = text[-4000:]
            ctx.count('requests', len(s.ops))
            shutil.rmtree(os.path.join(sd, 'mnt'), ignore_errors=True)
            return {'items': items, 'ops': s.ops, 'img': size, 'indexsize': len(s.metadata),
                    'impossible': [k + 1 for k, x in enumerate(names.list) if not possible(x)],
                    'names': [list(x) if len(x) < 300 else [] for x in names.list]}

        res = ctx.parallel(work, range(len(self.scens)), workers)
        for s in res:
            for o in s['ops']:
                ctx.count('op_' + o['op'])
        ctx.sample(res[0])
        h = {'r0': pal(0), 'r1': pal(1), 'r3': pal(3), 'r5': pal(5), 'r256': pal(256), 'last': pal(LAST)}
        ctx.trace('TraceView', h, res)


def fingerprint(p):
    st = os.stat(p)
    with open(p, 'rb') as fh:
        return st.st_size, st.st_mtime_ns, st.st_mode, hashlib.sha256(fh.read()).hexdigest()


def all_names(m):
    out = {b'nothing', b'A', b'x' * 255, b'rescue', b'metadata'}
    for (o, t, i, f, g), data in m.items.items():
        if t == TDIR:
            out |= {e[5] for e in walk_entries(data)}
    return sorted(c for c in out if possible(c) and len(c) < 256)


def walk_view(m, budget):
    """A script that walks through the whole view, then asks random things"""
    names = all_names(m)

    def script(s):
        r = s.rng
        first = [s.own(), s.own_metadata(), s.enter()]
        r.shuffle(first)
        for q in first:
            s.do(q)
        todo = [1]
        while todo and len(s.ops) < budget and s.nodes:
            k = todo.pop(r.randrange(len(todo)) if r.random() < .5 else 0)
            if k not in s.nodes or not s.is_dir(k):
                continue
            if r.random() < .8:
                s.readdir(k)
            known = [c for c in sorted(s.listed.get(k, ())) if possible(c)] + r.sample(names, min(2, len(names)))
            r.shuffle(known)
            for c in known[:12]:
                s.do(s.lookup(k, c))
                t = s.top if s.ops[-1]['obs']['r'] == 'ok' else None
                if t:
                    if s.is_dir(t):
                        todo.append(t)
                    elif int(s.attrs[t]['mode']) >> 12 == 10 and r.random() < .8:
                        s.do(s.readlink(t))
                    if r.random() < .3:
                        s.dump_xattrs(t)
        s.some_metadata(r.choice([0, 0, 3, 10]))
        for _ in range(budget // 3):
            slots = sorted(s.nodes)
            if not slots:
                break
            k = r.choice(slots)
            w = r.random()
            if w < .2:
                s.do(s.getattr(k))
            elif w < .3:
                s.dump_xattrs(k)
            elif w < .5:
                s.do(s.getxattr(k, r.choice(XNAMES + [b'user.gone', b'user', b'user.aa', b'cm3qug', b'53pr53'])))
            elif w < .6 and int(s.attrs[k]['mode']) >> 12 == 10:
                s.do(s.readlink(k))
            elif w < .9 and s.is_dir(k):
                if r.random() < .2:
                    s.readdir(k)
                else:
                    l = [c for c in sorted(s.listed.get(k, ())) if possible(c)]
                    s.do(s.lookup(k, r.choice(l) if l and r.random() < .6 else r.choice(names)))
            elif s.can_forget():
                s.forget(r.choice(s.can_forget()))
    return script


def check_C15(ctx):
    rng = ctx.rng
    b = MountBatch(ctx)
    for k in range(ctx.pick(300, 2500)):
        fs = VFS(rng, alias=.3, bad=rng.choice([0, 0, .1]), low=rng.choice([0, .1]), mistype=rng.choice([0, 0, .2]),
                 deep=90 if k % 100 == 99 else 0, wide=[1100, 300][k // 100 % 2] if k % 100 == 49 else 0).build()
        b.add(fs.m, walk_view(fs.m, 500 if k % 50 == 49 else rng.choice([40, 120])), size=rng.choice([0, DEVSIZE]))
    b.run()


def lookup_path(s, at, path):
    for c in path:
        s.do(s.lookup(at, c))
        if s.ops[-1]['obs']['r'] != 'ok':
            return None
        at = s.top
    return at


def window(r, size, base, points):
    """A window of a file"""
    n = r.choice([1, 1, 2, 7, 33, 100, 300, 300, 512, 4096, 4096, 4097, 16384, 131072])
    w = r.random()
    if w < .6 and points:
        off = r.choice(points) - r.choice([0, 0, 0, 1, n - 1, n, r.randrange(n + 1)])
    elif w < .75:
        off = size + r.choice([0, 0, -1, 1, -n, -n + 1, 5, 1 << 20])
    else:
        off = base + r.randrange(max(1, size - base + 10)) if size > base else r.randrange(size + 2)
    off = max(0, off)
    # Positions far from the base are not told apart
    if base >= CAP and 0 < size < base - CAP // 2 and off < size:
        off = size
    return off, n


def read_files(files, reads, many=False):
    """files: {path: (base, points)}"""

    def script(s):
        r = s.rng
        s.do(s.enter())
        if not s.nodes:
            return
        at = {}
        for path in sorted(files):
            t = lookup_path(s, 1, path)
            if t and s.is_reg(t):
                at[t] = files[path]
        if not at:
            return

        def one(h):
            base, points = at[s.files[h][0]]
            size = int(s.attrs[s.files[h][0]]['size'])
            off, n = window(r, size, base, points)
            if 1 << 31 <= base <= 1 << 33:   # the extents that begin before are only judged from there
                off = max(off, base)
            some = [p for p in points if off <= p < off + n]
            more = {off + r.randrange(n) for _ in range(40)} | set(r.sample(some, min(len(some), 60)))
            return s.read(h, off, n, base, more | {p + 1 for p in more} | {off + 4095, off + 4096})
        for _ in range(reads):
            w = r.random()
            if not s.files or w < .12:
                s.do(s.open(r.choice(sorted(at))))
            elif w < .18 and len(s.files) > 1:
                s.do(s.release(r.choice(sorted(s.files))))
            elif w < .25:
                h = r.choice(sorted(s.files))
                s.do(s.getattr(s.files[h][0], s.files[h][1]))
            elif many and w < .6:
                s.burst([one(r.choice(sorted(s.files))) for _ in range(r.randint(2, 12))])
            elif w < .4:            # a file from its start to its end, in pieces
                h = r.choice(sorted(s.files))
                base, points = at[s.files[h][0]]
                size = int(s.attrs[s.files[h][0]]['size'])
                if base == 0 and size <= 3000:
                    step = r.choice([1 + size // 7, 1 + size // 3, 4096])
                    for off in range(0, size + step, step):
                        s.do(s.read(h, off, step, base, points))
                else:
                    s.do(one(h))
            else:
                s.do(one(r.choice(sorted(s.files))))
    return script


def tree_files(fs):
    """Paths of the files of a random tree"""
    out, todo, seen = {}, [((5, 256), ())], set()
    while todo:
        d, path = todo.pop()
        if d in seen:
            continue
        seen.add(d)
        for name, ft, t in fs.children.get(d, ()):
            if not possible(name):
                continue
            if ft == FT_DIR:
                todo.append((t, path + (name,)))
            elif ft == FT_FILE:
                out[path + (name,)] = (0, [0, 1, 5, 20, 40])
    return dict(sorted(out.items())[:8])


def check_C16(ctx):
    rng = ctx.rng
    ctx.model('MCExtents', ctx.pick('MCExtents.cfg', 'MCExtentsDeep.cfg'))
    negative_controls(ctx, ['keyorder', 'noend', 'oldest'])
    b = MountBatch(ctx)
    for k in range(ctx.pick(300, 2000)):
        if k % 6 == 5:
            fs = VFS(rng).build()
            b.add(fs.m, read_files(tree_files(fs), 40), size=rng.choice([0, DEVSIZE, DEVSIZE]))
        else:
            c = Contents(rng, k % 6 == 4)
            files = {p: v for p, v in c.interest.items()}
            b.add(c.m, read_files(files, 40), size=c.size if rng.random() < .95 else 0, logbase=c.logbase, posbase=c.posbase)
    b.run()


def bursts(m, rounds, width, files):
    """Many requests at once: the same ones, ones about the same node, and different ones"""
    names = all_names(m)
    base_names = names[:]

    def script(s):
        r = s.rng
        first = [s.enter() for _ in range(r.choice([1, 3, 8]))] + [s.own() for _ in range(2)] + [s.own_metadata() for _ in range(2)]
        r.shuffle(first)
        s.burst(first)
        if not s.nodes:
            return
        swept = set()
        for _ in range(rounds):
            slots = sorted(s.nodes)
            focus = r.sample(slots, min(len(slots), r.choice([1, 1, 2, 6])))
            if r.random() < .5:
                focus += slots[-2:]
            focus = sorted(set(focus))
            for _ in range(r.randrange(len(s.mfiles)) if s.mfiles else 0):
                s.do(s.mrelease())
            reqs, pages = [], []
            mix = r.choice(['all', 'lookup', 'list', 'attr', 'read', 'all', 'metadata'])
            hot = r.sample(names, min(len(names), 3))
            fresh = [k for k in slots if s.is_dir(k) and k not in swept]
            if fresh and r.random() < .6:       # everything there is, for the first time
                for k in r.sample(fresh, min(len(fresh), 3)):
                    swept.add(k)
                    focus.append(k)
                    reqs += [s.lookup(k, c) for c in names]
                r.shuffle(reqs)
                mix = 'sweep'
            for _ in range(r.randint(2, width)):
                k = r.choice(focus)
                w = r.random()
                if mix == 'sweep':
                    break
                elif mix == 'metadata' and s.metadata_node:
                    reqs.append(s.mread() if s.mfiles and w < .7 else s.mopen())
                elif s.is_dir(k) and (mix == 'lookup' or mix == 'all' and w < .4):
                    l = sorted(c for c in s.listed.get(k, ()) if possible(c))
                    v = r.random()
                    c = r.choice(hot) if v < .3 else r.choice(l) if l and v < .8 else r.choice(names)
                    reqs.append(s.lookup(k, c))
                elif s.is_dir(k) and (mix == 'list' or mix == 'all' and w < .6):
                    reqs.append(s.opendir(k, lambda fh, k=k: pages.append((k, fh))))
                elif mix == 'attr' or w < .7:
                    reqs.append(s.getattr(k))
                elif w < .75:
                    reqs.append(s.listxattr(k))
                elif w < .8:
                    reqs.append(s.getxattr(k, r.choice(XNAMES)))
                elif int(s.attrs[k]['mode']) >> 12 == 10:
                    reqs.append(s.readlink(k))
                elif s.is_reg(k) and (len(s.files) < 3 or w > .97):
                    reqs.append(s.open(k))
                elif s.files:
                    h = r.choice(sorted(s.files))
                    k = s.files[h][0]
                    size = int(s.attrs[k]['size'])
                    off, n = window(r, size, 0, [0, size, size // 2, 4096])
                    reqs.append(s.read(h, off, n, 0, {off + r.randrange(n) for _ in range(30)}))
            gone = [k for k in s.can_forget() if r.random() < .3 and k not in focus] if r.random() < .5 else []
            for k in gone:
                s.forget(k)
            s.burst(reqs)
            if pages:       # every listing is independent of the others
                asked = []
                for k, fh in pages:
                    plus = r.random() < .5

                    def done(e, b, k=k, plus=plus):
                        s.rec('readdir', {'r': 'ok', 'list': s.listing(k, dirents(b, plus))} if e == 0 else {'r': 'err', 'e': e}, n=k)
                    asked.append(s.page(k, fh, 0, 100000, plus) + (done,))
                    if s.is_dir(k) and r.random() < .5:
                        asked.append(s.lookup(k, r.choice(names)))
                s.burst(asked)
                s.burst([(fuse.RELEASEDIR, s.nodes[k], struct.pack('<QIIQ', fh, 0, 0, 0), lambda e, b: None) for k, fh in pages])
    return script


def check_C17(ctx):
    rng = ctx.rng
    ctx.model('MCMount', 'MCMount.cfg')
    if ctx.thorough:
        ctx.model('MCMount', 'MCMountDeep.cfg')
    negative_controls(ctx, ['nolock', 'held', 'order', 'numbers'])
    b = MountBatch(ctx)
    for k in range(ctx.pick(300, 2000)):
        build = {'race': k % 2 == 0, 'yielding': k % 3 != 0}
        if k % 10 == 9:
            build['race'] = k % 20 == 9
            c = Contents(rng)
            b.add(c.m, read_files(c.interest, 25, True), size=c.size, logbase=c.logbase, posbase=c.posbase, **build)
        else:
            fs = VFS(rng, alias=.3, dirs=(1, 4), files=(2, 8), subvols=rng.choice([0, 1, 3]), missing=.03).build()
            b.add(fs.m, bursts(fs.m, rng.choice([4, 8, 12]), rng.choice([12, 40]), None), **build)
    b.run()
