"""C09-C13 and C21: directory trees shown by ls and restored by recover."""
import hashlib, os, re, shutil, stat, struct, subprocess
from common import *
from meta import *
from load import load
from indexes import negative_controls

WORDS = ['a', 'b', 'lost+found', 'etc', 'README', 'x.txt', 'Makefile', 'data', 'home', 'user1', 'photo 1.jpg', '.hidden',
         '...', '-rf', 'subvol_256', 'subvol_257', 'ü', 'über', '日本', "it's", 'a:b', '*', 'very' * 20, 'n' * 255, 'core', 'a\tb', 't\x0bab', 'f\x0cf', '\udcffc', 'x\udcff', '\udcfe\udc80', '\x01\x1b[0m',
         '0', 'A', 'tmp', 'new', 'old', 'link', 'dev', '%s', 'a=b', 'a ', '@home', '#1', '~', 'x\x7f', 'total 5', 'd', 'dir', 'sub']


SUBVOLS = [256, 257, 300, 4000, (1 << 32) + 300, 1 << 63, U64 - 300]


class FS:
    """Random filesystem metadata."""

    def __init__(self, rng, **opt):
        self.rng, self.m, self.opt = rng, Meta(), opt
        self.used = {}               # directory object -> names
        self.children = {}           # directory object -> [(name, type, target object)]
        self.next_id = {}
        self.odd = {}
        self.linkto = {}             # link object -> text
        self.gens = opt.get('gens') or [5, 6, 7, 9]

    def get(self, k, d=0):
        return self.opt.get(k, d)

    def new_id(self, owner):
        if self.rng.random() < self.get('low'):          # numbers that no file has
            n = self.rng.choice([0, 1, 2, 3, 4, 255, 1 << 63, (1 << 63) + 1, U64 - 300])
            if n not in self.odd.setdefault(owner, set()):
                self.odd[owner].add(n)
                return n
        n = self.next_id.get(owner, 256) + self.rng.choice([1, 1, 1, 2, 7])
        self.next_id[owner] = n
        if self.rng.random() < self.get('far', .08):     # differs from others in its upper half only
            n = self.rng.randrange(257, n + 1) + self.rng.choice([1 << 32, 1 << 32, 1 << 40, 1 << 62])
            while n in self.odd.setdefault(owner, set()):
                n += 1 << 33
            self.odd[owner].add(n)
        return n

    def attrs(self, ft, size=0):
        r = self.rng
        times = tuple((r.choice([0, 1, 86399, 1000000000, 1582934400 + r.randrange(10 ** 7), r.randrange(1 << 32), -r.randrange(1 << 30)]),
                       r.choice([0, 1, 999999999])) for _ in range(4))
        return dict(mode=S_IF.get(ft, 0) | r.choice([0o755, 0o644, 0, 0o777, 0o7777, r.randrange(0o10000)]), size=size,
                    nlink=r.choice([0, 1, 1, 2, 3, 4294967295]), uid=r.choice([0, 1000, 65534, 4294967295]),
                    gid=r.choice([0, 100, 4294967295]), times=times, gen=r.choice(self.gens),
                    nbytes=r.choice([0, size]), rdev=0)

    def put_versions(self, put):
        """Stores the thing itself, and sometimes other things in older versions."""
        gens = sorted(self.rng.sample(self.gens, self.rng.choice([1, 1, 1, 2, min(3, len(self.gens))])))
        for g in gens[:-1]:
            put(g, False)
        put(gens[-1], True)

    def inode(self, obj, ft, size=0):
        o, i = obj
        if self.rng.random() < self.get('missing', .06):
            return
        self.put_versions(lambda g, real: self.m.inode(o, i, g, **self.attrs(ft if real else self.rng.choice([1, 2, 7]),
                                                                            size if real else self.rng.randrange(5000))))

    def name(self, d):
        used = self.used.setdefault(d, set())
        while True:
            n = os.fsencode(self.rng.choice(self.get('words', WORDS))) if self.rng.random() < .8 else \
                ''.join(self.rng.choice('abcdefgh') for _ in range(self.rng.randint(1, 5))).encode()
            if n not in used:
                used.add(n)
                return n

    def link(self, d, name, ft, target):
        """An entry of directory d."""
        r = self.rng
        o, i = d
        if target[0] != o:
            loc = (target[0], TROOT, r.choice([U64, 0, 5]))
        else:
            loc = (target[1], TINODE, 0) if r.random() < .97 else (target[1], r.choice([0, 2, 12, 84, 131, 133, 255]), r.choice([0, U64]))
        self.children.setdefault(d, []).append((name, ft, target))
        if r.random() < self.get('mistype'):
            ft = r.choice(self.get('wrong_types', [0, 1, 2, 3, 4, 5, 6, 7, 8, 255]))
        h = name_hash(name)
        if r.random() < self.get('wrong_hash', .06):
            h = r.choice([0, 1, h + 1, h ^ 1, U64, 1 << 32])
        k = (o, TDIR, i, h)
        # Names of the same hash share an item
        shared = [g for g in self.gens if k + (g,) in self.m.items]
        if shared:
            self.m.entry(o, i, name, ft, loc, max(shared), key=h)
            return
        def put(g, real):
            if real:
                self.m.entry(o, i, name, ft, loc, g, key=h)
            else:
                n = r.choice([name, b'gone', b'gone', b'stale'])
                self.m.entry(o, i, n, r.choice([1, 2, 7]), (r.choice([256, 300, 301]), TINODE, 0), g, key=h)
        self.put_versions(put)

    def build(self):
        r = self.rng
        owners = [5] + r.sample(r.choice([SUBVOLS[:4], SUBVOLS, [300, (1 << 32) + 300, 1 << 63]]), self.get('subvols', r.choice([0, 0, 1, 2, 3])))
        dirs = {o: [(o, 256)] for o in owners}
        for o in owners:
            self.inode((o, 256), FT_DIR)
            if o != 5 and r.random() < self.get('known', .8):
                self.put_versions(lambda g, real: self.m.subvol(o, g))
        attached = set()
        for o in owners:
            for _ in range(r.randint(*self.get('dirs', (0, 4)))):
                p = r.choice(dirs[o])
                d = (o, self.new_id(o))
                dirs[o].append(d)
                self.inode(d, FT_DIR)
                self.link(p, self.name(p), FT_DIR, d)
            files = []
            for _ in range(r.randint(*self.get('files', (0, 6)))):
                p = r.choice(dirs[o])
                ft = r.choice(self.get('types', [1, 1, 1, 7, 7, 3, 4, 5, 6]))
                if files and r.random() < .15:
                    f, ft = r.choice(files)
                else:
                    f = (o, self.new_id(o))
                    self.make(f, ft)
                    files.append((f, ft))
                self.link(p, self.name(p), ft, f)
        for k in range(self.get('deep')):         # many directories in each other
            o = r.choice(owners) if k == 0 else d[0]
            p = r.choice(dirs[o]) if k == 0 else d
            d = (o, self.new_id(o))
            dirs[o].append(d)
            self.inode(d, FT_DIR)
            n = r.choice([b'a', b'b', b'dd'])
            while n in self.used.setdefault(p, set()):
                n += b'z'
            self.used[p].add(n)
            self.link(p, n, FT_DIR, d)
            if r.random() < .1 or k + 1 == self.get('deep'):
                f = (o, self.new_id(o))
                self.make(f, 1)
                self.used.setdefault(d, set()).add(b'f')
                self.link(d, b'f', 1, f)
        if self.get('wide'):                      # very many of something
            o = r.choice(owners)
            p = r.choice(dirs[o])
            for k in range(self.get('wide')):
                t = (o, self.new_id(o))
                ft = FT_DIR if r.random() < self.get('wide_dirs', .3) else r.choice([1, 7, 3])
                if ft == FT_DIR:
                    dirs[o].append(t)
                    self.inode(t, ft)
                else:
                    self.make(t, ft)
                q = p if r.random() < .9 else r.choice(dirs[o])
                n = b'w%d' % k
                self.used.setdefault(q, set()).add(n)
                self.link(q, n, ft, t)
            for k in range(r.choice([0, 90])):
                n = 100000 + 3 * k
                self.inode((n, 256), FT_DIR)
                self.m.subvol(n, r.choice(self.gens))
                if r.random() < .3:
                    self.link((5, 256), b's%d' % k, FT_DIR, (n, 256))
        for o in owners[1:]:                      # where subvolumes are attached
            for _ in range(r.choice([0, 1, 1, 1, 2, 4])):
                src = r.choice(owners)
                p = r.choice(dirs[src])
                self.link(p, self.name(p), FT_DIR, (o, 256))
                if r.random() < .15:          # and the filesystem tree in them
                    p = r.choice(dirs[o])
                    self.link(p, self.name(p), FT_DIR, (5, 256))
        if r.random() < self.get('alias', .3):    # several names, and cycles
            for _ in range(r.randint(1, 3)):
                o = r.choice(owners)
                p = r.choice(dirs[o])
                self.link(p, self.name(p), FT_DIR, r.choice(dirs[o]))
        for a, b in COLLIDING:
            if r.random() < self.get('collide', .08):
                p = r.choice(dirs[r.choice(owners)])
                o = p[0]
                for n in (a, b):
                    if n not in self.used.setdefault(p, set()):
                        self.used[p].add(n)
                        if r.random() < .3:
                            d = (o, self.new_id(o))
                            dirs[o].append(d)
                            self.inode(d, FT_DIR)
                            self.link(p, n, FT_DIR, d)
                        else:
                            f = (o, self.new_id(o))
                            self.make(f, 1)
                            self.link(p, n, 1, f)
        if r.random() < .15:                      # entries whose target is not there at all
            p = r.choice(dirs[r.choice(owners)])
            self.link(p, self.name(p), r.choice([1, 2, 7, 0, 8]), (p[0], self.new_id(p[0])))
        self.noise(owners)
        self.owners, self.dirs = owners, dirs
        return self

    def make(self, f, ft):
        self.inode(f, ft, self.rng.choice([0, 1, 77, 5000, 1 << 33, (1 << 63) - 1, 1 << 63, U64]) if ft == 1 else 11 if ft == 7 else 0)

    def noise(self, owners):
        """Items that do not concern directories."""
        r = self.rng
        for o in owners:
            for _ in range(r.randint(0, 3)):
                i = r.choice([256, 257, 258, self.next_id.get(o, 257)])
                self.m.put(o, r.choice([12, 96, 48, 128, 83, 85]), i, r.choice([0, 1, 256, U64]), r.choice(self.gens),
                           bytes(r.randrange(256) for _ in range(r.choice([0, 5, 40]))))
        if r.random() < .3:
            self.m.inode(5, 999, 7, **self.attrs(1))
            self.m.entry(5, 998, b'orphan', 1, (999, TINODE, 0), 7)

    def a_path(self):
        """Names of a path that is there, or nearly."""
        r = self.rng
        d, path = (5, 256), []
        for _ in range(r.randint(0, 5)):
            c = self.children.get(d)
            if not c or r.random() < .1:
                break
            name, ft, t = r.choice(c)
            if name in (b'', b'.', b'..') or b'/' in name or b'\0' in name:    # cannot be given on a command line
                break
            path.append(name)
            d = t
            if ft != FT_DIR:
                break
        w = r.random()
        if w < .1:
            path.append(r.choice([b'nothing', b'a', b'gone', b'b']))
        elif w < .15 and path:
            path[r.randrange(len(path))] = r.choice([b'nothing', b'gone', b'stale', b'A'])
        return path


def spell(rng, path):
    """A way to write down a path."""
    if not path:
        return rng.choice([b'/', b'//', b'/.', b'/a/..'])
    s = b''
    for n in path:
        s += rng.choice([b'/', b'/', b'/', b'//', b'/./', b'/zz/../']) + n
    s += rng.choice([b'', b'', b'/', b'/.'])
    if rng.random() < .3 and not path[0].startswith(b'-'):
        s = s.lstrip(b'/')
        if s.startswith(b'./'):
            s = s[2:]
        if s.startswith(b'zz/../'):
            s = s[6:]
    return s


LS = re.compile(rb'(?:(\d+) +)?([-bcdlps?])([rwx?-]{9}) +(\d+|\?) +(\d+|\?) +(\d+|\?) +(\d+|\?) +(\?|[A-Z][a-z]{2} [ 1-3]\d \d\d:\d\d) +(.*)', re.S)


def parse_ls(out, names, pal, numbered):
    blocks = [{'head': 0, 'lines': []}]
    if out and not out.endswith(b'\n'):
        return None
    for l in out.split(b'\n')[:-1]:
        m = LS.fullmatch(l)
        if m and (m[1] is not None) == numbered:
            ino, t, p, nl, u, g, s, tm, n = m.groups()
            blocks[-1]['lines'].append({'type': t.decode(), 'name': names.known(n), 'inode': pal(int(ino)) if numbered else 0, 'perms': list(p.decode()),
                                        'nlink': nl.decode(), 'uid': u.decode(), 'gid': g.decode(), 'size': s.decode(),
                                        'time': tm.decode()})
        elif l.endswith(b':'):
            blocks.append({'head': names.known(l[:-1]), 'lines': []})
        else:
            return None
    return blocks


def clean(p):
    """Lexical cleaning of a path, for finding its error message."""
    rooted, out = p.startswith(b'/'), []
    for c in p.split(b'/'):
        if c in (b'', b'.'):
            continue
        if c == b'..':
            if out and out[-1] != b'..':
                out.pop()
                continue
            if rooted:
                continue
        out.append(c)
    return (b'/' if rooted else b'') + b'/'.join(out) or b'.'


class LsBatch:
    """Runs ls commands on metadata and has TLC decide what they print."""

    def __init__(self, ctx, name='ls'):
        self.ctx, self.name, self.scens = ctx, name, []

    def add(self, m, ops):
        """ops: {'op': 'ls', 'recursive', 'paths': [[names]], 'args': [bytes]} or {'op': 'dump'}"""
        self.scens.append((m, ops))

    def run(self):
        ctx = self.ctx
        d = ctx.dir(self.name)
        load(ctx, [(m, os.path.join(d, str(n), 'm')) for n, (m, ops) in enumerate(self.scens)])

        # One palette for all, so that there is one header
        vals = {0, 1, 3, 5, 256, LAST}
        for m, _ in self.scens:
            vals |= values(m)
        pal = Palette(vals)
        from indexes import dump_cli

        def work(n):
            m, ops = self.scens[n]
            seen, names = Names(), Names()
            for k, v in m.items.items():
                decode_item(k, v, pal, seen)
            for name in sorted(seen.list):      # numbered in the order of their bytes
                names(name)
            items = [decode_item(k, v, pal, names) for k, v in m.items.items()]
            path = os.path.join(d, str(n), 'm')
            out = []
            for op in ops:
                if op['op'] == 'dump':
                    o = dump_cli(ctx, path)
                    o['list'] = [[pal(k[0]), k[1], pal(k[2]), pal(k[3]), pal(k[4])] for k in o['list']]
                    out.append({'op': 'dump', 'obs': o})
                    continue
                numbered = op.get('numbered', False)
                cmd = [b'ls', b'--metadata', path.encode()] + ([b'--recursive'] if op['recursive'] else []) + ([b'--inode'] if numbered else [])
                if any(a.startswith(b'-') for a in op['args']):
                    cmd.append(b'--')
                r, so, se = ctx.run_cli(cmd + op['args'], timeout=60)
                args = [[names(c) for c in p] for p in op['paths']] or [[]]
                blocks = parse_ls(so, names, pal, numbered) if r == 'ok' else []
                raw = ''
                if blocks is None:
                    r, blocks, raw = 'unreadable', [], so.decode('latin-1')[-3000:]
                missing = []
                for p, a in zip(op['paths'], op['args']):
                    missing.append(b"cannot lookup '%s': No such file or directory\n" % clean(a) in se)
                out.append({'op': 'ls', 'recursive': op['recursive'], 'numbered': numbered, 'args': args,
                            'obs': {'r': r, 'missing': missing or [False], 'blocks': blocks}, 'cmd': str(cmd[3:] + op['args']), 'raw': raw})
            return {'items': items, 'ops': out}

        res = ctx.parallel(work, range(len(self.scens)))
        for s in res:
            for o in s['ops']:
                ctx.count('ls_runs' if o['op'] == 'ls' else 'dump_runs')
                for b in o['obs'].get('blocks', []):
                    ctx.count('lines_listed', len(b['lines']))
        ctx.sample(res[0])
        h = {'r0': pal(0), 'r1': pal(1), 'r3': pal(3), 'r5': pal(5), 'r256': pal(256), 'last': pal(LAST)}
        ctx.trace('TraceLs', h, res)


def ls_ops(rng, fs, n=4):
    ops = []
    for _ in range(n):
        if ops:
            ops[-1]['numbered'] = rng.random() < .25
        w = rng.random()
        if w < .15:
            ops.append({'op': 'ls', 'recursive': rng.random() < .5, 'paths': [], 'args': []})
        elif w < .75:
            p = fs.a_path()
            ops.append({'op': 'ls', 'recursive': rng.random() < .5, 'paths': [p], 'args': [spell(rng, p)]})
        else:
            ps = []
            for _ in range(rng.randint(2, 4)):
                p = fs.a_path()
                if p not in ps:
                    ps.append(p)
            ops.append({'op': 'ls', 'recursive': rng.random() < .4, 'paths': ps, 'args': [spell(rng, p) for p in ps]})
    return ops


def check_C09(ctx):
    rng = ctx.rng
    b = LsBatch(ctx)
    for k in range(ctx.pick(600, 4000)):
        fs = FS(rng, deep=rng.choice([40, 70, 110]) if k % 100 == 99 else 0,
                wide=[1100, 300, 700][k // 100 % 3] if k % 100 == 49 else 0, wide_dirs=rng.choice([.3, .3, .97])).build()
        b.add(fs.m, [{'op': 'ls', 'recursive': True, 'paths': [], 'args': []}] + ls_ops(rng, fs))
    b.run()


# -- recover -----------------------------------------------------------------

NOBODY = 65534
BAD = [b'.', b'..', b'a/b', b'/', b'../out', b'../out/evil', b'..\\x', b'x\x00y', b'/etc/x', b'sub/..', b'./x', b'\\', b'a\\b',
       b'...', b'.. ', b'\x00', b'dest/../../out/f']
DEVSIZE = 1 << 16
LOGBASE = 1 << 30
CUTBASE = LOGBASE + 2 * DEVSIZE
CUT = CUTBASE + 2048        # the end of the image


def blob(r, n):
    """Some contents"""
    b = bytearray(r.randrange(1, 256) for _ in range(n))
    if r.random() < .4:
        k = r.choice([1, 1, 2, n])
        at = r.choice([0, 0, n - k, n // 2])
        b[max(0, at):at + k] = bytes(len(b[max(0, at):at + k]))
    return bytes(b)


class RFS(FS):
    """Metadata whose files have contents."""

    def __init__(self, rng, **opt):
        # Contents that span chunks are not the target of any symlink
        FS.__init__(self, rng, **{'wrong_types': [0, 1, 2, 3, 4, 5, 6, 8, 255], **opt})

    def build(self):
        r = self.rng
        # Chunks for the first part of the address space, in two pieces
        self.m.put(3, TCHUNK, 256, LOGBASE, r.choice(self.gens), chunk_bytes(DEVSIZE // 2, [(1, DEVSIZE // 2)]))
        self.m.put(3, TCHUNK, 256, LOGBASE + DEVSIZE // 2, r.choice(self.gens), chunk_bytes(DEVSIZE, [(1, 0), (2, 77)]))
        # and one that the end of the image cuts short
        self.m.put(3, TCHUNK, 256, CUTBASE, r.choice(self.gens), chunk_bytes(4096, [(1, DEVSIZE - 2048)]))
        FS.build(self)
        # Any kind of entry with a name that leads elsewhere
        for _ in range(r.choice([0, 0, 1, 3]) if self.get('bad') else 0):
            p = r.choice(self.dirs[r.choice(self.owners)])
            n = r.choice([b'..', b'..', b'.', b'../out', b'a/b', b'x/..', b'../../x', b'/x'])
            if n not in self.used.setdefault(p, set()):
                self.used[p].add(n)
                o = r.choice(self.owners)
                t = r.choice([r.choice(self.dirs[p[0]]), (o, 256), (p[0], self.new_id(p[0]))])
                ft = r.choice([1, 2, 7, r.choice([0, 1, 2, 3, 4, 5, 6, 8, 255])])
                if t[1] not in (256,) and (p[0], t[1]) not in self.dirs[p[0]] and ft in (1, 7):
                    self.make(t, ft)
                self.link(p, n, ft, t)
        return self

    def name(self, d):
        if self.rng.random() < self.get('bad', .04):
            n = self.rng.choice(BAD)
            used = self.used.setdefault(d, set())
            if n not in used:
                used.add(n)
                return n
        if self.used.get(d) and self.rng.random() < self.get('twice', 0):
            return self.rng.choice(sorted(self.used[d]))
        return FS.name(self, d)

    def data(self, n):
        return blob(self.rng, n)

    def make(self, f, ft):
        r, (o, i) = self.rng, f
        if ft == FT_FILE:
            w = r.random()
            n = r.choice([0, 1, 5, 30])
            if w < .6:
                self.inode(f, ft, max(0, n + r.choice([0, 0, 0, 0, -1, 3])))
                if n:
                    self.put_versions(lambda g, real: self.m.put(o, TEXT, i, 0, g, inline_bytes(self.data(n if real else 9))))
            elif w < .8:
                n = r.choice([1, 10, 40])
                self.inode(f, ft, n + r.choice([0, 0, 7]))
                at = r.choice([LOGBASE + r.choice([0, 4096, DEVSIZE // 2 - 5, DEVSIZE - 40, DEVSIZE - 3]), CUT - r.choice([0, 3, n])])
                self.put_versions(lambda g, real: self.m.put(o, TEXT, i, 0, g, extent_bytes(
                    at if real else LOGBASE + 7, 4096, r.choice([0, 1]), n, r.choice([1, 1, 1, 2]) if real else 1)))
            elif w < .9:
                self.inode(f, ft, r.choice([0, 1, 64]))
            else:
                self.inode(f, ft, 20)
                self.m.put(o, TEXT, i, 0, 5, extent_bytes(r.choice([1, LOGBASE - 10, LOGBASE + DEVSIZE + DEVSIZE // 2, 1 << 40]),
                                                          64, 0, 20))
        elif ft == FT_LINK:
            w = r.random()
            t = r.choice(self.get('targets', [b'x', b'a/b', b'..', b'/', b'/nonexistent/y', b'\xff\xfe', b'z' * 200, 'ü'.encode(), b'.']))
            if r.random() < .25 and not self.get('targets'):
                t = r.choice([b'./x', b'x/', b'../x/.', b'a//b', b' x ', b'x\n', b'x\\y', b'/./', b'~/x', b'$HOME/x', b'%s', b'C:x', b'-x', b'*',
                              b'../../../../x', b'/a/../b', b'//x', b'x\xffy', bytes(r.randrange(1, 256) for _ in range(r.choice([1, 3, 60, 255, 300])))])
            if w < .04:
                t = r.choice([b'', b'a' * 4096, b'q\x00r', b'\x00'])
            elif w < .06:
                t = b'l' * 4095
            self.linkto[f] = t
            self.inode(f, ft, len(t))
            if w < .94:
                self.put_versions(lambda g, real: self.m.put(o, TEXT, i, 0, g, inline_bytes(t if real else b'stale')))
            elif w < .98:
                n = r.choice([1, 12, 12, 100])
                at, skip = r.choice([(LOGBASE + 3, 0), (LOGBASE, 9), (CUT - n, 0), (CUT - n + 1, 0), (CUT - 1, 0), (CUT - 7, 3), (CUT, 0),
                                     (CUT - n - 2, 2)])
                self.m.put(o, TEXT, i, 0, 5, extent_bytes(at, 4096, skip, n))
        else:
            self.inode(f, ft)

    def some_paths(self, k):
        """Paths of metadata objects, to put something else there"""
        out = []
        for _ in range(k):
            p = self.a_path()
            if p and self.rng.random() < .3:
                p = p[:self.rng.randint(1, len(p))]
            if p and all(ok_name(c) for c in p):
                out.append(p)
        return out


def ok_name(c):
    return c not in (b'', b'.', b'..') and b'/' not in c and b'\x00' not in c and len(c) < 256


def node(names, path, rel, interest=None, full=4096):
    st = os.lstat(path)
    n = {'p': [names(c) for c in rel], 'kind': 'other', 'id': 0, 'size': 0, 'at': [], 'bytes': [], 'target': [], 'ro': False}
    if stat.S_ISDIR(st.st_mode):
        n['kind'] = 'dir'
        n['ro'] = not st.st_mode & 0o200
    elif stat.S_ISLNK(st.st_mode):
        n['kind'] = 'link'
        n['target'] = list(os.readlink(path))
    elif stat.S_ISREG(st.st_mode):
        n['kind'] = 'file'
        base, where = (interest or {}).get(rel, (0, []))
        n['size'] = clip(st.st_size - base)
        if st.st_size <= full:
            b = open(path, 'rb').read()
            n['at'], n['bytes'] = list(range(len(b))), list(b)
            n['id'] = names(b'\x00content' + hashlib.sha256(b).digest())
        else:
            with open(path, 'rb') as fh:
                for p in where:
                    if 0 <= p < st.st_size:
                        fh.seek(p)
                        n['at'].append(clip(p - base))
                        n['bytes'].append(fh.read(1)[0])
            n['id'] = names(b'\x00size%d %s' % (st.st_size, hashlib.sha256(bytes(n['bytes'])).digest()))
    else:
        n['id'] = names(b'\x00mode%o' % st.st_mode)
    return n


def walk(top):
    """Paths below a directory as byte strings, with their components"""
    out = [(top, ())]
    todo = [(top, ())]
    while todo:
        d, rel = todo.pop()
        try:
            entries = sorted(os.listdir(d))
        except NotADirectoryError:
            continue
        for e in entries:
            p = d + b'/' + e
            out.append((p, rel + (e,)))
            st = os.lstat(p)
            if stat.S_ISDIR(st.st_mode):
                todo.append((p, rel + (e,)))
    return out


def outside_of(area, dest):
    """What is below area but not below dest, as a list of strings"""
    out = []
    todo = [area]
    while todo:
        p = todo.pop()
        if p == dest:
            continue
        st = os.lstat(p)
        s = '%s %o %d %d' % (os.fsdecode(p[len(area):]), st.st_mode, st.st_uid, st.st_gid)
        if stat.S_ISDIR(st.st_mode):
            todo += [p + b'/' + e for e in sorted(os.listdir(p))]
            if os.path.dirname(dest) != p:
                s += ' %d' % st.st_mtime_ns
        elif stat.S_ISLNK(st.st_mode):
            s += ' %d -> %s' % (st.st_mtime_ns, os.fsdecode(os.readlink(p)))
        elif stat.S_ISREG(st.st_mode):
            s += ' %d %s' % (st.st_mtime_ns, hashlib.sha256(open(p, 'rb').read()).hexdigest()[:16])
        out.append(s.encode('utf-8', 'surrogateescape').decode('latin-1'))
    return sorted(out)


class RecoverBatch:
    def __init__(self, ctx, name='recover'):
        self.ctx, self.name, self.scens = ctx, name, []

    def add(self, m, ops, size=DEVSIZE, logbase=LOGBASE, posbase=None, dest='dir', interest=None):
        """ops: ('set', [things]) or ('recover', clobber); dest: dir, none, link, file"""
        # The subvolume of Contents, if it is not reached by its entry
        also = {(b'subvol_300',) + p[1:]: x for p, x in (interest or {}).items() if p[0] == b's'}
        self.scens.append((m, ops, size, logbase, posbase, dest, {**(interest or {}), **also}))

    def put(self, dest, area, thing):
        kind, rel = thing[0], thing[1]
        if not rel or not os.path.isdir(dest if kind[0] != '!' else area) or any(len(c) > 255 for c in rel):
            return
        base = dest if kind[0] != '!' else area
        kind = kind.lstrip('!')
        p = base + b'/' + b'/'.join(rel)
        # Only below real directories of the base
        q = base
        for c in rel[:-1]:
            q += b'/' + c
            if not os.path.lexists(q):
                os.mkdir(q)
            elif os.path.islink(q) or not os.path.isdir(q):
                return
        if os.path.lexists(p):
            if kind == 'ro' and os.path.isdir(p) and not os.path.islink(p):
                os.chmod(p, 0o555)
            return
        if kind in ('dir', 'ro'):
            os.mkdir(p)
        elif kind == 'file':
            open(p, 'wb').write(thing[2])
        elif kind == 'link':
            os.symlink((thing[2] or b'prior').replace(b'@AREA@', area), p)
        elif kind == 'hard':
            os.link(area + b'/' + thing[2], p)
        elif kind == 'fifo':
            os.mkfifo(p)
        if kind == 'ro':
            os.chmod(p, 0o555)
        elif kind == 'file':
            os.chmod(p, self.ctx.rng.choice([0o644, 0o600, 0o444]))

    def run(self, module='TraceRecover'):
        ctx = self.ctx
        os.chmod(ctx.tmp, 0o755)
        exe = ctx.cli()
        d = ctx.dir(self.name)
        load(ctx, [(s[0], os.path.join(d, str(n), 'm')) for n, s in enumerate(self.scens)])
        vals = {0, 1, 3, 5, 256, LAST}
        for s in self.scens:
            vals |= values(s[0])
        pal = Palette(vals)
        images = {}
        for s in self.scens:
            if s[2] not in images:
                images[s[2]] = os.path.join(d, 'img-%d' % s[2])
                with open(images[s[2]], 'wb') as fh:
                    fh.write(dev_bytes(s[2]))

        def own(p):
            subprocess.check_call(['chown', '-hR', '%d:%d' % (NOBODY, NOBODY), '--', p])

        def work(n):
            m, ops, size, logbase, posbase, destkind, interest = self.scens[n]
            names = Names()
            sd = os.path.join(d, str(n))
            area = os.path.join(sd, 'area').encode()
            os.mkdir(area)
            arg, real = area + b'/dest', area + b'/dest'
            if destkind == 'dir':
                os.mkdir(arg)
            elif destkind == 'link':
                real = area + b'/real'
                os.mkdir(real)
                os.symlink(b'real', arg)
            elif destkind == 'deep':
                arg = real = area + b'/p/q/dest'
            elif destkind == 'file':
                open(arg, 'wb').write(b'here')
            out = []

            def tree():
                if not os.path.lexists(real):
                    return []
                return [node(names, p, rel, interest) for p, rel in walk(real)]

            items = [decode_item(k, v, pal, names, posbase, logbase) for k, v in m.items.items()]
            for op in ops:
                if op[0] == 'set':
                    for t in op[1]:
                        self.put(real, area, t)
                    own(area)
                    skip = real if destkind != 'deep' else area + b'/p'
                    out.append({'op': 'set', 'tree': tree(), 'outside': outside_of(area, skip)})
                else:
                    log, pre = os.path.join(sd, 'faults'), ()
                    if op[0] == 'fail':
                        open(log, 'w').close()
                        os.chown(log, NOBODY, NOBODY)
                        pre = self.prepare(op, log, images[size], real)
                    cmd = ['recover', '--metadata', os.path.join(sd, 'm')] + (['--clobber'] if op[1] else []) + [images[size], arg]
                    r, so, se = ctx.run_cli(cmd, timeout=60, prefix=pre, user=NOBODY, group=NOBODY, extra_groups=[], cwd=area)
                    skip = real if destkind != 'deep' else area + b'/p'
                    t = tree()
                    rep = [x['p'] for x in t if x['kind'] == 'file' and
                           real + b'/' + b'/'.join(names.list[c - 1] for c in x['p']) in se]
                    more, other = {}, False
                    if op[0] == 'fail':
                        parts, hit, other = self.failed(op, log, real, names)
                        more = {'faults': parts, 'hit': [[names(c) for c in p] for p in sorted(hit)]}
                        rep = [[names(c) for c in p] for p in self.named(se, real)]
                    ctx.count('recover_runs')
                    ctx.count('nodes_restored', len(t))
                    out.append({'op': 'recover', 'clobber': op[1], 'img': size, 'blocked': destkind == 'file' or other, **more,
                                'obs': {'r': r, 'tree': t, 'outside': outside_of(area, skip), 'reported': rep},
                                'err': se.decode(errors='replace')[-1500:] if r != 'ok' else ''})
            subs = sorted({i for (o, t, i, f, g) in m.items if o == 1 and t == TROOT})
            subnames = [[pal(i), names(b'subvol_%d' % i)] for i in subs]
            shutil.rmtree(area, ignore_errors=True)
            return {'items': items, 'ops': out, 'subnames': subnames,
                    'names': [list(x) if len(x) < 300 and not x.startswith(b'\x00content') else [] for x in names.list]}

        res = ctx.parallel(work, range(len(self.scens)))
        ctx.sample(res[0])
        h = {'r0': pal(0), 'r1': pal(1), 'r3': pal(3), 'r5': pal(5), 'r256': pal(256), 'last': pal(LAST)}
        ctx.trace(module, h, res)


def traversal_model(ctx, *wrong):
    """The traversal on all small directory graphs"""
    ctx.model('MCRecover', ctx.pick('MCRecover.cfg', 'MCRecoverDeep.cfg'))
    negative_controls(ctx, wrong)


def check_C11(ctx):
    rng = ctx.rng
    traversal_model(ctx, 'novisited', 'visitfirst', 'abort', 'subvols')
    b = RecoverBatch(ctx)
    for k in range(ctx.pick(500, 4000)):
        fs = RFS(rng, alias=.5, mistype=rng.choice([0, 0, 0, .1]), deep=rng.choice([70, 130, 400]) if k % 100 == 99 else 0,
                 wide=[1100, 300][k // 100 % 2] if k % 100 == 49 else 0, wide_dirs=rng.choice([.3, .3, .97])).build()
        prior = []
        if rng.random() < .3:       # something in the way
            for p in fs.some_paths(rng.randint(1, 4)):
                prior.append((rng.choice(['file', 'file', 'link', 'dir', 'fifo', 'ro']), p, b'prior'))
            prior.sort(key=lambda t: t[0] == 'ro')
        ops = [('set', prior), ('recover', rng.random() < .25)]
        if rng.random() < .3:
            ops.append(('recover', ops[1][1]))
        b.add(fs.m, ops, dest=rng.choice(['dir', 'dir', 'none', 'deep', 'link']))
    b.run()


OUT = [('!dir', [b'out']), ('!file', [b'out', b'secret'], b'top secret'), ('!file', [b'out', b'x'], b'outside x'),
       ('!dir', [b'out', b'sub']), ('!file', [b'out', b'sub', b'f'], b'outside f'), ('!file', [b'file'], b'a file'),
       ('!link', [b'ln'], b'out'), ('!dir', [b'empty']),
       ('!file', [b'nothing'], b''), ('!file', [b'out', b'none'], b'')]
AWAY = [b'../out', b'../out/secret', b'../out/sub', b'../out/new', b'@AREA@/out', b'@AREA@/out/x', b'@AREA@/new', b'..', b'../ln',
        b'@AREA@/file', b'../empty', b'../ln/sub', b'.', b'@AREA@', b'/', b'../../../..', b'../out/sub/f', b'out2', b'loop']
HARD = [b'out/secret', b'out/x', b'out/sub/f', b'file', b'nothing', b'out/none']


PRIOR = [b'prior', b'prior', b'', b'prior ' * 30]


def passing_names(ctx):
    """Names that recover uses in between, as functions of the name being restored: they may be taken as well."""
    d = ctx.dir('passing')
    m = Meta()
    m.inode(5, 256, 5, mode=0o40755)
    m.inode(5, 257, 5, mode=0o40755)
    m.entry(5, 256, b'ddir', 2, (257, TINODE, 0), 5)
    at = 258
    for p in (256, 257):
        for n, ft in ((b'ffile', 1), (b'llink', 7), (b'gfile', 1)):
            m.inode(5, at, 5, mode=0o100644 if ft == 1 else 0o120777, size=4)
            m.entry(5, p, n, ft, (at, TINODE, 0), 5)
            m.put(5, TEXT, at, 0, 5, inline_bytes(b'some'))
            at += 1
    r = ctx.run_driver('index', [{'dir': d, 'ops': [m.load_op(os.path.join(d, 'm'), rng=ctx.rng)]}])
    st = shutil.which('strace')
    if r[0][0]['r'] != 'ok' or not st:
        return []
    own = {b'ddir', b'ffile', b'llink', b'gfile', b'dest'}
    found = set()
    os.chmod(ctx.tmp, 0o755)
    os.chmod(d, 0o777)
    open(os.path.join(d, 'img'), 'wb').write(bytes(DEVSIZE))
    dest = os.path.join(d, 'dest').encode()
    for k, extra in enumerate([[], ['--clobber']]):
        log = os.path.join(d, 'log%d' % k)
        ctx.run_cli(['recover', '--metadata', os.path.join(d, 'm'), *extra, os.path.join(d, 'img'), dest],
                    prefix=(st, '-f', '-s', '4096', '-o', log, '-e', 'trace=%file'), timeout=60, user=NOBODY, group=NOBODY,
                    extra_groups=[], cwd=d)
        try:
            text = open(log, 'rb').read()
        except OSError:
            continue
        for x in re.findall(rb'"([^"]*)"', text):
            if x.startswith(dest + b'/'):
                for c in x[len(dest) + 1:].split(b'/'):
                    if c not in own and c not in (b'.', b'..', b'') and b'\\' not in c:
                        found.add(c)
    rules = set()
    for c in found:
        for o in own:
            if o in c:
                rules.add(tuple(c.split(o, 1)))
                break
        else:
            rules.add((c, None))
    ctx.cover['passing_names'] = len(rules)
    return sorted(rules, key=str)[:20]


def prior_things(rng, fs, n, away=.5, passing=()):
    prior = []
    if passing:
        for p in fs.some_paths(6):
            pre, post = rng.choice(passing)
            prior.append((rng.choice(['link', 'link', 'hard', 'file', 'dir']),
                          p[:-1] + [pre if post is None else pre + p[-1] + post], rng.choice(AWAY)))
            if prior[-1][0] == 'hard':
                prior[-1] = ('hard', prior[-1][1], rng.choice(HARD))
    for p in fs.some_paths(n):
        w = rng.random()
        t = (5, 256)
        for c in p:
            t = next((x[2] for x in fs.children.get(t, ()) if x[0] == c), None)
        if fs.linkto.get(t) and rng.random() < .5:      # something similar
            x = bytearray(fs.linkto[t])
            x[rng.choice([0, -1])] = rng.choice(b'xyz')
            if b'\0' not in x and len(x) < 4096:
                prior.append(('link', p, bytes(x)))
                continue
        if w < away * .6:
            prior.append(('link', p, rng.choice(AWAY)))
        elif w < away:
            prior.append(('hard', p, rng.choice(HARD)))
        else:
            prior.append((rng.choice(['file', 'file', 'link', 'dir', 'dir', 'fifo', 'ro', 'mine']), p, rng.choice(PRIOR)))
    for i in SUBVOLS:
        if rng.random() < .1:
            prior.append((rng.choice(['link', 'file', 'dir']), [b'subvol_%d' % i], rng.choice(AWAY)))
    # Things that recover knows nothing of
    out = []
    for t in prior:
        if t[0] == 'mine':
            t = (rng.choice(['file', 'dir', 'link', 'hard']), t[1][:-1] + [rng.choice([b'mine', b'my dir'])],
                 rng.choice(HARD))
        out.append(t)
    out.sort(key=lambda t: t[0] == 'ro')
    return out


def check_C12(ctx):
    rng = ctx.rng
    traversal_model(ctx, 'follow')
    passing = passing_names(ctx)
    b = RecoverBatch(ctx)
    for k in range(ctx.pick(500, 4000)):
        targets = [t for t in AWAY if b'@' not in t] + [b'x', b'sub', b'/tmp/verif-escape/nowhere']
        fs = RFS(rng, alias=.3, bad=rng.choice([0, .1, .4]), twice=rng.choice([0, 0, .3, .6]), targets=targets,
                 mistype=rng.choice([0, 0, .2]), subvols=rng.choice([0, 1, 2, 3]),
                 types=[1, 1, 2, 7, 7, 7], words=['x', 'sub', 'secret', 'f', 'out', 'new', 'a', 'b']).build()
        prior = OUT + prior_things(rng, fs, rng.choice([0, 2, 5, 8]), .8, passing)
        ops = [('set', prior), ('recover', rng.random() < .5)]
        if rng.random() < .5:
            ops.append(('recover', rng.random() < .7))
        b.add(fs.m, ops, dest=rng.choice(['dir', 'dir', 'dir', 'none', 'deep', 'link', 'file']))
    b.run()


def check_C13(ctx):
    rng = ctx.rng
    traversal_model(ctx, 'follow')
    passing = passing_names(ctx)
    b = RecoverBatch(ctx)
    for k in range(ctx.pick(500, 4000)):
        fs = RFS(rng, alias=.2, mistype=rng.choice([0, 0, 0, .1]), dirs=(1, 4), files=(2, 6), words=rng.choice([WORDS, ['a', 'b', 'c', 'd']])).build()
        ops = [('set', OUT + prior_things(rng, fs, rng.choice([1, 3, 6, 10]), .3, passing))]
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops.append(('recover', rng.random() < .5))
            if rng.random() < .3:
                ops.append(('set', prior_things(rng, fs, 2, .3, passing)))
        b.add(fs.m, ops, dest=rng.choice(['dir', 'dir', 'dir', 'link']))
    b.run()


VAST = [1 << 31, 1 << 32, 1 << 32, 1 << 33, 1 << 45]


# -- file contents -----------------------------------------------------------

class Contents:
    """Random files of random extents in the root directory."""

    def __init__(self, rng, big=False, far=True):
        self.rng, self.m, self.interest, self.posbase, self.big, self.far = rng, Meta(), {}, {}, big, far
        r = rng
        self.size = r.choice([1 << 20, (1 << 21) + 4321, 5 << 20]) if big else r.choice([4096, 1 << 16, 70001])
        self.logbase = r.choice([1 << 20, 1 << 30, 1 << 45, (1 << 62) + 12345])
        self.m.inode(5, 256, 5, mode=0o40755)
        # Chunks: touching ones, gaps, and one that reaches past the end of the device
        unit = max(1, self.size // 8)
        at, self.edges = r.choice([0, 0, unit]), [0]
        for _ in range(r.randint(1, 5)):
            ln = r.choice([unit, unit * 2, unit // 3 + 1, 100])
            phys = r.choice([0, unit, r.randrange(self.size), max(0, self.size - ln), max(0, self.size - ln // 2)])
            for g in sorted(r.sample([4, 5, 6], r.choice([1, 1, 2]))):
                self.m.put(3, TCHUNK, 256, self.logbase + at, g, chunk_bytes(ln, [(1, phys)] + [(2, 5)] * r.choice([0, 0, 1])))
                phys = r.randrange(self.size)
            self.edges += [at, at + ln]
            at += ln + r.choice([0, 0, 0, 1, unit])
        self.top = at
        n = r.randint(2, 6)
        for k in range(n):
            self.file(257 + k, (b'f%d' % k,))
        if r.random() < .4:             # files of the same numbers in a subvolume
            self.m.entry(5, 256, b's', 2, (300, TROOT, U64), 5)
            self.m.inode(300, 256, 5, mode=0o40755)
            self.m.subvol(300, 5)
            for k in range(r.randint(1, n)):
                self.file(257 + k, (b's', b'f%d' % k), 300)

    def file(self, i, path, owner=5):
        r = self.rng
        self.m.entry(owner, 256, path[-1], 1, (i, TINODE, 0), 5)
        base = r.choice([0, 0, 0, 0, 1 << 20, 1 << 36]) if self.big else 0
        far = r.choice([1 << 31, 1 << 32, 1 << 33]) if self.far and not self.big and self.logbase > 1 << 40 and r.random() < .1 else 0
        unit = r.choice([4096, 65536, 300000, 1 << 20]) if self.big else r.choice([1, 1, 7, 100, 512])
        span = 12 * unit
        gens = r.choice([[7], [5, 6], [1, 2, 3, 4, 5, 6, 7, 8]])
        end, points, vast = 0, set(), False
        slots = 12
        if not self.big and r.random() < .03:       # very many extents
            slots, unit, gens = r.choice([150, 300]), r.choice([1, 2, 7]), [3, 4, 5]
            span = slots * unit
        offs = sorted(r.sample(range(slots), slots - 5 if slots > 12 else r.choice([0, 1, 1, 2, 3, 5, 8, 12])))
        if not offs:
            base = 0
        if far:                          # and what is there is mostly the tail of one extent
            base, s, g = far, r.choice([0, 5, 4096]), r.choice(gens)
            a = self.logbase + max(0, r.choice(self.edges) + r.choice([0, 1, -1, -span // 2, r.randrange(self.top + 1)]))
            end = r.randint(1, span)
            self.m.put(owner, TEXT, i, s, g, extent_bytes(a - (base - s) - 7, base - s + end + 7, 7, base - s + end))
            points |= {e - (a - self.logbase) + d for e in self.edges + [self.size] for d in (-1, 0)} | {0, 1, -1, end, end - 1}
        for o in offs:
            off = o * unit + (r.choice([0, 0, 0, 1, -1]) if o else 0)
            gs = sorted(r.sample(gens, min(len(gens), r.choice([1, 1, 1, 2, 3]))))
            for g in gs:
                ln = r.choice([1, 1, 2, 3, 12]) * unit + r.choice([0, 0, 0, 1, -1])
                ln = max(1, min(ln, span + unit - off))
                w = r.random()
                if w < .2:
                    if r.random() < .04:             # a whole leaf of it
                        ln = r.choice([4095, 4096, 4097, 5000, 16000])
                    else:
                        ln = min(ln, 300)
                    self.m.put(owner, TEXT, i, base + off, g, inline_bytes(blob(r, ln),
                                                                     gen=r.choice([g, 1])))
                elif w < .3:
                    if r.random() < .3:              # far beyond the end of the file
                        vast = True
                        self.m.put(owner, TEXT, i, base + off, g, r.choice([extent_bytes(0, 0, 0, ln + r.choice(VAST)),
                                                                     extent_bytes(self.logbase, 1 << 40, 0, ln + r.choice(VAST), 2)]))
                    else:
                        self.m.put(owner, TEXT, i, base + off, g, extent_bytes(0, 0, 0, ln))
                else:
                    a = r.choice(self.edges) + r.choice([0, 0, 1, -1, -ln // 2, -ln, r.randrange(self.top + 1)])
                    if r.random() < .85:
                        a = max(0, min(a, self.top - ln))
                    a = max(200, a + self.logbase)
                    o2 = r.choice([0, 0, 1, 100, unit])
                    if a - o2 <= 0:
                        o2 = 0
                    self.m.put(owner, TEXT, i, base + off, g, extent_bytes(a - o2, r.choice([ln + o2, ln + o2, ln + o2, ln, 1 << 27, (1 << 27) + 4096, 1, 0]), o2, ln, 2 if w > .93 else 1, gen=r.choice([g, 9])))
                    for k in range(0, ln, 1 << 20):
                        points |= {off + k, off + k - 1, off + k + 1}
                    for e in self.edges:
                        points |= {off + e - (a - self.logbase) + d for d in (-1, 0)}
                    points |= {off + self.size - (a - self.logbase) + d for d in (-1, 0)}
                points |= {off, off - 1, off + ln, off + ln - 1, off + ln // 2}
                end = max(end, off + ln)
        w = r.random()
        if w < .85 or vast:
            size = end + base if w < .4 else r.choice([0, 1, base + end // 2, base + max(0, end - 1), base + end + 1,
                                                        base + end + unit, base + r.randrange(end + 2)])
            for g in sorted(r.sample([5, 6, 7], r.choice([1, 2]))):
                self.m.inode(owner, i, g, mode=r.choice([0o100644] * 12 + [0, 0o100000, 0o644, 0o107777]), size=size if g else 0)
        else:
            size = base + end
        points |= {size - base - 1, size - base - 2} | {r.randrange(max(1, end)) for _ in range(150 if self.big else 0)}
        self.posbase[(owner, i)] = base
        self.interest[path] = (base, sorted({base + p for p in points if p >= 0} if far else {0, 1, base // 2} | {base + p for p in points}))


def check_C10(ctx):
    rng = ctx.rng
    ctx.model('MCExtents', ctx.pick('MCExtents.cfg', 'MCExtentsDeep.cfg'))
    negative_controls(ctx, ['keyorder', 'noend', 'oldest'])
    b = RecoverBatch(ctx)
    for k in range(ctx.pick(400, 2000)):
        c = Contents(rng, k % 5 == 4)
        b.add(c.m, [('set', []), ('recover', False)], size=c.size, logbase=c.logbase, posbase=c.posbase, interest=c.interest)
    b.run()
