"""Metadata index checks (C04-C08, C22): scenarios for the real index, judged by
spec/TraceIndex.tla; exhaustive models of the index design."""
import itertools, os, struct, subprocess
from common import *

LAST = U64 - 255          # 2^64-256
VERSION = 20190809
TINODE, TXATTR, TDIR, TEXT, TROOT, TEXTITEM, TDEV, TCHUNK = 1, 24, 84, 108, 132, 168, 216, 228


def item_header(t, i, f, size, off=0):
    return struct.pack('<QBQII', i, t, f, off, size)


def chunk_bytes(length, stripes, nstripes=None):
    n = len(stripes) if nstripes is None else nstripes
    b = struct.pack('<QQQQIIIHH', length, 2, 65536, 1, 4096, 4096, 4096, n, 0)
    for dev, off in stripes:
        b += struct.pack('<QQ', dev, off) + bytes(16)
    return b


class Batch:
    """Scenarios that share a palette of 64 bit values and a table of data."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.vals = {0, 1, 2, 3, 5, 256, LAST, U64}
        self.ids, self.chunks = {}, []          # raw item -> data id
        self.by_data = {}
        self.scens = []
        self.n = 0
        self.addr_bases = []                    # [(base, number of base, bytes per unit)]

    # data ---------------------------------------------------------------
    def data(self, rng, t, chunk=None):
        self.n += 1
        tag = struct.pack('<I', self.n)
        if chunk is not None:
            return chunk
        if t == TINODE:
            return tag * 40                              # a complete inode item
        if t == TEXT:
            d = tag * rng.choice(BIG) if rng.random() < .3 else tag          # inline
            return bytes(8) + struct.pack('<Q', len(d)) + bytes(5) + d
        if t == TCHUNK:
            return chunk_bytes(self.n, [(1, self.n)])
        if t == TDIR and rng.random() < .3:
            return tag * rng.choice(BIG)
        if t == TEXTITEM or rng.random() < .7:
            return tag + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 60])))
        return b'' if rng.random() < .5 else tag[:1]

    def intern(self, t, i, f, data, chunk=None):
        raw = item_header(t, i, f, len(data)) + data
        if raw not in self.ids:
            self.ids[raw] = len(self.ids) + 1
            self.chunks.append(chunk or {'ok': False, 'len': 0, 'dev': 0, 'off': 0})
        self.by_data[data] = self.ids[raw]
        return self.ids[raw]

    def v(self, *vs):
        self.vals.update(vs)

    # scenarios ----------------------------------------------------------
    def new(self):
        s = Scen(self)
        self.scens.append(s)
        return s

    def run(self, extra=None, timeout=600):
        ctx = self.ctx
        base = ctx.dir('idx%d' % len(os.listdir(ctx.tmp)))
        drv = [{'dir': os.path.join(base, str(k)), 'ops': [d for d, _ in s.ops if d['op'] != 'dump']}
               for k, s in enumerate(self.scens)]
        res = ctx.run_driver('index', drv, timeout=timeout)
        pal = Palette(self.vals)
        trace = []
        for s, d, r in zip(self.scens, drv, res):
            r = list(r)
            ops = []
            for dop, top in s.ops:
                if dop['op'] == 'dump':
                    ob = dump_cli(ctx, os.path.join(d['dir'], 'index'))
                else:
                    if not r:
                        break
                    ob = r.pop(0)
                    if ob.get('r') == 'skip':
                        continue                  # there is no open handle
                t = {k: (pal(v) if k in ('o', 'i', 'f', 'g', 'i2', 'f2', 'gen') else v) for k, v in top.items()}
                if 'puts' in t:
                    t['puts'] = [[[pal(o), ty, pal(i), pal(f), pal(g)], did]
                                 for (o, ty, i, f, g), did in t['puts']]
                t['obs'] = self.project(pal, dop, ob)
                ops.append(t)
                ctx.count('operations')
                ctx.count('op_' + dop['op'])
                if ob.get('r') in ('panic', 'hang', 'died'):
                    break
            trace.append({'ops': ops})
        addrs = []
        for v in pal.values:
            a = -1
            for b, n, sc in self.addr_bases:
                if b <= v < b + sc * (1 << 26) and (v - b) % sc == 0:
                    a = n * (1 << 26) + (v - b) // sc
            addrs.append(a)
        hdr = {'max': pal(U64), 'last': pal(LAST), 'r0': pal(0), 'r1': pal(1), 'r2': pal(2), 'r3': pal(3),
               'r256': pal(256), 'chunks': self.chunks or [{'ok': False, 'len': 0, 'dev': 0, 'off': 0}],
               'addrs': addrs}
        for t in trace[:2]:
            ctx.sample({'ops': t['ops'][:12]})
        ctx.trace('TraceIndex', hdr, trace, timeout=timeout)
        shutil.rmtree(base, ignore_errors=True)

    def did(self, raw, value=None):
        b = bytes.fromhex(raw)
        d = self.ids.get(b, -1)
        if value is not None and d > 0 and bytes.fromhex(value) != b[25:]:
            return -2                         # the item's data was cut or extended
        return d

    def project(self, pal, dop, ob):
        r = ob.get('r')
        op = dop['op']
        if r in ('panic', 'hang', 'died', 'endless', 'nil'):
            return {'r': r}
        if op == 'open':
            return {'r': 'ok'} if r == 'ok' else {k: ob[k] for k in ('r', 'changed', 'exists', 'locked')}
        if op in ('range', 'rall', 'dir', 'xattr', 'ext', 'chunks', 'devs', 'subvols', 'full', 'crash'):
            return {'r': r, 'list': [[pal(o), t, pal(i), pal(f), pal(g), self.did(raw, v)]
                                     for o, t, i, f, g, raw, v in ob['list']]}
        if op == 'find':
            return {'r': r, 'list': [self.did(x) for x in ob['list']]}
        if op in ('find_inode', 'find_extent', 'find_extitem'):
            return {'r': r, 'list': [self.by_data.get(bytes.fromhex(x), -1) for x in ob['list']]}
        if op == 'meta':
            if r != 'ok':
                return {'r': r}
            ver = 'ok' if ob['ver'] == VERSION else 'old' if ob['ver'] < VERSION else 'new'
            return {'r': 'ok', 'ver': ver, 'bs': ob['bs'], 'fsid': fsnum(ob['fsid']), 'gen': pal(ob['gen'])}
        if op == 'phys':
            # Chunks consist of whole units: the answer is the same for all bytes of one
            sc, delta = dop['scale'], dop['delta']
            out = {'r': r, 'ok': ob['ok'], 'dev': -1, 'off': -1,
                   'len': min(-(-(ob['len'] + delta) // sc), 1 << 25) if ob['len'] > 0 else 0}
            if ob['ok']:
                out['dev'] = ob['dev'] if ob['dev'] < 1 << 30 else -1
                off = ob['off'] - dop['physbase'] - delta
                out['off'] = off // sc if 0 <= off < sc << 30 and off % sc == 0 else -1
            return out
        if op == 'dump':
            return {'r': r, 'list': [[pal(o), t, pal(i), pal(f), pal(g)] for o, t, i, f, g in ob['list']]}
        return {'r': r}


BIG = [20, 250, 500, 600, 600, 1010, 4000, 4000]      # 16000 bytes is the most that fits into a leaf
FSIDS = ['%032x' % 0] + [('%02x' % n) * 16 for n in range(1, 9)]
NEARIDS = range(len(FSIDS), len(FSIDS) + 10)          # differ from the first one in one bit
FSIDS += [('%032x' % (int(FSIDS[1], 16) ^ (1 << k))) for k in (0, 7, 8, 40, 47, 63, 64, 79, 120, 127)]


def fsnum(h):
    return FSIDS.index(h) if h in FSIDS else -1


class Scen:
    def __init__(self, b):
        self.b, self.ops = b, []
        self.kind = 'none'

    def add(self, drv, **t):
        d = dict(drv)
        top = {'op': d['op']}
        top.update(t)
        self.ops.append((d, top))

    def open(self, ro=False, fs=1, bs=4096, gen=U64, short=False):
        self.b.v(gen)
        self.add({'op': 'open', 'ro': ro, 'fsid': FSIDS[fs], 'bs': bs, 'gen': gen, 'short': short and ro and gen == U64},
                 ro=ro, fsid=fs, bs=bs, gen=gen)

    def insert(self, rng, o, t, i, f, g, data=None, chunk=None):
        self.b.v(o, i, f, g)
        data = self.b.data(rng, t) if data is None else data
        self.add({'op': 'insert', 'o': o, 't': t, 'i': i, 'f': f, 'g': g, 'data': data.hex()},
                 o=o, t=t, i=i, f=f, g=g, d=self.b.intern(t, i, f, data, chunk))

    def rawtx(self, rng, keys, fail, chunk=None):
        items, puts = [], []
        for o, t, i, f, g in keys:
            self.b.v(o, i, f, g)
            data, meta = chunk or (self.b.data(rng, t), None)
            items.append({'o': o, 't': t, 'i': i, 'f': f, 'g': g, 'data': data.hex()})
            puts.append([(o, t, i, f, g), self.b.intern(t, i, f, data, meta)])
        self.add({'op': 'rawtx', 'items': items, 'fail': fail}, puts=puts, fail=fail)

    def find(self, o, t, i, f):
        self.b.v(o, i, f)
        self.add({'op': 'find', 'o': o, 't': t, 'i': i, 'f': f}, o=o, t=t, i=i, f=f)

    def find_typed(self, op, o, i, f=0):
        t = {'find_inode': TINODE, 'find_extent': TEXT, 'find_extitem': TEXTITEM}[op]
        if op == 'find_extitem':
            o = 2
        if op in ('find_inode', 'find_extent'):
            f = 0
        self.b.v(o, i, f)
        self.add({'op': op, 'o': o, 'i': i, 'f': f}, o=o, t=t, i=i, f=f)

    def range(self, o, k1, k2):
        self.b.v(o, k1[1], k1[2], k2[1], k2[2])
        self.add({'op': 'range', 'o': o, 't': k1[0], 'i': k1[1], 'f': k1[2], 't2': k2[0], 'i2': k2[1], 'f2': k2[2]},
                 o=o, t=k1[0], i=k1[1], f=k1[2], t2=k2[0], i2=k2[1], f2=k2[2])

    def rall(self, o, t, i):
        self.b.v(o, i)
        self.add({'op': 'rall', 'o': o, 't': t, 'i': i}, o=o, t=t, i=i)

    def typed(self, op, o=0, i=0):
        self.b.v(o, i)
        self.add({'op': op, 'o': o, 'i': i}, o=o, i=i)

    def do(self, op, **kw):
        self.add({'op': op, **kw}, **kw)

    def phys(self, base, n, off, physbase, scale=1, delta=0):
        a = base + off * scale + delta
        self.add({'op': 'phys', 'addr': a, 'physbase': physbase, 'scale': scale, 'delta': delta}, a=n * (1 << 26) + off)


POOL = [0, 1, 2, 3, 5, 7, 255, 256, 257, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63,
        LAST - 1, LAST, LAST + 1, U64 - 1, U64]
TYPES = [0, 1, 12, 24, 84, 96, 108, 132, 168, 216, 228, 255]


def near(rng, n):
    """A pool of n values, partly adjacent ones."""
    out = set()
    while len(out) < n:
        x = rng.choice(POOL) if rng.random() < .6 else rng.getrandbits(rng.choice([4, 9, 17, 33, 64]))
        out.add(x)
        if rng.random() < .4 and x < U64:
            out.add(x + 1)
    out = sorted(out)
    rng.shuffle(out)
    return out[:n]


def query_scenarios(ctx, b, n, typed):
    rng = ctx.rng
    for _ in range(n):
        s = b.new()
        if typed:
            owners = rng.sample([1, 3, 5, 256, 257], 3)
            types = rng.sample([TDIR, TXATTR, TEXT, TCHUNK, TDEV, TROOT, 83, 85, 109, 133, TINODE, TEXTITEM], 4)
            ids = [256, 1] + near(rng, 1) if rng.random() < .7 else near(rng, 3)
        else:
            owners = [o for o in near(rng, 3) if o != U64] or [5]
            types = rng.sample(TYPES, 3)
            ids = near(rng, 3)
        offs = near(rng, 3)
        gens = near(rng, 4)
        if TINODE in types or TEXT in types:
            offs[0] = 0
        dense = rng.random() < .5
        keys = [(o, t, i, f) for o in owners for t in types for i in ids for f in offs]
        keys = rng.sample(keys, rng.randint(1, 6 if dense else 14))
        s.open(gen=rng.choice(gens + [0, U64]))

        def puts(m):
            for _ in range(m):
                o, t, i, f = rng.choice(keys)
                s.insert(rng, o, t, i, f, rng.choice(gens))

        def asks(m):
            for _ in range(m):
                p = rng.random()
                k = rng.choice(keys)
                if p < .35:
                    s.find(*k)
                elif p < .45:
                    s.find(rng.choice(owners), rng.choice(types), rng.choice(ids), rng.choice(offs))
                elif p < .5:
                    s.find(rng.choice([k[0], U64]), rng.choice(TYPES), rng.choice(POOL), rng.choice(POOL))
                    s.find(U64, rng.choice([255, 255, 254]), rng.choice([U64, U64, LAST]), U64)     # where the index keeps its own record
                elif p < .58:
                    op = rng.choice(['find_inode', 'find_extent', 'find_extitem'])
                    s.find_typed(op, k[0], k[2], rng.choice(offs))
                elif p < .7:
                    k1, k2 = sorted([rng.choice(keys)[1:], rng.choice(keys)[1:]])
                    s.range(k[0], k1, k2)
                elif p < .8:
                    k1 = (rng.choice(types), rng.choice(ids + [0]), rng.choice(offs + [0]))
                    k2 = (rng.choice(types), rng.choice(ids + [U64, LAST]), rng.choice(offs + [U64]))
                    s.range(rng.choice(owners), k1, k2)
                elif p < .86:
                    s.rall(k[0], k[1], k[2])
                elif p < .9:
                    s.range(k[0], (0, 0, 0), (255, U64, U64))
                else:
                    op = rng.choice(['dir', 'xattr', 'ext', 'chunks', 'devs', 'subvols'])
                    s.typed(op, rng.choice(owners), rng.choice(ids))

        puts(rng.randint(0, 12))
        asks(6)
        if rng.random() < .3:
            s.do('commit')
            asks(4)
        puts(rng.randint(1, 12))
        asks(12)
        s.do('close')
        for g in rng.sample(gens, 2) + [U64]:
            s.open(ro=rng.random() < .7, gen=g, short=rng.random() < .5)
            asks(10)
            s.do('close')


def exhaustive_queries(ctx, b, subset_bits):
    """All sets of stored versions of a small universe, all generations, all
    queries of a small set."""
    rng = ctx.rng
    o1, o2 = 5, 6
    A, B, C = (o1, 84, 256, 7), (o1, 84, 256, 8), (o2, 84, 256, 7)
    D = (o1, 84, 257, 0)
    E = (o1, 96, 256, 7)
    universe = [A + (2,), A + (4,), B + (2,), B + (4,), C + (3,), D + (4,), E + (3,), A + (6,)][:subset_bits]
    for bits in range(1 << len(universe)):
        chosen = [v for k, v in enumerate(universe) if bits >> k & 1]
        rng.shuffle(chosen)
        s = b.new()
        s.open()
        for v in chosen:
            s.insert(rng, *v)
        s.do('close')
        for g in range(1, 7):
            s.open(ro=True, gen=g)
            for k in (A, B, C, D):
                s.find(*k)
            for o, k1, k2 in ((o1, A[1:], B[1:]), (o1, (84, 256, 0), (84, 256, 6)), (o1, (84, 256, 0), (84, 256, 7)),
                              (o1, (84, 256, 8), (84, 256, U64)), (o2, (84, 256, 0), (84, 257, 0)),
                              (o1, (0, 0, 0), (255, U64, U64))):
                s.range(o, k1, k2)
            s.typed('dir', o1, 256)
            s.do('close')


LISTS = {'dir': (TDIR, None), 'xattr': (TXATTR, None), 'ext': (TEXT, None), 'chunks': (TCHUNK, (3, 256)), 'devs': (TDEV, (3, 1)),
         'subvols': (TROOT, (1, None))}


def edge_queries(ctx, b, n):
    """Each of the listings and lookups, with keys at and right beside the ends of what belongs to it."""
    rng = ctx.rng
    for op, (t, fixed) in LISTS.items():
        ends = [0, 1, 2, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, U64 - 1, U64]
        ids = [255, 256, 257, (1 << 63) - 1, 1 << 63, LAST - 1, LAST, LAST + 1, U64]
        for k in range(n):
            o, i = rng.choice([1, 3, 5, 256, LAST, U64 - 1]), rng.choice([0, 1, 256, 257, 1 << 63, LAST, U64])
            if fixed:
                o, i = fixed[0], fixed[1]
            keys = [(o, t, rng.choice(ids) if i is None else i, f) for f in ends]
            if i is None:
                keys += [(o, t, x, rng.choice([0, 0, 1, U64])) for x in ids]
            j = 256 if i is None else i
            beside = [(o, t - 1, j, U64), (o, t + 1, j, 0), (o, t, j - 1 if j else 1, U64), (o, t, j + 1 if j < U64 else 0, 0),
                      ((o + 1) % U64, t, j, 0), (o - 1, t, j, U64), (o - 1, t, j, 0)]
            s = b.new()
            g = rng.choice([3, 4, 5, U64])
            s.open(gen=g)
            put = [keys[k]] if k < len(keys) else rng.sample(keys, rng.randint(1, len(keys))) + rng.sample(beside, rng.randint(0, 4))
            rng.shuffle(put)
            for x in put:
                for v in rng.sample([0, 3, 4, 5, U64], rng.choice([1, 1, 2])):
                    s.insert(rng, *x, v)
            s.typed(op, o, j)
            s.typed(op, o, rng.choice([j, 257]))
            for x in put[:3]:
                s.find(*x)
                s.range(x[0], x[1:], x[1:])
                s.rall(*x[:3])
                s.find_typed(rng.choice(['find_inode', 'find_extent', 'find_extitem']), x[0], x[2], x[3])
            s.do('close')


def check_C04(ctx):
    ctx.model('MCIndexQueryDefs', ctx.pick('MCIndexQuery.cfg', 'MCIndexQueryDeep.cfg'))
    b = Batch(ctx)
    exhaustive_queries(ctx, b, ctx.pick(6, 8))
    b.run()
    b = Batch(ctx)
    query_scenarios(ctx, b, ctx.pick(400, 4000), False)
    b.run()
    b = Batch(ctx)
    edge_queries(ctx, b, ctx.pick(20, 100))
    b.run()
    negative_controls(ctx, ['find'])


def check_C05(ctx):
    ctx.model('MCIndexQueryDefs', ctx.pick('MCIndexQuery.cfg', 'MCIndexQueryDeep.cfg'))
    b = Batch(ctx)
    exhaustive_queries(ctx, b, ctx.pick(6, 8))
    b.run()
    b = Batch(ctx)
    query_scenarios(ctx, b, ctx.pick(400, 4000), True)
    b.run()
    b = Batch(ctx)
    edge_queries(ctx, b, ctx.pick(30, 200))
    b.run()
    negative_controls(ctx, ['range'])


def negative_controls(ctx, names):
    """The design as found at the base commit has to violate the model."""
    if ctx.thorough:
        for n in names:
            ctx.model(NEG[n], 'Neg_%s.cfg' % n, expect_violation=True)


NEG = {'find': 'MCIndexQueryDefs', 'range': 'MCIndexQueryDefs', 'tx': 'MCIndexImplDefs', 'reuse': 'MCIndexImplDefs',
       'rowrite': 'MCIndexImplDefs', 'reserved': 'MCIndexImplDefs', 'open': 'MCIndexImplDefs', 'phys': 'MCIndexImplDefs',
       'stale': 'MCIndexImplDefs', 'keyorder': 'MCExtents', 'noend': 'MCExtents', 'oldest': 'MCExtents',
       'novisited': 'MCRecover', 'visitfirst': 'MCRecover', 'abort': 'MCRecover', 'subvols': 'MCRecover', 'follow': 'MCRecover',
       'nolock': 'MCMount', 'held': 'MCMount', 'order': 'MCMount', 'numbers': 'MCMount', 'samefile': 'MCInputs', 'through': 'MCInputs', 'rwopen': 'MCInputs',
       'setattr': 'MCInputs', **{'cmd_' + m: 'MCCommands' for m in ('openfirst', 'destfirst', 'envwins', 'nosize', 'creates')},
       **{'sample_' + m: 'MCSample' for m in ('noroom', 'noclamp', 'edge', 'unaligned')},
       **{'collect_' + m: 'MCCollect' for m in ('above', 'empty', 'drawn', 'level', 'first')},
       **{'ids_' + m: 'MCIds' for m in ('case', 'long', 'short', 'ends')}}


# -- C06 ---------------------------------------------------------------------

def hdr_bytes(ver, bs, fs, gen):
    return struct.pack('<QI', ver, bs) + bytes.fromhex(FSIDS[fs]) + struct.pack('<Q', gen)


def tamper(s, rng, kind, ver='ok', bs=4096, fs=1, gen=U64, cut=None):
    """Changes the closed file; keeps track of what it is."""
    if kind in ('nohdr', 'short', 'ok') and s.kind == 'garbage':
        tamper(s, rng, 'none')
    if kind == 'nobucket' and s.kind == 'garbage':
        tamper(s, rng, 'none')
    s.b.v(gen)
    v = {'ok': VERSION, 'old': rng.choice([20161109, VERSION - 1, 0]),
         'new': rng.choice([VERSION + 1, 20990101, VERSION + (1 << 32), VERSION | 1 << 63, U64])}[ver]
    h = hdr_bytes(v, bs, fs, gen)
    if kind == 'short':
        h = h[:cut if cut is not None else rng.randrange(len(h))]
    d = {'op': 'tamper', 'kind': 'hdr' if kind in ('short', 'ok') else kind, 'hdr': h.hex(), 'n': rng.choice([1, 100, 4096, 20000])}
    s.add(d, kind=kind, ver=ver if kind == 'ok' else 'ok', bs=bs, fsid=fs, gen=gen)
    s.kind = kind


def check_C06(ctx):
    rng = ctx.rng
    ctx.model('MCIndexStoreDefs', 'MCIndexStore.cfg')
    ctx.model('MCIndexImplDefs', 'MCIndexOpen.cfg')
    b = Batch(ctx)
    # Every kind of file with every kind of open, with and without items
    kinds = [('none', 'ok', 4096, 1), ('empty', 'ok', 4096, 1), ('garbage', 'ok', 4096, 1), ('nobucket', 'ok', 4096, 1),
             ('nohdr', 'ok', 4096, 1), ('short', 'ok', 4096, 1), ('ok', 'ok', 4096, 1), ('ok', 'old', 4096, 1),
             ('ok', 'new', 4096, 1), ('ok', 'ok', 8192, 1), ('ok', 'ok', 4096, 2), ('ok', 'old', 8192, 2)]
    opens = [dict(ro=True), dict(ro=True, short=True), dict(ro=True, bs=8192, fs=2), dict(), dict(bs=8192), dict(fs=2),
             dict(fs=2, bs=8192), dict(bs=4097), dict(fs=0)]
    for k, ver, bs, fs in kinds:
        for items in (0, 2):
            for o1 in opens:
                s = b.new()
                if items:
                    s.open()
                    for j in range(items):
                        s.insert(rng, 5, 84, 256, j, 9)
                    s.do('close')
                tamper(s, rng, k, ver, bs, fs, gen=rng.choice([7, U64]))
                s.open(**o1)
                probe_open(s)
                # the file has to be usable afterwards
                s.open(bs=bs, fs=fs)
                probe_open(s)
                s.open(ro=True)
                probe_open(s)
    # Other file systems and block sizes that differ only slightly
    for fs, bs in [(k, 4096) for k in NEARIDS] + [(1, n) for n in (4095, 4097, 4096 ^ 256, 4096 ^ 65536, 4096 ^ 1 << 24, 512, 0)]:
        for o in (dict(fs=fs, bs=bs), dict(fs=fs, bs=bs, ro=True)):
            s = b.new()
            s.open()
            s.insert(rng, 5, 84, 256, 1, 9)
            s.do('close')
            s.open(**o)
            probe_open(s)
            s.open()
            probe_open(s)
    for cut in range(0, 36):
        s = b.new()
        tamper(s, rng, 'short', cut=cut)
        s.open(ro=True)
        s.open()
        s.open(ro=True, short=True)
    b.run()
    b = Batch(ctx)
    for _ in range(ctx.pick(150, 2500)):
        s = b.new()
        for _ in range(rng.randint(2, 5)):
            if rng.random() < .7:
                k, ver, bs, fs = rng.choice(kinds)
                tamper(s, rng, k, ver, bs, fs, gen=rng.choice([0, 7, U64]))
            for _ in range(rng.randint(1, 3)):
                o = dict(rng.choice(opens))
                if rng.random() < .15:
                    o['fs'] = rng.choice(NEARIDS)
                o.setdefault('gen', rng.choice([0, 3, U64]))
                s.open(**o)
                probe_open(s, rng)
    b.run()
    negative_controls(ctx, ['open'])


def probe_open(s, rng=None):
    """Uses the handle. The driver skips these steps if the open was refused."""
    s.do('meta')
    s.do('full')
    if rng and rng.random() < .5:
        s.insert(rng, 5, 84, 256, rng.randrange(4), rng.randrange(1, 9))
        s.do('full')
    s.do('close')


# -- C07 ---------------------------------------------------------------------

def check_C07(ctx):
    rng = ctx.rng
    ctx.model('MCIndexStoreDefs', 'MCIndexStore.cfg')
    ctx.model('MCIndexImplDefs', 'MCIndexTx.cfg')
    b = Batch(ctx)
    keys = [(o, t, 256, f) for o in (5, 6) for t in (TDIR, TEXT) for f in (0, 9)]
    gens = [1, 2, 3]
    for _ in range(ctx.pick(250, 4000)):
        s = b.new()
        is_open, ro = False, False
        fresh = True

        def ask():
            p = rng.random()
            if p < .5:
                s.do('full')
            elif p < .75:
                s.find(*rng.choice(keys))
            elif p < .85:
                s.do('meta')
            else:
                s.range(5, (0, 0, 0), (255, U64, U64))

        for _ in range(rng.randint(8, 25)):
            p = rng.random()
            k = rng.choice(keys) + (rng.choice(gens),)
            if not is_open:
                ro = not fresh and rng.random() < .3
                s.open(ro=ro, gen=rng.choice([U64, 2]), short=rng.random() < .5)
                is_open, fresh = True, False
                ask()
            elif p < .4:
                s.insert(rng, *k)
                if rng.random() < .5:
                    ask()
            elif p < .52:
                s.do('commit')
                if rng.random() < .7:
                    ask()
            elif p < .68:
                ks = [rng.choice(keys) + (rng.choice(gens),) for _ in range(rng.randint(0, 3))]
                s.rawtx(rng, ks, rng.random() < .5)
                ask()
            elif p < .76:
                s.do('close')
                is_open = False
            elif p < .84 and not ro:
                s.do('crash')
                is_open = False
            else:
                ask()
        if is_open:
            ask()
            s.do(rng.choice(['close', 'crash']) if not ro else 'close')
        s.open(ro=True)
        s.do('full')
        s.do('close')
    b.run()
    bulk(ctx, ctx.pick(7, 24))
    negative_controls(ctx, ['tx', 'reuse', 'rowrite', 'reserved'])


def bulk(ctx, n):
    """Sequences with more inserts than one transaction takes."""
    rng = ctx.rng
    base = ctx.dir('bulk')
    scens, tops, periods = [], [], []
    for k in range(n):
        ops = [{'op': 'open', 'ro': False, 'fsid': FSIDS[1], 'bs': 4096, 'gen': U64}]
        top = [{'op': 'open'}]
        period = [1 << 30, rng.choice([rng.randint(1, 5), rng.randint(100, 9000)]), 1 << 30, rng.choice([10000, rng.randint(5000, 9999)]),
                  1 << 30, rng.randint(1, 30000)][k % 6]
        sizes = '' if period < 1 << 30 else {0: 'empty', 2: 'large', 4: 'mixed', 6: ''}.get(k) if k <= 6 else rng.choice(['', 'mixed', 'empty', 'large'])
        bk = {'o': rng.choice([5, 3, 300]), 't': rng.choice([1, 84, TCHUNK]), 'i': rng.choice([256, 300]), 'g': rng.choice([4, 0, U64]),
              'period': period, 'sizes': sizes}
        steps = [('bulk', 9990 + rng.randint(0, 8)), ('crash',), ('bulk', 10), ('bulk', 10001), ('crash',), ('bulk', 3),
                 ('query',), ('commit',), ('crash',), ('bulk', 10002), ('crash',), ('bulk', 25000), ('query',), ('crash',)]
        if k % 3 == 1:
            steps = [('bulk', rng.randint(1, 12000)), ('query',), ('crash',)] * 3
        elif k % 3 == 2:
            steps = [('bulk', 1), ('bulk', 10000), ('query',), ('close',), ('crash',), ('bulk', 10000), ('commit',), ('query',), ('bulk', 1),
                     ('crash',)]
        for st in steps:
            if st[0] == 'bulk':
                ops.append({'op': 'bulk', 'n': st[1], **bk})
            elif st[0] == 'crash':
                ops.append({'op': 'crashruns', **bk})
                top.append({'op': 'crash'})
                ops.append(dict(ops[0]))
                top.append({'op': 'open'})
                continue
            elif st[0] == 'query':
                ops.append({'op': 'query_runs', **bk})
            elif st[0] == 'close':
                ops += [{'op': 'close'}, dict(ops[0])]
                top += [{'op': 'close'}, {'op': 'open'}]
                continue
            else:
                ops.append({'op': 'commit'})
            top.append({'op': st[0], 'n': st[1] if len(st) > 1 else 0})
        scens.append({'dir': os.path.join(base, str(k)), 'ops': ops})
        tops.append(top)
        periods.append(period)
    res = ctx.run_driver('index', scens, timeout=600)
    trace = []
    for top, r, per in zip(tops, res, periods):
        for t, o in zip(top, r):
            t['obs'] = {'r': o['r'], 'runs': o.get('runs', []), 'bad': o.get('bad', 0)}
        trace.append({'period': per, 'ops': top[:len(r)]})
    ctx.count('bulk_scenarios', len(trace))
    ctx.sample(trace[0])
    ctx.trace('TraceIndexBulk', {'lag': 10001}, trace)


# -- C08 ---------------------------------------------------------------------

def check_C08(ctx):
    rng = ctx.rng
    ctx.model('MCIndexImplDefs', ctx.pick('MCIndexPhys.cfg', 'MCIndexPhysDeep.cfg'))
    for big in (False, True):
        physical(ctx, rng, big)
    many_chunks(ctx, rng)
    negative_controls(ctx, ['phys', 'stale'])


def many_chunks(ctx, rng):
    """Many chunks, and many that lie within a larger one."""
    b = Batch(ctx)
    base = 1 << 40
    b.addr_bases = [(base, 0, 1)]
    for k in range(ctx.pick(6, 24)):
        s = b.new()
        s.open(gen=U64)
        big = k % 3 == 0
        n = rng.randint(520, 700) if big else rng.randint(3, 90)
        unit = rng.choice([1, 4096])
        where, pos = [], unit
        for i in range(n):
            ln = unit * rng.randint(1, 3)
            where.append((pos, ln))
            pos += ln + rng.choice([0, unit])
        end = pos
        if not big or rng.random() < .5:      # under all of them, or most
            first = rng.choice([0, 0, rng.randrange(n // 2)])
            p = where[first][0] - unit if not first else where[first][0]
            if first:
                where[first] = (p, end - p + unit)
            else:
                where.append((p, end - p + unit))
        edges = [0, end, end + unit, end - 1] + [e for p, l in where for e in (p, p + l)]
        rng.shuffle(where)
        for p, l in where:
            off = rng.randrange(1 << 29)
            s.insert(rng, 3, TCHUNK, 256, base + p, rng.choice([3, 4]), chunk_bytes(l, [(1 + off % 3, off)]),
                     {'ok': True, 'len': l, 'dev': 1 + off % 3, 'off': off})
        for _ in range(40):
            a = rng.choice(edges) + rng.choice([-1, 0, 0, 1])
            if a >= 0:
                s.phys(base, 0, a, 0)
        for a in (max(edges) - 1, max(edges), min(edges), end - 1, end, end + unit - 1):
            s.phys(base, 0, a, 0)
        s.do('close')
    b.run()


def physical(ctx, rng, big):
    b = Batch(ctx)
    bases = [0, 1 << 32, (1 << 40) + 12345, (1 << 62) + 7, (1 << 63) - (1 << 20), U64 + 1 - (1 << 26)]
    scales = [1] * len(bases)
    if big:                                   # chunks of Gibibytes and more
        bases = [0, 1 << 44, (1 << 63) - (1 << 40), U64 + 1 - (1 << 58)]
        scales = [1 << 12, 1 << 16, 1 << 15, 1 << 32]
    b.addr_bases = [(x, n, sc) for n, (x, sc) in enumerate(zip(bases, scales))]

    def chunk(length, dev, off, physbase, n=1, scale=1):
        return (chunk_bytes(length * scale, [(dev, physbase + off * scale)] + [(9, 5)] * (n - 1)),
                {'ok': True, 'len': length, 'dev': dev, 'off': off})

    for k in range(ctx.pick(180, 2500)):
        s = b.new()
        nb = rng.randrange(len(bases))
        base, scale = bases[nb], scales[nb]
        physbase = rng.choice([0, 0, 1 << 33, 1 << 50]) if scale < 1 << 32 else 0
        top = 1 << 26
        unit = rng.choice([1, 4096, 1 << 20])
        gens = [3, 5, 7]
        G = rng.choice([2, 3, 4, 5, 6, 7, U64])
        s.open(gen=G)
        starts, edges = [], [0, unit, top - 1]
        overlap = rng.random() < .25
        pos = rng.choice([0, 0, unit, 3 * unit])
        layout = []
        for _ in range(rng.randint(0, 5)):
            ln = unit * rng.randint(1, 4)
            layout.append((pos, ln))
            pos += (ln if not overlap else rng.randint(1, ln)) + rng.choice([0, 0, 1, unit])
        if nb == len(bases) - 1 and rng.random() < .5:
            layout.append((top - 2 * unit, 2 * unit))      # up to the end of the address space
        layout = [(p, l) for p, l in layout if p + l <= top]
        rng.shuffle(layout)

        def asks(m):
            for _ in range(m):
                e = rng.choice(edges)
                a = e + rng.choice([-1, 0, 0, 1, unit // 2])
                if 0 <= a < top:
                    s.phys(base, nb, a, physbase, scale, rng.choice([0, scale - 1, rng.randrange(scale)]))

        asks(2)
        chain, same = None, None
        if rng.random() < .2:                 # chunks of the same place
            same = (rng.randint(1, 3), rng.randrange(1, 1 << 20))
        elif rng.random() < .3:               # chunks that follow each other on one device
            layout.sort()
            chain = rng.randrange(1, 1 << 20)
        for p, l in layout:
            edges += [p, p + l, p + l - 1]
            for g in rng.sample(gens, 1 if chain else rng.choice([1, 1, 1, 2, 3])):
                w = rng.random()
                ln = l if rng.random() < .8 else max(1, l - rng.choice([1, unit // 2 + 1]))
                if w < .88 and same:
                    raw, meta = chunk(ln, same[0], same[1], physbase, 1, scale)
                elif w < .88 and chain:
                    raw, meta = chunk(ln, 1, chain, physbase, 1, scale)
                    chain += ln
                elif w < .88:
                    raw, meta = chunk(ln, rng.randint(0, 3), rng.choice([0, 1, 1, 1, 1]) * rng.randrange(1, 1 << 20) * unit % (1 << 29), physbase,
                                      rng.choice([1, 1, 2, 3, 4, 10, 16, 17, 33, 100]), scale)
                elif w < .94:
                    raw, meta = chunk_bytes(ln, [(1, 5)])[:rng.randint(0, 79)], None
                else:
                    raw, meta = chunk_bytes(ln, [(1, 5)], 0), None
                if rng.random() < .15:
                    s.rawtx(rng, [(3, TCHUNK, 256, base + p * scale, g)], rng.random() < .3, (raw, meta))
                else:
                    s.insert(rng, 3, TCHUNK, 256, base + p * scale, g, raw, meta)
                if rng.random() < .3:
                    asks(2)
            if rng.random() < .2:       # neighbours of the chunk items
                s.insert(rng, 3, rng.choice([TDEV, 227, 229]), 256, base + p * scale, 4)
                s.insert(rng, rng.choice([2, 4]), TCHUNK, 256, base + p * scale, 4, *chunk(l, 8, 77, physbase, 1, scale))
                s.insert(rng, 3, TCHUNK, rng.choice([255, 257]), base + p * scale, 4, *chunk(l, 8, 77, physbase, 1, scale))
        asks(8)
        if rng.random() < .3:
            s.do('commit')
            asks(4)
        s.do('close')
        for g in (rng.choice(gens), U64):
            s.open(ro=True, gen=g)
            asks(10)
            s.do('close')
    b.run()


# -- C22 ---------------------------------------------------------------------

OBJ = {'ROOT_TREE': 1, 'EXTENT_TREE': 2, 'CHUNK_TREE': 3, 'DEV_TREE': 4, 'FS_TREE': 5, 'ROOT_TREE_DIR': 6,
       'CSUM_TREE': 7, 'QUOTA_TREE': 8, 'UUID': 9, 'FREES_SPACE_TREE': 10, 'FREE_SPACE_TREE': 10, 'DEV_STATS': 0, 'BALANCE': U64 - 3,
       'ORPHAN': U64 - 4, 'TREE_LOG': U64 - 5, 'TREE_LOG_FIXUP': U64 - 6, 'TREE_RELOC': U64 - 7,
       'DATA_RELOC_TREE': U64 - 8, 'EXTENT_CSUM': U64 - 9, 'FREE_SPACE': U64 - 10, 'FREE_INO': U64 - 11,
       'MULTIPLE': U64 - 254, 'FIRST_FREE': 256, 'LAST_FREE': LAST}
TYP = {'INODE_ITEM': 1, 'INODE_REF': 12, 'INODE_EXTREF': 13, 'XATTR_ITEM': 24, 'ORPHAN_ITEM': 48, 'DIR_LOG_ITEM': 60,
       'DIR_LOG_INDEX': 72, 'DIR_ITEM': 84, 'DIR_INDEX': 96, 'EXTENT_DATA': 108, 'EXTENT_CSUM': 128, 'ROOT_ITEM': 132,
       'ROOT_BACKREF': 144, 'ROOT_REF': 156, 'EXTENT_ITEM': 168, 'METADATA_ITEM': 169, 'TREE_BLOCK_REF': 176,
       'EXTENT_DATA_REF': 178, 'EXTENT_REF_V0': 180, 'SHARED_BLOCK_REF': 182, 'SHARED_DATA_REF': 184,
       'BLOCK_GROUP_ITEM': 192, 'FREE_SPACE_INFO': 198, 'FREE_SPACE_EXTENT': 199, 'FREE_SPACE_BITMAP': 200,
       'DEV_EXTENT': 204, 'DEV_ITEM': 216, 'CHUNK_ITEM': 228, 'QGROUP_STATUS': 240, 'QGROUP_INFO': 242, 'QGROUP_LIMIT': 244,
       'QGROUP_RELATION': 246, 'TEMPORARY_ITEM': 248, 'PERSISTENT_ITEM': 249, 'DEV_REPLACE': 250, 'UUID_SUBVOL': 251,
       'UUID_RECEIVED_SUBVOL': 252, 'STRING_ITEM': 253}


def parse_dump(text):
    """The printed (owner, type, id, offset, generation) tuples, or None."""
    out, owner, seen = [], None, set()
    for line in text.splitlines():
        m = re.fullmatch(r'owner (\d+)', line)
        if m:
            owner = int(m.group(1))
            if owner in seen:
                return None                          # not grouped
            seen.add(owner)
            continue
        m = re.fullmatch(r'key \((\S+) (\S+) (-?\d+)\) @ (\d+)', line)
        if not m or owner is None:
            return None
        i, t, f, g = m.groups()
        i = OBJ[i] if i in OBJ else int(i) if i.isdigit() else -1
        t = TYP[t] if t in TYP else int(t) if t.isdigit() else -1
        out.append([owner, t, i, int(f) & U64, int(g)])
    return out


def dump_cli(ctx, path):
    try:
        r = subprocess.run([ctx.cli(), '--metadata', path, 'dump-index'], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        return {'r': 'hang', 'list': []}
    if r.returncode not in (0, 1):
        return {'r': 'died', 'list': []}
    if r.returncode != 0:
        return {'r': 'err', 'list': []}
    out = parse_dump(r.stdout.decode(errors='replace'))
    if out is None:
        return {'r': 'unreadable', 'list': []}
    return {'r': 'ok', 'list': out}


def check_C22(ctx):
    rng = ctx.rng
    ctx.model('MCIndexQueryDefs', ctx.pick('MCIndexQuery.cfg', 'MCIndexQueryDeep.cfg'))
    b = Batch(ctx)
    for k in range(ctx.pick(150, 800)):
        s = b.new()
        if k % 10 == 0 and rng.random() < .8:
            if rng.random() < .5:
                tamper(s, rng, rng.choice(['none', 'empty', 'garbage', 'nobucket', 'nohdr', 'short']))
            else:
                tamper(s, rng, 'ok', rng.choice(['ok', 'old', 'new']))
            s.do('dump')
            continue
        s.open()
        owners = [o for o in near(rng, 3) if o != U64] + [U64 - 1]
        ids, offs, gens = near(rng, 4), near(rng, 4), near(rng, 3)
        types = rng.sample(TYPES + [254, 244, 253], 4) if k % 4 else rng.sample(range(256), 30)
        for _ in range(rng.choice([0, 1, 2, 8, 30, 60])):
            s.insert(rng, rng.choice(owners), rng.choice(types), rng.choice(ids), rng.choice(offs), rng.choice(gens))
            if rng.random() < .05:
                s.insert(rng, U64, rng.choice(types), rng.choice(ids), rng.choice(offs), rng.choice(gens))
        s.do('full')
        s.do('close')
        s.do('dump')
    b.run()
