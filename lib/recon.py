"""Scan checks (C01-C03): images for the real recon command; the resulting
index files are judged by spec/TraceRecon.tla and spec/TraceScan.tla."""
import itertools, math, struct
from common import *

SUPER = 0x10000
MINDEV = (64 << 20)
CAP = 1 << 30
HDR, ITEM = 101, 25


def uuid_text(b):
    h = b.hex()
    return '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def leaf(bs, fsid, owner, gen, items, level=0, n=None, bytenr=0, rng=None, fill=None):
    """items: (objectid, type, offset, data[, off, size]); data are packed from
    the end of the block unless off is given."""
    b = bytearray(fill if fill is not None else rng.randbytes(bs) if rng else bytes(bs))
    flags = rng.choice([1 << 56 | 1, 1 << 56 | 1, 0, 3, 1 << 56, 1 << 63, rng.getrandbits(64)]) if rng else 1 << 56 | 1
    chunks = rng.choice([b'\x77', b'\x77', b'\0', b'\xff', rng.randbytes(1)]) if rng else b'\x77'
    b[0:HDR] = (rng.randbytes(32) if rng else bytes(32)) + fsid + struct.pack('<QQ', bytenr, flags) + \
        chunks * 16 + struct.pack('<QQIB', gen, owner, len(items) if n is None else n, level)
    end = bs
    for s, it in enumerate(items):
        i, t, f, data = it[:4]
        pos = HDR + s * ITEM
        if len(it) > 4:
            off, size = it[4], it[5]
            if data is not None:
                b[HDR + off:HDR + off + len(data)] = data
        else:
            end -= len(data)
            b[end:end + len(data)] = data
            off, size = end - HDR, len(data)
        if pos + ITEM <= bs:
            b[pos:pos + ITEM] = struct.pack('<QBQII', i, t, f, off & 0xffffffff, size & 0xffffffff)
    return bytes(b[:bs])


class Image:
    def __init__(self, bs, size):
        self.bs, self.size, self.parts = bs, size, {}

    def put(self, at, data):
        self.parts[at] = data

    def write(self, path):
        with open(path, 'wb') as fh:
            fh.truncate(self.size)
            for at, d in sorted(self.parts.items()):
                fh.seek(at)
                fh.write(d[:max(0, self.size - at)])

    def blocks(self):
        """The blocks that are not zero, as they lie on the grid of the scan."""
        bs = self.bs
        base = (SUPER + bs) % bs
        buf = {}
        for at, d in sorted(self.parts.items()):
            d = d[:max(0, self.size - at)]
            p = 0
            while p < len(d):
                g = (at + p - base) // bs * bs + base
                o = at + p - g
                n = min(bs - o, len(d) - p)
                buf.setdefault(g, bytearray(bs))[o:o + n] = d[p:p + n]
                p += n
        return [(g, bytes(b)) for g, b in sorted(buf.items()) if any(b)]


def decode(at, b, ids):
    """What the bytes of a block say, as a record of the specification."""
    bs = len(b)
    gen, owner, n, level = struct.unpack_from('<QQIB', b, 80)
    slots = []
    for s in range(min(n, (bs - HDR) // ITEM)):
        i, t, f, off, size = struct.unpack_from('<QBQII', b, HDR + s * ITEM)
        slots.append({'k': [t, i, f], 'off': min(off, CAP), 'size': min(size, CAP)})
    return {'at': [at >> 20, at & 0xfffff], 'fsid': ids.index(b[32:48]) + 1 if b[32:48] in ids else 0, 'level': level, 'n': min(n, CAP),
            'owner': owner, 'gen': gen, 'slots': slots}


class Scans:
    """A batch of scan scenarios."""

    def __init__(self, ctx):
        self.ctx, self.scens = ctx, []

    def add(self, images, ops):
        """ops: (number of image, file system id, extra arguments)"""
        self.scens.append((images, ops))

    def run(self):
        ctx = self.ctx
        exe = ctx.cli()
        ctx.driver()
        base = ctx.dir('scan%d' % len(os.listdir(ctx.tmp)))

        def work(n):
            images, ops = self.scens[n]
            d = os.path.join(base, str(n))
            os.makedirs(d)
            paths = []
            for k, im in enumerate(images):
                p = os.path.join(d, 'img%d' % k)
                im.write(p)
                paths.append(p)
            res = []
            for k, fsid, extra in ops:
                r, out, err = ctx.run_cli(['--metadata', os.path.join(d, 'index'), '--block-size', str(images[k].bs),
                                           'recon', '--id', uuid_text(fsid), *extra, paths[k]], timeout=60)
                snap = os.path.join(d, 'snap%d' % len(res))
                if os.path.exists(os.path.join(d, 'index')):
                    shutil.copy(os.path.join(d, 'index'), snap)
                res.append((r, snap))
            for p in paths:
                os.unlink(p)
            return res

        runs = ctx.parallel(work, range(len(self.scens)))
        dumps = ctx.run_driver('index', [{'dir': os.path.join(base, 'd%d' % n), 'ops': [
            {'op': 'dumpraw', 'path': snap} for _, snap in res]} for n, res in enumerate(runs)])
        vals = {U64}
        decoded = []
        for images, ops in self.scens:
            ids = [ops[0][1]]
            for o in ops:
                if o[1] not in ids:
                    ids.append(o[1])
            dec = []
            for im in images:
                bl = im.blocks()
                dec.append((bl, [decode(at, b, ids) for at, b in bl]))
                for b in dec[-1][1]:
                    vals |= {b['owner'], b['gen']}
                    for s in b['slots']:
                        vals |= {s['k'][1], s['k'][2]}
            decoded.append((ids, dec))
        pal = Palette(vals)
        trace = []
        for (images, ops), res, dump, (ids, dec) in zip(self.scens, runs, dumps, decoded):
            t = {'images': [], 'ops': []}
            headers = {}                     # item header -> places
            for m, (im, (bl, bs)) in enumerate(zip(images, dec)):
                for b in bs:
                    b.update(owner=pal(b['owner']), gen=pal(b['gen']))
                    for s in b['slots']:
                        s['k'] = [s['k'][0], pal(s['k'][1]), pal(s['k'][2])]
                t['images'].append({'bs': im.bs, 'size': [im.size >> 20, im.size & 0xfffff], 'blocks': bs})
                for n, ((at, raw), b) in enumerate(zip(bl, bs)):
                    for s in range(len(b['slots'])):
                        h = raw[HDR + s * ITEM:HDR + (s + 1) * ITEM]
                        headers.setdefault(h, []).append([m + 1, n + 1, s + 1])
            for (k, fsid, _), (r, snap), d in zip(ops, res, dump):
                ob = {'r': r, 'items': [], 'header': False}
                if r == 'ok' and d.get('r') != 'ok':
                    ob['r'] = 'no index'
                elif r == 'ok':
                    hdr = bytes.fromhex(d['hdr'])
                    ob['header'] = len(hdr) == 36 and hdr[8:28] == struct.pack('<I', images[k].bs) + fsid
                    for o, ty, i, f, g, raw in d['list']:
                        raw = bytes.fromhex(raw)
                        data = raw[ITEM:]
                        places = []
                        if data:         # where the slots with this header have their data
                            for m, n, sl in headers.get(raw[:ITEM], []):
                                blk = dec[m - 1][0][n - 1][1]
                                p = min(HDR + dec[m - 1][1][n - 1]['slots'][sl - 1]['off'], len(blk))
                                if blk[p:p + len(data)] == data and [m, n, p] not in places:
                                    places.append([m, n, p])
                        ob['items'].append({'k': [pal(o), ty, pal(i), pal(f), pal(g)], 'len': len(data),
                                            'hdr': headers.get(raw[:ITEM], []), 'data': places})
                        ctx.count('items_compared')
                t['ops'].append({'op': 'scan', 'img': k + 1, 'fsid': ids.index(fsid) + 1, 'obs': ob})
                ctx.count('scans')
            trace.append(t)
        shutil.rmtree(base, ignore_errors=True)
        for t in trace[:1]:
            ctx.sample(t)
        for k in range(0, len(trace), 300):
            ctx.trace('TraceRecon', {'max': pal(U64)}, trace[k:k + 300])


OWNERS = [1, 2, 3, 5, 7, 256, 257, U64 - 255, U64 - 1, 0, 1 << 63]
TYPES = [1, 12, 24, 84, 96, 108, 132, 168, 216, 228, 0, 255, 254]
IDS = [0, 1, 2, 255, 256, 257, 1 << 32, U64, U64 - 1, U64 - 255]


def spoil(rng, fsid):
    """A file system id that differs in one bit."""
    b = bytearray(fsid)
    k = rng.choice([0, 15, rng.randrange(16)])
    b[k] ^= 1 << rng.randrange(8)
    return bytes(b)


def rand_items(rng, bs, pool, n):
    room = bs - HDR - n * ITEM
    out = []
    for _ in range(n):
        i, t, f = rng.choice(pool)
        size = min(room, rng.choice([0, 1, 4, 30, rng.randrange(200)]))
        w = rng.random()
        if w < .03:
            size = room
        elif w < .15:
            size = min(room, rng.choice([300, 2500, 2500, 5000]))
        room -= size
        out.append((i, t, f, rng.randbytes(size)))
    return out


def positions(rng, bs, size):
    """Block offsets: right after the first superblock, at the end, between."""
    first = SUPER + bs
    nblk = (size - first) // bs
    near = [0, 1, 2, nblk - 1, nblk - 2, nblk // 2]
    for s in (0x4000000, 0x4000000 + bs, 0x4000000 - bs, 1 << 31, (1 << 32) - bs, 1 << 32, 3 << 31):   # the second superblock
        near.append((s - first) // bs)
    while True:
        k = rng.choice(near) if rng.random() < .5 else rng.randrange(nblk)
        if size > 1 << 32 and rng.random() < .6:
            k = rng.randrange((1 << 32) // bs - 4, nblk)
        if 0 <= k < nblk:
            yield first + k * bs


def scan_scenario(ctx, sc, damaged, many=0):
    rng = ctx.rng
    bs = rng.choice([512, 512, 1024, 1024, 2048, 4096, 4096, 16384] if damaged else
                    [512, 1024, 4096, 4096, 8192, 16384, 16384, 65536])
    size = MINDEV + 100 * bs + rng.choice([0, 0, bs, rng.randrange(8 * bs)])
    if many:                                   # beyond what 32 bits can address
        bs = 65536
        size += many
    fs = [rng.randbytes(16) for _ in range(2)]
    if rng.random() < .3:
        fs[1] = spoil(rng, fs[0])
    nimg = rng.choice([1, 1, 2, 3])
    pool = [(rng.choice(IDS), rng.choice(TYPES), rng.choice(IDS)) for _ in range(rng.randint(2, 25))]
    gens = [rng.choice([0, 1, 7, 8, 1 << 40, U64]) for _ in range(3)]
    owners = rng.sample(OWNERS, 2)
    images = []
    for _ in range(nimg):
        im = Image(bs, size)
        where = positions(rng, bs, size)
        made = []
        for _ in range(rng.randint(1, 10)):
            cap = (bs - HDR) // ITEM
            n = rng.choice([0, 1, 2, rng.randint(1, min(20, cap)), min(cap, 30)])
            n = min(n, cap)
            items = rand_items(rng, bs, pool, n)
            if not damaged and rng.random() < .06:      # as many items as there is room for
                n = rng.choice([cap, cap - 1, rng.randint(1, cap), (bs - HDR) // (ITEM + 1)])
                i, t, f = rng.choice(pool)
                items = [(i, t, f + q & U64, b'x' * ((bs - HDR) // n - ITEM) if q % 9 == 0 else b'') for q in range(n)]
            fsid = fs[0] if rng.random() < .75 else rng.choice([fs[1], spoil(rng, fs[0]), bytes(16), rng.randbytes(16)])
            level = 0 if rng.random() < .85 else rng.choice([1, 2, 7, 8, 1 << rng.randrange(8), 255, rng.randint(1, 255)])
            b = leaf(bs, fsid, rng.choice(owners), rng.choice(gens), items, level, rng=rng)
            if rng.random() < .2:      # where the data of an item without data is said to be
                b = bytearray(b)
                for q, it in enumerate(items):
                    if not it[3] and rng.random() < .6:
                        struct.pack_into('<I', b, HDR + q * ITEM + 17, rng.choice([0, 0, bs - HDR, rng.randint(0, bs - HDR)]))
                b = bytes(b)
            if damaged and rng.random() < .7:
                b = damage(rng, b)
            at = next(where)
            if rng.random() < .1:      # places the scan does not look at
                at = rng.choice([0, SUPER, SUPER - bs if SUPER >= bs else 0, at + rng.choice([1, bs // 2, bs - 1]),
                                 size - size % bs, size - bs + 1])
            im.put(at, b)
            made.append(b)
            if rng.random() < .15:
                im.put(next(where), rng.choice(made))
            if rng.random() < .2:      # the same keys with other data, later or earlier
                its = [(i, t, f, rng.randbytes(len(d))) for i, t, f, d in items]
                im.put(next(where), leaf(bs, fs[0], rng.choice(owners), rng.choice(gens), its, rng=rng))
        # overlapping parts would not be what the scan sees
        taken, parts = 0, {}
        for at in sorted(im.parts):
            if at >= taken and at < size:
                parts[at] = im.parts[at]
                taken = at + bs
        im.parts = parts
        images.append(im)
    ops = []
    for k in range(nimg):
        ops.append((k, fs[0], rng.choice([[], ['--append']])))
    if rng.random() < .2:
        ops.append((rng.randrange(nimg), fs[0], ['--append']))
    sc.add(images, ops)


def damage(rng, b):
    """Overwrites header and item fields."""
    b = bytearray(b)
    bs = len(b)
    cap = (bs - HDR) // ITEM
    for _ in range(rng.randint(1, 5)):
        n = struct.unpack_from('<I', b, 96)[0]
        w = rng.random()
        if w < .35:
            # as many items, just too many, far too many
            v = rng.choice([cap, cap, cap + 1, cap + 2, n + 1, bs // ITEM, bs, 0x7fffffff, 0x80000000, 0xffffffff,
                            rng.getrandbits(32)])
            struct.pack_into('<I', b, 96, v & 0xffffffff)
            if v >= cap and cap > 40 and rng.random() < .6:
                # keep the number of slots that hold noise small
                p = HDR + 20 * ITEM
                b[p:] = bytes(bs - p) if rng.random() < .5 else b[p:p + ITEM] * ((bs - p) // ITEM) + \
                    bytes((bs - p) % ITEM)
        elif w < .9 and n:
            s = rng.randrange(min(n, cap))
            p = HDR + s * ITEM + 17
            room = bs - HDR
            if rng.random() < .6:
                v = rng.choice([room, room - 1, room + 1, bs, bs + 1, 0xffffffff, 0xffffffff - HDR, 0xffffffff - HDR + 1,
                                0x7fffffff, 0x80000000, 0, s * ITEM, rng.getrandbits(32)])
                struct.pack_into('<I', b, p, v)
            if rng.random() < .7:
                off = struct.unpack_from('<I', b, p)[0]
                v = rng.choice([0, room, room + 1, bs, 0xffffffff, 0xffffffff - off + 1, 0xffffffff - off - HDR + 1,
                                0xffffffff - off - HDR + 2, max(0, room - off), max(0, room - off) + 1, 0x7fffffff,
                                0x80000000, 1, rng.getrandbits(32)])
                struct.pack_into('<I', b, p + 4, v & 0xffffffff)
        elif w < .95:
            struct.pack_into('<Q', b, 88, rng.choice([U64, U64, U64 - 1]))      # owner
            if rng.random() < .6:
                struct.pack_into('<Q', b, 80, U64)
                if n:
                    struct.pack_into('<QBQ', b, HDR, U64, 255, U64)
                    struct.pack_into('<QBQ', b, HDR, U64 - 255, 255, U64)
        else:
            p = rng.randrange(80, min(bs, HDR + 3 * ITEM))
            b[p] ^= 1 << rng.randrange(8)
    return bytes(b)


def exhaustive(ctx, sc, depth, kinds, bs=16384):
    """All short sequences of a few kinds of blocks right after the superblock."""
    rng = ctx.rng
    fsid, other = rng.randbytes(16), rng.randbytes(16)
    rnd = lambda n: rng.randbytes(n)
    size = MINDEV + 100 * bs
    room = bs - HDR
    K = {
        'good': leaf(bs, fsid, 5, 7, [(256, 1, 0, rnd(160)), (256, 12, 256, rnd(12)), (257, 84, 9, b'')]),
        'again': leaf(bs, fsid, 5, 7, [(256, 12, 256, rnd(20)), (258, 1, 0, rnd(3))]),
        'newer': leaf(bs, fsid, 5, 8, [(256, 12, 256, rnd(20))]),
        'tree': leaf(bs, fsid, 7, 7, [(256, 12, 256, rnd(20))]),
        'foreign': leaf(bs, other, 5, 7, [(300, 12, 256, rnd(20))]),
        'node': leaf(bs, fsid, 5, 7, [(301, 12, 256, rnd(20))], level=1),
        'empty': leaf(bs, fsid, 5, 7, [], n=0),
        'count': leaf(bs, fsid, 5, 7, [(302, 1, 0, rnd(5))] * 3, n=0xffffffff),
        'wrap': leaf(bs, fsid, 5, 7, [(303, 1, 0, None, 0xffffffff - HDR + 1, 50), (304, 1, 0, None, room - 5, 0xffffffff),
                                      (305, 1, 0, None, 0xffffffff, 0xffffffff), (306, 1, 0, None, 10, 0)]),
        'reserved': leaf(bs, fsid, U64, U64, [(U64, 255, U64, rnd(3)), (U64 - 255, 255, U64, rnd(3)), (1, 1, 1, b'')]),
        'twice': leaf(bs, fsid, 5, 7, [(307, 1, 0, rnd(5)), (307, 1, 0, rnd(7))]),
    }
    for m in range(depth + 1):
        for seq in itertools.product(kinds, repeat=m):
            im = Image(bs, size)
            for k, name in enumerate(seq):
                im.put(SUPER + bs * (k + 1), K[name])
            sc.add([im], [(0, fsid, [])])


def check_C01(ctx):
    ctx.model('MCRecon', ctx.pick('MCRecon.cfg', 'MCReconDeep.cfg'))
    sc = Scans(ctx)
    exhaustive(ctx, sc, ctx.pick(2, 3), ['good', 'again', 'newer', 'tree', 'foreign', 'node', 'empty', 'twice'])
    sc.run()
    sc = Scans(ctx)
    for _ in range(ctx.pick(300, 3000)):
        scan_scenario(ctx, sc, False)
    for k in range(ctx.pick(1, 4)):
        scan_scenario(ctx, sc, False, (4 << 30) + (k << 31))
    sc.run()
    controls(ctx, ['len', 'firstwins'])


def check_C02(ctx):
    ctx.model('MCRecon', ctx.pick('MCRecon.cfg', 'MCReconDeep.cfg'))
    sc = Scans(ctx)
    exhaustive(ctx, sc, 2, ['good', 'again', 'count', 'wrap', 'reserved'], 4096)
    if ctx.thorough:
        exhaustive(ctx, sc, 3, ['good', 'again', 'count', 'wrap', 'reserved'], 1024)
    sc.run()
    sc = Scans(ctx)
    for _ in range(ctx.pick(300, 3000)):
        scan_scenario(ctx, sc, True)
    sc.run()
    controls(ctx, ['noclamp', 'reserved'])


def controls(ctx, names):
    if ctx.thorough:
        for n in names:
            ctx.model('MCRecon', 'Neg_%s.cfg' % n if n != 'reserved' else 'Neg_scanreserved.cfg', expect_violation=True)


# -- C03 ---------------------------------------------------------------------

def scan_image(rng, bs, fsid, items, period):
    """An image of many items. The p-th has the key number (p-1) % period and as
    its data p and its key. The order of the keys is not that of the scan."""
    per = (bs - HDR) // (ITEM + 41)
    mul = rng.choice([1, period - 1, 7919, 104729])
    while math.gcd(mul, period) != 1:
        mul += 1
    owners = rng.sample([1, 2, 5, 7, 256, 257, U64 - 255], rng.choice([1, 2, 4]))
    gens = rng.sample([0, 1, 7, 77, 1 << 40, U64], rng.choice([1, 2, 4]))
    types = rng.sample([1, 84, 108, 168, 12], rng.choice([1, 3]))
    oids = rng.sample([0, 256, 257, 1 << 40, U64], rng.choice([1, 3]))
    if period != items:            # equal keys may be in leaves anywhere
        owners, gens = owners[:1], gens[:1]
    leaves, p = [], 0
    while p < items:
        n = min(per, items - p, rng.choice([per, per, per, max(1, per // 3)]))
        owner, gen = rng.choice(owners), rng.choice(gens)
        its = []
        for q in range(p + 1, p + n + 1):
            k = (q - 1) % period * mul % period
            t, i = types[k * 31 // 7 % len(types)], oids[k * 17 // 5 % len(oids)]
            its.append((i, t, k, struct.pack('<QQQBQQ', q, owner, i, t, k, gen)))
        leaves.append(leaf(bs, fsid, owner, gen, its))
        p += n
    size = MINDEV + 100 * bs
    nblk = (size - SUPER - bs) // bs
    im = Image(bs, size)
    spots = sorted(rng.sample(range(nblk), len(leaves))) if rng.random() < .7 else range(len(leaves))
    for k, l in zip(spots, leaves):
        im.put(SUPER + bs + k * bs, l)
        if rng.random() < .05 and SUPER + bs * (k + 2) not in im.parts and k + 1 not in set(spots):
            im.put(SUPER + bs * (k + 2), leaf(bs, spoil(rng, fsid), 5, 1, [(256, 1, 5, b'x')]))
    return im


def check_C03(ctx):
    rng = ctx.rng
    ctx.model('MCRecon', ctx.pick('MCRecon.cfg', 'MCReconDeep.cfg'))
    ctx.driver()
    exe = ctx.cli()
    st = shutil.which('strace')
    if st:
        t = subprocess.run([st, '-f', '-o', '/dev/null', '-e', 'trace=write', '-e', 'inject=write:signal=KILL:when=1', 'echo'],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if t.returncode not in (-9, 137):
            st = None
    ctx.cover['system_call_kills'] = bool(st)
    base = ctx.dir('kills')
    images, trace, jobs, said = [], [], [], []
    for k in range(ctx.pick(6, 18)):
        bs = rng.choice([4096, 16384])
        n = [25000, 10500, rng.randint(10001, 33000), rng.randint(1, 10000), 20002, rng.randint(31000, 65000)][k % 6]
        period = n if k % 2 == 0 else rng.randint(n // 3 + 1, n)
        im = {'n': n, 'period': n if k == 1 else period, 'bs': bs, 'fsid': rng.randbytes(16)}
        im['path'] = os.path.join(base, 'img%d' % k)
        scan_image(rng, bs, im['fsid'], n, im['period']).write(im['path'])
        images.append(im)

    def scan(im, index, kill=None):
        """Runs recon; returns how it ended."""
        args = ['--metadata', index, '--block-size', str(im['bs']), 'recon', '--id', uuid_text(im['fsid']), im['path']]
        pre = ()
        if kill and kill[0] == 'sys':
            # One thread writes; the calls of the scan come in a fixed order
            pre = (st, '-f', '-o', '/dev/null', '-e', 'trace=' + kill[1], '-e',
                   'inject=%s:signal=KILL:when=%d' % (kill[1], kill[2]))
        if kill and kill[0] == 'delay':
            p = subprocess.Popen([exe, *args], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            try:
                err = p.communicate(timeout=kill[1])[1]
            except subprocess.TimeoutExpired:
                p.kill()
                err = p.communicate()[1]
            r = {0: 'ok', 1: 'err', -9: 'killed'}.get(p.returncode, 'crash')
        else:
            for _ in range(5):
                r, _, err = ctx.run_cli(args, prefix=pre, timeout=120)
                if r != 'err' or not pre or b'strace: ' not in err:      # it was not the tool that failed
                    break
        if r not in ('ok', 'killed'):
            ctx.log('scan', r, kill, err[-2000:])
            said.append('%s %s %s' % (r, kill, err[-500:]))
        return r

    # An uninterrupted scan, and how many system calls of each kind it makes
    SYS = ['pwrite64', 'fdatasync', 'ftruncate', 'pread64', 'flock', 'openat', 'mmap', 'munmap']

    def measure(im):
        index = im['path'] + '.full'
        t = time.time()
        r = scan(im, index)
        im['time'] = time.time() - t
        im['calls'] = {}
        if st:
            log = im['path'] + '.log'
            subprocess.run([st, '-f', '-o', log, '-e', 'trace=' + ','.join(SYS), exe, '--metadata', index + '2', '--block-size',
                            str(im['bs']), 'recon', '--id', uuid_text(im['fsid']), im['path']],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            text = open(log, errors='replace').read()
            im['calls'] = {c: len(re.findall(r'\b%s\(' % c, text)) for c in SYS}
            os.unlink(log)
        return r
    for im, r in zip(images, ctx.parallel(measure, images)):
        jobs.append((im, [im['path'] + '.full'], [r]))
        ctx.log('image', {k: im[k] for k in ('n', 'period', 'time', 'calls')})

    plans = []
    for k in range(ctx.pick(240, 2500)):
        im = images[k % len(images)]
        kills = []
        for _ in range(1 if im['period'] != im['n'] else rng.choice([1, 1, 2, 3])):
            if st and rng.random() < .85:
                c = rng.choice(SYS[:2] * 4 + SYS)
                total = max(1, im['calls'].get(c, 1))
                kills.append(('sys', c, rng.choice([1, 2, total, total - 1, rng.randint(1, total), rng.randint(1, total)]) or 1))
            else:
                kills.append(('delay', rng.random() * im['time'] * 1.2))
        plans.append((im, kills))

    def work(n):
        im, kills = plans[n]
        index = os.path.join(base, 'ix%d' % n)
        snaps, ends = [], []
        for kl in kills + [None]:
            ends.append(scan(im, index, kl))
            s = '%s.%d' % (index, len(snaps))
            if os.path.exists(index):
                shutil.copy(index, s)
            snaps.append(s)
        return im, snaps, ends
    jobs += ctx.parallel(work, range(len(plans)))
    dumps = ctx.run_driver('index', [{'dir': os.path.join(base, 'd%d' % n), 'ops': [
        {'op': 'scanruns', 'path': s}
        for s in snaps]} for n, (im, snaps, ends) in enumerate(jobs)])
    for (im, snaps, ends), d in zip(jobs, dumps):
        ops = []
        for r, ob in zip(ends, d):
            o = {'r': ob['r'], 'runs': ob.get('runs', []), 'bad': ob.get('bad', 0), 'stored': ob.get('stored', 0), 'exit': r}
            ops.append({'op': 'killed' if r == 'killed' else 'scan', 'obs': o})
            ctx.count('runs_' + r)
            if r == 'killed':
                ctx.count('kills_with_%s' % ('nothing' if not o['runs'] else 'all' if o['runs'][-1][1] == im['n'] else 'some'))
        trace.append({'items': im['n'], 'period': im['period'], 'ops': ops})
    for t in trace[len(images):len(images) + 3]:
        ctx.sample(t)
    ctx.trace('TraceScan', {'said': said[:20]}, trace)
