"""C18-C20: what identify looks at and reports, and the ids it prints."""
import os, re, shutil, struct
from common import *
from recon import leaf, Image, uuid_text, SUPER, MINDEV, HDR
from indexes import dump_cli, negative_controls

COPIES = [1 << 16, 1 << 26, 1 << 38, 1 << 50]      # superblocks: 64 KiB, 64 MiB, 256 GiB, 1 PiB
AROUND = 100
MASK = (1 << 30) - 1
ONES = b'\xff' * 16


def limbs(v):
    return [v >> 60, (v >> 30) & MASK, v & MASK]


def addr(o, bs):
    return {'q': limbs(o // bs), 'r': o % bs}


# -- C18 ---------------------------------------------------------------------

def near_offsets(dev, bs):
    return sorted({s + i * bs for s in COPIES for i in range(AROUND) if s + i * bs + bs <= dev})


def device_sizes(rng, bs):
    least = MINDEV + 100 * bs
    places = [least, least + bs, least + bs // 2]
    for s in COPIES[2:]:
        places += [s - bs, s, s + bs, s + 50 * bs, s + 99 * bs, s + 100 * bs, s + 101 * bs]
    places += [rng.randrange(least, least * 3), 1 << rng.randint(27, 62), (1 << 63) - 1, (1 << 63) - bs]
    while True:
        d = rng.choice(places) + rng.choice([0, 0, -1, 1, bs - 1, rng.randrange(bs)])
        if least <= d < 1 << 63:
            return d


def check_C18(ctx):
    rng = ctx.rng
    ctx.model('MCSample', ctx.pick('MCSample.cfg', 'MCSampleDeep.cfg'))
    d = ctx.dir('sample')
    scens, metas = [], []
    for k in range(ctx.pick(240, 4000)):
        bs = rng.choice([512, 4096, 4096, 16384, 16384, 65536, 1 << 20, 1 << 26, 1 << 30, 3 << 20, 5000, 12345, 1 << 29, 65537])
        dev = device_sizes(rng, bs)
        nb = dev // bs
        near = len(near_offsets(dev, bs))
        cap = ctx.pick(1500, 5000)
        ns = [0, 1, near - 1, near, near + 1, near + 2, rng.randrange(cap), 1000]
        if nb <= cap:
            ns += [nb - 1, nb, nb + 1, nb, nb * 2, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
        n = rng.choice(ns)
        scens.append({'dir': d, 'ops': [{'op': 'offsets', 'dev': dev, 'bs': bs, 'n': n}]})
        metas.append((dev, bs, n))
    res = ctx.run_driver('identify', scens)
    trace = []
    for (dev, bs, n), r in zip(metas, res):
        o = r[0]
        ob = {'r': o['r'], 'list': [addr(a, bs) for a in o.get('list', [])]}
        ctx.count('samplings')
        ctx.count('offsets', len(ob['list']))
        trace.append({'fs': [], 'ops': [{'op': 'offsets', 'dev': addr(dev, bs), 'n': limbs(n), 'around': AROUND,
                                         'supers': [addr(s, bs) for s in COPIES], 'obs': ob, 'in': str((dev, bs, n))}]})
    for k in range(0, len(trace), 500):
        ctx.trace('TraceIdentify', {}, trace[k:k + 500])
    # Real runs on devices with content near the superblocks and elsewhere, up to their last block
    listings(ctx, ctx.pick(24, 200), True)
    counted(ctx, ctx.pick(10, 80))
    negative_controls(ctx, ['sample_noroom', 'sample_noclamp', 'sample_edge', 'sample_unaligned'])


def counted(ctx, n):
    """Devices full of leaves: what is reported is how many blocks were looked at."""
    rng = ctx.rng
    d = ctx.dir('counted')
    jobs = []
    for k in range(n):
        bs = rng.choice([65536, 65536, 1 << 20, 1 << 18])
        size = (MINDEV + 100 * bs) // (4 * bs) * 4 * bs + 4 * bs + rng.choice([0, 0, 1, bs - 1]) + 4 * bs * rng.randrange(100)
        jobs.append((bs, size, rng.random()))

    def work(j):
        bs, size, seed = jobs[j]
        r = random.Random(seed)
        nb = size // bs
        im = Image(bs, size)
        head = leaf(bs, b'\x5a' * 16, 5, 7, [(1, 1, 0, None, 100, 0)])[:126]
        for at in set(near_offsets(size, bs)) | {k * bs for k in range(nb)}:
            im.put(at, head)
        path = os.path.join(d, str(j))
        im.write(path)
        ops = []
        for _ in range(6):
            quarters = r.choice([0, 0, 1, 2, 3, 4, 4, 8])
            share = nb * quarters // 4 if nb % 4 == 0 else 0
            quarters = quarters if nb % 4 == 0 else 0
            near = len(near_offsets(size, bs))
            least = r.choice([0, 0, 1, near, near + 1, nb - 1, nb, nb + 1, r.randrange(nb)])
            most = max(least, r.choice([0, near, near + 1, nb // 2, nb - 1, nb, 1000000]))
            res, out, err = ctx.run_cli(['--block-size', str(bs), 'identify', '--min-occurrence', '1', '-m', '--min-blocks', str(least),
                                         '--max-blocks', str(most), '--sample-fraction', str(quarters / 4), path], timeout=100)
            rows = parse_table(out, True) if res == 'ok' else None
            if res == 'ok' and rows is None:
                res = 'unreadable'
            ops.append({'op': 'counted', 'dev': addr(size, bs), 'around': AROUND, 'supers': [addr(s, bs) for s in COPIES],
                        'share': limbs(share), 'min': limbs(least), 'max': limbs(most),
                        'obs': {'r': res, 'counts': [limbs(c) for f, c, b in rows or []]}})
        os.unlink(path)
        return {'fs': [], 'ops': ops}

    res = ctx.parallel(work, range(len(jobs)))
    ctx.count('counted_runs', 6 * len(jobs))
    ctx.trace('TraceIdentify', {}, res)


# -- C19 ---------------------------------------------------------------------

def rand_ids(rng, n):
    """Ids, many of which have equal byte counts, or are equal but for a bit."""
    ids = []
    if rng.random() < .3:       # anagrams of an id with a few bytes of different counts
        ids.append(bytes(rng.choices(range(rng.choice([3, 5, 7, 9])), k=16)))
        while len(ids) < min(n, 4):
            b = bytearray(ids[0])
            rng.shuffle(b)
            b = bytes(b)
            if b not in ids:
                ids.append(b)
        ids = [b for b in ids if any(b)]
    while len(ids) < n:
        w = rng.random()
        if w < .2:      # partly zeros or ones, as if it were no id at all
            k, fill = rng.choice([1, 4, 8, 12, 15, rng.randrange(1, 16)]), rng.choice([b'\0', b'\xff'])
            b = rng.choice([fill * k + rng.randbytes(16 - k), rng.randbytes(16 - k) + fill * k,
                            fill * (k // 2) + rng.randbytes(16 - k) + fill * (k - k // 2)])
        elif w < .3 or not ids:
            b = rng.randbytes(16)
        elif w < .6:
            b = bytearray(rng.choice(ids))
            rng.shuffle(b)
            b = bytes(b)
        elif w < .8:
            b = bytearray(rng.choice(ids))
            b[rng.choice([0, 15, rng.randrange(16)])] ^= 1 << rng.randrange(8)
            b = bytes(b)
        else:       # few different bytes: the same entropy as others
            b = bytes(rng.choices(rng.sample(range(256), rng.randint(1, 5)), k=16))
        if b not in ids and any(b) and b != ONES:
            ids.append(b)
    return ids


PAGE = [0, 1, 4, 4095, 4096, 4097, 8191, 8192, 12288, 16191, 16235, 16283, 16384, 3995, 65435]


def rand_block(rng, bs, fsid, leafish=.85):
    level = 0 if rng.random() < leafish else rng.choice([1, 2, 8, 255, 128])
    n = rng.choice([0, 1, 1, 2, 5, 100, 1 << 31, (1 << 32) - 1])
    off = rng.choice(PAGE + [rng.randrange(1 << 14), rng.randrange(1 << 17)])
    if rng.random() < .1:
        off = rng.choice([(1 << 32) - 1, 1 << 31, (1 << 32) - 4096, rng.randrange(1 << 32)])
    size = rng.choice([0, 0, 1, 4, 160, 4096, 16283 - off if off < 16283 else 25, 1 << 14, rng.randrange(1 << 32)])
    b = leaf(bs, fsid, 5, 7, [(rng.randrange(1 << 60), 1, 2, None, off, size)], level, n=n, rng=rng)
    return b


def says(b, ids, times=1):
    """What the specification needs to know about a block."""
    n, level = struct.unpack_from('<IB', b, 96)
    off, = struct.unpack_from('<I', b, HDR + 17)
    fsid = b[32:48]
    return {'times': times, 'id': 0 if not any(fsid) else -1 if fsid == ONES else ids.index(fsid) + 1, 'level': level,
            'n': 1 if n else 0, 'page': off >> 12, 'rest': off & 4095}


def listed(rows, ids):
    out = []
    for fsid, count, bs in rows:
        out.append({'id': ids.index(fsid) + 1 if fsid in ids else -9, 'count': min(count, 1 << 30),
                    'pages': bs >> 12 if bs % 4096 == 0 and bs < 1 << 40 else -1})
    return out


def parse_table(out, machine):
    rows = []
    lines = out.decode('latin-1').split('\n')
    if lines.pop() != '':
        return None
    if not machine:
        if not lines or lines.pop(0).split() != ['fsid', 'count', 'entropy', 'block', 'size']:
            return None
    for l in lines:
        m = re.fullmatch(r'(\S+)\s+(\d+)\s+([-+\d.]+)\s+(\d+)', l)
        if not m:
            return None
        try:
            rows.append((bytes.fromhex(m[1].replace('-', '')), int(m[2]), int(m[4])))
        except ValueError:
            return None
    return rows


def listings(ctx, n, partial):
    """Runs of the identify command on whole devices."""
    rng = ctx.rng
    d = ctx.dir('list')
    jobs = []
    for k in range(n):
        bs = rng.choice([4096, 16384, 16384, 65536])
        size = MINDEV + 100 * bs + rng.choice([0, 0, 1, bs - 1, bs, 3 * bs, rng.randrange(40 * bs)])
        big = partial and k % 6 == 0
        if big:
            size = (1 << 38) + rng.choice([0, -1, 1, bs, 99 * bs, 100 * bs - 1, 100 * bs, 200 * bs])
        nb = size // bs
        ids = rand_ids(rng, rng.randint(1, 7))
        im = Image(bs, size)
        near = near_offsets(size, bs)
        for _ in range(rng.randint(0, 60)):
            w = rng.random()
            at = rng.choice(near) if w < .3 else rng.choice([near[0], near[99], near[-1], near[-100]]) if w < .4 else \
                (nb - 1) * bs if w < .5 else 0 if w < .55 else nb * bs if w < .6 else rng.randrange(nb) * bs
            if at + 126 <= size:
                im.put(at, rand_block(rng, bs, rng.choice(ids + [bytes(16), ONES] if rng.random() < .3 else ids)))
        jobs.append((bs, size, nb, ids, im, big))

    def work(j):
        bs, size, nb, ids, im, big = jobs[j]
        path = os.path.join(d, str(j))
        im.write(path)
        whole = {at: b for at, b in im.parts.items() if at + bs <= size}
        near = set(near_offsets(size, bs))
        ops = []
        r = random.Random(ctx.seed * 1000 + j)
        for _ in range(3):
            least = r.choice([0, 1, 1, 2, 3, 4])
            machine = r.random() < .5
            cmd = ['--block-size', str(bs), 'identify', '--min-occurrence', str(least), path] + (['-m'] if machine else [])
            if partial and (big or r.random() < .7):
                m = r.choice([0, 1, 50, 399, 400, 1000, nb // 2 if nb < 20000 else 2000])
                cmd += ['--min-blocks', str(m), '--max-blocks', str(max(m, r.choice([0, 1, 500, 1500]))), '--sample-fraction',
                        r.choice(['0', '0.01', '0.5', '1e-9', '0.0001', '1', '2'])]
                op = {'op': 'sampled', 'min': least, 'blocks': [says(b, ids) for b in whole.values()],
                      'near': [says(b, ids) for at, b in whole.items() if at in near]}
            else:
                cmd += r.choice([['--min-blocks', str(nb)], ['--min-blocks', '1000000'], ['--sample-fraction', '1', '--min-blocks', '1'],
                                 ['--sample-fraction', '7.5', '--min-blocks', '0']])
                op = {'op': 'collect', 'min': least, 'once': 0, 'blocks': [says(b, ids) for b in whole.values()]}
            res, out, err = ctx.run_cli(cmd, timeout=100)
            rows = parse_table(out, machine) if res == 'ok' else []
            if rows is None:
                res, rows = 'unreadable', []
            op['obs'] = {'r': res, 'list': listed(rows, ids), 'out': out.decode('latin-1')[:2000] if res != 'ok' else ''}
            op['cmd'] = str(cmd)
            ops.append(op)
        os.unlink(path)
        return {'fs': [], 'ops': ops}

    res = ctx.parallel(work, range(len(jobs)))
    ctx.count('identify_runs', 3 * len(jobs))
    ctx.sample(res[0])
    ctx.trace('TraceIdentify', {}, res)


def check_C19(ctx):
    rng = ctx.rng
    ctx.model('MCCollect', ctx.pick('MCCollect.cfg', 'MCCollectDeep.cfg'))
    d = ctx.dir('collect')
    scens, metas = [], []
    for k in range(ctx.pick(120, 2000)):
        ids = rand_ids(rng, rng.randint(1, 9))
        pool, ops = [], []
        for j in range(rng.choice([1, 3, 10, 25, 40])):
            fsid = rng.choice(ids) if rng.random() < .85 else rng.choice([bytes(16), ONES])
            b = rand_block(rng, 512, fsid)[:160]
            pool.append(b)
            ops.append({'op': 'block', 'name': str(j), 'head': b.hex(), 'size': rng.choice([512, 4096, 16384, 160])})
        want = []
        for _ in range(rng.choice([3, 6])):
            seq = rng.choices(range(len(pool)), k=rng.choice([0, 1, len(pool), 2 * len(pool), 60]))
            for least in rng.sample([0, 1, 2, 3, 4, 5, 8], 2):
                for _ in range(3):
                    rng.shuffle(seq)
                    ops.append({'op': 'collect', 'names': [str(x) for x in seq], 'min': least})
                    want.append(([pool[x] for x in seq], least, None))
        if k % 12 == 0:        # many blocks of the same kind
            few = [x for x, b in enumerate(pool) if says(b, ids + [bytes(16), ONES])['page'] < 17][:3]
            seq = [x for x in few for _ in range(2)]
            rng.shuffle(seq)
            for least in (1, rng.choice([255, 256, 257, 65535, 65536, 65537, 80000])):
                times = [rng.choice([1, 255, 256, 32768, 65535, 65536, rng.randrange(66000)]) for _ in seq]
                ops.append({'op': 'collect', 'names': [str(x) for x in seq], 'times': times, 'min': least})
                want.append(([pool[x] for x in seq], least, times))
        if k % 12 == 6:        # in the company of many ids that occur once
            seq = rng.choices(range(len(pool)), k=rng.choice([4, 20, 60]))
            for least in rng.sample([2, 3, 4], 2):
                ops.append({'op': 'collect', 'names': [str(x) for x in seq], 'min': least,
                            'noise': rng.choice([100, 1000, 1500, 5000, 20000, 70000]), 'seed': rng.randrange(1 << 30)})
                want.append(([pool[x] for x in seq], least, None))
        scens.append({'dir': d, 'ops': ops})
        metas.append((ids, want))
    res = ctx.run_driver('identify', scens)
    trace = []
    for (ids, want), r, s in zip(metas, res, scens):
        if len(r) < len(s['ops']):
            r = r + [{'r': 'died'}] * (len(s['ops']) - len(r))
        t = {'fs': [], 'ops': []}
        for (blocks, least, times), o in zip(want, r[len(s['ops']) - len(want):]):
            rows = [(bytes.fromhex(a), c, b) for a, c, b in o.get('list', [])]
            t['ops'].append({'op': 'collect', 'min': least, 'once': o.get('noise', 0), 'blocks': [says(b, ids, n) for b, n in zip(blocks, times or [1] * len(blocks))],
                             'obs': {'r': o['r'], 'list': listed(rows, ids)}})
            ctx.count('collections')
        trace.append(t)
    ctx.trace('TraceIdentify', {}, trace)
    listings(ctx, ctx.pick(40, 400), False)
    negative_controls(ctx, ['collect_above', 'collect_empty', 'collect_drawn', 'collect_level', 'collect_first'])


# -- C20 ---------------------------------------------------------------------

def variant(rng, text):
    """Another way to write an id."""
    t = text
    w = rng.random()
    if w < .3:
        t = t.replace('-', '')
    elif w < .6:
        t = t.replace('-', '')
        for _ in range(rng.choice([1, 2, 4, 8, 40])):
            p = rng.randrange(len(t) + 1)
            t = t[:p] + '-' + t[p:]
    w = rng.random()
    if w < .3:
        t = t.upper()
    elif w < .6:
        t = ''.join(c.upper() if rng.random() < .5 else c for c in t)
    return t


def spoiled(rng, text):
    """Something that is not an id, mostly."""
    t = variant(rng, text)
    w = rng.random()
    p = rng.randrange(len(t))
    if w < .25:
        return t[:p] + t[p + 1:]
    if w < .45:
        return t[:p] + rng.choice('0aF9') + t[p:]
    if w < .7:
        return t[:p] + rng.choice(['g', 'G', ' ', ':', '_', '.', 'x', '\u0660', '+', '\n', '@', '`', '/', '–', '\udcff', '{', ',']) + t[p + 1:]
    if w < .8:
        return rng.choice([' ', '', '{', '0x', 'urn:uuid:', '\t', '+']) + t + rng.choice([' ', '\n', '}', ''])
    if w < .9:
        return t + t[:rng.choice([1, 2, 32])] if rng.random() < .5 else t[:rng.choice([2, 16, 30])]
    return rng.choice(['', '-', '--------', '00', 'fsid', 'z' * 32, 'None', '*', '0' * 31, '0' * 33, '0' * 34, '0' * 30, '0' * 32])


def codes(t):
    return list(os.fsencode(t)) if isinstance(t, str) else list(t)


def check_C20(ctx):
    rng = ctx.rng
    ctx.model('MCIds', ctx.pick('MCIds.cfg', 'MCIdsDeep.cfg'))
    d = ctx.dir('ids')
    scens, trace = [], []
    for k in range(ctx.pick(200, 5000)):
        ops = []
        for u in rand_ids(rng, 4):
            if rng.random() < .1:
                u = bytes([rng.choice([0, 255])] * 16)
            ops.append({'op': 'print', 'id': u.hex()})
            for _ in range(6):
                t = variant(rng, uuid_text(u)) if rng.random() < .5 else spoiled(rng, uuid_text(u))
                ops.append({'op': 'parse', 'text': os.fsencode(t).hex()})
        scens.append({'dir': d, 'ops': ops})
    first = ctx.run_driver('identify', scens)
    # What was printed is read again
    second = []
    for s, r in zip(scens, first):
        second.append({'dir': d, 'ops': [{'op': 'parse', 'text': o['text']} for o in r if 'text' in o] or [{'op': 'parse', 'text': ''}]})
    again = ctx.run_driver('identify', second)
    for ss, rr in ((scens, first), (second, again)):
        for s, r in zip(ss, rr):
            t = {'fs': [], 'ops': []}
            r = r + [{'r': 'died'}] * (len(s['ops']) - len(r))
            for o, ob in zip(s['ops'], r):
                if o['op'] == 'print':
                    t['ops'].append({'op': 'print', 'id': list(bytes.fromhex(o['id'])),
                                     'obs': {'r': ob['r'], 'text': list(bytes.fromhex(ob.get('text', '')))}})
                else:
                    t['ops'].append({'op': 'parse', 'text': list(bytes.fromhex(o['text'])),
                                     'obs': {'r': ob['r'], 'id': list(bytes.fromhex(ob.get('id', '')))}})
                ctx.count('texts')
            trace.append(t)
    ctx.trace('TraceIdentify', {}, trace)
    selections(ctx, ctx.pick(24, 200))
    negative_controls(ctx, ['ids_case', 'ids_long', 'ids_short', 'ids_ends'])


def selections(ctx, n):
    """From identify to recon."""
    rng = ctx.rng
    d = ctx.dir('select')
    jobs = []
    for k in range(n):
        bs = rng.choice([16384, 65536])
        size = MINDEV + 100 * bs
        ids = rand_ids(rng, rng.randint(2, 5))
        im = Image(bs, size)
        where = rng.sample(range(SUPER + bs, SUPER + 80 * bs, bs), 40)
        fs, key = [], 0
        for u in ids:
            keys = []
            for _ in range(rng.randint(1, 4)):
                key += 1
                im.put(where.pop(), leaf(bs, u, 5, 7, [(key, 1, 0, b'x' * 160)]))
                keys.append(key)
            fs.append({'id': list(u), 'items': keys})
        jobs.append((bs, im, ids, fs, rng.random()))

    def work(j):
        bs, im, ids, fs, seed = jobs[j]
        r = random.Random(seed)
        path = os.path.join(d, str(j))
        im.write(path)
        ops = []
        res, out, err = ctx.run_cli(['--block-size', str(bs), 'identify', '--min-occurrence', '1', path] + (['-m'] if j % 2 else []), timeout=100)
        rows = [l.split()[0] for l in out.decode('latin-1').split('\n')[0 if j % 2 else 1:] if l]
        for t in rows:      # every printed id is the text of one of them
            u = next((u for u in ids if u.hex() == t.replace('-', '').lower()), b'')
            ops.append({'op': 'print', 'id': list(u) or [0] * 16, 'obs': {'r': 'ok', 'text': codes(t)}})
        if res != 'ok' or len(rows) != len(ids):
            ops.append({'op': 'print', 'id': list(ids[0]), 'obs': {'r': 'missing', 'text': []}})
        texts = list(rows)
        for u in ids:
            texts += [variant(r, uuid_text(u)), spoiled(r, uuid_text(u))]
        texts += [variant(r, uuid_text(r.randbytes(16)))]
        for m, t in enumerate(texts):
            meta = os.path.join(d, '%d-%d.meta' % (j, m))
            args = ['--id', t] if not t.startswith('-') and t and r.random() < .5 else ['--id=' + t]
            res, out, err = ctx.run_cli(['--metadata', meta, '--block-size', str(bs), 'recon', *args, path], timeout=100)
            items, made = [], os.path.exists(meta)
            if res == 'ok' and made:
                o = dump_cli(ctx, meta)
                res = o['r']
                items = [k[2] if k[0] == 5 and k[1] == 1 and k[3] == 0 else -1 for k in o['list']]
            elif res == 'ok':
                res = 'no index'
            if made:
                os.unlink(meta)
            ops.append({'op': 'recon', 'text': codes(t), 'obs': {'r': res, 'items': items, 'made': made}, 'args': str(args)})
        os.unlink(path)
        return {'fs': fs, 'ops': ops}

    res = ctx.parallel(work, range(len(jobs)))
    ctx.count('selections', sum(len(t['ops']) for t in res))
    ctx.sample(res[0])
    ctx.trace('TraceIdentify', {}, res)
