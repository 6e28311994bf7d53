"""C21: malformed items."""
from common import *
from meta import *
from trees import LsBatch, RecoverBatch, RFS, Contents, ls_ops, prior_things, OUT, DEVSIZE, LOGBASE
from mounts import MountBatch, VFS, walk_view, read_files, tree_files, bursts, Session
import struct

HUGE = [0, 1, 2, 255, 256, 65535, 1 << 31, (1 << 32) - 1, 1 << 40, 1 << 62, 1 << 63, U64, U64 - 255]


def put_at(b, at, fmt, v):
    n = struct.calcsize(fmt)
    if at + n <= len(b):
        b[at:at + n] = struct.pack(fmt, v & ((1 << 8 * n) - 1))


def damage_item(rng, key, data):
    o, t, i, f, g = key
    b = bytearray(data)
    w = rng.random()
    if w < .4 or t in (TCHUNK, TROOT):      # cut short
        heads = {TINODE: [0, 1, 8, 52, 56, 111, 112, 124, 136, 148, 159, 160], TDIR: [0, 1, 17, 25, 29, 30, 31, 32, len(b) - 1, len(b) - 2],
                 TXATTR: [0, 29, 30, 31, len(b) - 1, len(b) - 3], TEXT: [0, 1, 20, 21, 22, 29, 45, 52, 53, len(b) - 1],
                 TCHUNK: [0, 44, 45, 46, 47, 48, 56, 63, 64, 79, 80], TROOT: [0, 1, 100]}.get(t, [0, 1, len(b) // 2])
        return bytes(b[:max(0, rng.choice(heads + [rng.randrange(len(b) + 1)]))])
    if t == TINODE:
        for _ in range(rng.randint(1, 3)):
            at, fmt = rng.choice([(0, '<Q'), (16, '<Q'), (24, '<Q'), (40, '<I'), (44, '<I'), (48, '<I'), (52, '<I'), (56, '<Q'), (64, '<Q')])
            put_at(b, at, fmt, rng.choice(HUGE + [rng.randrange(1 << 16)]))
        return bytes(b)
    if t in (TDIR, TXATTR):
        ents = list(walk_entries(data))
        for _ in range(rng.randint(1, 3)):
            at = rng.choice(ents)[0] if ents else 0
            at += rng.choice([0, 0, 30]) if rng.random() < .1 else 0
            w = rng.random()
            if w < .3:
                put_at(b, at + 27, '<H', rng.choice([0, 1, 2, 255, 256, 257, 1000, 65535, max(0, len(b) - at - 30), len(b) - at - 29]))
            elif w < .6:
                put_at(b, at + 25, '<H', rng.choice([0, 1, 2, 30, 31, 65535, max(0, len(b) - at - 31)]))
            elif w < .7 and t == TDIR:
                put_at(b, at + 29, '<B', rng.choice([0, 1, 2, 3, 7, 8, 9, 128, 255]))
                if at + 9 <= len(b) and b[at + 8] == TROOT:
                    b[at + 8] = TINODE
            elif w < .8:
                put_at(b, at, '<Q', rng.choice([0, 1, 5, 255, 256, U64, 1 << 63]))
            elif w < .85 and t == TDIR:
                put_at(b, at + 8, '<B', rng.choice([0, 1, 84, 131, 133, 255]))
            elif t == TDIR and len(b) > 30:
                b[rng.randrange(30, len(b))] = rng.choice([0, 46, 47, 255, 10 if rng.random() < 0 else 65])
            else:
                b += rng.choice([b'\x01', b'\x01' * 29, b'\x01' * 30, b'\x02' * 40])
        return bytes(b)
    if t == TEXT:
        for _ in range(rng.randint(1, 2)):
            at, fmt = rng.choice([(8, '<Q'), (8, '<Q'), (16, '<B'), (17, '<B'), (18, '<H'), (20, '<B'), (20, '<B'), (21, '<Q'), (29, '<Q'),
                                  (37, '<Q'), (45, '<Q'), (45, '<Q')])
            v = rng.choice([0, 1, 2, 3, 255] if fmt == '<B' else HUGE + [len(b) - 21, len(b) - 20, len(b) - 22])
            put_at(b, at, fmt, v)
        return bytes(b)
    return rng.randbytes(rng.choice([0, 1, 21, 30, 53, 160, 500]))


def newline_names(m):
    return any(t == TDIR and any(b'\n' in e[5] for e in walk_entries(d)) for (o, t, i, f, g), d in m.items.items())


def corrupt(rng, m, share):
    for k, d in list(m.items.items()):
        if rng.random() < share:
            m.items[k] = damage_item(rng, k, d)
    owners = sorted({k[0] for k in m.items})
    for _ in range(rng.choice([0, 2, 5])):       # keys that make no sense
        t = rng.choice([TINODE, TDIR, TEXT, TXATTR])
        o, i = rng.choice(owners), rng.choice([0, 255, 256, 257, 258, U64])
        f = rng.choice([0, 1, U64, 1 << 63]) if t != TINODE else rng.choice([1, U64])
        n = rng.choice([0, 1, 29, 30, 53])
        d = bytes(rng.choice([0, 1, 2, 65, 66]) for _ in range(n))
        if t == TDIR and n >= 30 and d[8] == TROOT:
            d = d[:8] + b'\x01' + d[9:]
        m.items.setdefault((o, t, i, f, rng.choice([5, 6, 7])), d)
    if rng.random() < .15:                       # names and values that end beyond 64 KiB
        k = sorted(k for k in m.items if k[1] == TINODE) or [(owners[0], TINODE, 257, 5, 5)]
        for t in rng.choice([(TXATTR,) * 3, (TXATTR,) * 3, (TDIR,), (TXATTR, TDIR)]):
            o, _, i, f, g = rng.choice(k)
            n, v = rng.choice([1, 40, 255]), rng.choice([65250, 65504, 65505, 65506, 65535])
            m.items[o, t, i if t == TXATTR else 256, min(U64, f + rng.choice([0, 0, 1])), g] = struct.pack(
                '<QBQQHHB', 258, TINODE, 0, 1, v, n, 8 if t == TXATTR else 1) + b'user.'[:n].ljust(n, b'h') + bytes([v & 127 | 1]) * v
    # A subvolume entry that is not a directory has no meaning; a zero byte in the name of an attribute ends it
    for k in list(m.items):
        if k[1] == TDIR:
            b = bytearray(m.items[k])
            for at, loc, dl, nl, ft, name, val in walk_entries(bytes(b)):
                if loc[1] == TROOT and ft != FT_DIR:
                    b[at + 8] = TINODE
                for p in range(at + 30, min(len(b), at + 30 + nl)):
                    if b[p] == 10:
                        b[p] = 65
            m.items[k] = bytes(b)
        elif k[1] == TXATTR:
            b = bytearray(m.items[k])
            for at, loc, dl, nl, ft, name, val in walk_entries(bytes(b)):
                for p in range(at + 30, min(len(b), at + 30 + nl)):
                    if b[p] == 0:
                        b[p] = 65
            m.items[k] = bytes(b)


def check_C21(ctx):
    rng = ctx.rng
    ls, rec, mnt = LsBatch(ctx), RecoverBatch(ctx), MountBatch(ctx)
    for k in range(ctx.pick(700, 4000)):
        if k % 7 == 6:
            c = Contents(rng, far=False)
            m = c.m
            corrupt(rng, m, rng.choice([.1, .3]))
            if k % 2:
                rec.add(m, [('set', []), ('recover', False)], size=c.size, logbase=c.logbase, posbase=c.posbase, interest=c.interest)
            else:
                mnt.add(m, read_files(dict(c.interest), 15), size=c.size, logbase=c.logbase, posbase=c.posbase)
            continue
        links = k % 3 == 2 and k % 2 == 1 and rng.random() < .4
        fs = VFS(rng, alias=.2, subvols=rng.choice([0, 0, 1, 2]), dirs=(0, 3), files=(2, 9) if links else (0, 5),
                 **({'types': [7, 7, 7, 1]} if links else {})).build()
        if links:
            for key, d in list(fs.m.items.items()):
                if key[1] == TEXT and rng.random() < .4:
                    fs.m.items[key] = damage_item(rng, key, d)
        corrupt(rng, fs.m, rng.choice([.05, .15, .15, .4]))
        if k % 3 == 0:
            ls.add(fs.m, [{'op': 'ls', 'recursive': True, 'paths': [], 'args': []}] + ls_ops(rng, fs, 2) + [{'op': 'dump'}])
        elif k % 3 == 1:
            rec.add(fs.m, [('set', []), ('recover', False)])
        else:
            mnt.add(fs.m, walk_view(fs.m, 60) if k % 2 else read_files(tree_files(fs), 25), size=rng.choice([DEVSIZE, DEVSIZE, 0]))
    ls.run()
    rec.run()
    mnt.run()
