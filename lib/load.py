"""Puts metadata into index files: directly, or as leaves of an image that the real recon scans."""
import os
from common import *
from recon import Image, leaf, uuid_text, SUPER, MINDEV, HDR, ITEM

FSID = b'\x11' * 16


def leaves_of(rng, m, bs):
    """Leaves that hold the items, or None if an item is too large for one."""
    trees, out = {}, []
    for (o, t, i, f, g), data in m.items.items():
        if o == U64 or len(data) + ITEM > bs - HDR:
            return None
        trees.setdefault((o, g), []).append((i, t, f, data))
    for (o, g), items in trees.items():
        if rng.random() < .7:
            items.sort()
        else:
            rng.shuffle(items)
        cur, room = [], bs - HDR
        for it in items:
            n = ITEM + len(it[3])
            if cur and (n > room or rng.random() < .02):
                out.append(leaf(bs, FSID, o, g, cur, rng=rng, bytenr=rng.getrandbits(40)))
                cur, room = [], bs - HDR
            cur.append(it)
            room -= n
        out.append(leaf(bs, FSID, o, g, cur, rng=rng, bytenr=rng.getrandbits(40)))
    return out


def scanned(ctx, rng, m, path):
    """The index of an image with this metadata, as recon makes it"""
    bs = rng.choice([4096, 16384, 16384, 65536])
    leaves = leaves_of(rng, m, bs)
    if leaves is None or len(leaves) > 400:
        return False
    size = MINDEV + 100 * bs
    im = Image(bs, size)
    rng.shuffle(leaves)
    spots = sorted(rng.sample(range((size - SUPER - bs) // bs), len(leaves)))
    taken = set(spots)
    for k, l in zip(spots, leaves):
        im.put(SUPER + bs * (k + 1), l)
        w, at = rng.random(), SUPER + bs * (k + 2)
        if w < .3 and k + 1 not in taken and at + bs <= size:
            # Another filesystem, an interior node, a stale superblock or something else
            other = bytearray(l)
            if w < .1:
                other[32:48] = b'\x12' * 16
            elif w < .2:
                other[100] = rng.randint(1, 7)
            else:
                other[rng.randrange(32, 48)] ^= 1
            im.put(at, bytes(other))
    img = path + '.img'
    im.write(img)
    r, out, err = ctx.run_cli(['--metadata', path, '--block-size', str(bs), 'recon', '--id', uuid_text(FSID), img])
    os.remove(img)
    if r != 'ok':
        raise CheckError('recon: %s %s' % (r, err[-500:]))
    ctx.count('indexes_scanned_from_images')
    return True


def load(ctx, metas, share=.12):
    """metas: (metadata, path of its index file)"""
    direct, scan = [], []
    for m, path in metas:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if ctx.rng.random() < .25:
            m.regenerate(ctx.rng)
        (scan if ctx.rng.random() < share else direct).append((m, path))
    ctx.cli()
    seeds = [ctx.rng.randrange(1 << 60) for _ in scan]
    done = ctx.parallel(lambda n: scanned(ctx, random.Random(seeds[n]), *scan[n]), range(len(scan)))
    direct += [x for x, ok in zip(scan, done) if not ok]
    for r in ctx.run_driver('index', [{'dir': os.path.dirname(p), 'ops': [m.load_op(p, rng=ctx.rng)]} for m, p in direct]):
        if r[0]['r'] != 'ok':
            raise CheckError('load: %s' % r)
