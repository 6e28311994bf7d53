"""Filesystem metadata: building it byte by byte, and decoding it into the
records of spec/Meta.tla.  The decoding only cuts items into their fields; what
counts as well-formed is up to the specification."""
import struct
from common import *
from indexes import chunk_bytes

CAP = 1 << 29
LAST = U64 - 255
TINODE, TXATTR, TDIR, TEXT, TROOT, TCHUNK = 1, 24, 84, 108, 132, 228
FT_UNKNOWN, FT_FILE, FT_DIR, FT_CHR, FT_BLK, FT_FIFO, FT_SOCK, FT_LINK, FT_XATTR = range(9)
S_IF = {FT_FILE: 0o100000, FT_DIR: 0o40000, FT_CHR: 0o20000, FT_BLK: 0o60000, FT_FIFO: 0o10000, FT_SOCK: 0o140000,
        FT_LINK: 0o120000}

_T = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (0x82f63b78 if _c & 1 else 0)
    _T.append(_c)


def name_hash(name):
    c = 0xFFFFFFFE
    for b in name:
        c = _T[(c ^ b) & 255] ^ (c >> 8)
    return c


COLLIDING = [(a.encode(), b.encode()) for a, b in [
    ('cm3qug', '53pr53'), ('kcbdxv', 'b7arqn'), ('bfqur6', '482v2b'), ('c9l60g', 'pewztp'), ('jemik1', '9dru57'),
    ('c9hl50', '08wpk6'), ('4vgefp', 'gwxy8v'), ('4l3cm8', '8gljzr'), ('exowlr', '6ypk2t'), ('z6faow', 'sbewfo')]]


def inode_bytes(mode, size=0, nlink=1, uid=0, gid=0, times=(0, 0, 0, 0), nbytes=0, rdev=0, gen=1):
    """times: atime, ctime, mtime, otime as (seconds, nanoseconds) or seconds"""
    b = struct.pack('<QQQQQIIIIQQQ', gen, gen, size, nbytes, 0, nlink, uid, gid, mode, rdev, 0, 0) + bytes(32)
    for t in times:
        s, n = t if isinstance(t, tuple) else (t, 0)
        b += struct.pack('<qI', s, n)
    return b


def entry_bytes(name, ft, loc, data=b'', transid=1):
    o, t, f = loc
    return struct.pack('<QBQQHHB', o, t, f, transid, len(data), len(name), ft) + name + data


def inline_bytes(data, ram=None, gen=1, comp=0):
    return struct.pack('<QQBBHB', gen, len(data) if ram is None else ram, comp, 0, 0, 0) + data


def extent_bytes(disk, disknum, off, num, typ=1, gen=1, comp=0, ram=None):
    return struct.pack('<QQBBHBQQQQ', gen, num if ram is None else ram, comp, 0, 0, typ, disk, disknum, off, num)


class Meta:
    def __init__(self):
        self.items = {}              # (o, t, i, f, g) -> data

    def put(self, o, t, i, f, g, data):
        self.items[(o, t, i, f, g)] = data

    def inode(self, o, i, g, **kw):
        self.put(o, TINODE, i, 0, g, inode_bytes(**kw))

    def entry(self, o, d, name, ft, loc, g, key=None, t=TDIR, data=b''):
        k = (o, t, d, name_hash(name) if key is None else key, g)
        self.items[k] = self.items.get(k, b'') + entry_bytes(name, ft, loc, data)

    def subvol(self, i, g, f=0):
        self.put(1, TROOT, i, f, g, bytes(439))

    def regenerate(self, rng):
        """Other generations, in the same order"""
        old = sorted({k[4] for k in self.items})
        new = sorted(rng.sample([0, 1, 2, 255, 256, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 53,
                                 (1 << 63) - 1, 1 << 63, (1 << 63) + 1, U64 - 1, U64], min(len(old), 17)))
        if len(old) <= len(new):
            to = dict(zip(old, new))
            self.items = {k[:4] + (to[k[4]],): v for k, v in self.items.items()}

    def driver_items(self, order=None):
        l = list(self.items.items())
        if order:
            order.shuffle(l)
        return [{'o': o, 't': t, 'i': i, 'f': f, 'g': g, 'data': d.hex()} for (o, t, i, f, g), d in l]

    def load_op(self, path, bs=4096, rng=None):
        return {'op': 'load', 'path': path, 'bs': bs, 'fsid': '11' * 16, 'items': self.driver_items(rng)}


def short_time(secs, nanos=0):
    """The way ls prints a time."""
    secs += nanos // 10 ** 9
    days, rest = divmod(secs, 86400)
    # Civil date of a day number
    z = days + 719468
    doe = z % 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d, m = doy - (153 * mp + 2) // 5 + 1, mp + 3 if mp < 10 else mp - 9
    return '%s %2d %02d:%02d' % ('Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()[m - 1], d, rest // 3600, rest % 3600 // 60)


class Names:
    """Numbers for byte strings."""

    def __init__(self):
        self.ids, self.list = {}, []

    def __call__(self, b):
        if b not in self.ids:
            self.ids[b] = len(self.ids) + 1
            self.list.append(b)
        return self.ids[b]

    def known(self, b):
        return self.ids.get(b, -1)


def walk_entries(data):
    """Cuts a directory item into its entries as their length fields say."""
    at = 0
    while at + 30 <= len(data):
        o, t, f, tid, dlen, nlen, ft = struct.unpack_from('<QBQQHHB', data, at)
        yield at, (o, t, f), dlen, nlen, ft, data[at + 30:at + 30 + nlen], data[at + 30 + nlen:at + 30 + nlen + dlen]
        at += 30 + nlen + dlen


def values(m):
    """All 64 bit values that keys and locations of the metadata consist of."""
    v = set()
    for (o, t, i, f, g), data in m.items.items():
        v |= {o, i, f, g}
        if t in (TDIR, TXATTR):
            for e in walk_entries(data):
                v |= {e[1][0], e[1][2]}
    return v


def clip(v, lo=-CAP, hi=CAP):
    return min(max(v, lo), hi)


def decode_item(key, data, pal, names, posbase=None, logbase=0):
    """posbase: file offsets that count as zero, by (owner, inode); logbase: the same for logical addresses"""
    o, t, i, f, g = key
    k = [pal(o), t, pal(i), pal(f), pal(g)]
    n = len(data)
    d = {'len': n}
    if t == TINODE and n >= 160:
        gen, tid, size, nbytes, bg, nlink, uid, gid, mode, rdev = struct.unpack_from('<QQQQQIIIIQ', data)
        at, an, ct, cn, mt, mn = struct.unpack_from('<qIqIqI', data, 112)
        d.update(nlink=str(nlink), uid=str(uid), gid=str(gid), size=str(size), fsize=clip(size - (posbase or {}).get((o, i), 0)),
                 mode=mode & 0xffff, fullmode=str(mode), time=short_time(ct, cn),
                 times=['%d.%09d' % (s + ns // 10 ** 9, ns % 10 ** 9) for s, ns in ((at, an), (mt, mn), (ct, cn))])
    elif t in (TDIR, TXATTR):
        ents = []
        for at, loc, dlen, nlen, ft, name, val in walk_entries(data):
            whole = at + 30 + nlen + dlen <= n
            ents.append({'at': at, 'nlen': nlen, 'dlen': dlen, 'type': ft, 'lo': pal(loc[0]), 'lt': loc[1],
                         'name': names(name) if whole else 0, 'val': names(val) if whole and t == TXATTR else 0})
        d['ents'] = ents
    elif t == TEXT and n >= 21:
        gen, ram, comp, enc, other, typ = struct.unpack_from('<QQBBHB', data)
        d.update(pos=clip(f - (posbase or {}).get((o, i), 0)), ram=min(ram, CAP), type=typ, enc=int(bool(comp or enc or other)),
                 data=list(data[21:21 + min(ram, CAP)]) if typ == 0 else [], hole=True, addr=-1, num=0, wrap=False)
        if n >= 53 and typ != 0:
            disk, dnum, off, num = struct.unpack_from('<QQQQ', data, 21)
            cut = (posbase or {}).get((o, i), 0) - CAP // 2 - f
            if cut > 0 and num > cut:            # the part that can be told apart
                f, off, num = f + cut, off + cut, num - cut
                d.update(pos=-(CAP // 2))
            wrap = typ == 1 and disk != 0 and (disk + off > U64 or disk + off + num > U64)
            d.update(hole=disk == 0 or typ == 2, addr=clip(disk + off - logbase), num=min(num, CAP), wrap=wrap or f + num > U64)
        elif typ == 0:
            d['wrap'] = f + ram > U64
    elif t == TCHUNK:
        d.update(chunk=n >= 80 and struct.unpack_from('<H', data, 44)[0] > 0, start=0, clen=0, phys=0)
        if d['chunk']:
            d.update(start=clip(f - logbase), clen=min(struct.unpack_from('<Q', data)[0], CAP),
                     phys=min(struct.unpack_from('<Q', data, 56)[0], CAP))
    return {'k': k, 'd': d}


def dev_byte(p):
    return 0 if p // 512 % 9 == 4 else ((p % 65521) * 167 + (p // 65521) * 29) % 255 + 1


_PAT = {}
_ROW = bytes((r * 167) % 255 for r in range(65521))


def dev_bytes(size):
    """The content of a patterned device"""
    if size not in _PAT:
        out = bytearray()
        for q in range(size // 65521 + 1):
            out += _ROW.translate(bytes((v + q * 29) % 255 + 1 for v in range(256)))
        for at in range(4 * 512, size, 9 * 512):
            out[at:at + 512] = bytes(512)
        _PAT[size] = bytes(out[:size])
    return _PAT[size]
