"""C14: no command and no request changes the image, and only recon the index."""
import hashlib, os, random, shutil, struct, subprocess
from common import *
from meta import *
from indexes import negative_controls
from recon import leaf, uuid_text, Image
from trees import OUT, NOBODY, ok_name
from mounts import VFS, lookup_path, Session, XNAMES, possible
import fuse
from fuse import Mount, Gone, entry, attr

BIG = (64 << 20) + 101 * 4096
FSID = b'\x11' * 16


def state(p):
    """All that can be told about a file, but the time of the last access"""
    try:
        st = os.stat(p)
    except OSError:
        return 'absent'
    h = hashlib.sha256(b'%d %d %o %d %d ' % (st.st_size, st.st_mtime_ns, st.st_mode, st.st_uid, st.st_gid))
    if os.path.isdir(p):
        h.update(repr(sorted(os.listdir(p))).encode())
        return h.hexdigest()
    with open(p, 'rb') as fh:
        at = 0
        while at < st.st_size:
            try:
                at = os.lseek(fh.fileno(), at, os.SEEK_DATA)
            except OSError:
                break
            end = os.lseek(fh.fileno(), at, os.SEEK_HOLE)
            fh.seek(at)
            h.update(b'%d' % at + fh.read(end - at))
            at = end
    return h.hexdigest()


def setattr_body(valid, fh=0, size=0, mode=0o644):
    return struct.pack('<IIQQQQQQIIIIIIII', valid, 0, fh, size, 0, 1, 2, 3, 4, 5, 6, mode, 0, 0, 0, 0)


def mutations(rng, s, node, other, name, fh):
    """Requests that would change something: (what, request code, node, body)"""
    n2 = name + b'2'
    out = [('setattr %x' % v, fuse.SETATTR, node, setattr_body(v, fh or 0, rng.choice([0, 1, 1 << 20]))) for v in
           rng.sample([1, 2, 4, 6, 8, 16, 32, 48, 9, 63, 48 | 0x180, 16 | 0x80], 4)]
    out += [('mknod', fuse.MKNOD, node, struct.pack('<IIII', 0o100644, 0, 0, 0) + n2 + b'\0'),
            ('mkdir', fuse.MKDIR, node, struct.pack('<II', 0o755, 0) + n2 + b'\0'),
            ('symlink', fuse.SYMLINK, node, n2 + b'\0target\0'),
            ('link', fuse.LINK, node, struct.pack('<Q', other) + n2 + b'\0'),
            ('rename', fuse.RENAME, node, struct.pack('<Q', node) + name + b'\0' + n2 + b'\0'),
            ('rename2', fuse.RENAME2, node, struct.pack('<QII', node, 0, 0) + name + b'\0' + n2 + b'\0'),
            ('unlink', fuse.UNLINK, node, name + b'\0'), ('rmdir', fuse.RMDIR, node, name + b'\0'),
            ('create', fuse.CREATE, node, struct.pack('<IIII', 2, 0o644, 0, 0) + n2 + b'\0'),
            ('create there', fuse.CREATE, node, struct.pack('<IIII', 2 | 0x200, 0o644, 0, 0) + name + b'\0'),
            ('setxattr', fuse.SETXATTR, node, struct.pack('<II', 3, 0) + b'user.a\0abc'),
            ('removexattr', fuse.REMOVEXATTR, node, b'user.a\0')]
    out += [('open %x' % f, fuse.OPEN, node, struct.pack('<II', f, 0)) for f in rng.sample([1, 2, 0x202, 0x401, 0x201, 0x402, 0x8001], 3)]
    if fh is not None:
        data = rng.choice([b'x', b'', b'evil' * 100])
        out += [('write', fuse.WRITE, node, struct.pack('<QQIIQII', fh, rng.choice([0, 1, 4096, 1 << 30]), len(data), 0, 0, rng.choice([0, 1, 2]), 0) + data),
                ('fallocate', fuse.FALLOCATE, node, struct.pack('<QQQII', fh, 0, rng.choice([1, 1 << 20]), rng.choice([0, 1, 3]), 0)),
                ('setattr fh', fuse.SETATTR, node, setattr_body(8 | 64, fh, 0)),
                ('setattr mode fh', fuse.SETATTR, node, setattr_body(1 | 64, fh, 0)),
                ('setattr times fh', fuse.SETATTR, node, setattr_body(48 | 64, fh, 0)),
                ('copy', fuse.COPYRANGE, node, struct.pack('<QQQQQQQ', fh, 0, node, fh, 100, 50, 0))]
    rng.shuffle(out)
    return out


def check_C14(ctx):
    rng = ctx.rng
    ctx.model('MCInputs')
    negative_controls(ctx, ['samefile', 'through', 'rwopen', 'setattr'])
    os.chmod(ctx.tmp, 0o755)
    exe = ctx.cli()
    d = ctx.dir('inputs')
    count = ctx.pick(300, 1500)
    kinds_image = ['fs', 'fs', 'fs', 'small', 'zero', 'index', 'empty', 'junk']
    kinds_meta = ['index', 'index', 'index', 'index', 'index', 'empty', 'junk', 'absent', 'dir', 'image', 'symlink image', 'hard image',
                  'symlink', 'readonly']
    plans, load = [], []
    for n in range(count):
        fs = VFS(rng, alias=.2, bad=rng.choice([0, .1])).build()
        sd = os.path.join(d, str(n))
        load.append({'dir': sd, 'ops': [fs.m.load_op(os.path.join(sd, 'm'), rng=rng)]})
        plans.append((fs, rng.choice(kinds_image), rng.choice(kinds_meta), rng.randrange(1 << 60)))
    for r in ctx.run_driver('index', load):
        if r[0]['r'] != 'ok':
            raise CheckError('load: %s' % r)

    def work(n):
        fs, ikind, mkind, seed = plans[n]
        r = random.Random(seed)
        sd = os.path.join(d, str(n))
        image, meta = os.path.join(sd, 'img'), os.path.join(sd, 'm')
        size = BIG + r.choice([0, 0, 1, 777, 4095])
        with open(image, 'wb') as fh:
            if ikind == 'fs':
                im = Image(4096, BIG)
                for _ in range(4):
                    its = [(256 + k, 1, 0, r.randbytes(160)) for k in range(3)]
                    im.put(0x10000 + 4096 * r.randint(1, 300), leaf(4096, FSID, 5, 9, its))
                fh.truncate(size)
                for at, b in im.parts.items():
                    fh.seek(at)
                    fh.write(b)
            elif ikind == 'small':
                fh.write(dev_bytes(1 << 16))
            elif ikind == 'zero':
                fh.truncate(size)
            elif ikind == 'junk':
                fh.write(r.randbytes(1 << 16))
                fh.truncate(size)
            elif ikind == 'index':
                fh.write(open(meta, 'rb').read())
                fh.truncate(size)
        path = meta
        if mkind in ('empty', 'junk', 'absent', 'dir', 'image', 'symlink image', 'hard image'):
            os.unlink(meta)
        if mkind == 'empty':
            open(meta, 'wb').close()
        elif mkind == 'junk':
            with open(meta, 'wb') as fh:
                fh.write(r.randbytes(r.choice([1, 100, 5000, 40000])))
        elif mkind == 'dir':
            os.mkdir(meta)
        elif mkind == 'image':
            path = image
        elif mkind == 'symlink image':
            os.symlink('img', meta)
        elif mkind == 'hard image':
            os.link(image, meta)
        elif mkind == 'symlink':
            path = os.path.join(sd, 'ln')
            os.symlink('m', path)
        elif mkind == 'readonly':
            os.chmod(meta, 0o444)
        dest = os.path.join(sd, 'dest')
        os.mkdir(dest)
        for p in fs.some_paths(r.choice([0, 3, 6])):         # links to the inputs where files are restored
            if not all(ok_name(c) for c in p):
                continue
            q = dest.encode()
            for c in p[:-1]:
                q += b'/' + c
                if not os.path.lexists(q):
                    os.mkdir(q)
                elif os.path.islink(q) or not os.path.isdir(q):
                    break
            else:
                q = None
            if q:
                continue
            t = dest.encode() + b'/' + b'/'.join(p)
            try:
                if r.random() < .5:
                    os.link(r.choice([image, meta]), t)
                else:
                    os.symlink(r.choice([image, path]), t)
            except OSError:
                pass
        os.chmod(image, r.choice([0o644, 0o644, 0o444]))
        subprocess.check_call(['chown', '-hR', '%d:%d' % (NOBODY, NOBODY), '--', sd])
        numbers = {'absent': 0}

        def files():
            return {'image': numbers.setdefault(state(image), len(numbers)), 'index': numbers.setdefault(state(path), len(numbers))}
        try:
            same = os.path.samefile(image, path)
        except OSError:
            same = False
        scen = {'same': same, 'files': files(), 'ops': [], 'image': ikind, 'meta': mkind}

        def cli(cmd, *args):
            return ctx.run_cli([*args[:0], '--metadata', path, *args], timeout=60, user=NOBODY, group=NOBODY, extra_groups=[], cwd=sd)[0]
        for _ in range(r.randint(2, 6)):
            w = r.choice(['identify', 'recon', 'recon', 'ls', 'recover', 'recover', 'dump-index', 'mount', 'completion'])
            if w == 'mount':
                mount(r, fs, sd, path, image, scen, files)
                continue
            if w == 'identify':
                res = cli(w, w, image)
            elif w == 'recon':
                res = cli(w, w, '--id', r.choice([uuid_text(FSID), uuid_text(b'\x12' * 16)]), '--block-size', '4096',
                          *r.choice([[], ['--append']]), image)
            elif w == 'ls':
                res = cli(w, w, *r.choice([[], ['--recursive']]), r.choice(['/', '/nothing']))
            elif w == 'recover':
                res = cli(w, w, *r.choice([[], ['--clobber']]), image, dest)
            elif w == 'dump-index':
                res = cli(w, w)
            else:
                res = cli(w, w)
            ctx.count('runs_' + w)
            scen['ops'].append({'cmd': w, 'obs': {'r': res, 'files': files()}})
        return scen

    def mount(r, fs, sd, path, image, scen, files):
        k = 'mnt%d' % len(scen['ops'])
        base = os.path.join(sd, k)
        os.makedirs(base)
        os.chmod(base, 0o777)
        img = r.choice([None, image])
        mt = Mount(exe, base, path, img, user=NOBODY, group=NOBODY, extra_groups=[])
        ctx.count('runs_mount')
        res = 'ok'
        if not mt.alive:
            rc, err = mt.stop()
            res = 'err' if rc == 1 else 'died'
            scen['ops'].append({'cmd': 'mount', 'obs': {'r': res, 'files': files()}})
            return
        names = Names()
        s = Session(mt, names, r)
        try:
            s.do(s.own_metadata())
            s.do(s.enter())
            nodes = [(1, 0, r.choice([b'metadata', b'rescue'])), (s.metadata_node, None, b'x')]
            if s.nodes:
                nodes.append((s.nodes[1], 0, b'x'))
                for _ in range(4):
                    p = fs.a_path()
                    at = 1
                    for c in p:
                        if not possible(c) or not s.is_dir(at):
                            break
                        s.do(s.lookup(at, c))
                        if s.ops[-1]['obs']['r'] != 'ok':
                            break
                        at = s.top
                        nodes.append((s.nodes[at], at, c))
            for node, slot, name in r.sample(nodes, min(len(nodes), 4)):
                fh = None
                if slot is None or slot and s.is_reg(slot):
                    e, b = mt.ask(fuse.OPEN, node, struct.pack('<II', 0, 0))
                    if e == 0:
                        fh = struct.unpack_from('<Q', b)[0]
                other = r.choice(nodes)[0]
                for what, op, at, body in mutations(r, s, node, other, name, fh)[:r.choice([4, 8, 30])]:
                    e, b = mt.ask(op, at, body)
                    ctx.count('mutating_requests')
                    scen['ops'].append({'cmd': 'request', 'what': what, 'obs': {'r': 'err' if e else 'ok', 'e': e, 'files': files()}})
                if fh is not None:      # what a client does when it closes a file
                    for op, body in ((fuse.FLUSH, struct.pack('<QIIQ', fh, 0, 0, 0)), (fuse.FSYNC, struct.pack('<QII', fh, 0, 0)),
                                     (fuse.RELEASE, struct.pack('<QIIQ', fh, 0, 0, 0))):
                        mt.ask(op, node, body)
        except Gone as g:
            res = g.how
        rc, err = mt.stop()
        if b'panic:' in err or b'fatal error:' in err:
            res = 'crash'
        scen['ops'].append({'cmd': 'mount', 'obs': {'r': res, 'files': files()}, 'err': err.decode(errors='replace')[-2000:] if res != 'ok' else ''})
        shutil.rmtree(base, ignore_errors=True)

    def tidy(n):
        s = work(n)
        shutil.rmtree(os.path.join(d, str(n)), ignore_errors=True)
        return s
    res = ctx.parallel(tidy, range(count))
    ctx.sample(res[0])
    ctx.trace('TraceInputs', {}, res)
