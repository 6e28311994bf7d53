"""C23: failing input and output.  Faults are injected into the system calls of
the real commands (strace on our own children); what failed is read from its
log and becomes part of the trace, so that the specification can tell what
the failure excuses and what it does not."""
import os, re, shutil, subprocess
from common import *
from recon import Image, leaf, scan_image, uuid_text, MINDEV, SUPER
from trees import RecoverBatch, RFS, Contents, prior_things, OUT, DEVSIZE
from mounts import MountBatch, VFS, read_files, tree_files
import fuse

STRACE = shutil.which('strace')


def usable():
    if not STRACE:
        return False
    t = subprocess.run([STRACE, '-f', '-o', '/dev/null', '-e', 'trace=write', '-e', 'inject=write:error=EIO:when=1+', 'echo'],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return t.returncode == 1 and not t.stdout


def when(rng, top):
    n = rng.choice([1, 1, 2, 3, rng.randint(1, top), rng.randint(1, top), top])
    return '%d%s' % (n, rng.choice(['', '', '', '+', '+2', '..%d' % (n + 2)]))


def unhex(x):
    return bytes(int(c, 16) for c in re.findall(r'\\x([0-9a-f]{2})', x))


LINE = re.compile(r'^\d+ +(\w+)\((.*)\) += -1 E\w+ .*\(INJECTED\)$', re.M)


def resumed(text):
    """Calls that were interrupted in the log by other threads, in one line"""
    begun, out = {}, []
    for l in text.splitlines():
        m = re.match(r'^(\d+) +(.*) <unfinished \.\.\.>$', l)
        if m:
            begun[m.group(1)] = m.group(2)
            continue
        m = re.match(r'^(\d+) +<\.\.\. \w+ resumed>(.*)$', l)
        if m and m.group(1) in begun:
            l = '%s %s%s' % (m.group(1), begun.pop(m.group(1)), m.group(2))
        out.append(l)
    return '\n'.join(out)


def failures(log):
    """What was made to fail: (call, arguments)"""
    try:
        with open(log, errors='replace') as fh:
            text = fh.read()
    except OSError:
        return []
    return [(m.group(1), m.group(2)) for m in LINE.finditer(resumed(text))]


def device_part(args):
    """The part of the device that a failed pread64 asked for"""
    n, off = args.rsplit(', ', 2)[1:]
    return [int(off), int(off) + int(n)]


def touched_path(call, args):
    """The path a failed call was about"""
    if call in ('pwrite64', 'write', 'ftruncate'):
        m = re.match(r'\d+<([^>]*)>', args)
        return unhex(m.group(1)) if m else b''
    quoted = re.findall(r'"([^"]*)"', args)
    return unhex(quoted[-1]) if quoted else b''


class FailingRecover(RecoverBatch):
    """('fail', clobber, (system call, error, when)) is a run in which something fails"""

    def prepare(self, op, log, image, real):
        call, error, at = op[2][:3]
        only = ['-P', image] if call == 'pread64' else []
        for p in op[2][3:]:         # files are also opened by the runtime
            only += ['-P', real + b'/' + b'/'.join(p)]
        return [STRACE, '-f', '-y', '-xx', '-s', '5000', '-o', log, *only, '-e', 'trace=' + call, '-e',
                'inject=%s:error=%s:when=%s' % (call, error, at)]

    def named(self, said, real):
        """Paths below the destination that messages name"""
        out = set()
        for l in said.split(b'\n'):
            for m in re.finditer(re.escape(real + b'/'), l):
                rest = l[m.end():]
                for k in range(len(rest) + 1):      # a name may have anything in it
                    if k == len(rest) or rest[k:k + 1] in b': ':
                        out.add(tuple(rest[:k].split(b'/')))
        return sorted(p for p in out if all(p))

    def failed(self, op, log, real, names):
        """(parts of the device, paths, whether something else failed)"""
        parts, hit, other = [], set(), False
        for call, args in failures(log):
            self.ctx.count('failed_' + call)
            if call == 'pread64':
                parts.append(device_part(args))
                continue
            p = touched_path(call, args)
            if p.startswith(real + b'/'):
                hit.add(tuple(p[len(real) + 1:].split(b'/')))
            else:
                other = True
        return parts, hit, other


WRITES = [('pwrite64', 'ENOSPC'), ('pwrite64', 'EIO'), ('ftruncate', 'EIO'), ('ftruncate', 'ENOSPC'), ('openat', 'ENOSPC'), ('openat', 'EACCES'),
          ('mkdirat', 'ENOSPC'), ('symlinkat', 'ENOSPC'), ('symlinkat', 'EIO'), ('unlinkat', 'EACCES'), ('unlinkat', 'EIO')]


def some_fault(rng, reads, paths):
    if rng.random() < reads:
        return ('pread64', 'EIO', when(rng, 6))
    call, error = rng.choice(WRITES)
    if call == 'openat' and not paths:
        call = 'pwrite64'
    return (call, error, when(rng, 6), *(rng.sample(paths, min(len(paths), 6)) if call == 'openat' else ()))


def recover_faults(ctx):
    rng = ctx.rng
    b = FailingRecover(ctx)
    for k in range(ctx.pick(260, 1300)):
        if k % 4 == 3:
            c = Contents(rng, k % 20 == 19, far=False)
            b.add(c.m, [('set', []), ('fail', False, some_fault(rng, .8, [list(p) for p in c.interest])), ('recover', True), ('recover', True)],
                  size=c.size, logbase=c.logbase, posbase=c.posbase, interest=c.interest)
            continue
        fs = RFS(rng, alias=.2, dirs=(1, 4), files=(2, 6)).build()
        ops = [('set', OUT + prior_things(rng, fs, rng.choice([0, 0, 3, 6]), .1))]
        paths = [p for p in fs.some_paths(12) if all(c not in (b'.', b'..') and b'/' not in c and b'\0' not in c for c in p)]
        for _ in range(rng.choice([1, 1, 2])):
            ops.append(('fail', rng.random() < .5, some_fault(rng, .4, paths)))
        ops += [('recover', True)] * rng.choice([1, 2])
        b.add(fs.m, ops)
    b.run()


# -- the mounted view --------------------------------------------------------

class FailingMount(MountBatch):
    def prefix(self, n, rng, sd, image):
        log = os.path.join(sd, 'faults')
        open(log, 'w').close()
        at = rng.choice([1, 2, 3, 5, 8, 13])
        at = '%d%s' % (at, rng.choice(['', '', '+2', '+3', '+5', '..%d' % (at + 2)]))
        return (STRACE, '-D', '-f', '-y', '-xx', '-o', log, '-P', image, '-e', 'trace=pread64',
                '-e', 'inject=pread64:error=EIO:when=' + at), log


def view_faults(ctx):
    rng = ctx.rng
    b = FailingMount(ctx)
    for k in range(ctx.pick(80, 300)):
        if k % 2:
            c = Contents(rng, k % 12 == 5)
            b.add(c.m, read_files(c.interest, 40), size=c.size, logbase=c.logbase, posbase=c.posbase)
        else:
            fs = VFS(rng, dirs=(0, 2), files=(2, 6), types=[1]).build()
            b.add(fs.m, read_files(tree_files(fs), 40))
    b.run()


# -- recon and identify ------------------------------------------------------

def scan_faults(ctx):
    rng = ctx.rng
    exe = ctx.cli()
    base = ctx.dir('scans')
    images = []
    for k in range(ctx.pick(4, 10)):
        bs = rng.choice([4096, 16384])
        n = [rng.randint(10001, 26000), rng.randint(1, 3000), rng.randint(9990, 10010), rng.randint(20000, 33000)][k % 4]
        im = {'n': n, 'period': n, 'bs': bs, 'fsid': rng.randbytes(16), 'path': os.path.join(base, 'img%d' % k)}
        scan_image(rng, bs, im['fsid'], n, n).write(im['path'])
        blocks = (os.path.getsize(im['path']) - SUPER - bs) // bs
        im['blocks'] = blocks
        images.append(im)

    said = []

    def run(im, index, fault=None, command='recon'):
        pre, log = (), index + '.faults'
        if fault:
            call, error, at = fault
            only = ('-P', im['path']) if call == 'pread64' else ('-P', index)
            pre = (STRACE, '-f', '-o', log, *only, '-e', 'trace=' + call, '-e', 'inject=%s:error=%s:when=%s' % (call, error, at))
        if command == 'recon':
            args = ['--metadata', index, '--block-size', str(im['bs']), 'recon', '--id', uuid_text(im['fsid']), im['path']]
        else:
            args = ['--block-size', str(im['bs']), 'identify', '--min-blocks', '20', '--max-blocks', '200', '--min-occurrence', '1', im['path']]
        for _ in range(5):
            if os.path.exists(log):
                os.unlink(log)
            r, out, err = ctx.run_cli(args, prefix=pre, timeout=120)
            if r != 'err' or not pre or b'strace: ' not in err:
                break
        failed = 0
        if fault:
            failed = len(failures(log))
            if os.path.exists(log):
                os.unlink(log)
            ctx.count('failed_' + fault[0], failed)
        if r not in ('ok', 'err') or (r == 'err' and not failed):
            said.append('%s %s %s' % (r, fault, err[-500:]))
        return r, failed, bool(err.strip())

    plans = []
    for k in range(ctx.pick(110, 500)):
        im = images[k % len(images)]
        faults = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .4:
                n = rng.choice([1, 2, rng.randint(1, im['blocks']), rng.randint(1, im['blocks']), im['blocks'], im['blocks'] - 1])
                faults.append(('pread64', 'EIO', '%d%s' % (n, rng.choice(['', '', '+']))))
            else:
                call = rng.choice(['pwrite64', 'pwrite64', 'fdatasync', 'ftruncate'])
                n = rng.randint(1, {'pwrite64': rng.choice([4, 40, 500]), 'fdatasync': 8, 'ftruncate': 4}[call])
                faults.append((call, rng.choice(['EIO', 'ENOSPC', 'EDQUOT']), '%d%s' % (n, rng.choice(['', '', '+']))))
        plans.append((im, faults, k))

    def work(t):
        im, faults, n = t
        index = os.path.join(base, 'ix%d' % n)
        snaps, ends = [], []
        for f in faults + [None]:
            ends.append(run(im, index, f))
            s = '%s.%d' % (index, len(snaps))
            if os.path.exists(index):
                shutil.copy(index, s)
            snaps.append(s)
        return im, snaps, ends
    jobs = ctx.parallel(work, plans)
    dumps = ctx.run_driver('index', [{'dir': os.path.join(base, 'd%d' % n), 'ops': [{'op': 'scanruns', 'path': s} for s in snaps]}
                                     for n, (im, snaps, ends) in enumerate(jobs)])
    trace = []
    for (im, snaps, ends), d in zip(jobs, dumps):
        ops = []
        for (r, failed, told), ob in zip(ends, d):
            o = {'r': ob['r'], 'runs': ob.get('runs', []), 'bad': ob.get('bad', 0), 'stored': ob.get('stored', 0), 'exit': r, 'told': told}
            ops.append({'op': 'failed' if failed else 'scan', 'obs': o})
            ctx.count('scans_%s_%s' % ('failing' if failed else 'whole', r))
        trace.append({'items': im['n'], 'period': im['period'], 'ops': ops})

    # identify draws blocks at random
    def sample(k):
        im = images[k % len(images)]
        n = [1, 2, 10, 20][k % 4]
        return run(im, os.path.join(base, 'id%d' % k), ('pread64', 'EIO', '%d' % n), 'identify')
    for r, failed, told in ctx.parallel(sample, range(ctx.pick(12, 60))):
        trace.append({'items': 0, 'period': 1, 'ops': [{'op': 'sample', 'failed': failed > 0, 'obs': {'exit': r, 'told': told, 'r': 'none', 'runs': [], 'bad': 0, 'stored': 0}}]})
    for t in trace[:3]:
        ctx.sample(t)
    ctx.trace('TraceScan', {'said': said[:20]}, trace)


def check_C23(ctx):
    ctx.model('MCFaults', ctx.pick('MCFaults.cfg', 'MCFaultsDeep.cfg'))
    if ctx.thorough:
        for n in ('eof', 'silent', 'skip'):
            ctx.model('MCFaults', 'Neg_fault_%s.cfg' % n, expect_violation=True)
    ctx.driver()
    ctx.cover['faults_injected'] = usable()
    if not usable():
        raise CheckError('system calls cannot be made to fail here')
    scan_faults(ctx)
    recover_faults(ctx)
    view_faults(ctx)
