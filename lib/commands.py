"""C24: every command line is carried out, or refused with nothing done."""
import os, random, re, shutil, subprocess
from common import *
from meta import *
from indexes import negative_controls
from recon import uuid_text
from trees import NOBODY
from mounts import VFS
from inputs import state

FSID = b'\x11' * 16
MIB = 1 << 20
DEFAULT = 16384
HUGE = (1 << 31) - 1     # stands for sizes that do not fit into 32 bits
META = ['recon', 'ls', 'recover', 'dump-index', 'mount']
BAD = {'identify': [['--min-blocks', '-5'], ['--sample-fraction', 'x'], ['--append'], ['--max-blocks', ''], ['--min-occurrence', '1.5']],
       'recon': [['--id', 'zz'], ['--id', ''], ['--id', '11111111-1111-1111-1111-11111111111'], ['--id', '11' * 17], ['--append=x'],
                 ['--id', 'g' * 32], ['--recursive']],
       'ls': [['--recursive=x'], ['--clobber'], ['--id', uuid_text(FSID)]], 'recover': [['--clobber=maybe'], ['--append'], ['--inode']],
       'dump-index': [['--recursive']], 'mount': [['--clobber']]}
BADANY = [['--nosuch'], ['-Z'], ['--block-size', 'x'], ['--block-size', '-1'], ['--block-size', ''], ['--block-size', '1e3'],
          ['--block-size', '99999999999999999999999'], ['--block-size=4096k'], ['--progress=perhaps'], ['--meta-data', 'x']]


def tree(p):
    """Everything below a path"""
    out = []
    for r, ds, fs in os.walk(os.fsencode(p)):
        for n in ds + fs:
            q = os.path.join(r, n)
            st = os.lstat(q)
            out.append((os.path.relpath(q, os.fsencode(p)), st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino))
    return sorted(out)


def check_C24(ctx):
    ctx.model('MCCommands')
    negative_controls(ctx, ['cmd_openfirst', 'cmd_destfirst', 'cmd_envwins', 'cmd_nosize', 'cmd_creates'])
    rng = ctx.rng
    os.chmod(ctx.tmp, 0o755)
    exe = ctx.cli()
    d = ctx.dir('commands')
    helper = os.path.join(d, 'bin')
    os.mkdir(helper)
    for n in ('fusermount', 'fusermount3'):
        with open(os.path.join(helper, n), 'w') as fh:
            fh.write('#!/bin/sh\necho called > "$1.mark"\nexit 1\n')
        os.chmod(os.path.join(helper, n), 0o755)
    user = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    load, kinds = [], 6
    for k in range(kinds):
        fs = VFS(rng, alias=.2, bad=0).build()
        load.append({'dir': os.path.join(d, 'src%d' % k), 'ops': [fs.m.load_op(os.path.join(d, 'src%d' % k, 'm'), rng=rng)]})
    for r in ctx.run_driver('index', load):
        if r[0]['r'] != 'ok':
            raise CheckError('load: %s' % r)
    zeros = os.path.join(d, 'zeros')
    with open(zeros, 'wb') as fh:
        fh.truncate(80 * MIB)
    src, shown = [], []
    subprocess.check_call(['chmod', '-R', 'a+rX', d])
    for k in range(kinds):                      # what the commands print of each index
        m = os.path.join(d, 'src%d' % k, 'm')
        src.append(m)
        base = os.path.join(d, 'src%d' % k)
        os.chown(base, NOBODY, NOBODY)
        out = {}
        for w, *more in (('ls',), ('dump-index',), ('recover', zeros, base + '/dest')):
            r, o, e = ctx.run_cli(['--metadata', m, w, *more], timeout=60, **user)
            out[w] = (r, [x[:2] for x in tree(base + '/dest')] if w == 'recover' else o)
        shown.append(out)

    def work(n):
        r = random.Random(seeds[n])
        sd = os.path.join(d, str(n))
        os.mkdir(sd)
        P = {'flag': os.path.join(sd, 'a.ix'), 'env': os.path.join(sd, 'b.ix')}
        image, dest, mnt, mark = (os.path.join(sd, x) for x in ('img', 'dest', 'mnt', 'mnt.mark'))
        os.mkdir(mnt)
        cmd = r.choice(['identify', 'identify', 'recon', 'recon', 'recon', 'recon', 'ls', 'recover', 'recover', 'dump-index', 'mount',
                        'completion', 'help', 'version', 'bare', 'unknown'])
        c = {'cmd': cmd, 'help': False, 'badflag': False, 'args': {'identify': 1, 'recon': 1, 'recover': 2}.get(cmd, 0),
             'flag': 'no', 'env': 'no', 'id': 'ok', 'same': True, 'image': 'ok', 'size': 80 * MIB, 'bs': 4096, 'dest': 'absent'}
        if cmd == 'mount':
            c['args'] = r.choice([1, 2])
        good = ['index', 'absent', 'empty'] if cmd == 'recon' else ['index']
        anyk = ['index', 'absent', 'empty', 'junk', 'dir', 'lost']
        which = r.choice(['flag', 'flag', 'env', 'both'])
        if which != 'env':
            c['flag'] = r.choice(good)
        if which == 'env':
            c['env'] = r.choice(good)
        elif which == 'both':
            c['env'] = r.choice(anyk + ['index'])
        used = 'env' if which == 'env' else 'flag'
        if cmd in ('recon', 'identify'):
            c['bs'] = r.choice([4096, 4096, 4096, 512, 1024, 8192, 16384, 16384, 65536, 126, 5000, 131072])
            c['size'] = r.choice([80 * MIB, 80 * MIB + 1, (64 * MIB) + 101 * c['bs'], (64 << 20) + 100 * c['bs'] + r.randint(-1, 1)])
        c['dest'] = r.choice(['absent', 'dir', 'link'])
        # What is wrong with it
        wrong = []
        for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3])):
            ways = ['badflag', 'args', 'help']
            if cmd in META:
                ways += ['nometa', 'blank', 'kind', 'kind']
            if cmd == 'recon':
                ways += ['id', 'other', 'meta']
            if cmd in ('recon', 'identify'):
                ways += ['bs', 'bs', 'size', 'image', 'bs0', 'huge']
            if cmd == 'recover':
                ways += ['image', 'dest', 'dest']
            if cmd == 'mount':
                ways += ['image']
            w = r.choice(ways)
            wrong.append(w)
            if w == 'badflag':
                c['badflag'] = cmd not in ('help', 'version', 'bare', 'unknown', 'completion')
            elif w == 'help':
                c['help'] = cmd not in ('help', 'version', 'unknown')
            elif w == 'args':
                if cmd not in ('bare', 'unknown', 'version', 'help', 'ls', 'completion'):
                    c['args'] = r.choice([0, 1, 2, 3])
            elif w == 'nometa':
                c['flag'] = c['env'] = 'no'
            elif w == 'blank':
                c[r.choice(['flag', 'env'])] = 'blank'
            elif w == 'kind':
                c[used] = r.choice(anyk)
            elif w == 'id':
                c['id'] = r.choice(['zero', 'no'])
            elif w == 'other':
                c['same'] = False
            elif w == 'meta':
                c['image'] = 'meta'
            elif w == 'bs':
                c['bs'] = r.choice([0, 1, 2, 31, 64, 100, 101, 102, 113, 117, 124, 125, 80 * MIB + 2, 100 * MIB, 1 << 30])
            elif w == 'bs0':
                c['bs'] = 0
            elif w == 'huge':
                c['bs'] = HUGE
            elif w == 'size':
                c['size'] = r.choice([0, 1, 4096, 65536, 65536 + 4096, MIB, 64 * MIB - 1])
            elif w == 'image':
                c['image'] = r.choice(['absent', 'absent', 'dir'])
            elif w == 'dest':
                c['dest'] = r.choice(['file', 'below'])
        if c['help']:
            c['badflag'] = False
        otherid = r.random() < .5
        if not c['same'] and not otherid and c['bs'] == 4096:
            c['bs'] = 8192
        if c['bs'] != 4096:
            c['same'] = False
        bs = r.choice([(1 << 32) + 4096, (1 << 32) + 16384, 1 << 32, (1 << 63) + 4096, (1 << 64) - 1, (1 << 64) // 100]) if c['bs'] == HUGE else c['bs']
        # Files
        chosen = dict(zip(('flag', 'env'), r.sample(range(kinds), 2)))
        for w in ('flag', 'env'):
            k = c[w]
            if k == 'index':
                shutil.copyfile(src[chosen[w]], P[w])
            elif k == 'empty':
                open(P[w], 'wb').close()
            elif k == 'junk':
                with open(P[w], 'wb') as fh:
                    fh.write(r.randbytes(r.choice([1, 100, 5000, 40000])))
            elif k == 'dir':
                os.mkdir(P[w])
            elif k == 'lost':
                P[w] = os.path.join(sd, 'lost-' + w, 'x.ix')
        if c['image'] == 'ok':
            with open(image, 'wb') as fh:
                fh.truncate(c['size'])
        elif c['image'] == 'dir':
            os.mkdir(image)
        elif c['image'] == 'meta':
            image = P['flag' if c['flag'] != 'no' else 'env']
        if c['dest'] == 'dir':
            os.mkdir(dest)
        elif c['dest'] == 'link':
            os.mkdir(os.path.join(sd, 'real'))
            os.symlink('real', dest)
        elif c['dest'] == 'file':
            open(dest, 'wb').close()
        elif c['dest'] == 'below':
            open(dest, 'wb').close()
            dest = os.path.join(dest, 'sub')
        # The command line
        before, after = [], []

        def opt(name, value, anywhere=True):
            l = [name + '=' + value] if r.random() < .5 else [name, value]
            (before if anywhere and r.random() < .4 else after).append(l)
        if cmd in ('version', 'bare', 'help', 'unknown'):
            c['flag'] = 'no'
        elif c['bs'] != DEFAULT or r.random() < .4:
            opt('--block-size', str(bs))
        elif r.random() < .3:
            before.append(['--block-size', r.choice(['1', '0', '8192'])])
            after.append(['--block-size', str(bs)])
        if c['flag'] != 'no':
            if r.random() < .15:                # the last one counts
                before.append(['--metadata', os.path.join(sd, 'decoy.ix')])
                after.append(['--metadata', '' if c['flag'] == 'blank' else P['flag']])
            else:
                opt('--metadata', '' if c['flag'] == 'blank' else P['flag'])
        if cmd not in ('unknown', 'bare', 'version', 'help') and r.random() < .3:
            (before if r.random() < .4 else after).append(r.choice([['--progress=false'], ['-p'], ['--progress']]))
        if cmd in ('recon', 'identify', 'recover') and r.random() < .3:
            (before if r.random() < .4 else after).append([r.choice(['-v', '-m', '--verbose', '--machine=true', '-vm'])])
        if cmd == 'recon':
            if c['id'] != 'no':
                u = b'\0' * 16 if c['id'] == 'zero' else b'\x12' * 16 if not c['same'] and otherid else FSID
                t = uuid_text(u)
                opt('--id', r.choice([t, t.upper(), t.replace('-', '')]), False)
            if r.random() < .3:
                after.append(['--append'])
        if cmd == 'identify' and r.random() < .4:
            opt(*r.choice([('--min-blocks', '0'), ('--max-blocks', '0'), ('--min-blocks', '5000'), ('--sample-fraction', '1'),
                           ('--sample-fraction', '0'), ('--min-occurrence', '0'), ('--max-blocks', '1')]), False)
        if c['badflag']:
            after.append(r.choice(BAD[cmd] if r.random() < .6 else BADANY))
        if c['help']:
            after.append([r.choice(['--help', '-h'])])
        r.shuffle(before)
        # Options that are given twice keep their order, as the second one is behind the command
        r.shuffle(after)
        args = {'identify': [image], 'recon': [image], 'recover': [image, dest], 'mount': [image, mnt]}.get(cmd, [])
        if cmd == 'mount' and c['args'] == 1:
            args = [mnt]
        args = (args + [os.path.join(sd, 'more%d' % i) for i in range(3)])[:c['args']]
        if cmd == 'ls' and r.random() < .3:
            args = ['/']
        if cmd == 'help' and r.random() < .7:
            args = [r.choice(['ls', 'recon', 'recover', 'mount', 'identify'])]
            c['args'] = 1 if r.random() < 0 else 0
        av = [x for l in before for x in l]
        av += {'bare': [], 'version': ['--version'], 'unknown': [r.choice(['nosuch', 'recno', 'lss', 'Recon'])]}.get(cmd, [cmd])
        opts = [x for l in after for x in l]
        if args and r.random() < .2 and not c['help']:
            av += opts + ['--'] + args
        elif r.random() < .5:
            av += opts + args
        else:
            av += args + opts
        env = {'PATH': helper + ':/usr/bin:/bin'}
        if c['env'] != 'no':
            env['BTRFSCUE_METADATA'] = '' if c['env'] == 'blank' else P['env']
        subprocess.check_call(['chown', '-hR', '%d:%d' % (NOBODY, NOBODY), '--', sd])

        def look():
            s = {'flag': state(P['flag']), 'env': state(P['env']), 'image': state(image),
                 'dest': (os.path.lexists(os.path.join(sd, 'dest')), tree(os.path.join(sd, 'dest')), tree(os.path.join(sd, 'real')),
                          state(os.path.join(sd, 'dest')) if c['dest'] in ('file', 'below') else 0),
                 'mount': (os.path.exists(mark), os.listdir(mnt)),
                 'other': sorted(x for x in os.listdir(sd) if x not in ('a.ix', 'b.ix', 'img', 'dest', 'mnt.mark', 'real', 'mnt'))}
            if c['image'] == 'meta':
                del s['image']
            return s
        old = look()
        res, out, err = ctx.run_cli(av, timeout=60, cwd=sd, env=env, **user)
        new = look()
        ctx.count('runs_' + cmd)
        reads = []
        for w in ('flag', 'env'):
            if c[w] == 'index' and cmd in ('ls', 'dump-index', 'recover') and \
               shown[chosen[w]][cmd] == (res, [x[:2] for x in tree(os.path.join(sd, 'dest'))] if cmd == 'recover' else out):
                reads.append(w)
        obs = {'r': res, 'said': re.search(rb'[A-Za-z]{3}', err) is not None, 'printed': len(out) > 0,
               'changed': [k for k in old if old[k] != new[k]], 'read': reads}
        op = {'c': c, 'argv': av, 'env': env.get('BTRFSCUE_METADATA', '-'), 'wrong': wrong, 'obs': obs}
        if res != 'ok':
            op['err'] = err.decode(errors='replace')[-700:]
        shutil.rmtree(sd)
        return {'ops': [op]}
    seeds = [rng.randrange(1 << 60) for _ in range(ctx.pick(4000, 20000))]
    res = ctx.parallel(work, range(len(seeds)))
    for k in range(3):
        ctx.sample(res[k])
    ctx.trace('TraceCommands', {}, res)
