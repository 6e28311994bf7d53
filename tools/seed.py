#!/usr/bin/env python3
"""Adds and tries planted bugs.
  seed.py add ID PROPERTY SPEC     SPEC: a Python file with needs, breaks, edits, demo[, race]
  seed.py confirm ID...            build, tests and demo in a scratch copy
  seed.py detect [-p PROP,..] [-t] ID...  which checks report it
"""
import json, os, shutil, subprocess, sys, tempfile, re
V = '/verif'
SE = V + '/seeded'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    sh('cp', '-a', '/repo', d + '/repo')
    sh('git', '-C', d + '/repo', 'checkout', '-q', '--', '.')
    return d


def add(id, prop, spec):
    g = {}
    exec(open(spec).read(), g)
    d = copy()
    r = d + '/repo'
    for path, old, new in g['edits']:
        s = open(r + '/' + path).read()
        if s.count(old) != 1:
            print(id, 'edit of', path, 'matches', s.count(old), 'times:', old)
            return
        open(r + '/' + path, 'w').write(s.replace(old, new))
    sh('gofmt', '-l', r)
    diff = sh('git', '-C', r, 'diff').stdout
    # Which original lines does it touch?
    t = SE + '/' + id
    os.makedirs(t, exist_ok=True)
    open(t + '/patch.diff', 'w').write(diff)
    open(t + '/demo.go', 'w').write('package main\n\n' + g['demo'].lstrip())
    shutil.copy(V + '/tools/demolib.go', t + '/lib.go')
    open(t + '/demo.sh', 'w').write(open(V + '/tools/demo.sh').read().replace('@RACE@', '-race' if g.get('race') else ''))
    os.chmod(t + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(t + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)
    confirm(id)


def original(id):
    """Does the patch change lines of the original repository?"""
    base = sh('git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD').stdout.split()[0]
    path, line, n, own = None, 0, 0, 0
    for l in open(SE + '/' + id + '/patch.diff'):
        if l.startswith('--- a/'):
            path = l[6:].strip()
        elif l.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = sh('git', '-C', '/repo', 'blame', '-p', '-L%d,%d' % (line, line), '--', path).stdout
            n += b.startswith(base)
            own += not b.startswith(base)
            line += 1
        elif l.startswith(' '):
            line += 1
    return n, own


def confirm(id):
    d = copy()
    ok = True
    r = sh('unshare', '-Urm', 'sh', '-c', '''
      mount --bind %s/repo /repo || exit 9
      cd /repo
      bash /opt/vp/build.sh >/dev/null && bash %s/%s/demo.sh && echo CLEAN-OK
      git apply %s/%s/patch.diff && bash /opt/vp/build.sh && echo BUILD-OK
      bash /opt/vp/test.sh %s/out.json
      cat %s/out.json
      echo
      bash %s/%s/demo.sh && echo DEMO-PASSES-WITH-PATCH
    ''' % (d, SE, id, SE, id, d, d, SE, id))
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = r.stdout
    try:
        res = json.load(open(d + '/out.json'))
    except Exception as e:
        res = {}
    fails = [t for t in base['stable'] if t not in (res.get('passed') or [])]
    n, own = original(id)
    good = 'CLEAN-OK' in out and 'BUILD-OK' in out and 'DEMO-PASSES' not in out and not fails and n
    print(id, 'CONFIRMED' if good else 'NOT CONFIRMED', 'original lines', n, 'own', own, 'failed tests', fails)
    if not good or os.environ.get('V'):
        print(out[-3000:])
    else:
        print('   ', [l for l in out.splitlines() if 'FAILED' in l or 'panic' in l or 'DATA RACE' in l][:2])
    shutil.rmtree(d)


def detect(ids, props, tier, seed=os.environ.get('VERIF_SEED', '1')):
    for id in ids:
        meta = json.load(open(SE + '/' + id + '/meta.json'))
        d = copy()
        a = sh('git', '-C', d + '/repo', 'apply', SE + '/' + id + '/patch.diff')
        if a.returncode:
            print(id, a.stdout)
            continue
        for p in props or [meta['property']]:
            r = sh(sys.executable, V + '/check.py', p, env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_TIER=tier, VERIF_SEED=seed))
            last = [l for l in r.stdout.splitlines() if l.startswith(('violation', 'ERROR'))]
            print(id, p, {0: 'MISSED', 1: 'caught', 2: 'ERROR'}.get(r.returncode, r.returncode), last[:1],
                  r.stdout.splitlines()[-1][:80], flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[2:]
    if sys.argv[1] == 'add':
        add(*a)
    elif sys.argv[1] == 'confirm':
        for i in a or sorted(os.listdir(SE)):
            confirm(i)
    else:
        props, tier, ids = None, 'quick', []
        while a:
            x = a.pop(0)
            if x == '-p':
                props = a.pop(0).split(',')
            elif x == '-t':
                tier = 'thorough'
            else:
                ids.append(x)
        detect(ids or sorted(os.listdir(SE)), props, tier)
