"""Shared machinery of the checks: building the code under test, running the
driver, running TLC, reporting."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')   # set only while trying planted bugs
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not be carried out."""


class Violation(Exception):
    def __init__(self, what, detail):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false',
               GOPATH='/root/go', GOCACHE='/root/.cache/go-build', HOME='/root',
               GONOSUMDB='*', GONOSUMCHECK='1', GOFLAGS_EXTRA='')
    env['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    return env


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cover = {}
        self.models = []
        self.assumptions = []
        self._bin = {}
        self.hangs = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def dir(self, name):
        d = os.path.join(self.tmp, name)
        os.makedirs(d, exist_ok=True)
        return d

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def cleanup(self):
        subprocess.call(['chmod', '-R', 'u+rwX', self.tmp], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- building ----------------------------------------------------------
    def cli(self, race=False):
        k = 'clirace' if race else 'cli'
        if k not in self._bin:
            out = os.path.join(self.tmp, 'btrfscue' + ('-race' if race else ''))
            self._build(['go', 'build'] + (['-race', '-gcflags=all=-d=checkptr=0'] if race else []) + ['-o', out, './cmd/btrfscue'])
            self._bin[k] = out
        return self._bin[k]

    def yielding(self, race=False):
        """The command line tool, losing the processor more often. Only a way to see more interleavings: if the sources
        cannot be rewritten, the tool as it is has to do."""
        k = 'yield%d' % race
        if k not in self._bin:
            d = self.dir('yield-src')
            out, ov = os.path.join(self.tmp, 'btrfscue-' + k), os.path.join(d, 'overlay.json')
            try:
                r = subprocess.run(['go', 'run', os.path.join(VERIF, 'tools', 'yield', 'main.go'), d, '24',
                                    REPO + '/internal/rescuefs', REPO + '/pkg/btrfs/index'], cwd=REPO, env=go_env(),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
                if r.returncode:
                    raise CheckError(r.stderr.decode(errors='replace'))
                with open(ov, 'wb') as fh:
                    fh.write(r.stdout)
                self._build(['go', 'build', '-overlay', ov] + (['-race', '-gcflags=all=-d=checkptr=0'] if race else [])
                            + ['-o', out, './cmd/btrfscue'])
                self._bin[k] = out
            except (CheckError, subprocess.TimeoutExpired) as e:
                self.log('no yielding build:', str(e)[:500])
                self.assumptions.append('no yielding build')
                self._bin[k] = self.cli(race)
        return self._bin[k]

    def driver(self, race=False):
        k = 'race' if race else 'driver'
        if k not in self._bin:
            out = os.path.join(self.tmp, k)
            ov = os.path.join(self.tmp, 'overlay.json')
            rep = {REPO + '/internal/verifharness/' + f: os.path.join(HARNESS, f)
                   for f in sorted(os.listdir(HARNESS)) if f.endswith('.go')}
            with open(ov, 'w') as fh:
                json.dump({'Replace': rep}, fh)
            cmd = ['go', 'build', '-overlay', ov]
            if race:
                cmd += ['-race', '-gcflags=all=-d=checkptr=0']
            self._build(cmd + ['-o', out, './internal/verifharness'])
            self._bin[k] = out
        return self._bin[k]

    def _build(self, cmd):
        r = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0:
            raise CheckError('build failed: %s\n%s' % (' '.join(cmd),
                                                       r.stdout.decode(errors='replace')))

    # -- command line ------------------------------------------------------
    def run_cli(self, args, timeout=120, cwd=None, env=None, prefix=(), exe=None, **kw):
        """Runs the command line tool; returns (class of exit, stdout, stderr)."""
        e = dict(os.environ)
        e.pop('BTRFSCUE_METADATA', None)
        e.update(TZ='UTC', **(env or {}))
        p = subprocess.Popen([*prefix, exe or self.cli(), *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.DEVNULL, cwd=cwd or self.tmp, env=e, start_new_session=True, **kw)
        # Once something hangs, everything else does not need to wait as long
        if self.hangs:
            timeout = min(timeout, 4 if self.hangs > 8 else 10)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.hangs += 1
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
            return 'hang', out, err
        r = {0: 'ok', 1: 'err'}.get(p.returncode, 'killed' if p.returncode in (-9, 137) else 'crash')
        return r, out, err

    def parallel(self, fn, items, n=CORES):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n) as ex:
            return list(ex.map(fn, items))

    # -- driver ------------------------------------------------------------
    def run_driver(self, mode, scenarios, race=False, shards=None, timeout=300, env=None):
        """Runs scenarios ({'dir','ops'}) and returns a list of observation lists.
        A scenario during which the process died ends with {'r': 'died'}."""
        exe = self.driver(race)
        for i, s in enumerate(scenarios):
            s['id'] = i
            os.makedirs(s['dir'], exist_ok=True)
        results = [None] * len(scenarios)
        shards = shards or min(CORES, max(1, len(scenarios) // 4))
        parts = [list(range(k, len(scenarios), shards)) for k in range(shards)]
        from concurrent.futures import ThreadPoolExecutor
        stderrs = []

        def work(part):
            todo = list(part)
            deadline = time.time() + timeout
            while todo:
                data = ''.join(json.dumps(scenarios[i]) + '\n' for i in todo)
                left = deadline - time.time()
                if left <= 0:
                    raise CheckError('driver timed out')
                try:
                    r = subprocess.run([exe, mode], input=data.encode(), stdout=subprocess.PIPE,
                                       stderr=subprocess.PIPE, timeout=left,
                                       env=env or os.environ, cwd=self.tmp)
                    out, err, rc = r.stdout, r.stderr, r.returncode
                except subprocess.TimeoutExpired as e:
                    raise CheckError('driver timed out')
                done = 0
                for line in out.decode().splitlines():
                    try:
                        d = json.loads(line)
                    except ValueError:
                        break
                    results[d['id']] = d['obs']
                    done += 1
                stderrs.append(err)
                if rc == 3:
                    raise CheckError('driver: ' + err.decode(errors='replace')[-2000:])
                if done < len(todo):
                    # The process died while executing this scenario
                    results[todo[done]] = [{'r': 'died', 'msg': err.decode(errors='replace')[-3000:]}]
                    done += 1
                todo = todo[done:]

        with ThreadPoolExecutor(shards) as ex:
            for f in [ex.submit(work, p) for p in parts if p]:
                f.result()
        self.driver_stderr = b''.join(stderrs)
        return results

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, timeout=800, workers=CORES, mem='6g', extra=()):
        """Runs TLC; returns (ok, stats, output)."""
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-config', cfg or module + '.cfg', *extra, module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout.decode(errors='replace')
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
        gen, dist, left = (int(x) for x in m.groups()) if m else (0, 0, -1)
        completed = 'Model checking completed. No error has been found.' in out
        violated = re.search(r'(Invariant|Action property|Temporal properties|Property) ?(\S*).*(is violated|were violated)', out)
        if not completed and not violated:
            raise CheckError('TLC failed on %s:\n%s' % (module, out[-6000:]))
        return completed, {'generated': gen, 'distinct': dist, 'left': left}, out

    def model(self, module, cfg=None, env=None, expect_violation=False, timeout=800, note=None):
        """Exhaustively checks a configuration of the specification itself."""
        t = time.time()
        ok, s, out = self.tlc(module, cfg, env, timeout=timeout)
        if ok == expect_violation:
            raise CheckError('model %s/%s: unexpected result\n%s' % (module, cfg, out[-5000:]))
        self.models.append({'module': module, 'config': cfg or module + '.cfg',
                            'distinct': s['distinct'], 'generated': s['generated'],
                            'result': 'violation, as it has to be' if expect_violation else 'holds',
                            'wall_s': round(time.time() - t, 1)})
        if not expect_violation:
            self.states += s['distinct']
            self.transitions += s['generated']
        self.log('model', module, cfg or '', s, 'violated as expected' if expect_violation else '')

    def trace(self, module, header, scens, cfg=None, timeout=800, mem='6g', steps=None):
        """Validates scenarios (dicts with 'ops') against a trace specification.
        Raises Violation for the first step that the specification does not allow."""
        if not scens:
            raise CheckError('no scenarios')
        path = os.path.join(self.tmp, 'trace-%s-%d.ndjson' % (module, len(self.models)))
        with open(path, 'w') as fh:
            fh.write(json.dumps(header) + '\n')
            for s in scens:
                fh.write(json.dumps(s) + '\n')
        ok, st, out = self.tlc(module, cfg, {'TRACE': path}, timeout=timeout, mem=mem)
        mism = [json.loads(x) for x in re.findall(r'^"MISMATCH (.*)"$', out, re.M)
                for x in [x.replace('\\"', '"').replace('\\\\', '\\')]]
        if not ok or mism:
            if not mism:
                raise CheckError('trace module %s failed without a mismatch:\n%s' % (module, out[-5000:]))
            mm = min(mism, key=lambda d: (d['step'], d['scenario']))
            sc = scens[mm['scenario'] - 1]
            raise Violation('step %d of scenario %d of %s is not allowed' % (mm['step'], mm['scenario'], module),
                            {'module': module, 'mismatch': mm, 'header': header, 'scenario': sc,
                             'step': sc['ops'][mm['step'] - 1] if 'ops' in sc and mm['step'] <= len(sc['ops']) else None})
        want = steps if steps is not None else sum(len(s['ops']) + 1 for s in scens)
        if st['distinct'] < want:
            raise CheckError('trace module %s: %d states, fewer than %d' % (module, st['distinct'], want))
        self.states += st['distinct']
        self.transitions += st['generated']
        self.traces += len(scens)
        self.log('trace', module, '%d scenarios' % len(scens), st)
        os.unlink(path)

    # -- reporting ---------------------------------------------------------
    def sample(self, s):
        if len(self.samples) < 3:
            t = json.dumps(s)
            self.samples.append(s if len(t) < 6000 else t[:6000] + '...')

    def evidence(self, violations=0):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples,
               'models': self.models}
        cov.update(self.cover)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions, 'violations': violations,
              'wall_s': round(time.time() - self.t0, 2)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
            fh.write('\n')

    def replay(self, v):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%d.json' % (self.prop, self.tier, self.seed))
        with open(p, 'w') as fh:
            json.dump({'property': self.prop, 'what': v.what, 'detail': v.detail}, fh, indent=1)
        return p


class Palette:
    """Maps 64 bit values to ranks that keep their order and equality."""

    def __init__(self, values):
        self.values = sorted(set(values))
        self.rank = {v: i + 1 for i, v in enumerate(self.values)}

    def __call__(self, v):
        return self.rank.get(v, -1)


U64 = (1 << 64) - 1
