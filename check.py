#!/usr/bin/env python3
"""Decides one property of /repo against the TLA+ specifications in spec/.

    check.py ID quick|thorough        run the check of property ID
    check.py ID --replay FILE         replay one saved counterexample

Exit 0: the property held on everything explored.  Exit 1, with a line
"VIOLATION property=ID replay=PATH": it is broken.  Anything else: error.
"""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, VERIF)
from plan import PLAN, LEVELS  # noqa: E402


class Broken(Exception):
    """The machinery failed; no verdict."""


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        vectors_replayed=0, comparisons=0, recorded_traces_checked=0, models=[])
        self.violations = []   # (message, replay path)
        self.known = []
        self.drv = None
        self.env = self.go_env()
        self.env['VERIF_SEED'] = str(self.seed)
        self.env['TMPDIR'] = self.work
        self.env['DRV_WORK'] = self.work
        self.env['DRV_TIER'] = tier
        self.env['DRV_SPEC'] = SPEC
        self.env['VERIF_DIR'] = VERIF
        self.env['DRV_REPO'] = REPO

    # -- environment -------------------------------------------------------
    def go_env(self):
        env = dict(os.environ)
        if os.path.exists('/opt/vp/env.sh'):
            out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'],
                                 capture_output=True).stdout
            for kv in out.decode('utf-8', 'replace').split('\0'):
                if '=' in kv:
                    k, v = kv.split('=', 1)
                    env[k] = v
        return env

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # -- building the driver against the working tree of /repo -----------------
    def build(self, groups, race=False):
        files = []
        for g in ['main.go'] + groups:
            files.append(os.path.join(VERIF, 'harness', g))
        overlay = {'Replace': {os.path.join(REPO, 'verifdrv', os.path.basename(f)): f for f in files}}
        # some drivers need the standard commands of the repository as well
        ov = os.path.join(self.work, 'overlay.json')
        with open(ov, 'w') as f:
            json.dump(overlay, f)
        self.drv = os.path.join(self.work, 'drv')
        def build(*args):
            return subprocess.run(['go', 'build', *args, '-mod=readonly', '-overlay', ov, '-o', self.drv, './verifdrv'],
                                  cwd=REPO, env=self.env, capture_output=True, text=True)
        if race:
            # with the race detector, where there is one
            plain, self.drv = self.drv, self.drv + '-race'
            if build('-race').returncode == 0 and subprocess.run([self.drv], env=self.env, capture_output=True).returncode == 3:
                return self.log('driver built with the race detector')
            self.drv = plain
        r = build()
        if r.returncode != 0:
            raise Broken('building the driver failed:\n' + r.stdout + r.stderr)
        self.log('driver built')

    # -- TLC ---------------------------------------------------------------------
    def tlc(self, module, cfg, out=None, subst=None, sim=None, workers=8, env=None, timeout=800, tag='', seed=None):
        text = open(os.path.join(SPEC, cfg)).read()
        for k, v in (subst or {}).items():
            text, n = re.subn(r'(?m)^(\s*%s\s*(?:=|<-)\s*).*$' % re.escape(k), lambda m: m.group(1) + v, text)
            if n != 1:
                raise Broken('cfg %s has no constant %s' % (cfg, k))
        cfgp = os.path.join(self.work, '%s%s.cfg' % (cfg[:-4], tag))
        with open(cfgp, 'w') as f:
            f.write(text)
        meta = os.path.join(self.work, 'meta-%s%s' % (cfg[:-4], tag))
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Djava.io.tmpdir=' + self.work, '-Xmx6g' if workers == 1 else '-Xmx16g', '-cp', JAVA_CP, 'tlc2.TLC',
               '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE', '-config', cfgp]
        if sim:
            cmd += ['-simulate', 'num=%d' % sim['num'], '-depth', str(sim['depth']),
                    '-seed', str(self.seed if seed is None else seed)]
        cmd.append(module + '.tla')
        e = dict(self.env)
        e.update(env or {})
        if out:
            e['OUT'] = out
        e.pop('JAVA_TOOL_OPTIONS', None)
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def count(self, out, name):
        st = tr = 0
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if m:
            tr, st = (int(x.replace(',', '')) for x in m[-1])
        m = re.search(r'The number of states generated: (\d+)', out)
        if m:
            st = tr = int(m.group(1))
        self.cov['states'] += st
        self.cov['transitions'] += tr
        return st, tr

    def generate(self, stage):
        """Model-check a configuration; returns the file of emitted vectors."""
        name = stage['cfg'][:-4]
        sim = stage.get('sim')
        jobs = []
        if sim:
            procs = stage.get('procs', 4)
            for k in range(procs):
                jobs.append(dict(sim=sim, workers=1, tag='-%d' % k, seed=self.seed * 1000 + k))
        else:
            jobs.append(dict(workers=stage.get('workers', 8)))
        outs = []

        def one(j):
            out = os.path.join(self.work, '%s%s.ndjson' % (name, j.get('tag', '')))
            code, text = self.tlc(stage['module'], stage['cfg'], out=out, subst=stage.get('subst'),
                                  env=stage.get('env'), timeout=stage.get('timeout', 800), **j)
            return out, code, text
        with ThreadPoolExecutor(len(jobs)) as ex:
            results = list(ex.map(one, jobs))
        total = 0
        for out, code, text in results:
            if code != 0:
                raise Broken('TLC rejects the specification %s itself:\n%s' % (name, text[-4000:]))
            st, tr = self.count(text, name)
            total += st
            if not os.path.exists(out) and stage.get('emits', True):
                raise Broken('%s emitted nothing:\n%s' % (name, text[-2000:]))
            outs.append(out)
        final = os.path.join(self.work, name + '.vectors')
        seen, n = set(), 0
        limit = stage.get('limit')
        with open(final, 'wb') as f:
            for out in outs:
                if not os.path.exists(out):
                    continue
                with open(out, 'rb') as g:
                    for line in g:
                        h = hashlib.md5(line).digest()
                        if h in seen:
                            continue
                        seen.add(h)
                        if limit and int.from_bytes(hashlib.md5(b'%d' % self.seed + line).digest()[:4], 'big') % 1000 >= limit:
                            continue
                        f.write(line)
                        n += 1
                os.unlink(out)
        self.cov['models'].append(dict(model=name, states=total, vectors=n, mode='simulate' if sim else 'exhaustive',
                                       **({'constants': stage['subst']} if stage.get('subst') else {})))
        self.log('%s: %d states, %d vectors' % (name, total, n))
        if n == 0 and stage.get('emits', True):
            raise Broken('%s emitted nothing' % name)
        return final, n

    # -- replaying against the implementation ----------------------------------------
    def drive(self, args, env=None, timeout=800):
        e = dict(self.env)
        e.update(env or {})
        return subprocess.run([self.drv] + args, cwd=self.work, env=e, capture_output=True, text=True,
                              errors='replace', timeout=timeout)

    def replay(self, vectors, n, env=None, timeout=800):
        busy = os.path.join(self.work, 'busy')
        env = dict(env or {})
        env['DRV_BUSY'] = busy
        skip, crashes = [], 0
        while True:
            env['DRV_SKIP'] = ','.join(map(str, skip))
            r = self.drive(['replay', self.prop, vectors], env, timeout)
            lines = [json.loads(x) for x in r.stdout.splitlines() if x.startswith('{')]
            summary = next((x for x in lines if 'cases' in x), None)
            if r.returncode in (0, 1) and summary is not None:
                break
            if r.returncode == 3:
                raise Broken('the driver gave up:\n' + r.stderr[-3000:])
            # The process died.  Which input was it?  Run the suspects alone.
            sus = []
            if os.path.exists(busy):
                b = open(busy, 'rb').read()
                sus = [x - 1 for x in struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]) if x]
            guilty = None
            for i in sorted(set(sus)):
                s = self.drive(['replay', self.prop, vectors], dict(env, DRV_ONLY=str(i), DRV_WORKERS='1'), timeout)
                if s.returncode not in (0, 1, 3):
                    guilty = i
                    head = '\n'.join(s.stderr.splitlines()[:6])
                    self.add_violation('the process dies on this input: ' + head, self.line(vectors, i), i)
                    break
            if guilty is None:
                raise Broken('the driver died (%s) and no input reproduces it:\n%s' % (r.returncode, r.stderr[-3000:]))
            crashes += 1
            skip.append(guilty)
            if crashes >= 3:
                return
        self.cov['vectors_replayed'] += summary['cases']
        self.cov['traces_validated_against_impl'] += summary['cases']
        self.cov['comparisons'] += summary['checks']
        for k, v in summary.get('notes', {}).items():
            d = self.cov.setdefault('seen', {})
            d[k] = d.get(k, 0) + v
        if n is not None and summary['cases'] + len(skip) < n and summary['failed'] == 0:
            raise Broken('only %d of %d vectors were replayed' % (summary['cases'], n))
        if summary['checks'] == 0:
            raise Broken('the replay compared nothing')
        self.log('replayed %d vectors, %d comparisons, %d failures' % (summary['cases'], summary['checks'], summary['failed']))
        for x in lines:
            if 'fail' in x:
                self.add_violation('; '.join(x['fail']), x['vector'], x['idx'])
        self.sample(vectors)

    def line(self, path, i):
        with open(path) as f:
            for k, l in enumerate(f):
                if k == i:
                    return l.rstrip('\n')
        return ''

    def sample(self, path, k=1):
        try:
            with open(path) as f:
                lines = [next(f) for _ in range(40)]
        except StopIteration:
            lines = open(path).read().splitlines()
        for l in lines[(self.seed * 7) % max(1, len(lines)):][:k]:
            try:
                v = json.loads(l)
                if isinstance(v, str):
                    v = json.loads(v)
            except ValueError:
                continue
            s = json.dumps(v)
            self.cov['samples'].append(v if len(s) < 1500 else s[:1500] + '...')

    def add_violation(self, msg, vector, idx):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.md5((vector + msg).encode()).hexdigest()[:10]
        p = os.path.join(d, '%s-%s.json' % (self.prop, h))
        with open(p, 'w') as f:
            json.dump(dict(property=self.prop, seed=self.seed, idx=idx, message=msg, vector=vector), f, indent=1)
        self.violations.append((msg, p))

    # -- traces of the implementation, judged by TLC ------------------------------------
    def trace(self, stage):
        n = stage['n']
        rec = os.path.join(self.work, 'rec-%s.ndjson' % stage['cfg'][:-4])
        env = dict(stage.get('env') or {})
        if stage.get('source'):
            env['DRV_VECTORS'], _ = self.generate(stage['source'])
        r = self.drive(['record', self.prop, str(n), rec], env, stage.get('timeout', 800))
        if r.returncode != 0:
            if r.returncode == 1:
                for x in r.stdout.splitlines():
                    if x.startswith('{"fail"'):
                        v = json.loads(x)
                        self.add_violation('; '.join(v['fail']), v['vector'], v['idx'])
                if self.violations:
                    return
            raise Broken('recording failed (%d):\n%s' % (r.returncode, r.stderr[-3000:]))
        lines = open(rec).read().splitlines()
        if not lines:
            raise Broken('nothing recorded')
        procs = stage.get('procs', 4)
        size = (len(lines) + procs - 1) // procs
        if stage.get('whole'):
            procs, size = 1, len(lines)
        bad = []

        def judge(k):
            """Checks one chunk; a rejected line is noted and skipped."""
            chunk = lines[k * size:(k + 1) * size]
            base = k * size
            ok = 0
            st = 0
            while chunk:
                p = os.path.join(self.work, 'chunk-%d.ndjson' % k)
                with open(p, 'w') as f:
                    f.write('\n'.join(chunk) + '\n')
                code, text = self.tlc(stage['module'], stage['cfg'], workers=1, tag='-t%d' % k,
                                      env=dict(TRACE=p, PROP=self.prop), timeout=stage.get('timeout', 800))
                m = re.search(r'<<"REJECTED", (\d+)>>', text)
                g = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', text)
                if g:
                    st += int(g[-1][1].replace(',', ''))
                if m:
                    i = int(m.group(1)) - 1
                    ok += i
                    bad.append(base + i)
                    chunk = chunk[i + 1:]
                    base += i + 1
                    if len(bad) >= 5:
                        break
                    continue
                if code != 0 or 'No error has been found' not in text:
                    raise Broken('TLC failed on the recorded trace:\n' + text[-3000:])
                ok += len(chunk)
                break
            return ok, st
        with ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(judge, range(procs)))
        ok = sum(x[0] for x in res)
        self.cov['states'] += sum(x[1] for x in res)
        self.cov['transitions'] += sum(x[1] for x in res)
        self.cov['recorded_traces_checked'] += ok
        self.cov['traces_validated_against_impl'] += ok
        self.cov['models'].append(dict(model=stage['cfg'][:-4], mode='trace validation', lines=len(lines), accepted=ok))
        self.log('%s: %d of %d recorded behaviours accepted' % (stage['cfg'][:-4], ok, len(lines)))
        for i in bad:
            self.add_violation('the specification rejects this recorded behaviour', lines[i], i)
        with open(rec) as f:
            v = json.loads(f.readline())
            v.pop('trees', None)
            s = json.dumps(v)
            self.cov['samples'].append(v if len(s) < 1500 else s[:1500] + '...')

    # -- known findings -----------------------------------------------------------------
    def known_findings(self):
        path = os.path.join(VERIF, 'known-findings.txt')
        if not os.path.exists(path):
            return
        for l in open(path):
            m = re.match(r'known: property=(\S+) input=(\S+) (.*)', l.strip())
            if not m or m.group(1) != self.prop:
                continue
            p = os.path.join(VERIF, m.group(2))
            n = sum(1 for x in open(p) if x.strip())
            r = self.drive(['replay', self.prop, p], dict(DRV_KNOWN='1', DRV_HANG='20'))
            if r.returncode == 0:
                self.log('known finding no longer reproduces:', l.strip())
            elif r.returncode == 3:
                raise Broken(r.stderr[-2000:])
            else:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, m.group(3)), flush=True)
                self.known.append(m.group(3))

    # -- the end --------------------------------------------------------------------------
    def evidence(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=LEVELS.get(self.prop, 'model_checking'),
                  coverage=self.cov, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        if self.known:
            ev['coverage']['known_findings'] = self.known
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def main(self):
        plan = PLAN[self.prop]
        self.build(plan['harness'], plan.get('race', False))
        self.known_findings()
        for stage in plan[self.tier]:
            if stage['kind'] == 'model':
                v, n = self.generate(stage)
                if stage.get('emits', True):
                    self.replay(v, n, stage.get('drvenv'), stage.get('timeout', 800))
                if os.path.exists(v):
                    os.unlink(v)
            elif stage['kind'] == 'trace':
                self.trace(stage)
            else:
                raise Broken('unknown stage')
            if len(self.violations) >= 3:
                break
        self.evidence()
        if self.violations:
            for msg, p in self.violations[:5]:
                self.log(msg[:1500])
                print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)
            return 1
        self.log('held: %d states, %d traces validated' % (self.cov['states'], self.cov['traces_validated_against_impl']))
        return 0


def replay_one(prop, path):
    v = json.load(open(path))
    os.environ['VERIF_SEED'] = str(v['seed'])
    run = Run(prop, 'quick')
    try:
        run.build(PLAN[prop]['harness'], PLAN[prop].get('race', False))
        f = os.path.join(run.work, 'one.ndjson')
        with open(f, 'w') as g:
            g.write(v['vector'] + '\n')
        print(v['message'])
        r = run.drive(['replay', prop, f], dict(DRV_IDX=str(v['idx'])))
        print(r.stdout, r.stderr)
        return r.returncode
    finally:
        shutil.rmtree(run.work, ignore_errors=True)


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return replay_one(prop, sys.argv[3])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    run = Run(prop, tier)
    try:
        return run.main()
    except Broken as e:
        print('ERROR: %s' % e, flush=True)
        return 2
    except subprocess.TimeoutExpired as e:
        print('ERROR: timeout: %s' % e, flush=True)
        return 2
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', run.work)
        else:
            subprocess.run(['chmod', '-R', 'u+w', run.work])
            shutil.rmtree(run.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
