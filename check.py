"""The check of one property.   python3-vt check.py P01        (VERIF_SEED, VERIF_TIER)

Generates the contract obligations of the property from the current source of /repo and discharges them; runs the
run-time contracts of the property on the real code (replay of counterexamples, bounded stand-in).
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
ROOT = os.environ.get('VERIF_ROOT', '/repo')
SO = 'intvalpy/kernel/interval_arithmetics.cpython-312-x86_64-linux-gnu.so'
T0 = time.time()


def sha(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def sources(root):
    out = ['setup.py', 'pyproject.toml', 'intvalpy/_version.py']
    for d, _, fs in os.walk(os.path.join(root, 'intvalpy')):
        out += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith(('.pyx', '.pxd', '.pxi', '.h'))]
    return [p for p in out if os.path.exists(os.path.join(root, p))]


def fresh(root):
    """the extension beside the source was built from this source"""
    try:
        with open(os.path.join(root, 'build/ext.stamp')) as f:
            stamp = dict(reversed(l.split(None, 1)) for l in f.read().splitlines() if l.strip())
        return all(stamp.get(p) == sha(os.path.join(root, p)) for p in sources(root) + [SO])
    except (OSError, ValueError):
        return False


def build(root):
    """-> (directory to import the package from, scratch directory or None)"""
    if fresh(root):
        return root, None
    scratch = tempfile.mkdtemp(prefix='intvalpy-')
    for p in os.listdir(root):
        s = os.path.join(root, p)
        if p in ('.git', 'build', 'test', 'tests', 'docs', 'examples') or p.startswith('.'):
            continue
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(scratch, p), ignore=shutil.ignore_patterns('*.so', '*.cpp', '*.c', '__pycache__'))
        else:
            shutil.copy2(s, scratch)
    r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force', '--build-temp', 'build/tmp', '--build-lib', 'build/lib'],
                       cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    if r.returncode or not os.path.exists(os.path.join(scratch, SO)):
        print(r.stdout.decode(errors='replace')[-3000:])
        print('the package does not build')
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(2)
    return scratch, scratch


class Runtime:
    """the run-time contracts, in several processes"""

    def __init__(self, pid, root, seed, seconds, parts, known, work, hints=(), tag='r'):
        self.pid, self.seconds = pid, seconds
        self.jobs = []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
        for i in range(parts):
            out, trace, log = (os.path.join(work, '%s%d.%s' % (tag, i, e)) for e in ('json', 'trace', 'log'))
            cmd = [PY, os.path.join(HERE, 'rt/run.py'), '--prop', pid, '--seed', str(seed + (1000 if hints else 0)), '--seconds', str(seconds), '--root', root, '--out', out,
                   '--part', str(i), '--known', json.dumps(known), '--hints', json.dumps(list(hints)), '--trace', trace]
            self.jobs.append((subprocess.Popen(cmd, env=env, cwd=work, stdout=open(log, 'wb'), stderr=subprocess.STDOUT), out, trace, log))

    def result(self, until):
        tot = dict(evaluations=0, distinct=0, counts={}, samples=[], violations=[], known=[])
        for p, out, trace, log in self.jobs:
            died = None
            try:
                p.wait(max(5, until - time.time()))
                if p.returncode:
                    died = 'the process ended with status %d' % p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                died = 'no result in time'
            if died:
                try:
                    name, args = json.loads(open(trace, 'rb').read().split(b'\n')[0])
                    tot['violations'].append(dict(property=self.pid, contract=name, args=args, message=died))
                    continue
                except (OSError, ValueError):
                    print(open(log, errors='replace').read()[-3000:])
                    print('run-time contracts: ' + died)
                    sys.exit(2)
            d = json.load(open(out))
            for k in ('evaluations', 'distinct'):
                tot[k] += d[k]
            for k, v in d['counts'].items():
                tot['counts'][k] = tot['counts'].get(k, 0) + v
            for k in ('samples', 'violations', 'known'):
                tot[k] += d[k]
        return tot


def hints_of(obl):
    out = []
    for o in obl:
        for v in o['model'].values():
            try:
                from fractions import Fraction
                f = float(Fraction(v))
                if f == f and abs(f) < 1e300 and f not in out:
                    out.append(f)
            except (ValueError, OverflowError, ZeroDivisionError):
                pass
    return out[:60]


def main(pid):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    thorough = tier == 'thorough'
    from specs import registry
    info = registry.INFO[pid]
    seconds = float(os.environ.get('VERIF_SECONDS', 240 if thorough else info.get('seconds', 35)))
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        known = [k for k in json.load(f)['known'] if k['property'] == pid]
    work = tempfile.mkdtemp(prefix='verif-')
    scratch = None
    try:
        root, scratch = build(ROOT)
        rt = Runtime(pid, root, seed, seconds, 4, known, work)
        cases, lean = [], None
        n = len(registry.cases(pid))
        if info.get('lean'):
            lean = subprocess.Popen(['lean', info['lean'] if isinstance(info['lean'], str) else 'Lemmas.lean'], cwd=os.path.join(HERE, 'lean'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if n:
            import prove
            cases = prove.prove(pid, ROOT, budget=600 if thorough else 300, procs=7, deadline=T0 + 480)
        lean_ok = None
        if lean is not None:
            try:
                text = lean.communicate(timeout=200)[0].decode(errors='replace')
                lean_ok = lean.returncode == 0 and 'sorry' not in text
            except subprocess.TimeoutExpired:
                lean.kill()
                lean_ok = False
        r = rt.result(time.time() + seconds + 150)
        refuted = [(c, o) for c in cases for o in c['obl'] if o['status'] == 'refuted' and o['klass'] == 'property']
        violations = list(r['violations'])
        if refuted and not violations:
            h = Runtime(pid, root, seed, 40, 7, known, work, hints_of([o for _, o in refuted]) or [0.0, 1.0, -1.0], 'h')
            hr = h.result(time.time() + 160)
            violations = hr['violations']
            r['evaluations'] += hr['evaluations']
            r['distinct'] += hr['distinct']
        for k in r['known']:
            what = next((f['what'] for f in known if f['contract'] == k['contract'] and f['args'] == k['args']), k['message'])
            print('KNOWN-FINDING: property=%s %s' % (pid, what.splitlines()[0]))
        code = 0
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        replay = os.path.join(HERE, 'out', 'replay-%s.json' % pid)
        failed = ['%s: %s' % (c['case'], o['name']) for c, o in refuted]
        failed = list(dict.fromkeys(failed))
        if violations:
            v = violations[0]
            with open(replay, 'w') as f:
                json.dump(dict(v, failed_obligations=failed[:50], replay_cmd='%s %s --replay %s --root %s' % (PY, os.path.join(HERE, 'rt/run.py'), replay, ROOT)), f, indent=1)
            for v in violations[:3]:
                print('%s%s\n    %s' % (v['contract'], v['args'][:600], v['message'][:600]))
            if failed:
                print('failed obligations: ' + '; '.join(failed[:6]))
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            code = 1
        elif refuted:
            with open(replay, 'w') as f:
                json.dump(dict(property=pid, failed_obligations=failed, verifier_output=[dict(case=c['case'], **o) for c, o in refuted][:50]), f, indent=1)
            print('failed obligations: ' + '; '.join(failed[:6]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
            code = 1
        evidence(pid, info, tier, seed, cases, r, lean_ok, code, len(violations) or len(failed))
        return code
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)


def evidence(pid, info, tier, seed, cases, r, lean_ok, code, nviol):
    obl = [o for c in cases for o in c['obl']]
    main_obl = [o for o in obl if o['klass'] != 'strong']
    open_cases = [dict(case=c['case'], status=c['status'], detail=c['detail']) for c in cases if c['status'] not in ('proved', 'weaker')]
    proved = bool(cases) and not open_cases and lean_ok is not False
    backends = {}
    for o in obl:
        if o['status'] == 'proved':
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
    level = 'proof' if proved and info['level'] == 'proof' else 'exploration' if info['level'] in ('proof', 'exploration') else info['level']
    cov = dict(evaluations=r['evaluations'], distinct_nontrivial=r['distinct'], rule=info['rule'], samples=r['samples'][:8], contract_evaluations=r['counts'])
    if cases:
        cov.update(obligations=len(main_obl), discharged=sum(o['status'] == 'proved' for o in main_obl), auxiliary_tightness_obligations=len(obl) - len(main_obl),
                   checker_cmd='python3-vt prove.py %s' % pid, trusted_base=info['trusted'], discharged_by=backends, solver_seconds=round(sum(o['time'] for o in obl), 1),
                   cases={c['case']: '%s, %d paths, %d obligations, %.1fs' % (c['status'], c['paths'], c['obligations'], c['seconds']) for c in cases},
                   functions_under_contract=sorted({f for c in cases for f in c['functions']}), callees_taken_by_contract=sorted({f for c in cases for f in c['contracts']}),
                   not_discharged=open_cases)
        if lean_ok is not None:
            cov['lean_lemmas_accepted'] = lean_ok
    if info.get('bounded'):
        cov['bounded_not_proved'] = info['bounded']
    d = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=info['assumptions'], wall_s=round(time.time() - T0, 1), violations=nviol if code else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(d, f, indent=1)
    print('%s: %d obligations, %d discharged%s; %d run-time contract evaluations; %.0f s%s' % (
        pid, len(main_obl), sum(o['status'] == 'proved' for o in main_obl), ''.join('; not discharged: %s (%s %s)' % (c['case'], c['status'], c['detail'][:120]) for c in open_cases[:4]), r['evaluations'],
        time.time() - T0, '' if code == 0 else ' -- FAILED'))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
