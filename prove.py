"""Discharges the contract obligations of one property, in parallel.   python3-vt prove.py P01 [--root R] [--only TEXT]"""
import argparse, json, multiprocessing, os, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


SHARE = 6.0


def work(a):
    pid, i, root, budget, queue = a
    from pyvc.verify import run_case
    from specs import registry
    world, name, body = registry.cases(pid)[i]
    r = run_case(lambda: registry.WORLDS[world](root), name, body, budget, queue, SHARE)
    for o in r.obl:
        o['model'] = {a: str(b) for a, b in (o['model'] or {}).items()}
    r.functions, r.contracts = set(map(str, r.functions)), set(map(str, r.contracts))
    r.obl = [{k: o[k] for k in ('name', 'status', 'backend', 'klass', 'time', 'goal', 'path', 'model')} for o in r.obl]
    return r


def prove(pid, root='/repo', budget=600, procs=8, only='', deadline=None):
    """budget: processor seconds for one case, all of its parts together"""
    from specs import registry
    from pyvc.verify import CaseResult, merge, grounded
    n = [i for i, c in enumerate(registry.cases(pid)) if only in c[1]]
    if not n:
        return []
    done, parts = {}, {}
    with multiprocessing.get_context('fork').Pool(procs, maxtasksperchild=8) as p:
        jobs = {}

        def submit(i, queue):
            jobs[i, parts.setdefault(i, 0)] = p.apply_async(work, ((pid, i, root, budget, queue),))
            parts[i] += 1
        for i in n:
            submit(i, None)
        while jobs:
            progress = False
            for key, j in list(jobs.items()):
                if not j.ready():
                    continue
                progress = True
                i = key[0]
                del jobs[key]
                r = j.get()
                rest = r.rest
                done[i] = merge(done[i], r) if i in done else r
                if rest and done[i].time > budget:
                    lost = CaseResult(r.name)
                    lost.status, lost.detail = 'unsupported', 'case budget of %gs used up' % budget
                    merge(done[i], lost)
                elif rest and done[i].status != 'unsupported':
                    k = min(len(rest), 2 * procs)
                    for q in range(k):
                        submit(i, rest[q::k])
            if not progress:
                if deadline is not None and time.time() > deadline:
                    break
                time.sleep(0.02)
        out = []
        for i in n:
            r = done.get(i) or CaseResult(registry.cases(pid)[i][1])
            if any(k[0] == i for k in jobs):
                lost = CaseResult(r.name)
                lost.status, lost.detail = 'unknown', 'out of time'
                merge(r, lost)
            elif parts[i] > 1 and r.status == 'proved':
                grounded(r)
            out.append(dict(r.as_dict(), index=i, functions=sorted(r.functions), contracts=sorted(r.contracts), obl=r.obl))
        p.terminate()
    return out


def eval_frac(s):
    from fractions import Fraction
    return Fraction(s)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='+')
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--only', default='')
    a = ap.parse_args()
    for p in a.prop:
        t = time.time()
        rs = prove(p, a.root, only=a.only)
        print(p, len(rs), 'cases', sum(r['obligations'] for r in rs), 'obligations', sum(r['discharged'] for r in rs), 'discharged', '%.1fs' % (time.time() - t), 'slowest %.1fs' % max([r['seconds'] for r in rs] or [0]))
        for r in rs:
            if r['status'] != 'proved':
                print('  ', r['status'], r['case'], r['detail'])
                for o in [o for o in r['obl'] if o['status'] != 'proved'][:3]:
                    if True:
                        print('      ', o['status'], o['klass'], o['name'], o['path'], {a: float(eval_frac(b)) for a, b in o['model'].items()} if o['model'] else '')

