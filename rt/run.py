"""Runs the run-time contracts of one property in the package's own interpreter.

  /opt/venv/bin/python rt/run.py --prop P01 --seed 1 --seconds 30 --root /repo --out F [--hints JSON]
  /opt/venv/bin/python rt/run.py --replay FILE --root /repo
"""
import argparse, collections, mmap, faulthandler, json, os, signal, sys, time, traceback, warnings
os.environ.setdefault('MPLBACKEND', 'Agg')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
ap.add_argument('--prop')
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--seconds', type=float, default=20)
ap.add_argument('--root', default='/repo')
ap.add_argument('--out')
ap.add_argument('--hints', default='[]')
ap.add_argument('--known', default='[]')
ap.add_argument('--part', type=int, default=0)
ap.add_argument('--replay')
ap.add_argument('--trace')
opt = ap.parse_args()
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, opt.root)
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
import intvalpy
assert os.path.realpath(intvalpy.__file__).startswith(os.path.realpath(opt.root) + '/'), intvalpy.__file__
from rt import core
from rt.core import REG, GEN, Violation, Gen
import importlib
for m in ('kernel', 'arrays', 'functionals', 'linear', 'nonlinear', 'models', 'systems'):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + '.py')):
        importlib.import_module('rt.' + m)


class Hang(BaseException):
    pass


LIMIT = 60


def alarm(sig, frame):
    raise Hang()


signal.signal(signal.SIGALRM, alarm)


def evaluate(fn, args):
    """-> None or the message of the violation"""
    signal.alarm(LIMIT)
    try:
        fn(*args)
        return None
    except Violation as e:
        return str(e)
    except Hang:
        return 'no result within %d s' % LIMIT
    except RecursionError:
        return 'recursion'
    except Exception as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-4))
    finally:
        signal.alarm(0)
        core._libm.fesetround(0)


if opt.replay:
    rec = json.load(open(opt.replay))
    if 'contract' not in rec:
        print('no failing input: the replay file names an obligation')
        sys.exit(2)
    args = eval(rec['args'], {'inf': core.INF, 'nan': core.NAN, '__builtins__': {}})
    msg = evaluate(REG[rec['contract']], args)
    print('VIOLATED' if msg else 'holds', rec['contract'], rec['args'], msg or '')
    sys.exit(1 if msg else 0)

known = {(k['contract'], k['args']) for k in json.loads(opt.known)}
pool = core.mined_constants(opt.root)
g = Gen(opt.seed * 1000003 + opt.part * 7919 + sum(map(ord, opt.prop)), pool, json.loads(opt.hints))
counts = collections.Counter()
distinct = set()
samples, violations, known_seen = [], [], []
t0 = time.time()
trace = None
if opt.trace:                      # the case being evaluated, should the process hang or die
    with open(opt.trace, 'wb') as h:
        h.write(b' ' * 65536)
    trace = mmap.mmap(os.open(opt.trace, os.O_RDWR), 65536)


def do(fn, args):
    counts[fn.__name__] += 1
    key = repr(args)
    if trace is not None:
        b = json.dumps([fn.__name__, key]).encode()[:65000] + b'\n'
        trace[:len(b)] = b
    if len(distinct) < 400000:
        distinct.add(hash((fn.__name__, key)))
    if len(samples) < 6 and counts[fn.__name__] in (1, 50):
        samples.append('%s%s' % (fn.__name__, key[:300]))
    msg = evaluate(fn, args)
    if msg:
        rec = dict(property=opt.prop, contract=fn.__name__, args=key, message=msg[:2000])
        if (fn.__name__, key) in known:
            known_seen.append(rec)
        else:
            violations.append(rec)
    return msg


gens = GEN.get(opt.prop, [])
done = False
if not json.loads(opt.hints):
    for f, w, once in gens:
        if once:
            for i, (fn, args) in enumerate(f(g)):
                if i % 4 == opt.part % 4 or opt.part < 0:
                    do(fn, args)
                    if len(violations) >= 5:
                        break
live = [(f, w) for f, w, once in gens if not once]
its = {}
while live and time.time() - t0 < opt.seconds and len(violations) < 5:
    f = g.r.choices([x for x, _ in live], [w for _, w in live])[0]
    if f not in its:
        its[f] = iter(f(g))
    try:
        fn, args = next(its[f])
    except StopIteration:
        del its[f]
        continue
    do(fn, args)
out = dict(property=opt.prop, evaluations=sum(counts.values()), distinct=len(distinct), counts=dict(counts),
           samples=samples, violations=violations, known=known_seen, seconds=time.time() - t0, seed=opt.seed, part=opt.part)
with open(opt.out, 'w') as h:
    json.dump(out, h)
