"""Contract of ralgb5: bookkeeping of the best point, for any objective and any number of steps."""
import z3
from pyvc.interp import Num, PyRaise, Unsupported, Extern, SBool
from pyvc.ints import IntV, mkint, toint
from pyvc.terms import K
from pyvc import arr as R, npw as N
from pyvc.arr import app, iz, Arr, as_arr
from pyvc.npw import np_world, Invariant, while_loop
from .array_linear import fn_of, dim

RALG = 'intvalpy/kernel/ralgb5.py'


def number(it, v):
    from pyvc.interp import tonum
    n = tonum(it.concrete(v))
    if n is None:
        raise Unsupported('not a number: %r' % (v,))
    return n.p


class Calls:
    """ghost record of the evaluations of the objective"""
    def __init__(self, it, m):
        self.m = m
        self.count = z3.IntVal(0)
        self.least = None          # smallest value so far
        self.seen = []             # (point as it was, value)
        self.last = None           # gradient of the last evaluation
        self.normlast = None       # its norm, once computed
        self.start = None          # number of evaluations when the line search began

    def calcfg(self, it, args, kw):
        x = as_arr(it, args[0])
        if len(x.shape) != 1 or not R.same_dim(it, x.shape[0], self.m):
            raise Unsupported('evaluation at something that is not a point')
        n = it.ghost.setdefault('ncall', 0)
        it.ghost['ncall'] += 1
        f = it.th.fresh('f')
        g = Arr([self.m], lambda it, idx: Num(app(it, 'g%d' % n, idx), 'np'))
        self.seen.append((x.copy(), f))
        self.least = f if self.least is None else it.th.minmax('min', [self.least, f])
        self.count = z3.simplify(self.count + 1)
        self.last, self.normlast = g, None
        return (Num(f, 'np'), g)

    def norm(self, it, args, kw):
        r = it.th.fresh('norm')
        it.assume(it.th.z(r) >= 0)
        if args[0] is self.last and self.last.version == 0:
            self.normlast = r
        return Num(r, 'np')

    def best(self, it, where, xr, fr):
        """fr is the objective at xr, and no value seen is smaller"""
        fr = number(it, fr)
        z = it.th.z
        it.oblige('no evaluated value is smaller (%s)' % where, z(fr) <= z(self.least))
        xr = as_arr(it, xr)
        k = z3.Int('coord')
        pc = list(it.pc)
        it.assume(z3.And(k >= 0, k < self.m))
        ok = False
        if len(xr.shape) == 1 and R.same_dim(it, xr.shape[0], self.m):
            for x, f in self.seen:
                if R.valid(it, z(number(it, x.el(it, [k]))) == z(number(it, xr.el(it, [k])))) and R.valid(it, z(f) == z(fr)):
                    ok = True
        it.oblige('the value is the objective at the point (%s)' % where, ok)
        it.pc[:] = pc
        it.ghost['epoch'] = it.ghost.get('epoch', 0) + 1


class Loop(Invariant):
    inner = False
    may_share = (frozenset(('x', 'xr')),)

    def prove(self, it, env, k, stage):
        c = it.ghost['calls']
        v = env.v
        where = ('line search, ' if self.inner else 'iteration, ') + stage
        c.best(it, where, v['xr'], v['fr'])
        it.oblige('evaluations are counted (%s)' % where, iz(v['ncalls']) == c.count)
        if self.inner:
            if stage == 'entry':
                c.start = c.count
            it.oblige('steps are counted (%s)' % where, iz(v['cal']) == c.count - c.start)
            it.oblige('the step counter starts at 0 (%s)' % where, iz(v['cal']) >= 0)
        it.oblige('iterations are counted (%s)' % where, z3.And(iz(v['nit']) >= 0, z3.Or(iz(v['nit']) <= it.ghost['maxiter'] + (0 if self.inner else 1), iz(v['nit']) == 0)))

    def havoc(self, it, env, k):
        c = it.ghost['calls']
        n = it.ghost.setdefault('nopt', 0)
        it.ghost['nopt'] += 1
        v = env.v
        m = c.m
        vec = lambda name: Arr([m], lambda it, idx: Num(app(it, name, idx), 'np'))
        fr = it.th.fresh('fr')
        v['fr'], v['xr'] = Num(fr, 'np'), vec('xr%d' % n)
        c.least = it.th.fresh('least')
        it.assume(it.th.z(fr) <= it.th.z(c.least))
        c.seen = [(v['xr'].copy(), fr)]
        cnt = z3.Int('count%d' % n)
        c.last = c.normlast = None
        v['ncalls'] = mkint(cnt)
        c.count = cnt
        v['x'] = v['xr'] if {'x', 'xr'} & set(self.objs) and it.choose('the last point is the best one, %d' % n) else vec('x%d' % n)
        v['hs'] = Num(it.th.fresh('hs'), 'np')
        if self.inner:
            v['d'], v['deltax'], v['f'] = Num(it.th.fresh('d'), 'np'), Num(it.th.fresh('dl'), 'np'), Num(it.th.fresh('f'), 'np')
            v['g1'] = vec('g1_%d' % n)
            cal = z3.Int('cal%d' % n)
            it.assume(cal >= 0)
            v['cal'] = mkint(cal)
            it.assume(cal == cnt - c.start)
        else:
            v['g0'] = vec('g0_%d' % n)
            v['B'] = Arr([m, m], lambda it, idx: Num(app(it, 'B%d' % n, idx), 'np'))
            v['vf'] = Arr([it.ghost['nsims']], lambda it, idx: Num(app(it, 'vf%d' % n, idx), 'np'))
            nit = z3.Int('nit%d' % n)
            it.assume(z3.And(nit >= 0, z3.Or(nit <= it.ghost['maxiter'] + 1, nit == 0)))
            v['nit'] = mkint(nit)


class Inner(Loop):
    inner = True


def ralg_world(root):
    w = np_world(root)
    w.loops[(RALG, 'ralgb5', 0)] = while_loop(Loop)
    w.loops[(RALG, 'ralgb5', 1)] = while_loop(Inner)
    w.externs['numpy.linalg.norm'] = lambda it, a, k: it.ghost['calls'].norm(it, a, k)
    w.externs['numpy.mod'] = lambda it, a, k: mkint(z3.FreshInt('mod'))

    def roll(it, a, k):
        v = as_arr(it, a[0])
        n = it.ghost.setdefault('nroll', 0)
        it.ghost['nroll'] += 1
        return Arr(v.shape, lambda it, idx: Num(app(it, 'roll%d' % n, idx), 'np'))
    w.externs['numpy.roll'] = roll
    return w


def case_ralg(defaults):
    def body(it):
        m = dim(it, 'm')
        c = it.ghost['calls'] = Calls(it, m)
        x0 = Arr([m], lambda it, idx: Num(app(it, 'x0', idx), 'np'))
        kw = {}
        if defaults:
            it.ghost['maxiter'], it.ghost['nsims'] = z3.IntVal(2000), z3.IntVal(30)
        else:
            mi = it.ghost['maxiter'] = z3.Int('maxiter')
            ns = it.ghost['nsims'] = z3.Int('nsims')
            it.assume(ns >= 1)
            kw = dict(maxiter=mkint(mi), nsims=mkint(ns))
            for n in ('tolx', 'tolg', 'tolf', 'alpha', 'h0', 'q1', 'q2'):
                kw[n] = Num(it.th.var(n), 'float')
            kw['nh'] = mkint(z3.Int('nh'))
        tolg = number(it, kw.get('tolg', 1e-12))
        v0 = x0.version
        try:
            r = it.call(fn_of(it, RALG, 'ralgb5'), [Extern('calcfg', c.calcfg), x0], kw)
        except PyRaise as e:
            it.oblige('raises only for alpha = 0', e.cls is ZeroDivisionError)
            return
        xr, fr, nit, ncalls, code = r
        c.best(it, 'result', xr, fr)
        z = it.th.z
        it.oblige('the call count is the number of evaluations', iz(ncalls) == c.count)
        nit = iz(nit)
        it.oblige('the iteration count does not exceed maxiter by more than one', z3.Or(nit <= it.ghost['maxiter'] + 1, nit == 0))
        it.oblige('exit code', code in (1, 2, 3, 4, 5))
        if code == 2:
            it.oblige('code 2: the last subgradient norm is below tolg', False if c.normlast is None else z(c.normlast) < z(tolg))
        if code == 4:
            it.oblige('code 4: the iterations are used up', nit > it.ghost['maxiter'])
        if code == 5:
            it.oblige('code 5: more than 500 steps in one line search', False if c.start is None else c.count - c.start > 500)
        it.oblige('the starting point is unchanged', x0.version == v0 and xr is not x0)
        if c.last is not None and code != 2 and c.normlast is not None:
            it.oblige('a small subgradient at the last point is reported', z(c.normlast) >= z(tolg))
    return 'ralgb5, %s' % ('default parameters' if defaults else 'every parameter'), body


def cases15():
    return [case_ralg(True), case_ralg(False)]
