"""Contracts of WILS over exact arithmetic: smoothed weights, reported objective, prediction, for data of every size."""
import z3
from pyvc.interp import Num, Inst, PyRaise, Unsupported, LoopSpec, tonum, INLINE
from pyvc.ints import mkint
from pyvc.terms import K
from pyvc import arr as R, npw as N, exact as X
from pyvc.arr import app, sum_term, Arr, as_arr
from pyvc.exact import EI, ebox, rbox
from pyvc.npw import Invariant, for_loop
from .array_linear import fn_of, data_of
from .array_functionals import System, num, Z, maximize_world, row_index

WILS = 'intvalpy/models/WILS.py'


def smoothed(it, i):
    """W(0) = beta (1 - alpha) w(0), W(k) = beta ((1 - alpha) w(k) + alpha W(k-1))"""
    z = it.th.z
    i = z3.simplify(i)
    p = app(it, 'W', [i])
    key = ('W', i.sexpr())
    if key not in it.th.table:
        it.th.table[key] = p
        al, be, w = it.ghost['alpha'], it.ghost['beta'], it.ghost['w'](i)
        own = be * (K(1) - al) * w
        it.th.fixed.append(z3.Implies(i == 0, z(p) == z(own)))
        it.th.fixed.append(z3.Implies(i >= 1, z(p) == z(own + be * al * app(it, 'W', [z3.simplify(i - 1)]))))
    return p


class Smoothing(Invariant):
    """the weights before k are smoothed, the others as given"""
    def prove(self, it, env, k, stage):
        n, z = it.ghost['n'], it.th.z
        w = as_arr(it, env.v['weight'])
        it.oblige('one weight per row (%s)' % stage, len(w.shape) == 1 and R.same_dim(it, w.shape[0], n))
        i = z3.Int('i_' + stage)
        it.assume(z3.And(i >= 0, i < n))
        v = num(it, w.el(it, [i]))
        it.oblige('smoothed weights (%s)' % stage, z3.Implies(i < k, z(v) == z(smoothed(it, i))))
        it.oblige('weights still to be smoothed (%s)' % stage, z3.Implies(i >= k, z(v) == z(it.ghost['w'](i))))
        given = it.ghost['given']
        it.oblige('the weights of the caller are not changed (%s)' % stage, given is None or (w is not given and w.base is None and given.version == 0))

    def havoc(self, it, env, k):
        n = it.ghost['n']
        env.v['weight'] = Arr([n], lambda it, idx: Num(smoothed(it, idx[0]) if it.branch(idx[0] < k) else it.ghost['w'](idx[0]), 'np'))


class Gradient(Invariant):
    """a vector with one entry per coefficient"""
    def prove(self, it, env, k, stage):
        g = as_arr(it, env.v['sub_diff'])
        it.oblige('length of the subgradient (%s)' % stage, len(g.shape) == 1 and R.same_dim(it, g.shape[0], it.ghost['m']))

    def havoc(self, it, env, k):
        q = it.ghost['ngrad'] = it.ghost.get('ngrad', 0) + 1
        env.v['sub_diff'] = rbox(it, 'grad%d' % q, [it.ghost['m']])


def gradient_loop():
    """contract for a range of unknown length; a list of known length is run through"""
    ranged = for_loop(Gradient)

    def run(it, st, env):
        seq = it.eval(st.iter, env)
        if isinstance(seq, list):
            for x in seq:
                it.assign(st.target, x, env)
                it.exec_block(st.body, env)
            return
        ranged.run(it, st, env)
    return LoopSpec(run)


def look(it, fn, args, kw):
    """the row values, as they are handed to the norm"""
    rs = as_arr(it, args[1] if len(args) > 1 else kw['residual'])
    it.ghost.setdefault('residuals', []).append(rs.copy())
    return INLINE


def models_world(root):
    w = maximize_world(root)
    w.contracts[(WILS, 'WILS._wrap_norm')] = look
    w.loops[(WILS, 'WILS.fit', 0)] = for_loop(Smoothing)
    for f in ('tol', 'uni', 'uss'):
        w.loops[(WILS, 'WILS._%s_calcfg_extend' % f, 0)] = gradient_loop()
    return w


def case_fit(which, norm, x0, weights):
    def body(it):
        th, z = it.th, it.th.z
        s = System(it, True)
        al, be = th.var('alpha'), th.var('beta')
        it.ghost.update(alpha=al, beta=be, n=s.n, m=s.m, w=(lambda i: app(it, 'w', [i])) if weights else (lambda i: K(1)), given=s.w if weights else None)
        s.wt = lambda i: smoothed(it, i)
        cls = fn_of(it, WILS, 'WILS')
        o = it.call(cls, [Num(al, 'float'), Num(be, 'float')], {})
        start = rbox(it, 'x0', [s.m])
        kw = dict(objective=which, norm=norm)
        if weights:
            kw['weight'] = s.w
        if x0:
            kw['x0'] = start
        seen = {}
        rest = [mkint(z3.Int('nit')), mkint(z3.Int('ncalls')), mkint(z3.Int('ccode'))]

        def ralgb5(it, fn, a, k):
            calcfg, p = a[0], as_arr(it, a[1])
            it.oblige('the starting point has one entry per unknown', z3.And(len(p.shape) == 1, p.shape[0] == s.m))
            seen['x0'] = p.copy()
            f0, g0 = it.call(calcfg, [p], {})
            xr = rbox(it, 'xr', [s.m])
            fr, gr = it.call(calcfg, [xr], {})
            it.assume(z(num(it, fr)) <= z(num(it, f0)))
            seen.update(xr=xr, kw=k, es=list(it.ghost.get('extremes', [])))
            return (xr, fr) + tuple(rest)
        it.w.contracts[('intvalpy/kernel/ralgb5.py', 'ralgb5')] = ralgb5
        vs = [data_of(s.A).version, data_of(s.b).version, start.version, s.w.version]
        try:
            it.call(it.getattr(o, 'fit'), [s.A, s.b], dict(kw, maxiter=7))
        except PyRaise as e:
            it.oblige('does not raise', False)
            return
        e = it.getattr(o, 'estimator')
        ok = isinstance(e, dict) and set(e) >= {'xr', 'fr', 'nit', 'ncalls', 'ccode'}
        it.oblige('the estimator', ok and [e['nit'], e['ncalls'], e['ccode']] == rest)
        it.oblige('the point of the optimizer', e['xr'] is seen['xr'] and e['xr'].version == 0)
        it.oblige('options reach the optimizer', seen['kw'] == dict(maxiter=7))
        it.oblige('arguments unchanged', vs == [data_of(s.A).version, data_of(s.b).version, start.version, s.w.version])
        if x0:
            k = z3.Int('k')
            it.assume(z3.And(k >= 0, k < s.m))
            it.oblige('the starting point is the given one', z(num(it, seen['x0'].el(it, [k]))) == z(app(it, 'x0', [k])))
        v = num(it, e['fr'])
        if norm == 'inf':
            i = row_index(it, s)
            N.extremes_at(it, [i])
            q0, q1 = (x.pos[0] for x in seen['es'][-2:])
            it.oblige('the objective is at most every weighted row value at the coefficients', z(v) <= z(s.row(which, i, 'xr')))
            it.oblige('the objective is a weighted row value at the coefficients', z(v) == z(s.row(which, q1, 'xr')))
            if x0:
                it.oblige('the objective is not below its value at the starting point', z(v) >= z(s.row(which, q0, 'x0')))
        else:
            for rs, x in zip(it.ghost.get('residuals', [])[-2:], ('x0', 'xr')):
                if x == 'xr' or x0:
                    R.sum_eq(it, 'weighted row values', Z, s.n, lambda i: Num(num(it, rs.el(it, [i])), 'np'), lambda i: Num(s.row(which, i, x), 'np'))
            total = lambda x: sum_term(it, Z, s.n, lambda i: Num(s.row(which, i, x), 'np'))
            it.oblige('the objective is the sum of the weighted row values at the coefficients', z(v) == z(total('xr')))
            if x0:
                it.oblige('the objective is not below its value at the starting point', z(v) >= z(total('x0')))
    return 'WILS.fit(%s, %s, %s, %s)' % (which, norm, 'starting point given' if x0 else 'default starting point', 'weights' if weights else 'no weights'), body


def case_predict():
    def body(it):
        th, z = it.th, it.th.z
        n, m = z3.Int('n'), z3.Int('m')
        it.assume(z3.And(n >= 1, m >= 1))
        T = ebox(it, 'A', [n, m])
        xr = rbox(it, 'xr', [m])
        o = it.call(fn_of(it, WILS, 'WILS'), [], {})
        o.f['estimator'] = {'xr': xr}
        vs = [data_of(T).version, xr.version]
        r = as_arr(it, it.call(it.getattr(o, 'predict'), [T], {}))
        it.oblige('arguments unchanged', vs == [data_of(T).version, xr.version])
        it.oblige('one prediction per row', len(r.shape) == 1 and R.same_dim(it, r.shape[0], n))
        i = z3.Int('i')
        it.assume(z3.And(i >= 0, i < n))
        e = it.concrete(r.el(it, [i]))
        ok = isinstance(e, EI)
        it.oblige('predictions are intervals', ok)
        if not ok:
            return
        x = lambda k: app(it, 'xr', [k])
        M = lambda k: app(it, 'X*', [i, k])
        A = lambda k: X.interval(it, 'A', [i, k])
        inside = lambda k: z3.And(z(A(k).lo) <= z(M(k)), z(M(k)) <= z(A(k).hi))
        N_ = lambda p: Num(p, 'np')
        for sg in (1, -1):
            R.sum_leq(it, 'terms of a prediction', Z, m, lambda k: N_(((M(k) - A(k).mid) * x(k)).scale(sg)), lambda k: N_(A(k).rad * th.abs(x(k))), inside)
        v = sum_term(it, Z, m, lambda k: N_(M(k) * x(k)))
        it.oblige('the prediction contains the value of the model at every point of the data', z3.And(z(e.lo) <= z(v), z(v) <= z(e.hi)))
    return 'WILS.predict', body


def cases26():
    out = [case_predict()]
    for f in ('Tol', 'Uni', 'Uss'):
        for norm in ('inf', 'l1'):
            out += [case_fit(f, norm, True, True), case_fit(f, norm, False, False)]
    return out
