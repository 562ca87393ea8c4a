"""Contract of Neumaier over exact arithmetic, for systems of every size."""
import z3
from pyvc.interp import Num, Unsupported, tonum
from pyvc.terms import K
from pyvc import arr as R, npw as N, exact as X
from pyvc.arr import app, sum_term, Arr, as_arr
from pyvc.exact import EI, rbox, exact_world
from pyvc.npw import KI
from .array_linear import fn_of, data_of
from .array_functionals import System, row_index, num, Z

FILE = 'intvalpy/linear/Neumaier.py'
n_ = lambda p: Num(p, 'np')


def single(it, fn, args, kw):
    """SingleInterval of two numbers (P11)"""
    v = [tonum(it.concrete(x)) for x in args]
    if len(v) != 2 or None in v or kw.get('midRadQ') is True:
        raise Unsupported('SingleInterval')
    th = it.th
    l, r = v[0].p, v[1].p
    if l != r and kw.get('sortQ', True) is True:
        l, r = th.minmax('min', [l, r]), th.minmax('max', [l, r])
    elif not R.valid(it, th.z(l) <= th.z(r)):
        raise Unsupported('an interval with unordered endpoints')
    return EI((l + r).scale(X.HALF), (r - l).scale(X.HALF))


def tolerable_world(root):
    w = exact_world(root)
    w.contracts[(KI, 'SingleInterval')] = single
    return w


def case_neumaier(weight, keyword):
    def body(it):
        th = it.th
        z = th.z
        s = System(it, None)
        s.weight = False
        y = s.x('y')
        w = rbox(it, 'w', [s.m]) if weight else None
        A, Y = lambda i, k: X.interval(it, 'A', [i, k]), lambda k: app(it, 'y', [k])

        def W(k):
            if not weight:
                return K(1)
            p = app(it, 'w', [k])
            it.assume(z3.Implies(z3.And(k >= 0, k < s.m), z(p) > 0))
            return p
        vs = [data_of(s.A).version, data_of(s.b).version, y.version] + ([w.version] if weight else [])
        args, kw = ([s.A, s.b, y], dict(w=w)) if keyword else ([s.A, s.b, y, w], {})

        def norm(i):
            """sum of |A_ik| w_k, no row is zero"""
            t = sum_term(it, Z, s.m, lambda k: n_(A(i, k).mag(it) * W(k)))
            if weight:
                R.sum_eq(it, 'row norm', Z, s.m, lambda k: n_(A(i, k).mag(it) * W(k)), lambda k: n_(EI(A(i, k).mid * W(k), A(i, k).rad * th.abs(W(k))).mag(it)))
            it.assume(z(t) > 0)
            return t

        def margin(i):
            """rad b_i less the distance of A_i y from the middle of b_i, not negative: A y lies in b"""
            m = sum_term(it, Z, s.m, lambda k: n_(A(i, k).mid * Y(k)))
            r = sum_term(it, Z, s.m, lambda k: n_(A(i, k).rad * th.abs(Y(k))))
            b = X.interval(it, 'b', [i])
            d = EI(b.mid - m, r)
            R.sum_leq(it, 'sum of nonnegative terms', Z, s.m, lambda k: n_(K(0)), lambda k: n_(A(i, k).rad * th.abs(Y(k))))
            v = b.rad - d.mag(it)
            it.assume(z3.Implies(z3.And(i >= 0, i < s.n), z3.And(z(b.lo) <= z(m - r), z(m + r) <= z(b.hi))))
            return v, m, r, b
        i = row_index(it, s)
        norm(i)
        it.ghost['at extremes'] = [lambda e: norm(e.pos[0]) if len(e.pos) == 1 and R.same_dim(it, e.a.shape[0], s.n) else None]
        r = it.call(fn_of(it, FILE, 'Neumaier'), args, kw)
        it.oblige('arguments unchanged', vs == [data_of(s.A).version, data_of(s.b).version, y.version] + ([w.version] if weight else []))
        a = as_arr(it, r)
        ok = len(a.shape) == 1 and R.same_dim(it, a.shape[0], s.m)
        it.oblige('one component per unknown', ok)
        if not ok:
            return
        es = it.ghost.get('extremes', [])
        it.oblige('one extreme value over the rows', len(es) == 1 and len(es[0].pos) == 1 and R.same_dim(it, es[0].a.shape[0], s.n))
        e = es[0]
        q = e.pos[0]
        rho = num(it, N.extreme_value(it, e))
        N.extremes_at(it, [i])
        # the factor: the smallest margin in units of the row norm
        for j in (i, q):
            norm(j)
        vi, mi, ri, b = margin(i)
        vq = margin(q)[0]
        it.oblige('the bound of the method holds in every row', z(rho * norm(i)) <= z(vi))
        it.oblige('the bound of the method is attained in some row', z(rho * norm(q)) == z(vq))
        it.oblige('the half-widths are not negative', z(rho) >= 0)
        j = z3.Int('j')
        it.assume(z3.And(j >= 0, j < s.m))
        c = it.concrete(a.el(it, [j]))
        ok = isinstance(c, EI)
        it.oblige('components are intervals', ok)
        if not ok:
            return
        it.oblige('centre', z(c.mid) == z(Y(j)))
        it.oblige('half-width', z(c.rad) == z(rho * W(j)))
        # a member of the row at a point of the box
        M = lambda k: app(it, 'a*', [k])
        D = lambda k: app(it, 'd*', [k])         # from the centre to the point
        H = lambda k: app(it, 'h*', [k])         # the half-width
        G = lambda k: app(it, 'g*', [k])         # the magnitude of the entry
        member = lambda k: z3.And(z(A(i, k).lo) <= z(M(k)), z(M(k)) <= z(A(i, k).hi))
        P = lambda k: Y(k) + D(k)
        for sgn in (1, -1):
            R.sum_leq(it, 'a member row at the centre', Z, s.m, lambda k: n_((M(k) * Y(k) - A(i, k).mid * Y(k)).scale(sgn)), lambda k: n_(A(i, k).rad * th.abs(Y(k))), member)
            R.sum_leq(it, 'a member row on the way from the centre', Z, s.m, lambda k: n_((M(k) * D(k)).scale(sgn)), lambda k: n_(G(k) * H(k)),
                      lambda k: z3.And(z(M(k)) <= z(G(k)), -z(G(k)) <= z(M(k)), z(D(k)) <= z(H(k)), -z(H(k)) <= z(D(k))))
        with R.Binder(it, 'k', Z, s.m) as k:
            it.assume(member(k))
            mg = A(i, k).mag(it)
            it.oblige('members of an entry are at most its magnitude', z3.And(z(M(k)) <= z(mg), -z(mg) <= z(M(k))))
        R.sum_eq(it, 'magnitude times half-width', Z, s.m, lambda k: n_(G(k) * H(k)), lambda k: n_(rho * A(i, k).mag(it) * W(k)), lambda k: z3.And(z(G(k)) == z(A(i, k).mag(it)), z(H(k)) == z(rho * W(k))))
        ax = sum_term(it, Z, s.m, lambda k: n_(M(k) * P(k)))
        it.oblige('A x lies in b for every member and every point of the box', z3.And(z(b.lo) <= z(ax), z(ax) <= z(b.hi)))
    return 'Neumaier(%s%s)' % ('weights' if weight else 'no weights', ', by keyword' if keyword else ''), body


def cases21():
    return [case_neumaier(w, k) for w, k in ((False, False), (True, True), (True, False))]
