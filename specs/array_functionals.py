"""Contracts of the recognizing functionals over exact arithmetic, for systems of every size."""
import z3
from pyvc.interp import Num, PyRaise, Unsupported, Extern, Bound
from pyvc.ints import IntV, mkint
from pyvc.terms import K
from pyvc import arr as R, npw as N, exact as X
from pyvc.arr import app, iz, sum_term, Arr, as_arr
from pyvc.exact import EI, ebox, rbox, exact_world
from .array_linear import fn_of, data_of
ABS = 'intvalpy/kernel/abstract.py'
FILE = {'Tol': 'intvalpy/linear/Tol.py', 'Uni': 'intvalpy/linear/Uni.py', 'Uss': 'intvalpy/linear/Uss.py'}
Z = z3.IntVal(0)


class System:
    """an interval system with n rows and m unknowns, a weight vector, points"""
    def __init__(self, it, weight):
        self.it = it
        self.n, self.m = z3.Int('n'), z3.Int('m')
        it.assume(z3.And(self.n >= 1, self.m >= 1))
        self.A, self.b = ebox(it, 'A', [self.n, self.m]), ebox(it, 'b', [self.n])
        self.weight = weight
        self.w = rbox(it, 'w', [self.n]) if weight else None

    def wt(self, i):
        p = app(self.it, 'w', [i]) if self.weight else K(1)
        if self.weight:
            self.it.assume(self.it.th.z(p) > 0)
        return p

    def x(self, name='x'):
        return rbox(self.it, name, [self.m])

    def sums(self, i, name='x'):
        """mid and rad of row i of A x"""
        it = self.it
        m = sum_term(it, Z, self.m, lambda k: Num(app(it, 'A.mid', [i, k]) * app(it, name, [k]), 'np'))
        r = sum_term(it, Z, self.m, lambda k: Num(app(it, 'A.rad', [i, k]) * it.th.abs(app(it, name, [k])), 'np'))
        R.sum_leq(it, 'sum of nonnegative terms', Z, self.m, lambda k: Num(K(0), 'np'), lambda k: Num(self.pos(i, k) * it.th.abs(app(it, name, [k])), 'np'))
        return m, r

    def pos(self, i, k):
        return X.interval(self.it, 'A', [i, k]).rad

    def row(self, which, i, name='x'):
        """the row value of the functional: weight times the distance that decides membership"""
        it, th = self.it, self.it.th
        m, r = self.sums(i, name)
        b = X.interval(it, 'b', [i])
        lo, hi = b.mid - m - r, b.mid - m + r
        if which == 'Tol':
            v = b.rad - th.minmax('max', [th.abs(lo), th.abs(hi)])
        elif which == 'Uni':
            v = b.rad - EI(b.mid - m, r).mig(it)
        else:
            v = b.rad + r - th.abs(b.mid - m)
        return self.wt(i) * v

    def inside(self, which, i, name='x'):
        """the row of A x lies in b (Tol), or meets it (Uni, Uss)"""
        m, r = self.sums(i, name)
        b = X.interval(self.it, 'b', [i])
        z = self.it.th.z
        if which == 'Tol':
            return z3.And(z(b.lo) <= z(m - r), z(m + r) <= z(b.hi))
        return z3.And(z(m - r) <= z(b.hi), z(b.lo) <= z(m + r))


def row_index(it, s, name='i'):
    i = z3.Int(name)
    it.assume(z3.And(i >= 0, i < s.n))
    return i


def num(it, v):
    n = X.tonum(it.concrete(v))
    if n is None:
        raise Unsupported('not a number: %r' % (v,))
    return n.p


def case_constituent(which, weight):
    def body(it):
        s = System(it, weight)
        cls = fn_of(it, FILE[which], which)
        x = s.x()
        kw = dict(weight=s.w) if weight else {}
        vs = [data_of(s.A).version, data_of(s.b).version, x.version]
        r = as_arr(it, it.call(it.getattr(cls, 'constituent'), [s.A, s.b, x], kw))
        it.oblige('one value per row', z3.And(len(r.shape) == 1, r.shape[0] == s.n))
        i = row_index(it, s)
        v = num(it, r.el(it, [i]))
        it.oblige('row value', it.th.z(v) == it.th.z(s.row(which, i)))
        it.oblige('nonnegative exactly for membership in the row', (it.th.z(v) >= 0) == s.inside(which, i))
        it.oblige('arguments unchanged', vs == [data_of(s.A).version, data_of(s.b).version, x.version])
    return '%s.constituent(%s)' % (which, 'weights' if weight else 'no weights'), body


def case_value(which, weight):
    def body(it):
        s = System(it, weight)
        cls = fn_of(it, FILE[which], which)
        x = s.x()
        kw = dict(weight=s.w) if weight else {}
        v = num(it, it.call(it.getattr(cls, 'value'), [s.A, s.b, x], kw))
        z = it.th.z
        i = row_index(it, s)
        N.extremes_at(it, [i])
        it.oblige('the value is at most every row value', z(v) <= z(s.row(which, i)))
        es = it.ghost.get('extremes', [])
        q = es[-1].pos[0]
        it.oblige('the value is the value of some row', z3.And(q >= 0, q < s.n, z(v) == z(s.row(which, q))))
        it.oblige('a nonnegative value means membership in every row', z3.Implies(z(v) >= 0, s.inside(which, i)))
        it.oblige('membership in every row means a nonnegative value', z3.Implies(s.inside(which, q), z(v) >= 0))
    return '%s.value(%s)' % (which, 'weights' if weight else 'no weights'), body


def prepared(it, s):
    """the arguments of calcfg: endpoints, midpoints and radii of the system"""
    g = lambda v, n: it.getattr(v, n)
    w = s.w if s.weight else Arr([s.n], lambda it, idx: 1.0)
    return [g(s.A, 'inf'), g(s.A, 'sup'), g(s.A, 'mid'), g(s.A, 'rad'), g(s.b, 'mid'), g(s.b, 'rad'), w]


def case_calcfg(which):
    """value and supergradient at x against the functional at an arbitrary y (for Uss in the orthant of x)"""
    def body(it):
        th = it.th
        z = th.z
        s = System(it, True)
        cls = fn_of(it, FILE[which], which)
        x = s.x()
        r = it.call(it.getattr(cls, 'calcfg'), [x] + prepared(it, s), {})
        f, g = num(it, r[0]), as_arr(it, r[1])
        q = it.ghost['extremes'][-1].pos[0]
        i = row_index(it, s)
        N.extremes_at(it, [i])
        it.oblige('minus the value is at most every row value', z(-f) <= z(s.row(which, i)))
        it.oblige('minus the value is a row value', z(-f) == z(s.row(which, q)))
        it.oblige('length of the gradient', z3.And(len(g.shape) == 1, g.shape[0] == s.m))
        if which == 'Uni':
            return
        # T(y) <= row q at y <= row q at x + <g, y - x>, where the functional is maximized as minus f
        X_ = lambda k: app(it, 'x', [k])
        Y = lambda k: app(it, 'y', [k])
        grad = lambda k: num(it, g.el(it, [k]))
        N_ = lambda p: Num(p, 'np')
        b = X.interval(it, 'b', [q])
        w = s.wt(q)
        d = b.mid - s.sums(q)[0]
        sign = 0 if which == 'Uss' and it.branch(z(d) == 0) else 1 if it.branch(z(d) >= 0) else -1
        dx = lambda k: N_(-grad(k) * X_(k))
        dy = lambda k: N_(-grad(k) * Y(k))
        if which == 'Tol':
            tx = lambda k: N_(w * (app(it, 'A.mid', [q, k]) * X_(k)).scale(sign) - w * s.pos(q, k) * th.abs(X_(k)))
            ty = lambda k: N_(w * (app(it, 'A.mid', [q, k]) * Y(k)).scale(sign) - w * s.pos(q, k) * th.abs(Y(k)))
        else:
            tx = lambda k: N_(w * (app(it, 'A.mid', [q, k]) * X_(k)).scale(sign) + w * s.pos(q, k) * th.abs(X_(k)))
            ty = lambda k: N_(w * (app(it, 'A.mid', [q, k]) * Y(k)).scale(sign) + w * s.pos(q, k) * th.abs(Y(k)))
        R.sum_eq(it, 'slope at the point', Z, s.m, dx, tx)

        given = None
        if which == 'Uss':
            # y in the orthant of x
            given = lambda k: z3.And(z3.Implies(z(X_(k)) > 0, z(Y(k)) >= 0), z3.Implies(z(X_(k)) < 0, z(Y(k)) <= 0), z3.Implies(z(X_(k)) == 0, z(Y(k)) == 0))
        R.sum_leq(it, 'slope bounds the row elsewhere', Z, s.m, ty, dy, given)
        lhs = s.row(which, q, 'y')
        diff = sum_term(it, Z, s.m, lambda k: N_(-grad(k) * (Y(k) - X_(k))))
        it.oblige('supergradient: the functional at y is at most value(x) plus slope', z(lhs) <= z(-f) + z(diff))
    return '%s.calcfg' % which, body


def cases16():
    return [f(w, v) for w in FILE for v in (False, True) for f in (case_constituent, case_value)]


# ---------------------------------------------------------------- linear constraints
class Rows(N.Invariant):
    """linear_penalty: rows below i hold the violation and its gradient, the others zero"""
    def havoc(self, it, env, i):
        C, b = as_arr(it, env.v['C']).copy(), as_arr(it, env.v['b']).copy()
        n, m = C.shape
        x = it.ghost['x']

        def viol(it, r):
            d = num(it, R.sum_values(it, Z, m, lambda k: it.binop('*', C.el(it, [r, k]), x.el(it, [k])))) - num(it, b.el(it, [r]))
            return d, it.branch(it.th.z(d) > 0)

        def p(it, idx):
            if not it.branch(idx[0] < i):
                return 0.0
            return Num(it.th.minmax('max', [K(0), violation(it, C, b, x, idx[0])]), 'np')

        def dp(it, idx):
            if not it.branch(idx[0] < i):
                return 0.0
            f = it.th.z(violation(it, C, b, x, idx[0])) > 0
            return it.binop('*', C.el(it, idx), Num(R.indicator(it, f), 'np'))
        env.v['arr_p'], env.v['arr_dp'] = Arr([n], p), Arr([n, m], dp)
        if 'i' in env.v and not isinstance(env.v['i'], IntV):
            pass
        self.C, self.b = C, b

    def prove(self, it, env, i, stage):
        C, b = as_arr(it, env.v['C']).copy(), as_arr(it, env.v['b']).copy()
        n, m = C.shape
        x = it.ghost['x']
        r, j = z3.Int('row_' + stage), z3.Int('col_' + stage)
        it.assume(z3.And(r >= 0, r < n, j >= 0, j < m))
        z = it.th.z
        p, dp = as_arr(it, env.v['arr_p']), as_arr(it, env.v['arr_dp'])
        v = violation(it, C, b, x, r)
        done = it.branch(r < i)
        it.oblige('violation of a row (%s)' % stage, z(num(it, p.el(it, [r]))) == (z(it.th.minmax('max', [K(0), v])) if done else 0))
        g = z(num(it, dp.el(it, [r, j])))
        it.oblige('gradient of a row (%s)' % stage, g == (z3.If(z(v) > 0, z(num(it, C.el(it, [r, j]))), 0) if done else 0))


def violation(it, C, b, x, r):
    m = C.shape[1]
    return sum_term(it, Z, m, lambda k: Num(num(it, C.el(it, [r, k])) * num(it, x.el(it, [k])), 'np')) - num(it, b.el(it, [r]))


def functional_world(root):
    w = exact_world(root)
    w.loops[(ABS, 'BaseRecFun.linear_penalty', 0)] = N.for_loop(Rows)
    return w


def constraint(it, n, m, mu=True):
    from pyvc.interp import Inst
    cls = fn_of(it, ABS, 'LinearConstraint')
    c = Inst(cls)
    c.f['C'], c.f['b'] = rbox(it, 'C', [n, m]), rbox(it, 'cb', [n])
    c.f['mu'] = Num(it.th.var('mu'), 'float') if mu else None
    if mu:
        it.assume(it.th.z(c.f['mu'].p) > 0)
    return c


def case_penalty():
    def body(it):
        z = it.th.z
        n, m = z3.Int('n'), z3.Int('m')
        it.assume(z3.And(n >= 1, m >= 1))
        lc = constraint(it, n, m)
        C, b = lc.f['C'], lc.f['b']
        x = it.ghost['x'] = rbox(it, 'x', [m])
        y = rbox(it, 'y', [m])
        mu = lc.f['mu'].p
        cls = fn_of(it, ABS, 'BaseRecFun')
        p, dp = it.call(it.getattr(cls, 'linear_penalty'), [x, lc], {})
        p, dp = num(it, p), as_arr(it, dp)
        V = lambda q, pt: violation(it, C, b, pt, q)
        pos = lambda q, pt: it.th.minmax('max', [K(0), V(q, pt)])
        N_ = lambda v: Num(v, 'np')
        it.oblige('penalty: mu times the sum of the violations', z(p) == z(mu * sum_term(it, Z, n, lambda q: N_(pos(q, x)))))
        it.oblige('length of the gradient', z3.And(len(dp.shape) == 1, dp.shape[0] == m))
        j = z3.Int('j')
        it.assume(z3.And(j >= 0, j < m))
        ind = lambda q: R.indicator(it, z(V(q, x)) > 0)
        it.oblige('gradient: mu times the sum of the violated rows', z(num(it, dp.el(it, [j]))) == z(mu * sum_term(it, Z, n, lambda q: N_(app(it, 'C', [q, j]) * ind(q)))))
        # nonnegative; zero without violation; positive with one
        R.sum_leq(it, 'violations are nonnegative', Z, n, lambda q: N_(K(0)), lambda q: N_(pos(q, x)))
        it.oblige('nonnegative', z(p) >= 0)
        r = z3.Int('r')
        it.assume(z3.And(r >= 0, r < n))
        R.sum_split(it, Z, r, n, lambda q: N_(pos(q, x)))
        R.sum_unfold_first(it, r, n, lambda q: N_(pos(q, x)))
        R.sum_leq(it, 'violations are nonnegative', Z, r, lambda q: N_(K(0)), lambda q: N_(pos(q, x)))
        R.sum_leq(it, 'violations are nonnegative', r + 1, n, lambda q: N_(K(0)), lambda q: N_(pos(q, x)))
        it.oblige('positive where a row is violated', z3.Implies(z(V(r, x)) > 0, z(p) > 0))
        if it.choose('no row is violated'):
            ok = lambda q: z(V(q, x)) <= 0
            R.sum_eq(it, 'no violation', Z, n, lambda q: N_(pos(q, x)), lambda q: N_(K(0)), ok)
            R.sum_eq(it, 'no gradient', Z, n, lambda q: N_(app(it, 'C', [q, j]) * ind(q)), lambda q: N_(K(0)), ok)
            it.oblige('zero where no row is violated', z(p) == 0)
            it.oblige('zero gradient where no row is violated', z(num(it, dp.el(it, [j]))) == 0)
            return
        # convexity: p(y) >= p(x) + <dp, y - x>
        slope = lambda q: N_(ind(q) * (V(q, y) - V(q, x)))
        R.sum_leq(it, 'subgradient of one row', Z, n, lambda q: N_(pos(q, x) + slope(q).p), lambda q: N_(pos(q, y)))
        py = mu * sum_term(it, Z, n, lambda q: N_(pos(q, y)))
        lin = sum_term(it, Z, m, lambda k: N_(num(it, dp.el(it, [k])) * (app(it, 'y', [k]) - app(it, 'x', [k]))))
        # <dp, y - x> = mu sum_q ind_q (C_q y - C_q x), exchanging the sums
        for nm in ('x', 'y'):
            R.sum_swap(it, Z, n, Z, m, lambda q, k: N_(ind(q) * app(it, 'C', [q, k]) * app(it, nm, [k])))
        it.oblige('convex: the gradient is a subgradient', z(py) >= z(p + lin))
        it.oblige('the constraint is unchanged', C.version == 0 and b.version == 0 and lc.f['C'] is C and lc.f['b'] is b and lc.f['mu'].p == mu and x.version == 0)
    return 'linear_penalty', body


def case_constrained(which):
    def body(it):
        z = it.th.z
        s = System(it, True)
        x = it.ghost['x'] = s.x()
        lc = constraint(it, z3.Int('rows'), s.m)
        it.assume(z3.Int('rows') >= 1)
        cls, base = fn_of(it, FILE[which], which), fn_of(it, ABS, 'BaseRecFun')
        args = prepared(it, s)
        f, g = it.call(it.getattr(cls, 'calcfg'), [x] + args, {})
        e1 = it.ghost['extremes'][-1]
        f = num(it, f)
        j = z3.Int('j')
        it.assume(z3.And(j >= 0, j < s.m))
        gj = num(it, as_arr(it, g).el(it, [j]))
        P = it.th.fresh('penalty')
        it.w.contracts[(ABS, 'BaseRecFun.linear_penalty')] = lambda it, fn, a, k: (Num(P, 'np'), rbox(it, 'dpen', [s.m]))
        try:
            F, G = it.call(it.getattr(cls, 'calcfg_constr'), [x] + args + [lc], {})
        finally:
            del it.w.contracts[(ABS, 'BaseRecFun.linear_penalty')]
        e2 = it.ghost['extremes'][-1]
        i = row_index(it, s)
        it.oblige('the same row values', z(num(it, e1.a.el(it, [i]))) == z(num(it, e2.a.el(it, [i]))))
        # both runs use the first smallest row, which is the same one
        it.assume(z3.And([p == q for p, q in zip(e1.pos, e2.pos)]))
        it.oblige('objective: the unconstrained one plus the penalty', z(num(it, F)) == z(f + P))
        it.oblige('gradient: the unconstrained one plus that of the penalty', z(num(it, as_arr(it, G).el(it, [j]))) == z(gj + app(it, 'dpen', [j])))
        it.oblige('the constraint is unchanged', lc.f['C'].version == 0 and lc.f['b'].version == 0)
    return '%s.calcfg_constr' % which, body


class XR(X.Sym):
    """a bound: a finite number or an infinity"""
    def __init__(self, fin, v, sign=1, ab=False):
        self.fin, self.v, self.sign, self.ab = fin, v, sign, ab

    def isinst(self, it, t):
        return t in ('float', 'numbers.Number', 'numbers.Real')

    def unop(self, it, op):
        if op == '-':
            if R.valid(it, self.fin):
                return Num(-self.v, 'np')
            return XR(self.fin, -self.v, -self.sign)
        if op == 'abs':
            return XR(self.fin, self.v, 1, True)
        raise Unsupported('operation on a bound')

    def finite(self, it):
        return Num(self.v, 'np')

    def compare(self, it, op, other, reflected):
        if isinstance(other, float) and other == N.INF and op in ('==', '!=') and self.ab:
            return N.SBool(self.fin if op == '!=' else z3.Not(self.fin))
        if isinstance(other, float) and other == N.INF and self.ab and (op, reflected) in (('<', False), ('>', True)):
            return N.SBool(self.fin)
        raise Unsupported('comparison of a bound')


class SymList(X.Sym):
    """a list: n0 unknown elements, then the appended ones"""
    def __init__(self, n0, fn):
        self.n0, self.fn, self.items = n0, fn, []

    def isinst(self, it, t):
        return t == 'list'

    def length(self, it):
        return mkint(z3.simplify(self.n0 + len(self.items)))

    def append(self, v):
        self.items.append(v)

    def getattr(self, it, name):
        if name == 'append':
            return Extern('append', lambda it, a, k: self.append(a[0]))
        if name == '__len__':
            return Extern('len', lambda it, a, k: self.length(it))
        if name == '__iter__':
            return Extern('iter', lambda it, a, k: self)
        raise PyRaise(AttributeError, (name,))

    def truth(self, it):
        return it.branch(self.n0 + len(self.items) > 0)

    def arr(self, it, shape):
        items = [as_arr(it, x) if not isinstance(x, (Num, float, XR)) else x for x in self.items]

        def fn(it, idx):
            for q, x in enumerate(items):
                if it.branch(idx[0] == self.n0 + q):
                    return x.el(it, idx[1:]) if isinstance(x, Arr) else x
            return self.fn(it, idx)
        return Arr([z3.simplify(self.n0 + len(items))] + shape, fn)


class Bounds(N.Invariant):
    """one more row may be kept in each step"""
    keep = ('self',)
    which = None

    def fresh_lists(self, it, env):
        me = env.v['self']
        n = it.ghost.setdefault('nlist', 0)
        it.ghost['nlist'] += 1
        L = z3.Int('kept%d' % n)
        it.assume(L >= 0)
        it.ghost['L'] = L
        lc, lb = 'LC%d' % n, 'Lb%d' % n
        it.ghost['kept'] = (lc, lb)
        me.f['C'] = SymList(L, lambda it, idx: Num(app(it, lc, idx), 'np'))
        me.f['b'] = SymList(L, lambda it, idx: Num(app(it, lb, idx), 'np'))

    def havoc(self, it, env, k):
        self.fresh_lists(it, env)

    def prove(self, it, env, k, stage):
        me = env.v['self']
        A, B = me.f['C'], me.f['b']
        if stage == 'entry':
            it.oblige('the lists are as long as each other', iz(it.builtin_len(A)) == iz(it.builtin_len(B)) if hasattr(it, 'builtin_len') else size(A, it) == size(B, it))
            return
        if not isinstance(A, SymList) or not isinstance(B, SymList):
            raise Unsupported('the lists are replaced')
        C, bound, sign = it.ghost['Cin'], self.which, -1 if self.which == 'lb' else 1
        kk = z3.simplify(k - 1)
        it.oblige('both lists grow together, by one row at most', len(A.items) == len(B.items) <= 1)
        fin = z3.Function('fin_' + bound, z3.IntSort(), z3.BoolSort())(kk)
        j = z3.Int('col')
        it.assume(z3.And(j >= 0, j < it.ghost['m']))
        R.instances(it, [j])
        z = it.th.z
        if not A.items:
            it.oblige('a row is left out only if its bound is infinite or its coefficients are zero', z3.Or(z3.Not(fin), z(app(it, 'C', [kk, j])) == 0))
            return
        it.oblige('a row is kept only with a finite bound', fin)
        it.oblige('coefficients of the kept row', z(num(it, as_arr(it, A.items[0]).el(it, [j]))) == z(app(it, 'C', [kk, j]).scale(sign)))
        v = B.items[0]
        it.oblige('bound of the kept row', z(v.v if isinstance(v, XR) else num(it, v)) == z(app(it, bound, [kk]).scale(sign)))


def size(v, it):
    return z3.IntVal(len(v)) if isinstance(v, list) else v.n0 + len(v.items)


class Lower(Bounds):
    which = 'lb'


class Upper(Bounds):
    which = 'ub'


class Ones(N.Invariant):
    """columns below k are w, the others zero"""
    def havoc(self, it, env, k):
        w = as_arr(it, env.v['w']).copy()
        sh = as_arr(it, env.v['W']).shape if isinstance(env.v['W'], Arr) else self.shape
        env.v['W'] = Arr(sh, lambda it, idx: w.el(it, idx[:1]) if it.branch(idx[1] < k) else 0.0)

    def prove(self, it, env, k, stage):
        W, w = as_arr(it, env.v['W']), as_arr(it, env.v['w'])
        self.shape = W.shape
        r, j = z3.Int('row_' + stage), z3.Int('col_' + stage)
        it.assume(z3.And(r >= 0, r < W.shape[0], j >= 0, j < W.shape[1]))
        v = num(it, W.el(it, [r, j]))
        it.oblige('columns done so far', it.th.z(v) == (it.th.z(num(it, w.el(it, [r]))) if it.branch(j < k) else 0))


def uniform(it, a, k):
    lo, hi = num(it, a[0]), num(it, a[1])
    n = it.ghost.setdefault('nuni', 0)
    it.ghost['nuni'] += 1

    def fn(it, idx):
        p = app(it, 'uniform%d' % n, idx)
        it.th.fixed.append(z3.And(it.th.z(lo) <= it.th.z(p), it.th.z(p) <= it.th.z(hi)))
        return Num(p, 'np')
    return Arr(N.shape_of(a[2]), fn)


def constraint_world(root):
    w = exact_world(root)
    q = 'LinearConstraint.__init__'
    w.loops[(ABS, q, 0)] = N.for_loop(Lower)
    w.loops[(ABS, q, 1)] = N.for_loop(Upper)
    w.loops[(ABS, q, 2)] = N.for_loop(Ones)
    w.externs['numpy.random.uniform'] = uniform
    old = w.externs['numpy.array']

    def array(it, a, k):
        if isinstance(a[0], SymList):
            first = a[0].items[0] if a[0].items else None
            m = it.ghost['m']
            return a[0].arr(it, [m] if a[0].fn(it, [Z] * 1 + [Z]) is not None and a[0] is it.ghost['self'].f.get('C') else [])
        return old(it, a, k)
    w.externs['numpy.array'] = array
    return w


def case_constraint(lower, upper):
    def body(it):
        from pyvc.interp import Inst
        z = it.th.z
        n, m = z3.Int('n'), z3.Int('m')
        it.ghost['m'] = m
        it.assume(z3.And(n >= 1, m >= 1))
        C = it.ghost['Cin'] = rbox(it, 'C', [n, m])

        def bounds(name):
            return Arr([n], lambda it, idx: XR(z3.Function('fin_' + name, z3.IntSort(), z3.BoolSort())(*idx), app(it, name, idx)))
        kw = dict(mu=Num(it.th.var('mu'), 'float'))
        if lower:
            kw['lb'] = bounds('lb')
        if upper:
            kw['ub'] = bounds('ub')
        cls = fn_of(it, ABS, 'LinearConstraint')
        me = it.ghost['self'] = Inst(cls)
        it.call(it.bind(cls.lookup(it, '__init__'), me), [C], kw)
        RC, Rb = me.f['C'], me.f['b']
        it.oblige('the arguments are unchanged', C.version == 0 and all(v.version == 0 for v in kw.values() if isinstance(v, Arr)))
        it.oblige('mu is kept', z(num(it, me.f['mu'])) == z(kw['mu'].p))
        if not lower and not upper:
            it.oblige('without bounds nothing is violated', z3.And(Rb.shape[0] == 1, RC.shape[0] == 1) if isinstance(Rb, Arr) else False)
            it.oblige('without bounds nothing is violated: infinite bound', as_arr(it, Rb).el(it, [Z]) == N.INF)
            return
        L = it.ghost['L']
        r, j = z3.Int('r'), z3.Int('j')
        it.oblige('matrix and bounds have the same number of rows', z3.And(RC.shape[0] == Rb.shape[0], RC.shape[1] == m))
        if it.branch(L == 0):
            it.oblige('one row that is never violated', Rb.shape[0] == 1)
            it.oblige('its bound is infinite', as_arr(it, Rb).el(it, [Z]) == N.INF)
            return
        lc, lb = it.ghost['kept']
        it.oblige('one row per kept inequality', Rb.shape[0] == L)
        it.assume(z3.And(r >= 0, r < L, j >= 0, j < m))
        it.oblige('coefficients of the inequality', z(num(it, RC.el(it, [r, j]))) == z(app(it, lc, [r, j])))
        it.oblige('bound of the inequality', z(num(it, Rb.el(it, [r]))) == z(app(it, lb, [r])))
    return 'LinearConstraint(%s)' % ', '.join(['C'] + ['lb'] * lower + ['ub'] * upper), body


def cases_constraint():
    return [case_constraint(l, u) for l in (False, True) for u in (False, True)]


# ---------------------------------------------------------------- maximize
class Penalty:
    """linear_penalty by contract: a number and a vector depending on the constraint and the point"""
    def __init__(self):
        self.calls = []

    def __call__(self, it, fn, a, k):
        x, lc = as_arr(it, a[0]), a[1]
        P = it.th.fresh('penalty')
        self.calls.append((x.copy(), lc, P))
        n = len(self.calls)
        return (Num(P, 'np'), rbox(it, 'dpen%d' % n, list(x.shape)))


def case_maximize(which, x0, weight, con):
    """ralgb5 by its contract (P15): the value is the objective at the point and not above the objective at the start"""
    def body(it):
        z = it.th.z
        s = System(it, weight is not None)
        cls = fn_of(it, FILE[which], which)
        kw = {}
        if weight == 'vector':
            kw['weight'] = s.w
        elif weight == 'number':
            w0 = it.th.var('w0')
            it.assume(z(w0) > 0)
            kw['weight'] = Num(w0, 'float')
            s.wt = lambda i: w0
        start = rbox(it, 'x0', [s.m])
        if x0:
            kw['x0'] = start
        lc = None
        if con:
            lc = kw['linear_constraint'] = constraint(it, z3.Int('rows'), s.m, con == 'mu')
            it.assume(z3.Int('rows') >= 1)
        pen = Penalty()
        it.w.contracts[(ABS, 'BaseRecFun.linear_penalty')] = pen
        found = it.th.fresh('mu')
        it.assume(z(found) > 0)

        def find_mu(it, fn, a, k):
            a[0].f['mu'] = Num(found, 'np')
            return a[0].f['mu']
        it.w.contracts[(ABS, 'LinearConstraint.find_mu')] = find_mu
        seen = {}
        rest = [mkint(z3.Int('nit')), mkint(z3.Int('ncalls')), mkint(z3.Int('ccode'))]

        def ralgb5(it, fn, a, k):
            calcfg, p = a[0], as_arr(it, a[1])
            it.oblige('the starting point has one entry per unknown', z3.And(len(p.shape) == 1, p.shape[0] == s.m))
            seen['x0'] = p.copy()
            f0, g0 = it.call(calcfg, [p], {})
            seen['e0'] = it.ghost['extremes'][-1]
            xr = rbox(it, 'xr', [s.m])
            fr, gr = it.call(calcfg, [xr], {})
            seen['e1'] = it.ghost['extremes'][-1]
            it.assume(z(num(it, fr)) <= z(num(it, f0)))
            seen['xr'] = xr
            seen['kw'] = k
            return (xr, fr) + tuple(rest)
        it.w.contracts[('intvalpy/kernel/ralgb5.py', 'ralgb5')] = ralgb5
        vs = [data_of(s.A).version, data_of(s.b).version, start.version]
        try:
            r = it.call(it.getattr(cls, 'maximize'), [s.A, s.b], dict(kw, maxiter=7))
        except PyRaise as e:
            it.oblige('does not raise', False)
            return
        it.oblige('five results', isinstance(r, tuple) and len(r) == 5 and list(r[2:]) == rest)
        it.oblige('the point of the optimizer', r[0] is seen['xr'] and r[0].version == 0)
        it.oblige('options reach the optimizer', seen['kw'] == dict(maxiter=7))
        v = num(it, r[1])
        if x0:
            k = z3.Int('k')
            it.assume(z3.And(k >= 0, k < s.m))
            it.oblige('the starting point is the given one', z(num(it, seen['x0'].el(it, [k]))) == z(app(it, 'x0', [k])))
        x0name = 'x0'
        P0 = P1 = K(0)
        if con:
            it.oblige('penalty evaluated at both points', len(pen.calls) == 2 and all(c[1] is pen.calls[0][1] for c in pen.calls))
            P0, P1 = pen.calls[0][2], pen.calls[1][2]
            used = pen.calls[0][1]
            it.oblige('the constraint is unchanged', lc.f['C'].version == 0 and lc.f['b'].version == 0 and (lc.f['mu'] is None if con == 'free' else True))
            it.oblige('the inequalities of the constraint are used', used.f['C'] is lc.f['C'] and used.f['b'] is lc.f['b'])
            if con == 'mu':
                it.oblige('the factor of the constraint is used', z(num(it, used.f['mu'])) == z(num(it, lc.f['mu'])))
            else:
                it.oblige('a factor is found', z(num(it, used.f['mu'])) == z(found))
        i = row_index(it, s)
        N.extremes_at(it, [i])
        q0, q1 = seen['e0'].pos[0], seen['e1'].pos[0]
        it.oblige('the value is at most every row value at the point%s' % (', penalty subtracted' if con else ''), z(v) <= z(s.row(which, i, 'xr') - P1))
        it.oblige('the value is a row value at the point%s' % (', penalty subtracted' if con else ''), z(v) == z(s.row(which, q1, 'xr') - P1))
        if x0:
            it.oblige('the value is not below the value at the starting point', z(v) >= z(s.row(which, q0, 'x0') - P0))
        it.oblige('arguments unchanged', vs == [data_of(s.A).version, data_of(s.b).version, start.version])
    name = '%s.maximize(%s, %s%s)' % (which, 'starting point given' if x0 else 'default starting point', 'no weights' if weight is None else 'weights: ' + weight,
                                      '' if not con else ', constraint' + (' with its factor' if con == 'mu' else ''))
    return name, body


def maximize_world(root):
    w = exact_world(root)
    e = w.externs

    def svd(it, a, k):
        if k.get('compute_uv') is not False:
            raise Unsupported('svd')
        r = z3.FreshInt('rank')
        it.assume(r >= 1)
        n = it.ghost.setdefault('nsvd', 0)
        it.ghost['nsvd'] += 1
        return Arr([r], lambda it, idx: Num(app(it, 'sv%d' % n, idx), 'np'))

    def lstsq(it, a, k):
        A, b = as_arr(it, a[0]), as_arr(it, a[1])
        if len(A.shape) != 2 or len(b.shape) != 1 or not R.same_dim(it, A.shape[0], b.shape[0]):
            raise Unsupported('lstsq')
        return (rbox(it, 'x0', [A.shape[1]]), None, None, None)
    def copy(it, a, k):
        from pyvc.interp import Inst
        if not isinstance(a[0], Inst) or a[0].cls.name != 'LinearConstraint':
            raise Unsupported('copy of %r' % (a[0],))
        c = Inst(a[0].cls)
        c.f.update(a[0].f)
        return c
    e['copy.copy'] = copy
    e['numpy.linalg.svd'] = svd
    e['numpy.linalg.lstsq'] = lstsq
    return w


def cases_maximize():
    out = []
    for which in FILE:
        out += [case_maximize(which, True, 'vector', None), case_maximize(which, False, None, None), case_maximize(which, True, 'number', None),
                case_maximize(which, True, None, 'mu'), case_maximize(which, True, 'vector', 'free')]
    return out
