"""Contract of Subdiff: the assembled matrix reproduces the Kaucher products, in exact arithmetic, for every size.

Scalar Kaucher operations are taken by their contracts (P04) without rounding: sums by endpoints, products by Kaucher's
table, opp, mag.
"""
import ast
from fractions import Fraction
import z3
from pyvc.interp import Env, FuncVal, Num, Inst, PyRaise, Sym, Unsupported, ClassVal, Extern, tonum
from pyvc.ints import IntV, mkint
from pyvc.terms import K
from pyvc import arr as R, npw as N
from pyvc.arr import Arr, app, as_arr, iz, sum_term
from pyvc.npw import Invariant, for_loop, while_loop, KI
from .array_linear import data_of, fn_of
from .array_objects import index

SUB = 'intvalpy/linear/Subdiff.py'
Z = z3.IntVal(0)


def product(th, which, a, b, c, d):
    """an endpoint of [a, b] [c, d] by Kaucher's table"""
    def facts(z, p):
        a, b, c, d = p
        mn = lambda x, y: z3.If(x <= y, x, y)
        mx = lambda x, y: z3.If(x >= y, x, y)
        P = lambda x, y: z3.And(x >= 0, y >= 0)
        M = lambda x, y: z3.And(x <= 0, y <= 0)
        Zr = lambda x, y: z3.And(x <= 0, y >= 0)
        t = [(P, P, a * c, b * d), (P, Zr, b * c, b * d), (P, M, b * c, a * d), (P, None, a * c, a * d),
             (Zr, P, a * d, b * d), (Zr, Zr, mn(a * d, b * c), mx(a * c, b * d)), (Zr, M, b * c, a * c), (Zr, None, z3.RealVal(0), z3.RealVal(0)),
             (M, P, a * d, b * c), (M, Zr, a * d, a * c), (M, M, b * d, a * c), (M, None, b * d, b * c),
             (None, P, a * c, b * c), (None, Zr, z3.RealVal(0), z3.RealVal(0)), (None, M, b * d, a * d), (None, None, mx(a * c, b * d), mn(a * d, b * c))]
        out = None
        for x, y, lo, hi in reversed(t):
            v = lo if which == 'klo' else hi
            g = z3.And(*([x(a, b)] if x else []) + ([y(c, d)] if y else []))
            out = v if out is None else z3.If(g, v, out)
        return [z == out]
    ps = [a, b, c, d]
    with heavy(th):
        return tabled(th, which, ps, facts)


class heavy:
    """the facts stated inside serve obligations, not the choice of paths"""
    def __init__(self, th):
        self.th = th

    def __enter__(self):
        self.k = len(self.th.fixed)

    def __exit__(self, *a):
        self.th.heavy = self.th.__dict__.get('heavy') or []
        self.th.heavy.extend(self.th.fixed[self.k:])
        del self.th.fixed[self.k:]


def tabled(th, which, ps, facts):
    r = R.lifted(th, which, ps, facts)
    if r is None:
        key = (which,) + tuple(ps)
        if key not in th.table:
            th.table[key] = th.fresh(which)
            th.fixed.extend(facts(th.z(th.table[key]), [th.z(p) for p in ps]))
        r = th.table[key]
    return r


class XK(Sym):
    """a generalized interval [a, b] in exact arithmetic"""
    is_interval = True

    def __init__(self, a, b):
        self.a, self.b = a, b

    def isinst(self, it, t):
        if isinstance(t, ClassVal):
            if t.name == 'BaseTools':
                return True
            if t.name in ('ClassicalArithmetic', 'KaucherArithmetic'):
                return it.branch(it.th.z(self.a) <= it.th.z(self.b)) == (t.name == 'ClassicalArithmetic')
        return False

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name in ('a', 'inf'):
            return Num(self.a, 'float')
        if name in ('b', 'sup'):
            return Num(self.b, 'float')
        if name == 'opp':
            return XK(-self.a, -self.b)
        if name == 'mid':
            return Num((self.a + self.b).scale(Fraction(1, 2)), 'float')
        if name == 'mag':
            return Num(mag(it, self.a, self.b), 'float')
        if name == 'copy':
            return Extern('copy', lambda it, a, k: self)
        if name in ('__iter__', '__len__', 'shape', '_data', 'data'):
            raise PyRaise(AttributeError, (name,))
        raise Unsupported('attribute %s of a generalized interval' % name)

    def unop(self, it, op):
        if op == '-':
            return XK(-self.b, -self.a)
        if op == '+':
            return self
        raise Unsupported('unary')

    def binop(self, it, op, other, reflected):
        o = it.concrete(other)
        if isinstance(o, IntV):
            o = o.num(it)
        n = tonum(o)
        if n is not None:
            o = XK(n.p, n.p)
        if not isinstance(o, XK):
            return NotImplemented
        x, y = (o, self) if reflected else (self, o)
        if op == '+':
            return XK(x.a + y.a, x.b + y.b)
        if op == '-':
            return XK(x.a - y.b, x.b - y.a)
        if op == '*':
            return XK(product(it.th, 'klo', x.a, x.b, y.a, y.b), product(it.th, 'khi', x.a, x.b, y.a, y.b))
        raise Unsupported('operation on generalized intervals')

    def compare(self, it, op, other, reflected):
        raise Unsupported('comparison of generalized intervals')

    def __repr__(self):
        return 'XK(%r, %r)' % (self.a, self.b)


def mag(it, a, b):
    return it.th.minmax('max', [it.th.abs(a), it.th.abs(b)])


def single(it, fn, args, kw):
    """SingleInterval (P11)"""
    v = [it.concrete(x) for x in args]
    v = [x.num(it) if isinstance(x, IntV) else tonum(x) for x in v]
    if len(v) != 2 or None in v or kw.get('midRadQ') is True:
        raise Unsupported('SingleInterval')
    l, r = v[0].p, v[1].p
    if kw.get('sortQ', True) is True and l != r:
        l, r = it.th.minmax('min', [l, r]), it.th.minmax('max', [l, r])
    return XK(l, r)


def kbox(it, name, shape):
    return N.box(it, shape, lambda it, idx: XK(app(it, name + '.a', idx), app(it, name + '.b', idx)))


def halves(it, name, n, r):
    """the vector of both halves"""
    return app(it, name + '.a', [r]) if it.branch(r < n) else app(it, name + '.b', [z3.simplify(r - n)])


def solve(it, args, kw):
    """F d = rhs, or an exception"""
    F, b = as_arr(it, args[0]).copy(), as_arr(it, args[1]).copy()
    q = it.ghost['nsolve'] = it.ghost.get('nsolve', 0) + 1
    if it.choose('singular %d' % q):
        raise PyRaise(N.LinAlgError, ('Singular matrix',))
    n = it.ghost['n']
    if len(b.shape) != 1 or not R.same_dim(it, b.shape[0], 2 * n):
        raise Unsupported('solve')
    name = 'd%d' % q
    it.ghost.setdefault('solves', []).append((F, b, name))
    return Arr(b.shape, lambda it, idx: Num(halves(it, name, n, idx[0]), 'np'))


class System:
    def __init__(self, it, n):
        self.it, self.n = it, n

    def products(self, X, p, j):
        """endpoints of A[p, j] [x_j, x_{j+n}]"""
        it = self.it
        a, b = app(it, 'A.a', [p, j]), app(it, 'A.b', [p, j])
        c, d = X(j)
        return product(it.th, 'klo', a, b, c, d), product(it.th, 'khi', a, b, c, d)

    def sums(self, X, p, lo, hi):
        s = [sum_term(self.it, lo, hi, lambda j, q=q: Num(self.products(X, p, j)[q], 'np')) for q in (0, 1)]
        return s

    def residual(self, X, p):
        """endpoints of (A x)_p + opp b_p"""
        s = self.sums(X, p, Z, self.n)
        return s[0] - app(self.it, 'b.a', [p]), s[1] - app(self.it, 'b.b', [p])

    def mags(self, X, lo, hi):
        return sum_term(self.it, lo, hi, lambda p: Num(mag(self.it, *self.residual(X, p)), 'np'))


def number(it, v):
    n = tonum(it.concrete(v))
    if n is None:
        v = it.concrete(v)
        if isinstance(v, IntV):
            return v.num(it).p
        raise Unsupported('not a number: %r' % (v,))
    return n.p


def vector(it, v, n):
    """the pairs (v_j, v_{j+n})"""
    a = as_arr(it, v).copy()
    return lambda j: (number(it, a.el(it, [j])), number(it, a.el(it, [z3.simplify(j + n)])))


class Matrix:
    """an assembled matrix: in the filled places it maps the pair of x to the product, elsewhere it is zero"""
    def __init__(self, it, sys, X, name, filled):
        self.sys, self.X, self.name, self.filled = sys, X, name, filled

    def arr(self, it):
        n = self.sys.n

        def el(it, idx):
            r, c = idx
            up, left = it.branch(r < n), it.branch(c < n)
            p, q = (r if up else z3.simplify(r - n)), (c if left else z3.simplify(c - n))
            if not it.branch(self.filled(p, q)):
                return 0.0
            self.use(it, p, q)
            return Num(app(it, self.name + ('l' if up else 'u') + ('l' if left else 'u'), [p, q]), 'np')
        return Arr([2 * n, 2 * n], el)

    def use(self, it, p, q):
        key = ('relation', self.name, p.sexpr(), q.sexpr())
        if key in it.th.table:
            return
        it.th.table[key] = True
        z = it.th.z
        x, y = self.X(q)
        lo, hi = self.sys.products(self.X, p, q)
        e = lambda s: app(it, self.name + s, [p, q])
        ok = z3.And(p >= 0, p < self.sys.n, q >= 0, q < self.sys.n, self.filled(p, q))
        with heavy(it.th):
            it.th.fixed.append(z3.Implies(ok, z3.And(z(e('ll') * x + e('lu') * y) == z(lo), z(e('ul') * x + e('uu') * y) == z(hi))))


def relation(it, sys, F, X, p, q, what, filled=True):
    """at row p and column q the matrix maps the pair of x to the product"""
    z, n = it.th.z, sys.n
    f = lambda r, c: number(it, F.el(it, [z3.simplify(r), z3.simplify(c)]))
    x, y = X(q)
    if filled:
        lo, hi = sys.products(X, p, q)
        it.oblige('the matrix maps x_j to the lower endpoint of the product (%s)' % what, z(f(p, q) * x + f(p, q + n) * y) == z(lo))
        it.oblige('the matrix maps x_j to the upper endpoint of the product (%s)' % what, z(f(p + n, q) * x + f(p + n, q + n) * y) == z(hi))
    else:
        it.oblige('entries not yet computed are zero (%s)' % what, z3.And([z(f(r, c)) == 0 for r in (p, p + n) for c in (q, q + n)]))


class Assembly(Invariant):
    def generic(self, it, stage):
        n = it.ghost['n']
        p, q = z3.Int('p_' + stage), z3.Int('q_' + stage)
        it.assume(z3.And(p >= 0, p < n, q >= 0, q < n))
        return p, q

    def fresh(self, it, hint):
        c = it.ghost['nfresh'] = it.ghost.get('nfresh', 0) + 1
        return '%s%d' % (hint, c)

    def matrix(self, it, env, F, X, stage, filled):
        sys = it.ghost['sys']
        p, q = self.generic(it, stage)
        F = as_arr(it, F)
        it.oblige('shape of the matrix (%s)' % stage, len(F.shape) == 2 and all(R.same_dim(it, d, 2 * sys.n) for d in F.shape))
        relation(it, sys, F, X, p, q, stage, it.branch(filled(p, q)))


class Rows(Assembly):
    """the rows before i are assembled, and xx holds their residuals"""
    def prove(self, it, env, i, stage):
        sys, n, z = it.ghost['sys'], it.ghost['n'], it.th.z
        X = self.X = vector(it, env.v['x'], n)
        self.matrix(it, env, env.v['F'], X, stage, lambda p, q: p < i)
        xx = as_arr(it, env.v['xx'])
        if stage == 'entry':
            self.start = xx.copy()
        it.oblige('length of the right-hand side (%s)' % stage, len(xx.shape) == 1 and R.same_dim(it, xx.shape[0], 2 * n))
        p = z3.Int('row_' + stage)
        it.assume(z3.And(p >= 0, p < n))
        if it.branch(p < i):
            lo, hi = sys.residual(X, p)
            it.oblige('residual of a row (%s)' % stage, z3.And(z(number(it, xx.el(it, [p]))) == z(lo), z(number(it, xx.el(it, [z3.simplify(p + n)]))) == z(hi)))
        if stage == 'preserved':
            R.sum_split(it, Z, z3.simplify(i - 1), i, lambda p: Num(mag(it, *sys.residual(X, p)), 'np'))
        it.oblige('sum of the magnitudes of the residuals (%s)' % stage, z(number(it, env.v['r'])) == z(sys.mags(X, Z, i)))

    def havoc(self, it, env, i):
        sys, n = it.ghost['sys'], it.ghost['n']
        X = self.X
        it.ghost['matrix'] = M = Matrix(it, sys, X, self.fresh(it, 'F'), lambda p, q: p < i)
        env.v['F'] = M.arr(it)
        name = self.fresh(it, 'xh')

        def el(it, idx):
            up = it.branch(idx[0] < n)
            p = idx[0] if up else z3.simplify(idx[0] - n)
            if it.branch(p < i):
                return Num(sys.residual(X, p)[0 if up else 1], 'np')
            return Num(app(it, name + ('.a' if up else '.b'), [p]), 'np')
        env.v['xx'] = Arr([2 * n], el)
        env.v['r'] = Num(sys.mags(X, Z, i), 'np')


class Cols(Assembly):
    """in row i the columns before j are assembled, s is the sum of their products"""
    def prove(self, it, env, j, stage):
        sys, n, z = it.ghost['sys'], it.ghost['n'], it.th.z
        i = iz(env.v['i'])
        X = self.X = vector(it, env.v['x'], n)
        if stage == 'entry':
            self.i = i
        self.matrix(it, env, env.v['F'], X, stage, lambda p, q: z3.Or(p < i, z3.And(p == i, q < j)))
        s = it.concrete(env.v['s'])
        ok = isinstance(s, XK)
        it.oblige('the sum is an interval (%s)' % stage, ok)
        if not ok:
            return
        if stage == 'preserved':
            for q in (0, 1):
                R.sum_split(it, Z, z3.simplify(j - 1), j, lambda k, q=q: Num(sys.products(X, i, k)[q], 'np'))
        lo, hi = sys.sums(X, i, Z, j)
        it.oblige('sum of the products (%s)' % stage, z3.And(z(s.a) == z(lo), z(s.b) == z(hi)))

    def havoc(self, it, env, j):
        sys, i, X = it.ghost['sys'], self.i, self.X
        M = Matrix(it, sys, X, self.fresh(it, 'F'), lambda p, q: z3.Or(p < i, z3.And(p == i, q < j)))
        env.v['F'] = M.arr(it)
        env.v['s'] = XK(*sys.sums(X, i, Z, j))


class Newton(Assembly):
    """xx = x - tau d where the matrix assembled at x maps d to the residual of x, whose magnitudes add up to r"""
    def prove(self, it, env, k, stage):
        sys, n, z = it.ghost['sys'], it.ghost['n'], it.th.z
        v = env.v
        xx = as_arr(it, v['xx'])
        it.oblige('length of the iterate (%s)' % stage, len(xx.shape) == 1 and R.same_dim(it, xx.shape[0], 2 * n))
        r, q = it.concrete(v['r']), it.concrete(v['q'])
        if stage == 'entry':
            it.oblige('no residual before the first step', isinstance(r, float) and r == float('inf'))
            it.oblige('scale before the first step', z(number(it, q)) == 1)
            it.oblige('no steps counted before the first', iz(v['nit']) == 0)
            return
        it.oblige('a step is counted', iz(v['nit']) >= 1)
        X = vector(it, v['x'], n)
        ok = bool(it.ghost.get('solves'))
        it.oblige('a linear system is solved', ok)
        if not ok:
            return
        F, rhs, name = it.ghost['solves'][-1]
        self.matrix(it, env, F, X, 'Newton step', lambda p, q: z3.BoolVal(True))
        p = z3.Int('step')
        it.assume(z3.And(p >= 0, p < n))
        res = sys.residual(X, p)
        tau = it.ghost['tau']
        for h, e in ((0, p), (1, z3.simplify(p + n))):
            it.oblige('the right-hand side is the residual', z(number(it, rhs.el(it, [e]))) == z(res[h]))
            d = halves(it, name, n, e)
            it.oblige('the next iterate', z(number(it, xx.el(it, [e]))) == z(X(p)[h] - tau * d))
        it.oblige('r is the sum of the magnitudes of the residuals', z(number(it, r)) == z(sys.mags(X, Z, n)))
        it.oblige('the scale is positive', z(number(it, q)) > 0)

    def havoc(self, it, env, k):
        sys, n, z = it.ghost['sys'], it.ghost['n'], it.th.z
        v = env.v
        name = self.fresh(it, 'x')
        nit = z3.Int(self.fresh(it, 'nit'))
        if it.choose('no step yet ' + name):
            v['r'], v['q'], v['nit'] = float('inf'), 1, 0
            v['xx'] = Arr([2 * n], lambda it, idx: Num(halves(it, name, n, idx[0]), 'np'))
            it.ghost['last'] = None
            return
        it.assume(nit >= 1)
        v['nit'] = mkint(nit)
        X = lambda j: (app(it, name + '.a', [j]), app(it, name + '.b', [j]))
        D = lambda j: (app(it, name + '.da', [j]), app(it, name + '.db', [j]))
        tau = it.ghost['tau']
        M = Matrix(it, sys, X, self.fresh(it, 'F'), lambda p, q: z3.BoolVal(True))

        def el(it, idx):
            up = it.branch(idx[0] < n)
            p = idx[0] if up else z3.simplify(idx[0] - n)
            h = 0 if up else 1
            return Num(X(p)[h] - tau * D(p)[h], 'np')
        v['xx'] = Arr([2 * n], el)
        v['r'] = Num(sys.mags(X, Z, n), 'np')
        q = it.th.fresh('q')
        it.assume(z(q) > 0)
        v['q'] = Num(q, 'np')
        it.ghost['last'] = (X, D, M, v['r'].p, q, nit)


CALC = 'calcSubgrad'
QUAL = ('Subdiff.' + CALC, CALC)
PLACES = (('ll', 0, 0), ('lu', 0, 1), ('ul', 1, 0), ('uu', 1, 1))


def calc_contract(it, fn, args, kw):
    """the four entries of (i, j), zero before, map the endpoints of b to those of a b; the others stay"""
    env = Env(fn.module, fn.closure)
    it.bind_args(fn, env, args, kw)
    F, i, j, a, b = [it.concrete(env.v[x.arg]) for x in fn.node.args.args]
    n, z = it.ghost['n'], it.th.z
    F, i, j = as_arr(it, F), iz(i), iz(j)
    for q in ('n', 'm'):
        if fn.closure is not None and q in fn.closure.v and not R.same_dim(it, iz(it.concrete(fn.closure.v[q])), n):
            raise Unsupported('surroundings of calcSubgrad')
    it.oblige('calcSubgrad: a square matrix of even order and places inside it', len(F.shape) == 2 and all(R.same_dim(it, d, 2 * n) for d in F.shape) and it.valid_now(z3.And(i >= 0, i < n, j >= 0, j < n)))
    if not (isinstance(a, XK) and isinstance(b, XK)):
        raise Unsupported('calcSubgrad of other than intervals')
    at = lambda r, c: (z3.simplify(i + n * r), z3.simplify(j + n * c))
    e = {}
    for s, r, c in PLACES:
        it.oblige('calcSubgrad: the entries are zero before', z(number(it, F.el(it, list(at(r, c))))) == 0)
        e[s] = it.th.fresh('e' + s)
    lo, hi = (product(it.th, w, a.a, a.b, b.a, b.b) for w in ('klo', 'khi'))
    with heavy(it.th):
        it.th.fixed.append(z(e['ll'] * b.a + e['lu'] * b.b) == z(lo))
        it.th.fixed.append(z(e['ul'] * b.a + e['uu'] * b.b) == z(hi))
    for s, r, c in PLACES:
        F.setitem(it, tuple(mkint(x) for x in at(r, c)), Num(e[s], 'np'))
    return F


def local_function(it, rel, outer, name, known):
    """a function defined inside another one, or in its module"""
    m = it.w.module(rel)
    f = fn_of(it, rel, outer)
    for st in ast.walk(f.node):
        if isinstance(st, ast.FunctionDef) and st.name == name:
            env = Env(m)
            env.v.update(known)
            g = FuncVal(st, m, env, outer + '.' + name)
            if st.args.defaults or st.args.kw_defaults or st.decorator_list:
                raise Unsupported('defaults of ' + name)
            g.defaults = ([], [])
            return g
    try:
        return fn_of(it, rel, name)
    except PyRaise:
        raise Unsupported('no function ' + name)


def case_calc():
    def body(it):
        z, th = it.th.z, it.th
        n = z3.Int('n')
        it.assume(n >= 1)
        it.ghost['n'], it.ghost['sizes'] = n, [n]
        i, j = z3.Int('i'), z3.Int('j')
        it.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
        at = lambda r, c: (z3.simplify(i + n * r), z3.simplify(j + n * c))
        spots = [at(r, c) for s, r, c in PLACES]

        def el(it, idx):
            for s in spots:
                if it.branch(z3.And(idx[0] == s[0], idx[1] == s[1])):
                    return 0.0
            return Num(app(it, 'F', idx), 'np')
        F = Arr([2 * n, 2 * n], el)
        v = [th.var(x) for x in ('a.a', 'a.b', 'b.a', 'b.b')]
        a, b = XK(v[0], v[1]), XK(v[2], v[3])
        fn = local_function(it, SUB, 'Subdiff', CALC, {'n': mkint(n), 'm': mkint(n)})
        for q in QUAL:
            it.ghost['verify', (SUB, q)] = 1
        r = it.call(fn, [F, mkint(i), mkint(j), a, b], {})
        it.oblige('calcSubgrad returns the matrix it was given', r is F)
        f = lambda s: number(it, F.el(it, list(s)))
        lo, hi = (product(th, w, *v) for w in ('klo', 'khi'))
        it.oblige('calcSubgrad: lower endpoint of the product', z(f(spots[0]) * v[2] + f(spots[1]) * v[3]) == z(lo))
        it.oblige('calcSubgrad: upper endpoint of the product', z(f(spots[2]) * v[2] + f(spots[3]) * v[3]) == z(hi))
        p, q = z3.Int('p'), z3.Int('q')
        it.assume(z3.And(p >= 0, p < 2 * n, q >= 0, q < 2 * n, *[z3.Not(z3.And(p == s[0], q == s[1])) for s in spots]))
        it.oblige('calcSubgrad: the other entries stay', z(f((p, q))) == z(app(it, 'F', [p, q])))
    return 'calcSubgrad', body


def formal_world(root):
    w = N.np_world(root, ghost=False, exact=True)
    e = w.externs
    w.contracts[(KI, 'SingleInterval')] = single
    e['numpy.linalg.solve'] = solve

    def norm(it, args, kw):
        p = it.th.fresh('norm')
        it.assume(it.th.z(p) >= 0)
        return Num(p, 'np')
    e['numpy.linalg.norm'] = norm
    for q in QUAL:
        w.contracts[(SUB, q)] = calc_contract
    w.loops[(SUB, 'Subdiff', 0)] = while_loop(Newton)
    w.loops[(SUB, 'Subdiff', 1)] = for_loop(Rows)
    w.loops[(SUB, 'Subdiff', 2)] = for_loop(Cols)
    return w


def case_subdiff():
    def body(it):
        z, th = it.th.z, it.th
        n = z3.Int('n')
        it.assume(n >= 1)
        it.ghost['n'], it.ghost['sizes'] = n, [n]
        sys = it.ghost['sys'] = System(it, n)
        A, b = kbox(it, 'A', [n, n]), kbox(it, 'b', [n])
        va, vb = data_of(A).version, data_of(b).version
        tau, tol, least = th.var('tau'), th.var('tol'), th.var('least')
        it.ghost['tau'] = tau
        it.assume(z3.And(z(least) >= 0, z(tol) >= 0))
        maxiter = z3.Int('maxiter')
        kw = dict(tau=Num(tau, 'float'), tol=Num(tol, 'float'), norm_min_val=Num(least, 'float'), maxiter=mkint(maxiter))
        try:
            r = it.call(fn_of(it, SUB, 'Subdiff'), [A, b], kw)
        except PyRaise as e:
            return it.oblige('raises only when a linear system is singular', issubclass(e.cls, N.LinAlgError))
        it.oblige('arguments unchanged', data_of(A).version == va and data_of(b).version == vb)
        a = as_arr(it, r)
        ok = isinstance(r, Inst) and r.cls.name == 'ArrayInterval' and len(a.shape) == 1 and R.same_dim(it, a.shape[0], n)
        it.oblige('an interval vector of n components', ok)
        if not ok:
            return
        last = it.ghost.get('last')
        if last is None:
            # no step was made: only with a negative number of iterations
            return it.oblige('at least one step unless the number of iterations is negative', maxiter < 0)
        X, D, M, rr, q, nit = last
        p, = index(it, [n])
        e = it.concrete(a.el(it, [p]))
        ok = isinstance(e, XK)
        it.oblige('components are intervals', ok)
        if not ok:
            return
        y = lambda j: (X(j)[0] - tau * D(j)[0], X(j)[1] - tau * D(j)[1])
        it.oblige('the component of the result is the last iterate', z3.And(z(e.a) == z(y(p)[0]), z(e.b) == z(y(p)[1])))
        it.oblige('stops with the residual criterion or after maxiter steps', z3.Or(z(rr) <= z(tol * q), nit > maxiter))
        # the linear piece: where the matrix also reproduces the products at y, the residual of y is (1 - tau) times that of x
        f = lambda s, k: app(it, M.name + s, [p, k])
        res, ry = sys.residual(X, p), sys.residual(y, p)
        for h, (s, t) in ((0, ('ll', 'lu')), (1, ('ul', 'uu'))):
            def fx(k, W):
                M.use(it, p, k)
                return Num(f(s, k) * W(k)[0] + f(t, k) * W(k)[1], 'np')
            prod = lambda k, W: Num(sys.products(W, p, k)[h], 'np')
            R.sum_eq(it, 'row of the matrix at x', Z, n, lambda k: fx(k, X), lambda k: prod(k, X))
            # contract of solve: row p of F d is the residual of x
            it.assume(z(sum_term(it, Z, n, lambda k: fx(k, D))) == z(res[h]))
            pc = list(it.pc)
            R.sum_eq(it, 'row of the matrix at y', Z, n, lambda k: fx(k, y), lambda k: prod(k, y), lambda k: z(fx(k, y).p) == z(prod(k, y).p))
            it.oblige('on the linear piece of x the residual of the result is (1 - tau) times that of x', z(ry[h]) == z(res[h] - tau * res[h]))
            it.pc[:] = pc
            it.ghost['epoch'] = it.ghost.get('epoch', 0) + 1
    return 'Subdiff', body


def cases24():
    return [case_calc(), case_subdiff()]
