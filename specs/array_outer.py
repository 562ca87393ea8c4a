"""Contracts of HBR and of Rohn's method for the united solution set over exact arithmetic, for systems of every size.

The member system is ghost data: M x = beta with M and beta members of the preconditioned matrix and right-hand side.
"""
import z3
from pyvc.interp import Num, Inst, Sym, PyRaise, Unsupported, tonum
from pyvc.ints import mkint
from pyvc.terms import K as const
from pyvc import arr as R, npw as N, exact as X
from pyvc.arr import app, sum_term, Arr, as_arr
from pyvc.exact import EI, ebox
from pyvc.npw import Invariant, while_loop, KI, INF
from .array_linear import fn_of, data_of
from .array_functionals import num, Z
from .array_tolerable import tolerable_world

HBR, ROHN, UT = 'intvalpy/linear/HBR.py', 'intvalpy/linear/Rohn.py', 'intvalpy/kernel/utils.py'
n_ = lambda p: Num(p, 'np')


class Quotient(Sym):
    """the quotient of two intervals: by its contract (P03) it contains p / q for every p and q in them"""
    is_interval = True

    def __init__(self, num, den):
        self.num, self.den = num, den

    def isinst(self, it, t):
        return getattr(t, 'name', t) in ('ClassicalArithmetic', 'BaseTools')

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name in ('__iter__', '__len__', 'shape', '_data', 'data'):
            raise PyRaise(AttributeError, (name,))
        raise Unsupported('attribute %s of a quotient' % name)

    def binop(self, it, op, other, reflected):
        raise Unsupported('operation on a quotient')

    unop = compare = binop


class Inverse:
    def __init__(self, of, name):
        self.of, self.name = of, name


def inverse(it, args, kw):
    """numpy.linalg.inv: the inverse in exact arithmetic, or LinAlgError"""
    a = as_arr(it, args[0]).copy()
    rs = it.ghost.setdefault('inverses', [])
    name = 'inv%d' % len(rs)
    if len(a.shape) != 2 or not R.same_dim(it, a.shape[0], a.shape[1]):
        raise Unsupported('inverse')
    if it.choose('singular ' + name):
        raise PyRaise(N.LinAlgError, ('singular',))
    out = Arr(a.shape, lambda it, idx: n_(app(it, name, idx)))
    rec = Inverse(a, name)
    rec.out, rec.version = out, out.version
    rs.append(rec)
    return out


def same_elements(it, a, b):
    with R.Binder(it, 'r', Z, a.shape[0]) as r, R.Binder(it, 'c', Z, a.shape[1]) as c:
        try:
            x, y = tonum(it.concrete(a.el(it, [r, c]))), tonum(it.concrete(b.el(it, [r, c])))
        except R.Split:
            return False
    return x is not None and y is not None and x.p == y.p


def real_product(it, a, b):
    """a matrix times its inverse"""
    for rec in it.ghost.get('inverses', []):
        if len(a.shape) == len(b.shape) == 2 and b is rec.out and b.version == rec.version and same_elements(it, a, rec.of):
            n = a.shape[0]
            return N.np_eye(it, [mkint(n)], {})
    if it.ghost.get('abstract'):
        # nothing is known of the factors an approximate inverse is made of
        for rec in it.ghost.get('inverses', []):
            if a is rec.out and len(b.shape) == 2:
                if not R.same_dim(it, a.shape[1], b.shape[0]):
                    return None
                q = it.ghost['nfactor'] = it.ghost.get('nfactor', 0) + 1
                out = Arr([a.shape[0], b.shape[1]], lambda it, idx: n_(app(it, 'R%d' % q, idx)))
                it.ghost.setdefault('approximate', []).append(out)
                return out
    return None


def interval_product(it, a, b):
    """real matrix times interval matrix or vector: an interval box that contains C a* for all members a* (P14)"""
    C, src = (as_arr(it, x).copy() for x in (a, b))
    if C.obj or len(C.shape) != 2 or not src.obj or isinstance(a, Inst):
        return None
    if not R.same_dim(it, C.shape[1], src.shape[0]):
        return None
    if not same_source(it, src):
        return None
    ps = it.ghost.setdefault('products', [])
    name = 'P%d' % len(ps)
    ps.append((C, src, name))
    return ebox(it, name, [C.shape[0]] + list(src.shape[1:]))


def same_source(it, src):
    """the elements of the matrix or right-hand side the method was given"""
    name = {2: 'A', 1: 'b'}.get(len(src.shape))
    if name is None or not it.ghost.get('system'):
        return False
    n = it.ghost['system'][0]
    m = it.ghost['system'][1]
    if not R.same_dim(it, src.shape[0], n) or len(src.shape) == 2 and not R.same_dim(it, src.shape[1], m):
        return False
    ks = [R.Binder(it, 's', Z, d) for d in src.shape]
    idx = [k.__enter__() for k in ks]
    try:
        e = it.concrete(src.el(it, idx))
        f = X.interval(it, name, idx)
        return isinstance(e, EI) and e.mid == f.mid and e.rad == f.rad
    except R.Split:
        return False
    finally:
        for k in reversed(ks):
            k.__exit__()


def compmat(it, fn, args, kw):
    """the comparison matrix (P27): mig on the diagonal, -mag elsewhere"""
    a = as_arr(it, args[0]).copy()
    if len(a.shape) != 2:
        raise Unsupported('compmat')
    q = it.ghost['ncompmat'] = it.ghost.get('ncompmat', 0) + 1

    def el(it, idx):
        p = app(it, 'comp%d' % q, idx)
        key = ('comp', q) + tuple(i.sexpr() for i in idx)
        if key not in it.th.table:
            it.th.table[key] = p
            e = it.concrete(a.el(it, idx))
            z = it.th.z
            it.th.fixed.append(z(p) == z3.If(idx[0] == idx[1], z(e.mig(it)), -z(e.mag(it))))
        return n_(p)
    return Arr(a.shape, el)


def outer_world(root):
    w = tolerable_world(root)
    e = w.externs
    e['::quotient'] = lambda it, p, q: Quotient(p, q)
    e['::divisor'] = lambda it, b: it.ghost.setdefault('divisors', []).append(b)
    e['::realmatmul'] = real_product
    e['::matmul'] = interval_product
    e['numpy.linalg.inv'] = inverse
    w.contracts[(UT, 'compmat')] = compmat
    w.loops[(ROHN, '_Rohn_Uni', 0)] = while_loop(Iterates)
    return w


# ------------------------------------------------------------------ arguments about sums
class Proof:
    def __init__(self, it, n):
        self.it, self.n, self.z, self.th = it, n, it.th.z, it.th

    def inside(self, i, n=None):
        return z3.And(i >= 0, i < (self.n if n is None else n))

    def generic(self, name):
        i = z3.Int(name)
        self.it.assume(self.inside(i))
        return i

    def total(self, f, lo=None, hi=None):
        return sum_term(self.it, Z if lo is None else lo, self.n if hi is None else hi, lambda k: n_(f(k)))

    def around(self, i, f):
        """the sum without the term i"""
        it, n = self.it, self.n
        g = lambda k: n_(f(k))
        R.sum_split(it, Z, i, n, g)
        R.sum_unfold_first(it, i, n, g)
        return self.total(f, Z, i) + self.total(f, z3.simplify(i + 1), n)

    def leq(self, name, f, g, given=None, around=None):
        """sum f <= sum g, in the terms other than `around`; `given` has been shown for every index"""
        it = self.it
        F, G = (lambda k: n_(f(k))), (lambda k: n_(g(k)))
        if around is None:
            return R.sum_leq(it, name, Z, self.n, F, G, given)
        self.around(around, f), self.around(around, g)
        R.sum_leq(it, name, Z, around, F, G, given)
        R.sum_leq(it, name, z3.simplify(around + 1), self.n, F, G, given)

    def suppose(self, f, then):
        """proves `then` under the supposition; what is learned there ends with it"""
        it = self.it
        pc = list(it.pc)
        it.assume(f)
        then()
        it.pc[:] = pc
        it.ghost['epoch'] = it.ghost.get('epoch', 0) + 1

    def impossible(self, name, f, why):
        def then():
            why()
            self.it.oblige(name, False)
        self.suppose(f, then)
        self.it.assume(z3.Not(f))

    def least_ratio(self, name, f, v):
        """a position where f / v is least (v > 0, finitely many positions), and its defining property"""
        p = z3.Int(name)
        self.it.assume(self.inside(p))
        z = self.z
        return p, lambda j: z(f(p) * v(j)) <= z(f(j) * v(p))


def abstract_member(it, n, ps):
    """the member system C a* x = C b* is a member of the preconditioned one"""
    if len(ps) != 2 or len(ps[0][1].shape) != 2 or len(ps[1][1].shape) != 1:
        raise Unsupported('the system is not preconditioned as the contract expects')
    (C1, sa, na), (C2, sb, nb) = ps
    with R.Binder(it, 'r', Z, C1.shape[0]) as r, R.Binder(it, 'c', Z, C1.shape[1]) as c:
        x, y = num(it, C1.el(it, [r, c])), num(it, C2.el(it, [r, c]))
        it.oblige('matrix and right-hand side are multiplied by the same matrix', it.th.z(x) == it.th.z(y))
    M = lambda i, j: app(it, 'M', [i, j])
    beta = lambda i: app(it, 'beta', [i])
    z = it.th.z
    PA, PB = (lambda i, j: X.interval(it, na, [i, j])), (lambda i: X.interval(it, nb, [i]))
    inA = lambda i, j: z3.And(z(PA(i, j).lo) <= z(M(i, j)), z(M(i, j)) <= z(PA(i, j).hi))
    inB = lambda i: z3.And(z(PB(i).lo) <= z(beta(i)), z(beta(i)) <= z(PB(i).hi))
    return PA, PB, M, beta, inA, inB


def case_preconditioned():
    """lemma: if a x = b in every row, then (C a) x = C b in every row"""
    def body(it):
        n, m, i = z3.Int('n'), z3.Int('m'), z3.Int('i')
        it.assume(z3.And(n >= 1, m >= 1))
        C, A = (lambda i, k: app(it, 'C', [i, k])), (lambda k, j: app(it, 'a*', [k, j]))
        x, b = (lambda j: app(it, 'x', [j])), (lambda k: app(it, 'b*', [k]))
        z = it.th.z
        ax = lambda k: sum_term(it, Z, m, lambda j: n_(A(k, j) * x(j)))
        R.sum_swap(it, Z, m, Z, n, lambda j, k: n_(C(i, k) * A(k, j) * x(j)))
        lhs = sum_term(it, Z, m, lambda j: n_(sum_term(it, Z, n, lambda k: n_(C(i, k) * A(k, j))) * x(j)))
        R.sum_eq(it, 'row of the member system', Z, n, lambda k: n_(C(i, k) * ax(k)), lambda k: n_(C(i, k) * b(k)), lambda k: z(ax(k)) == z(b(k)))
        it.oblige('row of the preconditioned member system', z(lhs) == z(sum_term(it, Z, n, lambda k: n_(C(i, k) * b(k)))))
    return 'lemma: preconditioned member systems', body


def case_hbr():
    def body(it):
        th, z = it.th, it.th.z
        n = z3.Int('n')
        it.assume(n >= 1)
        it.ghost['sizes'], it.ghost['system'] = [n], (n, n)
        A, b = ebox(it, 'A', [n, n]), ebox(it, 'b', [n])
        vs = [data_of(A).version, data_of(b).version]
        try:
            r = it.call(fn_of(it, HBR, 'HBR'), [A, b], {})
        except PyRaise as e:
            return it.oblige('raises only for a singular matrix or one that is no H-matrix', issubclass(e.cls, (N.LinAlgError, AssertionError)))
        it.oblige('arguments unchanged', vs == [data_of(A).version, data_of(b).version])
        a = as_arr(it, r)
        ok = len(a.shape) == 1 and R.same_dim(it, a.shape[0], n)
        it.oblige('one component per unknown', ok)
        if not ok:
            return
        P = Proof(it, n)
        PA, PB, M, beta, inA, inB = abstract_member(it, n, it.ghost.get('products', []))
        rec = it.ghost['inverses'][-1]
        Kf = lambda i, j: num(it, rec.of.el(it, [i, j]))
        B = lambda i, j: app(it, rec.name, [i, j])
        V = lambda j: th.abs(P.total(lambda k: B(j, k)))
        U = lambda i: P.total(lambda j: Kf(i, j) * V(j))
        KB = lambda i, j: P.total(lambda k: Kf(i, k) * B(k, j))
        BK = lambda i, j: P.total(lambda k: B(i, k) * Kf(k, j))
        delta = lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0))
        i, c = P.generic('i'), P.generic('c')
        # the comparison matrix
        it.oblige('the inverted matrix is the comparison matrix', z(Kf(i, c)) == z3.If(i == c, z(PA(i, c).mig(it)), -z(PA(i, c).mag(it))))
        # the H-matrix test
        R.instances(it, [i])
        it.oblige('the test assures positive row sums', z(U(i)) > 0)
        P.impossible('the test vector is positive', z(V(i)) <= 0, lambda: P.leq('terms of a zero component', lambda j: Kf(i, j) * V(j), lambda j: const(0)))
        positive = lambda j: z(V(j)) > 0
        # the inverse is not negative: column c at the position of the least ratio
        p, least = P.least_ratio('p', lambda j: B(j, c), V)
        R.instances(it, [p])
        it.assume(positive(p))
        it.assume(z(KB(p, c)) == delta(p, c))
        P.impossible('the least entry of a column of the inverse is not negative', z(B(p, c)) < 0, lambda: P.leq(
            'a column at its least ratio', lambda j: Kf(p, j) * B(j, c) * V(p), lambda j: Kf(p, j) * V(j) * B(p, c),
            lambda j: z3.And(positive(j), least(j)), around=p))
        j = P.generic('j')
        it.assume(z3.And(positive(j), least(j)))
        it.oblige('the inverse is not negative', z(B(j, c)) >= 0)
        nonneg = lambda s, t: z(B(s, t)) >= 0
        # diagonal of the inverse
        it.assume(z3.And(nonneg(i, i), z(KB(i, i)) == 1))
        P.leq('the other terms of a diagonal entry', lambda k: Kf(i, k) * B(k, i), lambda k: const(0), lambda k: nonneg(k, i), around=i)
        it.oblige('diagonal entries', z(Kf(i, i) * B(i, i)) >= 1)
        it.oblige('the diagonal of the inverse is positive', z(B(i, i)) > 0)
        # a member system
        xs = lambda k: app(it, 'x*', [k])
        y = lambda k: th.abs(xs(k))
        row = lambda q: P.total(lambda k: Kf(q, k) * y(k))
        mb = lambda q: PB(q).mag(it)
        eq = lambda q: z(P.total(lambda k: M(q, k) * xs(k))) == z(beta(q))
        it.assume(z3.And(eq(j), inB(j), inA(j, j)))

        def rows(sg):
            P.leq('a row of the comparison system', lambda k: Kf(j, k) * y(k), lambda k: (M(j, k) * xs(k)).scale(sg), lambda k: inA(j, k), around=j)
            it.oblige('rows of the comparison system', z(row(j)) <= z(mb(j)))
        for sg in (1, -1):
            P.suppose(z((M(j, j) * xs(j)).scale(sg)) >= 0, lambda: rows(sg))
        bounded = lambda q: z(row(q)) <= z(mb(q))
        # component i through row i of the inverse
        R.sum_swap(it, Z, n, Z, n, lambda s, k: n_(B(i, k) * Kf(k, s) * y(s)))
        P.around(i, lambda s: BK(i, s) * y(s))
        for lo, hi in ((Z, i), (z3.simplify(i + 1), n)):
            R.sum_eq(it, 'row of the identity', lo, hi, lambda s: n_(BK(i, s) * y(s)), lambda s: n_(const(0)), lambda s: z(BK(i, s)) == delta(i, s))
        it.assume(z(BK(i, i)) == 1)
        it.oblige('a component by the rows', z(y(i)) == z(P.total(lambda k: B(i, k) * row(k))))
        P.leq('bounds of the rows', lambda k: B(i, k) * row(k), lambda k: B(i, k) * mb(k), lambda k: z3.And(nonneg(i, k), bounded(k)), around=i)
        u, d, t, m = P.total(lambda k: B(i, k) * mb(k)), B(i, i), row(i), mb(i)
        it.oblige('bound of a component', z(y(i)) <= z(u + d * t - d * m))
        P.leq('terms of the bound', lambda k: const(0), lambda k: B(i, k) * mb(k), lambda k: nonneg(i, k), around=i)
        it.oblige('bound of the own term', z(u) >= z(d * m))
        # row i
        it.assume(z3.And(eq(i), inA(i, i), inB(i)))
        for sg in (1, -1):
            P.leq('the other terms of the row', lambda k: (M(i, k) * xs(k)).scale(sg), lambda k: -Kf(i, k) * y(k), lambda k: inA(i, k), around=i)
        rest = M(i, i) * xs(i) - beta(i)
        for sg in (1, -1):
            it.oblige('what the other terms add up to', z(rest.scale(sg)) <= z(Kf(i, i) * y(i) - t))
        # the result
        ds = it.ghost.get('divisors', [])
        it.oblige('one division', len(ds) == 1 and len(ds[0].shape) == 1)
        e = it.concrete(a.el(it, [i]))
        ok = isinstance(e, Quotient)
        it.oblige('components are quotients', ok)
        if not ok:
            return
        den = it.concrete(ds[0].el(it, [i]))
        it.oblige('the divisor is the one of the result', isinstance(den, EI) and den.mid == e.den.mid and den.rad == e.den.rad)
        inv = th.inv(d)
        alpha, bt = Kf(i, i) - inv, u * inv - m
        it.oblige('alpha is not negative', z(alpha) >= 0)
        it.oblige('beta is not negative', z(bt) >= 0)
        it.oblige('bound of the rest', z(Kf(i, i) * y(i) - t) <= z(alpha * y(i) + bt))
        it.oblige('divisor', z3.And(z(e.den.mid) == z(PA(i, i).mid), z(e.den.rad) == z(PA(i, i).rad + alpha)), 'strong')
        it.oblige('dividend', z3.And(z(e.num.mid) == z(PB(i).mid), z(e.num.rad) == z(PB(i).rad + bt)), 'strong')
        it.oblige('no division by zero', z3.Or(z(e.den.lo) > 0, z(e.den.hi) < 0))
        # a dividend and a divisor whose quotient is x_i: the share s of the bound
        s, ah, bh = th.fresh('share'), th.fresh('alpha'), th.fresh('beta')
        it.assume(z3.And(z(ah) == z(alpha), z(bh) == z(bt)))
        it.assume(z3.And(z(s) <= 1, z(s) >= -1, z(s * (ah * y(i) + bh)) == z(rest)))
        share = z3.And(z(s) <= 1, z(s) >= -1)
        for t in (ah, bh):
            it.oblige_about('a share of the bound', {'share', 'alpha', 'beta'}, z3.Implies(z3.And(share, z(t) >= 0), z3.And(z(s * t) <= z(t), -z(t) <= z(s * t))))
            it.assume(z3.And(z(s * t) <= z(t), -z(t) <= z(s * t)))
        alpha, bt = ah, bh
        for sg in (1, -1):
            def witness():
                q = M(i, i) - (s * alpha).scale(sg)
                p = beta(i) + s * bt
                it.oblige('the divisor of the solution is in range', z3.And(z(e.den.lo) <= z(q), z(q) <= z(e.den.hi)))
                it.oblige('the dividend of the solution is in range', z3.And(z(e.num.lo) <= z(p), z(p) <= z(e.num.hi)))
                it.oblige('the solution is the quotient', z(q * xs(i)) == z(p))
            P.suppose(z(xs(i).scale(sg)) >= 0, witness)
    return 'HBR', body


class Iterates(Invariant):
    """result = G d + g + tol after a step from d, with r = G^k 1 and q = G^0 1 + ... + G^(k-1) 1 of the steps before"""
    keep = ('d',)

    def parts(self, it, env):
        m = it.ghost['system'][1]
        rs, error = as_arr(it, env.v['result']), env.v['error']
        it.oblige('one iterate per unknown', len(rs.shape) == 1 and R.same_dim(it, rs.shape[0], m))
        return rs, error

    def products(self, it):
        ps = it.ghost.get('products', [])
        if len(ps) != 2 or len(ps[0][1].shape) != 2 or len(ps[1][1].shape) != 1:
            raise Unsupported('the system is not preconditioned as the contract expects')
        return ps

    def name(self, it, env):
        """the matrix and the vector of the iteration get names, for all the rest of the run"""
        m = it.ghost['system'][1]
        G, g, x0 = (as_arr(it, env.v[v]).copy() for v in ('G', 'g', 'x0'))
        it.oblige('sizes of the iteration', len(G.shape) == 2 and all(R.same_dim(it, d, m) for a in (G, g, x0) for d in a.shape) and len(g.shape) == len(x0.shape) == 1)
        it.ghost['iteration'] = G, g, x0
        z, th, P = it.th.z, it.th, Proof(it, m)
        s, t = P.generic('s'), P.generic('t')
        (C1, sa, na), (C2, sb, nb) = self.products(it)
        rad = lambda k, j: X.interval(it, na, [k, j]).rad
        Rs = it.ghost.get('approximate', [])
        if not Rs:
            raise Unsupported('no approximate inverse')
        Rf = lambda i, k: num(it, Rs[-1].el(it, [i, k]))
        actual = lambda i, j: num(it, G.el(it, [i, j]))
        P.leq('terms of the radius', lambda k: const(0), lambda k: th.abs(Rf(s, k)) * rad(k, t), lambda k: z(rad(k, t)) >= 0)
        S = P.total(lambda k: th.abs(Rf(s, k)) * rad(k, t))
        RM = P.total(lambda k: Rf(s, k) * X.interval(it, na, [k, t]).mid)
        for f, d in ((s == t, 1), (s != t, 0)):
            P.suppose(f, lambda: it.oblige('matrix of the iteration', z(actual(s, t)) >= z(th.abs(const(d) - RM) + S)))
        it.oblige('the matrix of the iteration is not negative', z(S) >= 0)
        x0f = lambda j: num(it, x0.el(it, [j]))
        w = lambda k: P.total(lambda j: rad(k, j) * th.abs(x0f(j)))
        k = P.generic('k0')
        P.leq('terms of a residual', lambda j: const(0), lambda j: rad(k, j) * th.abs(x0f(j)), lambda j: z(rad(k, j)) >= 0)
        rb = lambda k: X.interval(it, nb, [k]).rad
        P.leq('terms of the vector', lambda k: const(0), lambda k: th.abs(Rf(s, k)) * (w(k) + rb(k)), lambda k: z3.And(z(w(k)) >= 0, z(rb(k)) >= 0))
        it.oblige('the vector of the iteration is not negative', z(num(it, g.el(it, [s]))) >= 0)
        env.v['G'] = Arr(G.shape, lambda it, idx: n_(app(it, 'G', idx)))
        env.v['g'] = Arr(g.shape, lambda it, idx: n_(app(it, 'g', idx)))

    def prove(self, it, env, k, stage):
        z, th = it.th.z, it.th
        if stage == 'entry':
            self.name(it, env)
            rs, error = self.parts(it, env)
            i = z3.Int('i0')
            it.assume(z3.And(i >= 0, i < rs.shape[0]))
            it.oblige('the first iterate is zero', z(num(it, rs.el(it, [i]))) == 0)
            self.tol = tonum(it.concrete(env.v['tol'])).p
            return
        m = it.ghost['system'][1]
        P = Proof(it, m)
        rs, error = self.parts(it, env)
        i = P.generic('i1')
        j = P.generic('j1')
        new = lambda i: num(it, rs.el(it, [i]))
        row = lambda f: P.total(lambda j: app(it, 'G', [i, j]) * f(j))
        g = app(it, 'g', [i])
        nonneg = lambda j: z(app(it, 'G', [i, j])) >= 0
        it.assume(nonneg(j))
        it.oblige('an iterate comes from the one before', z(new(i)) == z(row(self.res) + g + self.tol))
        N.extremes_at(it, [i])
        e = tonum(it.concrete(error)).p
        for sg in (1, -1):
            it.oblige('the error bounds the change', z((new(i) - self.res(i)).scale(sg)) <= z(e))
        if not self.started:
            # r = 1, q = 0
            it.assume(z(g) >= 0)
            it.oblige('change of the first step', z(new(i) - self.res(i)) >= z(self.tol))
            return
        r, q, D = self.r, self.q, self.D
        self.facts(it, i), self.facts(it, j)
        P.leq('r stays not negative', lambda j: const(0), lambda j: app(it, 'G', [i, j]) * r(j), lambda j: z3.And(nonneg(j), z(r(j)) >= 0))
        it.oblige('r is not negative', z(row(r)) >= 0)
        it.oblige('q is not negative', z(q(i) + r(i)) >= 0)
        it.oblige('q and r', z(row(lambda j: q(j) + r(j))) == z(q(i) + r(i) + row(r) - const(1)))
        P.leq('change of an iterate', lambda j: app(it, 'G', [i, j]) * r(j) * self.tol, lambda j: app(it, 'G', [i, j]) * (self.res(j) - D(j)),
              lambda j: z3.And(nonneg(j), z(self.res(j) - D(j)) >= z(r(j) * self.tol)))
        it.oblige('change of a step', z(new(i) - self.res(i)) >= z(row(r) * self.tol))

    def facts(self, it, i):
        z = it.th.z
        m = it.ghost['system'][1]
        row = lambda f: sum_term(it, Z, m, lambda j: n_(app(it, 'G', [i, j]) * f(j)))
        it.assume(z3.And(z(self.res(i)) == z(row(self.D) + app(it, 'g', [i]) + self.tol), z(self.r(i)) >= 0, z(self.q(i)) >= 0,
                         z(row(self.q)) == z(self.q(i) + self.r(i) - const(1)), z(self.res(i) - self.D(i)) >= z(self.r(i) * self.tol),
                         z(self.res(i) - self.D(i)) <= z(self.error), z(self.D(i) - self.res(i)) <= z(self.error)))

    def havoc(self, it, env, k):
        m = it.ghost['system'][1]
        self.started = it.choose('a step was made')
        if not self.started:
            self.res = lambda i: const(0)
            env.v['error'] = INF
            env.v['result'] = Arr([m], lambda it, idx: n_(const(0)))
            env.v['nit'] = 0
            return
        self.res, self.D, self.r, self.q = (lambda i, a=a: app(it, a, [i]) for a in ('result', 'D', 'r', 'q'))
        env.v['result'] = Arr([m], lambda it, idx: n_(app(it, 'result', idx)))
        self.error = it.th.fresh('error')
        env.v['error'] = n_(self.error)
        k = z3.Int('nit')
        it.assume(k >= 0)
        env.v['nit'] = mkint(k)
        it.ghost['last'] = self

    def exit(self, it, env):
        it.ghost['iterations'] = self


def case_rohn():
    def body(it):
        th, z = it.th, it.th.z
        n, m = z3.Int('n'), z3.Int('m')
        it.assume(z3.And(n >= 1, m >= 1))
        it.ghost['sizes'], it.ghost['system'], it.ghost['abstract'] = [n, m], (n, m), True
        A, b = ebox(it, 'A', [n, m]), ebox(it, 'b', [n])
        vs = [data_of(A).version, data_of(b).version]
        try:
            maxiter = z3.Int('maxiter')
            r = it.call(fn_of(it, ROHN, 'Rohn'), [A, b], {'tol': n_(th.fresh('tol')), 'maxiter': mkint(maxiter)})
        except PyRaise as e:
            if not issubclass(e.cls, N.LinAlgError):
                last = it.ghost.get('iterations')
                it.oblige('raises only for a singular matrix or an iteration that did not converge', last is not None and (
                    not last.started or z(last.error) >= z(last.tol)))
            return
        it.oblige('arguments unchanged', vs == [data_of(A).version, data_of(b).version])
        a = as_arr(it, r)
        ok = len(a.shape) == 1 and R.same_dim(it, a.shape[0], m)
        it.oblige('one component per unknown', ok)
        if not ok:
            return
        P = Proof(it, m)
        PA, PB, M, beta, inA, inB = abstract_member(it, n, it.ghost.get('products', []))
        last = it.ghost['iterations']
        it.oblige('the first iterate is never accepted', last.started)
        G, g, x0a = it.ghost['iteration']
        Rm = it.ghost['approximate'][-1]
        Rf = lambda i, k: num(it, Rm.el(it, [i, k]))
        x0 = lambda j: num(it, x0a.el(it, [j]))
        xs = lambda k: app(it, 'x*', [k])
        e = lambda j: xs(j) - x0(j)
        y = lambda j: th.abs(e(j))
        i, k, j = P.generic('i'), P.generic('k'), P.generic('j')
        # row k of the member system
        it.assume(z3.And(inA(k, j), inB(k), z(P.total(lambda j: M(k, j) * xs(j))) == z(beta(k))))
        mid, rad = (lambda k, j: PA(k, j).mid), (lambda k, j: PA(k, j).rad)
        rho = lambda k: P.total(lambda j: mid(k, j) * x0(j)) - PB(k).mid
        me = lambda k: P.total(lambda j: mid(k, j) * e(j))
        w0 = lambda k: P.total(lambda j: rad(k, j) * th.abs(x0(j))) + PB(k).rad
        w1 = lambda k: P.total(lambda j: rad(k, j) * y(j))
        for sg in (1, -1):
            P.leq('terms of a row', lambda j: ((mid(k, j) - M(k, j)) * xs(j)).scale(sg), lambda j: rad(k, j) * (th.abs(x0(j)) + y(j)), lambda j: inA(k, j))
            it.oblige('residual of a row', z((rho(k) + me(k)).scale(sg)) <= z(w0(k) + w1(k)))
        small = lambda k: z3.And(*[z((rho(k) + me(k)).scale(sg)) <= z(w0(k) + w1(k)) for sg in (1, -1)])
        # component i
        delta = lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0))
        RM = lambda i, j: P.total(lambda k: Rf(i, k) * mid(k, j))
        R.sum_swap(it, Z, m, Z, m, lambda j, k: n_(Rf(i, k) * mid(k, j) * e(j)))
        R.sum_swap(it, Z, m, Z, m, lambda j, k: n_(th.abs(Rf(i, k)) * rad(k, j) * y(j)))
        for sg in (1, -1):
            P.leq('rows of the product', lambda k: (Rf(i, k) * (rho(k) + me(k))).scale(sg), lambda k: th.abs(Rf(i, k)) * (w0(k) + w1(k)), small)
        Gf = lambda i, j: app(it, 'G', [i, j])
        S = lambda i, j: P.total(lambda k: th.abs(Rf(i, k)) * rad(k, j))
        known = lambda j: z(Gf(i, j)) >= z3.If(i == j, z(th.abs(const(1) - RM(i, i)) + S(i, i)), z(th.abs(RM(i, j)) + S(i, j)))
        it.assume(known(i))
        for sg in (1, -1):
            P.leq('terms of the contraction', lambda j: (-RM(i, j) * e(j)).scale(sg), lambda j: (Gf(i, j) - S(i, j)) * y(j), known, around=i)
            it.oblige('own term of the contraction', z((e(i) - RM(i, i) * e(i)).scale(sg)) <= z((Gf(i, i) - S(i, i)) * y(i)))
            it.oblige('error of a component', z(e(i).scale(sg)) <= z(P.total(lambda j: Gf(i, j) * y(j)) + num(it, g.el(it, [i]))))
        error = lambda i: z(y(i)) <= z(P.total(lambda j: Gf(i, j) * y(j)) + app(it, 'g', [i]))
        # the comparison of the errors with the iterates
        p, least = P.least_ratio('p', lambda j: last.D(j) - y(j), last.q)
        last.facts(it, p), last.facts(it, i), last.facts(it, j)
        it.oblige('accepted only when the last change was below the tolerance', z(last.error) < z(last.tol))
        D, q = last.D, last.q
        u = lambda j: D(j) - y(j)
        row = lambda i, f: P.total(lambda j: Gf(i, j) * f(j))
        nonneg = lambda i, j: z(Gf(i, j)) >= 0
        for s in (p, i, j):
            # tol r <= change of the last step < tol, hence r < 1 and G q < q
            P.leq('terms of q', lambda j: const(0), lambda j: Gf(s, j) * q(j), lambda j: z3.And(nonneg(s, j), z(q(j)) >= 0))
            r = last.r(s)
            P.impossible('the last steps contract', z(r) >= 1, lambda: it.oblige('change of the last step', z(last.tol) <= z(r * last.tol)))
            it.oblige('q is positive and G q is less', z3.And(z(q(s)) > 0, z(row(s, q)) < z(q(s))))
        it.assume(error(p))
        P.impossible('the least difference is not negative', z(u(p)) < 0, lambda: compare(it, P, Gf, u, q, p, least, nonneg))
        it.assume(least(i))
        it.oblige('the last iterate bounds the error', z(u(i)) >= 0)
        el = it.concrete(a.el(it, [i]))
        ok = isinstance(el, EI)
        it.oblige('components are intervals', ok)
        if ok:
            it.oblige('the solution lies in the result', z3.And(z(el.lo) <= z(xs(i)), z(xs(i)) <= z(el.hi)))
    return 'Rohn, united solution set', body


def compare(it, P, Gf, u, q, p, least, nonneg):
    z = it.th.z
    P.leq('a row at the least ratio', lambda j: Gf(p, j) * q(j) * u(p), lambda j: Gf(p, j) * u(j) * q(p), lambda j: z3.And(nonneg(p, j), least(j)))
    rq, ru = (P.total(lambda j: Gf(p, j) * f(j)) for f in (q, u))
    it.oblige('difference at the least ratio', z(u(p)) >= z(ru))
    it.oblige('product with the least ratio', z(rq * u(p)) <= z(ru * q(p)))


def cases20():
    return [case_preconditioned(), case_hbr(), case_rohn()]
