"""Contracts of Krawczyk and HansenSengupta: ghost root r of the function in the initial box.

The user's func and J are taken by contract: func is an inclusion function, J an interval extension of the Jacobian on
a box, so by the mean value theorem f(r) - f(c) = M (r - c) for some M in J(X) whenever r and c lie in X.  func at a
point c therefore has the member - M (r - c), func at a box that contains r the member 0.
"""
import z3
from pyvc.interp import Num, PyRaise, Unsupported, Extern
from pyvc.ints import IntV, mkint
from pyvc.terms import K
from pyvc import arr as R, npw as N
from pyvc.arr import app, iz, sum_term, Arr, as_arr
from pyvc.npw import GI, gbox, box, member, np_world, Invariant, while_loop, KI
from .array_linear import GSEIDEL, xs, dim, data_of, fn_of

EXT = 'intvalpy/nonlinear/external_evaluation.py'
Z = z3.IntVal(0)


def is_box(v):
    return not isinstance(v, (GI, Num))


class User:
    """the user's function and Jacobian"""
    def __init__(self, it, n):
        self.it, self.n = it, n          # n None: one unknown
        self.X = self.c = None

    def m(self, i, j):
        it = self.it
        return app(it, 'M', [i, j]) if self.n is not None else it.th.var('M')

    def r(self, i):
        return xs(self.it, i) if self.n is not None else self.it.th.var('r')

    def root(self, i, v):
        it = self.it
        return v.m is not None and (v.m == self.r(i) or R.valid(it, it.th.z(v.m) == it.th.z(self.r(i))))

    def classify(self, v):
        """-> 'box' (contains the root) or 'point'"""
        it = self.it
        if self.n is None:
            e = it.concrete(v)
            q = Z
        else:
            a = as_arr(it, v)
            if len(a.shape) != 1 or not R.same_dim(it, a.shape[0], self.n):
                raise Unsupported('argument of the function')
            a = a.copy()
            q = z3.Int('arg')
            g = z3.And(q >= 0, q < self.n)
            it.ghost.setdefault('binders', []).append(('arg', [g]))
            try:
                e = it.concrete(a.el(it, [q]))
                return self.kind(q, e), (lambda i: member(it, a.el(it, [i]))), (lambda i: a.el(it, [i]))
            finally:
                it.ghost['binders'].pop()
        return self.kind(q, e), (lambda i: member(it, e)), (lambda i: e)

    def kind(self, q, e):
        if isinstance(e, GI):
            if self.root(q, e):
                return 'box'
            if e._lo is not None and e._hi is not None and e.m is not None and e._lo == e._hi == e.m:
                return 'point'
        raise Unsupported('an argument of the function of which nothing is known')

    def centre_inside(self):
        if self.X is None or self.c is None:
            return
        it = self.it
        q = z3.Int('ctr')
        pc = list(it.pc)
        if self.n is not None:
            it.assume(z3.And(q >= 0, q < self.n))
        x, c = self.X(q), it.th.z(self.c(q))
        it.oblige('the point at which the function is evaluated lies in the box of the Jacobian', z3.And(it.th.z(x.end(it, 'lo')) <= c, c <= it.th.z(x.end(it, 'hi'))))
        it.pc[:] = pc
        it.ghost['epoch'] = it.ghost.get('epoch', 0) + 1

    def func(self, it, args, kw):
        kind, mem, el = self.classify(args[0])
        nf = it.ghost.setdefault('nf', 0)
        it.ghost['nf'] += 1
        if kind == 'box':
            zero = lambda idx: GI(K(0), key=('f', nf) + tuple(i.sexpr() for i in idx))
            return zero([]) if self.n is None else box(it, [self.n], lambda it, idx: zero(idx))
        if self.c is not None:
            raise Unsupported('the function is evaluated at several points')
        self.c = mem
        self.centre_inside()
        if self.n is None:
            return GI(-self.m(Z, Z) * (self.r(Z) - mem(Z)), key=('f', nf))
        return box(it, [self.n], lambda it, idx: GI(
            -sum_term(it, Z, self.n, lambda j: Num(self.m(idx[0], j) * (self.r(j) - mem(j)), 'np')), key=('f', nf, idx[0].sexpr())))

    def jac(self, it, args, kw):
        kind, mem, el = self.classify(args[0])
        if kind != 'box' or self.X is not None:
            raise Unsupported('argument of the Jacobian')
        self.X = el
        self.centre_inside()
        if self.n is None:
            return GI(self.m(Z, Z), key=('J',))
        return box(it, [self.n, self.n], lambda it, idx: GI(self.m(idx[0], idx[1]), key=('J',) + tuple(i.sexpr() for i in idx)))


class Contract(Invariant):
    """result contains the root and lies in the initial box; c is the midpoint of result"""
    def havoc(self, it, env, k):
        u = it.ghost['user']
        u.X = u.c = None
        n, x0 = u.n, it.ghost['x0']
        q = it.ghost.setdefault('nst', 0)
        it.ghost['nst'] += 1
        if n is None:
            res = GI(u.r(Z), key=('X', q), over=(x0,))
            env.v['result'] = res
        else:
            x0d = data_of(x0).copy()
            env.v['result'] = box(it, [n], lambda it, idx: GI(u.r(idx[0]), key=('X', q, idx[0].sexpr()), over=(x0d.el(it, idx),)))
        env.v['pre_result'] = env.v['result'] if n is None else gbox(it, 'pre%d' % q, [n])
        env.v['c'] = it.call(fn_of(it, 'intvalpy/kernel/preprocessing.py', 'asinterval'), [it.getattr(env.v['result'], 'mid')], {})
        env.v['error'] = Num(it.th.fresh('error'), 'np')
        env.v['nit'] = mkint(z3.Int('nit%d' % q))
        if n is not None:
            # exchange of the sums in the preconditioned system, for every row that is looked at
            i = it.ghost['row'] = z3.Int('row')
            it.assume(z3.And(i >= 0, i < n))

    def prove(self, it, env, k, stage):
        check_state(it, env.v['result'], 'loop, ' + stage)
        u = it.ghost['user']
        q = z3.Int('mid')
        if u.n is not None:
            it.assume(z3.And(q >= 0, q < u.n))
            c, x = data_of(env.v['c']).el(it, [q]), data_of(env.v['result']).el(it, [q])
        else:
            c, x = env.v['c'], env.v['result']
        mid = it.getattr(x, 'mid')
        it.oblige('c is the midpoint of result (%s)' % stage, it.th.z(member(it, c)) == it.th.z(mid.p))


def swap(it, i):
    """facts about row i of the preconditioned system"""
    u = it.ghost['user']
    n = u.n
    lam = it.ghost['lam']
    if u.c is None or lam is None:
        return
    for f in (lambda k, j: Num(app(it, lam, [i, k]) * u.m(k, j) * u.r(j), 'np'), lambda k, j: Num(app(it, lam, [i, k]) * u.m(k, j) * u.c(j), 'np')):
        R.sum_swap(it, Z, n, Z, n, f)
        g = lambda j: Num(sum_term(it, Z, n, lambda k: f(k, j)), 'np')
        R.sum_split(it, Z, i, n, g)
        R.sum_unfold_first(it, i, n, g)


def check_state(it, res, where):
    u, x0 = it.ghost['user'], it.ghost['x0']
    q = Z
    if u.n is None:
        e, e0 = it.concrete(res), x0
    else:
        q = z3.Int('comp')
        it.assume(z3.And(q >= 0, q < u.n))
        d = data_of(res)
        it.oblige('shape of the box (%s)' % where, d.shape[0] == u.n)
        e, e0 = d.el(it, [q]), data_of(x0).el(it, [q])
    N.encloses(it, 'the box contains the root (%s)' % where, e, u.r(q))
    z = it.th.z
    it.oblige('the box lies in the initial box (%s)' % where, z3.And(z(e.end(it, 'lo')) >= z(e0.end(it, 'lo')), z(e.end(it, 'hi')) <= z(e0.end(it, 'hi'))))


def seidel_contract(it, fn, args, kw):
    """Gauss_Seidel (P19): the result contains every solution of a member system that lies in x0; raises otherwise,
    without reporting that there is no solution"""
    A, b = as_arr(it, args[0]).copy(), as_arr(it, args[1]).copy()
    x0 = as_arr(it, kw['x0']).copy()
    n = A.shape[0]
    if not (R.same_dim(it, n, A.shape[1]) and R.same_dim(it, n, b.shape[0]) and R.same_dim(it, n, x0.shape[0])):
        raise Unsupported('system that is not square')
    i = it.ghost['row']
    swap(it, i)
    y = lambda j: member(it, x0.el(it, [j]))
    s = sum_term(it, Z, n, lambda j: Num(member(it, A.el(it, [i, j])) * y(j), 'np'))
    it.oblige('the system handed to Gauss_Seidel has the solution', it.th.z(s) == it.th.z(member(it, b.el(it, [i]))))
    if it.choose('Gauss_Seidel raises'):
        raise PyRaise(AssertionError)
    return box(it, [n], lambda it, idx: GI(y(idx[0]), key=('GS', idx[0].sexpr()), over=(x0.el(it, idx),)))


def contains_contract(it, fn, args, kw):
    """x in box: some component contains x"""
    d = data_of(args[0]).copy()
    x = it.concrete(args[1])
    idx = [z3.Int('has%d' % q) for q in range(len(d.shape))]
    it.ghost.setdefault('binders', []).append(('has', [z3.And([z3.And(i >= 0, i < s) for i, s in zip(idx, d.shape)])]))
    try:
        f = it.contains(d.el(it, idx), x)
        sure = f is True or (f is not False and R.valid(it, f.f))
    finally:
        it.ghost['binders'].pop()
    if sure:
        return True
    return it.choose('contains %d' % len(it.choices))


def roots_world(root):
    w = np_world(root)
    w.contracts[(GSEIDEL, 'Gauss_Seidel')] = seidel_contract
    w.contracts[(KI, 'ArrayInterval.__contains__')] = contains_contract
    for f in ('Krawczyk', 'HansenSengupta'):
        w.loops[(EXT, f, 0)] = while_loop(Contract)
    inv = w.externs['numpy.linalg.inv']

    def named(it, args, kw):
        r = inv(it, args, kw)
        it.ghost['lam'] = 'inv%d' % (it.ghost['nunk'] - 1)
        return r
    w.externs['numpy.linalg.inv'] = named
    it_hook(w)
    return w


def it_hook(w):
    w.at_meet = True


def case_roots(which, many):
    def body(it):
        n = dim(it) if many else None
        u = it.ghost['user'] = User(it, n)
        it.ghost['lam'] = None
        x0 = gbox(it, 'x0', [n], lambda idx: xs(it, idx[0])) if many else GI(it.th.var('r'), key=('x0',))
        it.ghost['x0'] = x0

        def at_meet(g):
            # the generic component of the boxes that are intersected is the row the sums are exchanged for
            it.ghost['row'] = g[0]
            swap(it, g[0])
        it.ghost['at meet'] = at_meet
        v0 = data_of(x0).version if many else 0
        kw = dict(tol=Num(it.th.fresh('tol'), 'float'), maxiter=mkint(z3.Int('maxiter')))
        try:
            x = it.call(fn_of(it, EXT, which), [Extern('func', u.func), Extern('J', u.jac), x0], kw)
        except PyRaise as e:
            it.oblige('does not report that there is no root', not (e.cls is Exception and e.args_ and 'решений' in str(e.args_[0])))
            return
        check_state(it, x, 'result')
        if many:
            it.oblige('the starting box is unchanged', data_of(x0).version == v0)
    return '%s, %s' % (which, 'n unknowns' if many else 'one unknown'), body


def cases():
    return [case_roots(w, m) for w in ('Krawczyk', 'HansenSengupta') for m in (False, True)]
