"""Contracts of the enclosure methods for linear systems: ghost solution x* of a member system."""
import z3
from pyvc.interp import Num, PyRaise, PathEnd, Unsupported, Bound
from pyvc.ints import IntV, mkint
from pyvc.terms import K, Poly
from pyvc import arr as R, npw as N
from pyvc.arr import app, iz, sum_term, Arr
from pyvc.npw import GI, gbox, box, member, np_world, Invariant, for_loop, while_loop, KI

GAUSS = 'intvalpy/linear/Gauss.py'


def fn_of(it, rel, name):
    return it.module_get(it.w.module(rel), name)


def dim(it, name='n', least=1):
    n = z3.Int(name)
    it.assume(n >= least)
    return n


def data_of(v):
    return v.f['_data']


def xs(it, i):
    return app(it, 'x*', [i])


def row_sum(it, A, i, lo, hi):
    """sum over lo <= k < hi of member(A[i,k]) x*_k"""
    return sum_term(it, lo, hi, lambda k: Num(member(it, A.el(it, [i, k])) * xs(it, k), 'np'))


def split_rows(it, env, i):
    """cases: the generic row is one of the distinguished ones"""
    e = env
    for v in list(e.v.values()):
        if isinstance(v, IntV):
            it.branch(i == v.e)


class Forward(Invariant):
    """at the start of step j: for rows i < j the sum from column i on, for rows i >= j from column j on, gives b_i"""
    def cut(self, it, i, j):
        return i if it.branch(i < j) else j

    def prove(self, it, env, j, stage):
        n = self.n = it.ghost['n']
        A, b = data_of(env.v['A']), data_of(env.v['b'])
        i = z3.Int('row_' + stage)
        it.assume(z3.And(i >= 0, i < n))
        split_rows(it, env, i)
        lo = self.cut(it, i, j)
        if stage == 'preserved':
            j0 = self.j
            rows = [i, j0] + [v.e for v in env.v.values() if isinstance(v, IntV)]
            for r in rows:
                if R.valid(it, z3.And(r >= 0, r < n)):
                    self.use(it, self.A, self.b, r, j0)
        s = row_sum(it, A, i, lo, n)
        it.oblige('row equation (%s)' % stage, it.th.z(s) == it.th.z(member(it, b.el(it, [i]))))

    def use(self, it, A, b, r, j, unfold=True):
        """the invariant at row r"""
        n = it.ghost['n']
        lo = self.cut(it, r, j)
        f = lambda k: Num(member(it, A.el(it, [r, k])) * xs(it, k), 'np')
        it.assume(it.th.z(sum_term(it, lo, n, f)) == it.th.z(member(it, b.el(it, [r]))))
        R.sum_unfold_first(it, lo, n, f)

    def havoc(self, it, env, j):
        n = it.ghost['n']
        q = it.ghost.setdefault('nh', 0)
        it.ghost['nh'] += 1
        env.v['A'], env.v['b'] = gbox(it, 'A%d' % q, [n, n]), gbox(it, 'b%d' % q, [n])
        env.v['r'] = gbox(it, 'r%d' % q, [n, n])
        self.A, self.b, self.j = data_of(env.v['A']).copy(), data_of(env.v['b']).copy(), j
        it.ghost['forward'] = self


class Backward(Invariant):
    """x contains x*_q for q > i, and is the point zero elsewhere"""
    def havoc(self, it, env, k):
        n = it.ghost['n']
        env.v['x'] = box(it, [n], lambda it, idx: GI(xs(it, idx[0]), key=('x', idx[0].sexpr())) if it.branch(idx[0] > k) else GI(K(0), K(0), K(0)))
        f = it.ghost['forward']
        self.k = k

    def prove(self, it, env, k, stage):
        n = it.ghost['n']
        x = data_of(env.v['x'])
        q = z3.Int('comp_' + stage)
        it.assume(z3.And(q >= 0, q < n))
        if stage == 'preserved':
            i = self.k
            f = it.ghost['forward']
            A, b = data_of(env.v['A']), data_of(env.v['b'])
            # the row equation of row i, from column i on (step n - 1 or later)
            lo = i
            g = lambda c: Num(member(it, A.el(it, [i, c])) * xs(it, c), 'np')
            it.assume(it.th.z(sum_term(it, lo, n, g)) == it.th.z(member(it, b.el(it, [i]))))
            R.sum_unfold_first(it, lo, n, g)
        m = member(it, x.el(it, [q]))
        if it.branch(q > k):
            it.oblige('component of x (%s)' % stage, it.th.z(m) == it.th.z(xs(it, q)))
        else:
            it.oblige('component not yet computed is zero (%s)' % stage, it.th.z(m) == 0)


def gauss_world(root):
    w = np_world(root)
    w.loops[(GAUSS, 'Gauss', 0)] = for_loop(Forward)
    w.loops[(GAUSS, 'Gauss', 1)] = for_loop(Backward)
    return w


def case_gauss():
    def body(it):
        n = it.ghost['n'] = dim(it)
        A = gbox(it, 'A', [n, n])
        b = box(it, [n], lambda it, idx: GI(sum_term(it, z3.IntVal(0), n, lambda k: Num(app(it, 'A', [idx[0], k]) * xs(it, k), 'np')), key=('b', idx[0].sexpr())))
        va, vb = data_of(A).version, data_of(b).version
        try:
            x = it.call(fn_of(it, GAUSS, 'Gauss'), [A, b], {})
        except PyRaise as e:
            it.oblige('refuses or fails without a result', True)
            return
        q = z3.Int('q')
        it.assume(z3.And(q >= 0, q < n))
        d = data_of(x)
        it.oblige('length of the result', d.shape[0] == n)
        it.oblige('the result contains the solution of every member system', it.th.z(member(it, d.el(it, [q]))) == it.th.z(xs(it, q)))
        it.oblige('operands unchanged', data_of(A).version == va and data_of(b).version == vb)
    return 'Gauss', body


# ---------------------------------------------------------------- Gauss-Seidel
GSEIDEL = 'intvalpy/linear/Gauss_Seidel.py'


class Sweeps(Invariant):
    """before the first sweep: the initial state; afterwards every component of result and pre_result contains x*"""
    def havoc(self, it, env, k):
        n = it.ghost['n']
        if it.choose('first sweep'):
            env.v['distance'], env.v['nit'] = float('inf'), 0
            env.v['result'] = box(it, [n], lambda it, idx: GI(None, key=('unset', idx[0].sexpr())))
            env.v['pre_result'] = gbox(it, 'pre', [n], lambda idx: xs(it, idx[0]))
            return
        q = it.ghost.setdefault('ns', 0)
        it.ghost['ns'] += 1
        env.v['distance'] = Num(it.th.fresh('distance'), 'np')
        nit = z3.Int('nit%d' % q)
        it.assume(nit >= 1)
        env.v['nit'] = mkint(nit)
        for v in ('result', 'pre_result'):
            env.v[v] = gbox(it, v, [n], lambda idx: xs(it, idx[0]))

    def prove(self, it, env, k, stage):
        n = it.ghost['n']
        q = z3.Int('comp_' + stage)
        it.assume(z3.And(q >= 0, q < n))
        x = it.th.z(xs(it, q))
        if not it.ghost['box0']:
            it.assume(z3.And(x >= -1000, x <= 1000))
        N.encloses(it, 'pre_result contains the solution (%s)' % stage, data_of(env.v['pre_result']).el(it, [q]), xs(it, q))
        if stage == 'entry':
            pass
        else:
            it.oblige('result contains the solution (%s)' % stage, it.th.z(member(it, data_of(env.v['result']).el(it, [q]))) == it.th.z(xs(it, q)))
            it.oblige('iterations are counted (%s)' % stage, iz(env.v['nit']) >= 1)


class Sweep(Invariant):
    """components below k contain x*"""
    def havoc(self, it, env, k):
        n = it.ghost['n']
        z = z3.IntVal(0)
        env.v['result'] = box(it, [n], lambda it, idx: GI(xs(it, idx[0]), key=('swept', idx[0].sexpr())) if it.branch(idx[0] < k) else GI(None, key=('unset', idx[0].sexpr())))
        A = data_of(env.v['A'])
        if R.valid(it, k < n):
            f = lambda j: Num(member(it, A.el(it, [k, j])) * xs(it, j), 'np')
            R.sum_split(it, z, k, n, f)
            R.sum_unfold_first(it, k, n, f)
            preconditioned(it, k)

    def prove(self, it, env, k, stage):
        n = it.ghost['n']
        q = z3.Int('swept_' + stage)
        it.assume(z3.And(q >= 0, q < n, q < k))
        if stage == 'entry':
            return
        if it.feasible([]):
            it.oblige('components already swept contain the solution', it.th.z(member(it, data_of(env.v['result']).el(it, [q]))) == it.th.z(xs(it, q)))


def preconditioned(it, i):
    """sum_j (sum_k c_ik a_kj) x_j = sum_k c_ik (sum_j a_kj x_j)"""
    n = it.ghost['n']
    z = z3.IntVal(0)
    c = it.ghost['C']
    R.sum_swap(it, z, n, z, n, lambda k, j: Num(c(it, [i, k]) * app(it, 'A', [k, j]) * xs(it, j), 'np'))


def seidel_world(root):
    w = np_world(root)
    w.loops[(GSEIDEL, 'Gauss_Seidel', 0)] = while_loop(Sweeps)
    w.loops[(GSEIDEL, 'Gauss_Seidel', 1)] = for_loop(Sweep)
    return w


def system(it, n, m=None):
    """A with members a_ij, b with members sum_j a_ij x*_j"""
    m = n if m is None else m
    A = gbox(it, 'A', [n, m])
    b = box(it, [n], lambda it, idx: GI(sum_term(it, z3.IntVal(0), m, lambda k: Num(app(it, 'A', [idx[0], k]) * xs(it, k), 'np')), key=('b', idx[0].sexpr())))
    return A, b


def case_seidel(C=None, box0=True):
    def body(it):
        n = it.ghost['n'] = dim(it)
        A, b = system(it, n)
        va, vb = data_of(A).version, data_of(b).version
        args = dict(tol=Num(it.th.fresh('tol'), 'float'))
        maxiter = z3.Int('maxiter')
        it.assume(maxiter >= 0)
        args['maxiter'] = mkint(maxiter)
        if C == 'real':
            args['C'] = Arr([n, n], lambda it, idx: Num(app(it, 'C', idx), 'np'))
        elif C == 'interval':
            args['C'] = gbox(it, 'C', [n, n])
        it.ghost['C'] = lambda it, idx: app(it, 'C' if C else 'inv0', idx)
        it.ghost['box0'] = box0
        if box0:
            args['x0'] = gbox(it, 'x0', [n], lambda idx: xs(it, idx[0]))
        try:
            x = it.call(fn_of(it, GSEIDEL, 'Gauss_Seidel'), [A, b], args)
        except PyRaise as e:
            it.oblige('does not report that there is no solution', e.cls is not Exception)
            return
        q = z3.Int('q')
        it.assume(z3.And(q >= 0, q < n))
        d = data_of(x)
        it.oblige('length of the result', d.shape[0] == n)
        it.oblige('the result contains every solution in the initial box', it.th.z(member(it, d.el(it, [q]))) == it.th.z(xs(it, q)))
        it.oblige('operands unchanged', data_of(A).version == va and data_of(b).version == vb)
    return 'Gauss_Seidel(C=%s, x0=%s)' % (C, 'given' if box0 else 'default'), body
