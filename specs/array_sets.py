"""Contracts of intersection, the inclusion relations and dist, for arrays of every shape.

The elements are objects of the real interval class with symbolic endpoints; the lifting and the per-element code are
both executed.
"""
import z3
from pyvc.interp import Num, Inst, PyRaise, Unsupported, SBool, tonum
from pyvc.ints import mkint
from pyvc.terms import K
from pyvc import arr as R, npw as N
from pyvc.arr import Arr, app, as_arr
from pyvc.npw import KI, PYX, PRE, UT
from .array_linear import data_of
from .array_objects import dims, index, shape_ok, SHAPES


def sets_world(root):
    w = N.np_world(root, ghost=False)
    w.values['numpy.bool'] = w.values['numpy.bool_'] = 'numpy.bool'
    w.externs['pow'] = lambda it, a, k: it.binop('**', a[0], a[1])
    return w


def metric_world(root):
    w = sets_world(root)
    w.exact = True
    w.externs['::pow'] = lambda it, a, b: Num(real_power(it, a.p, b.p), 'np')
    return w


def real_power(it, p, e):
    """p ** e for p >= 0 and e > 0"""
    def facts(z, q):
        return [z3.Implies(z3.And(q[0] >= 0, q[1] > 0), z3.And(z >= 0, (z == 0) == (q[0] == 0)))]
    r = R.lifted(it.th, 'power', [p, e], facts)
    if r is None:
        key = ('power', p, e)
        if key not in it.th.table:
            it.th.table[key] = it.th.fresh('power')
            it.th.fixed.extend(facts(it.th.z(it.th.table[key]), [it.th.z(p), it.th.z(e)]))
        r = it.th.table[key]
    return r


def element(it, name, idx):
    """a proper interval with symbolic endpoints, the same object at the same index"""
    key = ('element', name, tuple(i.sexpr() for i in idx))
    t = it.ghost.setdefault('elements', {})
    if key not in t:
        a, b = app(it, name + '.a', idx), app(it, name + '.b', idx)
        z = it.th.z
        it.th.fixed.append(z(a) <= z(b))
        t[key] = it.call(it.module_get(it.w.module(PYX), 'ClassicalArithmetic'), [Num(a, 'float'), Num(b, 'float')], {})
    return t[key]


class Side:
    """A interval array, C interval, M array of numbers, n number"""
    def __init__(self, it, kind, name, shape):
        self.kind, self.name, self.shape = kind, name, shape if kind in 'AM' else []
        if kind == 'A':
            self.v = N.box(it, shape, lambda it, idx: element(it, name, idx))
        elif kind == 'C':
            self.v = element(it, name, [])
            self.before = dict(self.v.f)
        elif kind == 'M':
            self.v = Arr(shape, lambda it, idx: Num(app(it, name, idx), 'np'))
        else:
            self.v = Num(app(it, name, []), 'float')
        self.data = data_of(self.v) if kind == 'A' else self.v
        self.version = getattr(self.data, 'version', 0)

    def ends(self, it, idx):
        idx = idx if self.kind in 'AM' else []
        if self.kind in 'AC':
            element(it, self.name, idx)
            return app(it, self.name + '.a', idx), app(it, self.name + '.b', idx)
        v = app(it, self.name, idx)
        return v, v

    def unchanged(self, it):
        if self.kind == 'A':
            return data_of(self.v) is self.data and self.data.version == self.version
        if self.kind == 'M':
            return self.v.version == self.version
        return self.kind != 'C' or self.v.f == self.before


def sides(it, left, right, form):
    s = dims(it, SHAPES[form][0])
    return s, Side(it, left, 'X', s), Side(it, right, 'Y', s)


def unchanged(it, x, y):
    it.oblige('operands unchanged', x.unchanged(it) and y.unchanged(it))


def common(it, o, X, Y):
    """o is exactly the set of common points, or NaN"""
    z, th = it.th.z, it.th
    ok = isinstance(o, Inst) and o.cls.name == 'ClassicalArithmetic'
    it.oblige('an interval', ok)
    if not ok:
        return
    lo, hi = it.concrete(it.getattr(o, 'a')), it.concrete(it.getattr(o, 'b'))
    (a, b), (c, d) = X, Y
    lz, hz = z3.If(z(a) < z(c), z(c), z(a)), z3.If(z(b) < z(d), z(b), z(d))
    nan = any(isinstance(e, float) and e != e for e in (lo, hi))
    it.oblige('NaN only when the intervals do not meet', z3.Implies(lz <= hz, z3.BoolVal(not nan)))
    if nan:
        return it.oblige('both endpoints are NaN', all(isinstance(e, float) and e != e for e in (lo, hi)))
    far = z3.Q(1, 10 ** 15) * z3.Q(10 ** 9 + 1, 10 ** 9)
    it.oblige('NaN when they are more than 1e-15 apart, up to rounding', z3.And(z(th.round('D', a - d)) <= far, z(th.round('D', c - b)) <= far))
    p, q = z(tonum(lo).p), z(tonum(hi).p)
    it.oblige('exactly the common points', z3.Implies(lz <= hz, z3.And(p == lz, q == hz)))


def case_intersection(left, right, form):
    def body(it):
        s, x, y = sides(it, left, right, form)
        r = it.call(it.module_get(it.w.module(PRE), 'intersection'), [x.v, y.v], {})
        unchanged(it, x, y)
        sh = x.shape or y.shape
        if not sh:
            return common(it, it.concrete(r), x.ends(it, []), y.ends(it, []))
        ok = isinstance(r, Inst) and r.cls.name == 'ArrayInterval'
        it.oblige('an interval array', ok)
        if not ok:
            return
        it.oblige('shape attributes', shape_ok(it, r))
        a = as_arr(it, r)
        ok = len(a.shape) == len(sh) and all(R.same_dim(it, p, q) for p, q in zip(a.shape, sh))
        it.oblige('shape', ok)
        it.oblige('the result does not share its elements with an operand', not any(data_of(r) is data_of(o.v) for o in (x, y) if o.kind == 'A'))
        if ok:
            idx = index(it, sh)
            common(it, it.concrete(a.el(it, idx)), x.ends(it, idx), y.ends(it, idx))
    return 'intersection(%s, %s), %s axes' % (left, right, form), body


def case_mismatch(s, t):
    def body(it):
        S, T = dims(it, s), dims(it, t)
        if len(S) == len(T):
            it.assume(z3.Or([p != q for p, q in zip(S, T)]))
        x, y = Side(it, 'A', 'X', S), Side(it, 'A', 'Y', T)
        try:
            it.call(it.module_get(it.w.module(PRE), 'intersection'), [x.v, y.v], {})
            ok = False
        except PyRaise:
            ok = True
        it.oblige('arrays of different shapes are refused', ok)
        unchanged(it, x, y)
    return 'intersection of shapes %s and %s' % (s, t), body


RELATIONS = {'subset': ('<=', False), 'superset': ('<=', True), 'proper_subset': ('<', False), 'proper_superset': ('<', True)}


def inside(it, X, Y, rel):
    z = it.th.z
    (a, b), (c, d) = X, Y
    return z3.And(z(c) <= z(a), z(b) <= z(d)) if rel == '<=' else z3.And(z(c) < z(a), z(b) < z(d))


def bool_formula(it, v):
    if isinstance(v, Arr) and not v.shape:
        v = it.concrete(v.el(it, []))
    return v.f if isinstance(v, SBool) else z3.BoolVal(bool(v))


def case_relation(name, left, right, form):
    def body(it):
        s, x, y = sides(it, left, right, form)
        r = it.call(it.module_get(it.w.module(UT), name), [x.v, y.v], {})
        unchanged(it, x, y)
        rel, turned = RELATIONS[name]
        want = lambda idx: inside(it, *((y.ends(it, idx), x.ends(it, idx)) if turned else (x.ends(it, idx), y.ends(it, idx))), rel)
        sh = x.shape or y.shape
        if not sh:
            return it.oblige('endpoint inclusion', bool_formula(it, it.concrete(r)) == want([]))
        if it.truth(r):
            idx = index(it, sh)
            R.instances(it, idx)
            it.oblige('true only when every component satisfies the inclusion', want(idx))
        else:
            ws = it.ghost.get('witnesses', [])
            it.oblige('false only when a component does not satisfy the inclusion',
                      z3.Or([z3.And([z3.Not(want(w))] + [z3.And(i >= 0, i < d) for i, d in zip(w, sh)]) for w in ws if len(w) == len(sh)] or [z3.BoolVal(False)]))
    return '%s(%s, %s), %s axes' % (name, left, right, form), body


def case_contain(name, left, right, form):
    def body(it):
        s, x, y = sides(it, left, right, form)
        r = it.call(it.module_get(it.w.module(UT), name), [x.v, y.v], {})
        unchanged(it, x, y)
        X, Y = (y, x) if name == 'supercontain' else (x, y)
        sh = x.shape or y.shape
        idx = index(it, sh)
        r = it.concrete(r)
        if sh:
            a = as_arr(it, r)
            ok = len(a.shape) == len(sh) and all(R.same_dim(it, p, q) for p, q in zip(a.shape, sh))
            it.oblige('shape', ok)
            if not ok:
                return
            r = it.concrete(a.el(it, idx))
        it.oblige('componentwise inclusion', bool_formula(it, r) == inside(it, X.ends(it, idx), Y.ends(it, idx), '<='))
    return '%s(%s, %s), %s axes' % (name, left, right, form), body


# ---------------------------------------------------------------- the metric
def cheb(it, X, Y):
    th = it.th
    return th.minmax('max', [th.abs(X[0] - Y[0]), th.abs(X[1] - Y[1])])


def call_dist(it, x, y):
    f = it.module_get(it.w.module(UT), 'dist')
    n = len(it.ghost.get('extremes', []))
    v = tonum(it.concrete(it.call(f, [x.v, y.v], {}))).p
    es = it.ghost.get('extremes', [])[n:]
    return v, es


def case_dist(left, right, form):
    """exact arithmetic: the value is the greatest Chebyshev distance of corresponding components"""
    def body(it):
        z = it.th.z
        s, x, y = sides(it, left, right, form)
        for d in s:
            it.assume(d >= 1)
        v, es = call_dist(it, x, y)
        unchanged(it, x, y)
        sh = x.shape or y.shape
        idx = index(it, sh)
        N.extremes_at(it, idx)
        here = cheb(it, x.ends(it, idx), y.ends(it, idx))
        it.oblige('nonnegative', z(v) >= 0)
        if not sh:
            it.oblige('the distance of the endpoints', z(v) == z(here))
        else:
            it.oblige('an upper bound of the distance of every component', z(here) <= z(v))
            it.oblige('attained by a component', z3.Or([z(v) == z(cheb(it, x.ends(it, e.pos), y.ends(it, e.pos))) for e in es if len(e.pos) == len(sh)] or [z3.BoolVal(False)]))
        (a, b), (c, d) = x.ends(it, idx), y.ends(it, idx)
        it.oblige('zero only for equal components', z3.Implies(z(v) == 0, z3.And(z(a) == z(c), z(b) == z(d))))
        if not sh:
            it.oblige('zero for equal intervals', z3.Implies(z3.And(z(a) == z(c), z(b) == z(d)), z(v) == 0))
    return 'dist(%s, %s), %s axes' % (left, right, form), body


def case_metric(form):
    """exact arithmetic: symmetry and the triangle inequality"""
    def body(it):
        z = it.th.z
        s = dims(it, SHAPES[form][0]) if form != '0' else []
        for d in s:
            it.assume(d >= 1)
        kind = 'A' if s else 'C'
        x, y, t = [Side(it, kind, n, s) for n in 'XYT']
        res = {}
        for p, q, k in ((x, y, 'xy'), (y, x, 'yx'), (x, t, 'xt'), (t, y, 'ty')):
            res[k] = call_dist(it, p, q)
        es = it.ghost.get('extremes', [])
        for e in list(es):
            N.extremes_at(it, e.pos)
        v = {k: z(r[0]) for k, r in res.items()}
        it.oblige('symmetric', v['xy'] == v['yx'])
        it.oblige('triangle inequality', v['xy'] <= v['xt'] + v['ty'])
    return 'metric, %s axes' % form, body


def total(it, shape, body, idx=()):
    idx = list(idx)
    if len(idx) == len(shape):
        return body(idx)
    return R.sum_term(it, z3.IntVal(0), shape[len(idx)], lambda k: Num(total(it, shape, body, idx + [k]), 'np'))


def nonnegative_total(it, shape, body, idx=()):
    idx = list(idx)
    if len(idx) < len(shape):
        def inner(k):
            nonnegative_total(it, shape, body, idx + [k])
            return z3.BoolVal(True)
        R.sum_leq(it, 'the terms are nonnegative', z3.IntVal(0), shape[len(idx)], lambda k: Num(K(0), 'np'), lambda k: Num(total(it, shape, body, idx + [k]), 'np'), inner)


def case_pnorm(left, right, form):
    """exact arithmetic: the value is the p-norm of the Chebyshev distances of corresponding components"""
    def body(it):
        z, th = it.th.z, it.th
        it.ghost['lazy'] = True
        s, x, y = sides(it, left, right, form)
        for d in s:
            it.assume(d >= 1)
        p = z3.Int('p')
        it.assume(p >= 1)
        order = mkint(p)
        f = it.module_get(it.w.module(UT), 'dist')
        v = tonum(it.concrete(it.call(f, [x.v, y.v, order], {}))).p
        unchanged(it, x, y)
        sh = x.shape or y.shape
        e = order.num(it).p
        power = lambda X, Y: lambda idx: real_power(it, cheb(it, X.ends(it, idx), Y.ends(it, idx)), e)
        root = lambda q: real_power(it, q, th.quot(K(1), e))
        want = root(total(it, sh, power(x, y)))
        it.oblige('the p-norm of the componentwise distances', z(v) == z(want))
        w = tonum(it.concrete(it.call(f, [y.v, x.v, order], {}))).p
        it.oblige('symmetric', z(v) == z(w))
        nonnegative_total(it, sh, power(x, y))
        it.oblige('nonnegative', z(v) >= 0)
        # the triangle inequality follows: pnorm_dist_triangle in lean/Lemmas.lean
    return 'dist(%s, %s, order), %s axes' % (left, right, form), body


def case_dist_rounded(form):
    """floating-point arithmetic: every endpoint difference is rounded once"""
    def body(it):
        z, th = it.th.z, it.th
        s = dims(it, SHAPES[form][0]) if form != '0' else []
        for d in s:
            it.assume(d >= 1)
        kind = 'A' if s else 'C'
        x, y = [Side(it, kind, n, s) for n in 'XY']
        v, es = call_dist(it, x, y)
        it.oblige('nonnegative', z(v) >= 0)
        idx = index(it, s)
        N.extremes_at(it, idx)
        (a, b), (c, d) = x.ends(it, idx), y.ends(it, idx)
        lo, hi = (lambda p: th.round('D', p)), (lambda p: th.round('U', p))
        for p in (a - c, b - d):
            it.oblige('not smaller than a difference of endpoints rounded towards zero', z3.Or(z3.And(z(p) >= 0, z(lo(p)) <= z(v)), z3.And(z(p) <= 0, -z(hi(p)) <= z(v))))
        w = es[-1].pos if s else []
        (a, b), (c, d) = x.ends(it, w), y.ends(it, w)
        it.oblige('not greater than the greatest difference rounded away from zero',
                  z3.Or([z3.And(z(p) >= 0, z(v) <= z(hi(p))) for p in (a - c, b - d)] + [z3.And(z(p) <= 0, z(v) <= -z(lo(p))) for p in (a - c, b - d)]))
    return 'dist in floating point, %s axes' % form, body


def cases12():
    out = []
    for f in ('1', '2', '3', '4'):
        out += [case_intersection(l, r, f) for l, r in ('AA', 'AC', 'CA', 'An', 'nA')]
        out += [case_intersection('A', 'M', f), case_intersection('M', 'A', f)]
        for n in RELATIONS:
            out += [case_relation(n, l, r, f) for l, r in ('AA', 'AC', 'CA')]
        for n in ('contain', 'supercontain'):
            out += [case_contain(n, l, r, f) for l, r in ('AA', 'AC', 'CA')]
    for l, r in ('CC', 'Cn', 'nC', 'nn'):
        out.append(case_intersection(l, r, '1'))
    for n in RELATIONS:
        out.append(case_relation(n, 'C', 'C', '1'))
    for n in ('contain', 'supercontain'):
        out.append(case_contain(n, 'C', 'C', '1'))
    out += [case_mismatch(s, t) for s, t in ((['d0'], ['d1']), (['d0', 'd1'], ['d2', 'd3']), (['d0'], ['d0', 'd1']))]
    out += [case_dist_rounded(f) for f in '0123']
    return out


def cases12_metric():
    return [case_dist(l, r, f) for f in '123' for l, r in ('AA', 'AC', 'CA')] + [case_pnorm(l, r, f) for f in '123' for l, r in ('AA', 'AC', 'CA')] + [case_pnorm('C', 'C', '1'), case_dist('C', 'C', '1')] + [case_metric(f) for f in '0123']
