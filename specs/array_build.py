"""Contracts of interval construction from arrays (P11) and of the generated matrices and systems (P27).

The elements are objects of the real interval classes; construction, conversion, the generators and the scalar
operations they use are executed, with floating-point rounding; sizes and parameters are symbolic.
"""
import z3
from pyvc.interp import Num, Inst, PyRaise, Unsupported, SBool, tonum
from pyvc.ints import IntV, mkint
from pyvc.terms import K
from pyvc.kernel import kernel_world, ctor_contract
from pyvc import arr as R, npw as N
from pyvc.exact import listcomp
from pyvc.arr import Arr, app, as_arr, iz
from pyvc.npw import KI, PYX, PRE, UT, NEW, Invariant, for_loop
from .array_linear import data_of
from .array_objects import dims, index, shape_ok, SHAPES


def build_world(root):
    w = N.np_world(root, ghost=False)
    k = kernel_world(root)
    for n, v in k.externs.items():
        w.externs.setdefault(n, v)
    w.contracts.update(k.contracts)
    w.cnames.update(k.cnames)
    w.values['numpy.bool'] = w.values['numpy.bool_'] = 'numpy.bool'
    w.externs['::listcomp'] = listcomp
    for q in ('Neumaier_system', 'Shary_system'):
        w.loops[(NEW, q, 0)] = for_loop(Diagonal)
    w.loops[(NEW, 'Toft_system', 0)] = for_loop(Toft)
    return w


def ends(it, v):
    """endpoints of a scalar interval as terms, None for something else"""
    v = it.concrete(v)
    if not isinstance(v, Inst) or v.cls.name not in ('ClassicalArithmetic', 'KaucherArithmetic'):
        return None
    out = []
    for n in 'ab':
        e = it.concrete(it.getattr(v, n))
        if isinstance(e, IntV):
            e = e.num(it)
        e = tonum(e)
        if e is None:
            return None
        out.append(e.p)
    return out


def make(it, lo, hi, cls='ClassicalArithmetic'):
    return ctor_contract(it, it.module_get(it.w.module(PYX), cls), [Num(lo, 'float'), Num(hi, 'float')], {})


def is_pair(it, what, v, lo, hi, proper=None):
    """v is the interval with exactly these endpoints"""
    z = it.th.z
    e = ends(it, v)
    it.oblige('%s is an interval' % what, e is not None)
    if e is None:
        return
    it.oblige('%s: endpoints' % what, z3.And(z(e[0]) == z(lo), z(e[1]) == z(hi)))
    c = it.concrete(v).cls.name
    if proper is None:
        it.oblige('%s: class follows the order' % what, (z(e[0]) <= z(e[1])) == (c == 'ClassicalArithmetic'))
    else:
        it.oblige('%s: class' % what, c == ('ClassicalArithmetic' if proper else 'KaucherArithmetic'))


def near(it, what, v, lo, hi):
    """endpoints are the given numbers up to one rounding"""
    z, th = it.th.z, it.th
    e = ends(it, v)
    it.oblige('%s is an interval' % what, e is not None)
    if e is None:
        return
    for n, p, q in (('lower', e[0], lo), ('upper', e[1], hi)):
        it.oblige('%s: %s endpoint' % (what, n), z3.And(z(th.round('D', q)) <= z(p), z(p) <= z(th.round('U', q))))
    it.oblige('%s is proper' % what, it.concrete(v).cls.name == 'ClassicalArithmetic')


def array_ok(it, what, r, shape):
    ok = isinstance(r, Inst) and r.cls.name == 'ArrayInterval'
    it.oblige('%s is an interval array' % what, ok)
    if not ok:
        return None
    it.oblige('%s: shape attributes' % what, shape_ok(it, r))
    a = as_arr(it, r)
    ok = len(a.shape) == len(shape) and all(R.same_dim(it, p, iz(q)) for p, q in zip(a.shape, shape))
    it.oblige('%s: shape' % what, ok)
    return a if ok else None


def numbers(it, name, shape):
    return Arr(shape, lambda it, idx: Num(app(it, name, idx), 'np'))


def call(it, rel, name, args, kw=None):
    return it.call(it.module_get(it.w.module(rel), name), list(args), dict(kw or {}))


# ---------------------------------------------------------------- P11
def described(it, what, v, l, r, sortq, midrad):
    z, th = it.th.z, it.th
    if midrad:
        return near(it, what, v, l - r, l + r)
    if sortq is False:
        return is_pair(it, what, v, l, r)
    return is_pair(it, what, v, th.minmax('min', [l, r]), th.minmax('max', [l, r]), True)


def case_ends(rank, form, sortq, midrad):
    """Interval(L, R) and Interval(P) with P[..., 0], P[..., 1]"""
    def body(it):
        s = dims(it, SHAPES[str(rank)][0])
        kw = {} if sortq is None else {'sortQ': sortq}
        if midrad:
            kw['midRadQ'] = True
            # the constructor raises where an element does; what follows is about constructions that succeed
            it.ghost['refusal'] = AssertionError
        two = form == 'two'
        if two:
            L, Rt = numbers(it, 'L', s), numbers(it, 'R', s)
            args, vers = [L, Rt], [L.version, Rt.version]
            at = lambda i: (app(it, 'L', i), app(it, 'R', i))
        else:
            P = numbers(it, 'P', s + [z3.IntVal(2)])
            args, vers = [P], [P.version]
            at = lambda i: (app(it, 'P', i + [z3.IntVal(0)]), app(it, 'P', i + [z3.IntVal(1)]))
        idx = index(it, s)
        l, r = at(idx)
        if midrad:
            it.ghost['radius'] = True
        try:
            v = call(it, KI, 'Interval', args, kw)
        except PyRaise:
            return it.oblige('accepted', False)
        a = array_ok(it, 'the result', v, s)
        if a is None:
            return
        it.oblige('arguments unchanged', [x.version for x in args] == vers)
        try:
            e = a.el(it, idx)
        except PyRaise:
            return it.oblige('an element is refused only for a negative radius', it.th.z(r) < 0 if midrad else False)
        if midrad:
            it.oblige('a negative radius is refused', it.th.z(r) >= 0)
        described(it, 'element', e, l, r, sortq, midrad)
    return 'Interval of arrays, %s, %d axes, sortQ=%s, midRadQ=%s' % (form, rank, sortq, midrad), body


def case_nested(n, form, sortq, midrad):
    """nested Python sequences"""
    def body(it):
        kw = {} if sortq is None else {'sortQ': sortq}
        if midrad:
            kw['midRadQ'] = True
        p = [(it.th.var('l%d' % q), it.th.var('r%d' % q)) for q in range(n)]
        if midrad:
            for l, r in p:
                it.assume(it.th.z(r) >= 0)
        num = lambda v: Num(v, 'float')
        if form == 'pairs':
            args = [[[num(l), num(r)] for l, r in p]]
        elif form == 'tuples':
            args = [[(num(l), num(r)) for l, r in p]]
        else:
            args = [[num(l) for l, r in p], [num(r) for l, r in p]]
        v = call(it, KI, 'Interval', args, kw)
        a = array_ok(it, 'the result', v, [n])
        if a is None:
            return
        for q in range(n):
            described(it, 'element', a.el(it, [z3.IntVal(q)]), p[q][0], p[q][1], sortq, midrad)
    return 'Interval of sequences, %d %s, sortQ=%s, midRadQ=%s' % (n, form, sortq, midrad), body


def case_unchanged(fn, rel):
    def body(it):
        s = dims(it, ['d0', 'd1'])
        x = N.box(it, s, lambda it, idx: make(it, app(it, 'x.a', idx), app(it, 'x.b', idx)))
        d = data_of(x)
        v = d.version
        it.oblige('an interval array is returned unchanged', call(it, rel, fn, [x]) is x and data_of(x) is d and d.version == v)
    return '%s(interval array)' % fn, body


def case_asarray(rank):
    def body(it):
        s = dims(it, SHAPES[str(rank)][0])
        x = numbers(it, 'x', s)
        v = x.version
        r = call(it, PRE, 'asinterval', [x])
        a = array_ok(it, 'the result', r, s)
        it.oblige('argument unchanged', x.version == v)
        if a is not None:
            idx = index(it, s)
            p = app(it, 'x', idx)
            is_pair(it, 'element', a.el(it, idx), p, p, True)
    return 'asinterval(array), %d axes' % rank, body


def case_aslist(n, m):
    """lists of numbers and intervals"""
    def body(it):
        num = lambda q: Num(it.th.var(q), 'float')
        rows = [[num('x%d%d' % (i, j)) for j in range(m)] for i in range(n)] if m else [num('x%d' % i) for i in range(n)]
        a, b = it.th.var('a'), it.th.var('b')
        it.assume(it.th.z(a) <= it.th.z(b))
        iv = make(it, a, b)
        (rows[0] if m else rows)[0] = iv
        r = call(it, PRE, 'asinterval', [rows])
        sh = [n, m] if m else [n]
        arr = array_ok(it, 'the result', r, sh)
        if arr is None:
            return
        for i in range(n):
            for j in range(m or 1):
                idx = [z3.IntVal(i)] + ([z3.IntVal(j)] if m else [])
                src = rows[i][j] if m else rows[i]
                p = (a, b) if src is iv else (src.p, src.p)
                is_pair(it, 'element', arr.el(it, idx), p[0], p[1], True)
    return 'asinterval(list), %d by %d' % (n, m), body


def cases11():
    out = []
    for rank in (1, 2, 3):
        for form in ('two', 'pairs'):
            out += [case_ends(rank, form, sq, False) for sq in (None, True, False)] + [case_ends(rank, form, sq, True) for sq in (None, False)]
        out.append(case_asarray(rank))
    for n in (1, 2, 3):
        for form in ('pairs', 'tuples', 'lists'):
            out += [case_nested(n, form, sq, False) for sq in (None, False)] + [case_nested(n, form, None, True)]
    out += [case_unchanged('Interval', KI), case_unchanged('asinterval', PRE)]
    out += [case_aslist(n, m) for n, m in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 2), (2, 3), (3, 2))]
    return out


# ---------------------------------------------------------------- P27: generators
ZERO = K(0)


def shapes(it, form):
    """argument and shape: a number of elements, or a tuple"""
    s = dims(it, ['d%d' % q for q in range(int(form[-1]))])
    return (mkint(s[0]) if form[0] == 'n' else tuple(mkint(d) for d in s)), s


def case_filled(fn, form, kind='f'):
    def body(it):
        arg, s = shapes(it, form)
        if fn == 'zeros':
            lo = hi = ZERO
            r = call(it, NEW, 'zeros', [arg])
        else:
            lo, hi = it.th.var('lo'), it.th.var('hi')
            r = call(it, NEW, 'full', [arg, Num(lo, 'float'), Num(hi, 'float')])
        a = array_ok(it, fn, r, s)
        if a is not None:
            is_pair(it, 'element', a.el(it, index(it, s)), lo, hi)
    return '%s(%s)' % (fn, form), body


def case_eye(rect, off):
    def body(it):
        n, m, k = z3.Int('n'), z3.Int('m'), z3.Int('k')
        it.assume(z3.And(n >= 1, m >= 1))
        kw = {}
        if rect:
            kw['M'] = mkint(m)
        if off:
            kw['k'] = mkint(k)
        r = call(it, NEW, 'eye', [mkint(n)], kw)
        a = array_ok(it, 'eye', r, [n, m if rect else n])
        if a is None:
            return
        i, j = index(it, a.shape)
        v = K(1) if it.branch(j - i == (k if off else 0)) else ZERO
        is_pair(it, 'element', a.el(it, [i, j]), v, v)
    return 'eye, %s, %s' % ('rectangular' if rect else 'square', 'offset' if off else 'main diagonal'), body


def case_diag(rank, off):
    def body(it):
        k = z3.Int('k')
        s = dims(it, SHAPES[str(rank)][0])
        x = N.box(it, s, lambda it, idx: make(it, app(it, 'x.a', idx), app(it, 'x.b', idx)))
        for d in s:
            it.assume(d >= 1)
        d = data_of(x)
        v = d.version
        if off and rank == 2:
            it.assume(z3.And(k > -s[0], k < s[1]))
        r = call(it, UT, 'diag', [x], {'k': mkint(k)} if off else {})
        it.oblige('argument unchanged', data_of(x) is d and d.version == v)
        q = k if off else z3.IntVal(0)
        if rank == 1:
            n = s[0] + z3.If(q >= 0, q, -q)
            a = array_ok(it, 'diag', r, [n, n])
            if a is None:
                return
            i, j = index(it, [n, n])
            e = a.el(it, [i, j])
            if it.branch(j - i == q):
                p = z3.If(q >= 0, i, j)
                if not it.feasible([]):
                    return
                p = i if it.branch(q >= 0) else j
                is_same(it, 'element', e, app(it, 'x.a', [p]), app(it, 'x.b', [p]))
            else:
                is_same(it, 'element off the diagonal', e, ZERO, ZERO)
            return
        lo = z3.If(q >= 0, z3.If(s[0] <= s[1] - q, s[0], s[1] - q), z3.If(s[0] + q <= s[1], s[0] + q, s[1]))
        a = array_ok(it, 'diag', r, [lo])
        if a is None:
            return
        i, = index(it, [lo])
        p = [i, z3.simplify(i + q)] if it.branch(q >= 0) else [z3.simplify(i - q), i]
        is_same(it, 'element', a.el(it, [i]), app(it, 'x.a', p), app(it, 'x.b', p))
    return 'diag of %d axes, %s' % (rank, 'offset' if off else 'main diagonal'), body


def is_same(it, what, v, lo, hi):
    """v is the interval with these endpoints (or the number, if they are equal)"""
    z = it.th.z
    e = ends(it, v)
    it.oblige('%s is an interval' % what, e is not None)
    if e is not None:
        it.oblige('%s: endpoints' % what, z3.And(z(e[0]) == z(lo), z(e[1]) == z(hi)))


def case_compmat():
    def body(it):
        z = it.th.z
        n, m = z3.Int('n'), z3.Int('m')
        it.assume(z3.And(n >= 1, m >= 1))
        t = {}

        def el(it, idx):
            key = tuple(i.sexpr() for i in idx)
            if key not in t:
                a, b = app(it, 'x.a', idx), app(it, 'x.b', idx)
                it.th.fixed.append(z(a) <= z(b))
                t[key] = make(it, a, b)
            return t[key]
        x = N.box(it, [n, m], el)
        r = call(it, UT, 'compmat', [x])
        a = as_arr(it, r)
        ok = len(a.shape) == 2 and R.same_dim(it, a.shape[0], n) and R.same_dim(it, a.shape[1], m)
        it.oblige('shape', ok)
        if not ok:
            return
        i, j = index(it, [n, m])
        v = it.th.z(tonum(it.concrete(a.el(it, [i, j]))).p)
        lo, hi = z(app(it, 'x.a', [i, j])), z(app(it, 'x.b', [i, j]))
        ab = lambda u: z3.If(u >= 0, u, -u)
        if it.branch(i == j):
            el(it, [i, j])
            it.oblige('mignitude on the diagonal', v == z3.If(z3.And(lo <= 0, hi >= 0), 0, z3.If(ab(lo) <= ab(hi), ab(lo), ab(hi))))
        else:
            el(it, [i, j])
            it.oblige('minus magnitude off the diagonal', v == -z3.If(ab(lo) >= ab(hi), ab(lo), ab(hi)))
    return 'compmat', body


# ---------------------------------------------------------------- P27: systems
class Diagonal(Invariant):
    """entries on the diagonal before k have the described value, all others the value they had at entry"""
    var = 'A'

    def prove(self, it, env, k, stage):
        a = data_of(env.v['A'])
        if stage == 'entry':
            self.start = a.copy()
            self.box = env.v['A']
        want = it.ghost['diagonal']
        i, j = [z3.Int('%s_%s' % (c, stage)) for c in 'ij']
        it.assume(z3.And(i >= 0, i < a.shape[0], j >= 0, j < a.shape[1]))
        e = a.el(it, [i, j])
        if it.branch(z3.And(i == j, i < k)):
            is_pair(it, 'diagonal entry (%s)' % stage, e, *want(i))
        else:
            w = ends(it, self.start.el(it, [i, j]))
            is_pair(it, 'other entry (%s)' % stage, e, w[0], w[1])

    def havoc(self, it, env, k):
        s, want = self.start, it.ghost['diagonal']

        def el(it, idx):
            if it.branch(z3.And(idx[0] == idx[1], idx[0] < k)):
                return make_pair(it, *want(idx[0]))
            return s.el(it, idx)
        env.v['A'] = N.box(it, s.shape, el)


def make_pair(it, lo, hi):
    cls = 'ClassicalArithmetic' if it.branch(it.th.z(lo) <= it.th.z(hi)) else 'KaucherArithmetic'
    return make(it, lo, hi, cls)


def finish(it, n, r, diag, off, rhs, how=near):
    ok = isinstance(r, tuple) and len(r) == 2
    it.oblige('a matrix and a right-hand side', ok)
    if not ok:
        return
    A, b = array_ok(it, 'A', r[0], [n, n]), array_ok(it, 'b', r[1], [n])
    if A is None or b is None:
        return
    i, j = index(it, [n, n])
    e = A.el(it, [i, j])
    if it.branch(i == j):
        diag(e, i)
    else:
        off(e, i, j)
    rhs(b.el(it, [i]))


def size(it):
    n = z3.Int('n')
    it.assume(n >= 2)
    return n


def case_neumaier(infb, supb):
    def body(it):
        z = it.th.z
        n, t = size(it), it.th.var('theta')
        it.ghost['diagonal'] = lambda i: (t, t)
        lo, hi = it.th.var('infb') if infb else K(-1), it.th.var('supb') if supb else K(1)
        kw = {}
        if infb:
            kw['infb'] = Num(lo, 'float')
        if supb:
            kw['supb'] = Num(hi, 'float')
        it.assume(z(lo) <= z(hi))
        r = call(it, NEW, 'Neumaier_system', [mkint(n), Num(t, 'float')], kw)
        finish(it, n, r, lambda e, i: is_pair(it, 'diagonal', e, t, t), lambda e, i, j: is_pair(it, 'entry', e, ZERO, K(2)),
               lambda e: is_pair(it, 'right-hand side', e, lo, hi))
    return 'Neumaier_system, infb=%s, supb=%s' % (infb, supb), body


def case_shary(big, params):
    def body(it):
        z = it.th.z
        n = size(it)
        kw = {}
        nr = IntV(n).num(it).p
        Nv = it.th.var('N') if big else nr
        if big:
            kw['N'] = Num(Nv, 'float')
        al, be = (it.th.var('alpha'), it.th.var('beta')) if params else (None, None)
        if params:
            kw['alpha'], kw['beta'] = Num(al, 'float'), Num(be, 'float')
        it.ghost['diagonal'] = lambda i: (nr - K(1), Nv)
        try:
            r = call(it, NEW, 'Shary_system', [mkint(n)], kw)
        except PyRaise:
            bad = []
            if big:
                bad.append(z(Nv) < z(nr) - 1)
            if params:
                bad += [z(al) <= 0, z(be) < z(al), z(be) > 1]
            return it.oblige('refused only outside the documented range', z3.Or(bad or [z3.BoolVal(False)]))
        if big:
            it.oblige('N < n - 1 is refused', z(Nv) >= z(nr) - 1)
        if params:
            # alpha = 0 is accepted: the refusal of negative values is what the code documents by its exception
            it.oblige('parameters outside 0 <= alpha <= beta <= 1 are refused', z3.And(z(al) >= 0, z(al) <= z(be), z(be) <= 1))
        else:
            from fractions import Fraction
            al, be = K(Fraction(0.23)), K(Fraction(0.35))
        finish(it, n, r, lambda e, i: is_pair(it, 'diagonal', e, nr - K(1), Nv), lambda e, i, j: near(it, 'entry', e, al - K(1), K(1) - be),
               lambda e: is_pair(it, 'right-hand side', e, K(1) - nr, nr - K(1)))
    return 'Shary_system, N=%s, parameters=%s' % (big, params), body


class Toft(Invariant):
    """the first k entries of a and of the diagonal are computed"""
    def parts(self, it, env):
        return data_of(env.v['A']), data_of(env.v['a'])

    def prove(self, it, env, k, stage):
        A, a = self.parts(it, env)
        if stage == 'entry':
            self.sA, self.sa = A.copy(), a.copy()
        r = it.ghost['r']
        i, j = [z3.Int('%s_%s' % (c, stage)) for c in 'ij']
        it.assume(z3.And(i >= 0, i < A.shape[0], j >= 0, j < A.shape[1]))
        e, c = A.el(it, [i, j]), a.el(it, [i])
        if it.branch(z3.And(i == j, i < k)):
            near(it, 'diagonal entry (%s)' % stage, e, K(1) - r, K(1) + r)
        else:
            is_pair(it, 'other entry (%s)' % stage, e, ZERO, ZERO)
        if it.branch(i < k):
            t = IntV(i + 1).num(it).p
            near(it, 'border (%s)' % stage, c, t - r, t + r)
        else:
            is_pair(it, 'border not yet computed (%s)' % stage, c, ZERO, ZERO)

    def havoc(self, it, env, k):
        r = it.ghost['r']
        z, th = it.th.z, it.th

        def rounded(name, idx, lo, hi):
            a, b = app(it, name + '.a', idx), app(it, name + '.b', idx)
            key = ('toft', name, tuple(i.sexpr() for i in idx))
            t = it.ghost.setdefault('toft', {})
            if key not in t:
                for p, q in ((a, lo), (b, hi)):
                    it.th.fixed.append(z3.And(z(th.round('D', q)) <= z(p), z(p) <= z(th.round('U', q))))
                it.th.fixed.append(z(a) <= z(b))
                t[key] = make(it, a, b)
            return t[key]

        def elA(it, idx):
            if it.branch(z3.And(idx[0] == idx[1], idx[0] < k)):
                return rounded('tA', [idx[0]], K(1) - r, K(1) + r)
            return make(it, ZERO, ZERO)

        def ela(it, idx):
            if it.branch(idx[0] < k):
                t = IntV(idx[0] + 1).num(it).p
                return rounded('ta', idx, t - r, t + r)
            return make(it, ZERO, ZERO)
        env.v['A'], env.v['a'] = N.box(it, self.sA.shape, elA), N.box(it, self.sa.shape, ela)


def case_toft(params):
    def body(it):
        z = it.th.z
        n = size(it)
        r, Rr = (it.th.var('r'), it.th.var('R')) if params else (ZERO, ZERO)
        it.ghost['r'] = r
        try:
            v = call(it, NEW, 'Toft_system', [mkint(n)] + ([Num(r, 'float'), Num(Rr, 'float')] if params else []))
        except PyRaise:
            return it.oblige('refused only for negative parameters', z3.Or(z(r) < 0, z(Rr) < 0))
        it.oblige('negative parameters are refused', z3.And(z(r) >= 0, z(Rr) >= 0))

        def border(e, t):
            p = IntV(t + 1).num(it).p
            near(it, 'border', e, p - r, p + r)

        def diag(e, i):
            if it.branch(i == n - 1):
                return border(e, i)
            near(it, 'diagonal', e, K(1) - r, K(1) + r)

        def off(e, i, j):
            if it.branch(i == n - 1):
                return border(e, j)
            if it.branch(j == n - 1):
                return border(e, i)
            is_pair(it, 'entry', e, ZERO, ZERO)
        finish(it, n, v, diag, off, lambda e: near(it, 'right-hand side', e, K(1) - Rr, K(1) + Rr))
    return 'Toft_system, parameters=%s' % params, body


def cases27():
    out = [case_filled(f, s) for f in ('zeros', 'full') for s in ('n1', 't1', 't2', 't3')]
    out += [case_eye(p, q) for p in (False, True) for q in (False, True)]
    out += [case_diag(r, q) for r in (1, 2) for q in (False, True)]
    out.append(case_compmat())
    out += [case_neumaier(p, q) for p in (False, True) for q in (False, True)]
    out += [case_shary(p, q) for p in (False, True) for q in (False, True)]
    out += [case_toft(p) for p in (False, True)]
    return out
