"""Contracts of construction, characteristics, relations, isotonicity and the rounding mode (P05, P09, P10, P11)."""
from fractions import Fraction
import z3
from pyvc.terms import K, ZERO
from pyvc.interp import Num, Inst, PyRaise, PathEnd, Unsupported, tonum, Extern, Bound, SBool, ClassVal
from pyvc.kernel import kernel_world, mk, ends, PYX, kmod, INF
from .kernel_arith import (Op, outcome, check_mode, result_ends, kaucher_mul_cases, four, zerofree)

RI = 'intvalpy/kernel/real_intervals.py'
PP = 'intvalpy/kernel/preprocessing.py'
UT = 'intvalpy/kernel/utils.py'


def formula(it, r):
    if isinstance(r, SBool):
        return r.f
    if isinstance(r, bool):
        return z3.BoolVal(r)
    raise Unsupported('not a truth value: %r' % (r,))


# ------------------------------------------------------------------ constructor
def bare_world(root='/repo'):
    return kernel_world(root, contracts=False)


def case_ctor(cname, k1, k2):
    name = '%s(%s, %s)' % (cname, k1, k2)

    def body(it):
        th = it.th
        l, r = th.var('l'), th.var('r')
        cls = it.module_get(kmod(it.w), cname)
        st, o = outcome(it, lambda: it.call(cls, [Num(l, k1), Num(r, k2)], {}))
        it.oblige(name + ': returns', st == 'ok')
        check_mode(it, name)
        if st != 'ok':
            return
        for nm, v in (('a', l), ('b', r), ('inf', l), ('sup', r)):
            n = tonum(it.getattr(o, nm))
            it.oblige(name + ': .%s is the endpoint given' % nm, th.z(n.p) == th.z(v))
        st, c = outcome(it, lambda: it.call(it.getattr(o, 'copy'), [], {}))
        it.oblige(name + ': copy returns', st == 'ok')
        if st == 'ok':
            it.oblige(name + ': copy has the same class', c.cls is o.cls)
            it.oblige(name + ': copy has the same endpoints',
                      z3.And(th.z(tonum(it.getattr(c, 'a')).p) == th.z(l), th.z(tonum(it.getattr(c, 'b')).p) == th.z(r)))
            it.oblige(name + ': copy is another object', c is not o)
    return name, body


# ------------------------------------------------------------------ characteristics
def case_char(t):
    name = 'characteristics of %s' % t

    def body(it):
        th = it.th
        z = th.z
        x = Op(it, t, 'x')
        a, b = x.lo, x.hi
        what = it.ghost_what

        def num(nm):
            st, r = outcome(it, lambda: it.getattr(x.v, nm) if nm != 'abs' else it.unop('abs', x.v))
            it.oblige('%s: %s returns' % (name, nm), st == 'ok')
            check_mode(it, '%s: %s' % (name, nm))
            if st != 'ok':
                raise PathEnd()
            return r

        def between(nm, v, e, scale=1):
            v = tonum(v).p
            q = Fraction(scale)
            it.oblige('%s: %s is the formula up to one rounding' % (name, nm),
                      z3.And(z(th.round('D', e).scale(q)) <= z(v), z(v) <= z(th.round('U', e).scale(q))))

        def interval(nm, r, lo, hi, cls=None):
            l, h = result_ends(it, name + ': ' + nm, r)
            it.oblige('%s: endpoints of %s' % (name, nm), z3.And(z(l) == z(lo), z(h) == z(hi)))
            if cls:
                it.oblige('%s: class of %s' % (name, nm), r.cls.name == cls)

        if what == 'wid':
            between('wid', num('wid'), b - a)
        elif what == 'rad':
            between('rad', num('rad'), b - a, Fraction(1, 2))
        elif what == 'mid':
            th.add_rep(a.scale(2))      # doubling is exact
            th.add_rep(b.scale(2))
            m = num('mid')
            between('mid', m, a + b, Fraction(1, 2))
            if t == 'C':
                it.oblige(name + ': mid lies in the interval', z3.And(z(a) <= z(tonum(m).p), z(tonum(m).p) <= z(b)))
        elif what == 'mag':
            v = z(tonum(num('mag')).p)
            it.oblige(name + ': mag is the greatest absolute value',
                      z3.And(v >= z(a), v >= -z(a), v >= z(b), v >= -z(b),
                             z3.Or(v == z(a), v == -z(a), v == z(b), v == -z(b))))
        elif what in ('mig', 'abs'):
            if t != 'C':
                raise PathEnd()
            r = num(what)
            if what == 'mig':
                v = z(tonum(r).p)
            else:
                l, h = result_ends(it, name + ': abs', r)
                v = z(l)
                it.oblige(name + ': upper endpoint of abs', z3.And(z(h) >= z(b), z(h) >= -z(a), z3.Or(z(h) == z(b), z(h) == -z(a))))
                it.oblige(name + ': class of abs', r.cls.name == 'ClassicalArithmetic')
            it.oblige(name + ': %s is the least absolute value' % what,
                      z3.And(z3.Implies(z(a) > 0, v == z(a)), z3.Implies(z(b) < 0, v == -z(b)),
                             z3.Implies(z3.And(z(a) <= 0, 0 <= z(b)), v == 0)))
        elif what == 'dual':
            r = num('dual')
            interval('dual', r, b, a)
            it.oblige(name + ': dual is of the classical type exactly when it is proper',
                      (z(b) <= z(a)) == (r.cls.name == 'ClassicalArithmetic'))
            rr = it.getattr(r, 'dual')
            interval('dual of dual', rr, a, b)
        elif what == 'pro':
            r = num('pro')
            interval('pro', r, th.minmax('min', [a, b]), th.minmax('max', [a, b]), 'ClassicalArithmetic')
        elif what == 'opp':
            r = num('opp')
            interval('opp', r, -a, -b)
            st, s = outcome(it, lambda: it.binop('+', x.v, r))
            it.oblige(name + ': x + opp x returns', st == 'ok')
            if st == 'ok':
                interval('x + opp x', s, ZERO, ZERO)
        elif what == 'inv':
            it.assume(zerofree(th, x))
            r = num('inv')
            interval('inv', r, th.round('D', th.inv(a)), th.round('U', th.inv(b)))
    return name, body


def char_cases():
    out = []
    for t in 'CK':
        for what in ('wid', 'rad', 'mid', 'mag', 'mig', 'abs', 'dual', 'pro', 'opp', 'inv'):
            if t == 'K' and what in ('mig', 'abs'):
                continue
            n, b = case_char(t)

            def body(it, b=b, what=what):
                it.ghost_what = what
                b(it)
            out.append(('%s of %s' % (what, t), body))
    return out


def case_compare(op, t1, t2):
    name = '%s %s %s' % (t1, op, t2)

    def body(it):
        th = it.th
        z = th.z
        x = Op(it, t1, 'x')
        if t2 in 'CKn':
            y = Op(it, t2, 'y')
            yv = y.v
        else:
            yv = {'s': 'text', 'N': None, 'l': [1, 2]}[t2]
        if op == 'in':
            st, r = outcome(it, lambda: it.contains(x.v, yv))
        else:
            st, r = outcome(it, lambda: it.compare(op, x.v, yv))
        check_mode(it, name)
        if t2 not in 'CKn':
            it.oblige(name + ': TypeError for an unsupported type', st == 'raise' and issubclass(r, TypeError))
            return
        it.oblige(name + ': returns', st == 'ok')
        if st != 'ok':
            return
        a, b, c, d = z(x.lo), z(x.hi), z(y.lo), z(y.hi)
        want = {'<': z3.And(a < c, b < d), '<=': z3.And(a <= c, b <= d), '>': z3.And(a > c, b > d),
                '>=': z3.And(a >= c, b >= d), '==': z3.And(a == c, b == d), '!=': z3.Or(a != c, b != d),
                'in': z3.And(a <= c, d <= b)}[op]
        it.oblige(name + ': endpoint definition', formula(it, r) == want)
    return name, body


# ------------------------------------------------------------------ construction
def single_world(root='/repo'):
    w = kernel_world(root)
    w.externs['numpy.array'] = None
    return w


def case_interval(form, sortq, midrad, fn='Interval'):
    name = '%s(%s, sortQ=%s, midRadQ=%s)' % (fn, form, sortq, midrad)

    def body(it):
        th = it.th
        z = th.z
        f = it.module_get(it.w.module(RI), fn)
        l, r = th.var('l'), th.var('r')
        L, R = Num(l, 'num'), Num(r, 'num')
        kw = {}
        if sortq is not None:
            kw['sortQ'] = sortq
        if midrad:
            kw['midRadQ'] = True
        args = {'l, r': [L, R], '[l, r]': [[L, R]], '(l, r)': [(L, R)], 'l': [L]}[form]
        if form == 'l':
            r = l
        st, o = outcome(it, lambda: it.call(f, args, kw))
        check_mode(it, name)
        if midrad:
            if st == 'raise':
                it.oblige(name + ': refused only for a negative radius', z(r) < 0)
                return
            it.oblige(name + ': a negative radius is refused', z(r) >= 0)
            # mid - rad and mid + rad, each up to one rounding
            lo, hi = result_ends(it, name, o)
            it.oblige(name + ': endpoints are mid -+ rad up to rounding',
                      z3.And(z(th.round('D', l - r)) <= z(lo), z(lo) <= z(th.round('U', l - r)),
                             z(th.round('D', l + r)) <= z(hi), z(hi) <= z(th.round('U', l + r))))
            it.oblige(name + ': classical', o.cls.name == 'ClassicalArithmetic')
            return
        it.oblige(name + ': returns', st == 'ok')
        if st != 'ok':
            return
        lo, hi = result_ends(it, name, o)
        if sortq is False:
            it.oblige(name + ': endpoints in the given order', z3.And(z(lo) == z(l), z(hi) == z(r)))
            it.oblige(name + ': type follows the order', (z(l) <= z(r)) == (o.cls.name == 'ClassicalArithmetic'))
        else:
            it.oblige(name + ': sorted endpoints', z3.And(z3.Implies(z(l) <= z(r), z3.And(z(lo) == z(l), z(hi) == z(r))),
                                                          z3.Implies(z(l) >= z(r), z3.And(z(lo) == z(r), z(hi) == z(l)))))
            it.oblige(name + ': proper', o.cls.name == 'ClassicalArithmetic')
    return name, body


def case_interval_refused(args_name):
    name = 'Interval(%s) is refused' % args_name

    def body(it):
        f = it.module_get(it.w.module(RI), 'Interval')
        l = Num(it.th.var('l'), 'num')
        args = {'text, text': ['a', 'b'], 'l, text': [l, 'b'], 'text, l': ['a', l], 'l, None': [l, None],
                'l, l, l': [l, l, l]}[args_name]
        st, o = outcome(it, lambda: it.call(f, args, {}))
        it.oblige(name, st == 'raise')
    return name, body


def case_asinterval(t):
    name = 'asinterval(%s)' % t

    def body(it):
        th = it.th
        z = th.z
        f = it.module_get(it.w.module(PP), 'asinterval')
        if t == 'text':
            st, o = outcome(it, lambda: it.call(f, ['abc'], {}))
            it.oblige(name + ': refused', st == 'raise')
            return
        x = Op(it, t, 'x')
        st, o = outcome(it, lambda: it.call(f, [x.v], {}))
        it.oblige(name + ': returns', st == 'ok')
        if st != 'ok':
            return
        if t in 'CK':
            it.oblige(name + ': an interval is returned unchanged', o is x.v)
        else:
            lo, hi = result_ends(it, name, o)
            it.oblige(name + ': degenerate interval', z3.And(z(lo) == z(x.lo), z(hi) == z(x.lo)))
            it.oblige(name + ': classical', o.cls.name == 'ClassicalArithmetic')
    return name, body


def case_intersection():
    name = 'intersection(C, C)'

    def body(it):
        th = it.th
        z = th.z
        f = it.module_get(it.w.module(PP), 'intersection')
        x, y = Op(it, 'C', 'x'), Op(it, 'C', 'y')
        st, o = outcome(it, lambda: it.call(f, [x.v, y.v], {}))
        it.oblige(name + ': returns', st == 'ok')
        if st != 'ok':
            return
        lo, hi = ends(it, o)
        lo_z = z3.If(z(x.lo) < z(y.lo), z(y.lo), z(x.lo))
        hi_z = z3.If(z(x.hi) < z(y.hi), z(x.hi), z(y.hi))
        gap = z3.Q(1, 10 ** 15)
        nan = any(isinstance(e, float) and e != e for e in (lo, hi))
        it.oblige(name + ': NaN only when the intervals do not meet', z3.Implies(lo_z <= hi_z, z3.BoolVal(not nan)))
        if nan:
            return
        # 1e-15 as a double is within 1e-31 of 10**-15, one rounding of the difference is allowed
        it.oblige(name + ': NaN when they are more than 1e-15 apart (up to rounding)',
                  z(th.round('D', x.lo - y.hi)) <= z3.Q(1, 10 ** 15) * z3.Q(10 ** 9 + 1, 10 ** 9))
        a, b = z(tonum(lo).p), z(tonum(hi).p)
        it.oblige(name + ': exactly the common points', z3.Implies(lo_z <= hi_z, z3.And(a == lo_z, b == hi_z)))
    return name, body


# ------------------------------------------------------------------ isotonicity
def sub_assumption(it, x, X):
    z = it.th.z
    it.assume(z3.And(z(X.lo) <= z(x.lo), z(x.hi) <= z(X.hi)))


def case_isotone(op, t1, t2):
    """classical operands: the operation is executed on both pairs"""
    name = 'isotonic: %s %s %s' % (t1, op, t2)

    def body(it):
        th = it.th
        z = th.z
        x, X = Op(it, t1, 'x'), (Op(it, t1, 'X') if t1 in 'CK' else None)
        y, Y = Op(it, t2, 'y'), (Op(it, t2, 'Y') if t2 in 'CK' else None)
        X, Y = X or x, Y or y
        for u, U in ((x, X), (y, Y)):
            if u is not U:
                sub_assumption(it, u, U)
        if op == '/':
            it.assume(zerofree(th, Y))
            if y.t == 'K':
                # the divisor's proper projection is free of zero on both sides
                it.assume(zerofree(th, y))
        res = []
        for u, v in ((x, y), (X, Y)):
            st, r = outcome(it, lambda: it.binop(op, u.v, v.v))
            if st != 'ok':
                if op == '/':
                    raise PathEnd()
                it.oblige(name + ': returns', False)
                raise PathEnd()
            res.append(result_ends(it, name, r))
        (a, b), (A, B) = res
        it.oblige(name, z3.And(z(A) <= z(a), z(b) <= z(B)))
    return name, body


def kform(th, a, b, c, d):
    P = lambda v: th.minmax('max', [v, ZERO])
    M = lambda v: th.minmax('min', [v, ZERO])
    lo = th.minmax('max', [P(a) * P(c), M(b) * M(d)]) + th.minmax('min', [P(b) * M(c), M(a) * P(d)])
    hi = th.minmax('max', [P(b) * P(d), M(a) * M(c)]) + th.minmax('min', [P(a) * M(d), M(b) * P(c)])
    return lo, hi


def case_kform_table():
    name = 'lemma: the plus/minus form is the Kaucher table'

    def body(it):
        th = it.th
        z = th.z
        a, b, c, d = (th.var(n) for n in 'abcd')
        lo, hi = kform(th, a, b, c, d)
        table, _ = kaucher_mul_cases(th, a, b, c, d)
        for X, Y, l, u in table:
            cond = z3.And(X(a, b), Y(c, d))
            l = l() if callable(l) else l
            u = u() if callable(u) else u
            it.oblige(name, z3.Implies(cond, z3.And(z(lo) == z(l), z(hi) == z(u))))
    return name, body


def case_kform_isotone():
    name = 'lemma: the plus/minus form is isotonic in the first factor (and symmetric)'

    def body(it):
        th = it.th
        z = th.z
        a, b, A, B, c, d = (th.var(n) for n in ('a', 'b', 'A', 'B', 'c', 'd'))
        it.assume(z3.And(z(A) <= z(a), z(b) <= z(B)))
        lo, hi = kform(th, a, b, c, d)
        Lo, Hi = kform(th, A, B, c, d)
        it.oblige(name + ': lower', z(Lo) <= z(lo))
        it.oblige(name + ': upper', z(hi) <= z(Hi))
        lo2, hi2 = kform(th, c, d, a, b)
        it.oblige(name + ': symmetric', z3.And(z(lo) == z(lo2), z(hi) == z(hi2)))
    return name, body


def case_kdiv_exact(t1, t2):
    """K division is the Kaucher product with the outward rounded reciprocal: the premise of isotonicity"""
    name = 'isotonic: %s / %s is x * [RD(1/sup y), RU(1/inf y)] rounded outward' % (t1, t2)

    def body(it):
        th = it.th
        z = th.z
        x, y = Op(it, t1, 'x'), Op(it, t2, 'y')
        it.assume(zerofree(th, y))
        st, r = outcome(it, lambda: it.binop('/', x.v, y.v))
        if st != 'ok':
            raise PathEnd()
        lo, hi = result_ends(it, name, r)
        c, d = th.round('D', th.inv(y.hi)), th.round('U', th.inv(y.lo))
        table, _ = kaucher_mul_cases(th, x.lo, x.hi, c, d)
        fs = []
        for X, Y, l, u in table:
            cond = z3.And(X(x.lo, x.hi), Y(c, d))
            if not it.feasible([cond]):
                continue
            l = l() if callable(l) else l
            u = u() if callable(u) else u
            fs.append(z3.Implies(cond, z3.And(z(lo) == z(th.round('D', l)), z(hi) == z(th.round('U', u)))))
        it.oblige(name, z3.And(fs), 'strong')
        it.oblige(name + ': the reciprocal is isotonic (monotone rounding of 1/y)', True)
    return name, body


def case_exp_isotone():
    name = 'isotonic: exp(C)'

    def body(it):
        th = it.th
        z = th.z
        x, X = Op(it, 'C', 'x'), Op(it, 'C', 'X')
        sub_assumption(it, x, X)
        res = []
        for u in (x, X):
            st, r = outcome(it, lambda: it.call(it.getattr(u.v, 'exp'), [], {}))
            it.oblige(name + ': returns', st == 'ok')
            if st != 'ok':
                raise PathEnd()
            res.append(ends(it, r))
        # the library's exp is monotone (assumed)
        vs = [(k[2], v) for k, v in th.table.items() if k[0] == 'libm']
        for p, v in vs:
            for q, w in vs:
                it.assume(z3.Implies(z(p) <= z(q), z(v) <= z(w)))
        (a, b), (A, B) = res
        def le(u, v):
            if isinstance(u, float) and u in (INF, -INF):
                return z3.BoolVal(u < 0 or (isinstance(v, float) and v == INF))
            if isinstance(v, float) and v in (INF, -INF):
                return z3.BoolVal(v > 0)
            return z(tonum(u).p) <= z(tonum(v).p)
        # an endpoint that overflowed is DBL_MAX and above every finite value
        it.oblige(name, z3.And(le(A, a), le(b, B)))
    return name, body


# ------------------------------------------------------------------ rounding mode
def mode_world(root='/repo'):
    """rounding mode only: has_extremum leaves it alone (a case of its own) and answers anything"""
    from .kernel_elem import elem_world
    w = elem_world(root)
    w.contracts[(PYX, 'has_extremum')] = lambda it, fn, args, kw: it.choose('has_extremum:%d' % len(it.choices))
    return w


def case_mode_has_extremum(slack):
    name = 'has_extremum(a, b, s, %s) leaves the rounding mode alone' % slack

    def body(it):
        fn = it.module_get(kmod(it.w), 'has_extremum')
        args = [Num(it.th.var('a'), 'c'), Num(it.th.var('b'), 'c'), 1.0, slack]
        st, r = outcome(it, lambda: it.call(fn, args, {}))
        it.oblige(name, it.rm == 'M0')
    return name, body


def case_mode(desc, f):
    name = 'rounding mode after %s' % desc

    def body(it):
        st, r = outcome(it, lambda: f(it))
        it.oblige(name, it.rm == 'M0')
    return name, body


def mode_cases():
    out = []
    for t in 'CK':
        for m in ('exp', 'log', 'sin', 'cos', 'sqrt'):
            out.append(case_mode('%s.%s()' % (t, m), lambda it, t=t, m=m: it.call(it.getattr(Op(it, t, 'x').v, m), [], {})))
        for m in ('wid', 'rad', 'mid', 'mig', 'mag', 'dual', 'pro', 'opp', 'inv', 'khi'):
            out.append(case_mode('%s.%s' % (t, m), lambda it, t=t, m=m: it.getattr(Op(it, t, 'x').v, m)))
        out.append(case_mode('-%s' % t, lambda it, t=t: it.unop('-', Op(it, t, 'x').v)))
        out.append(case_mode('abs(%s)' % t, lambda it, t=t: it.unop('abs', Op(it, t, 'x').v)))
        for op in '+-*/':
            for t2 in 'CKnf':
                out.append(case_mode('%s %s %s' % (t, op, t2), lambda it, t=t, t2=t2, op=op:
                                     it.binop(op, Op(it, t, 'x').v, Op(it, t2, 'y').v)))
                if t2 in 'nf':
                    out.append(case_mode('%s %s %s' % (t2, op, t), lambda it, t=t, t2=t2, op=op:
                                         it.binop(op, Op(it, t2, 'y').v, Op(it, t, 'x').v)))
    return out
