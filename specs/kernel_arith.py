"""Contracts of scalar interval arithmetic (P01-P05, P09)."""
import z3
from pyvc.terms import K, ZERO
from pyvc.interp import Num, Inst, PyRaise, PathEnd, Unsupported, tonum, Extern, Bound
from pyvc.kernel import kernel_world, mk, ends, PYX, kmod, INF


class Op:
    """an operand: C classical interval, K Kaucher interval, n Python number, f numpy scalar"""
    def __init__(self, it, typ, tag):
        self.t = typ
        th = it.th
        if typ in 'CK':
            self.lo, self.hi = th.var(tag + 'a'), th.var(tag + 'b')
            self.v = mk(it, 'ClassicalArithmetic' if typ == 'C' else 'KaucherArithmetic',
                        Num(self.lo, 'num'), Num(self.hi, 'num'))
            if typ == 'C':
                it.assume(th.z(self.lo) <= th.z(self.hi))
        else:
            self.lo = self.hi = th.var(tag)
            self.v = Num(self.lo, 'num' if typ == 'n' else 'np')

    @property
    def interval(self):
        return self.t in 'CK'


def outcome(it, f):
    """('ok', value) or ('raise', class)"""
    try:
        return 'ok', f()
    except PyRaise as e:
        return 'raise', e.cls


def zerofree(th, o):
    lo, hi = th.z(o.lo), th.z(o.hi)
    return z3.Or(z3.And(lo > 0, hi > 0), z3.And(lo < 0, hi < 0))


def kaucher_mul_cases(th, a, b, c, d):
    """Kaucher's table: (condition, lower, upper); a..d are terms"""
    z = th.z
    P = lambda x, y: z3.And(z(x) >= 0, z(y) >= 0)
    M = lambda x, y: z3.And(z(x) <= 0, z(y) <= 0)
    Z = lambda x, y: z3.And(z(x) <= 0, z(y) >= 0)
    D = lambda x, y: z3.And(z(x) >= 0, z(y) <= 0)
    mn = lambda x, y: th.minmax('min', [x, y])
    mx = lambda x, y: th.minmax('max', [x, y])
    O = ZERO
    return [
        (P, P, a * c, b * d), (P, Z, b * c, b * d), (P, M, b * c, a * d), (P, D, a * c, a * d),
        (Z, P, a * d, b * d), (Z, Z, lambda: mn(a * d, b * c), lambda: mx(a * c, b * d)),
        (Z, M, b * c, a * c), (Z, D, O, O),
        (M, P, a * d, b * c), (M, Z, a * d, a * c), (M, M, b * d, a * c), (M, D, b * d, b * c),
        (D, P, a * c, b * c), (D, Z, O, O), (D, M, b * d, a * d),
        (D, D, lambda: mx(a * c, b * d), lambda: mn(a * d, b * c))], (P, M, Z, D)


def check_mode(it, name):
    it.oblige(name + ': rounding mode restored', it.rm == 'M0')


def result_ends(it, name, r, proper=None):
    if not isinstance(r, Inst) or r.cls.name not in ('ClassicalArithmetic', 'KaucherArithmetic'):
        it.oblige(name + ': the result is an interval', False)
        raise PathEnd()
    a, b = ends(it, r)
    na, nb = tonum(a), tonum(b)
    if na is None or nb is None:
        raise Unsupported('endpoint %r, %r' % (a, b))
    return na.p, nb.p


def case_addsub(op, t1, t2):
    name = '%s %s %s' % (t1, op, t2)

    def body(it):
        th = it.th
        z = th.z
        x, y = Op(it, t1, 'x'), Op(it, t2, 'y')
        st, r = outcome(it, lambda: it.binop(op, x.v, y.v))
        it.oblige(name + ': returns', st == 'ok')
        check_mode(it, name)
        if st != 'ok':
            return
        lo, hi = result_ends(it, name, r)
        elo = x.lo + y.lo if op == '+' else x.lo - y.hi
        ehi = x.hi + y.hi if op == '+' else x.hi - y.lo
        it.oblige(name + ': lower endpoint is the exact one rounded down', z(lo) == z(th.round('D', elo)))
        it.oblige(name + ': upper endpoint is the exact one rounded up', z(hi) == z(th.round('U', ehi)))
        if x.t != 'K' and y.t != 'K':
            it.oblige(name + ': the result is proper', z(lo) <= z(hi))
            it.oblige(name + ': the result is a ClassicalArithmetic', r.cls.name == 'ClassicalArithmetic')
            s, t = th.var('s', rep=False), th.var('t', rep=False)
            it.assume(z3.And(z(x.lo) <= z(s), z(s) <= z(x.hi), z(y.lo) <= z(t), z(t) <= z(y.hi)))
            v = s + t if op == '+' else s - t
            it.oblige(name + ': contains the value at all members', z3.And(z(lo) <= z(v), z(v) <= z(hi)))
    return name, body


def case_neg(t1):
    name = '-%s' % t1

    def body(it):
        th = it.th
        x = Op(it, t1, 'x')
        st, r = outcome(it, lambda: it.unop('-', x.v))
        it.oblige(name + ': returns', st == 'ok')
        check_mode(it, name)
        if st != 'ok':
            return
        lo, hi = result_ends(it, name, r)
        it.oblige(name + ': endpoints', z3.And(th.z(lo) == th.z(-x.hi), th.z(hi) == th.z(-x.lo)))
        if t1 == 'C':
            it.oblige(name + ': proper', th.z(lo) <= th.z(hi))
    return name, body


def four(th, x, y, inv=False):
    ys = [th.inv(y.lo), th.inv(y.hi)] if inv else [y.lo, y.hi]
    return [p * q for p in (x.lo, x.hi) for q in ys]


def case_mul(t1, t2):
    name = '%s * %s' % (t1, t2)

    def body(it):
        th = it.th
        z = th.z
        x, y = Op(it, t1, 'x'), Op(it, t2, 'y')
        st, r = outcome(it, lambda: it.binop('*', x.v, y.v))
        it.oblige(name + ': returns', st == 'ok')
        check_mode(it, name)
        if st != 'ok':
            return
        lo, hi = result_ends(it, name, r)
        if 'K' in (t1, t2):
            kaucher_obligations(it, name, lo, hi, x.lo, x.hi, y.lo, y.hi)
        else:
            ps = four(th, x, y)
            it.oblige(name + ': lower endpoint is the least endpoint product rounded down',
                      z(lo) == z(th.round('D', th.minmax('min', ps))))
            it.oblige(name + ': upper endpoint is the greatest endpoint product rounded up',
                      z(hi) == z(th.round('U', th.minmax('max', ps))))
            it.oblige(name + ': proper', z(lo) <= z(hi))
            it.oblige(name + ': class', r.cls.name == 'ClassicalArithmetic')
    return name, body


def kaucher_obligations(it, name, lo, hi, a, b, c, d, strong=True):
    th = it.th
    z = th.z
    table, cls = kaucher_mul_cases(th, a, b, c, d)
    encl, exact = [], []
    for X, Y, l, u in table:
        cond = z3.And(X(a, b), Y(c, d))
        if not it.feasible([cond]):
            continue
        l = l() if callable(l) else l
        u = u() if callable(u) else u
        encl.append(z3.Implies(cond, z3.And(z(lo) <= z(l), z(u) <= z(hi))))
        if strong:
            exact.append(z3.Implies(cond, z3.And(z(lo) == z(th.round('D', l)), z(hi) == z(th.round('U', u)))))
    it.oblige(name + ': encloses the Kaucher product', z3.And(encl))
    if strong:
        it.oblige(name + ': is the Kaucher product rounded outward', z3.And(exact), 'strong')


def case_div(t1, t2):
    name = '%s / %s' % (t1, t2)

    def body(it):
        th = it.th
        z = th.z
        x, y = Op(it, t1, 'x'), Op(it, t2, 'y')
        st, r = outcome(it, lambda: it.binop('/', x.v, y.v))
        check_mode(it, name)
        zero = z3.And(z(y.lo) <= 0, 0 <= z(y.hi))           # zero in the divisor
        free = zerofree(th, y)
        if st == 'raise':
            it.oblige(name + ': refused with ValueError or ZeroDivisionError', r in (ValueError, ZeroDivisionError))
            it.oblige(name + ': refused only when the divisor is not free of zero', z3.Not(free))
            return
        it.oblige(name + ': a divisor containing zero is refused', z3.Not(zero))
        if y.t == 'K':
            it.assume(free)
        if not it.feasible([]):
            raise PathEnd()
        lo, hi = result_ends(it, name, r)
        if 'K' in (t1, t2):
            # x / y = x * [1/sup y, 1/inf y]
            kaucher_obligations(it, name, lo, hi, x.lo, x.hi, th.inv(y.hi), th.inv(y.lo), strong=not y.interval)
        else:
            ps = four(th, x, y, inv=True)
            mn, mx = th.minmax('min', ps), th.minmax('max', ps)
            it.oblige(name + ': lower endpoint is at most every endpoint quotient', z3.And([z(lo) <= z(p) for p in ps]))
            it.oblige(name + ': upper endpoint is at least every endpoint quotient', z3.And([z(hi) >= z(p) for p in ps]))
            it.oblige(name + ': proper', z(lo) <= z(hi))
            it.oblige(name + ': class', r.cls.name == 'ClassicalArithmetic')
            if x.interval:
                it.oblige(name + ': endpoints are the exact ones rounded outward',
                          z3.And(z(lo) == z(th.round('D', mn)), z(hi) == z(th.round('U', mx))), 'strong')
    return name, body


def lemma_mul():
    """a bilinear form on a box attains its extremes at the vertices"""
    def body(it):
        th = it.th
        z = th.z
        a, b, c, d, s, t = (th.var(n) for n in 'abcdst')
        it.assume(z3.And(z(a) <= z(s), z(s) <= z(b), z(c) <= z(t), z(t) <= z(d)))
        ps = [a * c, a * d, b * c, b * d]
        it.oblige('lemma: s*t lies between the endpoint products',
                  z3.And(z3.Or([z(p) <= z(s * t) for p in ps]), z3.Or([z(p) >= z(s * t) for p in ps])))
        it.oblige('lemma: s*t is enclosed', z3.And(z(th.minmax('min', ps)) <= z(s * t), z(s * t) <= z(th.minmax('max', ps))))
    return 'lemma: product of members', body


def lemma_div():
    def body(it):
        th = it.th
        z = th.z
        a, b, c, d, s, t = (th.var(n) for n in 'abcdst')
        it.assume(z3.And(z(a) <= z(s), z(s) <= z(b), z(c) <= z(t), z(t) <= z(d)))
        it.assume(z3.Or(z(c) > 0, z(d) < 0))
        ps = [p * th.inv(q) for p in (a, b) for q in (c, d)]
        v = s * th.inv(t)
        it.oblige('lemma: s/t is enclosed by the endpoint quotients',
                  z3.And(z(th.minmax('min', ps)) <= z(v), z(v) <= z(th.minmax('max', ps))))
    return 'lemma: quotient of members', body
