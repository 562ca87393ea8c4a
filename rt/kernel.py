"""Contracts of the scalar kernel (P01-P12)."""
import itertools, math, os
from fractions import Fraction
import numpy as np
import mpmath
import intvalpy as ip
from intvalpy import Interval, asinterval, ClassicalArithmetic as C, KaucherArithmetic as K, ArrayInterval
from intvalpy.kernel import interval_arithmetics as ia
from .core import *
from .core import _libm

mp = mpmath.MPContext() if hasattr(mpmath, 'MPContext') else mpmath.mp.clone()
mp.prec = 400
MODES = (RN, RD, RU, RZ)
NORMAL = Fraction(2) ** -1000
BIG = Fraction(2) ** 1000


def mk(s):
    k = s[0]
    if k == 'C':
        return C(s[1], s[2])
    if k == 'K':
        return K(s[1], s[2])
    if k == 'f':
        return float(s[1])
    if k == 'i':
        return int(s[1])
    if k == 'b':
        return bool(s[1])
    if k == 'np':
        return np.float64(s[1])
    if k == 'npi':
        return np.int64(s[1])
    raise ValueError(s)


def ends(s):
    return (F(s[1]), F(s[2])) if s[0] in 'CK' else (F(s[1]), F(s[1]))


def proper_result(z, what, cls=C):
    need(isinstance(z, (C, K)), what + ' is not an interval', z)
    a, b = num(z.a), num(z.b)
    need(a <= b, what + ' is not proper', a, b)
    if cls is C:
        need(isinstance(z, C), what + ' of classical operands is not classical', type(z).__name__)
    return a, b


OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y,
       'np+': np.add, 'np-': np.subtract, 'np*': np.multiply, 'np/': np.divide}


def check_endpoint(v, q, up, what):
    """v is q rounded outward to the nearest double"""
    want = ru(q) if up else rd(q)
    need(same(v, want), '%s endpoint is not the exact one rounded outward' % what, v, want)


@contract('P01')
def addsub(op, x, y, m=0):
    X, Y = mk(x), mk(y)
    z = ok(lambda: OPS[op](X, Y), op, m)
    a, b = proper_result(z, 'x%sy' % op)
    (xa, xb), (ya, yb) = ends(x), ends(y)
    lo, hi = (xa + ya, xb + yb) if op[-1] == '+' else (xa - yb, xb - ya)
    check_endpoint(a, lo, False, 'lower')
    check_endpoint(b, hi, True, 'upper')


@contract('P01')
def negate(x, m=0):
    X = mk(x)
    z = ok(lambda: -X, 'neg', m)
    a, b = proper_result(z, '-x')
    xa, xb = ends(x)
    need(F(a) == -xb and F(b) == -xa, '-x is not [-b, -a]', a, b)


def rnum(g, kinds=('f', 'i', 'np', 'npi')):
    k = g.r.choice(kinds)
    if k in ('i', 'npi'):
        return (k, g.integer(30))
    v = g.double()
    return (k, v if abs(v) <= DBL_MAX else 1.5)


def rclass(g, typ='C'):
    """proper endpoints, sometimes ints"""
    k = g.r.random()
    if k < 0.2:
        a, b = sorted((g.integer(), g.integer()))
        if g.r.random() < 0.3:
            b = max(b, a)
            return (typ, a, float(b))
        return (typ, a, b)
    a, b = g.pair()
    return (typ, a, b)


def rkau(g):
    s = rclass(g, 'K')
    if g.r.random() < 0.55:
        s = ('K', s[2], s[1])
    return s


def rgen(g):
    return rkau(g) if g.r.random() < 0.65 else rclass(g)


def relate(g, x):
    """an interval whose endpoints have something to do with x"""
    k = g.r.random()
    if k < 0.3:
        return (x[0], -x[2], -x[1])
    if k < 0.5:
        return x
    a, b = x[1], x[2]
    a2, b2 = sorted((float(a) * g.r.choice([1.0, 2.0, 0.5, -1.0]), ulps(float(b), g.r.randint(-2, 2))))
    if not (abs(a2) <= DBL_MAX and abs(b2) <= DBL_MAX):
        return x
    return (x[0], a2, b2)


def small_c(vals=(-2.0, -1.0, 0.0, 1.0, 3.0, 0.1)):
    v = sorted(vals)
    return [('C', a, b) for i, a in enumerate(v) for b in v[i:]]


NUMS = [('f', 0.0), ('f', -0.5), ('f', 3.0), ('f', 0.1), ('i', 0), ('i', 2), ('i', -3), ('np', 0.1), ('np', -2.0), ('np', 0.0),
        ('npi', 3), ('npi', -1), ('npi', 0), ('f', 1e-320), ('f', 1e308), ('i', 2 ** 40)]


@directed('P01')
def _(g):
    S = small_c() + [('C', 1, 2), ('C', -1, 3), ('C', 1e308, 1.7e308), ('C', -1.7e308, -1e308), ('C', 5e-324, 1e-320)]
    for x in S:
        yield negate, (x, 0)
    for x in S:
        for y in S + NUMS:
            for op in '+-':
                for m in ((0, RU) if y in NUMS else (0,)):
                    yield addsub, (op, x, y, m)
                    if y in NUMS:
                        yield addsub, (op, y, x, m)


@generator('P01', 6)
def _(g):
    while True:
        x = rclass(g)
        k = g.r.random()
        y = rnum(g) if k < 0.4 else relate(g, x) if k < 0.5 else rclass(g)
        op = g.r.choice(('+', '-', '+', '-', '+', '-', 'np+', 'np-'))
        m = g.r.choice(MODES)
        yield addsub, (op, x, y, m) if g.r.random() < 0.5 else (op, y, x, m)


@generator('P01', 1)
def _(g):
    while True:
        yield negate, (rclass(g), g.r.choice(MODES))


# ---------------------------------------------------------------- P02
@contract('P02')
def product(x, y, m=0, op='*'):
    X, Y = mk(x), mk(y)
    z = ok(lambda: OPS[op](X, Y), op, m)
    a, b = proper_result(z, 'x*y')
    p = [s * t for s in ends(x) for t in ends(y)]
    check_endpoint(a, min(p), False, 'lower')
    check_endpoint(b, max(p), True, 'upper')


@directed('P02')
def _(g):
    S = small_c() + [('C', 1, 2), ('C', -1, 3), ('C', 1e300, 1.7e308), ('C', -1e200, 1e200), ('C', 5e-324, 1e-300), ('C', -1e-200, 1e-170)]
    for x in S:
        for y in S:
            yield product, (x, y, 0)
        for y in NUMS:
            for m in (0, RD):
                yield product, (x, y, m)
                yield product, (y, x, m)


@generator('P02', 6)
def _(g):
    while True:
        x = rclass(g)
        k = g.r.random()
        y = rnum(g) if k < 0.35 else relate(g, x) if k < 0.45 else rclass(g)
        m = g.r.choice(MODES)
        op = g.r.choice(('*', '*', '*', 'np*'))
        yield product, (x, y, m, op) if g.r.random() < 0.5 else (y, x, m, op)


# ---------------------------------------------------------------- P03
def near(v, q, k, what):
    """v within k units in the last place of q, for q in the normal range"""
    if q == 0:
        need(num(v) == 0, what + ' is not zero', v)
    elif NORMAL <= abs(q) <= BIG:
        lo, hi = ulps(rd(q), -k), ulps(ru(q), k)
        need(lo <= num(v) <= hi, what + ' is too far from the exact value', v, rnd(q))


ZDIV = (ValueError, ZeroDivisionError)


def mid_range(*qs):
    return all(q == 0 or NORMAL <= abs(q) <= BIG for q in qs)


@contract('P03')
def quotient(x, y, m=0, op='/'):
    X, Y = mk(x), mk(y)
    (xa, xb), (ya, yb) = ends(x), ends(y)
    if ya <= 0 <= yb:
        raises(lambda: OPS[op](X, Y), ZDIV, 'division by an operand containing zero', m)
        return
    z = ok(lambda: OPS[op](X, Y), '/', m)
    a, b = proper_result(z, 'x/y')
    q = [s / t for s in (xa, xb) for t in (ya, yb)]
    need(leq(a, min(q)), 'lower endpoint of the quotient is above a quotient of members', a, rnd(min(q)))
    need(geq(b, max(q)), 'upper endpoint of the quotient is below a quotient of members', b, rnd(max(q)))
    if mid_range(1 / ya, 1 / yb, min(q), max(q)):
        near(a, min(q), 4, 'lower endpoint')
        near(b, max(q), 4, 'upper endpoint')


@directed('P03')
def _(g):
    S = small_c() + [('C', 1, 2), ('C', -1, 3), ('C', -1, 0), ('C', 0, 2), ('C', -0.0, 1.0), ('C', -1.0, -0.0), ('C', 0.0, 0.0), ('C', 0, 0),
                     ('C', 5e-324, 1.0), ('C', -1.0, -5e-324), ('C', -5e-324, 1.0), ('C', 1e300, 1e308), ('C', 7.0, 7.0), ('C', 1, 1)]
    for x in S:
        for y in S:
            yield quotient, (x, y, 0)
        for y in NUMS + [('f', -0.0), ('np', -0.0), ('f', 7.0), ('i', 7)]:
            for m in (0, RU):
                yield quotient, (x, y, m)
                yield quotient, (y, x, m)


@generator('P03', 6)
def _(g):
    while True:
        x = rclass(g)
        k = g.r.random()
        y = rnum(g) if k < 0.35 else relate(g, x) if k < 0.42 else rclass(g)
        m = g.r.choice(MODES)
        op = g.r.choice(('/', '/', '/', 'np/'))
        yield quotient, (x, y, m, op) if g.r.random() < 0.5 else (y, x, m, op)


# ---------------------------------------------------------------- P04
def kmul(x, y):
    """the Kaucher product, by the case table"""
    (a, b), (c, d) = x, y
    pos, neg = lambda t: max(t, 0), lambda t: max(-t, 0)
    lo = max(pos(a) * pos(c), neg(b) * neg(d)) - max(pos(b) * neg(c), neg(a) * pos(d))
    hi = max(pos(b) * pos(d), neg(a) * neg(c)) - max(pos(a) * neg(d), neg(b) * pos(c))
    return lo, hi


@contract('P04')
def kaucher(op, x, y, m=0):
    X, Y = mk(x), mk(y)
    (xa, xb), (ya, yb) = ends(x), ends(y)
    if op == '/':
        if min(ya, yb) <= 0 <= max(ya, yb):
            if ya <= yb:
                raises(lambda: X / Y, ZDIV, 'division by an operand containing zero', m)
            return
        lo, hi = kmul((xa, xb), (1 / yb, 1 / ya))
    else:
        lo, hi = {'+': (xa + ya, xb + yb), '-': (xa - yb, xb - ya), '*': kmul((xa, xb), (ya, yb))}[op]
    if not all(q == 0 or abs(q) <= F(DBL_MAX) for q in (lo, hi)):
        return
    if op == '/' and not mid_range(1 / ya, 1 / yb):
        return
    z = ok(lambda: OPS[op](X, Y), op, m)
    need(isinstance(z, (C, K)), 'the result is not an interval', z)
    a, b = num(z.a), num(z.b)
    need(leq(a, lo), 'lower endpoint is above the exact endpoint of x%sy' % op, a, rnd(lo))
    need(geq(b, hi), 'upper endpoint is below the exact endpoint of x%sy' % op, b, rnd(hi))
    if mid_range(lo, hi):
        k = 4 if op == '/' else 2
        near(a, lo, k, 'lower endpoint')
        near(b, hi, k, 'upper endpoint')
    if isinstance(z, C):
        need(a <= b, 'a classical interval with a > b was returned', a, b)


@contract('P04')
def kneg(x, m=0):
    X = mk(x)
    z = ok(lambda: -X, 'neg', m)
    xa, xb = ends(x)
    need(F(z.a) == -xb and F(z.b) == -xa, '-x is not [-b, -a]', z.a, z.b)


KS = [('K', a, b) for a in (-2.0, -0.1, 0.0, 0.3, 3.0) for b in (-2.0, -0.1, 0.0, 0.3, 3.0)] + [('K', 1, 2), ('K', 3, -1), ('K', 2, 1), ('K', -1, -3)]
CS = [('C', -2.0, -0.1), ('C', -2.0, 0.0), ('C', -0.1, 0.3), ('C', 0.0, 0.0), ('C', 0.3, 3.0), ('C', 0.0, 3.0), ('C', 1, 2), ('C', -3, 1)]


@directed('P04')
def _(g):
    for x in KS:
        yield kneg, (x, 0)
        for y in KS:
            for op in '+-*/':
                yield kaucher, (op, x, y, 0)
        for y in CS + NUMS[:12]:
            for op in '+-*/':
                yield kaucher, (op, x, y, RU)
                yield kaucher, (op, y, x, 0)


@generator('P04', 6)
def _(g):
    while True:
        x = rkau(g)
        k = g.r.random()
        y = rnum(g) if k < 0.3 else relate(g, x) if k < 0.36 else rgen(g)
        m = g.r.choice(MODES)
        op = g.r.choice('+-**//')
        yield kaucher, (op, x, y, m) if g.r.random() < 0.5 else (op, y, x, m)


@generator('P04', 0.3)
def _(g):
    while True:
        yield kneg, (rkau(g), g.r.choice(MODES))


# ---------------------------------------------------------------- P05
def inside(z, w):
    return num(w.a) <= num(z.a) and num(z.b) <= num(w.b)


@contract('P05')
def isotone(op, x, x1, y, y1, m=0):
    for s, t in ((x, x1), (y, y1)):
        (a, b), (c, d) = ends(s), ends(t)
        assert c <= a and b <= d and s[0] == t[0]
    if op == '/':
        for t in (y, y1):
            a, b = ends(t)
            if min(a, b) <= 0 <= max(a, b):
                return
    z = ok(lambda: OPS[op](mk(x), mk(y)), op, m)
    w = ok(lambda: OPS[op](mk(x1), mk(y1)), op, m)
    if any(v != v or isinf(num(v)) for v in (z.a, z.b, w.a, w.b)):
        return
    need(inside(z, w), "x%sy is not inside x'%sy'" % (op, op), (z.a, z.b), (w.a, w.b))


@contract('P05')
def exp_isotone(x, x1, m=0):
    z = ok(lambda: np.exp(mk(x)), 'exp', m)
    w = ok(lambda: np.exp(mk(x1)), 'exp', m)
    need(inside(z, w), "exp(x) is not inside exp(x')", (z.a, z.b), (w.a, w.b))


def widen(g, s):
    """-> (inner, outer) of the same class"""
    t = s[0]
    if t not in 'CK':
        return s, s
    a, b = float(s[1]), float(s[2])

    def move(v, d):
        k = g.r.random()
        if k < 0.25:
            return v
        if k < 0.5:
            return ulps(v, d * g.r.randint(1, 3))
        if k < 0.75:
            return v + d * abs(g.double(0))
        w = g.double()
        return w if d * (w - v) >= 0 else v
    if t == 'C':
        c, d = move(a, -1), move(b, 1)
    else:
        c, d = move(a, -1), move(b, 1)
    if not (abs(c) <= DBL_MAX and abs(d) <= DBL_MAX):
        c, d = a, b
    return (t, a, b), (t, c, d)


@generator('P05', 6)
def _(g):
    while True:
        x = rgen(g) if g.r.random() < 0.85 else rnum(g)
        y = rgen(g) if x[0] not in 'CK' or g.r.random() < 0.7 else rnum(g)
        (x, x1), (y, y1) = widen(g, x), widen(g, y)
        yield isotone, (g.r.choice('+-*/'), x, x1, y, y1, g.r.choice(MODES))


@generator('P05', 1)
def _(g):
    while True:
        x, x1 = widen(g, rclass(g))
        yield exp_isotone, (x, x1, g.r.choice(MODES))


@directed('P05')
def _(g):
    v = (-2.0, -0.1, 0.0, 0.3, 3.0)
    iv = [('K', a, b) for a in v for b in v]
    sup = {x: [w for w in iv if w[1] <= x[1] and x[2] <= w[2]] for x in iv}
    for x in iv:
        for x1 in sup[x]:
            for y in iv[::2]:
                y1 = sup[y][(len(sup[y]) * 7) // 11]
                for op in '*/':
                    yield isotone, (op, x, x1, y, y1, 0)


# ---------------------------------------------------------------- P06
@contract('P06')
def power(x, n, m=0, npint=False):
    X = mk(x)
    e = np.int64(n) if npint else n
    xa, xb = ends(x)
    if max(abs(xa), abs(xb)) ** n > F(DBL_MAX):
        return
    z = ok(lambda: X ** e, '**', m)
    a, b = proper_result(z, 'x**n')
    lo, hi = xa ** n, xb ** n
    if n % 2 == 0:
        lo, hi = min(lo, hi), max(lo, hi)
        if n > 0 and xa <= 0 <= xb:
            lo = F(0)
            need(a == 0, 'lower endpoint of an even power of an interval containing zero', a)
    if n == 0:
        need(a <= 1 <= b, 'x**0 does not contain 1', a, b)
        return
    need(leq(a, lo), 'lower endpoint of x**n above a power of a member', a, rnd(lo))
    need(geq(b, hi), 'upper endpoint of x**n below a power of a member', b, rnd(hi))
    ints = all(isinstance(v, int) for v in x[1:])
    if ints and all(F(rnd(q)) == q for q in (lo, hi)):
        need(F(a) == lo and F(b) == hi, 'x**n with integer endpoints is not the exact range', (a, b), (int(lo), int(hi)))
    for v, q in ((a, lo), (b, hi)):
        if q != 0 and abs(q) >= Fraction(2) ** -1000:
            need(abs(F(v) - q) <= abs(q) * 2 * max(n, 1) * Fraction(2) ** -52, 'x**n is wider than allowed', v, rnd(q))


@contract('P06')
def real_power(x, p, m=0, nptype=False):
    X = mk(x)
    e = np.float64(p) if nptype else p
    xa, xb = float(x[1]), float(x[2])
    if xa < 0:
        raises(lambda: X ** e, ValueError, 'non-integer power of an interval with negative numbers', m)
        return
    z = ok(lambda: X ** e, '**', m)
    a, b = num(z.a), num(z.b)
    need(a == a and b == b and a <= b, 'power is not a proper interval', a, b)
    for t in (xa, xb, (xa + xb) / 2, 5e-324 if xa == 0 and xb > 0 else xb):
        if t <= 0 or t > DBL_MAX:
            continue
        v = mp.power(mp.mpf(t), mp.mpf(p))
        need(mp.mpf(a) <= v <= mp.mpf(b), 'power of a member is outside the result', t, (a, b))


@directed('P06')
def _(g):
    for n in range(0, 12):
        for a in range(-4, 5):
            for b in range(a, 5):
                yield power, (('C', a, b), n, 0, n % 3 == 0)
        for x in [('C', -1.1, 0.3), ('C', -0.3, 0.0), ('C', 0.1, 0.7), ('C', -2.5, -0.1), ('C', 0.0, 1.3), ('C', -1, 2.5), ('C', 3, 1 << 20), ('C', -0.7, 0.7), ('C', 0, 3), ('C', -3, 0)]:
            for m in MODES:
                yield power, (x, n, m, False)
    for p in (0.5, 1.5, -0.5, 2.7, -1.3, 0.1, 1 / 3, 10.25):
        for x in [('C', 0.0, 2.0), ('C', 0.1, 0.3), ('C', 4.0, 9.0), ('C', 0.0, 0.0), ('C', -0.0, 1.0), ('C', -1.0, 2.0), ('C', -3.0, -1.0), ('C', 1, 4), ('C', -1e-300, 1.0), ('C', -5e-324, 0.0), ('C', 1e-300, 1e300)]:
            yield real_power, (x, p, 0, p > 1)


@generator('P06', 4)
def _(g):
    while True:
        x = rclass(g)
        n = g.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 20, 31, 50])
        yield power, (x, n, g.r.choice(MODES), g.r.random() < 0.2)


@generator('P06', 2)
def _(g):
    while True:
        x = rclass(g)
        if g.r.random() < 0.85:
            a, b = sorted((abs(x[1]), abs(x[2])))
            x = ('C', a, b)
        p = g.r.choice([0.5, 1.5, 2.5, -0.5, 1 / 3, g.r.uniform(-4, 4), g.r.uniform(-0.1, 0.1)])
        if float(p).is_integer():
            p += 0.5
        yield real_power, (x, p, 0, g.r.random() < 0.3)


# ---------------------------------------------------------------- P07
def mpf_round(v, up):
    """mpf -> the nearest double above / below"""
    if v == 0:
        return 0.0
    if mp.isinf(v):
        return float(v)
    sign, man, exp, _ = v._mpf_
    man = -man if sign else man
    if exp > 1100:
        return (INF if man > 0 else -DBL_MAX) if up else (DBL_MAX if man > 0 else -INF)
    if exp < -3000:
        return (5e-324 if man > 0 else -0.0) if up else (0.0 if man > 0 else -5e-324)
    q = Fraction(man) * Fraction(2) ** exp
    return ru(q) if up else rd(q)


def f_apply(X, f, way):
    if way == 'np':
        return getattr(np, f)(X)
    if way == 'method':
        return getattr(X, f)()
    return getattr(ip, f)(X)


@contract('P07')
def elementary(f, x, m=0, way='np'):
    assert m == 0
    X = mk(x)
    xa, xb = float(x[1]), float(x[2])
    z = ok(lambda: f_apply(X, f, way), f, m)
    a, b = num(z.a), num(z.b)
    if f in ('log', 'sqrt') and xb < 0:
        need(a != a and b != b, '%s of an interval outside its domain is not NaN' % f, a, b)
        return
    need(a == a and b == b, '%s gives NaN' % f, a, b)
    need(a <= b, '%s is not proper' % f, a, b)
    fun = {'exp': mp.exp, 'log': mp.log, 'sqrt': mp.sqrt}[f]
    lo_arg = max(xa, 0.0) if f != 'exp' else xa
    if f == 'log':
        if xb == 0:
            need(a == -INF, 'log of an interval ending at zero', a, b)
            return
        lo = mp.mpf('-inf') if lo_arg == 0 else mp.log(mp.mpf(lo_arg))
        hi = mp.mpf('inf') if xb == INF else mp.log(mp.mpf(xb))
    else:
        big = lambda t: mp.mpf('inf') if t == INF or (f == 'exp' and t > 800) else mp.mpf(0) if t == -INF else fun(mp.mpf(t))
        lo, hi = big(lo_arg), big(xb)
    L, H = mpf_round(lo, False), mpf_round(hi, True)
    if lo == mp.inf:
        L = DBL_MAX
    need(a <= L or mp.mpf(a) <= lo, 'lower endpoint of %s is above the value of a member' % f, a, L)
    need(b >= H or mp.mpf(b) >= hi, 'upper endpoint of %s is below the value of a member' % f, b, H)
    if f in ('exp', 'log'):
        if abs(a) < DBL_MAX and abs(L) < DBL_MAX:
            need(a >= ulps(mpf_round(lo, True), -2), 'lower endpoint of %s is not tight' % f, a, L)
        if abs(b) < DBL_MAX and abs(H) < DBL_MAX:
            need(b <= ulps(mpf_round(hi, False), 2), 'upper endpoint of %s is not tight' % f, b, H)


@directed('P07')
def _(g):
    v = [-INF, -1e308, -800.0, -746.0, -745.2, -745.0, -709.0, -708.0, -1.0, -0.5, -1e-300, -5e-324, 0.0, 5e-324, 1e-300, 1e-20, 0.5, 0.9589759845929797, 0.9999999999999999, 1.0,
         1.0000000000000002, 2.0, 2.718281828459045, 3.0, 10.0, 700.0, 709.0, 709.78, 709.782712893384, 709.7827128933841, 710.0, 1000.0, 1e300, DBL_MAX, INF]
    for i, a in enumerate(v):
        for b in v[i:]:
            if a == b and abs(a) == INF:
                continue
            for f in ('exp', 'log', 'sqrt'):
                for m in (0,):
                    yield elementary, (f, ('C', a, b), m, ('np', 'method', 'ip')[i % 3])
    for a, b in [(0, 1), (1, 2), (-1, 3), (-3, -1), (0, 0), (2, 1000), (-2000, 2000)]:
        for f in ('exp', 'log', 'sqrt'):
            yield elementary, (f, ('C', a, b), 0, 'ip')


@generator('P07', 5)
def _(g):
    while True:
        f = g.r.choice(['exp', 'log', 'sqrt'])
        k = g.r.random()
        if f == 'exp' and k < 0.6:
            a, b = sorted((g.r.uniform(-760, 760) if g.r.random() < 0.5 else g.r.uniform(-3, 3), g.r.uniform(-760, 760) if g.r.random() < 0.3 else g.r.uniform(-3, 3)))
            x = ('C', a, b)
        elif f != 'exp' and k < 0.6:
            h = lambda: g.r.uniform(0.5, 2) if g.r.random() < 0.5 else math.ldexp(g.r.random() + 0.5, g.r.randint(-40, 40)) if g.r.random() < 0.7 else abs(g.double())
            a, b = sorted((h(), h()))
            x = ('C', a, b)
        else:
            x = rclass(g)
        if g.r.random() < 0.35:
            x = ('C', x[1], x[1])
        yield elementary, (f, x, 0, g.r.choice(['np', 'method', 'ip']))


# ---------------------------------------------------------------- P08
def exact_trig(f, a, b):
    """exact range of f on [a, b] as mpf, and the distance information"""
    mp.prec = 400 if max(abs(a), abs(b)) < 1e60 else 1500
    P = lambda t: mp.mpf(t) / (2 * mp.pi)
    fun = mp.sin if f == 'sin' else mp.cos
    top, bot = (mp.mpf('0.25'), mp.mpf('-0.25')) if f == 'sin' else (mp.mpf(0), mp.mpf('0.5'))
    u, v = P(a), P(b)
    fa, fb = fun(mp.mpf(a)), fun(mp.mpf(b))

    def hits(s, tol):
        lo, hi = u - s, v - s
        return mp.ceil(lo - tol * (1 + abs(lo))) <= mp.floor(hi + tol * (1 + abs(hi)))
    hi = mp.mpf(1) if hits(top, 0) else max(fa, fb)
    lo = mp.mpf(-1) if hits(bot, 0) else min(fa, fb)
    return lo, hi, not hits(bot, mp.mpf(1e-14)), not hits(top, mp.mpf(1e-14))


@contract('P08')
def trig(f, x, m=0, way='np'):
    X = mk(x)
    xa, xb = float(x[1]), float(x[2])
    z = ok(lambda: f_apply(X, f, way), f, m)
    a, b = num(z.a), num(z.b)
    need(a == a and b == b and a <= b, '%s is not a proper interval' % f, a, b)
    lo, hi, tight_lo, tight_hi = exact_trig(f, xa, xb)
    need(mp.mpf(a) <= lo, 'lower endpoint of %s is above the value of a member' % f, a, float(lo))
    need(mp.mpf(b) >= hi, 'upper endpoint of %s is below the value of a member' % f, b, float(hi))
    need(-1 - 1e-15 <= a and b <= 1 + 1e-15, '%s is not within [-1, 1]' % f, a, b)
    if tight_lo and tight_hi:
        need(a >= ulps(mpf_round(lo, True), -2), 'lower endpoint of %s is not tight' % f, a, float(lo))
        need(b <= ulps(mpf_round(hi, False), 2), 'upper endpoint of %s is not tight' % f, b, float(hi))


@directed('P08')
def _(g):
    pts = [0.0, 0.1, 1.0, 1.5, math.pi / 2, 2.0, 3.0, math.pi, 4.0, 3 * math.pi / 2, 5.0, 6.0, 2 * math.pi, 7.0, 8.0, 10.0, 12.5]
    pts = sorted({s * p for p in pts for s in (1, -1)} | {ulps(s * k * math.pi / 2, d) for k in (1, 2, 3, 4) for s in (1, -1) for d in (-1, 1)})
    for f in ('sin', 'cos'):
        for i, a in enumerate(pts):
            for b in pts[i::3]:
                yield trig, (f, ('C', a, b), 0, 'np')
        for base in (1e3, 1e6, 821469221.8168229, 1e10, 1e14, 1e16, 1e22, 1e300, DBL_MAX):
            for a, b in ((base, base), (base, ulps(base, 1)), (base, ulps(base, 3)), (-base, -base), (-base, base), (ulps(base, -2), base)):
                if max(abs(a), abs(b)) <= DBL_MAX and a <= b:
                    yield trig, (f, ('C', a, b), 0, 'method')
        for a, b in ((0, 1), (0, 2), (1, 3), (3, 4), (-2, -1), (4, 5), (-8, 8), (0, 0), (22, 22), (355, 355), (6, 7)):
            yield trig, (f, ('C', a, b), 0, 'ip')


@generator('P08', 5)
def _(g):
    while True:
        f = g.r.choice(['sin', 'cos'])
        k = g.r.random()
        if k < 0.35:
            n = g.r.randint(-10 ** g.r.randint(0, 15), 10 ** g.r.randint(0, 15))
            c = float(n * mp.pi / 2)
            a = ulps(c, g.r.randint(-3, 3))
            b = ulps(a, g.r.randint(0, 4)) if g.r.random() < 0.6 else a + abs(g.r.gauss(0, 1))
            x = ('C', min(a, b), max(a, b))
        elif k < 0.75:
            a = g.r.uniform(-30, 30)
            x = ('C', a, a + abs(g.r.gauss(0, 2)))
        else:
            x = rclass(g)
        yield trig, (f, x, 0, g.r.choice(['np', 'method', 'ip']))


# ---------------------------------------------------------------- P09
def arr(rows):
    """nested lists of operand specs -> ArrayInterval"""
    def data(r):
        return [data(t) for t in r] if isinstance(r, list) else mk(r)

    def shape(r):
        return (len(r),) + shape(r[0]) if isinstance(r, list) and r else (() if not isinstance(r, list) else (0,))
    s = shape(rows)
    out = np.empty(s, dtype=object)
    for i in itertools.product(*map(range, s)):
        t = rows
        for k in i:
            t = t[k]
        out[i] = mk(t)
    return ArrayInterval(out)


MODE_OPS = {
    '+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y,
    'neg': lambda x, y: -x, 'abs': lambda x, y: abs(x), 'inv': lambda x, y: x.inv, 'dual': lambda x, y: x.dual, 'pro': lambda x, y: x.pro,
    'opp': lambda x, y: x.opp, 'wid': lambda x, y: x.wid, 'mid': lambda x, y: x.mid, 'rad': lambda x, y: x.rad, 'mig': lambda x, y: x.mig,
    'mag': lambda x, y: x.mag, 'pow2': lambda x, y: x ** 2, 'pow3': lambda x, y: x ** 3, 'pow.5': lambda x, y: x ** 0.5, 'powbig': lambda x, y: x ** 40,
    'pow-1': lambda x, y: x ** -1, 'powbad': lambda x, y: x ** 'a', 'addbad': lambda x, y: x + 'a', 'mulbad': lambda x, y: x * None,
    'divbad': lambda x, y: x / 'a', 'rdivbad': lambda x, y: 'a' / x, 'subbad': lambda x, y: [] - x, 'cmpbad': lambda x, y: x < 'a',
    'exp': lambda x, y: np.exp(x), 'log': lambda x, y: np.log(x), 'sqrt': lambda x, y: np.sqrt(x), 'sin': lambda x, y: np.sin(x), 'cos': lambda x, y: np.cos(x),
    'tan': lambda x, y: np.tan(x), 'in': lambda x, y: y in x, '<': lambda x, y: x < y, '==': lambda x, y: x == y, '/0': lambda x, y: x / 0, '/0.': lambda x, y: x / np.float64(0),
    'khi': lambda x, y: x.khi, 'copy': lambda x, y: x.copy(), 'div0': lambda x, y: y / (x - x), 'nprdiv': lambda x, y: np.float64(1) / x,
    'inter': lambda x, y: ip.intersection(x, y), 'dist': lambda x, y: ip.dist(x, y), 'radd': lambda x, y: 1 + x, 'rsub': lambda x, y: 1.5 - x, 'rmul': lambda x, y: 3 * x,
    'rdiv': lambda x, y: 1.0 / x, 'rdivi': lambda x, y: 1 / x, '+lst': lambda x, y: x + [1, 2], '*arr': lambda x, y: x * np.array([1.0, 2.0]), 'arr/': lambda x, y: np.array([1.0, 0.0]) / x,
    '@': lambda x, y: x @ x, 'iadd': lambda x, y: x.__iadd__(y), 'repr': lambda x, y: repr(x),
}


def probe():
    a, b, c = 0.1, 3.0, 1e16
    return (a + 0.2, 1.0 / b, c + 1.0, a * a, -a * a, float(np.float64(1.0) / np.float64(3.0)), float(np.float64(-1.0) / np.float64(3.0)))


@contract('P09')
def keeps_mode(op, x, y, m):
    if op == 'const':
        return
    X = arr(x) if isinstance(x, list) else mk(x)
    Y = arr(y) if isinstance(y, list) else mk(y)
    _libm.fesetround(m)
    before = probe()
    try:
        try:
            MODE_OPS[op](X, Y)
        except Exception:
            pass
        after = probe()
        mode_after = _libm.fegetround()
    finally:
        _libm.fesetround(RN)
    need(mode_after == m, 'rounding mode changed by %s' % op, hex(m), hex(mode_after))
    need(before == after, 'ordinary arithmetic changed after %s' % op, before, after)


@directed('P09')
def _(g):
    X = [('C', -1.0, 2.0), ('C', 1.0, 2.0), ('K', 2.0, 1.0), ('K', 2.0, -1.0), ('C', 0, 0), ('C', 700.0, 800.0), ('C', 1e300, 1e308), ('C', -3.0, -1.0), ('K', -1, 3), ('K', 0.0, 0.0)]
    for op in MODE_OPS:
        for m in MODES:
            for x in X:
                yield keeps_mode, (op, x, ('C', 0.5, 1.5), m)
                yield keeps_mode, (op, x, ('f', 0.1), m)
            yield keeps_mode, (op, [X[0], X[1]], [X[1], X[3]], m)
            yield keeps_mode, (op, [[X[0], X[1]], [X[2], X[4]]], [X[1], X[3]], m)


@generator('P09', 4)
def _(g):
    ops = sorted(MODE_OPS)
    while True:
        sc = lambda: rgen(g) if g.r.random() < 0.8 else rnum(g)
        x = rgen(g)
        y = sc()
        if g.r.random() < 0.25:
            x = [rgen(g) for _ in range(2)]
            y = [rgen(g) for _ in range(2)] if g.r.random() < 0.5 else y
        yield keeps_mode, (g.r.choice(ops), x, y, g.r.choice(MODES))


# ---------------------------------------------------------------- P10
def rounded(v, q, what, k=0):
    v = num(v)
    need(v == v and ulps(rd(q), -k) <= v <= ulps(ru(q), k), what + ' differs from its definition', v, rnd(q))


def exact(v, q, what):
    need(num(v) == num(v) and not isinf(num(v)) and F(num(v)) == q, what + ' differs from its definition', v, rnd(q))


def is_iv(z, a, b, what):
    need(isinstance(z, (C, K)), what + ' is not an interval', z)
    exact(z.a, a, what + ' lower endpoint')
    exact(z.b, b, what + ' upper endpoint')
    if a > b:
        need(isinstance(z, K), what + ' is improper but classical')


@contract('P10')
def characteristics(x, m=0):
    a, b = ends(x)
    lim = F(DBL_MAX)
    get = lambda n: ok(lambda: getattr(mk(x), n), n, m)
    X = mk(x)
    exact(X.a, a, 'x.a'), exact(X.b, b, 'x.b'), exact(X.inf, a, 'x.inf'), exact(X.sup, b, 'x.sup')
    if abs(b - a) <= lim:
        rounded(get('wid'), b - a, 'wid')
        rounded(get('rad'), (b - a) / 2, 'rad', 1)
    if abs(b + a) <= lim:
        rounded(get('mid'), (a + b) / 2, 'mid', 1)
    exact(get('mag'), max(abs(a), abs(b)), 'mag')
    if a <= b:
        mig = F(0) if a <= 0 <= b else min(abs(a), abs(b))
        exact(get('mig'), mig, 'mig')
        is_iv(ok(lambda: abs(mk(x)), 'abs', m), mig, max(abs(a), abs(b)), 'abs')
    is_iv(get('dual'), b, a, 'dual')
    is_iv(get('pro'), min(a, b), max(a, b), 'pro')
    is_iv(get('opp'), -a, -b, 'opp')
    is_iv(ok(lambda: X.dual.dual, 'dual', m), a, b, 'dual dual')
    z = ok(lambda: mk(x) + mk(x).opp, 'x + opp x', m)
    exact(z.a, F(0), 'x + opp x'), exact(z.b, F(0), 'x + opp x')
    z = ok(lambda: mk(x).opp + mk(x), 'opp x + x', m)
    exact(z.a, F(0), 'opp x + x'), exact(z.b, F(0), 'opp x + x')
    if not min(a, b) <= 0 <= max(a, b):
        z = get('inv')
        need(same(z.a, rd(1 / a)) and same(z.b, ru(1 / b)), 'inv is not [1/a, 1/b] rounded outward', (z.a, z.b), (rd(1 / a), ru(1 / b)))
    z = ok(lambda: X.copy(), 'copy', m)
    is_iv(z, a, b, 'copy')
    need(type(z) is type(X) and z is not X, 'copy is not a new interval of the same class')
    is_iv(X, a, b, 'the operand afterwards')


REL = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
       'in': lambda x, y: y in x}


@contract('P10')
def relation(op, x, y, m=0):
    X, Y = mk(x), mk(y)
    (a, b), (c, d) = ends(x), ends(y)
    want = {'==': a == c and b == d, '!=': a != c or b != d, '<': a < c and b < d, '<=': a <= c and b <= d, '>': a > c and b > d, '>=': a >= c and b >= d,
            'in': a <= c and d <= b}[op]
    got = ok(lambda: REL[op](X, Y), op, m)
    need(isinstance(got, (bool, np.bool_)) and bool(got) == want, 'x %s y differs from its definition' % op, got, want)


BAD = {'str': 'a', 'none': None, 'list': [1, 2], 'tuple': (1, 2), 'dict': {}, 'object': object(), 'bytes': b'1', 'numstr': '1', 'set': {1}}


@contract('P10')
def relation_refused(op, x, bad):
    raises(lambda: REL[op](mk(x), BAD[bad]), TypeError, 'x %s %r' % (op, BAD[bad]))


@directed('P10')
def _(g):
    for x in KS + CS + small_c():
        for m in (0, RU):
            yield characteristics, (x, m)
        for op in REL:
            for y in KS[::3] + CS + NUMS:
                yield relation, (op, x, y, 0)
    for op in REL:
        for bad in BAD:
            for x in (('C', 1.0, 2.0), ('K', 2.0, 1.0), ('K', 1.0, 2.0), ('C', 0, 0)):
                yield relation_refused, (op, x, bad)


@generator('P10', 3)
def _(g):
    while True:
        yield characteristics, (rgen(g), g.r.choice(MODES))


@generator('P10', 3)
def _(g):
    while True:
        x = rgen(g)
        k = g.r.random()
        y = rnum(g) if k < 0.3 else (x[0], x[1], x[2]) if k < 0.35 else rgen(g)
        if y[0] in ('f', 'np') and g.r.random() < 0.4:
            y = (y[0], float(g.r.choice(x[1:])))
        if y[0] in 'CK' and g.r.random() < 0.4:
            a, b = g.r.choice([(x[1], y[2]), (y[1], x[2]), (x[1], ulps(float(x[2]), 1)), (x[1], x[2])])
            if max(abs(a), abs(b)) <= DBL_MAX:
                y = ('C', min(a, b), max(a, b)) if y[0] == 'C' else ('K', a, b)
        yield relation, (g.r.choice(sorted(REL)), x, y, 0)


# ---------------------------------------------------------------- P11
def box_is(z, lo, hi, what, built=True):
    """z denotes the intervals with endpoint arrays lo, hi (exact)"""
    lo, hi = np.asarray(lo, dtype=object), np.asarray(hi, dtype=object)
    if lo.ndim == 0:
        need(isinstance(z, (C, K)), what + ' is not a single interval', type(z).__name__)
        items = [((), z)]
    else:
        need(isinstance(z, ArrayInterval), what + ' is not an interval array', type(z).__name__)
        need(tuple(z.shape) == lo.shape and z.ndim == lo.ndim and len(z) == lo.shape[0], what + ' has the wrong shape', tuple(z.shape), lo.shape)
        items = [(i, z[i]) for i in np.ndindex(*lo.shape)]
    for i, e in items:
        a, b = F(num(lo[i])), F(num(hi[i]))
        need(isinstance(e, (C, K)), what + ' element is not an interval', i, e)
        exact(e.a, a, '%s%r lower endpoint' % (what, i))
        exact(e.b, b, '%s%r upper endpoint' % (what, i))
        need(isinstance(e, C) == (a <= b) if built else isinstance(e, K) or a <= b, what + ' element has the wrong class', i, type(e).__name__)


def order(l, r, sort):
    l, r = np.asarray(l), np.asarray(r)
    if not sort:
        return l, r
    return np.minimum(l, r), np.maximum(l, r)


@contract('P11')
def construct(form, l, r, sort):
    L, R = np.array(l), np.array(r)
    if form == 'two':
        z = ok(lambda: Interval(l, r, sortQ=sort), 'Interval(l, r)')
    elif form == 'default':
        z = ok(lambda: Interval(l, r), 'Interval(l, r)')
        sort = True
    elif form == 'np':
        z = ok(lambda: Interval(L, R, sortQ=sort), 'Interval(array, array)') if L.ndim else ok(lambda: Interval(L[()], R[()], sortQ=sort), 'Interval(l, r)')
    else:
        P = np.stack((L, R), axis=-1)
        arg = P if form == 'pairsnp' else P.tolist()
        z = ok(lambda: Interval(arg, sortQ=sort), 'Interval(pairs)')
    lo, hi = order(l, r, sort)
    box_is(z, lo, hi, 'Interval')
    need(np.array_equal(L, np.array(l)) and np.array_equal(R, np.array(r)), 'the input changed')


@contract('P11')
def construct_midrad(form, mid, rad):
    M, R = np.array(mid), np.array(rad)
    neg = bool((R < 0).any())
    if form == 'two':
        f = lambda: Interval(mid, rad, midRadQ=True)
    elif form == 'nosort':
        f = lambda: Interval(mid, rad, midRadQ=True, sortQ=False)
    else:
        P = np.stack((M, R), axis=-1)
        arg = P if form == 'pairsnp' else P.tolist()
        f = lambda: Interval(arg, midRadQ=True)
    if neg:
        raises(f, Exception, 'Interval with a negative radius')
        return
    z = ok(f, 'Interval(mid, rad)')
    if M.ndim:
        need(isinstance(z, ArrayInterval) and tuple(z.shape) == M.shape, 'midRadQ: wrong shape', getattr(z, 'shape', None))
    else:
        need(isinstance(z, C), 'midRadQ: not an interval', type(z).__name__)
    for i in np.ndindex(*M.shape):
        e = z[i] if M.ndim else z
        c, d = F(num(M[i])), F(num(R[i]))
        rounded(e.a, c - d, 'mid - rad')
        rounded(e.b, c + d, 'mid + rad')


@contract('P11')
def construct_number(v, how):
    z = ok(lambda: {'Interval': lambda: Interval(v), 'nosort': lambda: Interval(v, sortQ=False), 'asinterval': lambda: asinterval(v), 'np': lambda: asinterval(np.float64(v)),
                    'npI': lambda: Interval(np.float64(v))}[how](), how)
    box_is(z, v, v, how)


@contract('P11')
def construct_asinterval(v, how):
    """nested sequence, possibly with intervals (operand specs given as tuples)"""
    def conv(t):
        return [conv(u) for u in t] if isinstance(t, list) else mk(t) if isinstance(t, tuple) else t

    def end(t, k):
        return [end(u, k) for u in t] if isinstance(t, list) else t[k] if isinstance(t, tuple) else t
    val = conv(v)
    if how == 'array':
        val = np.array(val)
    elif how == 'tuple':
        val = tuple(val)
    z = ok(lambda: asinterval(val), 'asinterval')
    box_is(z, np.array(end(v, 1), dtype=object), np.array(end(v, 2), dtype=object), 'asinterval', False)


@contract('P11')
def construct_same(x):
    X = arr(x) if isinstance(x, list) else mk(x)
    need(ok(lambda: Interval(X), 'Interval(interval)') is X, 'Interval(interval) is not the interval itself')
    need(ok(lambda: asinterval(X), 'asinterval(interval)') is X, 'asinterval(interval) is not the interval itself')


CTOR_BAD = {
    'str': lambda: Interval('a'), 'str1': lambda: Interval('1'), 'twostr': lambda: Interval('1', '2'), 'str2': lambda: Interval(1, 'a'), 'str2b': lambda: Interval('a', 2),
    'three': lambda: Interval(1, 2, 3), 'threearr': lambda: Interval([1], [2], [3]), 'none': lambda: Interval(None), 'none2': lambda: Interval(None, None), 'onenone': lambda: Interval(1, None),
    'dict': lambda: Interval({}), 'strlist': lambda: Interval(['a', 'b']), 'strpairs': lambda: Interval([['a', 'b'], ['c', 'd']]), 'none1': lambda: Interval(None, 1),
    'asstr': lambda: asinterval('1'), 'asstr2': lambda: asinterval('abc'), 'asnone': lambda: asinterval(None), 'asobj': lambda: asinterval(object()), 'asstrlist': lambda: asinterval(['a', 'b']),
    'asnonelist': lambda: asinterval([None, 1.0]), 'ragged': lambda: asinterval([[1, 2], [3]]), 'mixed': lambda: asinterval([1, 'a']), 'obj': lambda: Interval(object(), 1), 'strarr': lambda: Interval(['1', '2'], ['3', '4']),
    'negrad': lambda: Interval(1, -1, midRadQ=True), 'negrads': lambda: Interval([1, 2], [1, -1e-300], midRadQ=True), 'negpair': lambda: Interval([1.0, -2.0], midRadQ=True),
    'negpairs': lambda: Interval([[1.0, 2.0], [3.0, -2.0]], midRadQ=True), 'list1': lambda: Interval([1, 2], 'ab'), 'single': lambda: ip.SingleInterval('1', 2), 'single2': lambda: ip.SingleInterval(1, None),
}


@contract('P11')
def construct_refused(name):
    raises(CTOR_BAD[name], Exception, 'invalid input ' + name)


@directed('P11')
def _(g):
    for n in CTOR_BAD:
        yield construct_refused, (n,)
    P = [(1, 2), (2, 1), (0, 0), (1.5, 1.5), (-1.0, 3), (3, -1.5), (-0.0, 0.0), (1e308, -1e308), (5e-324, 0.0), (-2, -3)]
    for l, r in P:
        for form in ('two', 'default', 'np', 'pairs', 'pairsnp'):
            for sort in (True, False):
                yield construct, (form, l, r, sort)
        for form in ('two', 'nosort', 'pairs', 'pairsnp'):
            yield construct_midrad, (form, l, r)
        for how in ('Interval', 'nosort', 'asinterval', 'np', 'npI'):
            yield construct_number, (l, how)
    A = [([1.0, 2.0, 5.0], [3.0, 1.0, 5.0]), ([1, 2], [3, 4]), ([3, 4], [1, 2]), ([[1.0, 2.0], [3.0, 4.0]], [[0.0, 3.0], [3.0, 5.0]]), ([1.0], [0.0]),
         ([[1, 2, 3]], [[3, 2, 1]]), ([[1], [2], [3]], [[0], [5], [3]]), ([[[1.0, 2.0]], [[3.0, 4.0]]], [[[0.0, 7.0]], [[3.0, 1.0]]]), ([1.0, 2.0], [2.0, 1.0])]
    for l, r in A:
        for form in ('two', 'default', 'np', 'pairs', 'pairsnp'):
            for sort in (True, False):
                yield construct, (form, l, r, sort)
        for form in ('two', 'nosort', 'pairs', 'pairsnp'):
            yield construct_midrad, (form, l, r)
            yield construct_midrad, (form, l, np.abs(np.array(r)).tolist())
    for v in ([1, 2, 3], [1.5, -2.0], [[1, 2], [3, 4]], [[1.0], [2.0]], [('C', 1.0, 2.0), 3.0], [('K', 2.0, 1.0), ('C', 0, 1)], [[1.0, ('C', 1, 2)], [2, ('K', 3, 1)]], [1.0], [[[1, 2], [3, 4]]]):
        for how in ('list', 'tuple', 'array'):
            yield construct_asinterval, (v, how)
    for x in (('C', 1.0, 2.0), ('K', 2, 1), ('K', 1.0, 2.0), [('C', 1.0, 2.0), ('K', 2.0, 1.0)], [[('C', 1.0, 2.0)]]):
        yield construct_same, (x,)


def rnested(g, f):
    nd = g.r.choice([0, 0, 1, 1, 1, 2, 2, 3])
    sh = [g.r.randint(1, 4) for _ in range(nd)]

    def build(k):
        return f() if k == nd else [build(k + 1) for _ in range(sh[k])]
    return build(0), sh


@generator('P11', 4)
def _(g):
    while True:
        fl = g.r.random() < 0.7
        f = (lambda: g.double()) if fl else (lambda: g.integer())
        l, sh = rnested(g, f)
        r = np.array([f() for _ in range(int(np.prod(sh)))], dtype=float if fl else int).reshape(sh).tolist()
        if g.r.random() < 0.2 and sh:
            r = l
        yield construct, (g.r.choice(['two', 'default', 'np', 'pairs', 'pairsnp']), l, r, g.r.random() < 0.5)


@generator('P11', 2)
def _(g):
    while True:
        f = lambda: g.double(0)
        l, sh = rnested(g, f)
        neg = g.r.random() < 0.2
        r = np.array([f() if neg else abs(f()) for _ in range(int(np.prod(sh)))]).reshape(sh).tolist()
        yield construct_midrad, (g.r.choice(['two', 'nosort', 'pairs', 'pairsnp']), l, r)


@generator('P11', 1)
def _(g):
    while True:
        yield construct_number, (g.r.choice([g.double(), g.integer()]), g.r.choice(['Interval', 'nosort', 'asinterval', 'np', 'npI']))


@generator('P11', 1)
def _(g):
    while True:
        f = lambda: g.r.choice([g.double(), g.integer(), rgen(g)])
        v, sh = rnested(g, f)
        if sh:
            yield construct_asinterval, (v, g.r.choice(['list', 'tuple', 'array']))


# ---------------------------------------------------------------- P12
def as_rows(x):
    return arr(x) if isinstance(x, list) else mk(x)


def plain(x):
    """specs -> nested (lo, hi) object arrays"""
    def end(t, k):
        return [end(u, k) for u in t] if isinstance(t, list) else (t[k] if t[0] in 'CK' else t[1])
    return np.array(end(x, 1), dtype=object), np.array(end(x, 2), dtype=object)


@contract('P12')
def intersect(x, y, raw=False):
    """raw: numbers and sequences are passed as they are"""
    def conv(t):
        if not raw:
            return as_rows(t)
        return [conv(u) for u in t] if isinstance(t, list) else mk(t)
    X, Y = conv(x), conv(y)
    (xa, xb), (ya, yb) = plain(x), plain(y)
    z = ok(lambda: ip.intersection(X, Y), 'intersection')
    shape = xa.shape if xa.shape else ya.shape
    if shape:
        need(isinstance(z, ArrayInterval) and tuple(z.shape) == shape, 'intersection has the wrong shape', getattr(z, 'shape', None), shape)
    else:
        need(isinstance(z, (C, K)), 'intersection is not an interval', type(z).__name__)
    xa, xb, ya, yb = (np.broadcast_to(t, shape) for t in (xa, xb, ya, yb))
    for i in np.ndindex(*shape):
        e = z[i] if shape else z
        lo, hi = max(F(xa[i]), F(ya[i])), min(F(xb[i]), F(yb[i]))
        nan = num(e.a) != num(e.a) and num(e.b) != num(e.b)
        if lo <= hi:
            need(not nan, 'components that meet give NaN', i, rnd(lo), rnd(hi))
            exact(e.a, lo, 'intersection lower endpoint')
            exact(e.b, hi, 'intersection upper endpoint')
        elif lo - hi > Fraction(11, 10 ** 16):
            need(nan, 'components that do not meet give an interval', i, (e.a, e.b))
    if not raw:
        need(np.array_equal(plain(x)[0].astype(float), inf_of(X)) and np.array_equal(plain(y)[1].astype(float), sup_of(Y)), 'intersection changed an operand')


def inf_of(X):
    return np.array(X.a, dtype=float)


def sup_of(X):
    return np.array(X.b, dtype=float)


@contract('P12')
def inclusion(x, y):
    X, Y = as_rows(x), as_rows(y)
    (xa, xb), (ya, yb) = plain(x), plain(y)
    pairs = list(zip(xa.ravel(), xb.ravel(), ya.ravel(), yb.ravel()))
    sub = [c <= a and b <= d for a, b, c, d in pairs]
    sup = [a <= c and d <= b for a, b, c, d in pairs]
    psub = [c < a and b < d for a, b, c, d in pairs]
    psup = [a < c and d < b for a, b, c, d in pairs]
    for name, want in (('subset', all(sub)), ('superset', all(sup)), ('proper_subset', all(psub)), ('proper_superset', all(psup))):
        got = ok(lambda: getattr(ip, name)(X, Y), name)
        need(isinstance(got, (bool, np.bool_)) and bool(got) == want, '%s is wrong' % name, got, want)
    for name, want in (('contain', sub), ('supercontain', sup)):
        got = np.asarray(ok(lambda: getattr(ip, name)(X, Y), name))
        need(got.shape == xa.shape and got.dtype == bool, name + ' has the wrong shape or type', got.shape, got.dtype)
        need(got.ravel().tolist() == [bool(t) for t in want], name + ' is wrong', got.tolist())


@contract('P12')
def distance(x, y, w, order):
    X, Y, W = as_rows(x), as_rows(y), as_rows(w)
    o = np.inf if order == 0 else order
    d = lambda p, q: float(ok(lambda: ip.dist(p, q, order=o) if order else ip.dist(p, q), 'dist'))
    xy, yx, xw, wy = d(X, Y), d(Y, X), d(X, W), d(W, Y)
    (xa, xb), (ya, yb) = plain(x), plain(y)
    c = [max(abs(F(a) - F(e)), abs(F(b) - F(f))) for a, b, e, f in zip(xa.ravel(), xb.ravel(), ya.ravel(), yb.ravel())]
    if max(c) > 10 ** 60 or (order > 1 and any(0 < t < Fraction(1, 10 ** 60) for t in c)):
        return
    if order == 0:
        rounded(xy, max(c), 'dist')
    else:
        v = mp.power(sum(mp.mpf(t.numerator) ** order / mp.mpf(t.denominator) ** order for t in c), mp.mpf(1) / order)
        need(abs(mp.mpf(xy) - v) <= 1e-13 * v, 'dist differs from the p-norm distance', xy, float(v))
    need(xy >= 0, 'dist is negative', xy)
    need(xy == yx, 'dist is not symmetric', xy, yx)
    equal = all(t == 0 for t in c)
    need((xy == 0) == equal, 'dist is zero for different intervals or nonzero for equal ones', xy)
    need(float(d(X, X)) == 0, 'dist(x, x) is not zero')
    need(xy <= (xw + wy) * (1 + 1e-12), 'triangle inequality', xy, xw, wy)


def rarr(g, shape, f):
    if not shape:
        return f()
    return [rarr(g, shape[1:], f) for _ in range(shape[0])]


def same_shape(g, f, n):
    sh = g.r.choice([(), (), (1,), (2,), (3,), (5,), (2, 2), (3, 2), (1, 3), (2, 1, 2)])
    return sh, [rarr(g, sh, f) for _ in range(n)]


def tweak(g, x, y):
    """y with some components related to those of x"""
    if isinstance(x, list):
        return [tweak(g, a, b) for a, b in zip(x, y)]
    a, b = x[1], x[2]
    k = g.r.random()
    if k < 0.35:
        return y
    o = g.r.choice([(a, b), (b, b), (a, a), (b, float(b) + 1.0), (float(a) - 1.0, a), (ulps(float(b), 1), float(b) + 2.0), (float(a) - 0.25, float(b) + 0.25), (a, float(b) + 1), (float(a) - 1, b),
                   (float(b) + 1e-14, float(b) + 1.0), (float(b) + 2e-15, float(b) + 1), (float(a) * 0.5 + float(b) * 0.5, b)])
    lo, hi = min(o), max(o)
    if not (abs(lo) <= DBL_MAX and abs(hi) <= DBL_MAX):
        return y
    return ('C', lo, hi)


@generator('P12', 3)
def _(g):
    while True:
        sh, (x, y) = same_shape(g, lambda: rclass(g), 2)
        yield intersect, (x, tweak(g, x, y), False)


@generator('P12', 1)
def _(g):
    while True:
        sh, (x, y) = same_shape(g, lambda: rclass(g), 2)
        k = g.r.random()
        if k < 0.3 and sh:
            yield intersect, (x, rclass(g), False)
            yield intersect, (rclass(g), x, False)
        elif k < 0.6:
            y = rarr(g, sh, lambda: rnum(g, ('f', 'i')))
            yield intersect, (x, y, True) if g.r.random() < 0.5 else (y, x, True)
        else:
            n = rnum(g, ('f', 'i', 'np'))
            yield intersect, (x, n, True) if not sh and g.r.random() < 0.5 else (n, x if not sh else rclass(g), True)


@generator('P12', 3)
def _(g):
    while True:
        sh, (x, y) = same_shape(g, lambda: rclass(g), 2)
        if g.r.random() < 0.7:
            y = tweak(g, x, y)
        if g.r.random() < 0.4:
            y = shrink(g, x)
            if g.r.random() < 0.5:
                x, y = y, x
        yield inclusion, (x, y)


def shrink(g, x):
    if isinstance(x, list):
        return [shrink(g, t) for t in x]
    a, b = float(x[1]), float(x[2])
    lo, hi = a * 0.75 + b * 0.25, a * 0.25 + b * 0.75
    o = g.r.choice([(lo, hi), (lo, hi), (a, hi), (lo, b), (a, b)])
    if not (abs(o[0]) <= DBL_MAX and abs(o[1]) <= DBL_MAX) or o[0] > o[1]:
        return x
    return ('C',) + o


@generator('P12', 2)
def _(g):
    while True:
        f = lambda: rclass(g)
        sh, (x, y, w) = same_shape(g, f, 3)
        if g.r.random() < 0.4:
            y = tweak(g, x, y)
        yield distance, (x, y, w, g.r.choice([0, 0, 1, 2, 3]))


@directed('P12')
def _(g):
    S = [('C', 0.0, 1.0), ('C', 1.0, 2.0), ('C', 2.0, 3.0), ('C', 0.5, 1.5), ('C', 0.25, 0.5), ('C', -1.0, 3.0), ('C', 1.0, 1.0), ('C', 0, 1), ('C', 1.0 + 1e-14, 4.0), ('C', -5.0, -4.0), ('C', 1e308, 1.5e308), ('C', -1.5e308, -1e308)]
    for x in S:
        for y in S:
            yield intersect, (x, y, False)
            yield inclusion, (x, y)
            yield inclusion, ([x, S[0]], [y, S[0]])
            yield inclusion, ([[x], [S[4]]], [[y], [S[0]]])
            yield distance, (x, y, S[3], 0)
            yield distance, ([x, S[0], y], [y, S[1], y], [S[2]] * 3, 2)
    for x, y in [(('C', 0.0, 2.0), ('f', 1.0)), (('f', 1.0), ('C', 0.0, 2.0)), (('i', 3), ('C', 0, 2)), ([('C', 0.0, 2.0), ('C', 1.0, 2.0)], [('f', 1.0), ('f', 0.0)]), ([('f', 1.0), ('f', 0.0)], [('f', 1.0), ('f', 2.0)]),
                 (('f', 1.0), ('f', 1.0)), ([('C', 0.0, 1.0), ('C', 3.0, 4.0)], ('f', 0.5)), (('np', 0.5), [('C', 0.0, 1.0), ('C', 3.0, 4.0)])]:
        yield intersect, (x, y, True)
