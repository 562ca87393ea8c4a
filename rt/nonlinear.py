"""Contracts of the nonlinear solvers and the global optimizer (P22, P23)."""
import math, random
from fractions import Fraction
import numpy as np
import mpmath
import intvalpy as ip
from intvalpy import Interval, ArrayInterval, asinterval
from .core import *
from .kernel import C, K, num, mk
from .arrays import build, snap

IV = (C, K)
mpmath.mp.prec = 300


def arr_of(items):
    d = np.empty(len(items), dtype=object)
    for i, e in enumerate(items):
        d[i] = asinterval(e)
    return ArrayInterval(d)


def mat_of(rows):
    d = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, e in enumerate(r):
            d[i, j] = asinterval(e)
    return ArrayInterval(d)


def mpfrac(v):
    """a number of 300 bits as a Fraction"""
    return Fraction(int(mpmath.floor(mpmath.ldexp(v, 250)))) / 2 ** 250


# ---------------------------------------------------------------- P22
def equation(spec):
    """(inclusion function, interval extension of the derivative, exact roots) of one unknown"""
    k, p = spec[0], spec[1:]
    if k == 'lin':
        a, b = p
        return (lambda x: a * x - b), (lambda x: a), [F(b) / F(a)]
    if k == 'quad':                    # c*(x-r)*(x-s)
        c, r, s = p
        return (lambda x: c * ((x - r) * (x - s))), (lambda x: c * ((x - r) + (x - s))), [F(r), F(s)]
    if k == 'cubic':
        r, s, t = p
        return (lambda x: (x - r) * (x - s) * (x - t)), (lambda x: (x - r) * (x - s) + (x - r) * (x - t) + (x - s) * (x - t)), [F(r), F(s), F(t)]
    if k == 'pow':                     # x**2 - c
        c, = p
        q = mpfrac(mpmath.sqrt(mpmath.mpf(c)))
        return (lambda x: x ** 2 - c), (lambda x: 2 * x), [q, -q]
    if k == 'exp':
        c, = p
        return (lambda x: ip.exp(x) - c), (lambda x: ip.exp(x)), [mpfrac(mpmath.log(mpmath.mpf(c)))]
    if k == 'sin':                     # sin(x) + m*x - c*m ... root at 0 and shift
        m, = p
        return (lambda x: ip.sin(x) + m * x), (lambda x: ip.cos(x) + m), [Fraction(0)]
    if k == 'wide':                    # an interval family: roots of every member
        (al, ah), (bl, bh) = p
        a, b = Interval(al, ah), Interval(bl, bh)
        return (lambda x: a * x - b), (lambda x: a), [F(v) / F(u) for u in (al, ah) for v in (bl, bh)]
    raise ValueError(k)


def system(spec):
    """f_i = sum_j a_ij (x_j - r_j) + q_i (x_k - r_k)(x_l - s_l), with the root r"""
    r, A, Q = spec[1:]
    n = len(r)

    def f(X):
        out = []
        for i in range(n):
            s = 0
            for j in range(n):
                s = s + A[i][j] * (X[j] - r[j])
            q, k, l, sh = Q[i]
            if q:
                s = s + q * ((X[k] - r[k]) * (X[l] - sh))
            out.append(s)
        return arr_of(out)

    def J(X):
        rows = []
        for i in range(n):
            row = [asinterval(float(A[i][j])) for j in range(n)]
            q, k, l, sh = Q[i]
            if q:
                row[k] = row[k] + q * (X[l] - sh)
                row[l] = row[l] + q * (X[k] - r[k])
            rows.append(row)
        return mat_of(rows)
    return f, J, [[F(v) for v in r]]


SLACK = Fraction(2, 10 ** 15)          # the tolerance of intersection


@contract('P22')
def newton(method, spec, x0, kw):
    vec = spec[0] == 'sys'
    f, J, roots = system(spec) if vec else equation(spec)
    X = build(x0)
    before = snap(X)
    box = [(F(e[1]), F(e[2])) for e in (x0[2] if vec else [x0])]
    if not vec:
        roots = [[r] for r in roots]
    roots = [r for r in roots if all(l <= t <= h for t, (l, h) in zip(r, box))]
    st, z = call(lambda: getattr(ip.nonlinear, method)(f, J, X, **dict(kw)))
    need(snap(X) == before, method + ' changed the initial box')
    if st == 'raise':
        need(not isinstance(z, (TypeError, AttributeError, IndexError, NameError)), '%s raised %s: %s' % (method, type(z).__name__, z))
        if type(z) is Exception and 'Диагональный' not in str(z):
            need(not roots, method + ' reports that there is no root, but there is one', [float(t) for r in roots for t in r], str(z))
        return
    if vec:
        need(isinstance(z, ArrayInterval) and z.shape == (len(box),), method + ' does not return a box', type(z).__name__)
        el = list(z.data)
    else:
        need(isinstance(z, IV), method + ' does not return an interval', type(z).__name__)
        el = [z]
    if any(num(e.a) != num(e.a) or num(e.b) != num(e.b) for e in el):
        need(not roots, method + ' returned a NaN box, but there is a root', [float(t) for r in roots for t in r])
        return
    for e, (l, h) in zip(el, box):
        need(geq(e.a, l - SLACK) and leq(e.b, h + SLACK), method + ' returned a box that leaves the initial box', (num(e.a), num(e.b)), (float(l), float(h)))
    for r in roots:
        for e, t in zip(el, r):
            need(leq(e.a, t) and geq(e.b, t), method + ' lost a root', [float(v) for v in r], [(num(e.a), num(e.b)) for e in el])


def ropts(g):
    kw = []
    if g.r.random() < 0.6:
        kw.append(('maxiter', g.r.choice((0, 1, 2, 3, 8, 30))))
    if g.r.random() < 0.5:
        kw.append(('tol', g.r.choice((1e-12, 1e-6, 0.1, 0.5, 10))))
    return tuple(kw)


def around(g, r, one=False):
    """an interval that mostly contains r"""
    w = g.r.choice((0.01, 0.1, 0.5, 1, 3, 10))
    d = g.r.choice((1, 3, 17))
    k = g.r.random()
    if k < 0.08:
        l, h = r, round(r + w, d)
    elif k < 0.16:
        l, h = round(r - w, d), r
    elif k < 0.22:
        l, h = round(r + w / 3, d), round(r + w, d)
    elif k < 0.25:
        l, h = r, r
    else:
        l, h = round(r - w * g.r.random(), d), round(r + w * g.r.random(), d)
    return ('C', float(min(l, h)), float(max(l, h)))


@generator('P22', 1)
def _(g):
    u = lambda s=4, d=None: round(g.r.uniform(-s, s), g.r.choice((0, 1, 2, 17)) if d is None else d)
    while True:
        k = g.r.choice(('lin', 'quad', 'quad', 'cubic', 'pow', 'exp', 'sin', 'wide'))
        if k == 'lin':
            spec = (k, u() or 1.0, u())
        elif k == 'quad':
            spec = (k, g.r.choice((1.0, -1.0, 0.5, 3.0)), u(), u())
        elif k == 'cubic':
            spec = (k, u(), u(), u())
        elif k == 'pow':
            spec = (k, float(abs(u()) + 0.1))
        elif k == 'exp':
            spec = (k, float(abs(u()) + 0.1))
        elif k == 'sin':
            spec = (k, float(abs(u(2)) + 0.1))
        else:
            a, b = sorted((u(), u())), sorted((u(), u()))
            if a[0] <= 0 <= a[1]:
                continue
            spec = (k, tuple(a), tuple(b))
        r = float(g.r.choice(equation(spec)[2]))
        x0 = around(g, r)
        if k in ('exp', 'sin') and (abs(x0[1]) > 30 or abs(x0[2]) > 30):
            continue
        if g.r.random() < 0.1:
            x0 = ('C', int(math.floor(x0[1])), int(math.ceil(x0[2])))
        for m in ('Krawczyk', 'HansenSengupta'):
            yield newton, (m, spec, x0, ropts(g))


@generator('P22', 1)
def _(g):
    while True:
        n = g.r.choice((1, 2, 2, 2, 3))
        d = g.r.choice((0, 1, 17))
        r = tuple(round(g.r.uniform(-3, 3), d) for _ in range(n))
        dom = g.r.choice((0.3, 1, 3))
        A = tuple(tuple(round(g.r.uniform(-1, 1) + dom * (i == j), 2) for j in range(n)) for i in range(n))
        Q = tuple((g.r.choice((0, 0.1, 0.5, 1, -1)), g.r.randrange(n), g.r.randrange(n), round(g.r.uniform(-3, 3), 1)) for _ in range(n))
        x0 = ('A', (n,), tuple(around(g, v) for v in r))
        for m in ('Krawczyk', 'HansenSengupta'):
            yield newton, (m, ('sys', r, A, Q), x0, ropts(g))


@directed('P22')
def _(g):
    for m in ('Krawczyk', 'HansenSengupta'):
        for kw in ((), (('maxiter', 0),), (('maxiter', 1),), (('tol', 0.3),)):
            yield newton, (m, ('pow', 2.0), ('C', 1.0, 2.0), kw)
            yield newton, (m, ('pow', 2.0), ('C', 1, 2), kw)
            yield newton, (m, ('quad', 1.0, 1.0, 3.0), ('C', 0.0, 3.5), kw)
            yield newton, (m, ('lin', 3.0, 1.0), ('C', -5.0, 7.0), kw)
            yield newton, (m, ('lin', 1.0, 9.0), ('C', -5.0, 7.0), kw)
            yield newton, (m, ('sys', (1.0, -2.0), ((2.0, 0.5), (0.3, 3.0)), ((0.5, 0, 1, -2.0), (0, 0, 0, 0.0))), ('A', (2,), (('C', 0.0, 2.0), ('C', -3.0, -1.0))), kw)


# ---------------------------------------------------------------- P23
def objective(spec):
    """(inclusion function, exact value at a rational point)"""
    k, p = spec[0], spec[1:]
    if k == 'sq':                      # sum c_i (x_i - m_i)^2 + d
        c, m, d = p

        def f(X):
            s = d
            for i in range(len(c)):
                s = s + c[i] * (X[i] - m[i]) ** 2
            return s
        return f, lambda x: F(d) + sum(F(a) * (t - F(v)) ** 2 for a, v, t in zip(c, m, x)), [[F(v) for v in m]]
    if k == 'poly':                    # sum of monomials
        mono, n = p

        def f(X):
            s = asinterval(0.0)
            for c, e in mono:
                t = asinterval(c)
                for i in range(n):
                    if e[i]:
                        t = t * X[i] ** e[i]
                s = s + t
            return s

        def v(x):
            s = Fraction(0)
            for c, e in mono:
                t = F(c)
                for i in range(n):
                    t *= x[i] ** e[i]
                s += t
            return s
        return f, v, []
    if k == 'abs':
        c, m = p

        def f(X):
            s = 0
            for i in range(len(c)):
                s = s + c[i] * abs(X[i] - m[i])
            return s
        return f, lambda x: sum(F(a) * abs(t - F(v)) for a, v, t in zip(c, m, x)), [[F(v) for v in m]]
    if k == 'trig':
        w, n = p

        def f(X):
            s = 0
            for i in range(n):
                s = s + ip.sin(X[i]) + w * (X[i] * X[i])
            return s

        def v(x):
            s = Fraction(0)
            for t in x:
                q = mpmath.mpf(t.numerator) / t.denominator
                s += mpfrac(mpmath.sin(q)) + F(w) * t * t
            return s + Fraction(1, 2 ** 200)
        return f, v, []
    raise ValueError(k)


@contract('P23')
def optimum(spec, x0, kw, seed):
    f, value, special = objective(spec)
    X = build(x0)
    before = snap(X)
    calls = []

    def counted(Y):
        calls.append(1)
        return f(Y)
    kw = dict(kw)
    out = ok(lambda: ip.nonlinear.globopt(counted, X, **kw), 'globopt')
    need(snap(X) == before, 'globopt changed the starting box')
    need(isinstance(out, tuple) and len(out) == 2, 'globopt does not return a box and a value')
    box, val = out
    lim = [(F(e[1]), F(e[2])) for e in x0[2]]
    need(isinstance(box, ArrayInterval) and box.shape == (len(lim),), 'globopt does not return a box')
    need(isinstance(val, IV), 'globopt does not return an interval value')
    for e, (l, h) in zip(box.data, lim):
        need(geq(e.a, l) and leq(e.b, h) and num(e.a) <= num(e.b), 'the box of globopt leaves the starting box', (num(e.a), num(e.b)), (float(l), float(h)))
    w = ok(lambda: f(box), 'objective')
    need(same(w.a, val.a) and same(w.b, val.b), 'the value of globopt is not the objective at its box', (num(val.a), num(val.b)), (num(w.a), num(w.b)))
    r = random.Random(seed)
    pts = [[min(max(t, l), h) for t, (l, h) in zip(s, lim)] for s in special]
    pts += [[l + (h - l) * Fraction(r.randint(0, 64), 64) for l, h in lim] for _ in range(40)]
    pts += [[r.choice((l, h)) for l, h in lim] for _ in range(4)]
    # improve the best point by a search over finer and finer neighbours
    best = min(pts, key=value)
    step = Fraction(1, 16)
    for _ in range(12):
        for i in range(len(best)):
            for s in (-1, 1):
                q = list(best)
                l, h = lim[i]
                q[i] = min(max(q[i] + s * step * (h - l), l), h)
                if value(q) < value(best):
                    best = q
        step /= 2
    for p in pts + [best]:
        need(leq(val.a, value(p)), 'the lower endpoint of the value of globopt exceeds the objective at a point of the starting box', num(val.a), float(value(p)), [float(t) for t in p])
    tol, maxiter = kw.get('tol', 1e-12), kw.get('maxiter', 2000)
    if num(val.wid) >= tol:
        need(len(calls) >= 2 * (maxiter + 1), 'globopt stopped before the tolerance or the iteration limit was reached', num(val.wid), tol, len(calls))


@generator('P23', 1)
def _(g):
    u = lambda s=4: round(g.r.uniform(-s, s), g.r.choice((0, 1, 2, 17)))
    while True:
        n = g.r.choice((1, 2, 2, 3))
        k = g.r.choice(('sq', 'poly', 'poly', 'abs', 'trig'))
        spec = {'sq': lambda: (k, tuple(abs(u()) + 0.1 for _ in range(n)), tuple(u() for _ in range(n)), u()),
                'poly': lambda: (k, tuple((u(), tuple(g.r.choice((0, 1, 1, 2, 3, 4)) for _ in range(n))) for _ in range(g.r.randint(1, 5))), n),
                'abs': lambda: (k, tuple(abs(u()) + 0.1 for _ in range(n)), tuple(u() for _ in range(n))),
                'trig': lambda: (k, abs(u(1)), n)}[k]()
        el = []
        for _ in range(n):
            l, h = sorted((u(3), u(3)))
            if g.r.random() < 0.15:
                l, h = int(math.floor(l)), int(math.ceil(h))
            if g.r.random() < 0.05:
                h = l
            el.append(('C', l, h))
        kw = (('maxiter', g.r.choice((0, 1, 2, 5, 20, 60, 150))), ('tol', g.r.choice((1e-12, 1e-3, 0.1, 1.0, 5))))
        yield optimum, (spec, ('A', (n,), tuple(el)), kw, g.r.randint(0, 10 ** 6))


@directed('P23')
def _(g):
    for kw in ((('maxiter', 30),), (('maxiter', 100), ('tol', 0.1)), (('maxiter', 0),)):
        yield optimum, (('sq', (1.0, 2.0), (0.3, -0.7), 1.0), ('A', (2,), (('C', -2.0, 2.0), ('C', -3.0, 1.0))), kw, 3)
        yield optimum, (('sq', (1.0, 2.0), (5.0, 0.5), 1.0), ('A', (2,), (('C', -2, 2), ('C', -3, 1))), kw, 3)
