"""Contracts of the solvers of interval linear systems (P19-P21, P24, P25)."""
import itertools, math, random
from fractions import Fraction
import numpy as np
import intvalpy as ip
from intvalpy import Interval, ArrayInterval, Tol, lineqs, IntLinIncR2
from .core import *
from .kernel import C, K, num
from .arrays import build, elements, snap

IV = (C, K)
Gauss, Gauss_Seidel, HBR, Rohn, Neumaier, Subdiff = (getattr(ip, n) for n in ('Gauss', 'Gauss_Seidel', 'HBR', 'Rohn', 'Neumaier', 'Subdiff'))


# ---------------------------------------------------------------- exact linear algebra
def ends_of(spec):
    """endpoints of the elements of an array spec as Fractions, nested like the array"""
    el = [(F(e[1]), F(e[2])) for e in spec[2]]
    if len(spec[1]) == 1:
        return el
    m = spec[1][1]
    return [el[i * m:(i + 1) * m] for i in range(spec[1][0])]


def solve(A, b):
    """exact solution of a square system, or None"""
    n = len(A)
    M = [list(r) + [v] for r, v in zip(A, b)]
    for j in range(n):
        p = next((i for i in range(j, n) if M[i][j] != 0), None)
        if p is None:
            return None
        M[j], M[p] = M[p], M[j]
        d = M[j][j]
        M[j] = [v / d for v in M[j]]
        for i in range(n):
            if i != j and M[i][j] != 0:
                c = M[i][j]
                M[i] = [v - c * w for v, w in zip(M[i], M[j])]
    return [M[i][n] for i in range(n)]


def members(A, b, r, count):
    """real systems of the interval system: all or many vertices, some inside"""
    n, m = len(A), len(A[0])
    cells = [c for row in A for c in row] + list(b)
    free = [i for i, (l, h) in enumerate(cells) if l != h]
    if 2 ** len(free) <= count:
        picks = [dict(zip(free, p)) for p in itertools.product((0, 1), repeat=len(free))]
    else:
        picks = [{i: r.randint(0, 1) for i in free} for _ in range(count)]
        # rows pulled the same way give the extreme components
        for _ in range(count // 3):
            s = [r.choice((0, 1)) for _ in range(m)]
            picks.append({i: (s[i % m] if i < n * m else r.randint(0, 1)) for i in free})
    picks += [{i: Fraction(r.randint(0, 8), 8) for i in free} for _ in range(6)]
    for p in picks:
        v = [l + (h - l) * p.get(i, 0) for i, (l, h) in enumerate(cells)]
        yield [v[i * m:(i + 1) * m] for i in range(n)], v[n * m:]


def solutions(A, b, seed, count=70):
    for M, v in members(A, b, random.Random(seed), count):
        x = solve(M, v)
        if x is not None:
            yield M, v, x


def boxof(z, n, what):
    """the returned box as an object array of scalar intervals"""
    need(isinstance(z, (ArrayInterval, np.ndarray)), what + ' is not an array', type(z).__name__)
    d = z.data if isinstance(z, ArrayInterval) else z
    need(d.shape == (n,), what + ' has the wrong shape', d.shape)
    for e in d:
        need(isinstance(e, IV), what + ' has an element that is not an interval', type(e).__name__)
    return list(d)


def pretty(x):
    return [float(v) for v in x]


# ---------------------------------------------------------------- P19
@contract('P19')
def gauss(A, b, seed):
    X, y = build(A), build(b)
    before = snap(X), snap(y)
    st, z = call(lambda: Gauss(X, y))
    need((snap(X), snap(y)) == before, 'Gauss changed its arguments')
    if st == 'raise':
        need(not isinstance(z, (TypeError, AttributeError, IndexError, NameError)) and ('divide' in str(z) or not isinstance(z, ValueError)), 'Gauss raised %s: %s' % (type(z).__name__, z))
        return
    z = boxof(z, A[1][0], 'the result of Gauss')
    for M, v, x in solutions(ends_of(A), ends_of(b), seed):
        for i, e in enumerate(z):
            need(leq(e.a, x[i]) and geq(e.b, x[i]), 'a member system has a solution outside the box of Gauss', i, pretty(x), (num(e.a), num(e.b)), [pretty(r) for r in M], pretty(v))


def build_opt(s):
    return None if s is None else build(s)


@contract('P19')
def gauss_seidel(A, b, x0, Cs, kw, seed):
    X, y, B, P = build(A), build(b), build_opt(x0), build_opt(Cs)
    before = [snap(v) for v in (X, y, B, P)]
    st, z = call(lambda: Gauss_Seidel(X, y, x0=B, C=P, **dict(kw)))
    need([snap(v) for v in (X, y, B, P)] == before, 'Gauss_Seidel changed its arguments')
    n = A[1][0]
    lo = [(F(-1000), F(1000))] * n if x0 is None else ends_of(x0)
    if st == 'raise':
        need(not isinstance(z, (TypeError, AttributeError, IndexError, NameError)) and not (isinstance(z, ValueError) and not isinstance(z, np.linalg.LinAlgError) and 'divide' not in str(z)), 'Gauss_Seidel raised %s: %s' % (type(z).__name__, z))
        if 'does not intersect' in str(z):
            for M, v, x in solutions(ends_of(A), ends_of(b), seed):
                need(not all(l <= t <= h for t, (l, h) in zip(x, lo)), 'Gauss_Seidel reports no solution in the initial box, but a member system has one there', pretty(x), [pretty(r) for r in M], pretty(v))
        return
    z = boxof(z, n, 'the result of Gauss_Seidel')
    for e, (l, h) in zip(z, lo):
        need(geq(e.a, l - Fraction(2, 10 ** 15)) and leq(e.b, h + Fraction(2, 10 ** 15)), 'the box of Gauss_Seidel leaves the initial box', (num(e.a), num(e.b)), (float(l), float(h)))
    for M, v, x in solutions(ends_of(A), ends_of(b), seed):
        if all(l <= t <= h for t, (l, h) in zip(x, lo)):
            for i, e in enumerate(z):
                need(leq(e.a, x[i]) and geq(e.b, x[i]), 'a member system has a solution in the initial box, but outside the box of Gauss_Seidel', i, pretty(x), (num(e.a), num(e.b)), [pretty(r) for r in M], pretty(v))


def entry(g, c, w, ints=False):
    """an interval about c with half-width w"""
    k = g.r.random()
    if ints:
        return ('C', int(round(c - w)), int(round(c + w)))
    if k < 0.12 or w == 0:
        return ('C', c, c)
    a, b = c - w * g.r.random(), c + w * g.r.random()
    d = g.r.choice((1, 2, 6, 17))
    a, b = round(a, d), round(b, d)
    return ('C', min(a, b), max(a, b))


def system(g, n, m=None, dom=None, point=False):
    """a system with some diagonal dominance"""
    m = m or n
    dom = g.r.choice((0, 0.5, 1, 2, 4)) if dom is None else dom
    w = 0 if point else g.r.choice((0, 0.02, 0.1, 0.3, 0.6, 1.2))
    ints = g.r.random() < 0.15
    sc = g.r.choice((1, 1, 1, 3, 10))
    A = []
    rows = list(range(n))
    perm = g.r.sample(range(n), n) if g.r.random() < 0.4 else rows     # rows out of order: pivoting
    for i in range(n):
        for j in range(m):
            c = g.r.uniform(-1, 1)
            if g.r.random() < 0.12:
                c = 0.0
            if perm[i] == j:
                c = g.r.choice((-1, 1)) * (g.r.uniform(0.3, 1.2) + dom)
            c = round(c * sc, g.r.choice((1, 2, 6, 17)))
            A.append(entry(g, c, w * sc * g.r.choice((0, 0.3, 1)), ints))
    wb = g.r.choice((0, 0.1, 1, 3)) if not point else 0
    b = [entry(g, round(g.r.uniform(-5, 5), g.r.choice((0, 1, 6, 17))), wb * g.r.choice((0, 0.4, 1)), ints) for _ in range(n)]
    return ('A', (n, m), tuple(A)), ('A', (n,), tuple(b))


@generator('P19', 3)
def _(g):
    while True:
        n = g.r.choice((1, 2, 2, 2, 3, 3, 4))
        A, b = system(g, n, point=g.r.random() < 0.15)
        yield gauss, (A, b, g.r.randint(0, 10 ** 6))


@generator('P19', 3)
def _(g):
    while True:
        n = g.r.choice((1, 2, 2, 2, 3, 4))
        A, b = system(g, n, dom=g.r.choice((0.5, 1, 2, 4)), point=g.r.random() < 0.15)
        x0 = None
        if g.r.random() < 0.65:
            r = g.r.choice((0.5, 2, 10, 1e4))
            el = []
            for i in range(n):
                c = g.r.choice((0, 0, g.r.uniform(-3, 3)))
                l, h = round(c - r * g.r.choice((0.2, 1, 1)), 3), round(c + r * g.r.choice((0, 0.2, 1, 1)), 3)
                el.append(('C', min(l, h), max(l, h)))
            x0 = ('A', (n,), tuple(el))
        Cs = None
        k = g.r.random()
        if k < 0.25:
            Cs = ('N', 'float64', (n, n), tuple(float(i == j) for i in range(n) for j in range(n)))
        elif k < 0.35:
            Cs = ('N', 'int64', (n, n), tuple(int(i == j) * g.r.choice((1, -1, 2)) for i in range(n) for j in range(n)))
        elif k < 0.55:
            Cs = ('N', 'float64', (n, n), tuple(round((i == j) * g.r.choice((1, 0.3, -2)) + g.r.uniform(-0.2, 0.2), 3) for i in range(n) for j in range(n)))
        elif k < 0.6:
            Cs = ('A', (n, n), tuple(('C', float(i == j), float(i == j) + g.r.choice((0, 0.1))) for i in range(n) for j in range(n)))
        kw = []
        if g.r.random() < 0.6:
            kw.append(('tol', g.r.choice((1e-12, 1e-6, 0.1, 1.0, 1e9))))
        if g.r.random() < 0.6:
            kw.append(('maxiter', g.r.choice((0, 1, 2, 5, 50))))
        yield gauss_seidel, (A, b, x0, Cs, tuple(kw), g.r.randint(0, 10 ** 6))


def arr(rows):
    if isinstance(rows[0][0], tuple):
        return ('A', (len(rows), len(rows[0])), tuple(('C',) + c for r in rows for c in r))
    return ('A', (len(rows),), tuple(('C',) + c for c in rows))


@directed('P19')
def _(g):
    for A, b in (([[(2, 4), (-2, 1)], [(-1, 2), (2, 4)]], [(-2, 2), (-2, 2)]), ([[(2.0, 4.0), (-1.0, 1.0)], [(-1.0, 1.0), (2.0, 4.0)]], [(0.0, 2.0), (0.0, 2.0)]),
                 ([[(3.5, 3.5), (0.0, 2.0), (0.0, 2.0)], [(0.0, 2.0), (3.5, 3.5), (0.0, 2.0)], [(0.0, 2.0), (0.0, 2.0), (3.5, 3.5)]], [(-1.0, 1.0)] * 3),
                 ([[(0.0, 0.0), (1.0, 1.0)], [(3.0, 3.0), (0.1, 0.1)]], [(1.0, 1.0), (1.0, 1.0)]), ([[(3.0, 3.0)]], [(1.0, 1.0)]),
                 ([[(0.1, 0.1), (0.2, 0.2)], [(0.3, 0.3), (-0.7, -0.7)]], [(0.1, 0.1), (0.3, 0.3)])):
        yield gauss, (arr(A), arr(b), 5)
        yield gauss_seidel, (arr(A), arr(b), None, None, (), 5)
        yield gauss_seidel, (arr(A), arr(b), None, None, (('maxiter', 1),), 5)
        n = len(b)
        yield gauss_seidel, (arr(A), arr(b), arr([(-1.0, 1.0)] * n), None, (), 5)
        yield gauss_seidel, (arr(A), arr(b), arr([(0.0, 1.0)] * n), ('N', 'float64', (n, n), tuple(float(i == j) for i in range(n) for j in range(n))), (), 5)


# ---------------------------------------------------------------- P20
def inside_up_to(z, x, what, M, v):
    s = 1 + max(max(abs(float(num(e.a))), abs(float(num(e.b)))) for e in z)
    t = Fraction(s) * Fraction(1, 10 ** 8)
    for i, e in enumerate(z):
        need(F(num(e.a)) - t <= x[i] <= F(num(e.b)) + t, 'a member system has a solution outside the box of ' + what, i, pretty(x), (num(e.a), num(e.b)), [pretty(r) for r in M], pretty(v))


def conditioned(A):
    mid = np.array([[float(l + h) / 2 for l, h in r] for r in A])
    return np.linalg.cond(mid) < 1e4


@contract('P20')
def hbr(A, b, seed):
    X, y = build(A), build(b)
    before = snap(X), snap(y)
    st, z = call(lambda: HBR(X, y))
    need((snap(X), snap(y)) == before, 'HBR changed its arguments')
    if st == 'raise':
        need(not isinstance(z, (TypeError, AttributeError, IndexError, NameError)), 'HBR raised %s: %s' % (type(z).__name__, z))
        return
    z = boxof(z, A[1][0], 'the result of HBR')
    E = ends_of(A)
    if not conditioned(E) or max(max(abs(float(num(e.a))), abs(float(num(e.b)))) for e in z) > 1e5:
        return
    for M, v, x in solutions(E, ends_of(b), seed):
        inside_up_to(z, x, 'HBR', M, v)


@contract('P20')
def rohn(A, b, kw, seed):
    X, y = build(A), build(b)
    before = snap(X), snap(y)
    st, z = call(lambda: Rohn(X, y, **dict(kw)))
    need((snap(X), snap(y)) == before, 'Rohn changed its arguments')
    if st == 'raise':
        need(not isinstance(z, (TypeError, AttributeError, IndexError, NameError)), 'Rohn raised %s: %s' % (type(z).__name__, z))
        return
    n, m = A[1]
    z = boxof(z, m, 'the result of Rohn')
    E, e = ends_of(A), ends_of(b)
    if not conditioned(E) or max(max(abs(float(num(t.a))), abs(float(num(t.b)))) for t in z) > 1e5:
        return
    if n == m:
        for M, v, x in solutions(E, e, seed):
            inside_up_to(z, x, 'Rohn', M, v)
        return
    # overdetermined: a point x and a matrix in A whose product lies in b
    r = random.Random(seed)
    rows = list(range(n))
    for t in range(40):
        pick = sorted(r.sample(rows, m))
        for M, v in members([E[i] for i in pick], [e[i] for i in pick], r, 0):
            x = solve(M, v)
            if x is None:
                continue
            full = all(solvable_row(E[i], e[i], x) for i in rows)
            if full:
                inside_up_to(z, x, 'Rohn', M, v)


def solvable_row(row, rhs, x):
    lo = sum(min(l * t, h * t) for (l, h), t in zip(row, x))
    hi = sum(max(l * t, h * t) for (l, h), t in zip(row, x))
    return lo <= rhs[1] and hi >= rhs[0]


@generator('P20', 2)
def _(g):
    while True:
        n = g.r.choice((1, 2, 2, 2, 3, 4))
        A, b = system(g, n, dom=g.r.choice((0.5, 1, 2, 4)))
        yield hbr, (A, b, g.r.randint(0, 10 ** 6))


@generator('P20', 2)
def _(g):
    while True:
        m = g.r.choice((1, 2, 2, 3))
        n = m + g.r.choice((0, 0, 1, 1, 2, 3))
        if n == m:
            A, b = system(g, n, dom=g.r.choice((0.5, 1, 2, 4)))
        else:
            A, b = overdetermined(g, n, m)
        kw = []
        if g.r.random() < 0.5:
            kw.append(('tol', g.r.choice((1e-12, 1e-8, 1e-3, 0.1))))
        if g.r.random() < 0.5:
            kw.append(('maxiter', g.r.choice((0, 1, 3, 20, 100))))
        yield rohn, (A, b, tuple(kw), g.r.randint(0, 10 ** 6))


def overdetermined(g, n, m):
    """rows around a common solution"""
    x = [round(g.r.uniform(-3, 3), 1) for _ in range(m)]
    w = g.r.choice((0.01, 0.1, 0.3))
    A, b = [], []
    for i in range(n):
        row = [round(g.r.uniform(-2, 2) + (2 if i % m == j else 0), 2) for j in range(m)]
        A += [entry(g, c, w * g.r.choice((0, 1))) for c in row]
        c = sum(p * q for p, q in zip(row, x)) + g.r.uniform(-0.1, 0.1)
        b.append(('C', c - g.r.choice((0.2, 0.5, 1)), c + g.r.choice((0.2, 0.5, 1))))
    return ('A', (n, m), tuple(A)), ('A', (n,), tuple(b))


@directed('P20')
def _(g):
    for A, b in (([[(2, 4), (-2, 1)], [(-1, 2), (2, 4)]], [(-2, 2), (-2, 2)]), ([[(2.0, 4.0), (-1.0, 1.0)], [(-1.0, 1.0), (2.0, 4.0)]], [(0.0, 2.0), (0.0, 2.0)]),
                 ([[(3.5, 3.5), (0.0, 1.0), (0.0, 1.0)], [(0.0, 1.0), (3.5, 3.5), (0.0, 1.0)], [(0.0, 1.0), (0.0, 1.0), (3.5, 3.5)]], [(-1.0, 2.0)] * 3)):
        yield hbr, (arr(A), arr(b), 5)
        yield rohn, (arr(A), arr(b), (), 5)
        yield rohn, (arr(A), arr(b), (('maxiter', 2),), 5)


# ---------------------------------------------------------------- P21
@contract('P21')
def neumaier(A, b, y, w):
    X, t, c = build(A), build(b), np.array(y, dtype=float)
    ww = None if w is None else np.array(w, dtype=float)
    before = [snap(v) for v in (X, t, c, ww)]
    z = ok(lambda: Neumaier(X, t, c, ww), 'Neumaier')
    need([snap(v) for v in (X, t, c, ww)] == before, 'Neumaier changed its arguments')
    n, m = A[1]
    z = boxof(z, m, 'the result of Neumaier')
    E, e = ends_of(A), ends_of(b)
    yy = [F(v) for v in y]
    om = [F(v) for v in w] if w is not None else [F(1)] * m
    q = []
    sc = 1
    for i in range(n):
        hi = sum(max(l * v, h * v) for (l, h), v in zip(E[i], yy))
        lo = sum(min(l * v, h * v) for (l, h), v in zip(E[i], yy))
        slack = min(e[i][1] - hi, lo - e[i][0])
        s = sum(max(abs(l), abs(h)) * v for (l, h), v in zip(E[i], om))
        sc = max(sc, abs(hi), abs(lo), abs(e[i][0]), abs(e[i][1]))
        q.append(slack / s)
        sc = max(sc, sc / s)
    r = min(q)
    tol = Fraction(1, 10 ** 11) * sc * max(1, max(om))
    for j, k in enumerate(z):
        a, h = F(num(k.a)), F(num(k.b))
        need(abs((a + h) / 2 - yy[j]) <= tol, 'the box of Neumaier is not centred at the given point', j, float(a), float(h), float(yy[j]))
        need(abs((h - a) / 2 - abs(r) * om[j]) <= tol, 'the half-width of the box of Neumaier is not r*w', j, float((h - a) / 2), float(r * om[j]))
    if r >= 0:
        for i in range(n):
            hi = lo = Fraction(0)
            for (l, h), k in zip(E[i], z):
                p = [u * F(num(v)) for u in (l, h) for v in (k.a, k.b)]
                hi += max(p)
                lo += min(p)
            need(hi <= e[i][1] + tol * 10 * (1 + m) * sc and lo >= e[i][0] - tol * 10 * (1 + m) * sc, 'a point of the box of Neumaier leaves the tolerable solution set', i, float(lo), float(hi), pretty(e[i]))


@generator('P21', 1)
def _(g):
    while True:
        n, m = g.r.choice((1, 2, 2, 3, 4)), g.r.choice((1, 2, 2, 3))
        d = g.r.choice((0, 1, 2, 6))
        y = [round(g.r.uniform(-3, 3), d) for _ in range(m)]
        if g.r.random() < 0.2:
            y[g.r.randrange(m)] = 0.0
        if g.r.random() < 0.1:
            y = [0.0] * m
        A, b = [], []
        for i in range(n):
            row = [entry(g, round(g.r.uniform(-2, 2), 1), g.r.choice((0, 0.2, 1))) for _ in range(m)]
            if all(r[1] == 0 == r[2] for r in row):
                row[0] = ('C', 1.0, 1.0)
            A += row
            hi = sum(max(r[1] * v, r[2] * v) for r, v in zip(row, y))
            lo = sum(min(r[1] * v, r[2] * v) for r, v in zip(row, y))
            b.append(('C', lo - g.r.choice((0.0, 0.1, 1, 3)) * g.r.random(), hi + g.r.choice((0.1, 1, 3, 10)) * g.r.random()))
        w = None if g.r.random() < 0.35 else tuple(round(g.r.uniform(0.1, 3), 1) if g.r.random() < 0.8 else g.r.choice((0.01, 20.0)) for _ in range(m))
        yield neumaier, (('A', (n, m), tuple(A)), ('A', (n,), tuple(b)), tuple(y), w)


# ---------------------------------------------------------------- P24
def kmul(x, y):
    """exact Kaucher product"""
    p, m = (lambda v: max(v, 0)), (lambda v: max(-v, 0))
    (a, b), (c, d) = x, y
    return (max(p(a) * p(c), m(b) * m(d)) - max(p(b) * m(c), m(a) * p(d)), max(p(b) * p(d), m(a) * m(c)) - max(p(a) * m(d), m(b) * p(c)))


@contract('P24')
def subdiff(A, b, kw):
    X, y = build(A), build(b)
    n = A[1][0]
    E, e = ends_of(A), ends_of(b)
    before = snap(X), snap(y)
    log = []
    real = np.linalg.solve

    def spy(F_, rhs, *a, **k):
        out = real(F_, rhs, *a, **k)
        log.append((np.array(F_, copy=True), np.array(rhs, copy=True), np.array(out, copy=True)))
        return out
    kw = dict(kw)
    np.linalg.solve = spy
    try:
        st, z = call(lambda: Subdiff(X, y, **kw))
    finally:
        np.linalg.solve = real
    need((snap(X), snap(y)) == before, 'Subdiff changed its arguments')
    if st == 'raise':
        need(isinstance(z, np.linalg.LinAlgError), 'Subdiff raised %s: %s' % (type(z).__name__, z))
        return
    z = boxof(z, n, 'the result of Subdiff')
    tau = kw.get('tau', 1)
    if not log:                        # solved in another way: only the result can be judged
        log = [(np.eye(2 * n), np.zeros(2 * n), np.array([float(num(k.a)) for k in z] + [float(num(k.b)) for k in z]))]
    x = log[0][2]
    for F_, rhs, d in log[1:]:
        if not np.all(np.isfinite(x)) or np.max(np.abs(x)) > 1e8:
            return
        xs = [(F(x[j]), F(x[j + n])) for j in range(n)]
        for i in range(n):
            s = [Fraction(0), Fraction(0)]
            mag = Fraction(1)
            for j in range(n):
                t = kmul(E[i][j], xs[j])
                s = [s[0] + t[0], s[1] + t[1]]
                mag += abs(t[0]) + abs(t[1])
            for half in (0, 1):
                if F_.shape == (2 * n, 2 * n):
                    row = sum(F(F_[i + half * n, k]) * F(x[k]) for k in range(2 * n))
                    need(abs(row - s[half]) <= mag * Fraction(1, 10 ** 12), 'the assembled matrix does not reproduce the Kaucher product', i, half, float(row), float(s[half]), pretty(x))
                res = s[half] - e[i][half]
                need(abs(F(rhs[i + half * n]) - res) <= (mag + abs(e[i][half])) * Fraction(1, 10 ** 12), 'the right-hand side of the Newton step is not the residual', i, half, float(rhs[i + half * n]), float(res))
        x = x - d * tau
    ret = np.array([float(num(k.a)) for k in z] + [float(num(k.b)) for k in z])
    need(np.array_equal(ret, x) or np.allclose(ret, x, rtol=1e-12, atol=1e-14), 'the returned vector is not the last iterate', ret.tolist(), x.tolist())
    if len(log) >= 2 and kw.get('maxiter', 500) >= len(log):
        # stopped by the criterion: the sum of the residuals is below tol*q at the last but one iterate; the last step only improves it
        last = log[-1]
        r = sum(max(abs(last[1][i]), abs(last[1][i + n])) for i in range(n))
        q = np.linalg.norm(x, 1)
        q = 1 if q <= kw.get('norm_min_val', 1e-12) else q
        need(r / q <= kw.get('tol', 1e-12) * (1 + 1e-9), 'Subdiff stopped before its residual criterion was satisfied', r, q)
        if kw.get('tau', 1) == 1:
            cond = np.linalg.cond(last[0])
            if cond < 1e8:
                xs = [(F(ret[j]), F(ret[j + n])) for j in range(n)]
                for i in range(n):
                    s = [Fraction(0), Fraction(0)]
                    for j in range(n):
                        t = kmul(E[i][j], xs[j])
                        s = [s[0] + t[0], s[1] + t[1]]
                    for half in (0, 1):
                        lim = 1e-9 * (1 + float(q)) + kw.get('tol', 1e-12) * float(q) * max(1.0, cond)
                        need(abs(float(s[half] - e[i][half])) <= lim, 'Subdiff stopped at a vector that does not solve the Kaucher system', i, half, float(s[half]), float(e[i][half]))


def kint(g, c, w):
    a, b = round(c - w * g.r.random(), g.r.choice((0, 1, 2, 6))), round(c + w * g.r.random(), g.r.choice((0, 1, 2, 6)))
    return (a, b)


@generator('P24', 2)
def _(g):
    while True:
        n = g.r.choice((1, 1, 2, 2, 2, 3))
        dom = g.r.choice((0, 1, 2, 4))
        el = []
        for i in range(n):
            for j in range(n):
                a, b = kint(g, g.r.uniform(-2, 2) + dom * (i == j) * g.r.choice((-1, 1)), g.r.choice((0, 0.3, 1, 3)))
                a, b = min(a, b), max(a, b)
                if g.r.random() < 0.25:
                    a, b = b, a
                if g.r.random() < 0.06:
                    a = 0.0
                el.append(('C', a, b) if a <= b else ('K', a, b))
        bb = []
        for i in range(n):
            a, b = kint(g, g.r.uniform(-4, 4), g.r.choice((0, 1, 4)))
            a, b = min(a, b), max(a, b)
            if g.r.random() < 0.45:
                a, b = b, a
            bb.append(('C', a, b) if a <= b else ('K', a, b))
        kw = []
        if g.r.random() < 0.4:
            kw.append(('maxiter', g.r.choice((0, 1, 2, 5, 30))))
        else:
            kw.append(('maxiter', 40))
        if g.r.random() < 0.3:
            kw.append(('tol', g.r.choice((1e-12, 1e-9, 1e-4, 0.1))))
        if g.r.random() < 0.2:
            kw.append(('tau', g.r.choice((0.5, 0.9))))
        yield subdiff, (('A', (n, n), tuple(el)), ('A', (n,), tuple(bb)), tuple(kw))


@directed('P24')
def _(g):
    iv = {'P': (1.0, 3.0), 'Z': (-1.0, 2.0), 'M': (-3.0, -1.0), 'D': (2.0, -1.0), 'p': (3.0, 1.0), 'm': (-1.0, -3.0), '0': (0.0, 2.0), 'o': (-2.0, 0.0)}
    T = lambda p: ('C', p[0], p[1]) if p[0] <= p[1] else ('K', p[0], p[1])
    for a in iv.values():
        for x in ((1.0, 4.0), (-1.5, 3.0), (-4.0, -1.0), (3.0, -1.5), (4.0, 1.0), (-1.0, -4.0)):
            p = kmul((F(a[0]), F(a[1])), (F(x[0]), F(x[1])))
            yield subdiff, (('A', (1, 1), (T(a),)), ('A', (1,), (T((float(p[0]), float(p[1]))),)), (('maxiter', 30),))


# ---------------------------------------------------------------- P25
def unbounded(A):
    """whether {d != 0: A d >= 0} is not empty (A has exact rows)"""
    rows = [r for r in A if r[0] != 0 or r[1] != 0]
    dirs = [(F(1), F(0)), (F(-1), F(0)), (F(0), F(1)), (F(0), F(-1))]
    for r in rows:
        dirs += [(-r[1], r[0]), (r[1], -r[0]), (r[0], r[1])]
    return any(all(r[0] * d[0] + r[1] * d[1] >= 0 for r in rows) for d in dirs)


def vertices_of(A, b):
    out = []
    for i, j in itertools.combinations(range(len(A)), 2):
        d = A[i][0] * A[j][1] - A[i][1] * A[j][0]
        if d == 0:
            continue
        x = (b[i] * A[j][1] - A[i][1] * b[j]) / d
        y = (A[i][0] * b[j] - b[i] * A[j][0]) / d
        if all(r[0] * x + r[1] * y >= v for r, v in zip(A, b)) and (x, y) not in out:
            out.append((x, y))
    return out


def spread(A, b):
    """no vertex within rounding distance of a constraint it does not lie on"""
    V = []
    for i, j in itertools.combinations(range(len(A)), 2):
        d = A[i][0] * A[j][1] - A[i][1] * A[j][0]
        if d == 0:
            continue
        if abs(d) < Fraction(1, 10 ** 4) * max(abs(A[i][0]), abs(A[i][1])) * max(abs(A[j][0]), abs(A[j][1])):
            return False
        x = (b[i] * A[j][1] - A[i][1] * b[j]) / d
        y = (A[i][0] * b[j] - b[i] * A[j][0]) / d
        for r, v in zip(A, b):
            s = r[0] * x + r[1] * y - v
            if s != 0 and abs(s) < Fraction(1, 10 ** 6) * (1 + abs(x) + abs(y)):
                return False
    # parallel rows: on the same line, or not nearly so
    for i, j in itertools.combinations(range(len(A)), 2):
        d = A[i][0] * A[j][1] - A[i][1] * A[j][0]
        if d == 0:
            s = b[i] * (A[i][0] * A[j][0] + A[i][1] * A[j][1]) - b[j] * (A[i][0] ** 2 + A[i][1] ** 2)
            if s != 0 and abs(s) < Fraction(1, 10 ** 6):
                return False
    return True


def compare_vertices(V, exact, what):
    V = np.asarray(V, dtype=float).reshape(-1, 2) if len(V) else np.zeros((0, 2))
    for v in V:
        need(any(abs(F(v[0]) - e[0]) + abs(F(v[1]) - e[1]) <= Fraction(1, 10 ** 6) * (1 + abs(e[0]) + abs(e[1])) for e in exact) if np.all(np.isfinite(v)) else False,
             what + ' contains a point that is no vertex of the solution set', v.tolist(), [pretty(e) for e in exact])
    for e in exact:
        need(any(abs(F(v[0]) - e[0]) + abs(F(v[1]) - e[1]) <= Fraction(1, 10 ** 6) * (1 + abs(e[0]) + abs(e[1])) for v in V), what + ' lacks a vertex of the solution set', pretty(e), V.tolist())


def bound_rows(bounds):
    return [[F(1), F(0)], [F(0), F(1)], [F(-1), F(0)], [F(0), F(-1)]], [F(bounds[0][0]), F(bounds[0][1]), -F(bounds[1][0]), -F(bounds[1][1])]


@contract('P25')
def inequalities(A, b, bounds, before):
    M, v = np.array(A, dtype=float), np.array(b, dtype=float)
    for B, c in before:
        call(lambda: lineqs(np.array(B, dtype=float), np.array(c, dtype=float), show=False))
    keep = M.copy(), v.copy()
    R = [[F(t) for t in r] for r in A]
    q = [F(t) for t in b]
    z = ok(lambda: lineqs(M, v, show=False, bounds=bounds), 'lineqs')
    need(np.array_equal(keep[0], M) and np.array_equal(keep[1], v), 'lineqs changed its arguments')
    nz = [i for i, r in enumerate(R) if r[0] or r[1]]
    if any(q[i] > 0 for i in range(len(R)) if i not in nz):
        need(len(z) == 0, 'lineqs returns vertices of a system with a contradictory row')
        return
    R, q = [R[i] for i in nz], [q[i] for i in nz]
    if unbounded(R):
        for x, y in np.asarray(z, dtype=float).reshape(-1, 2) if len(z) else ():
            for r, t in zip(R, q):
                need(math.isfinite(x) and math.isfinite(y) and r[0] * F(x) + r[1] * F(y) >= t - Fraction(1, 10 ** 6) * (1 + abs(F(x)) + abs(F(y))), 'a returned vertex violates an inequality', (x, y), pretty(r), float(t))
        if bounds is None:
            return
        B, c = bound_rows(bounds)
        R, q = R + B, q + c
        if not spread(R, q):
            return
    compare_vertices(z, vertices_of(R, q), 'the result of lineqs')


def orthant_system(A, b, s, kind):
    """the solution set in an orthant as exact inequalities (by Oettli-Prager and its tolerable counterpart)"""
    R, q = [], []
    for row, (bl, bh) in zip(A, b):
        lo = [l if t > 0 else h for (l, h), t in zip(row, s)]
        hi = [h if t > 0 else l for (l, h), t in zip(row, s)]
        if kind == 'uni':
            R += [[-v for v in lo], hi]
            q += [-bh, bl]
        else:
            R += [[-v for v in hi], lo]
            q += [-bh, bl]
    for k in range(2):
        R.append([F(s[k] if j == k else 0) for j in range(2)])
        q.append(F(0))
    return R, q


@contract('P25')
def orthants(A, b, kind, bounds, before):
    X, y = build(A), build(b)
    for what, B, c in before:
        if what == 'lineqs':
            call(lambda: lineqs(np.array(B, dtype=float), np.array(c, dtype=float), show=False))
        else:
            call(lambda: IntLinIncR2(build(B), build(c), show=False, consistency=what))
    kept = snap(X), snap(y)
    z = ok(lambda: IntLinIncR2(X, y, show=False, consistency=kind, bounds=bounds), 'IntLinIncR2')
    need((snap(X), snap(y)) == kept, 'IntLinIncR2 changed its arguments')
    need(len(z) == 4, 'IntLinIncR2 does not return four orthants', len(z))
    E, e = ends_of(A), ends_of(b)
    open_ = []
    for s, V in zip(((1, 1), (-1, 1), (-1, -1), (1, -1)), z):
        R, q = orthant_system(E, e, s, kind)
        if any(q[i] > 0 for i, r in enumerate(R) if not r[0] and not r[1]):
            need(len(V) == 0, 'IntLinIncR2 returns points of an orthant without solutions', s)
            continue
        nz = [i for i, r in enumerate(R) if r[0] or r[1]]
        R, q = [R[i] for i in nz], [q[i] for i in nz]
        for x, t in np.asarray(V, dtype=float).reshape(-1, 2) if len(V) else ():
            for r, c in zip(R, q):
                need(math.isfinite(x) and math.isfinite(t) and r[0] * F(x) + r[1] * F(t) >= c - Fraction(1, 10 ** 6) * (1 + abs(F(x)) + abs(F(t))), 'a returned point is not in the solution set of its orthant', s, (x, t))
        if unbounded(R):
            open_.append(s)
            if bounds is None:
                continue
            B, c = bound_rows(bounds)
            R, q = R + B, q + c
        if spread(R, q):
            compare_vertices(V, vertices_of(R, q), 'the result of IntLinIncR2 in orthant %r' % (s,))
    again = ok(lambda: IntLinIncR2(build(A), build(b), show=False, consistency=kind, bounds=bounds), 'IntLinIncR2')
    need(len(again) == 4 and all(np.array_equal(p, r) for p, r in zip(z, again)), 'IntLinIncR2 gives another result for the same arguments')


def halfplanes(g, m):
    """inequalities around a point"""
    d = g.r.choice((0, 1, 1, 3))
    c = [round(g.r.uniform(-3, 3), d) for _ in range(2)]
    A, b = [], []
    for _ in range(m):
        while True:
            r = [round(g.r.uniform(-4, 4), d) for _ in range(2)]
            if r[0] or r[1]:
                break
        A.append(tuple(r))
        b.append(round(r[0] * c[0] + r[1] * c[1] - g.r.choice((0, 0.5, 1, 3, 3)) * g.r.random(), d + 1))
    if g.r.random() < 0.5:             # a box
        w = g.r.choice((1, 2, 5))
        A += [(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0)]
        b += [-float(w), -float(w), -float(w), -float(w)]
    if g.r.random() < 0.1:
        A.append((0.0, 0.0))
        b.append(g.r.choice((0.0, -1.0, 1.0)))
    if g.r.random() < 0.1:
        i = g.r.randrange(len(A))
        A.append(A[i])
        b.append(b[i])
    p = list(range(len(A)))
    g.r.shuffle(p)
    return tuple(A[i] for i in p), tuple(b[i] for i in p)


def rbounds(g):
    return [[-g.r.choice((1, 2.5, 10)), -g.r.choice((1, 3, 10.5))], [g.r.choice((1, 2, 11)), g.r.choice((1, 2, 9.5))]] if g.r.random() < 0.5 else [[1.0, 2.0], [4.0, 3.5]]


def exactsys(A, b):
    return [[F(t) for t in r] for r, v in zip(A, b) if r[0] or r[1]], [F(v) for r, v in zip(A, b) if r[0] or r[1]]


@generator('P25', 2)
def _(g):
    while True:
        A, b = halfplanes(g, g.r.randint(1, 7))
        if not spread(*exactsys(A, b)):
            continue
        bounds = None if g.r.random() < 0.5 else rbounds(g)
        before = tuple(halfplanes(g, 2) for _ in range(g.r.choice((0, 0, 1))))
        yield inequalities, (A, b, bounds, before)


def system2(g):
    n = g.r.choice((1, 2, 2, 3))
    d = g.r.choice((0, 1))
    el, bb = [], []
    for i in range(n):
        for j in range(2):
            c, w = round(g.r.uniform(-3, 3), d), round(g.r.choice((0, 0.5, 1, 2)) * g.r.random(), d)
            if g.r.random() < 0.5 and i == j:
                c += 3 * g.r.choice((-1, 1))
            el.append(('C', round(c - w, d), round(c + w, d)))
        c, w = round(g.r.uniform(-4, 4), d), round(g.r.choice((0.5, 2, 3)), d)
        bb.append(('C', round(c - w, d), round(c + w, d)))
    return ('A', (n, 2), tuple(el)), ('A', (n,), tuple(bb))


@generator('P25', 2)
def _(g):
    while True:
        A, b = system2(g)
        kind = g.r.choice(('uni', 'tol'))
        E, e = ends_of(A), ends_of(b)
        good = True
        for s in ((1, 1), (-1, 1), (-1, -1), (1, -1)):
            R, q = orthant_system(E, e, s, kind)
            R, q = exactsys(R, q)
            good = good and spread(R, q)
        if not good:
            continue
        before = []
        for _ in range(g.r.choice((0, 0, 1, 2))):
            if g.r.random() < 0.5:
                B, c = halfplanes(g, 2)
                before.append(('lineqs', B, c))
            else:
                B, c = system2(g)
                before.append((g.r.choice(('uni', 'tol')), B, c))
        yield orthants, (A, b, kind, None if g.r.random() < 0.6 else rbounds(g), tuple(before))


@directed('P25')
def _(g):
    sq = (((1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0)), (-1.0, -1.0, -1.0, -1.0))
    yield inequalities, (sq[0], sq[1], None, ())
    yield inequalities, (sq[0] + ((0.0, 0.0),), sq[1] + (1.0,), None, ())
    yield inequalities, (((1.0, 0.0), (0.0, 1.0)), (0.0, 0.0), [[-1, -1], [2, 3]], ())
    yield inequalities, (((1.0, 0.0), (0.0, 1.0)), (5.0, 0.0), [[-1, -1], [2, 3]], ())
    A = ('A', (2, 2), (('C', 2, 4), ('C', -2, 1), ('C', -1, 2), ('C', 2, 4)))
    b = ('A', (2,), (('C', -2, 2), ('C', -2, 2)))
    far = (((1.0, 0.0),), (900.0,))
    yield orthants, (A, b, 'uni', None, (('lineqs',) + far,))
    yield orthants, (A, b, 'tol', None, ())
    A = ('A', (1, 2), (('C', 1, 2), ('C', 1, 3)))
    b = ('A', (1,), (('C', 1, 2),))
    yield orthants, (A, b, 'uni', None, (('lineqs',) + far,))
    yield orthants, (A, b, 'uni', [[-3, -3], [3, 3]], (('lineqs',) + far,))
