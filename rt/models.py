"""Contracts of the models (P26, P29)."""
import math, random
from fractions import Fraction
import numpy as np
import pandas as pd
import intvalpy as ip
from intvalpy import Interval, ArrayInterval, asinterval, LinearConstraint
from .core import *
from .kernel import C, K, num, mk
from .arrays import build, snap
from .linear import ends_of

IV = (C, K)


def smoothed(w, n, alpha, beta):
    w = [F(v) for v in w] if w is not None else [Fraction(1)] * n
    out = []
    for k in range(n):
        out.append(F(beta) * (w[k] * (1 - F(alpha)) + (F(alpha) * out[-1] if k else 0)))
    return out


def joined(res, norm):
    return min(res) if norm == 'inf' else sum(res)


def residuals(objective, lo, hi, yl, yh, w, wide=None):
    """per row: weight*(rad y - |mid y - [lo, hi]|) in the sense of the objective"""
    out = []
    for k in range(len(lo)):
        ym, yr = (yl[k] + yh[k]) / 2, (yh[k] - yl[k]) / 2
        a, b = ym - hi[k], ym - lo[k]
        if objective == 'Tol':
            v = yr - max(abs(a), abs(b))
        elif objective == 'Uni':
            v = yr - (0 if a <= 0 <= b else min(abs(a), abs(b)))
        else:
            v = yr + (b - a) / 2 - abs((a + b) / 2)
        out.append(w[k] * v)
    return out


def frame_snap(x):
    if isinstance(x, pd.DataFrame):
        return ('D', tuple(x.columns), tuple(x.index), [[(id(e) if isinstance(e, IV) else None, repr(num(e.a)) + repr(num(e.b)) if isinstance(e, IV) else repr(e)) for e in x[c]] for c in x.columns])
    if isinstance(x, list):
        return repr(x)
    return snap(x)


# ---------------------------------------------------------------- WILS
@contract('P26')
def wils(X, y, x0, weight, ab, objective, norm, cons, maxiter, xtest):
    A, b = build(X), build(y)
    start = None if x0 is None else np.array(x0, dtype=float)
    w = None if weight is None else (list(weight) if isinstance(weight, list) else np.array(weight))
    con = None
    if cons is not None:
        con = LinearConstraint(np.array(cons[0], dtype=float), lb=np.array(cons[1], dtype=float), ub=np.array(cons[2], dtype=float), mu=float(cons[3]))
        ck = (con.C.tobytes(), con.b.tobytes(), repr(con.mu))
    before = [frame_snap(v) for v in (A, b, start, w)]
    model = ip.WILS(alpha=ab[0], beta=ab[1])
    kw = {'maxiter': maxiter}
    if cons is not None:
        kw['constraint'] = con
    ok(lambda: model.fit(A, b, x0=start, weight=w, objective=objective, norm=norm, **kw), 'WILS.fit')
    need([frame_snap(v) for v in (A, b, start, w)] == before, 'WILS.fit changed the data, the weights or the starting point')
    if cons is not None:
        need((con.C.tobytes(), con.b.tobytes(), repr(con.mu)) == ck, 'WILS.fit changed the constraint')
    xr, fr = model.estimator['xr'], model.estimator['fr']
    n, m = X[1] if X[0] == 'A' else X[2]
    E = ends_of(X) if X[0] == 'A' else [[(F(v), F(v)) for v in r] for r in np.array(X[3]).reshape(X[2]).tolist()]
    e = ends_of(y) if y[0] == 'A' else [(F(v), F(v)) for v in y[3]]
    W = smoothed(weight, n, *ab)

    def value(p):
        p = [F(v) for v in p]
        lo = [sum(min(l * t, h * t) for (l, h), t in zip(r, p)) for r in E]
        hi = [sum(max(l * t, h * t) for (l, h), t in zip(r, p)) for r in E]
        v = joined(residuals(objective, lo, hi, [t[0] for t in e], [t[1] for t in e], W), norm)
        if cons is not None:
            for r, lb, ub in zip(*cons[:3]):
                s = sum(F(c) * t for c, t in zip(r, p))
                v -= F(cons[3]) * (max(F(lb) - s, 0) if lb > -INF else 0)
                v -= F(cons[3]) * (max(s - F(ub), 0) if ub < INF else 0)
        sc = 1 + sum(abs(t) for t in W) * (1 + max([abs(t) for t in lo + hi] + [abs(t) for r in e for t in r])) + (F(cons[3]) * 10 * (1 + max(abs(t) for t in p)) if cons else 0)
        return v, sc * Fraction(1, 10 ** 11)
    need(len(xr) == m and np.all(np.isfinite(xr)), 'WILS reports wrong coefficients', xr)
    v, t = value(xr)
    need(abs(F(fr) - v) <= t, 'the objective reported by WILS is not the objective at the reported coefficients', float(fr), float(v))
    if x0 is not None:
        v0, t0 = value(x0)
        need(F(fr) >= v0 - t0, 'WILS reports a value below the one at its starting point', float(fr), float(v0))
    T = build(xtest)
    bt = frame_snap(T)
    z = ok(lambda: model.predict(T), 'WILS.predict')
    need(frame_snap(T) == bt, 'WILS.predict changed the data')
    z = asinterval(z) if not isinstance(z, ArrayInterval) else z
    p = [F(v) for v in xr]
    rows = ends_of(xtest) if xtest[0] == 'A' else [[(F(v), F(v)) for v in r] for r in np.array(xtest[3]).reshape(xtest[2]).tolist()]
    need(z.shape == (len(rows),), 'WILS.predict returns the wrong shape', z.shape)
    for k, r in enumerate(rows):
        lo, hi = sum(min(l * t, h * t) for (l, h), t in zip(r, p)), sum(max(l * t, h * t) for (l, h), t in zip(r, p))
        tt = Fraction(1, 10 ** 12) * (1 + abs(lo) + abs(hi) + sum(abs(l * t) + abs(h * t) for (l, h), t in zip(r, p)))
        need(F(num(z[k].a)) <= lo + tt and F(num(z[k].b)) >= hi - tt, 'the prediction of WILS does not contain the model values', k, (num(z[k].a), num(z[k].b)), (float(lo), float(hi)))


def rmat(g, n, m, point=False):
    w = g.r.choice((0, 0.1, 0.5, 1))
    el = []
    for _ in range(n * m):
        c = round(g.r.uniform(-3, 3), 2)
        a, b = round(c - w * g.r.random(), 3), round(c + w * g.r.random(), 3)
        el.append(('C', min(a, b), max(a, b)))
    return ('A', (n, m), tuple(el))


def rvec(g, n):
    el = []
    for _ in range(n):
        c, w = round(g.r.uniform(-4, 4), 2), g.r.choice((0.2, 1, 2)) * g.r.random()
        a, b = round(c - w, 3), round(c + w, 3)
        el.append(('C', a, b))
    return ('A', (n,), tuple(el))


def weights(g, n):
    k = g.r.random()
    if k < 0.35:
        return None
    if k < 0.6:
        return tuple(g.r.choice((1, 2, 3)) for _ in range(n))            # integers
    w = [round(g.r.uniform(0.1, 3), 2) for _ in range(n)]
    return w if k < 0.7 else tuple(w)


@generator('P26', 1)
def _(g):
    while True:
        n, m = g.r.choice((2, 3, 4, 5)), g.r.choice((1, 2, 2, 3))
        X = rmat(g, n, m) if g.r.random() < 0.8 else ('N', 'float64', (n, m), tuple(round(g.r.uniform(-3, 3), 2) for _ in range(n * m)))
        y = rvec(g, n)
        x0 = None if g.r.random() < 0.3 else tuple(round(g.r.uniform(-2, 2), 1) for _ in range(m))
        cons = None
        if g.r.random() < 0.3:
            k = g.r.choice((1, 2))
            C_ = tuple(tuple(round(g.r.uniform(-2, 2), 1) for _ in range(m)) for _ in range(k))
            lb = tuple(g.r.choice((-INF, -1.0, 0.0)) for _ in range(k))
            ub = tuple(g.r.choice((1.0, 2.0, 1.0 if l == -INF else INF)) for l in lb)
            cons = (C_, lb, ub, g.r.choice((0.5, 1.0, 10.0)))
        xt = rmat(g, 3, m) if g.r.random() < 0.8 else ('N', 'float64', (2, m), tuple(round(g.r.uniform(-3, 3), 2) for _ in range(2 * m)))
        yield wils, (X, y, x0, weights(g, n), (g.r.choice((0, 0, 0.3, 0.5, 1)), g.r.choice((1, 1, 0.5, 2))), g.r.choice(('Tol', 'Uni', 'Uss')), g.r.choice(('inf', 'inf', 'l1')), cons,
                     g.r.choice((0, 1, 5, 40)), xt)


# ---------------------------------------------------------------- ISPAE
def basis_poly(kind, k):
    """coefficients, constant first, of the basis polynomial of degree k (exact)"""
    one, x = [Fraction(1)], [Fraction(0), Fraction(1)]

    def mul(p, q):
        r = [Fraction(0)] * (len(p) + len(q) - 1)
        for i, a in enumerate(p):
            for j, b in enumerate(q):
                r[i + j] += a * b
        return r

    def lin(*terms):
        r = [Fraction(0)] * max(len(p) for _, p in terms)
        for c, p in terms:
            for i, a in enumerate(p):
                r[i] += c * a
        return r
    if kind == 'monom':
        return [Fraction(0)] * k + [Fraction(1)]
    p0, p1 = one, {'chebyshev': x, 'hermite': [Fraction(0), Fraction(2)], 'laguerre': [Fraction(1), Fraction(-1)], 'legendre': x}[kind]
    if k == 0:
        return p0
    for n in range(1, k):
        if kind == 'chebyshev':
            q = lin((2, mul(x, p1)), (-1, p0))
        elif kind == 'hermite':
            q = lin((2, mul(x, p1)), (-2 * n, p0))
        elif kind == 'laguerre':
            q = lin((Fraction(2 * n + 1, n + 1), p1), (Fraction(-1, n + 1), mul(x, p1)), (Fraction(-n, n + 1), p0))
        else:
            q = lin((Fraction(2 * n + 1, n + 1), mul(x, p1)), (Fraction(-n, n + 1), p0))
        p0, p1 = p1, q
    return p1


def evalp(p, x):
    s = Fraction(0)
    for c in reversed(p):
        s = s * x + c
    return s


def extent(p, l, h):
    """range of the polynomial on [l, h], up to rounding"""
    pts = [l, h]
    d = np.array([float(i * c) for i, c in enumerate(p)][1:][::-1])
    while len(d) and d[0] == 0:
        d = d[1:]
    if len(d) > 1:
        for r in np.roots(d):
            if float(l) < r.real < float(h):
                pts.append(F(r.real))
    v = [evalp(p, t) for t in pts]
    return min(v), max(v)


def column(p, k):
    return [F(v) if not isinstance(v, tuple) else v for v in p]


def frame(kind, cols):
    """training or test data in one of the accepted forms; cols is a list of columns of numbers or (l, h)"""
    mkv = lambda v: Interval(v[0], v[1]) if isinstance(v, tuple) else v
    if kind == 'frame':
        return pd.DataFrame({'c%d' % i: [mkv(v) for v in c] for i, c in enumerate(cols)})
    rows = list(zip(*cols))
    if kind == 'list':
        return [[float(v) for v in r] for r in rows]
    if kind == 'numpy':
        return np.array(rows, dtype=float)
    d = np.empty((len(rows), len(cols)), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            d[i, j] = mkv(v if isinstance(v, tuple) else (v, v))
    return ArrayInterval(d)


def rng(v):
    return (F(v[0]), F(v[1])) if isinstance(v, tuple) else (F(v), F(v))


@contract('P29')
def ispae(kind, cols, y, order, basis, bias, x0, weight, ab, objective, norm, maxiter, test, seed):
    A, b = frame(kind, cols), build(y)
    T = frame(kind, test)
    start = None if x0 is None else np.array(x0, dtype=float)
    w = None if weight is None else (list(weight) if isinstance(weight, list) else np.array(weight))
    od = list(order) if isinstance(order, tuple) else order
    before = [frame_snap(v) for v in (A, b, start, w, T)] + [repr(od)]
    model = ip.ISPAE(alpha=ab[0], beta=ab[1], basis=basis)
    ok(lambda: model.fit(A, b, order=od, x0=start, weight=w, objective=objective, norm=norm, bias=bias, maxiter=maxiter), 'ISPAE.fit')
    need([frame_snap(v) for v in (A, b, start, w, T)] + [repr(od)] == before, 'ISPAE.fit changed the data, the weights or the starting point')
    xr, fr = model.estimator['xr'], model.estimator['fr']
    n, m = len(cols[0]), len(cols)
    deg = list(order) if isinstance(order, tuple) else [order] * m
    need(len(xr) == sum(deg) + bool(bias) and np.all(np.isfinite(xr)), 'ISPAE reports wrong coefficients', xr)
    e = ends_of(y)
    W = smoothed(weight, n, *ab)

    def polys(p):
        """one polynomial per column, and the constant"""
        p = [F(v) for v in p]
        c0 = p[0] * evalp(basis_poly(basis, 1), Fraction(1)) if bias else Fraction(0)
        i = 1 if bias else 0
        out = []
        for d in deg:
            q = [Fraction(0)] * (d + 1)
            for k in range(1, d + 1):
                for j, c in enumerate(basis_poly(basis, k)):
                    q[j] += p[i] * c
                i += 1
            out.append(q)
        return c0, out

    def value(p):
        c0, ps = polys(p)
        lo, hi, sc = [], [], Fraction(1)
        for i in range(n):
            l = h = c0
            for q, c in zip(ps, cols):
                s = extent(q, *rng(c[i]))
                l, h = l + s[0], h + s[1]
                sc = max(sc, sum(abs(t) * max(1, abs(rng(c[i])[0]), abs(rng(c[i])[1])) ** j for j, t in enumerate(q)))
            lo.append(l)
            hi.append(h)
        return joined(residuals(objective, lo, hi, [t[0] for t in e], [t[1] for t in e], W), norm), (sc + 10) * (1 + sum(abs(t) for t in W)) * Fraction(1, 10 ** 9)
    v, t = value(xr)
    need(abs(F(fr) - v) <= t, 'the objective reported by ISPAE is not the objective at the reported coefficients', float(fr), float(v))
    if x0 is not None:
        v0, t0 = value(x0)
        need(F(fr) >= v0 - t0, 'ISPAE reports a value below the one at its starting point', float(fr), float(v0))
    z = ok(lambda: model.predict(T), 'ISPAE.predict')
    need(frame_snap(T) == before[4], 'ISPAE.predict changed the data')
    z = list(z)
    need(len(z) == len(test[0]), 'ISPAE.predict returns the wrong number of predictions', len(z))
    c0, ps = polys(xr)
    r = random.Random(seed)
    for i, s in enumerate(z):
        s = asinterval(s)
        for trial in range(6):
            x = []
            for c in test:
                l, h = rng(c[i])
                x.append(r.choice((l, h, l + (h - l) * Fraction(r.randint(0, 16), 16))))
            val = c0 + sum(evalp(q, t) for q, t in zip(ps, x))
            tt = Fraction(1, 10 ** 9) * (1 + sum(sum(abs(u) * max(1, abs(t)) ** j for j, u in enumerate(q)) for q, t in zip(ps, x)))
            need(F(num(s.a)) - tt <= val <= F(num(s.b)) + tt, 'the prediction of ISPAE does not contain a model value', i, [float(t) for t in x], float(val), (num(s.a), num(s.b)))


def rcols(g, n, m, kind):
    cols = []
    for _ in range(m):
        point = kind in ('numpy', 'list') or g.r.random() < 0.25
        c = []
        for _ in range(n):
            v = round(g.r.uniform(-2, 2), 1)
            c.append(v if point else (v, round(v + g.r.choice((0.0, 0.3, 1)), 2)))
        cols.append(tuple(c))
    return tuple(cols)


@generator('P29', 1)
def _(g):
    while True:
        n, m = g.r.choice((3, 4, 5)), g.r.choice((1, 1, 2))
        kind = g.r.choice(('frame', 'frame', 'array', 'numpy', 'list'))
        cols = rcols(g, n, m, kind)
        order = g.r.choice((1, 2, 3)) if g.r.random() < 0.6 else tuple(g.r.choice((1, 2, 3, 4)) for _ in range(m))
        bias = g.r.random() < 0.7
        k = (sum(order) if isinstance(order, tuple) else order * m) + bias
        x0 = None if g.r.random() < 0.4 else tuple(round(g.r.uniform(-1.5, 1.5), 1) for _ in range(k))
        yield ispae, (kind, cols, rvec(g, n), order, g.r.choice(('monom', 'monom', 'chebyshev', 'hermite', 'laguerre', 'legendre')), bias, x0, weights(g, n),
                      (g.r.choice((0, 0, 0.3, 1)), g.r.choice((1, 1, 0.5, 2))), g.r.choice(('Tol', 'Uni')), g.r.choice(('inf', 'inf', 'l1')), g.r.choice((0, 1, 4, 12)), rcols(g, 2, m, kind), g.r.randint(0, 10 ** 6))
