"""Contracts of the optimizer and the recognizing functionals (P15-P18)."""
import math, random
from fractions import Fraction
import numpy as np
import intvalpy as ip
from intvalpy import Interval, ArrayInterval, Tol, Uni, Uss, LinearConstraint, ralgb5
from intvalpy.kernel import abstract
from .core import *
from .kernel import C, K, mk, ends, rclass, num
from .arrays import build, elements, snap, rarr, rfin, EPS

FN = {'Tol': Tol, 'Uni': Uni, 'Uss': Uss}


# ---------------------------------------------------------------- P15
def objective(spec):
    """test functions (f, subgradient) of one argument"""
    kind, p = spec[0], spec[1:]
    if kind == 'abs':                  # sum w_i |a_i.x - b_i|
        A, b, w = (np.array(v, dtype=float) for v in p)
        return lambda x: (float(np.sum(w * np.abs(A @ x - b))), (w * np.sign(A @ x - b)) @ A)
    if kind == 'max':                  # max_i (a_i.x - b_i)
        A, b = (np.array(v, dtype=float) for v in p)

        def f(x):
            v = A @ x - b
            i = int(np.argmax(v))
            return float(v[i]), A[i].copy()
        return f
    if kind == 'quad':
        A, b = (np.array(v, dtype=float) for v in p)
        return lambda x: (float(np.sum((A @ x - b) ** 2)), 2 * (A @ x - b) @ A)
    if kind == 'wavy':                 # not convex
        A, b = (np.array(v, dtype=float) for v in p)
        return lambda x: (float(np.sum(np.sin(A @ x) + 0.1 * np.abs(A @ x - b))), (np.cos(A @ x) + 0.1 * np.sign(A @ x - b)) @ A)
    if kind == 'linear':               # unbounded below
        a = np.array(p[0], dtype=float)
        return lambda x: (float(a @ x), a.copy())
    if kind == 'noise':                # values unrelated to the gradient
        seed = p[0]

        def f(x):
            r = random.Random(hash((seed,) + tuple(float(v) for v in x)))
            return r.uniform(-1, 1), np.array([r.uniform(-1, 1) for _ in x])
        return f
    if kind == 'const':
        return lambda x: (p[0], np.full(len(x), p[1]))
    if kind == 'flat':                 # zero gradient away from the start
        c = np.array(p[0], dtype=float)
        return lambda x: (float(max(np.max(np.abs(x - c)) - p[1], 0.0)), (np.sign(x - c) * (np.abs(x - c) == np.max(np.abs(x - c)))) if np.max(np.abs(x - c)) > p[1] else np.zeros(len(x)))
    raise ValueError(kind)


@contract('P15')
def ralgb(spec, x0, kw, asint=False):
    f = objective(spec)
    calls = []

    def calcfg(x):
        v, g = f(np.array(x, dtype=float))
        calls.append((np.array(x, dtype=float).copy(), v, np.array(g, dtype=float).copy()))
        return v, g
    start = np.array(x0, dtype=int if asint else float)
    keep = start.copy()
    out = ok(lambda: ralgb5(calcfg, start, **dict(kw)), 'ralgb5')
    need(isinstance(out, tuple) and len(out) == 5, 'ralgb5 does not return five values')
    xr, fr, nit, ncalls, ccode = out
    need(start.dtype == keep.dtype and start.tobytes() == keep.tobytes(), 'the starting point was changed', start, keep)
    need(ncalls == len(calls), 'the call count is not the number of evaluations', ncalls, len(calls))
    need(np.array_equal(calls[0][0], keep.astype(float)), 'the first evaluation is not at the starting point')
    need(any(np.array_equal(c[0], np.asarray(xr, dtype=float)) and c[1] == fr for c in calls), 'the returned point was not evaluated to the returned value', xr, fr)
    need(f(np.array(xr, dtype=float))[0] == fr, 'the returned value is not the objective at the returned point', fr)
    best = min((c[1] for c in calls if c[1] == c[1]), default=None)
    need(best is None or fr <= best, 'a smaller value was evaluated than the one returned', fr, best)
    maxiter = dict(kw).get('maxiter', 2000)
    nsims = dict(kw).get('nsims', 30)
    tolx, tolg, tolf = (dict(kw).get(k, 1e-12) for k in ('tolx', 'tolg', 'tolf'))
    need(0 <= nit <= maxiter + 1, 'more iterations than allowed', nit, maxiter)
    need(ccode in (1, 2, 3, 4, 5), 'unknown exit code', ccode)
    last = np.linalg.norm(calls[-1][2])
    if ccode == 2:
        need(last < tolg, 'exit code 2 without a small subgradient', last, tolg)
    else:
        need(not np.any([np.linalg.norm(c[2]) < tolg for c in calls]), 'a subgradient below tolg did not end the iteration')
    if ccode == 4:
        need(nit >= maxiter, 'exit code 4 before the iterations were used up', nit, maxiter)
    else:
        need(nit <= maxiter, 'exit code %d after the iterations were used up' % ccode, nit)
    if ccode == 5:
        need(len(calls) > 501, 'exit code 5 without 500 line-search steps', len(calls))
        # the last 501 points lie on one ray, each step longer than or as long as the one before
        d = np.diff(np.array([c[0] for c in calls[-501:]]), axis=0)
        u = d[-1] / np.linalg.norm(d[-1]) if np.linalg.norm(d[-1]) else d[-1]
        if np.all(np.isfinite(d)) and np.max(np.abs(d)) < 1e280:
            for s in d:
                s0 = np.linalg.norm(s)
                need(s0 == 0 or np.linalg.norm(s / s0 - u) < 1e-3, 'exit code 5, but the last 500 steps are not one line search')
    if ccode == 3:
        step = np.linalg.norm(calls[-1][0] - calls[-2][0])
        scale = np.linalg.norm(calls[-1][0])
        need(step < tolx * (1 + 1e-6) + 1e-14 * scale, 'exit code 3 after a step above tolx', step, tolx)
    if ccode == 1:
        need(nit >= nsims - 1, 'exit code 1 before nsims iterations', nit, nsims)
        before = [c[1] for c in calls[:-nsims] if c[1] == c[1]]
        if before and nsims >= 1:
            need(min(before) - fr < tolf * max(1.0, abs(fr)) * (1 + 1e-6), 'exit code 1 although the value still changes', min(before), fr, tolf)
    # no line search is longer than 501 steps
    need(len(calls) <= 1 + 501 * (nit + 1), 'too many evaluations for the iterations', len(calls), nit)


def small(g, n):
    return tuple(round(g.r.uniform(-4, 4), g.r.choice((0, 1, 6))) for _ in range(n))


@generator('P15', 1)
def _(g):
    while True:
        n = g.r.choice((1, 2, 2, 3, 5))
        k = g.r.choice(('abs', 'max', 'quad', 'wavy', 'wavy', 'linear', 'noise', 'noise', 'const', 'flat'))
        m = g.r.randint(1, 5)
        A = tuple(small(g, n) for _ in range(m))
        spec = {'abs': lambda: (k, A, small(g, m), tuple(abs(v) + 0.1 for v in small(g, m))), 'max': lambda: (k, A + tuple(tuple(-v for v in a) for a in A), small(g, 2 * m)), 'quad': lambda: (k, A, small(g, m)),
                'wavy': lambda: (k, A, small(g, m)), 'linear': lambda: (k, tuple(v or 1.0 for v in small(g, n))), 'noise': lambda: (k, g.r.randint(0, 10 ** 6)),
                'const': lambda: (k, 1.5, g.r.choice((0.0, 1.0, 1e-13))), 'flat': lambda: (k, small(g, n), g.r.choice((0.5, 0.1, 1e-3)))}[k]()
        kw = []
        for key, vals in (('maxiter', (0, 1, 2, 5, 20, 60, 200, 200)), ('tolx', (1e-12, 1e-6, 1e-3, 0.5)), ('tolg', (1e-12, 1e-3, 1.0, 3.0)), ('tolf', (1e-12, 1e-6, 1e-2)),
                          ('nsims', (30, 1, 2, 5, 10)), ('h0', (1, 0.1, 10, 1e-3)), ('nh', (3, 1, 2, 5)), ('q1', (0.9, 0.5, 1.0, 0.95)), ('q2', (1.1, 1.0, 2.0)), ('alpha', (2.3, 1.5, 4))):
            if key == 'maxiter' or g.r.random() < 0.4:
                kw.append((key, g.r.choice(vals)))
        yield ralgb, (spec, small(g, n), tuple(kw), False)
        if g.r.random() < 0.2:
            yield ralgb, (spec, tuple(int(v) for v in small(g, n)), tuple(kw), True)


@directed('P15')
def _(g):
    q = ('quad', ((1.0, 0.0), (0.0, 5.0)), (1.0, -2.0))
    for kw in ((), (('maxiter', 0),), (('maxiter', 3),), (('tolx', 0.3),), (('tolg', 1.0),), (('nsims', 1), ('tolf', 1.0))):
        yield ralgb, (q, (3.0, 4.0), kw, False)
        yield ralgb, (q, (3, 4), kw, True)
        yield ralgb, (('abs', ((1.0, 0.0), (0.0, 5.0)), (1.0, -2.0), (1.0, 1.0)), (3.0, 4.0), kw, False)
        yield ralgb, (('linear', (1.0, -2.0)), (0.0, 0.0), kw, False)
        yield ralgb, (('linear', (1e-7, -2e-8)), (0.0, 0.0), kw + (('q2', 1.0),), False)
        yield ralgb, (('noise', 5), (0.5, 0.0, 1.0), kw, False)
    yield ralgb, (q, (1.0, -2.0 / 5), (), False)


# ---------------------------------------------------------------- P16, P17
def system(g, n=None, m=None):
    n, m = n or g.r.choice((1, 2, 2, 3, 4)), m or g.r.choice((1, 2, 2, 3))

    def el(g):
        k = g.r.random()
        if k < 0.5:
            a, b = sorted((round(g.r.uniform(-5, 5), 1), round(g.r.uniform(-5, 5), 1)))
            return ('C', a, b)
        if k < 0.65:
            a, b = sorted((g.r.randint(-4, 4), g.r.randint(-4, 4)))
            return ('C', a, b)
        if k < 0.75:
            a = round(g.r.uniform(-5, 5), 1)
            return ('C', a, a)
        while True:
            s = rclass(g)
            if all(v == 0 or 1e-60 < abs(v) < 1e60 for v in s[1:]):
                return s
    return rarr(g, (n, m), el), rarr(g, (n,), el)


def rpointx(g, m):
    k = g.r.random()
    if k < 0.2:
        return tuple(float(g.r.randint(-3, 3)) for _ in range(m))
    return tuple(0.0 if g.r.random() < 0.12 else g.r.uniform(-4, 4) if g.r.random() < 0.8 else g.r.choice((1, -1)) * 10 ** g.r.uniform(-6, 6) for _ in range(m))


def rweight(g, n):
    k = g.r.random()
    if k < 0.35:
        return None
    if k < 0.45:
        return round(g.r.uniform(0.1, 5), 2)
    return tuple(round(g.r.uniform(0.05, 9), 2) for _ in range(n))


def exact_rows(fn, A, b, x, w):
    """(exact rows of the functional, exact scale of each row)"""
    n, m = A[1]
    X = [F(v) for v in x]
    W = [Fraction(1)] * n if w is None else [F(w)] * n if not isinstance(w, tuple) else [F(v) for v in w]
    rows, scale = [], []
    for i in range(n):
        bl, bh = ends(b[2][i])
        rad, mid = (bh - bl) / 2, (bh + bl) / 2
        lo = hi = rx = mx = s = Fraction(0)
        for j in range(m):
            al, ah = ends(A[2][i * m + j])
            p, q = sorted((al * X[j], ah * X[j]))
            lo, hi = lo + p, hi + q
            rx += (ah - al) / 2 * abs(X[j])
            mx += (ah + al) / 2 * X[j]
            s += max(abs(al), abs(ah)) * abs(X[j])
        dl, dh = mid - hi, mid - lo
        mag, mig = max(abs(dl), abs(dh)), (Fraction(0) if dl <= 0 <= dh else min(abs(dl), abs(dh)))
        v = {'Tol': rad - mag, 'Uni': rad - mig, 'Uss': rad + rx - abs(mid - mx)}[fn]
        inside = {'Tol': bl <= lo and hi <= bh, 'Uni': lo <= bh and bl <= hi, 'Uss': lo <= bh and bl <= hi}[fn]
        rows.append((W[i] * v, inside, v))
        scale.append(W[i] * (s + max(abs(bl), abs(bh))))
    return rows, scale


def tol_of(scale, m):
    return scale * EPS * (8 * m + 24) + Fraction(1, 10 ** 290)


def warg(w):
    return w if w is None or not isinstance(w, tuple) else np.array(w)


@contract('P16')
def functional(fn, A, b, x, w):
    AA, B = build(A), build(b)
    X = np.array(x, dtype=float)
    W = warg(w)
    before = (snap(AA), snap(B), snap(X), snap(W))
    v = ok(lambda: FN[fn].value(AA, B, X, weight=W) if w is not None else FN[fn].value(AA, B, X), fn + '.value')
    c = np.asarray(ok(lambda: FN[fn].constituent(AA, B, X, weight=W), fn + '.constituent'))
    need((snap(AA), snap(B), snap(X), snap(W)) == before, 'an argument was changed')
    rows, scale = exact_rows(fn, A, b, x, w)
    m = A[1][1]
    need(c.shape == (len(rows),), 'the constituents have the wrong shape', c.shape)
    for i, (r, s) in enumerate(zip(rows, scale)):
        need(abs(F(c[i]) - r[0]) <= tol_of(s, m), 'constituent %d is not weight*(rad b - ...)' % i, float(c[i]), rnd(r[0]))
        t = tol_of(s, m)
        if r[1]:
            need(F(c[i]) >= -t, 'row %d is satisfied but its constituent is negative' % i, float(c[i]))
        else:
            need(F(c[i]) <= t, 'row %d is violated but its constituent is positive' % i, float(c[i]))
    lo = min(r[0] - tol_of(s, m) for r, s in zip(rows, scale))
    hi = min(r[0] + tol_of(s, m) for r, s in zip(rows, scale))
    need(lo <= F(v) <= hi, 'the value is not the minimum over the rows', float(v), rnd(min(r[0] for r in rows)))
    need(float(v) == float(np.min(c)), 'the value is not the minimum of the constituents', float(v), float(np.min(c)))


def data(AA, B, n):
    from intvalpy import inf, sup, mid, rad
    return inf(AA), sup(AA), mid(AA), rad(AA), mid(B), rad(B)


@contract('P17')
def calcfg(fn, A, b, x, w, ys):
    AA, B = build(A), build(b)
    n, m = A[1]
    X = np.array(x, dtype=float)
    W = np.ones(n) if w is None else np.array(w, dtype=float) * np.ones(n)
    args = data(AA, B, n)
    before = [snap(a) for a in args] + [snap(X), snap(W)]
    f, gr = ok(lambda: FN[fn].calcfg(X, *args, W), fn + '.calcfg')
    need([snap(a) for a in args] + [snap(X), snap(W)] == before, 'calcfg changed an argument')
    wt = tuple(float(v) for v in W)
    rows, scale = exact_rows(fn, A, b, x, wt)
    lo = min(r[0] - tol_of(s, m) for r, s in zip(rows, scale))
    hi = min(r[0] + tol_of(s, m) for r, s in zip(rows, scale))
    need(lo <= F(-f) <= hi, 'the objective is not minus the functional', float(-f), rnd(min(r[0] for r in rows)))
    v = FN[fn].value(AA, B, X, weight=W)
    need(abs(F(v) + F(f)) <= 2 * max(tol_of(s, m) for s in scale), 'calcfg and value disagree', float(v), float(f))
    gr = np.asarray(gr, dtype=float)
    need(gr.shape == (m,), 'the gradient has the wrong shape', gr.shape)
    if fn == 'Uni':
        return
    G = [-F(t) for t in gr]
    for y in ys:
        if fn == 'Uss':
            y = tuple(abs(t) * (1 if s > 0 else -1 if s < 0 else 0) for t, s in zip(y, x))
        ry, sy = exact_rows(fn, A, b, y, wt)
        vy = min(r[0] for r in ry)
        bound = hi + sum(gg * (F(t) - F(s)) for gg, t, s in zip(G, y, x))
        err = max(tol_of(s, m) for s in sy) + 2 * max(tol_of(s, m) for s in scale) + sum(abs(gg) * abs(F(t) - F(s)) for gg, t, s in zip(G, y, x)) * EPS * 16
        need(vy <= bound + err, '%s at y exceeds value + gradient*(y-x)' % fn, y, rnd(vy), rnd(bound))


@contract('P17')
def maximize(fn, A, b, x0, w, kw):
    AA, B = build(A), build(b)
    n, m = A[1]
    W = warg(w)
    X0 = None if x0 is None else np.array(x0, dtype=float)
    before = (snap(AA), snap(B), snap(X0), snap(W))
    out = ok(lambda: FN[fn].maximize(AA, B, x0=X0, weight=W, **dict(kw)), fn + '.maximize')
    need((snap(AA), snap(B), snap(X0), snap(W)) == before, 'maximize changed an argument')
    need(isinstance(out, tuple) and len(out) == 5, 'maximize does not return five values')
    xr, fr = np.asarray(out[0], dtype=float), float(out[1])
    need(xr.shape == (m,) and np.all(np.isfinite(xr)), 'maximize returned no point', xr)
    wt = None if w is None else w
    rows, scale = exact_rows(fn, A, b, tuple(xr), wt)
    t = max(tol_of(s, m) for s in scale)
    v = min(r[0] for r in rows)
    need(abs(F(fr) - v) <= t, 'the reported value is not the functional at the reported point', fr, rnd(v))
    if x0 is not None:
        r0, s0 = exact_rows(fn, A, b, x0, wt)
        need(v + t + max(tol_of(s, m) for s in s0) >= min(r[0] for r in r0), 'the functional at the returned point is below that at the starting point', rnd(v), rnd(min(r[0] for r in r0)))


@generator('P16', 1)
def _(g):
    while True:
        A, b = system(g)
        n, m = A[1]
        x = rpointx(g, m)
        if g.r.random() < 0.25:          # rows that touch
            el = list(b[2])
            i = g.r.randrange(n)
            lo = sum(min(F(A[2][i * m + j][1]) * F(x[j]), F(A[2][i * m + j][2]) * F(x[j])) for j in range(m))
            hi = sum(max(F(A[2][i * m + j][1]) * F(x[j]), F(A[2][i * m + j][2]) * F(x[j])) for j in range(m))
            lo, hi = float(lo), float(hi)
            el[i] = g.r.choice((('C', lo, hi), ('C', hi, hi + 1), ('C', lo - 1, lo), ('C', lo - 1, hi + 1), ('C', ulps(hi, 4), hi + 1)))
            b = ('A', b[1], tuple(el))
        for fn in FN:
            yield functional, (fn, A, b, x, rweight(g, n))


@generator('P17', 4)
def _(g):
    while True:
        A, b = system(g)
        n, m = A[1]
        x = rpointx(g, m)
        ys = tuple(rpointx(g, m) for _ in range(3)) + (tuple(t + g.r.uniform(-1, 1) * 1e-3 for t in x), tuple(-t for t in x))
        for fn in FN:
            yield calcfg, (fn, A, b, x, rweight(g, n), ys)


@generator('P17', 1)
def _(g):
    while True:
        A, b = system(g)
        n, m = A[1]
        if max(abs(v) for s in A[2] + b[2] for v in s[1:]) > 1e6:
            continue
        for fn in FN:
            yield maximize, (fn, A, b, None if g.r.random() < 0.2 else tuple(g.r.uniform(-3, 3) for _ in range(m)), rweight(g, n), (('maxiter', g.r.choice((0, 1, 5, 40))),))


# ---------------------------------------------------------------- P18
def rows_wanted(Cm, lb, ub):
    out = []
    for k, row in enumerate(Cm):
        if not any(row):
            continue
        if lb is not None and abs(lb[k]) != INF:
            out.append((tuple(-F(v) for v in row), -F(lb[k])))
        if ub is not None and abs(ub[k]) != INF:
            out.append((tuple(F(v) for v in row), F(ub[k])))
    return out


def constraint(Cm, lb, ub, mu=None):
    kw = {}
    if lb is not None:
        kw['lb'] = np.array(lb, dtype=float)
    if ub is not None:
        kw['ub'] = np.array(ub, dtype=float)
    if mu is not None:
        kw['mu'] = mu
    return LinearConstraint(np.array(Cm, dtype=float), **kw)


@contract('P18')
def normalised(Cm, lb, ub):
    lc = ok(lambda: constraint(Cm, lb, ub), 'LinearConstraint')
    want = rows_wanted(Cm, lb, ub)
    got = [(tuple(F(v) for v in row), t) for row, t in zip(np.asarray(lc.C, dtype=float), np.asarray(lc.b, dtype=float)) if not (math.isinf(t) and t > 0)]
    need(all(math.isfinite(t) for _, t in got), 'a normalised bound is not finite', [t for _, t in got])
    got = [(r, F(t)) for r, t in got]
    need(sorted(got) == sorted(want), 'the normalised rows are not the finite inequalities', [(tuple(map(float, r)), float(t)) for r, t in got])
    if want:
        need(len(lc.C) == len(want) == len(lc.b), 'the constraint has rows that are no inequality', len(lc.C), len(want))


@contract('P18')
def penalty(Cm, lb, ub, mu, x, ys):
    lc = ok(lambda: constraint(Cm, lb, ub, mu), 'LinearConstraint')
    X = np.array(x, dtype=float)
    keep = (snap(np.asarray(lc.C)), snap(np.asarray(lc.b)), lc.mu, snap(X))
    p, dp = ok(lambda: abstract.BaseRecFun.linear_penalty(X, lc), 'linear_penalty')
    need((snap(np.asarray(lc.C)), snap(np.asarray(lc.b)), lc.mu, snap(X)) == keep, 'linear_penalty changed the constraint or the point')
    want = rows_wanted(Cm, lb, ub)
    M = F(mu)

    def value(z):
        return M * sum(max(Fraction(0), sum(c * F(t) for c, t in zip(r, z)) - q) for r, q in want)

    def scale(z):
        return M * sum(sum(abs(c * F(t)) for c, t in zip(r, z)) + abs(q) for r, q in want) * EPS * (len(x) + 8)
    v, s = value(x), scale(x)
    need(p == p and abs(F(p) - v) <= s, 'the penalty is not mu times the sum of the violations', float(p), rnd(v))
    slack = [sum(c * F(t) for c, t in zip(r, x)) - q for r, q in want]
    one = [sum(abs(c * F(t)) for c, t in zip(r, x)) * EPS * (len(x) + 4) + abs(q) * EPS for r, q in want]
    dp = np.asarray(dp, dtype=float)
    need(dp.shape == X.shape, 'the penalty gradient has the wrong shape', dp.shape)
    if all(t < -e or (t <= 0 and e == 0) for t, e in zip(slack, one)):
        need(p == 0 and not np.any(dp), 'penalty or gradient is not zero where nothing is violated', float(p), dp)
    if any(t > e for t, e in zip(slack, one)):
        need(p > 0, 'the penalty is not positive where an inequality is violated', float(p))
    if all(abs(t) > e for t, e in zip(slack, one)):
        gr = [M * sum(r[j] for (r, q), t in zip(want, slack) if t > 0) for j in range(len(x))]
        for j, q in enumerate(gr):
            need(abs(F(dp[j]) - q) <= EPS * 16 * M * sum(abs(r[j]) for r, _ in want), 'the penalty gradient does not match', dp.tolist(), [float(t) for t in gr])
    for y in ys:
        bound = F(p) + sum(F(d) * (F(t) - F(u)) for d, t, u in zip(dp, y, x))
        err = s + scale(y) + sum(abs(F(d) * (F(t) - F(u))) for d, t, u in zip(dp, y, x)) * EPS * 16
        need(value(y) >= bound - err, 'the penalty is not above its tangent at y', y, rnd(value(y)), rnd(bound))


@contract('P18')
def constrained(fn, A, b, x, w, Cm, lb, ub, mu):
    AA, B = build(A), build(b)
    n, m = A[1]
    X = np.array(x, dtype=float)
    W = np.ones(n) if w is None else np.array(w, dtype=float) * np.ones(n)
    args = data(AA, B, n)
    lc = constraint(Cm, lb, ub, mu)
    f0, g0 = FN[fn].calcfg(X, *args, W)
    f1, g1 = ok(lambda: FN[fn].calcfg_constr(X, *args, W, lc), fn + '.calcfg_constr')
    p, dp = abstract.BaseRecFun.linear_penalty(X, lc)
    t = EPS * 4
    need(abs(F(f1) - F(f0) - F(p)) <= t * (abs(F(f0)) + abs(F(p))), 'the constrained objective is not objective + penalty', float(f1), float(f0), float(p))
    for a, c, d in zip(np.asarray(g1, float), np.asarray(g0, float), np.asarray(dp, float)):
        need(abs(F(a) - F(c) - F(d)) <= t * (abs(F(c)) + abs(F(d))), 'the constrained gradient is not gradient + penalty gradient', a, c, d)


@contract('P18')
def constrained_maximize(fn, A, b, x0, Cm, lb, ub, mu, twice):
    """x0 satisfies the constraint: the reported value is functional - penalty at the point and at least the functional at x0"""
    AA, B = build(A), build(b)
    n, m = A[1]
    lc = constraint(Cm, lb, ub, mu)
    keep = (snap(np.asarray(lc.C)), snap(np.asarray(lc.b)), lc.mu)
    kw = dict(maxiter=15)
    first = ok(lambda: FN[fn].maximize(AA, B, x0=np.array(x0, dtype=float), linear_constraint=lc, **kw), fn + '.maximize')
    need((snap(np.asarray(lc.C)), snap(np.asarray(lc.b)), lc.mu) == keep, 'maximize changed the constraint object', lc.mu, keep[2])
    xr, fr = np.asarray(first[0], float), float(first[1])
    need(fr == fr, 'the constrained maximum is NaN')
    want = rows_wanted(Cm, lb, ub)
    r0, s0 = exact_rows(fn, A, b, x0, None)
    v0 = min(r[0] for r in r0)
    e0 = max(tol_of(s, m) for s in s0)
    viol0 = sum(max(Fraction(0), sum(c * F(t) for c, t in zip(r, x0)) - q) for r, q in want)
    rows, scale = exact_rows(fn, A, b, tuple(xr), None)
    v, e = min(r[0] for r in rows), max(tol_of(s, m) for s in scale)
    viol = sum(max(Fraction(0), sum(c * F(t) for c, t in zip(r, xr)) - q) for r, q in want)
    if viol0 == 0:
        need(F(fr) >= v0 - e0, 'the constrained maximum is below the functional at the feasible starting point', fr, rnd(v0))
    if mu is not None:
        err = e + F(mu) * sum(sum(abs(c * F(t)) for c, t in zip(r, xr)) + abs(q) for r, q in want) * EPS * (m + 8)
        need(abs(F(fr) - (v - F(mu) * viol)) <= err, 'the constrained value is not functional - mu*violation', fr, rnd(v - F(mu) * viol))
    else:
        need(F(fr) <= v + e, 'the constrained value exceeds the functional at its point', fr, rnd(v))
    if twice:          # the constraint object is reused for another system
        A2 = ('A', A[1], tuple(('C', s[1] * 64, s[2] * 64) for s in A[2]))
        b2 = ('A', b[1], tuple(('C', s[1] * 64, s[2] * 64) for s in b[2]))
        out1 = FN[fn].maximize(build(A2), build(b2), x0=np.array(x0, dtype=float), linear_constraint=lc, **kw)
        out2 = FN[fn].maximize(build(A2), build(b2), x0=np.array(x0, dtype=float), linear_constraint=constraint(Cm, lb, ub, mu), **kw)
        need(np.array_equal(out1[0], out2[0]) and out1[1] == out2[1], 'the result depends on what the constraint was used for before', out1[:2], out2[:2])


def rconstraint(g, m):
    n = g.r.randint(1, 3)
    Cm = tuple(tuple(float(g.r.randint(-3, 3)) if g.r.random() < 0.6 else round(g.r.uniform(-3, 3), 2) for _ in range(m)) for _ in range(n))
    Cm = tuple(r if any(r) else (1.0,) + (0.0,) * (m - 1) for r in Cm)
    if g.r.random() < 0.25:
        Cm = tuple(tuple(float(i == j) for j in range(m)) for i in range(m))
        n = m
    lb = tuple(-INF if g.r.random() < 0.25 else round(g.r.uniform(-4, 1), 1) for _ in range(n))
    ub = tuple(INF if g.r.random() < 0.25 else round(t + g.r.uniform(0, 5), 1) if t != -INF else round(g.r.uniform(-2, 4), 1) for t in lb)
    k = g.r.random()
    return Cm, (None if k < 0.25 else lb), (None if 0.15 < k < 0.45 else ub)


@generator('P18', 3)
def _(g):
    while True:
        m = g.r.choice((1, 2, 2, 3))
        Cm, lb, ub = rconstraint(g, m)
        yield normalised, (Cm, lb, ub)
        ys = tuple(rpointx(g, m) for _ in range(3))
        mu = g.r.choice((1.0, 2.5, 100.0, 1e-3))
        x = rpointx(g, m)
        if g.r.random() < 0.3:
            x = tuple(float(round(t)) for t in x)
        yield penalty, (Cm, lb, ub, mu, x, ys)


@generator('P18', 1)
def _(g):
    while True:
        A, b = system(g, m=g.r.choice((1, 2, 3)))
        n, m = A[1]
        Cm, lb, ub = rconstraint(g, m)
        for fn in FN:
            yield constrained, (fn, A, b, rpointx(g, m), rweight(g, n), Cm, lb, ub, g.r.choice((1.0, 30.0)))
        if max(abs(v) for s in A[2] + b[2] for v in s[1:]) > 1e3:
            continue
        x0 = tuple(round(g.r.uniform(-2, 2), 1) for _ in range(m))
        want = rows_wanted(Cm, lb, ub)
        yield constrained_maximize, (g.r.choice(list(FN)), A, b, x0, Cm, lb, ub, g.r.choice((None, None, 5.0)), g.r.random() < 0.4)
