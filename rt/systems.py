"""Contracts of the optimal outer estimates PSS and PPS (P28)."""
import math, random
from fractions import Fraction
import numpy as np
import cvxopt.solvers
import intvalpy as ip
from intvalpy import Interval, ArrayInterval
from .core import *
from .kernel import C, K, num
from .arrays import build, snap
from .linear import ends_of, solve, members, solutions, system, overdetermined, entry, inside_up_to, solvable_row, pretty

# GLPK itself can cycle for ever on some linear programs; such a run is stopped and decides nothing
_lp = cvxopt.solvers.lp
stuck = [0]


def _limited(*a, **kw):
    r = _lp(*a, options={'show_progress': False, 'glpk': {'msg_lev': 'GLP_MSG_OFF', 'tm_lim': 1500}}, **{k: v for k, v in kw.items() if k != 'options'})
    if r['status'] not in ('optimal', 'primal infeasible', 'dual infeasible'):
        stuck[0] += 1
        if stuck[0] > 2:
            raise KeyboardInterrupt
    return r


cvxopt.solvers.lp = _limited


def known_points(A, b, seed, box=None):
    """solutions of member systems (of all rows), exact"""
    r = random.Random(seed)
    n, m = len(A), len(A[0])
    pts = []
    for _ in range(50):
        pick = sorted(r.sample(range(n), m))
        for M, v in members([A[i] for i in pick], [b[i] for i in pick], r, 0):
            s = solve(M, v)
            if s:
                pts.append(s)
    pts = [p for p in pts if all(solvable_row(A[i], b[i], p) for i in range(n))]
    if box:
        pts = [p for p in pts if all(l <= t <= h for t, (l, h) in zip(p, box))]
    return pts


def run(what, A, b, x0, kw, pts, square):
    X, y = build(A), build(b)
    Z = None if x0 is None else build(x0)
    before = (snap(X), snap(y), snap(Z) if Z is not None else None)
    o = dict(kw)
    if Z is not None:
        o['x0'] = Z
    stuck[0] = 0
    try:
        st, z = call(lambda: getattr(ip.linear, what)(X, y, **o))
    except KeyboardInterrupt:
        return
    if stuck[0]:
        return
    need((snap(X), snap(y), snap(Z) if Z is not None else None) == before, what + ' changed its arguments')
    if st == 'raise':
        need(not isinstance(z, (TypeError, AttributeError, IndexError, NameError, UnboundLocalError, ZeroDivisionError, KeyError)), '%s raised %s: %s' % (what, type(z).__name__, z))
        return
    need(isinstance(z, ArrayInterval), what + ' does not return an interval vector', type(z).__name__)
    el = list(z.data)
    nu = o.get('nu')
    m = A[1][1]
    need(len(el) == (m if nu is None else 1), what + ' does not estimate the components asked for', len(el))
    for p in pts:
        q = p if nu is None else [p[nu]]
        s = max([1e-300] + [abs(float(t)) for t in p])
        for e, t in zip(el, q):
            tol = F(1e-8 * max(1, s))
            need(geq(e.b, t - tol) and leq(e.a, t + tol), what + ' lost a solution', pretty(p), [(num(v.a), num(v.b)) for v in el])


@contract('P28')
def pss(A, b, x0, kw, seed):
    """every solution of a member system (inside the starting box, if one is given) is in the estimate"""
    box = None if x0 is None else ends_of(x0)
    run('PSS', A, b, x0, kw, known_points(ends_of(A), ends_of(b), seed, box), False)


@contract('P28')
def pps(A, b, kw, seed):
    E, e = ends_of(A), ends_of(b)
    run('PPS', A, b, None, kw, [x for M, v, x in solutions(E, e, seed)], True)


def ropts(g, m):
    kw = []
    kw.append(('maxiter', g.r.choice((0, 1, 2, 5, 20, 20, 60))))
    if g.r.random() < 0.25:
        kw.append(('tol', g.r.choice((1e-6, 0.1, 0.5))))
    if g.r.random() < 0.25:
        kw.append(('nu', g.r.randrange(m)))
    return tuple(kw)


def general(g):
    """a system with a known solution and a starting box around it"""
    m = g.r.choice((2, 2, 3))
    n = m + g.r.choice((0, 0, 1, 2))
    x = [round(g.r.uniform(-3, 3), 1) if g.r.random() < 0.85 else 0.0 for _ in range(m)]
    A, b = [], []
    for i in range(n):
        row = []
        for j in range(m):
            c = g.r.uniform(-2, 2) + (2 if i % m == j else 0)
            if g.r.random() < 0.1:
                c = 0.0
            row.append(entry(g, round(c, 2), g.r.choice((0, 0.1, 0.5, 1, 2.5))))
        A += row
        hi = sum(max(F(l) * F(t), F(h) * F(t)) for (_, l, h), t in zip(row, x))
        lo = sum(min(F(l) * F(t), F(h) * F(t)) for (_, l, h), t in zip(row, x))
        p = float(lo + (hi - lo) * F(g.r.random()))
        w = g.r.choice((0, 0.1, 1))
        b.append(('C', round(p - w * g.r.random(), 3), round(p + w * g.r.random(), 3)) if w else ('C', p, p))
    c = (0.5, 1, 5, 20)
    x0 = ('A', (m,), tuple(('C', round(v - g.r.choice(c) * g.r.random(), 2), round(v + g.r.choice(c) * g.r.random(), 2)) for v in x))
    return ('A', (n, m), tuple(A)), ('A', (n,), tuple(b)), x0


@generator('P28', 2)
def _(g):
    while True:
        k = g.r.random()
        if k < 0.6:
            A, b, x0 = general(g)
        elif k < 0.7:
            m = g.r.choice((2, 3))
            A, b = overdetermined(g, m + 1, m)
            x0 = None
        else:
            A, b = system(g, g.r.choice((2, 2, 3)), dom=g.r.choice((0.5, 1, 2, 4)))
            x0 = None
        yield pss, (A, b, x0, ropts(g, A[1][1]), g.r.randrange(10 ** 6))


@generator('P28', 1)
def _(g):
    while True:
        A, b = system(g, g.r.choice((2, 2, 3)), dom=g.r.choice((0.5, 1, 2, 4)))
        yield pps, (A, b, ropts(g, A[1][1]), g.r.randrange(10 ** 6))


@directed('P28')
def _(g):
    I = lambda *e: tuple(('C', float(l), float(h)) for l, h in e)
    A = ('A', (2, 2), I((2, 4), (-2, 1), (-1, 2), (2, 4)))
    b = ('A', (2,), I((-2, 2), (-2, 2)))
    B = ('A', (2,), I((1, 2), (-5, 7)))
    P = ('A', (2, 2), I((2, 2), (1, 1), (-1, -1), (3, 3)))
    Z = ('A', (2, 2), I((2, 3), (0, 0), (0, 0), (3, 4)))
    for it in (0, 1, 3, 50, 2000):
        for nu in ((), (('nu', 0),), (('nu', 1),)):
            for M, v in ((A, b), (A, B), (P, B), (Z, B), (Z, b)):
                yield pps, (M, v, (('maxiter', it),) + nu, 1)
                yield pss, (M, v, None, (('maxiter', min(it, 100)),) + nu, 1)
                for x0 in (I((-10, 10), (-10, 10)), I((0, 3), (-3, 8)), I((-7, 0), (-9, 1))):
                    yield pss, (M, v, ('A', (2,), x0), (('maxiter', min(it, 100)),) + nu, 1)
