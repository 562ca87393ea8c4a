"""Contracts of interval arrays (P13), matrix products (P14) and generators (P27)."""
import copy as copymod, itertools, math, operator
from fractions import Fraction
import numpy as np
import intvalpy as ip
from intvalpy import Interval, ArrayInterval, asinterval
from .core import *
from .kernel import C, K, mk, ends, rclass, rgen, rkau, rnum, MODES, num, NORMAL, BIG

IV = (C, K)


def build(spec):
    """('A', shape, elements) an interval array, ('N', dtype, shape, values) a numeric one, ('L', nested) a list"""
    if spec[0] == 'A':
        _, shape, el = spec
        d = np.empty(len(el), dtype=object)
        for i, e in enumerate(el):
            d[i] = mk(e)
        return ArrayInterval(d.reshape(shape))
    if spec[0] == 'N':
        return np.array(spec[3], dtype=spec[1]).reshape(spec[2])
    if spec[0] == 'L':
        return list(spec[1])
    return mk(spec)


def elements(spec):
    """the same operand as an array of scalar operands"""
    if spec[0] == 'A':
        d = np.empty(len(spec[2]), dtype=object)
        for i, e in enumerate(spec[2]):
            d[i] = mk(e)
        return d.reshape(spec[1])
    if spec[0] in 'NL':
        v = np.array(spec[3], dtype=spec[1]).reshape(spec[2]) if spec[0] == 'N' else np.array(spec[1])
        d = np.empty(v.size, dtype=object)
        for i, e in enumerate(v.ravel()):
            d[i] = e
        return d.reshape(v.shape)
    d = np.empty((), dtype=object)
    d[()] = mk(spec)
    return d


def snap(x):
    if isinstance(x, ArrayInterval):
        return ('A', x.shape, x.data.shape, [(id(e), type(e), repr(num(e.a)), repr(num(e.b))) for e in x.data.ravel()])
    if isinstance(x, np.ndarray):
        return ('N', x.shape, x.dtype, x.tobytes())
    if isinstance(x, IV):
        return (type(x), repr(num(x.a)), repr(num(x.b)))
    return repr(x)


def eq_iv(p, q, what, cls=True):
    need(isinstance(p, IV), what + ' is not an interval', type(p).__name__, p)
    need(same(p.a, q.a) and same(p.b, q.b), what + ' differs from the scalar operation', (num(p.a), num(p.b)), (num(q.a), num(q.b)))
    if cls:
        need(type(p) is type(q), what + ' has another class than the scalar operation', type(p).__name__, type(q).__name__)


def eq_arr(z, want, what):
    """z is an interval array with the elements of the object array want"""
    need(isinstance(z, ArrayInterval), what + ' is not an interval array', type(z).__name__)
    need(z.shape == want.shape and z.data.shape == want.shape and z.ndim == want.ndim, what + ' has the wrong shape', z.shape, want.shape)
    need([tuple(r) if False else (r.start, r.stop) for r in z.ranges] == [(0, n) for n in want.shape], what + ' has wrong index ranges', z.ranges)
    for i in np.ndindex(*want.shape):
        eq_iv(z.data[i], want[i], '%s, element %r' % (what, i))


def eq_num(z, want, what):
    z = np.asarray(z)
    need(z.shape == want.shape, what + ' has the wrong shape', z.shape, want.shape)
    for i in np.ndindex(*want.shape):
        need(same(z[i], want[i]), '%s, element %r differs from the scalar property' % (what, i), num(z[i]), num(want[i]))


def lift(f, *arrs):
    bs = np.broadcast_arrays(*arrs)
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(*bs[0].shape):
        out[i] = f(*[b[i] for b in bs])
    return out


def raised(f):
    try:
        return None, f()
    except Exception as e:
        return e, None


NUMPROP = {'a': 'a', 'b': 'b', 'inf': 'inf', 'sup': 'sup', 'rad': 'rad', 'mid': 'mid', 'wid': 'wid', 'mig': 'mig', 'mag': 'mag'}
IVPROP = ['dual', 'pro', 'opp', 'inv']
MAPS = {'neg': (operator.neg, operator.neg), 'abs': (abs, abs), 'copy': (lambda x: x.copy(), lambda e: e), 'deepcopy': (copymod.deepcopy, lambda e: e)}
FUN = ['sqrt', 'exp', 'log', 'sin', 'cos']


@contract('P13')
def unary(name, x, m=0):
    X, E = build(x), elements(x)
    before = snap(X)
    if name in NUMPROP:
        want = lift(lambda e: getattr(e, name), E)
        eq_num(ok(lambda: getattr(X, name), name, m), want, 'x.' + name)
        if hasattr(ip, name):
            eq_num(ok(lambda: getattr(ip, name)(X), name, m), want, name + '(x)')
    elif name in IVPROP:
        if name == 'inv' and any(min(e.a, e.b) <= 0 <= max(e.a, e.b) for e in E.ravel()):
            return
        want = lift(lambda e: getattr(e, name), E)
        eq_arr(ok(lambda: getattr(X, name), name, m), want, 'x.' + name)
    elif name in MAPS:
        f, s = MAPS[name]
        eq_arr(ok(lambda: f(X), name, m), lift(s, E), name)
    elif name in FUN:
        e, want = raised(lambda: lift(lambda t: getattr(np, name)(t), E))
        if e is not None:
            raises(lambda: getattr(np, name)(X), type(e), 'np.%s of the array' % name, m)
        else:
            for g in (getattr(np, name), getattr(ip, name)):
                eq_arr(ok(lambda: g(X), name, m), want, name + '(x)')
    elif name == 'T':
        eq_arr(ok(lambda: X.T, 'T', m), E.T, 'x.T')
    elif name == 'iter':
        l = ok(lambda: list(X), 'iteration', m)
        need(len(l) == len(E) == len(X), 'iteration gives the wrong number of items', len(l), len(X))
        r = ok(lambda: list(reversed(X)), 'reversed', m)
        for seq, ee in ((l, E), (r, E[::-1])):
            for p, q in zip(seq, ee):
                if E.ndim == 1:
                    eq_iv(p, q, 'item')
                else:
                    eq_arr(asinterval(p), q, 'item')
    elif name == 'sign':
        pass
    need(snap(X) == before, 'the operand of %s was changed' % name)


AOPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}
CMPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


@contract('P13')
def elementwise(op, x, y, m=0):
    X, Y = build(x), build(y)
    bx, by = snap(X), snap(Y)
    try:
        np.broadcast_shapes(elements(x).shape, elements(y).shape)
    except ValueError:
        raises(lambda: AOPS[op](X, Y), Exception, 'x %s y with incompatible shapes' % op, m)
        return
    e, want = raised(lambda: lift(AOPS[op], elements(x), elements(y)))
    if e is not None:
        raises(lambda: AOPS[op](X, Y), type(e), 'x %s y' % op, m)
    else:
        eq_arr(ok(lambda: AOPS[op](X, Y), op, m), want, 'x %s y' % op)
    need(snap(X) == bx and snap(Y) == by, 'an operand of x %s y was changed' % op)


@contract('P13')
def in_place(op, x, y, m=0):
    X, Y = build(x), build(y)
    by = snap(Y)
    other = X
    ex, ey = elements(x), elements(y)
    e, want = raised(lambda: lift(AOPS[op], ex, ey))
    if e is not None or want.shape != ex.shape:
        return
    f = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv}[op]
    Z = ok(lambda: f(X, Y), op + '=', m)
    eq_arr(Z, want, 'x %s= y' % op)
    eq_arr(X, want, 'the target of %s=' % op)
    need(snap(Y) == by, 'the right operand of x %s= y was changed' % op)


@contract('P13')
def array_power(x, p, m=0):
    X, E = build(x), elements(x)
    P = build(p)
    bx, bp = snap(X), snap(P)
    e, want = raised(lambda: lift(lambda s, t: s ** t, E, elements(p)))
    if e is not None:
        raises(lambda: X ** P, type(e), 'x ** p', m)
    else:
        eq_arr(ok(lambda: X ** P, '**', m), want, 'x ** p')
    need(snap(X) == bx and snap(P) == bp, 'an operand of x ** p was changed')


@contract('P13')
def comparison(op, x, y):
    X, Y = build(x), build(y)
    bx, by = snap(X), snap(Y)
    want = lift(CMPS[op], elements(x), elements(y))
    z = np.asarray(ok(lambda: CMPS[op](X, Y), op))
    need(z.shape == want.shape, 'x %s y has the wrong shape' % op, z.shape, want.shape)
    for i in np.ndindex(*want.shape):
        need(bool(z[i]) == bool(want[i]), 'x %s y differs from the scalar comparison at %r' % (op, i), bool(z[i]))
    need(snap(X) == bx and snap(Y) == by, 'an operand of x %s y was changed' % op)


@contract('P13')
def membership(x, y):
    """a number or an interval is in the array when it is in some element"""
    X = build(x)
    want = any(mk(y) in e for e in elements(x).ravel())
    need(bool(ok(lambda: mk(y) in X, 'in')) == want, 'membership in an array is not membership in some element', want)


def key_of(k):
    """index specifications: ints, ('s', start, stop, step), ('m', mask values), ('l', list), 'e' Ellipsis, 'n' newaxis"""
    if isinstance(k, tuple) and k and k[0] == 's':
        return slice(*k[1:])
    if isinstance(k, tuple) and k and k[0] == 'm':
        return np.array(k[1], dtype=bool)
    if isinstance(k, tuple) and k and k[0] == 'l':
        return list(k[1])
    if k == 'e':
        return Ellipsis
    if k == 'n':
        return None
    if isinstance(k, tuple):
        return tuple(key_of(t) for t in k)
    return k


def compare_item(got, ref, what):
    if isinstance(ref, IV):
        need(isinstance(got, IV), what + ' is not an interval', type(got).__name__)
        eq_iv(got, ref, what)
    else:
        eq_arr(got, ref, what)


@contract('P13')
def indexing(x, key):
    X, E = build(x), elements(x)
    k = key_of(key)
    before = snap(X)
    e, ref = raised(lambda: E[k])
    if e is not None:
        raises(lambda: X[k], type(e), 'x[key]')
        return
    compare_item(ok(lambda: X[k], 'x[key]'), ref, 'x[key]')
    need(snap(X) == before, 'indexing changed the array')


def value_of(value):
    """(value to assign, object array of the intervals it stands for)"""
    V = build(value)
    E = elements(value)
    if value[0] not in 'ACK':
        E = lift(lambda t: C(t, t), E)
    return V, E


@contract('P13')
def assignment(x, key, value):
    X, E = build(x), elements(x).copy()
    Y, Z, W = X.copy(), X.T, copymod.deepcopy(X)
    sy, sz, sw = snap(Y)[3], snap(Z)[3], snap(W)[3]
    k = key_of(key)
    V, VE = value_of(value)
    sv = snap(V)
    e, _ = raised(lambda: E.__setitem__(k, VE[()] if VE.ndim == 0 else VE))
    if e is not None:
        raises(lambda: X.__setitem__(k, V), Exception, 'x[key] = value')
        return
    ok(lambda: X.__setitem__(k, V), 'x[key] = value')
    eq_arr(X, E, 'x after x[key] = value')
    need(snap(Y)[3] == sy, 'a copy changed with an assignment to the original')
    need(snap(W)[3] == sw, 'a deep copy changed with an assignment to the original')
    need(snap(Z)[3] == sz, 'a transpose taken earlier changed with an assignment to the original')
    need(snap(V) == sv, 'the assigned value was changed')
    # and the other way round
    X2, E2 = build(x), elements(x)
    for d in (X2.copy(), X2.T, copymod.deepcopy(X2)):
        d[(0,) * d.ndim] = Interval(-77.5, 1234.5)
        eq_arr(X2, E2, 'x after an assignment to its copy or transpose')


@contract('P13')
def deletion(x, axis, i):
    X, E = build(x), elements(x)
    key = i if axis == 0 else (slice(None),) * axis + (i,)
    Y = X.copy()
    ok(lambda: X.__delitem__(key), 'del x[key]')
    want = np.delete(E, i, axis=axis)
    eq_arr(X, want, 'x after del')
    need(len(X) == len(want), 'wrong length after del')
    eq_arr(Y, E, 'a copy after del of the original')


@contract('P13')
def reshaping(x, shape):
    X, E = build(x), elements(x)
    before = snap(X)
    e, want = raised(lambda: E.reshape(shape))
    if e is not None:
        raises(lambda: X.reshape(shape), type(e), 'reshape')
    else:
        r = ok(lambda: X.reshape(shape), 'reshape')
        eq_arr(r, want, 'x.reshape')
    need(snap(X) == before, 'reshape changed the array')


# ---------------------------------------------------------------- generators
def rshape(g, maxdim=3, maxn=4):
    return tuple(g.r.choice((1, 2, 2, 3, maxn)) for _ in range(g.r.choice((1, 1, 2, 2, 3)[:2 + maxdim - 1] if maxdim < 3 else (1, 1, 2, 2, 3))))


def rarr(g, shape, f=rgen):
    n = int(np.prod(shape))
    return ('A', tuple(shape), tuple(f(g) for _ in range(n)))


def mixed(g):
    """an element kind used for a whole array: often the first element has int endpoints"""
    k = g.r.random()
    return rclass if k < 0.45 else rgen if k < 0.8 else rkau


def rnumarr(g, shape, nonzero=False):
    n = int(np.prod(shape))
    if g.r.random() < 0.4:
        return ('N', 'int64', tuple(shape), [g.integer() or (1 if nonzero else 0) for _ in range(n)])
    return ('N', 'float64', tuple(shape), [(lambda v: v if abs(v) < 1e300 else 2.0)(g.double()) for _ in range(n)])


def bshape(g, shape):
    """a shape broadcasting with the given one"""
    s = [1 if g.r.random() < 0.25 else n for n in shape]
    k = g.r.random()
    if k < 0.25 and len(s) > 1:
        s = s[1:]
    elif k < 0.35:
        s = [g.r.choice((1, 2))] + s
    return tuple(s)


def nozero(g, f):
    for _ in range(60):
        s = f(g)
        if min(s[1], s[2]) > 0 or max(s[1], s[2]) < 0:
            return s
    return ('C', 1.0, 2.0)


def okdbl(s):
    return all(abs(v) <= DBL_MAX for v in s[1:])


@generator('P13', 4)
def _(g):
    while True:
        shape = rshape(g)
        x = rarr(g, shape, mixed(g))
        op = g.r.choice('+-*/')
        f = mixed(g)
        if op == '/' and g.r.random() < 0.85:
            f0 = f
            f = lambda g: nozero(g, f0)
        k = g.r.random()
        y = rarr(g, bshape(g, shape), f) if k < 0.4 else f(g) if k < 0.55 else rnum(g) if k < 0.75 else rnumarr(g, bshape(g, shape), True)
        if g.r.random() < 0.04:
            y = rarr(g, tuple(n + 1 for n in shape), f)
        if g.r.random() < 0.4:
            if op == '/':
                x = rarr(g, shape, f)
            x, y = y, x
        yield elementwise, (op, x, y, g.r.choice(MODES))


@generator('P13', 1)
def _(g):
    while True:
        shape = rshape(g)
        op = g.r.choice('+-*/')
        f = mixed(g)
        h = (lambda g: nozero(g, f)) if op == '/' else f
        k = g.r.random()
        y = rarr(g, tuple(1 if g.r.random() < 0.2 else n for n in shape), h) if k < 0.5 else h(g) if k < 0.65 else rnum(g) if k < 0.8 else rnumarr(g, shape, True)
        yield in_place, (op, rarr(g, shape, mixed(g)), y, g.r.choice(MODES))


@generator('P13', 3)
def _(g):
    names = list(NUMPROP) + IVPROP + list(MAPS) + FUN + ['T', 'iter']
    while True:
        name = g.r.choice(names)
        f = mixed(g)
        if name == 'inv':
            f0 = f
            f = lambda g: nozero(g, f0)
        if name in FUN:
            f = lambda g: (lambda s: ('C', max(s[1], -600), min(max(s[2], -600), 600)) if s[1] <= 600 else ('C', 1.0, 2.0))(rclass(g))
        yield unary, (name, rarr(g, rshape(g), f), 0 if name in FUN or name in ('rad', 'mid', 'wid') else g.r.choice(MODES))


@generator('P13', 1)
def _(g):
    while True:
        sh = rshape(g, 2)
        x = rarr(g, sh, lambda g: rclass(g) if g.r.random() < 0.5 else (lambda a, b: ('C', abs(a), abs(a) + abs(b)))(g.integer(8), g.integer(8)))
        k = g.r.random()
        p = ('i', g.r.randint(0, 5)) if k < 0.6 else ('N', 'int64', sh, [g.r.randint(0, 4) for _ in range(int(np.prod(sh)))]) if k < 0.9 else ('f', g.r.choice((0.5, 1.5, 2.0)))
        yield array_power, (x, p, 0)


@generator('P13', 2)
def _(g):
    while True:
        shape = rshape(g, 2)
        x = rarr(g, shape, mixed(g))
        k = g.r.random()
        y = rarr(g, shape, mixed(g)) if k < 0.3 else tweaked(g, x) if k < 0.6 else g.r.choice(x[2]) if k < 0.75 else rnum(g) if k < 0.9 else rnumarr(g, shape)
        yield comparison, (g.r.choice(list(CMPS)), x, y)
        yield membership, (x, rnum(g) if g.r.random() < 0.5 else g.r.choice(x[2]))


def tweaked(g, x):
    el = list(x[2])
    i = g.r.randrange(len(el))
    e = el[i]
    el[i] = (e[0], e[1], ulps(float(e[2]), 1)) if e[0] == 'C' else (e[0], ulps(float(e[1]), 1), e[2])
    return ('A', x[1], tuple(el)) if okdbl(el[i]) else x


def rkey1(g, n, fancy=True):
    k = g.r.random()
    if k < 0.4:
        return g.r.randint(-n, n - 1)
    if k < 0.75:
        return ('s', g.r.choice((None, None, 0, 1, -1)), g.r.choice((None, None, n, 1, -1)), g.r.choice((None, None, 1, 2, -1)))
    if k < 0.8:
        return g.r.choice((n, -n - 1)) if g.r.random() < 0.3 else 0
    if fancy:
        if k < 0.9:
            return ('l', tuple(g.r.randint(-n, n - 1) for _ in range(g.r.randint(1, 3))))
        return ('m', tuple(g.r.random() < 0.6 or i == 0 for i in range(n)))
    return 0


def rkey(g, shape):
    k = g.r.random()
    if k < 0.35:
        return rkey1(g, shape[0])
    if k < 0.85:
        d = g.r.randint(1, len(shape))
        ks = [rkey1(g, n, False) for n in shape[:d]]
        if g.r.random() < 0.2:
            i = g.r.randrange(d)
            ks[i] = ('l', tuple(g.r.randint(-shape[i], shape[i] - 1) for _ in range(g.r.randint(1, 3))))
        return tuple(ks)
    if k < 0.9:
        return ('m', tuple(np.array([g.r.random() < 0.6 or i == 0 for i in range(int(np.prod(shape)))]).reshape(shape).tolist()))
    return ('e', rkey1(g, shape[-1], False))


def rkey_nonempty(g, shape):
    for _ in range(20):
        k = rkey(g, shape)
        try:
            r = np.zeros(shape)[key_of(k)]
            if r.size:
                return k, r.shape
        except IndexError:
            if g.r.random() < 0.05:
                return k, ()
    return 0, shape[1:]


@generator('P13', 2)
def _(g):
    while True:
        shape = rshape(g)
        x = rarr(g, shape, mixed(g))
        yield indexing, (x, rkey_nonempty(g, shape)[0])


@generator('P13', 2)
def _(g):
    while True:
        shape = rshape(g)
        x = rarr(g, shape, mixed(g))
        key, rs = rkey_nonempty(g, shape)
        k = g.r.random()
        if k < 0.35 or rs == () and k < 0.75:
            v = rgen(g)
        elif k < 0.5 or rs == ():
            v = rnum(g)
        elif k < 0.8:
            v = rarr(g, rs, mixed(g))
        else:
            v = rnumarr(g, rs)
        yield assignment, (x, key, v)
        if g.r.random() < 0.3 and shape[0] > 1:
            ax = g.r.randrange(len(shape))
            if shape[ax] > 1:
                yield deletion, (x, ax, g.r.randint(0, shape[ax] - 1))
        if g.r.random() < 0.3:
            n = int(np.prod(shape))
            yield reshaping, (x, g.r.choice([(n,), (1, n), (n, 1), (-1,), tuple(reversed(shape)), n, (n + 1,)]))


@directed('P13')
def _(g):
    x = ('A', (2, 3), (('C', 1, 2), ('C', -0.5, 0.25), ('K', 3, -1), ('C', 0, 0), ('C', -2.5, -0.1), ('C', 0.1, 7)))
    v = ('A', (3,), (('C', 0, 1), ('C', -1.5, 2.5), ('K', 2.0, 1.0)))
    d = ('A', (3,), (('C', 1, 3), ('C', -2.5, -0.1), ('K', 7.0, 3.0)))
    for name in list(NUMPROP) + list(MAPS) + ['T', 'iter', 'dual', 'pro', 'opp']:
        yield unary, (name, x, 0)
        yield unary, (name, v, 0)
    yield unary, ('inv', d, 0)
    p = ('A', (2, 2), (('C', 0.1, 2), ('C', 0.5, 0.75), ('C', 3, 4), ('C', 0.2, 0.3)))
    for name in FUN:
        yield unary, (name, p, 0)
    others = [v, d, ('C', 1, 3), ('K', 3.0, 0.5), ('f', 3.0), ('i', 2), ('np', -0.7), ('npi', 3), ('f', -0.1), ('N', 'float64', (3,), [0.1, -3.0, 7.0]), ('N', 'int64', (3,), [1, 2, -3]),
              ('N', 'float64', (2, 1), [0.3, 11.0]), ('A', (2, 1), (('C', 3, 7), ('C', 0.1, 0.3)))]
    for o in others:
        for op in '+-*/':
            for a in (x, d):
                yield elementwise, (op, a, o, 0)
                yield elementwise, (op, o, a, 0)
            if o[0] != 'A' or o[1] != (2, 1):
                yield in_place, (op, x, o, 0)
        for op in CMPS:
            yield comparison, (op, x, o)
    for n in range(6):
        yield array_power, (x, ('i', n), 0)
    yield array_power, (p, ('f', 0.5), 0)
    for key in (0, -1, (0, 1), (1, -1), ('s', None, 1, None), (('s', None, None, None), 1), (('s', None, None, -1),), ('l', (1, 0, 1)), ('m', (True, False)), 'e', 'n',
                ('m', ((True, False, True), (False, False, True)))):
        yield indexing, (x, key)
        for val in (('C', 5, 6), ('K', 1.0, 0.0), ('f', 0.25), ('i', 3), ('np', -1.5)):
            yield assignment, (x, key, val)
    yield assignment, (x, 0, v)
    yield assignment, (x, (('s', None, None, None), -1), ('A', (2,), (('C', 9, 10), ('C', 0.5, 0.75))))
    yield assignment, (x, 1, ('N', 'float64', (3,), [1.5, 2.5, -3.5]))
    yield assignment, (x, 1, ('N', 'int64', (3,), [1, 2, -3]))
    for ax, i in ((0, 0), (0, 1), (1, 0), (1, 2)):
        yield deletion, (x, ax, i)
    yield deletion, (v, 0, 1)


# ---------------------------------------------------------------- P14
def rows_of(spec):
    """exact endpoint pairs in an object array"""
    if spec[0] == 'A':
        out = np.empty(len(spec[2]), dtype=object)
        for i, e in enumerate(spec[2]):
            out[i] = ends(e)
        return out.reshape(spec[1])
    out = np.empty(len(spec[3]), dtype=object)
    for i, v in enumerate(spec[3]):
        out[i] = (F(v), F(v))
    return out.reshape(spec[2])


def exact_mul(p, q):
    c = [s * t for s in p for t in q]
    return min(c), max(c), max(abs(t) for t in c)


EPS = Fraction(1, 2 ** 52)


def check_entry(z, r, c, what):
    need(isinstance(z, IV), what + ' is not an interval', type(z).__name__)
    lo = hi = mag = Fraction(0)
    for p, q in zip(r, c):
        l, h, g = exact_mul(p, q)
        lo, hi, mag = lo + l, hi + h, mag + g
    need(leq(z.a, lo), what + ': the lower endpoint is above a product of members', num(z.a), rnd(lo))
    need(geq(z.b, hi), what + ': the upper endpoint is below a product of members', num(z.b), rnd(hi))
    if mag < BIG:
        tol = (len(r) + 2) * EPS * mag + Fraction(2) ** -1060
        need(geq(z.a, lo - tol) and leq(z.b, hi + tol), what + ' is wider than the interval sum of products', (num(z.a), num(z.b)), (rnd(lo), rnd(hi)))


@contract('P14')
def matmul(x, y, m=0):
    X, Y = build(x), build(y)
    bx, by = snap(X), snap(Y)
    z = ok(lambda: X @ Y, '@', m)
    p, q = rows_of(x), rows_of(y)
    need(snap(X) == bx and snap(Y) == by, 'an operand of @ was changed')
    p2 = p[None, :] if p.ndim == 1 else p
    q2 = q[:, None] if q.ndim == 1 else q
    if p2.ndim == q2.ndim == 2:
        shape = (p.shape[:-1]) + (q.shape[1:] if q.ndim == 2 else ())
        if shape == ():
            need(isinstance(z, IV), 'the product of two vectors is not an interval', type(z).__name__)
            Z = np.empty((1, 1), dtype=object)
            Z[0, 0] = z
        else:
            need(isinstance(z, ArrayInterval), 'the product is not an interval array', type(z).__name__)
            need(z.shape == shape and z.data.shape == shape, 'the product has the wrong shape', z.shape, shape)
            Z = z.data.reshape(p2.shape[0], q2.shape[1])
        for i in range(p2.shape[0]):
            for k in range(q2.shape[1]):
                check_entry(Z[i, k], p2[i], q2[:, k], 'entry (%d, %d)' % (i, k))
    else:
        need(isinstance(z, ArrayInterval) and z.shape == np.matmul(np.zeros(p.shape), np.zeros(q.shape)).shape, 'the product has the wrong shape', getattr(z, 'shape', None))
        bs = np.broadcast_shapes(p2.shape[:-2], q2.shape[:-2])
        P, Q = np.broadcast_to(p2, bs + p2.shape[-2:]), np.broadcast_to(q2, bs + q2.shape[-2:])
        Z = z.data.reshape(bs + (p2.shape[-2], q2.shape[-1]))
        for s in np.ndindex(*bs):
            for i in range(p2.shape[-2]):
                for k in range(q2.shape[-1]):
                    check_entry(Z[s][i, k], P[s][i], Q[s][:, k], 'entry %r' % (s + (i, k),))


@contract('P14')
def matmul_mismatch(x, y):
    X, Y = build(x), build(y)
    raises(lambda: X @ Y, Exception, 'the product of incompatible shapes')


def rfin(g):
    for _ in range(50):
        s = rclass(g)
        if all(abs(v) < 1e150 for v in s[1:]):
            return s
    return ('C', 0.0, 1.0)


def rpoint(g):
    v = g.double()
    return ('C', v, v) if abs(v) < 1e150 else ('C', 1.0, 1.0)


def rreal(g, shape):
    n = int(np.prod(shape))
    if g.r.random() < 0.4:
        return ('N', 'int64', tuple(shape), [g.integer(12) for _ in range(n)])
    return ('N', 'float64', tuple(shape), [(lambda v: v if abs(v) < 1e150 else 2.0)(g.double()) for _ in range(n)])


@generator('P14', 4)
def _(g):
    while True:
        n, m, l = (g.r.choice((1, 2, 2, 3, 3, 4, 6)) for _ in range(3))
        k = g.r.random()
        sx, sy = ((n, m), (m, l)) if k < 0.4 else ((n, m), (m,)) if k < 0.65 else ((m,), (m, l)) if k < 0.8 else ((m,), (m,)) if k < 0.93 else ((2, n, m), g.r.choice([(2, m, l), (m, l)]))
        kind = g.r.random()
        f = rfin if g.r.random() < 0.85 else rpoint
        x = rarr(g, sx, f) if kind < 0.7 else rreal(g, sx)
        y = rarr(g, sy, f) if kind < 0.4 or kind >= 0.7 else rreal(g, sy)
        if g.r.random() < 0.03:
            yield matmul_mismatch, (rarr(g, (n, m), f), rarr(g, (m + 1,), f))
        yield matmul, (x, y, g.r.choice(MODES))


@directed('P14')
def _(g):
    A = ('A', (2, 3), (('C', 1, 2), ('C', -0.1, 0.3), ('C', -3, -1), ('C', 0, 0), ('C', 0.1, 0.1), ('C', -7, 3)))
    B = ('A', (3, 2), (('C', 0.1, 0.7), ('C', -1, 1), ('C', 3, 3), ('C', -0.3, 0), ('C', -2, -0.1), ('C', 0, 5)))
    v = ('A', (3,), (('C', -0.1, 0.7), ('C', -3, -1), ('C', 0.3, 0.3)))
    w = ('A', (2,), (('C', -0.1, 0.7), ('C', 3, 5)))
    for x, y in ((A, B), (B, A), (A, v), (w, A), (v, v), (v, B), (A, ('N', 'float64', (3, 2), [0.1, -0.2, 3.0, 0.0, 7.0, -1.1])), (('N', 'float64', (2, 3), [0.1, -0.2, 3.0, 0.0, 7.0, -1.1]), B),
                 (('N', 'int64', (2, 3), [1, -2, 3, 0, 7, -1]), v), (v, ('N', 'int64', (3,), [1, 0, -2])), (('N', 'float64', (3,), [1.1, 0, -2.3]), v), (('N', 'float64', (2,), [1.1, -2.3]), A),
                 (A, ('N', 'float64', (3,), [1.1, 0, -2.3]))):
        for m in (0, RU):
            yield matmul, (x, y, m)


# ---------------------------------------------------------------- P27
def is_pair(z, lo, hi, what):
    need(isinstance(z, IV), what + ' is not an interval', type(z).__name__)
    need(F(z.a) == F(lo) and F(z.b) == F(hi), what + ' is wrong', (num(z.a), num(z.b)), (lo, hi))


def entries(Z, shape, f, what):
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    need(isinstance(Z, ArrayInterval) and Z.shape == shape and Z.data.shape == shape, what + ' has the wrong shape', getattr(Z, 'shape', None), shape)
    for i in np.ndindex(*shape):
        lo, hi = f(*i)
        is_pair(Z[i], lo, hi, '%s, entry %r' % (what, i))


@contract('P27')
def filled(shape, lo, hi):
    if lo is None:
        entries(ok(lambda: ip.zeros(shape)), shape, lambda *i: (0, 0), 'zeros')
    else:
        z = ok(lambda: ip.full(shape, lo, hi))
        entries(z, shape, lambda *i: (lo, hi), 'full')
        for e in z.data.ravel():
            need(isinstance(e, K if lo > hi else C), 'an entry of full has the wrong class', type(e).__name__)


@contract('P27')
def identity(N, M, k):
    z = ok(lambda: ip.eye(N, k=k) if M is None else ip.eye(N, M, k) if k % 2 else ip.eye(N, M=M, k=k))
    entries(z, (N, N if M is None else M), lambda i, j: (int(j - i == k),) * 2, 'eye')


@contract('P27')
def diagonal(v, k):
    V = build(v)
    E = elements(v)
    before = snap(V)
    z = ok(lambda: ip.diag(V, k) if k else ip.diag(V))
    if E.ndim == 1:
        n = len(E) + abs(k)
        entries(z, (n, n), lambda i, j: ((E[i if k >= 0 else j].a, E[i if k >= 0 else j].b) if j - i == k else (0, 0)) , 'diag')
    else:
        d = [E[i, i + k] for i in range(E.shape[0]) if 0 <= i + k < E.shape[1]]
        entries(z, (len(d),), lambda i: (d[i].a, d[i].b), 'diag')
    need(snap(V) == before, 'diag changed its operand')


@contract('P27')
def comparison_matrix(A):
    X, E = build(A), elements(A)
    before = snap(X)
    z = ok(lambda: ip.compmat(X))
    need(isinstance(z, np.ndarray) and z.shape == E.shape, 'compmat has the wrong shape')
    for i in np.ndindex(*E.shape):
        a, b = F(E[i].a), F(E[i].b)
        mag, mig = max(abs(a), abs(b)), (0 if min(a, b) <= 0 <= max(a, b) else min(abs(a), abs(b)))
        need(F(z[i]) == (mig if i[0] == i[1] else -mag), 'compmat entry %r is wrong' % (i,), float(z[i]))
    need(snap(X) == before, 'compmat changed its operand')


@contract('P27')
def neumaier(n, theta, infb, supb):
    A, b = ok(lambda: ip.Neumaier_system(n, theta, infb, supb) if infb is not None else ip.Neumaier_system(n, theta))
    lo, hi = (-1, 1) if infb is None else (infb, supb)
    entries(A, (n, n), lambda i, j: (theta, theta) if i == j else (0, 2), 'the Neumaier matrix')
    entries(b, (n,), lambda i: (lo, hi), 'the right-hand side')


@contract('P27')
def neumaier_half(n, theta, key, v):
    A, b = ok(lambda: ip.Neumaier_system(n, theta, **{key: v}))
    lo, hi = (v, 1) if key == 'infb' else (-1, v)
    entries(A, (n, n), lambda i, j: (theta, theta) if i == j else (0, 2), 'the Neumaier matrix')
    entries(b, (n,), lambda i: (lo, hi), 'the right-hand side')


def close(z, lo, hi, what):
    """endpoints computed with one directed or nearest rounding"""
    for v, q in ((z.a, lo), (z.b, hi)):
        need(F(v) == q or ulps(rd(q), -1) <= float(v) <= ulps(ru(q), 1), what + ' is wrong', (num(z.a), num(z.b)), (float(lo), float(hi)))


@contract('P27')
def shary(n, N, alpha, beta):
    kw = {k: v for k, v in (('N', N), ('alpha', alpha), ('beta', beta)) if v is not None}
    al, be, NN = 0.23 if alpha is None else alpha, 0.35 if beta is None else beta, n if N is None else N
    if al < 0 or be < al or be > 1 or NN < n - 1:
        raises(lambda: ip.Shary_system(n, **kw), Exception, 'Shary_system with parameters out of range')
        return
    A, b = ok(lambda: ip.Shary_system(n, **kw))
    need(A.shape == (n, n) and b.shape == (n,), 'wrong shape', A.shape, b.shape)
    for i, j in np.ndindex(n, n):
        if i == j:
            is_pair(A[i, j], n - 1, NN, 'diagonal entry %d' % i)
        else:
            close(A[i, j], F(al) - 1, 1 - F(be), 'entry %r' % ((i, j),))
    for i in range(n):
        is_pair(b[i], 1 - n, n - 1, 'right-hand side %d' % i)


@contract('P27')
def toft(n, r, R):
    if r < 0 or R < 0:
        raises(lambda: ip.Toft_system(n, r, R), Exception, 'Toft_system with a negative parameter')
        return
    A, b = ok(lambda: ip.Toft_system(n, r, R) if r or R else ip.Toft_system(n))
    need(A.shape == (n, n) and b.shape == (n,), 'wrong shape', A.shape, b.shape)
    for i, j in np.ndindex(n, n):
        if i == n - 1 or j == n - 1:
            t = min(i, j) + 1 if i != j else n
            close(A[i, j], t - F(r), t + F(r), 'entry %r' % ((i, j),))
        elif i == j:
            close(A[i, j], 1 - F(r), 1 + F(r), 'diagonal entry %d' % i)
        else:
            is_pair(A[i, j], 0, 0, 'entry %r' % ((i, j),))
    for i in range(n):
        close(b[i], 1 - F(R), 1 + F(R), 'right-hand side %d' % i)


def rpar(g, lo, hi):
    k = g.r.random()
    if k < 0.3:
        return g.r.choice([v for v in (0, 1, 2, 0.5, 0.25, 3, 0.1, 5) if lo <= v <= hi] or [lo])
    return g.r.uniform(lo, hi)


@generator('P27', 1)
def _(g):
    while True:
        sh = g.r.choice([g.r.randint(1, 6), rshape(g)])
        yield filled, (sh, None, None)
        lo, hi = g.pair(lambda: g.r.choice((g.double(), g.integer())))
        if g.r.random() < 0.3:
            lo, hi = hi, lo
        yield filled, (sh, lo, hi)
        N = g.r.randint(1, 6)
        M = g.r.choice((None, g.r.randint(1, 6)))
        yield identity, (N, M, g.r.choice((0, 0, g.r.randint(-3, 3))))
        yield diagonal, (rarr(g, (g.r.randint(1, 5),), mixed(g)), g.r.randint(-2, 2))
        n, m = g.r.randint(1, 5), g.r.randint(1, 5)
        k = g.r.randint(-n + 1, m - 1)
        yield diagonal, (rarr(g, (n, m), mixed(g)), k)
        yield comparison_matrix, (rarr(g, (n, g.r.choice((n, m))), rclass),)


@generator('P27', 1)
def _(g):
    while True:
        n = g.r.randint(2, 7)
        a, b = sorted((rpar(g, -50, 50), rpar(g, -50, 50)))
        yield neumaier, (n, rpar(g, 0, 30), *((None, None) if g.r.random() < 0.3 else (a, b)))
        key = g.r.choice(('infb', 'supb'))
        yield neumaier_half, (n, rpar(g, 0, 30), key, rpar(g, 1, 9) if key == 'supb' else rpar(g, -9, 0))
        al = rpar(g, 0.01, 1)
        be = rpar(g, al, 1)
        if g.r.random() < 0.3:
            al, be = rpar(g, -0.5, 1.5), rpar(g, -0.5, 1.5)
        if g.r.random() < 0.2:
            al, be = None, None
        yield shary, (n, g.r.choice((None, n, n - 1, n + 2.5, n - 1.5, rpar(g, n - 1, n + 9))), al, be)
        yield toft, (n, rpar(g, 0, 3), rpar(g, 0, 3))
        yield toft, (n, g.r.choice((0, 0.5, -0.5, -1)), g.r.choice((0, 2, -0.25, 1)))


@directed('P27')
def _(g):
    for n in range(2, 7):
        yield neumaier, (n, n, None, None)
        yield neumaier, (n, 3.5, -2.5, 7)
        yield neumaier, (n, 0, 2, 3)
        for N in (None, n - 1, n, n + 0.5, n - 2):
            yield shary, (n, N, 0.5, 1)
            yield shary, (n, N, 0.5, 0.5)
            yield shary, (n, N, None, None)
        for al, be in ((0.5, 0.4), (-0.1, 0.5), (0.2, 1.1), (1, 1), (0.3, 0.3), (0.1, 0.9), (1e-9, 1.0)):
            yield shary, (n, None, al, be)
        for r in (0, 1, 0.5, -1e-9):
            for R in (0, 2, 0.25, -0.5):
                yield toft, (n, r, R)
    for N in range(1, 6):
        for M in (None, 1, 3, 6):
            for k in range(-3, 4):
                yield identity, (N, M, k)
    for sh in (1, 4, (2, 3), (1, 1), (2, 2, 2)):
        yield filled, (sh, None, None)
        for lo, hi in ((0, 1), (-0.5, 0.25), (3, 3), (2.5, -1)):
            yield filled, (sh, lo, hi)
    d = ('A', (3,), (('C', 1, 2), ('C', -0.5, 0.25), ('K', 3, -1)))
    M = ('A', (2, 3), (('C', 1, 2), ('C', -0.5, 0.25), ('K', 3, -1), ('C', 0, 0), ('C', -2.5, -0.1), ('C', 0.1, 7)))
    Q = ('A', (3, 2), M[2])
    for k in (-2, -1, 0, 1, 2):
        yield diagonal, (d, k)
        if -2 < k:
            yield diagonal, (M, k)
        if k < 2:
            yield diagonal, (Q, k)
    cm = (('C', 1, 2), ('C', -0.5, 0.25), ('C', -3, -1), ('C', 0, 0), ('C', -2.5, -0.1), ('C', 0.1, 7))
    yield comparison_matrix, (('A', (2, 3), cm),)
    yield comparison_matrix, (('A', (3, 2), cm),)
