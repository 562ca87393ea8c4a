"""The exact world: arithmetic over the reals, intervals by midpoint and radius, symbolic comprehensions."""
import ast
from fractions import Fraction
import z3
from .interp import Sym, SBool, Num, Inst, ClassVal, Extern, PyRaise, Unsupported, tonum, Env
from .ints import IntV, mkint, toint, SymRange
from .terms import Poly, K
from . import arr as R, npw as N
from .arr import Arr, iz, app, as_arr, valid

HALF = Fraction(1, 2)


class EI(Sym):
    """a proper interval [mid - rad, mid + rad] in exact arithmetic"""
    is_interval = True

    def __init__(self, mid, rad):
        self.mid, self.rad = mid, rad

    @property
    def lo(self):
        return self.mid - self.rad

    @property
    def hi(self):
        return self.mid + self.rad

    def isinst(self, it, t):
        if isinstance(t, ClassVal):
            return t.name in ('ClassicalArithmetic', 'BaseTools')
        return t == 'ClassicalArithmetic'

    def mag(self, it):
        return it.th.minmax('max', [it.th.abs(self.lo), it.th.abs(self.hi)])

    def mig(self, it):
        """0 if the interval contains 0, else the smaller magnitude of the endpoints (P10)"""
        th = it.th
        a, b = self.lo, self.hi
        x, y = th.abs(a), th.abs(b)

        def facts(z, p):
            return [z == z3.If(z3.And(p[0] <= 0, p[1] >= 0), z3.RealVal(0), z3.If(p[2] <= p[3], p[2], p[3]))]
        ps = [a, b, x, y]
        r = R.lifted(th, 'mig', ps, facts)
        if r is None:
            key = ('mig', a, b)
            if key not in th.table:
                th.table[key] = th.fresh('mig')
                th.fixed.extend(facts(th.z(th.table[key]), [th.z(p) for p in ps]))
            r = th.table[key]
        return r

    def getattr(self, it, name):
        p = {'a': lambda: self.lo, 'inf': lambda: self.lo, 'b': lambda: self.hi, 'sup': lambda: self.hi, 'mid': lambda: self.mid,
             'rad': lambda: self.rad, 'wid': lambda: self.rad.scale(2), 'mag': lambda: self.mag(it), 'mig': lambda: self.mig(it)}.get(name)
        if p is not None:
            return Num(p(), 'float')
        if name == 'copy':
            return Extern('copy', lambda it, a, k: self)
        if name in ('__iter__', '__len__', 'shape', '_data', 'data'):
            raise PyRaise(AttributeError, (name,))
        raise Unsupported('attribute %s of an exact interval' % name)

    def truth(self, it):
        return True

    def contains(self, it, x):
        z = it.th.z
        x = it.concrete(x)
        if isinstance(x, EI):
            return SBool(z3.And(z(self.lo) <= z(x.lo), z(x.hi) <= z(self.hi)))
        n = tonum(x)
        return SBool(z3.And(z(self.lo) <= z(n.p), z(n.p) <= z(self.hi)))

    def unop(self, it, op):
        if op == '-':
            return EI(-self.mid, self.rad)
        if op == '+':
            return self
        raise Unsupported('unary')

    def binop(self, it, op, other, reflected):
        other = it.concrete(other)
        if isinstance(other, IntV):
            other = other.num(it)
        if isinstance(other, SBool):
            other = Num(R.indicator(it, other.f), 'np')
        n = tonum(other)
        if op in '+-':
            o = EI(n.p, K(0)) if n is not None else other
            if not isinstance(o, EI):
                return NotImplemented
            if op == '+':
                return EI(self.mid + o.mid, self.rad + o.rad)
            return EI(o.mid - self.mid if reflected else self.mid - o.mid, self.rad + o.rad)
        if op == '*' and n is not None:
            return EI(self.mid * n.p, self.rad * it.th.abs(n.p))
        if op == '*' and isinstance(other, EI):
            if self.rad == K(0):
                return other.binop(it, '*', Num(self.mid, 'np'), not reflected)
            if other.rad == K(0):
                return self.binop(it, '*', Num(other.mid, 'np'), reflected)
        if op == '/' and isinstance(other, EI) and it.w.externs.get('::quotient'):
            return it.w.externs['::quotient'](it, other, self) if reflected else it.w.externs['::quotient'](it, self, other)
        if op == '/' and n is not None and not reflected:
            r = it.num_binop('/', Num(K(1), 'float'), n)
            return self.binop(it, '*', r, False)
        return NotImplemented if op not in '*/' else self.refuse()

    def refuse(self):
        raise Unsupported('exact operation on intervals')

    def compare(self, it, op, other, reflected):
        raise Unsupported('comparison of exact intervals')

    def __repr__(self):
        return 'EI(%r, %r)' % (self.mid, self.rad)


def ei_sum(it, lo, hi, body):
    """the sum of intervals is the interval of the sums"""
    lo, hi = iz(lo), iz(hi)
    v = N.kind_of(it, lo, hi, body, [])
    if isinstance(v, EI):
        part = lambda f: R.sum_term(it, lo, hi, lambda k: Num(f(it.concrete(body(k))), 'np'))
        m = lambda e: e.mid if isinstance(e, EI) else tonum(e).p
        r = lambda e: e.rad if isinstance(e, EI) else K(0)
        return EI(part(m), part(r))
    return NotImplemented


def interval(it, name, idx, proper=True):
    m, r = app(it, name + '.mid', idx), app(it, name + '.rad', idx)
    key = ('proper', name, tuple(i.sexpr() for i in idx))
    if proper and key not in it.th.table:
        it.th.table[key] = r
        it.th.fixed.append(it.th.z(r) >= 0)
    return EI(m, r)


def ebox(it, name, shape):
    return N.box(it, shape, lambda it, idx: interval(it, name, idx))


def rbox(it, name, shape):
    return Arr(shape, lambda it, idx: Num(app(it, name, idx), 'np'))


# ------------------------------------------------------------------ comprehensions over symbolic sequences
class SymZip(Sym):
    def __init__(self, arrs):
        self.arrs = arrs

    def iterate(self, it):
        n = self.arrs[0].shape[0]
        if not z3.is_int_value(n):
            raise Unsupported('iteration over a sequence of unknown length')
        return [tuple(it.concrete(a.el(it, [z3.IntVal(q)])) for a in self.arrs) for q in range(n.as_long())]


def b_zip(it, args, kw):
    vs = [it.concrete(a) for a in args]
    if any(isinstance(v, Arr) or isinstance(v, Inst) for v in vs) and not kw:
        arrs = [as_arr(it, v).copy() for v in vs]
        if all(len(a.shape) >= 1 for a in arrs):
            for a in arrs[1:]:
                if not R.same_dim(it, a.shape[0], arrs[0].shape[0]):
                    raise Unsupported('zip of unknown lengths')
            return SymZip(arrs)
    return list(zip(*[it.iterate(v) for v in vs]))


def b_enumerate(it, args, kw):
    v = it.concrete(args[0])
    if isinstance(v, (Arr, Inst)) and len(args) == 1 and not kw:
        a = as_arr(it, v).copy()
        return SymZip([Arr([a.shape[0]], lambda it, idx: mkint(idx[0])), a])
    return list(enumerate(it.iterate(v), *args[1:]))


def snapshot(it, env):
    out = Env(env.module, None)
    out.func = env.func
    chain = []
    e = env
    while e is not None:
        chain.append(e)
        e = e.parent
    for e in reversed(chain):
        for n, v in e.v.items():
            out.v[n] = v.copy() if isinstance(v, Arr) else v
    return out


def listcomp(it, e, env):
    if len(e.generators) != 1:
        return NotImplemented
    g = e.generators[0]
    if g.ifs or g.is_async:
        return NotImplemented
    seq = it.concrete(it.eval(g.iter, env))
    if isinstance(seq, SymZip):
        n, item = seq.arrs[0].shape[0], lambda it, q: tuple(it.concrete(row(it, a, q)) for a in seq.arrs)
    elif isinstance(seq, SymRange) and seq.step == 1:
        lo, hi = iz(seq.lo), iz(seq.hi)
        n, item = z3.simplify(hi - lo), lambda it, q: mkint(z3.simplify(lo + q))
        if not valid(it, n >= 0):
            raise Unsupported('a range that may be empty by inverted bounds')
    elif isinstance(seq, (Arr, Inst)) and not (isinstance(seq, Inst) and '_data' not in seq.f):
        a = as_arr(it, seq).copy()
        n, item = a.shape[0], lambda it, q: row(it, a, q)
    else:
        # concrete
        inner = Env(env.module, env)
        inner.func = env.func
        out = []
        for x in it.iterate(seq):
            it.assign(g.target, x, inner)
            out.append(it.eval(e.elt, inner))
        return out
    if z3.is_int_value(n):
        inner = Env(env.module, env)
        inner.func = env.func
        out = []
        for q in range(n.as_long()):
            it.assign(g.target, item(it, z3.IntVal(q)), inner)
            out.append(it.eval(e.elt, inner))
        return out
    snap = snapshot(it, env)

    def value(it, q):
        inner = Env(snap.module, snap)
        inner.func = snap.func
        it.assign(g.target, item(it, q), inner)
        return it.concrete(it.eval(e.elt, inner))
    # the shape of the elements
    with R.Binder(it, 'k', z3.IntVal(0), n) as k:
        try:
            sub = value(it, k)
        except R.Split:
            sub = None
    if isinstance(sub, Arr) or isinstance(sub, Inst) and '_data' in sub.f:
        sh = as_arr(it, sub).shape
        return Arr([n] + list(sh), lambda it, idx: as_arr(it, value(it, idx[0])).el(it, idx[1:]))
    return Arr([n], lambda it, idx: value(it, idx[0]), getattr(sub, 'is_interval', False))


def merge(it, f, body, orelse):
    """a conditional expression on numbers as one number, without deciding the condition; None where that is not possible"""
    vals = []
    for g, v in ((f, body), (z3.Not(f), orelse)):
        b = R.Binder(it, 'case', z3.IntVal(0), z3.IntVal(1))
        b.g = [g]
        if not it.feasible(R.guards(it) + [g]):
            return None
        try:
            with b:
                n = tonum(it.concrete(v()))
        except (R.Split, PyRaise):
            return None
        if n is None:
            return None
        vals.append(n)
    a, b = vals
    if a.p == b.p:
        return a
    ps = [R.indicator(it, f), a.p, b.p]
    facts = lambda z, p: [z == z3.If(p[0] == 1, p[1], p[2])]
    r = R.lifted(it.th, 'ite', ps, facts)
    if r is None:
        key = ('ite',) + tuple(ps)
        if key not in it.th.table:
            it.th.table[key] = it.th.fresh('ite')
            it.th.fixed.extend(facts(it.th.z(it.th.table[key]), [it.th.z(p) for p in ps]))
        r = it.th.table[key]
    return Num(r, 'np' if a.kind == 'np' or b.kind == 'np' else a.kind if a.kind == b.kind else 'float')


def row(it, a, q):
    if len(a.shape) == 1:
        return a.el(it, [q])
    return Arr(a.shape[1:], lambda it, idx: a.el(it, [q] + idx), a.obj, a.dtype)


def exact_world(root='/repo'):
    w = N.np_world(root, ghost=False, exact=True)
    e = w.externs
    e['::sum'] = ei_sum
    e['::listcomp'] = listcomp
    e['::merge'] = merge
    e['zip'] = b_zip
    e['enumerate'] = b_enumerate
    return w
