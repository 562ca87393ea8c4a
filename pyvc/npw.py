"""The array worlds: assumed contracts of NumPy, intervals with a ghost member, loops with invariants."""
import ast
from fractions import Fraction
import z3
from .interp import (World, Run, Sym, SBool, Num, Inst, ClassVal, Extern, FuncVal, Bound, PyRaise, PathEnd, Unsupported,
                     Brk, Cont, Ret, tonum, UNBOUND, POISON, INLINE, BUILTINS, LoopSpec, Env)
from .ints import IntV, mkint, toint, SymRange, sym_range
from .terms import Poly, K
from . import arr as R
from .arr import Arr, iz, app, as_arr, valid

R.install(Run)
KI = 'intvalpy/kernel/real_intervals.py'
PYX = 'intvalpy/kernel/interval_arithmetics.pyx'
PRE = 'intvalpy/kernel/preprocessing.py'
UT = 'intvalpy/kernel/utils.py'
NEW = 'intvalpy/kernel/new_objects.py'
INF = float('inf')


# ------------------------------------------------------------------ shapes
def shape_of(v):
    if isinstance(v, (tuple, list)):
        return [iz(d) for d in v]
    return [iz(v)]


def const_arr(value):
    def f(it, args, kw):
        return Arr(shape_of(args[0]), lambda it, idx: value)
    return f


def np_full(it, args, kw):
    v = R.to_float(it, it.concrete(args[1]))
    return Arr(shape_of(args[0]), lambda it, idx: v)


def np_eye(it, args, kw):
    n = iz(args[0])
    M = kw.get('M', args[1] if len(args) > 1 else None)
    k = iz(kw.get('k', args[2] if len(args) > 2 else 0))
    m = n if M is None else iz(M)
    return Arr([n, m], lambda it, idx: 1.0 if it.branch(idx[1] - idx[0] == k) else 0.0)


def ones_like(it, args, kw):
    a = as_arr(it, args[0])
    return Arr(a.shape, lambda it, idx: 1.0)


def zeros_like(it, args, kw):
    a = as_arr(it, args[0])
    return Arr(a.shape, lambda it, idx: 0.0)


def np_array(it, args, kw):
    v = it.concrete(args[0])
    if isinstance(v, (Num, int, float)):
        return R.as_operand(it, v)
    if getattr(v, 'is_interval', False):
        return Arr([], lambda it, idx: v, True)
    a = as_arr(it, v).copy()
    return a


def np_asarray(it, args, kw):
    """no copy of an array that already has the type"""
    v = it.concrete(args[0])
    t = kw.get('dtype', args[1] if len(args) > 1 else None)
    if isinstance(v, Arr) and (t is None or 'object' in repr(t) and v.obj or 'float' in repr(t) and v.dtype == 'float' and not v.obj):
        return v
    return np_array(it, args, kw)


def np_copy(it, args, kw):
    return as_arr(it, args[0]).copy()


def np_vectorize(it, args, kw):
    f = args[0]

    def call(it, a, k):
        if k:
            raise Unsupported('vectorized call with keywords')
        ops = [R.as_operand(it, x) if not isinstance(x, Inst) else as_arr(it, x) for x in a]
        if any(o is None for o in ops):
            raise Unsupported('vectorized call on %r' % (a,))
        shape = []
        for o in ops:
            shape = R.join_shapes(it, shape, o.shape)
        ops = [o.copy() for o in ops]
        out = Arr(shape, lambda it, idx: it.call(f, [R.bcast(it, o, idx) for o in ops], {}), any(o.obj for o in ops))
        if out.obj and it.w.exact and shape:
            out.obj = not numbers(it, out)
        if not it.ghost.get('lazy') and any(o.obj for o in ops) and getattr(it.w, 'elements_may_raise', False):
            n = it.ghost.setdefault('nvec', 0)
            it.ghost['nvec'] += 1
            if it.choose('vectorized:%d' % n):
                raise PyRaise(Exception)
        return out.el(it, []) if not shape else out
    return Extern('vectorized', call)


def numbers(it, a):
    """the elements are numbers, so that NumPy finds a float type for the array"""
    bs = [R.Binder(it, 'v', z3.IntVal(0), d) for d in a.shape]
    ks = [b.__enter__() for b in bs]
    try:
        return tonum(it.concrete(a.fn(it, ks))) is not None
    except (R.Split, PyRaise):
        return False
    finally:
        for b in reversed(bs):
            b.__exit__()


def np_map(f, obj=None):
    def g(it, args, kw):
        v = it.concrete(args[0])
        if isinstance(v, Inst) and '_data' in v.f:
            u = v.cls.lookup(it, '__array_ufunc__')
            return it.call(it.bind(u, v), [Extern('numpy.' + f.__name__[1:]), '__call__', v], {})
        if isinstance(v, (list, tuple, Arr)):
            a = as_arr(it, v).copy()
            return Arr(a.shape, lambda it, idx: f(it, a.el(it, idx)), a.obj)
        return f(it, v)
    return g


def _abs(it, v):
    v = it.concrete(v)
    n = tonum(v)
    if n is None:
        return it.unop('abs', v)
    if it.ghost.get('binders') or it.ghost.get('absterm'):
        return Num(it.th.abs(n.p), 'np')
    return it.num_abs(n) if not it.ghost.get('lazy') else Num(it.th.abs(n.p), 'np')


def _sign(it, v):
    n = tonum(it.concrete(v))
    th = it.th
    k = n.p.const()
    if k is not None:
        return float((k > 0) - (k < 0))
    def facts(z, p):
        return [z3.And(z3.Implies(p[0] > 0, z == 1), z3.Implies(p[0] < 0, z == -1), z3.Implies(p[0] == 0, z == 0))]
    r = R.lifted(th, 'sign', [n.p], facts)
    if r is None:
        key = ('sign', n.p)
        if key not in th.table:
            s = th.table[key] = th.fresh('sign')
            th.fixed.extend(facts(th.z(s), [th.z(n.p)]))
        r = th.table[key]
    if ('signabs', n.p) not in th.table:
        # sign(v) v = |v|
        th.table[('signabs', n.p)] = r
        th.fixed.append(th.z(r * n.p) == th.z(th.abs(n.p)))
    return Num(r, 'np')


def np_bin(kind):
    def f(it, x, y):
        a, b = tonum(it.concrete(x)), tonum(it.concrete(y))
        if a is None or b is None:
            raise Unsupported('%simum of %r' % (kind, (x, y)))
        return Num(it.th.minmax(kind, [a.p, b.p]), 'np')

    def g(it, args, kw):
        xs = [R.as_operand(it, v) if not isinstance(v, Inst) else as_arr(it, v) for v in args]
        if any(x is None for x in xs):
            raise Unsupported('operand')
        r = R.elementwise(it, lambda p, q: f(it, p, q), xs[0], xs[1])
        return r.el(it, []) if not r.shape else r
    return g


class Extreme:
    """smallest or greatest element of an array: value, a position that attains it, and its defining property,
    which is used at the positions the specification names"""
    def __init__(self, a, kind, pos, value):
        self.a, self.kind, self.pos, self.value = a, kind, pos, value


def extreme(it, a, kind):
    a = a.copy()
    if it.ghost.get('binders'):
        raise Unsupported('a position that depends on a bound index')
    n = it.ghost.setdefault('nextreme', 0)
    it.ghost['nextreme'] += 1
    pos = [z3.Int('%s%d_%d' % (kind, n, q)) for q in range(len(a.shape))]
    for p, d in zip(pos, a.shape):
        if not valid(it, d > 0):
            if it.branch(d <= 0):
                raise PyRaise(ValueError, ('zero-size array',))
        it.assume(z3.And(p >= 0, p < d))
    e = Extreme(a, kind, pos, None)
    it.ghost.setdefault('extremes', []).append(e)
    for f in it.ghost.get('at extremes', []):
        f(e)             # facts that hold for every index, stated at the position of the extreme value
    return e


def extreme_value(it, e):
    if e.value is None:
        e.value = it.concrete(e.a.el(it, e.pos))
    return e.value


def extreme_at(it, e, idx):
    """the defining property at one position"""
    v = tonum(it.concrete(e.a.el(it, idx)))
    w = tonum(extreme_value(it, e))
    if v is None or w is None:
        raise Unsupported('comparison of elements')
    z, y = it.th.z(v.p), it.th.z(w.p)
    ok = z3.And([z3.And(i >= 0, i < d) for i, d in zip(idx, e.a.shape)])
    it.assume(z3.Implies(ok, y <= z if e.kind == 'min' else y >= z))


def extremes_at(it, idx):
    for e in it.ghost.get('extremes', []):
        if len(e.pos) == len(idx):
            extreme_at(it, e, idx)


def constant(it, a, j, ax):
    """the number all elements of a row or column are"""
    k = z3.Int('v%d' % len(it.ghost.get('binders', [])))

    def under(fs, depth):
        b = R.Binder(it, 'v', z3.IntVal(0), a.shape[ax], k)
        b.g = list(b.g) + fs
        if not it.feasible(R.guards(it) + b.g):
            return ()
        try:
            with b:
                v = tonum(it.concrete(a.el(it, [k, j] if ax == 0 else [j, k])))
        except PyRaise:
            return None
        except R.Split as s:
            if depth > 3:
                return None
            x, y = under(fs + [s.f], depth + 1), under(fs + [z3.Not(s.f)], depth + 1)
            return None if x is None or y is None else x + y
        return (v,) if v is not None and v.p.const() is not None else None
    vs = under([], 0)
    return vs[0] if vs and all(v.p == vs[0].p for v in vs) else None


def np_extreme(kind, arg=False):
    def f(it, args, kw):
        v = args[0]
        a = as_arr(it, v)
        axis = kw.get('axis', args[1] if len(args) > 1 else None)
        if axis is not None:
            if len(a.shape) == 2 and not arg:
                a = a.copy()
                ax = int(axis) % 2

                def fn(it, idx):
                    c = constant(it, a, idx[0], ax)
                    if c is not None and valid(it, a.shape[ax] > 0):
                        return c
                    row = Arr([a.shape[ax]], lambda it, j: a.el(it, [j[0], idx[0]] if ax == 0 else [idx[0], j[0]]))
                    return extreme_value(it, extreme(it, row, kind))
                return Arr([a.shape[1 - ax]], fn)
            raise Unsupported('axis')
        if not a.shape:
            return a.el(it, [])
        e = extreme(it, a, kind)
        if arg:
            if len(a.shape) != 1:
                raise Unsupported('position in a matrix')
            return mkint(e.pos[0])
        return extreme_value(it, e)
    return f


def np_sum(it, args, kw):
    a = as_arr(it, args[0]).copy()
    axis = kw.get('axis', args[1] if len(args) > 1 else None)
    if axis is None:
        if len(a.shape) == 1:
            return R.sum_values(it, z3.IntVal(0), a.shape[0], lambda k: a.el(it, [k]))
        if not a.shape:
            return a.el(it, [])
        def total(idx):
            q = len(idx)
            if q == len(a.shape):
                return a.el(it, idx)
            return R.sum_values(it, z3.IntVal(0), a.shape[q], lambda k: total(idx + [k]))
        if it.w.exact:
            return total([])
        raise Unsupported('sum of all elements of a matrix')
    ax = int(axis) % len(a.shape)
    if len(a.shape) == 1:
        return R.sum_values(it, z3.IntVal(0), a.shape[0], lambda k: a.el(it, [k]))
    if len(a.shape) == 2:
        return Arr([a.shape[1 - ax]], lambda it, idx: R.sum_values(it, z3.IntVal(0), a.shape[ax], lambda k: a.el(it, [k, idx[0]] if ax == 0 else [idx[0], k])), a.obj)
    raise Unsupported('sum')


def np_diag(it, args, kw):
    a = as_arr(it, args[0]).copy()
    k = iz(kw.get('k', args[1] if len(args) > 1 else 0))
    main = z3.is_int_value(k) and k.as_long() == 0
    if len(a.shape) == 2:
        n, m = a.shape
        if main:
            d = n if R.same_dim(it, n, m) else z3.If(n <= m, n, m)
            return Arr([d], lambda it, idx: a.el(it, [idx[0], idx[0]]), a.obj)
        r, c = z3.If(k >= 0, 0, -k), z3.If(k >= 0, k, 0)
        p, q = n - r, m - c
        d = z3.If(p <= q, p, q)
        if not valid(it, d >= 0):
            raise Unsupported('a diagonal outside of the matrix')
        return Arr([z3.simplify(d)], lambda it, idx: a.el(it, [z3.simplify(idx[0] + r), z3.simplify(idx[0] + c)]), a.obj)
    if len(a.shape) != 1:
        raise Unsupported('diagonal')
    zero = 0 if a.obj else 0.0
    n = z3.simplify(a.shape[0] + z3.If(k >= 0, k, -k))
    c = z3.If(k >= 0, k, 0)
    return Arr([n, n], lambda it, idx: a.el(it, [z3.simplify(idx[1] - c)]) if it.branch(idx[1] - idx[0] == k) else zero, a.obj)


def repeat(it, seq, n):
    """[x] * n for a symbolic n: read as an array"""
    if len(seq) != 1 or not valid(it, n >= 0):
        raise Unsupported('repeated sequence')
    x = it.concrete(seq[0])
    if isinstance(x, (list, tuple)):
        row = as_arr(it, list(x)).copy()
        return Arr([n] + list(row.shape), lambda it, idx: row.el(it, idx[1:]), row.obj, row.dtype)
    return Arr([n], lambda it, idx: x, tonum(x) is None)


def np_outer(it, args, kw):
    a, b = as_arr(it, args[0]).copy(), as_arr(it, args[1]).copy()
    return Arr([a.shape[0], b.shape[0]], lambda it, idx: it.binop('*', a.el(it, idx[:1]), b.el(it, idx[1:])), a.obj or b.obj)


class LinAlgError(ValueError):
    pass


def unknown_matrix(hint, shape=None):
    """a result of which nothing is assumed"""
    def f(it, args, kw):
        a = as_arr(it, args[0])
        n = it.ghost.setdefault('nunk', 0)
        it.ghost['nunk'] += 1
        name = '%s%d' % (hint, n)
        if it.choose('raise %s' % name):
            raise PyRaise(LinAlgError, ('singular',))
        sh = a.shape if shape is None else shape(a, [as_arr(it, x) for x in args])
        return Arr(sh, lambda it, idx: Num(app(it, name, idx), 'np'))
    return f


def unknown_number(hint):
    def f(it, args, kw):
        return Num(it.th.fresh(hint), 'np')
    return f


def np_all_any(which):
    def f(it, args, kw):
        v = it.concrete(args[0])
        if isinstance(v, (SBool, bool)):
            return v
        return R.quantified(it, as_arr(it, v), which)
    return f


def np_isnan(it, args, kw):
    v = it.concrete(args[0])
    if isinstance(v, float):
        return v != v
    if tonum(v) is not None:
        return False
    raise Unsupported('isnan')


def np_stack(it, args, kw):
    vs = [as_arr(it, v).copy() for v in args[0]]
    axis = kw.get('axis', 0)
    axis = axis if isinstance(axis, int) else None
    if axis is None or len(vs) != 2:
        raise Unsupported('stack')
    for x, y in zip(vs[0].shape, vs[1].shape):
        if not R.same_dim(it, x, y) and not it.branch(x == y):
            raise PyRaise(ValueError, ('all input arrays must have the same shape',))
    sh = list(vs[0].shape)
    axis = axis % (len(sh) + 1)
    sh.insert(axis, z3.IntVal(len(vs)))

    def fn(it, idx):
        rest = idx[:axis] + idx[axis + 1:]
        return vs[0].el(it, rest) if it.branch(idx[axis] == 0) else vs[1].el(it, rest)
    return Arr(sh, fn)


# ------------------------------------------------------------------ intervals with a ghost member
class GI(Sym):
    """an interval known only by contract: proper endpoints lo <= hi, and a ghost member m (or none)"""
    is_interval = True

    def __init__(self, m=None, lo=None, hi=None, key=None, over=()):
        self.m, self._lo, self._hi, self.key = m, lo, hi, key
        self.over = over         # intervals that contain this one
        self.k0 = ('GI', m, lo, hi, key)

    def k(self):
        return self.k0

    def end(self, it, which):
        v = self._lo if which == 'lo' else self._hi
        if v is None:
            key = (which,) + self.k()
            if key not in it.th.table:
                it.th.table[key] = it.th.fresh(which, True)
                for o in self.over:
                    x, y = it.th.z(it.th.table[key]), it.th.z(o.end(it, which))
                    it.th.fixed.append(x >= y if which == 'lo' else x <= y)
            v = it.th.table[key]
            if which == 'lo':
                self._lo = v
            else:
                self._hi = v
            if self.m is not None:
                it.th.fixed.append(it.th.z(v) <= it.th.z(self.m) if which == 'lo' else it.th.z(v) >= it.th.z(self.m))
        return v

    def attr(self, it, name, fact):
        key = (name, self.m, self.key)
        if self.key is None or True:
            key = (name,) + self.k()
        if key not in it.th.table:
            p = it.th.fresh(name)
            it.th.table[key] = p
            for f in fact(it.th.z(p)):
                it.th.fixed.append(f)
        return Num(it.th.table[key], 'float')

    def isinst(self, it, t):
        if isinstance(t, ClassVal):
            return t.name == 'ClassicalArithmetic' or t.name == 'BaseTools'
        return t == 'ClassicalArithmetic'

    def getattr(self, it, name):
        th = it.th
        zm = th.z(self.m) if self.m is not None else None
        if name in ('a', 'inf'):
            return Num(self.end(it, 'lo'), 'float')
        if name in ('b', 'sup'):
            return Num(self.end(it, 'hi'), 'float')
        if name == 'mag':
            return self.attr(it, name, lambda z: [z >= 0] + ([zm <= z, -zm <= z] if zm is not None else []))
        if name == 'mig':
            return self.attr(it, name, lambda z: [z >= 0] + ([z3.Or(zm >= z, -zm >= z)] if zm is not None else []))
        if name in ('mid',):
            lo, hi = th.z(self.end(it, 'lo')), th.z(self.end(it, 'hi'))
            return self.attr(it, name, lambda z: [z3.Implies(lo <= hi, z3.And(lo <= z, z <= hi))])
        if name in ('rad', 'wid'):
            return self.attr(it, name, lambda z: [z >= 0])
        if name == 'copy':
            return Extern('copy', lambda it, a, k: self)
        if name == '__class__':
            return it.module_get(it.w.module(PYX), 'ClassicalArithmetic')
        if name in ('__iter__', '__len__', 'shape', '_data', 'data'):
            raise PyRaise(AttributeError, (name,))
        raise Unsupported('attribute %s of an interval known by contract' % name)

    def truth(self, it):
        return True

    def contains(self, it, x):
        n = tonum(it.concrete(x))
        if n is None:
            raise Unsupported('membership')
        z = it.th.z
        return SBool(z3.And(z(self.end(it, 'lo')) <= z(n.p), z(n.p) <= z(self.end(it, 'hi'))))

    def unop(self, it, op):
        if op == '-':
            return GI(None if self.m is None else -self.m, None if self._hi is None else -self._hi, None if self._lo is None else -self._lo, ('neg', self.key))
        if op == '+':
            return self
        if op == 'abs':
            return GI(None if self.m is None else it.th.abs(self.m), key=('abs', self.k()))
        raise Unsupported('unary')

    def binop(self, it, op, other, reflected):
        other = it.concrete(other)
        if isinstance(other, IntV):
            other = other.num(it)
        n = tonum(other)
        if n is not None:
            om, ok, o = n.p, ('n', n.p), None
        elif isinstance(other, GI):
            om, ok, o = other.m, other.k(), other
        else:
            return NotImplemented
        a, b = (om, self.m) if reflected else (self.m, om)
        ka, kb = (ok, self.k()) if reflected else (self.k(), ok)
        key = (op, ka, kb)
        if op == '/':
            div = self if reflected else o
            self.divide(it, div, n)
        if a is None or b is None:
            m = None
        elif op == '+':
            m = a + b
        elif op == '-':
            m = a - b
        elif op == '*':
            m = a * b
        elif op == '/':
            m = it.th.quot(a, b)
        else:
            return NotImplemented
        return GI(m, key=key)

    def divide(self, it, div, n):
        """contract of the division: ZeroDivisionError exactly if the divisor contains zero"""
        if div is None:
            f = it.th.z(n.p) == 0
        elif div.m is None:
            lo, hi = div.end(it, 'lo'), div.end(it, 'hi')
            f = z3.And(it.th.z(lo) <= 0, it.th.z(hi) >= 0)
        else:
            # it raises whenever the member is zero, and may raise otherwise
            if not it.ghost.get('lazy') and not it.ghost.get('binders'):
                q = it.ghost.setdefault('ndiv', 0)
                it.ghost['ndiv'] += 1
                if it.choose('division raises %d' % q):
                    raise PyRaise(ZeroDivisionError)
            it.assume(it.th.z(div.m) != 0)
            return
        if it.ghost.get('lazy') or it.ghost.get('binders'):
            it.assume(z3.Not(f))
        elif it.branch(f):
            raise PyRaise(ZeroDivisionError)

    def compare(self, it, op, other, reflected):
        """contract of the comparisons (P10): by endpoints"""
        other = it.concrete(other)
        if isinstance(other, IntV):
            other = other.num(it)
        n = tonum(other)
        if n is None and not isinstance(other, GI):
            raise Unsupported('comparison of an interval with %r' % (other,))
        z = it.th.z
        a, b = z(self.end(it, 'lo')), z(self.end(it, 'hi'))
        c, d = (z(n.p), z(n.p)) if n is not None else (z(other.end(it, 'lo')), z(other.end(it, 'hi')))
        if reflected:
            a, b, c, d = c, d, a, b
        return SBool({'<': z3.And(a < c, b < d), '<=': z3.And(a <= c, b <= d), '>': z3.And(a > c, b > d),
                      '>=': z3.And(a >= c, b >= d), '==': z3.And(a == c, b == d), '!=': z3.Or(a != c, b != d)}[op])

    def __repr__(self):
        return 'GI(%r)' % (self.m,)


def kind_of(it, lo, hi, body, fs):
    if len(fs) > 6:
        raise Unsupported('decisions in the body of a sum')
    b = R.Binder(it, 'k', lo, hi)
    b.g += fs
    try:
        with b as k:
            return it.concrete(body(k))
    except R.Split as s:
        if not R.mentions(s.f, {k.decl().name()}):
            raise
        f = z3.Not(s.f)
        b = R.Binder(it, 'k', lo, hi)
        b.g += fs + [f]
        with b:
            ok = it.feasible(R.guards(it))
        return kind_of(it, lo, hi, body, fs + [f if ok else s.f])


def gi_sum(it, lo, hi, body):
    """sum() of interval elements: contains the sum of the members (induction over the contract of +)"""
    lo, hi = iz(lo), iz(hi)
    before = set(it.th.atoms)
    try:
        with R.Binder(it, 'k', lo, hi) as k:
            v = it.concrete(body(k))
            R.note_new(it, before, {k.decl().name()})
    except R.Split as s:
        # one of the cases tells what kind of elements these are
        v = kind_of(it, lo, hi, body, [])
    if isinstance(v, GI):
        if v.m is None:
            return GI(None, key=('sum', str(lo), str(hi), v.k()))

        def member(j):
            w = it.concrete(body(j))
            if isinstance(w, GI):
                return Num(w.m, 'np')
            return w
        return GI(R.sum_term(it, lo, hi, member), key=('sum', str(lo), str(hi), v.k()))
    if it.w.exact:
        return NotImplemented
    return Num(it.th.fresh('flsum'), 'np')


def b_sum(it, args, kw):
    v = args[0]
    if isinstance(v, Inst) and '_data' in v.f:
        v = v.f['_data']
    if isinstance(v, Arr) and len(v.shape) == 1 and not z3.is_int_value(v.shape[0]):
        a = v.copy()
        s = R.sum_values(it, z3.IntVal(0), a.shape[0], lambda k: a.el(it, [k]))
        return s if len(args) == 1 else it.binop('+', args[1], s)
    acc = args[1] if len(args) > 1 else 0
    for x in it.iterate(args[0]):
        acc = it.binop('+', acc, x)
    return acc


def isnan_contract(it, fn, args, kw):
    """isnan: whether an endpoint is NaN; an interval with a member has numbers as endpoints"""
    v = it.concrete(args[0])
    if isinstance(v, Inst) and '_data' in v.f:
        d = v.f['_data']
        d = d.copy()
        return Arr(d.shape, lambda it, idx: unknown_nan(it, d.el(it, idx)), False, 'bool')
    return unknown_nan(it, v)


def unknown_nan(it, v):
    if isinstance(v, GI) and v.m is None and v._lo is None:
        b = ('nan',) + v.k()
        if b not in it.th.table:
            it.th.table[b] = z3.FreshBool('nan')
        return SBool(it.th.table[b])
    return False


def intersection_contract(it, fn, args, kw):
    """intersection (proved in P12 for the elements): a point of both operands is in the result"""
    x, y = it.concrete(args[0]), it.concrete(args[1])

    def one(it, p, q):
        if not isinstance(p, GI) or not isinstance(q, GI) or p.m is None or q.m is None:
            raise Unsupported('intersection of intervals without members')
        if p.m != q.m:
            it.oblige('the intersected intervals have the solution in common', it.th.z(p.m) == it.th.z(q.m))
        return GI(p.m, key=('meet', p.k(), q.k()), over=(p, q))
    if isinstance(x, GI):
        return one(it, x, y)
    ax, ay = as_arr(it, x).copy(), as_arr(it, y).copy()
    n = it.ghost.setdefault('nmeet', 0)
    it.ghost['nmeet'] += 1
    for a, b in zip(ax.shape, ay.shape):
        if not R.same_dim(it, a, b):
            raise Unsupported('intersection of unknown shapes')
    g = [z3.Int('meet%d_%d' % (n, q)) for q in range(len(ax.shape))]
    with_range = z3.And([z3.And(i >= 0, i < d) for i, d in zip(g, ax.shape)])
    it.ghost.setdefault('binders', []).append(('meet', [with_range]))
    hook = it.ghost.get('at meet')
    if hook:
        hook(g)
    p, q = ax.el(it, g), ay.el(it, g)
    if p.m is None or q.m is None:
        raise Unsupported('intersection of intervals without members')
    it.oblige('the intersected boxes have the solution in common', it.th.z(p.m) == it.th.z(q.m))
    it.ghost['binders'].pop()
    return box(it, ax.shape, lambda it, idx: GI(ax.el(it, idx).m, key=('meet', n, ax.el(it, idx).k()), over=(ax.el(it, idx), ay.el(it, idx))))


def box(it, shape, fn):
    """an ArrayInterval with these elements"""
    cls = it.module_get(it.w.module(KI), 'ArrayInterval')
    return it.call(cls, [Arr(shape, fn, True)], {})


def gbox(it, name, shape, member=None):
    """a symbolic interval array: members name_m(idx) (or given), endpoints name_lo, name_hi"""
    def fn(it, idx):
        m = member(idx) if member else app(it, name, idx)
        return GI(m, key=('in', name, tuple(i.sexpr() for i in idx)))
    return box(it, shape, fn)


def member(it, v):
    v = it.concrete(v)
    if isinstance(v, GI):
        return v.m
    n = tonum(v)
    return None if n is None else n.p


def encloses(it, name, v, x):
    """obligation: the interval contains the number x"""
    v = it.concrete(v)
    z = it.th.z
    if isinstance(v, GI) and v.m is None:
        it.oblige(name, z3.And(z(v.end(it, 'lo')) <= z(x), z(x) <= z(v.end(it, 'hi'))))
    elif member(it, v) is None:
        raise Unsupported('not an interval: %r' % (v,))
    else:
        m = member(it, v)
        it.oblige(name, z(m) == z(x))


# ------------------------------------------------------------------ loops
def stored(body):
    """names a block may bind, and names of objects it may change"""
    names, objs = set(), set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    objs.add(b.id)
                else:
                    raise Unsupported('store into an unnamed object')
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                names.add(n.target.id)
                objs.add(n.target.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                b = n.func.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and n.func.attr in ('append', 'insert', 'extend', 'pop', 'remove', 'clear', 'sort', 'update', 'setdefault', 'reverse', 'fill', 'resize', 'put', 'popitem'):
                    objs.add(b.id)
            elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    raise Unsupported('global in a loop')
    return names, objs


class Invariant:
    """subclass: `havoc(it, env, k)` gives the changed variables values of an arbitrary state that satisfies the invariant
    (assumptions by it.assume or by construction); `prove(it, env, k, stage)` states that the current state satisfies it.
    k is the value of the loop variable (for) or None (while)."""
    keep = ()
    may_share = ()            # pairs of names that `havoc` also lets share an object
    objs = ()

    def havoc(self, it, env, k):
        raise NotImplementedError

    def prove(self, it, env, k, stage):
        raise NotImplementedError

    def exit(self, it, env):
        pass


def lost(it, idx):
    raise Unsupported('an array changed by a loop, about which its contract says nothing')


def spoil(v, seen):
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Arr):
        v.base = None
        v.changed(lost)
    elif isinstance(v, Inst):
        for x in v.f.values():
            spoil(x, seen)
    elif isinstance(v, list):
        for x in v:
            spoil(x, seen)
        v[:] = [POISON]


def poison(it, env, body, keep):
    """everything the block may change becomes unusable until the contract gives it a value"""
    names, objs = stored(body)
    seen = set()
    for n in objs - set(keep):
        e = env.find(n)
        if e is not None:
            spoil(e.v[n], seen)
    for n in (names | objs) - set(keep):
        e = env.find(n)
        if e is not None:
            e.v[n] = POISON


def state_of(v, out, seen):
    if id(v) in seen:
        return
    seen[id(v)] = v
    if isinstance(v, Arr):
        out.append((v, v.version))
    elif isinstance(v, Inst):
        for n in sorted(v.f):
            out.append((v, n, id(v.f[n])))
            seen[('f', id(v), n)] = v.f[n]
            state_of(v.f[n], out, seen)
    elif isinstance(v, (list, tuple)):
        out.append((id(v), tuple(id(x) for x in v)))
        for x in v:
            state_of(x, out, seen)


def frame(it, env, havocked):
    """identity and version of everything that is reachable and not given a value by the contract"""
    out, seen = [], {}
    e = env
    while e is not None:
        for n in sorted(e.v):
            if n not in havocked and e.v[n] is not POISON:
                out.append((n, id(e.v[n])))
                seen[(n, id(e))] = e.v[n]
                state_of(e.v[n], out, seen)
        e = e.parent
    return out, seen


def check_frame(it, env, before, havocked):
    now, _ = frame(it, env, havocked)
    if len(now) != len(before[0]) or any(len(a) != len(b) or any(x is not y and x != y for x, y in zip(a, b)) for a, b in zip(now, before[0])):
        raise Unsupported('the loop changes something its contract does not mention')


def cells(v, out, depth=0):
    """the mutable objects a value consists of"""
    if isinstance(v, Arr):
        out.append(v.base[0] if v.base is not None else v)
    elif isinstance(v, Inst):
        out.append(v)
        for x in v.f.values():
            if depth < 3:
                cells(x, out, depth + 1)
    elif isinstance(v, (list, tuple, dict)) or isinstance(v, Sym) and hasattr(v, 'append'):
        if not isinstance(v, tuple):
            out.append(v)
        if depth < 3 and isinstance(v, (list, tuple)):
            for x in v:
                cells(x, out, depth + 1)
    return out


def aliases(s, env):
    """an object that the loop changes in place must not be shared: the contract gives every variable its own value"""
    allv = {}
    e = env
    while e is not None:
        for n, v in e.v.items():
            allv.setdefault(n, v)
        if e.parent is None or e.parent.func is None:
            break
        e = e.parent
    for n in s.objs:
        if n not in allv:
            continue
        mine = {id(c) for c in cells(allv[n], [])}
        for m, v in allv.items():
            if m != n and frozenset((m, n)) not in s.may_share and any(id(c) in mine for c in cells(v, [])):
                raise Unsupported('%s and %s share an object that the loop changes' % (n, m))


def prove_in(s, it, env, k, stage):
    """states the invariant; what it assumes about its own variables ends with it"""
    pc = list(it.pc)
    aliases(s, env)
    s.prove(it, env, k, stage)
    it.pc[:] = pc
    it.ghost['epoch'] = it.ghost.get('epoch', 0) + 1


def for_loop(inv):
    def run(it, st, env):
        seq = it.eval(st.iter, env)
        if isinstance(seq, range):
            seq = SymRange(z3.IntVal(seq.start), z3.IntVal(seq.stop), seq.step)
        if not isinstance(seq, SymRange) or st.orelse or not isinstance(st.target, ast.Name):
            raise Unsupported('the loop does not fit its contract')
        lo, hi, step = seq.lo, seq.hi, seq.step
        if step not in (1, -1):
            raise Unsupported('step')
        s = inv()
        n = it.ghost.setdefault('nloop', 0)
        it.ghost['nloop'] += 1
        s.lo, s.hi, s.env = lo, hi, env
        s.objs = stored([st])[1]
        prove_in(s, it, env, lo, 'entry')
        if it.choose('loop %d runs' % n):
            poison(it, env, st.body, s.keep)
            k = z3.Int('it%d' % n)
            it.assume(z3.And(lo <= k, k < hi) if step == 1 else z3.And(hi < k, k <= lo))
            if not it.feasible([]):
                raise PathEnd()
            s.havoc(it, env, k)
            it.assign(st.target, mkint(k), env)
            h = set().union(*stored([st]))
            fr = frame(it, env, h)
            try:
                it.exec_block(st.body, env)
            except Cont:
                pass
            except Brk:
                return s.exit(it, env)
            check_frame(it, env, fr, h)
            prove_in(s, it, env, z3.simplify(k + step), 'preserved')
            raise PathEnd()
        poison(it, env, [st], s.keep)
        if it.branch(lo < hi if step == 1 else lo > hi):
            s.havoc(it, env, hi)
        else:
            s.havoc(it, env, lo)
        s.exit(it, env)
    return LoopSpec(run)


def while_loop(inv):
    def run(it, st, env):
        if st.orelse:
            raise Unsupported('the loop does not fit its contract')
        s = inv()
        n = it.ghost.setdefault('nloop', 0)
        it.ghost['nloop'] += 1
        s.env = env
        s.objs = stored(st.body)[1]
        prove_in(s, it, env, None, 'entry')
        body = it.choose('loop %d runs' % n)
        poison(it, env, st.body, s.keep)
        s.havoc(it, env, None)
        c = it.truth(it.eval(st.test, env))
        if c != body:
            raise PathEnd()
        if body:
            h = set().union(*stored(st.body))
            fr = frame(it, env, h)
            try:
                it.exec_block(st.body, env)
            except Cont:
                pass
            except Brk:
                return s.exit(it, env)
            check_frame(it, env, fr, h)
            prove_in(s, it, env, None, 'preserved')
            raise PathEnd()
        s.exit(it, env)
    return LoopSpec(run)


# ------------------------------------------------------------------ worlds
def np_world(root='/repo', ghost=True, exact=False):
    w = World(root)
    w.exact = exact
    e = w.externs
    e['::range'] = sym_range
    e['::repeat'] = repeat
    for n, v in (('ones', 1.0), ('zeros', 0.0), ('empty', 0.0)):
        e['numpy.' + n] = const_arr(v)
    del e['numpy.empty']
    e.update({
        'numpy.full': np_full, 'numpy.eye': np_eye, 'numpy.ones_like': ones_like, 'numpy.zeros_like': zeros_like,
        'numpy.array': np_array, 'numpy.asarray': np_asarray, 'numpy.copy': np_copy, 'numpy.vectorize': np_vectorize,
        'numpy.abs': np_map(_abs), 'numpy.absolute': np_map(_abs), 'numpy.fabs': np_map(_abs), 'numpy.sign': np_map(_sign),
        'numpy.maximum': np_bin('max'), 'numpy.minimum': np_bin('min'),
        'numpy.min': np_extreme('min'), 'numpy.amin': np_extreme('min'), 'numpy.max': np_extreme('max'), 'numpy.amax': np_extreme('max'),
        'numpy.argmin': np_extreme('min', True), 'numpy.argmax': np_extreme('max', True),
        'numpy.sum': np_sum, 'numpy.diag': np_diag, 'numpy.outer': np_outer, 'numpy.isnan': np_isnan,
        'numpy.all': np_all_any('all'), 'numpy.any': np_all_any('any'), 'numpy.stack': np_stack,
        'numpy.linalg.inv': unknown_matrix('inv'), 'numpy.linalg.norm': unknown_number('norm'),
        'numpy.linalg.solve': unknown_matrix('solve', lambda a, xs: xs[1].shape),
        'numpy.matmul': lambda it, a, k: it.binop('@', a[0], a[1]), 'numpy.dot': lambda it, a, k: it.binop('@', a[0], a[1]),
    })
    w.values.update({'numpy.inf': INF, 'numpy.nan': float('nan'), 'math.inf': INF})
    e['sum'] = b_sum
    if ghost:
        e['::sum'] = gi_sum
        w.contracts[(UT, 'isnan')] = isnan_contract
        w.contracts[(PRE, 'intersection')] = intersection_contract
        w.contracts[(KI, 'SingleInterval')] = single_contract
        w.contracts[(UT, 'dist')] = lambda it, fn, args, kw: Num(it.th.fresh('dist'), 'np')
        w.contracts[(UT, 'compmat')] = compmat_contract
    return w


def single_contract(it, fn, args, kw):
    """SingleInterval(l, r): the interval with these endpoints (P11)"""
    l, r = tonum(it.concrete(args[0])), tonum(it.concrete(args[1]))
    if l is None or r is None or kw.get('midRadQ') is True:
        return INLINE
    if l.p == r.p:
        return GI(l.p, l.p, l.p, key=('point', l.p))
    z = it.th.z
    if kw.get('sortQ', True) is True:
        l, r = Num(it.th.minmax('min', [l.p, r.p]), 'float'), Num(it.th.minmax('max', [l.p, r.p]), 'float')
    elif not valid(it, z(l.p) <= z(r.p)):
        raise Unsupported('an interval with unordered endpoints')
    return GI(None, l.p, r.p, key=('ends', l.p, r.p))


def compmat_contract(it, fn, args, kw):
    a = as_arr(it, args[0])
    n = it.ghost.setdefault('ncomp', 0)
    it.ghost['ncomp'] += 1
    return Arr(a.shape, lambda it, idx: Num(app(it, 'compmat%d' % n, idx), 'np'))
