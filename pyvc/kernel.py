"""The kernel's environment: assumed contracts of libc, math and numpy, and the verified contracts of the
kernel's own helpers, used at their call sites."""
from fractions import Fraction
import z3
from .terms import K, Poly, is_double
from .ints import IntV
from .interp import (World, Extern, Num, SBool, Inst, ClassVal, PyRaise, Bound, INLINE, tonum, Unsupported,
                     explore, FuncVal)

PYX = 'intvalpy/kernel/interval_arithmetics.pyx'
INF = float('inf')


def real(it, v):
    n = tonum(v)
    if n is None:
        if isinstance(v, Inst):
            raise PyRaise(TypeError)
        raise Unsupported('not a finite real: %r' % (v,))
    return n


# ---- assumed contracts
def fesetround(it, args, kw):
    it.rm = args[0]
    return 0


def fegetround(it, args, kw):
    return it.rm


def nextafter(it, args, kw):
    x, y = it.concrete(args[0]), it.concrete(args[1])
    if isinstance(x, float) and isinstance(y, float):
        if x in (INF, -INF) or x != x:
            import math
            return math.nextafter(x, y)
    if isinstance(y, float) and y in (INF, -INF):
        n = real(it, x)
        if not it.th.is_rep(n.p):
            raise Unsupported('nextafter of a value that is not a double')
        return Num(it.th.step('succ' if y > 0 else 'pred', n.p), 'c')
    raise Unsupported('nextafter towards a finite value')


def fabs(it, args, kw):
    v = it.concrete(args[0])
    if isinstance(v, float):
        return abs(v)
    n = real(it, v)
    if it.truth(it.compare('>=', n, 0)):
        return Num(n.p, 'float' if n.kind != 'ld' else 'ld')
    return Num(-n.p, 'float' if n.kind != 'ld' else 'ld')


def floorceil(which):
    def f(it, args, kw):
        n = real(it, args[0])
        th = it.th
        key = (which, n.p)
        if key not in th.table:
            r = th.fresh(which, True)
            i = z3.Int('int:' + repr(r))
            zr, zp = th.z(r), th.z(n.p)
            th.fixed.append(zr == z3.ToReal(i))
            th.fixed.append(z3.And(zr <= zp, zp < zr + 1) if which == 'floor' else z3.And(zp <= zr, zr < zp + 1))
            th.table[key] = r
        return Num(th.table[key], 'c')
    return f


DBL_MAX = (2 - Fraction(1, 2 ** 52)) * Fraction(2) ** 1023


def libm(name, accuracy_note=None):
    """libm function, within one unit in the last place: pred(v) <= f(x) <= succ(v)"""
    def f(it, args, kw):
        x = it.concrete(args[0])
        if isinstance(x, Inst):
            raise PyRaise(TypeError)
        if isinstance(x, float) and (x in (INF, -INF) or x != x) and name == 'exp':
            return x if x != x else INF if x > 0 else 0.0
        if isinstance(x, float) and x != x:
            return x
        if isinstance(x, float) and x in (INF, -INF):
            raise PyRaise(ValueError)
        n = real(it, x)
        th = it.th
        val = true_fun(it, name, n.p)
        if name == 'exp':
            big = th.z(val) > z3.RealVal(str(DBL_MAX.numerator))
            if it.branch(big):
                raise PyRaise(OverflowError)
        key = ('libm', name, n.p)
        if key not in th.table:
            v = th.fresh('libm_' + name, True)
            th.table[key] = v
            lo, hi = th.step('pred', v), th.step('succ', v)
            th.fixed.append(z3.And(th.z(lo) <= th.z(val), th.z(val) <= th.z(hi)))
            if name == 'exp':
                th.fixed.append(th.z(v) >= 0)
            if name in ('sin', 'cos'):
                th.fixed.append(z3.And(th.z(v) >= -1, th.z(v) <= 1))
        return Num(th.table[key], 'float')
    return f


def true_fun(it, name, p):
    th = it.th
    val = th.fun(name, p, increasing=name in ('exp', 'log'))
    if ('tf', name, p) not in th.table:
        th.table[('tf', name, p)] = val
        z = th.z(val)
        if name == 'exp':
            th.fixed.append(z > 0)
            th.fixed.append(z3.Implies(th.z(p) == 0, z == 1))
        if name in ('sin', 'cos'):
            th.fixed.append(z3.And(z >= -1, z <= 1))
    return val


def logl(it, args, kw):
    x = it.concrete(args[0])
    n = real(it, x)
    th = it.th
    if not it.branch(th.z(n.p) > 0):
        raise Unsupported('logl of a nonpositive number')
    val = true_fun(it, 'log', n.p)
    key = ('logl', n.p)
    if key not in th.table:
        v = th.fresh('logl')
        th.table[key] = v
        e = z3.Q(1, 2 ** 63)
        zv, zt = th.z(v), th.z(val)
        th.fixed.append(z3.Implies(zt >= 0, z3.And(zv - zt <= e * zt, zt - zv <= e * zt)))
        th.fixed.append(z3.Implies(zt <= 0, z3.And(zv - zt <= -e * zt, zt - zv <= -e * zt)))
    return Num(th.table[key], 'ld')


def np_unary(name):
    def f(it, args, kw):
        v = it.concrete(args[0])
        if isinstance(v, Inst):
            u = v.cls.lookup(it, '__array_ufunc__')
            if u is None:
                raise PyRaise(TypeError)
            return it.call(Bound(u, v), [Extern('numpy.' + name), '__call__', v], {})
        raise Unsupported('np.%s of %r' % (name, v))
    return f


def np_binary(name):
    def f(it, args, kw):
        a, b = it.concrete(args[0]), it.concrete(args[1])
        for v in (a, b):
            if isinstance(v, Inst):
                u = v.cls.lookup(it, '__array_ufunc__')
                if u is None:
                    raise PyRaise(TypeError)
                return it.call(Bound(u, v), [Extern('numpy.' + name), '__call__', a, b], {})
        raise Unsupported('np.' + name)
    return f


def np_vectorize(it, args, kw):
    f = args[0]

    def call(it, a, k):
        if all(isinstance(it.concrete(x), (Num, Inst, int, float)) for x in a):
            return it.call(f, a, k)
        raise Unsupported('np.vectorize on arrays')
    return Extern('vectorized', call)


def kernel_world(root='/repo', contracts=True):
    w = World(root)
    w.cnames.update(FE_DOWNWARD='D', FE_UPWARD='U', FE_TONEAREST='N', FE_TOWARDZERO='Z',
                    fesetround=Extern('fesetround', fesetround), fegetround=Extern('fegetround', fegetround),
                    nextafter=Extern('nextafter', nextafter), nexttoward=Extern('nexttoward', nextafter),
                    fabs=Extern('fabs', fabs), fabsl=Extern('fabsl', fabs),
                    ceil=Extern('ceil', floorceil('ceil')), floor=Extern('floor', floorceil('floor')),
                    logl=Extern('logl', logl), exp=Extern('exp', libm('exp')),
                    sin=Extern('sin', libm('sin')), cos=Extern('cos', libm('cos')),
                    INFINITY=INF, NAN=float('nan'), DBL_MAX=float(DBL_MAX), DBL_MIN=2.0 ** -1022,
                    LDBL_EPSILON=Num(K(Fraction(1, 2 ** 63)), 'ld'))
    w.externs.update({
        'math.exp': libm('exp'), 'math.sin': libm('sin'), 'math.cos': libm('cos'), 'math.fabs': fabs,
        'math.floor': floorceil('floor'), 'math.ceil': floorceil('ceil'),
        'math.nextafter': nextafter,
        'numpy.vectorize': np_vectorize,
    })
    for n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'add', 'subtract'):
        w.externs['numpy.' + n] = np_unary(n)
    for n in ('add', 'subtract', 'multiply', 'divide', 'true_divide'):
        w.externs['numpy.' + n] = np_binary(n)
    w.values.update({'math.inf': INF, 'math.nan': float('nan'), 'numpy.inf': INF, 'numpy.nan': float('nan')})
    if contracts:
        for c in ('ClassicalArithmetic', 'KaucherArithmetic'):
            w.contracts[(PYX, c)] = ctor_contract
        w.contracts[(PYX, 'BaseTools.a')] = lambda it, fn, args, kw: args[0].f.get('::a', None) if '::a' in args[0].f else INLINE
        w.contracts[(PYX, 'BaseTools.b')] = lambda it, fn, args, kw: args[0].f.get('::b', None) if '::b' in args[0].f else INLINE
    return w


def ctor_contract(it, cls, args, kw):
    """C(l, r) has .a = l and .b = r (verified by specs.kernel.verify_ctor)"""
    if kw or len(args) != 2:
        raise PyRaise(TypeError)
    out = Inst(cls)
    for nm, v in zip(('::a', '::b'), args):
        v = it.concrete(v)
        if isinstance(v, IntV):
            v = v.num(it)
        if isinstance(v, Num):
            v = Num(v.p, v.kind if v.kind in ('num', 'int') else 'float')
            # an int result is within 2**53 by the domain of the property, hence a double
            it.th.add_rep(v.p) if v.kind == 'int' and v.p.const() is None else None
        elif isinstance(v, (int, float)):
            pass
        else:
            raise PyRaise(TypeError)
        out.f[nm] = v
    return out


def kmod(w):
    return w.module(PYX)


def mk(it, cname, a, b):
    cls = it.module_get(kmod(it.w), cname)
    return ctor_contract(it, cls, [a, b], {})


def ends(it, r):
    return it.concrete(it.getattr(r, 'a')), it.concrete(it.getattr(r, 'b'))
