"""Run-time contracts: the clauses of the properties evaluated against the real code.

A contract function takes plain literals (floats, ints, strings, tuples, lists), builds the operands,
runs the code of /repo and raises Violation when a clause of the property fails.  They serve to replay
the verifier's counterexamples, and as the labelled bounded stand-in where a proof is not available.
"""
import ast as _ast, ctypes, math, os, random, struct, sys, time, traceback
from fractions import Fraction

INF = math.inf
NAN = math.nan
DBL_MAX = sys.float_info.max
REG = {}            # contract name -> function
GEN = {}            # property -> list of (generator, weight)
BY_PROP = {}


class Violation(Exception):
    pass


def need(cond, msg, *details):
    if not cond:
        raise Violation(msg + (': ' + ', '.join('%r' % (d,) for d in details) if details else ''))


def contract(prop):
    def deco(f):
        REG[f.__name__] = f
        f.prop = prop
        return f
    return deco


def generator(prop, weight=1.0):
    """f(g) yields (contract function, args); a generator is restarted when it ends"""
    def deco(f):
        GEN.setdefault(prop, []).append((f, weight, False))
        return f
    return deco


def directed(prop):
    """as generator, but run once, completely"""
    def deco(f):
        GEN.setdefault(prop, []).append((f, 0, True))
        return f
    return deco


# ---------------------------------------------------------------- rounding mode
_libm = ctypes.CDLL('libm.so.6')
RN, RD, RU, RZ = 0, 0x400, 0x800, 0xc00


class mode:
    """run a block in an initial rounding mode and report the mode it leaves"""
    def __init__(self, m):
        self.m = m

    def __enter__(self):
        _libm.fesetround(self.m)
        return self

    def __exit__(self, *a):
        self.after = _libm.fegetround()
        _libm.fesetround(RN)
        return False


def call(f, m=RN):
    """-> ('ok', value) or ('raise', exception class), checking the rounding mode (P09)"""
    err = None
    val = None
    _libm.fesetround(m)
    try:
        try:
            val = f()
        except Exception as e:
            err = e
    finally:
        after = _libm.fegetround()
        _libm.fesetround(RN)
    if after != m:
        raise Violation('the rounding mode was %#x before and %#x after the call' % (m, after))
    return ('ok', val) if err is None else ('raise', err)


def ok(f, what='call', m=RN):
    st, v = call(f, m)
    if st == 'raise':
        raise Violation('%s raised %s: %s' % (what, type(v).__name__, v))
    return v


def raises(f, classes, what, m=RN):
    st, v = call(f, m)
    if st == 'ok':
        raise Violation('%s returned %r instead of raising' % (what, v))
    need(isinstance(v, classes), '%s raised the wrong exception' % what, type(v).__name__, str(v))
    return v


# ---------------------------------------------------------------- exact numbers
def F(x):
    return x if isinstance(x, Fraction) else Fraction(x) if isinstance(x, int) else Fraction(float(x))


def rnd(q):
    try:
        return float(q)
    except OverflowError:
        return INF if q > 0 else -INF


def rd(q):
    """the greatest double not above q"""
    f = rnd(q)
    if f == INF:
        return DBL_MAX
    if f == -INF:
        return -INF
    if Fraction(f) > q:
        f = math.nextafter(f, -INF)
    return f


def ru(q):
    return -rd(-q)


def ulps(f, k):
    for _ in range(abs(k)):
        f = math.nextafter(f, INF if k > 0 else -INF)
    return f


def isinf(x):
    return isinstance(x, float) and math.isinf(x)


def leq(x, q):
    """double or int x <= exact q"""
    x = num(x)
    if isinstance(x, float) and math.isinf(x):
        return x < 0
    return Fraction(x) <= q


def geq(x, q):
    x = num(x)
    if isinstance(x, float) and math.isinf(x):
        return x > 0
    return Fraction(x) >= q


def num(x):
    """result endpoint as Python int or float"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return int(x)
    return float(x)


def same(x, y):
    x, y = num(x), num(y)
    return x == y or (x != x and y != y)


# ---------------------------------------------------------------- generators of numbers
class Gen:
    def __init__(self, seed, pool=(), hints=()):
        self.r = random.Random(seed)
        self.pool = list(pool)
        self.hints = list(hints)

    def double(self, wild=0.06):
        """a finite double"""
        r = self.r
        if self.hints and r.random() < 0.7:
            v = r.choice(self.hints)
            k = r.random()
            if k < 0.6:
                return float(v)
            if k < 0.75:
                return -float(v)
            if k < 0.9:
                return ulps(float(v), r.randint(-3, 3))
            return float(v) * r.choice([0.5, 2.0, 1 + 2.0 ** -52, 3.0])
        k = r.random()
        if k < wild:
            c = r.random()
            if c < 0.25:
                return r.choice([-1, 1]) * math.ldexp(r.random() + 0.5, r.randint(-1074, 1020))
            if c < 0.5:
                return r.choice([-1, 1]) * 5e-324 * r.randint(0, 1000)
            if c < 0.75:
                return r.choice([-1, 1]) * r.choice([DBL_MAX, 2.0 ** 1023, 1e308, 2.0 ** -1022, 1e-300, 1e300])
            return struct.unpack('<d', struct.pack('<Q', r.getrandbits(64) & ~(1 << 62)))[0]
        if k < 0.22:
            return float(r.randint(-6, 6))
        if k < 0.34:
            return r.randint(-2000, 2000) / r.choice([1, 2, 4, 10, 10, 100, 1000, 3, 7])
        if k < 0.44 and self.pool:
            v = r.choice(self.pool)
            c = r.random()
            if c < 0.5:
                return float(v)
            if c < 0.65:
                return -float(v)
            if c < 0.9:
                return ulps(float(v), r.randint(-2, 2))
            return float(v) * r.choice([2.0, 0.5, -1.0, 3.0])
        if k < 0.5:
            return r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 1 + 2.0 ** -52, 1 - 2.0 ** -53, 2.0 ** 52, 2.0 ** 53])
        if k < 0.6:
            return ulps(math.ldexp(1.0, r.randint(-40, 40)), r.randint(-2, 2)) * r.choice([-1, 1])
        if k < 0.8:
            return r.uniform(-10, 10)
        return r.choice([-1, 1]) * math.ldexp(r.random() + 0.5, r.randint(-35, 35))

    def integer(self, bits=20):
        r = self.r
        k = r.random()
        if k < 0.5:
            return r.randint(-8, 8)
        if k < 0.75:
            return r.randint(-1000, 1000)
        if k < 0.9:
            v = self.ints()
            return v if abs(v) < 2 ** bits else r.randint(-5, 5)
        return r.randint(-2 ** bits, 2 ** bits)

    def ints(self):
        c = [int(v) for v in self.pool if v == v and abs(v) < 1e15 and float(v).is_integer()]
        return self.r.choice(c) * self.r.choice([1, -1]) if c else self.r.randint(-50, 50)

    def pair(self, f=None):
        """two doubles l <= r, with frequent special relations"""
        r = self.r
        f = f or self.double
        a = f()
        k = r.random()
        if k < 0.06:
            b = a
        elif k < 0.12:
            b = ulps(a, r.randint(1, 3))
        elif k < 0.18:
            b = -a
        elif k < 0.26:
            b = 0.0
        else:
            b = f()
        if not (abs(a) <= DBL_MAX and abs(b) <= DBL_MAX):
            return self.pair()
        return (a, b) if a <= b else (b, a)


def mined_constants(root, sub='intvalpy'):
    """numeric literals of the current source"""
    out = set()
    import re, tokenize, io
    for d, _, files in os.walk(os.path.join(root, sub)):
        for f in files:
            if f.endswith(('.py', '.pyx')):
                try:
                    text = open(os.path.join(d, f), encoding='utf-8-sig').read()
                except OSError:
                    continue
                text = re.sub(r'#.*', '', text)
                for m in re.finditer(r'(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)', text):
                    try:
                        v = float(m.group(1))
                    except ValueError:
                        continue
                    if abs(v) < 1e300:
                        out.add(v)
    return sorted(out)
