"""Symbolic executor for the Python subset of the package.

One run follows one path: `Run.branch` decides symbolic conditions by a prefix of recorded decisions
and queues the untaken feasible side, so `explore` covers every feasible path.  Loops over concrete
ranges are executed; any other loop needs a loop contract (invariant) supplied by the specification.
Calls are resolved by name: a function with a registered contract is replaced by its contract,
any other function of the package is executed in place.
"""
import ast, builtins, os, time
from fractions import Fraction
import z3
from .load import Module, Unsupported
from .terms import Poly, K, Theory, feasible, discharge, STATS, is_double, pow2


class PyRaise(Exception):
    def __init__(self, cls, args=(), obj=None):
        self.cls, self.args_, self.obj = cls, args, obj

    def __repr__(self):
        return 'raise %s' % getattr(self.cls, '__name__', self.cls)


class PathEnd(Exception):
    """the path is cut (infeasible, or closed by a loop contract)"""


class TooManyPaths(Unsupported):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ------------------------------------------------------------------ values
class Sym:
    """base of symbolic values"""
    def binop(self, it, op, other, reflected):
        return NotImplemented

    def unop(self, it, op):
        raise Unsupported('unary %s on %r' % (op, self))

    def compare(self, it, op, other, reflected):
        return NotImplemented

    def getattr(self, it, name):
        raise Unsupported('attribute %s of %r' % (name, self))

    def setattr(self, it, name, v):
        raise Unsupported('attribute store %s of %r' % (name, self))

    def getitem(self, it, key):
        raise Unsupported('subscript of %r' % (self,))

    def setitem(self, it, key, v):
        raise Unsupported('item store of %r' % (self,))

    def call(self, it, args, kw):
        raise Unsupported('call of %r' % (self,))

    def truth(self, it):
        raise Unsupported('truth of %r' % (self,))

    def iterate(self, it):
        raise Unsupported('iteration over %r' % (self,))

    def isinst(self, it, t):
        return False

    def contains(self, it, x):
        raise Unsupported('membership in %r' % (self,))


class SBool(Sym):
    def __init__(self, f):
        self.f = f

    def truth(self, it):
        return it.branch(self.f)

    def unop(self, it, op):
        if op == 'not':
            return SBool(z3.Not(self.f))
        raise Unsupported('arithmetic on a condition')

    def isinst(self, it, t):
        return t in ('bool', 'int', 'numbers.Number')

    def binop(self, it, op, other, reflected):
        if op in ('&', '|'):
            o = other
            if isinstance(o, bool):
                o = SBool(z3.BoolVal(o))
            if isinstance(o, SBool):
                return SBool(z3.And(self.f, o.f) if op == '&' else z3.Or(self.f, o.f))
        if op in ('+', '-', '*'):
            v = 1 if self.truth(it) else 0
            return it.binop(op, other, v) if reflected else it.binop(op, v, other)
        return NotImplemented

    def __repr__(self):
        return 'SBool(%s)' % self.f


class Num(Sym):
    """a real number known as a term.  kind: 'num' (a Python int or float), 'int', 'float',
    'np' (numpy scalar), 'c' (C double), 'ld' (C long double), 'real' (exact)"""
    def __init__(self, p, kind='num'):
        self.p, self.kind = p, kind

    def isinst(self, it, t):
        if t in ('numbers.Number', 'numbers.Real'):
            return True
        if t in ('int', 'float'):
            if self.kind == 'num':
                r = it.choose('isint:%r' % (self.p,))
                return r if t == 'int' else not r
            return (self.kind == 'int') == (t == 'int')
        if t == 'complex':
            return False
        if t in ('numpy.int_', 'numpy.int64', 'numpy.integer'):
            if self.kind == 'np':
                return it.choose('isnpint:%r' % (self.p,))
            return False
        if t in ('numpy.float64', 'numpy.floating', 'numpy.number', 'numpy.generic'):
            return self.kind == 'np'
        return False

    def truth(self, it):
        return it.branch(it.th.z(self.p) != 0)

    def unop(self, it, op):
        if op == '-':
            return Num(-self.p, self.kind if self.kind != 'c' else 'c')
        if op == '+':
            return self
        if op == 'abs':
            return it.num_abs(self)
        raise Unsupported('unary ' + op)

    def binop(self, it, op, other, reflected):
        o = tonum(other)
        if o is None:
            if isinstance(other, float):
                return self.special(it, op, other, reflected)
            return NotImplemented
        a, b = (o, self) if reflected else (self, o)
        return it.num_binop(op, a, b)

    def special(self, it, op, f, reflected):
        """arithmetic with an infinite or NaN float"""
        if f != f:
            return f
        if op in ('+', '-'):
            return -f if op == '-' and not reflected else f
        if op in ('*', '/'):
            if op == '/' and not reflected:
                return 0.0
            z = it.th.z(self.p)
            if it.branch(z == 0):
                if op == '/':
                    raise PyRaise(ZeroDivisionError)
                return float('nan')
            return f if it.branch(z > 0) else -f
        raise Unsupported('infinite operand')

    def compare(self, it, op, other, reflected):
        if isinstance(other, float) and (other != other or other in (float('inf'), float('-inf'))):
            if other != other:
                return op == '!='
            big = other > 0
            o = {'<': big, '<=': big, '>': not big, '>=': not big, '==': False, '!=': True}
            if reflected:
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            return o[op]
        o = tonum(other)
        if o is None:
            return NotImplemented
        a, b = (o, self) if reflected else (self, o)
        d = (a.p - b.p).const()
        if d is not None:
            return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0, '==': d == 0, '!=': d != 0}[op]
        f = it.th.factors.get(a.p - b.p)
        if f is not None:
            # the sign of a product from the signs of its factors
            x, y = it.th.z(f[0]), it.th.z(f[1])
            pos, neg = z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)), z3.Or(z3.And(x > 0, y < 0), z3.And(x < 0, y > 0))
            return SBool({'<': neg, '<=': z3.Not(pos), '>': pos, '>=': z3.Not(neg), '==': z3.Or(x == 0, y == 0), '!=': z3.And(x != 0, y != 0)}[op])
        x, y = it.th.z(a.p), it.th.z(b.p)
        return SBool({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op])

    def getattr(self, it, name):
        if name == 'copy' and self.kind == 'np':
            return Extern('copy', lambda it, a, k: self)
        if name in ('real',):
            return self
        raise PyRaise(AttributeError, (name,))

    def __repr__(self):
        return 'Num[%s](%r)' % (self.kind, self.p)


def tonum(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, bool):
        return Num(K(int(v)), 'int')
    if isinstance(v, int):
        return Num(K(v), 'int')
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return None
        return Num(K(Fraction(v)), 'float')
    return None


class Inst(Sym):
    def __init__(self, cls):
        self.cls = cls
        self.f = {}

    def getattr(self, it, name):
        if name in self.f:
            return self.f[name]
        if name == '__class__':
            return self.cls
        d = self.cls.lookup(it, name)
        if d is None:
            raise PyRaise(AttributeError, (name,))
        return it.bind(d, self)

    def setattr(self, it, name, v):
        t = self.cls.field_type(name)
        if t:
            v = it.coerce(v, t)
        self.f[name] = v

    def isinst(self, it, t):
        return isinstance(t, ClassVal) and t in self.cls.mro(it)

    def special(self, it, name):
        return self.cls.lookup(it, name)

    def binop(self, it, op, other, reflected):
        name = ('__r%s__' if reflected else '__%s__') % OPNAMES[op]
        d = self.cls.lookup(it, name)
        if d is None:
            return NotImplemented
        return it.call(it.bind(d, self), [other], {})

    def unop(self, it, op):
        name = {'-': '__neg__', '+': '__pos__', 'abs': '__abs__'}.get(op)
        d = name and self.cls.lookup(it, name)
        if not d:
            raise PyRaise(TypeError, ('bad operand type for unary',))
        return it.call(it.bind(d, self), [], {})

    def compare(self, it, op, other, reflected):
        if reflected:
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        d = self.cls.lookup(it, CMPNAMES[op])
        if d is None:
            return NotImplemented
        return it.call(it.bind(d, self), [other], {})

    def contains(self, it, x):
        d = self.cls.lookup(it, '__contains__')
        return it.call(it.bind(d, self), [x], {})

    def getitem(self, it, key):
        d = self.cls.lookup(it, '__getitem__')
        if d is None:
            raise PyRaise(TypeError, ('not subscriptable',))
        return it.call(it.bind(d, self), [key], {})

    def setitem(self, it, key, v):
        d = self.cls.lookup(it, '__setitem__')
        if d is None:
            raise PyRaise(TypeError, ('item assignment',))
        it.call(it.bind(d, self), [key, v], {})

    def call(self, it, args, kw):
        d = self.cls.lookup(it, '__call__')
        if d is None:
            raise PyRaise(TypeError, ('not callable',))
        return it.call(it.bind(d, self), args, kw)

    def truth(self, it):
        d = self.cls.lookup(it, '__bool__') or self.cls.lookup(it, '__len__')
        if d is None:
            return True
        return it.truth(it.call(it.bind(d, self), [], {}))

    def __repr__(self):
        return '<%s %s>' % (self.cls.name, self.f)


OPNAMES = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow',
           '@': 'matmul', '&': 'and', '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift'}
CMPNAMES = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__', '==': '__eq__', '!=': '__ne__'}
ASTOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
          ast.LShift: '<<', ast.RShift: '>>'}
ASTCMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


class Extern(Sym):
    """external function or type, with a handler giving its assumed contract"""
    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def call(self, it, args, kw):
        if self.fn is None:
            raise Unsupported('call of the external %s' % self.name)
        return self.fn(it, args, kw)

    def getattr(self, it, name):
        if name == '__name__':
            return self.name.rsplit('.', 1)[-1]
        return it.extern(self.name + '.' + name)

    def truth(self, it):
        return True

    def compare(self, it, op, other, reflected):
        if op in ('==', '!='):
            same = isinstance(other, Extern) and other.name == self.name
            return same == (op == '==')
        return NotImplemented

    def __repr__(self):
        return 'Extern(%s)' % self.name


class FuncVal(Sym):
    def __init__(self, node, module, closure, qual, owner=None, kind=None):
        self.node, self.module, self.closure, self.qual = node, module, closure, qual
        self.owner = owner
        self.kind = kind          # None / 'property' / 'staticmethod' / 'classmethod'
        self.defaults = None

    def call(self, it, args, kw):
        return it.call_func(self, args, kw)

    def getattr(self, it, name):
        if name == '__name__':
            return self.qual.rsplit('.', 1)[-1]
        raise Unsupported('attribute of a function')

    def truth(self, it):
        return True

    def __repr__(self):
        return '<function %s>' % self.qual


class Bound(Sym):
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj

    def call(self, it, args, kw):
        return it.call(self.fn, [self.obj] + list(args), kw)

    def getattr(self, it, name):
        return self.fn.getattr(it, name)

    def truth(self, it):
        return True


class ClassVal(Sym):
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self._defs = None
        self._bases = None

    def bases(self, it):
        if self._bases is None:
            self._bases = []
            for b in self.node.bases:
                if isinstance(b, ast.Name) and b.id == 'object':
                    continue
                v = it.module_get(self.module, b.id) if isinstance(b, ast.Name) else None
                if isinstance(v, ClassVal):
                    self._bases.append(v)
                elif isinstance(v, Extern) or v is None or isinstance(v, type):
                    self._bases.append(v)
        return self._bases

    def mro(self, it):
        out = [self]
        for b in self.bases(it):
            if isinstance(b, ClassVal):
                out += [c for c in b.mro(it) if c not in out]
            else:
                out.append(b)
        return out

    def defs(self):
        if self._defs is None:
            self._defs = {}
            for st in self.node.body:
                if isinstance(st, ast.FunctionDef):
                    kind = None
                    for d in st.decorator_list:
                        if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod'):
                            kind = d.id
                        else:
                            kind = 'unsupported'
                    self._defs[st.name] = FuncVal(st, self.module, None, self.name + '.' + st.name, self, kind)
                elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    self._defs[st.targets[0].id] = ('expr', st.value)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    self._defs.setdefault('::types', {})[st.target.id] = st.annotation.value
        return self._defs

    def lookup(self, it, name):
        for c in self.mro(it):
            if isinstance(c, ClassVal):
                d = c.defs()
                if name in d:
                    v = d[name]
                    if isinstance(v, tuple) and v[0] == 'expr':
                        v = it.class_const(c, name, v[1])
                    return v
        return None

    def field_type(self, name):
        c = self
        seen = [c]
        while seen:
            c = seen.pop()
            t = c.defs().get('::types', {})
            if name in t:
                return t[name]
            seen.extend(b for b in (c._bases or []) if isinstance(b, ClassVal))
        return None

    def getattr(self, it, name):
        if name == '__name__':
            return self.name
        d = self.lookup(it, name)
        if d is None:
            raise PyRaise(AttributeError, (name,))
        if isinstance(d, FuncVal):
            if d.kind == 'classmethod':
                return Bound(d, self)
            return d
        return d

    def setattr(self, it, name, v):
        it.classvars[(self.module.name, self.name, name)] = v

    def call(self, it, args, kw):
        return it.instantiate(self, args, kw)

    def truth(self, it):
        return True

    def compare(self, it, op, other, reflected):
        if op in ('==', '!='):
            return (self is other) == (op == '==')
        return NotImplemented

    def __repr__(self):
        return '<class %s>' % self.name


class Env:
    def __init__(self, module, parent=None):
        self.v = {}
        self.types = {}
        self.module = module
        self.parent = parent
        self.nonlocals = set()
        self.func = None

    def find(self, name):
        e = self
        while e is not None:
            if name in e.v:
                return e
            e = e.parent
        return None


# ------------------------------------------------------------------ world
class World:
    """what every run of one verification shares: source, externals, contracts"""
    def __init__(self, root='/repo', package='intvalpy'):
        self.root, self.package = root, package
        self.modules = {}
        self.externs = {}          # dotted name -> handler(it, args, kw) or value wrapper
        self.values = {}           # dotted name -> constant
        self.cnames = {}           # names available in Cython modules without an import
        self.contracts = {}        # (module, qualname) -> Contract-like callable(it, fn, args, kw)
        self.loops = {}            # (module, qualname, ordinal) -> LoopSpec
        self.classes = {}
        self.exact = False         # arithmetic over the reals instead of rounded
        self.max_paths = 4000
        self.executed = set()      # functions whose body was executed (under contract or inlined)
        self.used_contracts = set()

    def module(self, relpath):
        if relpath not in self.modules:
            self.modules[relpath] = Module(self.root, relpath)
            m = self.modules[relpath]
            m.index = {}
            for st in m.tree.body:
                self._index(m, st)
        return self.modules[relpath]

    def _index(self, m, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            m.index[st.name] = st
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    m.index[t.id] = st
                elif isinstance(t, ast.Tuple):
                    for e in t.elts:
                        if isinstance(e, ast.Name):
                            m.index[e.id] = st
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            m.index[st.target.id] = st
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                m.index[(a.asname or a.name).split('.')[0]] = (st, a)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._index(m, s)

    def resolve_rel(self, module, level, name):
        parts = module.relpath.split('/')[:-1]
        parts = parts[:len(parts) - (level - 1)] if level > 1 else parts
        base = '/'.join(parts + (name.split('.') if name else []))
        for cand in (base + '.py', base + '.pyx', base + '/__init__.py'):
            if os.path.exists(os.path.join(self.root, cand)):
                return self.module(cand)
        raise Unsupported('module %s%s not found' % ('.' * level, name))


class LoopSpec:
    """contract of a loop: `inv(it, env)` -> list of (name, formula); `havoc(it, env)` replaces what
    the body may change by arbitrary values; `on_exit` optional.  For `for` loops over a symbolic
    range the specification also binds the loop variable."""
    def __init__(self, run):
        self.run = run


class Run:
    """one path"""
    def __init__(self, world, prefix):
        self.w = world
        self.th = Theory()
        self.pc = []
        self.prefix = prefix
        self.taken = []
        self.pending = []
        self.choices = {}
        self.modglobals = {}
        self.classvars = {}
        self.obl = []              # (name, status, backend, model)
        self.rm = 'M0'             # rounding mode ghost
        self.depth = 0
        self.ghost = {}
        self.steps = 0
        self.consts = {}

    def valid_now(self, f):
        return not self.feasible([z3.Not(f)])

    # ---- decisions
    def decide(self, sides):
        """sides: list of feasible options (thunks not needed); returns index"""
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for alt in range(1, len(sides)):
                self.pending.append(self.taken + [sides[alt]])
            d = sides[0]
        self.taken.append(d)
        return d

    def branch(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.taken.append(d)
            if d in ('T', 'F'):
                self.pc.append(f if d == 'T' else z3.Not(f))
            elif d in ('t', 'f'):
                pass
            return d in ('T', 't')
        if not self.feasible([f]):
            self.taken.append('f')
            return False
        if not self.feasible([z3.Not(f)]):
            self.taken.append('t')
            return True
        self.pending.append(self.taken + ['F'])
        self.taken.append('T')
        self.pc.append(f)
        return True

    def choose(self, key):
        """an unconstrained boolean, decided once per path and key"""
        if key not in self.choices:
            self.choices[key] = self.decide(['T', 'F']) == 'T'
        return self.choices[key]

    def feasible(self, extra):
        return feasible(self.th, self.pc + extra)

    def assume(self, f):
        self.pc.append(f)

    def oblige(self, name, goal, klass='property', always=False):
        """klass: 'property' (failing it is a violation) or 'strong' (only adds assurance)
        always: the result steers the case, so that every path needs it"""
        if not always and len(self.taken) < len(self.prefix):
            return               # the path this one branched off from has discharged it
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        t = time.time()
        st, be, model = discharge(self.th, self.pc, goal)
        self.obl.append(dict(name=name, status=st, backend=be, model=model, klass=klass,
                             time=round(time.time() - t, 4), goal=str(goal)[:300]))
        return st == 'proved'

    def oblige_about(self, name, names, goal, klass='property'):
        """as oblige, from those hypotheses only that mention no other constants than the named ones"""
        if len(self.taken) < len(self.prefix):
            return
        names = set(names)
        hyps = [f for f in self.pc + self.th.fixed if consts_of(f) <= names]
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(hyps)
        s.add(z3.Not(goal))
        t = time.time()
        r = s.check()
        STATS.time += time.time() - t
        if r != z3.unsat:
            return self.oblige(name, goal, klass)
        self.obl.append(dict(name=name, status='proved', backend='z3-linear', model=None, klass=klass,
                             time=round(time.time() - t, 4), goal=str(goal)[:300]))
        return True

    # ---- numbers
    def arith(self, p, kind):
        if kind == 'int' or kind == 'real' or self.w.exact:
            return Num(p, kind)
        if kind == 'ld':
            return Num(self.round_ld(p), 'ld')
        return Num(self.th.round(self.rm, p), kind)

    def round_ld(self, p):
        th = self.th
        k = p.const()
        if k is not None and is_double(k):
            return p
        if len(p.c) == 1:
            (m, v), = p.c.items()
            if len(m) == 1 and pow2(v):
                return p
        key = ('ld', self.rm, p)
        if key not in th.table:
            r = th.fresh('ld')
            th.table[key] = r
            zr, zp = th.z(r), th.z(p)
            if self.rm == 'D':
                th.fixed.append(zr <= zp)
            elif self.rm == 'U':
                th.fixed.append(zr >= zp)
            e = z3.Q(1, 2 ** 63)
            th.fixed.append(z3.Implies(zp >= 0, z3.And(zr - zp <= e * zp, zp - zr <= e * zp)))
            th.fixed.append(z3.Implies(zp <= 0, z3.And(zr - zp <= -e * zp, zp - zr <= -e * zp)))
        return th.table[key]

    def joinkind(self, a, b, op):
        ks = {a.kind, b.kind}
        if 'ld' in ks:
            return 'ld'
        if 'real' in ks:
            return 'real'
        if ks == {'int'}:
            return 'int'
        if 'np' in ks:
            return 'np'
        if 'float' in ks or 'c' in ks:
            return 'float'
        return 'num'

    def num_binop(self, op, a, b):
        th = self.th
        kind = self.joinkind(a, b, op)
        ca, cb = a.p.const(), b.p.const()
        if op in ('+', '-', '*'):
            p = {'+': lambda: a.p + b.p, '-': lambda: a.p - b.p, '*': lambda: a.p * b.p}[op]()
            if op == '*' and self.w.exact and ca is None and cb is None:
                th.factors[p] = (a.p, b.p)
            return self.arith(p, kind)
        if op == '/':
            if self.truth(self.compare('==', b, 0)):
                if a.kind == 'np' or b.kind == 'np':
                    raise Unsupported('numpy division by zero')
                raise PyRaise(ZeroDivisionError)
            if kind in ('int', 'num'):
                if not self.w.exact and self.rm != 'N' and self.isint(a) and self.isint(b):
                    # CPython divides the absolute values of integers and negates the rounded quotient
                    if self.truth(self.compare('<', a, 0)) != self.truth(self.compare('<', b, 0)):
                        return Num(-self.th.round(self.rm, -th.quot(a.p, b.p)), 'float')
                kind = 'float'
            return self.arith(th.quot(a.p, b.p), kind)
        if op == '**':
            h = self.w.externs.get('::pow')
            if h is not None and self.w.exact:
                return h(self, a, b)
            if cb is not None and cb.denominator == 1 and 0 <= cb <= 8:
                n = int(cb)
                if kind in ('int', 'real') or self.w.exact:
                    p = K(1)
                    for _ in range(n):
                        p = p * a.p
                    return Num(p, kind)
        if op == '%' and ca is not None and cb is not None and cb != 0:
            return Num(K(ca % cb), kind)
        if op == '//' and ca is not None and cb is not None and cb != 0:
            return Num(K(ca // cb), kind)
        raise Unsupported('number %s number' % op)

    def isint(self, a):
        return a.isinst(self, 'int') if isinstance(a, Num) else isinstance(a, int)

    def num_abs(self, a):
        if self.ghost.get('lazy') or self.ghost.get('binders'):
            return Num(self.th.abs(a.p), a.kind)
        if self.truth(self.compare('>=', a, 0)):
            return a
        return Num(-a.p, a.kind)

    def concrete(self, v):
        """collapse Num constants of int kind to Python ints"""
        if isinstance(v, Num):
            k = v.p.const()
            if k is not None and v.kind == 'int' and k.denominator == 1:
                return int(k)
            if k is not None and is_double(k) and v.kind in ('float', 'c'):
                return float(k)
        return v

    def coerce(self, v, t):
        """conversion on a store to a C-typed variable"""
        if t in ('double', 'double_t', 'float'):
            if isinstance(v, Num):
                if v.kind == 'ld':
                    return Num(self.th.round(self.rm, v.p), 'c')
                if v.kind == 'int' or v.kind == 'num':
                    self.th.add_rep(v.p) if v.p.const() is None else None
                return Num(v.p, 'c')
            if isinstance(v, bool) or isinstance(v, int):
                return float(v)
            if isinstance(v, float):
                return v
            if isinstance(v, SBool):
                return 1.0 if self.truth(v) else 0.0
            raise PyRaise(TypeError, ('must be real number',))
        if t == 'long_double':
            if isinstance(v, Num):
                return Num(v.p, 'ld')
            return v
        if t in ('int', 'long', 'short', 'long_long', 'Py_ssize_t', 'size_t'):
            if isinstance(v, (int, str)):
                return v
            raise Unsupported('C integer from %r' % (v,))
        if t in ('bint', 'bool_t'):
            return v if isinstance(v, SBool) else self.truth(v)
        return v

    # ---- generic operations
    def truth(self, v):
        if isinstance(v, Sym):
            return v.truth(self)
        return bool(v)

    def binop(self, op, a, b):
        a, b = self.concrete(a), self.concrete(b)
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if not sa and not sb:
            return self.py_binop(op, a, b)
        # numpy scalars on the left give the operation to __array_ufunc__ of the right operand
        if isinstance(a, Num) and a.kind == 'np' and isinstance(b, Inst):
            u = b.cls.lookup(self, '__array_ufunc__')
            if u is not None:
                nm = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'divide', '**': 'power'}.get(op)
                if nm is None:
                    raise Unsupported('numpy scalar %s object' % op)
                return self.call(self.bind(u, b), [Extern('numpy.' + nm), '__call__', a, b], {})
        r = NotImplemented
        if sa:
            r = a.binop(self, op, b, False)
        if r is NotImplemented and sb:
            r = b.binop(self, op, a, True)
        if r is NotImplemented:
            raise PyRaise(TypeError, ('unsupported operand type(s) for %s' % op,))
        return self.concrete(r)

    def py_binop(self, op, a, b):
        if isinstance(a, float) or isinstance(b, float):
            na, nb = tonum(a), tonum(b)
            if na is not None and nb is not None and op in '+-*/':
                return self.concrete(self.num_binop(op, na, nb))
        if isinstance(a, int) and isinstance(b, int) and op == '/':
            return self.concrete(self.num_binop('/', tonum(a), tonum(b)))
        import operator as o
        f = {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '//': o.floordiv, '%': o.mod, '**': o.pow,
             '&': o.and_, '|': o.or_, '^': o.xor, '<<': o.lshift, '>>': o.rshift}.get(op)
        if f is None:
            raise PyRaise(TypeError, ('unsupported operand',))
        try:
            return f(a, b)
        except (TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
            raise PyRaise(type(e), e.args)

    def compare(self, op, a, b):
        a, b = self.concrete(a), self.concrete(b)
        if op == 'is':
            return a is b or (not isinstance(a, Sym) and not isinstance(b, Sym) and type(a) == type(b)
                              and isinstance(a, (int, str, bool, type(None))) and a == b)
        if op == 'is not':
            return not self.compare('is', a, b)
        if op == 'in' or op == 'not in':
            r = self.contains(b, a)
            return r if op == 'in' else self.negate(r)
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if not sa and not sb:
            import operator as o
            try:
                if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in ('==', '!='):
                    if type(a) != type(b) or len(a) != len(b):
                        return op == '!='
                    same = all(self.truth(self.compare('==', x, y)) for x, y in zip(a, b))
                    return same == (op == '==')
                return {'<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge, '==': o.eq, '!=': o.ne}[op](a, b)
            except TypeError as e:
                raise PyRaise(TypeError, e.args)
        r = NotImplemented
        if isinstance(a, Num) and a.kind == 'np' and isinstance(b, Inst):
            r = NotImplemented
        elif sa:
            r = a.compare(self, op, b, False)
        if r is NotImplemented and sb:
            r = b.compare(self, op, a, True)
        if r is NotImplemented:
            if op in ('==', '!='):
                return (a is b) == (op == '==')
            raise PyRaise(TypeError, ('not supported between instances',))
        return r

    def negate(self, v):
        if isinstance(v, SBool):
            return v.unop(self, 'not')
        return not self.truth(v)

    def contains(self, c, x):
        if isinstance(c, Sym):
            return c.contains(self, x)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise PyRaise(TypeError)
        if isinstance(c, (list, tuple, set, range)):
            for e in c:
                if e is x or self.truth(self.compare('==', e, x)):
                    return True
            return False
        if isinstance(c, dict):
            return x in c
        raise PyRaise(TypeError, ('argument is not iterable',))

    def unop(self, op, v):
        v = self.concrete(v)
        if isinstance(v, Sym):
            if op == 'not':
                return self.negate(v)
            return self.concrete(v.unop(self, op))
        try:
            return {'-': lambda: -v, '+': lambda: +v, 'not': lambda: not v, '~': lambda: ~v, 'abs': lambda: abs(v)}[op]()
        except TypeError as e:
            raise PyRaise(TypeError, e.args)

    def isinstance(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance(v, x) for x in t)
        v = self.concrete(v)
        if isinstance(t, Extern):
            name = t.name
            bt = getattr(builtins, name, None)
            if isinstance(bt, type) and not isinstance(v, Sym):
                return isinstance(v, bt)
        elif isinstance(t, type):
            name = t.__name__
        else:
            name = t
        if isinstance(v, Sym):
            return v.isinst(self, name if isinstance(name, str) else t)
        if isinstance(t, type):
            return isinstance(v, t)
        if name in ('numbers.Number', 'numbers.Real'):
            return isinstance(v, (int, float, complex))
        if isinstance(name, str) and name.startswith('numpy.') or isinstance(t, ClassVal):
            return False
        if name == 'mpmath.mpf':
            return False
        if name in ('collections.abc.Sequence',):
            return isinstance(v, (list, tuple, str, range))
        if name in ('collections.abc.Iterable',):
            return hasattr(v, '__iter__')
        raise Unsupported('isinstance against %r' % (t,))

    def getattr(self, v, name):
        v = self.concrete(v)
        if isinstance(v, Sym):
            return v.getattr(self, name)
        if isinstance(v, (list, dict, str, tuple)):
            if hasattr(v, name):
                m = getattr(v, name)
                return Extern('method.' + name, lambda it, a, k: it.py_method(v, name, a, k))
            raise PyRaise(AttributeError, (name,))
        if isinstance(v, type):
            if name == '__name__':
                return v.__name__
        if name in ('real',) and isinstance(v, (int, float)):
            return v
        if hasattr(v, name):
            raise Unsupported('attribute %s of %r' % (name, v))
        raise PyRaise(AttributeError, (name,))

    def py_method(self, v, name, args, kw):
        if isinstance(v, list) and name == 'sort':
            raise Unsupported('list.sort')
        if isinstance(v, list) and name in ('index', 'remove', 'count'):
            raise Unsupported('list.' + name)
        try:
            return getattr(v, name)(*args, **kw)
        except (IndexError, KeyError, ValueError, TypeError) as e:
            raise PyRaise(type(e), e.args)

    def hasattr(self, v, name):
        try:
            self.getattr(v, name)
            return True
        except PyRaise as e:
            if issubclass(e.cls, AttributeError):
                return False
            raise

    def getitem(self, v, key):
        key = self.concrete(key)
        if isinstance(v, Sym):
            return v.getitem(self, key)
        if isinstance(key, Sym):
            raise Unsupported('symbolic index into %r' % (v,))
        try:
            return v[key]
        except (IndexError, KeyError, TypeError) as e:
            raise PyRaise(type(e), e.args)

    def setitem(self, v, key, x):
        key = self.concrete(key)
        if isinstance(v, Sym):
            return v.setitem(self, key, x)
        if isinstance(key, Sym):
            raise Unsupported('symbolic index store')
        try:
            v[key] = x
        except (IndexError, KeyError, TypeError) as e:
            raise PyRaise(type(e), e.args)

    def iterate(self, v):
        v = self.concrete(v)
        if isinstance(v, Sym):
            return v.iterate(self)
        if isinstance(v, (list, tuple, range, str, dict, set)):
            return list(v)
        if hasattr(v, '__next__'):
            return list(v)
        raise PyRaise(TypeError, ('not iterable',))

    def bind(self, d, obj):
        if isinstance(d, FuncVal):
            if d.kind == 'property':
                return self.call(d, [obj], {})
            if d.kind == 'staticmethod':
                return d
            if d.kind == 'classmethod':
                return Bound(d, obj.cls)
            if d.kind == 'unsupported':
                raise Unsupported('decorator of %s' % d.qual)
            return Bound(d, obj)
        return d

    def class_const(self, c, name, expr):
        key = (c.module.name, c.name, name)
        if key not in self.classvars:
            env = Env(c.module)
            self.classvars[key] = self.eval(expr, env)
        v = self.classvars[key]
        return v

    # ---- names
    def extern(self, dotted):
        if dotted in self.w.values:
            return self.w.values[dotted]
        return Extern(dotted, self.w.externs.get(dotted))

    def module_get(self, m, name, missing_ok=False):
        key = (m.name, name)
        if key in self.modglobals:
            return self.modglobals[key]
        st = m.index.get(name)
        if st is None:
            if m.relpath.endswith('.pyx') and name in self.w.cnames:
                return self.w.cnames[name]
            if hasattr(builtins, name):
                return self.builtin(name)
            raise PyRaise(NameError, (name,))
        if isinstance(st, ast.FunctionDef):
            v = FuncVal(st, m, None, name)
            if st.decorator_list:
                raise Unsupported('decorated function ' + name)
        elif isinstance(st, ast.ClassDef):
            v = self.w.classes.get((m.name, name))
            if v is None:
                v = self.w.classes[(m.name, name)] = ClassVal(st, m)
        elif isinstance(st, tuple):
            node, a = st
            if isinstance(node, ast.Import):
                v = self.extern(a.name if a.asname else a.name.split('.')[0])
            elif node.level:
                if node.module is None:
                    v = self.w.resolve_rel(m, node.level, a.name)
                else:
                    src = self.w.resolve_rel(m, node.level, node.module)
                    if a.name == '*':
                        raise Unsupported('star import')
                    v = self.module_get(src, a.name)
            elif node.module.split('.')[0] == self.w.package:
                rel = node.module.replace('.', '/')
                for cand in (rel + '.py', rel + '.pyx', rel + '/__init__.py'):
                    if os.path.exists(os.path.join(self.w.root, cand)):
                        v = self.module_get(self.w.module(cand), a.name)
                        break
                else:
                    raise Unsupported('module ' + node.module)
            else:
                v = self.extern(node.module + '.' + a.name)
        elif isinstance(st, ast.AnnAssign):
            v = self.coerce(self.eval(st.value, Env(m)), st.annotation.value) if st.value else None
        else:
            val = self.eval(st.value, Env(m))
            for t in st.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    v = val
                    if isinstance(v, FuncVal) and isinstance(st.value, ast.Lambda):
                        v.qual = name
                elif isinstance(t, ast.Tuple):
                    for e, x in zip(t.elts, val):
                        if e.id == name:
                            v = x
        self.modglobals[key] = v
        return v

    def builtin(self, name):
        if name == 'NotImplemented':
            return NotImplemented
        h = self.w.externs.get(name) or BUILTINS.get(name)
        if h is not None:
            return Extern(name, h)
        b = getattr(builtins, name)
        if isinstance(b, type):
            return b
        return Extern(name, None)

    def load_name(self, name, env):
        e = env.find(name)
        if e is not None:
            v = e.v[name]
            if v is UNBOUND:
                raise PyRaise(UnboundLocalError, (name,))
            if v is POISON:
                raise Unsupported('the loop contract says nothing about %s' % name)
            return v
        if name.startswith('__cast_'):
            return ('cast', name[7:-2])
        return self.module_get(env.module, name)

    # ---- calls
    def call(self, f, args, kw):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('too many steps')
        if isinstance(f, Sym):
            return self.concrete(f.call(self, list(args), dict(kw)))
        if isinstance(f, type):
            h = BUILTINS.get(f.__name__)
            if h is not None and f.__module__ == 'builtins':
                return h(self, list(args), dict(kw))
            if issubclass(f, BaseException):
                return ExcVal(f, tuple(args))
            raise Unsupported('call of %r' % (f,))
        if callable(f):
            return f(self, list(args), dict(kw))
        raise PyRaise(TypeError, ('not callable',))

    def call_func(self, fn, args, kw):
        key = (fn.module.relpath, fn.qual)
        c = self.w.contracts.get(key)
        if c is not None and not self.ghost.get(('verify', key)):
            self.w.used_contracts.add(key)
            r = c(self, fn, args, kw)
            if r is not INLINE:
                return r
        if self.ghost.get(('verify', key)):
            # the function under verification: only the outermost call runs the body
            self.ghost[('verify', key)] -= 1
        return self.run_body(fn, args, kw)

    def run_body(self, fn, args, kw):
        self.w.executed.add((fn.module.relpath, fn.qual))
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        try:
            env = Env(fn.module, fn.closure)
            env.func = fn
            self.bind_args(fn, env, args, kw)
            node = fn.node
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            for n in local_names(node):
                env.v.setdefault(n, UNBOUND)
            try:
                self.exec_block(node.body, env)
            except Ret as r:
                v = r.v
                if node.returns is not None and isinstance(node.returns, ast.Constant):
                    v = self.coerce(v, node.returns.value)
                return v
            return None
        finally:
            self.depth -= 1

    def bind_args(self, fn, env, args, kw):
        a = fn.node.args
        params = a.posonlyargs + a.args
        if fn.defaults is None:
            denv = Env(fn.module, fn.closure)
            d = [self.eval(x, denv) for x in a.defaults]
            kd = [self.eval(x, denv) if x is not None else UNBOUND for x in a.kw_defaults]
            fn_defaults = (d, kd)
        else:
            fn_defaults = fn.defaults
        names = [p.arg for p in params]
        vals = {}
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise(TypeError, ('too many arguments',))
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        for k, v in kw.items():
            if k in names or k in [p.arg for p in a.kwonlyargs]:
                if k in vals:
                    raise PyRaise(TypeError, ('multiple values',))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(TypeError, ('unexpected keyword ' + k,))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        d, kd = fn_defaults
        for n, v in zip(names[len(names) - len(d):], d):
            vals.setdefault(n, v)
        for p, v in zip(a.kwonlyargs, kd):
            if v is not UNBOUND:
                vals.setdefault(p.arg, v)
        for p in params + a.kwonlyargs:
            if p.arg not in vals:
                raise PyRaise(TypeError, ('missing argument ' + p.arg,))
            if p.annotation is not None and isinstance(p.annotation, ast.Constant):
                vals[p.arg] = self.coerce(vals[p.arg], p.annotation.value)
                env.types[p.arg] = p.annotation.value
        env.v.update(vals)

    def instantiate(self, cls, args, kw):
        key = (cls.module.relpath, cls.name)
        c = self.w.contracts.get(key)
        if c is not None and not self.ghost.get(('verify', key)):
            self.w.used_contracts.add(key)
            r = c(self, cls, args, kw)
            if r is not INLINE:
                return r
        obj = Inst(cls)
        for nm in ('__cinit__', '__init__'):
            d = cls.lookup(self, nm)
            if d is not None:
                self.call(Bound(d, obj), args, kw)
        return obj

    # ---- statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.steps += 1
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        m(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Return(self, st, env):
        raise Ret(self.eval(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise Brk()

    def x_Continue(self, st, env):
        raise Cont()

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if isinstance(st.annotation, ast.Constant) and isinstance(st.annotation.value, str):
            env.types[st.target.id] = st.annotation.value
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        op = ASTOPS[type(st.op)]
        if isinstance(st.target, ast.Name):
            cur = self.load_name(st.target.id, env)
            store = lambda v: self.assign(st.target, v, env)
        elif isinstance(st.target, ast.Subscript):
            o = self.eval(st.target.value, env)
            k = self.eval_key(st.target.slice, env)
            cur = self.getitem(o, k)
            store = lambda v: self.setitem(o, k, v)
        elif isinstance(st.target, ast.Attribute):
            o = self.eval(st.target.value, env)
            cur = self.getattr(o, st.target.attr)
            store = lambda v: self.setattr(o, st.target.attr, v)
        else:
            raise Unsupported('augmented assignment')
        rhs = self.eval(st.value, env)
        if isinstance(cur, list) and op == '+':
            cur.extend(self.iterate(rhs))
            store(cur)
            return
        if isinstance(cur, Sym) and hasattr(cur, 'iop') and not (isinstance(st.target, ast.Subscript) and cur.iop_by_store):
            store(cur.iop(self, op, rhs))
            return
        if isinstance(cur, Inst):
            d = cur.cls.lookup(self, '__i%s__' % OPNAMES[op])
            if d is not None:
                store(self.call(self.bind(d, cur), [rhs], {}))
                return
        store(self.binop(op, cur, rhs))

    def setattr(self, o, name, v):
        if isinstance(o, Sym):
            o.setattr(self, name, v)
        else:
            raise Unsupported('attribute store on %r' % (o,))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            v = self.concrete(v)
            if t.id in env.nonlocals:
                e = env.parent.find(t.id) if env.parent else None
                if e is None:
                    self.modglobals[(env.module.name, t.id)] = v
                else:
                    e.v[t.id] = v
                return
            ty = env.types.get(t.id)
            if ty:
                v = self.coerce(v, ty)
            env.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise PyRaise(ValueError, ('not enough values to unpack',))
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, list(vs[i:len(vs) - after]), env)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(e, x, env)
                return
            if len(vs) != len(t.elts):
                raise PyRaise(ValueError, ('unpack',))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_key(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def x_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def loop_contract(self, st, env):
        fn = env.func
        if fn is None or isinstance(fn.node, ast.Lambda):
            return None
        loops = [n for n in walk_own(fn.node) if isinstance(n, (ast.For, ast.While))]
        k = loops.index(st)
        return self.w.loops.get((fn.module.relpath, fn.qual, k))

    def x_While(self, st, env):
        spec = self.loop_contract(st, env)
        if spec is not None:
            return spec.run(self, st, env)
        n = 0
        while True:
            c = self.eval(st.test, env)
            if isinstance(c, Sym) and not self.ghost.get('unroll'):
                raise Unsupported('while loop without a contract')
            if not self.truth(c):
                self.exec_block(st.orelse, env)
                return
            try:
                self.exec_block(st.body, env)
            except Brk:
                return
            except Cont:
                pass
            n += 1
            if n > 5000:
                raise Unsupported('while loop too long')

    def x_For(self, st, env):
        spec = self.loop_contract(st, env)
        if spec is not None:
            return spec.run(self, st, env)
        seq = self.iterate(self.eval(st.iter, env))
        for x in seq:
            self.assign(st.target, x, env)
            try:
                self.exec_block(st.body, env)
            except Brk:
                return
            except Cont:
                continue
        self.exec_block(st.orelse, env)

    def x_With(self, st, env):
        if len(st.items) != 1:
            inner = ast.With(items=st.items[1:], body=st.body)
            outer = ast.With(items=st.items[:1], body=[inner])
            return self.x_With(outer, env)
        item = st.items[0]
        mgr = self.eval(item.context_expr, env)
        if not isinstance(mgr, Inst):
            return self.with_extern(mgr, item, st, env)
        ex = mgr.cls.lookup(self, '__exit__')
        en = mgr.cls.lookup(self, '__enter__')
        if ex is None or en is None:
            raise PyRaise(TypeError, ('context manager',))
        v = self.call(Bound(en, mgr), [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, env)
        try:
            self.exec_block(st.body, env)
        except PyRaise as e:
            r = self.call(Bound(ex, mgr), [e.cls, ExcVal(e.cls, ()), None], {})
            if self.truth(r):
                return
            raise
        except (Ret, Brk, Cont):
            self.call(Bound(ex, mgr), [None, None, None], {})
            raise
        self.call(Bound(ex, mgr), [None, None, None], {})

    def with_extern(self, mgr, item, st, env):
        if isinstance(mgr, Extern) and mgr.name in ('nogil', 'gil', 'warnings.catch_warnings', 'numpy.errstate'):
            return self.exec_block(st.body, env)
        raise Unsupported('with %r' % (mgr,))

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.eval(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        match = any(isinstance(x, type) and issubclass(e.cls, x) for x in ts)
                    if match:
                        if h.name:
                            env.v[h.name] = ExcVal(e.cls, e.args_)
                        saved = getattr(self, '_exc', None)
                        self._exc = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self._exc = saved
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (PyRaise, Ret, Brk, Cont):
            self.exec_block(st.finalbody, env)
            raise
        self.exec_block(st.finalbody, env)

    def x_Raise(self, st, env):
        if st.exc is None:
            if getattr(self, '_exc', None) is not None:
                raise self._exc
            raise PyRaise(RuntimeError)
        v = self.eval(st.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v)
        if isinstance(v, ExcVal):
            raise PyRaise(v.cls, v.args_)
        raise Unsupported('raise %r' % (v,))

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyRaise(AssertionError)

    def x_FunctionDef(self, st, env):
        if st.decorator_list:
            raise Unsupported('decorated local function')
        outer = env.func.qual + '.' if env.func is not None else ''
        f = FuncVal(st, env.module, env, outer + st.name)
        f.defaults = ([self.eval(x, env) for x in st.args.defaults],
                      [self.eval(x, env) if x is not None else UNBOUND for x in st.args.kw_defaults])
        env.v[st.name] = f

    def x_Global(self, st, env):
        env.nonlocals.update(st.names)
        for n in st.names:
            env.v.pop(n, None)

    def x_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)
        for n in st.names:
            env.v.pop(n, None)

    def x_Import(self, st, env):
        for a in st.names:
            env.v[(a.asname or a.name.split('.')[0])] = self.extern(a.name if a.asname else a.name.split('.')[0])

    def x_ImportFrom(self, st, env):
        for a in st.names:
            if st.level:
                env.v[a.asname or a.name] = self.module_get(self.w.resolve_rel(env.module, st.level, st.module or ''), a.name)
            else:
                env.v[a.asname or a.name] = self.extern(st.module + '.' + a.name)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_key(t.slice, env)
                if isinstance(o, (list, dict)) and not isinstance(k, Sym):
                    del o[k]
                elif isinstance(o, Sym) and hasattr(o, 'delitem'):
                    o.delitem(self, k)
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    # ---- expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load_name(e.id, env)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'cast' and isinstance(e.op, ast.Pow):
            return self.coerce(self.eval(e.right, env), a[1])
        b = self.eval(e.right, env)
        return self.binop(ASTOPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, env):
        op = {ast.USub: '-', ast.UAdd: '+', ast.Not: 'not', ast.Invert: '~'}[type(e.op)]
        return self.unop(op, self.eval(e.operand, env))

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return False if isinstance(v, SBool) else v
            if not isand and t:
                return True if isinstance(v, SBool) else v
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            if isinstance(op, ast.Is):
                res = self.compare('is', left, right)
            elif isinstance(op, ast.IsNot):
                res = self.compare('is not', left, right)
            elif isinstance(op, ast.In):
                res = self.compare('in', left, right)
            elif isinstance(op, ast.NotIn):
                res = self.compare('not in', left, right)
            else:
                res = self.compare(ASTCMP[type(op)], left, right)
            if i < len(e.ops) - 1 and not self.truth(res):
                return False
            left = right
        return res

    def e_IfExp(self, e, env):
        if self.w.exact and (self.ghost.get('lazy') or self.ghost.get('binders')) and '::merge' in self.w.externs:
            t = self.concrete(self.eval(e.test, env))
            if isinstance(t, SBool):
                r = self.w.externs['::merge'](self, t.f, lambda: self.eval(e.body, env), lambda: self.eval(e.orelse, env))
                if r is not None:
                    return r
            return self.eval(e.body if self.truth(t) else e.orelse, env)
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Attribute(self, e, env):
        v = self.eval(e.value, env)
        if isinstance(v, Module):
            return self.module_get(v, e.attr)
        nm = e.attr
        if nm.startswith('__') and not nm.endswith('__') and isinstance(v, (ClassVal, Inst)):
            pass
        return self.concrete(self.getattr(v, nm))

    def eval_key(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*(self.concrete(self.eval(x, env)) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_key(x, env) for x in s.elts)
        return self.concrete(self.eval(s, env))

    def e_Subscript(self, e, env):
        return self.concrete(self.getitem(self.eval(e.value, env), self.eval_key(e.slice, env)))

    def e_Tuple(self, e, env):
        return tuple(self.elements(e.elts, env))

    def e_List(self, e, env):
        return list(self.elements(e.elts, env))

    def elements(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        return {self.eval(k, env): self.eval(v, env) for k, v in zip(e.keys, e.values)}

    def e_Set(self, e, env):
        return set(self.elements(e.elts, env))

    def e_Lambda(self, e, env):
        f = FuncVal(e, env.module, env, (env.func.qual + '.' if env.func is not None else '') + '<lambda>')
        f.defaults = ([self.eval(x, env) for x in e.args.defaults], [])
        return f

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_JoinedStr(self, e, env):
        return '<formatted>'

    def comp(self, gens, env, emit):
        if not gens:
            emit(env)
            return
        g = gens[0]
        for x in self.iterate(self.eval(g.iter, env)):
            self.assign(g.target, x, env)
            if all(self.truth(self.eval(c, env)) for c in g.ifs):
                self.comp(gens[1:], env, emit)

    def e_ListComp(self, e, env):
        hook = self.w.externs.get('::listcomp')
        if hook is not None:
            r = hook(self, e, env)
            if r is not NotImplemented:
                return r
        inner = Env(env.module, env)
        inner.func = env.func
        out = []
        self.comp(e.generators, inner, lambda en: out.append(self.eval(e.elt, en)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        inner = Env(env.module, env)
        inner.func = env.func
        out = {}
        self.comp(e.generators, inner, lambda en: out.__setitem__(self.eval(e.key, en), self.eval(e.value, en)))
        return out

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args = self.elements(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, env))
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_Slice(self, e, env):
        return self.eval_key(e, env)


class ExcVal(Sym):
    def __init__(self, cls, args):
        self.cls, self.args_ = cls, args

    def getattr(self, it, name):
        if name == 'args':
            return tuple(self.args_)
        raise PyRaise(AttributeError, (name,))


def consts_of(f):
    out, todo, seen = set(), [f], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e.decl().name())
        todo.extend(e.children())
    return out


class _Unbound:
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = _Unbound()
POISON = _Unbound()
INLINE = object()


def walk_own(fn):
    """statements of a function in source order, nested functions excluded"""
    out = []

    def go(body):
        for st in body:
            out.append(st)
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                if hasattr(st, f):
                    go(getattr(st, f))
            for h in getattr(st, 'handlers', []):
                go(h.body)
    go(fn.body)
    return out


def local_names(fn):
    names = set()
    glob = set()
    for st in walk_own(fn):
        if isinstance(st, (ast.Global, ast.Nonlocal)):
            glob.update(st.names)
        ts = []
        if isinstance(st, ast.Assign):
            ts = st.targets
        elif isinstance(st, (ast.AugAssign, ast.AnnAssign, ast.For)):
            ts = [st.target]
        elif isinstance(st, ast.With):
            ts = [i.optional_vars for i in st.items if i.optional_vars is not None]
        for t in ts:
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
    args = fn.args
    for p in args.posonlyargs + args.args + args.kwonlyargs:
        names.discard(p.arg)
    return names - glob


# ------------------------------------------------------------------ builtins
def b_minmax(kind):
    def f(it, args, kw):
        if kw:
            raise Unsupported('%s with keywords' % kind)
        if len(args) == 1:
            args = it.iterate(args[0])
        if not args:
            raise PyRaise(ValueError)
        args = [it.concrete(a) for a in args]
        if all(isinstance(a, (int, float)) for a in args):
            return (min if kind == 'min' else max)(*args)
        nums = [tonum(a) for a in args]
        if (len(args) == 2 and not (it.w.exact and it.ghost.get('lazy'))) or any(n is None for n in nums):
            best = args[0]
            for a in args[1:]:
                c = it.compare('<' if kind == 'min' else '>', a, best)
                if it.truth(c):
                    best = a
            return best
        ks = {n.kind for n in nums}
        k = ks.pop() if len(ks) == 1 else ('float' if 'float' in ks or 'c' in ks else 'num')
        return Num(it.th.minmax(kind, [n.p for n in nums]), k)
    return f


def b_isinstance(it, args, kw):
    return it.isinstance(args[0], args[1])


def b_type(it, args, kw):
    v = it.concrete(args[0])
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, Num):
        return {'int': int, 'float': float, 'c': float}.get(v.kind) or Extern('numpy.float64')
    if not isinstance(v, Sym):
        return type(v)
    if hasattr(v, 'typeof'):
        return v.typeof(it)
    raise Unsupported('type()')


def b_abs(it, args, kw):
    return it.unop('abs', args[0])


def b_len(it, args, kw):
    v = args[0]
    if isinstance(v, Inst):
        return it.call(it.getattr(v, '__len__'), [], {})
    if isinstance(v, Sym):
        if hasattr(v, 'length'):
            return v.length(it)
        raise Unsupported('len')
    try:
        return len(v)
    except TypeError as e:
        raise PyRaise(TypeError, e.args)


def b_range(it, args, kw):
    if all(isinstance(a, int) for a in args):
        return range(*args)
    h = it.w.externs.get('::range')
    if h:
        return h(it, args, kw)
    raise Unsupported('symbolic range')


def b_float(it, args, kw):
    if not args:
        return 0.0
    v = it.concrete(args[0])
    if isinstance(v, Num):
        return it.coerce(v, 'double') if v.kind != 'np' else Num(v.p, 'float')
    if isinstance(v, Sym):
        if isinstance(v, Inst):
            raise PyRaise(TypeError)
        raise Unsupported('float()')
    try:
        return float(v)
    except (TypeError, ValueError, OverflowError) as e:
        raise PyRaise(type(e), e.args)


def b_int(it, args, kw):
    v = it.concrete(args[0])
    if isinstance(v, (int, float, str)):
        return int(v)
    if isinstance(v, Num):
        a = [x for m in v.p.c for x in m]
        if len(v.p.c) == 1 and len(a) == 1 and a[0] in it.th.__dict__.get('ints', {}) and v.p.c[(a[0],)] == 1:
            return it.th.ints[a[0]]
    raise Unsupported('int()')


def b_bool(it, args, kw):
    return it.truth(args[0])


def b_sum(it, args, kw):
    acc = args[1] if len(args) > 1 else 0
    for x in it.iterate(args[0]):
        acc = it.binop('+', acc, x)
    return acc


def b_pow(it, args, kw):
    return it.binop('**', args[0], args[1])


def b_list(it, args, kw):
    return list(it.iterate(args[0])) if args else []


def b_tuple(it, args, kw):
    return tuple(it.iterate(args[0])) if args else ()


def b_zip(it, args, kw):
    return list(zip(*[it.iterate(a) for a in args]))


def b_enumerate(it, args, kw):
    return list(enumerate(it.iterate(args[0]), *args[1:]))


def b_any(it, args, kw):
    for x in it.iterate(args[0]):
        if it.truth(x):
            return True
    return False


def b_all(it, args, kw):
    for x in it.iterate(args[0]):
        if not it.truth(x):
            return False
    return True


def b_hasattr(it, args, kw):
    return it.hasattr(args[0], args[1])


def b_getattr(it, args, kw):
    try:
        return it.getattr(args[0], args[1])
    except PyRaise as e:
        if len(args) > 2 and issubclass(e.cls, AttributeError):
            return args[2]
        raise


def b_round(it, args, kw):
    raise Unsupported('round')


def b_iter(it, args, kw):
    return it.iterate(args[0])


def b_reversed(it, args, kw):
    return list(reversed(it.iterate(args[0])))


def b_print(it, args, kw):
    return None


def b_map(it, args, kw):
    return [it.call(args[0], list(xs), {}) for xs in zip(*[it.iterate(a) for a in args[1:]])]


def b_filter(it, args, kw):
    return [x for x in it.iterate(args[1]) if it.truth(it.call(args[0], [x], {}) if args[0] is not None else x)]


def b_callable(it, args, kw):
    return isinstance(args[0], (FuncVal, Bound, Extern, ClassVal)) or isinstance(args[0], type)


def b_dict(it, args, kw):
    d = dict(args[0]) if args else {}
    d.update(kw)
    return d


def b_str(it, args, kw):
    return '<str>'


def b_issubclass(it, args, kw):
    raise Unsupported('issubclass')


BUILTINS = dict(min=b_minmax('min'), max=b_minmax('max'), isinstance=b_isinstance, type=b_type, abs=b_abs,
                len=b_len, range=b_range, float=b_float, int=b_int, bool=b_bool, sum=b_sum, pow=b_pow,
                list=b_list, tuple=b_tuple, zip=b_zip, enumerate=b_enumerate, any=b_any, all=b_all,
                hasattr=b_hasattr, getattr=b_getattr, iter=b_iter, reversed=b_reversed, print=b_print,
                map=b_map, filter=b_filter, callable=b_callable, dict=b_dict, str=b_str, repr=b_str,
                round=b_round)


# ------------------------------------------------------------------ exploration
def explore(world, body, max_paths=None, queue=None):
    """run `body(run)` on every feasible path; yields the finished runs; `queue` holds the paths still to be explored"""
    queue = [[]] if queue is None else queue
    n = 0
    limit = max_paths or world.max_paths
    while queue:
        prefix = queue.pop()
        it = Run(world, prefix)
        n += 1
        if n > limit:
            raise TooManyPaths('more than %d paths' % limit)
        it.outcome = None
        try:
            body(it)
        except PathEnd:
            pass
        queue.extend(it.pending)
        yield it
