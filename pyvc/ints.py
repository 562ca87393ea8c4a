"""Symbolic integers and symbolic ranges."""
import z3
from .interp import Sym, SBool, Num, Unsupported, PyRaise, tonum
from .terms import Poly


def toint(v):
    if isinstance(v, IntV):
        return v.e
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    return None


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return IntV(e)


class IntV(Sym):
    def __init__(self, e):
        self.e = e

    def isinst(self, it, t):
        return t in ('int', 'numbers.Number', 'numbers.Real')

    def truth(self, it):
        return it.branch(self.e != 0)

    def unop(self, it, op):
        if op == '-':
            return mkint(-self.e)
        if op == 'abs':
            return self if it.branch(self.e >= 0) else mkint(-self.e)
        raise Unsupported('integer ' + op)

    def binop(self, it, op, other, reflected):
        o = toint(other)
        if o is None and op == '*' and isinstance(other, (list, tuple)) and '::repeat' in it.w.externs:
            return it.w.externs['::repeat'](it, other, self.e)
        if o is None:
            n = tonum(other)
            if n is not None:
                a, b = (n, self.num(it)) if reflected else (self.num(it), n)
                return it.num_binop(op, a, b)
            return NotImplemented
        a, b = (o, self.e) if reflected else (self.e, o)
        if op == '+':
            return mkint(a + b)
        if op == '-':
            return mkint(a - b)
        if op == '*':
            return mkint(a * b)
        if op in ('//', '%'):
            if it.branch(b == 0):
                raise PyRaise(ZeroDivisionError)
            if not (z3.is_int_value(b) and b.as_long() > 0):
                raise Unsupported('integer division by a symbolic number')
            return mkint(a / b) if op == '//' else mkint(a % b)
        if op == '/':
            if z3.is_int_value(b) and b.as_long() != 0:
                # an exact quotient that is an integer
                q = z3.simplify(a / b)
                if not z3.is_int_value(a) and it.valid_now(q * b == a):
                    v = quotient(it, a, b)
                    return Num(IntV(v).num(it).p, 'float')
            return it.num_binop('/', self.num(it) if not reflected else tonum(other),
                                IntV(b).num(it) if not z3.is_int_value(b) else tonum(b.as_long()))
        raise Unsupported('integer ' + op)

    def num(self, it):
        """the integer as a real term"""
        th = it.th
        name = 'int:' + str(self.e)
        if name not in th.atoms:
            p = th.atom(name, True)
            th.fixed.append(th.z(p) == z3.ToReal(self.e))
        th.__dict__.setdefault('ints', {})[name] = self
        return Num(Poly({(name,): 1}), 'int')

    def compare(self, it, op, other, reflected):
        o = toint(other)
        if o is None:
            n = tonum(other)
            if n is not None:
                return self.num(it).compare(it, op, other, reflected)
            return NotImplemented
        a, b = (o, self.e) if reflected else (self.e, o)
        return SBool({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op])

    def __repr__(self):
        return 'IntV(%s)' % self.e


class SymRange(Sym):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def iterate(self, it):
        raise Unsupported('loop over a symbolic range without a contract')


def sym_range(it, args, kw):
    vs = [toint(it.concrete(a)) for a in args]
    if any(v is None for v in vs):
        raise PyRaise(TypeError)
    step = 1
    if len(vs) == 1:
        lo, hi = z3.IntVal(0), vs[0]
    else:
        lo, hi = vs[0], vs[1]
        if len(vs) == 3:
            s = z3.simplify(vs[2])
            if not z3.is_int_value(s):
                raise Unsupported('symbolic step')
            step = s.as_long()
    return SymRange(lo, hi, step)


def quotient(it, a, b):
    """the integer q with q b = a"""
    key = ('quotient', a.sexpr(), b.as_long())
    if key not in it.th.table:
        t = z3.simplify(a / b)
        for e in it.ghost.get('sizes', []):
            if it.valid_now(e * b == a):
                t = e
        it.th.table[key] = t
    return it.th.table[key]
