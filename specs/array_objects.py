"""Contracts of ArrayInterval: every operation is the scalar operation on corresponding elements.

The elements are terms of a free algebra: the scalar operations are uninterpreted, so an element of a result is the
expected one exactly when the same scalar operation was applied to the same elements in the same order.  The only laws
used are consequences of P01, P02 and P04: + and * do not depend on the order of the operands and x - y is x + (-y).
"""
import z3
from pyvc.interp import Sym, Num, Inst, ClassVal, Extern, PyRaise, Unsupported, INLINE, tonum, SBool
from pyvc.ints import IntV, mkint
from pyvc.terms import K
from pyvc import arr as R, npw as N
from pyvc.arr import Arr, as_arr, iz, app
from pyvc.npw import KI, PYX, box
from .array_linear import fn_of, data_of, dim

FUNS = ('sqrt', 'exp', 'log', 'sin', 'cos')
NUMS = ('a', 'b', 'inf', 'sup', 'rad', 'mid', 'wid', 'mig', 'mag', 'khi')
IVS = ('dual', 'pro', 'opp', 'inv', 'to_float')


class TE(Sym):
    """the value of a term of the free algebra"""
    def __init__(self, op, args, interval=True):
        self.op, self.args, self.is_interval = op, tuple(args), interval

    def isinst(self, it, t):
        if isinstance(t, ClassVal):
            return self.is_interval and t.name in ('ClassicalArithmetic', 'BaseTools')
        if t in ('numbers.Number', 'numbers.Real', 'float', 'numpy.float64'):
            return not self.is_interval
        return False

    def typeof(self, it):
        if self.is_interval:
            return it.module_get(it.w.module(PYX), 'ClassicalArithmetic')
        raise Unsupported('type of a term')

    def getattr(self, it, name):
        if name in NUMS:
            return TE({'inf': 'a', 'sup': 'b'}.get(name, name), [self], False)
        if name in ('dual', 'pro', 'opp', 'inv'):
            return TE(name, [self])
        if name in FUNS + ('to_float', 'copy'):
            return Extern(name, lambda it, a, k: TE(name, [self]))
        raise PyRaise(AttributeError, (name,))

    def unop(self, it, op):
        return self if op == '+' else TE({'-': 'neg', 'abs': 'abs'}[op], [self], self.is_interval)

    def binop(self, it, op, other, reflected):
        if isinstance(other, Arr) or isinstance(other, Inst) and '_data' in other.f:
            if isinstance(other, Inst) and not reflected:
                # what the scalar classes do with an operand they do not know
                raise Unsupported('term and array')
            return NotImplemented
        a, b = (other, self) if reflected else (self, other)
        return term(op, a, b)

    def compare(self, it, op, other, reflected):
        if isinstance(other, Arr) or isinstance(other, Inst) and '_data' in other.f:
            return NotImplemented
        a, b = (other, self) if reflected else (self, other)
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        return TE(op, [a, b], False)

    def contains(self, it, x):
        return TE('in', [x, self], False)

    def truth(self, it):
        raise Unsupported('truth of a term')

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


def term(op, a, b):
    """a op b"""
    if op == '-':
        return TE('+', [a, TE('neg', [b])])
    return TE(op, [a, b])


def scalar_inst(v):
    return v.cls.name in ('ClassicalArithmetic', 'KaucherArithmetic')


def same(it, a, b):
    """the two values are equal whatever the scalar operations are"""
    a, b = it.concrete(a), it.concrete(b)
    if a is b:
        return True
    if isinstance(a, TE) and isinstance(b, TE):
        if a.op != b.op or len(a.args) != len(b.args) or a.is_interval != b.is_interval:
            return False
        if a.op == 'leaf':
            return a.args[0] == b.args[0] and all(R.valid(it, iz(p) == iz(q)) for p, q in zip(a.args[1], b.args[1]))
        if all(same(it, p, q) for p, q in zip(a.args, b.args)):
            return True
        return a.op in ('+', '*', '==', '!=') and same(it, a.args[0], b.args[1]) and same(it, a.args[1], b.args[0])
    if isinstance(a, TE) or isinstance(b, TE):
        # -r for a number r, -[l, u] = [-u, -l]
        x, y = (a, b) if isinstance(a, TE) else (b, a)
        if isinstance(y, Inst) and x.op == 'neg' and isinstance(x.args[0], Inst) and scalar_inst(y) and scalar_inst(x.args[0]):
            z = x.args[0]
            return all(same(it, it.getattr(y, p), it.unop('-', it.getattr(z, q))) for p, q in ('ab', 'ba'))
        n, m = tonum(y), tonum(it.concrete(x.args[0])) if x.op == 'neg' else None
        return n is not None and m is not None and R.valid(it, it.th.z(n.p) == it.th.z(-m.p))
    if isinstance(a, IntV):
        a = a.num(it)
    if isinstance(b, IntV):
        b = b.num(it)
    if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls and scalar_inst(a):
        return all(same(it, it.getattr(a, n), it.getattr(b, n)) for n in 'ab')
    if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
        return False
    n, m = tonum(a), tonum(b)
    return n is not None and m is not None and R.valid(it, it.th.z(n.p) == it.th.z(m.p))


def objects_world(root):
    w = N.np_world(root, ghost=False, exact=True)
    e = w.externs

    def fun(name):
        def f(it, x):
            if isinstance(x, TE):
                return TE(name, [x])
            raise Unsupported('%s of %r' % (name, x))
        f.__name__ = '_' + name
        return f
    for n in FUNS:
        e['numpy.' + n] = N.np_map(fun(n))
    e['numpy.delete'] = np_delete
    e['numpy.array'] = np_array

    def power(it, a, k):
        return it.binop('**', a[0], a[1])
    e['pow'] = power

    def scalar(op, refl=False):
        def f(it, fn, args, kw):
            o = it.concrete(args[1])
            if isinstance(o, TE):
                return term(op, o, args[0]) if refl else term(op, args[0], o)
            return INLINE
        return f
    for c in ('ClassicalArithmetic', 'KaucherArithmetic'):
        for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('pow', '**')):
            w.contracts[(PYX, '%s.__%s__' % (c, nm))] = scalar(op)
        for nm, op in (('radd', '+'), ('rsub', '-'), ('rmul', '*'), ('rtruediv', '/')):
            w.contracts[(PYX, '%s.__%s__' % (c, nm))] = scalar(op, True)
    for nm, op in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
        def cmp(it, fn, args, kw, op=op):
            o = it.concrete(args[1])
            return o.compare(it, op, args[0], True) if isinstance(o, TE) else INLINE
        w.contracts[(PYX, 'BaseTools.__%s__' % nm)] = cmp

    def single(it, fn, args, kw):
        """SingleInterval(v, v): the point interval (P11)"""
        if kw or not same(it, args[0], args[1]):
            raise Unsupported('SingleInterval')
        return TE('point', [args[0]])
    w.contracts[(KI, 'SingleInterval')] = single
    return w


def np_array(it, args, kw):
    if isinstance(it.concrete(args[0]), TE):
        v = it.concrete(args[0])
        return Arr([], lambda it, idx: v, True)
    return N.np_array(it, args, kw)


def np_delete(it, args, kw):
    a, key = as_arr(it, args[0]).copy(), args[1]
    ax = kw.get('axis', args[2] if len(args) > 2 else None)
    if not isinstance(ax, int) or not isinstance(key, (int, IntV)) or ax >= len(a.shape):
        raise Unsupported('delete')
    q = R.norm_index(it, key, a.shape[ax])
    sh = list(a.shape)
    sh[ax] = z3.simplify(sh[ax] - 1)

    def fn(it, idx):
        i = idx[ax]
        return a.el(it, idx[:ax] + [i if it.branch(i < q) else z3.simplify(i + 1)] + idx[ax + 1:])
    return Arr(sh, fn, a.obj, a.dtype)


# ---------------------------------------------------------------- operands
def leaf(name, idx):
    return TE('leaf', [name, tuple(idx)])


def tbox(it, name, shape):
    return box(it, shape, lambda it, idx: leaf(name, idx))


SHAPES = {
    '1': (['d0'], None), '2': (['d0', 'd1'], None), '3': (['d0', 'd1', 'd2'], None), '4': (['d0', 'd1', 'd2', 'd3'], None),
    'row': (['d0', 'd1'], ['d1']), 'one': (['d0'], [1]), 'column': (['d0', 1], ['d1']), 'outer': (['d0', 1], [1, 'd1']),
    'deep': (['d0', 'd1', 'd2'], ['d1', 1]), 'lift': (['d1'], ['d0', 'd1']),
}


def dims(it, s):
    return [dim(it, d) if isinstance(d, str) else z3.IntVal(d) for d in s]


class Operand:
    def __init__(self, it, kind, name, shape):
        self.kind, self.name, self.shape = kind, name, shape if kind in 'AM' else []
        if kind == 'A':
            self.v = tbox(it, name, shape)
        elif kind == 'M':
            self.v = Arr(shape, lambda it, idx: Num(app(it, name, idx), 'np'))
        elif kind == 's':
            self.v = it.call(it.module_get(it.w.module(PYX), 'ClassicalArithmetic'), [Num(it.th.var(name + '.a'), 'float'), Num(it.th.var(name + '.b'), 'float')], {})
            self.before = dict(self.v.f)
        elif kind == 'n':
            self.v = Num(it.th.var(name), 'float')
        elif kind == 'f':
            self.v = Num(it.th.var(name), 'np')
        elif kind == 'i':
            self.v = mkint(z3.Int(name))
        self.data = data_of(self.v) if kind == 'A' else self.v
        self.version = getattr(self.data, 'version', 0)

    def el(self, it, idx):
        """the element that belongs to the index of the broadcast shape"""
        if self.kind not in 'AM':
            return self.v
        idx = idx[len(idx) - len(self.shape):]
        idx = [z3.IntVal(0) if z3.is_int_value(d) and d.as_long() == 1 else i for i, d in zip(idx, self.shape)]
        return leaf(self.name, idx) if self.kind == 'A' else Num(app(it, self.name, idx), 'np')

    def unchanged(self, it):
        if self.kind == 'A':
            return data_of(self.v) is self.data and self.data.version == self.version
        if self.kind == 'M':
            return self.v.version == self.version
        if self.kind == 's':
            return self.v.f == self.before
        return True


def index(it, shape, name='i'):
    out = [z3.Int('%s%d' % (name, q)) for q in range(len(shape))]
    for i, d in zip(out, shape):
        it.assume(z3.And(i >= 0, i < d))
    return out


def check(it, what, r, shape, want, interval=True, own=()):
    """r is an array of that shape whose element at any index is the wanted one"""
    if interval:
        ok = isinstance(r, Inst) and r.cls.name == 'ArrayInterval'
        it.oblige('%s is an interval array' % what, ok)
        if not ok:
            return
        it.oblige('%s: shape attributes' % what, shape_ok(it, r))
        for o in own:
            it.oblige('%s does not share its elements with an operand' % what, data_of(r) is not data_of(o))
    a = as_arr(it, r)
    ok = len(a.shape) == len(shape) and all(R.same_dim(it, p, q) for p, q in zip(a.shape, shape))
    it.oblige('%s: shape' % what, ok)
    if ok:
        idx = index(it, shape)
        it.oblige('%s: element' % what, same(it, a.el(it, idx), want(idx)))


def shape_ok(it, r):
    a = data_of(r)
    g = lambda n: it.getattr(r, n)
    sh, rg = g('shape'), g('ranges')
    return len(sh) == len(a.shape) == g('ndim') == len(rg) and all(R.same_dim(it, iz(p), q) for p, q in zip(sh, a.shape))


def join(s, t):
    n = max(len(s), len(t))
    s, t = [1] * (n - len(s)) + list(s), [1] * (n - len(t)) + list(t)
    one = lambda d: d == 1 if isinstance(d, int) else z3.is_int_value(d) and d.as_long() == 1
    return [iz(q) if one(p) else iz(p) for p, q in zip(s, t)]


def case_binary(op, left, right, form):
    def body(it):
        s, t = SHAPES[form]
        s = dims(it, s)
        t = s if t is None else dims(it, t)
        x, y = Operand(it, left, 'X', s if left in 'AM' else t), Operand(it, right, 'Y', t if left in 'AM' else s)
        shape = join(x.shape, y.shape)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            r = it.compare(op, x.v, y.v)
            a, b, o = (lambda i: x.el(it, i)), (lambda i: y.el(it, i)), op
            if op in ('>', '>='):
                a, b, o = b, a, {'>': '<', '>=': '<='}[op]
            check(it, 'x %s y' % op, r, shape, lambda i: TE(o, [a(i), b(i)], False), False)
        else:
            try:
                r = it.binop(op, x.v, y.v)
            except PyRaise as e:
                it.oblige('raises only in a division', op == '/' and e.cls in (ZeroDivisionError, ValueError))
                it.oblige('operands unchanged', x.unchanged(it) and y.unchanged(it))
                return
            check(it, 'x %s y' % op, r, shape, lambda i: term(op, x.el(it, i), y.el(it, i)), True, [o.v for o in (x, y) if o.kind == 'A'])
        it.oblige('operands unchanged', x.unchanged(it) and y.unchanged(it))
    return 'array %s %s %s, %s' % (left, op, right, form), body


def case_inplace(op, right, form):
    def body(it):
        s, t = SHAPES[form]
        s = dims(it, s)
        t = s if t is None else dims(it, t)
        x, y = Operand(it, 'A', 'X', s), Operand(it, right, 'Y', t)
        cp = it.call(it.getattr(x.v, 'copy'), [], {})
        view = it.getattr(x.v, 'T')
        try:
            m = it.getattr(x.v, {'+': '__iadd__', '-': '__isub__', '*': '__imul__', '/': '__itruediv__'}[op])
            r = it.call(m, [y.v], {})
        except PyRaise as e:
            it.oblige('raises only in a division', op == '/' and e.cls in (ZeroDivisionError, ValueError))
            return
        it.oblige('the target is returned', r is x.v)
        check(it, 'x %s= y' % op, r, s, lambda i: term(op, leaf('X', i), y.el(it, i)))
        it.oblige('the other operand is unchanged', y.unchanged(it))
        check(it, 'the copy', cp, s, lambda i: leaf('X', i))
        check(it, 'the transpose', view, s[::-1], lambda i: leaf('X', i[::-1]))
    return 'array %s= %s, %s' % (op, right, form), body


def case_unary(rank):
    def body(it):
        s = dims(it, SHAPES[str(rank)][0])
        x = Operand(it, 'A', 'X', s)
        g = lambda n: it.getattr(x.v, n)
        for n in NUMS:
            if n == 'khi' and 'khi' not in NUMS:
                continue
            check(it, n, g(n), s, lambda i: TE({'inf': 'a', 'sup': 'b'}.get(n, n), [leaf('X', i)], False), False)
        for n in IVS:
            v = g(n)
            check(it, n, it.call(v, [], {}) if n == 'to_float' else v, s, lambda i: TE(n, [leaf('X', i)]), True, [x.v])
        check(it, '-x', it.unop('-', x.v), s, lambda i: TE('neg', [leaf('X', i)]), True, [x.v])
        check(it, 'abs', it.call(g('__abs__'), [], {}), s, lambda i: TE('abs', [leaf('X', i)]), True, [x.v])
        for n in FUNS:
            check(it, n, it.w.externs['numpy.' + n](it, [x.v], {}), s, lambda i: TE(n, [leaf('X', i)]), True, [x.v])
        k = Operand(it, 'i', 'k', [])
        check(it, 'power', it.binop('**', x.v, k.v), s, lambda i: TE('**', [leaf('X', i), k.v]), True, [x.v])
        it.oblige('operand unchanged', x.unchanged(it))
    return 'unary operations, %d axes' % rank, body


def case_structure(rank):
    """copy, deepcopy, T, reshape, len, and independence of later assignments"""
    def body(it):
        s = dims(it, SHAPES[str(rank)][0])
        x = Operand(it, 'A', 'X', s)
        g = lambda n: it.getattr(x.v, n)
        cp, dc = it.call(g('copy'), [], {}), it.call(g('__deepcopy__'), [{}], {})
        t = g('T')
        check(it, 'copy', cp, s, lambda i: leaf('X', i), True, [x.v])
        check(it, 'deepcopy', dc, s, lambda i: leaf('X', i), True, [x.v])
        check(it, 'transpose', t, s[::-1], lambda i: leaf('X', i[::-1]), True, [x.v])
        it.oblige('len', iz(it.call(g('__len__'), [], {})) == s[0])
        if rank == 1:
            check(it, 'reshape', it.call(g('reshape'), [(mkint(s[0]), 1)], {}), [s[0], z3.IntVal(1)], lambda i: leaf('X', i[:1]), True, [x.v])
        it.oblige('operand unchanged', x.unchanged(it))
        # an assignment to one of them
        at = [z3.Int('at%d' % q) for q in range(rank)]
        for i, d in zip(at, s):
            it.assume(z3.And(i >= 0, i < d))
        new = TE('leaf', ['new', ()])
        key = tuple(mkint(i) for i in at)
        it.call(it.getattr(cp, '__setitem__'), [key if rank > 1 else key[0], new], {})
        check(it, 'x after an assignment to its copy', x.v, s, lambda i: leaf('X', i))
        check(it, 'the transpose after an assignment to the copy', t, s[::-1], lambda i: leaf('X', i[::-1]))
        it.call(it.getattr(x.v, '__setitem__'), [key if rank > 1 else key[0], new], {})
        check(it, 'the deep copy after an assignment to x', dc, s, lambda i: leaf('X', i))
        check(it, 'the copy after both', cp, s, lambda i: new if it.branch(z3.And([p == q for p, q in zip(i, at)])) else leaf('X', i))
    return 'copies, transpose, %d axes' % rank, body


def keys(it, kind, s):
    """key, shape of the selection, index map of the selection, test and inverse of an index of the whole"""
    i, lo, hi = z3.Int('p'), z3.Int('lo'), z3.Int('hi')
    it.assume(z3.And(i >= 0, i < s[0], lo >= 0, lo <= hi, hi <= s[0]))
    I = mkint(i)
    sl = slice(mkint(lo), mkint(hi))
    r = len(s)
    if kind == 'int':
        return I, s[1:], lambda j: [i] + j, lambda j: j[0] == i, lambda j: j[1:]
    if kind == 'last':
        return -1, s[1:], lambda j: [s[0] - 1] + j, lambda j: j[0] == s[0] - 1, lambda j: j[1:]
    if kind == 'slice':
        return sl, [hi - lo] + s[1:], lambda j: [j[0] + lo] + j[1:], lambda j: z3.And(j[0] >= lo, j[0] < hi), lambda j: [j[0] - lo] + j[1:]
    if kind == 'all':
        return slice(None), s, lambda j: j, lambda j: z3.BoolVal(True), lambda j: j
    q = z3.Int('q')
    it.assume(z3.And(q >= 0, q < s[1]))
    Q = mkint(q)
    if kind == 'cell':
        return (I, Q), s[2:], lambda j: [i, q] + j, lambda j: z3.And(j[0] == i, j[1] == q), lambda j: j[2:]
    if kind == 'column':
        return (slice(None), Q), [s[0]] + s[2:], lambda j: [j[0], q] + j[1:], lambda j: j[1] == q, lambda j: [j[0]] + j[2:]
    if kind == 'block':
        return (sl, Q), [hi - lo] + s[2:], lambda j: [j[0] + lo, q] + j[1:], lambda j: z3.And(j[0] >= lo, j[0] < hi, j[1] == q), lambda j: [j[0] - lo] + j[2:]
    raise KeyError(kind)


KEYS = [(1, 'int'), (1, 'last'), (1, 'slice'), (1, 'all'), (2, 'int'), (2, 'last'), (2, 'slice'), (2, 'cell'), (2, 'column'), (2, 'block'), (3, 'cell'), (3, 'column'), (3, 'int'), (4, 'column')]


def case_getitem(rank, kind):
    def body(it):
        s = dims(it, SHAPES[str(rank)][0])
        x = Operand(it, 'A', 'X', s)
        key, sh, to, inside, back = keys(it, kind, s)
        r = it.call(it.getattr(x.v, '__getitem__'), [key], {})
        if not sh:
            it.oblige('element', same(it, r, leaf('X', to([]))))
            return
        for d in sh:
            it.assume(d >= 1)
        check(it, 'selection', r, sh, lambda j: leaf('X', to(j)), True, [x.v])
        # the selection does not share later assignments
        at = index(it, sh, 'at')
        it.call(it.getattr(r, '__setitem__'), [tuple(mkint(i) for i in at), TE('leaf', ['new', ()])], {})
        it.oblige('x unchanged', x.unchanged(it))
        check(it, 'x after an assignment to the selection', x.v, s, lambda i: leaf('X', i))
    return 'x[%s], %d axes' % (kind, rank), body


def case_setitem(rank, kind, value):
    def body(it):
        s = dims(it, SHAPES[str(rank)][0])
        x = Operand(it, 'A', 'X', s)
        cp = it.call(it.getattr(x.v, 'copy'), [], {})
        key, sh, to, inside, back = keys(it, kind, s)
        if value in 'AM' and not sh:
            return it.oblige('nothing to do', True)
        y = Operand(it, value, 'Y', sh)
        it.call(it.getattr(x.v, '__setitem__'), [key, y.v], {})
        point = lambda v: TE('point', [v]) if value in 'nfM' else v

        def want(i):
            if it.branch(inside(i)):
                return point(y.el(it, [z3.simplify(j) for j in back(i)]))
            return leaf('X', i)
        check(it, 'x', x.v, s, want)
        it.oblige('the value is unchanged', y.unchanged(it))
        check(it, 'a copy made before', cp, s, lambda i: leaf('X', i))
    return 'x[%s] = %s, %d axes' % (kind, value, rank), body


def case_delitem(rank, axis):
    def body(it):
        s = dims(it, SHAPES[str(rank)][0])
        x = Operand(it, 'A', 'X', s)
        cp = it.call(it.getattr(x.v, 'copy'), [], {})
        p = z3.Int('p')
        it.assume(z3.And(p >= 0, p < s[axis]))
        if axis == 0:
            from pyvc.interp import Unsupported as U
            key = mkint(p)
        else:
            key = tuple([slice(None)] * axis + [mkint(p)])
        it.call(it.getattr(x.v, '__delitem__'), [key], {})
        sh = list(s)
        sh[axis] = s[axis] - 1
        it.assume(s[axis] >= 2)
        check(it, 'x', x.v, sh, lambda i: leaf('X', i[:axis] + [i[axis] if it.branch(i[axis] < p) else i[axis] + 1] + i[axis + 1:]))
        check(it, 'a copy made before', cp, s, lambda i: leaf('X', i))
    return 'del x[...], axis %d of %d' % (axis, rank), body


def cases13():
    out = []
    for op in '+-*/':
        for f in ('1', '2', '3', '4', 'row', 'one', 'column', 'outer', 'deep', 'lift'):
            out.append(case_binary(op, 'A', 'A', f))
            out.append(case_binary(op, 'A', 'M', f))
            out.append(case_binary(op, 'M', 'A', f))
        for f in ('1', '2', '3', '4'):
            for k in 'snf':
                out += [case_binary(op, 'A', k, f), case_binary(op, k, 'A', f)]
        for f in ('1', '2', '3', 'row'):
            out += [case_inplace(op, k, f) for k in 'AM']
        for f in ('1', '2'):
            out += [case_inplace(op, k, f) for k in 'snf']
    for op in ('<', '<=', '>', '>=', '==', '!='):
        for f in ('1', '2', '3', 'row'):
            out += [case_binary(op, 'A', k, f) for k in ('A', 'M')]
        for f in ('1', '2', '3'):
            out += [case_binary(op, 'A', k, f) for k in 'sn']
            out += [case_binary(op, k, 'A', f) for k in 'n']
    out += [case_unary(r) for r in (1, 2, 3, 4)]
    out += [case_structure(r) for r in (1, 2, 3)]
    out += [case_getitem(r, k) for r, k in KEYS]
    out += [case_setitem(r, k, v) for r, k in KEYS for v in 'AsnM']
    out += [case_delitem(r, q) for r in (1, 2, 3) for q in range(r)]
    return out


# ---------------------------------------------------------------- matrix products
def te_sum(it, lo, hi, body):
    """the sum of terms in index order, as a term of its body at the bound index"""
    with R.Binder(it, 'k', iz(lo), iz(hi), z3.Int('k!')) as k:
        v = it.concrete(body(k))
    if not isinstance(v, TE):
        return NotImplemented
    return TE('sum', [mkint(iz(lo)), mkint(iz(hi)), v])


def product_world(root):
    w = objects_world(root)
    w.externs['::sum'] = te_sum
    return w


FORMS = {'matrix @ matrix': (['n', 'k'], ['k', 'm']), 'matrix @ vector': (['n', 'k'], ['k']), 'vector @ matrix': (['k'], ['k', 'm']), 'vector @ vector': (['k'], ['k'])}


def product_shape(s, t):
    return list(s[:-1]) + (list(t[1:]) if len(t) == 2 else [])


def case_product(form, left, right):
    """entry (i, j) is the sum over k in order of the scalar products of A[i, k] and B[k, j]"""
    def body(it):
        s, t = FORMS[form]
        s, t = dims(it, s), dims(it, t)
        x, y = Operand(it, left, 'X', s), Operand(it, right, 'Y', t)
        r = it.concrete(it.binop('@', x.v, y.v))
        sh = product_shape(s, t)

        def want(i):
            a, b = i[:len(s) - 1], i[len(s) - 1:]
            k = z3.Int('k!')
            return TE('sum', [0, mkint(s[-1]), term('*', x.el(it, a + [k]), y.el(it, [k] + b))])
        if sh:
            check(it, 'x @ y', r, sh, want, True, [o.v for o in (x, y) if o.kind == 'A'])
        else:
            it.oblige('x @ y', same(it, r, want([])))
        it.oblige('operands unchanged', x.unchanged(it) and y.unchanged(it))
    return '%s, %s @ %s' % (form, left, right), body


def member_world(root):
    return N.np_world(root)


def case_members(form, left, right):
    """the entry contains the exact sum of products of members"""
    def body(it):
        s, t = FORMS[form]
        s, t = dims(it, s), dims(it, t)
        mk = lambda kind, name, sh: N.gbox(it, name, sh) if kind == 'A' else Arr(sh, lambda it, idx: Num(app(it, name, idx), 'np'))
        x, y = mk(left, 'X', s), mk(right, 'Y', t)
        r = it.concrete(it.binop('@', x, y))
        sh = product_shape(s, t)
        i = index(it, sh)
        a, b = i[:len(s) - 1], i[len(s) - 1:]
        want = R.sum_term(it, z3.IntVal(0), s[-1], lambda k: Num(app(it, 'X', a + [k]) * app(it, 'Y', [k] + b), 'np'))
        N.encloses(it, 'the entry contains the sum of products of members', as_arr(it, r).el(it, i) if sh else r, want)
    return '%s, members, %s @ %s' % (form, left, right), body



def cases14():
    return [case_product(f, *k) for f in FORMS for k in ('AA', 'AM', 'MA')]


def cases14_members():
    return [case_members(f, *k) for f in FORMS for k in ('AA', 'AM', 'MA')]
