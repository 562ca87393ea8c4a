"""Symbolic NumPy arrays of any shape.

An array is a shape (integer terms) and a function from index terms to element values, evaluated at the indices an
obligation mentions.  Operators and the NumPy functions below are elementwise or reductions; a sum over an axis is a
term in a normal form that is linear in its body, so equal sums are equal terms.  Facts about sums that need more than
linearity (unfolding, monotonicity, exchange) are applied by the specifications through the rules at the end, each of
which states its premise as an obligation.
"""
from fractions import Fraction
import z3
from .interp import (Sym, SBool, Num, Inst, Extern, PyRaise, PathEnd, Unsupported, tonum, FuncVal, Bound)
from .ints import IntV, mkint, toint, SymRange
from .terms import Poly, K, Theory


def iz(v):
    e = toint(v) if not isinstance(v, z3.ExprRef) else v
    if e is None:
        raise Unsupported('not an integer: %r' % (v,))
    return z3.simplify(e)


def sx(e):
    return z3.simplify(e).sexpr() if isinstance(e, z3.ExprRef) else str(e)


def valid(it, f):
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return not it.feasible([z3.Not(f)] + guards(it))


def guards(it):
    return [g for gs in it.ghost.get('binders', []) for g in gs[1]]


def same_dim(it, a, b):
    return valid(it, a == b)


def mentions(e, names):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            return True
        todo.extend(x.children())
    return False


# ------------------------------------------------------------------ index-dependent atoms
def app(it, name, idx, sort='real'):
    """the atom name(idx) as a polynomial"""
    th = it.th
    idx = [z3.simplify(i) for i in idx]
    if not idx:
        return th.var(name, True)
    key = '%s(%s)' % (name, ','.join(i.sexpr().replace(' ', '_') for i in idx))
    if key not in th.atoms:
        f = z3.Function(name, *([z3.IntSort()] * len(idx) + [z3.RealSort()]))
        th.atoms[key] = f(*idx)
        th.inputs[key] = Poly({(key,): Fraction(1)})
        th.add_rep(Poly({(key,): Fraction(1)}))
        apps(it)[key] = (name, idx)
    return Poly({(key,): Fraction(1)})


def apps(it):
    return it.th.__dict__.setdefault('apps', {})


def lifted(th, kind, polys, facts):
    """the atom kind(polys) where the polynomials mention index-dependent atoms: a function of the indices, named by the
    polynomials with the indices left out, so that the same expression at another index is the same function there;
    None if no index occurs.  facts(z of the result, z of each polynomial) are added for every instance."""
    ap = th.__dict__.setdefault('apps', {})
    if not any(a in ap and any(not z3.is_int_value(i) for i in ap[a][1]) for p in polys for m in p.c for a in m):
        return None
    slots = []

    def slot(i):
        for q, j in enumerate(slots):
            if j.eq(i):
                return '$%d' % q
        slots.append(i)
        return '$%d' % (len(slots) - 1)

    def blank(a):
        return '%s/%d' % (ap[a][0], len(ap[a][1])) if a in ap else a

    def show(a):
        return '%s(%s)' % (ap[a][0], ','.join(slot(i) for i in ap[a][1])) if a in ap else a
    parts = []
    for p in polys:
        ms = sorted(p.c.items(), key=lambda t: (sorted(blank(a) for a in t[0]), t[1], t[0]))
        parts.append('+'.join('%s*%s' % (c, '*'.join(show(a) for a in sorted(m, key=lambda a: (blank(a), a)))) for m, c in ms))
    name = '%s{%s}' % (kind, ' ; '.join(parts))
    idx = slots
    key = '%s(%s)' % (name, ','.join(i.sexpr().replace(' ', '_') for i in idx))
    r = Poly({(key,): Fraction(1)})
    if key not in th.atoms:
        f = z3.Function(name, *([z3.IntSort()] * len(idx) + [z3.RealSort()]))
        th.atoms[key] = f(*idx)
        ap[key] = (name, list(idx))
        th.fixed.extend(facts(th.z(r), [th.z(p) for p in polys]))
    return r


def indicator(it, f):
    """1 where f holds, 0 elsewhere, as a polynomial"""
    f = z3.simplify(f)
    if z3.is_true(f) or z3.is_false(f):
        return K(1 if z3.is_true(f) else 0)
    if z3.is_not(f):
        return K(1) - indicator(it, f.arg(0))
    th = it.th
    slots = []
    byid = {}

    def index(i):
        if z3.is_int_value(i):
            return i
        for q, j in enumerate(slots):
            if j.eq(i):
                return z3.Int('$%d' % q)
        slots.append(i)
        return z3.Int('$%d' % (len(slots) - 1))

    def walk(e):
        if e.get_id() in byid:
            return byid[e.get_id()]
        if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = e.decl()(*[index(c) for c in e.children()])
        elif z3.is_app(e) and z3.is_const(e) and z3.is_int(e) and not z3.is_int_value(e):
            r = index(e)
        elif z3.is_app(e) and e.num_args():
            r = e.decl()(*[walk(c) for c in e.children()])
        else:
            r = e
        byid[e.get_id()] = r
        return r
    name = 'ind{%s}' % walk(f).sexpr().replace('\n', ' ')
    ap = apps(it)
    key = '%s(%s)' % (name, ','.join(i.sexpr().replace(' ', '_') for i in slots))
    r = Poly({(key,): Fraction(1)})
    if key not in th.atoms:
        if slots:
            g = z3.Function(name, *([z3.IntSort()] * len(slots) + [z3.RealSort()]))
            th.atoms[key] = g(*slots)
            ap[key] = (name, list(slots))
        else:
            th.atoms[key] = z3.Real(name)
        th.fixed.append(th.atoms[key] == z3.If(f, z3.RealVal(1), z3.RealVal(0)))
    return r


class Split(Unsupported):
    """a decision depends on the index of a sum"""
    def __init__(self, f):
        Unsupported.__init__(self, 'a decision that depends on the index of a sum: %s' % f)
        self.f = f


def breakpoints(f, k):
    """terms at which the truth of f may change as the integer k grows"""
    out = []
    todo = [f]
    while todo:
        e = todo.pop()
        if z3.is_and(e) or z3.is_or(e) or z3.is_not(e) or z3.is_implies(e):
            todo.extend(e.children())
            continue
        if e.num_args() == 2 and all(z3.is_int(c) for c in e.children()):
            d = z3.simplify(e.arg(0) - e.arg(1), som=True)
            at0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
            at1 = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))) - at0, som=True)
            if z3.is_int_value(at1) and at1.as_long() in (1, -1):
                r = z3.simplify(-at0 if at1.as_long() == 1 else at0)
                out.append(r)
    return out


class Binder:
    """evaluation at a generic index in a range; decisions must not depend on it"""
    def __init__(self, it, hint, lo, hi, k=None):
        d = len(it.ghost.setdefault('binders', []))
        self.it = it
        self.k = k if k is not None else z3.Int('k%d' % d)
        self.g = [lo <= self.k, self.k < hi]

    def __enter__(self):
        self.it.ghost['binders'].append((self.k.decl().name(), self.g))
        self.n = len(self.it.pc)
        return self.k

    def __exit__(self, *a):
        self.it.ghost['binders'].pop()


def install(RunCls):
    """makes Run aware of binders"""
    if getattr(RunCls, '_arr', False):
        return
    RunCls._arr = True
    branch0, assume0, oblige0 = RunCls.branch, RunCls.assume, RunCls.oblige

    def branch(self, f):
        bs = self.ghost.get('binders')
        if not bs:
            return branch0(self, f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        g = guards(self)
        if not self.feasible(g + [f]):
            return False
        if not self.feasible(g + [z3.Not(f)]):
            return True
        raise Split(f)

    def assume(self, f):
        g = guards(self)
        self.pc.append(z3.Implies(z3.And(g), f) if g else f)

    def oblige(self, name, goal, klass='property', always=False):
        g = guards(self)
        if g:
            goal = z3.Implies(z3.And(g), goal if not isinstance(goal, bool) else z3.BoolVal(goal))
        return oblige0(self, name, goal, klass, always)
    RunCls.branch, RunCls.assume, RunCls.oblige = branch, assume, oblige
    abs0, minmax0, inv0 = Theory.abs, Theory.minmax, Theory.inv

    def abs_(self, p):
        if p.const() is None:
            lead = min(p.c.items(), key=lambda t: (sorted(apps_name(self, a) for a in t[0]), abs(t[1])))[1]
            p = -p if lead < 0 else p
            r = lifted(self, 'abs', [p], lambda z, a: [z3.Or(z3.And(a[0] >= 0, z == a[0]), z3.And(a[0] < 0, z == -a[0]))])
            if r is not None:
                return r
        return abs0(self, p)

    def minmax(self, kind, ps):
        uniq = []
        for p in ps:
            if p not in uniq:
                uniq.append(p)
        if len(uniq) == 2 and (uniq[0] - uniq[1]).const() is None:
            r = lifted(self, kind, uniq, lambda z, a: [z3.Or([z == x for x in a])] + [(z <= x) if kind == 'min' else (z >= x) for x in a])
            if r is not None:
                return r
        return minmax0(self, kind, ps)

    def inv(self, q):
        if q.const() is None:
            lead = min(q.c.items(), key=lambda t: (sorted(apps_name(self, a) for a in t[0]), abs(t[1]), t[1]))[1]
            base = q.scale(1 / lead)
            r = lifted(self, 'inv', [base], lambda z, a: [])
            if r is not None:
                if (base, r) not in self.invs:
                    self.invs.append((base, r))
                return r.scale(1 / lead)
        return inv0(self, q)
    Theory.abs, Theory.minmax, Theory.inv = abs_, minmax, inv

    truth0 = SBool.binop

    def sb_binop(self, it, op, other, reflected):
        if op in ('+', '-', '*') and (it.ghost.get('lazy') or it.ghost.get('binders')):
            v = Num(indicator(it, self.f), 'np')
            return it.binop(op, other, v) if reflected else it.binop(op, v, other)
        return truth0(self, it, op, other, reflected)
    SBool.binop = sb_binop


def apps_name(th, a):
    ap = th.__dict__.get('apps', {})
    return '%s/%d' % (ap[a][0], len(ap[a][1])) if a in ap else a


def depends(it, atom, names):
    a = apps(it).get(atom)
    if a is not None and any(mentions(i, names) for i in a[1]):
        return True
    return bool(it.th.__dict__.setdefault('dep', {}).get(atom, set()) & names)


def strings(key, out):
    if isinstance(key, Poly):
        for m in key.c:
            out.update(m)
    elif isinstance(key, str):
        out.add(key)
    elif isinstance(key, (tuple, list)):
        for x in key:
            strings(x, out)


def note_new(it, before, names):
    """which atoms made while a binder was open depend on its index: those defined from terms that do"""
    th = it.th
    dep = th.__dict__.setdefault('dep', {})
    new = [a for a in th.atoms if a not in before and a not in apps(it)]
    if not new:
        return mark_apps(it, before, names)
    origin = {}
    for key, p in th.table.items():
        if isinstance(p, Poly) and len(p.c) == 1:
            (m, _), = p.c.items()
            if len(m) == 1:
                origin.setdefault(m[0], []).append(key)
    for a in new:
        if a not in origin:
            dep.setdefault(a, set()).update(names)
            continue
        src = set()
        strings(origin[a], src)
        if any('(' in x and any(n in x for n in names) for x in src) or any(depends(it, x, names) for x in src if x in th.atoms):
            dep.setdefault(a, set()).update(names)
    mark_apps(it, before, names)


def mark_apps(it, before, names):
    """atoms that are functions of indices may also contain, by name, atoms that depend on the index in another way"""
    dep = it.th.__dict__.setdefault('dep', {})
    raw = [a for a, s in dep.items() if s & names and a not in apps(it)]
    if raw:
        for a in it.th.atoms:
            if a in apps(it) and any(r in a for r in raw):
                dep.setdefault(a, set()).update(names)


def sum_term(it, lo, hi, body):
    """the sum of body(k) (a Num) for lo <= k < hi, as a polynomial; linear in the body"""
    lo, hi = iz(lo), iz(hi)
    d = z3.simplify(hi - lo)
    if z3.is_int_value(d):
        p = K(0)
        for q in range(max(0, d.as_long())):
            p = p + tonum(body(z3.simplify(lo + q))).p
        return p
    before = set(it.th.atoms)
    depth = len(it.ghost.get('binders', []))
    try:
        with Binder(it, 'k', lo, hi) as k:
            try:
                v = tonum(body(k))
            except Split as s:
                s.k = getattr(s, 'k', None)
                if s.k is None and mentions(s.f, {k.decl().name()}):
                    s.k, s.depth = k, depth
                raise
            name = k.decl().name()
            note_new(it, before, {name})
    except Split as s:
        if s.k is None or s.depth != depth:
            raise
        return sum_pieces(it, lo, hi, body, s, k)
    return sum_poly(it, v.p, name, lo, hi)


def sum_pieces(it, lo, hi, body, s, k):
    """the range of a sum is cut where a decision about its index changes"""
    for e in breakpoints(s.f, k):
        for c in (e, z3.simplify(e + 1)):
            if valid(it, z3.And(lo <= c, c <= hi)) and not valid(it, lo == c) and not valid(it, c == hi):
                return sum_term(it, lo, c, body) + sum_term(it, c, hi, body)
            if valid(it, z3.And(lo <= e, e < hi)) and valid(it, lo == e) and not valid(it, lo + 1 == hi):
                b = tonum(body(e)).p
                return b + sum_term(it, z3.simplify(e + 1), hi, body)
            if valid(it, z3.And(lo < e, e <= hi)) and valid(it, hi == e) and not valid(it, lo + 1 == hi):
                b = tonum(body(z3.simplify(e - 1))).p
                return b + sum_term(it, lo, z3.simplify(e - 1), body)
    raise s


def sum_poly(it, p, name, lo, hi):
    out = K(0)
    th = it.th
    for m, c in p.c.items():
        ins = tuple(a for a in m if depends(it, a, {name}))
        outs = tuple(a for a in m if a not in ins)
        out = out + Poly({outs: c}) * sum_mono(it, ins, name, lo, hi)
    return out


def sum_mono(it, ins, name, lo, hi):
    th = it.th
    if not ins:
        q = 'len:' + sx(hi - lo)
        if q not in th.atoms:
            th.atoms[q] = z3.ToReal(z3.If(hi >= lo, hi - lo, 0))
        return Poly({(q,): Fraction(1)})
    # the index arguments that are free of the bound index are parameters of the sum; a common shift is removed
    dep = it.th.__dict__.setdefault('dep', {})
    order = sorted(range(len(ins)), key=lambda q: apps(it)[ins[q]][0] if ins[q] in apps(it) else ins[q])
    k = z3.Int(name)
    shifts = set()
    for q in order:
        ap = apps(it).get(ins[q])
        if ap is None or dep.get(ins[q], set()) & {name}:
            shifts.add(None)
        if ap is None:
            continue
        for i in ap[1]:
            if mentions(i, {name}):
                d = z3.simplify(i - k, som=True)
                shifts.add(None if mentions(d, {name}) else d)
    shift = None
    if len(shifts) == 1 and None not in shifts:
        shift = shifts.pop()
        lo, hi = z3.simplify(lo + shift, som=True), z3.simplify(hi + shift, som=True)
    params, names = [lo, hi], []
    for q in order:
        ap = apps(it).get(ins[q])
        if ap is None:
            names.append(ins[q])
            continue
        args = []
        for i in ap[1]:
            if mentions(i, {name}):
                args.append('?' if shift is not None or z3.is_const(i) else i.sexpr().replace(' ', '_').replace(name, '?'))
            else:
                args.append('$')
                params.append(i)
        names.append('%s(%s)' % (ap[0], ','.join(args)))
    p = app(it, 'Sum{%s}' % '*'.join(names), params)
    (m, _), = p.c.items()
    empty = it.th.__dict__.setdefault('empties', set())
    if m[0] not in empty:
        empty.add(m[0])
        it.th.fixed.append(z3.Implies(lo >= hi, it.th.z(p) == 0))
    dep = it.th.__dict__.setdefault('dep', {})
    for a in ins:
        rest = dep.get(a, set()) - {name}
        if rest:
            dep.setdefault(m[0], set()).update(rest)
    return p


# ------------------------------------------------------------------ arrays
class Arr(Sym):
    """an ndarray; `obj` tells an object array (intervals) from a float one"""
    def __init__(self, shape, fn, obj=False, dtype='float'):
        self.shape = [iz(d) for d in shape]
        self.fn = fn
        self.obj = obj
        self.dtype = dtype
        self.version = 0
        self.base = None
        self.may_raise = False   # some element may raise: the operation that made the array was followed both ways
        self.view = None         # for a view: the array it was taken of, and the index in the view of an index there
        self.cache = {}

    # ---- elements
    def el(self, it, idx):
        if self.base is not None and self.base[0].version != self.base[1]:
            raise Unsupported('a view of an array that has changed')
        idx = [iz(i) for i in idx]
        if len(idx) != len(self.shape):
            raise Unsupported('element of an array with the wrong number of indices')
        # what an element is may have been decided from the conditions in force
        gs = guards(it)
        key = (it.ghost.get('epoch', 0),) + tuple(i.sexpr() for i in idx) + tuple(g.sexpr() if isinstance(g, z3.ExprRef) else g for g in gs)
        if key not in self.cache:
            lazy = it.ghost.get('lazy', 0)
            it.ghost['lazy'] = lazy + 1
            try:
                self.cache[key] = self.fn(it, idx)
            except PyRaise as e:
                if not self.may_raise and e.cls is not it.ghost.get('refusal'):
                    raise Unsupported('an element raises %r' % (e,))
                # the operation that made this array was split into raising and completing; here it completed
                raise PathEnd()
            finally:
                it.ghost['lazy'] = lazy
        return self.cache[key]

    def changed(self, fn):
        if self.base is not None:
            # a store through a view stores into the array it shows
            root, seen = self.base
            if self.view is None or root.version != seen:
                raise Unsupported('store through a view')
            parent, inv = self.view
            old = parent.copy()

            def through(it, idx):
                r = inv(it, idx)
                return old.el(it, idx) if r is None else fn(it, r)
            parent.changed(through)
            self.base = (root, root.version)
        self.fn = fn
        self.version += 1
        self.cache = {}

    def copy(self):
        if self.base is not None and self.base[0].version != self.base[1]:
            raise Unsupported('a view of an array that has changed')
        a = Arr(self.shape, self.fn, self.obj, self.dtype)
        a.may_raise = self.may_raise
        return a

    @property
    def ndim(self):
        return len(self.shape)

    # ---- protocol
    def isinst(self, it, t):
        return t in ('numpy.ndarray',)

    def length(self, it):
        if not self.shape:
            raise PyRaise(TypeError)
        return mkint(self.shape[0])

    def truth(self, it):
        if not self.shape:
            return it.truth(self.el(it, []))
        raise Unsupported('truth of an array')

    def iterate(self, it):
        d = self.shape[0]
        if not z3.is_int_value(d):
            raise Unsupported('iteration over an array of symbolic length')
        return [self.getitem(it, q) for q in range(d.as_long())]

    def getattr(self, it, name):
        if name == 'shape':
            return tuple(mkint(d) for d in self.shape)
        if name == 'ndim':
            return len(self.shape)
        if name == 'T':
            snap = self.copy()
            out = Arr(self.shape[::-1], lambda it, idx: snap.el(it, idx[::-1]), self.obj, self.dtype)
            out.base, out.view = self.base or (self, self.version), (self, lambda it, idx: idx[::-1])
            return out
        if name == 'copy':
            return Extern('copy', lambda it, a, k: self.copy())
        if name == 'size' and len(self.shape) == 1:
            return mkint(self.shape[0])
        if name == 'reshape':
            return Extern('reshape', lambda it, a, k: reshape(it, self, a[0] if len(a) == 1 else tuple(a)))
        if name in ('any', 'all'):
            return Extern(name, lambda it, a, k: quantified(it, self, name))
        if name in ('sum', 'min', 'max', 'argmin', 'argmax'):
            f = it.w.externs['numpy.' + name]
            return Extern(name, lambda it, a, k: f(it, [self] + a, k))
        if name == 'dtype':
            return DType(self)
        if name == 'flatten':
            if len(self.shape) == 1:
                return Extern(name, lambda it, a, k: self.copy())
        if name == 'astype':
            return Extern(name, lambda it, a, k: self.copy())
        if name == '__len__':
            return Extern(name, lambda it, a, k: self.length(it))
        if name == '__iter__':
            return Extern(name, lambda it, a, k: self)
        if name == '__repr__':
            return Extern(name, lambda it, a, k: '<array>')
        if name.startswith('__') or name in ('_data', 'data', 'a', 'b', 'mid', 'rad'):
            raise PyRaise(AttributeError, (name,))
        raise Unsupported('ndarray.' + name)

    # ---- operators
    def unop(self, it, op):
        if op in ('-', '+', 'abs'):
            return Arr(self.shape, lambda it, idx: it.unop(op, self.el(it, idx)), self.obj, self.dtype)
        if op == '~':
            return Arr(self.shape, lambda it, idx: it.negate(self.el(it, idx)), False, 'bool')
        raise Unsupported('unary %s of an array' % op)

    def binop(self, it, op, other, reflected):
        if isinstance(other, Inst):
            u = other.cls.lookup(it, '__array_ufunc__')
            if u is None or reflected:
                return NotImplemented
            return ufunc_call(it, op, self, other, other)
        if op == '@':
            o = as_arr(it, other)
            h = it.w.externs.get('::realmatmul')
            v = h(it, o, self) if h and reflected else h(it, self, o) if h else None
            if v is not None:
                return v
            return matmul(it, o, self) if reflected else matmul(it, self, o)
        o = as_operand(it, other)
        if o is None:
            return NotImplemented
        a, b = (o, self) if reflected else (self, o)
        return elementwise(it, lambda x, y: it.binop(op, x, y), a, b, op)

    def compare(self, it, op, other, reflected):
        if isinstance(other, Inst):
            return NotImplemented
        if other is None:
            return op == '!='
        o = as_operand(it, other)
        if o is None:
            raise Unsupported('comparison of an array with %r' % (other,))
        a, b = (o, self) if reflected else (self, o)
        r = elementwise(it, lambda x, y: it.compare(op, x, y), a, b, op)
        r.dtype = 'bool'
        r.obj = False
        return r

    iop_by_store = True

    def iop(self, it, op, rhs):
        """in place"""
        if isinstance(rhs, Inst) or op == '@':
            raise Unsupported('in-place operation')
        r = it.binop(op, self.copy(), rhs)
        if not isinstance(r, Arr) or len(r.shape) != len(self.shape) or not all(same_dim(it, a, b) for a, b in zip(r.shape, self.shape)):
            raise Unsupported('in-place operation that broadcasts')
        self.changed(lambda it, idx: r.el(it, idx))
        return self

    # ---- subscripts
    def getitem(self, it, key):
        if isinstance(key, Arr) and key.dtype == 'bool' and len(key.shape) == len(self.shape):
            return Masked(self.copy(), key.copy())
        sel = selection(it, self, key)
        fixed, dims = sel
        if not any(s[0] == 'free' for s in fixed) and not dims:
            return self.el(it, [s[1] for s in fixed])
        view = not any(s[0] == 'list' for s in fixed)
        snap = self.copy()
        out = Arr(dims, lambda it, idx: snap.el(it, place(it, fixed, idx)), self.obj, self.dtype)
        if view:
            out.base, out.view = self.base or (self, self.version), (self, lambda it, idx: inverse(it, fixed, idx))
        return out

    def setitem(self, it, key, v):
        if isinstance(key, Arr) and key.dtype == 'bool' and len(key.shape) == len(self.shape):
            old, mask = self.copy(), key.copy()
            if isinstance(v, Masked):
                v.same_mask(it, mask)
                src = v.src
                get = lambda it, idx: src.el(it, idx)
            elif isinstance(v, (Arr, list, tuple)):
                raise Unsupported('store of an array through a mask')
            else:
                get = lambda it, idx: v
            return self.changed(lambda it, idx: get(it, idx) if it.truth(mask.el(it, idx)) else old.el(it, idx))
        fixed, dims = selection(it, self, key)
        old = self.copy()
        if isinstance(v, Inst) and '_data' in v.f:
            v = v.f['_data']
        if isinstance(v, (list, tuple)):
            v = as_arr(it, v)
        if isinstance(v, Arr):
            val = v.copy()
            k = len(dims) - len(val.shape)
            if k < 0:
                raise Unsupported('store of an array with more axes')
            for d, e in zip(dims[k:], val.shape):
                if not same_dim(it, d, e) and not (z3.is_int_value(e) and e.as_long() == 1):
                    if valid(it, d != e):
                        raise PyRaise(ValueError, ('could not broadcast',))
                    raise Unsupported('store with unknown shapes')
            get = lambda it, idx: bcast(it, val, idx)
        else:
            get = lambda it, idx: v
        num = self.dtype
        if not self.obj and num == 'float':
            get0 = get
            get = lambda it, idx: to_float(it, get0(it, idx))

        def fn(it, idx):
            r = inverse(it, fixed, idx)
            return old.el(it, idx) if r is None else get(it, r)
        self.changed(fn)

    def typeof(self, it):
        return Extern('numpy.ndarray')

    def __repr__(self):
        return 'Arr%s' % (tuple(str(d) for d in self.shape),)


class Masked(Sym):
    """the elements of an array where a mask holds, in index order"""
    def __init__(self, src, mask):
        self.src, self.mask = src, mask

    def same_mask(self, it, mask):
        n = it.ghost['nmask'] = it.ghost.get('nmask', 0) + 1
        idx = [z3.Int('mask%d_%d' % (n, q)) for q in range(len(mask.shape))]
        form = lambda v: v.f if isinstance(v, SBool) else z3.BoolVal(bool(v))
        b = Binder(it, 'mask', z3.IntVal(0), z3.IntVal(1))
        ok = len(mask.shape) == len(self.mask.shape) and all(same_dim(it, p, q) for p, q in zip(mask.shape, self.mask.shape))
        with b:
            ok = ok and valid(it, form(mask.el(it, idx)) == form(self.mask.el(it, idx)))
        if not ok:
            raise Unsupported('store through another mask')


class DType(Sym):
    """the type of the elements: known for object and truth-value arrays, else float or integer"""
    def __init__(self, a):
        self.a = a

    def compare(self, it, op, other, reflected):
        if op not in ('==', '!='):
            return NotImplemented
        if isinstance(other, DType):
            if self.a is other.a:
                return op == '=='
            other = None
        r = repr(other)
        if self.a.obj:
            eq = other is object or "'object'" in r or 'object_' in r
        elif self.a.dtype == 'bool':
            eq = 'bool' in r
        elif 'object' in r or 'bool' in r:
            eq = False
        else:
            if 'dtype' not in self.a.__dict__.setdefault('known', {}):
                self.a.known['dtype'] = it.ghost['ndtype'] = it.ghost.get('ndtype', 0) + 1
            eq = it.choose('dtype:%d:%s' % (self.a.known['dtype'], r))
        return eq == (op == '==')

    def getattr(self, it, name):
        raise Unsupported('dtype.' + name)


def to_float(it, v):
    if isinstance(v, SBool) or isinstance(v, bool):
        return 1.0 if it.truth(v) else 0.0
    if isinstance(v, Num):
        return Num(v.p, 'np')
    if isinstance(v, IntV):
        return Num(v.num(it).p, 'np')
    if isinstance(v, int):
        return float(v)
    if isinstance(v, float):
        return v
    if isinstance(v, Sym):
        raise Unsupported('store of %r into a float array' % (v,))
    return v


def norm_index(it, i, n):
    """index into an axis of length n"""
    e = iz(i)
    if z3.is_int_value(e) and e.as_long() < 0:
        e = z3.simplify(e + n)
    ok = z3.And(e >= 0, e < n)
    if not valid(it, ok):
        if valid(it, z3.Not(ok)):
            raise PyRaise(IndexError)
        if it.ghost.get('lazy') or it.ghost.get('binders'):
            return e
        if not it.branch(ok):
            raise PyRaise(IndexError) if not it.feasible([e < 0]) else Unsupported('negative symbolic index')
    return e


def clamp(it, v, n, default):
    if v is None:
        return default
    e = iz(v)
    if z3.is_int_value(e) and e.as_long() < 0:
        e = z3.simplify(e + n)
    if valid(it, z3.And(e >= 0, e <= n)):
        return e
    if valid(it, e > n):
        return n
    if valid(it, e < 0):
        return z3.IntVal(0)
    if it.branch(e > n):
        return n
    if it.feasible([e < 0]) and it.branch(e < 0):
        raise Unsupported('negative slice bound')
    return e


def selection(it, arr, key):
    """-> per axis of arr ('at', e) | ('free', start, step, outdim) | ('list', [e...], outdim); output dims"""
    if isinstance(key, Inst):
        raise Unsupported('index by an instance')
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    if any(k is Ellipsis for k in key):
        q = [k is Ellipsis for k in key].index(True)
        key[q:q + 1] = [slice(None)] * (len(arr.shape) - len(key) + 1)
    if len(key) > len(arr.shape):
        raise PyRaise(IndexError)
    key += [slice(None)] * (len(arr.shape) - len(key))
    fixed, dims = [], []
    lists = [k for k in key if isinstance(k, (list,))]
    if len(lists) > 1 or any(isinstance(k, Arr) for k in key):
        raise Unsupported('index by arrays')
    for k, n in zip(key, arr.shape):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                if k.start is None and k.stop is None and k.step == -1:
                    fixed.append(('free', n - 1, -1, len(dims), n))
                    dims.append(n)
                    continue
                raise Unsupported('slice with a step')
            lo = clamp(it, k.start, n, z3.IntVal(0))
            hi = clamp(it, k.stop, n, n)
            ln = z3.simplify(hi - lo)
            if not valid(it, ln >= 0):
                if it.branch(ln < 0):
                    ln = z3.IntVal(0)
            fixed.append(('free', lo, 1, len(dims), ln))
            dims.append(ln)
        elif isinstance(k, list):
            es = [norm_index(it, e, n) for e in k]
            fixed.append(('list', es, len(dims)))
            dims.append(z3.IntVal(len(es)))
        elif k is None or k is Ellipsis:
            raise Unsupported('new axis')
        elif isinstance(k, bool) or isinstance(k, SBool):
            raise Unsupported('index by a truth value')
        elif isinstance(k, (int, IntV)):
            fixed.append(('at', norm_index(it, k, n)))
        else:
            raise Unsupported('index %r' % (k,))
    return fixed, dims


def place(it, fixed, idx):
    out = []
    for s in fixed:
        if s[0] == 'at':
            out.append(s[1])
        elif s[0] == 'free':
            out.append(z3.simplify(s[1] + s[2] * idx[s[3]]))
        else:
            e = s[1][-1]
            for q, x in enumerate(s[1][:-1]):
                if it.branch(idx[s[2]] == q):
                    e = x
                    break
            out.append(e)
    return out


def inverse(it, fixed, idx):
    """indices into the stored value of the element at idx, or None if it is not selected"""
    out = {}
    for s, i in zip(fixed, idx):
        if s[0] == 'at':
            if not it.branch(i == s[1]):
                return None
        elif s[0] == 'free':
            if s[2] != 1:
                raise Unsupported('store through a reversed slice')
            j = z3.simplify(i - s[1])
            if not it.branch(z3.And(j >= 0, j < s[4])):
                return None
            out[s[3]] = j
        else:
            for q in reversed(range(len(s[1]))):
                if it.branch(i == s[1][q]):
                    out[s[2]] = z3.IntVal(q)
                    break
            else:
                return None
    return [out[q] for q in sorted(out)]


def bcast(it, a, idx):
    """element of a at the index idx of a broadcast shape"""
    idx = idx[len(idx) - len(a.shape):]
    return a.el(it, [z3.IntVal(0) if z3.is_int_value(d) and d.as_long() == 1 else i for i, d in zip(idx, a.shape)])


def join_shapes(it, s, t):
    n = max(len(s), len(t))
    s = [z3.IntVal(1)] * (n - len(s)) + list(s)
    t = [z3.IntVal(1)] * (n - len(t)) + list(t)
    out = []
    for a, b in zip(s, t):
        one = lambda d: z3.is_int_value(d) and d.as_long() == 1
        if one(a):
            out.append(b)
        elif one(b):
            out.append(a)
        elif same_dim(it, a, b):
            out.append(a)
        elif valid(it, z3.And(a != b, a != 1, b != 1)):
            raise PyRaise(ValueError, ('operands could not be broadcast together',))
        else:
            raise Unsupported('broadcast of unknown shapes %s and %s' % (a, b))
    return out


def as_operand(it, v):
    v = it.concrete(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, (list, tuple)):
        return as_arr(it, v)
    if isinstance(v, (Num, int, float, SBool, IntV)):
        return Arr([], lambda it, idx: v)
    if isinstance(v, Sym) and getattr(v, 'is_interval', False):
        return Arr([], lambda it, idx: v, True)
    if isinstance(v, Inst) and '::a' in v.f:
        return Arr([], lambda it, idx: v, True)
    return None


def as_arr(it, v):
    v = it.concrete(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, Inst):
        d = v.cls.lookup(it, '__array__')
        if d is not None:
            return it.call(it.bind(d, v), [], {})
        return Arr([], lambda it, idx: v, True)
    if isinstance(v, (list, tuple)):
        vs = [as_arr(it, x) for x in v]
        if not vs:
            return Arr([0], lambda it, idx: None)
        sh = vs[0].shape
        for x in vs[1:]:
            if len(x.shape) != len(sh) or not all(same_dim(it, p, q) for p, q in zip(x.shape, sh)):
                raise Unsupported('ragged nested sequence')
        snaps = [x.copy() for x in vs]

        def fn(it, idx):
            for q, x in enumerate(snaps[:-1]):
                if it.branch(idx[0] == q):
                    return x.el(it, idx[1:])
            return snaps[-1].el(it, idx[1:])
        return Arr([len(vs)] + sh, fn, any(x.obj for x in vs), 'float')
    o = as_operand(it, v)
    if o is None:
        raise Unsupported('array from %r' % (v,))
    return o


def elementwise(it, f, a, b, op=''):
    shape = join_shapes(it, a.shape, b.shape)
    if op == '/' and b.obj and it.w.externs.get('::divisor'):
        it.w.externs['::divisor'](it, b.copy())      # the specification shows that no element raises
    elif op == '/' and not it.ghost.get('lazy') and (a.obj or b.obj):
        # some element may raise; if none did, every later look at an element may rely on that
        if it.choose('raise:%d' % it.th.__dict__.setdefault('nr', 0)) and may_raise(it, b):
            raise PyRaise(ZeroDivisionError)
        it.th.nr += 1
    raising = op == '/' and (a.obj or b.obj) and not it.w.externs.get('::divisor')
    a, b = a.copy(), b.copy()
    if op == '/' and not a.obj and not b.obj:
        n = it.ghost.setdefault('nfdiv', 0)
        it.ghost['nfdiv'] += 1

        def quotient(it, idx):
            # NumPy does not raise: nothing is known of an element divided by zero
            y = tonum(it.concrete(bcast(it, b, idx)))
            for i in idx:
                instances(it, [i])
            if y is not None and not valid(it, it.th.z(y.p) != 0):
                return Num(app(it, 'fdiv%d' % n, idx), 'np')
            return it.concrete(f(bcast(it, a, idx), bcast(it, b, idx)))
        return Arr(shape, quotient)
    out = Arr(shape, lambda it, idx: it.concrete(f(bcast(it, a, idx), bcast(it, b, idx))), a.obj or b.obj)
    out.may_raise = raising
    return out


def may_raise(it, b):
    return True


def ufunc_call(it, op, a, b, owner):
    nm = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'divide', '**': 'power', '@': 'matmul'}.get(op)
    if nm is None:
        raise Unsupported('ndarray %s object' % op)
    u = owner.cls.lookup(it, '__array_ufunc__')
    h = it.w.externs.get('::matmul') if op == '@' else None
    v = h(it, a, b) if h else None
    if v is not None:
        it.w.used_contracts.add((u.module.relpath, u.qual))
        return v
    return it.call(it.bind(u, owner), [Extern('numpy.' + nm), '__call__', a, b], {})


def matmul(it, a, b):
    if not a.shape or not b.shape:
        raise PyRaise(ValueError)
    inner = a.shape[-1]
    q = b.shape[0] if len(b.shape) == 1 else b.shape[-2]
    if not same_dim(it, inner, q):
        if valid(it, inner != q):
            raise PyRaise(ValueError, ('matmul',))
        if not it.branch(inner == q):
            raise PyRaise(ValueError, ('matmul',))
    if len(a.shape) > 2 or len(b.shape) > 2:
        raise Unsupported('matmul of stacks')
    sh = list(a.shape[:-1]) + (list(b.shape[1:]) if len(b.shape) == 2 else [])
    a, b = a.copy(), b.copy()

    def fn(it, idx):
        i = idx[:len(a.shape) - 1]
        j = idx[len(a.shape) - 1:]
        return sum_values(it, z3.IntVal(0), inner, lambda k: it.binop('*', a.el(it, i + [k]), b.el(it, [k] + j)))
    out = Arr(sh, fn, a.obj or b.obj)
    return out.el(it, []) if not sh else out


def sum_values(it, lo, hi, body):
    """sum of elements: numbers in exact arithmetic, or intervals by the hook of the world"""
    h = it.w.externs.get('::sum')
    if h is not None:
        r = h(it, lo, hi, body)
        if r is not NotImplemented:
            return r
    if not it.w.exact:
        raise Unsupported('sum of rounded numbers')
    return Num(sum_term(it, lo, hi, body), 'np')


def reshape(it, a, shape):
    if not isinstance(shape, tuple):
        shape = (shape,)
    dims = [iz(d) for d in shape]
    if len(a.shape) == 1:
        src = a.copy()
        big = [q for q, d in enumerate(dims) if not (z3.is_int_value(d) and d.as_long() == 1)]
        if len(big) == 1:
            q = big[0]
            if z3.is_int_value(dims[q]) and dims[q].as_long() == -1:
                dims[q] = a.shape[0]
            if not same_dim(it, dims[q], a.shape[0]):
                raise Unsupported('reshape')
            return Arr(dims, lambda it, idx: src.el(it, [idx[q]]), a.obj, a.dtype)
        if not big and same_dim(it, a.shape[0], z3.IntVal(1)):
            return Arr(dims, lambda it, idx: src.el(it, [z3.IntVal(0)]), a.obj, a.dtype)
    raise Unsupported('reshape')


def quantified(it, a, which):
    """a.any() / a.all(): a truth value with instances kept for the specification"""
    if not a.shape:
        return a.el(it, [])
    return Quant(a.copy(), which)


class Quant(Sym):
    def __init__(self, a, which):
        self.a, self.which = a, which

    def truth(self, it):
        n = it.ghost.setdefault('nquant', 0)
        it.ghost['nquant'] += 1
        r = it.choose('quant:%d' % n)
        it.ghost.setdefault('quants', []).append((self.a, self.which, r))
        if r != (self.which == 'all'):
            # a witness exists: any() is true, or all() is false
            w = [z3.Int('wit%d_%d' % (n, q)) for q in range(len(self.a.shape))]
            for x, d in zip(w, self.a.shape):
                it.assume(z3.And(x >= 0, x < d))
            v = self.a.el(it, w)
            f = v.f if isinstance(v, SBool) else z3.BoolVal(bool(v))
            it.assume(f if r else z3.Not(f))
            it.ghost.setdefault('witnesses', []).append(w)
        return r

    def instance(self, it, idx, r):
        pass

    def unop(self, it, op):
        if op == 'not':
            return not self.truth(it)
        raise Unsupported(op)


def instances(it, idx):
    """uses the decided quantified conditions at idx"""
    for a, which, r in it.ghost.get('quants', []):
        if len(a.shape) == len(idx) and r == (which == 'all'):
            v = a.el(it, idx)
            f = v.f if isinstance(v, SBool) else z3.BoolVal(bool(v))
            it.assume(z3.Implies(z3.And([z3.And(i >= 0, i < d) for i, d in zip(idx, a.shape)]), f if r else z3.Not(f)))


# ------------------------------------------------------------------ rules about sums (specifications call these)
def val(it, body, k):
    return tonum(body(k))


def sum_unfold_first(it, lo, hi, body):
    """lo < hi: sum[lo,hi) = body(lo) + sum[lo+1,hi)"""
    lo, hi = iz(lo), iz(hi)
    s, t = sum_term(it, lo, hi, body), sum_term(it, z3.simplify(lo + 1), hi, body)
    if not valid(it, lo < hi):
        raise Unsupported('unfolding a sum that may be empty')
    b = val(it, body, lo)
    it.assume(it.th.z(s) == it.th.z(b.p + t))


def sum_split(it, lo, mid, hi, body):
    lo, mid, hi = iz(lo), iz(mid), iz(hi)
    if not valid(it, z3.And(lo <= mid, mid <= hi)):
        raise Unsupported('splitting a sum outside its range')
    it.assume(it.th.z(sum_term(it, lo, hi, body)) == it.th.z(sum_term(it, lo, mid, body) + sum_term(it, mid, hi, body)))


def sum_empty(it, lo, hi, body):
    lo, hi = iz(lo), iz(hi)
    if not valid(it, lo >= hi):
        raise Unsupported('a sum that may not be empty')
    it.assume(it.th.z(sum_term(it, lo, hi, body)) == 0)


def sum_leq(it, name, lo, hi, f, g, given=None):
    """premise (obligation): f(k) <= g(k) on the range; conclusion: the sums are ordered"""
    lo, hi = iz(lo), iz(hi)
    before = set(it.th.atoms)
    with Binder(it, 'k', lo, hi) as k:
        if given is not None:
            it.assume(given(k))
        x, y = val(it, f, k), val(it, g, k)
        note_new(it, before, {k.decl().name()})
        it.oblige(name, it.th.z(x.p) <= it.th.z(y.p))
    it.assume(it.th.z(sum_term(it, lo, hi, f)) <= it.th.z(sum_term(it, lo, hi, g)))


def sum_eq(it, name, lo, hi, f, g, given=None):
    lo, hi = iz(lo), iz(hi)
    before = set(it.th.atoms)
    with Binder(it, 'k', lo, hi) as k:
        if given is not None:
            it.assume(given(k))
        x, y = val(it, f, k), val(it, g, k)
        note_new(it, before, {k.decl().name()})
        it.oblige(name, it.th.z(x.p) == it.th.z(y.p))
    it.assume(it.th.z(sum_term(it, lo, hi, f)) == it.th.z(sum_term(it, lo, hi, g)))


def sum_swap(it, lo1, hi1, lo2, hi2, body):
    """finite sums may be exchanged"""
    s = sum_term(it, lo1, hi1, lambda i: Num(sum_term(it, lo2, hi2, lambda j: body(i, j)), 'np'))
    t = sum_term(it, lo2, hi2, lambda j: Num(sum_term(it, lo1, hi1, lambda i: body(i, j)), 'np'))
    it.assume(it.th.z(s) == it.th.z(t))
