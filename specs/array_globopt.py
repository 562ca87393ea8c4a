"""Contract of globopt: for every point x* of the starting box some box of the work list contains x*.

The work list is a sequence of unknown length; the function is taken by contract: an inclusion function, whose value
depends on the box only.  phi = f(x*) is ghost data.
"""
import z3
from pyvc.interp import Num, PyRaise, Unsupported, Extern, Inst, Sym, tonum, b_len
from pyvc.ints import IntV, mkint
from pyvc.terms import K
from pyvc import arr as R, npw as N
from pyvc.arr import app, iz, Arr, as_arr
from pyvc.npw import GI, box, np_world, Invariant, while_loop
from .array_linear import data_of, fn_of, xs

GO = 'intvalpy/nonlinear/globopt.py'
Z = z3.IntVal(0)


class Layer:
    """an immutable state of the list"""
    def __init__(self, n, fn, where, pure=False):
        self.n, self.fn, self.hooks, self.cache, self.pure, self.done = z3.simplify(n), fn, [], {}, pure, set()
        self.where = where           # positions of the entries put in, as they are now

    def entry(self, it, i):
        i = z3.simplify(iz(i))
        epoch = it.ghost.get('epoch', 0)
        # what an entry is may have been decided from the conditions in force
        key = (0 if self.pure else epoch, i.sexpr())
        if key not in self.cache:
            self.cache[key] = None
            self.cache[key] = self.fn(it, i)
        if self.cache[key] is None:
            raise Unsupported('an entry defined by itself')
        for q, h in enumerate(self.hooks):
            if (q, epoch, i.sexpr()) not in self.done:
                self.done.add((q, epoch, i.sexpr()))
                h(i)
        return self.cache[key]


class SymList(Sym):
    """a list of unknown length"""
    def __init__(self, layer):
        self.layer = layer

    def isinst(self, it, t):
        return t == 'list'

    def truth(self, it):
        return it.branch(self.layer.n > 0)

    def length(self, it):
        return mkint(self.layer.n)

    def index(self, it, key, more=0):
        if isinstance(key, (slice, tuple)):
            raise Unsupported('part of the list')
        i = iz(key)
        if isinstance(key, int) and key < 0:
            i = z3.simplify(self.layer.n + key)
        if not R.valid(it, z3.And(i >= 0, i < self.layer.n + more)):
            if it.branch(z3.Not(z3.And(i >= 0, i < self.layer.n + more))):
                raise PyRaise(IndexError, ('list index out of range',))
        return i

    def getitem(self, it, key):
        return self.layer.entry(it, self.index(it, key))

    def delitem(self, it, key):
        old, i = self.layer, self.index(it, key)
        self.layer = Layer(old.n - 1, lambda it, q: old.entry(it, z3.simplify(q + 1) if it.branch(q >= i) else q),
                           [(z3.If(p > i, p - 1, p), z3.And(alive, p != i), e) for p, alive, e in old.where])

    def insert(self, it, args, kw):
        p, e = args
        old = self.layer
        i = self.index(it, p, 1)

        def fn(it, q):
            if it.branch(q == i):
                return e
            return old.entry(it, q if it.branch(q < i) else z3.simplify(q - 1))
        self.layer = Layer(old.n + 1, fn, [(z3.If(q >= i, q + 1, q), alive, x) for q, alive, x in old.where] + [(i, z3.BoolVal(True), e)])

    def append(self, it, args, kw):
        self.insert(it, [mkint(self.layer.n), args[0]], {})

    def pop(self, it, args, kw):
        key = args[0] if args else -1
        e = self.getitem(it, key)
        self.delitem(it, key)
        return e

    def getattr(self, it, name):
        if name in ('insert', 'append', 'pop'):
            return Extern('list.' + name, getattr(self, name))
        raise Unsupported('list method ' + name)


def lists_in(v, out, seen):
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, SymList):
        out.append(v)
    elif hasattr(v, 'f') and isinstance(v.f, dict):
        for x in v.f.values():
            lists_in(x, out, seen)


def bisect_left(it, args, kw):
    """bisect.bisect_left(a, x): for a sorted in ascending order the place before which everything is less than x and
    from which on nothing is"""
    return bisect(it, args, kw, False)


def bisect_right(it, args, kw):
    return bisect(it, args, kw, True)


def bisect(it, args, kw, right):
    if len(args) != 2 or set(kw) - {'key'}:
        raise Unsupported('bisect')
    a, x = args
    z = it.th.z
    x = tonum(it.concrete(x))
    if x is None:
        raise Unsupported('bisect')
    ls = []
    lists_in(a, ls, set())
    state = [(l, l.layer) for l in ls]

    def at(i):
        now = [(l, l.layer) for l, _ in state]
        for l, s in state:
            l.layer = s
        try:
            v = it.concrete(it.getitem(a, mkint(i)))
            v = tonum(it.concrete(it.call(kw['key'], [v], {})) if 'key' in kw else v)
        finally:
            for l, s in now:
                l.layer = s
        if v is None:
            raise Unsupported('bisect')
        return v.p
    n = iz(it.concrete(b_len(it, [a], {})))
    q = it.ghost['nbisect'] = it.ghost.get('nbisect', 0) + 1
    # the precondition
    pc = list(it.pc)
    i, j = z3.Int('i_%d' % q), z3.Int('j_%d' % q)
    it.assume(z3.And(i >= 0, i < j, j < n))
    if it.feasible([]):
        it.oblige('the list handed to bisect is sorted', z(at(i)) <= z(at(j)))
    it.pc[:] = pc
    it.ghost['epoch'] = it.ghost.get('epoch', 0) + 1
    p = z3.Int('place_%d' % q)
    it.assume(z3.And(p >= 0, p <= n))

    def fact(i):
        v = z(at(i))
        it.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Implies(i < p, v <= z(x.p) if right else v < z(x.p)), z3.Implies(i >= p, v > z(x.p) if right else v >= z(x.p)))))
    for l, s in state:
        s.hooks.append(fact)
    return mkint(p)


class Objective(Sym):
    """an inclusion function"""
    def __init__(self, it, n):
        self.it, self.n, self.seen = it, n, []
        self.phi = it.th.var('phi')

    def known(self, d):
        for k, v, m in self.seen:
            if k is d and v == d.version:
                return m
        for k, v, m in self.seen:
            if k.version == v and self.same(k, d):
                return m
        return None

    def same(self, k, d):
        it = self.it
        if not R.same_dim(it, k.shape[0], d.shape[0]):
            return False
        try:
            with R.Binder(it, 'r', Z, self.n) as r:
                e, f = it.concrete(k.el(it, [r])), it.concrete(d.el(it, [r]))
                return isinstance(e, GI) and isinstance(f, GI) and e.end(it, 'lo') == f.end(it, 'lo') and e.end(it, 'hi') == f.end(it, 'hi')
        except R.Split:
            return False

    def call(self, it, args, kw):
        d = self.argument(args[0])
        m = self.known(d)
        if m is None:
            m = self.add(d, it.th.fresh('flo', True), it.th.fresh('fhi', True))
        return m

    def argument(self, v):
        if not isinstance(v, Inst) or '_data' not in v.f:
            raise Unsupported('argument of the objective')
        d = data_of(v)
        if len(d.shape) != 1 or not R.same_dim(self.it, d.shape[0], self.n):
            raise Unsupported('argument of the objective')
        return d

    def add(self, d, lo, hi):
        z = self.it.th.z
        self.it.th.fixed.append(z(lo) <= z(hi))
        m = GI(None, lo, hi, key=('value', len(self.seen)))
        self.seen.append((d, d.version, m))
        return m

    def bounds(self, m):
        """phi lies in the value of a box that contains x*"""
        z = self.it.th.z
        return z3.And(z(m.end(self.it, 'lo')) <= z(self.phi), z(self.phi) <= z(m.end(self.it, 'hi')))


def within(it, e, x):
    z = it.th.z
    return z3.And(z(e.end(it, 'lo')) <= z(x), z(x) <= z(e.end(it, 'hi')))


def base_layer(it, st):
    """an arbitrary list that satisfies the invariant"""
    th, z = it.th, it.th.z
    n, f, x0 = it.ghost['n'], it.ghost['objective'], st.start
    q = it.ghost['nlists'] = it.ghost.get('nlists', 0) + 1
    N_, c = z3.Int('N%d' % q), z3.Int('c%d' % q)
    it.assume(z3.And(N_ >= 1, c >= 0, c < N_))
    value = lambda i: app(it, 'v%d' % q, [i])
    seen = []

    def sorted_at(i):
        for j in seen:
            th.fixed.append(z3.And(z3.Implies(z3.And(0 <= i, i <= j, j < N_), z(value(i)) <= z(value(j))), z3.Implies(z3.And(0 <= j, j <= i, i < N_), z(value(j)) <= z(value(i)))))
        seen.append(i)

    def entry(it, i):
        def el(it, idx):
            lo, hi = app(it, 'lo%d' % q, [i, idx[0]]), app(it, 'hi%d' % q, [i, idx[0]])
            key = ('entry', q, i.sexpr(), idx[0].sexpr())
            if key not in th.table:
                th.table[key] = lo
                e0 = it.concrete(x0.el(it, idx))
                th.fixed.append(z3.And(z(lo) <= z(hi), z(e0.end(it, 'lo')) <= z(lo), z(hi) <= z(e0.end(it, 'hi'))))
                th.fixed.append(z3.Implies(i == c, z3.And(z(lo) <= z(xs(it, idx[0])), z(xs(it, idx[0])) <= z(hi))))
            return GI(None, lo, hi, key=('in', q, i.sexpr(), idx[0].sexpr()))
        b = box(it, [n], el)
        d = data_of(b)
        m = f.add(d, value(i), app(it, 'w%d' % q, [i]))
        th.fixed.append(z3.Implies(i == c, f.bounds(m)))
        st.base.append((d, d.version))
        sorted_at(i)
        return (b, Num(value(i), 'float'))
    lay = Layer(N_, entry, [], True)
    sorted_at(c)
    th.fixed.append(z(value(c)) <= z(f.phi))
    st.c, st.value = c, value
    return lay


def of_list(v):
    if isinstance(v, SymList):
        return v.layer
    if isinstance(v, list):
        vs = list(v)

        def fn(it, i):
            for q, x in enumerate(vs):
                if q == len(vs) - 1 or it.branch(i == q):
                    return x
        return Layer(z3.IntVal(len(vs)), fn, [(z3.IntVal(q), z3.BoolVal(True), x) for q, x in enumerate(vs)])
    raise Unsupported('work list')


class Any:
    def __contains__(self, x):
        return True


class Partition(Invariant):
    may_share = Any()        # boxes of the list and the starting box are shown not to change
    def __init__(self):
        self.base = []

    def work(self, it, env):
        """the work list: the list among the variables of the loop"""
        ls = [k for k in sorted(env.v) if isinstance(env.v[k], (list, SymList))]
        if len(ls) != 1:
            raise Unsupported('work list')
        return ls[0]

    def well_formed(self, it, e):
        if not (isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], Inst) and '_data' in e[0].f):
            raise Unsupported('entry of the work list')
        v = tonum(it.concrete(e[1]))
        if v is None:
            raise Unsupported('entry of the work list')
        return data_of(e[0]), v.p

    def prove(self, it, env, k, stage):
        z = it.th.z
        n, f, x0 = it.ghost['n'], it.ghost['objective'], it.ghost['x0']
        if stage == 'entry':
            self.start, self.name = x0, self.work(it, env)
            L = of_list(env.v[self.name])
        else:
            L = of_list(env.v[self.name])
            if any(d.version != v for d, v in self.base):
                raise Unsupported('a box of the list is changed in place')
        it.oblige('the list is not empty (%s)' % stage, L.n >= 1)
        it.assume(L.n >= 1)
        mark = getattr(self, 'mark', None)
        new = [(p, alive, e) for p, alive, e in L.where if e is not mark]
        kept = [(p, alive) for p, alive, e in L.where if e is mark]
        for w in new:
            self.well_formed(it, w[2])
        fresh = [data_of(e[0]) for p, alive, e in new]
        if len({id(x) for x in fresh} | {id(x0)} | {id(x) for x, _ in self.base}) < len(fresh) + 1 + len(self.base) or any(x.base is not None for x in fresh):
            raise Unsupported('boxes of the list share their elements')
        it.oblige('starting box unchanged (%s)' % stage, x0.version == it.ghost['version'])
        # the parts of the invariant are shown one by one
        parts = [self.entries, self.sorted, self.cover, self.first]
        for s, part in enumerate(parts):
            if stage == 'entry' or s == len(parts) - 1 or it.choose('part %d' % s):
                part(it, env, stage, L, new, kept)
                if stage != 'entry':
                    break

    def entries(self, it, env, stage, L, new, kept):
        z, f, x0, n = it.th.z, it.ghost['objective'], it.ghost['x0'], it.ghost['n']
        i, q = z3.Int('i_' + stage), z3.Int('q_' + stage)
        it.assume(z3.And(i >= 0, i < L.n, q >= 0, q < n))
        d, v = self.well_formed(it, L.entry(it, i))
        m = f.known(d)
        it.oblige('the bound kept with a box is the lower end of its value (%s)' % stage, m is not None and z(m.end(it, 'lo')) == z(v))
        e, e0 = it.concrete(d.el(it, [q])), it.concrete(x0.el(it, [q]))
        ok = isinstance(e, GI)
        it.oblige('components of a box are intervals (%s)' % stage, ok)
        if not ok:
            return
        it.oblige('boxes lie in the starting box (%s)' % stage, z3.And(
            z(e.end(it, 'lo')) <= z(e.end(it, 'hi')), z(e0.end(it, 'lo')) <= z(e.end(it, 'lo')), z(e.end(it, 'hi')) <= z(e0.end(it, 'hi'))))

    def sorted(self, it, env, stage, L, new, kept):
        z = it.th.z
        i, j = z3.Int('i_' + stage), z3.Int('j_' + stage)
        it.assume(z3.And(i >= 0, i <= j, j < L.n))
        d, v = self.well_formed(it, L.entry(it, i))
        d2, v2 = self.well_formed(it, L.entry(it, j))
        it.oblige('sorted by the bound (%s)' % stage, z(v) <= z(v2))

    def cover(self, it, env, stage, L, new, kept):
        """x* is in some box"""
        x0, n = it.ghost['x0'], it.ghost['n']
        q = z3.Int('q_' + stage)
        it.assume(z3.And(q >= 0, q < n))
        if stage != 'entry' and len(kept) != 1:
            raise Unsupported('another work list')
        if stage == 'entry' or not it.branch(kept[0][1]):
            alts = []
            for s, (p, alive, ent) in enumerate(new):
                t = z3.Int('t%d_%s' % (s, stage))
                it.assume(z3.And(t >= 0, t < n))
                it.assume(within(it, it.concrete(x0.el(it, [t])), xs(it, t)))
                if stage != 'entry':
                    # the entry taken out is the one that contained the point
                    self.base_entry(it, self.c, t)
                alts.append(z3.And(alive, within(it, it.concrete(data_of(ent[0]).el(it, [t])), xs(it, t))))
            it.oblige('some new box contains the point (%s)' % stage, z3.Or(alts))
        else:
            # the box that contained the point is still there, shifted by what was taken out and put in before it
            c = z3.simplify(kept[0][0])
            it.oblige('the box of the point stays in the list (%s)' % stage, z3.And(c >= 0, c < L.n))
            d, _ = self.well_formed(it, L.entry(it, c))
            self.base_entry(it, self.c, q)
            it.oblige('the box that contains the point is kept (%s)' % stage, within(it, it.concrete(d.el(it, [q])), xs(it, q)))

    def first(self, it, env, stage, L, new, kept):
        Y = env.v.get(self.current) if stage != 'entry' else None
        if stage == 'entry':
            first = L.entry(it, Z)[0]
            cs = [k for k in sorted(env.v) if env.v[k] is first]
            if len(cs) != 1:
                raise Unsupported('the current box')
            self.current = cs[0]
        else:
            first, _ = self.well_formed(it, L.entry(it, Z))
            it.oblige('the current box is the first of the list (%s)' % stage, isinstance(Y, Inst) and data_of(Y) is first)

    def base_entry(self, it, i, q):
        data_of(self.layer.entry(it, i)[0]).el(it, [q])

    def havoc(self, it, env, k):
        lay = base_layer(it, self)
        # the position of the box of x* is followed through the changes of the list
        self.mark = ('the box of the point',)
        lay.where.append((self.c, z3.BoolVal(True), self.mark))
        self.layer = lay
        env.v[self.name] = SymList(lay)
        env.v[self.current] = lay.entry(it, Z)[0]
        q = z3.Int('nit')
        it.assume(q >= 0)
        env.v['nit'] = mkint(q)
        it.ghost['steps'] = q

    def exit(self, it, env):
        it.ghost['left'] = self


def globopt_world(root):
    w = np_world(root)
    w.externs['bisect.bisect_left'] = bisect_left
    w.externs['bisect.bisect_right'] = w.externs['bisect.bisect'] = bisect_right
    w.loops[(GO, 'globopt', 0)] = while_loop(Partition)
    return w


def case_globopt():
    def body(it):
        th, z = it.th, it.th.z
        n, maxiter = z3.Int('n'), z3.Int('maxiter')
        it.assume(n >= 1)
        it.ghost['n'] = n

        def el(it, idx):
            lo, hi = app(it, 'x0.lo', idx), app(it, 'x0.hi', idx)
            key = ('x0',) + tuple(i.sexpr() for i in idx)
            if key not in th.table:
                th.table[key] = lo
                x = z(xs(it, idx[0]))
                th.fixed.append(z3.And(z(lo) <= x, x <= z(hi)))
            return GI(None, lo, hi, key=key)
        x0 = box(it, [n], el)
        it.ghost['x0'], it.ghost['version'] = data_of(x0), data_of(x0).version
        f = it.ghost['objective'] = Objective(it, n)
        tol = th.var('tol')
        r = it.call(fn_of(it, GO, 'globopt'), [f, x0], {'tol': Num(tol, 'float'), 'maxiter': mkint(maxiter)})
        ok = isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Inst) and '_data' in r[0].f and isinstance(it.concrete(r[1]), GI)
        it.oblige('a box and an interval', ok)
        if not ok:
            return
        d, m = data_of(r[0]), it.concrete(r[1])
        it.oblige('one component per variable', len(d.shape) == 1 and R.same_dim(it, d.shape[0], n))
        q = z3.Int('q')
        it.assume(z3.And(q >= 0, q < n))
        e, e0 = it.concrete(d.el(it, [q])), it.concrete(data_of(x0).el(it, [q]))
        it.oblige('the box lies in the starting box', z3.And(z(e0.end(it, 'lo')) <= z(e.end(it, 'lo')), z(e.end(it, 'lo')) <= z(e.end(it, 'hi')), z(e.end(it, 'hi')) <= z(e0.end(it, 'hi'))))
        it.oblige('the value is the one of the box', f.known(d) is m)
        it.oblige('the lower end does not exceed the value at any point of the starting box', z(m.end(it, 'lo')) <= z(f.phi))
        it.oblige('narrower than the tolerance unless the iterations are used up', z3.Or(z(it.getattr(m, 'wid').p) < z(tol), it.ghost['steps'] > maxiter))
        it.oblige('starting box unchanged', data_of(x0).version == it.ghost['version'])
    return 'globopt', body


def cases23():
    return [case_globopt()]
