"""Terms over the reals, the theory of directed rounding, and the discharge of obligations.

A term is a polynomial with rational coefficients over atoms.  Atoms are inputs, rounded values,
reciprocals, minima/maxima, absolute values and opaque function values.  Every query is made of
ground instances only; products of atoms are first opaque constants constrained by sign and
monotonicity lemmas (linear back end), and genuine products if that does not settle the query
(nonlinear back end).

Rounding: for a term t and a mode m, m(t) is an atom with, for every representable term r occurring
in the query, r <= t -> r <= m(t) and t <= r -> m(t) <= r, and D(t) <= t <= U(t).  Inputs, rounded
values, small constants, and the negatives of all these are representable.  The exponent range is
unbounded (finite results); a directed rounding that overflows stays on its own side.
"""
import time, subprocess, os
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 1)


class Poly:
    __slots__ = ('c', '_key')

    def __init__(self, c):
        self.c = {m: v for m, v in c.items() if v != 0}
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.c.items()))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def const(self):
        """the value if the polynomial is a constant, else None"""
        if not self.c:
            return Fraction(0)
        if len(self.c) == 1 and () in self.c:
            return self.c[()]
        return None

    def __add__(self, o):
        c = dict(self.c)
        for m, v in o.c.items():
            c[m] = c.get(m, 0) + v
        return Poly(c)

    def __neg__(self):
        return Poly({m: -v for m, v in self.c.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        c = {}
        for m, v in self.c.items():
            for n, w in o.c.items():
                k = tuple(sorted(m + n))
                c[k] = c.get(k, 0) + v * w
        return Poly(c)

    def scale(self, q):
        return Poly({m: v * q for m, v in self.c.items()})

    def __repr__(self):
        if not self.c:
            return '0'
        return ' + '.join(('%s*' % v if v != 1 or not m else '') + '*'.join(m) if m else str(v)
                          for m, v in sorted(self.c.items()))


def K(x):
    return Poly({(): Fraction(x)})


ZERO = K(0)


def q2z(q):
    q = Fraction(q)
    return z3.RealVal('%d/%d' % (q.numerator, q.denominator))


def pow2(v):
    v = abs(Fraction(v))
    if v == 0:
        return False
    n, d = v.numerator, v.denominator
    return n & (n - 1) == 0 and d & (d - 1) == 0


def is_double(q):
    q = Fraction(q)
    try:
        return Fraction(float(q)) == q
    except OverflowError:
        return False


class Theory:
    """atoms and ground axioms of one path"""

    def __init__(self):
        self.atoms = {}          # name -> z3 const
        self.table = {}          # key -> Poly
        self.factors = {}        # product -> its factors (exact arithmetic)
        self.rounds = []         # (mode, Poly, result Poly)
        self.reps = []           # representable terms
        self.repset = set()
        self.monos = {}          # mono tuple -> z3 const
        self.fixed = []          # axioms added once
        self.incs = []           # (kind, arg, value): monotone opaque functions
        self.invs = []
        self.inputs = {}
        self.n = 0
        self.relerr = False
        self.relonly = False     # only sidedness and relative error, no interplay of roundings
        self.uf = {}
        self.steps = []

    # ---- atoms
    def atom(self, name, rep=False):
        if name not in self.atoms:
            self.atoms[name] = z3.Real(name)
            p = Poly({(name,): Fraction(1)})
            if rep:
                self.add_rep(p)
        return Poly({(name,): Fraction(1)})

    def var(self, name, rep=True):
        p = self.atom(name, rep)
        self.inputs[name] = p
        return p

    def fresh(self, hint, rep=False):
        self.n += 1
        return self.atom('%s!%d' % (hint, self.n), rep)

    def add_rep(self, p):
        if p not in self.repset:
            self.repset.add(p)
            self.repset.add(-p)
            self.reps.append(p)

    def is_rep(self, p):
        k = p.const()
        if k is not None:
            return is_double(k)
        if p in self.repset:
            return True
        if len(p.c) == 1:
            (m, v), = p.c.items()
            if pow2(v) and abs(v) != 1:          # scaling by a power of two is exact
                return Poly({m: Fraction(1)}) in self.repset
        return False

    # ---- operations
    def round(self, mode, p):
        """p rounded in mode: 'D' down, 'U' up, 'N' nearest, other strings: some unknown mode"""
        if self.is_rep(p):
            return p
        key = ('round', mode, p)
        if key not in self.table:
            r = self.fresh('r' + mode, True)
            self.table[key] = r
            self.rounds.append((mode, p, r))
        return self.table[key]

    def inv(self, q):
        k = q.const()
        if k is not None:
            return K(1 / k)
        # scale so that q and -q and 2q share an atom
        lead = q.key[0][1]
        base = q.scale(1 / lead)
        key = ('inv', base)
        if key not in self.table:
            r = self.fresh('inv')
            self.table[key] = r
            self.invs.append((base, r))
        return self.table[key].scale(1 / lead)

    def quot(self, p, q):
        return p * self.inv(q)

    def minmax(self, kind, ps):
        uniq = []
        for p in ps:
            if p not in uniq:
                uniq.append(p)
        if len(uniq) == 1:
            return uniq[0]
        ks = [p.const() for p in uniq]
        if all(k is not None for k in ks):
            return K(min(ks) if kind == 'min' else max(ks))
        key = (kind, tuple(sorted(p.key for p in uniq)))
        if key not in self.table:
            r = self.fresh(kind)
            if all(self.is_rep(p) for p in uniq):
                self.add_rep(r)
            zr = self.z(r)
            zs = [self.z(p) for p in uniq]
            self.fixed.append(z3.Or([zr == x for x in zs]))
            self.fixed.extend((zr <= x) if kind == 'min' else (zr >= x) for x in zs)
            self.table[key] = r
        return self.table[key]

    def step(self, kind, p):
        """neighbouring double: 'pred' or 'succ' of a representable term"""
        key = (kind, p)
        if key not in self.table:
            r = self.fresh(kind, True)
            self.table[key] = r
            self.steps.append((kind, p, r))
        return self.table[key]

    def abs(self, p):
        k = p.const()
        if k is not None:
            return K(abs(k))
        key = ('abs', min(p.key, (-p).key))
        if key not in self.table:
            r = self.fresh('abs')
            if self.is_rep(p):
                self.add_rep(r)
            zr, zp = self.z(r), self.z(p)
            self.fixed.append(z3.Or(z3.And(zp >= 0, zr == zp), z3.And(zp < 0, zr == -zp)))
            self.table[key] = r
        return self.table[key]

    def fun(self, name, p, increasing=False):
        """opaque real function value"""
        key = ('fun', name, p)
        if key not in self.table:
            r = self.fresh(name)
            self.table[key] = r
            self.incs.append((name, p, r, increasing))
        return self.table[key]

    # ---- translation
    def z(self, p):
        s = None
        for m, v in p.c.items():
            if not m:
                t = q2z(v)
            else:
                a = self.mono(m)
                t = a if v == 1 else (-a if v == -1 else q2z(v) * a)
            s = t if s is None else s + t
        return s if s is not None else z3.RealVal(0)

    def mono(self, m):
        if len(m) == 1:
            if m[0] not in self.atoms:
                self.atoms[m[0]] = z3.Real(m[0])
            return self.atoms[m[0]]
        if m not in self.monos:
            self.monos[m] = z3.Real('*'.join(m))
            if len(m) > 2:
                self.mono(m[:-1])
        return self.monos[m]

    # ---- axioms
    def axioms(self, linear=True):
        ax = self.fixed + self.__dict__.get('heavy', [])
        z = self.z
        for base, r in self.invs:
            zb, zr = z(base), z(r)
            ax.append(z3.Implies(zb != 0, z(base * r) == 1))
            ax.append(z3.Implies(zb > 0, zr > 0))
            ax.append(z3.Implies(zb < 0, zr < 0))
        for i, (b1, r1) in enumerate(self.invs):
            for b2, r2 in self.invs[i + 1:]:
                for (x, rx), (y, ry) in (((b1, r1), (b2, r2)), ((b2, r2), (b1, r1))):
                    ax.append(z3.Implies(z3.And(z3.Or(z(x) > 0, z(y) < 0), z(x) <= z(y)), z(ry) <= z(rx)))
        for i, (f, p, r, inc) in enumerate(self.incs):
            for g, q, s, _ in self.incs[i + 1:]:
                if f != g:
                    continue
                if inc:
                    ax.append(z3.Implies(z(p) <= z(q), z(r) <= z(s)))
                    ax.append(z3.Implies(z(q) <= z(p), z(s) <= z(r)))
                else:
                    ax.append(z3.Implies(z(p) == z(q), z(r) == z(s)))
        ax.extend(self.round_axioms())
        if linear:
            ax.extend(self.product_lemmas())
        else:
            for m, c in list(self.monos.items()):
                t = None
                for a in m:
                    t = self.mono((a,)) if t is None else t * self.mono((a,))
                ax.append(c == t)
        return ax

    def round_axioms(self):
        z = self.z
        ax = []
        reps = [z(p) for p in self.reps]
        for mode, p, r in self.rounds:
            zp, zr = z(p), z(r)
            if mode == 'D':
                ax.append(zr <= zp)
            elif mode == 'U':
                ax.append(zp <= zr)
            for q, zq in zip(self.reps, reps) if not self.relonly else ():
                for sgn in (1, -1):
                    rep = zq if sgn == 1 else -zq
                    if q == r and sgn == 1:
                        continue
                    if mode != 'D' or True:
                        ax.append(z3.Implies(zp <= rep, zr <= rep))
                    ax.append(z3.Implies(rep <= zp, rep <= zr))
            for v in (0, 1, -1) if not self.relonly else (0,):
                ax.append(z3.Implies(zp <= v, zr <= v))
                ax.append(z3.Implies(zp >= v, zr >= v))
            if self.relerr:
                u = q2z(Fraction(1, 2 ** 52))
                ax.append(z3.Implies(zp >= 0, z3.And(zr - zp <= u * zp, zp - zr <= u * zp)))
                ax.append(z3.Implies(zp <= 0, z3.And(zr - zp <= -u * zp, zp - zr <= -u * zp)))
        if self.relonly:
            return ax
        for kind, p, r in self.steps:
            zp, zr = z(p), z(r)
            ax.append(zr < zp if kind == 'pred' else zr > zp)
            for zq in reps + [-x for x in reps] + [z3.RealVal(0), z3.RealVal(1), z3.RealVal(-1)]:
                if kind == 'pred':
                    ax.append(z3.Implies(zq < zp, zq <= zr))
                else:
                    ax.append(z3.Implies(zq > zp, zq >= zr))
        for i, (m1, p1, r1) in enumerate(self.rounds):
            for m2, p2, r2 in self.rounds[i + 1:]:
                if m1 == m2:
                    ax.append(z3.Implies(z(p1) <= z(p2), z(r1) <= z(r2)))
                    ax.append(z3.Implies(z(p2) <= z(p1), z(r2) <= z(r1)))
        return ax

    def product_lemmas(self):
        # make sure that all products are registered before the pairs are formed
        ax = []
        monos = list(self.monos)
        fac = {}
        for m in monos:
            if len(m) == 2:
                splits = [((m[0],), (m[1],))]
            else:
                splits = [(m[:-1], (m[-1],))]
            for x, y in splits:
                zx, zy, zm = self.mono(x), self.mono(y), self.mono(m)
                if x == y:
                    ax.append(zm >= 0)
                    ax.append((zm == 0) == (zx == 0))
                else:
                    ax.append(z3.Implies(z3.And(zx > 0, zy > 0), zm > 0))
                    ax.append(z3.Implies(z3.And(zx < 0, zy < 0), zm > 0))
                    ax.append(z3.Implies(z3.And(zx > 0, zy < 0), zm < 0))
                    ax.append(z3.Implies(z3.And(zx < 0, zy > 0), zm < 0))
                    ax.append(z3.Implies(z3.Or(zx == 0, zy == 0), zm == 0))
                fac.setdefault(x, []).append((y, m))
                if x != y:
                    fac.setdefault(y, []).append((x, m))
        # monotonicity: f*u against f*v, and against f itself times constants via signs of atoms
        for f, us in fac.items():
            zf = self.mono(f)
            for i, (u, mu) in enumerate(us):
                for v, mv in us[i + 1:]:
                    zu, zv, zmu, zmv = self.mono(u), self.mono(v), self.mono(mu), self.mono(mv)
                    for a, b, ma, mb in ((zu, zv, zmu, zmv), (zv, zu, zmv, zmu)):
                        ax.append(z3.Implies(z3.And(zf >= 0, a <= b), ma <= mb))
                        ax.append(z3.Implies(z3.And(zf <= 0, a <= b), ma >= mb))
                        ax.append(z3.Implies(z3.And(zf >= 0, a <= -b), ma <= -mb))
                        ax.append(z3.Implies(z3.And(zf <= 0, a <= -b), ma >= -mb))
        return ax


class Stats:
    def __init__(self):
        self.obligations = []     # dicts
        self.feas = 0
        self.time = 0.0
        self.backends = {}


STATS = Stats()
TIMEOUTS = {'linear': 20000, 'nonlinear': 10000, 'feas': 1500}


def _solve(formulas, timeout):
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in formulas:
        s.add(f)
    t = time.time()
    r = s.check()
    STATS.time += time.time() - t
    return r, s


def feasible(th, hyps):
    STATS.feas += 1
    if 'heavy' in th.__dict__:
        # facts left out make more paths feasible, never fewer
        r, _ = _solve(list(hyps) + th.fixed, TIMEOUTS['feas'])
        return r != z3.unsat
    r, _ = _solve(list(hyps) + th.axioms(True), TIMEOUTS['feas'])
    return r != z3.unsat


def discharge(th, hyps, goal, nonlinear=True):
    """-> (status, backend, model or None); status in proved / refuted / unknown"""
    neg = z3.Not(goal)
    hyps = list(hyps)
    r, s = _solve(hyps + [neg] + th.axioms(True), TIMEOUTS['linear'])
    if r == z3.unsat:
        return 'proved', 'z3-linear', None
    lin_sat = r == z3.sat
    if lin_sat and not th.monos:
        return 'refuted', 'z3-linear', model_of(th, s.model())
    if nonlinear:
        f = hyps + [neg] + th.axioms(False) + th.product_lemmas()
        r2, s2 = _solve(f, TIMEOUTS['nonlinear'])
        if r2 == z3.unsat:
            return 'proved', 'z3-nonlinear', None
        if r2 == z3.sat:
            return 'refuted', 'z3-nonlinear', model_of(th, s2.model())
        r3 = cvc5_check(s2)
        if r3 == 'unsat':
            return 'proved', 'cvc5', None
    return 'unknown', 'none', None


def cvc5_check(solver, timeout_ms=10000):
    try:
        text = '(set-logic ALL)\n' + solver.to_smt2()
        t = time.time()
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--lang=smt2'], input=text, text=True,
                           capture_output=True, timeout=timeout_ms / 1000 + 5)
        STATS.time += time.time() - t
        return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        return 'unknown'


def model_of(th, m):
    out = {}
    for name in th.inputs:
        v = m.eval(th.atoms[name], model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        try:
            out[name] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        except Exception:
            pass
    return out
