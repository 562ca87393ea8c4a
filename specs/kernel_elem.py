"""Contracts of powers, exp/log/sqrt, sin/cos (P06, P07, P08) and of the helpers they call."""
from fractions import Fraction
import ast
import z3
from pyvc.terms import K, ZERO, Poly, q2z
from pyvc.interp import (Num, Inst, PyRaise, PathEnd, Unsupported, tonum, Extern, Bound, LoopSpec, Brk, Cont,
                         INLINE, SBool)
from pyvc.ints import IntV, SymRange, sym_range, toint
from pyvc.kernel import kernel_world, mk, ends, PYX, kmod, INF, true_fun
from .kernel_arith import outcome, check_mode, result_ends, Op

PI_LO = Fraction(314159265358979323846264338327950288, 10 ** 35)
PI_HI = Fraction(314159265358979323846264338327950289, 10 ** 35)


# ------------------------------------------------------------------ power(x, n)
def pw(th, x, n):
    """exact x**n for a symbolic n, with the ground facts used (Lean: pow_facts)"""
    key = ('pow', str(n), x)
    if key not in th.table:
        r = th.fresh('pow')
        th.table[key] = r
        zx, zr = th.z(x), th.z(r)
        even = n % 2 == 0
        th.fixed.append(z3.Implies(n == 0, zr == 1))
        th.fixed.append(z3.Implies(even, zr >= 0))
        th.fixed.append(z3.Implies(z3.And(z3.Not(even), zx >= 0), zr >= 0))
        th.fixed.append(z3.Implies(z3.And(z3.Not(even), zx <= 0), zr <= 0))
        th.fixed.append(z3.Implies(z3.And(n > 0, zx == 0), zr == 0))
        for k2, r2 in list(th.table.items()):
            if k2[0] == 'pow' and k2[1] == str(n) and k2 != key:
                zy, zs = th.z(k2[2]), th.z(r2)
                for (u, fu, v, fv) in ((zx, zr, zy, zs), (zy, zs, zx, zr)):
                    th.fixed.append(z3.Implies(z3.And(z3.Not(even), u <= v), fu <= fv))
                    th.fixed.append(z3.Implies(z3.And(even, u >= 0, u <= v), fu <= fv))
                    th.fixed.append(z3.Implies(z3.And(even, u >= 0, u <= -v), fu <= fv))
                    th.fixed.append(z3.Implies(z3.And(even, u <= 0, -u <= v), fu <= fv))
                    th.fixed.append(z3.Implies(z3.And(even, u <= 0, -u <= -v), fu <= fv))
    return th.table[key]


def power_contract(it, fn, args, kw):
    if kw or len(args) != 2:
        return INLINE
    x, n = it.concrete(args[0]), it.concrete(args[1])
    nx = tonum(x)
    e = toint(n)
    if nx is None or e is None or it.rm not in ('D', 'U'):
        return INLINE
    th = it.th
    p = pw(th, nx.p, e)
    key = ('powr', it.rm, nx.p, str(e))
    if key not in th.table:
        r = th.fresh('power' + it.rm, True)
        th.table[key] = r
        th.fixed.append(th.z(r) <= th.z(p) if it.rm == 'D' else th.z(r) >= th.z(p))
        # the sign of the factors is kept by rounding
        th.fixed.append(z3.Implies(th.z(p) >= 0, th.z(r) >= 0))
    return Num(th.table[key], 'num')


def power_loop(it, st, env):
    """loop contract of power: result is on the outer side of start * |x|**k"""
    seq = it.eval(st.iter, env)
    if isinstance(seq, range):
        seq = SymRange(z3.IntVal(seq.start), z3.IntVal(seq.stop), seq.step)
    if not isinstance(seq, SymRange) or seq.step != 1:
        raise Unsupported('loop of power is not over a range')
    th = it.th
    z = th.z
    changed = {t.id for s in ast.walk(st) if isinstance(s, (ast.Assign, ast.AugAssign))
               for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)}
    if len(changed) != 1:
        raise Unsupported('power loop changes %s' % changed)
    var = changed.pop()
    start = tonum(env.v[var])
    x = it.ghost['power_x']
    ax = th.abs(x)
    down = it.rm == 'D'
    side = (lambda r, g: z(r) <= z(g)) if down else (lambda r, g: z(r) >= z(g))
    count = seq.hi - seq.lo
    it.oblige('power: loop count is not negative', count >= 0)
    # establish at k = 0: |x|**0 = 1
    it.oblige('power: invariant holds on entry', side(start.p, start.p))
    # arbitrary iteration
    which = it.choose('power-loop')
    g = th.fresh('pw_k')
    th.fixed.append(z(g) >= 0)
    r = th.fresh('result', True)
    env.v[var] = Num(r, 'num')
    it.assume(side(r, start.p * g))
    it.assume(z3.Implies(z3.And(z(start.p) >= 0), z(r) >= 0))
    if which:
        it.exec_block(st.body, env)
        r2 = tonum(env.v[var])
        it.oblige('power: invariant is preserved', side(r2.p, start.p * (g * ax)))
        it.oblige('power: sign is preserved', z3.Implies(z(start.p) >= 0, z(r2.p) >= 0))
        raise PathEnd()
    it.ghost['power_exit'] = (start.p, g, count)


def case_power(mode):
    name = 'power(x, n) rounding %s' % {'D': 'down', 'U': 'up'}[mode]

    def body(it):
        th = it.th
        z = th.z
        fn = it.module_get(kmod(it.w), 'power')
        x = th.var('x')
        n = z3.Int('n')
        it.assume(n >= 0)
        it.rm = mode
        it.ghost['power_x'] = x
        st, r = outcome(it, lambda: it.call(fn, [Num(x, 'num'), IntV(n)], {}))
        it.oblige(name + ': returns', st == 'ok')
        if st != 'ok':
            return
        if 'power_exit' not in it.ghost:
            raise Unsupported('power has no loop')
        start, g, count = it.ghost['power_exit']
        # |x|**(n - n mod 2) = x**(n - n mod 2)
        it.oblige(name + ': number of factors', z3.And(
            z3.Implies(n % 2 == 1, z3.And(count == n - 1, z(start) == z(x))),
            z3.Implies(n % 2 == 0, z3.And(count == n, z(start) == 1))))
        r = tonum(r)
        e = start * g
        it.oblige(name + ': on the outer side of the exact power', z(r.p) <= z(e) if mode == 'D' else z(r.p) >= z(e))
        it.oblige(name + ': sign', z3.Implies(z(start) >= 0, z(r.p) >= 0))
    return name, body


def power_world(root='/repo'):
    w = kernel_world(root)
    w.externs['::range'] = sym_range
    w.loops[(PYX, 'power', 0)] = LoopSpec(power_loop)
    return w


def elem_world(root='/repo'):
    w = kernel_world(root)
    w.externs['::range'] = sym_range
    w.contracts[(PYX, 'power')] = power_contract
    w.contracts[(PYX, 'has_extremum')] = has_extremum_contract
    w.contracts[(PYX, 'log_down')] = log_contract('D')
    w.contracts[(PYX, 'log_up')] = log_contract('U')
    return w


def case_pow():
    name = 'C ** n, n a nonnegative integer'

    def body(it):
        th = it.th
        z = th.z
        x = Op(it, 'C', 'x')
        n = z3.Int('n')
        it.assume(n >= 0)
        st, r = outcome(it, lambda: it.binop('**', x.v, IntV(n)))
        it.oblige(name + ': returns', st == 'ok')
        check_mode(it, name)
        if st != 'ok':
            return
        lo, hi = result_ends(it, name, r)
        t = th.var('t', rep=False)
        it.assume(z3.And(z(x.lo) <= z(t), z(t) <= z(x.hi)))
        for p in (x.lo, x.hi):
            pw(th, p, n)
        v = pw(th, t, n)
        it.oblige(name + ': contains t**n', z3.And(z(lo) <= z(v), z(v) <= z(hi)))
        it.oblige(name + ': even power of an interval containing zero starts at zero',
                  z3.Implies(z3.And(n % 2 == 0, z(x.lo) <= 0, z(x.hi) >= 0), z(lo) == 0))
        it.oblige(name + ': proper', z(lo) <= z(hi))
        it.oblige(name + ': class', r.cls.name == 'ClassicalArithmetic')
    return name, body


def case_pow_real():
    name = 'C ** r, r not an integer'

    def body(it):
        th = it.th
        z = th.z
        x = Op(it, 'C', 'x')
        y = th.var('y')
        it.assume(z(y) != 0)
        st, r = outcome(it, lambda: it.binop('**', x.v, Num(y, 'float')))
        check_mode(it, name)
        if st == 'raise':
            it.oblige(name + ': ValueError', r is ValueError)
            it.oblige(name + ': only for intervals with negative numbers', z(x.lo) < 0)
            return
        it.oblige(name + ': refused for intervals with negative numbers', z(x.lo) >= 0)
        t = th.var('t', rep=False)
        it.assume(z3.And(z(x.lo) <= z(t), z(t) <= z(x.hi), z(t) > 0))
        if not it.feasible([]):
            raise PathEnd()
        lo, hi = ends(it, r)
        lg = true_fun(it, 'log', t)
        v = true_fun(it, 'exp', y * lg)
        enclosed(it, name + ': contains t**r = exp(r log t)', lo, v, hi)
    return name, body


def enclosed(it, name, lo, v, hi):
    z = it.th.z
    fs = []
    for e, ok, side in ((lo, -INF, 'lo'), (hi, INF, 'hi')):
        e = it.concrete(e)
        if isinstance(e, float) and e in (INF, -INF):
            fs.append(z3.BoolVal(e == ok))
        elif isinstance(e, float) and e != e:
            fs.append(z3.BoolVal(False))
        else:
            p = tonum(e).p
            fs.append(z(p) <= z(v) if side == 'lo' else z(v) <= z(p))
    it.oblige(name, z3.And(fs))


# ------------------------------------------------------------------ exp, log, sqrt
def log_contract(mode):
    def c(it, fn, args, kw):
        x = it.concrete(args[0])
        if kw or len(args) != 1 or it.rm != mode or tonum(x) is None:
            return INLINE
        th = it.th
        n = tonum(x)
        if not it.branch(th.z(n.p) > 0):
            raise Unsupported('log of a nonpositive number')
        v = true_fun(it, 'log', n.p)
        key = ('logr', mode, n.p)
        if key not in th.table:
            r = th.fresh('log' + mode, True)
            th.table[key] = r
            th.fixed.append(th.z(r) <= th.z(v) if mode == 'D' else th.z(r) >= th.z(v))
        return Num(th.table[key], 'c')
    return c


def case_log_helper(fname, mode):
    name = '%s in its rounding mode' % fname

    def body(it):
        th = it.th
        z = th.z
        fn = it.module_get(kmod(it.w), fname)
        x = th.var('x')
        it.assume(z(x) > 0)
        it.rm = mode
        st, r = outcome(it, lambda: it.call(fn, [Num(x, 'c')], {}))
        it.oblige(name + ': returns', st == 'ok')
        if st != 'ok':
            return
        v = true_fun(it, 'log', x)
        r = tonum(r)
        it.oblige(name + ': on the outer side of log x', z(r.p) <= z(v) if mode == 'D' else z(r.p) >= z(v))
        w = q2z(Fraction(1, 2 ** 60))
        # before the final rounding the bound is within 2**-60 of log x
        key = [p for m, p, q in th.rounds if q == r.p]
        if key:
            it.oblige(name + ': within 2**-60 relative before the final rounding', z3.And(
                z3.Implies(z(v) >= 0, z3.And(z(key[0]) - z(v) <= w * z(v), z(v) - z(key[0]) <= w * z(v))),
                z3.Implies(z(v) <= 0, z3.And(z(key[0]) - z(v) <= -w * z(v), z(v) - z(key[0]) <= -w * z(v)))), 'strong')
    return name, body


def case_fun(fname, how='method'):
    """exp, log: enclosure for every member in the domain"""
    name = '%s(C)' % fname

    def body(it):
        th = it.th
        z = th.z
        x = Op(it, 'C', 'x')
        f = (lambda: it.call(it.getattr(x.v, fname), [], {})) if how == 'method' else \
            (lambda: it.call(it.extern('numpy.' + fname), [x.v], {}))
        st, r = outcome(it, f)
        it.oblige(name + ': returns', st == 'ok')
        check_mode(it, name)
        if st != 'ok':
            return
        lo, hi = ends(it, r)
        empty = z3.BoolVal(False)
        if fname in ('log', 'sqrt'):
            empty = z(x.hi) < 0
        nan = any(isinstance(it.concrete(e), float) and e != e for e in (lo, hi))
        if nan:
            it.oblige(name + ': NaN only outside the domain', empty)
            return
        it.oblige(name + ': NaN outside the domain', z3.Not(empty))
        t = th.var('t', rep=False)
        it.assume(z3.And(z(x.lo) <= z(t), z(t) <= z(x.hi)))
        if fname in ('log', 'sqrt'):
            it.assume(z(t) > 0)
        if not it.feasible([]):
            raise PathEnd()
        if fname == 'sqrt':
            v = true_fun(it, 'exp', true_fun(it, 'log', t).scale(Fraction(1, 2)))
        else:
            v = true_fun(it, fname, t)
        enclosed(it, name + ': contains the value at every member', lo, v, hi)
    return name, body


# ------------------------------------------------------------------ sin, cos
def has_extremum_contract(it, fn, args, kw):
    """no answer 'False' when the interval [a, b] contains shift + 2 pi k (slack > 0)"""
    if kw or len(args) != 4:
        return INLINE
    a, b, shift, slack = [it.concrete(v) for v in args]
    nb = [tonum(v) for v in (a, b)]
    if any(n is None for n in nb) or not isinstance(shift, float) or not isinstance(slack, float):
        return INLINE
    import math
    if slack != 1e-15 or shift not in (0.0, math.pi, math.pi / 2, -math.pi / 2):
        return INLINE
    r = it.choose('has_extremum:%r' % ((nb[0].p, nb[1].p, shift),))
    it.ghost.setdefault('ext', {})[(nb[0].p, nb[1].p, shift)] = r
    return r


def case_has_extremum(shift_name, mode):
    import math
    dshift = {'-pi/2': -math.pi / 2, 'pi/2': math.pi / 2, 'pi': math.pi, '0': 0.0}[shift_name]
    tmul = {'-pi/2': Fraction(-1, 4), 'pi/2': Fraction(1, 4), 'pi': Fraction(1, 2), '0': Fraction(0)}[shift_name]
    name = 'has_extremum(a, b, %s, 1e-15) rounding %s' % (shift_name, mode)

    def body(it):
        th = it.th
        th.relerr = True
        z = th.z
        fn = it.module_get(kmod(it.w), 'has_extremum')
        a, b = th.var('a'), th.var('b')
        it.assume(z(a) <= z(b))
        it.rm = mode
        st, r = outcome(it, lambda: it.call(fn, [Num(a, 'c'), Num(b, 'c'), dshift, 1e-15], {}))
        it.oblige(name + ': returns', st == 'ok')
        if st != 'ok':
            return
        if it.truth(r):
            it.oblige(name + ': nothing is claimed for the answer yes', True)
            return
        # L = (a - s)/(2 pi) = a * q - tmul, q = 1/(2 pi) between two rationals
        L, H = th.var('L', rep=False), th.var('H', rep=False)
        q1, q2 = q2z(1 / (2 * PI_HI)), q2z(1 / (2 * PI_LO))
        for x, X in ((a, L), (b, H)):
            t = z(X) + q2z(tmul)
            it.assume(z3.Implies(z(x) >= 0, z3.And(q1 * z(x) <= t, t <= q2 * z(x))))
            it.assume(z3.Implies(z(x) <= 0, z3.And(q2 * z(x) <= t, t <= q1 * z(x))))
        th.relonly = True
        for key in list(th.table):
            if key[0] == 'ceil':
                if it.oblige(name + ': the lower bound of the scan does not exceed (a - s)/2pi', z(key[1]) <= z(L), 'cut', True):
                    it.assume(z(key[1]) <= z(L))
            if key[0] == 'floor':
                if it.oblige(name + ': the upper bound of the scan is not below (b - s)/2pi', z(key[1]) >= z(H), 'cut', True):
                    it.assume(z(key[1]) >= z(H))
        k = z3.Int('k')
        names = {'L', 'H', 'k'}
        for key in list(th.table):
            if key[0] in ('ceil', 'floor'):
                for p in (key[1], th.table[key]):
                    names |= {a for m in p.c for a in m}
                # ceil is the least integer above, floor the greatest integer below
                v, r, zk = z(key[1]), z(th.table[key]), z3.ToReal(k)
                it.assume(z3.Implies(v <= zk, r <= zk) if key[0] == 'ceil' else z3.Implies(zk <= v, zk <= r))
        it.oblige_about(name + ': no extremum in [a, b] after the answer no', names,
                  z3.Not(z3.And(z(L) <= z3.ToReal(k), z3.ToReal(k) <= z(H))))
    return name, body


def case_trig(fname):
    """sin/cos of a proper interval"""
    import math
    name = '%s(C)' % fname
    lo_s, hi_s = (-math.pi / 2, math.pi / 2) if fname == 'sin' else (math.pi, 0.0)

    def body(it):
        th = it.th
        z = th.z
        x = Op(it, 'C', 'x')
        st, r = outcome(it, lambda: it.call(it.getattr(x.v, fname), [], {}))
        it.oblige(name + ': returns', st == 'ok')
        check_mode(it, name)
        if st != 'ok':
            return
        lo, hi = result_ends(it, name, r)
        ext = it.ghost.get('ext', {})
        t = th.var('t', rep=False)
        it.assume(z3.And(z(x.lo) <= z(t), z(t) <= z(x.hi)))
        v = true_fun(it, fname, t)
        va, vb = true_fun(it, fname, x.lo), true_fun(it, fname, x.hi)
        # Lean: sin_lower etc.  Without a minimum point in [a, b] the minimum is at an endpoint.
        if ext.get((x.lo, x.hi, lo_s)) is False:
            it.assume(z3.Or(z(v) >= z(va), z(v) >= z(vb)))
        if ext.get((x.lo, x.hi, hi_s)) is False:
            it.assume(z3.Or(z(v) <= z(va), z(v) <= z(vb)))
        it.oblige(name + ': contains the value at every member', z3.And(z(lo) <= z(v), z(v) <= z(hi)))
        m1, p1 = th.step('pred', K(-1)), th.step('succ', K(1))
        it.oblige(name + ': stays within [-1, 1] up to one unit', z3.And(z(lo) >= z(m1), z(hi) <= z(p1)))
    return name, body
