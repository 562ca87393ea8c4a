"""Which contract cases decide which property.

A case is (world name, case name, body); cases(prop) lists them.  The worlds say which callees are taken by
contract (and which case list discharges that contract).
"""
import os
from pyvc.kernel import kernel_world
from .info import INFO
from . import kernel_arith as A, kernel_elem as E, kernel_misc as M
from . import array_functionals as F, array_linear as L, array_optim as O, array_roots as R, array_objects as B, array_sets as S, array_build as C, array_formal as Q, array_tolerable as T, array_outer as U, array_globopt as G, array_models as W_

WORLDS = {
    'kernel': lambda root: kernel_world(root),
    'bare': lambda root: M.bare_world(root),
    'power': lambda root: E.power_world(root),
    'elem': lambda root: E.elem_world(root),
    'mode': lambda root: M.mode_world(root),
    'gauss': lambda root: L.gauss_world(root),
    'seidel': lambda root: L.seidel_world(root),
    'roots': lambda root: R.roots_world(root),
    'exact': lambda root: F.exact_world(root),
    'functional': lambda root: F.functional_world(root),
    'maximize': lambda root: F.maximize_world(root),
    'constraint': lambda root: F.constraint_world(root),
    'objects': lambda root: B.objects_world(root),
    'product': lambda root: B.product_world(root),
    'members': lambda root: B.member_world(root),
    'sets': lambda root: S.sets_world(root),
    'metric': lambda root: S.metric_world(root),
    'build': lambda root: C.build_world(root),
    'formal': lambda root: Q.formal_world(root),
    'tolerable': lambda root: T.tolerable_world(root),
    'outer': lambda root: U.outer_world(root),
    'globopt': lambda root: G.globopt_world(root),
    'models': lambda root: W_.models_world(root),
    'ralg': lambda root: O.ralg_world(root),
}
REG = {}


def prop(pid):
    def deco(f):
        REG[pid] = f
        return f
    return deco


def w(world, *cases):
    return [(world,) + c for c in cases]


def k(*cases):
    return [('kernel',) + c for c in cases]


@prop('P01')
def _():
    return k(*[A.case_addsub(op, a, b) for op in '+-' for a, b in ('CC', 'Cn', 'nC', 'Cf', 'fC')]) + k(A.case_neg('C'))


@prop('P02')
def _():
    return k(A.lemma_mul()) + k(*[A.case_mul(a, b) for a, b in ('CC', 'Cn', 'nC', 'Cf', 'fC')])


@prop('P03')
def _():
    return k(A.lemma_div()) + k(*[A.case_div(a, b) for a, b in ('CC', 'Cn', 'nC', 'Cf', 'fC')])


@prop('P04')
def _():
    out = k(*[A.case_mul(a, b) for a, b in ('KK', 'CK', 'KC', 'Kn', 'nK')])
    out += k(*[A.case_div(a, b) for a, b in ('KK', 'CK', 'KC', 'Kn', 'nK')])
    out += k(*[A.case_addsub(op, a, b) for op in '+-' for a, b in ('CK', 'KC', 'KK', 'Kn', 'nK')]) + k(A.case_neg('K'))
    return out


@prop('P05')
def _():
    out = k(*[M.case_isotone(op, a, b) for op in '+-*/' for a, b in ('CC', 'Cn', 'nC', 'Cf', 'fC')])
    out += k(*[M.case_isotone(op, a, b) for op in '+-' for a, b in ('KK', 'CK', 'KC', 'Kn', 'nK')])
    out += k(M.case_isotone('/', 'K', 'n'), M.case_kform_table(), M.case_kform_isotone(), M.case_exp_isotone())
    out += k(*[M.case_kdiv_exact(a, b) for a, b in ('CK', 'KC', 'KK', 'nK')])
    # the products of generalized intervals are isotonic through the Kaucher form: they are computed by it
    return out


@prop('P06')
def _():
    return [('power',) + E.case_power('D'), ('power',) + E.case_power('U'), ('elem',) + E.case_pow(), ('elem',) + E.case_pow_real()]


@prop('P07')
def _():
    out = k(E.case_log_helper('log_down', 'D'), E.case_log_helper('log_up', 'U'))
    return out + [('elem',) + E.case_fun('exp'), ('elem',) + E.case_fun('log'), ('elem',) + E.case_fun('sqrt'), ('elem',) + E.case_fun('sqrt', 'np')]


@prop('P08')
def _():
    out = [('elem',) + E.case_trig('sin'), ('elem',) + E.case_trig('cos')]
    return out + k(*[E.case_has_extremum(s, m) for s in ('-pi/2', 'pi/2', 'pi', '0') for m in 'DU'])


@prop('P09')
def _():
    return [('mode',) + c for c in M.mode_cases()] + [('elem',) + M.case_mode_has_extremum(s) for s in (1e-15, -1e-15)]


@prop('P10')
def _():
    out = k(*M.char_cases())
    for op in ('<', '<=', '>', '>=', '==', '!=', 'in'):
        for t in 'CK':
            for u in 'CKnsNl':
                out += k(M.case_compare(op, t, u))
    return out


@prop('P11')
def _():
    out = [('bare',) + M.case_ctor(c, a, b) for c in ('ClassicalArithmetic', 'KaucherArithmetic') for a in ('int', 'float', 'np') for b in ('int', 'float', 'np')]
    for fm in ('l, r', '[l, r]', '(l, r)', 'l'):
        for sq in (None, True, False):
            out += k(M.case_interval(fm, sq, False))
        if fm != 'l':
            out += k(M.case_interval(fm, None, True))
    out += k(*[M.case_interval_refused(a) for a in ('l, text', 'l, None', 'l, l, l')])
    return out + k(*[M.case_asinterval(t) for t in ('C', 'K', 'n', 'f', 'text')]) + w('build', *C.cases11())


@prop('P12')
def _():
    return k(M.case_intersection()) + w('sets', *S.cases12()) + w('metric', *S.cases12_metric())


@prop('P13')
def _():
    return w('objects', *B.cases13())


@prop('P14')
def _():
    return w('product', *B.cases14()) + w('members', *B.cases14_members())


@prop('P15')
def _():
    return w('ralg', *O.cases15())


@prop('P16')
def _():
    return w('exact', *F.cases16())


@prop('P17')
def _():
    return w('exact', *[F.case_calcfg(x) for x in ('Tol', 'Uni', 'Uss')]) + w('maximize', *F.cases_maximize())


@prop('P18')
def _():
    return w('functional', F.case_penalty(), *[F.case_constrained(x) for x in ('Tol', 'Uni', 'Uss')]) + w('constraint', *F.cases_constraint())


@prop('P19')
def _():
    return w('gauss', L.case_gauss()) + w('seidel', *[L.case_seidel(C, b) for C in (None, 'real', 'interval') for b in (True, False)])


@prop('P22')
def _():
    return w('roots', *R.cases())


@prop('P27')
def _():
    return w('build', *C.cases27())


@prop('P20')
def p20():
    return w('outer', *U.cases20())


@prop('P21')
def p21():
    return w('tolerable', *T.cases21())


@prop('P24')
def _():
    return w('formal', *Q.cases24())


def cases(pid):
    return REG[pid]() if pid in REG else []


@prop('P23')
def p23():
    return w('globopt', *G.cases23())


@prop('P26')
def p26():
    return w('models', *W_.cases26())
