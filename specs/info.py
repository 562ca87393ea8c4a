"""What the checks report about each property: level, trusted base, assumptions, what stays bounded."""
PYVC = 'pyvc (symbolic execution of the function bodies read from /repo and generation of the obligations)'
Z3 = 'Z3 (linear and nonlinear real arithmetic)'
IEEE = 'IEEE 754 directed rounding: each operation yields the exact result rounded in the mode in force; overflow is not modelled, except where a case says so (the run-time contracts cover it)'
INTS = 'integer endpoints and numbers are at most 2^53 in magnitude, results included'
FENV = 'the compiled extension does not move floating-point operations across fesetround calls (every compiled operation is checked by the run-time contracts)'
CYTHON = 'Cython operator dispatch: x op y calls type(x).__op__, then type(y).__rop__ on NotImplemented'
NPSCAL = 'a NumPy scalar on the left hands the operation to __array_ufunc__ with the same operands in the same order'
LIBM = 'exp, sin, cos of libm are within 1 ulp in the default rounding mode; logl within the margin the code assumes'
MONO = 'exp of libm is monotone'
INTDIV = 'CPython divides integers by magnitude (round to nearest of |a|/|b| under the rounding mode in force, then the sign)'
OBJ = 'NumPy applies the operators of the elements of an object array elementwise, in index order, with broadcasting'
BASE = [PYVC, Z3, IEEE, INTS, FENV, CYTHON, NPSCAL]
RT = 'Run-time contracts: every clause evaluated on the compiled code against exact rational (or 400-bit) values; operands are drawn from special endpoints, powers of two and their neighbours, constants of the source, the whole exponent range, related pairs, all four rounding modes where stated. Distinct by argument list.'


def I(level='proof', rule=RT, trusted=(), assumptions=(), **kw):
    return dict(dict(level=level, rule=rule, trusted=BASE + list(trusted), assumptions=BASE[2:] + list(assumptions)), **kw)


INFO = {
    'P01': I(),
    'P02': I(),
    'P03': I(assumptions=[INTDIV]),
    'P04': I(assumptions=[INTDIV, 'reciprocals of the divisor stay in the double range']),
    'P05': I(assumptions=[INTDIV, MONO], bounded=['elementary function exp: isotonicity of libm exp itself is assumed']),
    'P06': I(trusted=['Lean kernel with Mathlib (error accumulation lemmas)'], assumptions=[LIBM], lean=True),
    'P07': I(assumptions=[LIBM], lean=True),
    'P08': I(assumptions=[LIBM], lean=True, bounded=['no extremum test for arguments beyond 2^53 is proved; sampled to 1e300']),
    'P09': I(bounded=['array operations and the linear/nonlinear algorithms use the scalar operations only; sampled']),
    'P10': I(),
    'P11': I(trusted=['NumPy array construction, stack, indexing and vectorize by contract (pyvc/arr.py, pyvc/npw.py)'], bounded=['arrays of more than 3 axes (4 with the pair axis); nested Python sequences of more than 3 entries']),
}
RT2 = 'Run-time contracts on the real code, operands generated from seeds and directed cases; exact rational oracles (member systems solved exactly, vertices enumerated exactly, endpoints compared as fractions). Distinct by argument list.'
NPY = 'NumPy operations on object and float arrays are taken by contract (elementwise in index order with broadcasting, slices are views, arrays of stated shapes; pyvc/arr.py, pyvc/npw.py)'
SCAL = 'scalar interval operations are taken by their contracts (P01-P04, P10-P12, discharged there)'
EXACT = 'machine arithmetic treated as mathematical: interval operations and float operations are exact in these obligations (the statement is up to rounding; rounding is measured by the run-time contracts)'
DIMS = 'sizes are symbolic: obligations hold for every number of rows and columns; loops by invariants'


def AI(level, bounded, assumptions=(), seconds=45, lean=False):
    return dict(level=level, rule=RT2, trusted=[PYVC, Z3, NPY, SCAL] + list(assumptions), assumptions=[NPY, SCAL] + list(assumptions), bounded=[bounded], seconds=seconds, lean=lean)


INFO.update({
    'P12': AI('proof', 'arrays of more than 4 axes (relations, intersection) or 3 axes (dist); improper operands; sequences as operands (asinterval of nested sequences)', [IEEE, 'metric properties in exact arithmetic; the rounding of each endpoint difference is bounded separately'], lean=True),
    'P13': AI('proof', 'arrays of more than 4 axes, index arrays, masks, slices with steps, vertex', ['NumPy ufuncs on object arrays and scalars hand over to __array_ufunc__ as documented', '+ and * do not depend on the order of the operands and x - y is x + (-y) (P01, P02, P04)']),
    'P14': AI('proof', 'products of arrays of more than two axes', ['matmul of object arrays adds the products of elements in index order', 'tightness and enclosure of the entry follow from P01 and P02 by induction on the length of the sum']),
    'P15': AI('proof', 'none of the statement; run-time contracts replay (every call logged)', ['the objective returns a number that is not NaN and a subgradient of the shape of the point; it may depend on anything but does not modify its argument']),
    'P16': AI('proof', 'size of rounding errors in the functional values', [EXACT]),
    'P17': AI('proof', 'size of rounding errors', [EXACT, 'ralgb5 by its contract (P15); find_mu returns a positive number; svd and lstsq return vectors of the documented lengths']),
    'P18': AI('proof', 'size of rounding errors', [EXACT]),
    'P19': AI('proof', 'none of the statement; run-time contracts replay', ['a real linear system with invertible leading pivots is reduced exactly by the elimination identities']),
    'P21': AI('proof', 'size of rounding errors; systems with a zero row', [EXACT]),
    'P20': AI('proof', 'size of rounding errors', [EXACT, 'numpy.linalg.inv returns the inverse or raises LinAlgError (HBR); nothing is assumed of it in Rohn']),
    'P23': AI('proof', 'none of the statement; run-time contracts replay', ['the objective is an inclusion function whose value depends on the box only', 'bisect.bisect_left of a sorted sequence by its documented contract (sortedness is an obligation)']),
    'P24': AI('proof', 'the residual of the returned vector where the last Newton step left the linear piece of the previous iterate (measured by the run-time contracts)', [EXACT, 'numpy.linalg.solve returns a solution of the system it is given or raises']),
    'P26': AI('proof', 'size of rounding errors; fits under a constraint (penalty added)', [EXACT, 'ralgb5 by its contract (P15)', 'numpy svd and lstsq return arrays of the documented lengths']),
    'P27': AI('proof', 'shapes of more than 3 axes', [IEEE, FENV]),
    'P22': AI('proof', 'none of the statement; run-time contracts replay', ['the user functions satisfy their contract: an inclusion function and an interval extension of the Jacobian', 'mean value theorem for the function in each component', 'membership of a box in a box (ArrayInterval.__contains__) by its definition']),
})
for _p in ('P14', 'P16', 'P17', 'P18', 'P19', 'P20', 'P21', 'P24', 'P26'):
    # the rules about sums used there are lemmas of lean/Sums.lean, checked on every run
    INFO[_p]['lean'] = 'Sums.lean'
    INFO[_p]['trusted'].append('Lean kernel with Mathlib (rules about sums)')
for _p, _b in {
    'P25': 'vertices enumerated exactly',
    'P29': 'objective recomputed at the estimate; column values by dense sampling and critical points; predictions at members',
    'P28': 'solutions of member systems, exact; tolerance 1e-8 relative; linear programs on which GLPK does not end are left out',
}.items():
    INFO[_p] = dict(level='exploration', rule=RT2, trusted=[], assumptions=['bounded: sizes up to 5 unknowns, sampled operands'], bounded=[_b], seconds=45)

NOTES = {
    'P01': 'For all endpoints and numbers: __add__, __sub__, __radd__, __rsub__, __neg__, __array_ufunc__ of the scalar classes, both backends of the operand dispatch.',
    'P02': 'For all endpoints and numbers, including the exact real enclosure of all member products (lemma).',
    'P03': 'For all endpoints and numbers, divisor containing zero refused on every path.',
    'P04': 'Against the Kaucher table (16 sign cases) for all endpoints; the plus/minus form is proved equal to it.',
    'P05': 'Two runs of the same function related (isotonicity) or reduced to the exact form of P01-P04.',
    'P06': 'power() by induction on the exponent with loop invariants; __pow__ against its contract.',
    'P07': 'Endpoint functions as uninterpreted monotone functions with the accuracy assumption on libm.',
    'P08': 'Extremum test with the margin argument; calculus facts proved in Lean.',
    'P09': 'The mode as ghost state: every path of every scalar operation leaves it as found, exceptions included.',
    'P10': 'Every property and comparison for all endpoints; unsupported operand types raise.',
    'P11': 'Scalar construction in every argument form; endpoint arrays and arrays of pairs of up to 3 axes, nested sequences of up to 3 pairs, asinterval of arrays and lists.',
    'P12': 'Intersection, relations and dist for every pair of operand kinds and every shape of up to 4 axes; p-norms for every order, Minkowski step in Lean.',
}
NOTES.update({
    'P13': 'Elements are terms over uninterpreted scalar operations: every operator, comparison, property, function, in-place operator, indexing form and copy of ArrayInterval for symbolic sizes and 1 to 4 axes, operands unchanged, no sharing.',
    'P14': 'Entry (i, k) is the sum of scalar products of row i and column k for symbolic sizes, and contains the sum of products of any members.',
    'P15': 'ralgb5 executed symbolically for every objective, dimension and option value; the three loops by invariants over the ghost set of evaluated points.',
    'P16': 'constituent and value of Tol, Uni and Uss for every number of rows and columns, with and without weights.',
    'P17': 'The objective functions passed to the optimizer (calcfg), their supergradients, and maximize with weights, constraints and starting points for every size.',
    'P18': 'LinearConstraint, its penalty and gradient, and the constrained objectives for every size.',
    'P19': 'Gauss and Gauss_Seidel for every size, with the member system as ghost data and loop invariants.',
    'P20': 'HBR and Rohn (united set) for every size: every solution of a member system lies in the returned box; H-matrix test, comparison matrix, inverse not negative, witness for the quotient; the majorant iteration by a loop invariant (any approximate inverse), contraction derived from the accepted last change.',
    'P23': 'globopt for every number of variables, tolerance and iteration limit: the work list as a sequence of unknown length, sorted, its boxes covering the starting box, by a loop invariant; with rounding.',
    'P26': 'WILS.fit for every number of rows and coefficients, the three objectives and both norms: smoothing by a loop invariant, objective as minimum or sum over all rows; WILS.predict.',
    'P21': 'Neumaier for every number of rows and columns, with and without weights: centre, half-widths, the factor attained and not exceeded, A x inside b for every member of A and every point of the box; rows not zero, centre in the tolerable set.',
    'P24': 'Subdiff for every number of unknowns: calcSubgrad against the Kaucher table in all sign cases (improper entries and unknowns included), the assembled matrix, the residual and its magnitudes, the Newton step and the stopping rule by invariants of the three loops; on a linear piece the residual of the result is (1 - tau) times the last one.',
    'P27': 'Generators, diag and compmat for every size and shape of up to 3 axes; Neumaier, Shary and Toft systems for every order and all parameters, loops by invariants, with rounding.',
    'P22': 'Krawczyk and HansenSengupta in one and n unknowns with the root as ghost data.',
})
NOT_APPLICABLE = {}
