"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
K="intvalpy/kernel/interval_arithmetics.pyx"
R="intvalpy/kernel/real_intervals.py"
def P(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=None
    return d
props=[
P("P01","Sum, difference and negation are the exact result rounded outward",
  "For proper intervals x and y with finite endpoints and finite real numbers r (Python int or float, numpy float64 or int64; integers up to 2^53 in magnitude, results included), x+y, x-y, x+r, r+x, x-r, r-x and -x are proper intervals that contain every sum, difference or negation of their members. Each endpoint is the exact real endpoint rounded outward to the nearest double: the lower one down, the upper one up.",
  ["inputs"],"all proper finite intervals and all finite scalars on either side of the operator",
  "The suite checks about 200 hand-picked operand pairs; which way a sum rounds depends on the exact bits of both operands.",
  [K],[("directed rounding of each endpoint",K+": __add__, __sub__, __radd__, __rsub__, __neg__, RoundingContext")],["endpoints of the result"]),
P("P02","The product is the exact product rounded outward",
  "For proper intervals x and y with finite endpoints and finite real numbers r (domain as in P01), x*y, x*r and r*x are proper intervals that contain every product of their members. Each endpoint is the minimum or maximum of the exact endpoint products rounded outward to the nearest double.",
  ["inputs"],"all proper finite intervals, all sign combinations, all finite scalars on either side",
  "Nine sign cases times rounding direction of four products; the suite samples about 180 pairs.",
  [K],[("min/max of four products under directed rounding",K+": __mul__, __rmul__")],["endpoints of the result"]),
P("P03","Division encloses every quotient and is refused exactly at zero",
  "For proper finite intervals x, y and finite numbers r (domain as in P01), x/y, x/r and r/y contain every quotient of members whenever the divisor does not contain zero, and, for quotients and reciprocals in the normal range, are at most a few units in the last place wider than the exact quotient set. A divisor that contains or equals zero makes the operation raise ValueError or ZeroDivisionError, never return an interval, whichever side the interval is on and whether the other operand is a Python or a numpy number.",
  ["inputs"],"all proper finite intervals and scalars on either side, divisors touching or straddling zero included",
  "The suite divides about 160 fixed pairs, almost all interval by interval with exactly representable answers.",
  [K],[("zero test before every division",K+": __truediv__, __rtruediv__, __array_ufunc__"),("directed rounding of the quotients",K+": __truediv__, __rtruediv__")],["result or exception"]),
P("P04","Kaucher arithmetic computes the exact Kaucher operation rounded outward",
  "For generalized intervals (proper or improper, finite endpoints, classical and Kaucher operands mixed in any order, real numbers on either side), +, -, * and / yield an interval whose lower endpoint is at most and whose upper endpoint is at least the exact endpoint of the Kaucher operation, and within a few units in the last place of it (results in the normal range). Division is defined when zero lies outside the proper projection of the divisor (with reciprocals in the double range) and raises ValueError or ZeroDivisionError when the divisor contains zero.",
  ["inputs"],"all pairs of generalized intervals, all sixteen sign classes of the Kaucher multiplication table, both operand orders, scalars on either side",
  "The suite has a handful of integer examples where every rounding is exact; none with a Kaucher object holding a proper interval.",
  [K],[("Lakeyev's max/min product formula under directed rounding",K+": KaucherArithmetic.__mul__, __rmul__, __truediv__; ClassicalArithmetic.__mul__ with a Kaucher operand")],["endpoints of the result"]),
P("P05","Arithmetic and elementary functions are inclusion isotonic",
  "If x is a subset of x' and y a subset of y' (in the endpoint order, for proper and for generalized intervals), then x+y, x-y, x*y and x/y (where defined) are subsets of x'+y', x'-y', x'*y' and x'/y' (corresponding operands belonging to the same arithmetic, classical or Kaucher). The same holds for exp of a proper interval, and for each operation with a real number on either side.",
  ["inputs"],"all nested pairs of finite generalized intervals",
  "A relation between two evaluations on arbitrary nested inputs; no test compares two evaluations.",
  [K],[("each endpoint is a monotone rounding of a monotone function of the operand endpoints",K+": __add__, __sub__, __mul__, __truediv__, exp")],["endpoints of both results"]),
P("P06","Powers of an interval contain all powers of its members",
  "For a proper finite interval x and an integer n >= 1 (results within the double range), x**n contains t**n for every t in x, equals the exact range when the endpoints are integers whose powers are exactly representable, and for float endpoints is wider than the range by at most a relative 2n*2^-52 per endpoint. An even power of an interval containing zero has lower endpoint exactly zero; x**0 contains 1; a non-integer power of an interval of nonnegative numbers contains all powers of its positive members, and a non-integer power of an interval with negative numbers raises ValueError.",
  ["inputs"],"all finite proper intervals and nonnegative integer exponents, positive bases with real exponents",
  "Twelve integer examples in the suite, all exact; float endpoints are never tried.",
  [K],[("directed multiplications",K+": power, __pow__"),("even powers of zero-containing intervals",K+": __pow__")],["endpoints of the result"]),
P("P07","exp, log and sqrt enclose every value and are tight",
  "For a proper interval x, exp(x), log(x) and sqrt(x) contain the function value of every member of x in the domain of the function, including when an endpoint's image overflows or underflows the double range. For finite results exp and log endpoints are within two units in the last place of the exact range; an interval lying entirely below zero gives NaN endpoints for log and sqrt. (The rounding mode in force is the default one.)",
  ["inputs"],"all proper intervals with finite endpoints (and unbounded ones for exp)",
  "The suite has 4 exp and 19 log examples and no sqrt; the error of the C library functions depends on the argument.",
  [K,"intvalpy/kernel/elementary_functions.py"],[("one-ulp widening of exp",K+": exp, round_down, round_up"),("extended precision logarithm with an error margin",K+": log, log_down, log_up"),("sqrt through exp and log",K+": sqrt")],["endpoints of the result"]),
P("P08","sin and cos enclose every value, at any magnitude",
  "For a proper interval x with finite endpoints, sin(x) and cos(x) contain the function value at every member of x; both results lie within [-1, 1] widened by at most a few units in the last place. When no extremum of the function lies in x or within a relative distance 1e-14 of its endpoints, each endpoint is within two units in the last place of the exact range. (The rounding mode in force is the default one.)",
  ["inputs"],"all proper finite intervals, of any width and any magnitude",
  "The suite has 38 examples with small arguments; missing an interior extremum needs an argument near a multiple of pi/2 at a large magnitude or a specific quadrant pair.",
  [K],[("extremum test with a rounding margin",K+": has_extremum, sin, cos"),("one-ulp widening",K+": round_down, round_up")],["endpoints of the result"]),
P("P09","The floating-point rounding mode is restored after every operation",
  "After any scalar or array interval operation, returning or raising, the floating-point rounding mode of the thread is what it was before the call, for every initial rounding mode; so interval operations never change the results of later ordinary floating-point arithmetic.",
  ["inputs","histories"],"every operation, every operand including those that raise, every sequence of operations",
  "Tests look at interval endpoints only; a leaked mode shows up as last-bit changes elsewhere in the program.",
  [K],[("scoped rounding mode",K+": RoundingContext.__enter__, __exit__")],["the rounding mode of the thread after the call"],
  [("rounding mode","dynamic rounding mode of the FPU","fesetround / fegetround")]),
P("P10","Interval characteristics and relations equal their defining formulas",
  "For finite generalized intervals x = [a, b]: wid, rad, mid, mig, mag, dual, pro, opp, inv (zero outside the proper projection), abs, copy, x.a/x.b, membership of numbers and intervals, and the comparisons ==, !=, <, <=, >, >= equal their endpoint definitions (wid = b-a, rad = wid/2, mid = (a+b)/2, mag = max(|a|,|b|); for proper x mig = distance of the set [a,b] from zero and abs = [mig, mag]; dual = [b,a], opp = [-a,-b], inv = [1/a,1/b] rounded outward, comparisons endpointwise), up to one rounding of the arithmetic involved. dual is an involution, x + opp x is [0, 0], and an operand of an unsupported type raises TypeError in every relation.",
  ["inputs"],"all finite generalized intervals and all pairs of them",
  "About 90 fixed examples; improper and mixed-type operands and unsupported types are sampled once or not at all.",
  [K],[("endpoint formulas",K+": BaseTools properties and comparison methods")],["values of the properties"]),
P("P11","Interval construction keeps the described set in every input form",
  "Interval(l, r), Interval([l, r]), Interval(number), interval arrays from endpoint arrays or from arrays of pairs, midRadQ=True and asinterval of numbers and nested sequences all denote the interval(s) given: with sorting, endpoints min and max and a proper result; without sorting, endpoints in the given order, improper when the left exceeds the right; with midRadQ, mid-rad and mid+rad up to rounding, a negative radius being refused. Shapes follow the input, an object that is already an interval is returned unchanged, and invalid input (strings, non-numbers, more than two arguments) raises an error.",
  ["inputs"],"all endpoint pairs in either order, all shapes, all accepted input forms",
  "The suite builds literal intervals of one or two dimensions; combinations of form, order and option are not covered.",
  [R,"intvalpy/kernel/preprocessing.py"],[("ordering of endpoints and class choice",R+": SingleInterval"),("input form dispatch",R+": Interval"),("conversion","intvalpy/kernel/preprocessing.py: asinterval")],["endpoints, class and shape of the result"]),
P("P12","Intersection, inclusion relations and distance are the set-theoretic ones",
  "For proper intervals and equally shaped interval arrays, intersection returns componentwise exactly the common points when the components meet and a NaN interval when they are more than 1e-15 apart; numbers and sequences given as operands are converted to intervals. subset, superset and their proper variants hold exactly when every component satisfies the endpoint inclusion, contain and supercontain give the componentwise answers, and dist is the Chebyshev (or p-norm) distance of the endpoints: nonnegative, symmetric, zero exactly for equal intervals, satisfying the triangle inequality up to rounding.",
  ["inputs"],"all pairs of proper intervals and of equally shaped arrays",
  "Seven scalar examples of intersection in the suite; inclusion relations and dist are untested.",
  ["intvalpy/kernel/preprocessing.py","intvalpy/kernel/utils.py"],[("intersect","intvalpy/kernel/preprocessing.py: intersection"),("relations and metric","intvalpy/kernel/utils.py: dist, subset, superset, contain, supercontain")],["returned intervals, booleans and numbers"]),
P("P13","Array operations act elementwise and leave their operands unchanged",
  "For nonempty interval arrays of any shape, every unary property, arithmetic operation (with an array, an interval, a number or a numpy array on either side, with numpy broadcasting), power, elementary function and comparison equals the scalar operation applied to corresponding elements, with the broadcast shape. Operands other than the target of an in-place operator are unchanged, copies and transposes do not share later element assignments with the original's copy, and indexing, assignment, deletion of an index along an axis, reshape and transpose follow numpy semantics.",
  ["inputs","histories"],"all shapes, all operand type combinations, both operand orders, sequences of in-place operations",
  "Only a few array cases are tested, and aliasing or operand order in mixed numpy expressions is not.",
  [R],[("lifting through object arrays",R+": ArrayInterval operators, __array_ufunc__, __getitem__, __setitem__")],["elements and shape of the result, operands after the call"]),
P("P14","Interval matrix products contain all products of their members",
  "For interval or real matrices and vectors of compatible shapes, A @ B contains the exact product of every real matrix in A with every real matrix in B, for interval @ interval, interval @ real and real @ interval operands, and entry (i, k) is computed from row i of A and column k of B only. The result is wider than the exact interval sum of products by rounding errors only.",
  ["inputs"],"all compatible shapes and all members of the interval operands",
  "One integer example in the suite.",
  [R],[("object matmul over interval elements",R+": __matmul__, __rmatmul__, __array_ufunc__")],["entries of the result"]),
P("P15","ralgb5 reports a consistent best point",
  "For any objective, ralgb5 returns a point and a value such that the value is the objective at that point, is not larger than the objective at the starting point or at any other point it evaluated, the call count equals the number of objective evaluations, and the iteration count does not exceed maxiter by more than one. The exit code names the criterion that stopped it: 2 only if the last subgradient norm was below tolg, 4 only if the iterations were used up, 5 only after more than 500 line-search steps; the starting point is not modified.",
  ["inputs","histories"],"all objectives (including non-convex ones and objectives with NaN-free values), starting points and option values",
  "The optimizer has no tests at all.",
  ["intvalpy/kernel/ralgb5.py"],[("record point update","intvalpy/kernel/ralgb5.py: f < fr"),("stopping criteria","intvalpy/kernel/ralgb5.py")],["returned tuple, sequence of objective calls"]),
P("P16","Recognizing functionals decide membership in the solution sets",
  "For an interval system Ax=b with proper entries, the value of Tol, Uni and Uss at x is the minimum over the rows of weight*(rad b - |mid b - Ax|) with magnitude, mignitude and the Uss form respectively; up to rounding it is nonnegative exactly when A x is inside b (Tol) or A x meets b (Uni and Uss) in every row. Positive weights scale the rows and never change the sign.",
  ["inputs"],"all interval systems of any size, all points, all positive weights",
  "None of the functionals is tested.",
  ["intvalpy/linear/Tol.py","intvalpy/linear/Uni.py","intvalpy/linear/Uss.py","intvalpy/kernel/abstract.py"],[("constituents",": _constituent in Tol.py, Uni.py, Uss.py"),("minimum over rows",": _value")],["returned values"]),
P("P17","The objective optimized for a functional is the functional, with a supergradient",
  "The value maximized for Tol, Uni and Uss (and its sign convention) agrees with the value method at every point, weights included, and for Tol the gradient passed to the optimizer is a supergradient: the functional at y never exceeds value(x) plus gradient times (y-x); for Uss the same holds for y in the orthant of x. maximize returns a point, and the functional's value at that point, not below its value at the starting point.",
  ["inputs"],"all interval systems, points x and y, weights",
  "Untested; a wrong sign in one orthant only degrades the optimizer silently.",
  ["intvalpy/linear/Tol.py","intvalpy/linear/Uni.py","intvalpy/linear/Uss.py","intvalpy/kernel/abstract.py"],[("calcfg",": calcfg in Tol.py, Uni.py, Uss.py"),("optimize","intvalpy/kernel/abstract.py: BaseRecFun.optimize")],["(value, gradient) passed to the optimizer; returned tuple"]),
P("P18","Linear constraints become an exact nonnegative penalty",
  "A linear constraint lb <= C x <= ub is normalised to the finite inequalities it contains, one row per finite bound. The penalty is mu times the sum of the violations with the matching gradient: zero, with zero gradient, exactly where no inequality is violated, positive elsewhere, and convex; a constrained objective is the unconstrained one plus the penalty, and the constraint object is not changed by using it.",
  ["inputs","histories"],"all matrices, bounds (infinite ones included), points; repeated use of one constraint object with several systems",
  "Untested.",
  ["intvalpy/kernel/abstract.py"],[("normalisation","intvalpy/kernel/abstract.py: LinearConstraint.__init__"),("penalty","intvalpy/kernel/abstract.py: BaseRecFun.linear_penalty")],["C, b, penalty value and gradient"]),
P("P19","Gauss and Gauss-Seidel enclose the united solution set",
  "For a square interval system, if Gauss returns a box it contains the solution of every real system with matrix in A and right-hand side in b. If Gauss_Seidel returns a box it contains every such solution that lies in the initial box (default [-1000, 1000] in each component), for every preconditioner, tolerance and iteration limit, and if it reports that there is no solution there is none in that box; neither changes its arguments.",
  ["inputs"],"all square systems, all member systems, all pivot orders, all iteration counts",
  "The solvers are untested, and for a given interval system the member systems form a continuum.",
  ["intvalpy/linear/Gauss.py","intvalpy/linear/Gauss_Seidel.py"],[("interval elimination","intvalpy/linear/Gauss.py: Gauss"),("interval iteration with intersection","intvalpy/linear/Gauss_Seidel.py: Gauss_Seidel")],["returned box, exceptions"]),
P("P20","HBR and Rohn enclose the united solution set",
  "For a square interval system that passes its H-matrix check, HBR returns a box containing the solution of every member system up to rounding; Rohn's method for a system with at least as many rows as columns returns a box containing every x that solves some member system up to rounding, or raises when its iteration has not converged. Arguments are not changed.",
  ["inputs"],"all systems with m <= n and all their member systems",
  "Untested; a box that loses part of the solution set looks plausible.",
  ["intvalpy/linear/HBR.py","intvalpy/linear/Rohn.py"],[("H-matrix test and Hansen-Bliek-Rohn formula","intvalpy/linear/HBR.py: HBR"),("majorant iteration","intvalpy/linear/Rohn.py: _Rohn_Uni")],["returned box, exceptions"]),
P("P21","Neumaier's box lies inside the tolerable solution set",
  "For an interval system and a centre y in its tolerable solution set, the box of Neumaier's method is centred at y with half-widths proportional to the positive weights, and every point x of the box satisfies A x inside b up to rounding. The box is the largest of that shape for which the method's row-norm bound holds.",
  ["inputs"],"all systems of any shape, all centres in the tolerable set, all positive weights, all points of the box",
  "The only tests for it do not import.",
  ["intvalpy/linear/Neumaier.py"],[("minimum over rows of slack divided by weighted magnitude row sum","intvalpy/linear/Neumaier.py: Neumaier")],["returned box"]),
P("P22","Krawczyk and Hansen-Sengupta never lose a root",
  "For an inclusion function and an interval extension of its Jacobian, in one or several unknowns, the box returned by Krawczyk or HansenSengupta contains every root of the function lying in the initial box, for every tolerance and iteration limit, and is contained in the initial box up to the 1e-15 tolerance of intersection. If they report that no root exists (exception or NaN box) the initial box contains none.",
  ["inputs"],"all functions with inclusion functions, all initial boxes, tolerances and iteration limits",
  "Untested (the several-variable case did not run at all).",
  ["intvalpy/nonlinear/external_evaluation.py"],[("interval Newton-type operator intersected with the current box","intvalpy/nonlinear/external_evaluation.py: K, HS")],["returned box"]),
P("P23","globopt's enclosure contains the global minimum",
  "For an inclusion function of f and a finite starting box, the box returned by globopt is a sub-box of the starting box and the lower endpoint of the returned value does not exceed the minimum of f over the starting box, for every tolerance and iteration limit; the starting box is not modified. When the tolerance is reached before the iteration limit the returned value interval is narrower than the tolerance.",
  ["inputs"],"all inclusion functions, boxes, tolerances, iteration limits",
  "Untested; losing one half-box or the order of the work list gives a plausible wrong minimum.",
  ["intvalpy/nonlinear/globopt.py"],[("bisection with a list sorted by lower bound","intvalpy/nonlinear/globopt.py: globopt")],["returned box and value"],
  [("L","work list of (box, lower bound) sorted by lower bound, boxes covering the starting box","globopt")]),
P("P24","Subdiff returns formal solutions of the Kaucher system",
  "When Subdiff stops with its residual criterion satisfied, substituting the returned vector into the system with Kaucher arithmetic reproduces the right-hand side up to the tolerance. In every sign case the matrix assembled at an iterate reproduces the Kaucher products at that iterate: it maps the endpoints of x to the endpoints of A x.",
  ["inputs"],"all square generalized interval systems, all sign combinations of entries and unknowns, improper ones included",
  "Untested; sixteen sign cases, of which an ordinary system visits a few.",
  ["intvalpy/linear/Subdiff.py"],[("sixteen-case subgradient","intvalpy/linear/Subdiff.py: calcSubgrad"),("Newton step","intvalpy/linear/Subdiff.py: Subdiff")],["returned vector, assembled matrix"]),
P("P25","Vertices of a linear inequality system satisfy it, whatever was called before",
  "For a system A x >= b in the plane with a bounded solution set, every vertex returned by lineqs satisfies all inequalities up to the rounding tolerance, every vertex of the solution set is returned, and an unbounded set is cut by the caller's bounds when they are given. IntLinIncR2 returns for each orthant points of the solution set in that orthant; its result depends on its arguments only, not on earlier calls.",
  ["inputs","histories"],"all planar systems, bounds, and sequences of calls",
  "Untested; the history dependence needs an unbounded set drawn first.",
  ["intvalpy/linear/boundary_intervals.py"],[("boundary intervals","intvalpy/linear/boundary_intervals.py: BoundaryIntervals, Intervals2Path"),("drawing bounds","intvalpy/linear/boundary_intervals.py: lineqs, IntLinIncR2")],["returned vertices"],
  [("__center_rm","bounds collected for unbounded orthants","module variable of boundary_intervals")]),
P("P26","WILS reports the fitted objective and leaves the data alone",
  "After fit of an interval linear regression (WILS) without constraint, the reported objective equals the objective (Tol, Uni or Uss with the given norm, inf or l1, and smoothed weights) at the reported coefficients and is not below its value at a given starting point; weights follow w_k = beta*((1-alpha)*w_k + alpha*w_(k-1)). fit and predict leave the caller's data, weights and starting point unchanged, and predict encloses the model value at every point of the interval data, up to rounding.",
  ["inputs","histories"],"all data sets, objectives, norms, weights, and repeated fits",
  "Untested.",
  ["intvalpy/models/WILS.py"],[("weights and objective","intvalpy/models/WILS.py: fit, _tol_calcfg_extend, _uni_calcfg_extend, _uss_calcfg_extend")],["estimator, arguments after the call, predictions"]),
P("P27","Generated matrices and test systems have their documented entries",
  "zeros, full, eye and diag give interval arrays with exactly the described point or interval entries; the Neumaier, Shary and Toft systems have, for every order and parameter in their documented range, the documented diagonal, off-diagonal and right-hand side intervals and refuse parameters outside it. compmat of a matrix of proper intervals is the comparison matrix (mignitudes on the diagonal, minus magnitudes off it).",
  ["inputs"],"all orders and parameter values",
  "Untested.",
  ["intvalpy/kernel/new_objects.py","intvalpy/kernel/utils.py"],[("generators","intvalpy/kernel/new_objects.py"),("compmat, diag","intvalpy/kernel/utils.py")],["entries of the result"]),
P("P28","Optimal outer estimates of the solution set (PSS, PPS) are enclosures",
  "For interval systems with at least two unknowns (square ones for PPS, at least as many rows as columns for PSS), the box returned by the parameter partitioning methods PSS and PPS contains, up to rounding, every solution of a member system (for PSS with a starting box x0 that contains solutions: every solution in x0), for every tolerance, iteration limit and choice of component nu. Arguments are not changed.",
  ["inputs","configurations"],"all interval systems, all option combinations",
  "Untested.",
  ["intvalpy/linear/PSS.py","intvalpy/linear/PPS.py"],[("partitioning with monotonicity and Rohn tests","intvalpy/linear/PSS.py, intvalpy/linear/PPS.py")],["returned endpoint estimates"]),
P("P29","ISPAE reports the fitted objective and encloses the model's values",
  "After fit of an interval polynomial regression (ISPAE) in any of its bases, the reported objective equals the objective (Tol or Uni with the given norm and smoothed weights w_k = beta*((1-alpha)*w_k + alpha*w_(k-1))) at the reported coefficients and is not below its value at a given starting point. fit and predict leave the caller's data, weights and starting point unchanged, the value of one column is the range of the polynomial on each interval of the column, and predict encloses the model value at every point of the interval data, up to rounding.",
  ["inputs","histories"],"all data sets, bases, orders, objectives, norms, weights, and repeated fits",
  "Untested.",
  ["intvalpy/models/ISPAE.py"],[("weights and objective","intvalpy/models/ISPAE.py: fit, _tol_calcfg_extend, _uni_calcfg_extend"),("range of a polynomial on an interval","intvalpy/models/ISPAE.py: value_of_one_col")],["estimator, arguments after the call, predictions"]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in props:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(props))
