"""Writes known_findings.json (hand-maintained lists; commits resolved from the /repo history by message)."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '5a76e98..HEAD'], capture_output=True, text=True).stdout.splitlines()
log = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}
FIXED = [
 ('P03', 'divide an interval by a number with outward rounding', 'Interval(1, 1)/3 was a point interval off 1/3 (also P04); division by the number 0 returned an interval'),
 ('P04', "round Kaucher products outward and use Lakeyev's formula everywhere", 'endpoints of Kaucher products were rounded to nearest; mixed and improper products used a wrong case table'),
 ('P03', 'refuse division of a NumPy operand by an interval containing zero', 'np.float64(1)/Interval(-1, 1) returned an interval'),
 ('P01', 'honour the operand order in NumPy ufunc calls on an interval', 'np.subtract(Interval(1, 2), 3.0) computed 3.0 - x (also P02-P04)'),
 ('P07', 'keep the exponential enclosed when an endpoint overflows', 'Interval(0, 1000).exp() raised OverflowError, Interval(-inf, ...) gave a wrong endpoint'),
 ('P07', 'bound the logarithm rigorously', 'log of Interval(0.9589759845929797) did not contain the value'),
 ('P06', 'round integer powers of float endpoints outward', 'Interval(0.1, 0.1)**3 did not contain the cube'),
 ('P08', 'detect the extrema of sin and cos with a margin for rounding errors', 'Interval(821469221.8168229, 821469221.816823).sin() missed the maximum'),
 ('P10', 'raise the TypeError of the membership test', "'a' in Interval(1, 2) returned an exception object as truth value instead of raising it"),
 ('P11', 'build the degenerate interval from a single number', 'Interval(4) raised'),
 ('P13', 'iterate an interval array in reverse', 'reversed(x) did not give the elements'),
 ('P12', 'convert the operands of intersection to intervals', 'intersection(Interval([[0, 2]]), [1]) raised'),
 ('P12', 'make supercontain componentwise, as contain is', 'supercontain(x, y) answered for the whole array'),
 ('P19', 'eliminate with the outer product in the interval Gauss method', 'Gauss(A, b) for n >= 3 did not enclose the solution set'),
 ('P20', 'test every row in the H-matrix check of HBR', 'HBR accepted matrices that are not H-matrices when one component of u was positive'),
 ('P21', 'take the radius of the Neumaier estimate over all rows', 'Neumaier(A, b, tol=y) used the first row only'),
 ('P20', "do not return an unconverged box from Rohn's method", 'Rohn returned a box that is no enclosure when the iteration had not converged'),
 ('P24', 'correct a sign in the subgradient of Subdiff', 'case 16: the matrix did not reproduce the product'),
 ('P22', 'make Krawczyk and HansenSengupta work for systems', 'Krawczyk on two unknowns raised or lost the root'),
 ('P25', 'forget the drawing bounds of earlier calls in IntLinIncR2 and IntLinIncR3', 'the result of IntLinIncR2 depended on earlier calls'),
 ('P26', "do not smooth the caller's weights in place", 'fit changed the weight array passed in (also P29)'),
 ('P18', 'do not keep the penalty weight of one system for the next', 'a LinearConstraint used for two systems kept mu of the first'),
 ('P18', 'accept a linear constraint without finite bounds', 'LinearConstraint(C) without bounds raised'),
 ('P13', 'read the endpoints of an interval array as floating-point numbers', 'Shary_system(3)[0].a truncated float endpoints when the first was an int (also P12, P27)'),
 ('P03', 'round quotients of integers outward', 'Interval(1, 2)/(-3), Interval(1, 2)/Interval(-3, -3) were rounded inward (also P04)'),
 ('P03', 'divide a number by an interval without overflowing reciprocals', '0.0/Interval(-1, -5e-324) gave NaN'),
]
KNOWN = []
extra = os.path.join(HERE, 'tools', 'extra_findings.py')
if os.path.exists(extra):
    exec(open(extra).read())
out = dict(known=KNOWN, fixed=['fixed: property=%s %s %s' % (p, log['fix: ' + m], w) for p, m, w in FIXED])
missing = [m for m in log if m not in ['fix: ' + x for _, x, _ in FIXED]]
assert not missing, missing
json.dump(out, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(out['fixed']), 'fixed', len(KNOWN), 'known')
