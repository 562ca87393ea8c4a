FIXED += [
 ('P13', 'compare an interval array with an interval', 'x < Interval(1, 3) for an interval array x raised NotImplementedError'),
 ('P13', 'divide by and into arrays without an intermediate reciprocal', '3.0/x of an interval array differed from the scalar division; Interval(1, 1)/np.array([3.0]) did not contain 1/3'),
 ('P18', 'keep the penalty weight of two-sided constraints finite', 'the penalty weight of a two-sided constraint was inf or NaN, so the penalty of a feasible point was NaN'),
 ('P17', 'accept a scalar weight when a functional is maximized', 'Tol.maximize(A, b, weight=2.0) raised although value accepts a scalar weight'),
 ('P25', 'keep the edges of repeated and opposite inequalities', 'lineqs lost vertices when a row was repeated: np.dot with FMA gives a nonzero product for parallel rows'),
 ('P25', 'no vertices for a system with a contradictory zero row', 'lineqs returned vertices for a system with the row 0 x >= 1'),
 ('P25', 'no vertices when the solution set does not meet the bounds', 'lineqs with bounds outside the solution set raised TypeError or IndexError'),
 ('P28', 'no monotony sign for a zero derivative in PPS', 'PPS returned boxes that do not contain the solution set when an entry of A is zero'),
 ('P28', 'PPS gives a result for a system with a point matrix', 'PPS raised UnboundLocalError (ocenka) for a point matrix'),
 ('P28', 'negate the starting box of PSS with the right-hand side', 'PSS(A, b, x0=...) used x0 for the upper endpoints although it solves for -x there'),
 ('P28', 'PSS returns the attained value when no box is left', 'PSS raised IndexError when the last box was discarded'),
 ('P28', 'PSS accepts columns with point zeros', 'PSS raised ZeroDivisionError for a column with a zero entry'),
]
