"""The built-in LP solver."""
from ..runner import Harness
from . import solvers

BOUNDS = 'up to 3 variables, 4 inequalities and 2 equalities (5 variables, 10 inequalities with some right-hand sides constant; integer arrays; programs solved one after the other): the costs and matrices listed in vp/props/solvers.py (bounded, unbounded, parallel, repeated and zero rows), right-hand sides free reals'
OUTSIDE = 'other matrices; programs whose least-squares residual lies in (0, 1e-6], where the tolerance of the code decides; cycling or rounding inside scipy'
ASSUMPTIONS = ['scipy.optimize.nnls returns a minimiser of ||Mv - c|| over v >= 0 and the minimum (necessary and sufficient optimality conditions)']
HARNESSES = [solvers.LP, solvers.LPA, Harness('missing', solvers.missing, [dict(k='lp')], **solvers.W)]
