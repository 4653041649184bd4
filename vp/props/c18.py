"""The built-in QP solver."""
from ..runner import Harness
from . import solvers

BOUNDS = 'up to 3 variables, 4 inequalities and 1 equality (5 variables, 10 inequalities with constant data; integer arrays; programs solved one after the other): the Hessians and constraint matrices listed in vp/props/solvers.py, linear costs and right-hand sides free reals; one variable and one constraint: everything free'
OUTSIDE = 'other matrices; programs whose least-squares residual lies in (0, 1e-6]; rounding inside scipy and in badly conditioned Hessians'
ASSUMPTIONS = ['scipy.optimize.nnls returns a minimiser of ||Mv - c|| over v >= 0 and the minimum (necessary and sufficient optimality conditions)']
HARNESSES = [solvers.QP, solvers.QPA, solvers.SCALAR, Harness('missing', solvers.missing, [dict(k='qp')], **solvers.W)]
