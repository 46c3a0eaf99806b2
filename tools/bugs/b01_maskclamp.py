PROP = 'C01'
EDITS = [('redmapper/solver_nfw/solver_nfw.c',
 "      outlo += lamlo*cval;\n", "      outlo += lamlo*(cpars[3] + cpars[2]*(*rlambda) + cpars[1]*(*rlambda)*(*rlambda)\n                      + cpars[0]*(*rlambda)*(*rlambda)*(*rlambda));\n"),
 ('redmapper/solver_nfw/solver_nfw.c', "    outmid += mid*cval;\n", "    outmid += mid*(cpars[3] + cpars[2]*(*rlambda) + cpars[1]*(*rlambda)*(*rlambda)\n                   + cpars[0]*(*rlambda)*(*rlambda)*(*rlambda));\n")]
NEEDS = 'a mask-correction polynomial that is negative at the solved radius'
BREAKS = 'the negative mask fraction is no longer clamped to zero, so the richness is not the sum of the probabilities'
DEMO = '''
import numpy as np, sys
from redmapper.solver_nfw import Solver
rng = np.random.RandomState(3)
n = 300
r = np.sqrt(rng.uniform(0.001, 1.6**2, n))
u = 2*np.pi*r*rng.uniform(0.01, 0.2, n)
b = 2*np.pi*r*rng.uniform(1., 5., n)
w = np.ones(n)
lam, p, wt, rlam, th = Solver(1.0, 0.2, u, b, r, w, cpars=np.array([0., 0., 0., -0.15]), rsig=0.05).solve_nfw()
print(lam, wt.sum())
sys.exit(0 if abs(lam - wt.sum()) < 0.05 else 1)
'''
