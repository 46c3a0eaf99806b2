PROP = 'C02'
EDITS = [('redmapper/chisq_dist/chisq_dist.c', "\t      // copy from mode 0\n\t      if (use_refmagerr) {\n\t\t  gsl_matrix_add(&mvcovmat.matrix, cimat);\n", "\t      // copy from mode 0\n\t      if (use_refmagerr && !nophotoerr) {\n\t\t  gsl_matrix_add(&mvcovmat.matrix, cimat);\n")]
NEEDS = 'pairs of galaxies and redshifts, with a reference magnitude error, and without photometric errors'
BREAKS = 'the chi-square of pairs leaves out the error of the reference magnitude when photometric errors are switched off, and differs from the other modes'
DEMO = """
import sys
import numpy as np
from redmapper.chisq_dist import compute_chisq
rng = np.random.RandomState(1)
n, ncol = 20, 3
cov = np.zeros((ncol, ncol, n))
for i in range(n):
    cov[:, :, i] = np.diag(rng.uniform(0.03, 0.1, ncol)**2)
c = rng.uniform(0.5, 1.5, (n, ncol))
sl = rng.uniform(-0.2, 0.2, (n, ncol))
piv = np.full(n, 19.)
rm = rng.uniform(18, 21, n)
me = np.full((n, ncol + 1), 0.05)
col = c + rng.normal(0, 0.1, (n, ncol))
re = np.full(n, 0.3)
bad = 0
for kw in ({}, {'nophotoerr': True}):
    p = compute_chisq(cov, c, sl, piv, rm, me, col, refmagerr=re, **kw)
    for i in range(n):
        cm = cov[:, :, i] + np.outer(sl[i], sl[i]) * re[i]**2
        if not kw:
            r = np.zeros((ncol, ncol + 1))
            for j in range(ncol):
                r[j, j], r[j, j + 1] = 1, -1
            cm = cm + r.dot(np.diag(me[i]**2)).dot(r.T)
        dc = c[i] + sl[i] * (rm[i] - piv[i]) - col[i]
        want = dc.dot(np.linalg.inv(cm)).dot(dc)
        bad += abs(p[i] / want - 1) > 1e-6
print(bad)
sys.exit(1 if bad else 0)
"""
