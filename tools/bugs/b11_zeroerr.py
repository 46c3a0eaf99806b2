PROP = 'C23'
EDITS = [('redmapper/depth_fitting.py', "                 (_magErr > 0.0))", "                 (_magErr >= 0.0))")]
NEEDS = 'galaxies without an error (zero) among the faint ones'
BREAKS = 'magnitude errors of zero (not measured) take part in the fit of the depth'
DEMO = """
import sys
import numpy as np
from redmapper.depth_fitting import calcErrorModel
bad = 0
for s in range(6):
    rng = np.random.RandomState(s)
    lim, zp, nsig, xt = 21.5, 22.5, 10.0, 100.0
    fl = 10**(0.4 * (zp - lim))
    sky = fl**2 * xt / nsig**2 - fl
    n = 2000
    mag = lim + 0.6 - rng.exponential(1.2, n)
    f = 10**(0.4 * (zp - mag))
    e = 2.5 / np.log(10) * np.sqrt(sky / xt + f / xt) / f * np.exp(rng.normal(size=n) * 0.05)
    e[(mag > lim - 0.5) & (rng.uniform(size=n) < 0.5)] = 0.0
    p, fail = calcErrorModel(mag, e, nSig=nsig, zp=zp)
    bad += fail != 0 or abs(p['LIMMAG'][0] - lim) > 0.08
print(bad)
sys.exit(1 if bad > 3 else 0)
"""
