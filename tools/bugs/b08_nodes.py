PROP = 'C23'
EDITS = [('redmapper/utilities.py', "    if _maxnode < zrange[1]:\n        nodes = np.append(nodes, zrange[1])\n", "    if _maxnode < (zrange[1] - nodesize / 2.):\n        nodes = np.append(nodes, zrange[1])\n")]
NEEDS = 'a largest useful node less than half a node size below the top of the redshift range'
BREAKS = 'the spline nodes then end below the redshift range, so that the last part of the range is extrapolated'
DEMO = '''
import sys
import numpy as np
from redmapper.utilities import make_nodes
bad = 0
for top in (0.59, 0.585, 0.57, 0.3):
    n = make_nodes([0.1, 0.6], 0.05, maxnode=top)
    print(top, n)
    bad += abs(n[-1] - 0.6) > 1e-9
sys.exit(1 if bad else 0)
'''
