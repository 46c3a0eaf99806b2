PROP = 'C04'
EDITS = [('redmapper/catalog.py', "        temp = np.zeros(n_new, dtype=self._ndarray.dtype)\n        self._ndarray = np.append(self._ndarray, temp)\n",
 "        temp = np.resize(self._ndarray, n_new)\n        for name in temp.dtype.names:\n            temp[name] = np.zeros_like(temp[name])\n        self._ndarray = np.append(self._ndarray, temp) if self._ndarray.size else np.resize(self._ndarray, 0)\n")]
NEEDS = 'extending a catalogue that has no rows yet'
BREAKS = 'an empty catalogue silently stays empty when it is extended'
DEMO = '''
import numpy as np, sys
from redmapper.catalog import Catalog
c = Catalog(np.zeros(0, dtype=[('a', 'f4'), ('b', 'i4', 2)]))
c.extend(4)
print(c.size)
sys.exit(0 if c.size == 4 else 1)
'''
