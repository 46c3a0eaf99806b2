PROP = 'C05'
EDITS = [('redmapper/galaxy.py', "                if not os.path.isfile(fname):\n                    # Create a new file\n                    fitsio.write(fname, gals[i1a])\n",
 "                if self.ngals[pix] == 0:\n                    # First galaxies of this pixel\n                    fitsio.write(fname, gals[i1a], clobber=True)\n")]
NEEDS = 'two parallel writers that both have galaxies in the same pixel'
BREAKS = 'the second parallel writer overwrites the galaxies the first one wrote to a shared pixel'
DEMO = '''
import numpy as np, sys, os, tempfile, shutil, glob
import fitsio
from redmapper.galaxy import GalaxyCatalogMaker
d = tempfile.mkdtemp()
try:
    info = dict(LIM_REF=21.0, REF_IND=1, AREA=10.0, NMAG=3, MODE='SDSS', ZP=22.5)
    rng = np.random.RandomState(1)
    def gals(n, i0):
        g = np.zeros(n, dtype=GalaxyCatalogMaker.get_galaxy_dtype(3))
        g['id'] = i0 + np.arange(n)
        g['ra'], g['dec'] = rng.uniform(10, 10.5, n), rng.uniform(0, 0.5, n)
        g['refmag'], g['refmag_err'], g['mag'], g['mag_err'] = 19., 0.1, 19., 0.1
        return g
    ms = [GalaxyCatalogMaker(os.path.join(d, 'sub', 'g'), info, nside=8, parallel=True) for i in range(2)]
    ms[0].append_galaxies(gals(20, 1))
    ms[1].append_galaxies(gals(30, 100))
    n = sum(fitsio.read(f, ext=1).size for f in glob.glob(d + '/sub/g_*.fit'))
finally:
    shutil.rmtree(d)
print(n)
sys.exit(0 if n == 50 else 1)
'''
