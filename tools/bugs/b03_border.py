PROP = 'C06'
EDITS = [('redmapper/galaxy.py', "        boundaries = hpc.boundaries(nside, hpix[0], step=galtable.nside // nside)\n", "        boundaries = hpc.boundaries(nside, hpix[0], step=1)\n")]
NEEDS = 'a region pixel much coarser than the table pixels, with a border smaller than the region'
BREAKS = 'border galaxies next to the middle of a region edge are not read'
DEMO = '''
import numpy as np, sys
import hpgeom as hpg
from redmapper.catalog import Entry
from redmapper.galaxy import get_subpixel_indices
npx = hpg.nside_to_npixel(32)
t = Entry(np.zeros(1, dtype=[('nside', 'i2'), ('hpix', 'i4', npx), ('filenames', 'S10', npx)]))
t.nside = 32
t.hpix = np.arange(npx)
ind = set(get_subpixel_indices(t, hpix=[20], border=0.5, nside=2).tolist())
c = np.array(hpg.boundaries(2, 20, step=64, nest=False, degrees=True)) if hasattr(hpg, 'boundaries') else None
ra, dec = c
need = set(hpg.angle_to_pixel(32, ra, np.clip(dec, -90, 90), nest=False).tolist())
print(len(need - ind))
sys.exit(0 if not (need - ind) else 1)
'''
