PROP = 'C08'
EDITS = [('redmapper/depthmap.py', "                maskgals.m50[bd] = np.median(maskgals.m50[ok])\n", "                maskgals.m50[bd] = np.median(maskgals.limmag[ok])\n")]
NEEDS = 'a cluster whose Monte-Carlo galaxies partly fall off the depth map, in a survey whose 50% depth differs from its limiting magnitude'
BREAKS = 'unseen mask galaxies get the limiting magnitude instead of the median completeness depth'
DEMO = '''
import numpy as np, sys, logging
import hpgeom as hpg
from redmapper.depthmap import DepthMap
from redmapper.catalog import Catalog
rng = np.random.RandomState(0)
m = Catalog.zeros(500, [('x', 'f4'), ('y', 'f4'), ('w', 'f4'), ('limmag', 'f4'), ('exptime', 'f4'), ('m50', 'f4'), ('zp', 'f4'), ('nsig', 'f4')])
m.x, m.y = rng.uniform(-1, 1, 500), rng.uniform(-1, 1, 500)
dm = DepthMap.__new__(DepthMap)
dm.w, dm.zp, dm.nsig, dm.eff = 0.1, 22.5, 10.0, 1.0
dm.config_logger = logging.getLogger('x')
def fake(ras, decs):
    b = ras > 10.1
    return np.where(b, hpg.UNSEEN, 21.0), np.where(b, hpg.UNSEEN, 100.), np.where(b, hpg.UNSEEN, 20.0)
dm.get_depth_values = fake
dm.calc_maskdepth(m, 10.0, 0.0, 5.0)
print(np.unique(m.m50))
sys.exit(0 if np.all(m.m50 == 20.0) else 1)
'''
