PROP = 'C25'
EDITS = [('redmapper/plotting.py', "interpol(cluster.pz, cluster.pzbins, xvals)", "interpol(cat[0].pz, cluster.pzbins, xvals)")]
NEEDS = 'clusters whose p(z) differ in shape'
BREAKS = 'the n(z) figure samples every cluster from the p(z) of the first one'
DEMO = """
import os
import sys
import glob
import tempfile
import shutil
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np
import yaml
import matplotlib.figure as mf
from redmapper import Configuration
from redmapper.catalog import Catalog
from redmapper.plotting import NzPlot
d = tempfile.mkdtemp()
try:
    src = '/repo/tests/data_for_tests/testconfig.yaml'
    with open(src) as f:
        y = yaml.safe_load(f)
    for k, v in list(y.items()):
        if isinstance(v, str) and os.path.isfile(os.path.join('/repo/tests', v)):
            y[k] = os.path.join('/repo/tests', v)
    y['outpath'], y['zrange'] = d, [0.1, 0.5]
    fn = os.path.join(d, 'c.yml')
    with open(fn, 'w') as f:
        yaml.safe_dump(y, f)
    c = Configuration(fn)
    n = 3000
    cat = Catalog(np.zeros(n, dtype=[('z_lambda', 'f4'), ('pzbins', 'f4', (21,)), ('pz', 'f4', (21,))]))
    cat.pzbins = np.linspace(0.2, 0.4, 21)
    cat.pz = np.exp(-0.5 * ((cat.pzbins - np.where(np.arange(n) % 10 == 0, 0.25, 0.35)[:, None]) / 0.01)**2)
    ar = Catalog(np.zeros(100, dtype=[('z', 'f4'), ('area', 'f4')]))
    ar.z, ar.area = np.linspace(0.0, 1.0, 100), 1000.0
    got = []
    orig = mf.Figure.savefig

    def save(fig, *a, **k):
        got.extend([(x, v) for l in fig.axes[0].lines for x, v in zip(l.get_xdata(), l.get_ydata())])
        return orig(fig, *a, **k)
    mf.Figure.savefig = save
    np.random.seed(1)
    NzPlot(c, binsize=0.1).plot_cluster_catalog(cat, ar)
    v = dict((round(float(x), 2), y) for x, y in got)
    print(v)
    ok = v.get(0.35, 0) > v.get(0.25, 0)
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
"""
