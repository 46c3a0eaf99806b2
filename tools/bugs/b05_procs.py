PROP = 'C09'
EDITS = [('redmapper/background.py', "            ubins, = np.where((self.zbins < zedges[i]) & (self.zbins > zedges[i + 1]))\n",
 "            ubins, = np.where((self.zbins < zedges[i]) & (self.zbins - 0.1*self.config.bkg_zbinsize > zedges[i + 1]))\n")]
NEEDS = 'a process edge that falls within a tenth of a bin below a redshift bin (certain numbers of processes and redshift ranges)'
BREAKS = 'redshift bins next to a process boundary are left empty in the generated background'
DEMO = '''
import numpy as np, sys, os, tempfile, shutil
import fitsio
d = tempfile.mkdtemp()
try:
    os.chdir('/repo/tests')
    from redmapper import Configuration
    from redmapper.background import BackgroundGenerator
    bad = 0
    res = {}
    c = Configuration('data_for_tests/testconfig.yaml')
    c.galfile = 'data_for_tests/pixelized_dr8_test/dr8_test_galaxies_master_table.fit' if not os.path.exists(str(c.galfile)) else c.galfile
    for n in (1, 2, 3, 4, 5, 6, 7, 8):
        # only the split is exercised: the workers are replaced
        class G(BackgroundGenerator):
            def _worker(self, mark):
                return mark, 1.0, 1.0
        c.calib_nproc = n
        c.zrange = [0.1, 0.35]
        c.bkg_zbinsize = 0.002
        c.bkg_refmagbinsize, c.bkg_chisqbinsize = 1.0, 5.0
        c.depthfile = None
        c.bkgfile = os.path.join(d, 'b%d.fit' % n)
        G(c).run(clobber=True)
        s = fitsio.read(c.bkgfile, ext='CHISQBKG')['sigma_g'][0]
        print(n, (s == 0).sum())
        bad += (s == 0).sum()
finally:
    shutil.rmtree(d)
sys.exit(0 if bad == 0 else 1)
'''
