"""C22: the calibration as a whole - which step gets which files, iteration by iteration; interrupted anywhere and started again it ends the same.

The costly steps are replaced by stand-ins (on the real classes) that log the configuration they are given, fail if an input is missing, and write files whose content is a
checksum of their inputs; the workflow, the cluster finder's scheduling and merging, the seed catalogues, matches, corrections and configuration files are the real code.
Every FITS write of every process is counted; an interruption is injected after the n-th."""
import glob
import inspect
import json
import os
import shutil
import time
import zlib
import numpy as np
import fitsio
import hpgeom as hpg
import rmx
import skygen

RULE = 'one complete calibration judged, keyed by (iterations, region, names, options, processes); or one interrupted calibration keyed also by the writes after which it was interrupted'
REQUIRED = {'inputs': 150, 'steps_once': 8, 'steps_expected': 8, 'resume_same': 6, 'resume_no_repeat': 6, 'rerun_quiet': 6, 'run_config': 8, 'run_config_loads': 8, 'cut_seeds': 8, 'iter_seeds': 12, 'sub_like': 8, 'corrected': 8,
            'negative_refused': 2, 'specred_resume': 2}
BUDGET = {'quick': 600, 'thorough': 850}
ASSUMPTIONS = ['an interruption falls between two file writes: files are not written atomically, and a truncated file is taken for a finished one',
               'the calibration is started again with the same configuration file and an untouched output directory']
V = {}
SHARED = ('zmemfile', 'seedfile', 'catfile', 'parfile', 'zredfile', 'bkgfile', 'bkgfile_color', 'maskgalfile', 'redgalfile', 'redgalmodelfile', 'zlambdafile', 'wcenfile')


def plan(tier, seed):
    n = 22 if tier == 'quick' else 260
    rg = sorted(skygen.REGIONS)
    out = [{'kind': 'flow', 'j': j, 'region': rg[j % len(rg)], 'seed': seed * 6133 + j} for j in range(n)]
    out += [{'kind': 'negative', 'j': j, 'region': rg[j % len(rg)], 'seed': seed * 6133 + 5000 + j} for j in range(4 if tier == 'quick' else 24)]
    out += [{'kind': 'specred', 'j': j, 'region': rg[j % len(rg)], 'seed': seed * 6133 + 9000 + j} for j in range(3 if tier == 'quick' else 9)]
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    cwd = os.getcwd()
    try:
        globals()['k_' + case['kind']](rng, case, mon, env, env.tmp())
    finally:
        os.chdir(cwd)


def crc(*a):
    v = 0
    for x in a:
        v = zlib.crc32(x.tobytes() if isinstance(x, np.ndarray) else str(x).encode(), v)
    return v & 0x7fffffff


def filecrc(fn):
    with fitsio.FITS(fn) as f:
        return crc(f[1].read())


def log(**kw):
    fd = os.open(V['log'], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    try:
        os.write(fd, (json.dumps(kw) + '\n').encode())
    finally:
        os.close(fd)


def read_log():
    return [json.loads(x) for x in open(V['log'])] if os.path.isfile(V['log']) else []


def base(x):
    return None if x is None else os.path.basename(str(x))


def note(stage, c, out, ins, **kw):
    """log a call; every input must be there."""
    e = {'stage': stage, 'out': base(out), 'dir': os.path.relpath(os.path.dirname(os.path.abspath(out)), os.path.dirname(os.path.abspath(c.outpath))), 'dob': c.d.outbase,
         'nside': int(c.d.nside), 'hpix': [int(x) for x in np.atleast_1d(c.d.hpix)], 'centerclass': c.centerclass, 'deep': None,
         'wcen': [float(c.wcen_Delta0), float(c.wcen_Delta1), float(c.wcen_sigma_m), float(c.lnw_cen_mean), float(c.lnw_sat_sigma)],
         'missing': [base(x) for x in ins if x is None or not os.path.isfile(x)], 'ins': [base(x) for x in ins]}
    for k in SHARED:
        e[k] = base(getattr(c, k))
    e.update(kw)
    log(**e)
    time.sleep(0.002)
    return crc(stage, *[filecrc(x) for x in ins if x is not None and os.path.isfile(x)])


def done(stage, out):
    log(stage='done:' + stage, out=base(out))


def put(fn, v, **kw):
    a = np.zeros(1, dtype=[('crc', 'i8')])
    a['crc'] = v
    os.makedirs(os.path.dirname(os.path.abspath(fn)), exist_ok=True)
    fitsio.write(fn, a, clobber=kw.pop('clobber', True), **kw)


SEED_DT = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 5), ('mag_err', 'f4', 5), ('z', 'f4'), ('zspec', 'f4'), ('zred', 'f4'), ('zred_e', 'f4'), ('zred_chisq', 'f4'),
           ('crc', 'i8')]
CAT_DT = [('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('REFMAG', 'f4'), ('LAMBDA', 'f4'), ('SCALEVAL', 'f4'), ('MASKFRAC', 'f4'), ('LNLIKE', 'f4'), ('LNLAMLIKE', 'f4'), ('Z_LAMBDA', 'f4'),
          ('Z_LAMBDA_E', 'f4'), ('Z_SPEC_INIT', 'f4'), ('CG_SPEC_Z', 'f4'), ('TAG', 'i4'), ('CRC', 'i8')]
MEM_DT = [('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('P', 'f4'), ('TAG', 'i4'), ('CRC', 'i8')]
WCOL = ['delta0', 'delta1', 'sigma_m', 'pivot', 'lnw_fg_mean', 'lnw_fg_sigma', 'lnw_sat_mean', 'lnw_sat_sigma', 'lnw_cen_mean', 'lnw_cen_sigma', 'phi1_mmstar_m', 'phi1_mmstar_slope', 'phi1_msig_m', 'phi1_msig_slope']


def wvals(v):
    r = np.random.RandomState(v % 2**31)
    return {k: float(np.round(r.uniform(0.1, 0.9), 6)) for k in WCOL}


def zl_table(v, shift=0.0):
    n, r = 5, np.random.RandomState(v % 2**31)
    t = np.zeros(1, dtype=[('offset_z', 'f4', n), ('offset', 'f4', n), ('slope_z', 'f4', n), ('slope', 'f4', n), ('scatter', 'f4', n), ('offset_true', 'f4', n), ('slope_true', 'f4', n),
                           ('scatter_true', 'f4', n), ('niter_true', 'i2'), ('zred_uncorr', 'f4', n)])
    t['offset_z'] = t['slope_z'] = np.linspace(0.05, 0.6, n)
    t['offset_true'] = r.normal(size=n) * 0.004 + shift
    t['slope_true'] = r.normal(size=n) * 0.001
    t['scatter_true'] = r.uniform(0.001, 0.006, n)
    t['niter_true'] = 1
    t['zred_uncorr'] = t['offset_z'] + r.normal(size=n) * 0.002
    h = fitsio.FITSHDR()
    h['ZRANGE0'], h['ZRANGE1'], h['ZBINSIZE'], h['ZLAMPIV'] = 0.04, 0.62, 0.002, 30.0
    return t, h


# ------------------------------------------------------------------ the stand-ins
def s_specred(self, *a, **k):
    c = self.config
    v = note('specred', c, c.redgalfile, [c.specfile])
    put(c.redgalmodelfile, v + 1)
    put(c.redgalfile, v)
    done('specred', c.redgalfile)


def s_cbkg(self, *a, **k):
    c = self.config
    put(c.bkgfile_color, note('cbkg', c, c.bkgfile_color, []))
    done('cbkg', c.bkgfile_color)


def s_maskgals(self, maskgalfile, *a, **k):
    put(maskgalfile, note('maskgals', self.config, maskgalfile, []))
    done('maskgals', maskgalfile)


def s_colormem(self, *a, **k):
    c = self.config
    self._vf = note('colormem', c, c.zmemfile, [c.redgalfile, c.redgalmodelfile, c.bkgfile_color, c.maskgalfile])


def s_colortrain(self, *a, **k):
    put(self.config.zmemfile, self._vf)
    done('colormem', self.config.zmemfile)


def s_seeds(self, *a, **k):
    c = self.config
    u = bool(a[0] if a else k.get('usetrain', True))
    v = note('seeds', c, c.seedfile, [c.specfile_train if u else c.specfile], usetrain=u)
    s = V['seeds'] if u else V['allseeds']
    s = s.copy()
    s['crc'] = v
    fitsio.write(c.seedfile, s, clobber=True)
    done('seeds', c.seedfile)


def s_redseq(self, *a, **k):
    c = self.config
    put(c.parfile, note('redseq', c, c.parfile, [self._vf_args['galfile']]))
    done('redseq', c.parfile)


def s_zredpix(self, *a, **k):
    c = self.config
    put(c.zredfile, note('zredpix', c, c.zredfile, [c.parfile]))
    done('zredpix', c.zredfile)


def s_zredcat(self, galaxyfile, outfile, *a, **k):
    c = self.config
    v = note('zredcat', c, outfile, [galaxyfile, c.parfile])
    n = fitsio.read(galaxyfile, ext=1).size
    o = np.zeros(n, dtype=[('zred', 'f4'), ('zred_e', 'f4'), ('zred2', 'f4'), ('zred2_e', 'f4'), ('chisq', 'f4'), ('lkhd', 'f4')])
    r = np.random.RandomState(v % 2**31)
    for q in o.dtype.names:
        o[q] = r.uniform(0.1, 0.5, n)
    fitsio.write(outfile, o, clobber=bool(k.get('clobber', False)))
    done('zredcat', outfile)


def has(fn, name):
    if not os.path.isfile(fn):
        return False
    with fitsio.FITS(fn) as f:
        return name in [x.get_extname() for x in f[1:]]


def s_bkg(self, clobber=False, natatime=100000, deepmode=False):
    c = self.config
    if not clobber and has(c.bkgfile, 'CHISQBKG'):
        return
    v = note('bkg', c, c.bkgfile, [c.parfile, c.galfile], deep=bool(deepmode), area=None if c.area is None else float(c.area))
    put(c.bkgfile, v, extname='CHISQBKG', clobber=clobber)
    done('bkg', c.bkgfile)


def s_zbkg(self, clobber=False, natatime=100000):
    c = self.config
    if not clobber and has(c.bkgfile, 'ZREDBKG'):
        return
    put(c.bkgfile, note('zbkg', c, c.bkgfile, [c.zredfile]), extname='ZREDBKG', clobber=clobber)
    done('zbkg', c.bkgfile)


def s_wcen(self, *a, **k):
    c = self.config
    r = [self._vf_args.get('randcatfile'), self._vf_args.get('randsatcatfile')]
    v = note('wcen', c, c.wcenfile, [c.catfile] + [x for x in r if x is not None], iteration=int(self._vf_args['iteration']), rand=[base(x) for x in r])
    t = np.zeros(1, dtype=[(x, 'f8') for x in WCOL])
    for q, x in wvals(v).items():
        t[q] = x
    fitsio.write(c.wcenfile, t, clobber=True)
    done('wcen', c.wcenfile)


def s_zlam(self, *a, **k):
    c = self.config
    v = note('zlam', c, c.zlambdafile, [c.catfile], corrslope=bool(self._vf_args.get('corrslope', False)))
    t, h = zl_table(v, V.get('shift', 0.0))
    fitsio.write(c.zlambdafile, t, header=h, clobber=True)
    done('zlam', c.zlambdafile)


def s_prep(self, mode, *a, **k):
    c = self.config
    put(c.zmemfile, note('prep', c, c.zmemfile, [c.catfile, os.path.splitext(c.catfile)[0] + '_members.fit'], mode=mode))
    done('prep', c.zmemfile)


def s_plot(self, z_spec, z_phot, z_phot_e, *a, **k):
    log(stage='plot', out=base(self.filename), zs=[float(x) for x in z_spec], zp=[float(x) for x in z_phot], ze=[float(x) for x in z_phot_e], cat=base(self.config.catfile), zl=base(self.config.zlambdafile))
    os.makedirs(os.path.dirname(self.filename), exist_ok=True)
    open(self.filename, 'w').close()


def s_pass(stage):
    def run(self, *a, **k):
        c = self.config
        hp = int(np.atleast_1d(c.d.hpix)[0])
        ins = [c.parfile, c.bkgfile, c.zredfile, c.maskgalfile] + ([c.zlambdafile] if c.zlambdafile is not None else []) + ([c.seedfile] if stage == 'firstpass' else [c.catfile])
        v = note(stage, c, self.filename, ins, keepz=bool(k.get('keepz', False)), cleaninput=bool(k.get('cleaninput', False)), specmode=bool(getattr(self, 'specmode', False)),
                 redo=os.path.isfile(self.filename))
        t = V['t']
        own = np.where(hpg.angle_to_pixel(c.d.nside, t['RA'], t['DEC'], nest=False) == hp)[0]
        if own.size == 0:
            self.cat = self.members = None
            return
        r = np.random.RandomState(v % 2**31)
        b = np.zeros(own.size, dtype=np.dtype(CAT_DT))
        for q in b.dtype.names:
            if q in V['tn']:
                b[q] = t[q][own]
        b['CRC'] = v
        b['MEM_MATCH_ID'] = r.permutation(own.size) + 1
        b['LNLIKE'] = b['LNLAMLIKE'] = b['TAG'] + 0.5
        b['Z_LAMBDA'] = b['Z_SPEC_INIT'] + r.normal(size=own.size) * 0.004
        m = np.zeros(2 * own.size, dtype=np.dtype(MEM_DT))
        for q in ('MEM_MATCH_ID', 'RA', 'DEC', 'TAG', 'CRC'):
            m[q] = np.repeat(b[q], 2)
        m['P'] = r.uniform(size=m.size)
        from redmapper import Catalog
        self.cat, self.members = Catalog(b), Catalog(m)
    return run


class Stage(object):
    def __init__(self, real=()):
        self.real = real

    def __enter__(self):
        from redmapper.calibration.selectspecred import SelectSpecRedGalaxies
        from redmapper.calibration.selectspecseeds import SelectSpecSeeds
        from redmapper.calibration.redsequencecal import RedSequenceCalibrator
        from redmapper.calibration.centeringcal import WcenCalibrator
        from redmapper.calibration.zlambdacal import ZLambdaCalibrator
        from redmapper.calibration.prepmembers import PrepMembers
        from redmapper.color_background import ColorBackgroundGenerator
        from redmapper.zred_runner import ZredRunCatalog, ZredRunPixels
        from redmapper.background import BackgroundGenerator, ZredBackgroundGenerator
        from redmapper.plotting import SpecPlot
        from redmapper.mask import Mask
        from redmapper.run_colormem import RunColormem
        from redmapper.run_firstpass import RunFirstPass
        from redmapper.run_likelihoods import RunLikelihoods
        from redmapper.run_percolation import RunPercolation
        p = [(SelectSpecRedGalaxies, 'run', s_specred), (ColorBackgroundGenerator, 'run', s_cbkg), (Mask, 'gen_maskgals', s_maskgals), (RunColormem, 'run', s_colormem), (RunColormem, 'output_training', s_colortrain),
             (SelectSpecSeeds, 'run', s_seeds), (RedSequenceCalibrator, 'run', s_redseq), (ZredRunPixels, 'run', s_zredpix), (ZredRunCatalog, 'run', s_zredcat), (BackgroundGenerator, 'run', s_bkg),
             (ZredBackgroundGenerator, 'run', s_zbkg), (WcenCalibrator, 'run', s_wcen), (ZLambdaCalibrator, 'run', s_zlam), (PrepMembers, 'run', s_prep), (SpecPlot, 'plot_values', s_plot),
             (RunFirstPass, 'run', s_pass('firstpass')), (RunLikelihoods, 'run', s_pass('like')), (RunPercolation, 'run', s_pass('perc'))]
        p = [x for x in p if x[0].__name__ not in self.real]
        for cls in (RedSequenceCalibrator, WcenCalibrator, ZLambdaCalibrator):
            p.append((cls, '__init__', recorder(cls.__init__)))
        real_write = fitsio.FITS.write

        def write(fits, *a, **k):
            r = real_write(fits, *a, **k)
            fd = os.open(V['writes'], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            try:
                os.write(fd, b'.')
                n = os.fstat(fd).st_size
            finally:
                os.close(fd)
            if V['stop'] is not None and n == V['stop']:
                raise RuntimeError('injected interruption')
            return r
        p.append((fitsio.FITS, 'write', write))
        self.old = [(c, n, c.__dict__.get(n)) for c, n, _ in p]
        for c, n, f in p:
            setattr(c, n, f)
        return self

    def __exit__(self, *a):
        for c, n, f in reversed(self.old):
            if f is None:
                delattr(c, n)
            else:
                setattr(c, n, f)


def recorder(orig):
    sig = inspect.signature(orig)

    def init(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        self._vf_args = dict(b.arguments)
        # the name of the training file parameter is the second of RedSequenceCalibrator
        names = list(sig.parameters)
        if 'galfile' not in self._vf_args and len(names) > 2:
            self._vf_args['galfile'] = self._vf_args[names[2]]
        return orig(self, *a, **k)
    return init


# ------------------------------------------------------------------ a survey to calibrate on
def survey(rng, case, env, d):
    nside_tab = int(rng.choice([8, 16]))
    size = {8: 26., 16: 14.}[nside_tab]
    n = 150
    g = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 5), ('mag_err', 'f4', 5), ('ebv', 'f4'), ('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')])
    g['id'] = 1 + rng.permutation(n)
    g['ra'], g['dec'] = skygen.sky_points(rng, case['region'], n, size)
    g['refmag'], g['refmag_err'] = rng.uniform(16, 20, n), 0.05
    g['mag'], g['mag_err'] = 18. + rng.uniform(size=(n, 5)), 0.05
    gf, _, _ = rmx.write_galtable(os.path.join(d, 'gals'), g, nside_tab, truth=True)
    s = np.zeros(60, dtype=SEED_DT)
    k = rng.permutation(n)[:60]
    for q in ('id', 'ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err'):
        s[q] = g[q][k]
    s['z'] = s['zspec'] = rng.uniform(0.1, 0.5, s.size)
    nt = 40
    t = np.zeros(nt, dtype=[('RA', 'f8'), ('DEC', 'f8'), ('LAMBDA', 'f4'), ('SCALEVAL', 'f4'), ('MASKFRAC', 'f4'), ('Z_SPEC_INIT', 'f4'), ('Z_LAMBDA_E', 'f4'), ('Z', 'f4'), ('TAG', 'i4'), ('CG_SPEC_Z', 'f4'), ('REFMAG', 'f4')])
    j = rng.permutation(60)[:nt]
    t['RA'], t['DEC'], t['Z_SPEC_INIT'] = s['ra'][j], s['dec'][j], s['z'][j]
    away = rng.uniform(size=nt)
    t['DEC'] = np.clip(t['DEC'] + np.where(away < 0.25, 3. / 3600., np.where(away < 0.4, 0.2 / 3600., 0.)), -89.9999, 89.9999)
    t['LAMBDA'], t['SCALEVAL'] = rng.uniform(1.0, 60., nt), rng.uniform(1.0, 1.3, nt)
    t['MASKFRAC'] = np.where(rng.uniform(size=nt) < 0.1, 0.5, 0.05)
    t['Z_LAMBDA_E'], t['TAG'], t['CG_SPEC_Z'], t['REFMAG'] = rng.uniform(0.004, 0.012, nt), np.arange(nt) + 100, -2., 17.
    t['Z'] = t['Z_SPEC_INIT']
    half = s[rng.permutation(60)[:45]]
    V.clear()
    V.update(seeds=half, allseeds=s, t=t, tn=set(t.dtype.names), log=os.path.join(d, 'log'), writes=os.path.join(d, 'writes'), stop=None)
    return g, gf, nside_tab


def setup_case(rng, case, env, d):
    g, gf, nside_tab = survey(rng, case, env, d)
    calname = str(rng.choice(['cal', 'cal_v1', 'my_cal', 'work', 'run_of_cal_x']))
    outbase = str(rng.choice(['sv_cal', 'sv', 'a_cal_b', 'x.y']))
    niter = int(rng.choice([1, 2, 3]))
    over = dict(outbase=outbase, calib_niter=niter, calib_run_nproc=int(rng.choice([1, 2, 4])), calib_run_min_nside=int(rng.choice([1, 2])), galfile=gf, zredfile=None, bkgfile=None, parfile=None, catfile=None,
                maskgalfile='maskgals.fit', wcenfile=None, zlambdafile=None, seedfile=None, zmemfile=None, redgalfile=None, redgalmodelfile=None, bkgfile_color=None, hpix=None, nside=None, border=0.0,
                centerclass=str(rng.choice(['CenteringWcenZred', 'CenteringBCG'])), firstpass_centerclass=str(rng.choice(['CenteringBCG', 'CenteringWcenZred'])),
                calib_make_full_bkg=bool(rng.randint(2)), printlogging=False, max_maskfrac=0.2, percolation_minlambda=3.0, calib_minlambda=float(rng.choice([5., 10.])), calib_zlambda_minlambda=20.,
                calib_pcut=0.7, calib_colormem_minlambda=10., mask_mode=0, maskfile=None)
    for k in ('specfile', 'specfile_train'):
        a = np.zeros(3, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4')])
        a['ra'] = rng.uniform(size=3)
        over[k] = os.path.join(d, 'gals', k + '.fit')
        fitsio.write(over[k], a, clobber=True)
    reg = (0, [])
    if rng.uniform() < 0.6:
        ns = int(rng.choice([1, 2, 4]))
        p = hpg.angle_to_pixel(ns, V['t']['RA'], V['t']['DEC'], nest=False)
        u, cn = np.unique(p, return_counts=True)
        reg = (ns, [int(u[np.argmax(cn)])])
        over.update(nside=ns, hpix=reg[1], area=10.0)
        V['inreg'] = p == reg[1][0]
    else:
        V['inreg'] = np.ones(V['t'].size, bool)
    t = V['t']
    # something to find in the region
    i = np.where(V['inreg'])[0][:3]
    t['MASKFRAC'][i], t['LAMBDA'][i], t['SCALEVAL'][i] = 0.0, 45., 1.1
    rel = rng.uniform() < 0.5
    return over, calname, outbase, niter, reg, rel


def start(env, d, sub, calname, over, rel):
    from redmapper import Configuration
    out = os.path.join(d, sub, calname)
    os.makedirs(out, exist_ok=True)
    o = dict(over)
    if rel:
        os.chdir(out)
        for k in ('galfile', 'specfile', 'specfile_train'):
            o[k] = os.path.relpath(o[k], out)
        fn = rmx.test_yaml(env, out, **o)
        import yaml
        y = yaml.safe_load(open(fn))
        y['outpath'] = './'
        if isinstance(y.get('depthfile'), str):
            shutil.copy(y['depthfile'], os.path.join(out, 'depth.hs'))
            y['depthfile'] = 'depth.hs'
        yaml.safe_dump(y, open(fn, 'w'))
    else:
        os.chdir('/')
        fn = rmx.test_yaml(env, out, **o)
    return out, fn


def calibrate(fn):
    from redmapper import Configuration
    from redmapper.calibration import RedmapperCalibrator
    RedmapperCalibrator(fn).run()


def expected(outbase, niter, over, reg, newbkg):
    """(stage, output) -> what must hold of the call."""
    E = {}
    pc = 'pgt%4.2f_lamgt%02d' % (over['calib_pcut'], int(over['calib_minlambda']))
    cm = 'pgt%4.2f_lamgt%02d' % (over['calib_pcut'], int(over['calib_colormem_minlambda']))
    nm = lambda b, x: '%s_%s.fit' % (b, x)
    zm0 = nm(outbase, 'iter0_colormem_' + cm)
    E['specred', nm(outbase, 'zspec_redgals')] = dict(redgalmodelfile=nm(outbase, 'zspec_redgals_model'))
    E['cbkg', nm(outbase, 'bkg_color')] = {}
    E['maskgals', nm(outbase, 'maskgals')] = {}
    E['colormem', zm0] = dict(maskgalfile=nm(outbase, 'maskgals'))
    E['seeds', nm(outbase, 'specseeds_train')] = dict(usetrain=True)
    seedin, zm = nm(outbase, 'specseeds_train'), zm0
    for i in range(1, niter + 1):
        b = '%s_iter%d' % (outbase, i)
        E['redseq', nm(b, 'pars')] = dict(ins=[zm])
        E['zredpix', nm(b, 'zreds_master_table')] = dict(parfile=nm(b, 'pars'))
        E['bkg', nm(b, 'bkg')] = dict(parfile=nm(b, 'pars'), deep=False)
        E['zbkg', nm(b, 'bkg')] = dict(zredfile=nm(b, 'zreds_master_table'))
        E['zredcat', nm(b, 'specseeds_zreds')] = dict(ins=[seedin, nm(b, 'pars')])
        rand = [nm(b + '_rand', 'final'), nm(b + '_randsat', 'final')] if i == 1 else [None, None]
        E['wcen', nm(b, 'wcen')] = dict(catfile=nm(b, 'final'), iteration=i, rand=rand, parfile=nm(b, 'pars'), bkgfile=nm(b, 'bkg'))
        E['zlam', nm(b, 'zlambda')] = dict(catfile=nm(b, 'final'), corrslope=False)
        zm = nm(b, 'zmem_' + pc)
        E['prep', zm] = dict(catfile=nm(b, 'final'), mode='z_init')
        seedin = nm(outbase, 'cut_specseeds')
    E['seeds', nm(outbase, 'specseeds')] = dict(usetrain=False)
    E['zredcat', nm('%s_iter%db' % (outbase, niter), 'specseeds_zreds')] = dict(ins=[nm(outbase, 'specseeds'), nm('%s_iter%d' % (outbase, niter), 'pars')])
    if newbkg:
        E['bkg', nm(newbkg, 'bkg')] = dict(parfile=nm('%s_iter%d' % (outbase, niter), 'pars'), deep=True, nside=0, hpix=[])
    return E


def judge(mon, ev, out, fn, outbase, niter, over, reg, calname, w):
    """a completed calibration."""
    import yaml
    from redmapper import Configuration
    runname = 'run' if calname == 'cal' else calname.replace('cal_', 'run_') if 'cal_' in calname else calname.replace('_cal', '_run') if '_cal' in calname else calname + '_run'
    runbase = outbase.replace('_cal', '_run') if '_cal' in outbase else outbase + '_run'
    full = reg[0] != 0 and over['calib_make_full_bkg']
    E = expected(outbase, niter, over, reg, runbase if full else None)
    calls = [e for e in ev if not e['stage'].startswith('done:') and e['stage'] not in ('plot', 'firstpass', 'like', 'perc')]
    keys = [(e['stage'], e['out']) for e in calls]
    mon.check('steps_expected', set(keys) == set(E), missing=sorted(set(E) - set(keys))[:6], extra=sorted(set(keys) - set(E))[:6], **w)
    for e in calls:
        x = E.get((e['stage'], e['out']))
        if x is None:
            continue
        bad = {k: (e.get(k), v) for k, v in x.items() if e.get(k) != v}
        if e['missing']:
            bad['missing'] = e['missing']
        if x.get('deep'):
            ga = float(fitsio.read(over['galfile'], ext=1, lower=True)['area'][0])
            if e['area'] is None or not np.isclose(e['area'], ga, rtol=1e-6):
                bad['area'] = (e['area'], ga)
        if 'deep' not in x or not x['deep']:
            if (e['nside'], e['hpix']) != (reg[0], reg[1]):
                bad['region'] = ((e['nside'], e['hpix']), reg)
        want_dir = runname if x.get('deep') else calname + '/%s' % e['dob'] if e['stage'] == 'zredpix' else calname
        if e['dir'] != want_dir:
            bad['dir'] = (e['dir'], want_dir)
        mon.check('inputs', not bad, stage=e['stage'], out=e['out'], bad=bad, **w)
    # the cluster finder: specmode with seeds, then random centres, then the full run
    W = {}
    for i in range(1, niter + 1):
        a = fitsio.read(os.path.join(out, '%s_iter%d_wcen.fit' % (outbase, i)), ext=1)[0]
        W[i] = [float(a['delta0']), float(a['delta1']), float(a['sigma_m']), float(a['lnw_cen_mean']), float(a['lnw_sat_sigma'])]
    nm = lambda b, x: '%s_%s.fit' % (b, x)
    got = set()
    for e in ev:
        if e['stage'] not in ('firstpass', 'like', 'perc'):
            continue
        tail = e['dob'][len(outbase) + 1:]
        run = [r for r in (['iter%d%s' % (i, s) for i in range(1, niter + 1) for s in ('_randsat', '_rand', 'b', '')]) if tail == r or tail.startswith(r + '_')]
        if not mon.check('inputs', bool(run) and e['dob'].startswith(outbase + '_'), dob=e['dob'], stage=e['stage'], **w):
            continue
        r = run[0]
        got.add((r, e['stage']))
        i = int(r[4])
        b = '%s_iter%d' % (outbase, i)
        x = dict(parfile=nm(b, 'pars'), bkgfile=nm(b, 'bkg'), zredfile=nm(b, 'zreds_master_table'), maskgalfile=nm(outbase, 'maskgals'), missing=[])
        if r.endswith('b'):
            x.update(zlambdafile=nm(b, 'zlambda'), centerclass=over['centerclass'], keepz=False, specmode=False)
            wc = W[niter]
        elif 'rand' in r:
            x.update(zlambdafile=None, centerclass='CenteringRandomSatellite' if 'randsat' in r else 'CenteringRandom', keepz=True, catfile=nm(b, 'sub_like'), cleaninput=True)
            wc = None
        else:
            x.update(zlambdafile=None, centerclass=over['firstpass_centerclass'] if i == 1 else 'CenteringWcenZred', keepz=True)
            wc = W.get(i - 1)
        if e['stage'] == 'firstpass':
            x.update(seedfile=nm(b + ('b' if r.endswith('b') else ''), 'specseeds'), specmode=not r.endswith('b'), cleaninput=True)
        else:
            x.pop('specmode', None)
        bad = {k: (e.get(k), v) for k, v in x.items() if e.get(k) != v}
        if wc is not None and not np.allclose(e['wcen'], wc, atol=1e-12):
            bad['wcen'] = (e['wcen'], wc)
        mon.check('inputs', not bad, stage=e['stage'], run=r, bad=bad, **w)
    want = set()
    for i in range(1, niter + 1):
        for s in ([''] if i > 1 else ['', '_rand', '_randsat']) + (['b'] if i == niter else []):
            want |= {('iter%d%s' % (i, s), q) for q in (['perc'] if 'rand' in s else ['firstpass', 'like', 'perc'])}
    mon.check('steps_expected', got == want, missing=sorted(want - got), extra=sorted(got - want), **w)
    # catalogues the workflow makes itself
    t, s = V['t'], V['seeds']
    final = V['inreg'] & (t['MASKFRAC'] < 0.2) & (t['LAMBDA'] / t['SCALEVAL'] > 3.0)
    lam = final & (t['LAMBDA'] > 3.0)
    near = np.array([np.any(skygen.sep(t['RA'][lam], t['DEC'][lam], a, b) < 0.5 / 3600.) for a, b in zip(s['ra'], s['dec'])]) if lam.any() else np.zeros(s.size, bool)
    if niter >= 1:
        c = fitsio.read(os.path.join(out, nm(outbase, 'cut_specseeds')), ext=1, lower=True)
        mon.check('cut_seeds', np.array_equal(np.sort(c['id']), np.sort(s['id'][near])), got=c.size, want=int(near.sum()), **w)
    sl = fitsio.read(os.path.join(out, nm(outbase + '_iter1', 'sub_like')), ext=1, lower=True)
    mon.check('sub_like', np.array_equal(np.sort(sl['tag']), np.sort(t['TAG'][lam])), got=sl.size, want=int(lam.sum()), **w)
    for i in list(range(1, niter + 1)) + ['%db' % niter]:
        b = '%s_iter%s' % (outbase, i)
        it = fitsio.read(os.path.join(out, nm(b, 'specseeds')), ext=1, lower=True)
        src = fitsio.read(os.path.join(out, nm(outbase, 'specseeds' if str(i).endswith('b') else 'specseeds_train' if i == 1 else 'cut_specseeds')), ext=1, lower=True)
        zz = fitsio.read(os.path.join(out, nm(b, 'specseeds_zreds')), ext=1, lower=True)
        ok = it.size == src.size == zz.size and all(np.array_equal(it[q], src[q]) for q in ('id', 'ra', 'dec', 'mag', 'z', 'refmag')) and np.array_equal(it['zred'], zz['zred']) \
            and np.array_equal(it['zred_e'], zz['zred_e']) and np.array_equal(it['zred_chisq'], zz['chisq'])
        mon.check('iter_seeds', ok, iteration=str(i), n=it.size, **w)
    # redshifts shown: corrected by this iteration's correction, cut in richness
    from redmapper import ZlambdaCorrectionPar
    for e in [x for x in ev if x['stage'] == 'plot']:
        fin = e['cat'].endswith('b_final.fit') and ('_iter%db_' % niter) in e['cat']
        c = fitsio.read(os.path.join(out, e['cat']), ext=1, lower=True)
        c = c[c['lambda'] > 20.]
        zp, ze = c['z_lambda'].astype(float), c['z_lambda_e'].astype(float)
        if not fin:
            zc = ZlambdaCorrectionPar(parfile=os.path.join(out, e['zl']), zlambda_pivot=30.0)
            r = [zc.apply_correction(float(a), float(b), float(q)) for a, b, q in zip(c['lambda'], zp, ze)]
            zp, ze = np.array([float(np.atleast_1d(x[0])[0]) for x in r]), np.array([float(np.atleast_1d(x[1])[0]) for x in r])
        mon.check('corrected', len(e['zp']) == c.size and np.allclose(e['zp'], zp, atol=2e-6) and np.allclose(e['ze'], ze, atol=2e-6) and np.allclose(e['zs'], c['z_spec_init'], atol=1e-7), n=c.size, got=e['zp'][:4], want=zp[:4],
                  catalogue=e['cat'], **w)
    # the configuration for the run
    yf = os.path.join(os.path.dirname(out), runname, 'run_default.yml')
    if not mon.check('run_config', os.path.isfile(yf), want=yf, **w):
        return
    y = yaml.safe_load(open(yf))
    b = '%s_iter%d' % (outbase, niter)
    want = dict(parfile=os.path.join(out, nm(b, 'pars')), zlambdafile=os.path.join(out, nm(b, 'zlambda')), wcenfile=os.path.join(out, nm(b, 'wcen')), bkgfile_color=os.path.join(out, nm(outbase, 'bkg_color')),
                maskgalfile=os.path.join(out, nm(outbase, 'maskgals')), redgalfile=os.path.join(out, nm(outbase, 'zspec_redgals')), redgalmodelfile=os.path.join(out, nm(outbase, 'zspec_redgals_model')),
                bkgfile=os.path.join(os.path.dirname(out), runname, nm(runbase, 'bkg')) if full else os.path.join(out, nm(b, 'bkg')), outbase=runbase, nside=0, hpix=[], border=0.0, catfile=None, seedfile=None, zmemfile=None, area=None,
                centerclass=over['centerclass'], calib_niter=niter, galfile=os.path.normpath(over['galfile']), specfile=os.path.normpath(over['specfile']))
    if reg[0] == 0:
        want['zredfile'] = os.path.join(out, b, nm(b, 'zreds_master_table'))
    else:
        want['zredfile'] = os.path.join(os.path.dirname(out), runname, 'zreds', os.path.basename(over['galfile']).replace('_master', '_zreds_master'))
    bad = {k: (y.get(k), v) for k, v in want.items() if (os.path.realpath(os.path.join(os.path.dirname(yf), y[k])) != os.path.realpath(v) if isinstance(v, str) and v.startswith('/') and isinstance(y.get(k), str) else y.get(k) != v)}
    mon.check('run_config', not bad, bad=bad, **w)
    src = yaml.safe_load(open(fn))
    cwd = os.getcwd()
    there = {k: os.path.realpath(os.path.join(os.path.dirname(fn) if not str(src[k]).startswith('/') else '/', src[k])) for k in ('depthfile',) if isinstance(src.get(k), str)}
    os.chdir(os.path.dirname(yf))
    try:
        c = Configuration(yf)
        bad = {k: (getattr(c, k), v) for k, v in there.items() if getattr(c, k) is None or os.path.realpath(getattr(c, k)) != v}
        for k in ('parfile', 'bkgfile', 'bkgfile_color', 'wcenfile', 'zlambdafile', 'maskgalfile', 'galfile', 'specfile', 'redgalfile', 'redgalmodelfile'):
            if not os.path.isfile(getattr(c, k)):
                bad[k] = getattr(c, k)
        bad.update({k: (getattr(c, k), over[k]) for k in ('calib_run_nproc', 'max_maskfrac', 'percolation_minlambda', 'calib_zlambda_minlambda', 'calib_make_full_bkg', 'firstpass_centerclass') if getattr(c, k) != over[k]})
        if not np.allclose([c.wcen_Delta0, c.wcen_Delta1, c.wcen_sigma_m, c.lnw_cen_mean, c.lnw_sat_sigma], W[niter], atol=1e-12):
            bad['wcen'] = c.wcen_Delta0
        mon.check('run_config_loads', not bad, bad=bad, **w)
    finally:
        os.chdir(cwd)


def tree(root):
    r = {}
    for p, _, fs in os.walk(root):
        for f in fs:
            fn = os.path.join(p, f)
            if f.endswith('.fit'):
                with fitsio.FITS(fn) as h:
                    r[os.path.relpath(fn, root)] = (crc(h[1].read()), tuple(sorted(set(x.get_extname() for x in h[1:]))))
            elif f == 'run_default.yml':
                r[os.path.relpath(fn, root)] = open(fn).read().replace(root, 'ROOT')
    return r


def k_flow(rng, case, mon, env, d):
    over, calname, outbase, niter, reg, rel = setup_case(rng, case, env, d)
    w = dict(niter=niter, reg=reg, calname=calname, outbase=outbase, rel=rel)
    with Stage():
        out, fn = start(env, d, 'A', calname, over, rel)
        calibrate(fn)
        ev = read_log()
        total = os.path.getsize(V['writes'])
        judge(mon, ev, out, fn, outbase, niter, over, reg, calname, w)
        keys = [(e['stage'], e['out']) for e in ev if e['stage'].startswith('done:')]
        mon.check('steps_once', len(keys) == len(set(keys)), repeated=[k for k in set(keys) if keys.count(k) > 1][:4], **w)
        ref = tree(os.path.join(d, 'A'))
        # started again when finished: nothing is done
        calibrate(fn)
        again = read_log()[len(ev):]
        mon.check('rerun_quiet', not again and tree(os.path.join(d, 'A')) == ref, again=[(e['stage'], e['out']) for e in again][:5], **w)
        mon.distinct('flow', niter, reg[0], calname, outbase, over['calib_make_full_bkg'], over['calib_run_nproc'], rel)
        # interrupted after the n-th write, once or more
        for rep in range(3 if env.tier == 'quick' else 6):
            V['log'], V['writes'] = os.path.join(d, 'log%d' % rep), os.path.join(d, 'writes%d' % rep)
            out, fn = start(env, d, 'B%d' % rep, calname, over, rel)
            at, attempts = [], 0
            n0 = 0
            while True:
                attempts += 1
                left = max(1, total - n0)
                V['stop'] = n0 + 1 + int(rng.randint(left)) if attempts <= 3 else None
                try:
                    calibrate(fn)
                    break
                except RuntimeError as e:
                    if 'injected' not in str(e):
                        mon.violation('resume_same', exception=repr(e), at=at, total=total, **w)
                        return
                    at.append(V['stop'])
                    n0 = os.path.getsize(V['writes'])
                except (OSError, KeyError, ValueError, IndexError, AttributeError, TypeError) as e:
                    mon.violation('resume_same', exception=repr(e), at=at, total=total, **w)
                    return
            V['stop'] = None
            got = tree(os.path.join(d, 'B%d' % rep))
            diff = [k for k in set(ref) | set(got) if ref.get(k) != got.get(k)]
            mon.check('resume_same', not diff, diff=sorted(diff)[:6], at=at, total=total, **w)
            keys = [(e['stage'], e['out']) for e in read_log() if e['stage'].startswith('done:')]
            mon.check('resume_no_repeat', len(keys) == len(set(keys)) or all(k[1].endswith('_zreds.fit') for k in set(keys) if keys.count(k) > 1), repeated=[k for k in set(keys) if keys.count(k) > 1][:4], at=at, **w)
            redo = [(e['stage'], e['out']) for e in read_log() if e.get('redo')]
            mon.check('resume_no_repeat', not redo, redone=redo[:4], at=at, **w)
            bad = [e for e in read_log() if e.get('missing')]
            mon.check('resume_same', not bad, missing=[(e['stage'], e['missing']) for e in bad][:3], at=at, **w)
            mon.distinct('resume', niter, reg[0], tuple(at))
            mon.event('interruptions', len(at))


def k_negative(rng, case, mon, env, d):
    """a correction that yields negative redshifts (for any of the clusters) stops the calibration; one that does not, does not."""
    over, calname, outbase, niter, reg, rel = setup_case(rng, case, env, d)
    t = V['t']
    u = np.where(V['inreg'] & (t['MASKFRAC'] < 0.2) & (t['LAMBDA'] > over['calib_minlambda']))[0]
    neg = case['j'] % 4 != 3
    V['shift'] = -0.1 if neg else 0.01
    t['Z_SPEC_INIT'] = np.maximum(t['Z_SPEC_INIT'], 0.3)
    if neg:
        # the one at 0.05 becomes about -0.05; the last in the catalogue (lowest likelihood: lowest tag) stays fine
        k = u[np.argsort(t['TAG'][u])]
        t['Z_SPEC_INIT'][k[int(rng.randint(1, k.size))] if k.size > 1 else k[0]] = 0.05
    with Stage():
        out, fn = start(env, d, 'A', calname, over, rel)
        try:
            calibrate(fn)
            err = None
        except RuntimeError as e:
            err = str(e)
        mon.check('negative_refused', (err is not None and 'negative' in err) == neg, error=err, neg=neg, n=u.size)
    mon.distinct('negative', neg, u.size)


def k_specred(rng, case, mon, env, d):
    """the real selection of red galaxies, interrupted after each of its writes."""
    from checks import c21_calibfit
    over, calname, outbase, niter, reg, rel = setup_case(rng, dict(case, region='eq'), env, d)
    master, g, sp = c21_calibfit.specred_sky(rng, d)[:3]
    for x in (V['seeds'], V['allseeds']):
        k = rng.permutation(g.size)[:x.size]
        x['ra'], x['dec'] = g['ra'][k], g['dec'][k]
    k = rng.permutation(V['seeds'].size)[:V['t'].size]
    V['t']['RA'], V['t']['DEC'] = V['seeds']['ra'][k], V['seeds']['dec'][k]
    V['t']['LAMBDA'], V['t']['MASKFRAC'] = 40., 0.
    over.update(galfile=master, hpix=None, nside=None, area=None, calib_niter=1, zrange=[0.1, 0.25], depthfile=None, specfile_train=os.path.join(d, 'spec.fit'), calib_redgal_template='bc03_colors_sdss.fit')
    with Stage(real=('SelectSpecRedGalaxies',)):
        out, fn = start(env, d, 'A', calname, over, rel)
        calibrate(fn)
        ref = tree(os.path.join(d, 'A'))
        nsp = len([k for k in ref if 'zspec_redgals' in k])
        for n in (1, 2, 3):
            V['log'], V['writes'] = os.path.join(d, 'log%d' % n), os.path.join(d, 'writes%d' % n)
            out, fn = start(env, d, 'B%d' % n, calname, over, rel)
            V['stop'] = n
            try:
                calibrate(fn)
                mon.violation('specred_resume', what='not interrupted', n=n)
            except RuntimeError as e:
                if 'injected' not in str(e):
                    raise
            V['stop'] = None
            try:
                calibrate(fn)
                err = None
            except (OSError, RuntimeError, ValueError, KeyError, AttributeError, TypeError) as e:
                err = repr(e)
            got = tree(os.path.join(d, 'B%d' % n))
            miss = [(e['stage'], e['missing']) for e in read_log() if e.get('missing')]
            mon.check('specred_resume', err is None and not miss and got == ref and nsp == 2, n=n, error=err, missing=miss[:3], diff=[k for k in set(ref) | set(got) if ref.get(k) != got.get(k)][:4])
    mon.distinct('specred', case['seed'])
