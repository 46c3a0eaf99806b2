"""C20: a configuration means what its file and the galaxy file say, whatever was loaded before, and survives being written."""
import logging
import os
import numpy as np
import fitsio
import yaml
import rmx
import skygen

RULE = ('one configuration file with random options on a generated galaxy file (keyed by table or plain file, survey, number of bands, order of bands, options) '
        'loaded after other configurations, valid and invalid')
REQUIRED = {'stated_values': 40, 'defaults': 40, 'galaxy_file': 40, 'round_trip': 40, 'refused': 150, 'after_refusal': 100, 'file_names': 40, 'border': 40, 'wcen': 10, 'logging': 10,
            'area': 40, 'copies': 40, 'needed_files': 80}
BUDGET = {'quick': 300, 'thorough': 800}
ASSUMPTIONS = ['one configuration is in use at a time per process (its fields are shared by design)', 'yaml parses numbers as PyYAML does']
MODES = {'SDSS': 0, 'DES': 1, 'LSST': 2}


def plan(tier, seed):
    n = 150 if tier == 'quick' else 800
    return [{'pixels': bool(j % 3), 'seed': seed * 6011 + j} for j in range(n)]


def fields():
    from redmapper.configuration import Configuration, ConfigField
    return [k for k, v in vars(Configuration).items() if isinstance(v, ConfigField)]


def snap(c):
    out = {}
    for k in fields():
        v = getattr(c, k)
        out[k] = np.array(v) if isinstance(v, np.ndarray) else (list(v) if isinstance(v, (list, tuple)) else v)
    return out


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (np.ndarray, list)) or isinstance(b, (np.ndarray, list)):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (a.size == 0 or bool(np.all(a == b)))
    return a == b and isinstance(a, str) == isinstance(b, str)


def galfile(rng, d, pixels, want=None):
    """a galaxy file and what it says."""
    os.makedirs(d, exist_ok=True)
    bands = ['u', 'g', 'r', 'i', 'z', 'y'][(rng.randint(2)):][:rng.randint(3, 6)]
    bands = [str(x) for x in rng.permutation(bands)] if rng.uniform() < 0.3 else bands
    if rng.uniform() < 0.35:
        # names of more than one letter
        k = rng.randint(len(bands))
        bands[k] = str(rng.choice(['w1', 'ks', 'vis', 'i2']))
    nm = len(bands)
    t = dict(nmag=nm, bands=bands, mode=str(rng.choice(['SDSS', 'DES', 'LSST'])), area=float(rng.uniform(1, 500)), lim=float(np.float32(rng.uniform(20, 24))),
             zp=float(rng.choice([22.5, 30.0])), nside=int(rng.choice([8, 16, 32])), truth=bool(rng.randint(2)), zspec=bool(rng.randint(2)), b=None)
    n = 60
    g = skygen.galaxies(rng, n, nm, 'eq', 6., truth=t['truth'], zspec=t['zspec'])
    if not pixels:
        h = fitsio.FITSHDR()
        h['PIXELS'], h['FITS'], h['MODE'], h['AREA'], h['LIM_REF'], h['NMAG'], h['ZP'] = 0, 1, t['mode'], t['area'], t['lim'], nm, t['zp']
        h['REF_IND'] = 0
        for i, b in enumerate(bands):
            h[b.upper() + '_IND'] = i
        fn = os.path.join(d, 'gals.fit')
        fitsio.write(fn, g, header=h, clobber=True)
        t['nside'] = 0
        return fn, t
    import hpgeom as hpg
    pix = hpg.angle_to_pixel(t['nside'], g['ra'], g['dec'], nest=False)
    hp = np.unique(pix)
    flags, withb = rng.uniform() < 0.7, rng.uniform() < 0.7
    dt = [('nside', 'i2'), ('hpix', 'i4', (hp.size,)), ('ra_pix', 'f8', (hp.size,)), ('dec_pix', 'f8', (hp.size,)), ('ngals', 'i4', (hp.size,)), ('filenames', 'S40', (hp.size,)), ('lim_ref', 'f4'),
          ('ref_ind', 'i2'), ('area', 'f8'), ('nmag', 'i4'), ('mode', 'S10'), ('zeropoint', 'f4')] + [(x + '_ind', 'i2') for x in bands]
    if withb:
        dt.append(('b', 'f8', nm))
        t['b'] = rng.uniform(0, 1, nm)
    if flags:
        dt += [('has_truth', 'i2'), ('has_zspec', 'i2')]
    m = np.zeros(1, dtype=dt)
    for k, v in (('nside', t['nside']), ('lim_ref', t['lim']), ('area', t['area']), ('nmag', nm), ('mode', t['mode'].encode()), ('zeropoint', t['zp'])):
        m[k] = v
    for i, b in enumerate(bands):
        m[b + '_ind'] = i
    if withb:
        m['b'][0] = t['b']
    if flags:
        m['has_truth'], m['has_zspec'] = t['truth'], t['zspec']
    m['hpix'][0] = hp
    for i, p in enumerate(hp):
        f = 'g_%07d.fit' % p
        m['filenames'][0][i] = f.encode()
        m['ngals'][0][i] = np.sum(pix == p)
        fitsio.write(os.path.join(d, f), g[pix == p], clobber=True)
    h = fitsio.FITSHDR()
    h['PIXELS'], h['FITS'] = 1, 1
    fn = os.path.join(d, 'g_master_table.fit')
    fitsio.write(fn, m, header=h, clobber=True)
    return fn, t


def write(d, y, tag):
    fn = os.path.join(d, 'c_%s.yml' % tag)
    with open(fn, 'w') as f:
        yaml.safe_dump(y, f)
    return fn


def base(d, fn, t):
    nc = t['nmag'] - 1
    return {'galfile': fn, 'outbase': 'tst', 'outpath': os.path.join(d, 'out'), 'refmag': t['bands'][min(2, nc)], 'zrange': [0.1, 0.5], 'calib_color_nodesizes': [0.05] * nc,
            'calib_slope_nodesizes': [0.1] * nc, 'calib_color_maxnodes': [-1.0] * nc, 'calib_covmat_maxnodes': [-1.0] * nc}


def options(rng, t, d):
    """random valid options."""
    pool = {'chisq_max': float(rng.uniform(10, 30)), 'npzbins': int(rng.choice([11, 21, 31])), 'percolation_maxcen': int(rng.choice([1, 3, 5, 7])), 'zlambda_maxiter': int(rng.randint(1, 30)),
            'percolation_rmask_0': float(rng.uniform(0.5, 2)), 'percolation_rmask_beta': float(rng.uniform(0, 0.4)), 'zlambda_tol': 1e-5 * int(rng.randint(1, 90)), 'border': float(rng.uniform(0, 3)),
            'bkg_local_annuli': [1.5, float(rng.uniform(1.6, 4))], 'consolidate_lambda_cuts': [float(x) for x in rng.uniform(5, 50, rng.randint(1, 4))],
            'consolidate_vlim_lstars': [float(x) for x in rng.uniform(0.1, 5, rng.randint(0, 3))], 'calib_colormem_zbounds': [0.3, 0.6], 'calib_colormem_colormodes': [0, 1, 1],
            'calib_colormem_sigint': [0.05, 0.04, 0.03], 'redmagic_names': ['a', 'b'], 'redmagic_etas': [0.5, 1.0], 'redmagic_n0s': [10.0, 4.0], 'redmagic_zmaxes': [0.4, 0.45],
            'redmagic_zrange': [0.15, 0.45], 'maskgal_nsamples': int(rng.randint(1, 200)), 'centerclass': str(rng.choice(['CenteringBCG', 'CenteringWcenZred'])), 'limmag_catalog': float(rng.uniform(20, 24)),
            'percolation_lmask': float(rng.uniform(-1, 0.3)), 'zred_nsamp': int(rng.randint(1, 6)), 'specfile': 'specs.fit', 'calib_nproc': int(rng.randint(1, 9)), 'select_scaleval': bool(rng.randint(2)),
            'printlogging': True, 'rsig': float(rng.uniform(0.01, 0.1)), 'vlim_depthfiles': ['x.hsp', 'y.hsp'], 'vlim_bands': [t['bands'][0], t['bands'][-1]], 'vlim_nsigs': [5.0, 3.0], 'mask_mode': 3,
            'maskfile': 'm.hsp', 'zlambdafile': 'zz: [odd] #name.fit', 'hpix': [int(rng.randint(0, 100))], 'nside': 8, 'area': float(rng.uniform(1, 300)), 'calib_color_pcut': float(rng.uniform(0, 1)),
            'wcen_cal_zrange': [0.1, float(rng.uniform(0.2, 0.6))], 'redmagicfile': 'rm.fit', 'seedfile': "it's.fit", 'plotpath': 'plots'}
    groups = [('calib_colormem_zbounds', 'calib_colormem_colormodes', 'calib_colormem_sigint'), ('redmagic_names', 'redmagic_etas', 'redmagic_n0s', 'redmagic_zmaxes'),
              ('vlim_depthfiles', 'vlim_bands', 'vlim_nsigs'), ('mask_mode', 'maskfile'), ('hpix', 'nside', 'area')]
    tied = {k for gr in groups for k in gr}
    y = {k: v for k, v in pool.items() if k not in tied and rng.uniform() < 0.5}
    for gr in groups:
        if rng.uniform() < 0.5:
            y.update({k: pool[k] for k in gr})
    if t['truth'] and rng.uniform() < 0.5:
        y['has_truth'] = True
    if t['zspec'] and rng.uniform() < 0.5:
        y['centering_use_zspec'] = True
    if rng.uniform() < 0.3 and 'area' not in y:
        y['area'] = pool['area'] if rng.uniform() < 0.7 else t['area']
    return y


DERIVED = {'galfile_pixelized', 'nmag', 'limmag_ref', 'ref_ind', 'zeropoint', 'survey_mode', 'b', 'galfile_nside', 'bands', 'galfile_has_truth', 'galfile_has_zspec', 'area', 'limmag_catalog', 'specfile_train',
           'redmagic_zrange', 'wcen_Delta0', 'wcen_Delta1'}


def bad_ones(rng, y, t, d):
    """(name, configuration) that have to be refused."""
    def w(**kw):
        q = dict(y)
        q.update(kw)
        return {k: v for k, v in q.items() if v is not Ellipsis}
    nc = t['nmag'] - 1
    out = [('unknown option', w(percolation_rmask0=1.0)), ('no galaxy file', w(galfile=...)), ('no output base', w(outbase=...)), ('no redshift range', w(zrange=...)), ('no reference band', w(refmag=...)),
           ('three redshifts', w(zrange=[0.1, 0.2, 0.3])), ('one redshift', w(zrange=[0.3])), ('node sizes', w(calib_color_nodesizes=[0.05] * (nc + 1))), ('slope nodes', w(calib_slope_nodesizes=[0.05] * (nc - 1))),
           ('max nodes', w(calib_covmat_maxnodes=[-1.0] * (nc + 1))), ('colour modes', w(calib_colormem_zbounds=[0.3], calib_colormem_colormodes=[1], calib_colormem_sigint=[0.05, 0.03])),
           ('sigint', w(calib_colormem_zbounds=[0.3], calib_colormem_colormodes=[1, 2], calib_colormem_sigint=[0.05])),
           ('redmagic sizes', w(redmagic_names=['a', 'b'], redmagic_etas=[0.5], redmagic_n0s=[1.0, 2.0], redmagic_zmaxes=[0.4, 0.4])),
           ('redmagic densities', w(redmagic_names=['a'], redmagic_etas=[0.5], redmagic_n0s=[1.0, 2.0], redmagic_zmaxes=[0.4])),
           ('vlim bands', w(vlim_depthfiles=['x.hsp'], vlim_bands=[], vlim_nsigs=[5.0])), ('vlim nsigs', w(vlim_depthfiles=['x.hsp'], vlim_bands=[t['bands'][0]], vlim_nsigs=[5.0, 3.0])),
           ('vlim band unknown', w(vlim_depthfiles=['x.hsp'], vlim_bands=['q'], vlim_nsigs=[5.0])), ('annuli', w(bkg_local_annuli=[3.0, 2.0])), ('three annuli', w(bkg_local_annuli=[1.0, 2.0, 3.0])),
           ('mask without mode', w(maskfile='m.hsp', mask_mode=0)), ('reference band not there', w(refmag='q')), ('galaxy file not there', w(galfile=os.path.join(d, 'nope.fit'))),
           ('sub-region without area', w(hpix=[3], nside=8, area=..., depthfile=...))]
    if not t['truth']:
        out.append(('no truth', w(has_truth=True)))
    if not t['zspec']:
        out.append(('no zspec', w(centering_use_zspec=True)))
    return out


def comoving(z, om=0.3):
    x = np.linspace(0, z, 4001)
    return np.trapz(1. / np.sqrt(om * (1 + x)**3 + 1 - om), x) * 299792.458 / 100.


_first = {}


def run_case(case, mon, env):
    from redmapper import Configuration
    rng = np.random.RandomState(case['seed'] % 2**31)
    d = env.tmp()
    # what a bare configuration looks like in this process before anything else
    if not _first:
        r0 = np.random.RandomState(5)
        dd = os.path.join(env.shared, 'bare%d' % os.getpid())
        fn, t = galfile(r0, dd, True)
        _first['y'] = write(dd, dict(base(dd, fn, t), outpath=os.path.join(dd, 'out')), 'bare')
        _first['v'] = snap(Configuration(_first['y']))
        _first['dir'] = dd
    fn, t = galfile(rng, os.path.join(d, 'g'), case['pixels'])
    y = dict(base(d, fn, t), **options(rng, t, d))
    wit = dict(pixels=case['pixels'], bands=t['bands'], options=sorted(set(y) - set(base(d, fn, t))))
    c = Configuration(write(d, y, 'one'))
    s = snap(c)
    # everything the file says
    wrong = {k: (s[k], v) for k, v in y.items() if not same(s[k], np.atleast_1d(v) if isinstance(s[k], np.ndarray) else v) and k != 'area'}
    mon.check('stated_values', not wrong, wrong=wrong, **wit)
    # everything it does not say
    v0 = _first['v']
    wrong = {k: (s[k], v0[k]) for k in s if k not in y and k not in DERIVED and not same(s[k], v0[k])}
    mon.check('defaults', not wrong, wrong=wrong, **wit)
    g = dict(galfile_pixelized=case['pixels'], nmag=t['nmag'], limmag_ref=t['lim'], ref_ind=t['bands'].index(y['refmag']), zeropoint=t['zp'], survey_mode=MODES[t['mode']], galfile_nside=t['nside'],
             bands=t['bands'], galfile_has_truth=t['truth'], galfile_has_zspec=t['zspec'])
    wrong = {k: (s[k], v) for k, v in g.items() if not (np.isclose(s[k], v, rtol=1e-6) if isinstance(v, float) else same(np.asarray(s[k]) if isinstance(v, list) else s[k], v))}
    if not (s['b'] is None if t['b'] is None else np.allclose(s['b'], t['b'])):
        wrong['b'] = (s['b'], t['b'])
    if 'limmag_catalog' not in y and not np.isclose(s['limmag_catalog'], t['lim']):
        wrong['limmag_catalog'] = s['limmag_catalog']
    mon.check('galaxy_file', not wrong, wrong=wrong, **wit)
    mon.check('defaults', s['specfile_train'] == y.get('specfile', y.get('specfile_train')), got=s['specfile_train'], **wit)
    mon.check('defaults', same(s['redmagic_zrange'], np.array(y.get('redmagic_zrange', y['zrange']))), got=s['redmagic_zrange'], **wit)
    mon.check('area', np.isclose(s['area'], y.get('area', t['area']), atol=1.1e-3), got=s['area'], stated=y.get('area'), galaxies=t['area'], **wit)
    mon.check('area', np.isclose(c.galfile_area, t['area']), got=c.galfile_area, **wit)
    mon.check('galaxy_file', os.path.isdir(c.outpath) and os.path.isdir(os.path.join(c.outpath, c.plotpath)), what='output paths', **wit)
    # columns of the catalogues
    cd = np.dtype(c.cluster_dtype)
    md = np.dtype(c.member_dtype)
    mon.check('galaxy_file', cd['MAG'].shape == (t['nmag'],) and md['MAG_ERR'].shape == (t['nmag'],) and cd['PZ'].shape == (s['npzbins'],) and cd['PZBINS'].shape == (s['npzbins'],) and
              all(cd[x].shape == ((s['percolation_maxcen'],) if s['percolation_maxcen'] != 1 or cd[x].shape else ()) for x in ('RA_CENT', 'ID_CENT', 'P_CEN', 'P_SAT')), what='catalogue columns', **wit)
    # names
    nm = c.redmapper_filename('abc')
    ok = nm == os.path.join(y['outpath'], 'tst_abc.fit') and c.redmapper_filename('abc', filetype='png', paths=('p', 'q')) == os.path.join(y['outpath'], 'p', 'q', 'tst_abc.png')
    ok = ok and c.redmapper_filename('abc', withversion=True) == os.path.join(y['outpath'], 'tst_redmapper_v%s_abc.fit' % c.version) and c.redmapper_filename('abc', outbase='zz') == os.path.join(y['outpath'], 'zz_abc.fit')
    try:
        c.redmapper_filename('abc', paths='p')
        ok = False
    except ValueError:
        pass
    mon.check('file_names', ok and c.redmapper_filename('abc') == nm, got=nm, **wit)
    # the border reaches past the largest cluster that could hide galaxies
    zlo = float(s['zrange'][0])
    reach = s['percolation_rmask_0'] * 3.0**s['percolation_rmask_beta'] / (np.radians(1.) * comoving(zlo) / (1 + zlo))
    b = float(c.compute_border())
    mon.check('border', 3 * reach <= b <= 3.3 * reach, got=b, reach=reach, **wit)
    zc = c.zrange_cushioned
    mon.check('border', np.isclose(zc[0], max(zlo - s['calib_zrange_cushion'], 0.05)) and np.isclose(zc[1], s['zrange'][1] + s['calib_zrange_cushion']) and same(c.zrange, s['zrange']), got=zc, **wit)
    # a copy with its own region and base
    from redmapper.configuration import DuplicatableConfig
    c2 = c.copy()
    c2.d = DuplicatableConfig(c2)
    c2.d.hpix, c2.d.nside, c2.d.outbase = [7], 4, 'other'
    mon.check('copies', same(c.d.hpix, s['hpix']) and c.d.nside == s['nside'] and c.d.outbase == 'tst' and c.redmapper_filename('abc') == nm and
              c2.redmapper_filename('abc') == os.path.join(y['outpath'], 'other_abc.fit'), **wit)
    # written and read back, twice
    f1, f2 = os.path.join(d, 'w1.yml'), os.path.join(d, 'w2.yml')
    c.output_yaml(f1)
    now = snap(c)
    mon.check('round_trip', all(same(now[k], s[k]) for k in s), what='writing changed the configuration', **wit)
    r1 = Configuration(f1)
    q1 = snap(r1)
    wrong = {k: (q1[k], s[k]) for k in s if not same(q1[k], s[k])}
    mon.check('round_trip', not wrong, wrong=wrong, **wit)
    r1.output_yaml(f2)
    mon.check('round_trip', open(f1).read() == open(f2).read(), **wit)
    alt = Configuration(f1, outpath=os.path.join(d, 'elsewhere'))
    mon.check('round_trip', alt.outpath == os.path.join(d, 'elsewhere') and os.path.isdir(alt.outpath) and alt.redmapper_filename('abc') == os.path.join(d, 'elsewhere', 'tst_abc.fit'), **wit)
    # refusals leave nothing behind
    for name, q in [x for x in bad_ones(rng, y, t, d) if rng.uniform() < 0.35]:
        fnb = write(d, q, 'bad')
        try:
            Configuration(fnb)
            mon.check('refused', False, bad=name, **wit)
        except Exception as e:
            mon.check('refused', not isinstance(e, (SystemExit, KeyboardInterrupt)), bad=name)
        a = snap(Configuration(_first['y']))
        wrong = {k: (a[k], v0[k]) for k in v0 if not same(a[k], v0[k])}
        mon.check('after_refusal', not wrong, bad=name, wrong=wrong, **wit)
    # calibrated centring values
    if rng.uniform() < 0.5:
        names = ['delta0', 'delta1', 'sigma_m', 'pivot', 'lnw_fg_mean', 'lnw_fg_sigma', 'lnw_sat_mean', 'lnw_sat_sigma', 'lnw_cen_mean', 'lnw_cen_sigma']
        phi = rng.uniform() < 0.6
        names += ['phi1_mmstar_m', 'phi1_mmstar_slope', 'phi1_msig_m', 'phi1_msig_slope'] if phi else []
        wv = np.zeros(1, dtype=[(x, 'f8') for x in names])
        for x in names:
            wv[x] = rng.uniform(-2, 2)
        wf = os.path.join(d, 'wcen.fit')
        fitsio.write(wf, wv, clobber=True)
        c = Configuration(write(d, dict(y, wcenfile=wf), 'wcen'))
        wrong = {x: (getattr(c, x if x.startswith(('lnw', 'phi1')) else 'wcen_' + x.replace('delta', 'Delta')), wv[x][0]) for x in names
                 if getattr(c, x if x.startswith(('lnw', 'phi1')) else 'wcen_' + x.replace('delta', 'Delta')) != wv[x][0]}
        mon.check('wcen', not wrong, wrong=wrong, **wit)
        c = Configuration(write(d, dict(y, wcenfile=os.path.join(d, 'not_made_yet.fit')), 'wcen2'))
        mon.check('wcen', c.lnw_cen_mean == v0['lnw_cen_mean'] and c.wcen_pivot == v0['wcen_pivot'] and c.phi1_mmstar_m == v0['phi1_mmstar_m'], what='file not there yet', **wit)
    # logging to a file
    if rng.uniform() < 0.5:
        q = dict(y, printlogging=False)
        if rng.uniform() < 0.5:
            q.update(hpix=[12], nside=8, area=10.0)
        else:
            q.pop('hpix', None), q.pop('nside', None)
        c = Configuration(write(d, q, 'log'))
        given = rng.uniform() < 0.4
        quiet = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        prop, c.logger.propagate, lev = c.logger.propagate, False, c.logger.level
        c.logger.setLevel(logging.INFO)
        for rep in (0, 1):
            c.start_file_logging(**({'filename': 'my.log'} if given else {}))
            c.start_file_logging(**({'filename': 'my.log'} if given else {}))
            c.logger.info('line %d of %d' % (rep, case['seed']))
            c.stop_file_logging()
            c.logger.info('not for the file')
        ld = os.path.join(c.outpath, c.logpath)
        fs = [f for f in (os.listdir(ld) if os.path.isdir(ld) else [])]
        txt = open(os.path.join(ld, fs[0])).read() if len(fs) == 1 else ''
        mon.check('logging', len(fs) == 1 and (fs[0] == 'my.log') == given and all(txt.count('line %d of %d' % (r, case['seed'])) == 1 for r in (0, 1)) and 'not for the file' not in txt,
                  files=fs, text=txt[:300], given=given, hpix=q.get('hpix'), **wit)
        logging.disable(quiet)
        c.logger.propagate = prop
        c.logger.setLevel(lev)
    # asking for the files a run needs
    fl = {k: os.path.join(d, 'need_%s.fit' % k) for k in ('zredfile', 'bkgfile', 'parfile', 'zlambdafile', 'randfile')}
    c = Configuration(write(d, dict(y, **fl), 'need'))
    gone = [k for k in fl if rng.uniform() < 0.25]
    exts = [e for e in ('CHISQBKG', 'ZREDBKG') if rng.uniform() < 0.75]
    for k, f in fl.items():
        if k not in gone:
            with fitsio.FITS(f, 'rw', clobber=True) as fh:
                fh.write(np.zeros(3, dtype=[('a', 'f4')]), extname='FIRST' if k == 'bkgfile' and not exts else (exts[0] if k == 'bkgfile' else 'X'))
                if k == 'bkgfile':
                    for e in exts[1:]:
                        fh.write(np.zeros(3, dtype=[('a', 'f4')]), extname=e)
    for _ in range(4):
        ask = {k: bool(rng.randint(2)) for k in list(fl) + ['bkgfile_components']}
        bad = any(ask[k] for k in gone) or (ask['bkgfile_components'] and ('bkgfile' in gone or len(exts) < 2))
        err = None
        try:
            c.check_files(**{'check_' + k: v for k, v in ask.items() if v or rng.randint(2)})
        except Exception as e:
            err = e
        mon.check('needed_files', bad == (err is not None), asked=[k for k in ask if ask[k]], gone=gone, extensions=exts, error=str(err), **wit)
    mon.distinct('config', case['pixels'], t['mode'], tuple(t['bands']), len(y), t['b'] is None)
    mon.sample({'options': len(y), 'bands': t['bands'], 'pixels': case['pixels']})
