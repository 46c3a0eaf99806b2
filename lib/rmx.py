"""Helpers that build realistic redmapper inputs in scratch directories."""
import os
import numpy as np

_n = [0]


def test_yaml(env, d, **over):
    """The repository's test configuration with absolute paths, written below d."""
    import yaml
    with open(os.path.join(env.data, 'testconfig.yaml')) as f:
        y = yaml.safe_load(f)

    def fix(v):
        if isinstance(v, str) and v.startswith('./data_for_tests'):
            return env.data + v[len('./data_for_tests'):]
        if isinstance(v, list):
            return [fix(x) for x in v]
        return v
    y = {k: fix(v) for k, v in y.items()}
    y['outpath'] = d
    for k, v in over.items():
        if v is None:
            y.pop(k, None)
        else:
            y[k] = v
    _n[0] += 1
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, 'conf%d.yaml' % _n[0])
    with open(fn, 'w') as f:
        yaml.safe_dump(y, f)
    return fn


def test_config(env, d, **over):
    from redmapper import Configuration
    return Configuration(test_yaml(env, d, **over))


def maskgals(env, fn, **over):
    """Generate a maskgal file (the repository's own is missing)."""
    from redmapper import get_mask
    st = np.random.get_state()
    np.random.seed(4242)
    c = test_config(env, os.path.dirname(fn), **over)
    c.mask_mode = 0
    m = get_mask(c, include_maskgals=False)
    m.gen_maskgals(fn)
    np.random.set_state(st)
    return fn


def write_mask(fn, cov, nside, pix, val):
    import healsparse
    m = healsparse.HealSparseMap.make_empty(cov, nside, dtype=np.float32)
    m.update_values_pix(np.asarray(pix), np.asarray(val, dtype=np.float32))
    m.write(fn)


DEPTH_DT = [('fracgood', 'f4'), ('exptime', 'f4'), ('limmag', 'f4'), ('m50', 'f4')]


def write_depth(fn, cov, nside, pix, vals, nsig=10.0, zp=22.5, nband=1, w=0.0, eff=1.0):
    """vals: structured array of DEPTH_DT, pix nest-ordered."""
    import healsparse
    import fitsio
    m = healsparse.HealSparseMap.make_empty(cov, nside, dtype=DEPTH_DT, primary='fracgood')
    m.update_values_pix(np.asarray(pix), vals)
    hdr = fitsio.FITSHDR()
    for k, v in (('NSIG', nsig), ('ZP', zp), ('NBAND', nband), ('W', w), ('EFF', eff)):
        hdr[k] = v
    m.metadata = hdr
    m.write(fn)


BANDS = ['u', 'g', 'r', 'i', 'z']


def red_galaxies(rng, n, region, size, zr, zlo=0.06, zhi=0.55, blue=0.4, zfix=None, ra=None, dec=None, faint=21.4):
    """galaxies on (and off) the red sequence model zr, with five bands and reference band i."""
    import skygen
    g = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 5),
                           ('mag_err', 'f4', 5), ('ebv', 'f4'), ('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')])
    g['id'] = 1000 + rng.permutation(n)
    if ra is None:
        ra, dec = skygen.sky_points(rng, region, n, size)
    g['ra'], g['dec'] = ra, dec
    z = rng.uniform(zlo, zhi, n) if zfix is None else np.full(n, zfix)
    zi = np.atleast_1d(zr.zindex(z))
    ms = zr._mstar[zi]
    rm = np.minimum(ms + rng.uniform(-1.5, 1.9, n), faint - rng.uniform(0, 0.3, n))
    err = np.clip(0.005 * 10**(0.3 * (rm - 17)), 0.004, 0.2)
    mags = np.zeros((n, 5))
    mags[:, 3] = rm
    col = zr.c[zi, :] + zr.slope[zi, :] * (rm - zr.pivotmag[zi])[:, None]
    sg = np.sqrt(np.array([zr.covmat[j, j, zi] for j in range(4)]).T)
    col = col + rng.normal(size=(n, 4)) * np.minimum(sg, 0.3)
    off = rng.uniform(size=n) < blue
    col[off] -= rng.uniform(0.1, 0.6, (off.sum(), 4))
    for j in (2, 1, 0):
        mags[:, j] = mags[:, j + 1] + col[:, j]
    mags[:, 4] = mags[:, 3] - col[:, 3]
    g['refmag'], g['refmag_err'] = rm, err
    g['mag'] = mags + rng.normal(size=(n, 5)) * 0.01
    g['mag'][:, 3] = g['refmag']
    g['mag_err'] = err[:, None] * np.array([3., 1.5, 1., 1., 1.2])
    g['ztrue'] = z
    return g


def write_galtable(d, g, nside_tab, area=20.0, lim_ref=21.5, zreds=None, truth=True, b=None, zspec=False):
    """A pixelised galaxy table (and zred table) written with fitsio only; returns the file names and the pixels."""
    import fitsio
    import hpgeom as hpg
    os.makedirs(d, exist_ok=True)
    pix = hpg.angle_to_pixel(nside_tab, g['ra'], g['dec'], nest=False)
    hp = np.unique(pix)
    nmag = g['mag'].shape[1]
    dt = [('nside', 'i2'), ('hpix', 'i4', hp.size), ('ra_pix', 'f8', hp.size), ('dec_pix', 'f8', hp.size),
          ('ngals', 'i4', hp.size), ('filenames', 'S40', hp.size), ('lim_ref', 'f4'), ('ref_ind', 'i2'), ('area', 'f8'),
          ('nmag', 'i4'), ('mode', 'S10'), ('b', 'f8', nmag), ('zeropoint', 'f4'), ('has_truth', 'i2'), ('has_zspec', 'i2')]
    dt += [(bb + '_ind', 'i2') for bb in BANDS[:nmag]]
    t = np.zeros(1, dtype=dt)
    t['nside'], t['lim_ref'], t['ref_ind'], t['area'], t['nmag'], t['mode'] = nside_tab, lim_ref, 3, area, nmag, b'SDSS'
    t['zeropoint'], t['has_truth'], t['has_zspec'] = 22.5, truth, zspec
    if b is not None:
        t['b'][0] = b
    for i in range(nmag):
        t[BANDS[i] + '_ind'] = i
    t['hpix'][0] = hp
    t['ra_pix'][0], t['dec_pix'][0] = hpg.pixel_to_angle(nside_tab, hp, nest=False)
    t['ngals'][0] = [np.sum(pix == p) for p in hp]
    zt = np.zeros(1, dtype=[('nside', 'i2'), ('hpix', 'i4', hp.size), ('ngals', 'i4', hp.size), ('filenames', 'S40', hp.size)])
    zt['nside'], zt['hpix'][0], zt['ngals'][0] = nside_tab, hp, t['ngals'][0]
    h = fitsio.FITSHDR()
    h['PIXELS'] = 1
    h['FITS'] = 1
    for i, p in enumerate(hp):
        f, zf = 'g_%07d.fit' % p, 'g_zreds_%07d.fit' % p
        t['filenames'][0][i], zt['filenames'][0][i] = f.encode(), zf.encode()
        fitsio.write(os.path.join(d, f), g[pix == p])
        if zreds is not None:
            fitsio.write(os.path.join(d, zf), zreds[pix == p])
    master, zmaster = os.path.join(d, 'g_master_table.fit'), os.path.join(d, 'g_zreds_master_table.fit')
    fitsio.write(master, t, header=h)
    if zreds is not None:
        fitsio.write(zmaster, zt, header=h)
    return master, (zmaster if zreds is not None else None), pix


ZRED_DT = [('zred', 'f4'), ('zred_e', 'f4'), ('zred2', 'f4'), ('zred2_e', 'f4'), ('zred_uncorr', 'f4'), ('zred_uncorr_e', 'f4'),
           ('chisq', 'f4'), ('lkhd', 'f4')]


def zredstr(env, **kw):
    from redmapper import RedSequenceColorPar
    return RedSequenceColorPar(os.path.join(env.data, 'test_dr8_pars.fit'), **kw)
