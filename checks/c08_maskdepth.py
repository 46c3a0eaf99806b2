"""C08: mask and depth lookups, areas and the mask correction describe the survey maps exactly."""
import os
import numpy as np
import fitsio
import hpgeom as hpg
from scipy.special import erf
from scipy.stats import chi2
import rmx
import skygen

RULE = ('one generated survey map and batch of positions, keyed by (map kind, sky region, nside, coverage nside, sub-region, border, '
        'coverage class) or one mask correction keyed by (mask class, depth class, magnitudes)')
REQUIRED = {'mask_lookup': 20, 'mask_frequency': 3, 'depth_lookup': 20, 'subregion_lookup': 20, 'area_uniform': 10,
            'area_total': 10, 'maskcorr': 10, 'maskdepth': 10, 'conversion': 4, 'maskgals_consistent': 4, 'radmask_positions': 10}
BUDGET = {'quick': 600, 'thorough': 2700}
ASSUMPTIONS = ['hpgeom pixel assignment and healsparse storage are correct']
UN = hpg.UNSEEN


def matches_finding(f, v):
    if f['id'] == 'F-C08-1':
        return v['monitor'] in ('area_nonuniform',) and v['witness'].get('as_found') is True
    if f['id'] == 'F-C08-2':
        return v['monitor'] == 'area_single_pixel' and 'IndexError' in v['witness'].get('exception', '')
    return False


def plan(tier, seed):
    n = 30 if tier == 'quick' else 300
    regs = sorted(skygen.REGIONS)
    out = []
    for j in range(n):
        out.append({'kind': 'mask', 'region': regs[j % len(regs)], 'seed': seed * 3571 + j})
        out.append({'kind': 'depth', 'region': regs[j % len(regs)], 'seed': seed * 3571 + 10000 + j})
    out += [{'kind': 'corr', 'region': regs[j % len(regs)], 'seed': seed * 3571 + 20000 + j} for j in range(3 * n)]
    out += [{'kind': 'maskgals', 'seed': seed * 3571 + 30000 + j} for j in range(max(4, n // 8))]
    out += [{'kind': 'convert', 'region': regs[j % len(regs)], 'seed': seed * 3571 + 40000 + j} for j in range(max(4, n // 5))]
    out += [{'kind': 'area1', 'region': 'eq', 'seed': seed * 3571 + 50000}]
    return out


def prepare(env):
    rmx.maskgals(env, os.path.join(env.shared, 'maskgals.fit'))


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    d = env.tmp()
    globals()[case['kind']](rng, case, mon, env, d)


def pixel_map(rng, region, nside, size):
    """a random set of nest pixels around a region's centre."""
    ra, dec = skygen.sky_points(rng, region, 4000, size)
    pix = np.unique(hpg.angle_to_pixel(nside, ra, dec, nest=True))
    return pix[rng.uniform(size=pix.size) < rng.choice([1.0, 0.7])]


def test_points(rng, region, nside, pix, size):
    ra, dec = skygen.sky_points(rng, region, 800, size * 1.3)
    r2, d2 = hpg.pixel_to_angle(nside, rng.choice(pix, min(400, pix.size)), nest=True)
    # far away and in-pixel points
    r3, d3 = rng.uniform(0, 360, 100), np.degrees(np.arcsin(rng.uniform(-1, 1, 100)))
    ra, dec = np.concatenate([ra, r2, r3]), np.concatenate([dec, d2, d3])
    return ra, dec


def geometry(rng, region):
    nside = int(rng.choice([128, 512, 1024]))
    cov = int(rng.choice([16, 32, 64]))
    size = {128: 12., 512: 4., 1024: 2.}[nside]
    return nside, cov, size


def subregion(rng, region, ra, dec):
    """(nside, pixels, border, index of the points inside region plus border)"""
    sub = int(rng.choice([4, 8, 16, 32, 64, 128]))
    border = float(rng.choice([0.0, 0.2, 1.0]))
    k = rng.randint(800, ra.size - 100)      # a position inside the map
    hp = int(hpg.angle_to_pixel(sub, ra[k], dec[k], nest=False))
    hp = [hp]
    if border == 0.0 and rng.uniform() < 0.6:
        # a region may be made of several pixels
        for k in rng.randint(0, ra.size, 2):
            h2 = int(hpg.angle_to_pixel(sub, ra[k], dec[k], nest=False))
            if h2 not in hp:
                hp.append(h2)
    inside = np.isin(hpg.angle_to_pixel(sub, ra, dec, nest=False), hp)
    if border > 0:
        # points certainly within the border: distance to a densely sampled boundary
        for h in hp:
            br, bd = hpg.boundaries(sub, h, step=64, nest=False, lonlat=True)
            dmin = np.min(skygen.sep(ra[:, None], dec[:, None], np.atleast_1d(br)[None, :], np.atleast_1d(bd)[None, :]), axis=1)
            inside |= dmin < border
    return sub, hp, border, np.where(inside)[0]


def lookup(nside, pix, val, ra, dec, fill):
    """independent dictionary lookup of map values at positions."""
    p = hpg.angle_to_pixel(nside, ra, dec, nest=True)
    st = np.argsort(pix)
    k = np.clip(np.searchsorted(pix[st], p), 0, pix.size - 1)
    hit = pix[st][k] == p
    out = np.where(hit, val[st][k], fill)
    return out


def mask(rng, case, mon, env, d):
    from redmapper import get_mask
    nside, cov, size = geometry(rng, case['region'])
    pix = pixel_map(rng, case['region'], nside, size)
    cls = rng.choice(['binary', 'fraction'])
    val = np.where(rng.uniform(size=pix.size) < 0.8, 1.0, 0.0) if cls == 'binary' else rng.uniform(0.05, 1.0, pix.size)
    val = val.astype('f4')
    fn = os.path.join(d, 'mask.hsp')
    rmx.write_mask(fn, cov, nside, pix, val)
    cfg = rmx.test_config(env, d, maskfile=fn, mask_mode=3)
    m = get_mask(cfg, include_maskgals=False)
    ra, dec = test_points(rng, case['region'], nside, pix, size)
    want = lookup(nside, pix, val.astype('f8'), ra, dec, 0.0)
    if cls == 'binary':
        got = m.compute_radmask(ra, dec)
        mon.check('mask_lookup', got.dtype == bool and np.array_equal(got, want == 1.0),
                  bad=np.where(got != (want == 1.0))[0][:5], region=case['region'])
    else:
        nrep = 60
        cnt = np.zeros(ra.size)
        for _ in range(nrep):
            cnt += m.compute_radmask(ra, dec)
        mon.check('mask_lookup', np.all(cnt[want == 0] == 0) and np.all(cnt[want == 1] == nrep))
        # frequency of the accepted draws follows the coverage fraction, overall and in quartiles
        qs = np.digitize(want, [0.05, 0.3, 0.6, 0.85])
        for q in range(1, 5):
            s = qs == q
            if s.sum() > 30:
                mu, var = nrep * want[s].sum(), nrep * np.sum(want[s] * (1 - want[s]))
                mon.check('mask_frequency', abs(cnt[s].sum() - mu) < 6 * np.sqrt(var) + 1, got=cnt[s].sum(), want=mu, sd=np.sqrt(var))
    # sub-region read of the same mask
    sub, hp, border, ins = subregion(rng, case['region'], ra, dec)
    cfg.d.hpix, cfg.d.nside, cfg.border = hp, sub, border
    m2 = get_mask(cfg, include_maskgals=False)
    if ins.size:
        if cls == 'binary':
            got2 = m2.compute_radmask(ra[ins], dec[ins])
            mon.check('subregion_lookup', np.array_equal(got2, want[ins] == 1.0), sub=sub, hp=hp, border=border, cov=cov,
                      bad=ins[got2 != (want[ins] == 1.0)][:5])
        else:
            v = np.clip(m2.sparse_fracgood.get_values_pos(ra[ins], dec[ins], lonlat=True), 0, None)
            mon.check('subregion_lookup', np.array_equal(v, want[ins].astype('f4')), sub=sub, hp=hp, border=border, cov=cov)
    mon.distinct('mask', case['region'], nside, cov, sub, border > 0, cls, len(hp))
    mon.sample({'mask': cls, 'nside': nside, 'positions': int(ra.size), 'inside_subregion': int(ins.size)})
    # no mask: everything is inside; wrong lengths rejected
    cfg0 = rmx.test_config(env, d, mask_mode=0, maskfile=None)
    m0 = get_mask(cfg0, include_maskgals=False)
    mon.check('mask_lookup', np.all(m0.compute_radmask(ra, dec)))
    for mm in (m, m0):
        try:
            mm.compute_radmask(ra, dec[:-1])
            mon.check('length_rejected', False)
        except ValueError:
            mon.check('length_rejected', True)


def depth_map(rng, region, uniform):
    nside, cov, size = geometry(rng, region)
    pix = pixel_map(rng, region, nside, size)
    v = np.zeros(pix.size, dtype=rmx.DEPTH_DT)
    v['fracgood'] = 1.0 if uniform else rng.uniform(0.05, 1, pix.size)
    v['limmag'] = rng.uniform(19.5, 22.5, pix.size)
    v['exptime'] = rng.uniform(20, 200, pix.size)
    v['m50'] = v['limmag'] + rng.uniform(0, 0.3, pix.size).astype('f4')
    return nside, cov, size, pix, v


def depth(rng, case, mon, env, d):
    from redmapper import DepthMap
    uniform = bool(rng.randint(2))
    nside, cov, size, pix, v = depth_map(rng, case['region'], uniform)
    fn = os.path.join(d, 'depth.hsp')
    rmx.write_depth(fn, cov, nside, pix, v)
    cfg = rmx.test_config(env, d, depthfile=fn)
    dm = DepthMap(cfg)
    ra, dec = test_points(rng, case['region'], nside, pix, size)
    dec2 = dec.copy()
    bad = rng.choice(ra.size, 20, replace=False)
    dec2[bad] = np.sign(dec2[bad] + 1e-9) * rng.uniform(90.001, 93, 20)
    decq = np.clip(dec2, -90, 90)
    lim, exp, m50 = dm.get_depth_values(ra, dec2)
    frac = dm.get_fracgoods(ra, dec2)
    for nm, got in (('limmag', lim), ('exptime', exp), ('m50', m50)):
        want = lookup(nside, pix, v[nm], ra, decq, np.float32(UN))
        want[bad] = UN
        mon.equal('depth_lookup', got, want.astype('f4'), column=nm, region=case['region'], nside=nside, cov=cov)
    want = lookup(nside, pix, v['fracgood'], ra, decq, np.float32(UN))
    want[bad] = 0.0
    mon.check('depth_lookup', np.array_equal(np.clip(frac, 0, None), np.clip(want, 0, None).astype('f4')), column='fracgood')
    # areas
    pa = hpg.nside_to_pixel_area(nside, degrees=True)
    mags = np.sort(rng.uniform(19, 23.2, 40))
    got = dm.calc_areas(mags)
    areas(mon, rng, got, mags, v['m50'], v['fracgood'], pa, uniform, 'full')
    # sub region
    sub, hp, border, ins = subregion(rng, case['region'], ra, dec)
    cfg.d.hpix, cfg.d.nside, cfg.border = hp, sub, border
    dm2 = DepthMap(cfg)
    if ins.size:
        l2 = dm2.get_depth_values(ra[ins], dec[ins])
        for nm, g in zip(('limmag', 'exptime', 'm50'), l2):
            w = lookup(nside, pix, v[nm], ra[ins], dec[ins], np.float32(UN))
            mon.equal('subregion_lookup', g, w.astype('f4'), sub=sub, hp=hp, border=border, cov=cov)
    r, dd = hpg.pixel_to_angle(nside, pix, nest=True)
    s = np.isin(hpg.angle_to_pixel(sub, r, dd, nest=False), hp)
    try:
        if border > 0.0 or s.sum() != 1:        # one valid pixel: see area1
            got = dm2.calc_areas(mags)
            mon.check('area_border_rejected', border == 0.0)
            if border == 0.0:
                areas(mon, rng, got, mags, v['m50'][s], v['fracgood'][s], pa, uniform, 'sub')
    except RuntimeError:
        mon.check('area_border_rejected', border > 0.0)
    mon.distinct('depth', case['region'], nside, cov, sub, border > 0, uniform, len(hp))
    mon.sample({'depth': nside, 'pixels': int(pix.size), 'areas': got[:4]})
    # a map flagged as constant area
    fn2 = os.path.join(d, 'depthw.hsp')
    rmx.write_depth(fn2, cov, nside, pix, v, w=-1.0)
    cfg.d.hpix, cfg.d.nside, cfg.border = [], 0, 0.0
    dm3 = DepthMap(cfg, depthfile=fn2)
    mon.check('area_constant', np.allclose(dm3.calc_areas(mags), cfg.area))


def areas(mon, rng, got, mags, m50, frac, pa, uniform, what):
    """area(m): summed coverage of the pixels deeper than m, to two pixels."""
    frac, m50 = frac.astype('f8'), m50.astype('f8')
    tot = frac.sum() * pa
    want = np.array([np.sum(frac[m50 > m]) * pa for m in mags])
    mon.check('area_total', np.all(got <= tot * (1 + 1e-6) + 1e-12) and np.all(got >= 0), what=what, tot=tot)
    mon.check('area_monotonic', np.all(np.diff(got) <= 1e-9), what=what)
    shallow = mags < (m50.min() if m50.size else 0)
    mon.check('area_total', np.allclose(got[shallow], tot, rtol=1e-6), what=what)
    if m50.size == 0:
        mon.check('area_total', np.all(got == 0), what=what)
        return
    if uniform:
        mon.check('area_uniform', np.all(np.abs(got - want) <= 2.01 * pa), what=what, got=got[:6], want=want[:6], pix=pa)
    else:
        ok = np.all(np.abs(got - want) <= 2.01 * pa)
        # what the code of the known finding computes: the coverage of as many of the shallowest pixels
        st = np.argsort(m50)
        c = np.cumsum(frac[st]) * pa
        i = np.clip(np.searchsorted(m50[st], mags) - 1, 1, m50.size - 1)
        mon.check('area_nonuniform', ok, what=what, as_found=bool(np.allclose(got, c[c.size - i], rtol=1e-6)), got=got[:6], want=want[:6])


def area1(rng, case, mon, env, d):
    """a map with a single valid pixel."""
    from redmapper import DepthMap
    v = np.zeros(1, dtype=rmx.DEPTH_DT)
    v['fracgood'], v['limmag'], v['exptime'], v['m50'] = 1, 21, 100, 21
    fn = os.path.join(d, 'depth.hsp')
    rmx.write_depth(fn, 32, 512, np.array([1000]), v)
    dm = DepthMap(rmx.test_config(env, d, depthfile=fn))
    try:
        a = dm.calc_areas(np.array([20., 22.]))
        mon.check('area_single_pixel', abs(a[0] - hpg.nside_to_pixel_area(512, degrees=True)) < 1e-6, got=a)
    except IndexError as e:
        mon.violation('area_single_pixel', exception=repr(e))


def theta_i_ref(mag, err, maxmag, limmag):
    lim = np.minimum(maxmag, limmag)
    with np.errstate(all='ignore'):
        t = 0.5 + 0.5 * erf((lim - mag) / (np.sqrt(2) * err))
    t = np.where(lim - mag < 5 * err, t, 1.0)
    return np.where(mag > limmag, 0.0, t)


class _Cl(object):
    pass


def corr(rng, case, mon, env, d):
    """depth at the Monte-Carlo galaxies, their mask values, and the correction polynomial."""
    from redmapper import get_mask, DepthMap
    mgf = os.path.join(env.shared, 'maskgals.fit')
    nside = 1024
    scale = float(rng.uniform(2.0, 15.0))
    ra0, dec0 = skygen.REGIONS[case['region']]
    ra0, dec0 = ra0 + rng.uniform(-0.01, 0.01), dec0 + rng.uniform(-0.01, 0.01)
    cls = str(rng.choice(['full', 'none', 'half', 'patchy', 'few', 'few']))
    ra, dec = skygen.sky_points(rng, case['region'], 60000, 4.0)
    pix = np.unique(hpg.angle_to_pixel(nside, ra, dec, nest=True))
    pr, pd = hpg.pixel_to_angle(nside, pix, nest=True)
    keep = {'full': np.ones(pix.size, bool), 'none': np.zeros(pix.size, bool), 'half': pd > dec0,
            'patchy': rng.uniform(size=pix.size) < 0.5, 'few': np.zeros(pix.size, bool)}[cls]
    if cls == 'few':
        # a small pixel: a handful of the Monte-Carlo galaxies (or none, or one) see it
        s0 = fitsio.read(mgf, ext=1, rows=np.arange(6000))
        r0, d0 = ra0 + s0['x'] / scale / np.cos(np.radians(dec0)), dec0 + s0['y'] / scale
        ok = np.abs(d0) < 90
        up, uc = np.unique(hpg.angle_to_pixel(nside, r0[ok], d0[ok], nest=True), return_counts=True)
        lo, hi, many = [(1, 1, 1), (1, 2, 1), (1, 8, 4), (1, 14, 3), (30, 400, 1)][int(rng.randint(5))]
        cand = np.where(np.isin(pix, up[(uc >= lo) & (uc <= hi)]))[0]
        if cand.size:
            keep[rng.choice(cand, min(many, cand.size), replace=False)] = True
        else:
            keep[np.argsort(np.hypot((pr - ra0 + 180) % 360 - 180, pd - dec0 - 0.7 / scale * rng.uniform(0.8, 1.3)))[:1]] = True
    fn, fd = os.path.join(d, 'm.hsp'), os.path.join(d, 'd.hsp')
    kp = pix[keep] if keep.any() else np.array([0 if pix[0] > 10000 else hpg.nside_to_npixel(nside) - 1])
    rmx.write_mask(fn, 32, nside, kp, np.ones(kp.size))
    v = np.zeros(kp.size, dtype=rmx.DEPTH_DT)
    v['fracgood'] = 1
    v['limmag'] = rng.uniform(20.0, 22, kp.size)
    v['exptime'] = rng.uniform(50, 150, kp.size)
    dcls = rng.choice(['limmag', 'm50'])
    v['m50'] = v['limmag'] + rng.uniform(-0.4, 0.1, kp.size) if dcls == 'm50' else 0.0
    zp, nsig = float(rng.choice([22.5, 25.0, 30.0])), float(rng.choice([5.0, 8.0, 10.0]))
    rmx.write_depth(fd, 32, nside, kp, v, w=(0.0 if dcls == 'm50' else -1.0), zp=zp, nsig=nsig)
    cfg = rmx.test_config(env, d, maskfile=fn, depthfile=fd, maskgalfile=mgf, mask_mode=3)
    m = get_mask(cfg)
    idx = m.select_maskgals_sample(int(rng.randint(cfg.maskgal_nsamples)))
    dm = DepthMap(cfg)
    cl = _Cl()
    cl.ra, cl.dec, cl.mpc_scale = ra0, dec0, scale
    full = fitsio.read(mgf, ext=1)
    sl = full[idx * 6000:(idx + 1) * 6000]
    mon.equal('maskgal_slice', np.asarray(m.maskgals.r), sl['r'])
    m.set_radmask(cl)
    # tangent offsets of the Monte-Carlo galaxies, as documented (x along ra, y along dec)
    ras = ra0 + sl['x'] / scale / np.cos(np.radians(dec0))
    decs = dec0 + sl['y'] / scale
    ok = np.abs(decs) < 90
    inm = np.zeros(6000, bool)
    inm[ok] = lookup(nside, kp, np.ones(kp.size), ras[ok], decs[ok], 0.0) == 1
    edge = near_edge(nside, ras, decs, ok)
    mon.check('radmask_positions', np.array_equal(np.asarray(m.maskgals.mark)[~edge], inm[~edge]), cls=cls, region=case['region'])
    dm.calc_maskdepth(m.maskgals, ra0, dec0, scale)
    g = m.maskgals
    wl = np.full(6000, UN)
    wl[ok] = lookup(nside, kp, v['limmag'].astype('f8'), ras[ok], decs[ok], UN)
    w5 = np.full(6000, UN)
    w5[ok] = lookup(nside, kp, v['m50'].astype('f8'), ras[ok], decs[ok], UN)
    we = np.zeros(6000)
    we[ok] = lookup(nside, kp, v['exptime'].astype('f8'), ras[ok], decs[ok], UN)
    seen = wl > 0
    mon.distinct('corr_seen', cls, int(np.digitize(seen.sum(), [1, 3, 30])))
    if 3 <= seen.sum() < 30 and np.unique(wl[seen]).size > 2:
        mon.event('few_seen')
    if seen.any() and not (edge & seen).all():
        s = seen & ~edge
        mon.check('maskdepth', np.allclose(g.limmag[s], wl[s], rtol=1e-6) and np.allclose(g.exptime[s], we[s], rtol=1e-6) and
                  np.allclose(g.m50[s], w5[s], rtol=1e-6), cls=cls)
        u = ~seen & ~edge
        if u.any():
            f = np.median if seen.sum() >= 3 else np.mean
            mon.check('maskdepth', np.allclose(g.limmag[u], g.limmag[u][0]) and
                      abs(g.limmag[u][0] - f(wl[seen])) < (2e-3 if edge.any() else 1e-4) and
                      np.allclose(g.m50[u], g.m50[u][0]) and abs(g.m50[u][0] - f(w5[seen])) < (2e-3 if edge.any() else 1e-4) and
                      abs(g.exptime[u][0] - f(we[seen])) < (0.5 if edge.any() else 1e-2), cls=cls, got=g.limmag[u][0], want=f(wl[seen]))
    elif not seen.any():
        mon.check('maskdepth', np.all(g.limmag == 1.0) and np.all(g.exptime == 1000.0) and np.all(g.m50 == 0.0), cls=cls)
    mon.check('maskdepth', g.zp[0] == np.float32(zp) and g.nsig[0] == np.float32(nsig) and np.all(g.w == dm.w))
    mstar = float(rng.uniform(16, 21))
    maxmag = mstar - 2.5 * np.log10(cfg.lval_reference)
    limmag = float(rng.uniform(19.5, 22))
    cp = m.calc_maskcorr(mstar, maxmag, limmag)
    mag, err = np.asarray(g.refmag_obs, dtype='f8'), np.asarray(g.refmag_obs_err, dtype='f8')
    mon.check('refmag_stored', np.allclose(g.refmag, sl['m'] + mstar, atol=1e-5))
    lm = np.asarray(g.m50, dtype='f8') if (g.w[0] == 0 and np.max(g.m50) > 0) else limmag
    ti = theta_i_ref(mag, err, maxmag, lm)
    c = 1 - np.dot(ti * np.asarray(g.mark), sl['theta_r'].astype('f8')) / sl['nin'][0].astype('f8')
    rb = sl['radbins'][0].astype('f8')
    got = np.polyval(cp, rb)
    want = np.polyval(np.polyfit(rb, c, 3), rb)
    if np.all(np.isfinite(want)):
        mon.check('maskcorr', np.all(np.abs(got - want) < 2e-3), got=got[:4], want=want[:4], cls=cls, dcls=dcls)
    if cls == 'none':
        mon.check('maskcorr', np.all(np.abs(got - 1) < 1e-5))
    mon.distinct('corr', cls, dcls, case['region'], maxmag > limmag, scale > 8)
    mon.sample({'class': cls, 'mask_fraction_at_radii': got[::4]})


def near_edge(nside, ras, decs, ok):
    """positions whose pixel depends on the last digits (single/double precision)."""
    e = ~ok.copy()
    p0 = np.full(ras.size, -1)
    rr, dd = ras[ok], decs[ok]
    p = hpg.angle_to_pixel(nside, rr, dd, nest=True)
    bad = np.zeros(rr.size, bool)
    for a, b in ((3e-5, 0), (-3e-5, 0), (0, 3e-5), (0, -3e-5)):
        bad |= hpg.angle_to_pixel(nside, rr + a, np.clip(dd + b, -90, 90), nest=True) != p
    e2 = np.zeros(ras.size, bool)
    e2[ok] = bad
    return e2


def maskgals(rng, case, mon, env, d):
    """the Monte-Carlo galaxies follow their own definition and survive the file."""
    from redmapper import get_mask
    from redmapper.utilities import nfw_pdf
    over = dict(rsig=float(rng.choice([0.05, 0.0, 0.2])), maskgal_ngals=int(rng.choice([500, 2000])),
                maskgal_nsamples=int(rng.choice([1, 3])), percolation_r0=float(rng.choice([1.0, 0.8])),
                percolation_beta=float(rng.choice([0.2, 0.1])), chisq_max=float(rng.choice([20.0, 10.0])),
                lval_reference=float(rng.choice([0.2, 0.4])), mask_mode=0, maskfile=None)
    fn = os.path.join(d, 'mg.fit')
    cfg = rmx.test_config(env, d, **over)
    m = get_mask(cfg, include_maskgals=False)
    m.gen_maskgals(fn)
    g = fitsio.read(fn, ext=1)
    n = over['maskgal_ngals'] * over['maskgal_nsamples']
    ok = mon.check('maskgals_consistent', g.size == n)
    r = g['r'].astype('f8')
    mon.close('maskgals_consistent', np.hypot(g['x'], g['y']), r, rtol=1e-5, atol=1e-5)
    mon.close('maskgals_consistent', np.hypot(g['x_uniform'], g['y_uniform']), g['r_uniform'], rtol=1e-5, atol=1e-5)
    rb = g['radbins'][0].astype('f8')
    need = over['percolation_r0'] * (np.array([3., 300.]) / 100.)**over['percolation_beta']
    mon.check('maskgals_consistent', np.all(g['radbins'] == g['radbins'][0]) and rb[0] <= need[0] + 1e-6 and rb[-1] >= need[1] - 1e-6 and
              np.allclose(np.diff(rb), cfg.maskgal_rad_stepsize, atol=1e-5), rb=rb, need=need)
    mon.check('maskgals_consistent', r.min() >= 0 and r.max() <= np.ceil(10 * need[1]) / 10 + 0.002 and
              g['chisq'].min() >= 0 and g['chisq'].max() <= over['chisq_max'] + 0.01)
    mlim = -2.5 * np.log10(over['lval_reference'])
    mon.check('maskgals_consistent', g['m'].min() >= -2.5 - 1e-3 and g['m'].max() <= mlim + cfg.maskgal_dmag_extra + 0.003)
    mon.close('maskgals_consistent', g['chisq_pdf'], chi2.pdf(g['chisq'].astype('f8'), cfg.nmag - 1), rtol=1e-3, atol=1e-5)
    # weights that go with the draws
    al = cfg.calib_lumfunc_alpha
    sch = lambda x: 10**(-0.4 * x * (al + 1)) * np.exp(-10**(-0.4 * x))
    grid = np.linspace(-9.0, mlim, 20001)
    mon.close('maskgals_consistent', g['lum_pdf'], sch(g['m'].astype('f8')), rtol=1e-4, atol=1e-6, what='luminosity')
    mon.close('maskgals_consistent', g['lumwt'] / g['lum_pdf'], np.full(n, 1. / ((sch(grid).sum() - 0.5 * sch(grid[[0, -1]]).sum()) * (grid[1] - grid[0]))), rtol=0.02, what='luminosity weight')
    mon.close('maskgals_consistent', g['nfw'], nfw_pdf(r, radfactor=True), rtol=2e-3, atol=1e-5, what='nfw')
    mon.close('maskgals_consistent', g['cwt'], g['chisq_pdf'], rtol=1e-6, what='cwt')
    ze = cfg.maskgal_zred_err
    mon.close('maskgals_consistent', g['zwt'], np.exp(-0.5 * (g['dzred'].astype('f8') / ze)**2) / np.sqrt(2 * np.pi) / ze, rtol=1e-3, atol=1e-5, what='zwt')
    mon.check('maskgals_consistent', abs(g['dzred'].std() / ze - 1) < 6 / np.sqrt(2 * n) and abs(g['dzred'].mean()) < 6 * ze / np.sqrt(n), what='dzred')
    ks = lambda u: np.abs(np.sort(u) - (np.arange(u.size) + 0.5) / u.size).max()
    lim = 2.4 / np.sqrt(n)
    mon.check('maskgals_consistent', ks((g['r_uniform'].astype('f8') / cfg.bkg_local_annuli[1])**2) < lim, what='uniform')
    for x, y in (('x', 'y'), ('x_uniform', 'y_uniform')):
        mon.check('maskgals_consistent', ks(np.arctan2(g[y], g[x]).astype('f8') / (2 * np.pi) % 1.) < lim, what='angle', x=x)
    for q, f, lo, top in ((r, lambda x: nfw_pdf(x, radfactor=True), 1e-3, np.ceil(10 * need[1]) / 10), (g['chisq'].astype('f8'), lambda x: chi2.pdf(x, cfg.nmag - 1), 0.0, over['chisq_max']),
                          (g['m'].astype('f8'), sch, -2.5, mlim + cfg.maskgal_dmag_extra)):
        gr = np.linspace(lo, top, 8001)
        cdf = np.cumsum(f(gr))
        mon.check('maskgals_consistent', ks(np.interp(q, gr, cdf / cdf[-1])) < lim + 0.004, what='drawn from its own function', top=top)
    if over['rsig'] > 0:
        th = 0.5 + 0.5 * erf((rb[None, :] - r[:, None]) / (np.sqrt(2) * over['rsig']))
    else:
        th = np.ones((n, rb.size))
    mon.close('maskgals_consistent', g['theta_r'], th, rtol=1e-4, atol=1e-4)
    for j in range(over['maskgal_nsamples']):
        s = slice(j * over['maskgal_ngals'], (j + 1) * over['maskgal_ngals'])
        inb = g['m'][s] < mlim - 1e-6
        amb = np.sum(np.abs(g['m'][s] - mlim) < 1e-5)
        w = np.sum(th[s][inb], axis=0)
        mon.check('maskgals_consistent', np.all(np.abs(g['nin'][s] - w[None, :]) < amb + 0.05), sample=j)
        wo = np.array([np.sum(inb & (r[s] <= q)) for q in rb])
        amb2 = np.array([np.sum(np.abs(r[s] - q) < 1e-5) for q in rb])
        mon.check('maskgals_consistent', np.all(np.abs(g['nin_orig'][s] - wo[None, :]) <= amb + amb2[None, :]), sample=j)
    m.read_maskgals(fn)
    for j in range(over['maskgal_nsamples']):
        k = m.select_maskgals_sample(j)
        mon.check('maskgal_slice', k == j and np.array_equal(m.maskgals.x, g['x'][j * over['maskgal_ngals']:(j + 1) * over['maskgal_ngals']]))
    seen = set(m.select_maskgals_sample() for _ in range(60))
    mon.check('maskgal_slice', seen == set(range(over['maskgal_nsamples'])) or (len(seen) > 1 and seen <= set(range(over['maskgal_nsamples']))))
    # an old version is refused
    with fitsio.FITS(fn, 'rw') as f:
        f[1].write_key('VERSION', 6)
    try:
        m.read_maskgals(fn)
        mon.check('old_version_refused', False)
    except RuntimeError:
        mon.check('old_version_refused', True)
    mon.distinct('maskgals', sorted(over.items()))


def convert(rng, case, mon, env, d):
    """the conversions to healsparse keep every pixel value."""
    import healsparse
    from redmapper.mask import convert_maskfile_to_healsparse
    from redmapper.depthmap import convert_depthfile_to_healsparse
    nside, cov, size, pix, v = depth_map(rng, case['region'], False)
    nest = int(rng.randint(2))
    hp = pix if nest else hpg.nest_to_ring(nside, pix)
    perm = rng.permutation(pix.size)
    om = np.zeros(pix.size, dtype=[('hpix', 'i8'), ('fracgood', 'f4')])
    om['hpix'], om['fracgood'] = hp[perm], v['fracgood'][perm]
    a, b = os.path.join(d, 'a.fit'), os.path.join(d, 'a.hsp')
    fitsio.write(a, om, header={'nside': nside, 'nest': nest}, extname='X')
    convert_maskfile_to_healsparse(a, b, cov)
    m = healsparse.HealSparseMap.read(b)
    mon.check('conversion', np.array_equal(np.sort(pix), np.sort(m.valid_pixels)) and
              np.array_equal(m.get_values_pix(pix), v['fracgood']) and m.nside_coverage == cov, nest=nest)
    od = np.zeros(pix.size, dtype=[('hpix', 'i8')] + rmx.DEPTH_DT)
    od['hpix'] = hp[perm]
    for nm in ('fracgood', 'exptime', 'limmag', 'm50'):
        od[nm] = v[nm][perm]
    a, b = os.path.join(d, 'd.fit'), os.path.join(d, 'd.hsp')
    fitsio.write(a, od, header={'nside': nside, 'nest': nest, 'NSIG': 8.0, 'ZP': 25.0, 'NBAND': 1, 'W': 0.0, 'EFF': 1.0}, extname='X')
    convert_depthfile_to_healsparse(a, b, cov)
    from redmapper import DepthMap
    dm = DepthMap(rmx.test_config(env, d, depthfile=b))
    mon.check('conversion', dm.nsig == 8.0 and dm.zp == 25.0 and dm.w == 0.0 and dm.eff == 1.0 and dm.nband == 1)
    got = dm.sparse_depthmap.get_values_pix(pix)
    mon.check('conversion', all(np.array_equal(got[nm], v[nm]) for nm in ('fracgood', 'exptime', 'limmag', 'm50')))
    for fn, cls in ((a, 'depth'), (os.path.join(d, 'a.fit'), 'mask')):
        from redmapper import HPMask
        try:
            DepthMap(rmx.test_config(env, d, depthfile=fn)) if cls == 'depth' else HPMask(rmx.test_config(env, d, maskfile=fn), include_maskgals=False)
            mon.check('legacy_refused', False, cls=cls)
        except RuntimeError:
            mon.check('legacy_refused', True)
    mon.distinct('convert', nside, cov, nest, case['region'])
