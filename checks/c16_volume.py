"""C16: volume limits, areas and random points describe the survey the depth maps describe."""
import os
import numpy as np
import fitsio
import hpgeom as hpg
from scipy.stats import chi2
import rmx
import skygen

RULE = ('one generated depth map (keyed by region, nside, luminosity limit, extra bands, sub-region) with its volume-limit mask, or one set of random '
        'points / weights keyed by (generator, number, selection)')
REQUIRED = {'zmax': 5, 'zmax_bands': 8, 'zmax_outside': 10, 'zmax_subregion': 8, 'zmax_reread': 10, 'zmax_geometry': 4, 'area_of_z': 15, 'area_fixed': 3,
            'randoms_count': 6, 'randoms_in_volume': 6, 'randoms_triplet': 6, 'randoms_uniform': 2, 'randoms_redshifts': 3, 'weights': 8,
            'area_corrected': 6, 'zmax_own_file': 20}
BUDGET = {'quick': 600, 'thorough': 850}
ASSUMPTIONS = ['m*(z) and the red-sequence colours are those of the parameter file (judged by C10)', 'hpgeom pixel assignment and healsparse storage are correct',
               'statistical monitors on random points use limits with false-alarm probability below 1e-9 at fixed seeds']
UN = hpg.UNSEEN
STEP = 0.001
NOVLIM = dict(vlim_depthfiles=None, vlim_bands=None, vlim_nsigs=None)


def plan(tier, seed):
    n = 18 if tier == 'quick' else 160
    regs = sorted(skygen.REGIONS)
    out = [{'kind': 'vlim', 'region': regs[j % len(regs)], 'bands': j % 3, 'seed': seed * 4211 + j} for j in range(n)]
    out += [{'kind': 'geom', 'region': regs[j % len(regs)], 'seed': seed * 4211 + 10000 + j} for j in range(max(4, n // 4))]
    nr = 16 if tier == 'quick' else 60
    out += [{'kind': 'rands', 'region': regs[j % len(regs)], 'gen': 'redmapper' if j % 3 else 'redmagic', 'flat': bool((j // 3) % 2),
             'seed': seed * 4211 + 20000 + j} for j in range(nr)]
    out += [{'kind': 'weight', 'region': regs[j % len(regs)], 'scaleval': bool(j % 2), 'lambin': bool((j // 2) % 2), 'sub': bool((j // 4) % 2),
             'seed': seed * 4211 + 30000 + j} for j in range(nr)]
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    globals()['do_' + case['kind']](rng, case, mon, env, env.tmp())


# ------------------------------------------------------------------ oracle
def survey(rng, region, nside, size):
    ra, dec = skygen.sky_points(rng, region, 6000, size)
    pix = np.unique(hpg.angle_to_pixel(nside, ra, dec, nest=True))
    return pix[rng.uniform(size=pix.size) < rng.choice([1.0, 0.75])]


def band_limits(zr, zb, lstar, ref, band):
    """magnitude in a band of a galaxy of lstar L* on the red sequence at each redshift."""
    m = zr.mstar(zb) - 2.5 * np.log10(lstar)
    out = m.copy()
    if band == ref:
        return out
    lo, hi = min(ref, band), max(ref, band)
    for j in range(lo, hi):
        # mag_j - mag_{j+1}
        ok = zr.z < 50
        c = np.interp(zb, zr.z[ok], zr.c[ok, j]) + np.interp(zb, zr.z[ok], zr.slope[ok, j]) * (m - np.interp(zb, zr.z[ok], zr.pivotmag[ok]))
        out = out + c if band < ref else out - c
    return out


def reach(zb, lims, depth):
    """(first, last) redshift at which the galaxy is fainter than the depth: equal when the limit is monotonic."""
    faint = lims[None, :] > depth[:, None]
    anyf = faint.any(axis=1)
    first = np.where(anyf, zb[np.argmax(faint, axis=1)], zb[-1])
    bright = ~faint
    lastb = np.where(bright.any(axis=1), bright.shape[1] - 1 - np.argmax(bright[:, ::-1], axis=1), -1)
    last = zb[np.clip(lastb + 1, 0, zb.size - 1)]
    return first, last


def lookup(nside, pix, val, ra, dec, fill):
    p = hpg.angle_to_pixel(nside, ra, dec, nest=True)
    st = np.argsort(pix)
    k = np.clip(np.searchsorted(pix[st], p), 0, pix.size - 1)
    return np.where(pix[st][k] == p, val[st][k], fill), pix[st][k] == p


def want_areas(z, nside, zmax, frac):
    pa = hpg.nside_to_pixel_area(nside, degrees=True)
    # z is kept in single precision while the bins are double: a bin within 1e-6 of a limit may count it or not
    lo = np.array([np.sum(frac[zmax > zz + 2e-6]) for zz in z]) * pa
    hi = np.array([np.sum(frac[zmax > zz - 2e-6]) for zz in z]) * pa
    return lo, hi


def check_areas(mon, cfg, vl, nside, zmax, frac, name='area_of_z', **w):
    a = vl.get_areas()
    zb = np.arange(cfg.zrange[0], cfg.zrange[1], cfg.area_finebin)
    mon.close('area_redshifts', a.z, zb, rtol=0, atol=1e-6)
    lo, hi = want_areas(np.asarray(a.z, 'f8'), nside, zmax, frac.astype('f8'))
    tol = 1e-5 * max(hi.max(), 1e-6)
    bad = np.where((a.area < lo - tol) | (a.area > hi + tol))[0]
    mon.check(name, bad.size == 0, nbad=bad.size, z=a.z[bad[:4]], got=a.area[bad[:4]], lo=lo[bad[:4]], hi=hi[bad[:4]], total=hi.max(), **w)
    return a


# ------------------------------------------------------------------ volume-limit masks
def make_depth(rng, env, d, region, nside=None, ref_m50=None, bands=0, cls=None, ref=3):
    nside = int(rng.choice([128, 256, 512])) if nside is None else nside
    cov = int(rng.choice([16, 32]))
    size = {128: 14., 256: 8., 512: 4.}[nside]
    pix = survey(rng, region, nside, size)
    dv = np.zeros(pix.size, dtype=rmx.DEPTH_DT)
    cls = cls or str(rng.choice(['one', 'frac', 'frac']))
    dv['fracgood'] = 1.0 if cls == 'one' else rng.uniform(0.05, 1.0, pix.size)
    dv['exptime'] = rng.uniform(30., 120., pix.size)
    lo, hi = (14.0, 23.0) if ref_m50 is None else ref_m50
    dv['m50'] = rng.uniform(lo, hi, pix.size)
    dv['limmag'] = dv['m50'] - rng.uniform(0.1, 0.6, pix.size)
    fn = os.path.join(d, 'depth_ref.hsp')
    rmx.write_depth(fn, cov, nside, pix, dv)
    extra = []
    for k in rng.permutation([j for j in (1, 2, 3, 4) if j != ref])[:bands]:
        sel = rng.uniform(size=pix.size) > 0.05
        p2 = np.union1d(pix[sel], survey(rng, region, nside, size)[:50])
        d2 = np.zeros(p2.size, dtype=rmx.DEPTH_DT)
        d2['fracgood'] = rng.uniform(0.1, 1.0, p2.size)
        d2['exptime'] = rng.uniform(30., 120., p2.size) if rng.uniform() < 0.5 else rng.uniform(3., 60., p2.size)
        d2['limmag'] = rng.uniform(18.0, 25.0, p2.size)
        d2['m50'] = d2['limmag'] + 0.5
        f2 = os.path.join(d, 'depth_%s.hsp' % rmx.BANDS[k])
        nsig0, zp, ns = float(rng.choice([5., 10.])), float(rng.choice([22.5, 30.])), float(rng.choice([3., 5., 8.]))
        rmx.write_depth(f2, cov, nside, p2, d2, nsig=nsig0, zp=zp)
        extra.append((int(k), f2, p2, d2, nsig0, zp, ns))
    return nside, cov, size, pix, dv, fn, extra


def oracle_zmax(zr, zrange, lstar, pix, dv, extra, ref=3):
    nb = int(np.ceil((zrange[1] - zrange[0]) / STEP))
    zb = np.arange(nb) * STEP + zrange[0] + STEP
    lims = band_limits(zr, zb, lstar, ref, ref)
    a, b = reach(zb, lims, dv['m50'].astype('f8'))
    slack = np.full(pix.size, 2e-6)
    near = np.min(np.abs(lims[None, :] - dv['m50'][:, None].astype('f8')), axis=1) < 1e-5
    slack[near] = 1.1 * STEP
    for k, _, p2, d2, nsig0, zp, ns in extra:
        st = np.argsort(p2)
        j = np.clip(np.searchsorted(p2[st], pix), 0, p2.size - 1)
        hit = p2[st][j] == pix
        r = d2[st][j]
        t = r['exptime'].astype('f8')
        f = 10.**(-0.4 * (r['limmag'].astype('f8') - zp))
        fn = np.clip(f * f * t / nsig0**2 - f, 0.001, None)
        fl = (ns**2 + np.sqrt(ns**4 + 4 * t * ns**2 * fn)) / (2 * t)
        dep = np.where(hit, zp - 2.5 * np.log10(fl), 0.0)
        l2 = band_limits(zr, zb, lstar, ref, k)
        a2, b2 = reach(zb, l2, dep)
        a2, b2 = np.minimum(a2, b2), np.maximum(a2, b2)
        # red-sequence colours come from the model's own redshift grid: allow a few bins
        a, b = np.minimum(a, a2 - 3.1 * STEP * (a2 > zb[0])), np.minimum(b, b2 + 3.1 * STEP * hit)
    return zb, a - slack, b + slack


def do_vlim(rng, case, mon, env, d):
    from redmapper import VolumeLimitMask
    ref = int(rng.choice([3, 3, 2, 1])) if case['bands'] else 3
    deep = case['bands'] and rng.uniform() < 0.6
    nside, cov, size, pix, dv, fn, extra = make_depth(rng, env, d, case['region'], bands=case['bands'], ref=ref, ref_m50=(20.5, 24.0) if deep else None)
    over = dict(depthfile=fn, hpix=None, nside=None, border=0.0, **NOVLIM)
    if rng.uniform() < 0.4:
        over['zrange'] = [float(rng.choice([0.05, 0.1, 0.153])), float(rng.choice([0.3, 0.45, 0.5]))]
    if extra:
        over.update(vlim_depthfiles=[e[1] for e in extra], vlim_bands=[rmx.BANDS[e[0]] for e in extra], vlim_nsigs=[e[6] for e in extra])
    cfg = rmx.test_config(env, d, **over)
    cfg.outpath = d
    cfg.refmag = rmx.BANDS[ref]
    lstar = float(rng.choice([0.2, 0.5, 1.0, 2.0, 5.0] if not deep else [0.2, 0.2, 0.4]))
    vfile = os.path.join(d, 'vlim.hsp')
    vl = VolumeLimitMask(cfg, lstar, vlimfile=vfile)
    from redmapper import RedSequenceColorPar
    zr = RedSequenceColorPar(cfg.parfile, fine=True)
    zb, lo, hi = oracle_zmax(zr, cfg.zrange, lstar, pix, dv, extra, ref)
    ra, dec = skygen.sky_points(rng, case['region'], 3000, size * 1.2)
    z, fg = vl.calc_zmax(ra, dec, get_fracgood=True)
    mon.close('zmax_only', vl.calc_zmax(ra, dec), z, rtol=0, atol=0)
    wlo, hit = lookup(nside, pix, lo, ra, dec, 0.0)
    whi, _ = lookup(nside, pix, hi, ra, dec, 0.0)
    wf, _ = lookup(nside, pix, dv['fracgood'].astype('f8'), ra, dec, 0.0)
    # a place that does not even reach the first bin is not part of the volume
    out_sure = hit & (whi <= zb[0] + 3e-6)
    out_maybe = hit & (wlo <= zb[0] + 3e-6)
    ok = np.where(hit, (z >= wlo) & (z <= whi) | (out_maybe & (z == 0)), z == 0) & ~(out_sure & (z != 0))
    bad = np.where(~ok & hit)[0]
    mon.check('zmax_bands' if extra else 'zmax', bad.size == 0, nbad=bad.size, got=z[bad[:4]], lo=wlo[bad[:4]], hi=whi[bad[:4]], lstar=lstar,
              bands=[e[0] for e in extra], ref=ref)
    mon.check('zmax_outside', np.all(z[~hit] == 0), n=int(np.sum(~hit)))
    mon.close('zmax_fracgood', fg[hit & (z > 0)], wf[hit & (z > 0)], rtol=1e-6)
    bra, bdec = np.array([ra[0], 10., 200.]), np.array([dec[0], 90.5, -91.])
    zbad, fbad = vl.calc_zmax(bra, bdec, get_fracgood=True)
    mon.check('zmax_off_sphere', np.all(zbad[1:] == 0) and np.all(fbad[1:] == 0) and zbad[0] == z[0], got=zbad)
    mon.distinct('vlim', case['region'], nside, lstar, [e[0] for e in extra], case['seed'])
    mon.sample({'region': case['region'], 'nside': nside, 'lstar': lstar, 'bands': [rmx.BANDS[e[0]] for e in extra], 'zmax_head': z[hit][:6]})
    # areas: the volume each pixel belongs to, from the values the mask itself reports
    pr, pd = hpg.pixel_to_angle(nside, pix, nest=True)
    zp = vl.calc_zmax(pr, pd)
    check_areas(mon, cfg, vl, nside, zp, dv['fracgood'], lstar=lstar)
    # a second object reads the file that is there
    vl2 = VolumeLimitMask(cfg, 0.9 * lstar, vlimfile=vfile)
    mon.close('zmax_reread', vl2.calc_zmax(ra, dec), z, rtol=0, atol=0)
    # masks of close limits that choose their own file
    l1 = float(rng.choice([0.5, 1.0]))
    l2 = l1 + float(rng.choice([0.05, 0.1, 0.07]))
    own = [VolumeLimitMask(cfg, x) for x in (l1, l2)]
    named = [VolumeLimitMask(cfg, x, vlimfile=os.path.join(d, 'n%d.hsp' % k)) for k, x in enumerate((l1, l2))]
    for k in (0, 1):
        mon.close('zmax_own_file', own[k].calc_zmax(ra, dec), named[k].calc_zmax(ra, dec), rtol=0, atol=0, lstars=(l1, l2), which=k)
    # part of the sky
    sub = int(rng.choice([4, 8, 16, 32]))
    border = float(rng.choice([0.0, 0.5]))
    if not np.any(z > 0):
        return
    k = rng.choice(np.where(z > 0)[0])
    hp = int(hpg.angle_to_pixel(sub, ra[k], dec[k], nest=False))
    ins = hpg.angle_to_pixel(sub, ra, dec, nest=False) == hp
    cfg.d.hpix, cfg.d.nside, cfg.border = [hp], sub, border
    vl3 = VolumeLimitMask(cfg, lstar, vlimfile=vfile)
    mon.close('zmax_subregion', vl3.calc_zmax(ra[ins], dec[ins]), z[ins], rtol=0, atol=0, sub=sub, hp=hp, cov=cov)
    cfg.d.hpix, cfg.d.nside, cfg.border = [], 0, 0.0


def do_geom(rng, case, mon, env, d):
    from redmapper import VolumeLimitMask, VolumeLimitMaskFixed
    nside = int(rng.choice([128, 256, 512]))
    size = {128: 14., 256: 8., 512: 4.}[nside]
    pix = survey(rng, case['region'], nside, size)
    val = rng.uniform(0.1, 1.0, pix.size).astype('f4') if rng.uniform() < 0.5 else np.ones(pix.size, 'f4')
    fn = os.path.join(d, 'mask.hsp')
    rmx.write_mask(fn, 32, nside, pix, val)
    cfg = rmx.test_config(env, d, maskfile=fn, hpix=None, nside=None, border=0.0, area=float(rng.uniform(1, 100)))
    vl = VolumeLimitMask(cfg, 0.2, vlimfile=os.path.join(d, 'v.hsp'), use_geometry=True)
    ra, dec = skygen.sky_points(rng, case['region'], 2000, size * 1.2)
    w, hit = lookup(nside, pix, val.astype('f8'), ra, dec, 0.0)
    z, fg = vl.calc_zmax(ra, dec, get_fracgood=True)
    mon.check('zmax_geometry', np.all(np.abs(z[hit] - cfg.zrange[1]) < 1e-6) and np.all(z[~hit] == 0) and np.allclose(fg[hit], w[hit], rtol=1e-6))
    check_areas(mon, cfg, vl, nside, np.full(pix.size, cfg.zrange[1]), val)
    fx = VolumeLimitMaskFixed(cfg)
    a = fx.get_areas()
    mon.check('area_fixed', np.allclose(a.area, cfg.area) and np.all(np.asarray(fx.calc_zmax(ra, dec)) == cfg.zrange[1]), area=cfg.area, got=a.area[:3])
    mon.distinct('geom', case['region'], nside, case['seed'])


# ------------------------------------------------------------------ random points
def chi2_ok(obs, exp):
    """chi-square of counts against expectation, merged into bins of at least 20."""
    st = np.argsort(exp)
    o, e, oo, ee = [], [], 0., 0.
    for i in st:
        oo += obs[i]
        ee += exp[i]
        if ee >= 20:
            o.append(oo), e.append(ee)
            oo = ee = 0.
    if e:
        o[-1] += oo
        e[-1] += ee
    o, e = np.array(o), np.array(e)
    if o.size < 3:
        return None
    x = np.sum((o - e)**2 / e)
    return chi2.sf(x, o.size - 1) > 1e-10, x, o.size


def do_rands(rng, case, mon, env, d):
    from redmapper import VolumeLimitMask, GenerateRandoms, RandomCatalog, ClusterCatalog, GalaxyCatalog
    flat = case['flat']
    nside, cov, size, pix, dv, fn, _ = make_depth(rng, env, d, case['region'], ref_m50=(21.6, 23.0) if flat else (18.5, 21.5), cls='frac')
    cfg = rmx.test_config(env, d, depthfile=fn, hpix=None, nside=None, border=0.0, zrange=[0.05, 0.5], **NOVLIM)
    vl = VolumeLimitMask(cfg, 0.2, vlimfile=os.path.join(d, 'v.hsp'))
    pr, pd = hpg.pixel_to_angle(nside, pix, nest=True)
    zp = vl.calc_zmax(pr, pd).astype('f8')
    ncat = int(rng.choice([1, 5, 40, 40]))
    zcat = rng.uniform(0.06, zp[zp > 0].min() - 0.01 if flat else min(0.45, zp.max() - 0.005), ncat)
    n = int(rng.choice([1 if case['gen'] == 'redmagic' else 60, 150, 4000, 9000, 9000]) if not flat else rng.choice([4000, 9000, 14000]))
    cat = ClusterCatalog(np.zeros(ncat, dtype=[('MEM_MATCH_ID', 'i4'), ('Z_LAMBDA', 'f4'), ('LAMBDA', 'f4'), ('ZREDMAGIC', 'f4')]))
    cat.mem_match_id = 100 + rng.permutation(ncat)
    cat.z_lambda = zcat
    cat.zredmagic = zcat
    cat.Lambda = rng.uniform(5, 150, ncat)
    r2 = np.random.RandomState(rng.randint(2**31))
    if case['gen'] == 'redmapper':
        rf = os.path.join(d, 'rands', 'test_random_master_table.fit')
        os.makedirs(os.path.dirname(rf))
        cfg.randfile = rf
        g = GenerateRandoms(cfg, vlim_mask=vl, redmapper_cat=cat)
        g.generate_randoms(n, rng=r2)
        r = RandomCatalog.from_randfile(rf)
        if mon.check('randoms_count', r.size == n and np.array_equal(np.sort(r.id), np.arange(1, n + 1)), got=r.size, want=n):
            order = {int(i): k for k, i in enumerate(cat.mem_match_id)}
            k = np.array([order.get(int(i), -1) for i in r.id_input])
            mon.check('randoms_triplet', np.all(k >= 0) and np.array_equal(r.z, cat.z_lambda[k]) and np.array_equal(r.Lambda, cat.Lambda[k]),
                      nbad=int(np.sum(k < 0)))
            # the same points split by a maker of one's own
            from redmapper.randoms import RandomCatalogMaker
            mk = RandomCatalogMaker(os.path.join(d, 'split', 'again'), {}, nside=int(rng.choice([16, 32])))
            mk.split_randoms(r._ndarray)
            r3 = RandomCatalog.from_randfile(os.path.join(d, 'split', 'again_master_table.fit'))
            o1, o3 = np.argsort(r.id), np.argsort(r3.id)
            mon.check('randoms_split', r3.size == n and all(np.array_equal(r3._ndarray[c][o3], r._ndarray[c][o1]) for c in ('id', 'ra', 'dec', 'z', 'lambda', 'id_input')),
                      got=r3.size, want=n)
            try:
                mk2 = RandomCatalogMaker(os.path.join(d, 'split', 'again'), {})
                mk2.split_randoms(r._ndarray)
                mon.violation('randoms_split_again')
            except RuntimeError:
                mon.event('randoms_split_refused')
    else:
        gal = GalaxyCatalog(cat._ndarray)
        from redmapper.redmagic import RedmagicGenerateRandoms
        from redmapper import Catalog
        rf = os.path.join(d, 'redmagic_rands.fit')
        if rng.uniform() < 0.5:
            gf = os.path.join(d, 'redmagic.fit')
            gal.to_fits_file(gf)
            g = RedmagicGenerateRandoms(cfg, os.path.join(d, 'v.hsp'), gf)
        else:
            g = RedmagicGenerateRandoms(cfg, vl, gal)
        g.generate_randoms(n, rf, rng=r2)
        r = Catalog.from_fits_file(rf)
        mon.check('randoms_count', r.size == n, got=r.size, want=n)
        mon.check('randoms_unit_weight', np.all(r.weight == 1.0), got=r.weight[:4])
        zs = np.sort(cat.z_lambda)
        k = np.clip(np.searchsorted(zs, r.z), 0, ncat - 1)
        mon.check('randoms_triplet', np.all(zs[k] == r.z))
        try:
            g.generate_randoms(3, rf, rng=r2)
            mon.violation('randoms_overwrite', file=rf)
        except RuntimeError:
            mon.event('randoms_overwrite_refused')
    zm, hit = lookup(nside, pix, zp, r.ra, r.dec, 0.0)
    bad = np.where(~hit | ~(r.z < zm + 1e-6))[0]
    mon.check('randoms_in_volume', bad.size == 0, nbad=bad.size, n=n, z=r.z[bad[:4]], zmax=zm[bad[:4]], flat=flat)
    mon.distinct('rands', case['region'], case['gen'], flat, n, ncat, case['seed'])
    if n >= 4000:
        if flat:
            # every place takes every redshift: density follows the covered fraction
            big = hpg.angle_to_pixel(nside // 8, pr, pd, nest=True)
            ub, inv = np.unique(big, return_inverse=True)
            w = np.bincount(inv, weights=dv['fracgood'] * (zp > 0))
            rb = hpg.angle_to_pixel(nside // 8, r.ra, r.dec, nest=True)
            obs = np.array([np.sum(rb == b) for b in ub], dtype='f8')
            res = chi2_ok(obs, w / w.sum() * n)
            if res is not None:
                mon.check('randoms_uniform', res[0], chi2=res[1], nbins=res[2])
            # and within one big pixel, by coverage class
            rf_, _ = lookup(nside, pix, dv['fracgood'].astype('f8'), r.ra, r.dec, -1.0)
            edges = np.array([0, 0.2, 0.4, 0.6, 0.8, 1.0001])
            ok = zp > 0
            w = np.histogram(dv['fracgood'][ok], edges, weights=dv['fracgood'][ok])[0]
            res = chi2_ok(np.histogram(rf_, edges)[0].astype('f8'), w / w.sum() * n)
            if res is not None:
                mon.check('randoms_uniform', res[0], chi2=res[1], nbins=res[2], by='fracgood')
        if ncat >= 5:
            zs = np.sort(cat.z_lambda)
            obs = np.array([np.sum(r.z == q) for q in zs], dtype='f8')
            res = chi2_ok(obs, np.full(ncat, n / ncat))
            if res is not None:
                mon.check('randoms_redshifts', res[0], chi2=res[1], nbins=res[2], flat=flat, counts=obs[:6], n=n, ncat=ncat)


# ------------------------------------------------------------------ weights
class FixedAreas(object):
    def __init__(self, cfg, area):
        self.cfg, self.area = cfg, area

    def get_areas(self):
        from redmapper import Catalog
        zb = np.arange(self.cfg.zrange[0], self.cfg.zrange[1], self.cfg.area_finebin)
        a = Catalog(np.zeros(zb.size, dtype=[('z', 'f4'), ('area', 'f4')]))
        a.z = zb
        a.area = self.area
        return a


def do_weight(rng, case, mon, env, d):
    from redmapper import RandomWeigher, ClusterCatalog, Catalog
    zr0 = [0.1, 0.4]
    cfg = rmx.test_config(env, d, hpix=None, nside=None, border=0.0, zrange=zr0, area_finebin=0.01, area_coarsebin=0.02, area_nodesize=0.1,
                          select_scaleval=case['scaleval'], max_maskfrac=float(rng.choice([0.2, 0.3])))
    cfg.outpath = d
    ncat = int(rng.choice([8, 60]))
    cat = ClusterCatalog(np.zeros(ncat, dtype=[('MEM_MATCH_ID', 'i4'), ('Z_LAMBDA', 'f4'), ('LAMBDA', 'f4'), ('SCALEVAL', 'f4')]))
    cat.mem_match_id = 10 + rng.permutation(ncat) * 3
    cat.z_lambda = rng.uniform(0.08, 0.42, ncat)
    cat.Lambda = rng.uniform(10, 120, ncat)
    cat.scaleval = rng.uniform(1.0, 1.6, ncat)
    n = int(rng.choice([400, 3000]))
    k = rng.randint(0, ncat, n)
    rc = Catalog(np.zeros(n, dtype=[('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('LAMBDA_IN', 'f4'), ('ID_INPUT', 'i4'), ('SCALEVAL', 'f4'), ('MASKFRAC', 'f4')]))
    rc.ra, rc.dec = skygen.sky_points(rng, case['region'], n, 5.)
    rc.z, rc.lambda_in, rc.id_input = cat.z_lambda[k], cat.Lambda[k], cat.mem_match_id[k]
    rc.scaleval = rng.uniform(1.0, 2.5, n)
    rc.maskfrac = rng.uniform(0, rng.choice([0.1, 0.5]), n)
    rfile = os.path.join(d, 'randcat.fit')
    rc.to_fits_file(rfile)
    minlam = float(rng.choice([5.0, 20.0, 30.0]))
    lb = None
    if case['lambin']:
        lb = np.array(sorted(rng.uniform(10, 120, 2)))
        if lb[1] - lb[0] < 40:
            lb = np.array([20.0, 90.0])
    zr = None
    if case['sub']:
        zr = np.array([0.15, 0.33])
    area = float(rng.uniform(10, 1000))
    w = RandomWeigher(cfg, rfile, vlim_mask=FixedAreas(cfg, area), vlim_lstar=0.2, redmapper_cat=cat)
    # oracle
    zlo, zhi = zr if zr is not None else zr0
    blo, bhi = lb if lb is not None else (0., 1000.)
    lam, zz = cat.Lambda[k].astype('f8'), cat.z_lambda[k]
    s1 = cat.scaleval[k].astype('f8') if case['scaleval'] else 1.0
    s2 = rc.scaleval.astype('f8') if case['scaleval'] else 1.0
    sel = (zz > np.float32(zlo)) & (zz < np.float32(zhi)) & (lam / s1 > minlam) & (lam > blo) & (lam <= bhi)
    good = sel & (lam / s2 > minlam) & (rc.maskfrac < cfg.max_maskfrac)
    if sel.sum() == 0:
        try:
            w.weight_randoms(minlam, zrange=zr, lambdabin=lb)
            mon.violation('weights_empty')
        except RuntimeError:
            mon.event('weights_empty_refused')
        return
    f1, f2 = w.weight_randoms(minlam, zrange=zr, lambdabin=lb)
    want = np.zeros(n)
    for i in range(ncat):
        m = (k == i)
        if np.sum(good & m):
            want[good & m] = np.sum(sel & m) / np.sum(good & m)
    got = fitsio.read(f1, ext=1, lower=True)
    gi = np.where(want > 0)[0]
    o1, o2 = np.argsort(got['ra'], kind='stable'), gi[np.argsort(rc.ra[gi], kind='stable')]
    if mon.check('weights', got.size == gi.size and np.array_equal(got['ra'][o1], rc.ra[o2]) and np.array_equal(got['dec'][o1], rc.dec[o2]), got=got.size,
                 want=gi.size, scaleval=case['scaleval'], lambdabin=lb, zrange=zr):
        mon.close('weights', got['weight'][o1], want[o2], rtol=1e-5, scaleval=case['scaleval'])
        mon.check('weights_columns', np.allclose(got['ztrue'][o1], zz[o2], rtol=1e-6) and np.allclose(got['lambda_in'][o1], lam[o2], rtol=1e-6)
                  and np.allclose(got['avg_lambdaout'][o1], lam[o2], rtol=1e-6))
    a = fitsio.read(f2, ext=1, lower=True)
    p = good.sum() / sel.sum()
    mon.check('area_corrected', np.all(a['area'] >= 0) and np.all(a['area'] <= area * (1 + 1e-5)), area=area)
    # cumulative detection fraction below each redshift, smooth; compare where there are enough points
    zs, zg = np.sort(zz[sel]), np.sort(zz[good])
    n1, n2 = np.searchsorted(zs, a['z']), np.searchsorted(zg, a['z'])
    ok = (n1 > 0.5 * sel.sum()) & (n1 > 100)
    if ok.any() and np.sum(zg < zr0[0] + 2 * cfg.area_coarsebin) > 3:
        fr = n2[ok] / n1[ok]
        mon.check('area_corrected', np.abs(a['area'][ok] / area - fr).max() < 0.12, got=a['area'][ok][:5] / area, want=fr[:5])
    mon.distinct('weight', case['scaleval'], case['lambin'], case['sub'], ncat, n, case['seed'])
    mon.sample({'selected': int(sel.sum()), 'kept': int(good.sum()), 'fraction': p, 'weights': got['weight'][:5]})
    # another redshift range must not land in the same file
    f3, f4 = w.weight_randoms(minlam, zrange=np.array([0.12, 0.39]), lambdabin=lb)
    mon.check('weights_files_distinct', f3 != f1 and f4 != f2, first=os.path.basename(f1), second=os.path.basename(f3))
