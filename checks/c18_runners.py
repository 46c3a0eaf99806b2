"""C18: measuring given positions (runcat, redshift scan, colour members, random zmask) does what one measurement per position would do.

The monitor re-executes each runner position by position from public pieces (Cluster, Mask, DepthMap, Zlambda, centring; judged by C08, C12-C14) with
its own book of shared members, and compares every row and member the runners wrote."""
import os
import numpy as np
import fitsio
import rmx
import world
import skygen
from checks import c12_cluster as C12
from checks.c15_finder import Ref, judge_local, quiet_noise, near, same_file, crowd, zcorr_file, zreds_of

RULE = 'one runner over one list of positions judged, keyed by (runner, options, region, rows, failed rows, overlaps)'
REQUIRED = {'cat_rows': 4, 'cat_failed': 6, 'cat_values': 20, 'cat_local': 20, 'cat_pz': 15, 'cat_slopes': 10, 'cat_members': 15, 'cat_member_values': 15, 'cat_center': 10, 'ids': 6, 'ids_refused': 2,
            'scan_rows': 3, 'scan_grid': 8, 'scan_peak': 8, 'scan_values': 8, 'scan_center': 6, 'scan_opt': 6, 'scan_members': 6,
            'colmem_rows': 3, 'colmem_values': 10, 'colmem_members': 10, 'colmem_training': 3, 'zmask_rows': 2, 'zmask_values': 60, 'files': 8, 'inputs_untouched': 8}
BUDGET = {'quick': 700, 'thorough': 3000}
prepare = C12.prepare


def plan(tier, seed):
    q = tier == 'quick'
    rg = sorted(skygen.REGIONS)
    out = []
    for kind, n in (('runcat', 9 if q else 60), ('zscan', 6 if q else 30), ('colormem', 18 if q else 72), ('zmask', 4 if q else 30)):
        out += [{'kind': kind, 'region': rg[(j * 2 + len(kind)) % len(rg)], 'cls': ['full', 'holes'][j % 2], 'j': j, 'seed': seed * 9203 + 131 * j + len(kind)} for j in range(n)]
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    np.random.seed(case['seed'] % 2**31)
    quiet_noise()
    d = env.tmp()
    {'runcat': do_runcat, 'zscan': do_zscan, 'colormem': do_colormem, 'zmask': do_zmask}[case['kind']](rng, case, mon, env, d)


def survey(rng, case, env, d, zreds, brink=False, **opts):
    def places(rng, t):
        crowd(2)(rng, t)
        if brink:
            # the last cluster straddles the border of the footprint
            t['n'][-1] = rng.randint(40, 90)
            t['ra'][-1], t['dec'][-1] = world.offset(*skygen.REGIONS[case['region']], 1.2 + rng.uniform(-0.1, 0.3) / world.mpc_per_deg(float(t['z'][-1])), rng.uniform(0, 6.28))
    nodepth = case['kind'] != 'zscan' and case['j'] % 4 == 3
    w = world.make(rng, env, d, region=case['region'], size=2.4, depth=not nodepth, ncl=int(rng.choice([4, 8])) + brink, nfield=int(rng.choice([200, 700])), cls=case['cls'], nmin=12, nmax=60, zlo=0.12, zhi=0.4,
                   places=places, maskgal_nsamples=1, uniform_depth=[True, 'slope', False][case['j'] % 3], **opts)
    zt = None
    if zreds:
        cfg0 = rmx.test_config(env, d, **w.over)
        zt = zreds_of(w, rmx.zredstr(env, fine=True), cfg0)
    w.zt = zt
    master, zmaster, _ = rmx.write_galtable(os.path.join(d, 'tab'), w.g, 16 if case['region'] not in ('npole', 'spole') else 32, zreds=zt)
    return w, dict(w.over, galfile=master, zredfile=zmaster if zreds else None, outbase='t')


def positions(rng, w, nextra=3, brink=False):
    """the true clusters, galaxies, points on blank sky and points out of the footprint."""
    g = w.g
    n = w.true.size
    k = rng.permutation(np.where(g['halo_id'] > 0)[0])[:3]
    br, bd = skygen.sky_points(rng, w.region, nextra, w.size * 0.9)
    far = world.offset(*skygen.REGIONS[w.region], 0.97 * w.size / 2 + 0.05, rng.uniform(0, 6.28))
    ra = np.concatenate([w.true['ra'], g['ra'][k], br, [far[0]]])
    dec = np.concatenate([w.true['dec'], g['dec'][k], bd, [far[1]]])
    z = np.concatenate([w.true['z'] + rng.normal(size=n) * rng.choice([0.0, 0.004, 0.02]), g['ztrue'][k], rng.uniform(0.1, 0.45, nextra), [0.2]])
    if brink:
        # across the border, little by little, where a measurement loses more and more of its area
        q = w.true[-1]
        x = np.linspace(-0.5, 0.9, 12) + rng.uniform(0, 0.1)
        pr, pd = world.offset(*skygen.REGIONS[w.region], w.size / 2 + x / world.mpc_per_deg(float(q['z'])), bearing(*skygen.REGIONS[w.region], q['ra'], q['dec']))
        ra, dec, z = np.concatenate([ra, pr]), np.concatenate([dec, pd]), np.concatenate([z, np.full(x.size, q['z'])])
    o = rng.permutation(ra.size)
    return ra[o], dec[o], np.clip(z[o], 0.08, 0.5).astype('f4')


def sep(a, b, c, d):
    a, b, c, d = np.radians([a, b, c, d])
    return np.degrees(2 * np.arcsin(np.sqrt(np.sin((d - b) / 2)**2 + np.cos(b) * np.cos(d) * np.sin((c - a) / 2)**2)))


def bearing(ra0, dec0, ra, dec):
    a, d0, d = np.radians(ra - ra0), np.radians(dec0), np.radians(dec)
    return np.arctan2(np.sin(a) * np.cos(d), np.cos(d0) * np.sin(d) - np.sin(d0) * np.cos(d) * np.cos(a))


def write_positions(fn, ra, dec, z, ids, upper):
    t = np.zeros(ra.size, dtype=[(s.upper() if upper else s, f) for s, f in (('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('flag', 'i2'))])
    for k, v in zip(t.dtype.names, (ids, ra, dec, z, np.arange(ra.size))):
        t[k] = v
    fitsio.write(fn, t, clobber=True)
    return open(fn, 'rb').read()


def limit(cfg):
    lim = max(cfg.lval_reference - 0.1, 0.01)
    bylum = cfg.percolation_memlum is not None and 0 < cfg.percolation_memlum < cfg.lval_reference
    if bylum:
        lim = min(lim, cfg.percolation_memlum)
    if cfg.percolation_lmask > 0:
        lim = min(lim, cfg.percolation_lmask)
    return lim, bylum


def slopes(mon, name, row, c, ref, cfg, z, lam, wi):
    eps = cfg.zlambda_epsilon
    q = c.copy()
    q.redshift = float(z) - eps
    l0, e0 = float(q.calc_richness(ref.mask)), float(q.Lambda_e)
    q.redshift = float(z) + eps
    l1, e1 = float(q.calc_richness(ref.mask)), float(q.Lambda_e)
    if l0 > 0 and l1 > 0:
        lame = float(c.Lambda_e)
        want = [(np.log(l1) - np.log(l0)) / 2 / eps, (np.log(l1) + np.log(l0) - 2 * np.log(lam)) / eps**2, (e1**2 - e0**2) / 2 / eps, (e1**2 + e0**2 - 2 * lame**2) / eps**2]
        got = [row['dlambda_dz'], row['dlambda_dz2'], row['dlambdavar_dz'], row['dlambdavar_dz2']]
        tol = [0.2 + 0.006 / lam / eps, 5e-3 / eps**2, 0.2 + 0.02 * lame**2 / eps, 0.04 * lame**2 / eps**2 + 1]
        mon.check(name, all(abs(a - b) <= t + 0.02 * abs(b) for a, b, t in zip(got, want, tol)), got=got, want=want, **wi)
    elif l0 <= 0 and l1 <= 0 or min(l0, l1) <= 0 < 2.9 < max(l0, l1):
        got = [float(row[k]) for k in ('dlambda_dz', 'dlambda_dz2', 'dlambdavar_dz', 'dlambdavar_dz2')]
        mon.check(name + '_unset', np.all(np.isfinite(got)), got=got, l0=l0, l1=l1, **wi)


def judge_members(mon, pre, m, c, cfg, bylum, zreds, cand, wi):
    N = c.neighbors
    g = N._ndarray
    p, pm, pf = [np.asarray(getattr(N, k)).astype('f8') for k in ('p', 'pmem', 'pfree')]
    rm = np.asarray(N.refmag)
    amb = np.abs(pf - 0.01) < 1e-3
    if bylum:
        y = c.mstar - 2.5 * np.log10(cfg.percolation_memlum)
        ok = (p > 0.01) & (rm < y)
        amb |= (np.abs(p - 0.01) < 3e-4) | (np.abs(rm - y) < 2e-3)
    else:
        ok = pm > 0.01
        amb |= np.abs(pm - 0.01) < 3e-4
    has = ok & (pf > 0.01)
    ids = g['id']
    must, may = set(ids[(has & ~amb) | cand]), set(ids[has | amb | cand])
    have = list(m['id'])
    mon.check(pre + '_members', len(set(have)) == len(have) and must <= set(have) <= may, missing=sorted(must - set(have))[:5], extra=sorted(set(have) - may)[:5], n=len(have), **wi)
    at = {int(a): j for j, a in enumerate(ids)}
    kk = [k for k, a in enumerate(have) if int(a) in at]
    if not kk:
        return
    j = np.array([at[int(have[k])] for k in kk])
    m = m[kk]
    good = np.allclose(m['p'], p[j], atol=3e-3) and np.allclose(m['r'], np.asarray(N.r)[j], rtol=1e-3, atol=1e-4) and np.allclose(m['theta_i'], np.asarray(N.theta_i)[j], atol=3e-3) and \
        np.allclose(m['theta_r'], np.asarray(N.theta_r)[j], atol=1.2e-2) and np.allclose(m['pcol'], np.asarray(N.pcol)[j], atol=4e-3) and np.allclose(m['chisq'], np.asarray(N.chisq)[j], rtol=1e-2, atol=1e-2)
    nm = 'cat_member_values' if pre == 'cat' else pre + '_members'
    mon.check(nm, good, what='membership values', **wi)
    names = ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'ebv') + (('zred', 'zred_e') if zreds else ())
    mon.check(nm, all(np.array_equal(m[k], g[k][j]) for k in names), what='copied values', **wi)
    s = ~amb[j]
    mon.check(nm, np.allclose(m['pfree'][s], np.where(ok[j], pf[j], 0.0)[s], atol=5e-3), what='pfree', **wi)
    return True


def percolate(cfg, ref, c, pgal, r0, beta):
    """the mask radius of a kept cluster; its members leave the book."""
    lam = float(c.Lambda)
    rm = r0 * (lam / 100.)**beta * ((1 + float(c.redshift)) / (1 + cfg.percolation_rmask_zpivot))**cfg.percolation_rmask_gamma
    rm = max(rm, float(c.r_lambda))
    lmask = cfg.lval_reference if cfg.percolation_lmask < 0 else cfg.percolation_lmask
    N = c.neighbors
    p = np.asarray(N.p).astype('f8')
    t = (np.asarray(N.refmag) < c.mstar - 2.5 * np.log10(lmask)) & (np.asarray(N.r) < rm) & (p > 0)
    pgal[np.asarray(N.index)[t]] += p[t]
    return rm


def failed_row(o):
    return all(o[k] == -1 for k in ('lambda', 'lambda_e', 'scaleval', 'z_lambda', 'z_lambda_e'))


# ---------------------------------------------------------------------------------------------------------------- runcat
def do_runcat(rng, case, mon, env, d):
    from redmapper.runcat import RunCatalog
    from redmapper.zlambda import Zlambda
    opts = {'percolation_lmask': float(rng.choice([0.1, -1.0, 0.2, 0.05])), 'use_tempfiles_to_conserve_memory': bool(rng.uniform() < 0.3)}
    if rng.uniform() < 0.4:
        opts['percolation_memlum'] = float(rng.choice([0.15, 0.05]))
    if rng.uniform() < 0.5:
        opts['zlambdafile'] = zcorr_file(rng, os.path.join(d, 'zc.fit'))
    if case['j'] % 3 == 2:
        # a red sequence with another bright limit
        opts['lval_reference'] = 0.3
    opts['bkg_local_compute'] = case['j'] % 5 in (1, 3)
    w, over = survey(rng, case, env, d, False, brink=True, **opts)
    ra, dec, z = positions(rng, w, brink=True)
    n = ra.size
    given = case['j'] % 2 == 1
    ids = (rng.permutation(10 * n)[:n] + 1) if given else np.full(n, int(rng.choice([0, 7])))
    catf = os.path.join(d, 'in.fit')
    raw = write_positions(catf, ra, dec, z, ids, bool(rng.randint(2)))
    cfg = rmx.test_config(env, d, **dict(over, catfile=catf))
    kw = {}
    if case['j'] % 3 == 1 or rng.uniform() < 0.4:
        kw['do_percolation_masking'] = True
    if rng.uniform() < 0.5:
        kw['converge_zlambda'] = True
        if rng.uniform() < 0.4:
            kw['maxiter'] = int(rng.choice([1, 2]))
        if rng.uniform() < 0.6:
            kw['tol'] = float(rng.choice([2e-4, 1e-3, 0.02]))
    wit = dict(region=case['region'], cls=case['cls'], opts={k: v for k, v in opts.items() if not isinstance(v, str)}, run=kw)
    R = RunCatalog(cfg)
    R.run(**kw)
    mon.check('inputs_untouched', open(catf, 'rb').read() == raw, **wit)
    out, mem = R.cat, R.members
    if not mon.check('cat_rows', out is not None and out.size == n and np.array_equal(out.ra, ra) and np.array_equal(out.dec, dec) and np.array_equal(np.sort(out.flag), np.arange(n)), **wit):
        return
    want_ids = ids if given else np.arange(n) + 1
    mon.check('ids', np.array_equal(out.mem_match_id, want_ids), got=out.mem_match_id, want=want_ids, **wit)
    ref = Ref(cfg, over['galfile'], None, False)
    lim, bylum = limit(cfg)
    perc = kw.get('do_percolation_masking', False)
    pgal = np.zeros(ref.g.size)
    nfail = noverlap = 0
    G = ref.g
    for i in range(n):
        wi = dict(wit, row=i, ra=float(ra[i]), dec=float(dec[i]), z=float(z[i]))
        o = out._ndarray[i]
        # the galaxy at the position
        s = skygen.sep(ra[i], dec[i], np.asarray(G.ra), np.asarray(G.dec)) * 3600
        k = np.where(s < 1.0)[0]
        if k.size == 1 and abs(s[k[0]] - 1) > 0.05:
            q = G._ndarray[k[0]]
            mon.check('cat_center', o['refmag'] == q['refmag'] and o['refmag_err'] == q['refmag_err'] and np.array_equal(o['mag'], q['mag']) and np.array_equal(o['mag_err'], q['mag_err']), **wi)
        elif k.size == 0:
            mon.check('cat_center', o['refmag'] == 0 and np.all(o['mag'] == 0), none_here=True, **wi)
        c = ref.cluster(ra[i], dec[i], z[i], 'percolation', lim)
        res, edge = None, False
        if c is not None:
            if perc:
                c.neighbors.pfree[:] = np.clip(1 - pgal[np.asarray(c.neighbors.index)], 0, None)
                noverlap += int(np.any(c.neighbors.pfree < 0.9))
            edge |= near(c.maskfrac, 0.7, 1e-3)
            if 0.6 < c.maskfrac < 0.8:
                mon.event('area_loss_near_limit')
            good = c.maskfrac <= 0.7
            for it in range(kw.get('maxiter', 5)):
                if not good:
                    break
                lam = float(c.calc_richness(ref.mask))
                edge |= near(lam, 3.0, 0.01)
                if lam < 3.0:
                    good = False
                    break
                zl = Zlambda(c)
                zz, ze = zl.calc_zlambda(c.redshift, ref.mask, calc_err=True, calcpz=True)
                if zz < 0:
                    good = False
                    edge = True
                    break
                if not kw.get('converge_zlambda'):
                    break
                dz = abs(float(c.redshift) - zz)
                c.redshift = zz
                tol = kw.get('tol', 0.005)
                if abs(dz - tol) < 0.05 * tol + 2e-4 * (tol > 5e-4):
                    edge = True
                if dz < tol:
                    break
            if good:
                res = (float(zz), float(ze), np.array(zl.pzbins), np.array(zl.pz))
        bad = failed_row(o)
        if edge:
            mon.event('left_at_threshold')
            if perc:
                return
            continue
        if not mon.check('cat_failed', bad == (res is None), failed=bad, got=(o['lambda'], o['z_lambda']), maskfrac=o['maskfrac'], **wi):
            return
        m = mem._ndarray[mem.mem_match_id == out.mem_match_id[i]] if mem is not None else []
        if res is None:
            nfail += 1
            mon.check('cat_members', len(m) == 0, members_of_failed=len(m), **wi)
            continue
        zz, ze, pb, pz = res
        lam = float(c.Lambda)
        if ref.zc is not None:
            zz, ze, pb, pz = ref.zc.apply_correction(lam, zz, ze, pzbins=np.array(pb, dtype='f4'), pzvals=np.array(pz, dtype='f4'))
        v = [o[k] for k in ('lambda', 'lambda_e', 'r_lambda', 'scaleval', 'z_lambda', 'z_lambda_e', 'maskfrac')]
        want = [lam, float(c.Lambda_e), float(c.r_lambda), float(c.scaleval), float(zz), float(ze), ref.frac(float(c.r_lambda))]
        if not mon.check('cat_values', np.allclose(v, want, rtol=3e-3, atol=4e-4), got=v, want=want, **wi):
            return
        mon.check('cat_values', near(float(o['lim_exptime']), float(c.lim_exptime), 1e-5) and near(float(o['lim_limmag']), float(c.lim_limmag), 1e-5) and
                  near(float(o['lim_limmag_hard']), cfg.limmag_catalog, 1e-5), what='depth', **wi)
        judge_local(mon, 'cat_local', o, c, ref, cfg, wi)
        mon.check('cat_pz', np.allclose(o['pzbins'], pb, atol=4e-4) and np.allclose(o['pz'], pz, rtol=2e-2, atol=0.02 * np.max(pz)) and abs(np.trapz(o['pz'], o['pzbins']) - 1) < 0.03, **wi)
        slopes(mon, 'cat_slopes', o, c, ref, cfg, zz, lam, wi)
        judge_members(mon, 'cat', m, c, cfg, bylum, False, np.zeros(c.neighbors.size, dtype=bool), wi)
        mon.check('cat_member_values', np.allclose(m['z'], float(c.redshift), atol=4e-4), **wi)
        if perc:
            rm = percolate(cfg, ref, c, pgal, cfg.percolation_rmask_0, cfg.percolation_rmask_beta)
            mon.check('cat_values', near(float(o['r_mask']), rm, 3e-3), r_mask=o['r_mask'], want=rm, **wi)
    if mem is not None:
        mon.check('cat_members', np.all(np.isin(mem.mem_match_id, out.mem_match_id[out.Lambda > 0])), **wit)
    mon.distinct('runcat', case['region'], n, nfail, noverlap, tuple(sorted(kw)), bylum, given)
    mon.sample({'runcat': n, 'failed': nfail, 'overlapping': noverlap, 'members': 0 if mem is None else mem.size})
    save(mon, R, wit)
    # a list of one
    i = int(rng.randint(n))
    one = int(rng.choice([0, 1, 42]))
    write_positions(catf, ra[i:i + 1], dec[i:i + 1], z[i:i + 1], [one], False)
    R = RunCatalog(rmx.test_config(env, d, **dict(over, catfile=catf)))
    R.run()
    mon.check('ids', R.cat.size == 1 and R.cat.mem_match_id[0] == (one or 1) and (R.members is None or np.all(R.members.mem_match_id == (one or 1))), what='a list of one', given=one, got=R.cat.mem_match_id[:], **wit)
    # two rows with one id
    bad = ids.copy() if given else np.arange(n) + 1
    bad[-1] = bad[0]
    raw = write_positions(catf, ra, dec, z, bad, False)
    R = RunCatalog(rmx.test_config(env, d, **dict(over, catfile=catf)))
    try:
        R.run()
        mon.violation('ids_refused', ids=bad, **wit)
    except RuntimeError:
        mon.event('ids_refused')


def save(mon, R, wit):
    R.output(savemembers=True, withversion=False, clobber=False)
    mf = R.filename.replace('_catalog', '_catalog_members')
    mon.check('files', same_file(R.filename, R.cat._ndarray) and (R.members is None or same_file(mf, R.members._ndarray)), file=R.filename, **wit)


# ---------------------------------------------------------------------------------------------------------------- zscan
def do_zscan(rng, case, mon, env, d):
    from redmapper.run_zscan import RunZScan
    from redmapper.zlambda import Zlambda
    from redmapper.centering import CenteringWcenZred, CenteringBCG
    opts = {'zscan_zstep': float(rng.choice([0.02, 0.035, 0.013])), 'zscan_r0': float(rng.choice([0.5, 0.7])), 'zscan_beta': float(rng.choice([0.0, 0.2])), 'zscan_minlambda': float(rng.choice([3.0, 5.0])),
            'zrange': [0.1, float(rng.choice([0.33, 0.4]))], 'centerclass': str(rng.choice(['CenteringWcenZred', 'CenteringBCG']))}
    if rng.uniform() < 0.5:
        opts['zlambdafile'] = zcorr_file(rng, os.path.join(d, 'zc.fit'))
    w, over = survey(rng, case, env, d, True, **opts)
    ra, dec, z = positions(rng, w, 2)
    n = ra.size
    catf = os.path.join(d, 'in.fit')
    raw = write_positions(catf, ra, dec, z, np.zeros(n), False)
    cfg = rmx.test_config(env, d, **dict(over, catfile=catf))
    wit = dict(region=case['region'], cls=case['cls'], opts={k: v for k, v in opts.items() if k != 'zlambdafile'})
    R = RunZScan(cfg)
    R.run()
    mon.check('inputs_untouched', open(catf, 'rb').read() == raw, **wit)
    out, mem = R.cat, R.members
    mon.check('scan_rows', np.all(np.diff(out.mem_match_id) > 0) and np.all((out.mem_match_id >= 1) & (out.mem_match_id <= n)), ids=out.mem_match_id[:], **wit)
    where = {int(out.mem_match_id[i]): i for i in range(out.size)}
    ref = Ref(cfg, over['galfile'], over['zredfile'], False, zredbkg=True)
    lim = max(cfg.lval_reference - 0.1, 0.01)
    nz = int(np.ceil((cfg.zrange[1] - cfg.zrange[0]) / cfg.zscan_zstep))
    za = np.arange(nz) * cfg.zscan_zstep + cfg.zrange[0]
    mr = 1.2 * cfg.zscan_r0 if cfg.zscan_beta == 0 else cfg.zscan_r0 * 3.**cfg.zscan_beta
    mn = cfg.zscan_minlambda
    pr = 1.2 * cfg.percolation_r0 if cfg.percolation_beta == 0 else cfg.percolation_r0 * 3.**cfg.percolation_beta
    Ce = {'CenteringWcenZred': CenteringWcenZred, 'CenteringBCG': CenteringBCG}[cfg.centerclass]
    from redmapper import Cluster
    kept = 0
    for i in range(n):
        wi = dict(wit, ra=float(ra[i]), dec=float(dec[i]))
        c = Cluster(config=cfg, zredstr=ref.zr, bkg=ref.bkg, r0=cfg.zscan_r0, beta=cfg.zscan_beta, zredbkg=ref.zb)
        c.ra, c.dec = float(ra[i]), float(dec[i])
        c.redshift = za[0]
        ref.mask.select_maskgals_sample(0)
        c.find_neighbors(mr, ref.g, megaparsec=True)
        k = where.get(i + 1)
        if c.neighbors.size == 0:
            mon.check('scan_rows', k is None, what='no galaxies', **wi)
            continue
        c.neighbors.pfree[:] = 1.0
        ref.environ(c)
        if ref.frac(1.0) == 1.0 or np.median(ref.mask.maskgals.limmag) <= 1.0:
            mon.check('scan_rows', k is None, what='masked', **wi)
            continue
        limmag = float(np.median(ref.mask.maskgals.limmag))
        lams, likes = np.full(nz, -1.0), np.full(nz, -1.0)
        edge = False
        for b in range(nz):
            c.redshift = za[b]
            c.update_neighbors_dist()
            r = np.asarray(c.neighbors.r)
            lc = np.where((np.asarray(c.neighbors.refmag) < c.mstar - 2.5 * np.log10(lim)) & (r < mr))[0]
            if lc.size < 2:
                continue
            ref.environ(c)
            lam = float(c.calc_richness(ref.mask, index=lc, calc_err=False))
            edge |= near(lam, mn, 0.01)
            if lam < mn:
                continue
            pm = np.asarray(c.neighbors.pmem).astype('f8')
            inc = (pm > 0) & (pm < 1) & (r > 1e-6)
            lams[b] = lam
            likes[b] = -lam / float(c.scaleval) - np.sum(np.log(1 - pm[inc])) if inc.any() else -1.0
        b = int(np.argmax(likes))
        so = np.sort(likes)
        if nz > 1 and so[-1] - so[-2] < 0.02 * max(1.0, abs(so[-1])) and so[-1] != -1:
            edge = True
        res = None
        if lams[b] >= mn:
            zu = float(np.float32(za[b]))
            c.r0, c.beta = cfg.percolation_r0, cfg.percolation_beta
            c.redshift = zu
            c.find_neighbors(2 * pr, ref.g, megaparsec=True, maxmag=c.mstar - 2.5 * np.log10(lim))
            good = True
            zz = -1.0
            for it in range(2):
                c.redshift = zu
                ref.environ(c)
                lam = float(c.calc_richness(ref.mask))
                edge |= near(lam / float(c.scaleval), mn, 0.01) or near(lam, mn, 0.01)
                if lam / float(c.scaleval) < mn:
                    good = False
                    break
                if it == 0:
                    zl = Zlambda(c)
                    zz, ze = zl.calc_zlambda(c.redshift, ref.mask, calc_err=True, calcpz=True)
                    pb, pz = np.array(zl.pzbins), np.array(zl.pz)
                    if zz < 0:
                        good = False
                        edge = True
                        break
                    zu = zz
            if good and lam >= mn:
                res = (zz, ze, pb, pz)
        if edge:
            mon.event('left_at_threshold')
            continue
        if not mon.check('scan_rows', (k is None) == (res is None), kept=k is not None, best=float(lams[b]), **wi) or res is None:
            continue
        kept += 1
        o = out._ndarray[k]
        mon.check('scan_grid', np.allclose(o['z_steps'], za, atol=1e-6) and np.allclose(o['lambda_steps'], lams, rtol=4e-3, atol=1e-2) and np.allclose(o['likelihood_steps'], likes, rtol=1e-2, atol=5e-2),
                  got=o['likelihood_steps'], want=likes, **wi)
        mon.check('scan_peak', o['max_ind'] == b and near(float(o['zmax']), za[b], 1e-5) and o['lmax'] == o['likelihood_steps'][b] and o['lmax'] == o['likelihood_steps'].max(), got=(o['max_ind'], o['zmax']), want=b, **wi)
        mon.check('scan_values', o['ra'] == ra[i] and o['dec'] == dec[i] and o['ra_orig'] == ra[i] and o['dec_orig'] == dec[i], what='the position moved', **wi)
        zz, ze, pb, pz = res
        c.redshift = zz
        lam = float(c.Lambda)
        zc, zce = zz, ze
        if ref.zc is not None:
            zc, zce, pb, pz = ref.zc.apply_correction(lam, zz, ze, pzbins=np.array(pb, dtype='f4'), pzvals=np.array(pz, dtype='f4'))
        v = [o[x] for x in ('lambda', 'lambda_e', 'r_lambda', 'scaleval', 'z_lambda', 'z_lambda_e', 'maskfrac', 'lim_limmag')]
        want = [lam, float(c.Lambda_e), float(c.r_lambda), float(c.scaleval), float(zc), float(zce), ref.frac(float(c.r_lambda)), limmag]
        mon.check('scan_values', np.allclose(v, want, rtol=4e-3, atol=5e-4), got=v, want=want, **wi)
        mon.check('scan_values', np.allclose(o['pzbins'], pb, atol=5e-4) and np.allclose(o['pz'], pz, rtol=3e-2, atol=0.03 * np.max(pz)), what='pz', **wi)
        slopes(mon, 'scan_values', o, c, ref, cfg, zc, lam, wi)
        ce = Ce(c)
        found = ce.find_center() and ce.ngood > 0
        cand = np.zeros(c.neighbors.size, dtype=bool)
        g = c.neighbors._ndarray
        if found:
            ng = int(ce.ngood)
            ix = np.asarray(ce.index)[:ng]
            if ng > 1 and ce.p_c[0] - ce.p_c[1] < 1e-3:
                continue
            i0 = int(ix[0])
            if not mon.check('scan_center', o['ra_opt'] == g['ra'][i0] and o['dec_opt'] == g['dec'][i0] and o['refmag'] == g['refmag'][i0] and np.array_equal(o['mag'], g['mag'][i0]) and
                             o['zred'] == g['zred'][i0] and o['ncent_good'] == ng and np.array_equal(o['id_cent'][:ng], g['id'][ix]) and np.all(o['id_cent'][ng:] == 0) and
                             np.allclose(o['p_cen'], ce.p_cen, atol=3e-3) and np.allclose(o['q_cen'], ce.q_cen, atol=3e-3) and np.allclose(o['p_sat'], ce.p_sat, atol=3e-3) and
                             np.allclose(o['p_fg'], ce.p_fg, atol=3e-3) and np.array_equal(o['ra_cent'][:ng], g['ra'][ix]), got=(o['ra_opt'], o['dec_opt'], o['id_cent']), want=g['id'][ix], **wi):
                continue
            q = c.copy()
            q.ra, q.dec = float(g['ra'][i0]), float(g['dec'][i0])
            q.update_neighbors_dist()
            q.calc_richness(ref.mask)
            zo, zoe = Zlambda(q).calc_zlambda(q.redshift, ref.mask, calc_err=True, calcpz=False)
            v, want = [o[x] for x in ('lambda_opt', 'lambda_opt_e', 'z_lambda_opt', 'z_lambda_opt_e')], [float(q.Lambda), float(q.Lambda_e), float(zo), float(zoe)]
            mon.check('scan_opt', np.allclose(v, want, rtol=4e-3, atol=5e-4), got=v, want=want, **wi)
        else:
            mon.check('scan_center', o['ra_opt'] == 0 and o['ncent_good'] == 0, **wi)
        m = mem._ndarray[mem.mem_match_id == i + 1]
        judge_members(mon, 'scan', m, c, cfg, False, True, cand, wi)
    mon.check('scan_rows', mem is None or np.all(np.isin(mem.mem_match_id, out.mem_match_id)), what='members without a cluster', **wit)
    mon.distinct('zscan', case['region'], n, kept, nz, cfg.centerclass, ref.zc is not None)
    mon.sample({'zscan': n, 'kept': out.size, 'judged': kept, 'steps': nz})
    save(mon, R, wit)


# ---------------------------------------------------------------------------------------------------------------- colour members
def do_colormem(rng, case, mon, env, d):
    from redmapper.run_colormem import RunColormem
    from redmapper import ColorBackground, RedSequenceColorPar, Cluster
    from scipy.interpolate import CubicSpline as CS
    opts = {'calib_colormem_minlambda': float(rng.choice([3.0, 6.0])), 'calib_colormem_smooth': float(rng.choice([0.0, 0.003])), 'calib_pcut': float(rng.choice([0.3, 0.5])),
            'calib_colormem_zbounds': [float(rng.choice([0.25, 0.33]))], 'calib_colormem_colormodes': [1, 2], 'calib_colormem_sigint': [0.05, 0.03], 'zrange': [0.1, float(rng.choice([0.3, 0.45]))],
            'percolation_lmask': float(rng.choice([0.1, -1.0])), 'max_maskfrac': float(rng.choice([0.1, 0.2]))}
    if rng.uniform() < 0.4:
        opts['calib_colormem_r0'], opts['calib_colormem_beta'] = 0.6, 0.1
    w, over = survey(rng, case, env, d, False, brink=True, **opts)
    zr = rmx.zredstr(env, fine=True)
    nodes = np.linspace(0.05, 0.55, 9)
    zi = np.clip(np.searchsorted(np.asarray(zr.z), nodes), 0, np.asarray(zr.z).size - 1)
    meancol = np.asarray(zr.c)[zi].astype('f8')
    md = np.zeros(1, dtype=[('nodes', 'f8', nodes.size), ('meancol', 'f8', meancol.shape)])
    md['nodes'][0], md['meancol'][0] = nodes, meancol
    rgm = os.path.join(d, 'redgalmodel.fit')
    fitsio.write(rgm, md, clobber=True)
    # spectroscopic red galaxies: centrals and satellites
    g = w.g
    k = np.concatenate([np.where(g['central'] == 1)[0], rng.permutation(np.where((g['halo_id'] > 0) & (g['central'] == 0))[0])[:8], rng.permutation(np.where(g['halo_id'] == 0)[0])[:3]])
    # and the galaxies of the cluster that straddles the border of the footprint, which has lost area
    k = np.union1d(k, rng.permutation(np.where(g['halo_id'] == w.true.size)[0])[:3])
    k = rng.permutation(k)
    t = np.zeros(k.size, dtype=[('id', 'i4'), ('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('mag', 'f4', 5), ('mag_err', 'f4', 5), ('refmag', 'f4'), ('refmag_err', 'f4')])
    for nme in ('id', 'ra', 'dec', 'mag', 'mag_err', 'refmag', 'refmag_err'):
        t[nme] = g[nme][k]
    t['z'] = g['ztrue'][k]
    rgf = os.path.join(d, 'redgals.fit')
    fitsio.write(rgf, t, clobber=True)
    raw = open(rgf, 'rb').read(), open(rgm, 'rb').read()
    zmem = os.path.join(d, 'zmem.fit')
    cfg = rmx.test_config(env, d, **dict(over, redgalfile=rgf, redgalmodelfile=rgm, zmemfile=zmem))
    wit = dict(region=case['region'], cls=case['cls'], opts=opts)
    t = t[(t['z'] > cfg.zrange[0]) & (t['z'] < cfg.zrange[1])]
    if t.size == 0:
        return
    # the measurement of one seed given what is taken
    cb = ColorBackground(cfg.bkgfile_color, usehdrarea=True)
    ref = Ref(cfg, over['galfile'], None, False)
    from redmapper import GalaxyCatalog
    ref.g = GalaxyCatalog.from_galfile(over['galfile'])
    ref.zr = RedSequenceColorPar(None, config=cfg)
    lim = max(cfg.lval_reference - 0.1, 0.01)
    pgal = np.zeros(ref.g.size)
    r0, beta, mr = ref.radius('calib_colormem')
    spl = [CS(nodes, meancol[:, j], bc_type='natural') for j in range(meancol.shape[1])]
    tol_edge = [False]      # did the last measurement sit on a threshold?
    reach = [np.zeros(0, dtype=int)]    # and the galaxies it could claim

    def measure(i, pfree):
        c = Cluster(config=cfg, zredstr=ref.zr, cbkg=cb, r0=r0, beta=beta)
        c.ra, c.dec = float(t['ra'][i]), float(t['dec'][i])
        c.redshift = t['z'][i]
        tol_edge[0], reach[0] = False, np.zeros(0, dtype=int)
        ref.mask.select_maskgals_sample(0)
        c.find_neighbors(mr, ref.g, megaparsec=True, maxmag=c.mstar - 2.5 * np.log10(lim))
        if c.neighbors.size == 0:
            return None
        reach[0] = np.array(c.neighbors.index)
        c.neighbors.pfree[:] = 1.0 if pfree is None else np.clip(1 - pfree[np.asarray(c.neighbors.index)], 0, None)
        ref.environ(c)
        if ref.frac(1.0) == 1.0 or np.median(ref.mask.maskgals.limmag) <= 1.0:
            return None
        mode = 1 if t['z'][i] <= cfg.calib_colormem_zbounds[0] else 2
        lam = float(c.calc_richness_fit(ref.mask, mode, calc_err=False, centcolor_in=np.float32(spl[mode](t['z'][i]))))
        pb = float(np.asarray(c.neighbors.pmem)[int(np.argmin(c.neighbors.r))])
        if near(lam / float(c.scaleval), cfg.calib_colormem_minlambda, 0.01) or near(pb, cfg.calib_pcut, 0.01):
            tol_edge[0] = True
        if lam / float(c.scaleval) < cfg.calib_colormem_minlambda or pb < cfg.calib_pcut:
            return None
        return c, lam, pb
    if case['j'] % 3 == 1:
        # a cut that only the scaling for lost area decides, for some seed
        got = [measure(i, None) for i in range(t.size)]
        full = [m[1] / float(m[0].scaleval) for m in got if m is not None]
        # ... and which others pass, if there is such a one
        s = sorted([(-sum(f > 1.02 * m[1] / float(m[0].scaleval)**0.5 for f in full), m[1], float(m[0].scaleval)) for m in got if m is not None and float(m[0].scaleval) > 1.06])
        if s:
            _, a, b = s[0]
            cfg.calib_colormem_minlambda = float(a / b**0.5)
            wit['minlambda'] = cfg.calib_colormem_minlambda
            mon.event('cut_between')
    R = RunColormem(cfg)
    from redmapper.catalog import Catalog
    try:
        R.run()
        out, mem = R.cat, R.members
    except (AttributeError, IndexError):
        if R.members is not None and R.cat.size > 0:
            raise
        # nothing at all was found, or kept, so there is no training sample: that must be what the seeds call for
        mon.event('colormem_nothing_found')
        out = mem = Catalog(np.zeros(0, dtype=[('ra', 'f8'), ('dec', 'f8'), ('mem_match_id', 'i4')]))
    mon.check('inputs_untouched', (open(rgf, 'rb').read(), open(rgm, 'rb').read()) == raw, **wit)
    first = np.full(t.size, -1.0)
    reaches, open_ = [], np.zeros(t.size, dtype=bool)
    for i in range(t.size):
        m = measure(i, None)
        if m is not None:
            first[i] = m[1]
        open_[i] = tol_edge[0]
        reaches.append(reach[0])
    order = np.argsort(-first)
    # equal richness leaves the order open, which matters where the two reach the same galaxies
    v = np.where(first > 0)[0]
    v = v[np.argsort(first[v])]
    for a, b in [(a, b) for x, a in enumerate(v) for b in v[x + 1:x + 4]]:
        if first[b] - first[a] < 3e-3 * first[b] and np.intersect1d(reaches[a], reaches[b]).size:
            open_[a] = open_[b] = True
    # what a seed whose fate rounding decides could claim is unknown to every seed that reaches it
    murky = np.zeros(ref.g.size, dtype=bool)
    for i in np.where(open_)[0]:
        murky[reaches[i]] = True
    if open_.any():
        mon.event('left_at_threshold', int(open_.sum()))
    got = {(float(out.ra[i]), float(out.dec[i])): i for i in range(out.size)}
    mon.check('colmem_rows', len(got) == out.size and all(any(a == (float(x), float(y)) for x, y in zip(t['ra'], t['dec'])) for a in got), rows=out.size, **wit)
    mon.check('ids', np.unique(out.mem_match_id).size == out.size and np.all((out.mem_match_id >= 1) & (out.mem_match_id <= t.size)), **wit)
    kept = noverlap = 0
    for i in order:
        if open_[i] or murky[reaches[i]].any():
            murky[reaches[i]] = True
            continue
        m = measure(i, pgal)
        if tol_edge[0]:
            murky[reaches[i]] = True
            continue
        wi = dict(wit, ra=float(t['ra'][i]), dec=float(t['dec'][i]), z=float(t['z'][i]))
        res = None
        if m is not None:
            c, lam, pb = m
            mf = ref.frac(float(c.r_lambda))
            if near(mf, cfg.max_maskfrac, 1e-3):
                murky[reaches[i]] = True
                continue
            noverlap += int(np.any(c.neighbors.pfree < 0.9))
            rm = percolate(cfg, ref, c, pgal, cfg.calib_colormem_r0, cfg.calib_colormem_beta)
            if mf < cfg.max_maskfrac:
                res = (lam, pb, mf, rm)
        k = got.get((float(t['ra'][i]), float(t['dec'][i])))
        if not mon.check('colmem_rows', (k is None) == (res is None), kept=k is not None, want=res, **wi):
            return
        if res is None:
            continue
        kept += 1
        o = out._ndarray[k]
        v = [o[x] for x in ('lambda', 'r_lambda', 'scaleval', 'maskfrac', 'r_mask', 'z', 'z_init')]
        want = [lam, float(c.r_lambda), float(c.scaleval), mf, rm, t['z'][i], t['z'][i]]
        mon.check('colmem_values', np.allclose(v, want, rtol=4e-3, atol=5e-4), got=v, want=want, **wi)
        mon.check('colmem_values', o['refmag'] == t['refmag'][i] and np.array_equal(o['mag'], t['mag'][i]) and o['id'] == t['id'][i], what='copied', **wi)
        mm = mem._ndarray[mem.mem_match_id == o['mem_match_id']]
        judge_members(mon, 'colmem', mm, c, cfg, False, False, np.zeros(c.neighbors.size, dtype=bool), wi)
        dz = mm['z'] - t['z'][i]
        mon.check('colmem_members', np.all(np.abs(dz) <= 6.5 * cfg.calib_colormem_smooth + 1e-6), worst=float(np.abs(dz).max()) if dz.size else 0, **wi)
    if R.members is None or R.cat.size == 0:
        mon.distinct('colormem', case['region'], t.size, 0, 0)
        return
    mon.check('colmem_members', np.all(np.isin(mem.mem_match_id, out.mem_match_id)), what='members without a cluster', **wit)
    if cfg.calib_colormem_smooth > 0 and mem.size > 30:
        q = {int(a): float(b) for a, b in zip(out.mem_match_id, out.z)}
        sd = np.std([m['z'] - q[int(m['mem_match_id'])] for m in mem._ndarray])
        mon.check('colmem_members', 0.4 < sd / cfg.calib_colormem_smooth < 1.8, what='smoothing', sd=sd, n=mem.size, **wit)
    R.output_training()
    tr = fitsio.read(zmem, ext=1, lower=True)
    s = mem._ndarray[mem.pcol > cfg.calib_pcut]
    mon.check('colmem_training', tr.size == s.size and all(np.array_equal(tr[x], s[x]) for x in s.dtype.names), rows=tr.size, want=s.size, **wit)
    mon.check('colmem_training', same_file(cfg.redmapper_filename('colorcat'), out._ndarray), **wit)
    mon.distinct('colormem', case['region'], t.size, kept, noverlap, cfg.calib_colormem_smooth)
    mon.sample({'colormem': int(t.size), 'rows': out.size, 'judged': kept, 'overlapping': noverlap, 'training': int(tr.size)})
    save(mon, R, wit)


# ---------------------------------------------------------------------------------------------------------------- random points
def do_zmask(rng, case, mon, env, d):
    from redmapper.run_randoms_zmask import RunRandomsZmask
    from redmapper.randoms import RandomCatalogMaker, RandomCatalog
    from redmapper import Cluster
    w = world.make(rng, env, d, region=case['region'], size=2.4, ncl=1, nfield=10, cls=case['cls'], maskgal_nsamples=1, uniform_depth=bool(rng.randint(2)))
    n = int(rng.choice([60, 120]))
    ra, dec = skygen.sky_points(rng, case['region'], n, 2.6)
    t = np.zeros(n, dtype=[('id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('lambda', 'f4'), ('id_input', 'i4')])
    t['id'], t['ra'], t['dec'] = rng.permutation(n) + 1, ra, dec
    t['z'], t['lambda'], t['id_input'] = rng.uniform(0.1, 0.45, n), rng.choice([5.0, 20.0, 60.0, 180.0], n) + rng.uniform(0, 3, n), rng.randint(1, 20, n)
    mk = RandomCatalogMaker(os.path.join(d, 'rand', 'rr'), {}, nside=16 if case['region'] not in ('npole', 'spole') else 32)
    mk.split_randoms(t.copy())
    rf = os.path.join(d, 'rand', 'rr_master_table.fit')
    if len(fitsio.read(rf, ext=1)['filenames'][0]) < 2:
        mon.event('one_pixel_skipped')
        return
    cfg = rmx.test_config(env, d, **dict(w.over, randfile=rf, outbase='t'))
    wit = dict(region=case['region'], cls=case['cls'])
    R = RunRandomsZmask(cfg)
    R.run()
    out = R.cat
    o = out._ndarray
    src = {int(a): j for j, a in enumerate(t['id'])}
    if not mon.check('zmask_rows', o.size == n and np.array_equal(np.sort(o['mem_match_id']), np.arange(1, n + 1)), rows=o.size, want=n, **wit):
        return
    ref = Ref.__new__(Ref)
    from redmapper import get_mask, DepthMap, RedSequenceColorPar, Background
    ref.cfg, ref.zr, ref.bkg, ref.mask, ref.depth = cfg, RedSequenceColorPar(cfg.parfile, fine=True), Background(cfg.bkgfile), get_mask(cfg), DepthMap(cfg)
    nbad = 0
    for i in range(n):
        s = t[src[int(o['mem_match_id'][i])]]
        q = o[i]
        mon.check('zmask_rows', q['ra'] == s['ra'] and q['dec'] == s['dec'] and q['z'] == s['z'] and q['z_in'] == s['z'] and q['lambda_in'] == s['lambda'] and q['id_input'] == s['id_input'], **wit)
        c = Cluster(config=cfg, zredstr=ref.zr, bkg=ref.bkg, r0=cfg.percolation_r0, beta=cfg.percolation_beta)
        c.ra, c.dec = float(s['ra']), float(s['dec'])
        c.redshift = s['z']
        ref.mask.select_maskgals_sample(0)
        ref.environ(c)
        wi = dict(wit, ra=c.ra, dec=c.dec, z=float(s['z']), richness=float(s['lambda']))
        if ref.frac(1.0) == 1.0 or np.median(ref.mask.maskgals.limmag) <= 1.0:
            nbad += 1
            mon.check('zmask_values', q['lambda'] == -1 and q['scaleval'] == -1, what='a point outside is kept', **wi)
            continue
        rl = cfg.percolation_r0 * (float(s['lambda']) / 100.)**cfg.percolation_beta
        m = np.asarray(c.mstar)
        cp = np.asarray(ref.mask.calc_maskcorr(c.mstar, c.mstar - 2.5 * np.log10(cfg.lval_reference), ref.zr.limmag))
        cv = np.polyval(cp, rl)
        mf = ref.frac(rl)
        v = [q[x] for x in ('lambda', 'r_lambda', 'r_mask', 'maskfrac')]
        mon.check('zmask_values', np.allclose(v, [s['lambda'], rl, rl, mf], rtol=1e-4, atol=1e-4), got=v, want=[s['lambda'], rl, rl, mf], **wi)
        mon.check('zmask_values', np.isclose(q['scaleval'], 1. / (1. - cv), rtol=1e-3), got=q['scaleval'], want=1. / (1. - cv), **wi)
    mon.distinct('zmask', case['region'], n, nbad, case['cls'])
    mon.sample({'zmask': n, 'outside': nbad})
    R.output(savemembers=False, withversion=False, clobber=False)
    mon.check('files', same_file(R.filename, out._ndarray), file=R.filename, **wit)
