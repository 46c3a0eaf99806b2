"""C14: centre candidates and their probabilities are those of the centring model."""
import os
import numpy as np
import rmx
import world
import skygen
from checks import c12_cluster as C12

RULE = 'one centring run judged, keyed by (class, footprint region, number of candidates, options, outcome)'
REQUIRED = {'wcen_valid': 30, 'wcen_normalised': 30, 'wcen_values': 30, 'wcen_order': 30, 'wcen_padding': 30, 'budget': 30, 'neighbors_untouched': 40, 'permutation': 15, 'bcg': 15, 'random': 10,
            'randsat_members': 10, 'randsat_frequency': 3, 'no_candidates': 4, 'no_center': 2}
BUDGET = {'quick': 600, 'thorough': 3000}
prepare = C12.prepare
ZB = {}


def plan(tier, seed):
    n = 40 if tier == 'quick' else 400
    rg = sorted(skygen.REGIONS)
    return [{'kind': 'cent', 'region': rg[j % len(rg)], 'cls': 'full', 'poor': j % 5 == 4, 'seed': seed * 6661 + j} for j in range(n)]


def gauss(x, m, s):
    return np.exp(-0.5 * ((x - m) / s)**2) / (np.sqrt(2 * np.pi) * s)


class ZCorr(object):
    def __init__(self, rng):
        self.z = np.arange(0.02, 0.7, 0.005)
        self.zred_uncorr = self.z + 0.01 * np.sin(self.z * 20) * rng.uniform(0, 1)


def reference(c, cfg, zr, zb, zc, usez):
    """p_cen etc. of every candidate from first principles (brute-force separations)."""
    N = np.asarray(c.neighbors._ndarray)
    z, ze, chi = N['zred'].astype('f8'), N['zred_e'].astype('f8'), N['zred_chisq'].astype('f8')
    if usez:
        h = N['zspec'] > 0
        z, ze, chi = np.where(h, N['zspec'], z).astype('f8'), np.where(h, N['zspec_err'], ze).astype('f8'), np.where(h, 1.0, chi)
    rl, lam, sv, red = float(c.r_lambda), float(c.Lambda), float(c.scaleval), float(c.redshift)
    r = N['r']
    use = np.where((r < rl) & (N['pfree'] >= cfg.percolation_pbcg_cut) & (chi < cfg.wcen_zred_chisq_max) & ((N['pmem'] > 0) | (np.abs(red - z) < 5 * ze)))[0]
    # galaxies at a threshold
    amb = np.any(np.abs(r - rl) < 1e-7) or np.any((N['pmem'] <= 0) & (np.abs(np.abs(red - z) - 5 * ze) < 1e-6))
    out = dict(use=use, ambiguous=bool(amb))
    if use.size == 0:
        return out
    mst = float(c.mstar)
    phi = gauss(N['refmag'][use].astype('f8'), mst + cfg.wcen_Delta0 + cfg.wcen_Delta1 * np.log(lam / cfg.wcen_pivot), cfg.wcen_sigma_m)
    zm = red if zc is None else float(np.interp(red, zc.z, zc.zred_uncorr))
    gz = gauss(z[use], zm, ze[use])
    u = np.where(N['p'] > 0)[0]
    S = skygen.sep(N['ra'][use][:, None], N['dec'][use][:, None], N['ra'][u][None], N['dec'][u][None])
    near = S < 1.1 * rl / float(c.mpc_scale)
    d = np.sqrt((S * float(c.mpc_scale))**2 + cfg.wcen_rsoft**2)
    near &= d < rl
    out['ambiguous'] |= bool(np.any(np.abs(d - rl) < 1e-7))
    near &= use[:, None] != u[None]
    wt = N['p'][u].astype('f8') * (10.**((mst - N['refmag'][u]) / 2.5) if cfg.wcen_uselum else 1.0)
    w = np.full(use.size, 1e-3)
    for i in range(use.size):
        k = near[i]
        if k.any():
            w[i] = np.log(np.sum(wt[k] / d[i][k]) / (np.sum(wt[k]) / rl))
    ss = np.sqrt(min(lam, cfg.wcen_maxlambda) / sv / cfg.wcen_pivot)
    with np.errstate(all='ignore'):
        lw = np.log(w)
    uc = phi * gz * gauss(lw, cfg.lnw_cen_mean, cfg.lnw_cen_sigma / ss)
    uc[uc < 1e-10] = 0
    maxmag = mst - 2.5 * np.log10(cfg.lval_reference)
    zi = int(np.atleast_1d(zr.zindex(red))[0])
    ln = float(zr.lumnorm[int(np.atleast_1d(zr.lumrefmagindex(maxmag))[0]), zi])
    rm = N['refmag'][use].astype('f8')
    ps = 10.**(0.4 * (zr.alpha + 1) * (mst - rm)) * np.exp(-10.**(0.4 * (mst - rm))) / ln
    us = ps * gz * gauss(lw, cfg.lnw_sat_mean, cfg.lnw_sat_sigma / ss)
    us[us < 1e-10] = 0
    b = gauss(lw, cfg.lnw_fg_mean, cfg.lnw_fg_sigma / ss) * np.asarray(zb.sigma_g_lookup(z[use], N['refmag'][use])) / float(c.mpc_scale)**2 * np.pi * rl**2
    with np.errstate(all='ignore'):
        pb = np.clip(N['pfree'][use] * uc / (uc + (lam / sv - 1) * us + b), None, 0.99999)
    pb[~np.isfinite(pb)] = 0
    out.update(pb=pb, us=us, b=b, uc=uc, w=w)
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    np.random.seed(case['seed'] % 2**31)
    from redmapper import ZredBackground, GalaxyCatalog
    from redmapper.centering import CenteringWcenZred, CenteringBCG, CenteringRandom, CenteringRandomSatellite
    d, w, cfg, zr, mask, depth, bkg, gals, t = C12.build(rng, case, env, case['poor'])
    zb = ZredBackground(os.path.join(env.data, 'test_bkg.fit'))
    g = w.g
    ex = np.zeros(g.size, dtype=g.dtype.descr + [('zred', 'f4'), ('zred_e', 'f4'), ('chisq', 'f4'), ('zspec', 'f4'), ('zspec_err', 'f4')])
    for nm in g.dtype.names:
        ex[nm] = g[nm]
    ex['zred_e'] = rng.uniform(0.008, 0.04, g.size)
    ex['zred'] = g['ztrue'] + rng.normal(size=g.size) * ex['zred_e']
    ex['chisq'] = rng.chisquare(4, g.size) * rng.choice([1, 1, 1, 40], g.size)
    hs = rng.uniform(size=g.size) < 0.3
    ex['zspec'] = np.where(hs, g['ztrue'], -1)
    ex['zspec_err'] = np.where(hs, 0.002, 0)
    # blends: two galaxies at one position
    k = rng.permutation(np.where(g['halo_id'] > 0)[0])[:6]
    tw = ex[k].copy()
    tw['id'] = ex['id'].max() + 1 + np.arange(k.size)
    tw['refmag'] += 0.3
    tw['mag'] += 0.3
    ex = np.concatenate([ex, tw])
    gals = GalaxyCatalog(ex)
    for rep in range(2):
        c = C12.make_cluster(rng, cfg, zr, bkg, t, gals, float(rng.choice([0.0, 0.01])), 1.0, 0.2, 2.5)
        if c.neighbors.size < 3:
            continue
        mask.set_radmask(c)
        depth.calc_maskdepth(mask.maskgals, c.ra, c.dec, c.mpc_scale)
        if not np.all(np.isfinite(mask.maskgals.limmag)) or mask.maskgals.limmag[0] <= 0:
            continue
        c.zredbkg = zb
        pf = np.where(rng.uniform(size=c.neighbors.size) < 0.8, 1.0, rng.choice([0.0, 0.3, 0.5, 0.7], c.neighbors.size))
        c.neighbors.pfree[:] = pf
        lam = float(c.calc_richness(C12.FixedCorr(mask, np.array([0, 0, 0, float(rng.choice([0.0, 0.2]))]))))
        if lam < 1:
            continue
        cfg.centering_use_zspec = bool(rng.uniform() < 0.3)
        cfg.wcen_uselum = bool(rng.uniform() < 0.7)
        cfg.wcen_maxlambda = float(rng.choice([100.0, 15.0]))
        cfg.wcen_rsoft = float(rng.choice([0.05, 0.1]))
        cfg.wcen_pivot = float(rng.choice([30.0, 45.0]))
        kill = None
        if rng.uniform() < 0.12:
            c.neighbors.pfree[:] = 0.2          # nothing can be a centre
            kill = 'candidates'
        elif rng.uniform() < 0.1:
            c.neighbors.refmag[:] = c.neighbors.refmag + 6.0
            kill = 'faint'
        zc = ZCorr(rng) if rng.uniform() < 0.3 else None
        snap = c.neighbors._ndarray.copy()
        keep = c._ndarray.copy()
        wit = dict(region=case['region'], lam=lam, zspec=cfg.centering_use_zspec, kill=kill, n=c.neighbors.size, zc=zc is not None)
        cent = CenteringWcenZred(c, zlambda_corr=zc)
        ok = bool(cent.find_center())
        judge(mon, c, cfg, zr, zb, zc, cent, ok, snap, keep, wit)
        # order of neighbours does not matter
        q = rng.permutation(c.neighbors.size)
        c2 = c.copy()
        c2.set_neighbors(GalaxyCatalog(snap[q].copy()))
        ce2 = CenteringWcenZred(c2, zlambda_corr=zc)
        ok2 = bool(ce2.find_center())
        same = ok == ok2 and ce2.ngood == cent.ngood and np.allclose(ce2.p_cen, cent.p_cen, atol=1e-6)
        if ok and ok2 and cent.ngood > 0 and same:
            sp = np.diff(np.asarray(cent.p_cen)[:cent.ngood])
            if np.all(np.abs(sp) > 1e-9):
                same = np.array_equal(q[ce2.index[:cent.ngood]], cent.index[:cent.ngood])
        mon.check('permutation', same, **wit)
        mon.distinct('wcen', case['region'], cent.ngood, cfg.centering_use_zspec, cfg.wcen_uselum, kill, zc is not None)
        mon.sample({'lambda': lam, 'p_cen': cent.p_cen, 'ngood': cent.ngood})
        if kill is None:
            others(mon, rng, c, cfg, CenteringBCG, CenteringRandom, CenteringRandomSatellite, snap, wit, rep)
        cfg.centering_use_zspec = False


def judge(mon, c, cfg, zr, zb, zc, cent, ok, snap, keep, wit):
    mon.check('neighbors_untouched', np.array_equal(c.neighbors._ndarray.tobytes(), snap.tobytes()) and c._ndarray.tobytes() == keep.tobytes(), **wit)
    ref = reference(c, cfg, zr, zb, zc, cfg.centering_use_zspec)
    M = cfg.percolation_maxcen
    n = int(cent.ngood)
    use = ref['use']
    if use.size == 0:
        mon.check('no_candidates', n == 0 and np.all(np.asarray(cent.p_cen) == 0), **wit)
        return
    if ref['ambiguous']:
        return
    pb = ref['pb']
    pos = np.sum(pb > 0)
    if pos == 0:
        mon.check('no_center', n == 0 and cent.q_miss == 1.0 and np.all(np.asarray(cent.p_cen) == 0), **wit)
        return
    if not mon.check('wcen_valid', ok and n == min(pos, M), ngood=n, want=min(pos, M), **wit):
        return
    ix = np.asarray(cent.index)[:n]
    good = np.all(np.isin(ix, use)) and np.unique(ix).size == n and cent.maxind == ix[0] and np.array_equal(np.asarray(cent.ra)[:n], snap['ra'][ix]) and \
        np.array_equal(np.asarray(cent.dec)[:n], snap['dec'][ix])
    if not mon.check('wcen_valid', good, index=ix, **wit):
        return
    P, Q, F, S, B = [np.asarray(getattr(cent, k))[:n].astype('f8') for k in ('p_cen', 'q_cen', 'p_fg', 'p_sat', 'p_c')]
    mon.check('wcen_padding', all(np.all(np.asarray(getattr(cent, k))[n:] == 0) for k in ('p_cen', 'q_cen', 'p_fg', 'p_sat', 'p_c')) and np.all(np.asarray(cent.index)[n:] == -1) and
              np.all(np.asarray(cent.ra)[n:] == -400.), **wit)
    mon.check('wcen_normalised', abs(P.sum() - 1) < 1e-6 and np.all((P >= 0) & (P <= 1)) and 0 < Q.sum() <= 1 + 1e-9 and np.all((F >= -1e-9) & (F <= 1)) and np.all((S >= -1e-9) & (S <= 1)),
              p=P, q=Q, f=F, s=S, **wit)
    mon.check('wcen_order', np.all(np.diff(B) <= 1e-9) and np.all(np.diff(P) <= 1e-9), p=P, basic=B, **wit)
    at = {int(k): i for i, k in enumerate(use)}
    j = np.array([at[int(k)] for k in ix])
    # the chosen ones are the best ones
    mon.check('wcen_values', np.allclose(B, pb[j], rtol=2e-3, atol=1e-7), got=B, want=pb[j], **wit)
    mon.check('wcen_order', np.sort(pb)[::-1][:n].min() <= pb[j].min() * (1 + 1e-3) + 1e-9, **wit)
    un = np.array([B[i] * np.prod(1 - np.delete(B, i)) for i in range(n)])
    mon.check('wcen_values', np.allclose(P, un / un.sum(), rtol=1e-4, atol=1e-7) and np.allclose(Q, un / (un.sum() + np.prod(1 - B)), rtol=1e-4, atol=1e-7), p=P, want=un / un.sum(), **wit)
    lam = float(c.Lambda)
    with np.errstate(all='ignore'):
        den = (lam - 1) * ref['us'][j] + ref['b'][j]
        fb, sb = ref['b'][j] / den, (lam - 1) * ref['us'][j] / den
    fb[~np.isfinite(fb)] = 0
    sb[~np.isfinite(sb)] = 0
    mon.check('budget', np.allclose(F, (1 - P) * fb, rtol=2e-3, atol=1e-6) and np.allclose(S, (1 - P) * sb, rtol=2e-3, atol=1e-6), f=F, s=S, **wit)
    fin = np.isfinite(ref['b'][j]) & (den > 0)
    if lam > 1:
        mon.check('budget', np.allclose((P + F + S)[fin], 1, atol=1e-5), total=P + F + S, **wit)


def others(mon, rng, c, cfg, BCG, Random, RandSat, snap, wit, rep):
    N = snap
    z, ze = N['zred'], N['zred_e']
    if cfg.centering_use_zspec:
        h = N['zspec'] > 0
        z, ze = np.where(h, N['zspec'], z), np.where(h, N['zspec_err'], ze)
    red, rl = float(c.redshift), float(c.r_lambda)
    use = np.where((N['r'] < rl) & ((N['pmem'] > 0.8) | (np.abs(z - red) < 2 * ze)))[0]
    b = BCG(c)
    ok = b.find_center()
    if use.size == 0:
        mon.check('bcg', not ok and b.ngood == 0, **wit)
    else:
        k = use[np.argmin(N['refmag'][use])]
        amb = np.any(np.abs(np.abs(z - red) - 2 * ze)[N['r'] < rl] < 1e-6)
        mon.check('bcg', amb or (bool(ok) and N['refmag'][b.maxind] == N['refmag'][k] and np.ravel(b.ra)[0] == N['ra'][b.maxind] and np.ravel(b.dec)[0] == N['dec'][b.maxind] and
                  b.ngood == 1 and b.index[0] == b.maxind and b.p_cen[0] == 1 and b.q_cen[0] == 1 and b.p_sat[0] == 0), got=b.maxind, want=k, **wit)
    mon.check('neighbors_untouched', c.neighbors._ndarray.tobytes() == snap.tobytes(), **wit)
    rr = []
    for _ in range(60):
        r = Random(c)
        r.find_center()
        if abs(float(c.dec)) < 80:
            rr.append(skygen.sep(r.ra[0], r.dec[0], float(c.ra), float(c.dec)) * float(c.mpc_scale) / rl)
        mon.check('random', r.ngood == 1 and r.maxind == -1 and r.index[0] == -1 and r.p_cen[0] == 1 and np.isfinite(r.ra[0]), **wit)
    if rr:
        rr = np.array(rr)
        u = np.sort(np.minimum(rr, 1))**2
        ks = np.max(np.abs(u - (np.arange(u.size) + 0.5) / u.size))
        # 60 points uniform in area: Kolmogorov beyond 0.33 has probability below 1e-5
        mon.check('random', rr.max() < 1.02 and ks < 0.36, ks=ks, rmax=rr.max(), **wit)
    hits = np.zeros(N.size)
    m = 400 if rep == 0 else 30
    for _ in range(m):
        s = RandSat(c)
        s.find_center()
        hits[s.maxind] += 1
        if not (s.ngood == 1 and s.index[0] == s.maxind and s.ra[0] == N['ra'][s.maxind] and s.dec[0] == N['dec'][s.maxind]):
            mon.check('randsat_members', False, index=s.maxind, **wit)
    p = N['pmem'] / N['pmem'].sum()
    mon.check('randsat_members', np.all(N['pmem'][hits > 0] > 0), chosen_nonmember=int(np.sum(N['pmem'][hits > 0] <= 0)), **wit)
    if m == 400:
        # the draw is quantised in steps of 1/n: compare over the sorted cumulative probability
        o = np.argsort(N['pmem'])[::-1]
        F, H = np.cumsum(p[o]), np.cumsum(hits[o]) / m
        ks = np.max(np.abs(F - H))
        mon.check('randsat_frequency', ks < 2.6 / np.sqrt(m) + 2. / N.size + p.max(), ks=ks, **wit)
