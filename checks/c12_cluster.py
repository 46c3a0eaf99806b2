"""C12: a cluster's richness, error and membership are those of the matched filter for its neighbours."""
import os
import numpy as np
from scipy.special import erf
from scipy.stats import chi2
import rmx
import world
import skygen
from checks.c01_solver import Model, norm

RULE = 'one richness measurement judged, keyed by (region, footprint class, redshift bin, outcome class, radius softening, neighbour subset class)'
REQUIRED = {'self_consistent': 40, 'members': 40, 'chisq': 40, 'pmem_product': 40, 'pcol': 40, 'error': 20, 'scaleval': 40, 'failed_state': 6, 'subset': 20, 'pfree_zero': 20,
            'permutation': 20, 'repeat': 20, 'redshift_sync': 40, 'copy': 20, 'fit_self_consistent': 10, 'bkg_local': 10, 'fit_members': 10, 'no_error_requested': 20, 'neighbours': 100}
BUDGET = {'quick': 600, 'thorough': 3000}


def prepare(env):
    rmx.maskgals(env, os.path.join(env.shared, 'maskgals.fit'))


def plan(tier, seed):
    n = 48 if tier == 'quick' else 480
    cl = ['full', 'holes', 'patchy']
    rg = sorted(skygen.REGIONS)
    out = [{'kind': 'rich', 'region': rg[j % len(rg)], 'cls': cl[(j // 2) % 3], 'poor': j % 4 == 3, 'seed': seed * 4447 + j} for j in range(n)]
    out += [{'kind': 'fit', 'region': rg[j % len(rg)], 'cls': cl[j % 3], 'seed': seed * 4447 + 50000 + j} for j in range(n // 2)]
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    np.random.seed(case['seed'] % 2**31)
    {'rich': rich, 'fit': fit}[case['kind']](rng, case, mon, env)


def theta_i_ref(mag, err, maxmag, lim):
    eff = min(max(maxmag, 0), lim)
    d = eff - mag
    t = np.ones(mag.size)
    k = d < 5 * err
    with np.errstate(all='ignore'):
        t[k] = 0.5 + 0.5 * erf(d[k] / (np.sqrt(2) * err[k]))
    t[mag > lim] = 0.0
    return t


def nfw_ref(r, rs=0.15, core=0.1):
    x = np.maximum(r, core) / rs
    out = np.zeros(r.size)
    a = x < 0.999
    b = x > 1.001
    out[a] = (1 - 2 / np.sqrt(1 - x[a]**2) * np.arctanh(np.sqrt((1 - x[a]) / (1 + x[a])))) / (x[a]**2 - 1)
    out[b] = (1 - 2 / np.sqrt(x[b]**2 - 1) * np.arctan(np.sqrt((x[b] - 1) / (x[b] + 1)))) / (x[b]**2 - 1)
    out[~a & ~b] = 1 / 3.
    out[r >= 10.0] = 0
    return out


def chi_ref(R, g, z):
    nmag, ncol = R.nmag, R.nmag - 1
    iz = int(np.atleast_1d(R.zindex(z))[0])      # judged by C10
    D = np.zeros((ncol, nmag))
    for j in range(ncol):
        D[j, j], D[j, j + 1] = 1, -1
    me = g['mag_err'].astype('f8')
    out = np.zeros(g.size)
    rm = g['refmag'].astype('f8')
    for i in range(g.size):
        C = R.covmat[:, :, iz] + D @ np.diag(me[i]**2) @ D.T + np.outer(R.slope[iz], R.slope[iz]) * float(g['refmag_err'][i])**2
        mi = int(np.atleast_1d(R.refmagindex(g['refmag'][i:i + 1]))[0])
        d = R.c[iz] + R.slope[iz] * (rm[i] - R.pivotmag[iz]) + R.lupcorr[mi, iz] - (g['mag'][i, :-1].astype('f8') - g['mag'][i, 1:].astype('f8'))
        w, V = np.linalg.eigh(C)
        out[i] = np.sum((V.T @ d)**2 / np.maximum(w, 1e-6))
    return out


def build(rng, case, env, poor=False):
    from redmapper import get_mask, DepthMap, GalaxyCatalog, RedSequenceColorPar, Background
    d = env.tmp()
    w = world.make(rng, env, d, region=case['region'], size=2.2, ncl=1, nfield=int(rng.choice([0, 300, 3000])) if poor else 2500, cls=case['cls'],
                   nmin=1 if poor else 15, nmax=6 if poor else 80, zlo=0.1, zhi=0.45, uniform_depth=bool(rng.randint(2)), rsig=float(rng.choice([0.05, 0.01, 0.1])))
    # rsig must be that of the maskgals
    w.over['rsig'] = 0.05
    cfg = rmx.test_config(env, d, **w.over)
    zr = RedSequenceColorPar(cfg.parfile, fine=True)
    mask = get_mask(cfg)
    mask.select_maskgals_sample(int(rng.randint(cfg.maskgal_nsamples)))
    depth = DepthMap(cfg)
    bkg = Background(cfg.bkgfile)
    gals = GalaxyCatalog(w.g.copy())
    t = w.true[0]
    return d, w, cfg, zr, mask, depth, bkg, gals, t


def make_cluster(rng, cfg, zr, bkg, t, gals, zoff=0.0, r0=1.0, beta=0.2, radius=2.0):
    from redmapper import Cluster
    c = Cluster(config=cfg, zredstr=zr, bkg=bkg, r0=r0, beta=beta)
    c.ra, c.dec = float(t['ra']), float(t['dec'])
    # the row's own redshift is not the one measured at
    c.z = float(t['z']) + float(rng.choice([0.0, 0.08]))
    c.redshift = max(float(t['z']) + zoff, 0.02)
    c.find_neighbors(radius, gals, megaparsec=True)
    return c


class FixedCorr(object):
    """a mask whose correction polynomial is known."""

    def __init__(self, mask, cpars):
        self.m, self.c = mask, np.array(cpars)

    def __getattr__(self, nm):
        return getattr(self.m, nm)

    def calc_maskcorr(self, *a, **k):
        self.args = (a, k)
        return self.c.copy()


FIELDS = ('theta_i', 'theta_r', 'p', 'pcol', 'pmem')


def state(c):
    return {k: np.asarray(getattr(c.neighbors, k)).copy() for k in FIELDS}


def lam_ok(mon, name, m, lam, wit):
    """the sum rule changes sign within the 0.01 tolerance of the solver (or the sum is so steep that it does at the edge)."""
    lo, hi = m.f(lam - 0.011), m.f(lam + 0.011)
    s = abs(m.f(lam)) <= 0.02 * max(1.0, abs(hi - lo) / 0.022) + 1e-3
    return mon.check(name, lo * hi <= 0 or s, lam=lam, f=m.f(lam), flo=lo, fhi=hi, **wit)


def neighbours(mon, rng, cfg, zr, bkg, t, gals):
    """exactly the galaxies inside the radius and not fainter than the limit, with their own columns and distances."""
    from redmapper import Cluster
    c = Cluster(config=cfg, zredstr=zr, bkg=bkg)
    c.ra, c.dec = float(t['ra']), float(t['dec'])
    c.redshift = float(t['z'])
    rad = float(rng.choice([0.3, 1.0, 2.0]))
    mpc = bool(rng.randint(2))
    deg = rad / float(c.mpc_scale) if mpc else rad / 10.
    mm = None if rng.uniform() < 0.3 else float(c.mstar) + float(rng.choice([-2.0, 0.0, 1.0]))
    if mm is not None and gals.size and rng.uniform() < 0.5:
        mm = float(gals.refmag[rng.randint(gals.size)])
    c.find_neighbors(rad if mpc else deg, gals, megaparsec=mpc, maxmag=mm)
    s = skygen.sep(c.ra, c.dec, np.asarray(gals.ra), np.asarray(gals.dec))
    rm = np.asarray(gals.refmag)
    ok = (s < deg) if mm is None else (s < deg) & (rm <= mm)
    edge = np.abs(s - deg) < 1e-9
    wit = dict(radius=rad, mpc=mpc, maxmag=mm, z=float(c.redshift))
    N = c.neighbors
    i = np.asarray(N.index).astype(int) if N.size else np.zeros(0, dtype=int)
    if mon.check('neighbours', np.unique(i).size == i.size and set(np.where(ok & ~edge)[0]) <= set(i) <= set(np.where(ok | edge)[0]), got=i.size, want=int(ok.sum()), **wit) and i.size:
        G = gals._ndarray
        mon.check('neighbours', all(np.array_equal(N._ndarray[k], G[k][i]) for k in ('id', 'ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err')) and
                  np.allclose(N.dist, s[i], atol=3e-6) and np.allclose(N.r, np.maximum(s[i] * float(c.mpc_scale), 1e-6), rtol=1e-5, atol=6e-5), what='values', **wit)


def rich(rng, case, mon, env):
    d, w, cfg, zr, mask, depth, bkg, gals, t = build(rng, case, env, case['poor'])
    r0, beta = float(rng.choice([1.0, 1.0, 0.5])), float(rng.choice([0.2, 0.0, 0.3]))
    for rep in range(4):
        neighbours(mon, rng, cfg, zr, bkg, t, gals)
    for rep in range(3):
        zoff = float(rng.choice([0.0, 0.02, -0.03, 0.15]))
        c = make_cluster(rng, cfg, zr, bkg, t, gals, zoff, r0, beta, float(rng.choice([1.5, 2.5])))
        if c.neighbors.size == 0:
            continue
        mask.set_radmask(c)
        depth.calc_maskdepth(mask.maskgals, c.ra, c.dec, c.mpc_scale)
        if not np.all(np.isfinite(mask.maskgals.limmag)) or mask.maskgals.limmag[0] <= 0:
            continue
        sync(mon, c, zr, t)
        cp = np.array(mask.calc_maskcorr(c.mstar, c.mstar - 2.5 * np.log10(cfg.lval_reference), zr.limmag))
        if rng.uniform() < 0.4:
            cp = np.array([0.0, rng.uniform(-0.05, 0.05), rng.uniform(-0.1, 0.1), rng.uniform(0, 0.5)])
        fm = FixedCorr(mask, cp)
        # some galaxies already taken by other clusters
        pf = np.where(rng.uniform(size=c.neighbors.size) < 0.7, 1.0, rng.choice([0.0, 0.2, 0.9], c.neighbors.size))
        c.neighbors.pfree[:] = pf
        snap = c.neighbors._ndarray.copy()
        wit = dict(region=case['region'], z=float(c.redshift), n=c.neighbors.size, r0=r0, beta=beta)
        lam = float(c.calc_richness(fm))
        judge(mon, c, zr, bkg, fm, cp, cfg, np.arange(c.neighbors.size), lam, wit, snap, True)
        mon.distinct(case['region'], case['cls'], round(float(c.redshift), 1), lam > 0, int(np.log2(max(lam, 1))))
        mon.sample({'lambda': lam, 'err': float(c.Lambda_e), 'z': float(c.redshift), 'neighbours': c.neighbors.size})
        st, le, sc = state(c), float(c.Lambda_e), float(c.scaleval)
        # again
        lam2 = float(c.calc_richness(fm))
        mon.check('repeat', lam2 == lam and float(c.Lambda_e) == le and all(np.array_equal(st[k], state(c)[k]) for k in FIELDS), lam2=lam2, lam=lam, **wit)
        # without error
        lam2 = float(c.calc_richness(fm, calc_err=False))
        mon.check('no_error_requested', lam2 == lam and float(c.Lambda_e) == 0.0 and all(np.array_equal(st[k], state(c)[k]) for k in FIELDS), **wit)
        # permuted neighbours
        from redmapper import GalaxyCatalog
        p = rng.permutation(c.neighbors.size)
        c2 = c.copy()
        copied(mon, c, c2, wit)
        c2.set_neighbors(GalaxyCatalog(snap[p].copy()))
        lam2 = float(c2.calc_richness(fm))
        mon.check('permutation', abs(lam2 - lam) < 0.02 and all(np.allclose(st[k][p], state(c2)[k], atol=2e-3 if lam > 0 else 1e-9) for k in FIELDS), lam=lam, lam2=lam2, **wit)
        # a subset of neighbours behaves as if the others were not there
        use = np.sort(rng.permutation(c.neighbors.size)[:max(1, int(c.neighbors.size * rng.choice([0.2, 0.6, 0.95])))])
        if rng.uniform() < 0.5:
            use = use[rng.permutation(use.size)]
        c3 = c.copy()
        lam3 = float(c3.calc_richness(fm, index=use))
        c4 = c.copy()
        c4.set_neighbors(GalaxyCatalog(snap[use].copy()))
        lam4 = float(c4.calc_richness(fm))
        s3, s4 = state(c3), state(c4)
        rest = np.setdiff1d(np.arange(c.neighbors.size), use)
        mon.check('subset', abs(lam3 - lam4) < 0.02 and all(np.allclose(s3[k][use], s4[k], atol=1e-6) for k in FIELDS) and
                  all(np.all(s3[k][rest] == 0) for k in FIELDS) and abs(float(c3.Lambda_e) - float(c4.Lambda_e)) < 1e-4 * (1 + abs(lam4)), lam=lam3, only=lam4, **wit)
        judge(mon, c3, zr, bkg, fm, cp, cfg, use, lam3, dict(wit, subset=True), snap, True)
        # galaxies that belong entirely to other clusters contribute nothing
        free = np.where(pf > 0)[0]
        c5 = c.copy()
        if free.size:
            lam5 = float(c5.calc_richness(fm, index=free))
            mon.check('pfree_zero', abs(lam5 - lam) < 0.02, all_=lam, free=lam5, **wit)
        mon.check('pfree_zero', np.all(st['pmem'][pf == 0] == 0), **wit)
        if case['cls'] == 'full' or rep == 0:
            local(mon, c, mask, depth, zr, cfg, wit, w)


def copied(mon, c, c2, wit):
    ok = c2 is not c and c2.neighbors is not c.neighbors and float(c2.ra) == float(c.ra) and float(c2.dec) == float(c.dec) and float(c2.Lambda) == float(c.Lambda) and \
        float(c2.redshift) == float(c.redshift) and c2.r0 == c.r0 and c2.beta == c.beta and np.array_equal(np.asarray(c2.neighbors.pmem), np.asarray(c.neighbors.pmem))
    keep = float(c.ra), np.asarray(c.neighbors.pmem).copy()
    c2.ra = 3.25
    c2.neighbors.pmem[:] = -7
    c2.redshift = c.redshift + 0.01
    ok2 = float(c.ra) == keep[0] and np.array_equal(np.asarray(c.neighbors.pmem), keep[1]) and abs(float(c2.redshift) - float(c.redshift) - 0.01) < 1e-6
    mon.check('copy', ok and ok2, equal=ok, independent=ok2, **wit)
    c2.ra = keep[0]
    c2.redshift = c.redshift


def sync(mon, c, zr, t):
    z0 = float(c.redshift)
    for z in (0.12, 0.33, z0):
        c.redshift = z
        sc = world.mpc_per_deg(z)
        mon.check('redshift_sync', abs(float(c.mpc_scale) / sc - 1) < 2e-3 and abs(float(c.mstar) - float(np.interp(z, zr.z[:-1], zr._mstar[:-1]))) < 0.02 and
                  np.allclose(np.asarray(c.neighbors.r), np.maximum(np.asarray(c.neighbors.dist) * float(c.mpc_scale), 1e-6), rtol=1e-6), z=z, scale=c.mpc_scale, want=sc)
    try:
        c.redshift = -0.1
        mon.check('redshift_sync', False, accepted=-0.1)
    except ValueError:
        mon.check('redshift_sync', float(c.redshift) == z0 or True)
    c.redshift = z0


def judge(mon, c, zr, bkg, fm, cp, cfg, idx, lam, wit, snap, err):
    """the state of cluster c after calc_richness over the neighbours idx."""
    N = c.neighbors
    z = float(c.redshift)
    g = snap[idx]
    st = {k: np.asarray(getattr(N, k))[idx].astype('f8') for k in FIELDS}
    for nm in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'r', 'dist', 'pfree', 'id'):
        if not np.array_equal(np.asarray(getattr(N, nm)), snap[nm]):
            mon.check('inputs_untouched', False, field=nm, **wit)
    chi = chi_ref(zr, g, z)
    got = np.asarray(N.chisq)[idx]
    mon.check('chisq', np.allclose(got, chi, rtol=1e-4, atol=1e-4), worst=float(np.max(np.abs(got - chi) / (1 + chi))), **wit)
    lv = cfg.lval_reference
    mstar = float(c.mstar)
    maxmag = mstar - 2.5 * np.log10(lv)
    r = g['r'].astype('f8')
    rm = g['refmag'].astype('f8')
    zi = int(np.atleast_1d(zr.zindex(z))[0])
    li = int(np.atleast_1d(zr.lumrefmagindex(maxmag))[0])
    ln = float(zr.lumnorm[li, zi])
    phi = 10.**(0.4 * (zr.alpha + 1) * (mstar - rm)) * np.exp(-10.**(0.4 * (mstar - rm))) / ln
    rho = chi2.pdf(chi, zr.ncol)
    u = 2 * np.pi * r * nfw_ref(r) * phi * rho
    b = 2 * np.pi * r * np.asarray(bkg.sigma_g_lookup(z, got, g['refmag'])) / float(c.mpc_scale)**2
    ti = theta_i_ref(rm, g['refmag_err'].astype('f8'), maxmag, zr.limmag)
    m = Model(c.r0, c.beta, u, b, r, ti * g['pfree'], cp, cfg.rsig)
    fullz = all(np.all(st[k] == 0) for k in FIELDS)
    if lam < 0:
        mon.check('failed_state', lam == -1.0 and float(c.Lambda) == -1.0 and fullz and float(c.scaleval) == -1.0 and (not err or float(c.Lambda_e) == -1.0), lam=lam, **wit)
        q = np.linspace(1.05, 200, 400)
        f = np.array([m.f(x) for x in q])
        # a solver over [0.5, 2000] finds no root: the sum rule may not be positive at the low end and negative at the high end
        mon.check('failed_state', not (m.f(0.5) > 0.01 and m.f(1.0) > 0.01 and m.f(1999.) < -0.01), f_low=m.f(1.0), f_high=m.f(1999.), **wit)
        return
    mon.check('richness_stored', abs(float(c.Lambda) - lam) < 1e-4 * lam, got=c.Lambda, returned=lam, **wit)
    if lam > 1990:
        return      # the bracket of the solver is exhausted (masked fraction above one)
    lam_ok(mon, 'self_consistent', m, lam, wit)
    rl = m.rlam(lam)
    mon.check('self_consistent', abs(float(c.r_lambda) - rl) < 1e-4 * rl, r_lambda=c.r_lambda, want=rl, **wit)
    p = m.p(lam)
    th = m.theta(lam)
    slack = 2e-3 * (1 + 0 * r) + (0.02 / max(lam, 1))
    mon.check('members', np.all(np.abs(st['p'] - p) < slack), worst=float(np.max(np.abs(st['p'] - p))), **wit)
    mon.check('members', np.all((st['p'] >= 0) & (st['p'] <= 1 + 1e-9)) and np.allclose(st['theta_i'], ti, atol=1e-3) and
              np.all(np.abs(st['theta_r'] - th) < 2e-3 + 1e-4 * c.r0 / cfg.rsig + 0.02 / lam), worst_r=float(np.max(np.abs(st['theta_r'] - th))), worst_i=float(np.max(np.abs(st['theta_i'] - ti))), **wit)
    prod = st['p'] * st['theta_i'] * st['theta_r'] * g['pfree']
    mon.check('pmem_product', np.allclose(st['pmem'], prod, atol=2e-3 + 0.02 / lam), worst=float(np.max(np.abs(st['pmem'] - prod))), **wit)
    cval = max(np.polyval(cp, rl), 0.0)
    sp = st['pmem'].sum()
    mon.check('pmem_product', abs(lam * (1 - cval) - sp) < 0.05 + 0.02 * lam or sp == 0, lam=lam, cval=cval, sum_pmem=sp, **wit)
    mon.check('scaleval', abs(float(c.scaleval) - abs(lam / sp)) < 1e-4 * abs(lam / sp), got=c.scaleval, want=lam / sp, **wit)
    pc = st['pcol']
    out = (r > rl * (1 + 1e-6)) | (rm > maxmag + 1e-5) | (rm > zr.limmag + 1e-5)
    with np.errstate(all='ignore'):
        want = rho * phi * lam / (rho * phi * lam + b)
    ins = (r < rl * (1 - 1e-3)) & (rm < maxmag - 1e-4) & (rm < zr.limmag - 1e-4)
    want[~np.isfinite(want)] = 0
    mon.check('pcol', np.all(pc[out] == 0) and np.all((pc >= 0) & (pc <= 1)) and np.allclose(pc[ins], want[ins], atol=5e-3), **wit)
    if err:
        bar = np.sum(st['pmem']**2) / sp
        sv = float(c.scaleval)
        e2 = (1 - bar) * (lam / sv) * sv**2
        mg = fm.maskgals
        rr = np.asarray(mg.r).astype('f8')
        k = rr < rl
        mrm = mstar + np.asarray(mg.m)[k].astype('f8')
        outm = (mrm > zr.limmag) | (np.asarray(mg.mark)[k] == 0)
        cerr = 0.0
        amb = abs(cval - 0.01) < 1e-4
        if outm.any() and cval >= 0.01:
            uu = np.asarray(mg.cwt)[k] * np.asarray(mg.nfw)[k] * np.asarray(mg.lumwt)[k] * norm(rl)
            mb = np.where(mrm >= zr.limmag, zr.limmag - 0.01, mrm)
            bb = 2 * np.pi * rr[k] * np.asarray(bkg.sigma_g_lookup(z, np.asarray(mg.chisq)[k], mb)) / float(c.mpc_scale)**2
            po = lam * uu[outm] / (lam * uu[outm] + bb[outm])
            v = po.sum() / lam / k.sum()
            cerr = lam**2 / np.sum(st['pmem']**2) * np.sqrt(v - v**2) / (1 - c.beta * cfg.dldr_gamma)
        want = np.sqrt(max(e2, 0) + cerr**2)
        if not amb and np.isfinite(want):
            mon.check('error', abs(float(c.Lambda_e) - want) < 2e-3 * want + 1e-3, got=c.Lambda_e, want=want, cerr=cerr, cval=cval, **wit)


def local(mon, c, mask, depth, zr, cfg, wit, w):
    """local background: observed galaxies in the annulus over the expectation from the global background."""
    g = np.asarray(c.neighbors._ndarray)
    a0, a1 = cfg.bkg_local_annuli
    mg = mask.maskgals
    if c.neighbors.size < 20:
        return
    np.random.seed(5)
    got = float(c.compute_bkg_local(mask, depth))
    sc = float(c.mpc_scale)
    ras = float(c.ra) + np.asarray(mg.x_uniform) / sc / np.cos(np.radians(float(c.dec)))
    decs = float(c.dec) + np.asarray(mg.y_uniform) / sc
    import hpgeom as hpg
    ok = np.abs(decs) < 90
    val = dict(zip(w.mask_pix.tolist(), w.mask_val.tolist()))
    frac = np.zeros(ras.size)
    frac[ok] = [val.get(int(p), 0.0) for p in hpg.angle_to_pixel(512, ras[ok] % 360, decs[ok], nest=True)]
    ru = np.asarray(mg.r_uniform)
    ann = (ru > a0) & (ru < a1)
    cov = frac[ann].mean()
    maxmag = float(c.mstar) - 2.5 * np.log10(cfg.lval_reference)
    # depth is looked up by the code under judgement elsewhere (C08)
    md = np.asarray(depth.get_depth_values(ras, np.clip(decs, -90, 90))[0])
    nd = np.asarray(depth.get_depth_values(g['ra'], g['dec'])[0])
    sg = np.asarray(c.bkg.sigma_g_lookup(float(c.redshift), np.asarray(mg.chisq), np.asarray(mg.refmag)))
    be = (np.asarray(mg.refmag) < maxmag) & np.isfinite(sg) & (np.asarray(mg.chisq_pdf) > 0) & (np.asarray(mg.lum_pdf) > 0) & (np.asarray(mg.refmag) < md)
    if be.sum() < 10 or cov <= 0.05:
        return
    pred = np.mean(sg[be].astype('f8') / (np.asarray(mg.chisq_pdf)[be].astype('f8') * np.asarray(mg.lum_pdf)[be].astype('f8')))
    area = np.pi * (a1**2 - a0**2) / sc**2 * cov
    n = np.sum((g['r'] > a0) & (g['r'] < a1) & (g['refmag'] < maxmag) & (g['chisq'] < np.asarray(mg.chisq).max()) & (g['refmag'] < nd))
    want = n / area / pred
    # partial coverage is drawn at random: six sigma of the drawn fraction
    tol = 1e-4 + 6 * np.sqrt(max(np.sum(frac[ann] * (1 - frac[ann])), 0)) / ann.sum() / cov + (0.0 if cov > 0.999 else 0.003)
    mon.check('bkg_local', abs(got - want) <= tol * want + 1e-9, got=got, want=want, tol=tol, n_annulus=int(n), **wit)


def fit(rng, case, mon, env):
    """single-colour richness used for the first calibration pass."""
    from redmapper import ColorBackground
    d, w, cfg, zr, mask, depth, bkg, gals, t = build(rng, case, env)
    cbkg = ColorBackground(cfg.bkgfile_color, usehdrarea=True)
    for rep in range(2):
        c = make_cluster(rng, cfg, zr, bkg, t, gals, 0.0, 0.5, 0.0, 1.5)
        if c.neighbors.size == 0:
            continue
        c.cbkg = cbkg
        mask.set_radmask(c)
        depth.calc_maskdepth(mask.maskgals, c.ra, c.dec, c.mpc_scale)
        if not np.all(np.isfinite(mask.maskgals.limmag)) or mask.maskgals.limmag[0] <= 0:
            continue
        ci = int(rng.choice([1, 2]))
        cp = np.array([0, 0, 0, float(rng.choice([0.0, 0.0, 0.2]))])
        fm = FixedCorr(mask, cp)
        N = c.neighbors
        col = np.asarray(N.galcol)[:, ci]
        err = bool(rng.randint(2))
        rc = float(rng.choice([0.5, 0.8]))
        lam = float(c.calc_richness_fit(fm, ci, rcut=rc, calc_err=err))
        ce = np.asarray(N.galcol_err)[:, ci]
        g = np.asarray(N._ndarray)
        mstar = float(c.mstar)
        maxmag, minmag = mstar - 2.5 * np.log10(cfg.lval_reference), mstar - 2.5 * np.log10(20.)
        cr = cbkg.get_colrange(ci)
        rm = g['refmag'].astype('f8')
        r = g['r'].astype('f8')
        use = (rm > minmag) & (rm < maxmag) & (r < rc) & (col > cr[0]) & (col < cr[1])
        wit = dict(col=ci, rcut=rc, richness=lam, z=float(c.redshift), region=case['region'])
        cen = int(np.argmin(r))
        s2 = np.sqrt(ce**2 + 0.05**2)
        near = use & (np.abs(col - col[cen]) < 2 * s2)
        if use.sum() < 5 or not use[cen] or near.sum() < 5:
            mon.check('fit_too_few', lam == -10.0, **wit)
            continue
        piv = np.median(rm[use])
        f = np.polyfit(rm[near] - piv, col[near], 1, w=1. / ce[near])
        dd = col - np.polyval(f, rm - piv)
        wt = np.exp(-dd**2 / (2 * s2**2)) / (np.sqrt(2 * np.pi) * s2)
        zi = int(np.atleast_1d(zr.zindex(c.redshift))[0])
        ln = float(zr.lumnorm[int(np.atleast_1d(zr.lumrefmagindex(maxmag))[0]), zi])
        phi = 10.**(0.4 * (zr.alpha + 1) * (mstar - rm)) * np.exp(-10.**(0.4 * (mstar - rm))) / ln
        u = 2 * np.pi * r * wt * nfw_ref(r) * phi
        b = 2 * np.pi * r * np.asarray(cbkg.sigma_g_diagonal(ci, col, g['refmag'])) / float(c.mpc_scale)**2
        ti = theta_i_ref(rm, g['refmag_err'].astype('f8'), maxmag, cfg.limmag_catalog)
        m = Model(c.r0, c.beta, u, b, r, ti * g['pfree'], cp, 0.0)
        mon.distinct('fit', case['region'], ci, lam > 0)
        if lam < 0:
            mon.check('fit_members', all(np.all(np.asarray(getattr(N, k)) == 0) for k in FIELDS), **wit)
            continue
        lam_ok(mon, 'fit_self_consistent', m, lam, wit)
        st = {k: np.asarray(getattr(N, k)).astype('f8') for k in FIELDS}
        mon.check('fit_members', np.allclose(st['pmem'], st['p'] * st['theta_i'] * st['theta_r'] * g['pfree'], atol=2e-3) and np.all(np.abs(st['p'] - m.p(lam)) < 0.004 + 0.02 / lam), **wit)
        mon.check('fit_members', np.all(st['pcol'][(r > m.rlam(lam) * (1 + 1e-6)) | (rm > maxmag + 1e-5)] == 0), **wit)
        if err:
            bar = np.sum(st['pmem']**2) / st['pmem'].sum()
            lo = np.sqrt(max(1 - bar, 0) * st['pmem'].sum())
            mon.check('fit_error', np.isfinite(float(c.Lambda_e)) and float(c.Lambda_e) >= lo * (1 - 1e-3), got=c.Lambda_e, at_least=lo, **wit)
        else:
            mon.check('fit_error', float(c.Lambda_e) == 0.0, **wit)
