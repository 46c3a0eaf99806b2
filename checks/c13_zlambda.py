"""C13: cluster redshifts are self-consistent with the members they select, and p(z) is their posterior."""
import os
import numpy as np
import rmx
import world
import skygen
from checks import c12_cluster as C12

RULE = 'one cluster redshift or correction judged, keyed by (footprint class, redshift bin, richness bin, mode, outcome)'
REQUIRED = {'fixed_point': 15, 'gaussian_error': 8, 'pz_normalised': 10, 'pz_shape': 8, 'pz_peak': 10, 'pz_covers': 8, 'failed': 4, 'parent_untouched': 20, 'recorded': 10, 'permutation': 6,
            'near_truth': 6, 'corr_value': 40, 'corr_error': 40, 'corr_pz': 20, 'corr_pure': 20, 'corr_nodes': 4, 'corr_noerr': 10, 'repeat': 6, 'maxmag': 4}
BUDGET = {'quick': 600, 'thorough': 3000}


prepare = C12.prepare


def plan(tier, seed):
    n = 24 if tier == 'quick' else 300
    cl = ['full', 'holes', 'patchy']
    rg = sorted(skygen.REGIONS)
    out = [{'kind': 'z', 'region': rg[j % len(rg)], 'cls': cl[(j // 2) % 3], 'poor': j % 6 == 5, 'seed': seed * 5557 + j} for j in range(n)]
    out += [{'kind': 'corr', 'seed': seed * 5557 + 50000 + j} for j in range(8 if tier == 'quick' else 80)]
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    np.random.seed(case['seed'] % 2**31)
    {'z': zl, 'corr': corr}[case['kind']](rng, case, mon, env)


class Like(object):
    """the member-weighted likelihood of redshift, for the members selected at redshift z."""

    def __init__(self, c, zr, fm, cfg, zin, z, maxmag=None):
        k = c.copy()
        k.redshift = z
        self.zr = zr
        maxrad = 1.2 * k.r0 * 3.**k.beta
        r = np.asarray(k.neighbors.r)
        inr = np.where(r < maxrad)[0]
        self.ok = False
        if inr.size < 1:
            return
        self.lam = float(k.calc_richness(fm, calc_err=False, index=inr))
        if self.lam < cfg.percolation_minlambda:
            return
        w = np.asarray(k.neighbors.pcol).astype('f8')
        if maxmag is None:
            maxmag = float(zr.mstar(zin)) - 2.5 * np.log10(cfg.lval_reference)
        use = np.where((r < maxrad) & (np.asarray(k.neighbors.refmag) < maxmag) & (w > 0))[0]
        if use.size < 3:
            return
        nc = min(max(cfg.zlambda_topfrac * w.sum(), 3), use.size)
        th = np.sort(w[use])[::-1][int(np.around(nc)) - 1]
        pw = 1. / (np.exp((th - w[use]) / 0.04) + 1)
        k1 = pw > 1e-3
        self.pw = pw[k1]
        g = np.asarray(k.neighbors._ndarray)[use[k1]]
        self.rm = g['refmag'].astype('f8')
        self.re = g['refmag_err'].astype('f8')
        mag, me = g['mag'].astype('f8'), g['mag_err'].astype('f8')
        self.col = mag[:, :-1] - mag[:, 1:]
        nc = self.col.shape[1]
        P = np.zeros((g.size, nc, nc))
        for j in range(nc):
            P[:, j, j] = me[:, j]**2 + me[:, j + 1]**2
            if j + 1 < nc:
                P[:, j, j + 1] = P[:, j + 1, j] = -me[:, j + 1]**2
        self.P = P
        self.mi = np.atleast_1d(zr.refmagindex(g['refmag']))
        self.ok = True
        self.cache = {}

    def __call__(self, z):
        zr = self.zr
        # nearest bin, including the edge rule of the model lookup
        iz = int(np.atleast_1d(zr.zindex(z))[0])
        if iz not in self.cache:
            C = self.P + zr.covmat[:, :, iz][None] + np.outer(zr.slope[iz], zr.slope[iz])[None] * (self.re**2)[:, None, None]
            d = zr.c[iz] + zr.slope[iz] * (self.rm - zr.pivotmag[iz])[:, None] + zr.lupcorr[self.mi, iz] - self.col
            w, V = np.linalg.eigh(C)
            w = np.maximum(w, 1e-6)
            chi = np.sum(np.einsum('gij,gi->gj', V, d)**2 / w, axis=1)
            self.cache[iz] = np.sum(self.pw * (-0.5 * chi - 0.5 * np.sum(np.log(w), axis=1)))
        return self.cache[iz]

    def parabola(self, z, step):
        x = step * np.arange(10) + z - step * 4.5
        y = -np.array([self(q) for q in x])
        f = np.polyfit(x - z, y, 2)
        zn = z - f[1] / (2 * f[0]) if f[0] > 0 else -1.0
        return float(np.clip(zn, x[0] - step, x[-1] + step))


PARENT = ('theta_i', 'theta_r', 'p', 'pcol', 'pmem', 'chisq', 'r', 'dist', 'pfree', 'refmag')


def zl(rng, case, mon, env):
    from redmapper.zlambda import Zlambda
    from redmapper import GalaxyCatalog
    d, w, cfg, zr, mask, depth, bkg, gals, t = C12.build(rng, case, env, case['poor'])
    c = C12.make_cluster(rng, cfg, zr, bkg, t, gals, 0.0, 1.0, 0.2, 3.0)
    if c.neighbors.size == 0:
        return
    mask.set_radmask(c)
    depth.calc_maskdepth(mask.maskgals, c.ra, c.dec, c.mpc_scale)
    if not np.all(np.isfinite(mask.maskgals.limmag)) or mask.maskgals.limmag[0] <= 0:
        return
    tol = cfg.zlambda_tol
    lam0 = None
    cfg.percolation_minlambda = float(rng.choice([3.0, 3.0, 6.0, 20.0]))
    cfg.zlambda_topfrac = float(rng.choice([0.7, 0.7, 0.5, 0.9]))
    for rep in range(3):
        cp = np.array([0, 0, 0, float(rng.choice([0.0, 0.1, 0.3]))])
        fm = C12.FixedCorr(mask, cp)
        pf = np.where(rng.uniform(size=c.neighbors.size) < 0.8, 1.0, rng.choice([0.0, 0.5], c.neighbors.size))
        c.neighbors.pfree[:] = pf
        c.redshift = float(t['z'])
        lam0 = float(c.calc_richness(fm))
        zin = float(t['z']) + float(rng.choice([0.0, 0.01, -0.01, 0.03]))
        pz = bool(rep % 2 == 1) or rng.uniform() < 0.4
        rec = bool(rng.uniform() < 0.7)
        mm = None
        if rng.uniform() < 0.3:
            mm = float(c.mstar) + float(rng.choice([0.5, 1.2]))
        before = {k: np.asarray(getattr(c.neighbors, k)).copy() for k in PARENT}
        cb = c._ndarray.copy()
        zred0 = float(c.redshift)
        c.z_lambda = -7.0
        Z = Zlambda(c)
        z, e = Z.calc_zlambda(zin, fm, calcpz=pz, calc_err=True, record_values=rec, maxmag_in=None if mm is None else np.array(mm))
        z, e = float(z), float(e)
        wit = dict(region=case['region'], zin=zin, ztrue=float(t['z']), lam=lam0, pz=pz, z=z, e=e, maxmag=mm)
        mon.distinct(case['cls'], round(float(t['z']), 1), int(np.log2(max(lam0, 1))), pz, z > 0, mm is not None)
        mon.check('parent_untouched', all(np.array_equal(before[k], np.asarray(getattr(c.neighbors, k))) for k in PARENT) and float(c.redshift) == zred0 and
                  float(c.Lambda) == float(cb['lambda']), **wit)
        mon.check('recorded', (float(c.z_lambda) == np.float32(z)) if rec else float(c.z_lambda) == -7.0, stored=c.z_lambda, record=rec, **wit)
        mon.check('recorded', float(Z.z_lambda) == z and float(Z.z_lambda_err) == e, **wit)
        if z < 0:
            mon.check('failed', z == -1.0 and e == -1.0, **wit)
            if pz:
                mon.check('failed', np.size(Z.pz) == cfg.npzbins and np.all(np.asarray(Z.pz) == 0), **wit)
            continue
        mon.check('positive_error', e > 0, **wit)
        L = Like(c, zr, fm, cfg, zin, z, mm)
        if not mon.check('fixed_point', L.ok, reason='the redshift does not support a cluster', **wit):
            continue
        conv = Z.niter < cfg.zlambda_maxiter
        if mm is not None:
            mon.check('maxmag', True, **wit)
        if pz:
            b, p = np.asarray(Z.pzbins, dtype='f8'), np.asarray(Z.pz, dtype='f8')
            h = b[1] - b[0]
            mon.check('pz_normalised', b.size == cfg.npzbins and p.size == b.size and np.all(np.isfinite(p)) and np.all(p >= 0) and np.allclose(np.diff(b), h, rtol=1e-4) and h > 0, **wit)
            from scipy.integrate import simpson
            mon.check('pz_normalised', abs(simpson(y=p, x=b) - 1) < 1e-5, integral=simpson(y=p, x=b), **wit)
            pk = b[np.argmax(p)]
            mon.check('pz_peak', abs(pk - z) < tol + 1e-6, peak=pk, **wit)
            mid = b[(b.size - 1) // 2]
            settled = abs(mid - z) < tol + 1e-6
            if settled and conv:
                q = np.array([L(x) for x in b])
                lo = np.array([min(L(x - 1e-5), L(x + 1e-5)) for x in b])
                hi = np.array([max(L(x - 1e-5), L(x + 1e-5)) for x in b])
                V = np.array([zr.volume_factor[int(np.atleast_1d(zr.zindex(x))[0])] for x in b])
                ref = np.exp(q - q.max()) * V
                nrm = simpson(y=ref, x=b)
                ref /= nrm
                # a bin centre on the border of two model bins may fall to either side
                sl = (np.exp(np.maximum(hi, q) - q.max()) - np.exp(np.minimum(lo, q) - q.max())) * V / nrm
                mon.check('pz_shape', np.all(np.abs(p - ref) < 2e-3 * ref.max() + 1.2 * sl + 1.5 * h * sl.sum() * ref), worst=float(np.max(np.abs(p - ref)) / ref.max()), slack=float(sl.max() / ref.max()), **wit)
                # nothing substantial is cut off inside the model's range
                inlo, inhi = b[0] > zr.z[0] + 0.011, b[-1] < zr.z[-2] - 0.011
                pm = p[(b.size - 1) // 2]
                if np.argmax(p) == (b.size - 1) // 2 and h * (b.size - 1) < 0.3 - 1e-3:
                    far = (p[0] < 0.02 * pm or not inlo) and (p[-1] < 0.02 * pm or not inhi)
                    mon.check('pz_covers', far, lo=p[0] / pm, hi=p[-1] / pm, bins=[b[0], b[-1]], **wit)
                sd = np.sqrt(simpson(y=p * (b - simpson(y=p * b, x=b))**2, x=b))
                if (p > 0.05 * p.max()).sum() > 4:
                    mon.check('pz_width', 0.4 * sd < e < 2.5 * sd, sd=sd, **wit)
                zn = L.parabola(z, cfg.zlambda_parab_step)
                mon.check('fixed_point', abs(zn - z) < tol * 1.05 + 2e-5, next=zn, **wit)
        elif conv:
            zn = L.parabola(z, cfg.zlambda_parab_step)
            mon.check('fixed_point', abs(zn - z) < tol * 1.05 + 2e-5, next=zn, **wit)
            # the error is where the log likelihood has dropped by one
            x = np.arange(0.001, 0.1, 0.0001)
            base = L(z)
            hi = np.array([base - L(z + q) for q in x])
            lo = np.array([base - L(z - q) for q in x])
            if hi.max() > 1.5 and lo.max() > 1.5 and hi.min() < 0.7 and lo.min() < 0.7 and np.all(np.diff(hi) > -1e-3) and np.all(np.diff(lo) > -1e-3):
                a = 0.5 * (x[np.argmax(hi > 1)] + x[np.argmax(lo > 1)])
                mon.check('gaussian_error', abs(e - a) < 2 * (zr.z[1] - zr.z[0]) + 0.05 * a, got=e, want=a, **wit)
        if lam0 > 25 and case['cls'] == 'full' and mm is None and abs(zin - float(t['z'])) < 0.011:
            mon.check('near_truth', abs(z - float(t['z'])) < 0.02 + 3 * e, **wit)
        if rep == 0:
            Z2 = Zlambda(c)
            z2, e2 = Z2.calc_zlambda(zin, fm, calcpz=pz, calc_err=True, record_values=False, maxmag_in=None if mm is None else np.array(mm))
            mon.check('repeat', float(z2) == z and float(e2) == e, again=z2, **wit)
            c2 = c.copy()
            q = rng.permutation(c.neighbors.size)
            c2.set_neighbors(GalaxyCatalog(np.asarray(c.neighbors._ndarray)[q].copy()))
            z2, e2 = Zlambda(c2).calc_zlambda(zin, fm, calcpz=pz, calc_err=True, record_values=False, maxmag_in=None if mm is None else np.array(mm))
            mon.check('permutation', abs(float(z2) - z) < 2 * tol and abs(float(e2) - e) < 0.1 * e + 2e-4, again=z2, e2=float(e2), **wit)
        mon.sample({'zin': zin, 'ztrue': float(t['z']), 'z_lambda': z, 'err': e, 'lambda': lam0, 'pz': pz})


def spline(x, y, q):
    """natural cubic spline, linear beyond the ends is not assumed: only used at the nodes and in between by the check."""
    from scipy.interpolate import CubicSpline
    return CubicSpline(x, y, bc_type='natural')(q)


def corr(rng, case, mon, env):
    from redmapper.zlambda import ZlambdaCorrectionPar
    from redmapper import Entry
    d = env.tmp()
    import fitsio
    nit = int(rng.choice([1, 2, 3]))
    no, ns = int(rng.choice([4, 6, 9])), int(rng.choice([3, 5]))
    zlo, zhi, h = 0.05, 0.6, float(rng.choice([0.002, 0.005]))
    oz = np.linspace(zlo, zhi, no)
    sz = np.linspace(zlo, zhi, ns)
    shp = lambda n: (n,) if nit == 1 and rng.uniform() < 0.5 else (n, nit)
    s1 = shp(no)
    flat = len(s1) == 1
    s2 = (ns,) if flat else (ns, nit)
    dt = [('niter_true', 'i4'), ('offset_z', 'f4', no), ('offset_true', 'f4', s1), ('slope_z', 'f4', ns), ('slope_true', 'f4', s2), ('scatter_true', 'f4', s2), ('zred_uncorr', 'f4', no)]
    a = np.zeros(1, dtype=dt)
    a['niter_true'] = nit
    a['offset_z'], a['slope_z'] = oz, sz
    a['offset_true'] = rng.normal(0, 0.005, s1)
    a['slope_true'] = rng.normal(0, 0.003, s2)
    a['scatter_true'] = np.abs(rng.normal(0.005, 0.003, s2)) + 0.0015
    a['zred_uncorr'] = oz + rng.normal(0, 0.01, no)
    piv = float(rng.choice([30., 40.]))
    fn = os.path.join(d, 'corr.fit')
    hd = fitsio.FITSHDR()
    hd['ZRANGE0'], hd['ZRANGE1'], hd['ZBINSIZE'], hd['ZLAMPIV'] = zlo - 0.02, zhi + 0.07, h, piv
    fitsio.write(fn, a, header=hd)
    if rng.uniform() < 0.5:
        Z = ZlambdaCorrectionPar(parfile=fn)
    else:
        Z = ZlambdaCorrectionPar(pars=Entry(a.copy()), zrange=np.array([zlo - 0.02, zhi + 0.07]), zbinsize=h, zlambda_pivot=piv)
    grid = np.asarray(Z.z)
    col = lambda nm, i: (a[nm][0] if a[nm][0].ndim == 1 else a[nm][0][:, i]).astype('f8')
    off = [spline(a['offset_z'][0].astype('f8'), col('offset_true', i), grid) for i in range(nit)]
    slo = [spline(a['slope_z'][0].astype('f8'), col('slope_true', i), grid) for i in range(nit)]
    sca = [np.maximum(spline(a['slope_z'][0].astype('f8'), col('scatter_true', i), grid), 0.001) for i in range(nit)]
    ins = (grid >= zlo) & (grid <= zhi)
    for i in range(nit):
        mon.check('corr_nodes', np.allclose(Z.offset[i][ins], off[i][ins], atol=1e-5) and np.allclose(Z.slope[i][ins], slo[i][ins], atol=1e-5) and
                  np.allclose(Z.scatter[i][ins], sca[i][ins], atol=1e-5), iteration=i, nit=nit)
    for _ in range(25):
        lam = float(rng.choice([1.5, 5., 20., 30., 77., 200., 450.]))
        z0 = float(rng.uniform(zlo + 0.03, zhi - 0.03))
        e0 = float(rng.uniform(0.003, 0.03))
        noerr = bool(rng.uniform() < 0.3)
        usepz = bool(rng.uniform() < 0.5)
        zi, ei = np.array(z0), np.array(e0)
        if rng.uniform() < 0.5:
            zi, ei = z0, e0
        z, e2 = z0, e0**2
        rat = 1.0
        cen = z0 + (0.3 * e0 if rng.uniform() < 0.3 else 0)
        for i in range(nit):
            dz = np.interp(z, grid, off[i] + slo[i] * np.log(lam / piv))
            se = np.interp(z, grid, sca[i])
            if not noerr:
                rat *= np.sqrt((e2 + se**2) / e2)
                e2 += se**2
            z += dz
        wit = dict(lam=lam, z0=z0, e0=e0, noerr=noerr, nit=nit)
        if usepz:
            n = int(rng.choice([21, 11]))
            hb = 8 * e0 / (n - 1)
            b = hb * (np.arange(n) - (n - 1) // 2) + cen
            p = np.exp(-0.5 * ((b - cen) / e0)**2)
            from scipy.integrate import simpson
            p /= simpson(y=p, x=b)
            b0, p0 = b.copy(), p.copy()
            zo, eo, bo, po = Z.apply_correction(lam, zi, ei, pzbins=b, pzvals=p, noerr=noerr)
            mon.check('corr_pure', np.array_equal(b, b0) and np.array_equal(p, p0) and float(zi) == z0 and float(ei) == e0, **wit)
            mon.check('corr_pz', abs(simpson(y=po, x=bo) - 1) < 1e-6 and np.allclose(np.diff(bo), hb * rat, rtol=1e-4) and
                      abs(bo[(n - 1) // 2] - (cen + z - z0)) < 2e-5 and np.argmax(po) == np.argmax(p0) and np.allclose(po * rat, p0, rtol=1e-4, atol=1e-6 * p0.max()), **wit)
        else:
            zo, eo = Z.apply_correction(lam, zi, ei, noerr=noerr)
            mon.check('corr_pure', float(zi) == z0 and float(ei) == e0, **wit)
        mon.check('corr_value', abs(float(zo) - z) < 2e-5, got=zo, want=z, **wit)
        mon.check('corr_noerr' if noerr else 'corr_error', abs(float(eo) - np.sqrt(e2)) < 2e-5, got=eo, want=np.sqrt(e2), **wit)
    mon.distinct('corr', nit, no, ns, piv, h)
