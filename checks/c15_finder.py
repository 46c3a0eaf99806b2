"""C15: the three cluster-finding passes (first pass, likelihood, percolation) keep their book of seeds, ranks and shared members.

The monitor re-executes each pass cluster by cluster from public pieces (Cluster, Zlambda, centring; judged by C12-C14), keeping its own book of
which galaxy is taken by whom, and compares with what the runners wrote."""
import os
import numpy as np
import fitsio
import rmx
import world
import skygen
from checks import c12_cluster as C12

RULE = 'one pass over a survey judged, keyed by (pass, seeding, keepz, options, region, number of clusters, number of overlaps)'
REQUIRED = {'fp_survivors': 4, 'fp_values': 20, 'fp_seed': 20, 'like_survivors': 4, 'like_values': 20, 'like_total': 20, 'perc_order': 6, 'perc_survivors': 6, 'perc_values': 20, 'local_background': 20,
            'perc_center': 20, 'perc_candidates': 20, 'members_set': 20, 'members_values': 20, 'pfree_range': 20, 'taken_once': 10, 'pz': 15, 'slopes': 15, 'centers_avg': 15,
            'files': 6, 'inputs_untouched': 6, 'ids_kept': 2}
BUDGET = {'quick': 700, 'thorough': 3000}
prepare = C12.prepare


def plan(tier, seed):
    n = 16 if tier == 'quick' else 110
    rg = sorted(skygen.REGIONS)
    modes = ['zseed', 'none', 'spec', 'zseed']
    return [{'kind': 'chain', 'region': rg[j % len(rg)], 'mode': modes[j % 4], 'cls': ['full', 'holes'][(j // 4) % 2], 'seed': seed * 7717 + j} for j in range(n)]


def crowd(k):
    """k groups of clusters that overlap on the sky."""
    def f(rng, t):
        for i in range(t.size):
            if i % 4 != 0:
                j = i - i % 4
                off = rng.choice([0.05, 0.3, 0.8, 1.5]) / world.mpc_per_deg(float(t['z'][j]))
                a, b = world.offset(t['ra'][j], t['dec'][j], off, rng.uniform(0, 6.28))
                t['ra'][i], t['dec'][i] = a, b
                t['z'][i] = t['z'][j] + rng.choice([0.0, 0.005, -0.01, 0.03, 0.15])
    return f


def zcorr_file(rng, fn):
    n = 5
    t = np.zeros(1, dtype=[('offset_z', 'f4', n), ('offset', 'f4', n), ('slope_z', 'f4', n), ('slope', 'f4', n), ('scatter', 'f4', n), ('offset_true', 'f4', n), ('slope_true', 'f4', n),
                           ('scatter_true', 'f4', n), ('niter_true', 'i2'), ('zred_uncorr', 'f4', n)])
    t['offset_z'] = t['slope_z'] = np.linspace(0.05, 0.6, n)
    t['offset_true'] = rng.normal(size=n) * 0.006
    t['slope_true'] = rng.normal(size=n) * 0.002
    t['scatter_true'] = rng.uniform(0.001, 0.01, n)
    t['niter_true'] = 1
    t['zred_uncorr'] = t['offset_z'] + rng.normal(size=n) * 0.003
    h = fitsio.FITSHDR()
    h['ZRANGE0'], h['ZRANGE1'], h['ZBINSIZE'], h['ZLAMPIV'] = 0.04, 0.62, 0.002, 30.0
    fitsio.write(fn, t, header=h, clobber=True)
    return fn


def zreds_of(w, zr, cfg):
    """the zred table of the galaxies, by the single-catalogue path (judged by C11)."""
    from redmapper import GalaxyCatalog
    from redmapper.zred_color import ZredColor
    g = w.g
    gc = GalaxyCatalog(g.copy())
    gc.add_zred_fields(cfg.zred_nsamp)
    ZredColor(zr).compute_zreds(gc)
    out = np.zeros(g.size, dtype=[(n, gc._ndarray.dtype[n]) for n in gc._ndarray.dtype.names if n.startswith('zred') or n in ('chisq', 'lkhd')])
    for n in out.dtype.names:
        out[n] = gc._ndarray[n]
    return out


class Ref(object):
    """redmapper's own building blocks, without its runners."""

    def __init__(self, cfg, galfile, zredfile, chisq_cut, refmag=True, zredbkg=False):
        from redmapper import get_mask, DepthMap, GalaxyCatalog, RedSequenceColorPar, Background, ZredBackground
        from redmapper.zlambda import ZlambdaCorrectionPar
        self.cfg = cfg
        self.zr = RedSequenceColorPar(cfg.parfile, fine=True)
        self.bkg = Background(cfg.bkgfile)
        self.zb = ZredBackground(cfg.bkgfile) if zredbkg else None
        self.mask = get_mask(cfg)
        self.depth = DepthMap(cfg) if cfg.depthfile is not None else None
        self.zc = ZlambdaCorrectionPar(parfile=cfg.zlambdafile, zlambda_pivot=cfg.zlambda_pivot) if os.path.isfile(str(cfg.zlambdafile)) else None
        g = GalaxyCatalog.from_galfile(galfile, zredfile=zredfile)
        b = np.asarray(self.bkg.refmagbins)
        use = (g.refmag > b[0]) & (g.refmag < b[-1] + (b[1] - b[0]))
        if chisq_cut and zredfile is not None:
            use &= g.chisq < cfg.chisq_max
        self.g = g[np.where(use)[0]]
        if self.depth is None:
            from redmapper.depth_fitting import DepthLim
            self.lim = DepthLim(self.g.refmag, self.g.refmag_err)

    def radius(self, mode):
        c = self.cfg
        r0, beta = getattr(c, mode + '_r0'), getattr(c, mode + '_beta')
        if beta == 0:
            a, b = 1.2 * r0, 1.2 * c.percolation_rmask_0
        else:
            a, b = r0 * 3.**beta, c.percolation_rmask_0 * 3.**c.percolation_rmask_beta
        return r0, beta, max(a, b, c.bkg_local_annuli[1] if c.bkg_local_compute else 0.0)

    def cluster(self, ra, dec, z, mode, limlum):
        from redmapper import Cluster
        r0, beta, mr = self.radius(mode)
        c = Cluster(config=self.cfg, zredstr=self.zr, bkg=self.bkg, r0=r0, beta=beta, zredbkg=self.zb)
        c.ra, c.dec = float(ra), float(dec)
        c.redshift = z
        self.mask.select_maskgals_sample(0)
        c.find_neighbors(mr, self.g, megaparsec=True, maxmag=c.mstar - 2.5 * np.log10(limlum))
        if c.neighbors.size == 0:
            return None
        c.neighbors.pfree[:] = 1.0
        self.environ(c)
        m = self.mask.maskgals
        c.maskfrac = self.frac(1.0)
        if c.maskfrac == 1.0 or np.median(m.limmag) <= 1.0:
            return None
        c.lim_exptime, c.lim_limmag = np.median(m.exptime), np.median(m.limmag)
        return c

    def environ(self, c):
        if self.depth is None:
            self.lim.calc_maskdepth(self.mask.maskgals, c.neighbors.refmag, c.neighbors.refmag_err)
        else:
            self.depth.calc_maskdepth(self.mask.maskgals, c.ra, c.dec, c.mpc_scale)
        self.mask.set_radmask(c)

    def frac(self, r):
        m = self.mask.maskgals
        k = np.asarray(m.r) < r
        return 1.0 if not k.any() else float(np.mean(np.asarray(m.mark)[k] == 0))


def judge_local(mon, name, row, c, ref, cfg, wi):
    """the local background of a row is the one of its own cluster, and nothing when it is not asked for."""
    got = float(row['bkg_local'])
    if not cfg.bkg_local_compute or cfg.bkg_local_use:
        mon.check(name, got == 0.0, got=got, asked=False, **wi)
        return
    want = float(c.compute_bkg_local(ref.mask, ref.depth if ref.depth is not None else ref.lim))
    a0, a1 = cfg.bkg_local_annuli
    r = np.asarray(c.neighbors.r)
    n = int(np.sum((r > a0) & (r < a1)))
    if np.isfinite(want):
        mon.check(name, abs(got - want) <= (0.02 + 1.5 / max(n, 1)) * want + 1e-6, got=got, want=want, n=n, **wi)


def quiet_noise():
    """the photometric noise of the Monte-Carlo galaxies is a fixed draw, so that two measurements of one cluster agree."""
    from redmapper.mask import Mask
    if getattr(Mask, '_verif', False):
        return
    orig = Mask.calc_maskcorr

    def fixed(self, *a, **k):
        st = np.random.get_state()
        np.random.seed(777)
        try:
            return orig(self, *a, **k)
        finally:
            np.random.set_state(st)
    Mask.calc_maskcorr = fixed
    Mask._verif = True


def near(a, b, tol):
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-3)


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    np.random.seed(case['seed'] % 2**31)
    quiet_noise()
    d = env.tmp()
    mode = case['mode']
    opts = {}
    if rng.uniform() < 0.5:
        opts['percolation_memradius'] = 1.2
    if rng.uniform() < 0.4:
        opts['percolation_memlum'] = 0.15
    if rng.uniform() < 0.5:
        opts['zlambdafile'] = zcorr_file(rng, os.path.join(d, 'zc.fit'))
    calibrated = rng.uniform() < 0.75
    if not calibrated:
        opts['lnw_cen_sigma'] = -1.0
    opts['likelihoods_use_zred'] = bool(rng.uniform() < 0.7)
    opts['percolation_niter'] = int(rng.choice([2, 3]))
    opts['percolation_lmask'] = float(rng.choice([0.1, -1.0, 0.2, 0.05]))
    opts['use_tempfiles_to_conserve_memory'] = bool(rng.uniform() < 0.3)
    opts['bkg_local_compute'] = bool(case['seed'] % 3 == 1)
    opts['firstpass_r0'], opts['firstpass_beta'] = [(0.5, 0.0), (0.7, 0.2)][rng.randint(2)]
    w = world.make(rng, env, d, region=case['region'], size=2.4, ncl=int(rng.choice([4, 8])), nfield=int(rng.choice([150, 500, 900])) if mode != 'none' else 150, cls=case['cls'],
                   nmin=12, nmax=60 if mode != 'none' else 25, zlo=0.12, zhi=0.4, places=crowd(2), maskgal_nsamples=1, depth=case['seed'] % 4 != 3, uniform_depth=[True, 'slope', False][case['seed'] % 3], **opts)
    cfg0 = rmx.test_config(env, d, **w.over)
    zt = zreds_of(w, rmx.zredstr(env, fine=True), cfg0)
    master, zmaster, _ = rmx.write_galtable(os.path.join(d, 'tab'), w.g, 16 if case['region'] not in ('npole', 'spole') else 32, zreds=zt)
    over = dict(w.over, galfile=master, zredfile=zmaster, outbase='t')
    seedf = None
    if mode != 'none':
        seedf = os.path.join(d, 'seeds.fit')
        over['seedfile'] = seedf
        seeds = make_seeds(rng, w, zt)
        fitsio.write(seedf, seeds, clobber=True)
    keepz = mode == 'spec'
    wit = dict(region=case['region'], mode=mode, opts={k: v for k, v in opts.items() if not isinstance(v, str)}, calibrated=calibrated)
    before = {f: open(f, 'rb').read() for f in [seedf] if f}
    fp = firstpass(rng, mon, env, d, w, over, mode, keepz, seedf, zt, wit)
    if fp is None:
        return
    lk = likelihoods(rng, mon, env, d, over, fp, keepz, calibrated, wit)
    if lk is None:
        return
    percolation(rng, mon, env, d, w, over, lk, keepz, wit, 'like')
    shuffled(rng, mon, env, d, w, over, lk, wit)
    for f in before:
        mon.check('inputs_untouched', open(f, 'rb').read() == before[f], file=f, **wit)


def make_seeds(rng, w, zt):
    """the true centrals and some ordinary galaxies."""
    g = w.g
    k = np.where(g['central'] == 1)[0]
    o = rng.permutation(np.where((g['halo_id'] > 0) & (g['central'] == 0))[0])[:20]
    f = rng.permutation(np.where(g['halo_id'] == 0)[0])[:10]
    i = rng.permutation(np.concatenate([k, o, f]))
    s = np.zeros(i.size, dtype=[('ra', 'f8'), ('dec', 'f8'), ('mag', 'f4', 5), ('mag_err', 'f4', 5), ('refmag', 'f4'), ('refmag_err', 'f4'), ('zred', 'f4'), ('zred_e', 'f4'), ('zred_chisq', 'f4'),
                                ('ebv', 'f4'), ('zspec', 'f4')])
    for n in ('ra', 'dec', 'mag', 'mag_err', 'refmag', 'refmag_err'):
        s[n] = g[n][i]
    s['zred'], s['zred_e'], s['zred_chisq'] = zt['zred'][i], zt['zred_e'][i], zt['chisq'][i]
    s['zspec'] = g['ztrue'][i]
    s['ebv'] = rng.uniform(0, 0.1, i.size)
    return s


def firstpass(rng, mon, env, d, w, over, mode, keepz, seedf, zt, wit):
    from redmapper.run_firstpass import RunFirstPass
    from redmapper.zlambda import Zlambda
    cfg = rmx.test_config(env, d, **over)
    clean = bool(rng.uniform() < 0.3)
    R = RunFirstPass(cfg, specmode=mode == 'spec')
    R.run(keepz=keepz, cleaninput=clean)
    ref = Ref(cfg, over['galfile'], over['zredfile'], True)
    lim = max(cfg.lval_reference - 0.1, 0.01)
    # the seeds that qualify
    if seedf is not None:
        s = fitsio.read(seedf)
        ok = (s['zred'] >= cfg.zrange[0]) & (s['zred'] <= cfg.zrange[1]) & (s['zred_chisq'] < cfg.chisq_max)
        zi = s['zspec'] if mode == 'spec' else s['zred']
        if clean:
            ok &= np.asarray(ref.mask.compute_radmask(s['ra'], s['dec'])).astype(bool)
        s, zi = s[ok], zi[ok]
        ra, dec, rm, mg, zred, chi = s['ra'], s['dec'], s['refmag'], s['mag'], s['zred'], s['zred_chisq']
    else:
        G = ref.g
        ms = np.asarray(ref.zr.mstar(G.zred))
        ok = np.where((G.zred >= cfg.zrange[0]) & (G.zred <= cfg.zrange[1]) & (G.chisq < cfg.chisq_max) & (G.refmag < ms - 2.5 * np.log10(cfg.lval_reference)))[0]
        ra, dec, rm, mg, zred, chi = [np.asarray(getattr(G, k))[ok] for k in ('ra', 'dec', 'refmag', 'mag', 'zred', 'chisq')]
        zi = zred
    out = R.cat
    n = 0 if out is None else out.size
    got = {}
    for i in range(n):
        got.setdefault((float(out.ra[i]), float(out.dec[i])), []).append(i)
    mon.check('fp_survivors', all(len(v) == 1 for v in got.values()), rows=n, **wit)
    todo = np.arange(ra.size)
    if todo.size > 60:
        # all survivors and a sample of the others
        has = np.array([(float(a), float(b)) in got for a, b in zip(ra, dec)])
        todo = np.concatenate([np.where(has)[0][:40], rng.permutation(np.where(~has)[0])[:20]])
        mon.check('fp_survivors', has.sum() == len(got), survivors=len(got), seeds_among_them=int(has.sum()), **wit)
    else:
        mon.check('fp_survivors', all(any(float(a) == k[0] and float(b) == k[1] for a, b in zip(ra, dec)) for k in got), what='output not from a seed', **wit)
    for i in todo:
        c = ref.cluster(ra[i], dec[i], zi[i], 'firstpass', lim)
        res, edge = None, False
        if c is not None:
            good = True
            for it in range(1 if mode == 'spec' else cfg.firstpass_niter):
                lam = float(c.calc_richness(ref.mask, calc_err=False))
                edge |= near(lam * abs(float(c.scaleval)), cfg.firstpass_minlambda, 0.01)
                if lam < abs(cfg.firstpass_minlambda / float(c.scaleval)):
                    good = False
                    break
                L = (lam, float(c.r_lambda), float(c.scaleval))
                z, ze = Zlambda(c).calc_zlambda(c.redshift, ref.mask, calc_err=True, calcpz=False)
                edge |= near(z, cfg.zrange[0], 0.002) or near(z, cfg.zrange[1], 0.002)
                if z < cfg.zrange[0] or z > cfg.zrange[1]:
                    good = False
                    break
                if not keepz:
                    c.redshift = z
            if good:
                edge |= near(L[0], cfg.firstpass_minlambda, 0.005)
                if L[0] >= cfg.firstpass_minlambda:
                    res = L + (float(z), float(ze), ref.frac(L[1]))
        key = (float(ra[i]), float(dec[i]))
        wi = dict(wit, seed_z=float(zi[i]), ra=key[0], dec=key[1], want=res)
        if edge and (res is None) != (key not in got):
            continue
        if not mon.check('fp_survivors', (res is None) == (key not in got), **wi):
            continue
        if res is None:
            continue
        o = out._ndarray[got[key][0]]
        mon.check('fp_seed', o['refmag'] == rm[i] and np.array_equal(o['mag'], mg[i]) and o['zred'] == zred[i] and o['z_init'] == zi[i] and near(float(o['zred_chisq']), float(chi[i]), 1e-5), **wi)
        v = (o['lambda'], o['r_lambda'], o['scaleval'], o['z_lambda'], o['z_lambda_e'], o['maskfrac'])
        mon.check('fp_values', np.allclose(v, res, rtol=3e-3, atol=3e-4), got=v, **wi)
        wz = zi[i] if mode == 'spec' else res[3]
        mon.check('fp_values', abs(o['z'] - wz) < 3e-4, z=o['z'], next_z=wz, **wi)
    mon.distinct('fp', mode, keepz, wit['region'], len(got), clean)
    if n == 0:
        return None
    R.output(savemembers=False, withversion=False, clobber=False)
    fn = R.filename
    mon.check('files', same_file(fn, out._ndarray), file=fn, **wit)
    return fn


def same_file(fn, nd):
    t = fitsio.read(fn, ext=1, lower=True)
    return t.size == nd.size and all(np.array_equal(t[k], nd[k], equal_nan=nd[k].dtype.kind == 'f') for k in nd.dtype.names)


def likelihoods(rng, mon, env, d, over, fp, keepz, calibrated, wit):
    from redmapper.run_likelihoods import RunLikelihoods
    from scipy.stats import chi2
    cfg = rmx.test_config(env, d, **dict(over, catfile=fp))
    keep = open(fp, 'rb').read()
    R = RunLikelihoods(cfg)
    R.run(keepz=keepz)
    mon.check('inputs_untouched', open(fp, 'rb').read() == keep, **wit)
    t = fitsio.read(fp, ext=1, lower=True)
    uz = cfg.likelihoods_use_zred
    ref = Ref(cfg, over['galfile'], over['zredfile'] if uz else None, True)
    lim = max(cfg.lval_reference - 0.1, 0.01)
    zr = list(cfg.zrange)
    if keepz:
        zr = [max(zr[0] - cfg.calib_zrange_cushion, 0.05), zr[1] + cfg.calib_zrange_cushion]
    ok = (t['z'] > zr[0]) & (t['z'] < zr[1]) & (t['lambda'] > 0) & (t['refmag'] < np.asarray(ref.zr.mstar(t['z'])) - 2.5 * np.log10(lim))
    t = t[ok]
    out = R.cat
    n = 0 if out is None else out.size
    got = {(float(out.ra[i]), float(out.dec[i])): i for i in range(n)}
    mon.check('like_survivors', len(got) == n and all(any(k == (float(a), float(b)) for a, b in zip(t['ra'], t['dec'])) for k in got), rows=n, **wit)
    todo = np.arange(t.size)
    if todo.size > 60:
        todo = rng.permutation(todo)[:60]
    for i in todo:
        c = ref.cluster(t['ra'][i], t['dec'][i], t['z'][i], 'likelihoods', lim)
        res, edge = None, False
        if c is not None:
            lam = float(c.calc_richness(ref.mask))
            N = c.neighbors
            k = int(np.argmin(N.r))
            pm, r = np.asarray(N.pmem).astype('f8'), np.asarray(N.r)
            inc = (pm > 0) & (r > r[k])
            edge = near(lam, cfg.likelihoods_minlambda, 0.005)
            if lam >= cfg.likelihoods_minlambda and inc.sum() >= 3:
                with np.errstate(all='ignore'):
                    ll = -lam / float(c.scaleval) - np.sum(np.log(1 - pm[inc]))
                lb = 0.0
                if calibrated:
                    mb = c.mstar + cfg.wcen_Delta0 + cfg.wcen_Delta1 * np.log(lam / cfg.wcen_pivot)
                    phi = -0.5 * np.log(2 * np.pi) - np.log(cfg.wcen_sigma_m) - 0.5 * (float(N.refmag[k]) - mb)**2 / cfg.wcen_sigma_m**2
                    if uz:
                        zl = float(t['z_lambda'][i])
                        zm = np.interp(zl, ref.zc.z, ref.zc.zred_uncorr) if ref.zc is not None else zl
                        e = float(N.zred_e[k])
                        gg = np.exp(-0.5 * (float(N.zred[k]) - zm)**2 / e**2) / np.sqrt(2 * np.pi) / e
                    else:
                        gg = chi2.pdf(float(N.chisq[k]), ref.zr.ncol)
                    lum = 10.**((c.mstar - np.asarray(N.refmag).astype('f8')) / 2.5)
                    u = (r > 1e-5) & (pm > 0)
                    w = np.log(np.sum((pm * lum)[u] / np.sqrt(r[u]**2 + cfg.wcen_rsoft**2)) / (np.sum((pm * lum)[u]) / float(c.r_lambda)))
                    sg = cfg.lnw_cen_sigma / np.sqrt(min(lam, cfg.wcen_maxlambda) / float(c.scaleval) / cfg.wcen_pivot)
                    with np.errstate(all='ignore'):
                        fw = -0.5 * np.log(2 * np.pi) - np.log(sg) - 0.5 * (np.log(w) - cfg.lnw_cen_mean)**2 / sg**2
                    lb = phi + np.log(max(gg, 1e-10)) + fw
                res = (lam, float(c.Lambda_e), ll, lb)
        key = (float(t['ra'][i]), float(t['dec'][i]))
        wi = dict(wit, ra=key[0], dec=key[1], want=res)
        if edge and (res is None) != (key not in got):
            continue
        if not mon.check('like_survivors', (res is None) == (key not in got), **wi) or res is None:
            continue
        o = out._ndarray[got[key]]
        mon.check('like_values', np.allclose([o['lambda'], o['lambda_e'], o['lnlamlike']], res[:3], rtol=3e-3, atol=5e-3), got=[o['lambda'], o['lambda_e'], o['lnlamlike']], **wi)
        mon.check('like_values', o['z'] == t['z'][i] and o['refmag'] == t['refmag'][i] and o['z_lambda'] == t['z_lambda'][i], **wi)
        mon.check('like_values', np.allclose(o['lncglike'], res[3], rtol=5e-3, atol=2e-2, equal_nan=True), central_likelihood=o['lncglike'], **wi)
        mon.check('like_total', np.allclose(o['lnlike'], res[2] + res[3], rtol=5e-3, atol=5e-2, equal_nan=True), total=o['lnlike'], **wi)
    mon.distinct('like', wit['region'], n, uz, calibrated, keepz)
    if n == 0:
        return None
    R.output(savemembers=False, withversion=False, clobber=False)
    mon.check('files', same_file(R.filename, out._ndarray), file=R.filename, **wit)
    return R.filename


def shuffled(rng, mon, env, d, w, over, lk, wit):
    """ids given in the input and kept: the input order decides the ranking."""
    t = fitsio.read(lk, ext=1, lower=True)
    fn = os.path.join(d, 'kept.fit')
    t['mem_match_id'] = rng.permutation(5 * t.size)[:t.size] + 1
    fitsio.write(fn, t[rng.permutation(t.size)], clobber=True)
    percolation(rng, mon, env, d, w, dict(over, outbase='k'), fn, False, dict(wit, keepid=True), 'keepid')


def percolation(rng, mon, env, d, w, over, catf, keepz, wit, how):
    from redmapper.run_percolation import RunPercolation
    from redmapper.zlambda import Zlambda
    from redmapper.centering import CenteringWcenZred, CenteringBCG
    over = dict(over, catfile=catf)
    over['centerclass'] = str(rng.choice(['CenteringWcenZred', 'CenteringWcenZred', 'CenteringBCG']))
    cfg = rmx.test_config(env, d, **over)
    keepid = how == 'keepid'
    clean = bool(rng.uniform() < 0.3)
    keep = open(catf, 'rb').read()
    R = RunPercolation(cfg)
    R.run(keepz=keepz, keepid=keepid, cleaninput=clean)
    mon.check('inputs_untouched', open(catf, 'rb').read() == keep, **wit)
    ref = Ref(cfg, over['galfile'], over['zredfile'], False, zredbkg=True)
    t = fitsio.read(catf, ext=1, lower=True)
    zr = list(cfg.zrange)
    if keepz:
        zr = [max(zr[0] - cfg.calib_zrange_cushion, 0.05), zr[1] + cfg.calib_zrange_cushion]
    lim0 = max(cfg.lval_reference - 0.1, 0.01)
    ok = (t['z'] > zr[0]) & (t['z'] < zr[1]) & np.isfinite(t['lnlike']) & (t['lambda'] > cfg.percolation_minlambda) & \
        (t['refmag'] < np.asarray(ref.zr.mstar(t['z'])) - 2.5 * np.log10(lim0))
    if clean:
        ok &= np.asarray(ref.mask.compute_radmask(t['ra'], t['dec'])).astype(bool)
    t = t[ok]
    o = np.argsort(t['mem_match_id']) if keepid else np.argsort(-t['lnlike'], kind='stable')
    t = t[o]
    out = R.cat
    n = 0 if out is None else out.size
    tie = (not keepid) and np.unique(t['lnlike']).size < t.size
    if t.size == 0:
        mon.check('perc_order', n == 0, rows=n, **wit)
        return
    mem = R.members
    if tie:
        # equal likelihoods: the runner may take them in either order; take its order from the ids it gave
        return
    ids = t['mem_match_id'] if keepid else np.arange(t.size) + 1
    if n:
        mon.check('perc_order', np.all(np.diff(out.mem_match_id) > 0) and np.all(np.isin(out.mem_match_id, ids)), ids=out.mem_match_id[:], **wit)
        if keepid:
            mon.check('ids_kept', np.all(np.isin(out.mem_match_id, ids)), **wit)
    where = {int(out.mem_match_id[i]): i for i in range(n)}
    lim = lim0
    if cfg.lval_reference > 0.1:
        lim = max(lim, 0.1)
    if cfg.percolation_memlum is not None and 0 < cfg.percolation_memlum < cfg.lval_reference:
        lim = min(lim, cfg.percolation_memlum)
    if cfg.percolation_lmask > 0:
        lim = min(lim, cfg.percolation_lmask)
    lmask = cfg.lval_reference if cfg.percolation_lmask < 0 else cfg.percolation_lmask
    pgal = np.zeros(ref.g.size)
    cls = {'CenteringWcenZred': CenteringWcenZred, 'CenteringBCG': CenteringBCG}[cfg.centerclass]
    overlaps = 0
    total = {}
    for i in range(t.size):
        wi = dict(wit, rank=i, ra=float(t['ra'][i]), dec=float(t['dec'][i]), z=float(t['z'][i]))
        c = ref.cluster(t['ra'][i], t['dec'][i], t['z'][i], 'percolation', lim)
        res, edge = (None, False)
        if c is not None:
            c.neighbors.pfree[:] = np.clip(1 - pgal[np.asarray(c.neighbors.index)], 0, None)
            overlaps += int(np.any(c.neighbors.pfree < 0.9))
            res, edge = reexec(c, ref, cfg, float(t['lambda'][i]), keepz, cls, Zlambda)
        k = where.get(int(ids[i]))
        if edge and (res is None) != (k is None):
            # the runner and the re-execution differ at a threshold: the book can no longer be followed
            mon.event('left_at_threshold')
            return
        if not mon.check('perc_survivors', (res is None) == (k is None), kept=k is not None, **wi):
            return
        if res is None:
            continue
        row = out._ndarray[k]
        m = mem._ndarray[mem.mem_match_id == ids[i]]
        if not judge_perc(mon, cfg, ref, c, res, row, m, t[i], lmask, pgal, keepz, wi, Zlambda):
            return
        held = (m['refmag'] < c.mstar - 2.5 * np.log10(lmask) - 1e-3) & (m['r'] < row['r_mask'] - 1e-3)
        for a, b in zip(m['id'][held], (m['p'] * m['pfree'])[held]):
            total[int(a)] = total.get(int(a), 0.0) + float(b)
    if total:
        mon.check('taken_once', max(total.values()) <= 1.001, worst=max(total.values()), **wit)
    if n:
        mon.check('members_set', np.all(np.isin(mem.mem_match_id, out.mem_match_id)), what='members without a cluster', **wit)
    mon.distinct('perc', how, wit['region'], n, overlaps, cfg.centerclass, keepz, clean)
    mon.sample({'inputs': int(t.size), 'kept': n, 'overlapping': overlaps, 'members': 0 if mem is None else mem.size})
    if n:
        R.output(savemembers=True, withversion=False, clobber=False)
        mf = R.filename.replace('_catalog', '_catalog_members')
        mon.check('files', same_file(R.filename, out._ndarray) and same_file(mf, mem._ndarray), file=R.filename, **wit)
        R.output(savemembers=True, withversion=False, clobber=True)
        mon.check('files', same_file(R.filename, out._ndarray) and same_file(mf, mem._ndarray), file=R.filename, again=True, **wit)


def reexec(c, ref, cfg, lam_in, keepz, cls, Zlambda):
    """what the percolation of one input cluster should give (None: rejected)."""
    N = c.neighbors
    edge = False
    k = int(np.argmin(N.r))
    edge |= near(float(N.pfree[k]), cfg.percolation_pbcg_cut, 0.01)
    if N.pfree[k] < cfg.percolation_pbcg_cut:
        return None, edge
    r = np.asarray(N.r)
    lc = np.where(r < 2.05 * c.r0 * (lam_in / 100.)**c.beta)[0]
    if lc.size < 2:
        return None, edge
    c.calc_richness(ref.mask, index=lc, calc_err=False)
    inc = np.sum((np.asarray(N.pmem) > 0) & (r > r.min()))
    edge |= near(float(c.Lambda) / float(c.scaleval), cfg.percolation_minlambda, 0.01)
    if float(c.Lambda) / float(c.scaleval) < cfg.percolation_minlambda or inc < 3:
        return None, edge
    if not keepz:
        z, _ = Zlambda(c).calc_zlambda(c.redshift, ref.mask, calc_err=False, calcpz=False)
        if z < 0:
            return None, True
        c.redshift = z
    ce = cls(c)
    if not ce.find_center() or ce.ngood == 0:
        return None, edge
    if ce.ngood > 1 and ce.p_c[0] - ce.p_c[1] < 1e-4:
        edge = True
    c.ra, c.dec = float(np.ravel(ce.ra)[0]), float(np.ravel(ce.dec)[0])
    c.update_neighbors_dist()
    for it in range(cfg.percolation_niter):
        if it == 0:
            ref.environ(c)
        if np.sum(np.asarray(N.r) < 2.0 * float(c.r_lambda)) < 2:
            return None, True
        c.calc_richness(ref.mask)
        edge |= near(float(c.Lambda) / float(c.scaleval), cfg.percolation_minlambda, 0.01) or near(float(N.pfree[ce.maxind]), cfg.percolation_pbcg_cut, 0.01)
        if float(c.Lambda) / float(c.scaleval) < cfg.percolation_minlambda or N.pfree[ce.maxind] < cfg.percolation_pbcg_cut:
            return None, edge
        if it == 0:
            zl = Zlambda(c)
            z, ze = zl.calc_zlambda(c.redshift, ref.mask, calc_err=True, calcpz=True)
            if z < 0:
                return None, True
            if not keepz:
                c.redshift = z
            pz, pb = np.array(zl.pz), np.array(zl.pzbins)
    return dict(cent=ce, z=float(z), ze=float(ze), pz=pz, pzbins=pb), edge


def judge_perc(mon, cfg, ref, c, res, row, m, tin, lmask, pgal, keepz, wi, Zlambda):
    N = c.neighbors
    ce = res['cent']
    n = int(ce.ngood)
    ix = np.asarray(ce.index)[:n]
    lam = float(c.Lambda)
    ok = row['ra_orig'] == tin['ra'] and row['dec_orig'] == tin['dec']
    i0 = int(ix[0])
    g = N._ndarray
    ok &= row['ra'] == g['ra'][i0] and row['dec'] == g['dec'][i0]
    if not mon.check('perc_center', ok, got=(row['ra'], row['dec']), want=(g['ra'][i0], g['dec'][i0]), **wi):
        return False
    mon.check('perc_center', row['refmag'] == g['refmag'][i0] and np.array_equal(row['mag'], g['mag'][i0]) and row['zred'] == g['zred'][i0] and row['zred_e'] == g['zred_e'][i0] and
              near(float(row['zred_chisq']), float(g['zred_chisq'][i0]), 1e-5), **wi)
    mon.check('perc_candidates', row['ncent_good'] == n and np.array_equal(row['id_cent'][:n], g['id'][ix]) and np.all(row['id_cent'][n:] == 0) and np.array_equal(row['ra_cent'][:n], g['ra'][ix]) and
              np.allclose(row['p_cen'], ce.p_cen, atol=2e-3) and np.allclose(row['q_cen'], ce.q_cen, atol=2e-3) and np.allclose(row['p_sat'], ce.p_sat, atol=2e-3) and
              np.allclose(row['p_fg'], ce.p_fg, atol=2e-3), ids=row['id_cent'], want=g['id'][ix], p=row['p_cen'], **wi)
    z, ze, pb, pz = res['z'], res['ze'], res['pzbins'], res['pz']
    if ref.zc is not None:
        z, ze, pb, pz = ref.zc.apply_correction(lam, z, ze, pzbins=np.array(pb, dtype='f4'), pzvals=np.array(pz, dtype='f4'))
    v = [row[k] for k in ('lambda', 'lambda_e', 'r_lambda', 'scaleval', 'z_lambda', 'z_lambda_e', 'maskfrac')]
    want = [lam, float(c.Lambda_e), float(c.r_lambda), float(c.scaleval), float(z), float(ze), ref.frac(float(c.r_lambda))]
    if not mon.check('perc_values', np.allclose(v, want, rtol=3e-3, atol=3e-4), got=v, want=want, **wi):
        return False
    judge_local(mon, 'local_background', row, c, ref, cfg, wi)
    mon.check('perc_values', row['lim_exptime'] == np.float32(c.lim_exptime) and near(float(row['lim_limmag']), float(c.lim_limmag), 1e-5), **wi)
    mon.check('pz', np.allclose(row['pzbins'], pb, atol=3e-4) and np.allclose(row['pz'], pz, rtol=2e-2, atol=0.02 * np.max(pz)), pz=row['pz'], want=pz, bins=row['pzbins'], want_bins=pb, **wi)
    s = np.trapz(row['pz'], row['pzbins'])
    mon.check('pz', abs(s - 1) < 0.03, integral=s, **wi)
    # d ln(lambda)/dz around the (corrected) redshift
    eps = cfg.zlambda_epsilon
    q = c.copy()
    q.redshift = float(z) - eps
    l0, e0 = float(q.calc_richness(ref.mask)), float(q.Lambda_e)
    q.redshift = float(z) + eps
    l1, e1 = float(q.calc_richness(ref.mask)), float(q.Lambda_e)
    if l0 > 0 and l1 > 0:
        want = [(np.log(l1) - np.log(l0)) / 2 / eps, (e1**2 - e0**2) / 2 / eps]
        got = [row['dlambda_dz'], row['dlambdavar_dz']]
        mon.check('slopes', abs(got[0] - want[0]) <= 0.02 * abs(want[0]) + max(0.2, 0.006 / lam / eps) and abs(got[1] - want[1]) <= 0.04 * abs(want[1]) + max(0.2, 0.006 / lam / eps) + 0.004 * e0**2 / eps, got=got, want=want, **wi)
    # connectivity and other centres
    r, p = np.asarray(N.r), np.asarray(N.p).astype('f8')
    u = (r > r.min()) & (r < float(c.r_lambda)) & (p > 0)
    wt = p * (10.**((c.mstar - np.asarray(N.refmag).astype('f8')) / 2.5) if cfg.wcen_uselum else 1.0)
    w = np.log(np.sum(wt[u] / np.sqrt(r[u]**2 + cfg.wcen_rsoft**2)) / (np.sum(wt[u]) / float(c.r_lambda)))
    lc = [lam]
    for j in range(1, n):
        q = c.copy()
        q.ra, q.dec = float(ce.ra[j]), float(ce.dec[j])
        q.update_neighbors_dist()
        lc.append(float(q.calc_richness(ref.mask, calc_err=False, index=np.where(np.asarray(q.neighbors.r) < 1.5 * float(c.r_lambda))[0])))
    pc = np.asarray(ce.p_cen)[:n]
    lc = np.array(lc)
    avg = np.sum(pc * lc) if n > 1 else lam
    sd = np.sqrt(max(np.sum(pc * lc**2) - avg**2, 0)) if n > 1 else 0.0
    mon.check('centers_avg', np.allclose(row['lambda_cent'][:n], lc, rtol=3e-3, atol=0.02) and np.allclose(row['w'], w, atol=5e-3) and near(float(row['lambda_c']), avg, 5e-3) and
              abs(row['lambda_ce'] - sd) < 0.03 * max(lam, 1) * 0.3 + 0.02, got=[row['lambda_c'], row['lambda_ce'], row['w']], want=[avg, sd, w], **wi)
    # members
    rm = cfg.percolation_rmask_0 * (lam / 100.)**cfg.percolation_rmask_beta * ((1 + float(c.redshift)) / (1 + cfg.percolation_rmask_zpivot))**cfg.percolation_rmask_gamma
    rm = max(rm, float(c.r_lambda))
    mon.check('perc_values', near(float(row['r_mask']), rm, 3e-3), r_mask=row['r_mask'], want=rm, **wi)
    pf = np.asarray(N.pfree).astype('f8')
    pm = np.asarray(N.pmem).astype('f8')
    amb = np.zeros(pf.size, dtype=bool)
    byrad = cfg.percolation_memradius is not None and cfg.percolation_memradius > 1.0
    bylum = cfg.percolation_memlum is not None and 0 < cfg.percolation_memlum < cfg.lval_reference
    if byrad or bylum:
        x = cfg.percolation_memradius * float(c.r_lambda) if byrad else 1e10
        y = c.mstar - 2.5 * np.log10(cfg.percolation_memlum) if bylum else 99.0
        ok = (p > 0.01) & (r < x) & (np.asarray(N.refmag) < y)
        amb |= (np.abs(p - 0.01) < 2e-4) | (np.abs(r - x) < 2e-3) | (np.abs(np.asarray(N.refmag) - y) < 2e-3)
    else:
        ok = pm > 0.01
        amb |= np.abs(pm - 0.01) < 2e-4
    ok &= pf > 0.01
    amb |= np.abs(pf - 0.01) < 1e-3
    cand = np.zeros(pf.size, dtype=bool)
    cand[ix] = True
    ids = g['id']
    must, may = set(ids[(ok & ~amb) | cand]), set(ids[ok | amb | cand])
    have = list(m['id'])
    mon.check('members_set', len(set(have)) == len(have) and must <= set(have) <= may, missing=sorted(must - set(have))[:5], extra=sorted(set(have) - may)[:5], twice=len(have) - len(set(have)), **wi)
    at = {int(a): j for j, a in enumerate(ids)}
    j = np.array([at[int(a)] for a in have if int(a) in at], dtype=int)
    mm = m[[k for k, a in enumerate(have) if int(a) in at]]
    if j.size:
        okj = ok[j] | amb[j]
        want_pf = np.where(okj, pf[j], 0.0)
        good = np.allclose(mm['p'], p[j], atol=3e-3) and np.allclose(mm['r'], r[j], rtol=1e-3, atol=1e-4) and np.allclose(mm['theta_i'], np.asarray(N.theta_i)[j], atol=3e-3) and \
            np.allclose(mm['theta_r'], np.asarray(N.theta_r)[j], atol=1.2e-2) and np.allclose(mm['pcol'], np.asarray(N.pcol)[j], atol=3e-3) and np.allclose(mm['chisq'], np.asarray(N.chisq)[j], rtol=1e-2, atol=1e-2)
        mon.check('members_values', good, **wi)
        exact = all(np.array_equal(mm[k], g[k][j]) for k in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'zred', 'zred_e', 'ebv'))
        mon.check('members_values', exact and np.allclose(mm['z'], float(c.redshift), atol=3e-4), what='copied values', **wi)
        ambf = amb[j]
        mon.check('members_values', np.allclose(mm['pfree'][~ambf], want_pf[~ambf], atol=5e-3), what='pfree', **wi)
    mon.check('pfree_range', np.all((m['pfree'] >= 0) & (m['pfree'] <= 1) & (m['p'] >= 0) & (m['p'] <= 1)), low=float(m['pfree'].min()) if m.size else None, **wi)
    # take the members out of the book
    t = (np.asarray(N.refmag) < c.mstar - 2.5 * np.log10(lmask)) & (r < rm) & (p > 0)
    pgal[np.asarray(N.index)[t]] += p[t]
    return True
