"""C11: galaxy photometric redshifts follow the posterior of the red-sequence model, galaxy by galaxy."""
import os
import numpy as np
from checks.c10_redsequence import make_pars

RULE = 'one galaxy judged, keyed by (model, galaxy class: usable, edge, too faint, too bright, multi-peaked) and the way it was run'
REQUIRED = {'posterior_width': 100, 'peak': 60, 'near_mean': 100, 'chisq_at_peak': 100, 'lkhd': 100, 'correction': 60, 'error_correction': 60, 'second_correction': 60,
            'sentinel': 20, 'bulk_equals_single': 60, 'order_independent': 5, 'chunk_independent': 3, 'pixel_rows': 4, 'sample_range': 60, 'sample_pit': 1, 'table': 4}
BUDGET = {'quick': 600, 'thorough': 3000}
NS = 4


def plan(tier, seed):
    n = 20 if tier == 'quick' else 240
    m = 10 if tier == 'quick' else 90
    out = [{'kind': 'gal', 'j': j, 'seed': seed * 6101 + j} for j in range(n)]
    out += [{'kind': 'run', 'seed': seed * 6101 + 40000 + j} for j in range(m // 2)]
    out += [{'kind': 'pixels', 'seed': seed * 6101 + 60000 + j} for j in range(m)]
    out += [{'kind': 'pit', 'seed': seed * 6101 + 90000 + j} for j in range(2 if tier == 'quick' else 8)]
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    {'gal': gal, 'run': run, 'pixels': pixels, 'pit': pit}[case['kind']](rng, case, mon, env)


ZDT = [('zred', 'f4'), ('zred_e', 'f4'), ('zred2', 'f4'), ('zred2_e', 'f4'), ('zred_uncorr', 'f4'), ('zred_uncorr_e', 'f4'), ('zred_samp', 'f4', NS),
       ('lkhd', 'f4'), ('chisq', 'f4')]


def gals_for(rng, R, n, wide=0.1):
    nmag = R.nmag
    g = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', nmag), ('mag_err', 'f4', nmag), ('ebv', 'f4')])
    nz = R.z.size - 1
    iz = rng.randint(0, nz, n)
    g['id'] = np.arange(n) + 1
    g['refmag'] = R._mstar[iz] + rng.uniform(-1.5, 2.0, n)
    g['refmag_err'] = rng.uniform(0.005, 0.1, n)
    k = rng.uniform(size=n)
    g['refmag'][k < 0.06] = 26.0        # too faint for any redshift
    g['refmag'][(k > 0.06) & (k < 0.12)] = 8.0
    col = R.c[iz] + R.slope[iz] * (np.minimum(g['refmag'], 22) - R.pivotmag[iz])[:, None] + rng.normal(size=(n, nmag - 1)) * rng.choice([0.0, 0.03, wide], n)[:, None]
    g['mag'][:, 0] = 20
    for j in range(nmag - 1):
        g['mag'][:, j + 1] = g['mag'][:, j] - col[:, j]
    g['mag_err'] = rng.choice([0.005, 0.03, 0.2], n)[:, None] * rng.uniform(0.5, 2, (n, nmag))
    return g


class Ref(object):
    """the posterior of one galaxy on the model grid, evaluated from the model arrays alone."""

    def __init__(self, R, g, c, ratio):
        ncol, nmag = R.nmag - 1, R.nmag
        nz = R.z.size - 1
        z = np.asarray(R.z[:nz])
        rm = float(g['refmag'])
        self.z, self.nz = z, nz
        lim, = np.where((rm < R.maxrefmag[:nz]) & (rm > R.minrefmag[:nz]))
        self.usable = lim.size >= 2
        # the overflow bin also counts as a usable bin
        self.edge_usable = lim.size in (1, 2)
        if not self.usable:
            return
        self.bins = np.arange(max(lim[0] - 10, 0), min(lim[-1] + 10, nz))
        me = g['mag_err'].astype('f8')
        if ratio:
            me = me * (c['MAG_ERR_RATIO_INT'] + c['MAG_ERR_RATIO_SLOPE'] * (rm - c['MAG_ERR_RATIO_PIVOT']))
        D = np.zeros((ncol, nmag))
        for j in range(ncol):
            D[j, j], D[j, j + 1] = 1, -1
        C = np.moveaxis(R.covmat[:, :, :nz], 2, 0) + (D @ np.diag(me**2) @ D.T)[None] + \
            np.einsum('ij,ik->ijk', R.slope[:nz], R.slope[:nz]) * float(g['refmag_err'])**2
        mi = int(np.atleast_1d(R.refmagindex(rm))[0])
        dd = R.c[:nz] + R.slope[:nz] * (rm - R.pivotmag[:nz])[:, None] + R.lupcorr[mi, :nz] - (g['mag'][:-1].astype('f8') - g['mag'][1:].astype('f8'))[None]
        w, V = np.linalg.eigh(C)
        w = np.maximum(w, 1e-6)
        self.chi = np.sum(np.einsum('zij,zi->zj', V, dd)**2 / w, axis=1)
        x = 10.0**(0.4 * (R._mstar[:nz] - rm))
        with np.errstate(all='ignore'):
            self.ln = -0.5 * self.chi + np.log(x**(R.alpha + 1) * np.exp(-x) * R.volume_factor[:nz])
        full = np.full(nz, -1e12)
        full[self.bins] = np.where(np.isfinite(self.ln[self.bins]), self.ln[self.bins], -1e11)
        self.ln = full
        d = np.zeros(nz)
        d[self.bins] = np.exp(full[self.bins] - full[self.bins].max())
        self.dist = d
        k = d > 1e-5
        self.ncalc = k.sum()
        self.k = k
        if k.sum() >= 3:
            t = np.trapz(d[k], z[k])
            self.mean = np.trapz(d[k] * z[k], z[k]) / t
            var = np.trapz(d[k] * (z[k] - self.mean)**2, z[k]) / t
        else:
            self.mean = np.sum(d[k] * z[k]) / d[k].sum()
            var = np.sum(d[k] * (z[k] - self.mean)**2) / d[k].sum()
        self.sd = max(np.sqrt(max(var, 0)), 0.005)


def lin(v, x, u):
    i = np.clip(np.searchsorted(x, u, side='right') - 1, 0, x.size - 2)
    return v[i] + (v[i + 1] - v[i]) * (u - x[i]) / (x[i + 1] - x[i])


def judge(mon, R, g, o, c, ratio, wit, corrected):
    """one galaxy g (input row) with output row o."""
    ref = Ref(R, g, c, ratio)
    rm = float(g['refmag'])
    if not ref.usable:
        if ref.edge_usable:
            return 'edge'
        ok = all(float(o[nm]) == -1.0 for nm in ('zred', 'zred_e', 'zred2', 'zred2_e', 'zred_uncorr', 'zred_uncorr_e', 'chisq')) and float(o['lkhd']) == -1000.0
        mon.check('sentinel', ok, refmag=rm, out={nm: o[nm] for nm in o.dtype.names}, **wit)
        return 'unusable'
    zu, eu = float(o['zred_uncorr']), float(o['zred_uncorr_e'])
    if float(o['lkhd']) == -1000.0 and zu == -1.0:
        # no finite likelihood can be assigned: the peak is where the model is unusable
        mon.check('sentinel', float(o['zred']) == -1.0 and float(o['zred2']) == -1.0, **wit)
        return 'bad'
    z = ref.z
    step = z[1] - z[0]
    if ref.ncalc >= 1 and np.all(ref.ln[ref.bins].max() > -1e10):
        mon.check('posterior_width', abs(eu - ref.sd) < 2e-4 + 0.02 * ref.sd or (ref.sd <= 0.0055 and eu <= 0.0056) or ref.ncalc < 4, got=eu, want=ref.sd, ncalc=ref.ncalc, **wit)
        mon.check('near_mean', abs(zu - ref.mean) < 2.05 * eu + 1e-4, got=zu, mean=ref.mean, e=eu, **wit)
        ex = np.asarray(R.extrapolated[:ref.nz])
        dd = np.where(ex, -1.0, ref.dist)
        ip = int(np.argmax(dd))
        srt = np.sort(dd)
        lo, hi = ref.bins[0], ref.bins[-1]
        if srt[-1] > 0 and ip - 2 > lo and ip + 2 < hi and srt[-2] < srt[-1] * (1 - 1e-6):
            s = slice(ip - 2, ip + 3)
            f = np.polyfit(z[s] - z[ip], ref.ln[s], 2)
            if f[0] < 0:
                zt = z[ip] - f[1] / (2 * f[0])
                want = zt if abs(zt - ref.mean) < 2 * ref.sd else ref.mean
                if abs(abs(zt - ref.mean) - 2 * ref.sd) > 0.05 * ref.sd:
                    mon.check('peak', abs(zu - want) < 2e-4, got=zu, want=want, mean=ref.mean, **wit)
            else:
                mon.check('peak', abs(zu - ref.mean) < 2e-4, got=zu, want=ref.mean, **wit)
        iz = int(np.argmin(np.abs(z - zu)))
        amb = abs(abs(zu - z[iz]) - 0.5 * step) < 1e-4 * 5
        if iz in ref.bins and not amb:
            mon.check('chisq_at_peak', abs(float(o['chisq']) - ref.chi[iz]) < 1e-4 + 1e-3 * abs(ref.chi[iz]), got=o['chisq'], want=ref.chi[iz], **wit)
        nd = np.exp(-0.5 * ((z - zu) / eu)**2)
        k = ref.k
        if k.sum() >= 4:
            lk = np.trapz(nd[k] * ref.ln[k], z[k]) / np.trapz(nd[k], z[k])
            mon.check('lkhd', abs(float(o['lkhd']) - lk) < 2e-2 + 2e-3 * abs(lk), got=o['lkhd'], want=lk, **wit)
        gd = ref.dist > 1e-10
        sm = o['zred_samp'].astype('f8')
        if gd.sum() >= 4:
            mon.check('sample_range', np.all((sm >= z[gd][0] - 2e-4) & (sm <= z[gd][-1] + 2e-4)), samples=sm, lo=z[gd][0], hi=z[gd][-1], **wit)
    if corrected:
        zz = np.asarray(R.z)
        pm = lin(R.pivotmag, zz, zu)
        dz = float(o['zred']) - zu
        F = lambda q: lin(R.corr, zz, zu + q) + (rm - pm) * lin(R.corr_slope, zz, zu + q)
        q = np.linspace(min(0, dz) - 0.03, max(0, dz) + 0.03, 161)
        L = np.max(np.abs(np.diff(F(q)))) / (q[1] - q[0])
        if L < 0.5:
            mon.check('correction', abs(F(np.array(dz)) - dz) < 1.5e-3 + 0.05 * abs(dz), dz=dz, want=F(np.array(dz)), lipschitz=L, **wit)
        cr = lin(R.corr_r, zz, float(o['zred']))
        mon.check('error_correction', abs(float(o['zred_e']) - eu * cr) < 1e-5 + 1e-3 * eu, got=o['zred_e'], want=eu * cr, **wit)
        d2 = lin(R.corr2, zz, zu) + (rm - pm) * lin(R.corr2_slope, zz, zu)
        mon.check('second_correction', abs(float(o['zred2']) - zu - d2) < 2e-5 + 1e-3 * abs(d2), got=float(o['zred2']) - zu, want=d2, **wit)
        mon.check('second_correction', abs(float(o['zred2_e']) - eu * lin(R.corr2_r, zz, zu)) < 1e-5 + 1e-3 * eu, **wit)
    else:
        mon.check('uncorrected', abs(float(o['zred']) - zu) < 1e-6 and abs(float(o['zred_e']) - eu) < 1e-6, **wit)
    return 'usable'


def contracts(R, rm, zu):
    zz = np.asarray(R.z)
    q = np.linspace(-0.15, 0.15, 301)
    F = lin(R.corr, zz, zu + q) + (rm - lin(R.pivotmag, zz, zu)) * lin(R.corr_slope, zz, zu + q)
    return np.max(np.abs(np.diff(F))) / (q[1] - q[0]) < 0.4


def some_model(rng, env, j, d):
    from redmapper.redsequence import RedSequenceColorPar
    if rng.uniform() < 0.35:
        fn, c, ratio = os.path.join(env.data, 'test_dr8_pars.fit'), {}, False
        return fn, c, ratio, RedSequenceColorPar(fn), 'dr8'
    fn, c, hd, m = make_pars(rng, env, d, j)
    # well-behaved magnitude limits
    return fn, c, m['ratio'], RedSequenceColorPar(fn), 'random%d' % m['ncol']


def out_rows(cat):
    n = cat.size
    o = np.zeros(n, dtype=ZDT)
    for nm in o.dtype.names:
        o[nm] = np.asarray(getattr(cat, nm))
    return o


def eqrows(a, b, tol=0.0):
    bad = np.zeros(a.size, bool)
    for nm in a.dtype.names:
        if nm == 'zred_samp':
            continue
        with np.errstate(all='ignore'):
            bad |= ~((a[nm] == b[nm]) | (np.abs(a[nm] - b[nm]) <= tol * (1 + np.abs(a[nm]))))
    return ~bad


def gal(rng, case, mon, env):
    from redmapper.zred_color import ZredColor
    from redmapper.galaxy import GalaxyCatalog
    fn, c, ratio, R, name = some_model(rng, env, case['j'], env.work)
    n = 30
    g = gals_for(rng, R, n)
    corr = bool(rng.uniform() < 0.8)
    zc = ZredColor(R, do_correction=corr)
    cat = GalaxyCatalog(g.copy())
    cat.add_zred_fields(NS)
    zc.compute_zreds(cat)
    o = out_rows(cat)
    wit = dict(model=name, corrected=corr)
    cl = []
    for i in range(n):
        cl.append(judge(mon, R, g[i], o[i], c, ratio, dict(wit, i=i), corr))
        mon.distinct(name, cl[-1], corr)
    mon.check('inputs_untouched', all(np.array_equal(np.asarray(getattr(cat, nm)), g[nm]) for nm in ('refmag', 'refmag_err', 'mag', 'mag_err', 'id')), **wit)
    # one at a time
    for i in rng.permutation(n)[:8]:
        one = GalaxyCatalog(g[i:i + 1].copy())
        one.add_zred_fields(NS)
        zc.compute_zred(one[0])
        oo = out_rows(one)[0]
        judge(mon, R, g[i], oo, c, ratio, dict(wit, i=i, single=True), corr)
        # the fixed-point iteration for the correction is only meaningful where it contracts
        names = [nm for nm in o.dtype.names if nm != 'zred_samp' and (nm not in ('zred', 'zred_e') or not corr or contracts(R, float(g[i]['refmag']), float(o[i]['zred_uncorr'])))]
        ok = all(abs(float(oo[nm]) - float(o[i][nm])) < (3e-3 if nm in ('zred', 'zred_e') and corr else 2e-5) * (1 + abs(float(o[i][nm])) * (nm in ('chisq', 'lkhd')))
                 for nm in names)
        mon.check('bulk_equals_single', ok, single=oo, bulk=o[i], **wit)
    # permuted and split
    p = rng.permutation(n)[:int(rng.choice([1, 7, n]))]
    c2 = GalaxyCatalog(g[p].copy())
    c2.add_zred_fields(NS)
    zc.compute_zreds(c2)
    mon.check('order_independent', np.all(eqrows(out_rows(c2), o[p], 1e-6)), n_split=p.size, **wit)
    mon.sample({'model': name, 'zred': o['zred'][:4], 'zred_e': o['zred_e'][:4]})


def run(rng, case, mon, env):
    import fitsio
    import rmx
    from redmapper.zred_runner import ZredRunCatalog
    d = env.tmp()
    fn, c, ratio, R, name = some_model(rng, env, 0, d)
    n = int(rng.choice([1, 3, 9, 40]))
    g = gals_for(rng, R, n)
    gf = os.path.join(d, 'gals.fit')
    fitsio.write(gf, g)
    cfg = rmx.test_config(env, d, parfile=fn, zred_nsamp=NS)
    res = []
    for nproc, nper in ((1, None), (4, None), (2, 5), (3, 1)):
        if n > 20 and nper == 1:
            continue
        cfg.calib_nproc = nproc
        of = os.path.join(d, 'out%d_%s.fit' % (nproc, nper))
        ZredRunCatalog(cfg).run(gf, of, nperproc=nper)
        r = fitsio.read(of, ext=1)
        r.dtype.names = [x.lower() for x in r.dtype.names]
        mon.check('catalog_rows', r.size == n)
        res.append(r)
        mon.distinct('runcat', n, nproc, nper, name)
    for r in res[1:]:
        mon.check('chunk_independent', r.size == n and np.all(eqrows(r, res[0], 1e-6)))
    for i in range(n):
        judge(mon, R, g[i], res[-1][i], c, ratio, dict(model=name, i=i, mode='catalog'), True)


def pixels(rng, case, mon, env):
    import fitsio
    import rmx
    import skygen
    import hpgeom as hpg
    from redmapper.zred_runner import ZredRunPixels
    d = env.tmp()
    fn = os.path.join(env.data, 'test_dr8_pars.fit')
    from redmapper.redsequence import RedSequenceColorPar
    R = RedSequenceColorPar(fn)
    n = int(rng.choice([12, 60]))
    g5 = gals_for(rng, R, n)
    region = str(rng.choice(sorted(skygen.REGIONS)))
    g = np.zeros(n, dtype=g5.dtype.descr + [('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')])
    for nm in g5.dtype.names:
        g[nm] = g5[nm]
    g['ra'], g['dec'] = skygen.sky_points(rng, region, n, 9.0)
    nst = int(rng.choice([8, 16]))
    if np.unique(hpg.angle_to_pixel(nst, g['ra'], g['dec'], nest=False)).size < 2:
        return      # single-pixel tables are the known finding F-C05-1
    master, _, pix = rmx.write_galtable(os.path.join(d, 'g'), g, nst)
    hp = np.unique(pix)
    zf = os.path.join(d, 'z', 'g_zreds_master_table.fit')
    cfg = rmx.test_config(env, d, parfile=fn, zred_nsamp=NS, galfile=master, zredfile=zf, hpix=None, nside=None, border=0.0)
    sub = rng.uniform() < 0.5
    if sub:
        ns = int(rng.choice([2, 4]))
        big = hpg.angle_to_pixel(ns, *hpg.pixel_to_angle(nst, hp, nest=False), nest=False)
        sel = int(rng.choice(big))
        cfg.d.hpix, cfg.d.nside = [sel], ns
        want = hp[big == sel]
    else:
        cfg.d.hpix, cfg.d.nside = [], 0
        want = hp
    cfg.calib_nproc = int(rng.choice([1, 3]))
    single = bool(rng.randint(2))
    ZredRunPixels(cfg).run(single_process=single)
    cfg.d.hpix, cfg.d.nside = [], 0
    t = fitsio.read(zf, ext=1)
    t.dtype.names = [x.lower() for x in t.dtype.names]
    fnames = [x.decode().strip() if isinstance(x, bytes) else str(x).strip() for x in np.atleast_1d(t['filenames'][0])]
    ng = np.atleast_1d(t['ngals'][0])
    th = np.atleast_1d(t['hpix'][0])
    mon.check('table', np.array_equal(th, hp), got=th, want=hp)
    for i, p in enumerate(hp):
        if p not in want:
            mon.check('table', ng[i] == 0 and fnames[i] == '', pixel=p, ngals=ng[i], name=fnames[i])
            continue
        rows = g[pix == p]
        mon.check('table', ng[i] == rows.size and fnames[i] != '', pixel=p, name=fnames[i])
        r = fitsio.read(os.path.join(d, 'z', fnames[i]), ext=1)
        r.dtype.names = [x.lower() for x in r.dtype.names]
        if not mon.check('pixel_rows', r.size == rows.size, pixel=p):
            continue
        for k in range(rows.size):
            judge(mon, R, rows[k], r[k], {}, False, dict(mode='pixels', region=region, pixel=int(p)), True)
    mon.distinct('pixels', region, nst, sub, single, hp.size)
    # a table is never made out of files that do not line up with the galaxies
    os.remove(zf)
    kill = int(np.where(np.isin(hp, want))[0][0])
    path = os.path.join(d, 'z', fnames[kill])
    rows = fitsio.read(path, ext=1)
    how = str(rng.choice(['missing', 'longer'] + (['shorter'] if rows.size > 1 else [])))
    os.remove(path)
    if how != 'missing':
        fitsio.write(path, np.append(rows, rows[:1]) if how == 'longer' else rows[:-1])
    runner = ZredRunPixels(cfg)
    from redmapper.catalog import Entry
    runner.galtable = Entry.from_fits_file(master)
    try:
        runner.make_zred_table([(i, os.path.join(d, 'z', fnames[i])) for i in range(hp.size) if hp[i] in want])
        ok = False
    except ValueError:
        ok = True
    mon.check('misaligned_refused', ok and not os.path.isfile(zf), how=how)


def pit(rng, case, mon, env):
    """the samples of a galaxy follow its own posterior."""
    from redmapper.zred_color import ZredColor
    from redmapper.galaxy import GalaxyCatalog
    from redmapper.redsequence import RedSequenceColorPar
    R = RedSequenceColorPar(os.path.join(env.data, 'test_dr8_pars.fit'))
    g = gals_for(rng, R, 12)
    zc = ZredColor(R)
    u = []
    for i in range(12):
        ref = Ref(R, g[i], {}, False)
        if not ref.usable or (ref.dist > 1e-3).sum() < 6:
            continue
        one = GalaxyCatalog(g[i:i + 1].copy())
        one.add_zred_fields(600)
        zc.compute_zred(one[0])
        if float(one.zred_uncorr[0]) < 0:
            continue
        k = ref.dist > 1e-10
        zf = np.linspace(ref.z[k][0], ref.z[k][-1], 4000)
        pz = np.interp(zf, ref.z, ref.dist)
        cdf = np.cumsum(pz)
        cdf /= cdf[-1]
        v = np.interp(np.asarray(one.zred_samp[0], dtype='f8') + 0.00005, zf, cdf)
        u.append(v)
    if len(u) < 2:
        return
    u = np.concatenate(u)
    ks = np.max(np.abs(np.sort(u) - (np.arange(u.size) + 0.5) / u.size))
    # 1.95/sqrt(n) is the 0.1% point of the Kolmogorov statistic; 0.02 allows for the sampling grid
    mon.check('sample_pit', ks < 2.6 / np.sqrt(u.size) + 0.02, ks=ks, n_samples=u.size)
    mon.distinct('pit', u.size)
