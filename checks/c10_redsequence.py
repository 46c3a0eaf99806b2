"""C10: the red-sequence model read from a parameter file is the calibrated one, everywhere it is looked up."""
import os
import numpy as np

RULE = 'one model read, keyed by (ncol, node dtype, binning, template, luptitudes, naming, correction columns) and one lookup situation on it'
REQUIRED = {'spline_c': 20, 'spline_slope': 20, 'pivot': 20, 'sigma_floor': 20, 'correlation': 20, 'covmat': 20, 'mstar': 20, 'lumnorm': 10,
            'lupcorr': 5, 'template': 5, 'zindex': 20, 'magindex': 20, 'chisq_catalog': 20, 'chisq_one_many': 20, 'chisq_pairs': 10,
            'binning_independent': 8, 'corrections': 10, 'placeholder': 3, 'refused': 6, 'inputs_untouched': 20}
BUDGET = {'quick': 500, 'thorough': 2400}
SURV = [('sdss', 'i03', 'bc03_colors_sdss.fit', 'ugriz'), ('des', 'z03', 'bc03_colors_des.fit', 'grizy'), ('lsst', 'i03', 'bc03_colors_lsst.fit', 'ugrizy'),
        ('hsc', 'z03', 'bc03_colors_hsc.fit', 'grizy')]


def plan(tier, seed):
    n = 36 if tier == 'quick' else 400
    out = [{'kind': 'model', 'seed': seed * 9091 + j, 'j': j} for j in range(n)]
    out += [{'kind': 'placeholder', 'seed': seed * 9091 + 70000 + j} for j in range(4)]
    out += [{'kind': 'refuse', 'seed': seed * 9091 + 80000}]
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    {'model': model, 'placeholder': placeholder, 'refuse': refuse}[case['kind']](rng, case, mon, env)


def nspline(x, y, z):
    from scipy.interpolate import CubicSpline
    return CubicSpline(np.asarray(x, dtype='f8'), np.asarray(y, dtype='f8'), bc_type='natural', extrapolate=True)(z)


def linear(v, x, u):
    """linear interpolation that continues the end segments."""
    v, x, u = [np.asarray(a, dtype='f8') for a in (v, x, u)]
    i = np.clip(np.searchsorted(x, u, side='right') - 1, 0, x.size - 2)
    return v[i] + (v[i + 1] - v[i]) * (u - x[i]) / (x[i + 1] - x[i])


def mstar_ref(env, surv, band, z):
    import fitsio
    t = fitsio.read(os.path.join(env.repo, 'redmapper/data/mstar/mstar_%s_%s.fit' % (surv, band)), ext=1)
    t.dtype.names = [x.lower() for x in t.dtype.names]
    return nspline(t['z'], t['mstar'], z)


def make_pars(rng, env, d, j):
    """write a random but well-formed parameter file; returns its description."""
    import fitsio
    surv, band, tmpl, bands = SURV[j % 4]
    template = bool(rng.randint(2))
    if template:
        ncol = int(rng.randint(2, len(bands)))
        b0 = rng.randint(0, len(bands) - ncol)
        usebands = list(bands[b0:b0 + ncol + 1])
    else:
        ncol = int(rng.randint(1, 6))
        usebands = list('ugrizy'[:ncol + 1])
    dt = str(rng.choice(['f4', 'f8']))
    zlo = float(rng.choice([0.05, 0.1, 0.2]))
    zhi = float(rng.choice([0.4, 0.65, 0.8]))
    old = bool(rng.randint(2))
    P, R = ('REFMAG', 'IMAG') if old else ('PIVOTMAG', 'REFMAG')

    def nodes(lo, hi, n):
        x = np.linspace(lo, hi, n)
        x[1:-1] += rng.uniform(-0.25, 0.25, n - 2) * (hi - lo) / n
        return x
    cols = {}
    npv = rng.randint(4, 9)
    pz = nodes(zlo, zhi, npv)
    cols[P + '_Z'] = pz
    cols[P] = 16 + 6 * pz + rng.uniform(-0.2, 0.2, npv)
    cols['MIN' + R] = cols[P] - 2.0
    cols['MAX' + R] = cols[P] + 2.0
    nc = rng.randint(4, 7)
    cz = nodes(zlo, zhi, nc)
    cols['COVMAT_Z'] = cz
    sg = np.zeros((ncol, ncol, nc))
    for a in range(ncol):
        sg[a, a] = rng.uniform(-0.01, 0.08, nc)
        for b in range(a + 1, ncol):
            sg[a, b] = rng.uniform(-1.3, 1.3, nc) if rng.uniform() < 0.5 else rng.uniform(-0.3, 0.3, nc)
            sg[b, a] = sg[a, b]
    cols['SIGMA'] = sg
    n1, n2 = rng.randint(4, 8), rng.randint(4, 8)
    cols['CORR_Z'], cols['CORR_SLOPE_Z'] = nodes(zlo, zhi, n1), nodes(zlo, zhi, n2)
    for nm in ('CORR', 'CORR2'):
        cols[nm] = rng.uniform(-0.02, 0.02, n1)
        cols[nm + '_SLOPE'] = rng.uniform(-0.02, 0.02, n2)
    hasr = bool(rng.randint(2))
    if hasr:
        cols['CORR_R'] = rng.uniform(0.2, 1.3, n2) if rng.uniform() < 0.7 else np.zeros(n2)
        cols['CORR2_R'] = rng.uniform(0.2, 1.3, n2) if rng.uniform() < 0.7 else np.full(n2, -1.0)
    nv = 10
    cols['VOLUME_FACTOR_Z'], cols['VOLUME_FACTOR'] = np.linspace(zlo, zhi, nv), rng.uniform(0.9, 1.1, nv)
    for a in range(ncol):
        na, nb = rng.randint(4, 9), rng.randint(4, 9)
        za, zb = nodes(zlo, zhi, na), nodes(zlo, zhi, nb)
        s = '%02d' % a
        cols['Z' + s], cols['C' + s] = za, rng.uniform(0.2, 0.5) + 2 * za + rng.uniform(-0.05, 0.05, na)
        cols['ZS' + s], cols['SLOPE' + s] = zb, rng.uniform(-0.08, 0.02, nb)
    ratio = bool(rng.randint(2))
    if ratio:
        cols['MAG_ERR_RATIO_INT'] = rng.uniform(0.7, 1.4, ncol + 1)
        cols['MAG_ERR_RATIO_SLOPE'] = rng.uniform(-0.05, 0.05, ncol + 1)
        cols['MAG_ERR_RATIO_PIVOT'] = np.array(19.0)
    rec = np.zeros(1, dtype=[(k, dt) if v.ndim == 0 else (k, dt, v.shape) for k, v in cols.items()])
    for k, v in cols.items():
        rec[k][0] = v
    h = fitsio.FITSHDR()
    lup = bool(rng.randint(2))
    b = rng.uniform(5e-11, 6e-10, ncol + 1)
    ref = int(rng.randint(0, ncol + 1))
    limmag = round(float(rng.uniform(19.5, 22.5)), 3)
    cb, fb = float(rng.choice([0.005, 0.01, 0.02])), float(rng.choice([0.0005, 0.001, 0.002]))
    zr = [round(float(rng.choice([zlo - 0.04, zlo, zlo + 0.06])), 2), round(float(rng.choice([zhi - 0.1, zhi, zhi + 0.08])), 2)]
    zr[1] = max(zr[1], round(zr[0] + 0.2, 2))
    alpha = float(rng.choice([-1.0, -0.8, -1.2]))
    low = int(rng.randint(2))
    hd = dict(LIMMAG=limmag, ZRANGE0=zr[0], ZRANGE1=zr[1], ALPHA=alpha, MSTARSUR=surv, MSTARBAN=band, NCOL=ncol, ZBINFINE=fb, ZBINCOAR=cb, LOWZMODE=low)
    hd['I_IND' if rng.uniform() < 0.3 else 'REF_IND'] = ref
    for i in range(ncol + 1):
        hd['BVALUE%d' % (i + 1)] = float(b[i]) if lup else 0.0
    comma = bool(rng.randint(2))
    hd['BANDS'] = (',' if comma else '').join(usebands)
    if template:
        hd['TEMPLATE'] = tmpl
    for k, v in hd.items():
        h[k] = v
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, 'pars.fit')
    fitsio.write(fn, rec, header=h, clobber=True)
    c32 = {k: np.asarray(v, dtype=dt).astype('f8') for k, v in cols.items()}
    return fn, c32, hd, dict(P=P, R=R, ncol=ncol, ratio=ratio, hasr=hasr, lup=lup, b=b, ref=ref, bands=usebands, template=tmpl if template else None, dt=dt)


def grid_of(zr, step):
    return zr[0] + step * np.arange(int(round((zr[1] - zr[0]) / step)))


def model(rng, case, mon, env):
    import fitsio
    from redmapper.redsequence import RedSequenceColorPar
    fn, c, hd, m = make_pars(rng, env, env.work, case['j'])
    ncol = m['ncol']
    fine = bool(rng.randint(2))
    zb = None
    over = rng.uniform()
    kw = {}
    zr = [hd['ZRANGE0'], hd['ZRANGE1']]
    lim = hd['LIMMAG']
    if over < 0.25:
        kw['zbinsize'] = zb = float(rng.choice([0.002, 0.01]))
    if rng.uniform() < 0.3:
        zr = [round(zr[0] + 0.02, 2), round(zr[1] - 0.04, 2)]
        kw['zrange'] = np.array(zr)
    if rng.uniform() < 0.3:
        kw['limmag'] = lim = round(lim - 0.7, 3)
    minsig = 0.01
    if rng.uniform() < 0.3:
        kw['minsig'] = minsig = 0.03
    step = zb if zb is not None else (hd['ZBINFINE'] if fine else hd['ZBINCOAR'])
    R = RedSequenceColorPar(fn, fine=fine, **kw)
    z = grid_of(zr, step)
    zz = np.append(z, z[-1])       # the overflow bin repeats the top bin
    wit = dict(dt=m['dt'], ncol=ncol, fine=fine, template=m['template'], kw=kw)
    if not mon.check('grid', R.z.size == zz.size and np.allclose(R.z[:-1], z, atol=1e-9), **wit):
        return
    rt, at = (1e-8, 1e-8) if m['dt'] == 'f8' else (2e-4, 2e-4)
    P, Rn = m['P'], m['R']
    pz = c[P + '_Z']
    lo, hi = zz < pz.min(), zz > pz.max()
    # a node that coincides with a grid redshift may be called inside or outside
    border = np.abs(zz - pz.min()) < 1e-6
    border |= np.abs(zz - pz.max()) < 1e-6
    ins = ~(lo | hi)
    mon.check('extrapolated', np.array_equal(np.asarray(R.extrapolated)[~border], ~ins[~border]), **wit)
    ok = ~border
    refc = np.array([nspline(c['Z%02d' % j], c['C%02d' % j], zz) for j in range(ncol)]).T
    refs = np.array([nspline(c['ZS%02d' % j], c['SLOPE%02d' % j], zz) for j in range(ncol)]).T
    refp = nspline(pz, c[P], zz)
    if m['template'] is not None and ins.any():
        # outside of the calibrated range: pivot and slope pinned, colour follows the template
        t = fitsio.read(os.path.join(env.repo, 'redmapper/data/initcolors', m['template']), ext=1)
        t.dtype.names = [x.lower() for x in t.dtype.names]
        th = fitsio.read_header(os.path.join(env.repo, 'redmapper/data/initcolors', m['template']), ext=1)
        tb = [x.strip().upper() for x in (th['BANDS'].strip().split(',') if ',' in th['BANDS'] else list(th['BANDS'].strip()))]
        # the code decides inside/outside with the file's own node values; follow the observed edge where it is ambiguous
        ex = np.asarray(R.extrapolated)
        i0, i1 = np.where(~ex)[0][[0, -1]]
        for side, e in ((np.arange(i0), i0), (np.arange(i1 + 1, zz.size), i1)):
            if side.size == 0:
                continue
            refp[side] = refp[e]
            refs[side] = refs[e]
            for j in range(ncol):
                a, b = m['bands'][j].upper(), m['bands'][j + 1].upper()
                if a in tb and tb.index(a) + 1 < len(tb) and tb[tb.index(a) + 1] == b:
                    tc = linear(t['color'][:, tb.index(a)], t['z'], zz)
                    refc[side, j] = tc[side] - (tc[e] - refc[e, j])
            mon.close('template', R.c[side], refc[side], rtol=rt, atol=max(at, 2e-5), **wit)
    mon.close('spline_c', R.c, refc, rtol=rt, atol=max(at, 2e-5) if m['template'] else at, **wit)
    mon.close('spline_slope', R.slope, refs, rtol=rt, atol=at, **wit)
    mon.close('pivot', R.pivotmag, refp, rtol=rt, atol=at, **wit)
    mon.close('pivot', R.maxrefmag, nspline(pz, c['MAX' + Rn], zz), rtol=rt, atol=at * 10, **wit)
    mon.close('pivot', R.minrefmag, nspline(pz, c['MIN' + Rn], zz), rtol=rt, atol=at * 10, **wit)
    sg = np.zeros((ncol, ncol, zz.size))
    for j in range(ncol):
        sg[j, j] = np.clip(nspline(c['COVMAT_Z'], c['SIGMA'][j, j], zz), minsig, None)
        for k in range(j + 1, ncol):
            sg[j, k] = sg[k, j] = np.clip(nspline(c['COVMAT_Z'], c['SIGMA'][j, k], zz), -0.99, 0.99)
    dg = np.array([R.sigma[j, j] for j in range(ncol)])
    mon.check('sigma_floor', np.all(dg >= minsig * (1 - 1e-12)), **wit)
    mon.close('correlation', R.sigma, sg, rtol=rt, atol=at, **wit)
    cov = np.zeros_like(sg)
    for j in range(ncol):
        for k in range(ncol):
            cov[j, k] = (dg[j]**2 if j == k else R.sigma[j, k] * dg[j] * dg[k])
    mon.close('covmat', R.covmat, cov, rtol=1e-9, atol=1e-12, **wit)
    mon.check('covmat', np.array_equal(R.covmat, np.swapaxes(R.covmat, 0, 1)), **wit)
    for nm, xn in (('corr', 'CORR_Z'), ('corr2', 'CORR_Z'), ('corr_slope', 'CORR_SLOPE_Z'), ('corr2_slope', 'CORR_SLOPE_Z'), ('volume_factor', 'VOLUME_FACTOR_Z')):
        mon.close('corrections', getattr(R, nm), nspline(c[xn], c[nm.upper()], zz), rtol=rt, atol=at * 5, column=nm, **wit)
    for nm in ('corr_r', 'corr2_r'):
        if m['hasr'] and c[nm.upper()][0] > 0:
            want = np.clip(nspline(c['CORR_SLOPE_Z'], c[nm.upper()], zz), 0.5, None)
        else:
            want = np.ones(zz.size)
        mon.close('corrections', getattr(R, nm), want, rtol=rt, atol=at * 5, column=nm, **wit)
    # magnitude scale and luminosity function
    ms = mstar_ref(env, hd['MSTARSUR'], hd['MSTARBAN'], zz)
    zt = np.sort(rng.uniform(zr[0], zr[1] - step, 40))
    near = np.clip(np.round((zt - zr[0]) / step).astype(int), 0, z.size - 1)
    safe = np.abs((zt - zr[0]) / step - np.floor((zt - zr[0]) / step) - 0.5) > 1e-4
    mon.close('mstar', np.asarray(R.mstar(zt))[safe], ms[near][safe], rtol=2e-6, atol=2e-5, **wit)
    mon.close('mstar', R.mstar(float(zt[safe][0])), ms[near][safe][0], rtol=2e-6, atol=2e-5, **wit)
    lb = np.asarray(R.lumrefmagbins)
    m0 = 10.0 if hd['LOWZMODE'] else 12.0
    mtop = float(mstar_ref(env, hd['MSTARSUR'], hd['MSTARBAN'], zr[1])) + 2.5
    mon.check('lumnorm', abs(lb[0] - m0) < 1e-5 and lb[-1] == 1000.0 and abs(lb[-2] - mtop) < 0.021, lb=lb[[0, -2, -1]], mtop=mtop, **wit)
    lbc = np.append(lb[:-1], lb[-2])
    for i in rng.randint(0, zz.size, 4):
        x = 10.0**(0.4 * (ms[i] - lbc))
        f = x**(hd['ALPHA'] + 1) * np.exp(-x)
        mon.close('lumnorm', R.lumnorm[:, i], 0.01 * np.cumsum(f), rtol=1e-4, atol=1e-9, **wit)
    # luptitude corrections
    rb = np.asarray(R.refmagbins)
    rbc = np.append(rb[:-1], rb[-2])
    mon.check('magbins', abs(rb[0] - m0) < 1e-5 and rb[-1] == 1000.0 and 0 <= lim - rb[-2] < 0.0101, first=rb[0], last=rb[-2], **wit)
    for i in rng.randint(0, zz.size, 3):
        if m['lup']:
            mg = np.zeros((rbc.size, ncol + 1))
            mg[:, m['ref']] = rbc
            col = R.c[i][None, :] + R.slope[i][None, :] * (rbc[:, None] - R.pivotmag[i])
            for j in range(m['ref'] + 1, ncol + 1):
                mg[:, j] = mg[:, j - 1] - col[:, j - 1]
            for j in range(m['ref'] - 1, -1, -1):
                mg[:, j] = mg[:, j + 1] + col[:, j]
            fl = 10.0**(-0.4 * (mg - 22.5))          # nanomaggies
            lu = -2.5 / np.log(10) * (np.arcsinh(fl * 1e-9 / (2 * m['b'])) + np.log(m['b']))
            want = (lu[:, :-1] - lu[:, 1:]) - (mg[:, :-1] - mg[:, 1:])
            mon.close('lupcorr', R.lupcorr[:, i, :], want, rtol=1e-6, atol=1e-8, **wit)
        else:
            mon.check('no_lupcorr', np.all(R.lupcorr[:, i, :] == 0), **wit)
    lookups(rng, mon, R, zr, step, z, rb, lb, wit)
    chisq(rng, mon, R, m, c, z, zr, step, wit)
    # the model at a redshift does not depend on the binning or the range that was asked for
    if step >= 0.002:
        R2 = RedSequenceColorPar(fn, zbinsize=step / 2, **{k: v for k, v in kw.items() if k != 'zbinsize'})
        k = slice(0, 2 * z.size, 2)
        if m['template'] is None or not np.any(R.extrapolated):
            for nm in ('c', 'slope', 'pivotmag', 'corr', 'maxrefmag'):
                mon.close('binning_independent', getattr(R2, nm)[k][:z.size], getattr(R, nm)[:z.size], rtol=1e-7, atol=1e-7, column=nm, **wit)
        mon.close('binning_independent', R2.covmat[:, :, k][:, :, :z.size], R.covmat[:, :, :z.size], rtol=1e-7, atol=1e-9, **wit)
    mon.distinct('model', ncol, m['dt'], m['template'], m['lup'], P, m['hasr'], m['ratio'], fine, sorted(kw))
    mon.sample({'ncol': ncol, 'zrange': zr, 'step': step, 'template': m['template'], 'c_top': refc[-1]})


def lookups(rng, mon, R, zr, step, z, rb, lb, wit):
    zt = rng.uniform(zr[0] - 0.1, zr[1] + 0.2, 60)
    fr = (zt - zr[0]) / step
    safe = np.abs(fr - np.floor(fr) - 0.5) > 1e-4
    want = np.clip(np.round(fr), 0, z.size).astype(int)      # z.size: the overflow bin
    got = np.asarray(R.zindex(zt))
    mon.check('zindex', np.array_equal(got[safe], want[safe]), z=zt[safe][got[safe] != want[safe]][:3], **wit)
    one = R.zindex(float(zt[safe][0]))
    mon.check('zindex', np.ndim(one) == 0 and int(one) == want[safe][0], **wit)
    mon.check('zindex', np.array_equal(np.atleast_1d(R.zindex(z)), np.arange(z.size)), **wit)
    for f, b in ((R.refmagindex, rb), (R.lumrefmagindex, lb)):
        mt = rng.uniform(b[0] - 1, b[-2] + 1, 60)
        d = np.abs(b[:-1][None, :] - mt[:, None])
        ii = np.argmin(d, axis=1)
        tie = np.partition(d, 1, axis=1)
        safe = np.abs(tie[:, 0] - tie[:, 1]) > 2e-4
        ii[mt > b[-2] + 0.00505] = b.size - 1
        safe &= np.abs(mt - b[-2] - 0.005) > 2e-4
        # the bins themselves are rounded to 0.01 mag: one bin may be shared when the grid is off the hundredths
        got = np.asarray(f(mt))
        off = np.abs(b[0] * 100 - np.round(b[0] * 100)) > 1e-3
        mon.check('magindex', off or np.array_equal(got[safe], ii[safe]), mags=mt[safe][got[safe] != ii[safe]][:3], **wit)
        one = f(float(mt[0]))
        mon.check('magindex', np.ndim(one) == 0 and int(one) == got[0], **wit)


def chisq(rng, mon, R, m, c, z, zr, step, wit):
    from redmapper.galaxy import GalaxyCatalog
    ncol, nmag = m['ncol'], m['ncol'] + 1
    n = int(rng.choice([1, 2, 7]))
    g = np.zeros(n, dtype=[('refmag', 'f8'), ('refmag_err', 'f8'), ('mag', 'f8', nmag), ('mag_err', 'f8', nmag), ('ra', 'f8'), ('dec', 'f8')])
    iz = rng.randint(0, z.size, n)
    g['refmag'] = rng.uniform(15, float(R.refmagbins[-2]) + 0.3, n)
    g['refmag_err'] = rng.uniform(0.01, 0.3, n)
    g['mag_err'] = rng.uniform(0.005, 0.3, (n, nmag))
    g['mag'][:, 0] = 20
    col = R.c[iz] + R.slope[iz] * (g['refmag'] - R.pivotmag[iz])[:, None] + rng.normal(size=(n, ncol)) * 0.1
    for j in range(ncol):
        g['mag'][:, j + 1] = g['mag'][:, j] - col[:, j]
    cat = GalaxyCatalog(g.copy())
    mi = np.atleast_1d(R.refmagindex(g['refmag']))
    if m['ratio']:
        fac = c['MAG_ERR_RATIO_INT'][None, :] + c['MAG_ERR_RATIO_SLOPE'][None, :] * (g['refmag'] - c['MAG_ERR_RATIO_PIVOT'])[:, None]
    else:
        fac = np.ones((n, nmag))
    me = g['mag_err'] * fac
    gc = g['mag'][:, :-1] - g['mag'][:, 1:]

    def one(i, k, lk):
        C = R.covmat[:, :, k].astype('f8').copy()
        D = np.zeros((ncol, nmag))
        for j in range(ncol):
            D[j, j], D[j, j + 1] = 1, -1
        C += D @ np.diag(me[i]**2) @ D.T + np.outer(R.slope[k], R.slope[k]) * g['refmag_err'][i]**2
        w, V = np.linalg.eigh(C)
        if w.min() < 1.1e-6:
            return np.nan
        dd = R.c[k] + R.slope[k] * (g['refmag'][i] - R.pivotmag[k]) + R.lupcorr[mi[i], k] - gc[i]
        q = np.sum((V.T @ dd)**2 / w)
        return -0.5 * q - 0.5 * np.sum(np.log(w)) if lk else q

    lk = bool(rng.randint(2))
    k = int(rng.randint(0, z.size))
    byidx = bool(rng.randint(2))
    kk = k if byidx else float(z[k])

    def cmp(name, got, want, **w):
        want = np.asarray(want)
        s = np.isfinite(want)
        got = np.asarray(got)
        if got.shape != want.shape:
            mon.violation(name, got_shape=got.shape, want_shape=want.shape, **dict(wit, **w))
            return
        mon.close(name, got[s], want[s], rtol=1e-6, atol=1e-7, **dict(wit, **w))
    cmp('chisq_catalog', R.calculate_chisq(cat, kk, z_is_index=byidx, calc_lkhd=lk), [one(i, k, lk) for i in range(n)], byidx=byidx, lkhd=lk, ngal=n)
    if n > 1:
        kp = rng.randint(0, z.size, n)
        cmp('chisq_pairs', R.calculate_chisq(cat, kp if byidx else z[kp], z_is_index=byidx, calc_lkhd=lk), [one(i, kp[i], lk) for i in range(n)], byidx=byidx, lkhd=lk)
    ks = np.unique(rng.randint(0, z.size, 6))
    if ks.size > 1:
        cmp('chisq_one_many', R.calculate_chisq_redshifts(cat[0], ks if byidx else z[ks], z_is_index=byidx, calc_lkhd=lk), [one(0, q, lk) for q in ks], byidx=byidx, lkhd=lk)
    same = all(np.array_equal(np.asarray(getattr(cat, nm)), g[nm]) for nm in ('refmag', 'refmag_err', 'mag', 'mag_err'))
    mon.check('inputs_untouched', same, **wit)
    mon.distinct('chisq', ncol, n, lk, byidx, m['ratio'], m['lup'])


def placeholder(rng, case, mon, env):
    import rmx
    from redmapper.redsequence import RedSequenceColorPar
    surv, band, tmpl, bands = SURV[rng.randint(4)]
    cfg = rmx.test_config(env, env.work)
    cfg.mstar_survey, cfg.mstar_band, cfg.calib_lumfunc_alpha = surv, band, -0.9
    zr = [0.1, float(rng.choice([0.4, 0.6]))]
    lim = 21.0
    R = RedSequenceColorPar(None, config=cfg, zrange=zr, limmag=lim)
    z = rng.uniform(zr[0], zr[1] - 0.002, 30)
    mon.check('placeholder', np.all(np.abs(R.mstar(z) - mstar_ref(env, surv, band, z)) < 0.03))
    zg = np.round(rng.uniform(zr[0], zr[1] - 0.002, 20), 3)
    mon.close('placeholder', R.mstar(zg), mstar_ref(env, surv, band, zg), rtol=1e-6, atol=1e-5)
    lbc = np.append(R.lumrefmagbins[:-1], R.lumrefmagbins[-2])
    i = int(rng.randint(0, 200))
    x = 10.0**(0.4 * (mstar_ref(env, surv, band, R.z[i]) - lbc))
    mon.close('placeholder', R.lumnorm[:, i], 0.01 * np.cumsum(x**0.1 * np.exp(-x)), rtol=1e-4, atol=1e-9)
    mon.distinct('placeholder', surv, band, zr)


def refuse(rng, case, mon, env):
    import fitsio
    from redmapper.redsequence import RedSequenceColorPar
    fn, c, hd, m = make_pars(rng, env, env.work, 0)

    def refused(f, *exc):
        try:
            f()
        except exc:
            return True
        except Exception as e:
            return repr(e)
        return False
    mon.check('refused', refused(lambda: RedSequenceColorPar(None), ValueError) is True)
    mon.check('refused', refused(lambda: RedSequenceColorPar(fn, zrange=[0.1, 0.2, 0.3]), ValueError) is True)
    for k in ('LIMMAG', 'ALPHA', 'MSTARSUR', 'NCOL', 'ZBINCOAR'):
        rec, h = fitsio.read(fn, ext=1, header=True)
        h2 = fitsio.FITSHDR()
        for kk, v in hd.items():
            if kk != k:
                h2[kk] = v
        f2 = os.path.join(env.work, 'bad%s.fit' % k)
        fitsio.write(f2, rec, header=h2, clobber=True)
        r = refused(lambda: RedSequenceColorPar(f2), ValueError)
        mon.check('refused', r is True, missing=k, outcome=r)
    mon.distinct('refuse')
