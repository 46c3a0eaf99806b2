"""C21: calibration fits minimise the documented likelihoods, recover what generated the data, and select the documented objects."""
import os
import numpy as np
import fitsio
import scipy.interpolate
import scipy.special
import rmx
import skygen

RULE = ('one set of generated calibration data (keyed by fitter, nodes, options, starting point) fitted by the real code and compared with an independent '
        'likelihood, with the generating parameters, and with a second fit; or one run of a calibration step on generated catalogs')
REQUIRED = {'cost': 200, 'cost_repeat': 100, 'not_worse': 60, 'in_bounds': 60, 'local_min': 40, 'recover': 30, 'inputs_kept': 60, 'sizes_refused': 60,
            'seeds': 5, 'members': 5, 'zlamcal': 4, 'specred': 3, 'wcen': 3, 'redseq': 2}
BUDGET = {'quick': 600, 'thorough': 820}
ASSUMPTIONS = ['scipy minimisers and scipy.interpolate natural splines are trusted', 'data are generated with enough objects per node that the likelihood has one maximum near the truth']
LN = np.log


def matches_finding(f, v):
    if f['id'] == 'F-C21-1':
        return v['monitor'] == 'cost_unscaled_errors' and v['witness'].get('as_found') is True
    return False


def plan(tier, seed):
    k = 1 if tier == "quick" else 16
    out = []
    for kind, n in (('redseq', 3), ('specred', 4), ('zlamcal', 6), ('wcen', 8), ('rs', 44), ('corr', 20), ('medz', 14), ('ecgmm', 14), ('od', 10), ('ebin', 8), ('zl', 14), ('seeds', 10),
                    ('members', 14)):
        out += [{'kind': kind, 'j': j, 'seed': seed * 7211 + 1000 * len(out) + j} for j in range(n * k)]
    out += [{'kind': 'redseq', 'j': j, 'seed': seed * 7211 + 331 + j, 'er': [1.5, 2.0, 0.7, 1.0][j % 4]} for j in range(2 * k)]
    return out


def setup(env):
    import matplotlib
    matplotlib.use('Agg')


def spline(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return scipy.interpolate.CubicSpline(x, y, bc_type='natural', extrapolate=True)


def gauss(x, m, s):
    return np.exp(-0.5 * ((x - m) / s)**2) / (np.sqrt(2 * np.pi) * s)


def kept(mon, before, after, **w):
    mon.check('inputs_kept', all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, after)), **w)


def refused(mon, fn, **w):
    try:
        fn()
        ok = False
    except ValueError:
        ok = True
    mon.check('sizes_refused', ok, **w)


def probe(mon, cost, p, lo, hi, steps, tol, **w):
    """the fit is a minimum of the independent likelihood: no step along an axis improves it."""
    c0 = cost(p)
    worst = 0.
    for i in range(p.size):
        for s in steps:
            q = np.array(p, float)
            q[i] = np.clip(q[i] + s, lo[i], hi[i])
            worst = max(worst, c0 - cost(q))
    mon.check('local_min', worst <= tol + 1e-9 * abs(c0), gain=worst, fit=p, **w)


def znodes(rng, zr=None):
    zr = [0.1, 0.1 + rng.choice([0.1, 0.3, 0.5])] if zr is None else zr
    return np.linspace(zr[0], zr[1], rng.randint(2, 6)) if rng.uniform() < 0.6 else np.sort(np.append(zr, rng.uniform(zr[0] + 0.02, zr[1] - 0.02)))


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**32)
    np.random.seed(case['seed'] % 2**31)
    globals()['k_' + case['kind']](case, mon, env, rng)


# ---------------------------------------------------------------- fitters
def k_medz(case, mon, env, rng):
    from redmapper.fitters import MedZFitter
    nodes = znodes(rng)
    n = int(rng.choice([400, 2000]))
    z = rng.uniform(nodes[0], nodes[-1], n)
    truth = rng.uniform(-1, 2, nodes.size)
    v = spline(nodes, truth)(z) + rng.laplace(size=n) * 0.05
    dt = np.float32 if rng.randint(2) else np.float64
    arrs = [nodes, z.astype(dt), v.astype(dt)]
    cp = [a.copy() for a in arrs]
    f = MedZFitter(*arrs)
    z, v = arrs[1].astype(float), arrs[2].astype(float)

    def cost(p):
        return np.sum(np.abs(v - spline(nodes, p)(z)))
    for _ in range(5):
        p = truth + rng.normal(size=truth.size)
        mon.close('cost', f(p), cost(p), rtol=1e-9, kind='medz')
        mon.check('cost_repeat', f(p) == f(p))
    p0 = truth + rng.normal(size=truth.size) * 0.2
    p0c = p0.copy()
    lo, hi = (-np.inf, np.inf) if case['j'] % 2 else (float(truth.min() - 0.3), float(np.sort(truth)[-1] + 0.3))
    p0 = np.clip(p0, lo, hi)
    p0c = p0.copy()
    r = f.fit(p0, min_val=lo, max_val=hi)
    mon.check('not_worse', cost(r) <= cost(p0) + 1e-9, got=cost(r), start=cost(p0), kind='medz')
    mon.check('in_bounds', np.all((r >= lo) & (r <= hi)), r=r, lo=lo, hi=hi)
    mon.check('recover', np.abs(r - truth).max() < 0.12, r=r, truth=truth, kind='medz', m=n)
    kept(mon, cp + [p0c], arrs + [p0], kind='medz')
    lo2 = float(np.mean(truth) + 0.1)
    r2 = f.fit(np.clip(p0, lo2, None), min_val=lo2)
    mon.check('in_bounds', np.all(r2 >= lo2), r=r2, lo=lo2)
    mon.distinct('medz', nodes.size, n, str(dt), np.isfinite(lo))


def k_rs(case, mon, env, rng):
    """red-sequence likelihood with all of its options."""
    from redmapper.fitters import RedSequenceFitter
    nodes = znodes(rng)
    zr = [nodes[0], nodes[-1]]
    snodes = znodes(rng, zr) if rng.randint(2) else None
    cnodes = znodes(rng, zr) if rng.randint(2) else None
    has = {k: bool(rng.randint(2)) for k in ('dmags', 'trunc', 'probs', 'smax', 'prior', 'ratio')}
    has['lup'] = has['dmags'] and bool(rng.randint(2))
    has['dratio'] = bool(rng.randint(2))
    sn = nodes if snodes is None else snodes
    cn = nodes if cnodes is None else cnodes
    n = int(rng.choice([600, 2500]))
    z = rng.uniform(zr[0], zr[1], n)
    tm, ts, tc = rng.uniform(0.3, 2, nodes.size), rng.uniform(-0.05, 0.02, sn.size) * has['dmags'], rng.uniform(0.03, 0.08, cn.size)
    err = np.abs(rng.normal(size=(n, 2))) * 0.02 + 0.002
    # which of the two magnitude errors may be rescaled; the first one always is, or there is nothing to add to it
    ind = [[0, 1], [0]][rng.randint(2)]
    if not has['ratio']:
        err[:, 1] = 0.
    dm = rng.normal(size=n) if has['dmags'] else None
    lup = rng.normal(size=n) * 0.02 if has['lup'] else None
    der = rng.normal(size=n) * 0.3 if has['dratio'] else None
    rp = [float(rng.uniform(0.8, 2)), float(rng.uniform(-0.1, 0.1))] if has['ratio'] else None
    ratio = np.ones(n) if rp is None else rp[0] + rp[1] * (0. if der is None else der)
    a0 = ratio**2 if (rp is not None and 0 in ind) else 1.
    a1 = ratio**2 if (rp is not None and 1 in ind) else 1.
    sig = np.sqrt(spline(cn, tc)(z)**2 + a0 * err[:, 0]**2 + a1 * err[:, 1]**2)
    mean = spline(nodes, tm)(z) + (0 if dm is None else spline(sn, ts)(z) * dm) + (0 if lup is None else lup)
    trunc = np.full(n, 0.25) if has['trunc'] else None
    x = rng.normal(size=n)
    if trunc is not None:
        for _ in range(60):
            b = np.abs(x * sig) > trunc
            if not b.any():
                break
            x[b] = rng.normal(size=b.sum())
        x = np.clip(x, -trunc / sig, trunc / sig)
    col = mean + x * sig
    prob = bkg = None
    if has['probs']:
        prob = rng.uniform(0.5, 1., n)
        bkg = np.full(n, 1. / 2.0)
        out = rng.uniform(size=n) > prob
        col[out] = rng.uniform(0.2, 2.2, out.sum())
    smax = np.full(cn.size, 0.5) if has['smax'] else None
    if rng.uniform() < 0.3:
        col[:3] += 200.
    arrs = [nodes, z, col, err] + [a for a in (dm, trunc, snodes, cnodes, lup, prob, bkg, smax, der) if a is not None]
    cp = [a.copy() for a in arrs]

    def make():
        return RedSequenceFitter(nodes, z, col, err, dmags=dm, trunc=trunc, slope_nodes=snodes, scatter_nodes=cnodes, lupcorrs=lup, probs=prob, bkgs=bkg, scatter_max=smax,
                                 use_scatter_prior=has['prior'], dmags_err_ratio=der)
    f = make()
    mins = float(rng.choice([0.001, 0.01]))

    def oracle(fm, fs, fc, pm, ps, pc, rpars, k=None):
        sc = np.clip(spline(cn, pc)(z), mins, None)
        r = np.ones(n) if rpars is None else rpars[0] + rpars[1] * (np.zeros(n) if der is None else der)
        e2 = (r**2 if (rpars is not None and 0 in ind) else 1.) * err[:, 0]**2 + (r**2 if (rpars is not None and 1 in ind) else 1.) * err[:, 1]**2
        s = np.sqrt(sc**2 + e2)
        m = spline(nodes, pm)(z)
        if dm is not None:
            m = m + spline(sn, ps)(z) * dm + (0. if lup is None else lup)
        with np.errstate(all='ignore'):
            g = gauss(col, m, s)
            if trunc is not None:
                g = g / scipy.special.erf(trunc / s / np.sqrt(2.))
            v = np.log(g) if prob is None else np.log(prob * g + (1 - prob) * bkg)
        v[~np.isfinite(v)] = -100.
        t = -np.sum(v)
        if fc and has['prior']:
            t += np.sum(np.log(np.clip(pc, mins, None)))
        return t
    flags = dict(fit_mean=bool(rng.randint(2)), fit_slope=bool(rng.randint(2)) and has['dmags'], fit_scatter=bool(rng.randint(2)))
    if not any(flags.values()):
        flags['fit_mean'] = True
    fm, fs, fc = flags['fit_mean'], flags['fit_slope'], flags['fit_scatter']
    pm = tm + rng.normal(size=tm.size) * 0.02 * fm
    ps = ts + rng.normal(size=ts.size) * 0.01 * fs
    pc = np.clip(tc * (1 + rng.uniform(-0.3, 0.3, tc.size) * fc), 0.012, 0.4)
    st = [pm.copy(), ps.copy(), pc.copy()]
    r = f.fit(pm, ps, pc, min_scatter=mins, err_ratio_pars=rp, fit_err_ratio_ind=ind, **flags)
    mon.check('shape', len(r) == fm + fs + fc, got=len(r))
    flat = np.concatenate(r)

    def unpack(p):
        i = 0
        qm, qs, qc, qr = pm, ps, pc, rp
        if fm:
            qm = p[i:i + nodes.size]
            i += nodes.size
        if fs:
            qs = p[i:i + sn.size]
            i += sn.size
        if fc:
            qc = p[i:i + cn.size]
            i += cn.size
            if rp is not None:
                qr = p[i:i + 2]
        return oracle(fm, fs, fc, qm, qs, qc, qr)
    start = np.concatenate([a for a, b in ((pm, fm), (ps, fs), (np.append(pc, rp if rp is not None else []), fc)) if b])
    lo = np.concatenate([a for a, b in ((np.full(nodes.size, -np.inf), fm), (np.full(sn.size, -np.inf), fs),
                                        (np.append(np.full(cn.size, mins), [0.5, -5.] if rp is not None else []), fc)) if b])
    hi = np.concatenate([a for a, b in ((np.full(nodes.size, np.inf), fm), (np.full(sn.size, np.inf), fs),
                                        (np.append(np.full(cn.size, 0.5 if has['smax'] else np.inf), [10., 5.] if rp is not None else []), fc)) if b])
    w = dict(kind='rs', has=has, flags=flags, m=n, ind=ind)
    mon.check('fit_length', flat.size == start.size, got=flat.size, want=start.size, **w)
    mon.check('not_worse', unpack(flat) <= unpack(start) + 1e-6, got=unpack(flat), start=unpack(start), **w)
    mon.check('in_bounds', np.all((flat >= lo - 1e-12) & (flat <= hi + 1e-12)), fit=flat, lo=lo, hi=hi, **w)
    for i in range(6):
        p = flat + rng.normal(size=flat.size) * 0.01
        mon.close('cost', f(p), unpack(p), rtol=1e-8, atol=1e-6, **w)
        mon.check('cost_repeat', f(p) == f(p), **w)
    step = np.full(flat.size, 0.02)
    probe(mon, unpack, flat, lo, hi, (-0.02, 0.02, -0.005, 0.005), 0.25, **w)
    if fm and col.max() < 50 and not (fc and has['ratio']):
        ztest = np.linspace(zr[0], zr[1], 30)
        d = np.abs(spline(nodes, r[0])(ztest) - spline(nodes, tm)(ztest)).max()
        mon.check('recover', d < (0.05 if n < 1000 else 0.025) * (1 + has['trunc'] * 0.5), d=d, **w)
    r2 = f.fit(pm, ps, pc, min_scatter=mins, err_ratio_pars=rp, fit_err_ratio_ind=ind, **flags)
    mon.check('refit', all(np.array_equal(a, b) for a, b in zip(r, r2)), **w)
    kept(mon, cp + st, arrs + [pm, ps, pc], **w)
    if not has['dmags']:
        refused(mon, lambda: f.fit(pm, ps, pc, fit_slope=True), what='slope')
    refused(mon, lambda: f.fit(pm, ps, pc), what='nothing')
    refused(mon, lambda: RedSequenceFitter(nodes, z, col[:-1], err), what='colors')
    refused(mon, lambda: RedSequenceFitter(nodes, z, col, err[:-1]), what='errs')
    refused(mon, lambda: RedSequenceFitter(nodes, z, col, err, probs=np.ones(n)), what='no bkg')
    for k in ('dmags', 'trunc', 'lupcorrs', 'dmags_err_ratio'):
        refused(mon, lambda: RedSequenceFitter(nodes, z, col, err, **{k: np.ones(n - 1)}), what=k)
    mon.distinct('rs', tuple(sorted(has.items())), tuple(sorted(flags.items())), n, nodes.size, sn.size, cn.size, tuple(ind))
    # the first magnitude error is not rescaled (no error ratios, or only the second one): the stored errors must not change
    e = np.abs(rng.normal(size=(200, 2))) * 0.02 + 0.002
    zz = z[:200]
    cc = spline(nodes, tm)(zz) + rng.normal(size=200) * 0.05
    rp2 = None if case['j'] % 2 else [1.2, 0.0]
    g = RedSequenceFitter(nodes, zz, cc, e)
    p0 = np.full(nodes.size, 0.05)
    kw = dict(err_ratio_pars=rp2, fit_err_ratio_ind=[1])
    g.fit(tm, np.zeros(nodes.size), p0, fit_mean=True, **kw)

    def plain(pmean, k):
        e2 = e[:, 0]**2 + k * e[:, 1]**2 * (1. if rp2 is None else rp2[0]**2)
        return -np.sum(np.log(gauss(cc, spline(nodes, pmean)(zz), np.sqrt(0.05**2 + e2))))
    t1, w1 = g(tm), plain(tm, 1)
    mon.close('cost', t1, w1, rtol=1e-8, kind='rs first fit')
    g.fit(tm, np.zeros(nodes.size), p0, fit_mean=True, **kw)
    t2, w2 = g(tm), plain(tm, 1)
    mon.check('cost_unscaled_errors', abs(t2 - w2) < 1e-8 * abs(w2), first=t1, second=t2, want=w2, rp=rp2, as_found=bool(abs(t2 - plain(tm, 2)) < 1e-8 * abs(w2)))
    g = RedSequenceFitter(nodes, zz, cc, e)
    rr, = g.fit(tm, np.zeros(nodes.size), p0, fit_scatter=True)
    full = p0 if rp2 is None else p0
    t3 = g(full)
    want = plain3 = None

    def plain3(k):
        e2 = e[:, 0]**2 + k * e[:, 1]**2
        return -np.sum(np.log(gauss(cc, spline(nodes, tm)(zz), np.sqrt(0.05**2 + e2))))
    want = plain3(1)
    ok = abs(t3 - want) < 1e-8 * abs(want)
    found = False
    if not ok:
        found = bool(any(abs(t3 - plain3(k)) < 1e-7 * abs(want) for k in range(2, 4200)))
    mon.check('cost_unscaled_errors', ok, got=t3, want=want, what='scatter', as_found=found)


def k_od(case, mon, env, rng):
    from redmapper.fitters import RedSequenceOffDiagonalFitter
    nodes = znodes(rng)
    n, nm = int(rng.choice([500, 1500])), 5
    j = int(rng.randint(3))
    k = int(rng.randint(j + 1, 4))
    z = rng.uniform(nodes[0], nodes[-1], n)
    s1, s2 = rng.uniform(0.03, 0.08, n), rng.uniform(0.03, 0.08, n)
    err = rng.uniform(0.002, 0.03, (n, nm))
    tr = rng.uniform(-0.6, 0.8, nodes.size)
    r = np.clip(spline(nodes, tr)(z), -0.9, 0.9)
    u, v = rng.normal(size=n), rng.normal(size=n)
    d1, d2 = u * s1, (r * u + np.sqrt(1 - r**2) * v) * s2
    ne = rng.normal(size=(n, nm)) * err
    d1 = d1 + ne[:, j] - ne[:, j + 1]
    d2 = d2 + ne[:, k] - ne[:, k + 1]
    prob, bkg = rng.uniform(0.9, 1., n), np.full(n, 0.5)
    prior = float(rng.choice([0.45, 5.0]))
    arrs = [nodes, z, d1, d2, s1, s2, err, prob, bkg]
    cp = [a.copy() for a in arrs]
    f = RedSequenceOffDiagonalFitter(nodes, z, d1, d2, s1, s2, err, j, k, prob, bkg, prior)

    def cost(p):
        rr = np.clip(spline(nodes, p)(z), -0.9, 0.9)
        out = 0.
        cov = np.zeros((n, 2, 2))
        cov[:, 0, 0] = s1**2 + err[:, j]**2 + err[:, j + 1]**2
        cov[:, 1, 1] = s2**2 + err[:, k]**2 + err[:, k + 1]**2
        cov[:, 0, 1] = rr * s1 * s2 - (err[:, k]**2 if k == j + 1 else 0.)
        cov[:, 1, 0] = cov[:, 0, 1]
        d = np.array([d1, d2]).T
        chi = np.einsum('ni,nij,nj->n', d, np.linalg.inv(cov), d)
        g = np.exp(-0.5 * chi) / (2 * np.pi * np.sqrt(np.linalg.det(cov)))
        return -(np.sum(np.log(prob * g + (1 - prob) * bkg)) - np.sum(0.5 * (p / prior)**2))
    res = f.fit(np.zeros(nodes.size))
    w = dict(kind='od', j=j, k=k, m=n)
    mon.check('not_worse', cost(res) <= cost(np.zeros(nodes.size)) + 1e-6, **w)
    mon.check('in_bounds', np.all(np.abs(res) <= 0.9), fit=res, **w)
    for _ in range(5):
        p = np.clip(res + rng.normal(size=res.size) * 0.05, -0.88, 0.88)
        mon.close('cost', f(p), cost(p), rtol=1e-8, **w)
        mon.check('cost_repeat', f(p) == f(p), **w)
    probe(mon, cost, res, np.full(res.size, -0.9), np.full(res.size, 0.9), (-0.03, 0.03), 0.3, **w)
    # a covariance that is not positive definite is walled off
    full = np.zeros((4, 4, nodes.size))
    for i in range(4):
        full[i, i, :] = 0.05**2
    f.fit(np.zeros(nodes.size), full_covmats=full.copy())
    mon.close('cost', f(np.full(nodes.size, 0.3)), cost(np.full(nodes.size, 0.3)), rtol=1e-8, **w)
    g = RedSequenceOffDiagonalFitter(nodes, z, d1, d2, s1, s2, err, j, k, prob, bkg, prior, min_eigenvalue=0.05**2 * 0.5)
    g.fit(np.zeros(nodes.size), full_covmats=full.copy())
    mon.check('wall', g(np.full(nodes.size, 0.8)) > cost(np.full(nodes.size, 0.8)) + 9e4, **w)
    mon.check('wall', g(np.full(nodes.size, 0.2)) < cost(np.full(nodes.size, 0.2)) + 1., **w)
    kept(mon, cp, arrs, **w)
    for a in (dict(d1=d1[1:]), dict(d2=d2[1:]), dict(s1=s1[1:]), dict(probs=prob[1:]), dict(bkgs=bkg[1:])):
        kw = dict(d1=d1, d2=d2, s1=s1, s2=s2, probs=prob, bkgs=bkg)
        kw.update(a)
        refused(mon, lambda: RedSequenceOffDiagonalFitter(nodes, z, mag_errs=err, j=j, k=k, covmat_prior=prior, **kw), what=str(list(a)))
    mon.distinct('od', nodes.size, j, k, n, prior)


def k_corr(case, mon, env, rng):
    from redmapper.fitters import CorrectionFitter
    nodes = znodes(rng)
    zr = [nodes[0], nodes[-1]]
    sn = znodes(rng, zr) if rng.randint(2) else None
    s = nodes if sn is None else sn
    n = int(rng.choice([800, 2500]))
    z = rng.uniform(zr[0], zr[1], n)
    has = {k: bool(rng.randint(2)) for k in ('probs', 'dmags', 'ws')}
    tm, ts, tr, tb = rng.uniform(-0.03, 0.03, nodes.size), rng.uniform(-0.005, 0.005, s.size) * has['dmags'], rng.uniform(0.8, 1.4, s.size), np.full(s.size, 0.1**2)
    e = rng.uniform(0.01, 0.02, n)
    dm = rng.normal(size=n) if has['dmags'] else None
    prob = rng.uniform(0.7, 0.99, n) if has['probs'] else None
    ws = rng.uniform(0.5, 1, n) if has['ws'] else None
    dz = spline(nodes, tm)(z) + (0 if dm is None else spline(s, ts)(z) * dm) + rng.normal(size=n) * e * spline(s, tr)(z)
    if prob is not None:
        o = rng.uniform(size=n) > prob
        dz[o] = rng.normal(size=o.sum()) * 0.1
    arrs = [nodes, z, dz, e] + [a for a in (sn, dm, prob, ws) if a is not None]
    cp = [a.copy() for a in arrs]
    f = CorrectionFitter(nodes, z, dz, e, slope_nodes=sn, probs=prob, dmags=dm, ws=ws)
    P = np.ones(n) if prob is None else prob

    def oracle(pm, ps, pr, pb):
        b = np.sqrt(np.clip(spline(s, pb)(z), 1e-10, None))
        m = spline(nodes, pm)(z) + (0. if dm is None else spline(s, ps)(z) * dm)
        with np.errstate(all='ignore'):
            v = (1. if ws is None else ws) * (P * gauss(dz, m, np.abs(spline(s, pr)(z) * e)) + (1 - P) * gauss(dz, 0., b))
        v[(~np.isfinite(v)) | (v <= 0)] = 4e-44
        return -np.sum(np.log(v))
    flags = [bool(rng.randint(2)) for _ in range(4)]
    flags[1] = flags[1] and has['dmags']
    flags[3] = flags[3] and has['probs']
    if not any(flags):
        flags[0] = True
    st = [tm + rng.normal(size=tm.size) * 0.01 * flags[0], ts + rng.normal(size=ts.size) * 0.002 * flags[1], tr * (1 + 0.2 * flags[2] * rng.uniform(-1, 1, tr.size)), tb * (1 + 0.3 * flags[3])]
    stc = [a.copy() for a in st]
    r = f.fit(*st, **dict(zip(('fit_mean', 'fit_slope', 'fit_r', 'fit_bkg'), flags)))
    sizes = [nodes.size, s.size, s.size, s.size]

    def unpack(p):
        q, i = list(st), 0
        for c in range(4):
            if flags[c]:
                q[c] = p[i:i + sizes[c]]
                i += sizes[c]
        return oracle(*q)
    flat = np.concatenate(r)
    start = np.concatenate([a for a, b in zip(st, flags) if b])
    lo = np.concatenate([np.full(sizes[c], [-np.inf, -np.inf, 0.1, 0.][c]) for c in range(4) if flags[c]])
    hi = np.concatenate([np.full(sizes[c], [np.inf, np.inf, 2., np.inf][c]) for c in range(4) if flags[c]])
    w = dict(kind='corr', flags=flags, has=has, m=n)
    mon.check('shape', len(r) == sum(flags) and flat.size == start.size, **w)
    mon.check('not_worse', unpack(flat) <= unpack(start) + 1e-6, got=unpack(flat), start=unpack(start), **w)
    mon.check('in_bounds', np.all((flat >= lo) & (flat <= hi)), fit=flat, **w)
    for _ in range(6):
        p = flat * (1 + 0.02 * rng.normal(size=flat.size))
        mon.close('cost', f(p), unpack(p), rtol=1e-8, atol=1e-6, **w)
        mon.check('cost_repeat', f(p) == f(p), **w)
    if flags[0]:
        zt = np.linspace(zr[0], zr[1], 20)
        mon.check('recover', np.abs(spline(nodes, r[0])(zt) - spline(nodes, tm)(zt)).max() < 0.012, fit=r[0], truth=tm, **w)
    r2 = f.fit(*st, **dict(zip(('fit_mean', 'fit_slope', 'fit_r', 'fit_bkg'), flags)))
    mon.check('refit', all(np.array_equal(a, b) for a, b in zip(r, r2)), **w)
    kept(mon, cp + stc, arrs + st, **w)
    refused(mon, lambda: f.fit(*st), what='nothing')
    for k in ('probs', 'dmags', 'ws'):
        refused(mon, lambda: CorrectionFitter(nodes, z, dz, e, **{k: np.ones(n - 1)}), what=k)
    refused(mon, lambda: CorrectionFitter(nodes, z, dz[1:], e), what='dz')
    refused(mon, lambda: CorrectionFitter(nodes, z, dz, e[1:]), what='e')
    mon.distinct('corr', tuple(flags), tuple(sorted(has.items())), n, nodes.size, s.size)


def k_ecgmm(case, mon, env, rng):
    from redmapper.fitters import EcgmmFitter
    n = int(rng.choice([1500, 4000]))
    w0 = rng.uniform(0.3, 0.7)
    mu = np.array([rng.uniform(-0.6, -0.35), rng.uniform(-0.1, 0.1)])
    sg = np.array([rng.uniform(0.1, 0.15), rng.uniform(0.03, 0.05)])

    def draw():
        e = rng.uniform(0.005, 0.03, n).astype('f4')
        b = rng.uniform(size=n) < w0
        return (np.where(b, mu[0], mu[1]) + rng.normal(size=n) * np.sqrt(np.where(b, sg[0], sg[1])**2 + e**2)).astype('f4'), e
    y, e = draw()
    cp = [y.copy(), e.copy()]
    f = EcgmmFitter(y, e)
    Y, E2 = y.astype(float), e.astype(float)**2

    def cost(p):
        return -np.sum(np.log(p[0] * gauss(Y, p[1], np.sqrt(p[3]**2 + E2)) + (1 - p[0]) * gauss(Y, p[2], np.sqrt(p[4]**2 + E2))))
    st = np.array([0.4, -0.5, 0.0, 0.2, 0.05])
    for _ in range(4):
        p = st * (1 + 0.1 * rng.normal(size=5))
        mon.close('cost', f(p), cost(p), rtol=1e-8, kind='ecgmm')
        mon.check('cost_repeat', f(p) == f(p))
    res = []
    for off in (0.0, float(rng.choice([0.5, 1.0, 2.0]))):
        wt, m, s = f.fit([st[0]], st[1:3], st[3:], offset=off)
        w = dict(kind='ecgmm', off=off, m=n)
        mon.check('in_bounds', wt.min() >= 0 and abs(wt.sum() - 1) < 1e-12 and np.all(np.abs(m) <= 1 + 1e-9) and s.min() >= 1e-2 - 1e-12 and s.max() <= 0.5 and m[0] <= m[1],
                  wt=wt, mu=m, sigma=s, **w)
        p = np.array([wt[0], m[0], m[1], s[0], s[1]])
        mon.check('not_worse', cost(p) <= cost(st) + 1e-6, **w)
        mon.close('cost', f(st), cost(st), rtol=1e-8, what='after fit', **w)
        res.append(p)
    # the minimiser stops short of the solution now and then
    fits = [res[0]]
    for _ in range(4):
        wt, m, s = EcgmmFitter(*draw()).fit([st[0]], st[1:3], st[3:])
        fits.append(np.array([wt[0], m[0], m[1], s[0], s[1]]))
    good = [bool(np.abs(p[1:3] - mu).max() < 0.06 and np.abs(p[3:] - sg).max() < 0.04 and abs(p[0] - w0) < 0.12) for p in fits]
    mon.check('recover', sum(good) >= 3, good=good, fits=fits, mu=mu, sg=sg, w0=w0, kind='ecgmm')
    mon.check('offset_free', not good[0] or np.abs(res[0] - res[1]).max() < 5e-3, a=res[0], b=res[1])
    kept(mon, cp, [y, e], kind='ecgmm')
    mon.distinct('ecgmm', n, int(w0 * 10), int(sg[1] * 100))


def k_ebin(case, mon, env, rng):
    from redmapper.fitters import ErrorBinFitter
    n = 12000
    dm = rng.uniform(-2, 2, n)
    e0, e1 = rng.uniform(0.02, 0.1, n), rng.uniform(0.02, 0.1, n)
    ind = [[0, 1], [0], [1]][rng.randint(3)]
    a, b = rng.uniform(1.2, 2.0), rng.uniform(0.15, 0.3) * rng.choice([-1, 1])
    rr = a + b * dm
    s2 = np.full(n, 0.01**2)
    d = rng.normal(size=n) * np.sqrt(s2 + (rr * e0 if 0 in ind else e0)**2 + (rr * e1 if 1 in ind else e1)**2)
    arrs = [d, dm, e0, e1, s2]
    cp = [x.copy() for x in arrs]
    if case['j'] % 3 == 0:
        u = (dm < -0.6) | (dm > 0.6)
        arrs = [x[u] for x in arrs]
        cp = [x.copy() for x in arrs]
    f = ErrorBinFitter(*arrs)
    p = f.fit([1.0, 0.0], scale_indices=ind)
    w = dict(kind='ebin', ind=ind, a=a, b=b)
    mon.check('in_bounds', 0.5 <= p[0] <= 10 and -5 <= p[1] <= 5, p=p, **w)
    mon.check('not_worse', f(p) <= f(np.array([1.0, 0.0])) + 1e-9, p=p, **w)
    mon.check('recover', abs(p[0] - a) < 0.15 * a and abs(p[1] - b) < 0.11, p=p, **w)
    mon.check('cost_repeat', f(p) == f(p), **w)
    kept(mon, cp, arrs, **w)
    mon.distinct('ebin', tuple(ind), case['j'] % 3, int(a * 5))


def k_zl(case, mon, env, rng):
    from redmapper.calibration.zlambdacal import ZLambdaFitter
    nodes = znodes(rng)
    sn = znodes(rng, [nodes[0], nodes[-1]])
    n = int(rng.choice([300, 1000]))
    z = rng.uniform(nodes[0], nodes[-1], n)
    ll = np.log(rng.uniform(10, 100, n) / 30.)
    td, ts, tc = rng.uniform(-0.01, 0.01, nodes.size), rng.uniform(-0.003, 0.003, sn.size), rng.uniform(0.003, 0.006, sn.size)
    e = rng.uniform(0.003, 0.008, n)
    dz = spline(nodes, td)(z) + spline(sn, ts)(z) * ll + rng.normal(size=n) * np.sqrt(spline(sn, tc)(z)**2 + e**2)
    arrs = [nodes, sn, z, dz, e, ll]
    cp = [a.copy() for a in arrs]
    f = ZLambdaFitter(*arrs)
    flags = [bool(rng.randint(2)) for _ in range(3)]
    if not any(flags):
        flags[0] = True

    def oracle(pd, ps, pc):
        v = np.clip(spline(sn, pc)(z), 0., None)**2 + e**2
        with np.errstate(all='ignore'):
            q = np.log(gauss(dz, spline(nodes, pd)(z) + spline(sn, ps)(z) * ll, np.sqrt(v)))
        q[~np.isfinite(q)] = -100.
        return -np.sum(q) + (10000. if flags[2] and np.min(pc) < 0 else 0.)
    st = [np.zeros(nodes.size) if flags[0] else td, np.zeros(sn.size) if flags[1] else ts, np.full(sn.size, 0.001) if flags[2] else tc]
    stc = [a.copy() for a in st]
    r = f.fit(*st, **dict(zip(('fit_delta', 'fit_slope', 'fit_scatter'), flags)))
    sizes = [nodes.size, sn.size, sn.size]

    def unpack(p):
        q, i = list(st), 0
        for c in range(3):
            if flags[c]:
                q[c] = p[i:i + sizes[c]]
                i += sizes[c]
        return oracle(*q)
    flat, start = np.concatenate(r), np.concatenate([a for a, b in zip(st, flags) if b])
    w = dict(kind='zl', flags=flags, m=n)
    mon.check('shape', len(r) == sum(flags) and flat.size == start.size, **w)
    mon.check('not_worse', unpack(flat) <= unpack(start) + 1e-9, **w)
    mon.check('in_bounds', not flags[2] or r[-1].min() >= 0., fit=flat, **w)
    for _ in range(6):
        p = flat + rng.normal(size=flat.size) * 0.002
        mon.close('cost', f(p), unpack(p), rtol=1e-8, **w)
        mon.check('cost_repeat', f(p) == f(p), **w)
    if flags[0] and not flags[1]:
        dd = np.abs(spline(nodes, r[0])(z) - spline(nodes, td)(z))
        mon.check('recover', dd.max() < 0.012 and np.median(dd) < 0.005, d=[dd.max(), np.median(dd)], fit=r[0], truth=td, **w)
    kept(mon, cp + stc, arrs + st, **w)
    refused(mon, lambda: f.fit(*st), what='nothing')
    refused(mon, lambda: ZLambdaFitter(nodes, sn, z, dz[1:], e, ll), what='dz')
    refused(mon, lambda: ZLambdaFitter(nodes, sn, z, dz, e[1:], ll), what='e')
    refused(mon, lambda: ZLambdaFitter(nodes, sn, z, dz, e, ll[1:]), what='ll')
    mon.distinct('zl', tuple(flags), n, nodes.size, sn.size)


# ---------------------------------------------------------------- selections
def specfile(rng, fn, g, n, zlo, zhi):
    s = np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f8'), ('z_err', 'f8')])
    i = rng.choice(len(g), n)
    off = rng.choice([0.3, 1.5, 2.9, 3.1, 8.], n) * (1 - 1e-3 * rng.uniform(size=n))
    phi = rng.uniform(0, 2 * np.pi, n)
    s['dec'] = g['dec'][i] + off / 3600. * np.sin(phi)
    s['ra'] = (g['ra'][i] + off / 3600. * np.cos(phi) / np.cos(np.radians(g['dec'][i]))) % 360
    s['z'] = np.round(rng.uniform(zlo, zhi, n), 2)
    s['z_err'] = rng.choice([1e-4, 5e-4, 1e-3, 2e-3, 1e-2], n)
    fitsio.write(fn, s, clobber=True)
    return s


def nearest(s, g, rad):
    out = np.full(len(s), -1)
    for a in range(len(s)):
        near = np.where(np.abs(g['dec'] - s['dec'][a]) < 0.01)[0]
        if near.size == 0:
            continue
        d = skygen.sep(s['ra'][a], s['dec'][a], g['ra'][near], g['dec'][near])
        m = np.argmin(d)
        if d[m] < rad:
            out[a] = near[m]
    return out


def k_seeds(case, mon, env, rng):
    from redmapper.calibration import SelectSpecSeeds
    d = env.tmp()
    region = ['eq', 'wrap', 'pole', 'mid'][case['j'] % 4]
    region = region if region in skygen.REGIONS else sorted(skygen.REGIONS)[case['j'] % len(skygen.REGIONS)]
    n = 900
    g = skygen.galaxies(rng, n, 5, region, 6., truth=True)
    # close pairs: the nearer one is the counterpart
    k = 60
    g['dec'][:k] = g['dec'][k:2 * k] + rng.uniform(0.5, 4, k) / 3600.
    g['ra'][:k] = g['ra'][k:2 * k]
    zr = np.zeros(n, dtype=rmx.ZRED_DT)
    zr['zred'] = np.where(rng.uniform(size=n) < 0.2, -1., rng.uniform(0.05, 0.6, n))
    zr['zred_e'], zr['chisq'] = rng.uniform(0.01, 0.03, n), rng.uniform(0, 20, n)
    usez = bool(rng.randint(2))
    master, zmaster, pix = rmx.write_galtable(os.path.join(d, 'g'), g, 32, zreds=zr)
    kw = dict(galfile=master, zredfile=zmaster if usez else None, zrange=[0.1, float(rng.choice([0.3, 0.5]))], maskfile=None, depthfile=None, mask_mode=0,
              calib_spec_max_zerr=float(rng.choice([0.001, 0.0015])), calib_zrange_cushion=float(rng.choice([0.0, 0.05])))
    c = rmx.test_config(env, d, **kw)
    one = case['j'] % 5 == 4
    train = bool(rng.randint(2))
    spec = specfile(rng, os.path.join(d, 'spec.fit'), g, 300 if not one else 40, 0.02, 0.7)
    other = specfile(rng, os.path.join(d, 'spec2.fit'), g, 50, 0.02, 0.7)
    c.specfile_train = os.path.join(d, 'spec.fit' if train else 'spec2.fit')
    c.specfile = os.path.join(d, 'spec2.fit' if train else 'spec.fit')
    c.seedfile = os.path.join(d, 'seeds.fit')
    lo, hi = max(0.05, kw['zrange'][0] - kw['calib_zrange_cushion']), kw['zrange'][1] + kw['calib_zrange_cushion']
    edge = (np.abs(spec['z'] - lo) < 1e-9) | (np.abs(spec['z'] - hi) < 1e-9)
    sel = (spec['z'] > lo - 1e-9) & (spec['z'] < hi + 1e-9) & (spec['z_err'] < kw['calib_spec_max_zerr'])
    m = nearest(spec, g, 3. / 3600.)
    sel &= m >= 0
    if usez:
        sel &= zr['zred'][np.maximum(m, 0)] > 0
    else:
        sel &= g['refmag'][np.maximum(m, 0)] > 0
    if sel.sum() == 0:
        mon.event('seeds_none')
        return
    SelectSpecSeeds(c).run(usetrain=train)
    out = fitsio.read(c.seedfile, ext=1, lower=True)
    mi = m[sel]
    want = sorted(zip(g['ra'][mi].tolist(), g['dec'][mi].tolist(), np.float32(spec['z'][sel]).tolist(), edge[sel].tolist()))
    must = [w[:3] for w in want if not w[3]]
    may = [w[:3] for w in want]
    got = sorted(zip(out['ra'].tolist(), out['dec'].tolist(), out['zspec'].tolist()))
    from collections import Counter
    cg, cmust, cmay = Counter(got), Counter(must), Counter(may)
    mon.check('seeds', not (cmust - cg) and not (cg - cmay), missing=list((cmust - cg).elements())[:3], extra=list((cg - cmay).elements())[:3], want=len(may), got=len(got), usez=usez)
    # every value of a seed is its galaxy's
    look = {(a, b): i for i, (a, b) in enumerate(zip(g['ra'].tolist(), g['dec'].tolist()))}
    idx = np.array([look.get((a, b), -1) for a, b in zip(out['ra'].tolist(), out['dec'].tolist())])
    ok = idx.min() >= 0 if idx.size else True
    for nme in ('mag', 'mag_err', 'refmag', 'refmag_err', 'ebv'):
        ok = ok and np.array_equal(out[nme], g[nme][idx])
    for a, b in (('zred', 'zred'), ('zred_e', 'zred_e'), ('zred_chisq', 'chisq')):
        ok = ok and (np.array_equal(out[a], zr[b][idx]) if usez else np.all(out[a] == -1))
    mon.check('seed_values', ok)
    mon.distinct('seeds', region, usez, train, len(got))


def k_members(case, mon, env, rng):
    from redmapper.calibration.prepmembers import PrepMembers
    d = env.tmp()
    nc, nm = int(rng.choice([1, 8, 40])), int(rng.choice([5, 60, 400]))
    cat = np.zeros(nc, dtype=[('MEM_MATCH_ID', 'i4'), ('LAMBDA', 'f4'), ('SCALEVAL', 'f4'), ('Z_LAMBDA', 'f4'), ('Z_LAMBDA_E', 'f4'), ('Z_INIT', 'f4'), ('CG_SPEC_Z', 'f4')])
    cat['MEM_MATCH_ID'] = rng.permutation(nc * 3)[:nc] + 1
    cat['LAMBDA'], cat['SCALEVAL'] = rng.uniform(2, 60, nc), rng.choice([1., 1.3, 1.6], nc)
    if nc > 1:
        cat['SCALEVAL'][rng.uniform(size=nc) < 0.15] = rng.choice([0., -1.])
    cat['Z_LAMBDA'], cat['Z_LAMBDA_E'] = rng.uniform(0.1, 0.5, nc), rng.uniform(0.004, 0.01, nc)
    cat['Z_INIT'] = cat['Z_LAMBDA'] + rng.normal(size=nc) * cat['Z_LAMBDA_E'] * 2
    cat['CG_SPEC_Z'] = np.where(rng.uniform(size=nc) < 0.4, -1., cat['Z_LAMBDA'] + rng.normal(size=nc) * 0.005)
    if nc == 1:
        cat['Z_INIT'], cat['CG_SPEC_Z'], cat['LAMBDA'] = cat['Z_LAMBDA'] + 0.0005, cat['Z_LAMBDA'] - 0.0005, 50.
    mem = np.zeros(nm, dtype=[('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('P', 'f4'), ('PCOL', 'f4'), ('THETA_I', 'f4'), ('THETA_R', 'f4'), ('R', 'f4'), ('MAG', 'f4', 5),
                              ('MAG_ERR', 'f4', 5), ('REFMAG', 'f4'), ('REFMAG_ERR', 'f4'), ('EBV', 'f4')])
    mem['MEM_MATCH_ID'] = rng.choice(np.append(cat['MEM_MATCH_ID'], 999), nm)
    mem['RA'], mem['DEC'] = rng.uniform(0, 360, nm), rng.uniform(-80, 80, nm)
    for k in ('P', 'PCOL', 'THETA_I', 'THETA_R'):
        mem[k] = rng.uniform(0, 1, nm)
    mem['R'] = np.where(rng.uniform(size=nm) < 0.1, 0., rng.uniform(0.001, 1., nm))
    for k in ('MAG', 'MAG_ERR', 'REFMAG', 'REFMAG_ERR', 'EBV'):
        mem[k] = rng.uniform(0, 20, mem[k].shape)
    c = rmx.test_config(env, d)
    c.catfile, c.zmemfile = os.path.join(d, 'cat_final.fit'), os.path.join(d, 'mem_out.fit')
    fitsio.write(c.catfile, cat)
    fitsio.write(os.path.join(d, 'cat_final_members.fit'), mem)
    c.calib_minlambda, c.calib_pcut, c.calib_zlambda_clean_nsig = float(rng.choice([5., 20.])), float(rng.choice([0.2, 0.3, 0.5])), float(rng.choice([1., 3., 5.]))
    c.calib_smooth = 0.0
    mode = ['z_init', 'cg'][case['j'] % 2]
    cz = cat['Z_INIT'] if mode == 'z_init' else cat['CG_SPEC_Z']
    with np.errstate(all='ignore'):
        gc = (cat['SCALEVAL'] > 0) & (cat['LAMBDA'] / cat['SCALEVAL'] > c.calib_minlambda) & (np.abs(cz - cat['Z_LAMBDA']) < c.calib_zlambda_clean_nsig * cat['Z_LAMBDA_E'])
    gm = (mem['P'] * mem['THETA_I'] * mem['THETA_R'] > c.calib_pcut) | (mem['PCOL'] > c.calib_pcut)
    byid = {int(i): j for j, i in enumerate(cat['MEM_MATCH_ID']) if gc[j]}
    use = np.array([j for j in range(nm) if gm[j] and int(mem['MEM_MATCH_ID'][j]) in byid], dtype=int)
    try:
        PrepMembers(c).run('bogus')
        ok = False
    except RuntimeError:
        ok = True
    mon.check('mode_refused', ok)
    if use.size == 0:
        mon.event('members_none')
        return
    PrepMembers(c).run(mode)
    out = fitsio.read(c.zmemfile, ext=1, lower=True)
    look = {float(r): j for j, r in enumerate(mem['RA'])}
    idx = np.array([look.get(float(r), -1) for r in out['ra']], dtype=int)
    mon.check('members', sorted(idx.tolist()) == sorted(use.tolist()), want=use.size, got=idx.size, mode=mode)
    if idx.size and idx.min() >= 0:
        ci = np.array([byid.get(int(i), -1) for i in mem['MEM_MATCH_ID'][idx]])
        ok = ci.min() >= 0
        for nme in ('dec', 'p', 'pcol', 'mag', 'mag_err', 'refmag', 'refmag_err', 'ebv'):
            ok = ok and np.array_equal(out[nme], mem[nme.upper()][idx])
        ok = ok and np.array_equal(out['z'], cz[ci]) and np.array_equal(out['z_lambda'], cat['Z_LAMBDA'][ci])
        ok = ok and np.array_equal(out['central'] == 1, mem['R'][idx] < 1e-4)
        mon.check('member_values', ok)
        os.remove(c.zmemfile)
        c.calib_smooth = 0.01
        PrepMembers(c).run(mode)
        o2 = fitsio.read(c.zmemfile, ext=1, lower=True)
        dd = (o2['z'] - cz[np.array([byid[int(mem['MEM_MATCH_ID'][look[float(r)]])] for r in o2['ra']])]) / 0.01
        mon.check('smooth', o2.size == out.size and np.abs(dd).max() < 6 and (dd.size < 20 or 0.5 < dd.std() < 1.6), std=dd.std())
    mon.distinct('members', nc, nm, mode, use.size)


def cluster_cat(rng, n, zlo, zhi):
    cat = np.zeros(n, dtype=[('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('LAMBDA', 'f4'), ('SCALEVAL', 'f4'), ('MASKFRAC', 'f4'), ('Z', 'f4'), ('Z_SPEC_INIT', 'f4'), ('Z_LAMBDA', 'f4'),
                             ('Z_LAMBDA_E', 'f4'), ('ZRED', 'f4'), ('W', 'f4'), ('P_CEN', 'f4', 5), ('P_SAT', 'f4', 5), ('R_LAMBDA', 'f4'), ('REFMAG', 'f4'), ('REFMAG_ERR', 'f4'),
                             ('MAG', 'f4', 5), ('MAG_ERR', 'f4', 5)])
    cat['MEM_MATCH_ID'] = 1 + np.arange(n)
    cat['LAMBDA'], cat['SCALEVAL'] = 10**rng.uniform(1.1, 2, n), rng.choice([1., 1.1, 1.2], n)
    cat['Z_SPEC_INIT'] = rng.uniform(zlo, zhi, n)
    return cat


def k_zlamcal(case, mon, env, rng):
    from redmapper.calibration import ZLambdaCalibrator
    from redmapper.zlambda import ZlambdaCorrectionPar
    d = env.tmp()
    zr = [0.1, float(rng.choice([0.2, 0.35]))]
    n = 1500
    cat = cluster_cat(rng, n, zr[0] - 0.02, zr[1] + 0.02)
    a, b = rng.uniform(0.005, 0.008) * rng.choice([-1, 1]), rng.uniform(-0.02, 0.02)
    z = cat['Z_SPEC_INIT'].astype(float)
    e = rng.uniform(0.004, 0.007, n)
    cat['Z_LAMBDA_E'] = e
    # the bias depends on richness in the cases where that is asked for
    sl = rng.uniform(0.003, 0.005) * rng.choice([-1, 1]) if case['j'] % 2 else 0.
    lp = np.log(cat['LAMBDA'].astype(float) / cat['SCALEVAL'] / 30.)
    cat['Z_LAMBDA'] = z - (a + b * (z - 0.15) + sl * lp) + rng.normal(size=n) * e
    cat['ZRED'] = cat['Z_LAMBDA'] + 0.01 + rng.normal(size=n) * 0.01
    # clusters that must not take part: a gross offset in all of them
    bad = rng.uniform(size=n) < 0.2
    kind = rng.randint(3, size=n)
    cat['SCALEVAL'][bad & (kind == 0)] = -1.
    cat['MASKFRAC'][bad & (kind == 1)] = 0.6
    cat['LAMBDA'][bad & (kind == 2)] = 2.
    cat['Z_LAMBDA'][bad] += 0.6 * 3 * e[bad]
    out = rng.uniform(size=n) < 0.03
    cat['Z_LAMBDA'][out & ~bad] += 0.2
    c = rmx.test_config(env, d, zrange=zr)
    c.calib_zlambda_minlambda, c.max_maskfrac = 10., 0.2
    c.calib_zlambda_correct_niter = int(rng.choice([1, 2, 3]))
    c.calib_zlambda_nodesize = 0.05
    c.catfile, c.zlambdafile = os.path.join(d, 'c.fit'), os.path.join(d, 'zl.fit')
    fitsio.write(c.catfile, cat)
    slope = bool(case['j'] % 2)
    ZLambdaCalibrator(c, corrslope=slope).run()
    p = fitsio.read(c.zlambdafile, ext=1, lower=True)
    h = fitsio.read_header(c.zlambdafile, ext=1)
    mon.check('zlamcal_header', abs(h['ZRANGE0'] - (zr[0] - 0.02)) < 1e-9 and abs(h['ZRANGE1'] - (zr[1] + 0.07)) < 1e-9 and h['ZLAMPIV'] == c.zlambda_pivot and p['niter_true'][0] == c.calib_zlambda_correct_niter)
    zt = p['offset_z'][0]
    mon.check('zlamcal', np.abs(p['offset'][0] - (a + b * (zt - 0.15))).max() < 0.006, offset=p['offset'][0], want=a + b * (zt - 0.15), slope=slope)
    corr = ZlambdaCorrectionPar(parfile=c.zlambdafile, zlambda_pivot=c.zlambda_pivot)
    good = ~bad & ~out & (cat['LAMBDA'] / cat['SCALEVAL'] > 10)
    res = []
    for i in np.where(good)[0]:
        zl, ze = corr.apply_correction(cat['LAMBDA'][i], cat['Z_LAMBDA'][i], cat['Z_LAMBDA_E'][i])
        res.append(float(zl) - z[i])
    res = np.array(res)
    zz = z[good]
    for lo in np.arange(zr[0], zr[1] - 0.01, 0.05):
        u = (zz > lo) & (zz < lo + 0.05)
        mon.check('zlamcal', abs(np.median(res[u])) < 0.005, med=np.median(res[u]), lo=lo, a=a, b=b, slope=slope, niter=c.calib_zlambda_correct_niter)
    if slope:
        k = np.polyfit(np.log(cat['LAMBDA'][good] / cat['SCALEVAL'][good] / 30.), res, 1)[0]
        mon.check('zlamcal', abs(k) < 0.0022, trend=k, given=sl, niter=c.calib_zlambda_correct_niter)
        # (later iterations hold what is left)
        for q in (p['slope'][0], p['slope_true'][0].reshape(-1, c.calib_zlambda_correct_niter)[:, 0]):
            mon.event('zlamcal_slopes')
            mon.check('zlamcal', abs(np.median(q) - sl) < 0.0025, slopes=q, given=sl)
    else:
        mon.check('zlamcal', np.all(p['slope'] == 0) and np.all(p['slope_true'] == 0), what='no slope asked for')
    mon.check('zlamcal_scatter', np.all(p['scatter'][0] < 0.004) and np.all(p['scatter'][0] >= 0), scatter=p['scatter'][0])
    med = np.median(cat['ZRED'][good] - cat['Z_LAMBDA'][good])
    mon.check('zred_uncorr', np.abs(p['zred_uncorr'][0] - (zt + med)).max() < 0.02 and abs(np.mean(p['zred_uncorr'][0] - (zt + med))) < 0.005, got=p['zred_uncorr'][0], want=zt + med)
    # a gap in redshift is refused
    gap = (cat['Z_SPEC_INIT'] < zr[0] + 0.03)
    c.catfile = os.path.join(d, 'c2.fit')
    c.zlambdafile = os.path.join(d, 'zl2.fit')
    fitsio.write(c.catfile, cat[gap])
    try:
        ZLambdaCalibrator(c, corrslope=slope).run()
        ok = False
    except RuntimeError:
        ok = True
    mon.check('gap_refused', ok and not os.path.exists(c.zlambdafile))
    mon.distinct('zlamcal', zr[1], slope, c.calib_zlambda_correct_niter, int(a * 1000), int(b * 100))


def specred_sky(rng, d):
    """red galaxies with spectra around the template (with an offset), plus a blue cloud and unusable spectra."""
    from redmapper.utilities import RedGalInitialColors
    n = 3000
    g = skygen.galaxies(rng, n, 5, 'eq', 8., truth=True)
    z = rng.uniform(0.05, 0.35, n)
    tmpl = RedGalInitialColors('bc03_colors_sdss.fit')
    off, sig = rng.uniform(-0.1, 0.1), rng.uniform(0.02, 0.04)
    red = rng.uniform(size=n) < 0.6
    mags = np.zeros((n, 5))
    mags[:, 3] = rng.uniform(15, 20.5, n)
    bd = ['u', 'g', 'r', 'i', 'z']
    cols = np.array([(tmpl(bd[j], bd[j + 1], z) if j else 1.5 + 2 * z) + off for j in range(4)]).T + rng.normal(size=(n, 4)) * sig
    cols[~red] -= np.abs(rng.normal(size=((~red).sum(), 4)) * 0.12 + 0.35)
    for j in (2, 1, 0):
        mags[:, j] = mags[:, j + 1] + cols[:, j]
    mags[:, 4] = mags[:, 3] - cols[:, 3]
    g['mag'] = mags
    g['refmag'] = mags[:, 3]
    faint = rng.uniform(size=n) < 0.05
    g['refmag'][faint] = 22.5
    g['mag_err'] = 1e-3
    g['refmag_err'] = 1e-3
    master, _, _ = rmx.write_galtable(os.path.join(d, 'g'), g, 16)
    s = np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f8'), ('z_err', 'f8')])
    s['ra'], s['dec'], s['z'], s['z_err'] = g['ra'], g['dec'] + 0.5 / 3600., z, np.where(rng.uniform(size=n) < 0.1, 0.01, 1e-4)
    s = s[rng.permutation(n)[:int(0.9 * n)]]
    fitsio.write(os.path.join(d, 'spec.fit'), s)
    return master, g, s, z, tmpl, off, sig, red, faint


def k_specred(case, mon, env, rng):
    from redmapper.calibration import SelectSpecRedGalaxies
    d = env.tmp()
    zr = [0.1, 0.25]
    master, g, s, z, tmpl, off, sig, red, faint = specred_sky(rng, d)
    n = g.size
    c = rmx.test_config(env, d, galfile=master, zrange=zr, maskfile=None, depthfile=None, mask_mode=0, specfile_train=os.path.join(d, 'spec.fit'), calib_redgal_template='bc03_colors_sdss.fit',
                        calib_zrange_cushion=float(rng.choice([0.0, 0.03])))
    c.redgalfile, c.redgalmodelfile = os.path.join(d, 'rg.fit'), os.path.join(d, 'rgm.fit')
    SelectSpecRedGalaxies(c).run()
    out = fitsio.read(c.redgalfile, ext=1, lower=True)
    mod = fitsio.read(c.redgalmodelfile, ext=1, lower=True)[0]
    lo, hi = max(0.05, zr[0] - c.calib_zrange_cushion), zr[1] + c.calib_zrange_cushion
    mon.check('specred_nodes', abs(mod['nodes'][0] - lo) < 1e-6 and abs(mod['nodes'][-1] - hi) < 1e-6, nodes=mod['nodes'], lo=lo, hi=hi)
    look = {float(r): i for i, r in enumerate(g['ra'])}
    idx = np.array([look.get(float(r), -1) for r in out['ra']], dtype=int)
    sz = dict(zip(s['ra'].tolist(), s['z'].tolist()))
    okspec = dict(zip(s['ra'].tolist(), (s['z_err'] < c.calib_spec_max_zerr).tolist()))
    # the selection follows from the model in the file
    j = 1
    mn, sc = spline(mod['nodes'], mod['meancol'][:, j]), spline(mod['nodes'], mod['meancol_scatter'][:, j])
    cl = (g['mag'][:, j].astype(float) - g['mag'][:, j + 1])
    ce = np.sqrt(2) * 1e-3
    has = np.array([okspec.get(float(r), False) for r in g['ra']])
    pull = np.abs(cl - mn(z)) / np.sqrt(ce**2 + sc(z)**2) / c.calib_redspec_nsig
    base = has & (z > lo) & (z < hi) & (g['refmag'] < c.limmag_ref) & (z < c.calib_colormem_zbounds[0])
    must, may = base & (pull < 0.999), base & (pull < 1.001)
    gotset, mustset, mayset = set(idx.tolist()), set(np.where(must)[0].tolist()), set(np.where(may)[0].tolist())
    mon.check('specred', idx.size == len(gotset) and mustset <= gotset <= mayset, missing=len(mustset - gotset), extra=len(gotset - mayset), got=idx.size)
    ok = idx.size and idx.min() >= 0
    for nme in ('mag', 'mag_err', 'refmag', 'dec'):
        ok = ok and np.array_equal(out[nme], g[nme][idx])
    mon.check('specred_values', ok and np.allclose(out['z'], [sz[float(r)] for r in out['ra']], atol=1e-6))
    zt = np.linspace(lo + 0.01, hi - 0.01, 15)
    dd = mn(zt) - (tmpl('g', 'r', zt) + off)
    mon.check('recover', np.abs(dd).max() < 0.03, d=np.abs(dd).max(), off=off, kind='specred')
    mon.check('specred_scatter', np.all(mod['meancol_scatter'][:, j] < 2.5 * sig) and np.all(mod['meancol_scatter'][:, j] > 0.2 * sig), sc=mod['meancol_scatter'][:, j], sig=sig)
    frac = red[idx].mean()
    mon.check('specred_pure', frac > 0.9, frac=frac)
    mon.distinct('specred', int(off * 50), int(sig * 200), c.calib_zrange_cushion)


def k_wcen(case, mon, env, rng):
    """centering parameters: closed-form maximum likelihood when every cluster is certainly centred; independent optimum otherwise."""
    from redmapper.calibration import WcenCalibrator
    import yaml
    d = env.tmp()
    zr = rmx.zredstr(env, fine=True)
    pivot = float(rng.choice([30., 20.]))
    zc = [0.1, 0.3]

    def cat(n, mu, sg):
        c = cluster_cat(rng, n, 0.05, 0.35)
        lam = (c['LAMBDA'] / c['SCALEVAL']).astype(float)
        c['W'] = np.exp(mu + sg / np.sqrt(lam / pivot) * rng.normal(size=n))
        c['W'][rng.uniform(size=n) < 0.05] = 0.
        c['MASKFRAC'] = np.where(rng.uniform(size=n) < 0.1, 0.5, 0.)
        c['P_CEN'][:, 0], c['R_LAMBDA'] = 1., rng.uniform(0.4, 1.6, n)
        z = c['Z_SPEC_INIT']
        zi = np.atleast_1d(zr.zindex(z))
        c['REFMAG'] = zr.mstar(z) - 1.3 - 0.3 * np.log(lam / pivot) + 0.3 * rng.normal(size=n)
        c['REFMAG_ERR'], c['MAG_ERR'] = 0.02, 0.02
        col = zr.c[zi, :] + zr.slope[zi, :] * (c['REFMAG'] - zr.pivotmag[zi])[:, None]
        L = np.linalg.cholesky(np.moveaxis(zr.covmat[:, :, zi], 2, 0).astype(float))
        col = col + 0.8 * np.einsum('nij,nj->ni', L, rng.normal(size=(n, 4)))
        c['MAG'][:, 3] = c['REFMAG']
        for j in (2, 1, 0):
            c['MAG'][:, j] = c['MAG'][:, j + 1] + col[:, j]
        c['MAG'][:, 4] = c['MAG'][:, 3] - col[:, 3]
        return c
    tr = {'fg': (-0.27, 0.45), 'sat': (0.05, 0.2), 'cen': (0.2, 0.15)}
    cats = {k: cat(900, *v) for k, v in tr.items()}
    certain = case['j'] % 2 == 0
    if not certain:
        pc = rng.uniform(0.3, 0.95, 900)
        ps = (1 - pc) * rng.uniform(0.2, 0.9, 900)
        cats['cen']['P_CEN'][:, 0] = pc
        cats['cen']['P_SAT'][:, 0] = ps
        # and the galaxy that is given is what it is said to be, that often
        u = rng.uniform(size=900)
        sat, fg = (u > pc) & (u < pc + ps), u >= pc + ps
        b = cats['cen']
        sl = np.sqrt(pivot * b['SCALEVAL'] / b['LAMBDA'])
        b['W'][sat & (b['W'] > 0)] = np.exp(0.05 + 0.2 * sl * rng.normal(size=900))[sat & (b['W'] > 0)]
        b['W'][fg & (b['W'] > 0)] = np.exp(-0.27 + 0.45 * sl * rng.normal(size=900))[fg & (b['W'] > 0)]
        dm = np.where(sat, rng.normal(0.2, 0.4, 900), np.where(fg, rng.uniform(0.0, 1.5, 900), 0.))
        b['REFMAG'] += dm
        b['MAG'] += dm[:, None]
    fn = {k: os.path.join(d, k + '.fit') for k in cats}
    for k in cats:
        fitsio.write(fn[k], cats[k])
    c = rmx.test_config(env, d, wcen_pivot=pivot)
    c.catfile, c.wcenfile = fn['cen'], os.path.join(d, 'wcen.fit')
    c.wcen_cal_zrange = np.array(zc)
    c.wcen_minlambda, c.wcen_maxlambda, c.max_maskfrac = 15., 80., 0.2
    mc = case['j'] == 1
    if not mc:
        c.phi1_mmstar_m, c.phi1_mmstar_slope, c.phi1_msig_m, c.phi1_msig_slope = -1.13, -0.38, 0.5, -0.13
    it = 2 if case['j'] % 3 == 2 else 1
    if it == 2:
        c.lnw_fg_mean, c.lnw_fg_sigma, c.lnw_sat_mean, c.lnw_sat_sigma = -0.3, 0.44, 0.03, 0.18
        given = ['fg', 'sat'] if case['j'] % 2 else []
        w = WcenCalibrator(c, 2, **({'randcatfile': fn['fg'], 'randsatcatfile': fn['sat']} if given else {}))
    else:
        c.lnw_fg_sigma = -1.
        for kw in ({}, {'randcatfile': fn['fg']}):
            c.lnw_sat_sigma = -1.
            try:
                WcenCalibrator(c, 1, **kw)
                ok = False
            except RuntimeError:
                ok = True
            mon.check('wcen_refused', ok, kw=kw)
        given = ['fg', 'sat']
        if case['j'] % 4 == 3:
            # the configuration knows one of them
            given = [given[rng.randint(2)]]
            c.lnw_fg_mean, c.lnw_fg_sigma, c.lnw_sat_mean, c.lnw_sat_sigma = -0.3, 0.44, 0.03, 0.18
        w = WcenCalibrator(c, 1, **{'rand%scatfile' % {'fg': '', 'sat': 'sat'}[k]: fn[k] for k in given})
    w.run(testing=not mc)
    p = fitsio.read(c.wcenfile, ext=1, lower=True)[0]

    def use(a):
        lam = a['LAMBDA'] / a['SCALEVAL']
        z = a['Z_SPEC_INIT']
        return a[(lam > 15.) & (lam < 80.) & (a['W'] > 0) & (z > zc[0]) & (z < zc[1]) & (a['MASKFRAC'] < 0.2)]

    def closed(a):
        ls = 1. / np.sqrt(a['LAMBDA'].astype(float) / a['SCALEVAL'] / pivot)
        lw = np.log(a['W'].astype(float))
        m = np.sum(lw / ls**2) / np.sum(1 / ls**2)
        return m, np.sqrt(np.mean(((lw - m) / ls)**2))
    for k, preset in (('fg', (-0.3, 0.44)), ('sat', (0.03, 0.18))):
        pk = p['lnw_%s_mean' % k], p['lnw_%s_sigma' % k]
        if k in given:
            m, s = closed(use(cats[k]))
            mon.check('wcen', abs(pk[0] - m) < 1e-3 and abs(pk[1] - s) < 1e-3, got=pk, want=[m, s], which=k, it=it)
        else:
            mon.check('wcen', pk == preset, got=pk, want=preset, which=k, it=it)
    a = use(cats['cen'])
    lam = a['LAMBDA'].astype(float) / a['SCALEVAL']
    if certain:
        m, s = closed(a)
        mon.check('wcen', abs(p['lnw_cen_mean'] - m) < 1e-3 and abs(p['lnw_cen_sigma'] - s) < 1e-3, got=[p['lnw_cen_mean'], p['lnw_cen_sigma']], want=[m, s], which='cen')
        y = a['REFMAG'] - zr.mstar(a['Z_SPEC_INIT'])
        x = np.log(lam / pivot)
        # a galaxy outside the tabulated background carries an unusable (infinite) density: no statement is made on those
        from redmapper import Background, GalaxyCatalog
        zs, rm, g = a['Z_SPEC_INIT'].astype(float), a['REFMAG'].astype(float), GalaxyCatalog(a.copy())
        cs = zr.calculate_chisq(g, zs)
        ok = np.isfinite(Background(c.bkgfile).sigma_g_lookup(zs, cs, rm))
        x, y = x[ok], y[ok]
        k = np.polyfit(x, y, 1)
        sg = np.sqrt(np.mean((y - np.polyval(k, x))**2))
        mon.check('wcen', abs(p['delta0'] - k[1]) < 2e-3 and abs(p['delta1'] - k[0]) < 3e-3 and abs(p['sigma_m'] - sg) < 2e-3, got=[p['delta0'], p['delta1'], p['sigma_m']], want=[k[1], k[0], sg])
    else:
        pc, ps = a['P_CEN'][:, 0].astype(float), a['P_SAT'][:, 0].astype(float)
        ls = 1. / np.sqrt(lam / pivot)
        lw = np.log(a['W'].astype(float))

        def cost(q):
            f = pc * gauss(lw, q[0], q[1] * ls) + ps * gauss(lw, p['lnw_sat_mean'], p['lnw_sat_sigma'] * ls) + (1 - pc - ps) * gauss(lw, p['lnw_fg_mean'], p['lnw_fg_sigma'] * ls)
            return -np.sum(np.log(f))
        q = np.array([p['lnw_cen_mean'], p['lnw_cen_sigma']])
        probe(mon, cost, q, np.array([-9., 0.01]), np.array([9., 9.]), (-0.01, 0.01), 0.05, kind='wcen')
        # the magnitudes: centrals, the brightest of the satellites, and the background within r_lambda
        from redmapper import Background, GalaxyCatalog
        zs, rm = a['Z_SPEC_INIT'].astype(float), a['REFMAG'].astype(float)
        xu, rl = np.log(a['LAMBDA'].astype(float) / pivot), a['R_LAMBDA'].astype(float)
        cs = np.asarray(zr.calculate_chisq(GalaxyCatalog(a.copy()), zs), dtype=float)
        import scipy.stats
        cw = scipy.stats.chi2.pdf(cs, zr.ncol)
        ms, x = np.asarray(zr.mstar(zs), dtype=float), np.log(lam / pivot)
        f1 = gauss(rm, ms + p['phi1_mmstar_m'] + p['phi1_mmstar_slope'] * xu, p['phi1_msig_m'] + p['phi1_msig_slope'] * xu)
        scale = np.radians(1.) * np.array([c.cosmo.Da(0., float(zz)) for zz in zs])
        bc = Background(c.bkgfile).sigma_g_lookup(zs, cs, rm) / scale**2 * np.pi * rl**2
        ok = np.isfinite(bc)

        def mcost(q):
            rho = (pc * gauss(rm, ms + q[0] + q[1] * x, q[2]) * cw + ps * f1 * cw + (1 - pc - ps) * bc)[ok]
            return -np.sum(np.log(np.clip(rho, 1e-5, None)))
        q = np.array([p['delta0'], p['delta1'], p['sigma_m']])
        probe(mon, mcost, q, np.array([-9., -9., 0.01]), np.array([9., 9., 9.]), (-0.01, 0.01), 0.05, kind='wcen magnitudes')
        mon.check('wcen', 0 < p['sigma_m'] < 1 and abs(p['delta0'] + 1.3) < 0.15 and abs(p['delta1'] + 0.3) < 0.2, got=[p['delta0'], p['delta1'], p['sigma_m']])
    if mc:
        # brightest of lambda - 1 galaxies drawn from the luminosity function between 0.2 and 10 L*
        al = c.calib_lumfunc_alpha
        mm = np.linspace(-2.5, -2.5 * np.log10(0.2), 4000)
        pdf = 10**(0.4 * (al + 1) * -mm) * np.exp(-10**(0.4 * -mm))
        cdf = np.cumsum(pdf) / pdf.sum()
        for L in (20., 60., 100.):
            br = np.sort(np.interp(rng.uniform(size=(2000, int(L) - 1)).min(axis=1), cdf, mm))
            want = np.mean(br)
            got = p['phi1_mmstar_m'] + p['phi1_mmstar_slope'] * np.log(L / pivot)
            mon.check('wcen_phi1', abs(got - want) < 0.25, L=L, got=got, want=want)
    mon.check('wcen_pivot', p['pivot'] == pivot)
    # what was written is what the configuration uses afterwards
    c.set_wcen_vals()
    mon.check('wcen_used', abs(c.wcen_Delta0 - p['delta0']) < 1e-12 and abs(c.wcen_sigma_m - p['sigma_m']) < 1e-12 and abs(c.lnw_cen_mean - p['lnw_cen_mean']) < 1e-12
              and abs(c.lnw_fg_sigma - p['lnw_fg_sigma']) < 1e-12)
    mon.distinct('wcen', certain, it, pivot, mc)


def k_redseq(case, mon, env, rng):
    """the red sequence that generated the members is the one that is calibrated, and zreds computed with it are unbiased."""
    from redmapper.calibration import RedSequenceCalibrator
    from redmapper import RedSequenceColorPar
    d = env.tmp()
    zr = [0.1, 0.2]
    n = 2500
    z = rng.uniform(zr[0] - 0.02, zr[1] + 0.02, n)
    base = np.array([1.9, 1.0, 0.42, 0.33])
    grad = np.array([1.0, 3.0, 1.0, 0.6]) * rng.uniform(0.9, 1.1, 4)
    slope = np.array([-0.02, -0.03, -0.015, -0.01])
    sig = np.array([0.06, 0.03, 0.02, 0.02])
    pref = rmx.zredstr(env)
    ms = pref.mstar(np.clip(z, 0.06, 0.5))
    refmag = ms + rng.uniform(-1.5, 1.5, n)
    piv = np.interp(z, [0.05, 0.25], [float(np.median(refmag[z < 0.12])) - 0., float(np.median(refmag[z > 0.18]))])
    common = rng.normal(size=n)
    cov = 0.9
    res = (np.sqrt(cov) * common[:, None] + np.sqrt(1 - cov) * rng.normal(size=(n, 4))) * sig
    col = base + grad * (z[:, None] - 0.15) + slope * (refmag - piv)[:, None] + res
    g = np.zeros(n, dtype=[('z', 'f4'), ('z_lambda', 'f4'), ('p', 'f4'), ('pcol', 'f4'), ('central', 'i2'), ('ra', 'f8'), ('dec', 'f8'), ('mag', 'f4', 5), ('mag_err', 'f4', 5), ('refmag', 'f4'),
                           ('refmag_err', 'f4'), ('ebv', 'f4')])
    g['z'], g['refmag'] = z, refmag
    g['mag'][:, 3] = refmag
    m = np.zeros((n, 5))
    m[:, 3] = refmag
    for j in (2, 1, 0):
        m[:, j] = m[:, j + 1] + col[:, j]
    m[:, 4] = m[:, 3] - col[:, 3]
    g['mag'] = m
    g['mag_err'], g['refmag_err'] = 1e-4, 1e-4
    er = case.get('er')
    if er is not None:
        # the errors are given wrong by a factor, which the calibration is asked to find
        g['mag_err'] = np.outer(np.clip(10.**(0.25 * (refmag - 19.0)), 0.3, 3), sig[[0, 0, 1, 2, 3]]) * rng.uniform(0.8, 1.2, (n, 1))
        g['mag'] += rng.normal(size=(n, 5)) * g['mag_err'] * er
    usepcol = bool(case['j'] % 2)
    g['p'], g['pcol'] = (0.1, 0.95) if usepcol else (0.95, 0.1)
    # members below the probability cut, far from the sequence: they must not take part
    lowp = rng.uniform(size=n) < 0.15
    g['pcol' if usepcol else 'p'][lowp] = 0.1
    g['mag'][lowp] += rng.uniform(-0.5, 0.5, (lowp.sum(), 5))
    base_name = ['members', 'members_fit', 'cluster_it'][case['j'] % 3]
    fitsio.write(os.path.join(d, base_name + '.fit'), g)
    c = rmx.test_config(env, d, zrange=zr)
    c.calib_use_pcol = usepcol
    c.calib_covmat_constant = 0.9
    c.calib_pcut = 0.3
    c.calib_fit_err_ratio = er is not None
    c.parfile = os.path.join(d, 'pars.fit')
    os.makedirs(os.path.join(d, c.plotpath), exist_ok=True)
    RedSequenceCalibrator(c, os.path.join(d, base_name + '.fit')).run(doRaise=False)
    p = fitsio.read(c.parfile, ext=1)[0]
    h = fitsio.read_header(c.parfile, ext=1)
    zt = np.linspace(0.105, 0.195, 10)
    mag0 = spline(p['pivotmag_z'], p['pivotmag'])
    wide = 1.0 if er is None else 2.5    # magnitude errors as large as the scatter
    for j in range(4):
        got = spline(p['z%02d' % j], p['c%02d' % j])(zt)
        sl = spline(p['zs%02d' % j], p['slope%02d' % j])(zt)
        truth = base[j] + grad[j] * (zt - 0.15) + slope[j] * (mag0(zt) - np.interp(zt, [0.05, 0.25], [float(np.median(refmag[z < 0.12])), float(np.median(refmag[z > 0.18]))]))
        mon.check('redseq', np.abs(got - truth).max() < wide * max(0.012, 0.35 * sig[j]), color=j, d=np.abs(got - truth).max(), sig=sig[j])
        mon.check('redseq_slope', np.abs(sl - slope[j]).max() < wide * max(0.02, 0.5 * sig[j]), color=j, got=sl, want=slope[j])
        s = p['sigma'][j, j, :]
        if er is not None:
            # scatter and scaled errors together account for the spread, bright and faint
            w = (~lowp) & (z > zr[0]) & (z < zr[1])
            gm, ge = g['mag'][w].astype('f8'), g['mag_err'][w].astype('f8')
            dm = refmag[w] - mag0(z[w])
            delta = gm[:, j] - gm[:, j + 1] - spline(p['z%02d' % j], p['c%02d' % j])(z[w]) - spline(p['zs%02d' % j], p['slope%02d' % j])(z[w]) * dm
            q = p['mag_err_ratio_int'][[j, j + 1]].astype('f8') + p['mag_err_ratio_slope'][[j, j + 1]] * (refmag[w] - p['mag_err_ratio_pivot'])[:, None]
            pull = delta / np.sqrt(((q * ge[:, [j, j + 1]])**2).sum(axis=1) + spline(p['covmat_z'], p['sigma'][j, j, :])(z[w])**2)
            for a in (dm < -0.3, np.abs(dm) < 0.4, dm > 0.3):
                pm = 1.4826 * np.median(np.abs(pull[a] - np.median(pull[a])))
                mon.check('redseq_err_ratio', 0.75 < pm < 1.3, color=j, pull=pm, n=int(a.sum()), factor=er)
        else:
            mon.check('redseq_scatter', np.all(s > 0.6 * sig[j]) and np.all(s < 1.5 * sig[j]), color=j, got=s, want=sig[j])
        mon.close('redseq_cov', p['covmat_amp'][j, j, :], s**2, rtol=1e-5)
        for k in range(4):
            if k != j:
                mon.close('redseq_cov', p['covmat_amp'][j, k, :], 0.9 * s * p['sigma'][k, k, :], rtol=1e-5)
    use = (~lowp) & (z > zr[0]) & (z < zr[1])
    mon.check('redseq_pivot', abs(np.median(refmag[use] - mag0(z[use]))) < 0.15, d=np.median(refmag[use] - mag0(z[use])))
    dc = lambda q: np.array([c.cosmo.Dl(0.0, float(x)) / (1 + x) for x in np.atleast_1d(q)])
    vz = p['volume_factor_z'].astype(float)
    mon.close('redseq_volume', p['volume_factor'], (dc(zr[1] + 0.01) - dc(zr[1])) / (dc(vz + 0.01) - dc(vz)), rtol=1e-4)
    mon.check('redseq_header', h['NCOL'] == 4 and h['REF_IND'] == 3 and abs(h['ZRANGE0'] - 0.01) < 1e-9 and abs(h['ZRANGE1'] - 0.45) < 1e-6 and abs(h['LIMMAG'] - c.limmag_catalog) < 1e-6)
    zs = RedSequenceColorPar(c.parfile)
    mon.check('redseq_readable', zs.ncol == 4)
    out = os.path.join(d, base_name + '_zreds.fit')
    if mon.check('redseq_name', os.path.isfile(out), want=os.path.basename(out), have=sorted(f for f in os.listdir(d) if f.endswith('.fit'))):
        o = fitsio.read(out, ext=1, lower=True)
        mon.check('redseq_rows', o.size == use.sum(), got=o.size, want=int(use.sum()))
        for lo in (0.11, 0.14, 0.17):
            u = (o['z'] > lo) & (o['z'] < lo + 0.02)
            mon.check('redseq_zred', abs(np.median(o['zred'][u] - o['z'][u])) < 0.006 * wide, med=np.median(o['zred'][u] - o['z'][u]), lo=lo)
            pull = (o['zred'][u] - o['z'][u]) / o['zred_e'][u]
            mon.check('redseq_zred_err', 0.4 < 1.4826 * np.median(np.abs(pull - np.median(pull))) < 2.5, mad=1.4826 * np.median(np.abs(pull - np.median(pull))))
    mon.distinct('redseq', usepcol, base_name, int(grad[1] * 10))
