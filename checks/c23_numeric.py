"""C23: numerical building blocks (splines, nodes, interpolation, cloud-in-cell, noise and depth models, profiles, samplers, templates) against independent formulas."""
import glob
import os
import types
import numpy as np
import fitsio
import scipy.interpolate
import scipy.special
import scipy.stats

RULE = 'one call of a building block judged, keyed by (kind, shape of the input, options)'
REQUIRED = {'spline': 40, 'spline_ends': 20, 'spline_elementwise': 20, 'interpol': 20, 'nodes': 40, 'cic': 20, 'cic_conserved': 10, 'theta_i': 20, 'errormodel': 20, 'errormodel_noise': 6, 'applied_noise': 3, 'depthfit': 6, 'depthfit_errors': 4,
            'depthfit_order': 4, 'depthfit_fail': 3, 'depthlim': 4, 'chisq_pdf': 10, 'schechter_pdf': 10, 'nfw_pdf': 10, 'sampler': 6, 'mstar': 8, 'colors': 3, 'template_refused': 3, 'inputs_kept': 60, 'gaussfit': 5,
            'members_read': 3}
BUDGET = {'quick': 300, 'thorough': 700}
ASSUMPTIONS = ['spline nodes are strictly increasing; cloud-in-cell positions lie inside the grid']


def plan(tier, seed):
    k = 1 if tier == 'quick' else 25
    out = []
    for kind, n in (('spline', 40), ('interpol', 20), ('nodes', 40), ('cic', 24), ('theta', 20), ('err', 24), ('noise', 8), ('depth', 16), ('pdf', 12), ('sample', 8), ('gauss', 6), ('members', 4)):
        out += [{'kind': kind, 'j': j, 'seed': seed * 9173 + 1000 * len(out) + j} for j in range(n * k)]
    out += [{'kind': 'template', 'j': 0, 'seed': seed}]
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    np.random.seed(case['seed'] % 2**31)
    globals()['k_' + case['kind']](case, mon, env, rng)


def kept(mon, arrs, copies, **w):
    mon.check('inputs_kept', all(np.array_equal(a, b, equal_nan=True) for a, b in zip(arrs, copies)), **w)


def k_spline(case, mon, env, rng):
    from redmapper.utilities import CubicSpline
    n = int(rng.choice([3, 4, 5, 8, 30]))
    dt = np.float32 if case['j'] % 3 == 0 else np.float64
    x = np.cumsum(rng.uniform(0.02, 1.0, n)).astype(dt) + dt(rng.uniform(-2, 2))
    y = (rng.normal(size=n) * 10**rng.uniform(-2, 1)).astype(dt)
    x8, y8 = x.astype(float), y.astype(float)
    mode = ['natural', 'clamped', '3d=0'][case['j'] % 3 if case['j'] % 4 else 0]
    yp = None
    if mode == 'clamped':
        yp = [float(a) for a in rng.normal(size=2)]
        ref = scipy.interpolate.CubicSpline(x8, y8, bc_type=((1, yp[0]), (1, yp[1])))
    elif mode == '3d=0':
        yp = '3d=0'
        if n < 4:
            return
        ref = None
    else:
        ref = scipy.interpolate.CubicSpline(x8, y8, bc_type='natural')
    cx, cy = x.copy(), y.copy()
    f = CubicSpline(x, y, yp=yp) if yp is not None else CubicSpline(x, y)
    span = x8[-1] - x8[0]
    q = np.concatenate([rng.uniform(x8[0] - 0.2 * span, x8[-1] + 0.2 * span, 60), x8])
    q = q[rng.permutation(q.size)]
    v = f(q)
    tol = (2e-4 if dt is np.float32 else 1e-8) * (np.abs(y8).max() + 1e-3)
    amp = 1 + np.abs(np.diff(y8) / np.diff(x8)).max() * span / (np.abs(y8).max() + 1e-9)
    w = dict(n=n, mode=mode, dtype=str(np.dtype(dt)))
    inside = (q >= x8[0]) & (q <= x8[-1])
    if ref is not None:
        mon.check('spline', np.abs(v - ref(q))[inside].max() < tol * amp, d=np.abs(v - ref(q))[inside].max(), tol=tol * amp, **w)
        if mode == 'natural':
            mon.check('spline_ends', np.abs(v - ref(q))[~inside].max() < 50 * tol * amp if (~inside).any() else True, d=np.abs(v - ref(q)).max(), **w)
    else:
        h = 1e-3 * np.diff(x8).min()
        for a, s in ((x8[0], 1), (x8[-1], -1)):
            p = a + s * h * np.arange(1, 5)
            d3 = np.diff(f(p), 3)[0]
            mon.check('spline_ends', abs(d3) < 1e-6 * (np.abs(y8).max() + 1), d3=d3, **w)
    mon.check('spline', np.abs(f(x8) - y8).max() < tol * amp, what='nodes', **w)
    mon.check('spline_elementwise', np.array_equal(np.array([f(np.array([a]))[0] for a in q]), v), **w)
    g = CubicSpline(x, y, fixextrap=True)
    nat = CubicSpline(x, y)
    vg = g(q)
    mon.check('spline', np.array_equal(vg[inside], nat(q)[inside]) and np.all(vg[q < x8[0]] == y[0]) and np.all(vg[q > x8[-1]] == y[-1]), what='fixextrap', **w)
    one = np.array([g(np.array([a]))[0] for a in q])
    mon.check('spline_elementwise', np.array_equal(one, vg) and np.all(g(x8[-1] + rng.uniform(0.1, 1, 3) * span) == y[-1]) and np.all(g(x8[0] - rng.uniform(0.1, 1, 3) * span) == y[0]), what='fixextrap', **w)
    kept(mon, (x, y), (cx, cy), **w)
    mon.distinct('spline', n, mode, str(np.dtype(dt)))


def k_interpol(case, mon, env, rng):
    from redmapper.utilities import interpol
    n = int(rng.choice([2, 3, 10, 50]))
    x = np.cumsum(rng.uniform(0.01, 1, n))
    y = rng.normal(size=n)
    q = np.concatenate([rng.uniform(x[0] - 1, x[-1] + 1, 50), x])[rng.permutation(50 + n)]
    c = (x.copy(), y.copy(), q.copy())
    v = interpol(y, x, q)
    want = np.interp(q, x, y)
    lo, hi = q < x[0], q > x[-1]
    want[lo] = y[0] + (q[lo] - x[0]) * (y[1] - y[0]) / (x[1] - x[0])
    want[hi] = y[-1] + (q[hi] - x[-1]) * (y[-1] - y[-2]) / (x[-1] - x[-2])
    mon.close('interpol', v, want, rtol=1e-9, atol=1e-9, n=n)
    mon.check('interpol', all(abs(interpol(y, x, float(a)) - b) < 1e-9 for a, b in zip(q[:5], v[:5])), what='scalar')
    kept(mon, (x, y, q), c)
    mon.distinct('interpol', n)


def k_nodes(case, mon, env, rng):
    from redmapper.utilities import make_nodes
    z0 = float(np.round(rng.uniform(0.01, 0.5), 3))
    width = float(rng.choice([0.03, 0.05, 0.1, 0.2, 0.5, 0.55, 0.8, 0.6123]))
    size = float(rng.choice([0.01, 0.04, 0.05, 0.1, 0.15, 0.2, 0.3]))
    zr = [z0, z0 + width]
    mx = None
    if case['j'] % 3 == 1:
        mx = float(zr[0] + width * rng.uniform(0.4, 0.9))
    elif case['j'] % 3 == 2:
        mx = float(rng.choice([-1.0, zr[1] + 0.2, zr[1]]))
    n = make_nodes(zr, size, maxnode=mx)
    w = dict(zrange=zr, nodesize=size, maxnode=mx, nodes=n)
    d = np.diff(n)
    top = zr[1] if mx is None or mx < 0 else min(mx, zr[1])
    ok = n.size >= 2 and abs(n[0] - zr[0]) < 1e-9 and abs(n[-1] - zr[1]) < 1e-9 and np.all(d > 0)
    mon.check('nodes', ok, **w)
    if not ok:
        return
    below = n[n <= top + 1e-9]
    mon.check('nodes', np.any(np.abs(n - top) < 1e-9) and np.all(np.diff(below) < 1.5 * size + 0.0101), what='gaps', **w)
    mon.check('nodes', zr == [z0, z0 + width], what='range kept')
    mon.distinct('nodes', round(width, 3), size, mx is None, n.size)


def k_cic(case, mon, env, rng):
    from redmapper.utilities import cic
    dim = case['j'] % 3 + 1
    nn = [int(rng.randint(2, 9)) for _ in range(dim)]
    m = int(rng.choice([1, 5, 60, 400]))
    pos = [rng.uniform(0, a, m) for a in nn]
    for p, a in zip(pos, nn):
        p[rng.uniform(size=m) < 0.1] = rng.randint(a) + 0.5
        p[rng.uniform(size=m) < 0.05] = float(rng.randint(a))
    v = rng.uniform(0.1, 3, m)
    iso = bool(case['j'] // 3 % 2)
    avg = bool(rng.randint(2))
    kw = {}
    for k, p, a in zip('xyz', pos, nn):
        kw['pos' + k], kw['n' + k] = p, a
    c = [p.copy() for p in pos] + [v.copy()]
    f = cic(v, average=avg, isolated=iso, **kw)
    want, tot = np.zeros(nn), np.zeros(nn)
    for i in range(m):
        ax = []
        for p, a in zip(pos, nn):
            b = np.arange(-1, a + 1)
            t = np.clip(1 - np.abs(b + 0.5 - p[i]), 0, None)
            if iso:
                ax.append(t[1:-1])
            else:
                u = t[1:-1].copy()
                u[-1] += t[0]
                u[0] += t[-1]
                ax.append(u)
        wt = ax[0]
        for q in ax[1:]:
            wt = np.multiply.outer(wt, q)
        want += wt * v[i]
        tot += wt
    if avg:
        want[tot != 0] /= tot[tot != 0]
    mon.close('cic', f, want.T, rtol=1e-9, atol=1e-10, dim=dim, iso=iso, avg=avg, m=m)
    if not avg:
        mon.check('cic_conserved', (abs(f.sum() - v.sum()) < 1e-8 * m) if not iso else f.sum() <= v.sum() + 1e-9, dim=dim, iso=iso, got=f.sum(), want=v.sum())
    else:
        mon.check('cic_conserved', f.min() >= 0 and f.max() <= v.max() + 1e-9, dim=dim)
    kept(mon, pos + [v], c)
    mon.distinct('cic', dim, tuple(nn), iso, avg, m)


def k_theta(case, mon, env, rng):
    from redmapper.utilities import calc_theta_i
    n = 80
    mag = rng.uniform(15, 24, n)
    err = 10**rng.uniform(-3, 0, n)
    lim = float(rng.uniform(19, 23))
    mx = float(rng.uniform(18, 24)) if case['j'] % 2 else rng.uniform(18, 24, n)
    c = (mag.copy(), err.copy())
    t = calc_theta_i(mag, err, mx, lim)
    eff = np.minimum(mx, lim) + np.zeros(n)
    want = scipy.stats.norm.cdf((eff - mag) / err)
    want[mag > lim] = 0
    mon.check('theta_i', np.abs(t - want).max() < 4e-7 and t.min() >= 0 and t.max() <= 1, d=np.abs(t - want).max(), lim=lim)
    kept(mon, (mag, err), c)
    mon.distinct('theta', case['j'])


def maskg(rng, n):
    g = types.SimpleNamespace()
    g.limmag = rng.uniform(20, 22.5, n)
    g.exptime = 10**rng.uniform(0.5, 3, n)
    g.zp = np.array([22.5]) if rng.randint(2) else np.array([30.0])
    if g.zp[0] == 30.0:
        g.exptime = g.exptime / 1000.
    g.nsig = np.array([float(rng.choice([5., 10., 20.]))])
    return g


def truth_noise(g, mag, er, s0, b=None, inlup=False):
    fl = 10.**(0.4 * (g.zp[0] - g.limmag))
    sky = np.maximum(fl**2 * g.exptime / g.nsig[0]**2 - fl, 0.001)
    if inlup:
        f = 2 * b * 1e9 * np.sinh(-np.log(b) - 0.4 * np.log(10.) * mag)
    else:
        f = 10.**(0.4 * (g.zp[0] - mag))
    nz = er * np.sqrt(sky / g.exptime + f / g.exptime)
    return f, np.sqrt(nz**2 + (s0 * np.log(10.) / 2.5 * f)**2)


def k_err(case, mon, env, rng):
    from redmapper.utilities import apply_errormodels
    n = 60
    g = maskg(rng, n)
    mag = rng.uniform(16, 23, n)
    er, s0 = float(rng.choice([1.0, 1.4])), float(rng.choice([0.0, 0.02]))
    b = 1.4e-10 if case['j'] % 3 == 1 else None
    inlup = bool(b is not None and rng.randint(2))
    if b is not None:
        g.zp = np.array([22.5])
        g.exptime = 10**rng.uniform(0.5, 3, n)
    fm = case['j'] % 3 == 2
    c = [x.copy() for x in (mag, g.limmag, g.exptime, g.zp, g.nsig)]
    m, e = apply_errormodels(g, mag, b=b, err_ratio=er, fluxmode=fm, nonoise=True, inlup=inlup, sigma0=s0)
    f, s = truth_noise(g, mag, er, s0, b, inlup)
    w = dict(b=b, fluxmode=fm, inlup=inlup, er=er, sigma0=s0, zp=g.zp[0])
    if fm:
        mon.close('errormodel', m, f, rtol=1e-9, **w)
        mon.close('errormodel', e, s, rtol=1e-9, **w)
    elif b is None:
        mon.close('errormodel', m, mag, rtol=1e-9, **w)
        mon.close('errormodel', e, 2.5 / np.log(10) * s / f, rtol=1e-9, **w)
    else:
        x = f / (2 * b * 1e9)
        want = -2.5 / np.log(10) * (np.arcsinh(x) + np.log(b))
        mon.close('errormodel', m, want, rtol=1e-8, **w)
        if inlup:
            mon.close('errormodel', m, mag, rtol=1e-7, what='lup round trip', **w)
        mon.close('errormodel', e, 2.5 / np.log(10) * s / (2 * b * 1e9) / np.sqrt(1 + x**2), rtol=1e-8, **w)
    # at the limiting magnitude the signal to noise is nsig (no extra noise)
    if b is None and not fm:
        m2, e2 = apply_errormodels(g, g.limmag.copy(), nonoise=True)
        ok = g.limmag < g.zp[0] + 2.5 * np.log10(g.exptime) - 2.5 * np.log10(g.nsig[0]**2) - 0.05
        mon.check('errormodel', np.all(np.abs(e2[ok] * np.log(10) / 2.5 * g.nsig[0] - 1) < 1e-5), what='limit', n=int(ok.sum()))
    kept(mon, (mag, g.limmag, g.exptime, g.zp, g.nsig), c)
    mon.distinct('err', b, fm, inlup, er, s0, g.zp[0])


def k_noise(case, mon, env, rng):
    """drawn noise has the stated size, is centred, and differs from galaxy to galaxy."""
    from redmapper.utilities import apply_errormodels
    n = 6000
    g = maskg(rng, n)
    mag = rng.uniform(17, 22, n)
    er = float(rng.choice([1.0, 1.3]))
    fl, e = apply_errormodels(g, mag, err_ratio=er, fluxmode=True)
    f, s = truth_noise(g, mag, er, 0.0)
    p = (fl - f) / s
    mon.check('errormodel_noise', abs(p.mean()) < 6 / np.sqrt(n) and abs(p.std() - 1) < 6 / np.sqrt(2 * n) and np.unique(p).size > 0.99 * n, mean=p.mean(), std=p.std())
    mon.check('errormodel_noise', abs(np.corrcoef(p[:-1], p[1:])[0, 1]) < 6 / np.sqrt(n))
    m, e = apply_errormodels(g, np.full(n, 27.), err_ratio=er)
    mon.check('errormodel_noise', np.all(np.isfinite(m)) and np.all(np.isfinite(e)) and np.all(e[m == 99.] == 99.), what='negative fluxes')
    fl, e = apply_errormodels(g, mag, err_ratio=er, fluxmode=True, lnscat=0.2)
    q = np.log(e / s)
    mon.check('errormodel_noise', abs(q.mean()) < 0.02 and abs(q.std() - 0.2) < 0.02, what='lnscat', mean=q.mean(), std=q.std())
    # the same through the depth module
    from redmapper.depth_fitting import applyErrorModel
    pars = np.zeros(1, dtype=[('EXPTIME', 'f4'), ('ZP', 'f4'), ('LIMMAG', 'f4'), ('NSIG', 'f4'), ('FSKY1', 'f4')])
    pars['EXPTIME'], pars['ZP'], pars['LIMMAG'], pars['NSIG'] = 200., 22.5, 21., 10.
    fl1 = 10**(0.4 * 1.5)
    pars['FSKY1'] = fl1**2 * 200. / 100. - fl1
    mag = rng.uniform(16, 19.5, n)
    m, e = applyErrorModel(pars, mag)
    f = 10**(0.4 * (22.5 - mag))
    s = np.sqrt(float(pars['FSKY1'][0]) / 200. + f / 200.)
    p = (10**(0.4 * (22.5 - m)) - f) / s
    mon.check('applied_noise', abs(p.mean()) < 6 / np.sqrt(n) and abs(p.std() - 1) < 6 / np.sqrt(2 * n), mean=p.mean(), std=p.std())
    m, e = applyErrorModel(pars, mag, noNoise=True)
    mon.close('applied_noise', m, mag, rtol=1e-6)
    mon.close('applied_noise', e, 2.5 / np.log(10) * s / f, rtol=1e-5)
    mon.distinct('noise', case['j'])


def k_depth(case, mon, env, rng):
    from redmapper.depth_fitting import calcErrorModel
    from redmapper import DepthLim
    lim, zp = float(rng.uniform(20, 23)), float(rng.choice([22.5, 25.0, 30.0]))
    nsig, cut = [(10.0, 5.0), (5.0, 4.0), (20.0, 5.0), (10.0, 9.0)][case['j'] % 4 if 'j' in case else rng.randint(4)]
    fl = 10**(0.4 * (zp - lim))
    xt = float(10**rng.uniform(0.5, 2.0)) * nsig**2 / fl / 2
    sky = fl**2 * xt / nsig**2 - fl
    n = int(rng.choice([500, 2000]))
    mag = lim + 0.6 - rng.exponential(1.2, n)

    def err(m):
        f = 10**(0.4 * (zp - m))
        return 2.5 / np.log(10) * np.sqrt(sky / xt + f / xt) / f
    e = err(mag) * np.exp(rng.normal(size=n) * 0.05)
    bad = rng.uniform(size=n) < 0.03
    e[bad] = rng.choice([np.nan, -1.0, 0.0, np.inf], bad.sum())
    faint = mag > lim - 0.5
    kind = rng.randint(3)
    if kind == 1:
        # no error given for half of the faint ones
        e[faint & (rng.uniform(size=n) < 0.5)] = 0.0
    elif kind == 2:
        # below the signal to noise asked for, errors mean nothing
        e[e > 2.5 / np.log(10) / cut] *= rng.uniform(2, 4)
    c = (mag.copy(), e.copy())
    w = dict(lim=lim, zp=zp, xt=xt, n=n)
    p, fail = calcErrorModel(mag, e, nSig=nsig, zp=zp, snCut=cut)
    kept(mon, (mag, e), c)
    for _ in range(5):
        if fail == 0:   # the minimiser may give up now and then, which it reports
            break
        u = rng.uniform(size=n) < 0.9
        p, fail = calcErrorModel(mag[u], e[u], nSig=nsig, zp=zp, snCut=cut)
    if not mon.check('depthfit', fail == 0, **w):
        return
    g = types.SimpleNamespace(limmag=np.full(50, float(p['LIMMAG'][0])), exptime=np.full(50, float(p['EXPTIME'][0])), zp=np.array([zp]), nsig=np.array([nsig]))
    mt = np.linspace(lim - 2.5, lim + 0.2, 50)
    f, s = truth_noise(g, mt, 1.0, 0.0)
    r = 2.5 / np.log(10) * s / f / err(mt)
    mon.check('depthfit', abs(p['LIMMAG'][0] - lim) < 0.08 and np.abs(np.log(r)).max() < 0.25, got=float(p['LIMMAG'][0]), ratio=[r.min(), r.max()], **w)
    mon.check('depthfit', p['ZP'][0] == np.float32(zp) and p['NSIG'][0] == nsig and abs(p['FLUX1_LIM'][0] / 10**(0.4 * (zp - float(p['LIMMAG'][0]))) - 1) < 1e-4, what='fields', **w)
    mon.check('depthfit', abs(p['FSKY1'][0] - (float(p['FLUX1_LIM'][0])**2 * float(p['EXPTIME'][0]) / nsig**2 - float(p['FLUX1_LIM'][0]))) < 1e-3 * (abs(float(p['FSKY1'][0])) + float(p['FLUX1_LIM'][0])), what='sky',
              got=float(p['FSKY1'][0]), **w)
    mon.check('depthfit', p['LIMMAG_ERR'][0] == 0 and p['EXPTIME_ERR'][0] == 0 and 0 <= p['FRAC_OUT'][0] <= 1, what='no errors asked', **w)
    if case.get('j', 0) % 2:
        # errors by resampling: small against the scatter, and the values stay the fitted ones (or the median of the samples)
        for boot in (False, True):
            pb, fb = calcErrorModel(mag, e, nSig=nsig, zp=zp, snCut=cut, calcErr=True, useBoot=boot, nTrial=20)
            if fb == 0:
                mon.check('depthfit_errors', 0 < pb['LIMMAG_ERR'][0] < 0.06 and pb['EXPTIME_ERR'][0] >= 0 and abs(pb['LIMMAG'][0] - lim) < 0.08, err=float(pb['LIMMAG_ERR'][0]), got=float(pb['LIMMAG'][0]), boot=boot, **w)
    o = rng.permutation(n)
    p2, fail2 = calcErrorModel(mag[o], e[o], nSig=nsig, zp=zp, snCut=cut)
    if fail2 == 0:
        mon.check('depthfit_order', abs(p2['LIMMAG'][0] - p['LIMMAG'][0]) < 0.01, got=float(p2['LIMMAG'][0]), want=float(p['LIMMAG'][0]))
    # nothing usable
    m0, f0 = calcErrorModel(mag[:20], np.full(20, 5.0), nSig=nsig, zp=zp, snCut=cut)
    mon.check('depthfit_fail', f0 == 1, got=f0)
    if nsig != 10.0:   # the class works at ten sigma
        mon.distinct('depth', round(lim, 1), zp, n)
        return
    # local depth, or the global one where it cannot be measured
    e22 = 2.5 / np.log(10) * np.sqrt(sky / xt + 10**(0.4 * (zp - mag)) / xt) / 10**(0.4 * (zp - mag))
    mm, ee = mag + 22.5 - zp, e22
    dl = None
    for _ in range(5):
        try:
            dl = DepthLim(mm, ee, max_gals=int(rng.choice([100, 100000])))
            break
        except RuntimeError:
            mm, ee = mm[:-n // 20], ee[:-n // 20]
    if not mon.check('depthlim', dl is not None, what='made'):
        return
    g = types.SimpleNamespace(limmag=np.zeros(30), exptime=np.zeros(30), zp=np.zeros(1), nsig=np.zeros(1))
    h = lim + 22.5 - zp
    dl.calc_maskdepth(g, mm[:50], np.full(50, 5.0))
    mon.check('depthlim', np.all(g.limmag == g.limmag[0]) and abs(g.limmag[0] - h) < 0.1 and g.zp[0] == 22.5 and g.nsig[0] == 10.0 and np.all(g.exptime == g.exptime[0]), what='global', got=g.limmag[0], want=h)
    # a shallower patch
    f = 10**(0.4 * (22.5 - (mm - 0.7)))
    e3 = 2.5 / np.log(10) * np.sqrt(sky / xt + f / xt) / f
    g.zp[:], g.nsig[:] = 0, 0
    dl.calc_maskdepth(g, mm - 0.7, e3 * 1.0)
    mon.check('depthlim', g.zp[0] == 22.5 and g.nsig[0] == 10.0, what='local', zp=g.zp[0], nsig=g.nsig[0])
    mon.check('depthlim', abs(g.limmag[0] - h) < 0.15, what='same depth, brighter sample', got=g.limmag[0], want=h)
    dl.calc_maskdepth(g, mm - 0.7, ee)
    mon.check('depthlim', abs(g.limmag[0] - (h - 0.7 * (calcErrorModel(mm - 0.7, ee)[1] == 0))) < 0.15 and np.all(g.limmag == g.limmag[0]), what='shallower', got=g.limmag[0], want=h - 0.7)
    try:
        DepthLim(mm[:20], np.full(20, 5.0))
        ok = False
    except RuntimeError:
        ok = True
    mon.check('depthfit_fail', ok, what='DepthLim')
    mon.distinct('depth', round(lim, 1), zp, n)


def k_pdf(case, mon, env, rng):
    from redmapper.utilities import chisq_pdf, schechter_pdf, nfw_pdf, gaussFunction, astro_to_sphere
    k = int(rng.randint(1, 8))
    x = rng.uniform(0.01, 40, 100)
    mon.close('chisq_pdf', chisq_pdf(x, k), scipy.stats.chi2.pdf(x, k), rtol=1e-9, k=k)
    al, ms = float(rng.uniform(-1.6, 0.)), float(rng.uniform(-2, 22))
    m = ms + rng.uniform(-4, 4, 100)
    L = 10**(-0.4 * (m - ms))
    mon.close('schechter_pdf', schechter_pdf(m, alpha=al, mstar=ms), L**(al + 1) * np.exp(-L), rtol=1e-9)
    rs, core = float(rng.choice([0.15, 0.15, 0.3])), 0.1 if rng.randint(2) else 0.05
    r = np.concatenate([rng.uniform(0.0, 2.0, 200), [rs, rs * 0.9995, rs * 1.0005, core, 5.0]])
    y = np.maximum(r, core) / rs
    with np.errstate(all='ignore'):
        lo = (1 - 2 / np.sqrt(1 - y**2) * np.arctanh(np.sqrt((1 - y) / (1 + y)))) / (y**2 - 1)
        hi = (1 - 2 / np.sqrt(y**2 - 1) * np.arctan(np.sqrt((y - 1) / (1 + y)))) / (y**2 - 1)
    want = np.where(np.abs(y - 1) < 1.01e-3, 1. / 3., np.where(y < 1, lo, hi))
    got = nfw_pdf(r, rscale=rs, corer=core)
    mon.check('nfw_pdf', np.abs(got / want - 1).max() < 1.5e-3 and np.all(np.abs(got / want - 1)[np.abs(y - 1) > 2e-3] < 1e-9), d=np.abs(got / want - 1).max(), rs=rs, core=core)
    mon.close('nfw_pdf', nfw_pdf(r, rscale=rs, corer=core, radfactor=True), got * 2 * np.pi * r, rtol=1e-9)
    mon.close('schechter_pdf', gaussFunction(m, 2.0, ms, 0.7), 2 * np.exp(-0.5 * ((m - ms) / 0.7)**2), rtol=1e-9, what='gauss')
    ra, dec = rng.uniform(0, 360, 20), rng.uniform(-90, 90, 20)
    t, p = astro_to_sphere(ra, dec)
    mon.check('chisq_pdf', np.allclose(np.cos(t), np.sin(np.radians(dec))) and np.allclose(p, np.radians(ra)), what='sphere')
    mon.distinct('pdf', k, rs, core)


def k_sample(case, mon, env, rng):
    from redmapper.utilities import sample_from_pdf, chisq_pdf, schechter_pdf, nfw_pdf
    which = case['j'] % 3
    f, ran, step, kw = [(chisq_pdf, [0.0, 20.0], 0.02, {'k': int(rng.randint(2, 6))}), (schechter_pdf, [-2.5, 2.0], 0.002, {'alpha': -0.8, 'mstar': 0.0}), (nfw_pdf, [1e-3, 1.5], 0.001, {'radfactor': True})][which]
    n = 5000
    s = sample_from_pdf(f, ran, step, n, **kw)
    x = np.arange(ran[0], ran[1], step)
    p = np.asarray(f(x, **kw), dtype=float)
    cdf = np.cumsum(p) / p.sum()
    fs = np.searchsorted(np.sort(s), x, side='right') / n
    d = np.abs(fs - cdf).max()
    mon.check('sampler', s.size == n and s.min() >= ran[0] and s.max() <= ran[1] and d < 2.2 / np.sqrt(n) + 3.0 / x.size + p.max() / p.sum(), d=d, which=which)
    mon.distinct('sample', which, case['j'])


def k_gauss(case, mon, env, rng):
    from redmapper.utilities import histoGauss
    mu, sg, n = float(rng.uniform(-3, 3)), float(10**rng.uniform(-1.5, 0.5)), 4000
    a = rng.normal(mu, sg, n)
    c = a.copy()
    k = histoGauss(None, a)
    mon.check('gaussfit', abs(k[1] - mu) < 0.12 * sg and abs(abs(k[2]) - sg) < 0.12 * sg, got=list(k), mu=mu, sg=sg)
    kept(mon, (a,), (c,))


def k_members(case, mon, env, rng):
    from redmapper.utilities import read_members
    d = env.tmp()
    base = os.path.join(d, str(rng.choice(['a', 'a.b', 'x_v1.2.3'])))
    m = np.zeros(int(rng.randint(1, 20)), dtype=[('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('P', 'f4')])
    m['P'] = rng.uniform(size=m.size)
    m['RA'] = rng.uniform(size=m.size)
    try:
        read_members(base + '.fit')
        ok = False
    except RuntimeError:
        ok = True
    mon.check('members_read', ok, what='missing')
    fitsio.write(base + '_members.fit', m)
    g = read_members(base + '.fit')
    mon.check('members_read', g.size == m.size and np.array_equal(g.p, m['P']) and np.array_equal(g.ra, m['RA']))
    mon.distinct('members', os.path.basename(base))


def k_template(case, mon, env, rng):
    import redmapper
    from redmapper.utilities import MStar, RedGalInitialColors
    d = os.path.join(os.path.dirname(redmapper.__file__), 'data')
    for fn in sorted(glob.glob(os.path.join(d, 'mstar', 'mstar_*.fit'))):
        survey, band = os.path.basename(fn)[6:-4].rsplit('_', 1)
        t = fitsio.read(fn, ext=1, upper=True)
        m = MStar(survey, band)
        mon.check('mstar', np.abs(m(t['Z'].astype(float)) - t['MSTAR']).max() < 1e-4, file=os.path.basename(fn))
        zt = np.linspace(max(0.05, float(t['Z'].min())), min(1.0, float(t['Z'].max())), 200)
        lin = np.interp(zt, t['Z'], t['MSTAR'])
        mon.check('mstar', np.abs(m(zt) - lin).max() < 0.1, what='between nodes', file=os.path.basename(fn), d=np.abs(m(zt) - lin).max())
        mon.check('mstar', abs(float(MStar(' %s ' % survey, band + ' ')(0.3)) - float(m(0.3))) == 0)
        mon.distinct('mstar', survey, band)
    for s, b in (('sdss', 'q'), ('nosurvey', 'i')):
        try:
            MStar(s, b)
            ok = False
        except IOError:
            ok = True
        mon.check('template_refused', ok, survey=s, band=b)
    for fn in sorted(glob.glob(os.path.join(d, 'initcolors', '*.fit'))):
        t = fitsio.read(fn, ext=1, lower=True)
        h = fitsio.read_header(fn, ext=1)
        b = h['BANDS'].rstrip()
        b = b.split(',') if ',' in b else list(b)
        c = RedGalInitialColors(os.path.basename(fn))
        for i in range(len(b) - 1):
            mon.check('colors', np.abs(c(b[i], b[i + 1], t['z']) - t['color'][:, i]).max() < 1e-5, file=os.path.basename(fn), color=i)
            zt = np.linspace(float(t['z'].min()), float(t['z'].max()), 77)
            mon.close('colors', c(b[i], b[i + 1], zt), np.interp(zt, t['z'], t['color'][:, i]), rtol=1e-4, atol=1e-4)
        mon.check('colors', abs(c.zmax - t['z'].max()) < 1e-6)
        for x, y in ((b[1], b[0]), (b[0], b[2])):
            try:
                c(x, y, np.array([0.3]))
                ok = False
            except ValueError:
                ok = True
            mon.check('template_refused', ok, bands=(x, y))
        # the same file by path
        mon.check('colors', np.array_equal(RedGalInitialColors(fn)(b[0], b[1], t['z']), c(b[0], b[1], t['z'])))
        mon.distinct('colors', os.path.basename(fn))
    try:
        RedGalInitialColors('not_there.fit')
        ok = False
    except IOError:
        ok = True
    mon.check('template_refused', ok)
