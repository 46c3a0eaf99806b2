"""C25: diagnostic figures show the catalogue they are given (artists are read from the figure before it is saved)."""
import os
import re
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np
import rmx

RULE = ('one generated catalogue (keyed by kind of figure, number of clusters, redshift range, bin size, members, area curve) given to a plotting class, '
        'every artist read from the figure at the moment it is saved')
REQUIRED = {'spec_outliers': 10, 'spec_fraction': 10, 'spec_lines': 10, 'spec_map': 5, 'spec_members': 8, 'no_spectra': 5, 'nz_density': 10, 'nz_pz': 3, 'nlambda': 8, 'positions': 8,
            'figure_file': 30, 'inputs_kept': 30, 'figures_closed': 30}
BUDGET = {'quick': 300, 'thorough': 800}
ASSUMPTIONS = ['matplotlib draws the data its artists hold', 'catalogue values do not lie within float rounding of a bin edge']


def plan(tier, seed):
    n = 40 if tier == 'quick' else 300
    return [{'what': w, 'j': j, 'seed': seed * 3571 + 17 * j + k} for j in range(n) for k, w in enumerate(('spec', 'members', 'nz', 'redmagic', 'nlambda', 'positions'))]


class Spy(object):
    """Records (file name, figure data) of every saved figure."""

    def __enter__(self):
        import matplotlib.figure as mf
        self.saved = []
        self.orig = mf.Figure.savefig
        spy = self

        def savefig(fig, fname, *a, **k):
            spy.saved.append((os.path.abspath(str(fname)), data(fig)))
            k.setdefault('dpi', 30)
            return spy.orig(fig, fname, *a, **k)
        mf.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        import matplotlib.figure as mf
        mf.Figure.savefig = self.orig


def data(fig):
    out = []
    for ax in fig.axes:
        segs = []
        for c in ax.collections:
            if type(c).__name__ == 'LineCollection':
                segs += [np.array(s) for s in c.get_segments()]
        out.append({'lines': [(np.array(l.get_xdata(orig=True), dtype=float), np.array(l.get_ydata(orig=True), dtype=float)) for l in ax.lines], 'segments': segs,
                    'texts': [t.get_text() for t in ax.texts], 'bars': [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches if hasattr(p, 'get_height')],
                    'paths': [v for c in ax.collections if type(c).__name__ != 'LineCollection' for p in c.get_paths() for v in [np.array(p.vertices)] if len(v)],
                    'xlim': tuple(ax.get_xlim()), 'ylim': tuple(ax.get_ylim()), 'xy': (ax.get_xlabel(), ax.get_ylabel(), ax.get_title())})
    return out


def has_line(axs, x, y, tol=1e-6):
    """Is one of the lines exactly these points, in whatever order?"""
    o = np.lexsort((y, x))
    for a in axs:
        for lx, ly in a['lines']:
            if lx.size == x.size:
                p = np.lexsort((ly, lx))
                if np.allclose(lx[p], x[o], rtol=1e-6, atol=tol) and np.allclose(ly[p], y[o], rtol=1e-5, atol=tol):
                    return True
    return False


def conf(rng, env, d):
    from redmapper import Configuration
    zr = [round(float(rng.uniform(0.05, 0.2)), 3), round(float(rng.uniform(0.4, 0.9)), 3)]
    return Configuration(rmx.test_yaml(env, d, outbase='plots%d' % rng.randint(5), zrange=zr, redmagic_zrange=zr))


def in_bins(rng, n, lo, hi, size, few=False):
    """Redshifts well inside the bins [lo + k size)."""
    nb = int((hi - lo) / size)
    w = rng.dirichlet(np.ones(nb) * (0.2 if few else 1.0))
    return lo + (rng.choice(nb, size=n, p=w) + 0.5 + rng.uniform(-0.4, 0.4, n)) * size


def volume(z1, z2):
    def dc(z):
        x = np.linspace(0, z, 2001)
        y = 1. / np.sqrt(0.3 * (1 + x)**3 + 0.7)
        h = x[1] - x[0]
        return 2997.92458 * h / 3 * (y[0] + y[-1] + 4 * y[1:-1:2].sum() + 2 * y[2:-1:2].sum()) if z > 0 else 0.0
    return 4 * np.pi / 3 * (dc(z2)**3 - dc(z1)**3)


def expected_file(c, name, withversion):
    return os.path.abspath(os.path.join(c.outpath, c.plotpath, '%s%s_%s.png' % (c.d.outbase, '_redmapper_v%s' % c.version if withversion else '', name)))


def after(mon, spy, files, **wit):
    import matplotlib.pyplot as plt
    mon.check('figure_file', [s[0] for s in spy.saved] == files and all(os.path.getsize(f) > 500 for f in files), got=[s[0] for s in spy.saved], want=files, **wit)
    mon.check('figures_closed', not plt.get_fignums(), open=plt.get_fignums(), **wit)
    plt.close('all')


def judge_spec(mon, ax, zs, zp, ze, size, nsig, zmax, **wit):
    """The figure of the pairs (zs, zp +- ze) with zs > 0."""
    u = zs > 0
    a, b, e = zs[u].astype(float), zp[u].astype(float), ze[u].astype(float)
    pull = np.abs(b - a) / e
    if np.any(np.abs(pull / nsig - 1) < 1e-4):
        return
    bad = pull > nsig
    if bad.any():
        mon.check('spec_outliers', has_line(ax, b[bad], a[bad]), outliers=int(bad.sum()), n=int(u.sum()), **wit)
    else:
        mon.check('spec_outliers', not any(lx.size == 1 for x in ax[:1] for lx, _ in x['lines']), outliers=0, **wit)
    nums = [float(x) for t in ax for s in t['texts'] for x in re.findall(r'\d+\.\d+', s)]
    mon.check('spec_fraction', any(abs(x - bad.mean()) < 1.01e-4 for x in nums), want=float(bad.mean()), got=nums, **wit)
    k = np.floor(b / size + 1e-9).astype(int)
    nb = int(round(max(k.max() + 1, zmax / size))) + 1
    cen = (np.arange(nb) + 0.5) * size
    bias, sca, err = np.zeros(nb), np.zeros(nb), np.zeros(nb)
    for i in range(nb):
        m = k == i
        if m.sum() >= 3:
            bias[i] = np.median(a[m] - b[m])
            sca[i] = 1.4862 * np.median(np.abs(a[m] - b[m] - bias[i]))
            err[i] = np.median(e[m])
    inside = cen + size / 2 < zmax - 0.002
    want = {'bias': bias, 'scatter': sca / (1 + cen), 'error': err / (1 + cen)}
    for name, w in want.items():
        ok = False
        for x in ax:
            for lx, ly in x['lines']:
                if lx.size >= inside.sum() and lx.size > 2:
                    at = {int(round(p / size - 0.5)): q for p, q in zip(lx, ly)}
                    if np.allclose(lx, (np.round(lx / size - 0.5) + 0.5) * size, atol=1e-6) and all(i in at and abs(at[i] - w[i]) < 2e-6 + 1e-4 * abs(w[i]) for i in np.where(inside)[0]):
                        ok = True
        mon.check('spec_lines', ok, line=name, bins=int(inside.sum()), n=int(u.sum()), **wit)


def run_case(case, mon, env):
    from redmapper.catalog import Catalog
    from redmapper.plotting import SpecPlot, NzPlot, NLambdaPlot, PositionPlot
    rng = np.random.RandomState(case['seed'] % 2**31)
    np.random.seed(case['seed'] % 2**31)
    d = env.tmp()
    c = conf(rng, env, d)
    ver = bool(rng.randint(2))
    w = case['what']
    wit = dict(what=w)
    with Spy() as spy:
        if w in ('spec', 'members'):
            n = int(rng.choice([1, 2, 5, 40, 400]))
            size = float(rng.choice([0.01, 0.02, 0.05]))
            nsig = float(rng.choice([2., 4.]))
            zmax = float(c.zrange[1])
            cat = Catalog(np.zeros(n, dtype=[('mem_match_id', 'i4'), ('z_lambda', 'f4'), ('z_lambda_e', 'f4'), ('cg_spec_z', 'f4')]))
            cat.mem_match_id = rng.permutation(n * 3)[:n] + 1
            cat.z_lambda = in_bins(rng, n, 0.0, zmax - 0.01, size)
            cat.z_lambda_e = rng.uniform(0.003, 0.02, n)
            cat.cg_spec_z = np.clip(cat.z_lambda + rng.choice([1., 1., 6.], n) * rng.normal(0, 1, n) * cat.z_lambda_e, 0.001, None)
            none = rng.uniform(size=n) < rng.choice([0.0, 0.4, 1.0], p=[0.4, 0.4, 0.2])
            cat.cg_spec_z[none] = -1.0
            zs = cat.cg_spec_z.copy()
            sp = SpecPlot(c, binsize=size, nsig=nsig)
            if w == 'members':
                zs = np.zeros(n)
                rows = []
                for i in range(n):
                    for _ in range(int(rng.choice([0, 1, 2, 5, 8])) if not none[i] else 0):
                        z = cat.z_lambda[i] + rng.normal(0, 5 * cat.z_lambda_e[i])
                        rows.append((cat.mem_match_id[i], z if rng.uniform() < 0.8 and z > 0.001 else -1.0))
                rows += [(10**6 + i, 0.3) for i in range(rng.randint(3))]
                mem = Catalog(np.array([rows[i] for i in rng.permutation(len(rows))] if rows else [], dtype=[('mem_match_id', 'i4'), ('zspec', 'f4')]))
                if mem.size == 0:
                    mem = Catalog(np.zeros(0, dtype=[('mem_match_id', 'i4'), ('zspec', 'f4')]))
                for i in range(n):
                    z = mem.zspec[(mem.mem_match_id == cat.mem_match_id[i]) & (mem.zspec > 0)]
                    zs[i] = np.median(z) if z.size else 0.0
                zs = zs.astype('f4').astype(float) if mem.size else zs
                keep = cat._ndarray.copy(), mem._ndarray.copy()
                fig = sp.plot_cluster_catalog_from_members(cat, mem, title='t', withversion=ver)
                mon.check('inputs_kept', np.array_equal(keep[0], cat._ndarray) and np.array_equal(keep[1], mem._ndarray), **wit)
            else:
                keep = cat._ndarray.copy()
                if rng.randint(3):
                    sp.plot_cluster_catalog(cat, title='t', withversion=ver)
                else:
                    sp.plot_values(cat.cg_spec_z, cat.z_lambda, cat.z_lambda_e, title='t', calib_zrange=[0.2, 0.4], withversion=ver)
                mon.check('inputs_kept', np.array_equal(keep, cat._ndarray), **wit)
            if not (zs > 0).any():
                mon.check('no_spectra', len(spy.saved) <= 1, n=n, **wit)
                import matplotlib.pyplot as plt
                plt.close('all')
            else:
                after(mon, spy, [expected_file(c, 'zspec', ver)], n=n, **wit)
                ax = spy.saved[0][1] if spy.saved else []
                judge_spec(mon, ax, zs, cat.z_lambda, cat.z_lambda_e, size, nsig, zmax, **wit)
                if w == 'members':
                    u = zs > 0
                    pull = np.abs(zs - cat.z_lambda)[u] / cat.z_lambda_e[u]
                    sp2 = SpecPlot(c, binsize=size, nsig=-1.0)
                    sp2.plot_cluster_catalog_from_members(cat, mem, title='t')
                    mon.check('spec_members', has_line(spy.saved[-1][1], cat.z_lambda[u].astype(float), zs[u], 1e-6), clusters=int(u.sum()), **wit)
                # the density map peaks where the pairs are
                if n >= 40 and w == 'spec':
                    off = float(rng.uniform(-0.06, 0.06))
                    zp = rng.uniform(0.15, 0.75, 3000)
                    zb, zm = sp._make_photoz_map(zp + off + rng.normal(0, 0.01, 3000), zp)
                    pk = [zb[np.argmax(zm[np.argmin(np.abs(zb - z))])] - z for z in (0.25, 0.4, 0.55, 0.7)]
                    mon.check('spec_map', zm.shape == (zb.size, zb.size) and np.all(zm >= -1e-9) and np.all(zm <= 1 + 1e-9) and np.all(np.abs(np.array(pk) - off) < 0.03) and
                              zm[np.abs(zb - 1.1) < 0.05].max() < 1e-9, off=off, got=pk, **wit)
        elif w in ('nz', 'redmagic'):
            size = float(rng.choice([0.02, 0.03, 0.05]))
            zr = [float(x) for x in c.zrange]
            if rng.randint(2):
                zr[1] = zr[0] + size * int((zr[1] - zr[0]) / size)
            n = int(rng.choice([60, 600, 4000]))
            az = np.arange(0.0, 1.0, 0.002)
            top = float(rng.uniform(20, 3000))
            at = top * np.clip(1 - rng.uniform(0, 1.0) * az, 0.05, None)
            ar = Catalog(np.zeros(az.size, dtype=[('z', 'f4'), ('area', 'f4')]))
            ar.z, ar.area = az, at
            z = in_bins(rng, n, zr[0] - 2 * size, zr[1] + 2 * size, size, few=n == 60)
            if abs((zr[1] - zr[0]) / size % 1) > 1e-6:
                z = z[np.abs(z - zr[1]) > 0.006]
            z = z[z > 0.001]
            nz = NzPlot(c, binsize=size)
            pz = w == 'nz' and rng.uniform() < 0.5
            if w == 'redmagic':
                cat = Catalog(np.zeros(z.size, dtype=[('zredmagic', 'f4'), ('zredmagic_samp', 'f4', (3,))]))
                cat.zredmagic = rng.uniform(0.2, 0.6, z.size)
                cat.zredmagic_samp[:, 0] = z
                cat.zredmagic_samp[:, 1:] = rng.uniform(0.1, 0.2, (z.size, 2))
            else:
                c.zrange = zr
                cat = Catalog(np.zeros(z.size, dtype=[('z_lambda', 'f4'), ('pzbins', 'f4', (21,)), ('pz', 'f4', (21,))]))
                cat.z_lambda = z if not pz else 0.3
                x = np.linspace(-0.05, 0.05, 21) * size
                cat.pzbins = z[:, None] + x[None, :]
                cat.pz[:, :] = np.exp(-0.5 * (x / (0.02 * size))**2)
            keep = cat._ndarray.copy(), ar._ndarray.copy()
            name = 'nz'
            if w == 'redmagic':
                eta, n0, extra = float(rng.choice([0.5, 1.0])), float(rng.choice([5., 10.])), [None, 'calib'][rng.randint(2)]
                nz.plot_redmagic_catalog(cat, 'hl', eta, n0, ar, zrange=zr, extraname=extra, withversion=ver)
                name = 'redmagic_%shl_%3.1f-%02d_nz' % ('calib_' if extra else '', eta, n0)
            else:
                nz.plot_cluster_catalog(cat, ar, nosamp=not pz, withversion=ver)
            mon.check('inputs_kept', np.array_equal(keep[0], cat._ndarray) and np.array_equal(keep[1], ar._ndarray), **wit)
            after(mon, spy, [expected_file(c, name, ver)], n=n, **wit)
            judge_nz(mon, spy.saved[0][1] if spy.saved else [], z, az, at, zr, size, 'nz_density', pz=bool(pz), **wit)
            if w == 'nz' and n == 600:
                # wide p(z)
                m = 3000
                cat = Catalog(np.zeros(m, dtype=[('z_lambda', 'f4'), ('pzbins', 'f4', (21,)), ('pz', 'f4', (21,))]))
                mid = 0.5 * (zr[0] + zr[1])
                cat.pzbins = np.linspace(mid - 0.12, mid + 0.12, 21)
                wd, sk = rng.uniform(0.02, 0.05), rng.uniform(-0.04, 0.04)
                # ... but for a part of them, on the other side
                pz1, pz2 = [np.exp(-0.5 * ((cat.pzbins[0] - mid - o) / wd)**2) for o in (sk, -sk)]
                part = rng.uniform(size=m) < 0.3
                cat.pz = np.where(part[:, None], pz2[None, :], pz1[None, :])
                nz.plot_cluster_catalog(cat, ar)
                x = np.linspace(mid - 0.12, mid + 0.12, 20001)
                p1, p2 = [np.interp(x, cat.pzbins[0].astype(float), q.astype(float)) for q in (pz1, pz2)]
                p = p1 / p1.sum() * (~part).mean() + p2 / p2.sum() * part.mean()
                cdf = np.cumsum(p) / p.sum()
                exp = lambda q: np.interp(q, x, cdf)
                ok, got = True, 0
                for lx, ly in [l for a in spy.saved[-1][1] for l in a['lines']]:
                    for zc, y in zip(lx, ly):
                        lo, hi = max(zc - size / 2, zr[0]), min(zc + size / 2, zr[1])
                        cnt = y * 1e-4 * volume(lo, hi) * np.interp(zc, az, at) / 41252.961
                        got += cnt
                        pr = exp(hi) - exp(lo)
                        sh = 0.01 + 0.004 / (2.5 * wd)
                        ok = ok and abs(cnt - m * pr) < 5 * np.sqrt(m * pr + 1) + m * sh + 0.01 * cnt
                mon.check('nz_pz', ok and got > 0.8 * m, shown=got, of=m, **wit)
        elif w == 'nlambda':
            n = int(rng.choice([1, 20, 3000]))
            size = float(rng.choice([1.0, 2.0, 5.0]))
            lam = np.floor(rng.exponential(20, n) + 5) + rng.uniform(0.1, 0.9, n)
            cat = Catalog(np.zeros(n, dtype=[('lambda', 'f4'), ('scaleval', 'f4')]))
            cat.Lambda, cat.scaleval = lam, rng.uniform(1, 2, n)
            keep = cat._ndarray.copy()
            NLambdaPlot(c, binsize=size).plot_cluster_catalog(cat, withversion=ver)
            mon.check('inputs_kept', np.array_equal(keep, cat._ndarray), **wit)
            after(mon, spy, [expected_file(c, 'nlambda', ver)], n=n, **wit)
            bars = spy.saved[0][1][0]['bars'] if spy.saved else []
            ok = sum(b[2] for b in bars) == (lam < np.floor(199 / size) * size).sum() and all(abs(b[1] - size) < 1e-6 for b in bars)
            ok = ok and all(b[2] == ((cat.Lambda >= b[0] - 1e-6) & (cat.Lambda < b[0] + size - 1e-6)).sum() for b in bars)
            mon.check('nlambda', ok, n=n, size=size, **wit)
        else:
            n = int(rng.choice([1, 30, 2000]))
            wrap = bool(rng.randint(2))
            ra = (rng.uniform(-20, 20, n) % 360 if wrap else rng.uniform(50, 120, n))
            cat = Catalog(np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8')]))
            cat.ra, cat.dec = ra, rng.uniform(-60, 60, n)
            keep = cat._ndarray.copy()
            PositionPlot(c).plot_cluster_catalog(cat, withversion=ver)
            mon.check('inputs_kept', np.array_equal(keep, cat._ndarray), **wit)
            after(mon, spy, [expected_file(c, 'positions', ver)], n=n, **wit)
            ok = False
            for lx, ly in (spy.saved[0][1][0]['lines'] if spy.saved else []):
                if lx.size == n and np.array_equal(ly, cat.dec):
                    sh = (lx - ra) % 360
                    sh = np.minimum(np.abs(sh - sh[0]), 360 - np.abs(sh - sh[0]))
                    # one common rotation, and no break inside the survey
                    ok = np.all(sh < 1e-9) and (np.ptp(lx) <= 70 if n > 1 else True)
            mon.check('positions', ok and spy.saved[0][1][0]['xlim'][0] > spy.saved[0][1][0]['xlim'][1], n=n, wrap=wrap, **wit)
    mon.distinct('figure', w, len(spy.saved), case['j'])
    mon.sample({'what': w, 'figures': len(spy.saved)})


def judge_nz(mon, axs, z, az, at, zr, size, name, **wit):
    nb = int(np.ceil((zr[1] - zr[0]) / size - 1e-6))
    lo = zr[0] + np.arange(nb) * size
    hi = np.minimum(lo + size, zr[1])
    h = np.array([((z >= a) & (z < b)).sum() for a, b in zip(lo, hi)])
    lines = [l for a in axs for l in a['lines']]
    segs = [s for a in axs for s in a['segments']]
    shown = {}
    for lx, ly in lines:
        for x, y in zip(lx, ly):
            shown[int(np.floor((x - zr[0]) / size + 1e-6))] = (x, y)
    wrong = []
    for i in range(nb):
        if h[i] == 25:
            continue
        if (i in shown) != (h[i] > 25):
            wrong.append((i, int(h[i]), 'shown' if i in shown else 'missing'))
            continue
        if i in shown:
            zc = lo[i] + size / 2
            near = np.abs(az - zc) < 0.005
            v = volume(lo[i], hi[i]) / 41252.961
            dmin, dmax = h[i] / (v * at[near].max()) * 1e4, h[i] / (v * at[near].min()) * 1e4
            x, y = shown[i]
            if not (abs(x - zc) < 1e-6 and dmin * 0.998 <= y <= dmax * 1.002):
                wrong.append((i, int(h[i]), y, dmin, dmax))
                continue
            e = y / np.sqrt(h[i])
            if not any(abs(s[0][0] - x) < 1e-9 and abs(abs(s[1][1] - s[0][1]) - 2 * e) < 1e-3 * e for s in segs if len(s) == 2):
                wrong.append((i, int(h[i]), 'error bar', e))
    mon.check(name, not wrong and all(0 <= i < nb for i in shown), wrong=wrong[:4], bins=nb, n=int(z.size), shown=len(shown), **wit)
