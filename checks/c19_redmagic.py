"""C19: redMaGiC selects the galaxies its calibration describes, everywhere, at the density asked for."""
import os
import numpy as np
import fitsio
import hpgeom as hpg
from scipy.interpolate import CubicSpline as CS
import rmx
import skygen
import world

RULE = ('one generated survey with red galaxies, photometric redshifts and a calibration of 1-3 selections, keyed by (kind, region, volume-limit kind, '
        'afterburner, number of selections), taken through the selector, the run over a pixelised table, the parameter fit or the whole calibration')
REQUIRED = {'selected': 30, 'values': 30, 'zspec': 15, 'per_galaxy': 10, 'inputs_untouched': 20, 'unknown_mode': 8, 'run_union': 8, 'run_clobber': 4, 'run_randoms': 6,
            'cost': 40, 'cost_pure': 12, 'fit_improves': 6, 'bias': 4, 'calib_file': 2, 'calib_density': 2, 'calib_bias': 2, 'calib_run': 2}
BUDGET = {'quick': 600, 'thorough': 850}
ASSUMPTIONS = ['m*(z) is that of the parameter file (judged by C10) and the volume limit that of the mask (judged by C16)',
               'galaxies within 1e-5 of a cut in redshift, magnitude or chi-squared may fall on either side',
               'calibrated densities are judged on smooth populations with at least twice the requested density']
NS = 6


def plan(tier, seed):
    n = 18 if tier == 'quick' else 120
    regs = sorted(skygen.REGIONS)
    out = [{'kind': 'select', 'region': regs[j % len(regs)], 'vmask': ('depth', 'fixed', 'geom')[j % 3], 'spec': ('ztrue', 'zspec', 'file')[(j // 3) % 3],
            'seed': seed * 5303 + j} for j in range(n)]
    m = 8 if tier == 'quick' else 40
    out += [{'kind': 'task', 'region': regs[j % len(regs)], 'vmask': ('depth', 'depth', 'fixed', 'geom')[j % 4], 'seed': seed * 5303 + 10000 + j} for j in range(m)]
    out += [{'kind': 'fitter', 'region': 'eq', 'ab': bool(j % 2), 'seed': seed * 5303 + 20000 + j} for j in range(m)]
    c = 3 if tier == 'quick' else 12
    out += [{'kind': 'calib', 'region': regs[(j + seed) % len(regs)], 'vmask': ('depth', 'fixed', 'geom')[j % 3], 'const': j % 5 == 4, 'seed': seed * 5303 + 30000 + j} for j in range(c)]
    # the long ones first
    return out[::-1]


def run_case(case, mon, env):
    import matplotlib
    matplotlib.use('Agg')
    rng = np.random.RandomState(case['seed'] % 2**31)
    np.random.seed(case['seed'] % 2**31)
    globals()['do_' + case['kind']](rng, case, mon, env, env.tmp())


# ------------------------------------------------------------------------------------------------ world
def bump(rng, amp, lo=0.05, hi=0.5):
    x = np.linspace(lo, hi, 5)
    return CS(x, rng.uniform(-amp, amp, 5), bc_type='natural')


def population(rng, zr, n, region, size, zlo=0.05, zhi=0.55, vol=False, bias=None, escale=1.0, twidth=6.0):
    """galaxies with photometric redshifts of known bias and error scale."""
    g = rmx.red_galaxies(rng, n, region, size, zr, blue=0.0)
    if vol:
        # constant comoving density
        x = np.linspace(zlo, zhi, 400)
        d = np.cumsum(np.gradient(np.array([vsphere(v) for v in x])))
        z = np.interp(rng.uniform(0, d[-1], n), d, x)
    else:
        z = rng.uniform(zlo, zhi, n)
    ms = zr.mstar(z)
    dm = rng.uniform(-1.6, 1.9, n)
    shift = ms + dm - g['refmag']
    g['refmag'] += shift
    g['mag'] += shift[:, None]
    g['ztrue'] = z
    e = rng.uniform(0.004, 0.02, n)
    q = np.zeros(n, dtype=rmx.ZRED_DT + [('zred_samp', 'f4', NS)])
    zu = z + rng.normal(size=n) * e * escale
    if bias is not None:
        zu = zu + bias(z)
    q['zred_uncorr'], q['zred_uncorr_e'] = zu, e
    q['zred'], q['zred_e'] = zu + 0.003, 0.9 * e
    q['zred2'], q['zred2_e'] = zu - 0.002, e
    q['chisq'] = rng.exponential(twidth, n)
    q['lkhd'] = -0.5 * q['chisq']
    q['zred_samp'] = zu[:, None] + rng.normal(size=(n, NS)) * e[:, None]
    return g, q


def vsphere(z, om=0.3):
    """comoving volume (Mpc/h)^3 out to z over the whole sky, flat LCDM."""
    x = np.linspace(0, z, 801)
    dc = np.trapz(1. / np.sqrt(om * (1 + x)**3 + 1 - om), x) * world.C_KM / 100.
    return 4. / 3. * np.pi * dc**3


def maps(rng, d, region, size, kind, deep=False, nside=128):
    """depth map or footprint; returns the configuration entries."""
    pix = hpg.query_circle(nside, skygen.REGIONS[region][0], skygen.REGIONS[region][1], size / 2. + 0.3, nest=True)
    if not deep:
        pix = pix[rng.uniform(size=pix.size) > 0.15]
    over = dict(zred_nsamp=NS, hpix=None, nside=None, border=0.0, depthfile=None, maskfile=None, vlim_depthfiles=None, vlim_bands=None, vlim_nsigs=None, area=float(np.pi * size**2 / 4))
    if kind == 'depth':
        dv = np.zeros(pix.size, dtype=rmx.DEPTH_DT)
        dv['fracgood'] = 1.0 if deep else rng.uniform(0.3, 1.0, pix.size)
        dv['exptime'] = 60.
        dv['m50'] = 26. if deep else rng.uniform(17.5, 22.5, pix.size)
        dv['limmag'] = dv['m50'] - 0.4
        over['depthfile'] = os.path.join(d, 'depth.hsp')
        rmx.write_depth(over['depthfile'], 32, nside, pix, dv)
    elif kind == 'geom':
        over['maskfile'] = os.path.join(d, 'mask.hsp')
        rmx.write_mask(over['maskfile'], 32, nside, pix, np.ones(pix.size) if deep else rng.uniform(0.3, 1.0, pix.size))
    return over, pix


def write_calib(rng, fn, names, etas, vfiles, binary=True):
    """a calibration file with one extension per selection."""
    cal = {}
    for k, nm in enumerate(names):
        lo = float(rng.uniform(0.08, 0.15))
        hi = float(rng.uniform(0.3, 0.48))
        nodes = np.linspace(lo, hi, rng.randint(3, 7))
        cn = np.linspace(lo, hi, rng.randint(3, 6))
        c = dict(zrange=[lo - 0.05, hi + 0.05], cost_zrange=[lo, hi], lstar_cushion=0.05, z_cushion=float(rng.choice([0.0, 0.02, 0.05])), maxchi=float(rng.choice([8.0, 20.0])),
                 nodes=nodes, etamin=float(etas[k]), n0=10.0, cmax=rng.uniform(-1.0, 12.0, nodes.size), corrnodes=cn, run_afterburner=int(rng.randint(2)),
                 apply_afterburner=int(rng.randint(2)), buffer=float(rng.choice([0.0, 0.03, 0.05])), bias=rng.uniform(-0.03, 0.03, cn.size),
                 eratio=rng.uniform(0.5, 1.5, cn.size), name=nm, vmaskfile=vfiles[k])
        t = np.zeros(1, dtype=[('zrange', 'f4', 2), ('cost_zrange', 'f4', 2), ('lstar_cushion', 'f4'), ('z_cushion', 'f4'), ('name', 'S%d' % (len(nm) + 1)), ('maxchi', 'f4'),
                               ('nodes', 'f8', nodes.size), ('etamin', 'f8'), ('n0', 'f8'), ('cmax', 'f8', nodes.size), ('corrnodes', 'f8', cn.size), ('run_afterburner', 'i2'),
                               ('apply_afterburner', 'i2'), ('buffer', 'f4'), ('bias', 'f8', cn.size), ('eratio', 'f8', cn.size), ('vmaskfile', 'S%d' % (len(vfiles[k]) + 1))])
        for key, v in c.items():
            t[key][0] = v
        fitsio.write(fn, t, extname=nm, clobber=k == 0)
        cal[nm] = c
    return cal


def flat(x, nodes, y):
    """natural spline held constant beyond the first and last node."""
    return CS(nodes, y, bc_type='natural')(np.clip(x, nodes[0], nodes[-1]))


def oracle(c, g, q, zr, zmax):
    """(certainly selected, possibly selected, redshift, error, samples, luminosity) of every galaxy."""
    z = q['zred_uncorr'].astype('f8')
    e = q['zred_uncorr_e'].astype('f8')
    s = q['zred_samp'].astype('f8')
    pad = c['z_cushion'] + c['buffer']
    zm, ze, sm = z.copy(), e.copy(), s.copy()
    if c['run_afterburner']:
        off = flat(z, c['corrnodes'], c['bias'])
        zm = z - off
        ze = e * flat(z, c['corrnodes'], c['eratio'])
        if c['apply_afterburner']:
            sm = s - off[:, None]
    rm = g['refmag'].astype('f8')
    chi = q['chisq'].astype('f8')
    cm = np.clip(flat(z, c['nodes'], c['cmax']), 0.1, c['maxchi'])
    ms = zr.mstar(zm)

    def around(x):
        # m* is tabulated: a redshift within rounding of a step may take either value
        v = [zr.mstar(x + dx) for dx in (-2e-6, 0.0, 2e-6)]
        return np.min(v, axis=0), np.max(v, axis=0)
    a0, b0 = around(z)
    a1, b1 = around(zm)
    m = np.min([z - (c['cost_zrange'][0] - pad), (c['cost_zrange'][1] + pad) - z, c['maxchi'] - chi, cm - chi,
                zmax - zm], axis=0)
    l0, l1 = -2.5 * np.log10(max(c['etamin'] - c['lstar_cushion'], 0.1)), -2.5 * np.log10(c['etamin'])
    sure = np.min([m, a0 + l0 - rm, a1 + l1 - rm], axis=0) > 2e-5
    poss = np.min([m, b0 + l0 - rm, b1 + l1 - rm], axis=0) > -2e-5
    return sure, poss, zm, ze, sm, 10.**(0.4 * (a1 - rm)), 10.**(0.4 * (b1 - rm))


def judge(mon, cat, c, g, q, zr, zmax, zspec, wit):
    """a selected catalogue against the galaxies it was selected from (ids identify them)."""
    sure, poss, zm, ze, sm, lum, lumx = oracle(c, g, q, zr, zmax)
    o = cat._ndarray if hasattr(cat, '_ndarray') else cat
    st = np.argsort(g['id'])
    k = st[np.clip(np.searchsorted(g['id'][st], o['id']), 0, g.size - 1)] if o.size else np.zeros(0, dtype=int)
    ok = np.all(g['id'][k] == o['id']) and np.unique(o['id']).size == o.size
    sel = np.zeros(g.size, dtype=bool)
    sel[k] = True
    bad = np.where((sure & ~sel) | (sel & ~poss))[0]
    if not mon.check('selected', ok and bad.size == 0, n=o.size, sure=int(sure.sum()), nbad=bad.size, first=[dict(zip(q.dtype.names, q[i].tolist())) for i in bad[:2]],
                     got=sel[bad[:2]], cal={a: (list(map(float, b)) if np.ndim(b) else b) for a, b in c.items()}, **wit):
        return 0
    wrong = [nm for nm in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err') if not np.array_equal(o[nm], g[nm][k])]
    if not np.array_equal(o['chisq'], q['chisq'][k]):
        wrong.append('chisq')
    for nm, w, rt, at in (('zredmagic', zm, 0, 2e-6), ('zredmagic_e', ze, 1e-4, 1e-7), ('zredmagic_samp', sm, 0, 2e-6)):
        if not np.allclose(o[nm], w[k], rtol=rt, atol=at):
            wrong.append((nm, np.ravel(o[nm])[:4], np.ravel(w[k])[:4], float(np.max(np.abs(o[nm] - w[k])))))
    if np.any((o['lum'] < lum[k] * 0.9999) | (o['lum'] > lumx[k] * 1.0001)):
        wrong.append(('lum', o['lum'][:4], lum[k][:4]))
    mon.check('values', not wrong, n=o.size, wrong=wrong, **wit)
    if zspec is not None:
        w = zspec[k]
        mon.check('zspec', np.allclose(o['zspec'], w, atol=1e-6), nbad=int(np.sum(np.abs(o['zspec'] - w) > 1e-6)), got=o['zspec'][:5], want=w[:5], **wit)
    return int(sel.sum())


def galcat(g, q, drop=(), extra=None):
    from redmapper import GalaxyCatalog
    dt = [(n, g.dtype[n]) for n in g.dtype.names if n not in drop] + [(n, q.dtype[n]) for n in q.dtype.names]
    if extra is not None:
        dt.append(('zspec', 'f4'))
    a = np.zeros(g.size, dtype=dt)
    for n in g.dtype.names:
        if n not in drop:
            a[n] = g[n]
    for n in q.dtype.names:
        a[n] = q[n]
    if extra is not None:
        a['zspec'] = extra
    return GalaxyCatalog(a)


def vmasks(cfg, d, names, etas, kind):
    from redmapper import VolumeLimitMask, VolumeLimitMaskFixed
    out, files = {}, []
    for k, nm in enumerate(names):
        if kind == 'fixed':
            out[nm] = VolumeLimitMaskFixed(cfg)
            files.append('')
        else:
            fn = os.path.join(d, 'vl_%s.hsp' % nm)
            out[nm] = VolumeLimitMask(cfg, etas[k], vlimfile=fn, use_geometry=kind == 'geom')
            files.append(fn)
    return out, files


def specfile(rng, fn, g):
    """spectra near galaxies (some far, some uncertain, some with company); returns the redshift each galaxy should get."""
    n = g.size
    k = rng.permutation(n)[:n // 3]
    off = rng.choice([0.2, 1.0, 2.7, 3.3, 8.0], k.size) / 3600.
    ra, dec = world.offset(g['ra'][k], g['dec'][k], off, rng.uniform(0, 2 * np.pi, k.size))
    # a second spectrum for some
    k2 = k[:k.size // 4]
    ra2, dec2 = world.offset(g['ra'][k2], g['dec'][k2], rng.choice([0.5, 1.6, 2.2], k2.size) / 3600., rng.uniform(0, 2 * np.pi, k2.size))
    s = np.zeros(k.size + k2.size, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
    s['ra'], s['dec'] = np.concatenate([ra, ra2]), np.concatenate([dec, dec2])
    s['z'] = rng.uniform(0.05, 0.6, s.size)
    s['z_err'] = rng.choice([1e-4, 5e-4, 2e-3], s.size, p=[0.5, 0.3, 0.2])
    s = s[rng.permutation(s.size)]
    fitsio.write(fn, s, clobber=True)
    s = s[s['z_err'] < 0.001]
    from scipy.spatial import cKDTree
    t = cKDTree(skygen.vec(s['ra'], s['dec']))
    r = 2 * np.sin(np.radians(3. / 3600.) / 2)
    dd, ii = t.query(skygen.vec(g['ra'], g['dec']), k=2, distance_upper_bound=2 * r)
    near = (dd[:, 0] < r)
    want = np.where(near, s['z'][np.clip(ii[:, 0], 0, s.size - 1)], -1.0)
    tie = (np.abs(dd[:, 0] - r) < 1e-3 * r) | (near & (dd[:, 1] - dd[:, 0] < 1e-3 * r))
    return want, tie


# ------------------------------------------------------------------------------------------------ selector
def do_select(rng, case, mon, env, d):
    from redmapper import RedSequenceColorPar
    from redmapper.redmagic import RedmagicSelector
    size = float(rng.choice([4., 6.]))
    over, pix = maps(rng, d, case['region'], size, case['vmask'])
    nm = ['highdens', 'highlum', 'm2'][:rng.randint(1, 4)]
    etas = rng.choice([0.2, 0.45, 0.5, 1.0, 1.5], len(nm), replace=False)
    cfg = rmx.test_config(env, d, **over)
    zr = RedSequenceColorPar(cfg.parfile, fine=True)
    vm, files = vmasks(cfg, d, nm, etas, case['vmask'])
    rf = os.path.join(d, 'cal.fit')
    # the calibration remembers where the masks were made; they are looked for beside it
    moved = rng.uniform() < 0.3
    cal = write_calib(rng, rf, nm, etas, [os.path.join('/nowhere', os.path.basename(f)) if (moved and f) else f for f in files])
    g, q = population(rng, zr, int(rng.choice([0, 1, 400, 3000, 3000, 3000])), case['region'], size * 1.1)
    over2 = dict(over, redmagicfile=rf)
    zs, tie = (g['ztrue'], None) if case['spec'] == 'ztrue' else (None, None)
    drop, extra = (), None
    if case['spec'] != 'ztrue':
        drop = ('ztrue',)
        if case['spec'] == 'zspec':
            extra = np.where(rng.uniform(size=g.size) < 0.5, rng.uniform(0, 1, g.size), -1.0).astype('f4')
            zs = extra
        elif g.size > 20:
            over2['specfile'] = os.path.join(d, 'spec.fit')
            zs, tie = specfile(rng, over2['specfile'], g)
        else:
            over2['specfile'] = os.path.join(d, 'spec.fit')
            fitsio.write(over2['specfile'], np.array([(1., 1., 0.1, 1e-4), (2., 1., 0.1, 1e-4)], dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')]))
            zs = np.full(g.size, -1.0)
    cfg = rmx.test_config(env, d, **over2)
    if tie is not None:
        g, q, zs = g[~tie], q[~tie], zs[~tie]
    cat = galcat(g, q, drop, extra)
    raw = cat._ndarray.tobytes()
    s = RedmagicSelector(cfg)
    wit = dict(region=case['region'], vmask=case['vmask'], spec=case['spec'])
    mon.check('unknown_mode', list(s.modes) == nm, got=list(s.modes), want=nm, **wit)
    try:
        s.select_redmagic_galaxies(cat, 'no_such')
        mon.check('unknown_mode', False, **wit)
    except RuntimeError:
        mon.check('unknown_mode', True)
    tot = []
    order = list(rng.permutation(len(nm))) + [0]
    for i in order:
        m = nm[i]
        zmax = np.asarray(vm[m].calc_zmax(g['ra'], g['dec']), dtype='f8') if case['vmask'] != 'fixed' else np.full(g.size, cfg.zrange[1])
        mode = m.encode() if rng.uniform() < 0.3 else m
        out, ind = s.select_redmagic_galaxies(cat, mode, return_indices=True)
        mon.check('selected', out.size == ind.size and np.array_equal(np.asarray(out.id), cat.id[ind]), what='indices', **wit)
        tot.append(judge(mon, out, cal[m], g, q, zr, zmax, zs, dict(wit, mode=m)))
        mon.check('inputs_untouched', cat._ndarray.tobytes() == raw, **wit)
        # each galaxy is judged by itself: shuffled and split in pieces, the same ones come out
        p = rng.permutation(g.size)
        cut = rng.randint(0, g.size + 1)
        got = []
        for part in (p[:cut], p[cut:]):
            if part.size == 0:
                continue
            got.append(np.array(s.select_redmagic_galaxies(cat[part], m)._ndarray))
        if got:
            got = np.concatenate(got)
            got = got[np.argsort(got['id'])]
            ref = out._ndarray[np.argsort(out.id)]
            mon.check('per_galaxy', got.size == ref.size and all(np.array_equal(got[x], ref[x]) for x in ref.dtype.names if x != 'zspec' or tie is None) and
                      np.allclose(got['zspec'], ref['zspec']), n=(got.size, ref.size), **wit)
    mon.distinct('select', case['region'], case['vmask'], case['spec'], len(nm), moved, g.size > 1000, [c['run_afterburner'] for c in cal.values()])
    mon.sample({'select': g.size, 'selected': tot, 'vmask': case['vmask']})


# ------------------------------------------------------------------------------------------------ the run over a table
def do_task(rng, case, mon, env, d):
    from redmapper import RedSequenceColorPar, VolumeLimitMask
    from redmapper.redmagic import RunRedmagicTask
    import yaml
    size = float(rng.choice([3., 5.]))
    over, pix = maps(rng, d, case['region'], size, case['vmask'])
    nm = ['highdens', 'highlum'][:rng.randint(1, 3)]
    etas = rng.choice([0.45, 0.5, 1.0], len(nm), replace=False)
    cfg = rmx.test_config(env, d, **over)
    zr = RedSequenceColorPar(cfg.parfile, fine=True)
    vm, files = vmasks(cfg, d, nm, etas, case['vmask'])
    rf = os.path.join(d, 'cal.fit')
    cal = write_calib(rng, rf, nm, etas, files)
    g, q = population(rng, zr, int(rng.choice([300, 2500])), case['region'], size)
    ns = int(rng.choice([16, 32]))
    # some table pixels have nothing to select (the first one in half of the runs)
    hp = hpg.angle_to_pixel(ns, g['ra'], g['dec'], nest=False)
    u = np.unique(hp)
    if u.size < 2:
        ns = 32
        hp = hpg.angle_to_pixel(ns, g['ra'], g['dec'], nest=False)
        u = np.unique(hp)
    if u.size < 2:
        return
    empty = [u[0]] if rng.uniform() < 0.5 else [rng.choice(u)]
    if rng.uniform() < 0.15:
        empty = u
    q['chisq'][np.isin(hp, empty)] = 50.
    master, zmaster, _ = rmx.write_galtable(os.path.join(d, 'tab'), g, ns, zreds=q, truth=True)
    out = os.path.join(d, 'out')
    os.makedirs(out)
    yf = rmx.test_yaml(env, out, **dict(over, galfile=master, zredfile=zmaster, redmagicfile=rf, has_truth=None))
    wit = dict(region=case['region'], vmask=case['vmask'], pixels=int(u.size), empty=len(empty))
    some = rng.uniform() < 0.3
    modes = [nm[-1]] if some else None
    nr = None if rng.uniform() < 0.5 else int(rng.choice([0, 1, 777]))
    if nr and any(not oracle(cal[m], g, q, zr, np.full(g.size, cfg.zrange[1]) if case['vmask'] == 'fixed' else np.asarray(vm[m].calc_zmax(g['ra'], g['dec']), dtype='f8'))[0].any() for m in nm):
        # no redshifts to give to the random points
        nr = None
    T = RunRedmagicTask(yf)
    plots = rng.uniform() < 0.3 and len(empty) < u.size
    first = {}
    for rep in range(2):
        if rep == 1:
            try:
                RunRedmagicTask(yf).run(modes=modes, do_plots=False, n_randoms=nr, rng=np.random.RandomState(4))
                mon.check('run_clobber', False, what='an existing catalogue is overwritten without clobber', **wit)
            except RuntimeError:
                mon.check('run_clobber', True)
            same = all(open(f, 'rb').read() == b for f, b in first.items())
            mon.check('run_clobber', same, what='refused run changed the files', **wit)
            T = RunRedmagicTask(yf)
        T.run(modes=modes, clobber=rep == 1, do_plots=plots, n_randoms=nr, rng=np.random.RandomState(case['seed'] % 1000))
        for m in (modes or nm):
            fn = T.config.redmapper_filename('redmagic_%s' % m, withversion=True)
            o = fitsio.read(fn, ext=1, lower=True)
            zmax = np.asarray(vm[m].calc_zmax(g['ra'], g['dec']), dtype='f8') if case['vmask'] != 'fixed' else np.full(g.size, cfg.zrange[1])
            n = judge(mon, o, cal[m], g, q, zr, zmax, g['ztrue'].astype('f8') if T.config.has_truth else None, dict(wit, mode=m, rep=rep))
            mon.check('run_union', n == o.size, got=o.size, want=n, **wit)
            rfn = T.config.redmapper_filename('redmagic_%s_randoms' % m, withversion=True)
            want = 10 * o.size if nr is None else nr
            if case['vmask'] == 'fixed' or nr == 0:
                mon.check('run_randoms', not os.path.isfile(rfn), what='randoms without a geometry', **wit)
            else:
                r = fitsio.read(rfn, ext=1, lower=True) if os.path.isfile(rfn) else None
                if mon.check('run_randoms', r is not None and r.size == want, got=None if r is None else r.size, want=want, **wit) and want:
                    zx = vm[m].calc_zmax(r['ra'], r['dec'])
                    mon.check('run_randoms', np.all(r['z'] < zx) and np.all(np.isin(r['z'], o['zredmagic'])) and np.all(r['weight'] == 1), nbad=int(np.sum(r['z'] >= zx)), **wit)
            first[fn] = open(fn, 'rb').read()
        for m in nm:
            if modes and m not in modes:
                mon.check('run_union', not os.path.isfile(T.config.redmapper_filename('redmagic_%s' % m, withversion=True)), what='mode not asked for', **wit)
    mon.distinct('task', case['region'], case['vmask'], int(u.size), len(nm), some, nr, len(empty) == u.size)
    mon.sample({'task': g.size, 'pixels': int(u.size), 'randoms': nr})


# ------------------------------------------------------------------------------------------------ the parameter fit
def make_fitter(rng, zr, n0, area, etamin, zrange, binsize, nn, bias, escale, ab, n, zmaxv):
    from redmapper.redmagic import RedmagicParameterFitter
    g, q = population(rng, zr, n, 'eq', 4., zlo=zrange[0] - 0.06, zhi=zrange[1] + 0.06, vol=True, bias=bias, escale=escale)
    nb = int(round((zrange[1] - zrange[0]) / binsize))
    edges = zrange[0] + binsize * np.arange(nb + 1)
    vol = np.diff([vsphere(e) for e in edges]) * area / 41252.961
    nodes, corr = np.linspace(zrange[0], zrange[1], nn), np.linspace(zrange[0], zrange[1], 3)
    z = q['zred_uncorr'].astype('f8')
    zsamp = q['zred_samp'][:, 0].astype('f8')
    args = dict(nodes=nodes, corrnodes=corr, z=z, z_err=q['zred_uncorr_e'].astype('f8'), chisq=q['chisq'].astype('f8'), mstar=zr.mstar(z), zcal=g['ztrue'].astype('f8'),
                zcal_err=np.full(n, 0.002), refmag=g['refmag'].astype('f8'), zsamp=zsamp, zmax=zmaxv, etamin=etamin, n0=n0, volume=vol, zrange=zrange, zbinsize=binsize,
                zredstr=zr, maxchi=20.0, ab_use=np.arange(n) if ab else None)
    return RedmagicParameterFitter(**args), args, edges


def want_cost(a, edges, pars, zr, off=None):
    z = a['z']
    zm = z if off is None else z - off
    zs = a['zsamp'] if off is None else a['zsamp'] - off
    cm = np.clip(CS(a['nodes'], pars, bc_type='natural')(z), 0.1, a['maxchi'])
    sel = (a['chisq'] < cm) & (a['refmag'] < zr.mstar(zm) - 2.5 * np.log10(a['etamin'])) & (zm < a['zmax'])
    if not sel.any():
        return 1e11
    # the last 1e-4 of the range is not counted
    h = np.histogram(zs[sel & (zs < edges[-1] - 1e-4)], bins=edges)[0]
    want = a['n0'] * 1e-4 * a['volume']
    return float(np.sum((h - want)**2 / want)) + (1e4 if np.any(pars < 0.1) else 0.0)


def do_fitter(rng, case, mon, env, d):
    zr = rmx.zredstr(env, fine=True)
    lo = float(rng.choice([0.1, 0.12]))
    binsize = float(rng.choice([0.02, 0.05]))
    zrange = [lo, lo + binsize * int(rng.choice([4, 6]))]
    n0, etamin = float(rng.choice([5., 10.])), float(rng.choice([0.5, 1.0]))
    nn = int(rng.choice([3, 4]))
    n = int(rng.choice([2500, 6000]))
    amp = float(rng.choice([0.005, 0.02]))
    coef = rng.uniform(-amp, amp, 2)
    esc = float(rng.choice([0.7, 1.0, 1.3]))
    # area such that the whole population is a few times the density asked for
    vt = vsphere(zrange[1] + 0.06) - vsphere(zrange[0] - 0.06)
    area = n / (float(rng.choice([6., 12.])) * n0 * 1e-4 * vt) * 41252.961
    zx = np.full(n, 0.6) if rng.uniform() < 0.5 else rng.uniform(zrange[0], zrange[1] + 0.2, n)
    f, a, edges = make_fitter(rng, zr, n0, area, etamin, zrange, binsize, nn, lambda z: coef[0] + coef[1] * (z - zrange[0]) / (zrange[1] - zrange[0]), esc, True, n, zx)
    keep = {k: np.array(v) for k, v in a.items() if isinstance(v, np.ndarray)}
    wit = dict(n0=n0, etamin=etamin, nodes=nn, ngal=n, binsize=binsize)
    trial = [rng.uniform(0.1, 8, nn) for _ in range(5)] + [np.full(nn, 1e-3), np.full(nn, 25.), np.concatenate([[-3.], np.full(nn - 1, 4.)])]
    first = []
    for p in trial:
        w = want_cost(a, edges, p, zr)
        v = float(f(p.copy()))
        first.append(v)
        mon.check('cost', abs(v - w) <= 2e-6 * abs(w) + 6.0 / (n0 * 1e-4 * a['volume'].min()), got=v, want=w, pars=p, **wit)
    p0 = np.full(nn, 3.0)
    c0 = float(f(p0.copy()))
    c = f.fit(p0.copy(), afterburner=False)
    c1 = float(f(c))
    mon.check('fit_improves', c1 <= c0 + 1e-9 and np.all(np.isfinite(c)), start=c0, end=c1, **wit)
    mon.check('cost_pure', [float(f(p.copy())) for p in trial] == first, what='the cost of the same cuts changed after a fit', **wit)
    # the fit is the best of its neighbourhood
    best = min(float(f(c * (1 + rng.normal(0, 0.02, nn)))) for _ in range(25))
    mon.check('fit_improves', c1 <= best + 0.35 * abs(best) + 6.0, what='a nearby cut is much better', end=c1, best=best, **wit)
    b, er = f.fit_bias_eratio(c, np.zeros(3), np.ones(3))
    # the bias at each node against the median offset of the galaxies the cut keeps near it
    cm = np.clip(CS(a['nodes'], c, bc_type='natural')(a['z']), 0.1, 20.)
    sel = (a['chisq'] < cm) & (a['refmag'] < zr.mstar(a['z']) - 2.5 * np.log10(etamin)) & (a['z'] < zx)
    inr = sel & (a['z'] > zrange[0]) & (a['z'] < zrange[1])
    if inr.sum() > 250:
        dz = (a['z'] - a['zcal'])[inr]
        fit = CS(a['corrnodes'], b, bc_type='natural')(a['z'][inr])
        res = np.median(dz - fit)
        sd = 1.4826 * np.median(np.abs(dz - np.median(dz)))
        tol = 8 * 1.253 * sd / np.sqrt(inr.sum()) + 2e-4
        mon.check('bias', abs(res) < tol, residual=res, tol=tol, n=int(inr.sum()), bias=b, coef=coef, **wit)
        for k in range(3):
            th = inr & (np.abs(a['z'] - a['corrnodes'][k]) < 0.25 * (zrange[1] - zrange[0]))
            if th.sum() > 120:
                r = np.median(a['z'][th] - a['zcal'][th] - CS(a['corrnodes'], b, bc_type='natural')(a['z'][th]))
                mon.check('bias', abs(r) < 8 * 1.253 * sd / np.sqrt(th.sum()) + 4e-4, residual=r, node=k, n=int(th.sum()), bias=b, **wit)
        y = 1.4826 * np.abs(dz - fit) / a['z_err'][inr]
        r = np.median(y) - np.median(CS(a['corrnodes'], er, bc_type='natural')(a['z'][inr]))
        mon.check('bias', np.all((er >= 0.5) & (er <= 1.5)) and abs(r) < 0.25, what='error ratio', got=er, median=float(np.median(y)), true=esc, **wit)
    if case['ab']:
        off = CS(a['corrnodes'], b, bc_type='natural')(a['z'])
        c2 = f.fit(c.copy(), biaspars=b, eratiopars=er, afterburner=True)
        for p in trial[:4] + [c2]:
            v, w = float(f(p.copy())), want_cost(a, edges, p, zr, off=off)
            mon.check('cost', abs(v - w) <= 2e-6 * abs(w) + 6.0 / (n0 * 1e-4 * a['volume'].min()), what='corrected redshifts', got=v, want=w, pars=p, **wit)
        mon.check('fit_improves', float(f(c2)) <= float(f(c.copy())) + 1e-9, what='afterburner', **wit)
        # and back
        f.fit(p0.copy(), afterburner=False)
        mon.check('cost_pure', [float(f(p.copy())) for p in trial] == first, what='a fit without afterburner does not start from the raw redshifts', **wit)
    mon.check('cost_pure', all(np.array_equal(keep[k], a[k]) for k in keep), what='inputs changed', **wit)
    mon.distinct('fitter', n0, etamin, nn, n, binsize, case['ab'], zx.min() < 0.5)
    mon.sample({'fitter': n, 'cost': [c0, c1], 'bias': b, 'true': coef, 'eratio': er})


# ------------------------------------------------------------------------------------------------ the whole calibration
def do_calib(rng, case, mon, env, d):
    from redmapper import RedSequenceColorPar, Configuration
    from redmapper.redmagic import RedmagicCalibrator
    size = 6.0
    over, pix = maps(rng, d, case['region'], size, case['vmask'], deep=True)
    nside = 128
    nm = ['highdens', 'highlum'][:1 + int(rng.uniform() < 0.5)]
    n0s = [10., 4.][:len(nm)]
    etas = [0.5, float(rng.choice([0.55, 1.0]))][:len(nm)]
    zmx = [0.40, 0.40][:len(nm)]
    area = over['area'] if case['vmask'] == 'fixed' else pix.size * hpg.nside_to_pixel_area(nside)
    zr = rmx.zredstr(env, fine=True)
    amp = 0.01
    sh = float(rng.uniform(-amp, amp))
    esc = float(rng.choice([0.8, 1.2]))
    # the galaxies fill the whole footprint evenly: about five times the density asked for
    z0, z1 = 0.05, 0.47
    dens = 60e-4
    tot = int(dens * (vsphere(z1) - vsphere(z0)) * area / 41252.961)
    n = tot
    # uniform over the footprint
    if case['vmask'] == 'fixed':
        ra, dec = skygen.sky_points(rng, case['region'], n, size)
    else:
        pp = rng.choice(pix, n)
        fine = 64
        sub = pp.astype('i8') * fine**2 + rng.randint(0, fine**2, n)
        ra, dec = hpg.pixel_to_angle(nside * fine, sub, nest=True)
    g, q = population(rng, zr, n, case['region'], size, zlo=z0, zhi=z1, vol=True, bias=lambda z: sh + 0 * z, escale=esc)
    g['ra'], g['dec'] = ra, dec
    # samples carry the same bias, as the code's own do
    master, zmaster, _ = rmx.write_galtable(os.path.join(d, 'tab'), g, 16, zreds=q, truth=True)
    if len(np.atleast_1d(fitsio.read(master, ext=1)['hpix'][0])) < 2:
        master, zmaster, _ = rmx.write_galtable(os.path.join(d, 'tab2'), g, 32, zreds=q, truth=True)
    # cluster members of known redshift
    k = rng.permutation(n)[:n // 3]
    cat = np.zeros(20, dtype=[('mem_match_id', 'i4'), ('z_lambda_e', 'f4')])
    cat['mem_match_id'], cat['z_lambda_e'] = np.arange(20) + 1, 0.005
    mem = np.zeros(k.size, dtype=[('mem_match_id', 'i4'), ('id', 'i8'), ('z', 'f4'), ('p', 'f4')])
    mem['mem_match_id'], mem['id'], mem['z'] = rng.randint(1, 21, k.size), g['id'][k], g['ztrue'][k]
    mem['p'] = np.where(rng.uniform(size=k.size) < 0.85, 0.99, 0.2)
    # members of low probability are not to be trusted
    mem['z'] += np.where(mem['p'] < 0.5, 0.08, 0.0)
    cf = os.path.join(d, 'cat.fit')
    fitsio.write(cf, cat)
    fitsio.write(os.path.join(d, 'cat_members.fit'), mem)
    sp = np.zeros(200, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
    sp['ra'], sp['dec'], sp['z'], sp['z_err'] = g['ra'][:200], g['dec'][:200], g['ztrue'][:200], 1e-4
    sf = os.path.join(d, 'spec.fit')
    fitsio.write(sf, sp)
    out = os.path.join(d, 'out')
    os.makedirs(out)
    binsize = 0.05
    opts = dict(galfile=master, zredfile=zmaster, catfile=cf, specfile=sf, redmagic_n0s=n0s, redmagic_etas=etas, redmagic_names=nm, redmagic_zmaxes=zmx,
                redmagic_zrange=[0.1, 0.40], redmagic_calib_nodesize=0.1, redmagic_calib_corr_nodesize=0.1, redmagic_calib_zbinsize=binsize, redmagic_calib_fractrain=1.0,
                redmagic_calib_redshift_buffer=0.0, zrange=[0.05, 0.5], calib_corr_pcut=0.9, redmagic_run_afterburner=bool(rng.uniform() < 0.75), redmagic_mock_truthspec=bool(rng.randint(2)))
    if case['const']:
        opts.update(redmagic_use_constchi=True, redmagic_constchis=[float(x) for x in rng.uniform(1, 5, len(nm))])
    yf = rmx.test_yaml(env, out, **dict(over, **opts))
    wit = dict(region=case['region'], vmask=case['vmask'], ngal=n, const=case['const'], modes=nm, ab=opts['redmagic_run_afterburner'], shift=sh)
    C = RedmagicCalibrator(yf)
    C.run()
    rfile = C.config.redmagicfile
    fits = fitsio.FITS(rfile)
    mon.check('calib_file', len(fits) - 1 == len(nm), got=len(fits) - 1, **wit)
    run = Configuration(C.runfile)
    mon.check('calib_file', os.path.realpath(run.redmagicfile) == os.path.realpath(rfile) and len(run.d.hpix) == 0, got=run.redmagicfile, **wit)
    info = []
    st = np.argsort(g['id'])
    for i, m in enumerate(nm):

        t = fits[i + 1].read()
        t = {x.lower(): t[x][0] for x in t.dtype.names}
        c = {x: (v.decode().rstrip() if isinstance(v, bytes) else v) for x, v in t.items()}
        mon.check('calib_file', c['name'] == m and np.isclose(c['etamin'], etas[i]) and np.isclose(c['n0'], n0s[i]) and np.allclose(c['zrange'], [0.1, zmx[i]]) and
                  np.isclose(c['nodes'][0], 0.1) and c['nodes'][-1] >= 0.4 - 1e-6 and c['run_afterburner'] == int(opts['redmagic_run_afterburner']) and np.isclose(c['maxchi'], 20.), cal=c, **wit)
        mon.check('calib_file', (c['vmaskfile'] == '') == (case['vmask'] == 'fixed'), got=c['vmaskfile'], **wit)
        if case['const']:
            mon.check('calib_file', np.allclose(c['cmax'], opts['redmagic_constchis'][i]), cmax=c['cmax'], **wit)
        fn = run.redmapper_filename('redmagic_%s' % m, withversion=True)
        if not mon.check('calib_run', os.path.isfile(fn), what='no catalogue', file=fn, **wit):
            continue
        o = fitsio.read(fn, ext=1, lower=True)
        n_sel = judge(mon, o, c, g, q, zr, np.full(g.size, 0.5), g['ztrue'].astype('f8') if run.has_truth else None, dict(wit, mode=m))
        mon.check('calib_run', n_sel == o.size, got=o.size, **wit)
        edges = 0.1 + binsize * np.arange(7)
        vol = np.diff([vsphere(e) for e in edges]) * area / 41252.961
        h = np.histogram(o['zredmagic_samp'][:, 0], bins=edges)[0]
        want = n0s[i] * 1e-4 * vol
        if not case['const']:
            mon.check('calib_density', np.all(np.abs(h / want - 1) < 0.15 + 4 / np.sqrt(want)) and abs(h.sum() / want.sum() - 1) < 0.06 + 4 / np.sqrt(want.sum()),
                      ratio=h / want, total=h.sum() / want.sum(), n0=n0s[i], **wit)
        if opts['redmagic_run_afterburner']:
            # the corrected redshifts agree with the true ones over the calibrated range
            for e0 in (0.1, 0.2, 0.3):
                b = (o['zredmagic'] > e0) & (o['zredmagic'] < e0 + 0.1)
                if b.sum() < 150:
                    continue
                kk = np.searchsorted(g['id'][st], o['id'][b])
                dz = o['zredmagic'][b] - g['ztrue'][st][kk]
                sd = 1.4826 * np.median(np.abs(dz - np.median(dz)))
                mon.check('calib_bias', abs(np.median(dz)) < 8 * 1.253 * sd / np.sqrt(b.sum() / 3.) + 1e-3, at=e0, got=float(np.median(dz)), sd=sd, num=int(b.sum()), bias=c['bias'], **wit)
        info.append((h / want).round(3).tolist())
    mon.distinct('calib', case['region'], case['vmask'], len(nm), case['const'], opts['redmagic_run_afterburner'])
    mon.sample({'calib': n, 'modes': nm, 'density_ratio': info})
