"""C09: background tables conserve counts and are looked up where they were measured."""
import os
import numpy as np
import fitsio
import hpgeom as hpg
import rmx

RULE = ('one generated background or lookup batch, keyed by (kind, redshift range, bin sizes, processes, depth source, sub-region, '
        'deep mode, file kind, chisq limit)')
REQUIRED = {'bkg_density': 12, 'bkg_nproc_independent': 6, 'bkg_lookup': 15, 'bkg_outside_infinite': 15, 'zredbkg_density': 6,
            'zredbkg_lookup': 6, 'colbkg_density': 2, 'colbkg_normalised': 2, 'bkg_flatfile': 2, 'bkg_counts': 12}
BUDGET = {'quick': 700, 'thorough': 2700}
ASSUMPTIONS = ['chi-squared values come from RedSequenceColorPar.calculate_chisq (decided by C02 and C10)',
               'areas of depth maps come from DepthMap.calc_areas (decided by C08); generated maps here have uniform coverage']


def plan(tier, seed):
    n = 12 if tier == 'quick' else 110
    regs = ['eq', 'wrap', 'npole', 'south']
    out = []
    for j in range(n):
        out.append({'kind': 'gen', 'region': regs[j % 4], 'flat': j % 3 == 0, 'seed': seed * 2411 + j})
    for j in range(n + 8):
        out.append({'kind': 'look', 'seed': seed * 2411 + 10000 + j})
        out.append({'kind': 'zlook', 'seed': seed * 2411 + 20000 + j})
    for j in range(max(6, n // 2)):
        out.append({'kind': 'zgen', 'region': regs[j % 4], 'seed': seed * 2411 + 30000 + j})
    for j in range(max(3, n // 6)):
        out.append({'kind': 'col', 'region': regs[j % 4], 'seed': seed * 2411 + 40000 + j})
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    globals()[case['kind']](rng, case, mon, env, env.tmp())


def cic2(x, nx, y, ny):
    """cloud in cell onto an (ny, nx) grid of cell centres; what falls off the grid is lost."""
    f = np.zeros((ny, nx))
    xx, yy = x - 0.5, y - 0.5
    ix, iy = np.floor(xx).astype(int), np.floor(yy).astype(int)
    fx, fy = xx - ix, yy - iy
    for dx in (0, 1):
        for dy in (0, 1):
            w = (fx if dx else 1 - fx) * (fy if dy else 1 - fy)
            jx, jy = ix + dx, iy + dy
            ok = (jx >= 0) & (jx < nx) & (jy >= 0) & (jy < ny)
            np.add.at(f, (jy[ok], jx[ok]), w[ok])
    return f


def setup_table(rng, case, env, d, zreds=None):
    zr = rmx.zredstr(env, fine=True)
    g = rmx.red_galaxies(rng, int(rng.choice([1500, 4000])), case['region'], 8.0, zr, 0.06, 0.4)
    z = None
    if zreds:
        z = np.zeros(g.size, dtype=rmx.ZRED_DT)
        z['zred'] = g['ztrue'] + rng.normal(0, 0.02, g.size)
        z['chisq'] = rng.uniform(0, 150, g.size)
        bad = rng.uniform(size=g.size) < 0.1
        z['zred'][bad], z['chisq'][bad] = -1.0, -1.0
    nt = int(rng.choice([16, 32]))
    master, zm, pix = rmx.write_galtable(os.path.join(d, 'tab'), g, nt, area=float(rng.uniform(5, 60)), zreds=z)
    return g, z, nt, master, zm, pix


def depth_for(rng, g, d):
    """a uniform-coverage depth map under the galaxies, with several depths."""
    fn = os.path.join(d, 'depth.hsp')
    p = np.unique(hpg.angle_to_pixel(128, g['ra'], g['dec'], nest=True))
    v = np.zeros(p.size, dtype=rmx.DEPTH_DT)
    v['fracgood'], v['exptime'] = 1, 100
    v['limmag'] = rng.uniform(21.6, 22.5, p.size)
    v['m50'] = v['limmag']
    rmx.write_depth(fn, 32, 128, p, v)
    return fn


def gen(rng, case, mon, env, d):
    from redmapper import BackgroundGenerator, Background, DepthMap
    from redmapper.galaxy import GalaxyCatalog
    g, _, nt, master, _, pix = setup_table(rng, case, env, d)
    z0 = float(rng.choice([0.1, 0.06, 0.15]))
    zrange = [z0, z0 + float(rng.choice([0.1, 0.2, 0.06]))]
    cmax = float(rng.choice([20., 10., 16.]))
    over = dict(galfile=master, zrange=zrange, chisq_max=cmax, bkg_zbinsize=float(rng.choice([0.02, 0.03])),
                bkg_refmagbinsize=float(rng.choice([0.2, 0.5])), bkg_chisqbinsize=float(rng.choice([0.5, 1.0])), limmag_catalog=21.5)
    usedep = bool(rng.randint(2))
    over['depthfile'] = depth_for(rng, g, d) if usedep else None
    sub = bool(rng.randint(2)) and not case['flat']
    deep = bool(rng.randint(2))
    sel = np.ones(g.size, bool)
    if sub:
        ns = int(rng.choice([8, 16]))
        big = hpg.angle_to_pixel(ns, g['ra'], g['dec'], nest=False)
        hp = int(rng.choice(big))
        sel = big == hp
        over['nside'], over['hpix'], over['border'] = ns, [hp], 0.0
        if not usedep:
            over['area'] = 7.0
    tabs = {}
    nprocs = [1] + sorted(set(int(x) for x in rng.choice([2, 3, 4, 6], 2)))
    for npc in nprocs:
        cfg = rmx.test_config(env, d, **dict(over, calib_nproc=npc, bkgfile=os.path.join(d, 'b%d.fit' % npc)))
        BackgroundGenerator(cfg).run(clobber=True, deepmode=deep)
        tabs[npc] = fitsio.read(cfg.bkgfile, ext='CHISQBKG')[0]
    t = tabs[1]
    for npc in nprocs[1:]:
        mon.check('bkg_nproc_independent', all(np.array_equal(tabs[npc][nm], t[nm]) for nm in ('sigma_g', 'sigma_lng', 'areas')),
                  nproc=npc, zrange=zrange)
    # independent tabulation
    zr = rmx.zredstr(env, zrange=np.array([t['zbins'][0], t['zbins'][-1] + over['bkg_zbinsize']], dtype='f8'))
    gc = GalaxyCatalog(g[sel].copy())
    rb, cb = over['bkg_refmagbinsize'], over['bkg_chisqbinsize']
    nr, nc = int(np.ceil((21.5 - 12.0) / rb)), int(np.ceil(cmax / cb))
    zb = z0 + over['bkg_zbinsize'] * np.arange(t['zbins'].size)
    mon.check('bkg_bins', t['sigma_g'].shape == (nr, nc, zb.size) and np.allclose(t['zbins'], zb, atol=1e-5) and
              np.allclose(t['refmagbins'], 12 + rb * np.arange(nr), atol=1e-4) and np.allclose(t['chisqbins'], cb * np.arange(nc), atol=1e-4))
    areas = DepthMap(cfg).calc_areas(12.0 + rb * np.arange(nr)) if usedep else np.full(nr, cfg.area)
    mon.close('bkg_areas', t['areas'], areas, rtol=1e-5, atol=1e-6)
    rm = g['refmag'][sel].astype('f4')
    for i, z in enumerate(zb):
        # the faint limit of the slice: L >= 0.1 L* (0.01 in deep mode), to the edge of the magnitude bin
        zl = float(np.atleast_1d(zr.mstar(np.float64(z) + over['bkg_zbinsize']))[0]) - 2.5 * np.log10(0.01 if deep else 0.1)
        zl = min(zl, 21.5 - 0.01) if zl >= 21.5 else zl
        q = min(int((zl - 12.0) * nr / (21.5 - 12.0)), nr - 1)
        zl = 12.0 + rb * q + rb
        use = (rm > 12) & (rm < zl) & (rm < 21.5)
        if not use.any():
            continue
        ch = np.atleast_1d(zr.calculate_chisq(gc[use], z)).astype('f4').astype('f8')
        r = rm[use].astype('f8')
        a = (ch >= 0) & (ch < cmax)
        want = cic2(ch[a] * nc / cmax, nc, (r[a] - 12) * nr / 9.5, nr) / (areas * rb * cb)[:, None]
        mon.close('bkg_density', t['sigma_g'][:, :, i], want, rtol=2e-4, atol=2e-4 * max(want.max(), 1e-6), z=z, deep=deep)
        # conservation: the table integrates to the galaxies of the slice, apart from half-cell losses at its edges
        tot = np.sum(t['sigma_g'][:, :, i].astype('f8') * (areas * rb * cb)[:, None])
        edge = np.sum((ch[a] < cmax / nc) | (ch[a] > cmax * (1 - 1. / nc)) | (r[a] < 12 + rb) | (r[a] > 21.5 - rb))
        mon.check('bkg_counts', tot <= a.sum() * (1 + 1e-4) and tot >= a.sum() - edge - 1e-3 * a.sum(), tot=tot, gals=int(a.sum()), edge=int(edge))
        with np.errstate(all='ignore'):
            lc = np.log(ch)
        b = (lc >= -2) & (lc < 6)
        wl = cic2((lc[b] + 2) * 40 / 8., 40, (r[b] - 12) * nr / 9.5, nr) / (areas * rb * 0.2)[:, None]
        mon.close('bkg_density', t['sigma_lng'][:, :, i], wl, rtol=1e-3, atol=1e-3 * max(wl.max(), 1e-6), z=z, log=True)
    # never overwritten without clobber
    before = open(cfg.bkgfile, 'rb').read()
    BackgroundGenerator(cfg).run(clobber=False)
    mon.check('bkg_not_clobbered', open(cfg.bkgfile, 'rb').read() == before)
    Background(cfg.bkgfile)
    mon.event('bkg_readable')
    mon.distinct('gen', case['region'], zrange, rb, cb, usedep, sub, deep, tuple(nprocs), cmax)
    mon.sample({'galaxies': int(sel.sum()), 'bins': [nr, nc, int(zb.size)], 'nprocs': nprocs})
    if case['flat']:
        # the same galaxies in one flat file
        flat = os.path.join(d, 'flat.fit')
        h = {'FITS': 1, 'PIXELS': 0, 'MODE': 'SDSS', 'AREA': cfg.area, 'LIM_REF': 21.5, 'NMAG': 5, 'ZP': 22.5}
        h.update({b.upper() + '_IND': k for k, b in enumerate(rmx.BANDS)})
        fitsio.write(flat, g, header=h)
        cfg = rmx.test_config(env, d, **dict(over, galfile=flat, calib_nproc=2, bkgfile=os.path.join(d, 'bf.fit')))
        BackgroundGenerator(cfg).run(clobber=True, deepmode=deep, natatime=int(rng.choice([100, 700, 100000])))
        f = fitsio.read(cfg.bkgfile, ext='CHISQBKG')[0]
        mon.close('bkg_flatfile', f['sigma_g'], t['sigma_g'], rtol=1e-5, atol=1e-5)


def edges_ok(x, bins, step):
    """positions safely inside a bin"""
    f = ((np.asarray(x) - bins[0]) / step) % 1.0
    return (f > 1e-3) & (f < 1 - 1e-3)


def look(rng, case, mon, env, d):
    from redmapper import Background
    from scipy.interpolate import RegularGridInterpolator
    cmax = float(rng.choice([20., 12., 8.]))
    nr, nc, nl, nz = int(rng.randint(4, 12)), int(rng.choice([6, 10, 24])), 40, int(rng.randint(2, 5))
    mr, zr = [12.0, 12.0 + 0.2 * nr], [0.1, 0.1 + 0.02 * nz]
    t = np.zeros(1, dtype=[('zbins', 'f4', nz), ('zrange', 'f4', 2), ('zbinsize', 'f4'), ('chisqbins', 'f4', nc), ('chisqrange', 'f4', 2),
                           ('chisqbinsize', 'f4'), ('lnchisqbins', 'f4', nl), ('lnchisqrange', 'f4', 2), ('lnchisqbinsize', 'f4'),
                           ('areas', 'f4', nr), ('refmagbins', 'f4', nr), ('refmagrange', 'f4', 2), ('refmagbinsize', 'f4'),
                           ('sigma_g', 'f4', (nr, nc, nz)), ('sigma_lng', 'f4', (nr, nl, nz))])
    t['zbins'][0], t['zrange'][0] = zr[0] + 0.02 * np.arange(nz), zr
    t['chisqbins'][0], t['chisqrange'][0] = cmax / nc * np.arange(nc), [0, cmax]
    t['lnchisqbins'][0], t['lnchisqrange'][0] = -2 + 0.2 * np.arange(nl), [-2, 6]
    t['refmagbins'][0], t['refmagrange'][0] = mr[0] + 0.2 * np.arange(nr), mr
    s = rng.uniform(0.1, 100, (nr, nc, nz))
    if rng.uniform() < 0.5:
        s[:max(1, nr // 3)] = 0.0
    if rng.uniform() < 0.3:
        s[rng.uniform(size=s.shape) < 0.1] = -1.0
    t['sigma_g'][0] = s
    t['sigma_lng'][0] = rng.uniform(0, 10, (nr, nl, nz))
    fn = os.path.join(d, 'b.fit')
    fitsio.write(fn, t, extname='CHISQBKG')
    b = Background(fn)
    n = 1500
    ch, rm = rng.uniform(0, cmax, n), rng.uniform(mr[0] + 0.005, mr[1] - 0.02, n)
    ch[:20] = 0.0
    z = float(rng.uniform(zr[0], zr[1] - 0.002))
    ok = (edges_ok(ch, [0.0], 0.5) | (ch == 0)) & edges_ok(rm, [mr[0]], 0.01)
    kz = np.round((z - zr[0]) / 0.001)
    zg = zr[0] + 0.001 * min(kz, b.zbins.size - 1)
    rg, cg = mr[0] + 0.01 * np.floor((rm - mr[0]) / 0.01), 0.5 * np.floor(ch / 0.5)

    def lin(x, xp, f, axis):
        f = np.moveaxis(f, axis, 0)
        x = np.clip(x, xp[0], xp[-1])
        k = np.clip(np.searchsorted(xp, x, side='right') - 1, 0, xp.size - 2)
        w = (x - xp[k]) / (xp[k + 1] - xp[k])
        return k, w
    # sequential linear interpolation of the (non-negative at each step) table
    sm = t['sigma_g'][0].astype('f8')
    kr, wr = lin(rg, t['refmagbins'][0].astype('f8'), sm, 0)
    a = np.clip(sm[kr] * (1 - wr)[:, None, None] + sm[kr + 1] * wr[:, None, None], 0, None)
    kc, wc = lin(cg, t['chisqbins'][0].astype('f8'), sm, 1)
    ii = np.arange(n)
    a = np.clip(a[ii, kc] * (1 - wc)[:, None] + a[ii, kc + 1] * wc[:, None], 0, None)
    kz2, wz = lin(np.array([zg]), t['zbins'][0].astype('f8'), sm, 2)
    want = np.clip(a[:, kz2[0]] * (1 - wz[0]) + a[:, kz2[0] + 1] * wz[0], 0, None)
    near = abs(((z - zr[0]) / 0.001) % 1 - 0.5) < 1e-3
    got0 = b.sigma_g_lookup(z, ch, rm, allow0=True)
    got = b.sigma_g_lookup(z, ch, rm)
    scale = max(np.abs(s).max(), 1)
    if not near:
        mon.close('bkg_lookup', got0[ok], want[ok], rtol=2e-3, atol=2e-4 * scale, z=z)
    mon.check('bkg_zero_infinite', np.all(np.isinf(got[got0 == 0])) and np.array_equal(got[got0 != 0], got0[got0 != 0]) and np.all(got > 0))
    # outside
    o = b.sigma_g_lookup(z, np.array([-1., -1e-6, cmax + 0.6, 5., 5., 1e20]), np.array([13., 13., 12.5, mr[0] - 0.5, mr[1] + 0.5, 12.5]))
    mon.check('bkg_outside_infinite', np.all(np.isinf(o)) and np.all(o > 0), got=o)
    # a redshift per galaxy equals one redshift for all
    arr = b.sigma_g_lookup(np.full(n, z), ch, rm, allow0=True)
    mon.equal('bkg_lookup_array', arr, got0)
    mon.check('bkg_lookup_array', b.sigma_g_lookup(z, ch[:1], rm[:1], allow0=True)[0] == got0[0])
    z0 = np.where(got0 == 0)[0]
    for k in z0[:3]:
        mon.check('bkg_zero_infinite', np.isinf(b.sigma_g_lookup(z, ch[k:k + 1], rm[k:k + 1])[0]), one=True)
    mon.distinct('look', nr, nc, nz, cmax)


def lin_ext(f, xp, x):
    k = np.clip(np.searchsorted(xp, x, side='right') - 1, 0, xp.size - 2)
    w = (x - xp[k]) / (xp[k + 1] - xp[k])
    return f[k] * (1 - w) + f[k + 1] * w


def zlook(rng, case, mon, env, d):
    from redmapper import ZredBackground
    nr, nz = int(rng.randint(3, 20)), int(rng.randint(3, 20))
    mr, zr = [12.0, 12.0 + 0.2 * nr], [0.05, 0.05 + 0.01 * nz]
    t = np.zeros(1, dtype=[('zredbins', 'f4', nz), ('zredrange', 'f4', 2), ('zredbinsize', 'f4'), ('refmagbins', 'f4', nr),
                           ('refmagrange', 'f4', 2), ('refmagbinsize', 'f4'), ('areas', 'f4', nr), ('sigma_g', 'f4', (nr, nz))])
    t['zredbins'][0], t['zredrange'][0] = zr[0] + 0.01 * np.arange(nz), zr
    t['refmagbins'][0], t['refmagrange'][0] = mr[0] + 0.2 * np.arange(nr), mr
    t['sigma_g'][0] = rng.uniform(0.5, 500, (nr, nz))
    fn = os.path.join(d, 'b.fit')
    fitsio.write(fn, t, extname='ZREDBKG')
    b = ZredBackground(fn)
    n = 1000
    z, rm = rng.uniform(zr[0] + 0.0005, zr[1] - 0.002, n), rng.uniform(mr[0] + 0.005, mr[1] - 0.02, n)
    ok = edges_ok(z, [zr[0]], 0.001) & edges_ok(rm, [mr[0]], 0.01)
    zg, rg = zr[0] + 0.001 * np.floor((z - zr[0]) / 0.001), mr[0] + 0.01 * np.floor((rm - mr[0]) / 0.01)
    s = t['sigma_g'][0].astype('f8')
    floor = s.min()
    a = np.clip(lin_ext(s, t['refmagbins'][0].astype('f8'), rg[:, None].repeat(1, 1)[:, 0]) if False else
                np.array([lin_ext(s[:, j], t['refmagbins'][0].astype('f8'), rg) for j in range(nz)]).T, floor, None)
    want = np.array([lin_ext(a[k], t['zredbins'][0].astype('f8'), zg[k:k + 1])[0] for k in range(n)])
    want = np.clip(want, floor, None)
    got = b.sigma_g_lookup(z, rm)
    mon.close('zredbkg_lookup', got[ok], want[ok], rtol=5e-3, atol=0.1)
    mon.check('zredbkg_positive', np.all(got >= floor * (1 - 1e-6)))
    o = b.sigma_g_lookup(np.array([zr[0] - 0.01, -1.0, zr[0] + 0.003]), np.array([12.5, 12.5, 11.0]))
    mon.check('bkg_outside_infinite', np.all(np.isinf(o)), got=o)
    mon.distinct('zlook', nr, nz)


def zgen(rng, case, mon, env, d):
    from redmapper import ZredBackgroundGenerator, ZredBackground, DepthMap
    g, z, nt, master, zm, pix = setup_table(rng, case, env, d, zreds=True)
    z0 = float(rng.choice([0.1, 0.05, 0.2]))
    zrange = [z0, z0 + float(rng.choice([0.1, 0.2]))]
    usedep = bool(rng.randint(2))
    over = dict(galfile=master, zredfile=zm, zrange=zrange, bkgfile=os.path.join(d, 'zb.fit'), limmag_catalog=21.5,
                bkg_zredbinsize=float(rng.choice([0.01, 0.02])), bkg_refmagbinsize=float(rng.choice([0.2, 0.5])),
                wcen_zred_chisq_max=float(rng.choice([100., 20.])), depthfile=depth_for(rng, g, d) if usedep else None)
    sub = bool(rng.randint(2))
    sel = np.ones(g.size, bool)
    if sub:
        ns = int(rng.choice([8, 16]))
        big = hpg.angle_to_pixel(ns, g['ra'], g['dec'], nest=False)
        hp = int(rng.choice(big))
        sel = big == hp
        over['nside'], over['hpix'], over['border'] = ns, [hp], 0.0
        if not usedep:
            over['area'] = 7.0
    cfg = rmx.test_config(env, d, **over)
    ZredBackgroundGenerator(cfg).run(clobber=True)
    t = fitsio.read(cfg.bkgfile, ext='ZREDBKG')[0]
    rb, zb = over['bkg_refmagbinsize'], over['bkg_zredbinsize']
    nr = int(np.ceil(9.5 / rb))
    zlo, zhi = float(t['zredrange'][0]), float(t['zredrange'][1])
    mon.check('zredbkg_bins', abs(zlo - zrange[0]) < 1e-5 and abs(zhi - zrange[1]) < 2e-3, got=[zlo, zhi], want=zrange)
    nz = t['zredbins'].size
    areas = DepthMap(cfg).calc_areas(12.0 + rb * np.arange(nr)) if usedep else np.full(nr, cfg.area)
    zz, rm = z['zred'][sel], g['refmag'][sel]
    use = (z['chisq'][sel] < over['wcen_zred_chisq_max']) & (zz >= zlo) & (zz < zhi) & (rm > 12) & (rm < 21.5)
    near = np.sum((np.abs(z['zred'][sel] - zlo) < 1e-5) | (np.abs(z['zred'][sel] - zhi) < 1e-5))
    x = (zz[use].astype('f8') - zlo) * nz / (zhi - zlo)
    y = (rm[use].astype('f8') - 12) * nr / 9.5
    want = np.clip(cic2(x, nz, y, nr), 0.1, None) / (areas * rb * zb)[:, None]
    mon.close('zredbkg_density', t['sigma_g'], want, rtol=2e-3, atol=2e-3 * want.max() + near, sub=sub)
    ZredBackground(cfg.bkgfile)
    mon.distinct('zgen', case['region'], zrange, rb, zb, usedep, sub)


def col(rng, case, mon, env, d):
    from redmapper import ColorBackgroundGenerator, ColorBackground
    zr = rmx.zredstr(env, fine=True)
    g = rmx.red_galaxies(rng, 3000, case['region'], 8.0, zr, 0.1, 0.3)
    # keep the table small: two of the colours are nearly constant
    master, _, pix = rmx.write_galtable(os.path.join(d, 'tab'), g, 16, area=25.0)
    cfg = rmx.test_config(env, d, galfile=master, depthfile=None, bkgfile_color=os.path.join(d, 'c.fit'))
    ColorBackgroundGenerator(cfg, minrangecheck=5).run(clobber=True)
    f = fitsio.FITS(cfg.bkgfile_color)
    colr = (g['mag'][:, :-1] - g['mag'][:, 1:]).astype('f8')
    rm = g['refmag'].astype('f8')
    for i in range(4):
        t = f['%02d_%02d_REF' % (i, i)].read()[0]
        lo, hi = t['COLRANGE'].astype('f8')
        nb, nr = t['COLBINS'].size, t['REFMAGBINS'].size
        s = (colr[:, i] >= lo - 1e-6) & (colr[:, i] < hi - 1e-6) & (rm >= 12) & (rm < cfg.limmag_ref)
        want = cic2((colr[s, i] - lo) * nb / (hi - lo), nb, (rm[s] - 12) * nr / (cfg.limmag_ref - 12), nr) / (0.05 * 0.02)
        mon.check('colbkg_density', np.abs(t['BC'] - want).max() < 0.02 * want.max() + 20 and
                  abs(t['BC'].sum(dtype='f8') - want.sum()) < 2e-3 * want.sum() + 3000, i=i, got=t['BC'].sum(dtype='f8'), want=want.sum())
        mon.close('colbkg_counts', t['N'], t['BC'].sum(axis=1, dtype='f8') * 0.02, rtol=1e-3, atol=1e-3)
    f.close()
    # reading the off-diagonals interpolates large cubes; keep two colours for that part
    keep = os.path.join(d, 'c2.fit')
    first = True
    for ext in ('01_01_REF', '02_02_REF', '01_02_REF'):
        fitsio.write(keep, fitsio.read(cfg.bkgfile_color, ext=ext), extname=ext, header={'AREA': 25.0}, clobber=first)
        first = False
    if case['seed'] % 3 != 0:
        fitsio.write(keep, fitsio.read(cfg.bkgfile_color, ext='01_01_REF'), extname='01_01_REF', header={'AREA': 25.0}, clobber=True)
    cb = ColorBackground(keep)
    for i in [k for k in (1, 2) if 101 * k in cb.bkgs]:
        x = cb.bkgs[101 * i]
        c = np.arange(cb.get_colrange(i)[0] + 0.005, cb.get_colrange(i)[1], 0.01)
        for m in (17.1, 18.3, 19.2):
            tot = np.sum(cb.lookup_diagonal(i, c, np.full(c.size, m))) * 0.01
            mon.check('colbkg_normalised', abs(tot - 1) < 0.15, i=i, m=m, got=tot)
        sg = cb.sigma_g_diagonal(i, np.array([c.mean(), 99., c.mean()]), np.array([18.0, 18.0, 40.0]))
        mon.check('bkg_outside_infinite', np.all(np.isinf(sg[1:])), got=sg)
    if 102 in cb.bkgs:
        c1, c2 = rng.choice(colr[:, 1], 200), rng.choice(colr[:, 2], 200)
        m = rng.uniform(16, 20, 200)
        mon.equal('colbkg_symmetric', cb.lookup_offdiag(1, 2, c1, c2, m), cb.lookup_offdiag(2, 1, c2, c1, m))
    mon.check('colbkg_missing', np.all(cb.lookup_diagonal(3, np.ones(4), np.ones(4), doRaise=False) == 0))
    try:
        cb.lookup_diagonal(3, np.ones(4), np.ones(4))
        mon.check('colbkg_missing', False)
    except KeyError:
        mon.check('colbkg_missing', True)
    mon.distinct('col', case['region'], case['seed'] % 3)
