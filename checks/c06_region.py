"""C06: reading part of a galaxy table returns the right galaxies, once, with their own zreds."""
import os
from collections import Counter
import numpy as np
import fitsio
import hpgeom as hpg
import skygen

RULE = 'one region read of a galaxy table, keyed by (table nside, region nside, border, list/scalar, tempfile, zreds, truth, sky region)'
REQUIRED = {'no_duplicates': 50, 'region_complete': 50, 'region_contained': 20, 'zred_aligned': 20, 'tempfile_equal': 20,
            'cuts_exact': 10, 'missing_zred_pixels_skipped': 3}
BUDGET = {'quick': 500, 'thorough': 2700}
ASSUMPTIONS = ['hpgeom pixel geometry; the border is honoured to the 0.12 degree resolution of the trimming grid']
SLOP = 0.13      # one cell of the nside=512 trimming grid
_tables = {}


def plan(tier, seed):
    n = 36 if tier == 'quick' else 300
    regs = sorted(skygen.REGIONS)
    out = [{'kind': 'region', 'region': regs[j % len(regs)], 'seed': seed * 4421 + j} for j in range(n)]
    out += [{'kind': 'flat', 'seed': seed * 4421 + 90000 + j} for j in range(n // 6)]
    out += [{'kind': 'reject', 'seed': seed * 4421 + 95000 + j} for j in range(4)]
    return out


def write_table(rng, d, region, nside_tab, n, size, truth):
    """A galaxy table and a matching zred table, written with fitsio only."""
    nmag = 3
    g = skygen.galaxies(rng, n, nmag, region, size, truth=truth)
    pix = hpg.angle_to_pixel(nside_tab, g['ra'], g['dec'], nest=False)
    hp = np.unique(pix)
    os.makedirs(d)
    dt = [('nside', 'i2'), ('hpix', 'i4', hp.size), ('ra_pix', 'f8', hp.size), ('dec_pix', 'f8', hp.size),
          ('ngals', 'i4', hp.size), ('filenames', 'S40', hp.size), ('lim_ref', 'f4'), ('ref_ind', 'i2'), ('area', 'f8'),
          ('nmag', 'i4'), ('mode', 'S10'), ('b', 'f8', nmag), ('zeropoint', 'f4'), ('has_truth', 'i2'), ('has_zspec', 'i2')]
    zdt = [('nside', 'i2'), ('hpix', 'i4', hp.size), ('ngals', 'i4', hp.size), ('filenames', 'S40', hp.size)]
    t, zt = np.zeros(1, dtype=dt), np.zeros(1, dtype=zdt)
    for x in (t, zt):
        x['nside'] = nside_tab
        x['hpix'][0] = hp
        x['ngals'][0] = [np.sum(pix == p) for p in hp]
    t['nmag'], t['mode'], t['has_truth'] = nmag, b'SDSS', truth
    for i, p in enumerate(hp):
        sub = g[pix == p]
        f, zf = 'g_%07d.fit' % p, 'g_zreds_%07d.fit' % p
        t['filenames'][0][i], zt['filenames'][0][i] = f.encode(), zf.encode()
        fitsio.write(os.path.join(d, f), sub)
        z = np.zeros(sub.size, dtype=[('zred', 'f4'), ('zred_e', 'f4'), ('chisq', 'f4'), ('lkhd', 'f4'), ('zred_samp', 'f4', 2)])
        z['zred'] = zfun(sub['id'])
        z['zred_e'] = 0.5 * z['zred']
        z['chisq'] = 10.0 * cfun(sub['id'])
        z['lkhd'] = -z['chisq']
        z['zred_samp'][:, 0] = z['zred'] + 1
        fitsio.write(os.path.join(d, zf), z)
    h = fitsio.FITSHDR()
    h['PIXELS'] = 1
    h['FITS'] = 1
    fitsio.write(os.path.join(d, 'g_master_table.fit'), t, header=h)
    fitsio.write(os.path.join(d, 'g_zreds_master_table.fit'), zt, header=h)
    return g, pix, hp


def zfun(i):
    return ((np.asarray(i) * 37) % 1009).astype('f4') / 1009.


def cfun(i):
    x = ((np.asarray(i) * 101) % 997).astype('f4') / 997.
    return np.where(np.asarray(i) % 11 == 0, x * 1e4, x).astype('f4')


def pixel_distance(nside, hpix, ra, dec):
    """distance (deg) of points to a healpix pixel, 0 inside; by dense sampling of its edge."""
    inside = hpg.angle_to_pixel(nside, ra, dec, nest=False) == hpix
    step = 400
    bra, bdec = hpg.boundaries(nside, np.array([hpix]), step=step, nest=False, lonlat=True)
    bv = skygen.vec(bra[0], bdec[0])
    v = skygen.vec(ra, dec)
    from scipy.spatial import cKDTree
    d, _ = cKDTree(bv).query(v)
    ang = np.degrees(2 * np.arcsin(np.clip(d / 2, 0, 1)))
    ang[inside] = 0.0
    return ang


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    {'region': region, 'flat': flat, 'reject': reject}[case['kind']](rng, case, mon, env)


def region(rng, case, mon, env):
    from redmapper.galaxy import GalaxyCatalog
    tmp = os.path.join(env.tmp(), 'tab')
    nside_tab = int(rng.choice([8, 16, 32]))
    truth = bool(rng.randint(2))
    n = 4000
    g, pix, hp = write_table(rng, tmp, case['region'], nside_tab, n, float(rng.choice([16.0, 30.0])), truth)
    if hp.size < 2:
        return
    master = os.path.join(tmp, 'g_master_table.fit')
    zmaster = os.path.join(tmp, 'g_zreds_master_table.fit')
    byid = {int(r['id']): k for k, r in enumerate(g)}
    for rep in range(6):
        nside = int(rng.choice([2, 4, 8, 16, 32]))
        if nside > nside_tab:
            nside = nside_tab
        border = float(rng.choice([0.0, 0.0, 0.3, 1.0, 3.0]))
        rpix = hpg.angle_to_pixel(nside, g['ra'], g['dec'], nest=False)
        mode = rng.choice(['scalar', 'list1', 'list', 'full'])
        if mode == 'full':
            hpix, regionset = [], None
        elif mode == 'list':
            border = 0.0
            u = np.unique(rpix)
            hpix = [int(x) for x in rng.permutation(u)[:rng.randint(1, min(5, u.size) + 1)]]
            regionset = hpix
        else:
            p = int(rpix[rng.randint(n)])
            hpix = p if mode == 'scalar' else [p]
            regionset = [p]
        use_z = bool(rng.randint(2))
        kw = dict(nside=nside, hpix=hpix, border=border)
        if use_z:
            kw['zredfile'] = zmaster
        if truth and rng.randint(2):
            kw['truth'] = True
        wit = dict(nside_tab=nside_tab, nside=nside, border=border, mode=str(mode), hpix=hpix, zred=use_z, region=case['region'])
        cat = GalaxyCatalog.from_galfile(master, **kw)
        ids = np.asarray(cat.id).astype(int)
        mon.check('no_duplicates', np.unique(ids).size == ids.size, n_read=ids.size, **wit)
        mon.check('ids_known', all(int(i) in byid for i in ids), **wit)
        k = np.array([byid[int(i)] for i in ids], dtype=int)
        for nm in ('ra', 'dec', 'refmag', 'mag', 'mag_err', 'refmag_err', 'ebv'):
            mon.check('rows_intact', np.array_equal(np.asarray(getattr(cat, nm)), g[nm][k]), column=nm, **wit)
        if truth:
            mon.check('truth_columns', ('ztrue' in cat.dtype.names) == bool(kw.get('truth')), **wit)
            if kw.get('truth'):
                mon.check('rows_intact', np.array_equal(np.asarray(cat.halo_id), g['halo_id'][k]), column='halo_id', **wit)
        if use_z:
            mon.check('zred_aligned', np.allclose(cat.zred, zfun(ids), atol=1e-6) and np.allclose(cat.chisq, 10 * cfun(ids), rtol=1e-6, atol=1e-5)
                      and np.allclose(np.asarray(cat.zred_samp)[:, 0], zfun(ids) + 1, atol=1e-5), **wit)
        got = np.zeros(n, dtype=bool)
        got[k] = True
        if regionset is None:
            mon.check('region_complete', bool(np.all(got)), **wit)
            must = np.ones(n, dtype=bool)
        else:
            inreg = np.isin(rpix, regionset)
            if border == 0.0:
                mon.check('region_complete', bool(np.all(got[inreg])), missing=int(np.sum(inreg & ~got)), **wit)
                mon.check('region_contained', not np.any(got & ~inreg), extra=int(np.sum(got & ~inreg)), **wit)
            else:
                d = pixel_distance(nside, regionset[0], g['ra'], g['dec'])
                must = d <= border - 0.02
                mon.check('region_complete', bool(np.all(got[must])), missing=int(np.sum(must & ~got)),
                          worst=float(d[must & ~got].min()) if np.any(must & ~got) else None, **wit)
                may = d <= border + 2.0 * SLOP
                mon.check('region_contained', not np.any(got & ~may), extra=int(np.sum(got & ~may)),
                          worst=float(d[got & ~may].max()) if np.any(got & ~may) else None, **wit)
        # memory-saving mode: same rows, plus the cuts
        lo, hi = sorted(rng.uniform(14, 23, 2))
        cmax = float(rng.choice([1e100, 5.0, 20.0, 3000.0]))
        if rng.uniform() < 0.4:
            lo, hi = -1000.0, 1000.0
        try:
            t = GalaxyCatalog.from_galfile(master, use_tempfile=True, refmag_range=[lo, hi], chisq_max=cmax, **kw)
            tid = np.asarray(t.id).astype(int)
        except Exception:
            raise
        cut = (g['refmag'][k] > lo) & (g['refmag'][k] < hi)
        if use_z:
            cut &= np.asarray(cat.chisq) < cmax
        mon.check('tempfile_equal', Counter(tid.tolist()) == Counter(ids[cut].tolist()), got=tid.size, want=int(cut.sum()), **wit)
        if lo > 0 or cmax < 100:
            mon.event('cuts_exact')
        kk = np.array([byid[int(i)] for i in tid], dtype=int)
        mon.check('tempfile_rows', np.array_equal(np.asarray(t.mag).reshape(-1, 3), g['mag'][kk]), **wit)
        if use_z:
            mon.check('zred_aligned', np.allclose(t.zred, zfun(tid), atol=1e-6), **wit)
        mon.distinct(nside_tab, nside, border, mode, use_z, bool(kw.get('truth')), case['region'])
    mon.sample(dict(read=int(ids.size), **wit))
    # pixels without a zred file are left out as a whole, the others stay aligned
    drop = hp[rng.permutation(hp.size)[:max(1, hp.size // 3)]]
    drop = drop[:hp.size - 1]
    for p in drop:
        os.remove(os.path.join(tmp, 'g_zreds_%07d.fit' % p))
    cat = GalaxyCatalog.from_galfile(master, zredfile=zmaster)
    want = g['id'][~np.isin(pix, drop)]
    mon.check('missing_zred_pixels_skipped', Counter(np.asarray(cat.id).tolist()) == Counter(want.tolist()), got=cat.size,
              want=want.size)
    mon.check('zred_aligned', np.allclose(cat.zred, zfun(np.asarray(cat.id)), atol=1e-6))


def flat(rng, case, mon, env):
    """Unpixelized files."""
    from redmapper.galaxy import GalaxyCatalog
    tmp = env.tmp()
    n = int(rng.choice([1, 5, 300]))
    g = skygen.galaxies(rng, n, 3, 'eq', 4.0)
    z = np.zeros(n, dtype=[('zred', 'f4'), ('chisq', 'f4')])
    z['zred'] = zfun(g['id'])
    fitsio.write(os.path.join(tmp, 'a.fit'), g)
    fitsio.write(os.path.join(tmp, 'z.fit'), z)
    c = GalaxyCatalog.from_galfile(os.path.join(tmp, 'a.fit'), zredfile=os.path.join(tmp, 'z.fit'))
    mon.check('zred_aligned', np.array_equal(c.id, g['id']) and np.array_equal(c.zred, zfun(g['id'])))
    fitsio.write(os.path.join(tmp, 'z2.fit'), np.append(z, z[:1]))
    try:
        GalaxyCatalog.from_galfile(os.path.join(tmp, 'a.fit'), zredfile=os.path.join(tmp, 'z2.fit'))
        ok = False
    except ValueError:
        ok = True
    mon.check('length_mismatch_rejected', ok)
    mon.distinct('flat', n)


def reject(rng, case, mon, env):
    from redmapper.galaxy import GalaxyCatalog
    tmp = os.path.join(env.tmp(), 'tab')
    g, pix, hp = write_table(rng, tmp, 'eq', 16, 500, 20.0, False)
    m = os.path.join(tmp, 'g_master_table.fit')
    flatf = os.path.join(tmp, 'flat.fit')
    fitsio.write(flatf, g)
    for kw in (dict(nside=4, hpix=[192]), dict(nside=4, hpix=[-1]), dict(nside=4, hpix=[1], border=-1.0),
               dict(nside=32, hpix=[1]), dict(nside=4, hpix=[40, 41], border=1.0), dict(truth=True), dict(zspec=True),
               dict(zredfile=flatf)):
        try:
            GalaxyCatalog.from_galfile(m, **kw)
            ok = False
        except (ValueError, NotImplementedError, RuntimeError):
            ok = True
        mon.check('rejected', ok, args=kw)
        mon.distinct('reject', kw)
    # mis-sized zred file
    zf = os.path.join(tmp, 'g_zreds_%07d.fit' % hp[0])
    d = fitsio.read(zf)
    fitsio.write(zf, np.append(d, d), clobber=True)
    try:
        GalaxyCatalog.from_galfile(m, zredfile=os.path.join(tmp, 'g_zreds_master_table.fit'))
        ok = False
    except Exception:
        ok = True
    mon.check('rejected', ok, args='zred file with the wrong number of rows')
