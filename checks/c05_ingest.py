"""C05: ingestion of galaxies conserves every accepted galaxy exactly once."""
import glob
import os
import sys
import time
from collections import Counter
import numpy as np
import fitsio
import hpgeom as hpg
import skygen

RULE = ('one ingested catalogue, keyed by (serial/parallel, nside, region, appends, mask, ids mode, bands, extra columns); '
        'for rejections, the kind of illegal input')
REQUIRED = {'conserved': 20, 'pixel_membership': 20, 'rejected': 20, 'parallel_finalized': 2, 'masked_ingest': 3,
            'master_counts': 20}
BUDGET = {'quick': 600, 'thorough': 2700}
ASSUMPTIONS = ['hpgeom assigns positions to pixels correctly', 'fitsio reads back what was written']


def plan(tier, seed):
    n = 40 if tier == 'quick' else 400
    out, k = [], 0
    regs = sorted(skygen.REGIONS)
    for j in range(n):
        out.append({'kind': 'serial', 'region': regs[j % len(regs)], 'seed': seed * 6151 + k})
        k += 1
    for j in range(6 if tier == 'quick' else 60):
        out.append({'kind': 'parallel', 'region': regs[j % len(regs)], 'seed': seed * 6151 + k})
        k += 1
    for j in range(16 if tier == 'quick' else 100):
        out.append({'kind': 'reject', 'seed': seed * 6151 + k})
        k += 1
    return out


def make_mask(rng, fn, ra, dec):
    import healsparse
    m = healsparse.HealSparseMap.make_empty(32, 256, dtype=np.float32)
    pix = np.unique(hpg.angle_to_pixel(256, ra, dec))
    keep = pix[rng.uniform(size=pix.size) < 0.6]
    if keep.size == 0:
        keep = pix[:1]
    m[keep] = np.ones(keep.size, dtype=np.float32)
    m.write(fn)
    return set(keep.tolist())


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    {'serial': serial, 'parallel': parallel, 'reject': reject}[case['kind']](rng, case, mon, env)


def read_all(tmp, base):
    tab = fitsio.read('%s/%s_master_table.fit' % (tmp, base), ext=1)
    return tab


def audit(mon, tmp, base, nside, want, nmag, info, wit, order=True, gen_ids=False):
    """Everything on disk against the list of accepted input rows."""
    from redmapper.galaxy import GalaxyCatalog
    master = os.path.join(tmp, base + '_master_table.fit')
    mon.check('master_written', os.path.isfile(master), **wit)
    tab = fitsio.read(master, ext=1, lower=True)[0]
    hdr = fitsio.read_header(master, ext=1)
    pix = np.atleast_1d(tab['hpix'])
    ngals = np.atleast_1d(tab['ngals'])
    files = np.atleast_1d(tab['filenames'])
    wantpix = hpg.angle_to_pixel(nside, want['ra'], want['dec'], nest=False)
    mon.check('master_counts', np.array_equal(np.unique(wantpix), np.sort(pix))
              and all(int(n) == int(np.sum(wantpix == p)) for p, n in zip(pix, ngals)), pixels=pix, ngals=ngals, **wit)
    ok = int(tab['nside']) == nside and int(tab['nmag']) == nmag and hdr['PIXELS'] == 1 and hdr['FITS'] == 1
    ok = ok and np.isclose(float(tab['lim_ref']), info['LIM_REF']) and int(tab['ref_ind']) == info['REF_IND']
    ok = ok and np.isclose(float(tab['area']), info['AREA']) and np.isclose(float(tab['zeropoint']), info['ZP'])
    ok = ok and np.allclose(np.atleast_1d(tab['b'])[:nmag], info['B'], rtol=1e-12, atol=0.0)
    md = tab['mode']
    ok = ok and (md.decode() if isinstance(md, bytes) else str(md)).strip() == info['MODE']
    ok = ok and bool(tab['has_truth']) == ('ztrue' in want.dtype.names) and bool(tab['has_zspec']) == ('zspec' in want.dtype.names)
    for b in 'ugrizy':
        key = b.upper() + '_IND'
        if key in info:
            ok = ok and int(tab[b + '_ind']) == info[key]
        else:
            ok = ok and (b + '_ind') not in tab.dtype.names
    mon.check('master_metadata', ok, **wit)
    cra, cdec = hpg.pixel_to_angle(nside, pix, nest=False)
    mon.close('master_pixel_centres', np.concatenate([np.atleast_1d(tab['ra_pix']), np.atleast_1d(tab['dec_pix'])]),
              np.concatenate([cra, cdec]), rtol=1e-10, atol=1e-9)
    names = [n for n in want.dtype.names if not (gen_ids and n == 'id')]
    rows = []
    ids = []
    for p, n, f in zip(pix, ngals, files):
        f = f.decode() if isinstance(f, bytes) else str(f)
        d = fitsio.read(os.path.join(tmp, f.strip()), ext=1, lower=True)
        mon.check('file_rowcount', d.size == int(n), file=f, rows=d.size, table=int(n), **wit)
        pp = hpg.angle_to_pixel(nside, d['ra'], d['dec'], nest=False)
        mon.check('pixel_membership', bool(np.all(pp == p)), pixel=int(p), **wit)
        sub = want[wantpix == p]
        if order:
            a, b = skygen.canon(d, names), skygen.canon(sub, names)
            mon.check('pixel_rows_in_append_order', a == b, pixel=int(p), rows=d.size, **wit)
        rows.extend(skygen.canon(d, names))
        ids.extend(d['id'].tolist())
    stray = set(os.path.basename(x) for x in glob.glob(os.path.join(tmp, base + '_*.fit')))
    stray -= set((f.decode() if isinstance(f, bytes) else str(f)).strip() for f in files) | {base + '_master_table.fit'}
    mon.check('no_stray_files', not stray, stray=sorted(stray), **wit)
    mon.check('no_locks_left', not glob.glob(os.path.join(tmp, '*.lock')), **wit)
    mon.check('conserved', Counter(rows) == Counter(skygen.canon(want, names)), stored=len(rows), accepted=want.size, **wit)
    mon.check('ids_unique', len(set(ids)) == len(ids), **wit)
    # what a user reads back
    try:
        cat = GalaxyCatalog.from_galfile(master, truth='ztrue' in names)
    except Exception as e:
        if pix.size > 1:
            raise
        # F-C05-1: fitsio collapses one-element columns of the master table
        mon.violation('single_pixel_table_unreadable', exception=repr(e)[:200], **wit)
        return
    got = np.zeros(cat.size, dtype=want.dtype)
    for n in want.dtype.names:
        got[n] = getattr(cat, n)
    mon.check('readback', Counter(skygen.canon(got, names)) == Counter(skygen.canon(want, names)), rows=cat.size, **wit)
    # colours and their errors
    m = np.asarray(cat.mag, dtype='f8')
    e = np.asarray(cat.mag_err, dtype='f8')
    mon.close('colours', cat.galcol, m[:, :-1] - m[:, 1:], rtol=1e-4, atol=1e-4)
    mon.close('colour_errors', cat.galcol_err, np.sqrt(e[:, :-1]**2 + e[:, 1:]**2), rtol=1e-4, atol=1e-6)


def serial(rng, case, mon, env):
    from redmapper.galaxy import GalaxyCatalogMaker
    tmp = env.tmp()
    nmag = int(rng.choice([2, 3, 4, 5]))
    nside = int(rng.choice([2, 8, 32, 64]))
    truth, zspec, extra = bool(rng.randint(2)), bool(rng.randint(2)), bool(rng.randint(2))
    n = int(rng.choice([1, 2, 30, 400, 2000]))
    size = float(rng.choice([0.5, 6.0, 25.0]))
    g = skygen.galaxies(rng, n, nmag, case['region'], size, truth=truth, zspec=zspec, extra=extra)
    if rng.uniform() < 0.3:
        g['ra'][0] = rng.choice([0.0, 360.0])
    info = skygen.info(nmag)
    for b in 'ugrizy':
        if rng.uniform() < 0.5:
            info[b.upper() + '_IND'] = int(rng.randint(nmag))
    if rng.uniform() < 0.3:
        info['B'] = rng.uniform(1e-11, 1e-10, nmag)
        # asinh magnitudes of undetected sources carry huge errors, which are legal there
        g['mag_err'][rng.randint(n), rng.randint(nmag)] = rng.choice([90.0, 99.0, 150.0])
        mon.event('luptitude_ingest')
    gen = bool(rng.uniform() < 0.3)
    if gen:
        g['id'] = rng.randint(1, max(2, n // 2), n)
    kw = {}
    usemask = rng.uniform() < 0.35
    want = g
    if usemask:
        mf = os.path.join(tmp, 'mask.hsp')
        keep = make_mask(rng, mf, g['ra'], g['dec'])
        inm = np.array([p in keep for p in hpg.angle_to_pixel(256, g['ra'], g['dec'])]) & (np.abs(g['dec']) < 90)
        if not inm.any():
            usemask = False
        else:
            want = g[inm]
            kw = dict(maskfile=mf, mask_mode=3)
            mon.event('masked_ingest')
    base = rng.choice(['cat', 'cat_1234567', 'my_cat'])
    sub = os.path.join(tmp, rng.choice(['out', 'run_7654321_x']))
    mk = GalaxyCatalogMaker(os.path.join(sub, base), info, nside=nside, parallel=False, generate_unique_ids=gen,
                            ingest_truth=truth, ingest_zspec=zspec, **kw)
    snap = g.tobytes()
    if rng.uniform() < 0.3:
        mk.split_galaxies(g)
        napp = 1
    else:
        napp = int(rng.choice([1, 2, 5]))
        cuts = np.sort(rng.randint(0, n + 1, napp - 1))
        for part in np.split(g, cuts):
            if part.size or rng.uniform() < 0.5:
                mk.append_galaxies(part)
        mk.finalize_catalog()
    mon.check('input_unmodified', g.tobytes() == snap)
    wit = dict(nside=nside, region=case['region'], n=n, size=size, nmag=nmag, gen=gen, mask=usemask, base=base, napp=napp)
    audit(mon, sub, base, nside, want, nmag, info, wit, gen_ids=gen)
    mon.distinct('serial', nside, case['region'], napp, usemask, gen, nmag, truth, zspec, extra, n)
    mon.sample(wit)
    # a finalized catalogue is immutable
    for f in (lambda: mk.append_galaxies(g), lambda: mk.split_galaxies(g),
              lambda: GalaxyCatalogMaker(os.path.join(sub, base), info, nside=nside)):
        try:
            f()
            ok = False
        except RuntimeError:
            ok = True
        mon.check('finalized_is_closed', ok, **wit)


def parallel(rng, case, mon, env):
    """Real processes, contended pixel files, jittered waits."""
    import multiprocessing as mp
    tmp = env.tmp()
    nmag, nside = 3, int(rng.choice([8, 16, 32]))
    nproc = int(rng.choice([2, 3, 5]))
    n = int(rng.choice([60, 600]))
    gen = bool(rng.randint(2))
    g = skygen.galaxies(rng, n, nmag, case['region'], float(rng.choice([3.0, 9.0])))
    info = skygen.info(nmag)
    base = 'pcat'
    sub = os.path.join(tmp, rng.choice(['out', 'job_0000003']))
    parts = np.array_split(rng.permutation(n), nproc)
    ctx = mp.get_context('fork')
    bar = ctx.Barrier(nproc)
    seeds = [int(rng.randint(2**31)) for _ in range(nproc)]

    def put(i, text):
        with open(os.path.join(tmp, 'res-%d.t' % i), 'w') as f:
            f.write(text)
        os.rename(os.path.join(tmp, 'res-%d.t' % i), os.path.join(tmp, 'res-%d' % i))

    def work(i):
        try:
            r = np.random.RandomState(seeds[i])
            real = time.sleep
            time.sleep = lambda t: real(min(t, 0.004) * r.uniform(0.2, 2.0))
            from redmapper.galaxy import GalaxyCatalogMaker
            bar.wait(60)
            mk = GalaxyCatalogMaker(os.path.join(sub, base), info, nside=nside, parallel=True, generate_unique_ids=gen)
            for chunk in np.array_split(g[parts[i]], int(r.choice([1, 3]))):
                if chunk.size:
                    mk.append_galaxies(chunk)
            bar.wait(120)
            mk.finalize_catalog()
            put(i, '')
        except BaseException as e:
            import traceback
            put(i, traceback.format_exc())
            bar.abort()
        sys.stdout.flush()
        os._exit(0)

    ps = [ctx.Process(target=work, args=(i,)) for i in range(nproc)]
    for p in ps:
        p.start()
    res = {}
    t_end = time.time() + 120
    while len(res) < nproc and time.time() < t_end:
        time.sleep(0.02)
        for i in range(nproc):
            if i not in res and os.path.isfile(os.path.join(tmp, 'res-%d' % i)):
                res[i] = open(os.path.join(tmp, 'res-%d' % i)).read()
    for p in ps:
        p.join(20)
        if p.is_alive():
            p.kill()
    wit = dict(nproc=nproc, n=n, nside=nside, region=case['region'], gen=gen)
    errs = [e for e in res.values() if e and 'BrokenBarrier' not in e]
    mon.check('parallel_workers_succeed', len(res) == nproc and not errs, errors=errs, finished=len(res), **wit)
    if len(res) == nproc and not errs:
        mon.event('parallel_finalized')
        audit(mon, sub, base, nside, g, nmag, info, wit, order=False, gen_ids=gen)
        mon.distinct('parallel', nproc, n, nside, case['region'], gen)


def reject(rng, case, mon, env):
    from redmapper.galaxy import GalaxyCatalogMaker
    tmp = env.tmp()
    nmag = int(rng.choice([3, 5]))
    g = skygen.galaxies(rng, 50, nmag, 'eq', 3.0, truth=True, zspec=True)
    info = skygen.info(nmag)

    def bad(kind):
        b = g.copy()
        b['id'] += 1000
        i, j = int(rng.randint(b.size)), int(rng.randint(nmag))
        if kind.startswith('nan_'):
            c = kind[4:]
            v = rng.choice([np.nan, np.inf, -np.inf])
            if b[c].ndim == 2:
                b[c][i, j] = v
            else:
                b[c][i] = v
        elif kind == 'mag_90':
            b['mag'][i, j] = rng.choice([90.0, 99.0, 1000.])
        elif kind == 'magerr_90':
            b['mag_err'][i, j] = rng.choice([90.0, 99.0])
        elif kind == 'mag_zero':
            b['mag'][i, j] = rng.choice([0.0, -1.0, -99.0])
        elif kind == 'magerr_zero':
            b['mag_err'][i, j] = rng.choice([0.0, -0.1])
        elif kind == 'ra_range':
            b['ra'][i] = rng.choice([-0.001, 360.01, -90.0, 720.])
        elif kind == 'dec_range':
            b['dec'][i] = rng.choice([-90.001, 90.1, 180.])
        elif kind == 'dup_id':
            b['id'][i] = b['id'][(i + 7) % b.size]
        elif kind == 'missing':
            c = rng.choice(['id', 'refmag', 'refmag_err', 'mag_err', 'ebv', 'ztrue', 'halo_id', 'zspec', 'zspec_err'])
            b = b[[x for x in b.dtype.names if x != c]].copy()
        elif kind == 'nmag':
            dt = [(x[0], x[1]) if len(x) == 2 else (x[0], x[1], nmag + int(rng.choice([-1, 1]))) for x in b.dtype.descr]
            c = np.zeros(b.size, dtype=dt)
            for x in b.dtype.names:
                if x in ('mag', 'mag_err'):
                    c[x] = 20.0 if x == 'mag' else 0.1
                else:
                    c[x] = b[x]
            b = c
        elif kind == 'float_id':
            dt = [(x[0], 'f8') + tuple(x[2:]) if x[0] == 'id' else x for x in b.dtype.descr]
            b = b.astype(dt)
        return b
    kinds = ['nan_' + c for c in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'ebv', 'ztrue', 'zspec', 'zspec_err')]
    kinds += ['mag_90', 'magerr_90', 'mag_zero', 'magerr_zero', 'ra_range', 'dec_range', 'dup_id', 'missing', 'nmag', 'float_id']
    sub = os.path.join(tmp, 'o')
    mk = GalaxyCatalogMaker(os.path.join(sub, 'c'), info, nside=16, ingest_truth=True, ingest_zspec=True)
    first, second = g[:30], g[30:]
    mk.append_galaxies(first)
    for kind in kinds:
        b = bad(kind)
        try:
            mk.append_galaxies(b)
            ok = False
        except (RuntimeError, ValueError):
            ok = True
        mon.check('rejected', ok, illegal=kind, nmag=nmag)
        mon.distinct('reject', kind, nmag)
        if not ok:
            return
    # nothing of the rejected batches was stored, and ingestion goes on
    mk.append_galaxies(second)
    mk.finalize_catalog()
    audit(mon, sub, 'c', 16, g, nmag, info, dict(after='rejections'))
    # ids that clash only between batches are found at the end, and leave no usable catalogue behind
    sub2 = os.path.join(tmp, 'o2')
    mk2 = GalaxyCatalogMaker(os.path.join(sub2, 'c'), info, nside=16)
    mk2.append_galaxies(g)
    clash = g[:3].copy()
    clash['id'][1:] = [100001, 100002]
    mk2.append_galaxies(clash)
    try:
        mk2.finalize_catalog()
        ok = False
    except RuntimeError:
        ok = True
    mon.check('rejected', ok, illegal='clashing ids across batches')
    mon.check('no_master_for_rejected', not os.path.isfile(os.path.join(sub2, 'c_master_table.fit')))
    for outbase in ('nopath',):
        try:
            GalaxyCatalogMaker(outbase, info)
            ok = False
        except RuntimeError:
            ok = True
        mon.check('rejected', ok, illegal='outbase without path')


def matches_finding(f, v):
    return f['id'] == 'F-C05-1' and v['monitor'] == 'single_pixel_table_unreadable'
