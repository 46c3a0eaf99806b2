"""C17: splitting a run over sky pixels and processes, restarting it and merging it gives every cluster exactly once.

The three passes are replaced by stand-ins (on the real runner classes) that deal out a known list of clusters: each pixel gets its own clusters and
degraded copies of its neighbours' (as borders do), and every call is recorded in an append-only log.  Offline checkers over log and files decide."""
import glob
import json
import multiprocessing
import os
import time
import numpy as np
import fitsio
import hpgeom as hpg
import rmx
import skygen

RULE = ('one parallel run or consolidation judged, keyed by (kind, sky region, table nside, run region, processes, options, injected fault, number of clusters); '
        'or one lock contention run keyed by (processes, rounds)')
REQUIRED = {'exactly_once': 16, 'members_follow': 14, 'ids_ranked': 14, 'values_kept': 14, 'pixel_once': 10, 'restart_skips': 3, 'restart_completes': 3, 'handoff': 20,
            'consolidate_cuts': 8, 'consolidate_ids': 8, 'consolidate_members': 8, 'spec_match': 3, 'runcat_once': 3, 'zred_table': 4, 'zred_values': 4, 'lock_exclusive': 3,
            'lock_clean': 3, 'memory_prediction': 2, 'plots': 3}
BUDGET = {'quick': 600, 'thorough': 850}
ASSUMPTIONS = ['a run is interrupted by errors of a pass, not by the machine stopping in the middle of a file write (output files are not written atomically)',
               'one outpath holds one run: a single nside and outbase']
FORK = multiprocessing.get_context('fork')


def plan(tier, seed):
    n = 36 if tier == 'quick' else 400
    rg = sorted(skygen.REGIONS)
    out = [{'kind': 'run', 'region': rg[j % len(rg)], 'fault': ['none', 'raise', 'empty', 'none'][j % 4], 'seed': seed * 5813 + j} for j in range(n)]
    out += [{'kind': 'pipe', 'region': rg[j % len(rg)], 'vlim': bool(j % 2), 'seed': seed * 5813 + 10000 + j} for j in range(n - 4)]
    out += [{'kind': 'runcat', 'region': rg[j % len(rg)], 'cattype': ['lambda_chisq', 'randoms_zmask', 'zscan'][j % 3], 'seed': seed * 5813 + 20000 + j} for j in range(3 * (n // 6 + 1))]
    out += [{'kind': 'zred', 'region': rg[j % len(rg)], 'fault': bool(j % 2), 'seed': seed * 5813 + 30000 + j} for j in range(max(5, n // 4))]
    out += [{'kind': 'lock', 'seed': seed * 5813 + 40000 + j} for j in range(max(4, n // 6))]
    out += [{'kind': 'mem', 'region': rg[j % len(rg)], 'seed': seed * 5813 + 50000 + j} for j in range(max(3, n // 8))]
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    globals()['do_' + case['kind']](rng, case, mon, env, env.tmp())


# ------------------------------------------------------------------ the known sky
TRUTH = {}
CAT_DT = [('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('REFMAG', 'f4'), ('LAMBDA', 'f4'), ('SCALEVAL', 'f4'), ('MASKFRAC', 'f4'), ('LNLIKE', 'f4'),
          ('LNLAMLIKE', 'f4'), ('Z_LAMBDA', 'f4'), ('Z_LAMBDA_E', 'f4'), ('PZBINS', 'f4', (5,)), ('PZ', 'f4', (5,)), ('CG_SPEC_Z', 'f4'), ('TAG', 'i4'), ('OWN', 'i2')]
MEM_DT = [('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('P', 'f4'), ('ZSPEC', 'f4'), ('TAG', 'i4'), ('OWN', 'i2'), ('SEQ', 'i4')]


def make_truth(rng, g, n):
    t = np.zeros(n, dtype=CAT_DT)
    k = rng.choice(g.size, n, replace=False)
    t['RA'], t['DEC'] = g['ra'][k], g['dec'][k]
    t['LAMBDA'] = rng.uniform(2.0, 60.0, n)
    t['SCALEVAL'] = rng.uniform(1.0, 1.8, n)
    t['MASKFRAC'] = np.where(rng.uniform(size=n) < 0.8, rng.uniform(0, 0.19, n), rng.uniform(0.21, 1, n))
    t['LNLIKE'] = rng.permutation(n) * 1.5 + 1
    t['LNLAMLIKE'] = rng.permutation(n) * 2.5 + 1
    t['Z_LAMBDA'] = rng.uniform(0.1, 0.5, n)
    t['Z'] = t['Z_LAMBDA']
    t['Z_LAMBDA_E'] = 0.01
    t['PZBINS'] = t['Z_LAMBDA'][:, None] + 0.005 * np.arange(-2, 3)[None, :]
    t['PZ'] = np.exp(-0.5 * (0.5 * np.arange(-2, 3))**2)
    t['REFMAG'] = 17.
    t['CG_SPEC_Z'] = -2.0
    t['TAG'] = np.arange(n) + 1000
    t['OWN'] = 1
    nm = rng.randint(1, 6, n)
    m = np.zeros(nm.sum(), dtype=MEM_DT)
    m['TAG'] = np.repeat(t['TAG'], nm)
    j = np.repeat(np.arange(n), nm)
    m['RA'], m['DEC'] = t['RA'][j], np.clip(t['DEC'][j] + rng.uniform(-0.02, 0.02, m.size), -89.999, 89.999)
    first = np.concatenate([[0], np.cumsum(nm)[:-1]])
    m['DEC'][first] = t['DEC']
    m['P'] = rng.uniform(0, 1, m.size)
    m['P'][rng.uniform(size=m.size) < 0.1] = 0.0
    m['ZSPEC'] = -2.0
    m['OWN'] = 1
    m['SEQ'] = np.arange(m.size)
    return t, m


def deal(nside, hpix, rng, keep_ids=False):
    """what a run on one pixel returns: its own clusters and degraded copies of the neighbours'."""
    t, m = TRUTH['t'], TRUTH['m']
    if nside > 0:
        own = hpg.angle_to_pixel(nside, t['RA'], t['DEC'], nest=False) == hpix
        cr, cd = hpg.pixel_to_angle(nside, hpix, nest=False)
        near = own | (skygen.sep(t['RA'], t['DEC'], cr, cd) < 2.0 * hpg.nside_to_resolution(nside))
    else:
        own = near = np.ones(t.size, bool)
    k = rng.permutation(np.where(near)[0])
    c = t[k].copy()
    c['OWN'] = own[k]
    c['LAMBDA'][~own[k]] *= 0.9
    c['LNLIKE'][~own[k]] += 0.3
    c['LNLAMLIKE'][~own[k]] += 0.3
    c['MEM_MATCH_ID'] = c['TAG'] if keep_ids else rng.permutation(k.size) + 1
    loc = {tag: (i, o) for tag, i, o in zip(c['TAG'], c['MEM_MATCH_ID'], c['OWN'])}
    mm = m[np.isin(m['TAG'], c['TAG'])].copy()
    mm = mm[rng.permutation(mm.size)]
    mm['MEM_MATCH_ID'] = [loc[x][0] for x in mm['TAG']]
    mm['OWN'] = [loc[x][1] for x in mm['TAG']]
    return own_copy(c, CAT_DT), own_copy(mm, MEM_DT)


def own_copy(a, dt):
    # a Catalog renames the columns of the dtype object it is given, which copies of an array share
    from redmapper import Catalog
    b = np.zeros(a.size, dtype=np.dtype(dt))
    for n in b.dtype.names:
        b[n] = a[n]
    return Catalog(b)


def log_event(**kw):
    s = (json.dumps(kw) + '\n').encode()
    fd = os.open(TRUTH['log'], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    try:
        os.write(fd, s)
    finally:
        os.close(fd)


def read_log():
    if not os.path.isfile(TRUTH['log']):
        return []
    return [json.loads(x) for x in open(TRUTH['log'])]


def standin(stage):
    def run(self, *a, **kw):
        c = self.config
        hp = [int(x) for x in np.atleast_1d(c.d.hpix)]
        rng = np.random.RandomState((TRUTH['salt'] + 7919 * (hp[0] if hp else 0) + len(stage)) % 2**31)
        log_event(stage=stage, nside=int(c.d.nside), hpix=hp, kw={k: bool(v) for k, v in kw.items()}, catfile=os.path.basename(str(c.catfile)), seedfile=os.path.basename(str(c.seedfile)),
                  out=os.path.basename(self.filename), specmode=bool(getattr(self, 'specmode', False)), border=float(c.border), cosmo=[float(c.cosmo.H0()), float(c.cosmo.omega_m())])
        time.sleep(rng.uniform(0, 0.02))
        flag = TRUTH.get('faults', {}).get((stage, hp[0] if hp else -1))
        if flag == 'raise' and not os.path.exists(TRUTH['log'] + '.cured'):
            raise RuntimeError('injected fault')
        if flag == 'none':
            self.cat = self.members = None
            return
        self.cat, self.members = deal(int(c.d.nside), hp[0] if hp else 0, rng, keep_ids=stage in ('runcat', 'zmask', 'zscan'))
        if flag == 'zero':
            self.cat, self.members = self.cat[np.zeros(0, dtype=int)], self.members[np.zeros(0, dtype=int)]
    return run


class Standins(object):
    def __enter__(self):
        import redmapper
        from redmapper.run_firstpass import RunFirstPass
        from redmapper.run_likelihoods import RunLikelihoods
        from redmapper.run_percolation import RunPercolation
        from redmapper.runcat import RunCatalog
        from redmapper.run_randoms_zmask import RunRandomsZmask
        from redmapper.run_zscan import RunZScan
        self.old = [(c, c.run) for c in (RunFirstPass, RunLikelihoods, RunPercolation, RunCatalog, RunRandomsZmask, RunZScan)]
        for (c, _), s in zip(self.old, ('firstpass', 'like', 'perc', 'runcat', 'zmask', 'zscan')):
            c.run = standin(s)
        return self

    def __exit__(self, *a):
        for c, r in self.old:
            c.run = r


def sky(rng, region, nside_tab, n=None):
    size = {4: 40., 8: 26., 16: 14., 32: 7.}[nside_tab]
    zr = None
    n = int(rng.choice([60, 200])) if n is None else n
    g = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 5), ('mag_err', 'f4', 5), ('ebv', 'f4'),
                           ('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')])
    g['id'] = 1 + rng.permutation(n)
    g['ra'], g['dec'] = skygen.sky_points(rng, region, n, size)
    g['refmag'] = rng.uniform(16, 20, n)
    g['mag'] = 18. + rng.uniform(size=(n, 5))
    g['mag_err'] = g['refmag_err'][:, None] + 0.05
    g['refmag_err'] = 0.05
    g['ztrue'] = rng.uniform(0.05, 0.6, n)
    return g


def conf(rng, env, d, g, nside_tab, zreds=False, **over):
    zr = None
    if zreds:
        zr = np.zeros(g.size, dtype=rmx.ZRED_DT)
    gf, zf, _ = rmx.write_galtable(os.path.join(d, 'gals'), g, nside_tab, zreds=zr, truth=True)
    o = dict(galfile=gf, zredfile=zf or os.path.join(d, 'zz', 'g_zreds_master_table.fit'), hpix=None, nside=None, border=0.0, printlogging=True)
    o.update(over)
    out = o.pop('out', d)
    os.makedirs(out, exist_ok=True)
    return rmx.test_yaml(env, out, **o)


def book(mon, cat, mem, want, wantm, rank, **w):
    """merged catalogue against the true list: once each, own copy, members with it, ids by rank."""
    tags = np.sort(cat['tag'])
    ok = mon.check('exactly_once', np.array_equal(tags, np.sort(want['TAG'])) and np.all(cat['own'] == 1), missing=np.setdiff1d(want['TAG'], tags)[:6], extra=np.setdiff1d(tags, want['TAG'])[:6],
                   n=tags.size, nwant=want.size, repeated=int(tags.size - np.unique(tags).size), foreign=int(np.sum(cat['own'] != 1)), **w)
    if not ok:
        return
    o, p = np.argsort(cat['tag']), np.argsort(want['TAG'])
    mon.check('values_kept', all(np.array_equal(cat[c.lower()][o], want[c][p]) for c in ('RA', 'DEC', 'LAMBDA', 'SCALEVAL', 'LNLIKE', 'LNLAMLIKE', 'Z_LAMBDA', 'MASKFRAC')), **w)
    if mem is None:
        return
    if rank is not None:
        st = np.argsort(cat['mem_match_id'])
        mon.check('ids_ranked', np.array_equal(cat['mem_match_id'][st], np.arange(cat.size) + 1) and np.all(np.diff(cat[rank][st]) <= 0), ids=cat['mem_match_id'][st][:6], like=cat[rank][st][:6], **w)
    ident = {int(t): int(i) for t, i in zip(cat['tag'], cat['mem_match_id'])}
    wm = wantm[np.isin(wantm['TAG'], want['TAG'])]
    good = np.array_equal(np.sort(mem['seq']), np.sort(wm['SEQ']))
    if good:
        good = all(ident[int(t)] == int(i) for t, i in zip(mem['tag'], mem['mem_match_id'])) and np.all(mem['own'] == 1)
        o, p = np.argsort(mem['seq']), np.argsort(wm['SEQ'])
        good = good and np.array_equal(mem['ra'][o], wm['RA'][p]) and np.array_equal(mem['p'][o], wm['P'][p])
    mon.check('members_follow', good, got=mem.size, want=wm.size, missing=np.setdiff1d(wm['SEQ'], mem['seq'])[:5], extra=np.setdiff1d(mem['seq'], wm['SEQ'])[:5], **w)


# ------------------------------------------------------------------ RedmapperRun
def do_run(rng, case, mon, env, d):
    from redmapper import RedmapperRun, Configuration
    nside_tab = int(rng.choice([4, 8, 16, 32]))
    g = sky(rng, case['region'], nside_tab)
    t, m = make_truth(rng, g, int(rng.choice([6, 25, 50])))
    nproc = int(rng.choice([1, 2, 3, 6]))
    minn = int(rng.choice([1, 2, 4]))
    maxfrac, minlam = 0.2, float(rng.choice([3.0, 8.0]))
    over = dict(calib_run_nproc=nproc, calib_run_min_nside=minn, max_maskfrac=maxfrac, percolation_minlambda=minlam)
    sel = np.ones(t.size, bool)
    if rng.uniform() < 0.5:
        ns = int(rng.choice([x for x in (1, 2, 4, 8, 16, 32) if x <= nside_tab]))
        pt = hpg.angle_to_pixel(ns, t['RA'], t['DEC'], nest=False)
        hp = np.unique(rng.choice(pt, rng.randint(1, 4)))
        over.update(hpix=[int(x) for x in hp], nside=ns)
        sel = np.isin(pt, hp)
    # keep at least one cluster that survives the cuts
    i = rng.choice(np.where(sel)[0])
    t['MASKFRAC'][i], t['LAMBDA'][i], t['SCALEVAL'][i] = 0.0, 50., 1.0
    out = os.path.join(d, str(rng.choice(['out', 'a.fits.dir'])))
    perconly = rng.uniform() < 0.25
    cfgfile = conf(rng, env, d, g, nside_tab, out=out, catfile='incat.fit', seedfile='inseed.fit', **over)
    cfg = Configuration(cfgfile)
    cfg.outpath = out
    TRUTH.clear()
    TRUTH.update(t=t, m=m, log=os.path.join(d, 'events.log'), salt=int(case['seed']), faults={})
    opts = dict(specmode=False, keepz=bool(rng.randint(2)), cleaninput=bool(rng.randint(2)), check=True, percolation_only=perconly, consolidate_like=(not perconly and rng.uniform() < 0.6))
    if not perconly and rng.uniform() < 0.3:
        opts.update(specmode=True, keepz=True)
    if rng.uniform() < 0.5 and not perconly:
        opts['seedfile'] = 'otherseed.fit'
    want = t[sel & (t['MASKFRAC'] < maxfrac) & (t['LAMBDA'] / t['SCALEVAL'] > minlam)]
    stages = ['perc'] if perconly else ['firstpass', 'like', 'perc']
    d0 = (cfg.d.nside, list(np.atleast_1d(cfg.d.hpix)), cfg.d.outbase)
    with Standins():
        hp_fault = None
        if case['fault'] != 'none':
            # learn the split from a dry run in another directory
            cfg.outpath = os.path.join(d, 'dry')
            os.makedirs(cfg.outpath)
            TRUTH['log'] = os.path.join(d, 'dry.log')
            RedmapperRun(cfg).run(**dict(opts, consolidate=False, consolidate_like=False))
            pix = sorted(set(e['hpix'][0] for e in read_log()))
            TRUTH['log'] = os.path.join(d, 'events.log')
            cfg.outpath = out
            hp_fault = int(rng.choice(pix))
            st_fault = str(rng.choice(stages))
            if case['fault'] == 'raise':
                TRUTH['faults'] = {(st_fault, hp_fault): 'raise'}
            elif len(pix) > 1:
                nsd = read_nside(os.path.join(d, 'dry.log'))
                there = hpg.angle_to_pixel(nsd, want['RA'], want['DEC'], nest=False) == hp_fault
                if np.all(there):
                    case = dict(case, fault='none')
                else:
                    TRUTH['faults'] = {(st_fault, hp_fault): str(rng.choice(['none', 'zero']))}
                    want = want[~there]
        if case['fault'] == 'raise':
            try:
                RedmapperRun(cfg).run(**opts)
                mon.violation('fault_reported', stage=st_fault, hpix=hp_fault)
            except RuntimeError as e:
                mon.check('fault_reported', 'injected' in str(e), exception=repr(e))
            first = read_log()
            open(TRUTH['log'] + '.cured', 'w').close()
            cfg = Configuration(cfgfile)      # a new attempt starts from the configuration file
            cfg.outpath = out
            r = RedmapperRun(cfg)
            res = r.run(**opts)
            ev = read_log()
            again = ev[len(first):]
            done = set((e['stage'], e['hpix'][0]) for e in first) - {(st_fault, hp_fault)}
            redone = [e for e in again if (e['stage'], e['hpix'][0]) in done]
            mon.check('restart_skips', not redone, redone=redone[:3])
            mon.check('restart_completes', (st_fault, hp_fault) in set((e['stage'], e['hpix'][0]) for e in again), fault=(st_fault, hp_fault))
            ev = [e for e in first if (e['stage'], e['hpix'][0]) != (st_fault, hp_fault)] + again
        else:
            res = RedmapperRun(cfg).run(**opts)
            ev = read_log()
        fin = res[0] if opts['consolidate_like'] else res
        w = dict(nproc=nproc, nside_tab=nside_tab, minn=minn, hpix=over.get('hpix'), nside=over.get('nside'), fault=case['fault'], perconly=perconly)
        # the log: each pixel runs each stage once, pixels do not overlap, hand-over of files
        seen = [(e['stage'], e['nside'], e['hpix'][0]) for e in ev]
        mon.check('pixel_once', len(seen) == len(set(seen)) and all(len(e['hpix']) == 1 for e in ev) and len(set(e['nside'] for e in ev)) == 1, events=len(seen), **w)
        for e in ev:
            base = '%s_%d_%05d' % (cfg.outbase, e['nside'], e['hpix'][0]) if not perconly else '%s_%05d' % (cfg.outbase, e['hpix'][0])
            wantcat = {'like': base + ('_firstpass_spec_catalog.fit' if opts['specmode'] else '_firstpass_catalog.fit'), 'perc': base + '_like_catalog.fit'}.get(e['stage'])
            ok = e['out'].startswith(base) and (perconly or wantcat is None or e['catfile'] == wantcat)
            if perconly:
                ok = ok and e['catfile'] == 'incat.fit'
            ok = ok and e['kw'].get('keepz', False) == opts['keepz'] and np.allclose(e['cosmo'], [100.0, 0.3])
            if e['stage'] == stages[0]:
                ok = ok and e['kw'].get('cleaninput', False) == opts['cleaninput']
            if e['stage'] == 'firstpass':
                ok = ok and e['specmode'] == opts['specmode'] and e['seedfile'] == opts.get('seedfile', 'inseed.fit')
            mon.check('handoff', ok, event_=e, want=wantcat, opts=opts)
        cat = fitsio.read(fin, ext=1, lower=True)
        mem = fitsio.read(fin[:-4] + '_members.fit', ext=1, lower=True)
        book(mon, cat, mem, want, m, 'lnlike', **w)
        if opts['consolidate_like'] and not TRUTH['faults']:
            lk = fitsio.read(res[1], ext=1, lower=True)
            book(mon, lk, None, want, None, None, **w)
        mon.check('config_restored', (cfg.d.nside, list(np.atleast_1d(cfg.d.hpix)), cfg.d.outbase) == d0 and str(cfg.seedfile).endswith('inseed.fit'),
                  got=(cfg.d.nside, cfg.d.hpix, cfg.d.outbase, cfg.seedfile))
        mon.distinct('run', case['region'], nside_tab, nproc, minn, over.get('nside'), case['fault'], perconly, want.size)
        mon.sample({'events': len(ev), 'pixels': len(set(s[2] for s in seen)), 'nside': ev[0]['nside'], 'clusters': int(want.size), 'opts': opts})
        # a finished run asked again does nothing; asked without check it is redone
        n0 = len(read_log())
        r2 = RedmapperRun(cfg).run(**opts)
        n1 = len(read_log())
        if case['fault'] != 'empty':
            mon.check('restart_skips', n1 == n0, again=n1 - n0)
        if rng.uniform() < 0.6:
            # stopped between the merged catalogue and its members: the next attempt completes the pair
            os.remove(fin[:-4] + '_members.fit')
            RedmapperRun(cfg).run(**opts)
            there = os.path.isfile(fin[:-4] + '_members.fit')
            mon.check('restart_members', there, file=os.path.basename(fin)[:-4] + '_members.fit', **w)
            if there:
                book(mon, fitsio.read(fin, ext=1, lower=True), fitsio.read(fin[:-4] + '_members.fit', ext=1, lower=True), want, m, 'lnlike', **w)
            n1 = len(read_log())
        TRUTH['t'] = t.copy()
        TRUTH['t']['LNLIKE'] = TRUTH['t']['LNLIKE'].max() + 1 - TRUTH['t']['LNLIKE']
        fin3 = RedmapperRun(cfg).run(**dict(opts, check=False, consolidate_like=False))
        mon.check('rerun_all', len(read_log()) - n1 == len(seen), again=len(read_log()) - n1, want=len(seen))
        c3 = fitsio.read(fin3, ext=1, lower=True)
        m3 = fitsio.read(fin3[:-4] + '_members.fit', ext=1, lower=True)
        w3 = TRUTH['t'][np.isin(t['TAG'], want['TAG'])]
        book(mon, c3, m3, w3, m, 'lnlike', **w)


def read_nside(fn):
    return json.loads(open(fn).readline())['nside']


# ------------------------------------------------------------------ pixel tasks and consolidation
def fork_all(jobs, width, sleep_scale=1.0):
    """run callables in forked processes, at most `width` at a time; returns exit codes."""
    procs, codes = [], {}

    def body(f):
        try:
            if sleep_scale != 1.0:
                real = time.sleep
                time.sleep = lambda s: real(s * sleep_scale)
            f()
            os._exit(0)
        except RuntimeError as e:
            os._exit(7 if 'injected' in str(e) else 8)
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(9)
    for i, f in enumerate(jobs):
        while len(procs) >= width:
            time.sleep(0.005)
            for k, p in list(procs):
                if not p.is_alive():
                    p.join()
                    codes[k] = p.exitcode
                    procs.remove((k, p))
        p = FORK.Process(target=body, args=(f,))
        p.start()
        procs.append((i, p))
    t0 = time.time()
    for k, p in procs:
        p.join(max(1, 240 - (time.time() - t0)))
        if p.is_alive():
            p.kill()
            p.join()
            codes[k] = -99
        else:
            codes[k] = p.exitcode
    return [codes[i] for i in range(len(jobs))]


def bkgfile(d):
    fn = os.path.join(d, 'bkg.fit')
    a = np.zeros(1, dtype=[('x', 'f4')])
    fitsio.write(fn, a, extname='CHISQBKG', clobber=True)
    fitsio.write(fn, a, extname='ZREDBKG')
    return fn


def spec_file(rng, d, t, m):
    """spectra for some clusters and members: some bad errors, some too far, some two within reach."""
    n = t.size
    k = rng.uniform(size=n) < 0.6
    s = np.zeros(int(k.sum()) + 30, dtype=[('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('Z_ERR', 'f4')])
    c = int(k.sum())
    off = rng.choice([0.0, 1.0, 2.5, 4.0, 20.0], c) / 3600.
    s['RA'][:c] = t['RA'][k]
    s['DEC'][:c] = np.where(t['DEC'][k] > 0, t['DEC'][k] - off, t['DEC'][k] + off)
    s['RA'][c:], s['DEC'][c:] = rng.uniform(0, 360, 30), rng.uniform(-80, 80, 30)
    s['Z'] = rng.uniform(0.05, 0.6, s.size)
    s['Z_ERR'] = rng.choice([0.0001, 0.0005, 0.1], s.size, p=[0.4, 0.4, 0.2])
    fn = os.path.join(d, 'spec.fit')
    fitsio.write(fn, s)
    return fn, s


def spec_want(s, ra, dec, rad, zmaxerr):
    use = s[s['Z_ERR'] < zmaxerr]
    sp = skygen.sep(ra[:, None], dec[:, None], use['RA'][None, :], use['DEC'][None, :]) * 3600.
    j = np.argmin(sp, axis=1)
    best = sp[np.arange(ra.size), j]
    sure = np.abs(best - rad) > 0.01
    return np.where(best < rad, use['Z'][j], -1.0), sure


def do_pipe(rng, case, mon, env, d):
    from redmapper import Configuration
    from redmapper.pipeline import RunRedmapperPixelTask, RedmapperConsolidateTask
    nside_tab = int(rng.choice([8, 16, 32]))
    g = sky(rng, case['region'], nside_tab)
    t, m = make_truth(rng, g, int(rng.choice([25, 50])))
    truth = rng.uniform() < 0.4
    nside = int(rng.choice([x for x in (2, 4, 8, 16) if x <= nside_tab]))
    specfn, s = spec_file(rng, d, t, m)
    zl = os.path.join(d, 'zl.fit')
    fitsio.write(zl, np.zeros(1, dtype=[('x', 'f4')]))
    minlam = float(rng.choice([3.0, 5.0]))
    over = dict(bkgfile=bkgfile(d), zlambdafile=zl, specfile=specfn, percolation_minlambda=minlam, max_maskfrac=0.2, select_scaleval=bool(rng.randint(2)), has_truth=truth,
                vlim_depthfiles=None, vlim_bands=None, vlim_nsigs=None, calib_spec_max_zerr=0.001, outbase=str(rng.choice(['cat', 'cat_9_12345_x'])))
    lstars = []
    if case['vlim']:
        lstars = [0.2, 1.0] if rng.uniform() < 0.5 else [0.2, 0.25, 1.0]
        ns = 64
        pix = np.unique(hpg.angle_to_pixel(ns, np.concatenate([g['ra'], t['RA']]), np.concatenate([g['dec'], t['DEC']]), nest=True))
        pix = pix[rng.uniform(size=pix.size) < 0.9]
        dv = np.zeros(pix.size, dtype=rmx.DEPTH_DT)
        dv['fracgood'], dv['exptime'], dv['m50'] = 1.0, 60., rng.uniform(17., 22., pix.size)
        dv['limmag'] = dv['m50'] - 0.4
        over['depthfile'] = os.path.join(d, 'depth.hsp')
        rmx.write_depth(over['depthfile'], 16, ns, pix, dv)
    cuts = sorted(float(x) for x in rng.choice([5.0, 10.0, 20.0, 35.0, 100.0], rng.randint(1, 4), replace=False))
    over['consolidate_lambda_cuts'] = cuts
    over['consolidate_vlim_lstars'] = lstars
    out = os.path.join(d, str(rng.choice(['out', 'run_3_54321_z'])))
    cfgfile = conf(rng, env, d, g, nside_tab, zreds=True, out=out, **over)
    if truth:
        t['CG_SPEC_Z'] = -2
    TRUTH.clear()
    TRUTH.update(t=t, m=m, log=os.path.join(d, 'events.log'), salt=int(case['seed']), faults={})
    pt = hpg.angle_to_pixel(nside, t['RA'], t['DEC'], nest=False)
    pixels = [int(p) for p in rng.permutation(np.unique(pt))]
    with Standins():
        fault = None
        if rng.uniform() < 0.5:
            fault = (str(rng.choice(['firstpass', 'like', 'perc'])), int(rng.choice(pixels)))
            TRUTH['faults'] = {fault: 'raise'}
        jobs = [(lambda p=p: RunRedmapperPixelTask(cfgfile, p, nside).run()) for p in pixels]
        codes = fork_all(jobs, 3)
        first = read_log()
        mon.check('tasks_end', all(c == (7 if fault and fault[1] == p else 0) for c, p in zip(codes, pixels)), codes=codes, pixels=pixels, fault=fault)
        open(TRUTH['log'] + '.cured', 'w').close()
        if fault:
            # every task is submitted again: only what is missing is run
            codes = fork_all(jobs, 3)
            ev = read_log()
            redone = [e for e in ev[len(first):] if (e['stage'], e['hpix'][0]) in (set((x['stage'], x['hpix'][0]) for x in first) - {fault})]
            mon.check('restart_skips', not redone and all(c == 0 for c in codes), redone=redone[:3], codes=codes)
            mon.check('restart_completes', any((e['stage'], e['hpix'][0]) == fault for e in ev[len(first):]), fault=fault)
    for e in read_log():
        mon.check('handoff', e['hpix'][0] in pixels and e['nside'] == nside and e['border'] > 0.5 and
                  (e['stage'] == 'firstpass' or e['catfile'] == '%s_%d_%05d_%s_catalog.fit' % (over['outbase'], nside, e['hpix'][0], {'like': 'firstpass', 'perc': 'like'}[e['stage']])), event_=e)
    task = RedmapperConsolidateTask(cfgfile)
    spec = not truth and rng.uniform() < 0.8
    plots = case.get('plots', bool(rng.uniform() < 0.3))
    task.run(do_plots=plots, match_spec=spec)
    cfg = Configuration(cfgfile)
    base_want = t[(t['MASKFRAC'] < 0.2) & (t['LAMBDA'] > minlam)]
    rank = np.argsort(-base_want['LNLAMLIKE'])
    idof = {int(base_want['TAG'][i]): k + 1 for k, i in enumerate(rank)}
    from redmapper import VolumeLimitMask
    n_files = 0
    for cut in cuts:
        for ls in (lstars or [None]):
            w = base_want[(base_want['LAMBDA'].astype('f8') / (base_want['SCALEVAL'].astype('f8') if over['select_scaleval'] else 1.0)) > cut]
            if ls is not None:
                zm = VolumeLimitMask(cfg, ls).calc_zmax(w['RA'], w['DEC']) if w.size else np.zeros(0)
                w = w[zm > w['Z_LAMBDA']]
                name = 'lgt%02d_%s' % (cut, {0.2: 'vl02', 0.25: 'vl025', 1.0: 'vl10'}[ls])
            else:
                w = w[w['Z_LAMBDA'] < cfg.zrange[1]]
                name = 'lgt%02d' % cut
            cf = cfg.redmapper_filename(name + '_catalog', withversion=True)
            mf = cfg.redmapper_filename(name + '_catalog_members', withversion=True)
            if w.size == 0:
                mon.check('consolidate_cuts', not os.path.isfile(cf) or fitsio.read_header(cf, ext=1)['NAXIS2'] == 0, name=name, empty=True)
                continue
            n_files += 1
            cat, mem = fitsio.read(cf, ext=1, lower=True), fitsio.read(mf, ext=1, lower=True)
            book(mon, cat, None, w, None, None, cut=cut, lstar=ls, nside=nside)
            ok = mon.check('consolidate_cuts', np.array_equal(np.sort(cat['tag']), np.sort(w['TAG'])), name=name, got=cat.size, want=w.size, scaleval=over['select_scaleval'])
            if not ok:
                continue
            mon.check('consolidate_ids', all(idof[int(x)] == int(i) for x, i in zip(cat['tag'], cat['mem_match_id'])), name=name, got=list(zip(cat['tag'], cat['mem_match_id']))[:4])
            wm = m[np.isin(m['TAG'], w['TAG'])]
            mon.check('consolidate_members', np.array_equal(np.sort(mem['seq']), np.sort(wm['SEQ'])) and all(idof[int(x)] == int(i) for x, i in zip(mem['tag'], mem['mem_match_id'])),
                      name=name, got=mem.size, want=wm.size)
            if plots:
                pdir = os.path.join(cfg.outpath, cfg.plotpath)
                stem = os.path.basename(cf)[:-len('_catalog.fit')]
                sp = mem['zspec'] if truth else cat['cg_spec_z']
                want_png = set('%s_%s.png' % (stem, x) for x in ['nz', 'nlambda', 'positions'] + (['zspec'] if np.any(sp > 0) else []))
                got_png = set(f for f in os.listdir(pdir) if f.startswith(stem + '_') and f[len(stem) + 1:] in ('nz.png', 'nlambda.png', 'positions.png', 'zspec.png'))
                mon.check('plots', want_png <= got_png, name=name, missing=sorted(want_png - got_png))
            if spec:
                for a, col, k in ((cat, 'cg_spec_z', 3.0), (mem, 'zspec', 3.0)):
                    zz, sure = spec_want(s, a['ra'], a['dec'], k, 0.001)
                    mon.check('spec_match', np.all(a[col][sure] == zz[sure].astype('f4')), which=col, bad=int(np.sum(a[col][sure] != zz[sure].astype('f4'))))
            elif truth:
                gg = {(round(float(a), 9), round(float(b), 9)): z for a, b, z in zip(g['ra'], g['dec'], g['ztrue'])}
                zz = np.array([gg[(round(float(a), 9), round(float(b), 9))] for a, b in zip(cat['ra'], cat['dec'])])
                # two galaxies of the table within an arcsecond are not told apart
                mon.check('spec_match', np.mean(np.isclose(cat['cg_spec_z'], zz)) > 0.99, which='truth', got=cat['cg_spec_z'][:4], want=zz[:4])
    mon.distinct('pipe', case['region'], nside_tab, nside, case['vlim'], cuts, truth, spec, bool(fault), t.size)
    mon.sample({'pixels': len(pixels), 'nside': nside, 'cuts': cuts, 'files': n_files, 'fault': str(fault)})


def do_runcat(rng, case, mon, env, d):
    from redmapper import Configuration
    from redmapper.pipeline import RuncatPixelTask, RunZmaskPixelTask, RunZScanPixelTask, RuncatConsolidateTask
    nside_tab = int(rng.choice([8, 16]))
    g = sky(rng, case['region'], nside_tab)
    t, m = make_truth(rng, g, 30)
    nside = int(rng.choice([2, 4, 8]))
    zl = os.path.join(d, 'zl.fit')
    fitsio.write(zl, np.zeros(1, dtype=[('x', 'f4')]))
    specfn, s = spec_file(rng, d, t, m)
    truth = bool(rng.uniform() < 0.4)
    rf = os.path.join(d, 'r_master_table.fit')
    fitsio.write(rf, np.zeros(1, dtype=[('x', 'f4')]))
    cfgfile = conf(rng, env, d, g, nside_tab, zreds=True, out=os.path.join(d, 'out'), bkgfile=bkgfile(d), zlambdafile=zl, specfile=specfn, has_truth=truth, outbase='cat', randfile=rf,
                   calib_spec_max_zerr=0.001)
    TRUTH.clear()
    TRUTH.update(t=t, m=m, log=os.path.join(d, 'events.log'), salt=int(case['seed']), faults={})
    pixels = [int(p) for p in np.unique(hpg.angle_to_pixel(nside, t['RA'], t['DEC'], nest=False))]
    rand = case['cattype'] == 'randoms_zmask'
    members = not rand and bool(rng.uniform() < 0.75)
    cls = {'lambda_chisq': RuncatPixelTask, 'randoms_zmask': RunZmaskPixelTask, 'zscan': RunZScanPixelTask}[case['cattype']]
    with Standins():
        jobs = [(lambda p=p: cls(cfgfile, p, nside).run()) for p in pixels]
        codes = fork_all(jobs, 3)
        mon.check('tasks_end', all(c == 0 for c in codes), codes=codes, task=cls.__name__)
        n0 = len(read_log())
        codes = fork_all(jobs, 3)
        mon.check('restart_skips', len(read_log()) == n0 and all(c == 0 for c in codes), again=len(read_log()) - n0, codes=codes, task=cls.__name__)
    spec = not rand and bool(rng.randint(2))
    RuncatConsolidateTask(cfgfile).run(do_plots=bool(not rand and rng.uniform() < 0.4), match_spec=spec, consolidate_members=members, cattype=case['cattype'])
    cfg = Configuration(cfgfile)
    cat = fitsio.read(cfg.redmapper_filename('%s_catalog' % case['cattype'], withversion=True), ext=1, lower=True)
    mem = fitsio.read(cfg.redmapper_filename('%s_catalog_members' % case['cattype'], withversion=True), ext=1, lower=True) if members else None
    mon.check('runcat_once', np.array_equal(np.sort(cat['tag']), np.sort(t['TAG'])) and np.all(cat['own'] == 1), got=cat.size, want=t.size)
    if members:
        mon.check('runcat_members', np.array_equal(np.sort(mem['seq']), np.sort(m['SEQ'])) and np.all(mem['own'] == 1) and np.all(mem['mem_match_id'] == mem['tag']), got=mem.size, want=m.size)
        if spec and truth:
            gg = {(round(float(a), 9), round(float(b), 9)): z for a, b, z in zip(g['ra'], g['dec'], g['ztrue'])}
            for x, col in ((cat, 'cg_spec_z'), (mem, 'zspec')):
                at = [gg.get((round(float(a), 9), round(float(b), 9))) for a, b in zip(x['ra'], x['dec'])]
                k = np.array([a is not None for a in at])
                mon.check('spec_match', k.sum() > 0 and np.mean(np.isclose(x[col][k], np.array([a for a in at if a is not None]))) > 0.99, which='runcat truth ' + col)
        elif spec:
            for x, col in ((cat, 'cg_spec_z'), (mem, 'zspec')):
                zz, sure = spec_want(s, x['ra'], x['dec'], 3.0, 0.001)
                mon.check('spec_match', np.all(x[col][sure] == zz[sure].astype('f4')), which='runcat ' + col)
    mon.distinct('runcat', case['region'], case['cattype'], nside, len(pixels), spec)


# ------------------------------------------------------------------ zred tasks
def do_zred(rng, case, mon, env, d):
    from redmapper import Configuration
    from redmapper.pipeline import RunZredPixelTask
    from redmapper.zred_runner import ZredRunPixels
    from redmapper.galaxy import GalaxyCatalog
    nside_tab = int(rng.choice([8, 16]))
    zr = rmx.zredstr(env, fine=False)
    g = rmx.red_galaxies(rng, int(rng.choice([40, 120])), case['region'], {8: 26., 16: 14.}[nside_tab], zr)
    gf, _, pix = rmx.write_galtable(os.path.join(d, 'gals'), g, nside_tab)
    sub = int(rng.choice([nside_tab, nside_tab, 2]))
    zdir = os.path.join(d, 'zr')
    os.makedirs(zdir)
    over = dict(galfile=gf, zredfile=os.path.join(zdir, 'g_zreds_master_table.fit'), hpix=None, nside=None, border=0.0, printlogging=True, calib_nproc=2)
    cfgfile = rmx.test_yaml(env, d, **over)
    hp = np.unique(pix)
    pixels = [int(x) for x in rng.permutation(np.unique(hpg.angle_to_pixel(sub, *hpg.pixel_to_angle(nside_tab, hp, nest=False), nest=False)))]
    bad = int(rng.choice(pixels)) if case['fault'] else None
    cured = os.path.join(d, 'cured')
    real = ZredRunPixels.run
    master = over['zredfile']

    def slow(self, *a, **k):
        p = int(np.atleast_1d(self.config.d.hpix)[0])
        r = np.random.RandomState(p)
        time.sleep(r.uniform(0, 0.1))
        if p == bad and not os.path.exists(cured):
            raise RuntimeError('injected fault')
        res = real(self, *a, **k)
        time.sleep(r.uniform(0, 0.1))
        return res
    ZredRunPixels.run = slow
    try:
        jobs = [(lambda p=p: RunZredPixelTask(cfgfile, p, sub).run()) for p in pixels]
        codes = fork_all(jobs, 4, sleep_scale=0.1)
        mon.check('tasks_end', all(c == (7 if p == bad else 0) for c, p in zip(codes, pixels)), codes=codes, bad=bad, task='zred')
        if bad is not None:
            mon.check('zred_no_partial_table', not os.path.isfile(master), pixels=len(pixels))
            open(cured, 'w').close()
            codes = fork_all([lambda: RunZredPixelTask(cfgfile, bad, sub).run()], 1, sleep_scale=0.1)
            mon.check('zred_restart', codes == [0], codes=codes)
    finally:
        ZredRunPixels.run = real
    if not mon.check('zred_table', os.path.isfile(master), pixels=len(pixels), fault=bad):
        return
    tab = fitsio.read(master, ext=1, lower=True)
    want = set('g_zreds_%07d.fit' % p for p in hp)
    got = set(x.decode().strip() if hasattr(x, 'decode') else str(x).strip() for x in np.atleast_1d(tab['filenames'][0]))
    mon.check('zred_table', got == want and np.array_equal(np.atleast_1d(tab['ngals'][0]), [np.sum(pix == p) for p in np.atleast_1d(tab['hpix'][0])]), missing=sorted(want - got)[:3])
    left = [os.path.basename(x) for x in glob.glob(zdir + '/*')]
    mon.check('lock_clean', set(left) == want | {os.path.basename(master)}, extra=sorted(set(left) - want)[:5])
    # the same values as one run over everything
    cfg2 = Configuration(rmx.test_yaml(env, d, **dict(over, zredfile=os.path.join(d, 'ref', 'g_zreds_master_table.fit'))))
    ZredRunPixels(cfg2).run()
    if hp.size > 1:
        a = GalaxyCatalog.from_galfile(gf, zredfile=master)
        b = GalaxyCatalog.from_galfile(gf, zredfile=cfg2.zredfile)
        mon.check('zred_values', all(np.array_equal(a._ndarray[c], b._ndarray[c], equal_nan=True) for c in ('id', 'zred', 'zred_e', 'chisq', 'lkhd', 'zred_uncorr')))
    mon.distinct('zred', case['region'], nside_tab, sub, len(pixels), case['fault'])


# ------------------------------------------------------------------ locks
def do_lock(rng, case, mon, env, d):
    from redmapper.utilities import make_lockfile
    lk = os.path.join(d, 'it.lock')
    cnt = os.path.join(d, 'count')
    log = os.path.join(d, 'lock.log')
    open(cnt, 'w').write('0')
    P, K = int(rng.choice([3, 6])), int(rng.choice([8, 20]))
    block = bool(rng.randint(2))

    def body(i):
        r = np.random.RandomState(i + case['seed'] % 1000)
        got = 0
        while got < K:
            if not make_lockfile(lk, block=block, maxtry=5000, waittime=0.001):
                time.sleep(0.001)
                continue
            with open(cnt) as f:
                v = int(f.read())
            with open(log, 'a') as f:
                f.write('+%d\n' % i)
            time.sleep(r.uniform(0, 0.002))
            with open(cnt, 'w') as f:
                f.write(str(v + 1))
            with open(log, 'a') as f:
                f.write('-%d\n' % i)
            os.unlink(lk)
            got += 1
    codes = fork_all([(lambda i=i: body(i)) for i in range(P)], P)
    ev = open(log).read().split()
    inside = [ev[j][0] == '+' and ev[j + 1] == '-' + ev[j][1:] for j in range(0, len(ev) - 1, 2)]
    mon.check('lock_exclusive', all(c == 0 for c in codes) and int(open(cnt).read()) == P * K and len(ev) == 2 * P * K and all(inside), count=open(cnt).read(), want=P * K, codes=codes,
              overlaps=int(len(inside) - sum(inside)))
    mon.event('lock_entries', P * K)
    # a held lock is refused, with or without waiting, and nothing is left behind
    mon.check('lock_exclusive', make_lockfile(lk) is True and os.path.exists(lk) and make_lockfile(lk) is False and make_lockfile(lk, block=True, maxtry=3, waittime=0.001) is False)
    os.unlink(lk)
    mon.check('lock_clean', sorted(os.listdir(d)) == ['count', 'lock.log'], left=os.listdir(d)[:5])
    mon.distinct('lock', P, K, block, case['seed'])


# ------------------------------------------------------------------ memory prediction
def do_mem(rng, case, mon, env, d):
    from redmapper.pipeline import MemPredict
    nside_tab = int(rng.choice([8, 16, 32]))
    g = sky(rng, case['region'], nside_tab, n=300)
    cfgfile = conf(rng, env, d, g, nside_tab, zreds=True)
    for inc in (True, False):
        f = float(rng.choice([1.0, 2.0]))
        r = MemPredict(cfgfile).predict_memory(include_zreds=inc, border_factor=f)
        # the table is stored big-endian without the truth columns
        gb = sum(np.dtype(g.dtype[c]).itemsize for c in g.dtype.names if c not in ('ztrue', 'm200', 'central', 'halo_id'))
        nb = gb + (np.dtype(rmx.ZRED_DT).itemsize if inc else 0)
        pt = hpg.angle_to_pixel(nside_tab, g['ra'], g['dec'], nest=False)
        ok = True
        for row in r:
            q = hpg.angle_to_pixel(int(row['nside']), *hpg.pixel_to_angle(nside_tab, pt, nest=False), nest=False)
            u, c = np.unique(q, return_counts=True)
            ok &= row['npix'] == u.size and abs(row['max_memory_mb'] - c.max() * nb * f / 1e6) < 1e-5 * row['max_memory_mb'] + 1e-9
        mon.check('memory_prediction', ok and r['nside'].max() == nside_tab, got=r)
    mon.distinct('mem', case['region'], nside_tab)
