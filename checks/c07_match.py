"""C07: neighbour matching on the sky is complete, exact and duplicate free."""
import numpy as np
import skygen

RULE = 'one matching call, keyed by (sky region, catalogue size, radius class, call, maxmatch, index depth)'
REQUIRED = {'pairs_complete': 60, 'pairs_sound': 60, 'distances': 60, 'cluster_neighbours': 10, 'maxmatch': 5}
BUDGET = {'quick': 500, 'thorough': 2400}
EPS = 2e-6     # degrees: below this a pair may legitimately fall on either side of the radius


def plan(tier, seed):
    n = 48 if tier == 'quick' else 500
    regs = sorted(skygen.REGIONS)
    out = [{'kind': 'match', 'region': regs[j % len(regs)], 'seed': seed * 7027 + j} for j in range(n)]
    out += [{'kind': 'cluster', 'region': regs[j % len(regs)], 'seed': seed * 7027 + 50000 + j} for j in range(n // 2)]
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    {'match': match, 'cluster': cluster}[case['kind']](rng, case, mon, env)


def cat_of(rng, region, n, size):
    from redmapper.galaxy import GalaxyCatalog
    g = skygen.galaxies(rng, n, 3, region, size)
    if n > 20 and rng.uniform() < 0.5:
        # clumps and exact duplicates in position
        k = rng.randint(0, n, n // 3)
        g['ra'][:k.size], g['dec'][:k.size] = g['ra'][k], g['dec'][k]
    if n > 4 and region == 'npole' and rng.uniform() < 0.5:
        g['dec'][0] = 90.0
    depth = int(rng.choice([10, 10, 7]))
    return g, (GalaxyCatalog(g.copy()) if depth == 10 else GalaxyCatalog(g.copy(), depth=depth)), depth


def match(rng, case, mon, env):
    n = int(rng.choice([1, 3, 60, 1500]))
    size = float(rng.choice([0.3, 4.0, 20.0]))
    g, cat, depth = cat_of(rng, case['region'], n, size)
    rad = float(rng.choice([0.0005, 0.02, 0.3, 2.0, 9.0]))
    for rep in range(4):
        if rng.uniform() < 0.6:
            j = rng.randint(n)
            ra, dec = float(g['ra'][j]), float(g['dec'][j])
        else:
            ra, dec = [float(x[0]) for x in skygen.sky_points(rng, case['region'], 1, size * 1.2)]
        d = skygen.sep(ra, dec, g['ra'], g['dec'])
        idx, dist = cat.match_one(ra, dec, rad)
        verify(mon, d, idx, dist, rad, dict(call='one', region=case['region'], n=n, radius=rad, ra=ra, dec=dec))
        mon.distinct('one', case['region'], n, rad, depth)
    # many
    m = int(rng.choice([1, 5, 40]))
    ras, decs = skygen.sky_points(rng, case['region'], m, size)
    k = rng.randint(0, n, m)
    near = rng.uniform(size=m) < 0.5
    ras[near], decs[near] = g['ra'][k[near]], g['dec'][k[near]]
    radii = rng.choice([0.0005, 0.05, 0.5, 2.0, 7.0], m) if rng.uniform() < 0.5 else rad
    D = skygen.sep(ras[:, None], decs[:, None], g['ra'][None, :], g['dec'][None, :])
    i0, i1, dd = cat.match_many(ras, decs, radii)
    rr = np.broadcast_to(radii, (m,))
    wit = dict(call='many', region=case['region'], n=n, m=m)
    pairs = set(zip(i0.tolist(), i1.tolist()))
    mon.check('pairs_unique', len(pairs) == len(i0), **wit)
    must = D <= rr[:, None] - EPS
    may = D <= rr[:, None] + EPS
    mon.check('pairs_complete', all((a, b) in pairs for a, b in np.argwhere(must).tolist()), **wit)
    mon.check('pairs_sound', all(may[a, b] for a, b in pairs), **wit)
    mon.close('distances', dd, D[i0, i1] if len(i0) else np.zeros(0), rtol=1e-6, atol=5e-6, **wit)
    mon.distinct('many', case['region'], n, m, depth, np.ndim(radii))
    # closest only
    i0, i1, dd = cat.match_many(ras, decs, radii, maxmatch=1)
    ok = len(set(i0.tolist())) == len(i0)
    for a in range(m):
        hit = i1[i0 == a]
        if must[a].any():
            ok = ok and hit.size == 1 and D[a, hit[0]] <= D[a].min() + 5e-6
        elif not may[a].any():
            ok = ok and hit.size == 0
    mon.check('maxmatch', ok, **wit)
    # the closest few
    mm = int(rng.choice([2, 3, 7]))
    i0, i1, dd = cat.match_many(ras, decs, radii, maxmatch=mm)
    ok = len(set(zip(i0.tolist(), i1.tolist()))) == len(i0)
    for a in range(m):
        h = D[a, i1[i0 == a]]
        ok = ok and min(int(must[a].sum()), mm) <= h.size <= min(int(may[a].sum()), mm)
        if h.size:
            ok = ok and np.all(np.abs(np.sort(h) - np.sort(D[a])[:h.size]) < 5e-6)
    mon.check('maxmatch', ok, maxmatch=mm, **wit)
    mon.sample(dict(pairs=len(pairs), **wit))


def verify(mon, d, idx, dist, rad, wit):
    idx = np.asarray(idx)
    mon.check('pairs_unique', np.unique(idx).size == idx.size, **wit)
    got = np.zeros(d.size, dtype=bool)
    got[idx] = True
    must, may = d <= rad - EPS, d <= rad + EPS
    mon.check('pairs_complete', not np.any(must & ~got), missing=int(np.sum(must & ~got)), **wit)
    mon.check('pairs_sound', not np.any(got & ~may), extra=int(np.sum(got & ~may)), **wit)
    mon.close('distances', dist, d[idx], rtol=1e-6, atol=5e-6, **wit)


def cluster(rng, case, mon, env):
    """Neighbours of a cluster: angular and physical distances and colours of the very galaxies."""
    import os
    from redmapper import Configuration, Cluster
    from redmapper.redsequence import RedSequenceColorPar
    os.chdir(os.path.join(env.repo, 'tests'))
    if not hasattr(cluster, 'cfg'):
        cluster.cfg = Configuration('data_for_tests/testconfig.yaml')
        cluster.zr = RedSequenceColorPar('data_for_tests/test_dr8_pars.fit', fine=True)
    cfg, zr = cluster.cfg, cluster.zr
    n = int(rng.choice([50, 2000]))
    from redmapper.galaxy import GalaxyCatalog
    g = skygen.galaxies(rng, n, 5, case['region'], 3.0)
    cat = GalaxyCatalog(g.copy())
    c = Cluster(config=cfg, zredstr=zr)
    j = rng.randint(n)
    c.ra, c.dec = float(g['ra'][j]), float(g['dec'][j])
    z = float(rng.uniform(0.1, 0.5))
    c.redshift = z
    kind = rng.choice(['radius', 'megaparsec'])
    rad = float(rng.uniform(0.1, 0.6)) if kind == 'radius' else float(rng.uniform(0.5, 4.0))
    c.find_neighbors(rad, cat, megaparsec=(kind == 'megaparsec'))
    # independent Mpc/degree for flat LCDM
    from scipy.integrate import quad
    om = cfg.cosmo.omega_m() if callable(getattr(cfg.cosmo, 'omega_m', None)) else 0.3
    H0 = cfg.cosmo.H0() if callable(getattr(cfg.cosmo, 'H0', None)) else 100.
    dm = 2.99792458e5 / H0 * quad(lambda x: 1 / np.sqrt(om * (1 + x)**3 + 1 - om), 0, z)[0]
    mpc = dm / (1 + z) * np.pi / 180.
    mon.close('mpc_scale', float(c.mpc_scale), mpc, rtol=2e-3, z=z)
    adeg = rad if kind == 'radius' else rad / float(c.mpc_scale)
    d = skygen.sep(c.ra, c.dec, g['ra'], g['dec'])
    wit = dict(region=case['region'], n=n, z=z, kind=str(kind), radius=rad)
    ids = np.asarray(c.neighbors.id)
    pos = {int(x): i for i, x in enumerate(g['id'])}
    idx = np.array([pos[int(i)] for i in ids], dtype=int)
    mon.event('cluster_neighbours')
    verify(mon, d, idx, np.asarray(c.neighbors.dist), adeg, wit)
    mon.close('neighbour_r', np.asarray(c.neighbors.r), d[idx] * float(c.mpc_scale), rtol=1e-5, atol=5e-5, **wit)
    mon.check('neighbour_rows', np.array_equal(np.asarray(c.neighbors.mag), g['mag'][idx]), **wit)
    mon.check('neighbour_index', np.array_equal(np.asarray(c.neighbors.index), idx), **wit)
    # a magnitude limit removes exactly the fainter ones
    mm = float(rng.uniform(15, 22))
    c2 = Cluster(config=cfg, zredstr=zr)
    c2.ra, c2.dec, c2.redshift = c.ra, c.dec, z
    c2.find_neighbors(rad, cat, megaparsec=(kind == 'megaparsec'), maxmag=mm)
    keep = ids[np.asarray(c.neighbors.refmag) <= mm]
    mon.check('magnitude_limit', sorted(np.asarray(c2.neighbors.id).tolist()) == sorted(keep.tolist()), maxmag=mm, **wit)
    # moving the cluster, or its redshift, keeps distances in step
    j2 = rng.randint(n)
    c.ra, c.dec = float(g['ra'][j2]), float(g['dec'][j2])
    c.update_neighbors_dist()
    d2 = skygen.sep(c.ra, c.dec, g['ra'][idx], g['dec'][idx])
    mon.close('recentred_dist', np.asarray(c.neighbors.dist), d2, rtol=1e-6, atol=5e-6, **wit)
    z2 = float(rng.uniform(0.1, 0.5))
    c.redshift = z2
    dm2 = 2.99792458e5 / H0 * quad(lambda x: 1 / np.sqrt(om * (1 + x)**3 + 1 - om), 0, z2)[0]
    mon.close('neighbour_r_follows_redshift', np.asarray(c.neighbors.r), d2 * dm2 / (1 + z2) * np.pi / 180., rtol=3e-3,
              atol=1e-4, z2=z2, **wit)
    mon.check('source_catalogue_untouched', cat.size == n and np.array_equal(cat.ra, g['ra']) and 'pmem' not in cat.dtype.names)
    mon.distinct('cluster', case['region'], n, kind, int(z * 10))
