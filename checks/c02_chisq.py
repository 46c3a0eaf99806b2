"""C02: chi-squared and likelihood against an independent linear-algebra oracle,
for every calling shape, memory layout and dtype."""
import numpy as np

RULE = ('one evaluated set of galaxies/redshifts, keyed by (shape mode, ncol, layout, dtype, matrix family, options)')
REQUIRED = {'chisq_value': 100, 'lkhd_value': 100, 'sentinel': 5, 'clipped_matrix': 20, 'mode_consistency': 20,
            'mismatch_rejected': 20}
BUDGET = {'quick': 400, 'thorough': 2400}
ASSUMPTIONS = ['covariance eigenvalues are kept at least 1e-6, and a covariance with a diagonal below 1e-6 is '
               'flagged unusable by a value of magnitude 1e11']
MINEIG = 1e-6
SIGINT2 = 1e-6
LAYOUTS = ['C', 'F', 'fancy', 'strided', 'transposed']
DT = ['f8', 'f4', '>f8']
FAM = ['pd', 'pd', 'strong', 'singular', 'indefinite', 'badsig']


def reference(covmat, c, slope, pivot, refmag, magerr, color, refmagerr, lup, nophoto):
    """scalar galaxy/redshift evaluation in numpy."""
    n = c.size
    for j in range(n):
        if covmat[j, j] < SIGINT2:
            return 1e11, -1e11, 'sentinel', 1.0
    R = np.zeros((n, n + 1))
    for j in range(n):
        R[j, j] = 1.0
        R[j, j + 1] = -1.0
    C = covmat.copy()
    if not nophoto:
        C = C + R @ np.diag(magerr**2) @ R.T
    C = C + np.outer(slope, slope) * refmagerr**2
    ev, Q = np.linalg.eigh(C)
    kind = 'plain'
    if np.any(ev < MINEIG):
        kind = 'clipped_matrix'
        if np.any(np.abs(ev - MINEIG) < 1e-3 * MINEIG):
            kind = 'threshold'
        ev = np.maximum(ev, MINEIG)
    d = c + slope * (refmag - pivot) + lup - color
    y = Q.T @ d
    chi = float(np.sum(y * y / ev))
    cond = float(ev.max() / ev.min())
    return chi, float(-0.5 * chi - 0.5 * np.sum(np.log(ev))), kind, cond


def mkcov(rng, n, fam):
    A = rng.normal(0, 1, (n, n))
    s = rng.uniform(0.01, 0.15, n)
    if fam == 'pd':
        C = np.diag(s**2) + 0.3 * np.outer(s, s) * np.corrcoef(A)[:n, :n].clip(-1, 1) if n > 1 else np.diag(s**2)
        C = 0.5 * (C + C.T)
        w, v = np.linalg.eigh(C)
        C = (v * np.maximum(w, 2e-5)) @ v.T
    elif fam == 'strong':
        C = A @ A.T * 0.01 + np.diag(s**2)
    elif fam == 'singular':
        v = rng.uniform(0.02, 0.2, n)
        C = np.outer(v, v)
    elif fam == 'indefinite':
        C = np.diag(s**2)
        for i in range(n):
            for j in range(i):
                C[i, j] = C[j, i] = rng.choice([-1, 1]) * 1.5 * s[i] * s[j]
    else:
        C = np.diag(s**2)
        C[rng.randint(n), :] *= 0
        k = rng.randint(n)
        C[k, k] = rng.choice([0.0, 1e-8, -0.01])
    return 0.5 * (C + C.T)


def lay(rng, a, how, dt, nzlast=False):
    a = np.asarray(a).astype(dt)
    if how == 'C':
        return np.ascontiguousarray(a)
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'transposed':
        return np.ascontiguousarray(a.T).T
    if how == 'fancy' and a.ndim >= 2:
        if nzlast:
            big = np.concatenate([a, a[..., :1]], axis=-1)
            return big[..., np.arange(a.shape[-1])]
        big = np.concatenate([a[:1] * 0 + 3, a], axis=0)
        return big[np.arange(a.shape[0]) + 1, :]
    if how == 'strided' or how == 'fancy':
        big = np.full([2 * k + 1 for k in a.shape], 99.0).astype(dt)
        sl = tuple(slice(0, 2 * k, 2) for k in a.shape)
        big[sl] = a
        return big[sl]
    return a


def plan(tier, seed):
    reps = 1 if tier == 'quick' else 10
    out, k = [], 0
    for rep in range(reps):
        for mode in (0, 1, 2):
            for how in LAYOUTS:
                for dt in DT:
                    out.append({'kind': 'values', 'mode': mode, 'layout': how, 'dtype': dt, 'seed': seed * 7919 + k,
                                'reps': 10 if tier == 'quick' else 25})
                    k += 1
        for j in range(8):
            out.append({'kind': 'reject', 'seed': seed * 7919 + k})
            out.append({'kind': 'redsequence', 'seed': seed * 7919 + k + 1})
            k += 2
    return out


def run_case(case, mon, env):
    from redmapper import compute_chisq
    rng = np.random.RandomState(case['seed'] % (2**31))
    if case['kind'] == 'reject':
        return reject(rng, mon, compute_chisq)
    if case['kind'] == 'redsequence':
        return redseq(rng, mon, env)
    for i in range(case['reps']):
        values(rng, case, mon, compute_chisq)


def draw(rng, mode, ncol, n):
    fam = FAM[rng.randint(len(FAM))]
    nzz = 1 if mode == 0 else n
    cov = np.zeros((nzz, ncol, ncol))
    fams = []
    for i in range(nzz):
        f = fam if rng.uniform() < 0.8 else 'pd'
        cov[i] = mkcov(rng, ncol, f)
        fams.append(f)
    d = {'cov': cov,
         'c': rng.normal(0.8, 0.4, (nzz, ncol)), 'slope': rng.normal(0, 0.08, (nzz, ncol)),
         'pivot': rng.uniform(17, 22, nzz)}
    ng = 1 if mode == 1 else n
    d['refmag'] = rng.uniform(15, 23, ng)
    d['magerr'] = rng.lognormal(np.log(0.05), 1.0, (ng, ncol + 1))
    d['color'] = rng.normal(0.8, 0.5, (ng, ncol))
    d['refmagerr'] = rng.lognormal(np.log(0.1), 0.8, ng)
    d['lup'] = rng.normal(0, 0.05, (n, ncol))
    return d, fam


def values(rng, case, mon, compute_chisq):
    mode, how, dt = case['mode'], case['layout'], case['dtype']
    ncol = int(rng.choice([1, 2, 3, 4, 5]))
    n = int(rng.choice([1, 2, 3, 7, 40]))
    d, fam = draw(rng, mode, ncol, n)
    use_ref = bool(rng.uniform() < 0.7)
    use_lup = bool(rng.uniform() < 0.7)
    nophoto = bool(rng.uniform() < 0.3)
    for k in list(d):
        d[k] = np.asarray(d[k].astype(dt), dtype='f8')   # what the code can see
    cov_nzlast = np.moveaxis(d['cov'], 0, 2)
    L = lambda a: lay(rng, a, how, dt)
    if mode == 0:
        cov = L(d['cov'][0])
        args = [cov, L(d['c'][0]), L(d['slope'][0]),
                (d['pivot'].astype(dt) if rng.uniform() < 0.5 else np.asarray(d['pivot'][0]).astype(dt)),
                L(d['refmag']), L(d['magerr']), L(d['color'])]
        rme = L(d['refmagerr'])
    elif mode == 1:
        cov = lay(rng, cov_nzlast, how, dt, nzlast=True)
        args = [cov, L(d['c']), L(d['slope']), L(d['pivot']),
                np.asarray(d['refmag'][0]).astype(dt) if rng.uniform() < 0.5 else d['refmag'].astype(dt),
                L(d['magerr'][0]), L(d['color'][0])]
        rme = np.asarray(d['refmagerr'][0]).astype(dt) if rng.uniform() < 0.5 else d['refmagerr'].astype(dt)
    else:
        cov = lay(rng, cov_nzlast, how, dt, nzlast=True)
        args = [cov, L(d['c']), L(d['slope']), L(d['pivot']), L(d['refmag']), L(d['magerr']), L(d['color'])]
        rme = L(d['refmagerr'])
    kw = {'nophotoerr': nophoto}
    if use_ref:
        kw['refmagerr'] = rme
    if use_lup:
        kw['lupcorr'] = L(d['lup'])
    held = args + [v for v in kw.values() if isinstance(v, np.ndarray)]
    before = [np.asarray(a).tobytes() for a in held]
    chi, lk = compute_chisq(*args, calc_chisq=True, calc_lkhd=True, **kw)
    only = compute_chisq(*args, **kw)
    onlylk = compute_chisq(*args, calc_chisq=False, calc_lkhd=True, **kw)
    mon.check('inputs_unmodified', [np.asarray(a).tobytes() for a in held] == before)
    wit = dict(mode=mode, layout=how, dtype=dt, ncol=ncol, n=n, fam=fam, use_ref=use_ref, use_lup=use_lup, nophoto=nophoto)
    mon.check('lengths', chi.shape == (n,) and lk.shape == (n,), **wit)
    mon.check('options_agree', np.array_equal(only, chi) and np.array_equal(onlylk, lk), **wit)
    for i in range(n):
        iz = 0 if mode == 0 else i
        ig = 0 if mode == 1 else i
        rc, rl, kind, cond = reference(d['cov'][iz], d['c'][iz], d['slope'][iz], d['pivot'][iz], d['refmag'][ig],
                                       d['magerr'][ig], d['color'][ig], d['refmagerr'][ig] if use_ref else 0.0,
                                       d['lup'][i] if use_lup else np.zeros(ncol), nophoto)
        if kind == 'threshold':
            continue
        mon.event(kind)
        rt = 1e-8 + 1e-13 * cond
        mon.close('chisq_value', chi[i], rc, rtol=rt, atol=1e-9, index=i, mkind=kind, **wit)
        mon.close('lkhd_value', lk[i], rl, rtol=rt, atol=1e-8 + 1e-12 * cond, index=i, mkind=kind, **wit)
        if kind != 'sentinel':
            mon.check('chisq_nonnegative', chi[i] >= -1e-9, value=chi[i], **wit)
    mon.distinct(mode, ncol, how, dt, fam, use_ref, use_lup, nophoto)
    mon.sample(dict(chisq=chi[:3], lkhd=lk[:3], **wit))
    # the three calling shapes agree on a common problem
    if n >= 1:
        zz = np.zeros(n, dtype=int)
        g0 = d['refmag'], d['magerr'], d['color'], d['refmagerr']
        if mode == 0:
            one = chi
            two = compute_chisq(np.moveaxis(d['cov'][zz], 0, 2), d['c'][zz], d['slope'][zz], d['pivot'][zz], *g0[:3],
                                refmagerr=g0[3] if use_ref else None, lupcorr=d['lup'] if use_lup else None,
                                nophotoerr=nophoto)
            mon.close('mode_consistency', two, one, rtol=1e-7, atol=1e-7, **wit)
        elif mode == 1:
            two = compute_chisq(np.moveaxis(d['cov'], 0, 2), d['c'], d['slope'], d['pivot'], d['refmag'][zz],
                                d['magerr'][zz], d['color'][zz], refmagerr=d['refmagerr'][zz] if use_ref else None,
                                lupcorr=d['lup'] if use_lup else None, nophotoerr=nophoto)
            mon.close('mode_consistency', two, chi, rtol=1e-7, atol=1e-7, **wit)


def reject(rng, mon, compute_chisq):
    ncol, n = int(rng.choice([2, 3, 4])), int(rng.choice([2, 3, 5]))
    for mode in (0, 1, 2):
        d, _ = draw(rng, mode, ncol, n)
        if mode == 0:
            base = dict(covmat=d['cov'][0], c=d['c'][0], slope=d['slope'][0], pivotmag=d['pivot'], refmag=d['refmag'],
                        magerr=d['magerr'], color=d['color'], refmagerr=d['refmagerr'], lupcorr=d['lup'])
        elif mode == 1:
            base = dict(covmat=np.moveaxis(d['cov'], 0, 2), c=d['c'], slope=d['slope'], pivotmag=d['pivot'],
                        refmag=d['refmag'], magerr=d['magerr'][0], color=d['color'][0], refmagerr=d['refmagerr'],
                        lupcorr=d['lup'])
        else:
            base = dict(covmat=np.moveaxis(d['cov'], 0, 2), c=d['c'], slope=d['slope'], pivotmag=d['pivot'],
                        refmag=d['refmag'], magerr=d['magerr'], color=d['color'], refmagerr=d['refmagerr'],
                        lupcorr=d['lup'])
        for name in ('covmat', 'slope', 'pivotmag', 'magerr', 'color', 'refmagerr', 'lupcorr', 'refmag'):
            if name == 'refmag' and mode == 1:
                continue   # a single reference magnitude; only its first value is meaningful
            a = base[name]
            for ax in range(a.ndim):
                # the array too short along one axis: a silent out-of-bounds read if accepted
                if a.shape[ax] <= 1 and name in ('refmagerr', 'pivotmag'):
                    bad = np.concatenate([a, a])
                else:
                    bad = np.take(a, np.arange(a.shape[ax] - 1), axis=ax)
                kw = dict(base)
                kw[name] = bad
                try:
                    compute_chisq(**kw)
                    ok = False
                except (ValueError, RuntimeError, TypeError, IndexError):
                    ok = True
                mon.check('mismatch_rejected', ok, mode=mode, which=name, axis=ax, ncol=ncol, n=n)
                mon.distinct('reject', mode, name, ax)


def redseq(rng, mon, env):
    """The same number reaches the user through the red-sequence model."""
    import os
    from redmapper import Configuration, RedSequenceColorPar
    from redmapper.galaxy import GalaxyCatalog
    os.chdir(os.path.join(env.repo, 'tests'))
    zr = getattr(redseq, '_zr', None)
    if zr is None:
        zr = RedSequenceColorPar('data_for_tests/test_dr8_pars.fit', fine=True)
        redseq._zr = zr
    ng = int(rng.choice([1, 3, 20]))
    nmag = zr.nmag
    arr = np.zeros(ng, dtype=[('mag', 'f4', nmag), ('mag_err', 'f4', nmag), ('refmag', 'f4'), ('refmag_err', 'f4')])
    base = rng.uniform(16, 20.5, ng)
    col = rng.normal(0.7, 0.5, (ng, nmag - 1))
    arr['mag'][:, 0] = base + 1.5
    for j in range(nmag - 1):
        arr['mag'][:, j + 1] = arr['mag'][:, j] - col[:, j]
    arr['mag_err'] = rng.lognormal(np.log(0.05), 0.7, (ng, nmag))
    arr['refmag'] = base
    arr['refmag_err'] = rng.lognormal(np.log(0.05), 0.5, ng)
    gal = GalaxyCatalog(arr)
    gcol = np.asarray(arr['mag'][:, :-1] - arr['mag'][:, 1:], dtype='f8')
    z = float(rng.uniform(zr.z[0], zr.z[zr.nz - 2] if hasattr(zr, 'nz') else 0.5))
    for calc in ('scalar', 'many'):
        if calc == 'scalar':
            zin = z
        else:
            zin = rng.uniform(0.1, 0.4, ng)
        zi = np.atleast_1d(zr.zindex(np.atleast_1d(zin)))
        rm_index = np.atleast_1d(zr.refmagindex(gal.refmag))
        chi = zr.calculate_chisq(gal, zin)
        lk = zr.calculate_chisq(gal, zin, calc_lkhd=True)
        if isinstance(lk, tuple):
            chi2, lk = lk
            mon.close('rs_pair', chi2, chi, rtol=1e-12)
        for i in range(ng):
            k = zi[0] if zi.size == 1 else zi[i]
            rc, rl, kind, cond = reference(np.asarray(zr.covmat[:, :, k], dtype='f8'), np.asarray(zr.c[k, :], dtype='f8'),
                                           np.asarray(zr.slope[k, :], dtype='f8'), float(zr.pivotmag[k]), float(arr['refmag'][i]),
                                           np.asarray(arr['mag_err'][i], dtype='f8'), gcol[i],
                                           float(arr['refmag_err'][i]),
                                           np.asarray(zr.lupcorr[rm_index[i], k, :], dtype='f8'), False)
            if kind == 'threshold':
                continue
            mon.close('rs_chisq', chi[i], rc, rtol=1e-5, atol=1e-5, how=calc, z=zin if calc == 'scalar' else zin[i])
            mon.close('rs_lkhd', lk[i], rl, rtol=1e-5, atol=1e-4, how=calc)
        mon.distinct('redseq', calc, ng, int(z * 50))
