"""C03: the native kernels under AddressSanitizer and UndefinedBehaviorSanitizer.

The extensions of the working tree are rebuilt with -fsanitize=address,undefined
and driven through the public Python API with every calling shape, degenerate
sizes, non-finite values, mis-shaped arrays, object lifetimes and long call
histories.  Oracle: the sanitizers, the heap accounting of the allocator, and
byte-comparison of all inputs.
"""
import ctypes
import gc
import numpy as np

EXT = 'asan'
RULE = 'one native call with live sanitizers, keyed by (kernel, mode, size class, value class, layout)'
REQUIRED = {'native_call': 500, 'heap_balanced': 4, 'inputs_unmodified': 500, 'rejected_cleanly': 50}
BUDGET = {'quick': 500, 'thorough': 2400}
ASSUMPTIONS = ['gcc 13 ASan/UBSan detect the out-of-bounds, use-after-free and undefined operations they instrument; '
               'numpy and GSL themselves are not instrumented, only their heap accesses through the allocator']


def plan(tier, seed):
    reps = 2 if tier == 'quick' else 20
    out, k = [], 0
    for rep in range(reps):
        for vals in ('plain', 'extreme', 'nonfinite'):
            for mode in (0, 1, 2):
                out.append({'kind': 'chisq', 'mode': mode, 'vals': vals, 'seed': seed * 31337 + k, 'n': 60})
                k += 1
            out.append({'kind': 'solver', 'vals': vals, 'seed': seed * 31337 + k, 'n': 40})
            k += 1
        out.append({'kind': 'misshaped', 'seed': seed * 31337 + k, 'n': 60})
        k += 1
        out.append({'kind': 'lifetime', 'seed': seed * 31337 + k, 'n': 60})
        k += 1
    for which in ('chisq', 'solver', 'misshaped_leak', 'lkhd'):
        out.append({'kind': 'leak', 'which': which, 'seed': seed * 31337 + k, 'n': 300 if tier == 'quick' else 3000})
        k += 1
    return out


def corrupt(rng, a, vals):
    a = np.array(a, dtype='f8')
    if vals == 'plain' or a.size == 0:
        return a
    m = rng.uniform(size=a.shape) < 0.1
    if vals == 'extreme':
        a[m] = rng.choice([0.0, 1e300, -1e300, 1e-300, 1e30, -1.0, 5e-324], int(m.sum()))
    else:
        a[m] = rng.choice([np.nan, np.inf, -np.inf], int(m.sum()))
    return a


def chisq_inputs(rng, mode, vals, n=None, ncol=None):
    ncol = ncol or int(rng.choice([1, 2, 3, 4, 6]))
    n = int(rng.choice([0, 1, 2, 3, 9, 64])) if n is None else n
    if mode != 1 and n == 0 and rng.uniform() < 0.5:
        n = 1
    nz = 1 if mode == 0 else n
    ng = 1 if mode == 1 else n
    A = rng.normal(0, 0.1, (nz, ncol, ncol))
    cov = np.einsum('aij,akj->aik', A, A) + 0.01 * np.eye(ncol)[None]
    cov = corrupt(rng, cov, vals)
    d = dict(covmat=cov[0] if mode == 0 else np.moveaxis(cov, 0, 2),
             c=rng.normal(size=(nz, ncol)), slope=rng.normal(size=(nz, ncol)) * 0.1, pivotmag=rng.uniform(17, 22, nz),
             refmag=rng.uniform(17, 22, ng), magerr=rng.uniform(0.01, 0.2, (ng, ncol + 1)),
             color=rng.normal(size=(ng, ncol)), refmagerr=rng.uniform(0.01, 0.1, ng), lupcorr=rng.normal(size=(n, ncol)))
    if mode == 0:
        d['c'], d['slope'] = d['c'][0], d['slope'][0]
    if mode == 1:
        d['magerr'], d['color'] = d['magerr'][0], d['color'][0]
    for k in d:
        if k != 'covmat':
            d[k] = corrupt(rng, d[k], vals)
    lay = rng.choice(['C', 'F', 's'])
    for k in d:
        if lay == 'F':
            d[k] = np.asfortranarray(d[k])
        elif lay == 's':
            big = np.zeros([2 * x for x in d[k].shape])
            sl = tuple(slice(0, 2 * x, 2) for x in d[k].shape)
            big[sl] = d[k]
            d[k] = big[sl]
    return d, n, ncol, lay


def solver_inputs(rng, vals):
    n = int(rng.choice([0, 1, 2, 7, 100, 1000]))
    return dict(r0=float(rng.choice([0.1, 1.0, 3.0])), beta=float(rng.choice([0.0, 0.2, 2.0])),
                ucounts=corrupt(rng, rng.uniform(0, 2, n), vals), bcounts=corrupt(rng, rng.uniform(0, 5, n), vals),
                r=corrupt(rng, rng.uniform(0, 2, n), vals), w=corrupt(rng, rng.uniform(0, 1, n), vals),
                cpars=corrupt(rng, rng.normal(size=4) * 0.1, vals), rsig=float(rng.choice([0.0, 0.05, 1e-9]))), n


def snap(d):
    return [np.asarray(v).tobytes() for v in d.values()]


def run_case(case, mon, env):
    from redmapper import compute_chisq, Solver
    rng = np.random.RandomState(case['seed'] % (2**31))
    kind = case['kind']
    if kind == 'chisq':
        for i in range(case['n']):
            d, n, ncol, lay = chisq_inputs(rng, case['mode'], case['vals'])
            b = snap(d)
            out = compute_chisq(calc_chisq=True, calc_lkhd=True, nophotoerr=bool(rng.randint(2)), **d)
            mon.event('native_call')
            mon.check('inputs_unmodified', snap(d) == b, mode=case['mode'])
            mon.check('result_length', out[0].size == n and out[1].size == n, n=n, got=out[0].shape)
            mon.distinct('chisq', case['mode'], case['vals'], n, ncol, lay)
        mon.sample(dict(mode=case['mode'], n=n, ncol=ncol, layout=lay, chisq=out[0][:4]))
    elif kind == 'solver':
        for i in range(case['n']):
            d, n = solver_inputs(rng, case['vals'])
            b = snap(d)
            out = Solver(**d).solve_nfw()
            mon.event('native_call')
            mon.check('inputs_unmodified', snap(d) == b)
            mon.check('result_length', all(np.asarray(out[j]).size == n for j in (1, 2, 4)), n=n)
            mon.distinct('solver', case['vals'], n, d['rsig'], d['beta'])
    elif kind == 'misshaped':
        for i in range(case['n']):
            if rng.uniform() < 0.3:
                d, n = solver_inputs(rng, 'plain')
                nm = rng.choice(['bcounts', 'r', 'w', 'cpars', 'ucounts'])
                a = d[nm]
                d[nm] = a[:max(0, a.size - int(rng.randint(1, 4)))] if rng.uniform() < 0.6 else np.append(a, [1.0, 2.0])
                if d[nm].size == a.size:
                    continue
                call, args = (lambda **k: Solver(**k).solve_nfw()), d
                key = ('solver', nm)
            else:
                mode = int(rng.randint(3))
                d, n, ncol, lay = chisq_inputs(rng, mode, 'plain', n=int(rng.choice([2, 5, 30])), ncol=int(rng.choice([2, 4])))
                nm = rng.choice(list(d.keys()))
                if (nm == 'refmag' and mode == 1) or nm == 'c':
                    continue
                a = d[nm]
                ax = int(rng.randint(a.ndim)) if a.ndim else 0
                if a.shape[ax] < 2:
                    continue
                d[nm] = np.take(a, np.arange(a.shape[ax] - 1), axis=ax)
                call, args = compute_chisq, d
                key = ('chisq', mode, nm, ax)
            try:
                call(**args)
                rejected = False
            except (ValueError, RuntimeError, TypeError, IndexError):
                rejected = True
            mon.check('rejected_cleanly', rejected, which=key)
            mon.distinct('misshaped', *key)
    elif kind == 'lifetime':
        for i in range(case['n']):
            d, n = solver_inputs(rng, 'plain')
            s = Solver(**d)
            first = [np.array(x) for x in s.solve_nfw()]
            for k in list(d):
                d[k] = None
            del d
            gc.collect()
            junk = [np.full(1 + int(rng.randint(1200)), 9e99) for _ in range(20)]
            second = s.solve_nfw()
            mon.event('native_call', 2)
            mon.check('survives_caller_arrays', all(np.array_equal(np.asarray(a), b, equal_nan=True)
                                                    for a, b in zip(second, first)), n=n)
            del s
            gc.collect()
            mon.check('results_outlive_solver', all(np.array_equal(np.asarray(a), b, equal_nan=True)
                                                    for a, b in zip(second, first)), n=n)
            mon.distinct('lifetime', n)
    elif kind == 'leak':
        leak(rng, case, mon, compute_chisq, Solver)


def leak(rng, case, mon, compute_chisq, Solver):
    lib = ctypes.CDLL(None)
    cur = lib.__sanitizer_get_current_allocated_bytes
    cur.restype = ctypes.c_size_t
    which = case['which']
    sets = []
    for mode in (0, 1, 2):
        sets.append(chisq_inputs(rng, mode, 'plain', n=40, ncol=4)[0])
    # an indefinite covariance takes the repair path in the kernel
    bad = dict(sets[0])
    bad['covmat'] = np.array([[0.01, 0.02, 0, 0], [0.02, 0.01, 0, 0], [0, 0, 0.01, 0.02], [0, 0, 0.02, 0.01]])
    bad['magerr'] = np.asarray(bad['magerr']) * 1e-3
    sets.append(bad)
    for mode in (0, 1, 2):
        for n in (1, 2, 0):
            if n or mode == 1:
                sets.append(chisq_inputs(rng, mode, 'plain', n=n, ncol=int(rng.choice([1, 3])))[0])
    ns = len(sets)
    sd = [solver_inputs(np.random.RandomState(7 + j), 'plain')[0] for j in range(12)]
    mis = dict(sd[0])
    mis['cpars'] = np.zeros(3)

    def step(i):
        if which == 'chisq':
            compute_chisq(**sets[i % ns])
        elif which == 'lkhd':
            compute_chisq(calc_chisq=True, calc_lkhd=True, **sets[i % ns])
        elif which == 'solver':
            Solver(**sd[i % 12]).solve_nfw()
        else:
            try:
                Solver(**mis)
            except (ValueError, RuntimeError):
                pass
    for i in range(40):
        step(i)
    gc.collect()
    a = cur()
    for i in range(case['n']):
        step(i)
    gc.collect()
    b = cur()
    mon.event('native_call', case['n'])
    grow = (b - a) / float(case['n'])
    mon.check('heap_balanced', grow < 1.0, bytes_per_call=grow, which=which)
    mon.sample(dict(which=which, calls=case['n'], heap_growth_bytes=b - a))
    mon.distinct('leak', which)
