"""C01: the richness solver returns the self-consistent richness, radius and
membership probabilities.

Oracle: an independent numpy evaluation of the membership model
(u, b, NFW normalisation, radial softening, mask correction).  The monitor takes
what the solver returned and asks whether the sum rule changes sign inside the
advertised tolerance around the returned richness, and whether every returned
probability and weight is the model's value there.
"""
import numpy as np
from scipy.special import erf

RULE = ('a solver run with >=1 galaxy of non-zero weight, keyed by (catalogue family, dtype, soft/hard cut, '
        'mask correction, outcome class, richness decade)')
REQUIRED = {'self_consistent': 100, 'probabilities': 100, 'no_solution': 5, 'rlambda': 100}
ASSUMPTIONS = ['the NFW normalisation polynomial and the bisection tolerance of 0.01 in richness are those published '
               'with the algorithm']
TOL = 0.01
BUDGET = {'quick': 400, 'thorough': 2400}

FAMILIES = ['nfw', 'nfw_bright', 'flat', 'empty', 'hot_bkg', 'zero_bkg', 'tiny', 'zeros_mixed', 'edge', 'dense', 'rounded']
DTYPES = ['f8', 'f4', '>f8', 'strided', 'i4']


def norm(rl):
    with np.errstate(all='ignore'):
        L = np.log(rl)
        return np.exp(1.65169 - 0.547850 * L + 0.138202 * L**2 - 0.0719021 * L**3 - 0.0158241 * L**4
                      - 0.000854985 * L**5)


class Model(object):
    def __init__(self, r0, beta, u, b, r, w, cpars, rsig):
        self.r0, self.beta, self.rsig = r0, beta, rsig
        self.u, self.b, self.r, self.w, self.cpars = [np.array(x, dtype='f8') for x in (u, b, r, w, cpars)]

    def rlam(self, lam):
        return self.r0 * (lam / 100.)**self.beta

    def p(self, lam):
        with np.errstate(all='ignore'):
            num = lam * self.u * norm(self.rlam(lam))
            p = num / (num + self.b)
        p[~np.isfinite(p)] = 0.0
        return p

    def theta(self, lam):
        rl = self.rlam(lam)
        if self.rsig <= 0:
            return (self.r < rl).astype('f8')
        t = 0.5 + 0.5 * erf((rl - self.r) / (np.sqrt(2.) * self.rsig))
        t[self.r < rl - 5 * self.rsig] = 1.0
        t[self.r > rl + 5 * self.rsig] = 0.0
        return t

    def total(self, lam):
        rl = self.rlam(lam)
        c = self.cpars[3] + self.cpars[2] * rl + self.cpars[1] * rl**2 + self.cpars[0] * rl**3
        return np.sum(self.p(lam) * self.w * self.theta(lam)) + lam * max(c, 0.0)

    def f(self, lam):
        return self.total(lam) - lam


def gen(rng, fam):
    n = int(rng.choice([1, 2, 5, 20, 80, 300, 1200]))
    r0 = float(rng.choice([0.5, 1.0, 1.0, 1.4]))
    beta = float(rng.choice([0.0, 0.1, 0.2, 0.2, 0.35]))
    r = np.sqrt(rng.uniform(0, 1, n)) * rng.choice([0.6, 1.5, 3.0])
    u = rng.lognormal(np.log(0.15), 1.5, n)
    b = rng.lognormal(np.log(2.0), 1.5, n)
    w = np.where(rng.uniform(size=n) < 0.7, 1.0, rng.uniform(0, 1, n))
    if fam == 'nfw_bright':
        n2 = n
        r = rng.exponential(0.3, n2)
        u = rng.lognormal(np.log(3.0), 1.0, n2)
    elif fam == 'flat':
        u = np.full(n, 0.3)
        b = np.full(n, 3.0)
        w = np.ones(n)
    elif fam == 'empty':
        r, u, b, w = [np.zeros(0)] * 4
    elif fam == 'hot_bkg':
        b = b * 1e6
    elif fam == 'zero_bkg':
        b[rng.uniform(size=n) < 0.5] = 0.0
        u[rng.uniform(size=n) < 0.2] = 0.0
    elif fam == 'tiny':
        u = u * 1e-8
    elif fam == 'zeros_mixed':
        w[rng.uniform(size=n) < 0.5] = 0.0
        r[rng.uniform(size=n) < 0.3] = 0.0
        b[rng.uniform(size=n) < 0.1] = np.inf
    elif fam == 'edge':
        r = r0 * (rng.choice([20., 50., 100.]) / 100.)**beta * (1 + rng.normal(0, 0.02, n))
    elif fam == 'dense':
        r = rng.uniform(0, 0.3, n)
        u = u * 1e4
    elif fam == 'rounded':
        r = np.round(r, 2)
    cpars = np.zeros(4)
    ck = rng.choice(['none', 'none', 'const', 'poly', 'neg'])
    if ck == 'const':
        cpars[3] = rng.uniform(0.0, 0.6)
    elif ck == 'poly':
        cpars[:] = [rng.uniform(-0.05, 0.05), rng.uniform(-0.1, 0.1), rng.uniform(-0.2, 0.2), rng.uniform(0, 0.3)]
    elif ck == 'neg':
        cpars[:] = [0.02, -0.1, -0.3, -0.2]
    rsig = float(rng.choice([0.0, 0.0, 0.01, 0.05, 0.05, 0.2]))
    return r0, beta, u, b, r, w, cpars, rsig, ck


def layout(rng, a, dt):
    if dt == 'strided':
        big = np.full(2 * a.size + 3, 777.0)
        big[1:1 + 2 * a.size:2] = a
        return big[1:1 + 2 * a.size:2]
    if dt == 'i4':
        return np.round(a * 3 + (a > 0)).astype('i4') if np.all(np.isfinite(a)) else a
    return a.astype(dt)


def plan(tier, seed):
    n = 1 if tier == 'quick' else 12
    out = []
    k = 0
    for rep in range(n):
        for fam in FAMILIES:
            for dt in DTYPES:
                out.append({'kind': 'solve', 'family': fam, 'dtype': dt, 'seed': seed * 100003 + k,
                            'reps': 12 if tier == 'quick' else 30})
                k += 1
    for rep in range(n * 4):
        out.append({'kind': 'reject', 'seed': seed * 100003 + k})
        k += 1
    return out


def run_case(case, mon, env):
    from redmapper import Solver
    rng = np.random.RandomState(case['seed'] % (2**31))
    if case['kind'] == 'reject':
        return run_reject(rng, mon, Solver)
    for rep in range(case['reps']):
        one(rng, case, mon, Solver)


def one(rng, case, mon, Solver):
    fam, dt = case['family'], case['dtype']
    r0, beta, u, b, r, w, cpars, rsig, ck = gen(rng, fam)
    u, b, r, w = [layout(rng, x, dt) for x in (u, b, r, w)]
    before = [x.tobytes() for x in (u, b, r, w, cpars)]
    s = Solver(r0, beta, u, b, r, w, cpars=cpars, rsig=rsig)
    lam, p, wt, rlam, theta = s.solve_nfw()
    lam, rlam = float(lam), float(rlam)
    p, wt, theta = [np.array(x, dtype='f8') for x in (p, wt, theta)]
    mon.check('inputs_unmodified', [x.tobytes() for x in (u, b, r, w, cpars)] == before)
    again = s.solve_nfw()
    mon.check('deterministic', all(np.array_equal(np.asarray(x), np.asarray(y))
                                   for x, y in zip(again, (lam, p, wt, rlam, theta))), first=lam, second=float(again[0]))
    m = Model(r0, beta, u, b, r, w, cpars, rsig)
    wit = dict(family=fam, dtype=dt, n=int(u.size), r0=r0, beta=beta, rsig=rsig, cpars=cpars, lam=lam, rlam=rlam)
    n = u.size
    mon.check('shapes', p.shape == (n,) and wt.shape == (n,) and theta.shape == (n,), **wit)
    mon.check('range', lam == -1.0 or (1.0 <= lam <= 2000.0), **wit)

    grid = np.concatenate([np.linspace(0.5, 3, 60), np.geomspace(3, 2000, 120)])
    fg = np.array([m.f(x) for x in grid])
    sgn = np.sign(fg)
    nroot = int(np.sum(sgn[1:] != sgn[:-1]))
    if lam == -1.0:
        mon.event('no_solution')
        mon.check('rlambda_unset', rlam == -1.0, **wit)
        # Legitimate only if the sum rule is not positive all the way up to 1.
        lo = np.linspace(0.5, 1.0 + 2 * TOL, 60)
        mon.check('no_solution_justified', min(m.f(x) for x in lo) <= 1e-6, **wit)
        if nroot <= 1:
            # unique crossing: it must not sit at a real richness
            mon.check('no_solution_unique', m.f(1.0 + 3 * TOL) <= 1e-6, **wit)
        mon.distinct(fam, dt, rsig > 0, ck, 'none')
        lam_eff = None
    else:
        mon.close('rlambda', rlam, m.rlam(lam), rtol=1e-10, **wit)
        lam_eff = lam
        flo, fhi = m.f(lam - 1.05 * TOL), m.f(lam + 1.05 * TOL)
        eps = 1e-9 * max(1.0, lam)
        if lam > 2000.0 - 2.1 * TOL:
            mon.check('saturated_justified', m.f(2000. - 3 * TOL) > -1e-6, **wit)
        else:
            low_end = lam < 1.0 + 2 * TOL   # the stability floor applies at the very low end
            mon.check('self_consistent', (flo >= -eps or low_end) and fhi <= eps, flo=flo, fhi=fhi, **wit)
        mon.distinct(fam, dt, rsig > 0, ck, 'sat' if lam > 1999 else 'ok', int(np.log10(lam) * 4))
    # probabilities
    mon.check('probabilities_bounded', bool(np.all((p >= 0) & (p <= 1.0 + 1e-12))), p=p, **wit)
    if lam_eff is not None:
        ls = np.array([lam - 1.05 * TOL, lam - 0.5 * TOL, lam, lam + 0.5 * TOL, lam + 1.05 * TOL])
        P = np.array([m.p(x) for x in ls])
        T = np.array([m.theta(x) for x in ls])
        e = 1e-9
        okp = (p >= P.min(axis=0) - e) & (p <= P.max(axis=0) + e)
        mon.check('probabilities', bool(np.all(okp)), bad=np.flatnonzero(~okp), got=p[~okp], lo=P.min(axis=0)[~okp],
                  hi=P.max(axis=0)[~okp], **wit)
        okt = (theta >= T.min(axis=0) - e) & (theta <= T.max(axis=0) + e)
        mon.check('radial_weights', bool(np.all(okt)), bad=np.flatnonzero(~okt), got=theta[~okt],
                  lo=T.min(axis=0)[~okt], hi=T.max(axis=0)[~okt], r=m.r[~okt], **wit)
        W = P * m.w[None, :] * T
        # a galaxy between two trial radii may carry either weight
        okw = (wt >= W.min(axis=0) - e) & (wt <= W.max(axis=0) + e)
        mon.check('total_weights', bool(np.all(okw)), bad=np.flatnonzero(~okw), got=wt[~okw], **wit)
    if lam_eff is not None:
        edges(mon, Solver, m, wit, case, (r0, beta, u, b, r, w, cpars, rsig), lam, rlam, theta)
    mon.sample(dict(lam=lam, rlam=rlam, sum_wt=float(np.sum(wt)), **{k: wit[k] for k in ('family', 'dtype', 'n', 'rsig')}))
    # order independence
    if n > 1 and lam > 0 and nroot == 1:
        o = rng.permutation(n)
        l2, p2, wt2, rl2, t2 = Solver(r0, beta, u[o], b[o], r[o], w[o], cpars=cpars, rsig=rsig).solve_nfw()
        mon.close('order_independent', float(l2), lam, rtol=0, atol=2.1 * TOL, **wit)
        if abs(float(l2) - lam) < 1e-12:
            mon.close('order_independent_p', np.asarray(p2), p[o], rtol=1e-9, atol=1e-12)


def edges(mon, Solver, m, wit, case, args, lam, rlam, theta):
    r0, beta, u, b, r, w, cpars, rsig = args
    dt = case['dtype']
    # the radial weights are those of the returned radius itself, also for galaxies right at the edge
    t0 = m.theta(lam)
    clear = np.abs(m.r - rlam) > 1e-9 * rlam
    mon.check('radial_weights', bool(np.all(np.abs(theta - t0)[clear] < 1e-7)), what='at the returned radius', **wit)
    if dt == 'f8' and lam < 1990:
        off = np.array([-0.9, -0.5, -0.2, 0.2, 0.5, 0.9]) * TOL
        rp = np.array([m.rlam(lam + x) for x in off])
        ap = lambda x, y: np.concatenate([np.asarray(x, dtype='f8'), y])
        l2, p2, wt2, rl2, t2 = Solver(r0, beta, ap(u, np.full(6, 1e-12)), ap(b, np.ones(6)), ap(r, rp), ap(w, np.ones(6)), cpars=cpars, rsig=rsig).solve_nfw()
        m2 = Model(r0, beta, np.zeros(6), np.ones(6), rp, np.ones(6), cpars, rsig)
        clear = np.abs(rp - float(rl2)) > 1e-9 * rlam
        if float(l2) > 0:
            mon.check('edge_weights', bool(np.all(np.abs(np.asarray(t2)[-6:] - m2.theta(float(l2)))[clear] < 1e-7)), got=np.asarray(t2)[-6:], radii=rp, radius=float(rl2), **wit)


def run_reject(rng, mon, Solver):
    n = int(rng.randint(1, 30))
    mk = lambda k: rng.uniform(0.1, 1, k)
    for name in ('bcounts', 'r', 'w', 'cpars'):
        for d in (-1, 1, 5):
            sizes = {'ucounts': n, 'bcounts': n, 'r': n, 'w': n, 'cpars': 4}
            sizes[name] = max(0, sizes[name] + d)
            if sizes[name] == (4 if name == 'cpars' else n):
                continue
            try:
                Solver(1.0, 0.2, mk(sizes['ucounts']), mk(sizes['bcounts']), mk(sizes['r']), mk(sizes['w']),
                       cpars=mk(sizes['cpars']))
                ok = False
            except (ValueError, RuntimeError, TypeError):
                ok = True
            mon.check('mismatch_rejected', ok, which=name, size=sizes[name], n=n)
            mon.distinct('reject', name, d)
