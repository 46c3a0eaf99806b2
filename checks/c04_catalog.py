"""C04: catalogue tables behave as tables under every operation history and survive FITS.

A reference table (ordered dict of plain numpy columns) is driven by the same
random operation history as a real Catalog; after every operation the monitor
compares all columns, names, sizes and entries.
"""
import os
import copy
import pickle
import numpy as np

RULE = 'one operation applied to a catalogue in a random history, keyed by (operation, size class, column kinds, previous operation)'
REQUIRED = {'table_equal': 400, 'fits_roundtrip': 20, 'fits_rows': 10, 'fits_indices': 10, 'entry_writes_through': 20,
            'bad_merge_rejected': 10}
BUDGET = {'quick': 400, 'thorough': 2400}

KINDS = ['f4', 'f8', 'i2', 'i4', 'i8', 'S12', 'v5', 'm23']


def dt_of(kind, name):
    if kind == 'v5':
        return (name, 'f4', 5)
    if kind == 'v1':
        return (name, 'f8', (1,))
    if kind == 'm23':
        return (name, 'f8', (2, 3))
    return (name, kind)


def fill(rng, kind, n):
    if kind == 'S12':
        return np.array([('s%dx' % rng.randint(1e6)).encode() for _ in range(n)], dtype='S12')
    if kind == 'v5':
        return rng.normal(size=(n, 5)).astype('f4')
    if kind == 'v1':
        return rng.normal(size=(n, 1))
    if kind == 'm23':
        return rng.normal(size=(n, 2, 3))
    if kind[0] == 'f':
        return (rng.normal(size=n) * 10.0**rng.randint(-3, 6)).astype(kind)
    lim = {'i2': 30000, 'i4': 2**31 - 1, 'i8': 2**62}[kind]
    return rng.randint(-lim, lim, n).astype(kind)


class Table(object):
    def __init__(self):
        self.cols = {}
        self.kinds = {}
        self.n = 0

    def rec(self):
        a = np.zeros(self.n, dtype=[dt_of(self.kinds[k], k) for k in self.cols])
        for k in self.cols:
            a[k] = self.cols[k]
        return a


def rname(rng):
    s = rng.choice(['RA', 'Dec', 'z_lambda', 'MAG', 'p_cen', 'Id', 'pmem', 'zRED', 'x']) + '%d' % rng.randint(1000)
    return s


def plan(tier, seed):
    n = 64 if tier == 'quick' else 800
    out = [{'kind': 'history', 'cls': ['Catalog', 'GalaxyCatalog'][k % 2], 'seed': seed * 9901 + k,
            'steps': 25} for k in range(n)]
    out += [{'kind': 'entries', 'seed': seed * 9901 + 500000 + k} for k in range(n // 4)]
    out += [{'kind': 'rejects', 'seed': seed * 9901 + 600000 + k} for k in range(n // 4)]
    return out


def getcls(name):
    from redmapper.catalog import Catalog
    from redmapper import GalaxyCatalog, ClusterCatalog
    return {'Catalog': Catalog, 'GalaxyCatalog': GalaxyCatalog, 'ClusterCatalog': ClusterCatalog}[name]


def compare(mon, cat, t, op, rng):
    names = [k.lower() for k in t.cols]
    wit = dict(op=op, n=t.n, kinds=list(t.kinds.values()))
    mon.check('table_names', list(cat.dtype.names) == names, got=list(cat.dtype.names), want=names, **wit)
    mon.check('table_size', cat.size == t.n and len(cat) == t.n, got=cat.size, **wit)
    for k in t.cols:
        key = k if rng.uniform() < 0.5 else (k.upper() if rng.uniform() < 0.5 else k.lower())
        got = np.asarray(getattr(cat, key))
        if t.kinds[k] == 'S12':
            got = got.astype('S12')      # FITS hands strings back as unicode
        ok = got.shape == t.cols[k].shape and np.array_equal(got, t.cols[k])
        mon.check('table_equal', ok, column=k, got=got, want=t.cols[k], **wit)
        mon.check('table_dtype', got.dtype.base == t.cols[k].dtype.base or got.dtype.newbyteorder('=') == t.cols[k].dtype,
                  column=k, got=str(got.dtype), **wit)


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    {'history': history, 'entries': entries, 'rejects': rejects}[case['kind']](rng, case, mon, env)


def newtable(rng, n):
    t = Table()
    t.n = n
    for j in range(rng.randint(1, 6)):
        nm = rname(rng)
        if nm.lower() in [x.lower() for x in t.cols]:
            continue
        kd = KINDS[rng.randint(len(KINDS))]
        t.cols[nm.lower()] = fill(rng, kd, n)
        t.kinds[nm.lower()] = kd
    return t


def history(rng, case, mon, env):
    cls = getcls(case['cls'])
    t = newtable(rng, int(rng.choice([0, 1, 2, 3, 17, 300])))
    if rng.uniform() < 0.3 and len(t.cols) > 1:
        ks = list(t.cols)
        cut = rng.randint(1, len(ks))
        full = t.rec()
        a1 = np.zeros(t.n, dtype=[dt_of(t.kinds[k], k.upper()) for k in ks[:cut]])
        a2 = np.zeros(t.n, dtype=[dt_of(t.kinds[k], k) for k in ks[cut:]])
        for k in ks[:cut]:
            a1[k.upper()] = full[k]
        for k in ks[cut:]:
            a2[k] = full[k]
        cat = cls(a1, a2)
        op = 'merge_ctor'
    else:
        cat = cls(t.rec())
        op = 'ctor'
    compare(mon, cat, t, op, rng)
    tmp = env.tmp()
    prev = op
    for step in range(case['steps']):
        ops = ['add_fields', 'append', 'append_arr', 'extend', 'slice', 'mask', 'take', 'setattr', 'setscalar', 'setitem',
               'fits', 'fits_rows', 'fits_indices', 'copy', 'pickle', 'setpart', 'zeros', 'dir']
        op = ops[rng.randint(len(ops))]
        if op == 'add_fields':
            if len(t.cols) > 9:
                continue
            nm = rname(rng)
            if nm.lower() in t.cols:
                continue
            kd = KINDS[rng.randint(len(KINDS))]
            cat.add_fields([dt_of(kd, nm)])
            z = fill(rng, kd, t.n)
            t.cols[nm.lower()] = np.zeros_like(z)
            t.kinds[nm.lower()] = kd
        elif op in ('append', 'append_arr'):
            m = int(rng.choice([0, 1, 5]))
            t2 = Table()
            t2.n = m
            t2.kinds = t.kinds
            for k in t.cols:
                t2.cols[k] = fill(rng, t.kinds[k], m)
            add = t2.rec()
            other = cls(add.copy()) if op == 'append' else add
            cat.append(other)
            for k in t.cols:
                t.cols[k] = np.concatenate([t.cols[k], t2.cols[k]])
            t.n += m
            if op == 'append':
                mon.check('append_argument_kept', other.size == m)
        elif op == 'extend':
            m = int(rng.choice([0, 1, 4]))
            cat.extend(m)
            for k in t.cols:
                t.cols[k] = np.concatenate([t.cols[k], np.zeros_like(fill(rng, t.kinds[k], m))])
            t.n += m
        elif op in ('slice', 'mask', 'take'):
            if op == 'slice':
                a = int(rng.randint(0, t.n + 1))
                sel = slice(a // 3, t.n, int(rng.choice([1, 2])))
            elif op == 'mask':
                sel = rng.uniform(size=t.n) < 0.8
            else:
                sel = rng.randint(0, t.n, min(t.n + 2, 200)) if t.n > 0 else np.zeros(0, dtype=int)
            keep = cat
            cat = cat[sel]
            mon.check('selection_type', type(cat) is cls, got=str(type(cat)))
            mon.check('source_kept', keep.size == t.n)
            for k in t.cols:
                t.cols[k] = t.cols[k][sel].copy()
            t.n = len(next(iter(t.cols.values())))
            if op == 'slice':
                # a slice may alias the source; detach so that the histories stay independent
                cat = copy.deepcopy(cat)
        elif op == 'setattr':
            k = list(t.cols)[rng.randint(len(t.cols))]
            v = fill(rng, t.kinds[k], t.n)
            setattr(cat, k.upper() if rng.uniform() < 0.5 else k, v)
            t.cols[k] = v
        elif op == 'setscalar':
            ks = [k for k in t.cols if t.kinds[k] in ('f4', 'f8', 'i2', 'i4', 'i8')]
            if not ks:
                continue
            k = ks[rng.randint(len(ks))]
            v = int(rng.randint(-1000, 1000))
            setattr(cat, k, v if rng.uniform() < 0.5 else [v])
            t.cols[k] = np.full(t.n, v).astype(t.cols[k].dtype)
        elif op == 'setpart':
            if t.n == 0:
                continue
            k = list(t.cols)[rng.randint(len(t.cols))]
            ii = rng.permutation(t.n)[:rng.randint(1, t.n + 1)]
            v = fill(rng, t.kinds[k], ii.size)
            getattr(cat, k)[ii] = v
            t.cols[k] = t.cols[k].copy()
            t.cols[k][ii] = v
        elif op == 'setitem':
            if t.n == 0:
                continue
            i = int(rng.randint(t.n))
            r = Table()
            r.n = 1
            r.kinds = t.kinds
            for k in t.cols:
                r.cols[k] = fill(rng, t.kinds[k], 1)
                t.cols[k] = t.cols[k].copy()
                t.cols[k][i] = r.cols[k][0]
            cat[i] = r.rec()[0]
        elif op == 'fits':
            fn = os.path.join(tmp, 'a%d.fit' % step)
            cat.to_fits_file(fn, extname='MYTAB')
            before = cat
            ext = 1 if rng.uniform() < 0.5 else 'MYTAB'
            if t.n == 0:
                cat2 = cls.from_fits_file(fn, ext=ext)
                mon.check('fits_roundtrip', cat2.size == 0)
                continue
            cat = cls.from_fits_file(fn, ext=ext)
            mon.event('fits_roundtrip')
            # an existing file must not be silently altered without clobber: fitsio appends an extension
            before.to_fits_file(fn, clobber=True)
            again = cls.from_fits_file(fn)
            compare(mon, again, t, 'fits_clobber', rng)
        elif op == 'fits_rows':
            if t.n < 1:
                continue
            fn = os.path.join(tmp, 'r%d.fit' % step)
            cat.to_fits_file(fn)
            rows = np.sort(rng.permutation(t.n)[:rng.randint(1, t.n + 1)])
            cat = cls.from_fits_file(fn, rows=rows)
            mon.event('fits_rows')
            for k in t.cols:
                t.cols[k] = t.cols[k][rows]
            t.n = rows.size
        elif op == 'fits_indices':
            if t.n < 1:
                continue
            fn = os.path.join(tmp, 'i%d.fit' % step)
            m = int(rng.randint(1, t.n + 1)) if rng.uniform() < 0.8 else int(rng.choice([1, t.n + 2]))
            idx = rng.randint(0, t.n, m)
            # row selections come as index arrays, lists or boolean masks, and may be empty
            for none in ([np.zeros(0, dtype='i8'), np.zeros(t.n, dtype=bool)] if rng.uniform() < 0.5 else []):
                fn0 = os.path.join(tmp, 'e%d%s.fit' % (step, none.dtype.kind))
                cat.to_fits_file(fn0, indices=none)
                mon.check('fits_indices', cls.from_fits_file(fn0).size == 0, empty=str(none.dtype), n=t.n)
            cat.to_fits_file(fn, indices=idx if rng.uniform() < 0.7 else list(int(x) for x in idx))
            compare(mon, cat, t, 'fits_indices_source', rng)
            cat = cls.from_fits_file(fn)
            mon.event('fits_indices')
            for k in t.cols:
                t.cols[k] = t.cols[k][idx]
            t.n = m
        elif op == 'copy':
            orig = cat
            cat = copy.deepcopy(cat)
            if t.n:
                k = list(t.cols)[0]
                getattr(orig, k)[:] = np.zeros_like(t.cols[k])
        elif op == 'pickle':
            cat = pickle.loads(pickle.dumps(cat))
        elif op == 'zeros':
            zc = cls.zeros(t.n, t.rec().dtype)
            mon.check('zeros', zc.size == t.n and not any(np.any(np.asarray(getattr(zc, k)) != np.zeros_like(t.cols[k]))
                                                          for k in t.cols))
        elif op == 'dir':
            names = dir(cat)
            mon.check('dir_lists_columns', all(k in names for k in t.cols))
        compare(mon, cat, t, op, rng)
        mon.distinct(case['cls'], op, prev, min(t.n, 3), len(t.cols))
        prev = op
    mon.sample(dict(cls=case['cls'], rows=t.n, columns=t.kinds, last=prev))


def entries(rng, case, mon, env):
    from redmapper.catalog import Catalog, Entry
    from redmapper import GalaxyCatalog
    for cls in (Catalog, GalaxyCatalog):
        n = int(rng.choice([1, 2, 9, 60]))
        t = newtable(rng, n)
        for k in [k for k in t.cols if t.kinds[k] == 'S12']:
            del t.cols[k], t.kinds[k]
        t.cols['qq'] = fill(rng, 'f8', n)
        t.kinds['qq'] = 'f8'
        cat = cls(t.rec())
        seen = 0
        for i, e in enumerate(cat):
            for k in t.cols:
                mon.check('entry_value', np.array_equal(np.asarray(getattr(e, k.upper())), t.cols[k][i]), column=k, i=i)
            seen += 1
        mon.check('iteration_complete', seen == n, seen=seen, n=n)
        i = int(rng.randint(n))
        v = float(rng.normal())
        cat[i].qq = v
        t.cols['qq'][i] = v
        mon.check('entry_writes_through', np.array_equal(cat.qq, t.cols['qq']), i=i, n=n)
        e = cat[-1]
        mon.check('negative_index', np.array_equal(np.asarray(e.qq), t.cols['qq'][-1]))
        # an Entry with extra fields keeps the old values
        e2 = Entry(t.rec()[i:i + 1])
        e2.add_fields([('Extra', 'f4'), ('vec', 'f8', 3)])
        mon.check('entry_add_fields', float(e2.extra) == 0.0 and np.asarray(e2.vec).shape == (3,)
                  and all(np.array_equal(np.asarray(getattr(e2, k)), t.cols[k][i]) for k in t.cols))
        e2.vec = np.array([1., 2., 3.])
        e2.extra = 5.0
        mon.check('entry_set', np.array_equal(e2.vec, [1., 2., 3.]) and float(e2.EXTRA) == 5.0)
        fn = os.path.join(env.tmp(), 'e.fit')
        e2.to_fits_file(fn)
        back = Catalog.from_fits_file(fn)
        mon.check('entry_fits', back.size == 1 and all(np.array_equal(np.asarray(getattr(back, k))[0], np.asarray(getattr(e2, k)))
                                                       for k in list(t.cols) + ['extra', 'vec']))
        mon.distinct('entries', cls.__name__, n)


def rejects(rng, case, mon, env):
    from redmapper.catalog import Catalog, Entry
    n = int(rng.randint(2, 20))
    a = np.zeros(n, dtype=[('x', 'f8'), ('y', 'i4')])
    tests = [(np.zeros(n + 1, dtype=[('z', 'f8')]),), (np.zeros(n, dtype=[('X', 'f8')]),),
             (np.zeros(n, dtype=[('z', 'f8')]), np.zeros(n, dtype=[('Z', 'f8')]))]
    for extra in tests:
        try:
            Catalog(a.copy(), *extra)
            ok = False
        except ValueError:
            ok = True
        mon.check('bad_merge_rejected', ok, extra=[x.dtype.names for x in extra])
    c = Catalog(a.copy())
    c.y = np.arange(n)
    try:
        c.add_fields([('Y', 'f8')])
        ok = False
    except ValueError:
        ok = True
    mon.check('bad_merge_rejected', ok, which='add_fields')
    mon.check('kept_after_rejection', np.array_equal(c.y, np.arange(n)) and c.dtype.names == ('x', 'y'))
    for bad in (np.zeros(2, dtype=a.dtype), np.zeros(0, dtype=a.dtype)):
        try:
            Entry(bad)
            ok = False
        except (ValueError, IndexError):
            ok = True
        mon.check('entry_needs_one_row', ok, size=bad.size)
    try:
        c.nosuchcolumn
        ok = False
    except AttributeError:
        ok = True
    mon.check('unknown_column_rejected', ok)
    mon.distinct('rejects', n)
