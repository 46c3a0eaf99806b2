"""Monitors: event counters, distinct-signature sets, violations and samples."""
import hashlib
import json
import os
import traceback

import numpy as np


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        if x.dtype.names is not None:
            return repr(x[:3])[:400]
        flat = x.ravel()
        out = [jsonable(v) for v in flat[:24].tolist()]
        return {'shape': list(x.shape), 'dtype': str(x.dtype), 'head': out}
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if x is None or isinstance(x, (bool, int, str)):
        return x
    return repr(x)[:300]


class Monitor(object):
    """Collects what the deciding monitors observed during one case."""

    def __init__(self, case):
        self.case = case
        self.counts = {}
        self.sigs = set()
        self.violations = []
        self.samples = []

    # -- events ---------------------------------------------------------
    def event(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def distinct(self, *sig):
        """Record a non-trivial observed situation, keyed by its content."""
        h = hashlib.sha1(repr(jsonable(list(sig))).encode()).hexdigest()[:16]
        self.sigs.add(h)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    # -- verdicts -------------------------------------------------------
    def check(self, name, ok, /, **witness):
        self.event(name)
        if not bool(ok):
            self.violation(name, **witness)
            return False
        return True

    def violation(self, name, /, **witness):
        if len(self.violations) < 20:
            self.violations.append({'monitor': name, 'case': jsonable(self.case),
                                    'witness': jsonable(witness)})
        return False

    def close(self, name, got, want, /, rtol=1e-9, atol=1e-12, **witness):
        """got == want to tolerance, NaN equal to NaN, infs equal by sign."""
        self.event(name)
        got = np.asarray(got, dtype=np.float64)
        want = np.asarray(want, dtype=np.float64)
        if got.shape != want.shape:
            try:
                want = np.broadcast_to(want, got.shape)
            except ValueError:
                return self.violation(name, **dict(witness, got_shape=got.shape, want_shape=want.shape))
        with np.errstate(all='ignore'):
            bad = ~np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        if np.any(bad):
            idx = np.argwhere(bad)[:5]
            g = [got[tuple(i)] for i in idx]
            w = [want[tuple(i)] for i in idx]
            return self.violation(name, **dict(witness, nbad=int(np.sum(bad)), ntotal=int(got.size), where=idx,
                                               got=g, want=w))
        return True

    def equal(self, name, got, want, /, **witness):
        self.event(name)
        got = np.asarray(got)
        want = np.asarray(want)
        ok = got.shape == want.shape
        if ok:
            eq = (got == want)
            if got.dtype.kind == 'f' and want.dtype.kind == 'f':
                eq = eq | (np.isnan(got) & np.isnan(want))
            ok = bool(np.all(eq))
        if not ok:
            return self.violation(name, **dict(witness, got=got, want=want))
        return True


def innermost_in(exc, prefixes):
    """Does the raising chain pass through a frame of the code under test?"""
    tb = exc.__traceback__
    hit = False
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        last = fn
        if any(fn.startswith(p) for p in prefixes):
            hit = True
        tb = tb.tb_next
    return hit, last


def format_exc(exc):
    return traceback.format_exception(type(exc), exc, exc.__traceback__)[-8:]
