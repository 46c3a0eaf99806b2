"""Synthetic skies used by several checks (no code of /repo is used to make them)."""
import numpy as np

REGIONS = {'eq': (140., 65.), 'wrap': (0.0, 5.), 'npole': (30., 88.), 'spole': (200., -88.5), 'south': (310., -35.),
           'equator': (180., 0.3)}


def sky_points(rng, region, n, size):
    """n points in a patch of roughly `size` degrees around a region's centre."""
    ra0, dec0 = REGIONS[region]
    th = np.radians(90. - dec0)
    # tangent-plane offsets rotated onto the sphere
    r = size / 2. * np.sqrt(rng.uniform(0, 1, n))
    a = rng.uniform(0, 2 * np.pi, n)
    rr = np.radians(r)
    x, y, z = np.sin(rr) * np.cos(a), np.sin(rr) * np.sin(a), np.cos(rr)
    # rotate z-axis to colatitude th, longitude ra0
    x2 = x * np.cos(th) + z * np.sin(th)
    z2 = -x * np.sin(th) + z * np.cos(th)
    ph = np.radians(ra0)
    x3 = x2 * np.cos(ph) - y * np.sin(ph)
    y3 = x2 * np.sin(ph) + y * np.cos(ph)
    ra = np.degrees(np.arctan2(y3, x3)) % 360.
    dec = np.degrees(np.arcsin(np.clip(z2, -1, 1)))
    return ra, dec


def vec(ra, dec):
    ra, dec = np.radians(np.asarray(ra, dtype='f8')), np.radians(np.asarray(dec, dtype='f8'))
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], axis=-1)


def sep(ra1, dec1, ra2, dec2):
    """exact angular separation (degrees), broadcasting."""
    a, b = vec(ra1, dec1), vec(ra2, dec2)
    c = np.linalg.norm(np.cross(a, b), axis=-1)
    d = np.sum(a * b, axis=-1)
    return np.degrees(np.arctan2(c, d))


def galaxies(rng, n, nmag, region, size, truth=False, zspec=False, id0=1, extra=False):
    dt = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', nmag),
          ('mag_err', 'f4', nmag), ('ebv', 'f4')]
    if truth:
        dt += [('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')]
    if zspec:
        dt += [('zspec', 'f4'), ('zspec_err', 'f4')]
    if extra:
        dt += [('myextra', 'f8')]
    g = np.zeros(n, dtype=dt)
    g['id'] = id0 + rng.permutation(n)
    g['ra'], g['dec'] = sky_points(rng, region, n, size)
    g['refmag'] = rng.uniform(14, 23, n)
    g['refmag_err'] = rng.uniform(0.001, 0.3, n)
    g['mag'] = rng.uniform(13, 25, (n, nmag))
    g['mag_err'] = rng.uniform(0.001, 0.5, (n, nmag))
    g['ebv'] = rng.uniform(0, 0.3, n)
    for nm in g.dtype.names:
        if nm in ('ztrue', 'm200', 'zspec', 'zspec_err', 'myextra'):
            g[nm] = rng.uniform(0.01, 1, n)
        elif nm in ('central', 'halo_id'):
            g[nm] = rng.randint(0, 30000, n)
    return g


def info(nmag, **kw):
    d = {'LIM_REF': 21.5, 'REF_IND': min(3, nmag - 1), 'AREA': 25.0, 'NMAG': nmag, 'MODE': 'SDSS', 'ZP': 22.5,
         'B': np.zeros(nmag)}
    d.update(kw)
    return d


def canon(a, names=None):
    """rows of a structured array as sortable byte strings over the given columns."""
    names = list(names or a.dtype.names)
    out = []
    cols = [np.ascontiguousarray(a[n].astype(a[n].dtype.newbyteorder('<'))).reshape(a.size, -1).view('u1') for n in names]
    full = np.concatenate(cols, axis=1) if a.size else np.zeros((0, 1), 'u1')
    for row in full:
        out.append(row.tobytes())
    return out
