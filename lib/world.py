"""A small synthetic survey: footprint mask, depth map, clusters and galaxies, built without redmapper code
(the red-sequence model only supplies colours)."""
import os
import numpy as np
import rmx
import skygen

C_KM = 299792.458


def mpc_per_deg(z, h=1.0, om=0.3):
    """Mpc/h per degree, flat LCDM (H0=100), by direct integration."""
    x = np.linspace(0, z, 2001)
    dc = np.trapz(1. / np.sqrt(om * (1 + x)**3 + 1 - om), x) * C_KM / 100.
    return np.radians(1.) * dc / (1 + z)


def offset(ra0, dec0, r, phi):
    """positions at angular distance r (deg) and position angle phi around a point."""
    a, d, r = np.radians(ra0), np.radians(dec0), np.radians(r)
    sd = np.sin(d) * np.cos(r) + np.cos(d) * np.sin(r) * np.cos(phi)
    dec = np.arcsin(np.clip(sd, -1, 1))
    y = np.sin(phi) * np.sin(r) * np.cos(d)
    x = np.cos(r) - np.sin(d) * sd
    return np.degrees(a + np.arctan2(y, x)) % 360., np.degrees(dec)


def cluster_gals(rng, zr, ra0, dec0, z, n, faint=21.4, central=True):
    r = np.minimum(rng.exponential(0.35, n), 2.5) / mpc_per_deg(z)
    if central and n:
        r[0] = 0.0
    ra, dec = offset(ra0, dec0, r, rng.uniform(0, 2 * np.pi, n))
    g = rmx.red_galaxies(rng, n, None, None, zr, blue=0.0, zfix=z, ra=ra, dec=dec, faint=faint)
    if central and n:
        # the central is bright
        dm = g['refmag'][0] - (zr._mstar[int(np.atleast_1d(zr.zindex(z))[0])] - 1.2)
        g['refmag'][0] -= dm
        g['mag'][0] -= dm
        g['central'][0] = 1
    return g


def modelerr(rng, mag, lim, nsig=10., zp=22.5, t=60.):
    """magnitude errors of a sky-limited exposure reaching lim at nsig."""
    f1 = 10.**((np.asarray(lim) - zp) / -2.5)
    sky = np.maximum(f1**2 * t / nsig**2 - f1, 1e-4)
    fl = t * 10.**((mag - zp) / -2.5)
    return 2.5 / np.log(10.) * np.sqrt(sky * t + fl) / fl * np.exp(0.03 * rng.normal(size=mag.size))


def footprint(rng, region, size, cls, nside=512):
    """nest pixels and fracgood of a patch of the given diameter (deg)."""
    import hpgeom as hpg
    ra0, dec0 = skygen.REGIONS[region]
    pix = hpg.query_circle(nside, ra0, dec0, size / 2., nest=True)
    if cls == 'full':
        val = np.ones(pix.size)
    elif cls == 'holes':
        keep = rng.uniform(size=pix.size) > 0.1
        pix, val = pix[keep], np.ones(keep.sum())
    else:
        keep = rng.uniform(size=pix.size) > 0.05
        pix = pix[keep]
        val = rng.choice([1.0, 1.0, 0.6], pix.size)
    return pix, val


class World(object):
    pass


def make(rng, env, d, region='eq', size=2.0, ncl=3, nfield=1500, cls='full', depth=True, zlo=0.15, zhi=0.4, nmin=20, nmax=60,
         places=None, uniform_depth=True, **over):
    """returns a World with config, galaxies and the true clusters.  Needs env.shared/maskgals.fit."""
    w = World()
    w.zr = rmx.zredstr(env, fine=False)
    w.region, w.size = region, size
    pix, val = footprint(rng, region, size, cls)
    w.maskfile = os.path.join(d, 'mask.hs')
    w.mask_pix, w.mask_val = pix, val
    rmx.write_mask(w.maskfile, 32, 512, pix, val)
    dv = np.zeros(pix.size, dtype=rmx.DEPTH_DT)
    dv['fracgood'] = val
    dv['exptime'] = 60.
    if uniform_depth == 'slope':
        # the depth changes smoothly over the field, from hardly to far deeper than the faintest galaxies counted
        import hpgeom as hpg
        pr, pd = hpg.pixel_to_angle(512, pix, nest=True)
        ra0, dec0 = skygen.REGIONS[region]
        f = rng.uniform(0, 2 * np.pi)
        x = (((pr - ra0 + 180.) % 360. - 180.) * np.cos(np.radians(dec0)) * np.cos(f) + (pd - dec0) * np.sin(f)) / size
        dv['limmag'] = 21.0 + 1.6 * np.clip(x, -0.5, 0.5) + rng.uniform(-0.05, 0.05, pix.size)
    else:
        dv['limmag'] = 21.4 if uniform_depth else rng.uniform(21.0, 21.8, pix.size)
    dv['m50'] = dv['limmag'] + 0.4
    w.depthfile = os.path.join(d, 'depth.hs')
    rmx.write_depth(w.depthfile, 32, 512, pix, dv)
    parts = [rmx.red_galaxies(rng, nfield, region, size, w.zr)]
    tr, td = skygen.sky_points(rng, region, ncl, size * 0.7)
    w.true = np.zeros(ncl, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('n', 'i4')])
    w.true['ra'], w.true['dec'] = tr, td
    w.true['z'] = rng.uniform(zlo, zhi, ncl)
    w.true['n'] = rng.randint(nmin, nmax + 1, ncl)
    if places is not None:
        places(rng, w.true)
        tr, td = w.true['ra'], w.true['dec']
    for i in range(ncl):
        parts.append(cluster_gals(rng, w.zr, tr[i], td[i], float(w.true['z'][i]), int(w.true['n'][i])))
        parts[-1]['halo_id'] = i + 1
    g = np.concatenate(parts)
    g['id'] = 5000 + rng.permutation(g.size)
    w.g = g[rng.permutation(g.size)]
    w.over = dict(maskfile=w.maskfile, depthfile=w.depthfile, maskgalfile=os.path.join(env.shared, 'maskgals.fit'), hpix=None, nside=None, border=0.0)
    if not depth:
        # no depth map: the limit has to be had from the errors of the galaxies themselves
        w.over['depthfile'] = None
        w.g['refmag_err'] = modelerr(rng, w.g['refmag'].astype('f8'), 21.2 + 0.8 * (w.g['dec'] - skygen.REGIONS[region][1]) / size)
        w.g['mag_err'][:, 3] = w.g['refmag_err']
    w.over.update(over)
    return w
