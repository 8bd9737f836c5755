"""Pieces of a small lensing world shared by the drivers."""
import functools
import numpy as np
from scipy.interpolate import interp1d
from astropy.cosmology import FlatLambdaCDM

ARCSEC = np.pi / 180.0 / 3600.0


@functools.lru_cache(None)
def astropy_cosmology(H0=69.7, Om0=0.2815, Ob0=0.0469):
    return FlatLambdaCDM(H0=H0, Om0=Om0, Ob0=Ob0)


@functools.lru_cache(None)
def cosmology():
    from pyHalo.Cosmology.cosmology import Cosmology
    return Cosmology(astropy_cosmology())


def lens_cosmo(zl, zs, infall='HYBRID_INFALL', kw=None):
    from pyHalo.Halos.lens_cosmo import LensCosmo
    return LensCosmo(zl, zs, cosmology(), infall, dict(kw or {'log_m_host': 13.0}))


@functools.lru_cache(None)
def chi(z):
    """comoving distance [Mpc] straight from astropy"""
    return float(astropy_cosmology().comoving_distance(z).value)


def path(points):
    """points: {1000 z: (x64, y64)} -> two callables of comoving distance, exact at every plane"""
    zs = sorted(points)
    d = np.array([chi(z / 1000.0) for z in zs])
    ax = np.array([points[z][0] / 64.0 for z in zs])
    ay = np.array([points[z][1] / 64.0 for z in zs])
    return (interp1d(d, ax, kind='nearest', bounds_error=False, fill_value=(ax[0], ax[-1])),
            interp1d(d, ay, kind='nearest', bounds_error=False, fill_value=(ay[0], ay[-1])))


def jpath(points):
    return {str(z): {'x': p[0], 'y': p[1]} for z, p in points.items()}


class FixedTruncation(object):
    """a truncation model: r_t [kpc] is a fixed multiple of (m/1e7)^(1/3)"""
    name = 'FixedTruncation'

    def __init__(self, scale=1.5):
        self.scale = scale
        self.calls = 0

    def truncation_radius_halo(self, halo):
        self.calls += 1
        return self.scale * (halo.mass / 1e7) ** (1. / 3)

    def truncation_radius(self, mass, *a, **k):
        return self.scale * (mass / 1e7) ** (1. / 3)


class FixedConcentration(object):
    """a concentration model: deterministic, mass dependent"""
    name = 'FixedConcentration'

    def __init__(self, norm=12.0):
        self.norm = norm
        self.calls = 0

    def nfw_concentration(self, m, z, force_no_scatter=False):
        self.calls += 1
        return self.norm * (m / 1e8) ** -0.05
