"""Physics computed without pyHalo (astropy, colossus, quadrature): inputs of the specification."""
import contextlib
import numpy as np
from scipy.integrate import quad
from astropy.cosmology import FlatLambdaCDM

ARCSEC = np.pi / 180 / 3600
G_MPC = 4.30091e-9          # Mpc Msun^-1 (km/s)^2
C_KMS = 299792.458


class Universe(object):
    def __init__(self, H0=67.5, Om0=0.309, Ob0=0.049, sigma8=0.81, ns=0.965):
        self.par = dict(H0=H0, Om0=Om0, Ob0=Ob0, sigma8=sigma8, ns=ns)
        self.a = FlatLambdaCDM(H0=H0, Om0=Om0, Ob0=Ob0)
        self.h = H0 / 100.
        self._dc = {}

    def kwargs(self):
        return dict(self.par, power_law=False, flat=True, Odm0=self.par['Om0'] - self.par['Ob0'])

    def dc(self, z):
        if z not in self._dc:
            self._dc[z] = float(self.a.comoving_distance(z).value) if z > 0 else 0.
        return self._dc[z]

    def da(self, z):
        return self.dc(z) / (1 + z)

    def da12(self, z1, z2):
        return (self.dc(z2) - self.dc(z1)) / (1 + z2)

    def kpc_per_arcsec(self, z):
        return self.da(z) * ARCSEC * 1000

    def sigma_crit(self, z, zs):
        """Msun / Mpc^2"""
        return C_KMS ** 2 / (4 * np.pi * G_MPC) * self.da(zs) / self.da(z) / self.da12(z, zs)

    def rho_crit(self, z):
        """Msun / Mpc^3"""
        return 3 * (self.a.H(z).value) ** 2 / (8 * np.pi * G_MPC)

    def r200(self, m, z):
        return (3 * m / (4 * np.pi * 200 * self.rho_crit(z))) ** (1. / 3)

    def scale(self, geom, zl, zs, z, pad=0.95):
        if geom == 'CONE':
            return 1.
        if geom == 'CYLINDER':
            return self.dc(zl) / self.dc(z)
        if z <= zl:
            return 1.
        return 1 - pad * self.da(zs) / self.da12(zl, zs) * self.da12(zl, z) / self.da(z)

    def area_phys(self, geom, zl, zs, cone, z):
        return np.pi * (0.5 * cone * ARCSEC * self.scale(geom, zl, zs, z) * self.da(z)) ** 2

    def volume(self, geom, zl, zs, cone, z, dz):
        u, w = np.polynomial.legendre.leggauss(12)
        s = 0
        for ui, wi in zip(u, w):
            zi = z + 0.5 * dz * (1 + ui)
            hz = C_KMS / self.a.H(zi).value
            s += wi * np.pi * (0.5 * cone * ARCSEC * self.scale(geom, zl, zs, zi) * self.dc(zi)) ** 2 * hz
        return 0.5 * dz * s

    @contextlib.contextmanager
    def colossus(self):
        """colossus set to this cosmology, and back to what the code under test had set afterwards"""
        from colossus.cosmology import cosmology
        try:
            was = cosmology.getCurrent()
        except Exception:
            was = None
        try:
            yield cosmology.setCosmology('verif_%s' % '_'.join('%g' % self.par[k] for k in sorted(self.par)),
                                         dict(flat=True, relspecies=True, power_law=False, **self.par))
        finally:
            if was is not None:
                cosmology.setCurrent(was)

    def sheth_tormen(self, z, lo, hi, m_pivot, delta):
        """(amplitude at 1 Msun, index) of the power law fitted to Sheth-Tormen over [lo, hi]"""
        from colossus.lss.mass_function import massFunction
        m = np.logspace(lo, hi, 10)
        with self.colossus():
            dn = massFunction(m * self.h, z, q_out='dndlnM', model='sheth99') * self.h ** 3 / m
        b, a = np.polyfit(np.log10(m / m_pivot), np.log10(dn), 1)
        idx = b + delta
        return 10 ** a * m_pivot ** -idx, idx

    def two_halo_boost(self, z, dz, mhost, lazar, factor):
        from colossus.lss.bias import twoHaloTerm
        r200 = self.r200(mhost, z)
        rmax = self.dc(z + dz) - self.dc(z)
        rmin = min(rmax, 0.5)
        r = np.geomspace(rmin, rmax, 400)
        with self.colossus() as cc:
            f = twoHaloTerm(r * self.h, mhost * self.h, z, mdef='200c') / cc.rho_m(z)
        if lazar:
            f = f + 0.1 * (r / r200 / 5) ** -4.0
        return factor * 2 * np.trapezoid(f * r, np.log(r)) / (rmax - rmin)


def suppression(kind, m, p):
    if kind == 'CDM':
        return np.ones_like(np.asarray(m, dtype=float))
    f = (1 + p['a_wdm'] * (10 ** p['log_mc'] / m) ** p['b_wdm']) ** p['c_wdm']
    if kind == 'MIXED':
        f = (p['mixed_DM_frac'] + (1 - p['mixed_DM_frac']) * np.sqrt(f)) ** 2
    return f


_U, _W = np.polynomial.legendre.leggauss(64)


def moment(norm, idx, lo, hi, k, kind='CDM', p=None):
    """integral of norm m^(idx+k) f(m) between 10^lo and 10^hi"""
    if hi <= lo:
        return 0.
    tot = 0.
    edges = np.linspace(np.log(10) * lo, np.log(10) * hi, 9)
    for a, b in zip(edges[:-1], edges[1:]):
        t = 0.5 * (b - a) * _U + 0.5 * (a + b)
        m = np.exp(t)
        tot += 0.5 * (b - a) * np.sum(_W * m ** (idx + k + 1) * suppression(kind, m, p))
    return norm * tot


def quantiles(f, lo, hi, probs, n=20001):
    """quantiles of the density f on [lo, hi]"""
    x = np.geomspace(lo, hi, n)
    y = f(x) * x
    c = np.concatenate([[0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(np.log(x)))])
    return np.interp(np.asarray(probs) * c[-1], c, x), c[-1]
