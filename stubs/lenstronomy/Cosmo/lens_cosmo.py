import numpy as np
import lenstronomy.Util.constants as const
from lenstronomy.Cosmo.nfw_param import NFWParam

class LensCosmo(object):
    def __init__(self, z_lens, z_source, cosmo=None):
        if cosmo is None:
            from astropy.cosmology import default_cosmology
            cosmo = default_cosmology.get()
        self.z_lens, self.z_source = z_lens, z_source
        self.background = type('B', (), {'cosmo': cosmo})()
        self._cosmo = cosmo
        self.nfw_param = NFWParam(cosmo=cosmo)
        self.h = cosmo.H(0).value / 100.

    @property
    def dd(self):
        return self._cosmo.angular_diameter_distance(self.z_lens).value

    @property
    def ds(self):
        return self._cosmo.angular_diameter_distance(self.z_source).value

    @property
    def dds(self):
        return self._cosmo.angular_diameter_distance_z1z2(self.z_lens, self.z_source).value

    @property
    def sigma_crit(self):
        factor = const.c ** 2 / (4 * np.pi * const.G) * const.Mpc / const.M_sun
        return self.ds / (self.dd * self.dds) * factor

    @property
    def sigma_crit_angle(self):
        return self.sigma_crit * (self.dd * const.arcsec) ** 2

    def phys2arcsec_lens(self, phys):
        return phys / self.dd / const.arcsec

    def arcsec2phys_lens(self, a):
        return a * const.arcsec * self.dd

    def nfwParam_physical(self, M, c):
        r200 = self.nfw_param.r200_M(M * self.h, self.z_lens) / self.h
        rho0 = self.nfw_param.rho0_c(c, self.z_lens) * self.h ** 2
        return rho0, r200 / c, r200

    def nfw_physical2angle(self, M, c):
        rho0, Rs, r200 = self.nfwParam_physical(M, c)
        alpha_Rs = rho0 * (4 * Rs ** 2 * (1 + np.log(1. / 2.)))
        return Rs / self.dd / const.arcsec, alpha_Rs / self.sigma_crit / self.dd / const.arcsec

    def nfw_angle2physical(self, Rs_angle, alpha_Rs):
        Rs = Rs_angle * const.arcsec * self.dd
        theta_scaled = alpha_Rs * self.sigma_crit * self.dd * const.arcsec
        rho0 = theta_scaled / (4 * Rs ** 2 * (1 + np.log(1. / 2.)))
        from scipy.optimize import brentq
        rho0_h = rho0 / self.h ** 2
        c = brentq(lambda c: self.nfw_param.rho0_c(c, self.z_lens) - rho0_h, 0.01, 1e5)
        r200 = c * Rs
        M200 = self.nfw_param.M200(Rs, rho0, c)
        return rho0, Rs, c, r200, M200
