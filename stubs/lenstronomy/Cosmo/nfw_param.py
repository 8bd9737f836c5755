import numpy as np

class NFWParam(object):
    rhoc = 2.77536627e11  # critical density [h^2 M_sun Mpc^-3]

    def __init__(self, cosmo=None):
        if cosmo is None:
            from astropy.cosmology import default_cosmology
            cosmo = default_cosmology.get()
        self.cosmo = cosmo

    def rhoc_z(self, z):
        return self.rhoc * (self.cosmo.efunc(z)) ** 2

    def M200(self, rs, rho0, c):
        return 4 * np.pi * rho0 * rs ** 3 * (np.log(1. + c) - c / (1. + c))

    def r200_M(self, M, z):
        return (3 * M / (4 * np.pi * self.rhoc_z(z) * 200)) ** (1. / 3.)

    def rho0_c(self, c, z):
        return 200. / 3 * self.rhoc_z(z) * c ** 3 / (np.log(1. + c) - c / (1. + c))

    def c_M_z(self, M, z):
        return 5.22 * (M / (2 * 10 ** 12)) ** (-0.072) * (1 + z) ** (-0.42)
