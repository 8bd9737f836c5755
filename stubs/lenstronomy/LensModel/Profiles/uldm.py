import numpy as np
from scipy.special import gamma, hyp2f1
from lenstronomy.LensModel.Profiles._base import Spherical

class Uldm(Spherical):
    """rho = rho0 (1 + a (r/theta_c)^2)^-slope"""
    profile_name = 'ULDM'

    def __init__(self, **kwargs):
        pass

    @staticmethod
    def rhotilde(kappa_0, theta_c, slope=8):
        a = 0.5 ** (-1. / slope) - 1
        return kappa_0 * gamma(slope) / gamma(slope - 0.5) * np.sqrt(a) / (np.sqrt(np.pi) * theta_c)

    def density(self, R, kappa_0, theta_c, slope=8):
        a = 0.5 ** (-1. / slope) - 1
        return self.rhotilde(kappa_0, theta_c, slope) * (1 + a * (R / theta_c) ** 2) ** (-slope)

    def density_lens(self, r, kappa_0, theta_c, slope=8):
        return self.density(r, kappa_0, theta_c, slope)

    def mass_3d(self, R, kappa_0, theta_c, slope=8):
        a = 0.5 ** (-1. / slope) - 1
        return 4. / 3 * np.pi * R ** 3 * self.rhotilde(kappa_0, theta_c, slope) * \
            hyp2f1(1.5, slope, 2.5, -a * (R / theta_c) ** 2)

    def mass_3d_lens(self, r, kappa_0, theta_c, slope=8):
        return self.mass_3d(r, kappa_0, theta_c, slope)
