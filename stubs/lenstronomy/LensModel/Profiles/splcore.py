import numpy as np
from scipy.special import hyp2f1, gamma as gamma_func
from lenstronomy.LensModel.Profiles._base import Spherical

class SPLCORE(Spherical):
    """rho = rho0 rc^g / (rc^2 + r^2)^(g/2)"""
    profile_name = 'SPL_CORE'

    def __init__(self, **kwargs):
        pass

    @staticmethod
    def density(r, rho0, r_core, gamma):
        return rho0 * r_core ** gamma / (r_core ** 2 + r ** 2) ** (gamma / 2)

    def density_lens(self, r, sigma0, r_core, gamma):
        return self.density(r, sigma0 / r_core, r_core, gamma)

    def density_2d(self, x, y, rho0, r_core, gamma):
        X = np.sqrt(x ** 2 + y ** 2) / r_core
        p = gamma_func(0.5 * (gamma - 1)) * np.sqrt(np.pi) / gamma_func(0.5 * gamma)
        return rho0 * r_core * p * (1 + X ** 2) ** (0.5 * (1 - gamma))

    def mass_3d(self, r, rho0, r_core, gamma):
        x = r / r_core
        return 4 * np.pi * rho0 * r_core ** 3 * x ** 3 / 3 * hyp2f1(1.5, gamma / 2, 2.5, -x ** 2)

    def mass_3d_lens(self, r, sigma0, r_core, gamma, e1=None, e2=None):
        return self.mass_3d(r, sigma0 / r_core, r_core, gamma)

    def mass_2d(self, r, rho0, r_core, gamma):
        return self._m2d(r, lambda q: self.density(q, rho0, r_core, gamma), r_core)

    def derivatives(self, x, y, sigma0, r_core, gamma, center_x=0, center_y=0):
        return self._deriv(x, y, center_x, center_y,
                           lambda q: self.density(q, sigma0 / r_core, r_core, gamma), r_core)

    def hessian(self, x, y, sigma0, r_core, gamma, center_x=0, center_y=0):
        return self._hess(x, y, center_x, center_y,
                          lambda q: self.density(q, sigma0 / r_core, r_core, gamma), r_core)
