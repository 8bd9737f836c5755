import numpy as np
from lenstronomy.LensModel.Profiles._base import Spherical

class TNFWC(Spherical):
    """rho = rho0 Rs^3 / ((r^2+rc^2)^(1/2) (r^2+Rs^2)) * rt^2/(r^2+rt^2)"""
    profile_name = 'TNFWC'

    def __init__(self, **kwargs):
        self._cache = {}

    @staticmethod
    def density(R, Rs, rho0, r_core, r_trunc):
        return rho0 * Rs ** 3 / (np.sqrt(R ** 2 + r_core ** 2) * (R ** 2 + Rs ** 2)) \
            * r_trunc ** 2 / (R ** 2 + r_trunc ** 2)

    def rho02alpha(self, rho0, Rs, r_core, r_trunc):
        key = (r_core / Rs, r_trunc / Rs)
        if key not in self._cache:
            self._cache[key] = self._alpha(1., lambda q: self.density(q, 1., 1., *key), 1.)
        return rho0 * Rs ** 2 * self._cache[key]

    def alpha2rho0(self, alpha_Rs, Rs, r_core, r_trunc):
        return alpha_Rs / self.rho02alpha(1., Rs, r_core, r_trunc)

    def density_lens(self, R, Rs, alpha_Rs, r_core, r_trunc):
        return self.density(R, Rs, self.alpha2rho0(alpha_Rs, Rs, r_core, r_trunc), r_core, r_trunc)

    def mass_3d(self, r, Rs, rho0, r_core, r_trunc):
        return self._m3d(r, lambda q: self.density(q, Rs, rho0, r_core, r_trunc), Rs)

    def derivatives(self, x, y, Rs, alpha_Rs, r_core, r_trunc, center_x=0, center_y=0):
        rho0 = self.alpha2rho0(alpha_Rs, Rs, r_core, r_trunc)
        return self._deriv(x, y, center_x, center_y,
                           lambda q: self.density(q, Rs, rho0, r_core, r_trunc), Rs)

    def hessian(self, x, y, Rs, alpha_Rs, r_core, r_trunc, center_x=0, center_y=0):
        rho0 = self.alpha2rho0(alpha_Rs, Rs, r_core, r_trunc)
        return self._hess(x, y, center_x, center_y,
                          lambda q: self.density(q, Rs, rho0, r_core, r_trunc), Rs)
