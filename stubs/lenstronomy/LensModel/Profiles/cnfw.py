import numpy as np
from lenstronomy.LensModel.Profiles._base import Spherical

class CNFW(Spherical):
    """rho = rho0 Rs^3 / ((rc + r) (Rs + r)^2)"""
    profile_name = 'CNFW'

    def __init__(self, **kwargs):
        self._cache = {}

    @staticmethod
    def density(R, Rs, rho0, r_core):
        return rho0 * Rs ** 3 / ((r_core + R) * (Rs + R) ** 2)

    def _rho2alpha(self, rho0, Rs, r_core):
        b = r_core / Rs
        if b not in self._cache:
            self._cache[b] = self._alpha(1., lambda q: self.density(q, 1., 1., b), 1.)
        return rho0 * Rs ** 2 * self._cache[b]

    def _alpha2rho0(self, alpha_Rs, Rs, r_core):
        return alpha_Rs / self._rho2alpha(1., Rs, r_core)

    alpha2rho0 = _alpha2rho0

    def density_lens(self, R, Rs, alpha_Rs, r_core):
        return self.density(R, Rs, self._alpha2rho0(alpha_Rs, Rs, r_core), r_core)

    def density_2d(self, x, y, Rs, rho0, r_core, center_x=0, center_y=0):
        _, _, R = self._rad(x, y, center_x, center_y)
        if np.size(R) > 600:
            # smooth in log-log: 300 quadratures and a cubic spline (relative error < 1e-7)
            from scipy.interpolate import CubicSpline
            g = np.geomspace(np.min(R) * (1 - 1e-9), np.max(R) * (1 + 1e-9), 300)
            return np.exp(CubicSpline(np.log(g), np.log(self.density_2d(g, 0., Rs, rho0, r_core)))(np.log(R)))
        return np.array([self._sigma(r, lambda q: self.density(q, Rs, rho0, r_core), Rs)
                         for r in np.atleast_1d(R).ravel()]).reshape(np.shape(R))

    def mass_2d(self, R, Rs, rho0, r_core):
        return self._m2d(R, lambda q: self.density(q, Rs, rho0, r_core), Rs)

    def mass_3d(self, R, Rs, rho0, r_core):
        return self._m3d(R, lambda q: self.density(q, Rs, rho0, r_core), Rs)

    def mass_3d_lens(self, R, Rs, alpha_Rs, r_core):
        return self.mass_3d(R, Rs, self._alpha2rho0(alpha_Rs, Rs, r_core), r_core)

    def derivatives(self, x, y, Rs, alpha_Rs, r_core, center_x=0, center_y=0):
        rho0 = self._alpha2rho0(alpha_Rs, Rs, r_core)
        return self._deriv(x, y, center_x, center_y, lambda q: self.density(q, Rs, rho0, r_core), Rs)

    def hessian(self, x, y, Rs, alpha_Rs, r_core, center_x=0, center_y=0):
        rho0 = self._alpha2rho0(alpha_Rs, Rs, r_core)
        return self._hess(x, y, center_x, center_y, lambda q: self.density(q, Rs, rho0, r_core), Rs)
