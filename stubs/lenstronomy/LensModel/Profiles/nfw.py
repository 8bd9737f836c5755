import numpy as np
from lenstronomy.LensModel.Profiles._base import Spherical

class NFW(Spherical):
    profile_name = 'NFW'

    def __init__(self, interpol=False, **kwargs):
        pass

    @staticmethod
    def alpha2rho0(alpha_Rs, Rs):
        return alpha_Rs / (4. * Rs ** 2 * (1. + np.log(1. / 2.)))

    @staticmethod
    def rho02alpha(rho0, Rs):
        return rho0 * (4 * Rs ** 2 * (1 + np.log(1. / 2.)))

    @staticmethod
    def density(R, Rs, rho0):
        return rho0 / (R / Rs * (1 + R / Rs) ** 2)

    def density_lens(self, r, Rs, alpha_Rs):
        return self.density(r, Rs, self.alpha2rho0(alpha_Rs, Rs))

    def mass_3d(self, r, Rs, rho0):
        return 4. * np.pi * rho0 * Rs ** 3 * (np.log((Rs + r) / Rs) - r / (Rs + r))

    def mass_3d_lens(self, r, Rs, alpha_Rs):
        return self.mass_3d(r, Rs, self.alpha2rho0(alpha_Rs, Rs))

    def _F(self, x):
        x = np.asarray(x, dtype=float)
        out = np.ones_like(x)
        lo, hi = x < 1, x > 1
        with np.errstate(all='ignore'):
            out = np.where(lo, 1 / (x ** 2 - 1) * (1 - 2 / np.sqrt(np.abs(1 - x ** 2)) *
                                                   np.arctanh(np.sqrt(np.abs((1 - x) / (1 + x))))), out)
            out = np.where(hi, 1 / (x ** 2 - 1) * (1 - 2 / np.sqrt(np.abs(x ** 2 - 1)) *
                                                   np.arctan(np.sqrt(np.abs((x - 1) / (1 + x))))), out)
            out = np.where(x == 1, 1. / 3, out)
        return out

    def _g(self, x):
        x = np.asarray(x, dtype=float)
        with np.errstate(all='ignore'):
            lo = np.log(x / 2.) + 1 / np.sqrt(np.abs(1 - x ** 2)) * np.arccosh(np.maximum(1. / x, 1))
            hi = np.log(x / 2.) + 1 / np.sqrt(np.abs(x ** 2 - 1)) * np.arccos(np.minimum(1. / x, 1))
        return np.where(x < 1, lo, np.where(x > 1, hi, 1 + np.log(0.5)))

    def density_2d(self, x, y, Rs, rho0, center_x=0, center_y=0):
        _, _, R = self._rad(x, y, center_x, center_y)
        return 2 * rho0 * Rs * self._F(R / Rs)

    def mass_2d(self, R, Rs, rho0):
        return 4 * rho0 * Rs * R ** 2 * self._g(R / Rs) / (R / Rs) ** 2 * np.pi

    def derivatives(self, x, y, Rs, alpha_Rs, center_x=0, center_y=0):
        rho0 = self.alpha2rho0(alpha_Rs, Rs)
        dx, dy, R = self._rad(x, y, center_x, center_y)
        u = R / Rs
        a = 4 * rho0 * Rs * self._g(u) / u ** 2
        return a * dx, a * dy

    def hessian(self, x, y, Rs, alpha_Rs, center_x=0, center_y=0):
        rho0 = self.alpha2rho0(alpha_Rs, Rs)
        return self._hess(x, y, center_x, center_y, lambda q: self.density(q, Rs, rho0), Rs)
