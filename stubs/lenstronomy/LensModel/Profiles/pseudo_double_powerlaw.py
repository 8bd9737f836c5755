import numpy as np
from scipy.special import hyp2f1
from lenstronomy.LensModel.Profiles._base import Spherical

class PseudoDoublePowerlaw(Spherical):
    """rho = rho0 (r/Rs)^-gi (1 + (r/Rs)^2)^((gi-go)/2)"""
    profile_name = 'PSEUDO_DPL'

    def __init__(self, **kwargs):
        self._cache = {}

    @staticmethod
    def density(R, Rs, rho0, gamma_inner, gamma_outer):
        x = R / Rs
        return rho0 / (x ** gamma_inner * (1 + x ** 2) ** ((gamma_outer - gamma_inner) / 2.))

    def rho02alpha(self, rho0, Rs, gamma_inner, gamma_outer):
        key = (gamma_inner, gamma_outer)
        if key not in self._cache:
            self._cache[key] = self._alpha(1., lambda q: self.density(q, 1., 1., *key), 1.)
        return rho0 * Rs ** 2 * self._cache[key]

    def alpha2rho0(self, alpha_Rs, Rs, gamma_inner, gamma_outer):
        return alpha_Rs / self.rho02alpha(1., Rs, gamma_inner, gamma_outer)

    def density_lens(self, r, Rs, alpha_Rs, gamma_inner, gamma_outer):
        return self.density(r, Rs, self.alpha2rho0(alpha_Rs, Rs, gamma_inner, gamma_outer),
                            gamma_inner, gamma_outer)

    def mass_3d(self, r, Rs, rho0, gamma_inner, gamma_outer):
        x = r / Rs
        p = 3. - gamma_inner
        return 4 * np.pi * rho0 * Rs ** 3 * x ** p / p * \
            hyp2f1(p / 2, (gamma_outer - gamma_inner) / 2., 1 + p / 2, -x ** 2)

    def mass_3d_lens(self, r, Rs, alpha_Rs, gamma_inner, gamma_outer):
        return self.mass_3d(r, Rs, self.alpha2rho0(alpha_Rs, Rs, gamma_inner, gamma_outer),
                            gamma_inner, gamma_outer)

    def mass_2d_lens(self, r, Rs, alpha_Rs, gamma_inner, gamma_outer):
        rho0 = self.alpha2rho0(alpha_Rs, Rs, gamma_inner, gamma_outer)
        return self._m2d(r, lambda q: self.density(q, Rs, rho0, gamma_inner, gamma_outer), Rs)

    def derivatives(self, x, y, Rs, alpha_Rs, gamma_inner, gamma_outer, center_x=0, center_y=0):
        rho0 = self.alpha2rho0(alpha_Rs, Rs, gamma_inner, gamma_outer)
        return self._deriv(x, y, center_x, center_y,
                           lambda q: self.density(q, Rs, rho0, gamma_inner, gamma_outer), Rs)

    def hessian(self, x, y, Rs, alpha_Rs, gamma_inner, gamma_outer, center_x=0, center_y=0):
        rho0 = self.alpha2rho0(alpha_Rs, Rs, gamma_inner, gamma_outer)
        return self._hess(x, y, center_x, center_y,
                          lambda q: self.density(q, Rs, rho0, gamma_inner, gamma_outer), Rs)
