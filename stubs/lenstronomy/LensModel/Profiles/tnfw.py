import numpy as np
from lenstronomy.LensModel.Profiles._base import Spherical

class TNFW(Spherical):
    profile_name = 'TNFW'

    def __init__(self, **kwargs):
        pass

    @staticmethod
    def alpha2rho0(alpha_Rs, Rs):
        return alpha_Rs / (4. * Rs ** 2 * (1. + np.log(1. / 2.)))

    @staticmethod
    def rho02alpha(rho0, Rs):
        return rho0 * (4 * Rs ** 2 * (1 + np.log(1. / 2.)))

    @staticmethod
    def density(r, Rs, rho0, r_trunc):
        return (r_trunc ** 2 * (r_trunc ** 2 + r ** 2) ** -1) * rho0 / (r / Rs * (1 + r / Rs) ** 2)

    def density_lens(self, r, Rs, alpha_Rs, r_trunc):
        return self.density(r, Rs, self.alpha2rho0(alpha_Rs, Rs), r_trunc)

    def mass_3d(self, r, Rs, rho0, r_trunc):
        """as in lenstronomy: the last argument is r_trunc / Rs"""
        x = r * Rs ** -1
        func = (r_trunc ** 2 * (-2 * x * (1 + r_trunc ** 2)
                                + 4 * (1 + x) * r_trunc * np.arctan(x / r_trunc)
                                - 2 * (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs)
                                + 2 * (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs * (1 + x))
                                + 2 * (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs * r_trunc)
                                - (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs ** 2 * (x ** 2 + r_trunc ** 2)))
                ) / (2. * (1 + x) * (1 + r_trunc ** 2) ** 2)
        return 4 * np.pi * Rs ** 3 * rho0 * func

    def derivatives(self, x, y, Rs, alpha_Rs, r_trunc, center_x=0, center_y=0):
        rho0 = self.alpha2rho0(alpha_Rs, Rs)
        return self._deriv(x, y, center_x, center_y, lambda q: self.density(q, Rs, rho0, r_trunc), Rs)

    def hessian(self, x, y, Rs, alpha_Rs, r_trunc, center_x=0, center_y=0):
        rho0 = self.alpha2rho0(alpha_Rs, Rs)
        return self._hess(x, y, center_x, center_y, lambda q: self.density(q, Rs, rho0, r_trunc), Rs)
