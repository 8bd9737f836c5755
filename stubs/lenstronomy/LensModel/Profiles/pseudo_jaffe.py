import numpy as np
from lenstronomy.LensModel.Profiles._base import Spherical

class PseudoJaffe(Spherical):
    profile_name = 'PJAFFE'

    def __init__(self, **kwargs):
        pass

    @staticmethod
    def density(r, rho0, Ra, Rs):
        return rho0 / ((1 + (r / Ra) ** 2) * (1 + (r / Rs) ** 2))

    @staticmethod
    def rho2sigma(rho0, Ra, Rs):
        return np.pi * rho0 * Ra * Rs / (Rs + Ra)

    @staticmethod
    def sigma2rho(sigma0, Ra, Rs):
        return (Ra + Rs) / Ra / Rs / np.pi * sigma0

    def mass_3d(self, r, rho0, Ra, Rs):
        return 4 * np.pi * rho0 * Ra ** 2 * Rs ** 2 / (Rs ** 2 - Ra ** 2) * \
            (Rs * np.arctan(r / Rs) - Ra * np.arctan(r / Ra))

    def mass_tot(self, rho0, Ra, Rs):
        return np.pi * 2 * self.rho2sigma(rho0, Ra, Rs) * Ra * Rs
