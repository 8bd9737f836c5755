import numpy as np
class SIS(object):
    profile_name = 'SIS'
    @staticmethod
    def rho2theta(rho0):
        return np.pi * 2 * rho0
    @staticmethod
    def theta2rho(theta_E):
        return theta_E / (np.pi * 2.)
    def mass_3d(self, r, rho0):
        return 4 * np.pi * rho0 * r
    def mass_3d_lens(self, r, theta_E):
        return self.mass_3d(r, self.theta2rho(theta_E))
    def derivatives(self, x, y, theta_E, center_x=0, center_y=0):
        x, y = x - center_x, y - center_y
        r = np.maximum(np.sqrt(x * x + y * y), 1e-12)
        return theta_E * x / r, theta_E * y / r
