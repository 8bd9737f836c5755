from lenstronomy.LensModel.Profiles.tnfw import TNFW
from lenstronomy.LensModel.Profiles.point_mass import PointMass

class CoreCollapsedHaloBH(object):
    profile_name = 'CORE_COLLAPSED_HALO_BH'
    def __init__(self, **kwargs):
        self._in, self._out = PointMass(), TNFW()
    def derivatives(self, x, y, Rs_outer, theta_E_inner, alpha_Rs_outer, r_trunc, center_x=0, center_y=0):
        a = self._in.derivatives(x, y, theta_E_inner, center_x, center_y)
        b = self._out.derivatives(x, y, Rs_outer, alpha_Rs_outer, r_trunc, center_x, center_y)
        return a[0] + b[0], a[1] + b[1]
    def hessian(self, x, y, Rs_outer, theta_E_inner, alpha_Rs_outer, r_trunc, center_x=0, center_y=0):
        a = self._in.hessian(x, y, theta_E_inner, center_x, center_y)
        b = self._out.hessian(x, y, Rs_outer, alpha_Rs_outer, r_trunc, center_x, center_y)
        return tuple(i + j for i, j in zip(a, b))
