from lenstronomy.LensModel.Profiles.tnfw import TNFW
from lenstronomy.LensModel.Profiles.pseudo_double_powerlaw import PseudoDoublePowerlaw

class CoreCollapsedHalo(object):
    profile_name = 'CORE_COLLAPSED_HALO'
    def __init__(self, **kwargs):
        self._in, self._out = PseudoDoublePowerlaw(), TNFW()
    def derivatives(self, x, y, Rs_inner, Rs_outer, alpha_Rs_inner, alpha_Rs_outer, r_trunc,
                    gamma_inner, gamma_outer, center_x=0, center_y=0):
        a = self._in.derivatives(x, y, Rs_inner, alpha_Rs_inner, gamma_inner, gamma_outer, center_x, center_y)
        b = self._out.derivatives(x, y, Rs_outer, alpha_Rs_outer, r_trunc, center_x, center_y)
        return a[0] + b[0], a[1] + b[1]
    def hessian(self, x, y, Rs_inner, Rs_outer, alpha_Rs_inner, alpha_Rs_outer, r_trunc,
                gamma_inner, gamma_outer, center_x=0, center_y=0):
        a = self._in.hessian(x, y, Rs_inner, alpha_Rs_inner, gamma_inner, gamma_outer, center_x, center_y)
        b = self._out.hessian(x, y, Rs_outer, alpha_Rs_outer, r_trunc, center_x, center_y)
        return tuple(i + j for i, j in zip(a, b))
