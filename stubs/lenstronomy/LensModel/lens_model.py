"""A reduced LensModel: straight light rays, and a convergence that sums the planes."""
import numpy as np


def _profile(name):
    from lenstronomy.LensModel.Profiles.nfw import NFW
    from lenstronomy.LensModel.Profiles.tnfw import TNFW
    from lenstronomy.LensModel.Profiles.cnfw import CNFW
    from lenstronomy.LensModel.Profiles.splcore import SPLCORE
    from lenstronomy.LensModel.Profiles.nfw_core_truncated import TNFWC
    from lenstronomy.LensModel.Profiles.pseudo_double_powerlaw import PseudoDoublePowerlaw
    return {'NFW': NFW, 'TNFW': TNFW, 'CNFW': CNFW, 'SPL_CORE': SPLCORE, 'TNFWC': TNFWC,
            'PSEUDO_DPL': PseudoDoublePowerlaw}.get(name)


class _SinglePlane(object):
    def __init__(self, outer):
        self._outer = outer

    def ray_shooting_partial_comoving(self, x, y, alpha_x, alpha_y, z_start, z_stop, kwargs_lens=None, **kw):
        d = self._outer._dist(z_stop) - self._outer._dist(z_start)
        return x + alpha_x * d, y + alpha_y * d, alpha_x, alpha_y


class LensModel(object):

    def __init__(self, lens_model_list, z_lens=None, z_source=None, lens_redshift_list=None, cosmo=None,
                 multi_plane=False, **kwargs):
        self.lens_model_list = list(lens_model_list)
        self.z_lens, self.z_source = z_lens, z_source
        self.redshift_list = list(lens_redshift_list) if lens_redshift_list is not None else None
        self.cosmo = cosmo
        self.multi_plane = multi_plane
        self.lens_model = _SinglePlane(self)

    def _dist(self, z):
        cosmo = self.cosmo
        if cosmo is None:
            from astropy.cosmology import default_cosmology
            cosmo = default_cosmology.get()
        return float(cosmo.comoving_transverse_distance(z).value)

    def kappa(self, x, y, kwargs, **kw):
        out = np.zeros(np.shape(x))
        for name, kwl in zip(self.lens_model_list, kwargs):
            if name == 'CONVERGENCE':
                out = out + kwl['kappa']
                continue
            prof = _profile(name)
            if prof is None:
                continue
            fxx, _, _, fyy = prof().hessian(x, y, **kwl)
            out = out + 0.5 * (fxx + fyy)
        return out
