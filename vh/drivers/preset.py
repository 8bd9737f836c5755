"""Preset models: realizations made with some of the options given, against what the options mean."""
import contextlib
import io
import math
import multiprocessing
import random
import numpy as np
from vh import tlc
from vh.rec import Recorder, I, L, NAN
from vh.drivers.oracle import Universe, moment, quantiles
from vh.drivers.population import _cut

ZERO = 2147483647
COSMOS = [{}, dict(H0=72., Om0=0.25, sigma8=0.86), dict(H0=62., Om0=0.37, sigma8=0.74)]
ABC = {'CDM': None, 'LOVELL2020': (1.95, 0.8, -1.0), 'SHMF_LOVELL2020': (36.15, 2.5, -0.2), 'LOVELL2014': (1., 1., -1.3), 'SHMF_LOVELL2014': (1., 1., -1.3),
       'SCHIVE2016': (1., 1.1, -2.2), 'GENTLE': (1., 1., -0.15), 'MIXED': (0.5, 0.8, -3.0)}
# what the user gives: (keyword, value, what the specification is told)
lg = lambda v: int(round(v * 1000))
V = {
    'cone': [('cone_opening_angle_arcsec', v, lg(v)) for v in (8., 4.6)],
    'geometry': [('geometry_type', v, v) for v in ('CYLINDER', 'CONE')],
    'log_m_host': [('log_m_host', v, lg(v)) for v in (12.8, 13.9)],
    'cosmo': [('kwargs_cosmo', i, i) for i in (1, 2)],
    'log_mlow': [('log_mlow', v, lg(v)) for v in (6.4, 6.8)],
    'log_mhigh': [('log_mhigh', v, lg(v)) for v in (9.1, 9.6)],
    'sigma_sub': [('sigma_sub', v, L(v)) for v in (0.06, 0.012)],
    'log10_sigma_sub': [('log10_sigma_sub', v, L(10 ** v)) for v in (-1.25, -1.8)],
    'log10_dNdA': [('log10_dNdA', v, L(10 ** v)) for v in (-1.15, -1.7)],
    'shmf_log_slope': [('shmf_log_slope', v, lg(v)) for v in (-1.8, -1.97)],
    'LOS_normalization': [('LOS_normalization', v, L(v)) for v in (1.7, 0.5)],
    'host_scaling_factor': [('host_scaling_factor', v, lg(v)) for v in (1.2, 0.)],
    'redshift_scaling_factor': [('redshift_scaling_factor', v, lg(v)) for v in (2.5, -1.1)],
    'conc_sub': [('concentration_model_subhalos', v, v) for v in ('A', 'B')],
    'conc_field': [('concentration_model_fieldhalos', v, v) for v in ('A', 'B')],
    'scatter_sub': [('kwargs_concentration_model_subhalos', v, v) for v in ('off', '0.1')],
    'scatter_field': [('kwargs_concentration_model_fieldhalos', v, v) for v in ('off', '0.1')],
    'scatter': [('concentration_scatter_dex', v, s) for v, s in ((0.1, '0.1'), (0.3, '0.3'))],
    'trunc_sub': [('truncation_model_subhalos', v, v) for v in ('TRUNCATION_GALACTICUS_KEELEY24', 'TRUNCATION_MEAN_DENSITY')],
    'trunc_field': [('truncation_model_fieldhalos', v, v) for v in ('TRUNCATION_R200', 'RN100')],
    'infall': [('infall_redshift_model', v, v) for v in ('DIRECT_INFALL', 'INFALL_ZLENS')],
    'spatial': [('subhalo_spatial_distribution', v, v) for v in ('PROJECTED_NFW', 'UNIFORM')],
    'r_tidal': [('r_tidal', v, lg(v)) for v in (0.02, 1.5)],
    'two_halo': [('two_halo_contribution', v, v) for v in (False, True)],
    'delta': [('delta_power_law_index', v, lg(v)) for v in (0.1, -0.12)],
    'lazar': [('two_halo_Lazar_correction', v, v) for v in (False, True)],
    'poisson': [('draw_poisson', v, v) for v in (False, True)],
    'c_host': [('c_host', v, L(v)) for v in (3., 12.)],
    'gc': [('add_globular_clusters', v, v) for v in (True, False)],
    'sis': [('mass_threshold_sis', v, L(v)) for v in (2e7, 3e8)],
    'galaxy': [('galaxy_model', v, v) for v in ('SIS', 'GNFW')],
    'profile': [('halo_mass_profile', v, v) for v in ('NFW', 'TNFW')],
    'profile_sub': [('mdef_subhalos', v, v) for v in ('NFW', 'TNFW')],
    'profile_field': [('mdef_field_halos', v, v) for v in ('NFW', 'TNFW')],
    'profile_halos': [('mdef_halos', v, v) for v in ('TNFW', 'ULDM')],
    'spacing': [('lens_plane_spacing', v, lg(v)) for v in (0.05, 0.035)],
    'mf_field': [('mass_function_model_fieldhalos', v, v) for v in ('LOVELL2014', 'GENTLE')],
    'boost': [('scale_2halo_boost_factor', v, L(v)) for v in (2.5, 0.6)],
    'scale_low': [('scale_mass_function_low', v, L(v)) for v in (0.4, 1.8)],
    'scale_high': [('scale_mass_function_high', v, L(v)) for v in (3., 0.5)],
    'flucs': [('flucs', v, v) for v in (True, False)],
    'evolving': [('evolving', v, v) for v in (False, True)],
    'time': [('log10_subhalo_time_scaling', v, v > 0) for v in (11., 0.)],
    'collapsed': [('collapsed_halo_profile', v, s) for v, s in (('SPL_CORE', 'SPL'), ('GNFW', 'GNFW'))],
}
MODELS = {'warm': ('BOSE2016_LUDLOW', 'LAROCHE2022'), 'cold': ('DIEMERJOYCE19', 'LUDLOW2016')}
WARM = ('WDM', 'WDM_mixed', 'WDMGeneral', 'ULDM')
KIND = {'TNFWFieldHalo': 'TNFW', 'TNFWSubhalo': 'TNFW', 'NFWFieldHalo': 'NFW', 'NFWSubhhalo': 'NFW', 'ULDMFieldHalo': 'ULDM', 'ULDMSubhalo': 'ULDM',
        'TNFWCHaloEvolving': 'EVOLVING', 'TNFWCHaloParametric': 'TNFWC', 'SIS': 'SIS', 'MassiveGalaxy': 'GALAXY', 'GeneralNFWFieldHalo': 'GNFW',
        'GeneralNFWSubhalo': 'GNFW', 'PowerLawFieldHalo': 'SPL', 'PowerLawSubhalo': 'SPL', 'BlackHole': 'BH', 'GlobularCluster': 'GC', 'GaussianHalo': 'GAUSS'}
GC = {'log10_mgc_mean': 5.3, 'log10_mgc_sigma': 0.5, 'rendering_radius_arcsec': 0.4, 'center_x': [0.7], 'center_y': [0.2]}


def plane_list(zl, zs, step):
    front = [0.01 + i * step for i in range(1000) if 0.01 + i * step < zl - 1e-9]
    back = [zl + i * step for i in range(1000) if zl + i * step < zs - 1e-9]
    return [round(v, 6) for v in front + back]


class Run(object):
    """one call of a preset"""

    def __init__(self, beh, seed):
        self.rng = rng = random.Random(seed)
        self.seed = seed
        p = self.p = beh['preset']
        given = dict(beh['given'] or {})
        if p == 'CDM' and given.get('profile') == 1:
            given.pop('sis', None)                     # galaxies are made of truncated halos
        if given.get('profile_sub') == 1 or given.get('profile_field') == 1:
            given['sis'] = None
        warm = p in WARM
        many = ('spatial' in given or 'r_tidal' in given or p == 'WDM_mixed') and (warm and given.get('spatial') != 2 or given.get('spatial') == 1) and rng.random() < 0.7
        if many and 'scatter_field' in V and warm and p != 'WDMGeneral' and rng.random() < 0.8:
            given['scatter_field'] = 1
        if many and p == 'WDMGeneral':
            given.setdefault('c_host', 1)
        if given.get('infall') == 2:
            given.pop('time', None)                    # no time has passed since they fell in
        if p in SMALL and rng.random() < 0.6:
            given['scatter_sub'] = given['scatter_field'] = 1
        self.zl = rng.choice([0.5, 0.4, 0.6, 0.45])
        self.zs = rng.choice([1.5, 2.0, 1.2])
        self.g, kw = {}, {}
        for o, i in given.items():
            if i is None:
                continue
            k, v, s = V[o][i - 1]
            if v in ('A', 'B'):
                v = s = MODELS['warm' if p in WARM else 'cold'][i - 1]
            self.g[o] = s
            kw[k] = v
        if many:                                       # enough of them to tell where they are
            for o in ('log10_dNdA', 'log10_sigma_sub', 'sigma_sub'):
                if o in self.g or o == 'sigma_sub':
                    k, _, _ = V[o][0]
                    kw[k] = -0.4 if 'log' in o else 0.4
                    self.g[o] = L(10 ** -0.4 if 'log' in o else 0.4)
            if p == 'ULDM':
                kw['log10_sigma_sub'] = -0.4
                self.g['log10_sigma_sub'] = L(10 ** -0.4)
                kw.pop('sigma_sub', None)
                self.g.pop('sigma_sub', None)
        if given.get('sis', 1) is None and p == 'WDMGeneral':
            kw['mass_threshold_sis'] = None
            self.g['sis'] = ZERO
        self.cosmo = self.g.get('cosmo', 0)
        self.u = u = Universe(**COSMOS[self.cosmo])
        if 'kwargs_cosmo' in kw:
            kw['kwargs_cosmo'] = u.kwargs()
        if kw.get('truncation_model_fieldhalos') == 'RN100':
            kw['truncation_model_fieldhalos'] = 'TRUNCATION_RN'
            kw['kwargs_truncation_model_fieldhalos'] = {'LOS_truncation_factor': 100}
        for k in ('kwargs_concentration_model_subhalos', 'kwargs_concentration_model_fieldhalos'):
            if k in kw:
                kw[k] = {'scatter': False} if kw[k] == 'off' else {'scatter_dex': 0.1}
        if kw.get('add_globular_clusters'):
            kw['kwargs_globular_clusters'] = dict(GC)
        if p == 'CDMCorrelatedStructure':
            kw = {{'concentration_model_fieldhalos': 'concentration_model', 'kwargs_concentration_model_fieldhalos': 'kwargs_concentration_model',
                   'truncation_model_fieldhalos': 'truncation_model', 'kwargs_truncation_model_fieldhalos': 'kwargs_truncation_model'}.get(k, k): v
                  for k, v in kw.items()}
        args = []
        self.mc = self.frac = self.slope = None
        self.ranges_sub = self.ranges_field = []
        if p in ('WDM', 'WDM_mixed', 'WDMGeneral'):
            self.mc = rng.choice([6.6, 7.2, 7.7])
            args = [self.mc]
            self.g['log_mc'] = lg(self.mc)
            if p == 'WDM':
                self.g['mf_sub'] = kw['mass_function_model_subhalos'] = rng.choice(['SHMF_LOVELL2020', 'SHMF_LOVELL2014', 'GENTLE'])
            if p == 'WDM_mixed':
                self.frac = rng.choice([0.2, 0.6])
                args.append(self.frac)
            if p == 'WDMGeneral':
                self.slope = rng.choice([-1.5, -2.4])
                args.append(self.slope)
        if p == 'ULDM':
            m = rng.choice([-21.3, -21.0, -20.7, -20.4])
            if rng.random() < 0.5:
                self.g['mf_sub'] = kw['mass_function_model_subhalos'] = 'GENTLE'
            args = [m]
            self.g['log10_m_uldm'] = lg(m)
            self.mc = math.log10(1.6e10 * 10 ** (-4 / 3. * (m + 22)))
            self.m22 = 10 ** (m + 22)
            kw.setdefault('flucs', False)
            if kw['flucs']:
                kw['flucs_args'] = {'aperture': 0.3, 'x_images': [0.5], 'y_images': [0.1]}
        self.lo, self.hi = kw.get('log_mlow', 6.), kw.get('log_mhigh', 10.)
        rg = lambda a, b, c=True: dict(lo=lg(a), hi=lg(b), certain=c)
        if p == 'SIDM_core_collapse':
            a, b = rng.choice([7.2, 7.6]), rng.choice([7.4, 7.9])
            args = [[[self.lo - 1, a], [a, self.hi + 1]], [[self.lo - 1, b], [b, self.hi + 1]], [1., 0.], [0., 1.]]
            self.ranges_sub = [rg(self.lo - 1, a), rg(a, self.hi + 1, False)]
            self.ranges_field = [rg(self.lo - 1, b, False), rg(b, self.hi + 1)]
            kw.update({'SPL_CORE': dict(log_slope_halo=-3., x_core_halo=0.05), 'GNFW': dict(gamma_inner=2.3, gamma_outer=3.)}.get(
                kw.get('collapsed_halo_profile'), dict(x_core_halo=0.05)))
            if 'collapsed' not in self.g:
                self.g['collapsed'] = 'TNFWC'
        self.strong = [rng.random() < 0.5, rng.random() < 0.5]
        sig = [4.5 if x else -4. for x in self.strong]
        if p == 'SIDM_parametric':
            a = rng.choice([6.9, 7.3, 7.7])
            args = [[[self.lo, a], [a, self.hi]], sig]
            self.ranges_sub = self.ranges_field = [rg(self.lo, a, self.strong[0]), rg(a, self.hi, self.strong[1])]
        if p == 'SIDM_parametric_fixedbins':
            args = sig
        if 'evolving' in kw or p in ('SIDM_parametric', 'SIDM_parametric_fixedbins'):
            e = kw.pop('evolving', True)
            kw['evolving_SIDM_profile' if p == 'SIDM_parametric' else 'evolving_profile'] = e
            if not e:
                kw['x_core_halo'] = 0.05
        if p == 'CDM_plus_BH':
            args = [-2., -0.3]
        if p == 'CDMBinned':
            self.lo, self.hi = 6., 10.7
            # ten times the default abundance of the other presets: a small angle will do
            kw['cone_opening_angle_arcsec'] = {None: 3., 8.: 4., 4.6: 2.4}[kw.get('cone_opening_angle_arcsec')]
            self.g['cone'] = lg(kw['cone_opening_angle_arcsec'])
        if p == 'CDMCorrelatedStructure':
            kw['cone_opening_angle_arcsec'] = {None: 30., 8.: 40., 4.6: 24.}[kw.get('cone_opening_angle_arcsec')]
            self.g['cone'] = lg(kw['cone_opening_angle_arcsec'])
        if p in SMALL:
            kw['cone_opening_angle_arcsec'] = {None: 4., 8.: 5., 4.6: 3.4}[kw.get('cone_opening_angle_arcsec')]
            self.g['cone'] = lg(kw['cone_opening_angle_arcsec'])
        for k, name in (('mass_function_model_subhalos', 'POWER_LAW_TURNOVER_SHMF'), ('mass_function_model_fieldhalos', 'POWER_LAW_TURNOVER')):
            if kw.get(k) == 'GENTLE':
                kw[k] = name
                kw[k.replace('model', 'kwargs').replace('mass_function_kwargs', 'kwargs_mass_function')] = dict(a_wdm=1., b_wdm=1., c_wdm=-0.15)
        self.args, self.kw = args, kw
        self.cone = kw.get('cone_opening_angle_arcsec', 6.)
        self.mhost = 10 ** kw.get('log_m_host', 13.3)
        self.note = '%s %s' % (p, ' '.join('%s=%s' % (o, self.g[o]) for o in sorted(self.g)))

    def call(self):
        from pyHalo.preset_models import preset_model_from_name
        from pyHalo.PresetModels import cdm
        f = getattr(cdm, self.p) if self.p in ('CDMBinned', 'CDMCorrelatedStructure') else preset_model_from_name(self.p)
        np.random.seed(self.seed)
        with contextlib.redirect_stdout(io.StringIO()):
            return f(self.zl, self.zs, *self.args, **self.kw)

    # -- numbers ------------------------------------------------------------------------
    def suppress(self, name):
        """kind and parameters of a mass function by name"""
        if name == 'CDM':
            return 'CDM', None
        if name == 'STUCKER':
            from pyHalo.Rendering.MassFunctions.stucker import stucker_suppression_params
            abc = stucker_suppression_params(self.slope)
        else:
            abc = ABC[name]
        par = dict(zip(('a_wdm', 'b_wdm', 'c_wdm'), abc), log_mc=self.mc)
        return ('MIXED', dict(par, mixed_DM_frac=self.frac)) if name == 'MIXED' else ('WDM', par)

    def low(self, z, lo):
        if self.p != 'ULDM':
            return lo
        zeta = lambda x: (18 * np.pi ** 2 + 82 * (x - 1) - 39 * (x - 1) ** 2) / x
        m = (1 + z) ** 0.75 * (zeta(self.u.a.Om(z)) / zeta(self.u.a.Om(0))) ** 0.25 * 4.4e7 * self.m22 ** -1.5
        return max(lo, math.log10(m))

    def bands(self, lo, hi):
        return [(6., 8.), (8., 10.7)] if self.p == 'CDMBinned' else [(lo, min(max(lo, 7.4), hi)), (min(max(lo, 7.4), hi), hi)]

    def functions(self, sub):
        own = {'WDM': ['LOVELL2020', 'LOVELL2014', 'SCHIVE2016', 'SHMF_LOVELL2020', 'SHMF_LOVELL2014', 'GENTLE'], 'WDM_mixed': ['MIXED'], 'WDMGeneral': ['STUCKER'],
               'ULDM': ['SCHIVE2016', 'GENTLE', 'LOVELL2014']}.get(self.p, ['CDM'])
        return own

    def sub_table(self):
        out = []
        for slope in (-1.9, -1.8, -1.97):
            for lo, hi in {(a, b) for a in (6., self.lo) for b in (10., self.kw.get('log_mhigh', 10.))}:
                for f in self.functions(True):
                    kind, p = self.suppress(f)
                    n = [moment(1., slope, a, b, 0, kind, p) for a, b in self.bands(self.low(self.zl, lo), hi)]
                    out.append(dict(slope=lg(slope), lo=lg(lo), hi=lg(hi), f=f, mc=lg(self.mc or 0), l=[L(x) if x > 0 else ZERO for x in n + ([sum(n)] if self.p != 'CDMBinned' else [])]))
        return out

    def field_table(self, spacing):
        u = self.u
        out = []
        geom = self.kw.get('geometry_type', 'DOUBLE_CONE')
        zz = plane_list(self.zl, self.zs, spacing)
        ends = zz[1:] + [self.zs]
        vol = [sum(u.volume(geom, self.zl, self.zs, self.cone, a, b - a) for a, b in _cut(z, e, self.zl)) for z, e in zip(zz, ends)]
        il = zz.index(self.zl)
        dz = ends[il] - zz[il]
        boost = {lz: u.two_halo_boost(self.zl, dz, self.mhost, lz, 1.) for lz in (True, False)}
        lo, hi = (6., 10.7) if self.p == 'CDMBinned' else (self.lo, self.kw.get('log_mhigh', 10.))
        for delta in {0., self.kw.get('delta_power_law_index', 0.)}:
            for f in self.functions(False):
                kind, p = self.suppress(f)
                n = np.zeros((len(zz), 2))
                for i, z in enumerate(zz):
                    if i != il and self.p == 'CDMCorrelatedStructure':
                        continue
                    bs = self.bands(self.low(z, lo), hi)
                    for j, (a, b) in enumerate(bs):
                        if j == 0 or self.p == 'CDMBinned':
                            am, idx = u.sheth_tormen(z, *((a, b) if self.p == 'CDMBinned' else (bs[0][0], bs[1][1])), 1e8, delta)
                        n[i, j] = vol[i] * moment(am, idx, a, b, 0, kind, p)
                if self.p != 'CDMBinned':
                    n = np.column_stack([n, n.sum(axis=1)])
                off = n.sum(axis=0) - n[il]
                l = lambda x: L(x) if x > 1e-9 else ZERO
                key = (6000, 10000) if self.p == 'CDMBinned' else (lg(self.lo), lg(hi))
                out.append(dict(lo=key[0], hi=key[1], f=f, mc=lg(self.mc or 0), delta=lg(delta), spacing=lg(spacing), off=[l(x) for x in off],
                                on=[dict(alone=l(x), with_lazar=l(x * (1 + boost[True])), with_plain=l(x * (1 + boost[False])), lazar=l(x * boost[True]))
                                    for x in n[il]]))
        return out

    # -- references -----------------------------------------------------------------------
    def reference_relation(self, name, sc):
        from pyHalo.concentration_models import preset_concentration_models
        kw = {'off': {'scatter': False}, '0.2': {}}.get(sc) if sc in ('off', '0.2') else {'scatter_dex': float(sc)}
        kw = dict(kw, cosmo=self.u.a)
        if name in ('BOSE2016', 'BOSE2016_LUDLOW', 'LAROCHE2022', 'LUDLOW_WDM'):
            kw['log_mc'] = self.mc
        if name == 'LUDLOW_WDM':
            kw['dlogT_dlogk'] = self.slope
        if name == 'BINNED_HALO_MASS':
            kw.update(normalization_list=[10 ** 1.3, 10 ** 1.15], beta_list=[0.7, 0.7], zeta_list=[-0.4, -0.4], redshift_evolution='RHO_CRIT',
                      log10_mass_bins=[[6, 8], [8, 10.7]])
        cls, out = preset_concentration_models(name, kw)
        return cls(**out)


SMALL = ('SIDM_parametric', 'SIDM_parametric_fixedbins')


def seeded(n, f, *a):
    np.random.seed(n)
    return f(*a)


def events(job):
    beh, seed = job
    from pyHalo.Halos.lens_cosmo import LensCosmo
    from pyHalo.truncation_models import truncation_models
    run = Run(beh, seed)
    g, p, u, zl = run.g, run.p, run.u, run.zl
    head = dict(p=p, g=g, _note=run.note)
    try:
        real = run.call()
    except Exception as e:
        return [dict(op='raise', error='%s: %s' % (type(e).__name__, str(e)[:200]), **head)]
    rng = run.rng
    ev = []
    halos = [h for h in real.halos if KIND.get(type(h).__name__) not in ('GC', 'GAUSS', 'BH')]
    kind = lambda h: KIND.get(type(h).__name__, type(h).__name__)
    extra = [kind(h) for h in real.halos]
    cut = [10 ** x for x in ((8.,) if p == 'CDMBinned' else (7.4,))][0]
    cnt = lambda hs: [dict(n=int(n), l=L(n) if n else ZERO) for n in (sum(h.mass < cut for h in hs), sum(h.mass >= cut for h in hs), len(hs))][:2 if p == 'CDMBinned' else 3]
    subs = [h for h in halos if h.is_subhalo]
    field = [h for h in halos if not h.is_subhalo]
    spacing = run.kw.get('lens_plane_spacing') or 0.02
    ev.append(dict(op='amount', lr=L(0.5 * run.cone * u.kpc_per_arcsec(zl)), lz=L(zl + 0.5), sub=run.sub_table() if p != 'CDMCorrelatedStructure' else [],
                   subobs=cnt(subs), field=run.field_table(spacing) + ([run.field_table(0.02)[0]] if spacing != 0.02 else []),
                   off=cnt([h for h in field if abs(h.z - zl) > 1e-6]), on=cnt([h for h in field if abs(h.z - zl) <= 1e-6]),
                   planes=len(plane_list(zl, run.zs, spacing)), **head))
    # what they are
    some = sorted(halos, key=lambda h: -h.mass)[:60] + sorted(halos, key=lambda h: h.mass)[:20] + rng.sample(halos, min(len(halos), 140))
    ev.append(dict(op='kinds', halos=[dict(sub=bool(h.is_subhalo), lm=L(h.mass), kind=kind(h), u=L(10 ** run.low(h.z, 0.)) if p == 'ULDM' else 0) for h in some], clusters=extra.count('GC'), flucs=extra.count('GAUSS'),
                   holes=extra.count('BH'), ranges_sub=run.ranges_sub, ranges_field=run.ranges_field, strong=run.strong, **head))
    # how they are built
    plain = lambda hs: [h for h in hs if kind(h) in ('TNFW', 'NFW')]
    names = {'warm': ['BOSE2016', 'BOSE2016_LUDLOW', 'LAROCHE2022'], 'cold': ['LUDLOW2016', 'DIEMERJOYCE19']}['warm' if p in WARM else 'cold']
    names = {'CDMBinned': ['BINNED_HALO_MASS'], 'WDMGeneral': ['LUDLOW_WDM']}.get(p, names)
    scs = ['0.2', '0.1', '0.3'] if p == 'CDMBinned' else ['off', '0.2', '0.1']
    rel = [(n, s, run.reference_relation(n, s)) for n in names for s in scs]
    cfield = NAN
    if g.get('scatter_field') == 'off' and p in WARM:
        name = g.get('conc_field', {'ULDM': 'LAROCHE2022'}.get(p, 'BOSE2016'))
        cfield = L(float(next(r for n, s, r in rel if n == name and s == 'off').nfw_concentration(run.mhost, zl)))
    hosts = sorted({L(6.), g.get('c_host', L(6.)), cfield if cfield != NAN else L(6.)})
    wired = []
    trunc = {}
    tn = ('TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_KEELEY24', 'TRUNCATION_MEAN_DENSITY')
    fn = ('TRUNCATION_RN', 'TRUNCATION_R200', 'RN100')
    for i, h in enumerate(rng.sample(plain(subs), min(10, len(plain(subs)))) + rng.sample(plain(field), min(10, len(plain(field))))):
        s = 1000 * seed + i
        d = dict(sub=bool(h.is_subhalo), zi=0, infall=[], rt=NAN, trunc=[])
        if h.is_subhalo:
            d['zi'] = I(seeded(s, lambda: h.z_infall), 1e4)
            for n in ('HYBRID_INFALL', 'DIRECT_INFALL', 'INFALL_ZLENS'):
                for lm in {13.3, math.log10(run.mhost)}:
                    lc = trunc.get((n, lm))
                    if lc is None:
                        lc = trunc[n, lm] = LensCosmo(zl, run.zs, real.lens_cosmo.cosmo)
                        lc.setup_infall_model(n, {} if n == 'INFALL_ZLENS' else {'log_m_host': lm})
                    d['infall'].append(dict(name=n, host=lg(lm), z=I(seeded(s, lc.z_accreted_from_zlens, h.mass), 1e4)))
        z = h.z_infall if h.is_subhalo else h.z
        d['c'] = L(float(seeded(s, lambda: h.c)))
        d['conc'] = [dict(name=n, sc=sc, l=L(float(seeded(s, r.nfw_concentration, h.mass, z)))) for n, sc, r in rel]
        if kind(h) == 'TNFW':
            d['rt'] = L(float(seeded(s, lambda: h.params_physical['r_trunc_kpc'])))
            for n in (tn if h.is_subhalo else fn):
                for host in (hosts if 'GALACTICUS' in n else [0]):
                    t = trunc.get((n, host))
                    if t is None:
                        cls, kw = truncation_models('TRUNCATION_RN' if n == 'RN100' else n)
                        if n == 'RN100':
                            kw['LOS_truncation_factor'] = 100
                        kw['lens_cosmo'] = real.lens_cosmo
                        if host:
                            kw['c_host'] = math.exp(host * 1e-6)
                        t = trunc[n, host] = cls(**kw)
                    d['trunc'].append(dict(name=n, host=host, l=L(float(seeded(s, t.truncation_radius_halo, h)))))
        wired.append(d)
    if wired:
        ev.append(dict(op='wired', halos=wired, looked=p in SMALL + ('CDM_plus_BH',), cfield=cfield, **head))
    # where they are
    k = u.kpc_per_arcsec(zl)
    r = np.array([math.hypot(h.x, h.y) for h in subs])
    pr = np.arange(1, 8) / 8.
    cands = [dict(name='UNIFORM', core=0, host=0, within=[int(np.sum(r <= 0.5 * run.cone * math.sqrt(x))) for x in pr], within3=[])]
    depth = [h.r3d is not None and math.isfinite(h.r3d) for h in subs]
    if subs and any(depth):
        r3 = np.array([h.r3d for h, d in zip(subs, depth) if d])
        for core in sorted({0.25, run.kw.get('r_tidal', 0.25)}):
            for host in hosts:
                ch = math.exp(host * 1e-6)
                rs = u.r200(run.mhost, zl) * 1000 / ch
                rho = lambda x: rs ** 3 / ((core * rs + x) * (rs + x) ** 2)

                def sigma(R):
                    s = np.geomspace(1e-4 * rs, 1e5 * rs, 2000)
                    return np.trapezoid(rho(np.sqrt(R[:, None] ** 2 + s[None, :] ** 2)) * s, np.log(s), axis=1)
                q, _ = quantiles(lambda R: R * sigma(R), 5e-4 * run.cone * k, 0.5 * run.cone * k, pr, n=300)
                q3, _ = quantiles(lambda x: x ** 2 * rho(x), 5e-4 * run.cone * k, rs * ch, pr)
                cands.append(dict(name='PROJECTED_NFW', core=lg(core), host=host, within=[int(np.sum(r <= x / k)) for x in q],
                                  within3=[int(np.sum(r3 <= x)) for x in q3]))
    if p != 'CDMCorrelatedStructure':
        ev.append(dict(op='place', n=len(subs), depth=bool(all(depth)) if len(set(depth)) < 2 else 'mixed', cfield=cfield, cands=cands, **head))
    on = [h for h in halos if abs(h.z - zl) <= 1e-6]
    at = [dict(spacing=lg(s), z=set(round(x, 4) for x in plane_list(zl, run.zs, s))) for s in {0.02, spacing}]
    ev.append(dict(op='world', kpc=L(float(real.lens_cosmo.cosmo.kpc_proper_per_asec(zl))),
                   cosmos=[dict(id=i, l=L(Universe(**c).kpc_per_arcsec(zl))) for i, c in enumerate(COSMOS)],
                   zl=I(real.lens_cosmo.z_lens, 1e6), zs=I(real.lens_cosmo.z_source, 1e6), zl_asked=I(zl, 1e6), zs_asked=I(run.zs, 1e6),
                   spacings=[dict(spacing=a['spacing']) for a in at], strays=[sum(round(h.z, 4) not in a['z'] for h in halos) for a in at],
                   rmax=lg(max(math.hypot(h.x, h.y) for h in on)) if on else 0, n=len(on), **head))
    return ev


def requests(tier, seed):
    per = 12 if tier == 'quick' else 60
    want = {}
    for b in tlc.simulate('PresetGen', 'PresetGen', 260 if tier == 'quick' else 1000, 60, seed):
        want.setdefault(b['preset'], []).append(b)
    jobs, n = [], 0
    for p in sorted(want):
        for b in want[p][:per]:
            n += 1
            jobs.append((b, 100 * seed + n))
    rec = Recorder()
    rng = random.Random(seed)
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for ev in pool.imap(events, jobs, chunksize=1):
            for e in ev:
                op = e.pop('op')
                if op == 'raise':
                    rec.emit('raise', **e)
                else:
                    rec.emit(op, **e)
    from pyHalo.preset_models import preset_model_from_name
    for p, args in (('WDM', (7.,)), ('WDM_mixed', (7., 0.5)), ('WDMGeneral', (7., -2.))):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                preset_model_from_name(p)(0.5, 1.5, *args, include_prompt_cusps=True, log_mlow=7.5, cone_opening_angle_arcsec=2.)
            e = None
        except Exception as x:
            e = x
        missing = isinstance(e, AttributeError) and 'add_prompt_cusps' in str(e)
        rec.emit('cusps', p=p, given=e is None, case='include_prompt_cusps:' + p if missing else '', _note='%s(include_prompt_cusps=True): %r' % (p, e))
    return rec
