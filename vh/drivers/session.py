"""Sessions: calls of the functions that make realizations, with the user's own dictionaries or
with the defaults, compared with the same call in a process that has made no other."""
import contextlib
import copy
import io
import json
import multiprocessing
import os
import random
import sys
import numpy as np
from vh import tlc
from vh.rec import Recorder, I, L, NAN, Interner

ZL, ZS = 0.5, 1.4
OTHER = {'H0': 61., 'Om0': 0.4, 'Ob0': 0.05, 'sigma8': 0.65, 'ns': 0.9, 'flat': True, 'power_law': False}
ROUGH = {'H0': 67.5, 'Om0': 0.309, 'Ob0': 0.049, 'sigma8': 0.62, 'ns': 0.965, 'flat': True, 'power_law': False}        # the default but for sigma8
BASE = dict(cone_opening_angle_arcsec=3., log_mlow=7.3, sigma_sub=0.04, log_m_host=13.2)


def dictionaries():
    """what the user keeps and hands over, again and again"""
    return {'conc': {'scatter': True}, 'conc2': {}, 'trunc': {}, 'trunc2': {'LOS_truncation_factor': 60}, 'infall': {}, 'infall2': {'m_host': 1e13}, 'mf': {}, 'mf2': {},
            'profile': {}, 'gc': {'log10_mgc_mean': 5.4, 'log10_mgc_sigma': 0.4, 'rendering_radius_arcsec': 0.3, 'center_x': [0.7], 'center_y': [0.2]},
            'cosmo': dict(ROUGH), 'cosmo2': dict(OTHER), 'sheet': {'log_mlow_sheets': 7.5}, 'corr': {'logM': 5.0, 'mass_fraction': 0.05},
            'render': [dict(log_mlow=7., log_mhigh=9., m_pivot=1e8, power_law_index=-1.9, log_m_host=13., delta_power_law_index=0.,
                            sigma_sub=0.05, host_scaling_factor=0.5, redshift_scaling_factor=0.3),
                       dict(log_mlow=7., log_mhigh=9., m_pivot=1e8, LOS_normalization=1., delta_power_law_index=0., log_m_host=13.)],
            'ranges': [[7.0, 8.0], [8.0, 10.0]], 'sigmas': [2.2, 1.8], 'pslots': [0.5, 0.9], 'flucs': {'aperture': 0.25, 'x_images': [0.6], 'y_images': [0.3]}}


def P(name):
    from pyHalo.preset_models import preset_model_from_name
    return preset_model_from_name(name)


def std(d, own, both=True, infall=True):
    """the dictionaries most presets take"""
    if not own:
        return {}
    kw = {'kwargs_concentration_model_subhalos': d['conc'], 'kwargs_concentration_model_fieldhalos': d['conc'],
          'kwargs_truncation_model_subhalos': d['trunc'], 'kwargs_truncation_model_fieldhalos': d['trunc2']}
    if infall:
        kw['kwargs_infall_model'] = d['infall']
    return kw


def opt(*dicts):
    """later ones win"""
    out = dict(BASE)
    for x in dicts:
        out.update(x)
    return out


def cdm(host=13.2, at=(ZL, ZS), **more):
    return lambda d, own: P('CDM')(*at, **opt(std(d, own), {'log_m_host': host}, more))


def other(d, own):
    return P('CDM')(ZL, ZS, kwargs_cosmo=d['cosmo'], **opt(std(d, own)))


def wdm(d, own):
    more = {'kwargs_mass_function_subhalos': d['mf'], 'kwargs_mass_function_fieldhalos': d['mf'], 'kwargs_density_profile': d['profile']} if own else {}
    return P('WDM')(ZL, ZS, 7.4, infall_redshift_model='DIRECT_INFALL', **opt(std(d, own), more))


def mixed(d, own):
    more = {'kwargs_mass_function_subhalos': d['mf2'], 'kwargs_mass_function_fieldhalos': d['mf2'], 'kwargs_density_profile': d['profile']} if own else {}
    return P('WDM_mixed')(ZL, ZS, 7.8, 0.4, **opt(std(d, own, infall=False), more))


def general(d, own):
    more = {k: v for k, v in std(d, own).items() if 'concentration' not in k}
    return P('WDMGeneral')(ZL, ZS, 7.6, -2.1, **opt(more))


def fixedbins(d, own):
    return P('SIDM_parametric_fixedbins')(ZL, ZS, 2.3, 1.7, **opt(std(d, own)))


def parametric(d, own):
    return P('SIDM_parametric')(ZL, ZS, d['ranges'], d['sigmas'], x_core_halo=0.06, evolving_SIDM_profile=False, add_globular_clusters=True,
                                kwargs_globular_clusters=d['gc'], **opt(std(d, own)))


def collapse(d, own):
    return P('SIDM_core_collapse')(ZL, ZS, d['ranges'], d['ranges'], d['pslots'], d['pslots'], x_core_halo=0.05, **opt(std(d, own)))


def uldm(flucs):
    def f(d, own):
        more = {'kwargs_mass_function_subhalos': d['mf2'], 'kwargs_mass_function_fieldhalos': d['mf2']} if own else {}
        b = {k: v for k, v in BASE.items() if k != 'sigma_sub'}
        return P('ULDM')(ZL, ZS, -21.2, log10_sigma_sub=-0.4, flucs=flucs, flucs_args=d['flucs'], **dict(b, **std(d, own, infall=False), **more))
    return f


def holes(d, own):
    return P('CDM_plus_BH')(ZL, ZS, -2.0, -0.3, log10_mlow_halos_subres=6.6, **BASE)


def binned(d, own):
    from pyHalo.PresetModels.cdm import CDMBinned
    kw = {k: v for k, v in std(d, own).items() if 'concentration' not in k}
    return CDMBinned(ZL, ZS, sigma_sub=0.01, cone_opening_angle_arcsec=2., add_globular_clusters=own, kwargs_globular_clusters=d['gc'], **kw)


def twohalo(d, own):
    from pyHalo.PresetModels.cdm import CDMCorrelatedStructure
    kw = {'kwargs_concentration_model': d['conc'], 'kwargs_truncation_model': d['trunc2']} if own else {}
    return CDMCorrelatedStructure(ZL, ZS, kwargs_cosmo=d['cosmo2'] if own else None, log_mlow=6.3, cone_opening_angle_arcsec=5., **kw)


def correlated(d, own):
    from pyHalo.realization_extensions import RealizationExtensions
    from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
    r = P('CDM')(ZL, ZS, kwargs_cosmo=d['cosmo'] if own else None, **opt({'sigma_sub': 0.}))
    line = lambda v: (lambda z: v)
    return RealizationExtensions(r).add_correlated_structure(DeltaFunction, d['corr'] if own else dictionaries()['corr'], 'PT_MASS', [line(0.4)], [line(-0.3)], 0.02, 0.3)


def lowlevel(d, own):
    from pyHalo.pyhalo import pyHalo
    from pyHalo.Cosmology.geometry import Geometry
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform, Uniform
    from pyHalo.Halos.concentration import ConcentrationLudlow, ConcentrationPeakHeight
    from pyHalo.Halos.tidal_truncation import TruncationSplashBack, TruncationGalacticus
    py = pyHalo(ZL, ZS, d['cosmo2'] if own else None)
    py.lens_cosmo.setup_infall_model('HYBRID_INFALL', d['infall2'] if own else {'log_m_host': 13.})
    g = Geometry(py.cosmology, ZL, ZS, 3., 'DOUBLE_CONE')
    hm = {'truncation_model_subhalos': TruncationGalacticus(py.lens_cosmo, 6.), 'truncation_model_field_halos': TruncationSplashBack(py.lens_cosmo),
          'concentration_model_subhalos': ConcentrationLudlow(py.astropy_cosmo),
          'concentration_model_field_halos': ConcentrationPeakHeight(py.astropy_cosmo, 17.8, -0.2, 0.9),
          'kwargs_density_profile': d['profile'] if own else {}}
    kws = d['render'] if own else dictionaries()['render']
    sp = [{'rmax2d_arcsec': 1.5, 'geometry': g}, {'cone_opening_angle': 3., 'geometry': g}]
    before = repr([sorted(k) for k in sp]) + repr(sorted(hm))
    r = py.render(['SUBHALOS', 'LINE_OF_SIGHT', 'TWO_HALO'], [CDMPowerLaw, ShethTormen, ShethTormen], kws + [kws[1]], [Uniform, LensConeUniform, LensConeUniform],
                  sp + [sp[1]], g, 'TNFW', 'TNFW', hm)[0]
    if repr([sorted(k) for k in sp]) + repr(sorted(hm)) != before:
        d['profile']['touched'] = 1
    return r


ENTRIES = [cdm(), cdm(12.8, infall_redshift_model='DIRECT_INFALL'), cdm(14.4, infall_redshift_model='DIRECT_INFALL_CLUSTER'),
           cdm(subhalo_spatial_distribution='PROJECTED_NFW', truncation_model_subhalos='TRUNCATION_ROCHE_GILMAN2020', c_host=None),
           cdm(13.6, concentration_model_subhalos='DIEMERJOYCE19', concentration_model_fieldhalos='DIEMERJOYCE19', truncation_model_fieldhalos='SPLASHBACK',
               kwargs_truncation_model_fieldhalos={}, infall_redshift_model='GALACTICUS_2024', truncation_model_subhalos='TRUNCATION_GALACTICUS_KEELEY24'),
           other, wdm, mixed, general, fixedbins, parametric, collapse, uldm(False), uldm(True), holes, binned, twohalo, correlated, lowlevel,
           cdm(13.0, truncation_model_subhalos='TRUNCATION_MEAN_DENSITY', truncation_model_fieldhalos='TRUNCATION_R200', infall_redshift_model='INFALL_ZLENS',
               kwargs_truncation_model_fieldhalos={}),
           cdm(13.0, halo_mass_profile='NFW', geometry_type='CYLINDER', lens_plane_spacing=0.05, two_halo_contribution=False),
           cdm(at=(0.8, 2.6))]


def drawn(real):
    """what was there when the realization was made"""
    hs = real.halos
    out = [len(hs)]
    for h in hs[:60] + hs[-20:]:
        out += [L(h.mass), I(h.x, 1e6), I(h.y, 1e6), I(h.z, 1e6), I(h.r3d, 1e3) if h.r3d is not None else NAN, int(bool(h.is_subhalo)),
                sum(map(ord, type(h).__name__))]
    out += [I(getattr(real.lens_cosmo, 'z_lens', 0), 1e4), I(real.lens_cosmo.cosmo.h, 1e4)]
    return out


def later(real, sheet):
    """what is computed when it is looked at"""
    names, z, kws, _ = real.lensing_quantities(kwargs_mass_sheet=sheet)
    out = [len(names)]
    for h in real.halos[:25] + real.halos[-10:]:
        for name in ('c', 'z_infall', 'bound_mass'):
            try:
                v = getattr(h, name)
            except Exception:
                v = None
            out.append(L(v) if v is not None else NAN)
    for n, zz, k in list(zip(names, z, kws))[:60] + list(zip(names, z, kws))[-20:]:
        out += [sum(map(ord, n)), I(zz, 1e6)] + [I(float(k[q]), 1e5) for q in sorted(k) if np.ndim(k[q]) == 0 and not isinstance(k[q], str)]
    return out


@contextlib.contextmanager
def silence():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def seeded(n):
    np.random.seed(n)
    random.seed(n)


def tell(d, ident):
    return {k: ident(repr(_plain(v))) for k, v in sorted(d.items())}


def _plain(v):
    if isinstance(v, dict):
        return sorted((str(k), _plain(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    return v if isinstance(v, (int, float, str, bool, type(None))) else type(v).__name__


def session(steps):
    """run the steps in this process; returns the events"""
    out, made = [], []
    d = dictionaries()
    ident = Interner()
    for s in steps:
        before = tell(d, ident)
        e = dict(op=s['op'], e=s['e'], own=s['own'], seed=s['seed'], ok=True, obs=[], late=[], lateok=True)
        if s['op'] in ('look', 'again'):
            if not made:
                continue
            was = made[-1 - min(s['back'], len(made) - 1)]
            e.update(e=was['e'], own=was['own'], seed=was['seed'])
        with silence():
            if s['op'] == 'look':
                if was['real'] is None or was['looked']:
                    continue
                was['looked'] = True
                seeded(was['seed'] + 77)
                try:
                    e['obs'] = later(was['real'], d['sheet'])
                except Exception as x:
                    e['ok'], e['note'] = False, repr(x)
            else:
                seeded(e['seed'] * 100 + e['e'])
                real = None
                try:
                    real = ENTRIES[e['e'] - 1](d, e['own'])
                    e['obs'] = drawn(real)
                except Exception as x:
                    import traceback
                    e['ok'], e['note'] = False, traceback.format_exc()[-600:]
                made.append(dict(real=real, e=e['e'], own=e['own'], seed=e['seed'], looked=False))
                if s.get('fresh'):
                    e['op'] = 'fresh'
                    seeded(e['seed'] + 77)
                    try:
                        e['late'] = later(real, d['sheet']) if real is not None else []
                    except Exception as x:
                        import traceback
                        e['lateok'], e['note'] = False, traceback.format_exc()[-600:]
        after = tell(d, ident)
        e['changed'] = [k for k in before if before[k] != after.get(k)]
        e['before'], e['after'] = before, after
        out.append(e)
    return out


def _child(steps, w):
    try:
        os.write(w, json.dumps(session(steps), default=lambda v: v.item() if hasattr(v, 'item') else str(v)).encode())
    finally:
        os._exit(0)


def forked(jobs, width=8):
    """run each session in a process of its own, forked from one that has made no call"""
    sys.stdout.flush()
    results, running, todo = [None] * len(jobs), {}, list(range(len(jobs)))[::-1]
    import select
    while todo or running:
        while todo and len(running) < width:
            k = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _child(jobs[k], w)
            os.close(w)
            running[r] = (k, pid, [])
        for r in select.select(list(running), [], [])[0]:
            data = os.read(r, 1 << 16)
            k, pid, buf = running[r]
            if data:
                buf.append(data)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            results[k] = json.loads(b''.join(buf)) if buf else None
            del running[r]
    return results


def _import():
    import pyHalo.preset_models, pyHalo.pyhalo, pyHalo.realization_extensions      # noqa
    import pyHalo.PresetModels.cdm, pyHalo.PresetModels.wdm, pyHalo.PresetModels.sidm, pyHalo.PresetModels.uldm, pyHalo.PresetModels.mbh      # noqa
    import colossus.halo.concentration, colossus.lss.mass_function, lenstronomy      # noqa


def sessions(tier, seed):
    _import()
    rec = Recorder()
    keys = [(e, own, s) for e in range(1, len(ENTRIES) + 1) for own in (False, True) for s in (1, 2)]
    if tier == 'quick':
        keys = [k for k in keys if k[2] == 1]
    fresh = forked([[dict(op='call', fresh=True, e=e, own=own, seed=s)] for e, own, s in keys])
    line = {}

    def put(ev, **more):
        f = {k: ev[k] for k in ('ok', 'obs', 'late', 'lateok', 'before', 'after')}
        return rec.emit(ev['op'], _note='entry %d %s seed %d%s %s' % (ev['e'], 'own' if ev['own'] else 'default', ev['seed'],
                                                                       ' changed %r' % ev['changed'] if ev['changed'] else '', ev.get('note', '')), **dict(f, **more))
    for k, f in zip(keys, fresh):
        if f is None:
            raise RuntimeError('the process of %r died' % (k,))
        line[k] = put(f[0], ref=0)
    behs = tlc.simulate('SessionGen', 'SessionGen', 8 if tier == 'quick' else 64, 80, seed)
    jobs = []
    for b in behs:
        jobs.append([dict(s, seed=1 if tier == 'quick' else s['seed']) for s in b])
    for evs in forked(jobs):
        if evs is None:
            raise RuntimeError('the process of a session died')
        for ev in evs:
            put(ev, ref=line[(ev['e'], ev['own'], ev['seed'])])
    return rec
