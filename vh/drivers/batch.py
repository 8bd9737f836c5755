"""Twin populations of halos: one evaluated halo by halo, one through the batch routines."""
import numpy as np
from vh.rec import Recorder, I, L, attempt
from vh.drivers.world import cosmology, FixedTruncation
from vh.drivers.halos import halo_class, cls

ZL, ZS = 0.5, 2.0


class MassInfall(object):
    """an infall model without randomness"""
    def __init__(self, z_lens, **kw):
        self.z_lens = z_lens

    def __call__(self, m):
        return self.z_lens + 0.02 + 1.3 * (1 + np.sin(7 * np.log10(m)))


class Scripted(object):
    """the truncation of a Galacticus model for bound masses that were drawn elsewhere"""
    name = 'scripted'

    def __init__(self, model, bound):
        self.model, self.bound = model, bound

    def truncation_radius_halo(self, halo):
        return self.model.truncation_radius_from_bound_mass(halo, self.bound[halo.mass])


class Custom(object):
    """a concentration model the batch routines cannot know, for one mass at a time"""
    def nfw_concentration(self, m, z):
        return 9.0 if m < 1e8 else 7.0 * (1 + z) ** -0.2


def lensc(model=MassInfall, kw=None):
    from pyHalo.Halos.lens_cosmo import LensCosmo
    return LensCosmo(ZL, ZS, cosmology(), model, dict(kw or {}))


def concentration(name, lc, scatter, rng=None):
    from pyHalo.concentration_models import preset_concentration_models
    kw = {'scatter': scatter}
    if name == 'CUSTOM':
        return Custom()
    if name.startswith('WDM_'):
        from pyHalo.Halos import concentration as cc
        kw['concentration_cdm_class'] = getattr(cc, 'ConcentrationLudlow' if name[-1] == 'C' else 'ConcentrationDiemerJoyce')
        kw['kwargs_cdm'] = {}
    if name.startswith('WDM_') or name in ('BOSE2016', 'LAROCHE2022'):
        kw['log_mc'] = 7.6
        if name == 'WDM_POLYNOMIAL':
            kw.update(c_scale=40., c_power=-0.3, c_power_inner=1.0)
        if name == 'WDM_HYPERBOLIC':
            kw.update(a=-0.3, b=0.6)
    if name == 'LUDLOW_WDM':
        kw.update(log_mc=7.2, dlogT_dlogk=-2.1)
    if name == 'PEAK_HEIGHT_POWERLAW':
        kw.update(c0=17., zeta=-0.3, beta=0.9)
    if name == 'BINNED_HALO_MASS':
        kw.update(log10_mass_bins=[[4, 7.5], [7.5, 9], [9, 14.5]], normalization_list=[20., 15., 12.], beta_list=[0.5, 0.8, 1.],
                  zeta_list=[-0.2, -0.3, -0.4])
    if name == 'CONSTANT':
        kw = {'c': 11.}
    c, k = preset_concentration_models(name, kw)
    return c(lc.cosmo.astropy, **k)


def flat(v):
    if v is None:
        return []
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, dict):
        return sum((flat(v[k]) for k in sorted(v)), [])
    if isinstance(v, (list, tuple)):
        return sum((flat(x) for x in v), [])
    return [v]


def num(x):
    """positive quantities in micro-nepers, the rest (positions) in micro units"""
    x = float(x)
    return L(x) if x > 0 else I(x, 1e6)


def observe(h, names):
    out = []
    for a in names:
        st, v = attempt(lambda: getattr(h, a))
        if st != 'ok':
            out.append(-77777)
        else:
            out += [num(x) for x in flat(v)]
    return out


TNFW_ATTR = ['c', 'z_eval', 'profile_args', 'nfw_params', 'params_physical', 'lenstronomy_params', 'bound_mass']
NFW_ATTR = ['c', 'z_eval', 'nfw_params', 'params_physical', 'lenstronomy_params', 'profile_args']


def spec_list(rng, n, zs=None):
    """who the twins are"""
    return [(float(10 ** rng.uniform(5.6, 10.8)), float(rng.randint(-64, 64)) / 64, float(rng.randint(-64, 64)) / 64,
             float(rng.choice(zs)) if zs is not None else ZL, float(rng.uniform(1, 200)), float(rng.rand()))
            for _ in range(n)]


def build(kind, sub, who, lc, trunc, conc, args=None):
    k = halo_class(kind, sub)
    out = []
    for i, (m, x, y, z, r3d, tag) in enumerate(who):
        a = dict(args[i]) if args else {}
        out.append(k(m, x, y, r3d, z, sub, lc, a, trunc, conc, tag))
    return out


def history(rng, halos, twins, names):
    """things that may have happened to a halo before the batch (the same to both twins), in any order"""
    order = rng.permutation(len(halos))
    halos[:], twins[:] = [halos[i] for i in order], [twins[i] for i in order]
    for h, t in zip(halos, twins):
        u = rng.randint(7)
        if u == 0:
            [h.c, t.c]
        elif u == 1:
            h.shift_position(0.25, -0.5), t.shift_position(0.25, -0.5)
        elif u == 2:
            h.rescale_normalization(0.7, log=False), t.rescale_normalization(0.7, log=False)
        elif u == 3 and h.is_subhalo:
            h.set_infall_redshift(2.3), t.set_infall_redshift(2.3)
        elif u == 4:
            [getattr(h, n) for n in names[:3]], [getattr(t, n) for n in names[:3]]


def pairs(rec, what, halos, twins, names, tol, note=''):
    rec.emit('batch', _note=note, what=what, batch=sum((observe(h, names) for h in halos), []),
             single=sum((observe(t, names) for t in twins), []), tol=tol)


CONC = ['DIEMERJOYCE19', 'LUDLOW2016', 'PEAK_HEIGHT_POWERLAW', 'WDM_POLYNOMIAL', 'WDM_HYPERBOLIC', 'BOSE2016',
        'LAROCHE2022', 'LUDLOW_WDM', 'BINNED_HALO_MASS', 'CONSTANT', 'CUSTOM']


def realization(halos, lc, kw):
    from pyHalo.single_realization import Realization
    from pyHalo.Cosmology.geometry import Geometry
    g = Geometry(lc.cosmo, ZL, ZS, 6., 'DOUBLE_CONE')
    r = Realization.from_halos(halos, lc, kw, True, [], 0., 0., g)
    return r


def equal_values(tier, seed):
    from pyHalo.Halos import batch_halo_util as B
    from pyHalo.truncation_models import truncation_models
    rng = np.random.RandomState(seed + 280)
    rec = Recorder()
    lc = lensc()
    zs = [0.2, 0.5, 0.8, 1.36, 1.9]
    deep = tier != 'quick'
    # scalar routines against their array versions
    for pseudo in (False, True):
        n = 40 if not deep else 400
        m, c, z = 10 ** rng.uniform(5, 13, n), rng.uniform(1.2, 80, n), rng.uniform(0, 10, n)
        flag = pseudo if rng.rand() < 0.5 else (rng.rand(n) < 0.5)
        a = np.array(B.nfw_params_physical_vectorized(lc, m, c, z, flag)).T
        fl = np.broadcast_to(flag, m.shape)
        b = [lc.NFW_params_physical(mi, ci, zi, bool(f)) for mi, ci, zi, f in zip(m, c, z, fl)]
        rec.emit('batch', what='nfw_params', batch=[L(v) for v in flat(a)], single=[L(v) for v in flat(b)], tol=5)
    from pyHalo.Halos.galacticus_truncation.transfer_function_density_profile import compute_r_te_and_f_t
    for k in range(3 if not deep else 12):
        n = 30 if not deep else 100
        m = 10 ** rng.uniform(6, 11, n)
        mb = m * 10 ** rng.uniform([-4, -0.5, -7][k % 3], -0.001, n)
        c = rng.uniform(1.5, [50, 15, 300][k % 3], n)
        _, _, r200 = B.nfw_params_physical_vectorized(lc, m, c, np.full(n, 1.1))
        a = np.array(B.compute_r_te_and_f_t_vectorized(mb, m, r200, c)).T
        b = [compute_r_te_and_f_t(*q) for q in zip(mb, m, r200, c)]
        rec.emit('batch', what='tidal', batch=[L(v) for v in flat(a)], single=[L(v) for v in flat(b)], tol=300)
    # concentrations, for arrays and for lists of halos
    for name in CONC:
        cm = concentration(name, lc, False)
        for z in rng.uniform(0.05, 5, 2):
            m = 10 ** rng.uniform(5.5, 11, 12)
            st, a = attempt(B.batch_nfw_concentration, cm, m, z)
            b = [cm.nfw_concentration(float(mi), z) for mi in m]
            rec.emit('batch', _note='%s at z=%.3f' % (name, z), what='concentration',
                     batch=[L(v) for v in a] if st == 'ok' else [st], single=[L(v) for v in b], tol=30)
        if name != 'CONSTANT' and name != 'CUSTOM':
            noisy = concentration(name, lc, True)
            m = 10 ** rng.uniform(5.5, 11, 8)
            st, a = attempt(B.batch_nfw_concentration, noisy, m, 0.7, True)
            b = [cm.nfw_concentration(float(mi), 0.7) for mi in m]
            rec.emit('batch', _note='%s without its scatter' % name, what='median',
                     batch=[L(v) for v in a] if st == 'ok' else [st], single=[L(v) for v in b], tol=30)
    for rep in range(1 if not deep else 5):
        for name in CONC:
            cm = concentration(name, lc, False)
            ws, wf = spec_list(rng, 9), spec_list(rng, 9, zs)
            mk = lambda: build('NFW', True, ws, lc, None, cm) + build('NFW', False, wf, lc, None, cm)
            h, t = mk(), mk()
            history(rng, h, t, NFW_ATTR)
            if rng.rand() < 0.5:
                B.precompute_concentrations(h)
            else:
                B.precompute_nfw_params(h)
            pairs(rec, 'nfw_halos', h, t, NFW_ATTR, 30, 'NFW halos, ' + name)
        # infall
        ws = spec_list(rng, 12)
        cm = concentration('CONSTANT', lc, False)
        h, t = build('NFW', True, ws, lc, None, cm), build('NFW', True, ws, lc, None, cm)
        history(rng, h, t, ['z_infall', 'time_since_infall', 'c'])
        B.precompute_infall_times(h, lc)
        pairs(rec, 'infall', h, t, ['z_infall', 'time_since_infall', 'z_eval'], 30)
        # truncated field halos
        for tname, tkw in [('TRUNCATION_R50', {}), ('TRUNCATION_RN', {'LOS_truncation_factor': 120.}), ('MULTIPLE_RS', {'tau': 3.3}),
                           ('SPLASHBACK', {}), ('CONSTANT', {'rt_arcsec': 0.3}), ('TRUNCATION_MEAN_DENSITY', {})]:
            tm, kw = truncation_models(tname)
            kw = dict(kw or {})
            kw.update(tkw)
            tm = tm(lc, **kw)
            cm = concentration(CONC[rng.randint(len(CONC))], lc, False)
            wf = spec_list(rng, 10, zs)
            h, t = build('TNFW', False, wf, lc, tm, cm), build('TNFW', False, wf, lc, tm, cm)
            history(rng, h, t, TNFW_ATTR)
            st, _ = attempt(B.precompute_tnfw_field_halos, h, tm)
            pairs(rec, 'field_halos', h, t, [a for a in TNFW_ATTR if a != 'bound_mass'], 30, tname)
        # tidally truncated subhalos: bound masses drawn by the batch, or set beforehand
        for tname in ('TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL'):
            tm, _ = truncation_models(tname)
            tm = tm(lc, c_host=float(rng.choice([3., 5., 7.5])))
            cm = concentration(CONC[rng.randint(len(CONC))], lc, False)
            ws = spec_list(rng, 14)
            preset = {}
            def mk(trunc):
                out = build('TNFW', True, ws, lc, trunc, cm)
                return out
            h = mk(tm)
            first = h[:4]
            for a in first:             # some halos were looked at before
                a.bound_mass_galacticus_definition
            B.precompute_tnfw_subhalos(h, tm)
            bound = {a.mass: a.bound_mass_galacticus_definition for a in h}
            t = mk(Scripted(tm, bound))
            attr = TNFW_ATTR + ['z_infall', 'time_since_infall']
            if rng.rand() < 0.5:
                B.precompute_tnfw_bound_masses(h)
            pairs(rec, 'subhalos', h, t, attr, 400, tname)
            rec.emit('batch', what='loses_mass', tol=0, single=[1] * len(h),
                     batch=[int(0 < bound[a.mass] <= a.mass) for a in h])
        sub_cls = cls('TNFW.TNFWSubhalo')
        pre = [(10 ** rng.uniform(6, 10), rng.uniform(0.02, 0.95), rng.uniform(0.6, 5)) for _ in range(8)]
        mk = lambda: [sub_cls.simple_setup(m, f, z, 0.1, -0.2, ZL, lc) for m, f, z in pre]
        h, t = mk(), mk()
        tm = truncation_models('TRUNCATION_GALACTICUS')[0](lc, c_host=6.0)
        B.precompute_tnfw_subhalos(h, tm)
        pairs(rec, 'given_bound_mass', h, t, TNFW_ATTR, 400)
        # evolving profiles
        n = 10
        ws, wf = spec_list(rng, n), spec_list(rng, n, zs)
        args = [{'sidm_timescale': float(10 ** rng.uniform(-0.3, 2)), 'lambda_t': float(rng.uniform(0.2, 2)),
                 'mass_conservation': float(10 ** rng.uniform(6.5, 9.5)), 'rt_kpc': float(rng.uniform(0.5, 30))}
                for _ in range(2 * n)]
        cm = concentration('DIEMERJOYCE19', lc, False)
        mk = lambda: build('EVOLVING', True, ws, lc, None, cm, args[:n]) + \
            build('EVOLVING', False, wf, lc, None, cm, args[n:])
        h, t = mk(), mk()
        attr = ['c', 'halo_effective_age', 't_over_tc', 'profile_args', 'params_physical', 'lenstronomy_params']
        history(rng, h, t, attr)
        B.precompute_sidm_evolving_profiles(h)
        pairs(rec, 'evolving', h, t, attr, 300)
        whole(rec, rng, B, lc, zs)
    return rec


def whole(rec, rng, B, lc, zs):
    """a realization with everything in it"""
    from pyHalo.truncation_models import truncation_models
    cm = concentration(CONC[rng.randint(len(CONC))], lc, False)
    field = truncation_models('MULTIPLE_RS')[0](lc, tau=4.0)
    gal = truncation_models(['TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL'][rng.randint(2)])[0](lc, c_host=6.)
    lists = {k: spec_list(rng, 5, zs if k.endswith('_f') else None) for k in
             ('tnfw_s', 'tnfw_f', 'nfw_s', 'nfw_f', 'evo', 'cored', 'pjaffe_f', 'gnfw_s', 'phys', 'emul', 'other_s', 'other_f')}
    ev = [{'sidm_timescale': 20. + 3 * i, 'lambda_t': 0.7, 'mass_conservation': 3e7, 'rt_kpc': 9.} for i in range(5)]
    par = [{'sidm_timescale': 20. + 3 * i, 'lambda_t': 0.7, 'mass_conservation': 3e7, 'rt_kpc': 9., 'x_core_halo': 0.05,
            'log10_radial_interval': 0.2} for i in range(5)]
    gn = [{'gamma_inner': 1.3, 'gamma_outer': 3.4, 'x_match': 'c'} for _ in range(5)]
    fp = cls('TNFWFromParams.TNFWFromParams')
    fe = cls('TNFWemulator.TNFWSubhaloEmulator')

    def mk(trunc):
        out = build('TNFW', True, lists['tnfw_s'], lc, trunc, cm)
        out += build('TNFW', False, lists['tnfw_f'], lc, field, cm)
        out += build('NFW', True, lists['nfw_s'], lc, None, cm) + build('NFW', False, lists['nfw_f'], lc, None, cm)
        out += build('EVOLVING', True, lists['evo'], lc, None, cm, ev)
        rest = build('TNFWC', True, lists['cored'], lc, None, cm, par)
        rest += build('TNFW', True, lists['other_s'], lc, FixedTruncation(), cm)
        rest += build('TNFW', False, lists['other_f'], lc, FixedTruncation(), cm)
        rest += build('PJAFFE', False, lists['pjaffe_f'], lc, None, cm)
        rest += build('GNFW', True, lists['gnfw_s'], lc, None, cm, gn)
        for i, (m, x, y, z, r3d, tag) in enumerate(lists['phys']):
            rest.append(fp(m, x, y, r3d, z, True, lc, {'rs': 0.4 + 0.1 * i, 'rhos': 2e7 * (1 + i), 'rv': 9. - i,
                                                       'r_trunc_kpc': 1.5 + i, 'z_infall': 1.2}, tag))
        for i, (m, x, y, z, r3d, tag) in enumerate(lists['emul']):
            rest.append(fe(m, x, y, m * (0.1 + 0.15 * i), 8. + 2 * i, z, lc, tag))
        return out, rest
    h, hr = mk(gal)
    everyone = h + hr
    rng.shuffle(everyone)
    real = realization(everyone, lc, {'truncation_model_subhalos': gal, 'truncation_model_field_halos': field,
                                    'concentration_model': cm})
    B.precompute_realization(real)
    bound = {a.mass: a.bound_mass_galacticus_definition for a in h if a.mdef == 'TNFW' and a.is_subhalo}
    t, tr = mk(Scripted(gal, bound))
    attr = ['c', 'z_eval', 'params_physical', 'lenstronomy_params', 'bound_mass']
    pairs(rec, 'realization', h, t, attr, 400)
    kinds = {}
    for a, b in zip(hr, tr):
        kinds.setdefault(type(a).__name__, []).append((a, b))
    for k, ab in sorted(kinds.items()):
        pairs(rec, 'untouched', [a for a, _ in ab], [b for _, b in ab],
              ['c', 'z_eval', 'profile_args', 'params_physical', 'lenstronomy_params', 'bound_mass'], 30, k)


def same_law(rec, what, batch, single, note=''):
    """counts below the pooled quantiles"""
    batch, single = np.sort(batch), np.sort(single)
    both = np.sort(np.concatenate([batch, single]))
    q = [both[int(len(both) * f)] for f in (0.02, 0.1, 0.25, 0.5, 0.75, 0.9, 0.98)]
    rec.emit('batchdist', _note=note, what=what, n=len(batch),
             below1=[int(np.searchsorted(batch, v)) for v in q],
             below2=[int(np.searchsorted(single, v)) for v in q])


def distributions(tier, seed):
    from pyHalo.Halos import batch_halo_util as B
    from pyHalo.truncation_models import truncation_models
    rng = np.random.RandomState(seed + 281)
    rec = Recorder()
    n = 1500 if tier == 'quick' else 8000
    fix = concentration('CONSTANT', lensc(), False)

    def clones(lc, m, trunc, conc, count, kind='TNFW', sub=True):
        return build(kind, sub, [(m, 0., 0., ZL, 10., 0.1)] * count, lc, trunc, conc)

    def each(f, count):
        return [f() for _ in range(count)]
    # infall redshifts
    models = [('HYBRID_INFALL', {'log_m_host': 13.3}), ('DIRECT_INFALL', {'log_m_host': 12.8}),
              ('DIRECT_INFALL_CLUSTER', {'log_m_host': 14.4}), ('GALACTICUS_2024', {})]
    for name, kw in models:
        lc = lensc(name, kw)
        lc_log = [6.5, 8.2, 10., 12.4, 4.5]
        m = 10 ** float(rng.choice(lc_log))
        h = clones(lc, m, None, fix, n)
        # two masses in one call: each must keep its own law
        other = clones(lc, 10 ** float(rng.choice(lc_log)), None, fix, 40)
        B.precompute_infall_times(other + h, lc)
        single = [x.z_infall for x in clones(lc, m, None, fix, n)]
        same_law(rec, 'infall_law', [x.z_infall for x in h], single, '%s m=%.2g' % (name, m))
    # scatter of the concentration
    for name in CONC[:9]:
        lc = lensc()
        cm = concentration(name, lc, True)
        m, z = 10 ** float(rng.uniform(6, 10)), float(rng.choice([0.3, 0.9, 1.7]))
        h = build('NFW', False, [(m, 0., 0., z, 10., 0.1)] * n, lc, None, cm)
        B.precompute_concentrations(h + build('NFW', False, [(m * 30, 0., 0., z, 10., 0.1)] * 20, lc, None, cm))
        same_law(rec, 'scatter_law', [x.c for x in h], each(lambda: cm.nfw_concentration(m, z), n),
                 '%s m=%.2g z=%.1f' % (name, m, z))
    # mass loss
    for tname in ('TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL'):
        for chost in ([2.5, 5.5, 10.5] if tier == 'quick' else [2.5, 4., 5.5, 7., 8.3, 10.5]):
            lc = lensc()
            tm = truncation_models(tname)[0](lc, c_host=chost)
            from pyHalo.Halos.concentration import ConcentrationConstant
            cm = ConcentrationConstant(None, float(rng.choice([1.5, 4., 9., 30., 500.])))
            m, z = 10 ** float(rng.uniform(6, 10)), float(rng.choice([0.5, 0.9, 2.0, 4.5, 9.9, 12.]))
            k = n
            if chost > 10:          # beyond the calibrated hosts, where a small shift of the law is all there is
                cm, z, k = ConcentrationConstant(None, 9.), 1.85 if tname[-1] == 'S' else 4.5, 7 * n
            h, t = clones(lc, m, tm, cm, k), clones(lc, m, tm, cm, k)
            for a in h + t:
                a.set_infall_redshift(z)
            B.precompute_tnfw_subhalos(h, tm)
            same_law(rec, 'mass_loss_law', [a.bound_mass_galacticus_definition for a in h],
                     [a.bound_mass_galacticus_definition for a in t],
                     '%s c_host=%.1f c=%.1f z_infall=%.1f' % (tname, chost, cm.nfw_concentration(), z))
    return rec
