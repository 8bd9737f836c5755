"""Real halos: when their properties are drawn, how they are rescaled and moved (histories
chosen by HaloGen), and what their lens models weigh."""
import functools
import numpy as np
from vh import tlc
from vh.rec import Recorder, I, L, NAN, attempt
from vh.drivers.oracle import Universe, G_MPC, C_KMS, ARCSEC

ZL, ZS = 0.5, 2.0


def U():
    return _u()


@functools.lru_cache(None)
def _u():
    return Universe(69.7, 0.2815, 0.0469)


def L2(x):
    try:
        v = float(x)
    except Exception:
        return NAN
    if not np.isfinite(v) or v <= 0:
        return NAN
    return int(round(2e6 * np.log(v)))


# -- counting stand-ins for the models a halo draws from -----------------------------

class Infall(object):
    """an infall redshift model; every call is a new draw"""
    log = {}
    rng = np.random.RandomState(0)

    def __init__(self, z_lens, **kw):
        self.z_lens = z_lens

    def __call__(self, m_sub):
        z = self.z_lens + 0.05 + 5 * Infall.rng.rand()
        if Infall.rng.rand() < 0.1:
            z = Infall.rng.choice([self.z_lens, 10.5])
        Infall.log.setdefault(round(float(np.log10(m_sub)), 9), []).append(z)
        return z


class Concentration(object):
    name = 'counting'

    def __init__(self, rng):
        self.rng, self.calls = rng, []

    def nfw_concentration(self, m, z, force_no_scatter=False):
        c = 6 + 14 * self.rng.rand()
        self.calls.append((m, z, c))
        return c


class Truncation(object):
    name = 'counting'

    def __init__(self, rng, ft=None):
        self.rng, self.ft, self.calls = rng, ft, []

    def truncation_radius_halo(self, halo):
        r = (halo.mass / 1e8) ** (1. / 3) * (0.3 + 6 * self.rng.rand())
        self.calls.append(r)
        if self.ft is not None:
            halo.rescale_normalization(self.ft)
        return r


class BoundTruncation(Truncation):
    """a truncation model that goes through the bound mass"""
    name = 'TruncationGalacticus'

    def __init__(self, rng, ft=None):
        super(BoundTruncation, self).__init__(rng, ft)
        self.bound = []

    def calculate_mbound(self, halo):
        self.bound.append(halo.mass * (0.02 + 0.9 * self.rng.rand()))
        return self.bound[-1]

    def truncation_radius_from_bound_mass(self, halo, m_bound):
        return super(BoundTruncation, self).truncation_radius_halo(halo)

    def truncation_radius_halo(self, halo):
        return self.truncation_radius_from_bound_mass(halo, halo.bound_mass_galacticus_definition)


@functools.lru_cache(None)
def counted_lens_cosmo(zl=ZL, zs=ZS):
    from pyHalo.Halos.lens_cosmo import LensCosmo
    from vh.drivers.world import cosmology
    return LensCosmo(zl, zs, cosmology(), Infall, {})


def cls(path):
    mod, name = path.rsplit('.', 1)
    import importlib
    return getattr(importlib.import_module('pyHalo.Halos.HaloModels.' + mod), name)


CLASSES = {('NFW', False): 'NFW.NFWFieldHalo', ('NFW', True): 'NFW.NFWSubhhalo',
           ('TNFW', False): 'TNFW.TNFWFieldHalo', ('TNFW', True): 'TNFW.TNFWSubhalo',
           ('TNFWG', True): 'TNFW.TNFWSubhalo',
           'TNFWC': 'NFW_core_trunc.TNFWCHaloParametric', 'EVOLVING': 'NFW_core_trunc.TNFWCHaloEvolving',
           'CC': 'core_collapsed_halo.CoreCollapsedHalo', 'CCBH': 'core_collapsed_halo.CoreCollapsedHaloBH',
           ('GNFW', False): 'generalized_nfw.GeneralNFWFieldHalo', ('GNFW', True): 'generalized_nfw.GeneralNFWSubhalo',
           ('PJAFFE', False): 'PsuedoJaffe.PJaffeFieldhalo', ('PJAFFE', True): 'PsuedoJaffe.PJaffeSubhalo',
           'CNFW': 'NFW_core.CoreNFWHalo',
           ('SPL', False): 'powerlaw.PowerLawFieldHalo', ('SPL', True): 'powerlaw.PowerLawSubhalo',
           ('ULDM', False): 'ULDM.ULDMFieldHalo', ('ULDM', True): 'ULDM.ULDMSubhalo'}


def halo_class(kind, sub):
    return cls(CLASSES.get((kind, sub)) or CLASSES[kind])


class Probe(object):
    """one real halo, its stand-ins, and what the recorder may say about it"""

    def __init__(self, rng, kind, sub, ft=0, mass=None, z=None, args=None):
        self.kind, self.sub, self.rng = kind, sub, rng
        self.mass = float(10 ** rng.uniform(6, 11)) if mass is None else mass
        self.z = z if z is not None else (ZL if sub else float(rng.choice([0.2, 0.5, 1.9, round(rng.uniform(0.03, 1.93), 3), round(rng.uniform(0.03, 1.93), 3)])))
        self.ft = float(rng.choice([0.25, 0.5, 0.8])) if ft else None
        self.c = Concentration(rng)
        self.t = (BoundTruncation if kind == 'TNFWG' else Truncation)(rng, self.ft)
        self.parts = [self]
        self.base = self
        self.zset = None
        lc = counted_lens_cosmo()
        # positions on a 1/64 arcsec grid
        self.x, self.y = [int(v) for v in rng.randint(-90, 90, 2)]
        if kind == 'EMUL':
            k = lc.cosmo.kpc_proper_per_asec(self.z)
            self.halo = cls('TNFWemulator.TNFWSubhaloEmulator')(
                self.mass, self.x / 64. * k, self.y / 64. * k, self.mass * rng.uniform(0.05, 0.9),
                float(rng.uniform(6, 30)), self.z, lc)
        elif kind == 'PARAMS':
            k = lc.cosmo.kpc_proper_per_asec(self.z)
            rs = float(10 ** rng.uniform(-0.5, 0.7))
            self.halo = cls('TNFWFromParams.TNFWFromParams')(
                self.mass, self.x / 64. * k, self.y / 64. * k, None, self.z, True, lc,
                {'rv': rs * rng.uniform(6, 20), 'rs': rs, 'rhos': 10 ** rng.uniform(6, 8),
                 'r_trunc_kpc': rs * rng.uniform(0.3, 8), 'z_infall': 1.3}, rng.rand())
        else:
            self.args = args if args is not None else self.arguments()
            self.halo = halo_class(kind, sub)(self.mass, self.x / 64., self.y / 64.,
                                              float(rng.uniform(5, 150)) if sub and rng.rand() < 0.8 else None, self.z, sub, lc,
                                              self.args, self.t, self.c, float(rng.rand()))

    def arguments(self):
        rng, m = self.rng, self.mass
        if self.kind in ('TNFWC', 'EVOLVING'):
            return {'x_core_halo': float(rng.uniform(0.05, 0.9)), 'rt_kpc': float(10 ** rng.uniform(-0.3, 1.2)),
                    'mass_conservation': m * float(rng.uniform(0.2, 1)), 'sidm_timescale': float(10 ** rng.uniform(0, 2.3)),
                    'lambda_t': float(rng.choice([0.5, 1.0]))}
        if self.kind in ('CC', 'CCBH'):
            return collapsed_args(rng, m, self.z)
        if self.kind == 'GNFW':
            a = {'gamma_inner': float(rng.uniform(0.5, 2.4)), 'gamma_outer': float(rng.uniform(3.1, 5))}
            pick = rng.randint(4)
            if pick == 1:
                a['x_match'] = 'c'
            elif pick == 2:
                a['x_match'] = float(rng.uniform(0.5, 6))
            elif pick == 3:
                a['x_match'] = float(rng.uniform(0.5, 6))
                a['mass_conservation'] = m * float(rng.uniform(0.2, 1))
            return a
        if self.kind == 'CNFW':
            return {'beta': float(rng.uniform(0.02, 1.5))}
        if self.kind == 'SPL':
            a = {'log_slope_halo': float(rng.uniform(1.2, 2.6)), 'x_core_halo': float(rng.uniform(0.02, 0.4))}
            pick = rng.randint(3)
            if pick:
                a['x_match'] = 'c' if pick == 1 else float(rng.uniform(0.5, 6))
            return a
        return {}

    # -- what has been drawn ----------------------------------------------------------
    def draws(self):
        z = Infall.log.get(round(float(np.log10(self.base.mass)), 9), [])
        cs = [k for p in self.base.parts for k in p.c.calls]
        ts = [k for p in self.base.parts for k in p.t.calls]
        mb = [k for p in self.base.parts for k in getattr(p.t, 'bound', [])]
        have = [n for n, v in (('zinf', z), ('mb', mb), ('c', cs), ('trunc', ts)) if v]
        return have, [len(z), len(mb), len(cs), len(ts)], z, mb, cs, ts

    def fields(self):
        have, times, z, mb, cs, ts = self.draws()
        return dict(drawn=have, times=times, norm=L(self.halo.rescale_norm), zh=I(self.z, 1e6),
                    zdrawn=I(z[0], 1e6) if z else 0,
                    cargs=[{'mass': abs(m / self.mass - 1) < 1e-9, 'z': I(zz, 1e6)} for m, zz, _ in cs],
                    dc=L2(cs[0][2]) if cs else 0, drt=L2(ts[0]) if ts else 0, dmb=L2(mb[0]) if mb else 0)

    # -- read-outs ---------------------------------------------------------------------
    def read(self, what):
        h, k = self.halo, self.kind
        out, more = [], {}

        def put(name, v, p=0):
            if isinstance(v, (list, tuple)):
                for i, x in enumerate(v):
                    put('%s%d' % (name, i), x, p)
            elif isinstance(v, (int, float, np.number)) and not isinstance(v, bool):
                out.append({'k': name, 'v': L2(v), 'p': p})
        if what == 'zeval':
            z = h.z_eval
            put('z', z)
            more['zval'] = I(z, 1e6)
        elif what == 'age':
            t = h.time_since_infall
            put('t', t)
            have, times, z, _, _, _ = self.draws()
            zi = self.base.zset if self.base.zset is not None else (z[0] if z else self.z)
            more['age'] = I(t, 1e6)
            more['agewant'] = I(U().a.age(self.z).value - U().a.age(zi).value, 1e6)
        elif what == 'c':
            put('c', h.c)
        elif what == 'nfw':
            put('nfw', list(h.nfw_params))
        elif what == 'args':
            a = h.profile_args
            put('a', list(a) if isinstance(a, (list, tuple)) else a)
        elif what == 'lens':
            kws = h.lenstronomy_params[0]
            more['cx'], more['cy'] = [], []
            for i, kw in enumerate(kws):
                more['cx'].append(I(kw['center_x'], 1e6))
                more['cy'].append(I(kw['center_y'], 1e6))
                for name in sorted(kw):
                    if name not in ('center_x', 'center_y'):
                        put('%s%d' % (name, i), kw[name], 2 if name == 'alpha_Rs' and k in RESCALABLE else 0)
            put('n%d' % len(kws), 1.0)
            for name in h.lenstronomy_ID:
                put(name, 1.0)
        elif what == 'phys':
            pp = h.params_physical
            for name in sorted(pp):
                put(name, pp[name], 2 if name == 'rhos' and k in RESCALABLE else 0)
        elif what == 'vmax':
            put('v', h.vmax_nfw, 1 if k != 'HYBRID' else 0)
        elif what == 'mass':
            put('m', h.mass_3d('r200'), 2)
        elif what == 'rho':
            put('rho', h.density_profile_3d_lenstronomy(1.3), 2)
        elif what == 'bound':
            put('b', h.bound_mass, 2)
        elif what == 'mbg':
            put('mb', h.bound_mass_galacticus_definition)
        return out, more


RESCALABLE = ('NFW', 'TNFW', 'TNFWG', 'TNFWC', 'EVOLVING', 'CNFW', 'EMUL', 'PARAMS', 'HYBRID')


class Wrapped(Probe):
    def __init__(self, kind, base):
        self.kind, self.base, self.sub, self.mass, self.z = kind, base, base.sub, base.mass, base.z
        self.rng, self.ft = base.rng, None
        b = base.halo
        if kind == 'SIS':
            self.halo = cls('sis.SIS')(b)
        elif kind == 'MASSIVE':
            self.halo = cls('sis.MassiveGalaxy')(b)
        else:
            other = Probe(base.rng, 'EVOLVING', base.sub, mass=base.mass, z=base.z)
            other.halo.x, other.halo.y = b.x, b.y
            base.parts.append(other)
            self.halo = cls('NFW_core_trunc.Hybrid')(b, other.halo, 0.35)
        self.x, self.y = 64 * b.x, 64 * b.y

    def identity(self):
        a, b = self.halo, self.base.halo
        return bool(a.mass == b.mass and a.z == b.z and a.is_subhalo == b.is_subhalo and a.unique_tag == b.unique_tag
                    and a.x == b.x and a.y == b.y and a.r3d == b.r3d)


def histories(tier, seed):
    rng = np.random.RandomState(seed + 70)
    Infall.rng = np.random.RandomState(seed + 71)
    Infall.log.clear()
    rec = Recorder()
    num = 60 if tier == 'quick' else 600
    for b, beh in enumerate(tlc.simulate('HaloGen', 'HaloGen', num, 45, seed + 1)):
        rec.emit('hreset')
        ps = {}
        for o in beh:
            i = o['h']
            if o['op'] == 'new':
                p = ps[i] = Probe(rng, o['kind'], o['g'], o['a'])
                rec.emit('hnew', h=i, kind=o['kind'], sub=o['g'], x=I(p.x, 15625), y=I(p.y, 15625),
                         ft=L(p.ft) if p.ft else 0, **p.fields())
            elif o['op'] == 'wrap':
                p = ps[i] = Wrapped(o['kind'], ps[o['a']])
                rec.emit('hwrap', h=i, kind=o['kind'], sub=o['g'], base=o['a'], same=p.identity(),
                         x=I(p.x, 15625), y=I(p.y, 15625), ft=0, **p.fields())
            elif o['op'] == 'setz':
                z = o['a'] / 1000.
                ps[i].halo.set_infall_redshift(z)
                ps[i].zset = z
                rec.emit('hsetz', h=i, z=I(z, 1e6))
            elif o['op'] == 'rescale':
                f = o['a'] / 100.
                ps[i].halo.rescale_normalization(f, force=o['g'], log=o['lg'])
                rec.emit('hrescale', h=i, f=L(f), force=o['g'], log=o['lg'], **ps[i].fields())
            elif o['op'] == 'move':
                d = o['a']
                ps[i].halo.shift_position(d / 64., -d / 32.)
                rec.emit('hmove', h=i, dx=I(d, 15625), dy=I(-2 * d, 15625), **ps[i].fields())
            else:
                vals, more = ps[i].read(o['what'])
                rec.emit('hread', _note='history %d: %s of %s (sub %s)' % (b, o['what'], ps[i].kind, ps[i].sub),
                         h=i, what=o['what'], vals=vals, **dict(ps[i].fields(), **more))
    return rec


# -- C24: mass laws --------------------------------------------------------------------

_X, _W = np.polynomial.legendre.leggauss(20)


def sphere(rho, R, scale):
    """mass inside R of a density rho(r), piecewise Gauss-Legendre in ln r"""
    edges = np.unique([x for x in np.concatenate([[R], np.logspace(-10, 6, 33) * scale]) if 1e-9 * scale <= x <= R])
    s = 4. / 3 * np.pi * edges[0] ** 3 * rho(edges[0])
    for a, b in zip(np.log(edges[:-1]), np.log(edges[1:])):
        r = np.exp(0.5 * (b - a) * _X + 0.5 * (a + b))
        s += 0.5 * (b - a) * np.sum(_W * 4 * np.pi * r ** 3 * rho(r))
    return float(s)


def tnfw_fraction(tau, c):
    def rho(x):
        return tau ** 2 / (tau ** 2 + x ** 2) / x / (1 + x) ** 2
    return sphere(rho, c, min(1., tau)) / (4 * np.pi * (np.log(1 + c) - c / (1 + c)))


def prof(name):
    import importlib
    mod, c = {'NFW': ('nfw', 'NFW'), 'TNFW': ('tnfw', 'TNFW'), 'TNFWC': ('nfw_core_truncated', 'TNFWC'),
              'PSEUDO_DPL': ('pseudo_double_powerlaw', 'PseudoDoublePowerlaw'), 'PJAFFE': ('pseudo_jaffe', 'PseudoJaffe'),
              'SPL_CORE': ('splcore', 'SPLCORE'), 'CNFW': ('cnfw', 'CNFW'), 'ULDM': ('uldm', 'Uldm')}[name]
    return getattr(importlib.import_module('lenstronomy.LensModel.Profiles.' + mod), c)()


def lens_density(name, kw):
    """3D density [Sigma_cr / arcsec] of one lens-model component"""
    p = prof(name)
    if name == 'NFW':
        rho0 = p.alpha2rho0(kw['alpha_Rs'], kw['Rs'])
        return lambda r: p.density(r, kw['Rs'], rho0)
    if name == 'TNFW':
        rho0 = p.alpha2rho0(kw['alpha_Rs'], kw['Rs'])
        return lambda r: p.density(r, kw['Rs'], rho0, kw['r_trunc'])
    if name == 'TNFWC':
        return lambda r: p.density_lens(r, kw['Rs'], kw['alpha_Rs'], kw['r_core'], kw['r_trunc'])
    if name == 'PSEUDO_DPL':
        return lambda r: p.density_lens(r, kw['Rs'], kw['alpha_Rs'], kw['gamma_inner'], kw['gamma_outer'])
    if name == 'CNFW':
        return lambda r: p.density_lens(r, kw['Rs'], kw['alpha_Rs'], kw['r_core'])
    if name == 'ULDM':
        return lambda r: p.density_lens(r, kw['kappa_0'], kw['theta_c'])
    if name == 'SPL_CORE':
        return lambda r: p.density_lens(r, kw['sigma0'], kw['r_core'], kw['gamma'])
    if name == 'PJAFFE':
        rho0 = p.sigma2rho(kw['sigma0'], kw['Ra'], kw['Rs'])
        return lambda r: p.density(r, rho0, kw['Ra'], kw['Rs'])
    raise KeyError(name)


SCALES = {'SPL_CORE': 'r_core', 'ULDM': 'theta_c', 'PJAFFE': 'Ra', 'TNFWC': 'r_core'}


def lens_mass(halo, kpc, z):
    """Msun inside `kpc` of the lens model the halo hands to the ray tracer"""
    a = U().kpc_per_arcsec(z)
    sc = U().sigma_crit(z, ZS) * (0.001 * a) ** 2
    total = 0
    names, kws = halo.lenstronomy_ID, halo.lenstronomy_params[0]
    if names == ['CORE_COLLAPSED_HALO']:
        k = kws[0]
        names = ['PSEUDO_DPL', 'TNFW']
        kws = [{'Rs': k['Rs_inner'], 'alpha_Rs': k['alpha_Rs_inner'], 'gamma_inner': k['gamma_inner'],
                'gamma_outer': k['gamma_outer']}, {'Rs': k['Rs_outer'], 'alpha_Rs': k['alpha_Rs_outer'], 'r_trunc': k['r_trunc']}]
    for n, kw in zip(names, kws):
        total += sc * sphere(lens_density(n, kw), kpc / a, kw[SCALES.get(n, 'Rs')])
    return total


def collapsed_args(rng, m, z):
    """targets a collapsed halo can meet whatever its scale radius turns out to be: a small, steep
    centre, and more mass inside r_match than the envelope alone can have there"""
    rs = (m / 1e8) ** 0.4 * 0.6
    return {'gamma_inner': float(rng.uniform(2.0, 2.7)), 'gamma_outer': float(rng.uniform(4.5, 5)),
            'rt_kpc': rs * float(rng.uniform(3, 8)), 'Rs_inner_kpc': rs * float(rng.uniform(0.01, 0.03)),
            'r_match_kpc': 0.7 * rs, 'm_target_R': 0.8 * 0.8 * m, 'm_target_r200': 0.8 * m,
            'sidm_timescale': 10., 'lambda_t': 1.}


def tau2(rt, r):
    return rt ** 2 / (rt ** 2 + r ** 2)


def laws(tier, seed):
    rng = np.random.RandomState(seed + 240)
    Infall.rng = np.random.RandomState(seed + 241)
    Infall.log.clear()
    u = U()
    rec = Recorder()

    def law(p, name, obs, tol=3000, **q):
        rec.emit('law', _note='%s of %s, m=%.3g z=%.3g sub=%s' % (name, p.kind, p.mass, p.z, p.sub), law=name,
                 obs=obs, q=q, tol=tol, mark=p.kind)

    def common(p, rs_key='Rs'):
        """scale radius on the sky and the mass inside c r_s"""
        have, times, z, mb, cs, ts = p.draws()
        zi = z[0] if p.sub else p.z
        c = cs[0][2]
        kw = p.halo.lenstronomy_params[0][0]
        q = dict(m=L(p.mass), rhoc=L(u.rho_crit(zi)), c=L(c), kpa=L(u.kpc_per_arcsec(p.z)))
        if rs_key:
            law(p, 'rs', L(kw[rs_key]), **q)
        return zi, c, 1000 * u.r200(p.mass, zi) / c

    n = 10 if tier == 'quick' else 60
    for k in range(n):
        for sub in (False, True):
            norm = float(rng.choice([0.4, 1.7]))
            # NFW, truncated NFW
            for kind in ('NFW', 'TNFW', 'TNFWG'):
                if kind == 'TNFWG' and not sub:
                    continue
                p = Probe(rng, kind, sub)
                p.halo.c
                p.halo.rescale_normalization(norm, force=True)
                zi, c, rs = common(p)
                frac = 1.
                if kind != 'NFW':
                    rt = p.t.calls[0]
                    law(p, 'angle', L(p.halo.lenstronomy_params[0][0]['r_trunc']), kpc=L(rt), kpa=L(u.kpc_per_arcsec(p.z)))
                    frac = tnfw_fraction(rt / rs, c)
                    if sub:
                        law(p, 'mass200', L(p.halo.bound_mass), m=L(p.mass), norm=L(norm), frac=L(frac))
                law(p, 'mass200', L(lens_mass(p.halo, c * rs, p.z)), m=L(p.mass), norm=L(norm), frac=L(frac))
                law(p, 'mass200', L(p.halo.mass_3d('r200')), m=L(p.mass), norm=L(norm), frac=L(frac))
                if kind == 'TNFW':
                    # galaxies in the same halo
                    s = Wrapped('SIS', p)
                    rhos = p.mass / (4 * np.pi * rs ** 3 * (np.log(1 + c) - c / (1 + c)))
                    law(s, 'sis', L(s.halo.lenstronomy_params[0][0]['theta_E']), rhos=L(rhos), rsk=L(rs), norm=L(norm),
                        dds=L(u.da12(p.z, ZS)), ds=L(u.da(ZS)), tol=5000)
                    g = Wrapped('MASSIVE', p)
                    law(g, 'mass200', L(lens_mass(g.halo, c * rs, p.z)), m=L(p.mass), norm=L(norm), frac=L(frac), tol=4000)
                    law(g, 'angle', L(g.halo.lenstronomy_params[0][0]['Rs']), kpc=L(rt if sub else rs),
                        kpa=L(u.kpc_per_arcsec(p.z)))
            # cored, truncated
            for kind in ('TNFWC', 'EVOLVING'):
                p = Probe(rng, kind, sub)
                p.halo.rescale_normalization(norm, force=True)
                p.halo.lenstronomy_params
                zi, c, rs = common(p, None)
                law(p, 'given', L(lens_mass(p.halo, c * rs, p.z)), m=L(p.args['mass_conservation']), norm=L(norm), tol=6000)
                law(p, 'angle', L(p.halo.lenstronomy_params[0][0]['r_trunc']), kpc=L(p.args['rt_kpc']),
                    kpa=L(u.kpc_per_arcsec(p.z)))
            # collapsed
            p = Probe(rng, 'CC', sub)
            o, _ = attempt(lambda: p.halo.lenstronomy_params)
            if o == 'ok':
                zi, c, rs = common(p, 'Rs_outer')
                law(p, 'given', L(lens_mass(p.halo, p.args['r_match_kpc'], p.z)), m=L(p.args['m_target_R']), norm=0)
                law(p, 'given', L(lens_mass(p.halo, c * rs, p.z)), m=L(p.args['m_target_r200']), norm=0)
            p = Probe(rng, 'CCBH', sub)
            o, _ = attempt(lambda: p.halo.lenstronomy_params)
            if o == 'ok':
                common(p, 'Rs_outer')
                law(p, 'ptmass', L(p.halo.lenstronomy_params[0][0]['theta_E_inner']), m=L(p.args['m_target_R']),
                    dds=L(u.da12(p.z, ZS)), dd=L(u.da(p.z)), ds=L(u.da(ZS)))
            # matched inside some radius
            for kind in ('GNFW', 'SPL'):
                p = Probe(rng, kind, sub)
                p.halo.lenstronomy_params
                zi, c, rs = common(p, 'Rs' if kind == 'GNFW' else None)
                x = p.args.get('x_match', 2.16)
                x = c if x == 'c' else x
                m = lens_mass(p.halo, x * rs, p.z)
                if 'mass_conservation' in p.args:
                    law(p, 'given', L(m), m=L(p.args['mass_conservation']), norm=0, tol=4000)
                else:
                    law(p, 'matched', L(m), m=L(p.mass), fmatch=L(np.log(1 + x) - x / (1 + x)),
                        fc=L(np.log(1 + c) - c / (1 + c)), tol=4000)
                if kind == 'SPL':
                    law(p, 'angle', L(p.halo.lenstronomy_params[0][0]['r_core']), kpc=L(p.args['x_core_halo'] * rs),
                        kpa=L(u.kpc_per_arcsec(p.z)))
            p = Probe(rng, 'PJAFFE', sub)
            p.halo.lenstronomy_params
            zi, c, rs = common(p)
            law(p, 'matched', L(lens_mass(p.halo, c * rs, p.z)), m=L(p.mass), fmatch=0, fc=0)
            if k < 2 or tier != 'quick':
                p = Probe(rng, 'ULDM', sub, mass=float(10 ** rng.uniform(8.8, 9.8)),
                          args={'log10_m_uldm': float(rng.uniform(-21.4, -20.8)), 'uldm_plaw': 1. / 3, 'scale_nfw': True})
                kws = p.halo.lenstronomy_params[0]
                zi, c, rs = common(p)
                law(p, 'given', L(lens_mass(p.halo, c * rs, p.z)), m=L(p.mass), norm=0, tol=30000)

                def zeta(z):
                    o = u.a.Om(z)
                    return (18 * np.pi ** 2 + 82 * (o - 1) - 39 * (o - 1) ** 2) / o
                law(p, 'soliton', L(kws[1]['theta_c']), m22=L(10 ** (p.args['log10_m_uldm'] + 22)), lz1=L(1 + p.z),
                    zeta=L(zeta(p.z) / zeta(0)), m9=L(p.mass / 1e9), plaw=333, kpa=L(u.kpc_per_arcsec(p.z)), tol=9000)
        # compact objects
        for z in (0.2, 0.5, 1.4):
            m = float(10 ** rng.uniform(2, 8))
            bh = cls('blackhole.BlackHole')(m, 0.1, -0.2, None, z, False, counted_lens_cosmo(), {}, None, None, 0.5)
            fake = Probe.__new__(Probe)
            fake.kind, fake.mass, fake.z, fake.sub = 'PT_MASS', m, z, False
            law(fake, 'ptmass', L(bh.lenstronomy_params[0][0]['theta_E']), m=L(m), dds=L(u.da12(z, ZS)),
                dd=L(u.da(z)), ds=L(u.da(ZS)))
            law(fake, 'same', L(bh.mass_3d(1.0)), m=L(m))
        m = float(10 ** rng.uniform(4.5, 6))
        ga = {'gamma': float(rng.uniform(3.5, 6.)), 'gc_size_pc': float(rng.uniform(10, 120)), 'gc_concentration': float(rng.uniform(5, 90))}
        gc = cls('globular_cluster.GlobularCluster')(m, 0.1, 0.2, ZL, counted_lens_cosmo(), ga, 0.4)
        fake = Probe.__new__(Probe)
        fake.kind, fake.mass, fake.z, fake.sub = 'GC', m, ZL, False
        law(fake, 'same', L(lens_mass(gc, ga['gc_size_pc'] / 1000, ZL)), m=L(m))
        law(fake, 'same', L(2 * lens_mass(gc, gc.half_mass_radius / 1000, ZL)), m=L(m))
        law(fake, 'angle', L(gc.lenstronomy_params[0][0]['r_core']), kpc=L(ga['gc_size_pc'] / 1000 / ga['gc_concentration']),
            kpa=L(u.kpc_per_arcsec(ZL)))
        # halos made from tabulated parameters
        p = Probe(rng, 'EMUL', True)
        kw = p.halo.lenstronomy_params[0][0]
        c = p.halo.c
        rs = 1000 * u.r200(p.mass, p.z) / c
        law(p, 'rs', L(kw['Rs']), m=L(p.mass), rhoc=L(u.rho_crit(p.z)), c=L(c), kpa=L(u.kpc_per_arcsec(p.z)))
        law(p, 'same', L(lens_mass(p.halo, c * rs, p.z)), m=L(p.halo._bound_mass_fraction * p.mass), tol=20000)
        p = Probe(rng, 'PARAMS', True)
        kw, a = p.halo.lenstronomy_params[0][0], p.halo.args_profile
        law(p, 'angle', L(kw['Rs']), kpc=L(a['rs']), kpa=L(u.kpc_per_arcsec(p.z)))
        law(p, 'angle', L(kw['r_trunc']), kpc=L(a['r_trunc_kpc']), kpa=L(u.kpc_per_arcsec(p.z)))
        t = a['r_trunc_kpc'] / a['rs']
        want = sphere(lambda r: a['rhos'] / (r / a['rs']) / (1 + r / a['rs']) ** 2 * tau2(a['r_trunc_kpc'], r), a['rv'], a['rs'] * min(1, t))
        law(p, 'same', L(lens_mass(p.halo, a['rv'], p.z)), m=L(want))
    dispatch(rec, rng)
    return rec


MDEFS = [('NFW', True, 'NFWSubhhalo', {}), ('NFW', False, 'NFWFieldHalo', {}),
         ('TNFW', True, 'TNFWSubhalo', {}), ('TNFW', False, 'TNFWFieldHalo', {}),
         ('PT_MASS', False, 'BlackHole', {}), ('PJAFFE', True, 'PJaffeSubhalo', {}),
         ('ULDM', True, 'ULDMSubhalo', {}), ('ULDM', False, 'ULDMFieldHalo', {}),
         ('SPL_CORE', True, 'PowerLawSubhalo', {}), ('SPL_CORE', False, 'PowerLawFieldHalo', {}),
         ('GNFW', True, 'GeneralNFWSubhalo', {}), ('GNFW', False, 'GeneralNFWFieldHalo', {}),
         ('TNFWC_SIDM', False, 'TNFWCHaloEvolving', {}), ('GAUSSIAN_KAPPA', False, 'GaussianHalo', {})]


def dispatch(rec, rng):
    """mass definitions name halo classes"""
    from pyHalo.single_realization import SingleHalo
    for mdef, sub, want, _ in MDEFS:
        o, r = attempt(SingleHalo, 1e8, 0.1, 0.2, mdef, ZL, ZL, ZS, 10., sub,
                       {'truncation_model': Truncation(rng), 'concentration_model': Concentration(rng),
                        'kwargs_density_profile': {}}, None, counted_lens_cosmo())
        rec.emit('raise', _note='mass definition %s sub=%s' % (mdef, sub), clause='C24_class', outcome=
                 type(r.halos[0]).__name__ if o == 'ok' else o, want=want)
    for bad in ('nfw', 'NFWX', 'CDM', ''):
        o, _ = attempt(SingleHalo, 1e8, 0.1, 0.2, bad, ZL, ZL, ZS, 10., True,
                       {'truncation_model': Truncation(rng), 'concentration_model': Concentration(rng),
                        'kwargs_density_profile': {}}, None, counted_lens_cosmo())
        rec.emit('raise', _note='mass definition %r' % bad, clause='C24_unknown', outcome='ok' if o == 'ok' else 'refused',
                 want='refused')
