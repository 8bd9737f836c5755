"""Profile methods of real halos: densities, enclosed and projected masses, deflection angles and
slopes, before and after a halo is rescaled, against the lens model the halo hands to the ray tracer."""
import numpy as np
from vh.rec import Recorder, I, L, NAN, attempt
from vh.drivers import halos as H
from vh.drivers.halos import Probe, Wrapped, Infall, U, ZL, ZS, cls, lens_density, sphere, SCALES, counted_lens_cosmo

_X, _W = np.polynomial.legendre.leggauss(24)


def cylinder(rho, R, scale):
    """mass inside the projected radius R: the sphere, and the caps in front of it and behind it"""
    total = sphere(rho, R, scale)
    e = np.log(np.unique(np.concatenate([R * np.logspace(-7, 3, 11), scale * np.logspace(-2, 8, 11)])))
    for a, b in zip(e[:-1], e[1:]):
        s = np.exp(0.5 * (b - a) * _X + 0.5 * (a + b))
        r = np.sqrt(R * R + s * s)
        # 4 pi r^2 rho (1 - s / r) dr, with r dr = s ds
        total += 0.5 * (b - a) * np.sum(_W * 4 * np.pi * s * s * R * R / (r + s) * rho(r))
    return float(total)


def column(rho, R, scale):
    """density projected along the line of sight at R"""
    total = 0.
    e = np.log(np.unique(np.concatenate([R * np.logspace(-7, 3, 11), scale * np.logspace(-2, 8, 11)])))
    for a, b in zip(e[:-1], e[1:]):
        s = np.exp(0.5 * (b - a) * _X + 0.5 * (a + b))
        total += 0.5 * (b - a) * np.sum(_W * 2 * s * rho(np.sqrt(R * R + s * s)))
    return float(total)


class Lensed(object):
    """the mass a list of lens-model components describes; lengths in arcsec"""

    def __init__(self, h):
        self.a = U().kpc_per_arcsec(h.z)
        self.sc = U().sigma_crit(h.z, ZS) * (0.001 * self.a) ** 2
        names, kws = h.lenstronomy_ID, h.lenstronomy_params[0]
        self.point = 0.
        if names == ['CORE_COLLAPSED_HALO']:
            k = kws[0]
            names = ['PSEUDO_DPL', 'TNFW']
            kws = [{'Rs': k['Rs_inner'], 'alpha_Rs': k['alpha_Rs_inner'], 'gamma_inner': k['gamma_inner'],
                    'gamma_outer': k['gamma_outer']}, {'Rs': k['Rs_outer'], 'alpha_Rs': k['alpha_Rs_outer'], 'r_trunc': k['r_trunc']}]
        elif names == ['CORE_COLLAPSED_HALO_BH']:
            k = kws[0]
            self.point = np.pi * k['theta_E_inner'] ** 2
            names = ['TNFW']
            kws = [{'Rs': k['Rs_outer'], 'alpha_Rs': k['alpha_Rs_outer'], 'r_trunc': k['r_trunc']}]
        self.parts = [(lens_density(n, kw), kw[SCALES.get(n, 'Rs')]) for n, kw in zip(names, kws)]

    def rho(self, kpc):
        """Msun / kpc^3"""
        return self.sc / self.a ** 3 * sum(f(np.asarray(kpc, dtype=float) / self.a) for f, _ in self.parts)

    def part(self, i, kpc):
        return self.sc / self.a ** 3 * self.parts[i][0](np.asarray(kpc, dtype=float) / self.a)

    def m3(self, kpc):
        return self.sc * (self.point + sum(sphere(f, kpc / self.a, s) for f, s in self.parts))

    def m2(self, kpc, point=True):
        return self.sc * (point * self.point + sum(cylinder(f, kpc / self.a, s) for f, s in self.parts))

    def sigma(self, kpc):
        """Msun / kpc^2"""
        return self.sc / self.a ** 2 * sum(column(f, kpc / self.a, s) for f, s in self.parts)


LENSDENSITY = ('TNFW', 'TNFWG', 'TNFWC', 'EVOLVING', 'PARAMS', 'HYBRID')
DENSITY = ('NFW', 'TNFW', 'TNFWG', 'TNFWC', 'EVOLVING', 'CC', 'GNFW', 'CNFW', 'PARAMS', 'HYBRID')
MASS3 = DENSITY
MASS2 = ('TNFW', 'TNFWG', 'TNFWC', 'EVOLVING', 'CC', 'PARAMS')
ANGLE = ('TNFW', 'TNFWG', 'CC', 'CCBH', 'PARAMS')
SLOPE = DENSITY
EPS = 0.002


def views(tier, seed):
    rng = np.random.RandomState(seed + 300)
    Infall.rng = np.random.RandomState(seed + 301)
    Infall.log.clear()
    rec = Recorder()
    reps = 5 if tier == 'quick' else 40
    for k in range(reps):
        for kind in ('NFW', 'TNFW', 'TNFWG', 'TNFWC', 'EVOLVING', 'CC', 'CCBH', 'GNFW', 'CNFW', 'PARAMS', 'HYBRID'):
            sub = True if kind in ('TNFWG', 'PARAMS') else bool(rng.randint(2))
            p = Probe(rng, 'TNFW' if kind == 'HYBRID' else kind, sub)
            if kind == 'HYBRID':
                p = Wrapped('HYBRID', p)
            p.named = kind
            ok, _ = attempt(lambda: p.halo.lenstronomy_params)
            if kind in ('CC', 'CCBH') and ok != 'ok':
                continue                      # the targets cannot be met by this pair of profiles
            order = rng.randint(3)
            rs = scale_radius(p)
            norms = []
            if order == 0:
                look(rec, rng, p, 'as made', rs, 0)
            if order != 2 and kind in H.RESCALABLE:
                f = float(rng.choice([0.3, 0.6, 1.9]))
                p.halo.rescale_normalization(f, force=True)
                norms.append(f)
                look(rec, rng, p, 'rescaled by %.1f' % f, rs, L(f) if order == 0 else None)
                f2 = float(rng.choice([0.5, 1.4]))
                p.halo.rescale_normalization(f2, force=True)
                look(rec, rng, p, 'rescaled again by %.1f' % f2, rs, L(f2))
            elif order != 0:
                look(rec, rng, p, 'as made', rs, None)
    clusters(rec, rng, reps)
    setups(rec, rng, reps)
    roots(rec, rng, 40 * reps)
    return rec


def scale_radius(p):
    kws = p.halo.lenstronomy_params[0]
    return kws[0].get('Rs_outer', kws[0].get('Rs')) * U().kpc_per_arcsec(p.z)


def look(rec, rng, p, when, rs, norm):
    """every view the halo offers, at a few radii; norm: what the halo was multiplied by since the last look"""
    kind, h = p.named, p.halo
    note = '%s (%s), m=%.3g z=%.3g sub=%s' % (kind, when, p.mass, p.z, p.sub)
    lens = Lensed(h)
    radii = sorted(float(rs * 10 ** x) for x in rng.uniform(-1.3, 0.9, 3))
    u = dict(a=L(lens.a), sig=L(lens.sc))
    rho = [L(lens.rho(r)) for r in radii]
    m3 = [L(lens.m3(r)) for r in radii]
    m2 = [L(lens.m2(r)) for r in radii]
    cut = [L(max(lens.m2(r, False) - lens.m2(1e-3 * r, False), 1e-9)) for r in radii]
    m2k = [L(lens.m2(r, False)) for r in radii]
    r6 = [L(r) for r in radii]

    def put(view, obs, note2='', **q):
        rec.emit('view', _note='%s: %s%s' % (note, view, note2), view=view, kind=kind, obs=obs, mark=kind, r=r6, rho=rho,
                 m3=m3, m2=m2, cut=cut, m2k=m2k, q=dict(u, **q))
    if kind in LENSDENSITY:
        put('rholens', [L(h.density_profile_3d_lenstronomy(r)) for r in radii])
        put('rholens', [L(x) for x in h.density_profile_3d_lenstronomy(np.array(radii))], ' (array)')
    if kind in DENSITY:
        put('rho', [L(h.density_profile_3d(r)) for r in radii])
        put('rho', [L(x) for x in np.atleast_1d(h.density_profile_3d(np.array(radii)))], ' (array)')
    if kind == 'CC':
        # the centre and the envelope it is made of
        a, b = h.component_density_profile_3d(np.array(radii))
        put('parts', [L(x) for x in a] + [L(x) for x in b],
            want=[L(lens.part(0, r)) for r in radii] + [L(lens.part(1, r)) for r in radii])
    if kind in MASS3:
        put('m3', [L(h.mass_3d(r)) for r in radii])
    if kind in MASS2:
        put('m2', [L(h.mass_2d(r)) for r in radii])
    if kind in ANGLE:
        al = [float(h.deflection_angle(r / lens.a)) for r in radii]
        put('angle', [L(x) for x in al])
        al = h.deflection_angle(np.array(radii) / lens.a)
        put('angle', [L(x) for x in al], ' (array)')
    if kind == 'CC':
        g = np.geomspace(radii[0] * 0.98, radii[0] * 1.02, 41)
        put('kappa', [L(h.kappa(g)[20])] * 3, want=[L(lens.sigma(radii[0]))] * 3)
    if kind in SLOPE:
        want = [I((np.log(lens.rho(r * (1 + EPS))) - np.log(lens.rho(r * (1 - EPS)))) / np.log((1 + EPS) / (1 - EPS)), 1e6) for r in radii]
        put('slope', [I(h.logarithmic_profile_slope(r), 1e6) for r in radii], want=want)
        i = rng.randint(3)
        g = np.geomspace(radii[i] * 0.97, radii[i] * 1.03, 13)
        put('slope', [I(h.logarithmic_profile_slope(g)[6], 1e6)] * 3, ' (array)', want=[want[i]] * 3)
        if kind == 'GNFW':
            kw = h.lenstronomy_params[0][0]
            put('slope', [I(h.log_profile_slope(r, kw['Rs'] * lens.a, kw['gamma_inner'], kw['gamma_outer']), 1e6) for r in radii],
                ' (analytic)', want=want)
        if kind in ('TNFW', 'TNFWG', 'PARAMS'):
            kw = h.lenstronomy_params[0][0]
            put('slope', [I(h.log_profile_slope(r, kw['Rs'] * lens.a, kw['r_trunc'] * lens.a), 1e6) for r in radii], ' (analytic)', want=want)
    if kind in ('TNFWC', 'EVOLVING'):
        i = rng.randint(3)
        g = np.geomspace(radii[i] * 0.97, radii[i] * 1.03, 13)
        w = I((np.log(lens.sigma(radii[i] * 1.01)) - np.log(lens.sigma(radii[i] / 1.01))) / (2 * np.log(1.01)), 1e6)
        put('slope', [I(h.log_slope_2d(g)[6], 1e6)] * 3, ' (projected)', want=[w] * 3)
    if norm is not None and getattr(p, 'before', None):
        rec.emit('scaled', _note=note + ': before and after', kind=kind, norm=norm, mark=kind,
                 before=p.before, after=[L(f(p.at)) for f in p.asked])
    p.at = radii[1]
    p.asked = [f for n, f in (('d', h.density_profile_3d if kind in DENSITY else None),
                              ('l', h.density_profile_3d_lenstronomy if kind in LENSDENSITY else None),
                              ('m', h.mass_3d if kind in MASS3 else None), ('M', h.mass_2d if kind in MASS2 else None),
                              ('a', (lambda r: h.deflection_angle(r / lens.a)) if kind in ANGLE else None)) if f]
    p.before = [L(f(p.at)) for f in p.asked]


def clusters(rec, rng, reps):
    """globular clusters: surface density is the density projected"""
    for k in range(reps):
        m = float(10 ** rng.uniform(4.5, 6))
        z = float(rng.choice([ZL, 0.3, 0.9]))
        ga = {'gamma': float(rng.uniform(3.5, 6.)), 'gc_size_pc': float(rng.uniform(10, 120)), 'gc_concentration': float(rng.uniform(5, 90))}
        gc = cls('globular_cluster.GlobularCluster')(m, 0.1, 0.2, z, counted_lens_cosmo(), ga, 0.4)
        lens = Lensed(gc)
        rc = ga['gc_size_pc'] / 1000 / ga['gc_concentration']
        radii = sorted(float(rc * 10 ** x) for x in rng.uniform(-0.7, 1.2, 3))
        q = dict(a=L(lens.a), sig=L(lens.sc))
        base = dict(kind='GC', mark='GC', r=[L(r) for r in radii], rho=[L(lens.rho(r)) for r in radii],
                    m3=[L(lens.m3(r)) for r in radii], m2=[L(lens.m2(r)) for r in radii], cut=[L(lens.m2(r)) for r in radii],
                    m2k=[L(lens.m2(r)) for r in radii])
        note = 'globular cluster m=%.3g z=%.2f %s' % (m, z, ga)
        rec.emit('view', _note=note, view='rholens', obs=[L(x) for x in np.atleast_1d(gc.density_profile_3d_lenstronomy(np.array(radii)))], q=q, **base)
        rec.emit('view', _note=note, view='surface', obs=[L(x) for x in np.atleast_1d(gc.density_profile_2d_lenstronomy(np.array(radii)))],
                 q=dict(q, want=[L(lens.sigma(r)) for r in radii]), **base)


def setups(rec, rng, reps):
    """halos made with default models are what their constructor makes of those models"""
    from pyHalo.concentration_models import preset_concentration_models
    from pyHalo.truncation_models import truncation_models
    lc = counted_lens_cosmo()
    for k in range(2 * reps):
        m, z = float(10 ** rng.uniform(6, 11)), float(rng.choice([0.2, 0.5, 1.3]))
        tau = float(10 ** rng.uniform(-0.5, 1.5))
        x, y = [float(v) / 64 for v in rng.randint(-90, 90, 2)]
        name = str(rng.choice(['DIEMERJOYCE19', 'LUDLOW2016', '']))
        con, _ = preset_concentration_models(name or 'DIEMERJOYCE19')
        model = con(lc.cosmo.astropy, scatter=False)
        given = {} if not name else {'concentration_model': name if rng.randint(2) else model}
        a = cls('TNFW.TNFWFieldHalo').simple_setup(m, x, y, z, tau, lc, **given)
        rs = 1000 * U().r200(m, z) / model.nfw_concentration(m, z)
        rec.emit('setup', _note='field halo with tau=%.3g, m=%.3g z=%.2f' % (tau, m, z), obs=[
            I(a.x, 1e6), I(a.y, 1e6), I(a.z, 1e6), int(a.is_subhalo), L(a.mass), L(a.params_physical['rs']), L(a.params_physical['r_trunc_kpc']),
            L(a.c)], want=[I(x, 1e6), I(y, 1e6), I(z, 1e6), 0, L(m), L(rs), L(rs * tau), L(model.nfw_concentration(m, z))], tol=3000)
        f, zi = float(10 ** rng.uniform(-1.5, -0.1)), float(rng.uniform(0.6, 5))
        b = cls('TNFW.TNFWSubhalo').simple_setup(m, f, zi, x, y, ZL, lc, **given)
        tm, _ = truncation_models('TRUNCATION_GALACTICUS')
        want = cls('TNFW.TNFWSubhalo')(m, x, y, None, ZL, True, lc, {}, tm(lc, 5.0), model, 1.0)
        want.set_infall_redshift(zi)
        rt = want._truncation_class.truncation_radius_from_bound_mass(want, f * m)
        c = model.nfw_concentration(m, zi)
        rs = 1000 * U().r200(m, zi) / c
        rec.emit('setup', _note='subhalo with f_bound=%.3g, m=%.3g zinfall=%.2f' % (f, m, zi), obs=[
            I(b.x, 1e6), I(b.y, 1e6), I(b.z_infall, 1e6), int(b.is_subhalo), L(b.mass), L(b.params_physical['rs']),
            L(b.params_physical['r_trunc_kpc']), L(b.c), L(b.bound_mass_galacticus_definition)],
            want=[I(x, 1e6), I(y, 1e6), I(zi, 1e6), 1, L(m), L(rs), L(rt), L(c), L(f * m)], tol=3000)


def roots(rec, rng, n):
    """the radius with a given slope, and the real roots behind it"""
    from pyHalo.Halos.tnfw_halo_util import cubic_real_roots, tnfw_density_profile
    T = cls('TNFW.TNFWFieldHalo')
    for k in range(n):
        rs, rt = float(10 ** rng.uniform(-2, 2)), None
        rt = rs * float(10 ** rng.uniform(-2, 3))
        g = float(rng.choice([-1 - 10 ** rng.uniform(-3, 0), rng.uniform(-4.9, -1.1), -2., -3., -2.5]))
        o, r = attempt(T.log_derivative_inverse, g, rs, rt)
        s = NAN
        if o == 'ok' and r > 0:
            x, t = r / rs, rt / rs
            s = -1 - 2 * x / (1 + x) - 2 * x ** 2 / (x ** 2 + t ** 2)
        rec.emit('slopeof', _note='slope %.4g of rs=%.3g rt=%.3g: %s' % (g, rs, rt, r), got=I(s, 1e6), want=I(g, 1e6))
        r = float(10 ** rng.uniform(-2, 2))
        t = rt / rs
        rec.emit('shape', _note='tnfw_density_profile', got=L(tnfw_density_profile(r * rs, 3.7, rs, rt)), rhos=L(3.7), x=L(r), x1=L(1 + r),
                 t=L(t), tx=L(r * r + t * t))
        # polynomials with known roots
        pick = rng.randint(4)
        if pick < 2:
            z = sorted(int(v) for v in (rng.randint(-9, 10, 3) if pick == 0 else np.repeat(rng.randint(-9, 10, 2), [2, 1])))
            want, poly = sorted(set(z)), np.poly(z)
        elif pick == 2:
            z, q = int(rng.randint(-9, 10)), (int(rng.randint(-5, 6)), int(rng.randint(1, 6)))
            want, poly = [z], np.polymul([1, -z], [1, -2 * q[0], q[0] ** 2 + q[1] ** 2])
        else:
            z = sorted(int(v) for v in rng.randint(-9, 10, rng.randint(1, 3)))
            poly = np.concatenate([np.zeros(3 - len(z)), np.poly(z)])
            want = sorted(set(z))
        lead = float(rng.choice([1., -2., 0.5]))
        got = [float(v) for v in cubic_real_roots(*[float(v) * lead for v in poly])]
        rec.emit('roots', _note='%s has roots %s: %s' % (list(poly * lead), want, got), got=[I(v, 1e3) for v in got], want=want,
                 mult=[1] * len(want) if pick == 2 else [z.count(v) for v in want])
