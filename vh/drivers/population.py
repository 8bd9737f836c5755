"""Lens planes, geometry, mass functions, spatial distributions, populations and sheets
(spec/Population.tla)."""
import math
import random
import numpy as np
from vh.rec import Recorder, I, L, attempt, NAN
from vh.drivers import world
from vh.drivers.oracle import Universe, ARCSEC, suppression, moment, quantiles

ZERO = NAN
KINDS = ('CDM', 'WDM', 'MIXED')


def micro(z):
    return I(z, 1e6)


# -- C10 -------------------------------------------------------------------------
def planes(tier, seed):
    from pyHalo.utilities import generate_lens_plane_redshifts
    rng = random.Random(seed)
    rec = Recorder()
    cases = [(None, 1.5, None), (0.5, 1.5, None), (0.11, 2.33, None), (0.13, 1.37, None), (0.5, 1.5, 0.025),
             (0.5, 1.5, 0.005), (0.45, 2.0, 0.015), (0.2, 0.21, None), (0.02, 0.5, None), (0.01, 0.4, None)]
    for _ in range(150 if tier == 'quick' else 1500):
        zl = rng.randint(2, 120) / 100. if rng.random() < 0.9 else rng.randint(200, 900) / 1000.
        zs = round(zl + rng.randint(1, 250) / 100., 3)
        step = rng.choice([None, None, 0.02, 0.01, 0.03, 0.04, 0.05, 0.1, 0.2, 0.025, 0.015, 0.005, 0.0125, 0.07])
        if rng.random() < 0.1:
            zl = None
        cases.append((zl, zs, step))
    for zl, zs, step in cases:
        args = (zl, zs) if step is None else (zl, zs, step)
        z, dz = generate_lens_plane_redshifts(*args)
        rec.emit('planes', start=10000, zl=micro(zl) if zl is not None else 0, zs=micro(zs),
                 step=micro(step) if step is not None else 20000, z=[micro(v) for v in z], dz=[micro(v) for v in dz],
                 exact=[bool(v == zl) for v in z])
    return rec


# -- C12 -------------------------------------------------------------------------
def geometry(tier, seed):
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Cosmology.geometry import Geometry
    rng = random.Random(seed)
    rec = Recorder()
    for k in range(10 if tier == 'quick' else 80):
        u = Universe() if k == 0 else Universe(H0=rng.uniform(60, 75), Om0=rng.uniform(0.22, 0.38), Ob0=0.045)
        cosmo = Cosmology(u.a, u.kwargs())
        zl = rng.randint(15, 90) / 100.
        zs = round(zl + rng.randint(20, 180) / 100., 2)
        cone = rng.choice([2., 4., 6., 10., 30.])
        for type in ('DOUBLE_CONE', 'CYLINDER', 'CONE'):
            pad = rng.choice([0.95, 0.95, 1.0, 0.7])
            if type == 'DOUBLE_CONE' and pad != 0.95:
                g = Geometry(cosmo, zl, zs, cone, type, angle_pad=pad)
            else:
                pad = 0.95
                g = Geometry(cosmo, zl, zs, cone, type)
            top = 0.02 if pad < 1 else min(0.12, 0.3 * (zs - zl))       # where the cone is not yet closed
            zz = [zl, zs - top] + [rng.randint(9, int(100 * (zs - top))) / 100. for _ in range(8)]
            for z in zz:
                D = dict(cl=I(u.dc(zl), 10), cz=I(u.dc(z), 10), ds=I(u.da(zs), 10), dls=I(u.da12(zl, zs), 10),
                         dlz=I(u.da12(zl, z) if z > zl else 0, 10), dz=I(u.da(z), 10))
                s = g.rendering_scale(z)
                R = rng.choice([0.5 * cone, 1., 2.5])
                rec.emit('scale', type=type, zl=micro(zl), z=micro(z), pad=I(pad, 100), D=D, obs=I(s, 1e4),
                         lr=L(R * ARCSEC), lscale=L(u.scale(type, zl, zs, z, pad)), ldc=L(u.dc(z)), lz1=L(1 + z),
                         comr=L(g.angle_to_comovingradius(R, z)), phr=L(g.angle_to_physicalradius(R, z)),
                         com=L(g.angle_to_comoving_area(R, z)), phys=L(g.angle_to_physical_area(R, z)))
                dz = rng.choice([0.01, 0.02, 0.05])
                if z + dz <= zs - 0.5 * top:
                    zm = z + 5e-4
                    depth = u.dc(z + 1e-3) - u.dc(z)
                    full = sum(_volume(u, type, zl, zs, cone, a, b - a, pad) for a, b in _cut(z, z + dz, zl))
                    parts = sum(g.volume_element_comoving(z + i * dz / 4, dz / 4) for i in range(4))
                    rec.emit('slice', obs=L(g.volume_element_comoving(z, dz)), want=L(full), parts=L(parts),
                             thin=L(g.volume_element_comoving(z, 1e-3)), lcone=L(cone * ARCSEC),
                             lscale=L(u.scale(type, zl, zs, zm, pad)), ldc=L(u.dc(zm)), ldepth=L(depth))
            gv = g if type != 'DOUBLE_CONE' else Geometry(cosmo, zl, zs, cone, type, angle_pad=1.0)
            rec.emit('volume', type=type, obs=L(gv.volume_MPC3), lcone=L(cone * ARCSEC), ldl=L(u.dc(zl)), lds=L(u.dc(zs)))
    o, _ = attempt(Geometry, cosmo, zl, zs, cone, 'SPHERE')
    rec.emit('raise', clause='C12_unknown', outcome='raised' if o != 'ok' else 'ok', want='raised')
    return rec


def _cut(a, b, at):
    return [(a, at), (at, b)] if a < at < b else [(a, b)]


def _volume(u, type, zl, zs, cone, z, dz, pad):
    x, w = np.polynomial.legendre.leggauss(12)
    s = 0
    for xi, wi in zip(x, w):
        zi = z + 0.5 * dz * (1 + xi)
        s += wi * (0.5 * cone * ARCSEC * u.scale(type, zl, zs, zi, pad) * u.dc(zi)) ** 2 / u.a.H(zi).value
    return 0.5 * dz * s * np.pi * 299792.458


# -- C11 -------------------------------------------------------------------------
def turnover(rng, kind):
    if kind == 'CDM':
        return {}
    p = dict(log_mc=round(rng.uniform(6.0, 8.8), 2), a_wdm=rng.choice([1.0, 1.95, 3.0, 36.15]),
             b_wdm=rng.choice([0.8, 1.0, 1.1, 2.5]), c_wdm=rng.choice([-0.2, -1.0, -1.3, -2.2]))
    if kind == 'MIXED':
        p['mixed_DM_frac'] = round(rng.uniform(0.05, 0.95), 2)
    return p


def mf_class(kind, los):
    from pyHalo.Rendering.MassFunctions import mass_function_base as b, density_peaks as d
    return {('CDM', False): b.CDMPowerLaw, ('WDM', False): b.WDMPowerLaw, ('MIXED', False): b.MixedWDMPowerLaw,
            ('CDM', True): d.ShethTormen, ('WDM', True): d.ShethTormenTurnover,
            ('MIXED', True): d.ShethTormenMixedWDM}[(kind, los)]


def hist_events(rec, kind, p, norm, idx, lo, hi, fixed, model, ndraw, note=None):
    lin, lim = moment(1., idx, lo, hi, 0, kind, p), moment(1., idx, lo, hi, 1, kind, p)
    edges = np.linspace(lo, hi, 9) if hi > lo else np.array([lo, hi + 1.])
    ms = [np.asarray(model.draw(), dtype=float) for _ in range(ndraw)]
    m = np.log10(np.concatenate(ms)) if len(ms) else np.array([])
    hist, _ = np.histogram(m, edges)
    hist[-1] += np.sum(m == edges[-1]) if m.size and np.histogram(m[m == edges[-1]], edges)[0].sum() == 0 else 0
    outside = int(np.sum((m < lo - 1e-9) | (m > hi + 1e-9)))
    expect = [ndraw * moment(norm, idx, a, b, 0, kind, p) for a, b in zip(edges[:-1], edges[1:])] if hi > lo \
        else [0.]
    ev = [10 ** (lo + f * (hi - lo)) for f in (0., 0.3, 0.7, 1.)]
    fixed = fixed and kind == 'CDM'
    rec.emit('massfunction', _note=note, kind=kind, fixed=fixed, on=L(model.n_mean) if model.n_mean else ZERO,
             om=L(model.first_moment) if model.first_moment else ZERO, lnorm=L(norm), lin=L(lin) if lin else ZERO,
             lim=L(lim) if lim else ZERO, tol=3000, hist=[int(h) for h in hist], outside=outside,
             want=I(sum(expect)), want1000=I(sum(expect) / ndraw, 1000), ndraw=ndraw, expect=[I(e) for e in expect],
             ev=[L(model.evaluate(v)) for v in ev], evwant=[L(v ** idx * float(suppression(kind, v, p))) for v in ev])


def massfunctions(tier, seed):
    rng = random.Random(seed)
    rec = Recorder()
    for k in range(40 if tier == 'quick' else 300):
        kind = rng.choice(KINDS)
        idx = rng.choice([-1.9, -1.85, -2.0, -1.0, -1.5, -1.05, -0.95, -0.9, round(rng.uniform(-2.2, -1.6), 3)])
        if k < 6:       # close to the slope of a logarithm
            kind, idx = 'CDM', [-1., -1.05, -0.95, -0.9, -1.1, -0.5][k]
        lo = round(rng.uniform(6, 8), 2)
        hi = round(lo + rng.choice([1., 2.5, 3., 0.6]), 2)
        p = turnover(rng, kind)
        nd = rng.choice([1, 4, 10])
        fixed = rng.random() < 0.5
        norm = rng.choice([400., 1500., 30.]) / moment(1., idx, lo, hi, 0, kind, p)
        if kind != 'CDM' and norm * moment(1., idx, lo, hi, 0) > 3e5:
            continue
        model = mf_class(kind, False)(log_mlow=lo, log_mhigh=hi, power_law_index=idx, draw_poisson=not fixed,
                                      normalization=norm, **p)
        hist_events(rec, kind, p, norm, idx, lo, hi, fixed, model, nd, note=repr((kind, idx, lo, hi, p)))
    for lo, hi in ((8., 8.), (9., 8.)):
        model = mf_class('CDM', False)(lo, hi, -1.9, True, 1e9)
        hist_events(rec, 'CDM', {}, 1e9, -1.9, lo, hi, False, model, 5)
    # delta function and Gaussian: the number of objects per density, volume and mass
    from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
    from pyHalo.Rendering.MassFunctions.gaussian import Gaussian
    for _ in range(8):
        m, vol, n = 10 ** rng.uniform(4, 7), rng.uniform(1e-3, 5), rng.choice([3.3, 40.2, 800.])
        fixed = rng.random() < 0.5
        d = DeltaFunction(m, vol, n * m / vol, not fixed)
        out = [np.asarray(d.draw()) for _ in range(6)]
        allm = np.concatenate(out)
        rec.emit('massfunction', kind='DELTA', fixed=fixed, on=L(d.n_mean), om=L(m), lnorm=0, lin=L(n), lim=L(m), tol=300,
                 hist=[int(np.sum(np.isclose(allm, m, rtol=1e-12)))], outside=int(np.sum(~np.isclose(allm, m, rtol=1e-12))),
                 want=I(6 * n), want1000=I(n, 1000), ndraw=6, expect=[I(6 * n)], ev=[], evwant=[])
        mu, sg = rng.uniform(5, 8), rng.uniform(0.1, 0.6)
        g = Gaussian(n, mu, sg, not fixed)
        x = (np.log10(np.concatenate([np.asarray(g.draw()) for _ in range(6)])) - mu) / sg
        import scipy.stats as st
        edges = [-9, -1.5, -0.5, 0, 0.5, 1.5, 9]
        rec.emit('massfunction', kind='GAUSSIAN', fixed=fixed, on=L(g.n_mean), om=L(g.first_moment), lnorm=0, lin=L(n),
                 lim=L(math.exp(mu * math.log(10) + 0.5 * (sg * math.log(10)) ** 2)), tol=300,
                 hist=[int(v) for v in np.histogram(x, edges)[0]], outside=0, want=I(6 * n), want1000=I(n, 1000), ndraw=6,
                 expect=[I(6 * n * (st.norm.cdf(b) - st.norm.cdf(a))) for a, b in zip(edges[:-1], edges[1:])], ev=[], evwant=[])
    # line of sight: amplitude and slope from Sheth-Tormen in the slice
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Cosmology.geometry import Geometry
    for k in range(8 if tier == 'quick' else 60):
        u = Universe(H0=rng.uniform(64, 74), Om0=rng.uniform(0.25, 0.35), sigma8=rng.uniform(0.75, 0.87))
        cosmo = Cosmology(u.a, u.kwargs())
        zl, zs, cone = 0.5, 1.8, 60.
        geom = Geometry(cosmo, zl, zs, cone, 'DOUBLE_CONE')
        if rng.random() < 0.5:
            Cosmology(cosmo_kwargs=Universe(sigma8=0.6, ns=0.9).kwargs())       # somebody else's
        z = rng.randint(8, 160) / 100.
        kind = rng.choice(KINDS)
        p = turnover(rng, kind)
        lo = round(rng.uniform(6.3, 7.6), 2)
        hi = round(lo + rng.choice([1.5, 2.4]), 2)
        delta = rng.choice([0., -0.1, 0.15])
        f = rng.choice([1., 0.4, 2.2])
        fixed = rng.random() < 0.5
        kw = dict(log_mlow=lo, log_mhigh=hi, m_pivot=10 ** rng.choice([7., 8., 9.]), LOS_normalization=f,
                  delta_power_law_index=delta, draw_poisson=not fixed, **p)
        model = mf_class(kind, True).from_redshift(z, 0.02, geom, dict(kw))
        a, idx = u.sheth_tormen(z, lo, hi, kw['m_pivot'], delta)
        norm = f * a * u.volume('DOUBLE_CONE', zl, zs, cone, z, 0.02)
        hist_events(rec, kind, p, norm, idx, lo, hi, fixed, model, 2, note=repr((kind, z, kw)))
    # dark matter in objects of one mass
    for _ in range(4):
        z = rng.randint(8, 160) / 100.
        frac, m = 10 ** rng.uniform(-3, -1), 10 ** rng.uniform(5, 7)
        d = DeltaFunction.from_redshift(z, 0.02, geom, dict(LOS_normalization=0.5, mass_fraction=frac, mass=m, draw_poisson=True))
        n = 0.5 * frac * u.a.Odm(0.) * u.rho_crit(z) * u.volume('DOUBLE_CONE', zl, zs, cone, z, 0.02) / m
        rec.emit('massfunction', kind='DELTA', fixed=False, on=L(d.n_mean), om=L(m), lnorm=0, lin=L(n), lim=L(m), tol=3000,
                 hist=[0], outside=0, want=0, want1000=0, ndraw=0, expect=[0], ev=[], evwant=[])
    return rec


# -- C13 -------------------------------------------------------------------------
def spatial(tier, seed):
    from pyHalo.Rendering.SpatialDistributions.uniform import Uniform, LensConeUniform
    from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
    from pyHalo.Rendering.SpatialDistributions.correlated import Correlated2D
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Cosmology.geometry import Geometry
    from pyHalo.Halos.lens_cosmo import LensCosmo
    rng = random.Random(seed)
    rec = Recorder()

    def emit(kind, n, x, y, k, rmax, uniform, cx=0., cy=0., r3d=None, q=(), q3=(), r3dmax=0, note=None):
        x, y = np.asarray(x, dtype=float) / k - cx, np.asarray(y, dtype=float) / k - cy
        quad = [int(1 + (a > 0) + 2 * (b > 0)) for a, b in zip(x, y)]
        rec.emit('spatial', _note=note, kind=kind, n=n, r=[I(v, 1e3) for v in np.hypot(x, y)], quad=quad, rmax=I(rmax, 1e3),
                 uniform=uniform, q=[I(v, 1e3) for v in q], has3d=r3d is not None,
                 r3d=[I(v, 1e3) for v in (r3d if r3d is not None else [])], q3=[I(v, 1e3) for v in q3],
                 r3dmax=I(r3dmax, 1e3))
    N = 1500
    for c in range(5 if tier == 'quick' else 40):
        u = Universe() if c == 0 else Universe(H0=rng.uniform(64, 74), Om0=rng.uniform(0.25, 0.35))
        cosmo = Cosmology(u.a, u.kwargs())
        zl = rng.randint(20, 90) / 100.
        zs = round(zl + rng.randint(30, 150) / 100., 2)
        cone = rng.choice([4., 6., 12.])
        lc = LensCosmo(zl, zs, cosmo)
        for type in ('DOUBLE_CONE', 'CYLINDER', 'CONE'):
            geom = Geometry(cosmo, zl, zs, cone, type)
            shared = LensConeUniform(cone, geom)
            zz = [zl, rng.randint(5, int(100 * zl)) / 100., rng.randint(int(100 * zl) + 1, int(100 * zs) - 1) / 100.]
            rng.shuffle(zz)
            for z in zz + zz[:1]:
                d = shared if rng.random() < 0.7 else LensConeUniform(cone, geom)
                n = rng.choice([N, N, 1, 0, 3])
                cx, cy = rng.choice([(0, 0), (1.5, -0.7)])
                x, y = d.draw(n, z) if (cx, cy) == (0, 0) else d.draw(n, z, center_x=cx, center_y=cy)
                emit('LENS_CONE_UNIFORM', n, x, y, u.kpc_per_arcsec(z), 0.5 * cone * u.scale(type, zl, zs, z), True, cx, cy)
        d = Uniform(0.5 * cone, geom)
        for n in (N, 0, N):
            z = rng.randint(5, int(100 * zs)) / 100.
            x, y = d.draw(n, z)
            emit('UNIFORM', n, x, y, u.kpc_per_arcsec(z), 0.5 * cone, True)
        mh, core = 10 ** rng.uniform(12.6, 13.8), rng.choice([0.2, 0.5, 1.0])
        for ch in (rng.uniform(3, 9), None):
            d = ProjectedNFW.from_Mhost(m_host=mh, zlens=zl, rmax2d_arcsec=0.5 * cone, r_core_units_rs=core, lens_cosmo=lc,
                                        **({} if ch is None else {'c_host': ch}))
            n = rng.choice([N, N, 2, 0])
            x, y, r3 = d.draw(n, zl)
            kpa = u.kpc_per_arcsec(zl)
            r200 = u.r200(mh, zl) * 1000
            if ch is None:
                q = q3 = None
                x, y, r3 = x[:50], y[:50], r3[:50]      # the concentration has scatter: only the range is known
                emit('PROJECTEDNFW', len(x), x, y, kpa, 0.5 * cone, False, r3d=r3, q=[0] * 7, q3=[0] * 7, r3dmax=r200)
                continue
            rs = r200 / ch
            rc = core * rs
            rho = lambda r: rs ** 3 / ((rc + r) * (rs + r) ** 2)

            def sigma(R):
                s = np.geomspace(1e-4 * rs, 1e5 * rs, 3000)
                f = rho(np.sqrt(R[:, None] ** 2 + s[None, :] ** 2)) * s
                return np.trapezoid(f, np.log(s), axis=1)
            pr = np.arange(1, 8) / 8.
            q, _ = quantiles(lambda R: R * sigma(R), 5e-4 * cone * kpa, 0.5 * cone * kpa, pr, n=400)
            q3, _ = quantiles(lambda r: r ** 2 * rho(r), 5e-4 * cone * kpa, r200, pr)
            emit('PROJECTEDNFW', n, x, y, kpa, 0.5 * cone, False, r3d=r3, q=q / kpa, q3=q3, r3dmax=r200)
        # samples of a map follow the map
        geom = Geometry(cosmo, zl, zs, cone, 'DOUBLE_CONE')
        for _ in range(2):
            s, rmax = rng.choice([3, 4, 5]), rng.choice([1., 2.5])
            w = np.array([[rng.choice([0, 0, 1, 2, 5]) for _ in range(s)] for _ in range(s)])
            w[rng.randrange(s), rng.randrange(s)] += 3
            sx, sy = rng.choice([(0., 0.), (3.25, -2.5)])
            n = 3000
            x, y = Correlated2D(geom, smooth_scale=1e-4).draw(n, rmax, w.astype(float), zl, shift_x=sx, shift_y=sy)
            k = u.kpc_per_arcsec(zl)
            g = np.linspace(-rmax, rmax, s)
            ix = np.argmin(np.abs(np.asarray(x)[:, None] / k - sx - g[None, :]), axis=1)
            iy = np.argmin(np.abs(np.asarray(y)[:, None] / k - sy - g[None, :]), axis=1)
            counts = [int(np.sum((ix == b) & (iy == a))) for a in range(s) for b in range(s)]
            off = np.max(np.abs(np.asarray(x) / k - sx - g[ix])) > 0.1 * rmax / s
            rec.emit('pixels', counts=counts if not off else [0] * len(counts),
                     weight=[int(w[a, b]) for a in range(s) for b in range(s)], total=int(w.sum()), n=n)
        o, _ = attempt(Correlated2D(geom).draw, 10, 1., np.zeros((3, 3)), zl)
        rec.emit('raise', clause='C13_nothing', outcome='raised' if o != 'ok' else 'ok', want='raised')
    return rec


# -- C05, C09 ----------------------------------------------------------------------
class Config(object):
    """one population: how the code is asked for it, and what the specification needs to know"""

    def __init__(self, rng, k, focus=None):
        """focus: only this class, thousands of halos and no Poisson scatter"""
        from pyHalo.pyhalo import pyHalo
        from pyHalo.Cosmology.geometry import Geometry
        from pyHalo.Rendering.SpatialDistributions.uniform import Uniform, LensConeUniform
        from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
        self.rng = rng
        self.u = Universe() if k % 3 == 0 else Universe(H0=rng.uniform(64, 74), Om0=rng.uniform(0.25, 0.35),
                                                        sigma8=rng.uniform(0.75, 0.87))
        u = self.u
        self.zl = zl = rng.choice([0.5, 0.3, 0.45, 0.8, rng.randint(15, 90) / 100.])
        self.zs = zs = round(zl + rng.randint(30, 150) / 100., 2)
        self.cone = cone = rng.choice([4., 6., 8.])
        self.type = rng.choice(['DOUBLE_CONE', 'DOUBLE_CONE', 'CYLINDER', 'CONE'])
        self.py = pyHalo(zl, zs) if k % 3 == 0 else pyHalo(zl, zs, u.kwargs())
        self.geom = Geometry(self.py.cosmology, zl, zs, cone, self.type)
        self.spacing = rng.choice([None, 0.05, 0.1, 0.025, 0.04])
        step = self.spacing or 0.02
        front = [0.01 + i * step for i in range(1000) if 0.01 + i * step < zl - 1e-9]
        back = [zl + i * step for i in range(1000) if zl + i * step < zs - 1e-9]
        self.z = [round(v, 6) for v in front + back]
        self.dz = [b - a for a, b in zip(self.z, self.z[1:] + [zs])]
        names = ['SUBHALOS', rng.choice(['LINE_OF_SIGHT', 'LINE_OF_SIGHT', 'LINE_OF_SIGHT_NOSHEET']), 'TWO_HALO']
        rng.shuffle(names)
        if rng.random() < 0.4:
            names = names[:rng.choice([1, 2])]
        names = names if focus is None else [focus]
        self.names = names
        self.mf, self.kw, self.sp, self.kwsp, self.law = [], [], [], [], []
        self.fixed = rng.random() < 0.5 or focus is not None
        self.lazar, self.factor = rng.choice([(True, 1.0), (False, 1.0), (True, 2.0), (False, 0.5)])
        self.mhost = 10 ** rng.uniform(12.7, 13.6)
        lo, hi = round(rng.uniform(6.6, 7.5), 2), round(rng.uniform(8.6, 9.6), 2)
        los_kind = rng.choice(KINDS) if focus is None else 'CDM'
        los_p = turnover(rng, los_kind)
        f, delta, pivot = rng.choice([1., 0.6, 1.7]), rng.choice([0., 0., -0.12, 0.1]), 10 ** 8.
        slope = rng.random() < 0.35        # redshift dependent mass ranges
        flo = (lambda z, a=lo: a + 0.2 * z) if slope else lo
        fhi = (lambda z, a=hi: a - 0.1 * z) if slope and rng.random() < 0.5 else hi
        self.lo = lambda z: flo(z) if callable(flo) else flo
        self.hi = lambda z: fhi(z) if callable(fhi) else fhi
        self.fixed_los = self.fixed and los_kind == 'CDM'
        for n in names:
            if n == 'SUBHALOS':
                kind = rng.choice(KINDS) if focus is None else 'CDM'
                p = turnover(rng, kind)
                alpha, dalpha = rng.choice([-1.9, -1.85]), rng.choice([0., 0.05, -0.1])
                k1, k2 = rng.choice([(0.88, 1.7), (0.55, 0.37), (0., 0.)])
                spivot = 10 ** rng.choice([8., 7.5])
                slo, shi = round(rng.uniform(6.5, 7.4), 2), round(rng.uniform(8.6, 10.), 2)
                self.sub_range = (slo, shi)
                kw = dict(log_mlow=slo, log_mhigh=shi, m_pivot=spivot, power_law_index=alpha, delta_power_law_index=dalpha,
                          host_scaling_factor=k1, redshift_scaling_factor=k2, draw_poisson=not self.fixed, **p)
                kw.update({'log_m_host': math.log10(self.mhost)} if rng.random() < 0.5 else {'host_m200': self.mhost})
                kpa = u.kpc_per_arcsec(zl)
                area = np.pi * (0.5 * cone * kpa) ** 2
                idx = alpha + dalpha
                want = rng.choice([25., 60., 120.]) if focus is None else 4000.3
                hostf = (self.mhost / 1e13) ** k1 * (zl + 0.5) ** k2
                per = moment(1., idx, slo, shi, 0, kind, p) * area * spivot ** -(idx + 1)
                if rng.random() < 0.7:
                    kw['sigma_sub'] = sig = want / per / hostf
                    ls, ld = L(sig), ZERO
                    self.subnorm = sig * hostf * area * spivot ** -(idx + 1)
                else:
                    kw['dndA'] = sig = want / per
                    ls, ld = ZERO, L(sig)
                    self.subnorm = sig * area * spivot ** -(idx + 1)
                self.submean = want
                self.fixed_sub = self.fixed and kind == 'CDM'
                h = dict(lr=L(0.5 * cone * kpa), index=I(idx, 1000), lpivot=L(spivot), lsigma=ls, ldnda=ld,
                         lhost=L(self.mhost), k1=I(k1, 1000), k2=I(k2, 1000), lz=L(zl + 0.5))
                self.law.append(dict(kind=n, h=h, idx=idx, mf=kind, p=p))
                self.mf.append(mf_class(kind, False))
                self.kw.append(kw)
                if rng.random() < 0.5:
                    self.nfw = True
                    self.sp.append(ProjectedNFW)
                    self.rsub = rng.choice([0.5 * cone, 0.25 * cone])
                    self.kwsp.append(dict(m_host=self.mhost, zlens=zl, rmax2d_arcsec=self.rsub, r_core_units_rs=0.4,
                                          lens_cosmo=self.py.lens_cosmo))
                else:
                    self.nfw = False
                    self.sp.append(Uniform)
                    self.rsub = rng.choice([0.5 * cone, 0.4 * cone])
                    self.kwsp.append(dict(rmax2d_arcsec=self.rsub, geometry=self.geom))
            else:
                kw = dict(log_mlow=flo, log_mhigh=fhi, m_pivot=pivot, LOS_normalization=f, delta_power_law_index=delta,
                          draw_poisson=not self.fixed, **los_p)
                if n == 'TWO_HALO':
                    kw.update({'log_m_host': math.log10(self.mhost)} if rng.random() < 0.5 else {'host_m200': self.mhost})
                self.law.append(dict(kind='LINE_OF_SIGHT' if n == 'LINE_OF_SIGHT' else n, mf=los_kind, p=los_p, f=f, delta=delta,
                                     pivot=pivot))
                self.mf.append(mf_class(los_kind, True))
                self.kw.append(kw)
                self.sp.append(LensConeUniform)
                self.kwsp.append(dict(cone_opening_angle=cone, geometry=self.geom))
        if 'SUBHALOS' not in names:
            self.sub_range, self.rsub, self.submean, self.nfw, self.fixed_sub = (0, 0), 0, 0, False, False
        self.lcrit = [L(u.sigma_crit(z, zs) * u.area_phys(self.type, zl, zs, cone, z)) for z in self.z]
        self.vol = [sum(u.volume(self.type, zl, zs, cone, a, b - a) for a, b in _cut(z, z + d, zl))
                    for z, d in zip(self.z, self.dz)]
        self.hm = {'truncation_model': world.FixedTruncation(), 'concentration_model': world.FixedConcentration(),
                   'kwargs_density_profile': {}}
        if focus in ('TWO_HALO', 'LINE_OF_SIGHT', 'LINE_OF_SIGHT_NOSHEET'):
            many = (3000. if focus == 'TWO_HALO' else 60. * len(self.z)) / sum(self.means()[0])
            self.law[0]['f'] *= many
            self.kw[0]['LOS_normalization'] *= many
        self.mdefs = rng.choice([('TNFW', 'NFW'), ('NFW', 'TNFW'), ('TNFW', 'TNFW'), ('NFW', 'NFW')])

    def render(self, n):
        kw = dict(two_halo_Lazar_correction=self.lazar, scale_2halo_boost_factor=self.factor, nrealizations=n)
        if self.spacing is not None:
            kw['lens_plane_spacing'] = self.spacing
        return self.py.render(self.names, self.mf, self.kw, self.sp, self.kwsp, self.geom, self.mdefs[0], self.mdefs[1],
                              self.hm, **kw)

    def classes(self, lo=None, hi=None):
        """the specification's view, with the integrals over a range [lo, hi] (numbers or functions of z)"""
        out = []
        g = lambda v, z: v(z) if callable(v) else v
        for law in self.law:
            if law['kind'] == 'SUBHALOS':
                rg = [(g(lo, self.zl), g(hi, self.zl)) if lo is not None else self.sub_range, self.sub_range]
                li = [moment(1., law['idx'], a, b, 1, law['mf'], law['p']) for a, b in rg]
                i = self.z.index(self.zl)
                out.append(dict(kind='SUBHALOS', h=law['h'],
                                planes=[dict(z=micro(self.zl), li=L(li[0]) if li[0] else ZERO, lic=L(li[1]), ls=self.lcrit[i])]))
                continue
            pl = []
            for i, z in enumerate(self.z):
                own = (self.lo(z), self.hi(z))
                rg = [(g(lo, z), g(hi, z)) if lo is not None else own, own]
                d = dict(z=micro(z), ls=self.lcrit[i], lv=L(self.vol[i]), la=0)
                for key, (a, b) in zip(('li', 'lic'), rg):
                    if b > a:
                        am, idx = self.u.sheth_tormen(z, a, b, law['pivot'], law['delta'])
                        d[key] = L(am * moment(1., idx, a, b, 1, law['mf'], law['p']))
                    else:
                        d[key] = ZERO
                pl.append(d)
            out.append(dict(kind=law['kind'], lnorm=L(law['f']), planes=pl))
        return out

    def means(self):
        """expected number of field halos per plane, and classes contributing to it"""
        want, parts = [0.] * len(self.z), [0] * len(self.z)
        il = self.z.index(self.zl)
        for law in self.law:
            if law['kind'] == 'SUBHALOS':
                continue
            where = [il] if law['kind'] == 'TWO_HALO' else range(len(self.z))
            for i in where:
                z = self.z[i]
                am, idx = self.u.sheth_tormen(z, self.lo(z), self.hi(z), law['pivot'], law['delta'])
                boost = self.u.two_halo_boost(z, self.dz[i], self.mhost, self.lazar, self.factor) \
                    if law['kind'] == 'TWO_HALO' else 1.
                want[i] += law['f'] * boost * self.vol[i] * moment(am, idx, self.lo(z), self.hi(z), 0, law['mf'], law['p'])
                parts[i] += 1
        return want, parts


def sheet_obs(real, kwargs, own=False, add=True):
    kw = {}
    if kwargs:
        kw['kwargs_mass_sheet'] = kwargs
    if own:
        kw['use_class_mass_ranges'] = True
    names, zs, kws, _ = real.lensing_quantities(**kw)
    obs = []
    for n, z, k in zip(names, zs, kws):
        if n == 'CONVERGENCE':
            obs.append(dict(z=micro(z), lk=L(abs(k['kappa'])), neg=bool(k['kappa'] < 0), cx=I(k['ra_0'], 1e6),
                            cy=I(k['dec_0'], 1e6)))
    return obs, sum(1 for k in kws if 'kappa' in k)


def sheets(rec, cfg, real):
    rng = cfg.rng
    cases = [dict(), dict(own=True)]
    for _ in range(4):
        c = dict(own=rng.random() < 0.3)
        if rng.random() < 0.6:
            c['kappa_scale'] = rng.choice([0.5, 1.5, 2.0])
        if rng.random() < 0.6:
            c['kappa_scale_subhalos'] = rng.choice([0.25, 0.7, 1.3])
        if rng.random() < 0.5:
            c['log_mlow_sheets'] = rng.choice([6.0, 7.7, 8.0])
        if rng.random() < 0.5:
            c['log_mhigh_sheets'] = rng.choice([9.0, 8.3, 10.5])
        if rng.random() < 0.15:
            c['log_mlow_sheets'] = lambda z: 7.0 + 0.2 * z
        if 'SUBHALOS' not in cfg.names and rng.random() < 0.3:
            c['log_mlow_sheets'], c['log_mhigh_sheets'] = rng.choice([(8.5, 8.5), (9., 8.)])
        if rng.random() < 0.5:
            c['zmin'] = rng.choice([cfg.zl, cfg.z[3], 0.2])
        if rng.random() < 0.5:
            c['zmax'] = rng.choice([cfg.zl, cfg.z[-3], round(0.5 * (cfg.zl + cfg.zs), 3)])
        cases.append(c)
    for c in cases:
        kw = {k: v for k, v in c.items() if k != 'own'}
        own = c.get('own', False)
        lo, hi = c.get('log_mlow_sheets', 7.0), c.get('log_mhigh_sheets', 10.0)
        obs, n = sheet_obs(real, dict(kw), own)
        a = dict(lscale=L(c.get('kappa_scale', 1.)), lscale_sub=L(c.get('kappa_scale_subhalos', 1.)), own=own,
                 zmin=micro(c.get('zmin', 0.)), zmax=micro(c.get('zmax', cfg.zs)))
        rec.emit('sheets', _note=repr((cfg.names, cfg.type, cfg.zl, cfg.zs, c)), classes=cfg.classes(lo, hi), a=a, exact=False,
                 rendered=[], obs=obs, lens=n, tol=8000)
    # the mass that was rendered (subhalos count with the mass that is still bound)
    if 'SUBHALOS' in cfg.names and cfg.mdefs[0] != 'TNFW':
        return
    obs, n = sheet_obs(real, dict(subtract_exact_sheets=True))
    byz = {}
    for h in real.halos:
        byz[h.z] = byz.get(h.z, 0.) + (h.bound_mass if h.is_subhalo and h.z == cfg.zl else h.mass)
    rendered = []
    for z in sorted(byz):
        i = [k for k, v in enumerate(cfg.z) if abs(v - z) < 1e-7]
        rendered.append(dict(z=micro(z), lm=L(byz[z]), ls=cfg.lcrit[i[0]] if i else 0))
    rec.emit('sheets', classes=[], a={}, exact=True, rendered=rendered, obs=obs, lens=n, tol=8000)


def populations(tier, seed):
    rng = random.Random(seed)
    rec = Recorder()
    nreal = 5 if tier == 'quick' else 12
    from pyHalo.pyhalo import pyHalo
    for k in range(8 if tier == 'quick' else 80):
        cfg = Config(rng, k)
        if rng.random() < 0.5:
            pyHalo(0.4, 1.2, Universe(sigma8=0.65, ns=0.9, Om0=0.4).kwargs())     # another lens, another cosmology
        reals = cfg.render(nreal)
        want, parts = cfg.means()
        counts = np.zeros(len(cfg.z))
        sub = 0
        totals = []
        for real in reals:
            z = np.array([h.z for h in real.halos])
            pl = [int(np.argmin(np.abs(np.array(cfg.z) - v))) + 1 if np.min(np.abs(np.array(cfg.z) - v)) < 1e-7 else 0 for v in z]
            isub = [bool(h.is_subhalo) for h in real.halos]
            P = [dict(z=micro(v), lo=L(10 ** cfg.lo(v)), hi=L(10 ** cfg.hi(v)),
                      r=I(0.5 * cfg.cone * cfg.u.scale(cfg.type, cfg.zl, cfg.zs, v), 1e4)) for v in cfg.z]
            rec.emit('population', _note=repr((cfg.names, cfg.type, cfg.zl, cfg.zs)), pl=pl, lm=[L(h.mass) for h in real.halos],
                     r=[I(math.hypot(h.x, h.y), 1e4) for h in real.halos], sub=isub, mdef=[h.mdef for h in real.halos],
                     r3d=[I(h.r3d, 1e3) for h in real.halos], r3dmax=I(1.001e3 * cfg.u.r200(cfg.mhost, cfg.zl), 1e3), nfw=cfg.nfw,
                     planes=P, subclass=dict(lo=L(10 ** cfg.sub_range[0]), hi=L(10 ** cfg.sub_range[1]), r=I(cfg.rsub, 1e4)),
                     zl=micro(cfg.zl), hassub='SUBHALOS' in cfg.names, mdef_sub=cfg.mdefs[0], mdef_field=cfg.mdefs[1])
            for p, s in zip(pl, isub):
                if s:
                    sub += 1
                elif p:
                    counts[p - 1] += 1
            totals.append(sum(1 for s in isub if not s))
        var = np.var(totals, ddof=1) if len(totals) > 1 else 0.
        rec.emit('counts', n=nreal, obs=[int(c) for c in counts], want=[I(w, 1000) for w in want], parts=parts, fixed=cfg.fixed_los,
                 subobs=sub, subwant=I(cfg.submean, 1000), subfixed=cfg.fixed_sub,
                 fano=I(100 * var / max(1e-9, np.mean(totals))) if np.mean(totals) > 0 else 0,
                 varn=nreal * 2 if tier != 'quick' else 0, _note=repr((cfg.names, cfg.type, cfg.zl, cfg.zs, cfg.fixed, cfg.spacing)))
        sheets(rec, cfg, reals[0])
    # one class at a time, many halos and no scatter: the number itself
    for k in range(24 if tier == 'quick' else 240):
        cfg = Config(rng, k, focus=['SUBHALOS', 'TWO_HALO', 'SUBHALOS', 'LINE_OF_SIGHT', 'TWO_HALO', 'LINE_OF_SIGHT_NOSHEET'][k % 6])
        real = cfg.render(1)[0]
        want, parts = cfg.means()
        z, sub = np.array([h.z for h in real.halos]), np.array([h.is_subhalo for h in real.halos])
        counts = [int(np.sum((np.abs(z - v) < 1e-7) & ~sub)) for v in cfg.z]
        rec.emit('counts', n=1, obs=counts, want=[I(w, 1000) for w in want], parts=parts, fixed=True, subobs=int(np.sum(sub)),
                 subwant=I(cfg.submean, 1000), subfixed=True, fano=0, varn=0,
                 _note=repr((cfg.names, cfg.type, cfg.zl, cfg.zs, cfg.spacing, cfg.lazar, cfg.factor, cfg.kw)))
    return rec
