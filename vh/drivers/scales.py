"""Distances, units, ages and small laws of physics in cosmologies made in every way; rays followed through known planes."""
import math
import random
import numpy as np
from vh import tlc
from vh.rec import Recorder, I, L
from vh.drivers.oracle import Universe, ARCSEC

LAMS = (0, 5, 10, 20, 37)


def make(c):
    """the cosmology under test, and the same universe known independently"""
    from pyHalo.Cosmology.cosmology import Cosmology
    from astropy.cosmology import FlatLambdaCDM
    H0, Om0 = float(c['H0']), c['om'] / 1000.
    if c['made'] == 'default':
        return Cosmology(), Universe()
    if c['made'] == 'options':
        return Cosmology(cosmo_kwargs=dict(H0=H0, Om0=Om0)), Universe(H0=H0, Om0=Om0)
    a = FlatLambdaCDM(H0=H0, Om0=Om0, Ob0=0.045)
    if c['made'] == 'astropy':
        return Cosmology(a), Universe(H0=H0, Om0=Om0, Ob0=0.045)
    return Cosmology(a, dict(sigma8=0.77, ns=0.95)), Universe(H0=H0, Om0=Om0, Ob0=0.045, sigma8=0.77, ns=0.95)


def shaped(shape, z, w):
    return {'float': z, 'numpy': np.float64(z), 'list': [z, w], 'array': np.array([z, w])}[shape]


ASK = dict(DA=lambda c, a, w: c.D_A_z(a), DC=lambda c, a, w: c.D_C_z(a), kpc=lambda c, a, w: c.kpc_proper_per_asec(a),
           age=lambda c, a, w: c.halo_age(a, zform=w), DA2=lambda c, a, w: c.D_A(w, a))


def true(u, f, z, w):
    if f == 'DA':
        return L(u.da(z))
    if f == 'DC':
        return L(u.dc(z))
    if f == 'kpc':
        return L(u.kpc_per_arcsec(z))
    if f == 'age':
        return I(1000 * max(0., u.a.age(z).value - u.a.age(w).value))
    return I(1000 * u.da12(w, z))


def calls(rec, c, u, beh):
    first = {}
    for q in beh['calls']:
        z, w = q['z'] / 1000., q['w'] / 1000.
        note = dict(cosmology=beh['cosmo'], call=q)
        f = q['f']
        code = (lambda v: L(v)) if f in ('DA', 'DC', 'kpc') else (lambda v: I(1000 * v))
        try:
            got = ASK[f](c, shaped(q['shape'], z, w), w)
        except Exception as ex:
            rec.emit('refused', _note=dict(note, error=repr(ex)), case='%s(%s) at %d/1000' % (f, q['shape'], q['z']))
            continue
        one = q['shape'] in ('float', 'numpy')
        vals = [got] if one else list(np.ravel(got))
        zs = [q['z']] if one else [q['z'], q['w']]
        key = (f, q['z'], q['w'])
        again = 0
        if one:
            v = float(got)
            again = I(1e9 * abs(v - first.setdefault(key, v)))
        rec.emit('call', _note=note, f=f, shape=q['shape'], zs=zs, got=[code(v) for v in vals],
                 want=[true(u, f, z, w)] + ([] if one else [true(u, f, w, w)]), again=again, scalar=np.ndim(got) == 0)


def forms(u, z):
    return dict(k=L(1000.), h=L(u.h), s=L(u.kpc_per_arcsec(z)), a=L(1 + z))


def lens(rec, c, u, beh, rng):
    from pyHalo.Halos.lens_cosmo import LensCosmo
    zl, zs = beh['lens']['zl'] / 1000., beh['lens']['zs'] / 1000.
    note = dict(cosmology=beh['cosmo'], lens=beh['lens'])
    col = c.colossus
    # a cosmology made from an astropy instance is known to leave colossus with the default background (and nothing else)
    d = Universe().par
    known = beh['cosmo']['made'] in ('astropy', 'both') and all(abs(a - b) < 1e-9 for a, b in
                                                                ((col.H0, d['H0']), (col.Om0, d['Om0']), (col.Ob0, d['Ob0']), (col.sigma8, u.par['sigma8']), (col.ns, u.par['ns'])))
    # the statistics of halos are judged in the cosmology that colossus has: whether that is the right one is for C23_colossus
    u.stat = Universe(H0=col.H0, Om0=col.Om0, Ob0=col.Ob0, sigma8=col.sigma8, ns=col.ns)
    rec.emit('made', _note=note, case='background of an astropy instance' if known else '', h=[I(1e6 * c.h), I(1e6 * u.h)], om=[I(1e6 * c.astropy.Om0), I(1e6 * u.par['Om0'])],
             col=[[I(1e4 * col.H0), I(1e6 * u.par['H0'] / 100)], [I(1e6 * col.Om0), I(1e6 * u.par['Om0'])], [I(1e6 * col.Ob0), I(1e6 * u.par['Ob0'])],
                  [I(1e6 * col.sigma8), I(1e6 * u.par['sigma8'])], [I(1e6 * col.ns), I(1e6 * u.par['ns'])]],
             dens=[[L(c.rho_crit(z)), L(u.rho_crit(z))] for z in (0., zl, zs)],
             dm=[L(c.rho_dark_matter_crit), L(u.rho_crit(0.) * (u.par['Om0'] - u.par['Ob0']))],
             ez=[L(c.E_z(zl)), L(u.a.H(zl).value / u.a.H(0).value)], sf=[L(c.scale_factor(zl)), -L(1 + zl)], ct=[L(c.D_C_transverse(zs)), L(u.dc(zs))])
    l = LensCosmo(zl, zs, c)
    rec.emit('lens', _note=note, zl=beh['lens']['zl'], zs=beh['lens']['zs'], sig=[L(l.sigma_crit_lensing), L(l.sigma_crit_lens_kpc), L(l.sigmacrit)], g=forms(u, zl),
             d=[L(l.D_d), L(l.D_s), L(l.D_ds)], want=[L(u.da(zl)), L(u.da(zs)), L(u.da12(zl, zs))], h=[I(1e6 * l.h), I(1e6 * u.h)])
    where = [zl] + [round(rng.uniform(0.021, zs - 0.02), 3) for _ in range(3)] if zs > 0.06 else [zl]
    for z in where:
        if not z < zs:
            continue
        area, sig = 10 ** rng.uniform(-5, -1), 10 ** rng.uniform(0.5, 2.6)
        seen = 0.06 < z < zs - 0.12 and z < np.arange(0.02, zs, 0.02)[-1] - 0.02
        rec.emit('deflector', _note=dict(note, z=z), g=forms(u, z), d=[L(u.da(z)), L(u.da(zs)), L(u.da12(z, zs))], area=L(area), v=L(sig),
                 sig=L(l.get_sigma_crit_lensing(z, zs)), mass=L(l.sigma_crit_mass(z, area)), pm=L(l.point_mass_factor_z(z)), sis=L(l.thetaE_from_sigma(z, sig)),
                 inter=L(l.sigma_crit_arcsecond_interp(z)) if seen else 0, seen=bool(seen))
        halo(rec, c, u, l, z, zs, rng, note)
    small(rec, c, u, l, rng, note)


def halo(rec, c, u, l, z, zs, rng, note):
    m, cc, pseudo, scale, N = 10 ** rng.uniform(5.5, 13.5), 10 ** rng.uniform(0.2, 1.9), rng.random() < 0.4, rng.choice([0.5, 1., 1., 2.5]), rng.choice([50., 200., 200., 500.])
    note = dict(note, z=z, m=m, c=cc, pseudo=pseudo, scale=scale, N=N)
    rho, rs, r200 = l.nfwParam_physical(m, cc, z, pseudo)
    kpc = l.NFW_params_physical(m, cc, z, pseudo)
    th, al = l.nfw_physical2angle(m, cc, z, pseudo)
    th2, al2 = l.nfw_physical2angle_fromNFWparams(rho, rs, z, pseudo)
    mz = l.NFW_params_physical_fromMZ(m, z, scale_concentration=scale, pseudo_nfw=pseudo)
    mu = 0.5 * math.log(1 + cc ** 2) if pseudo else math.log(1 + cc) - cc / (1 + cc)
    with u.stat.colossus():
        from colossus.halo.concentration import concentration
        med = float(concentration(m * u.h, '200c', z, model='diemer19'))
    cz = mz[2] / mz[1]
    muz = 0.5 * math.log(1 + cz ** 2) if pseudo else math.log(1 + cz) - cz / (1 + cz)
    rec.emit('halo', _note=note, g=forms(u, z), m=L(m), c=L(cc), mu=L(mu), pseudo=pseudo, rc=L(u.rho_crit(z)), rho=L(rho), rs=L(rs), r200=L(r200),
             kpc=[L(v) for v in kpc], th=L(th), al=L(al), again=[L(th2), L(al2)], d=[L(u.da(z)), L(u.da(zs)), L(u.da12(z, zs))],
             n=L(N), rn=L(l.rN_M(m * u.h, z, N)), cz=L(cz), med=L(max(med, 1.2)), scale=L(scale), mz=[L(v) for v in mz], muz=L(muz))


def small(rec, c, u, l, rng, note):
    from colossus.lss.bias import twoHaloTerm
    mhm = 10 ** rng.uniform(5, 11)
    mth = l.halfmode_to_thermal(mhm)
    rec.emit('dm', _note=dict(note, mhm=mhm), mhm=L(mhm), mth=L(mth), back=L(np.squeeze(l.mthermal_to_halfmode(mth))), om=L(u.par['Om0'] / 0.25), h=L(u.h / 0.7),
             rc=L(u.rho_crit(0.)), fsl=L(l.mhm_to_fsl(mhm)))
    rhos, rs, sig, m, cc, z = 10 ** rng.uniform(5, 9), 10 ** rng.uniform(-1.5, 2), 10 ** rng.uniform(-1, 3), 10 ** rng.uniform(6, 14), rng.uniform(2, 40), l.z_lens
    kpc = l.NFW_params_physical(m, cc, z)
    rec.emit('sidm', _note=note, rho=L(rhos), rs=L(rs), x=L(sig), tc=L(l.sidm_collapse_timescale(rhos, rs, sig)), vmax=L(l.nfw_vmax(rhos, rs)),
             mfp=L(l.mean_free_path(rhos, sig)), tdyn=L(l.halo_dynamical_time(m, z, cc)), k=[L(v) for v in kpc])
    for _ in range(4):
        z, zf, lam = rng.choice([0.2, 0.5, 1.3, 3.]), rng.choice([8., 10., 10., 15.]), rng.choice(LAMS)
        zi = rng.choice([0.5, 1.0, 2.4, 7., 9.5, 12., 18.])
        rec.emit('age', _note=dict(note, z=z, zi=zi, zf=zf, lam=lam / 10.), zs=[int(round(10 * v)) for v in (z, zi, zf)], lam=lam,
                 t=[I(1000 * u.a.age(v).value) for v in (z, zi, zf)], got=I(10000 * l.sidm_halo_effective_age(z, zi, lam / 10., zform=zf)))
    m, r = 10 ** rng.uniform(12.3, 14), rng.uniform(0.4, 12.)
    z = min(l.z_lens, 1.7)
    lo, hi = 0.5, rng.choice([3., 10.])
    with u.stat.colossus() as col:
        f = lambda x: float(twoHaloTerm(x * u.h, m * u.h, z, mdef='200c') / col.rho_m(z))
        want = f(r)
        x, w = np.polynomial.legendre.leggauss(24)
        x = math.sqrt(lo * hi) * (hi / lo) ** (x / 2)
        mean = sum(wi * f(xi) * xi for wi, xi in zip(w, x)) * math.log(hi / lo) / 2 / (hi - lo)
    rec.emit('boost', _note=dict(note, m=m, r=r, z=z, hi=hi), term=[L(float(l.twohaloterm(r, m, z))), L(want)], boost=[L(l.two_halo_boost(m, z, lo, hi)), L(1 + 2 * mean)])
    none = type(l)(l.z_lens, l.z_source, c, infall_redshift_model=None)
    try:
        none.z_accreted_from_zlens(1e8)
        refused = False
    except Exception:
        refused = True
    rec.emit('infall', _note=note, refused=refused)


def values(tier, seed):
    n = 6 if tier == 'quick' else 40
    rec = Recorder()
    for i, beh in enumerate(tlc.simulate('ScalesGen', 'ScalesGen', n, 90, seed)):
        rng = random.Random(seed * 1000 + i)
        c, u = make(beh['cosmo'])
        calls(rec, c, u, beh)
        lens(rec, c, u, beh, rng)
        calls(rec, c, u, beh)
    return rec


class Bender(object):
    """a lens model with planes that turn every ray by a known angle"""

    def __init__(self, u, planes, as_array):
        self.u, self.planes = u, planes                      # (z, alpha_x, alpha_y) in the units of the image angle
        zs = [p[0] for p in planes]
        self.redshift_list = np.array(zs) if as_array else zs
        self.lens_model = self
        self.seen = []

    def ray_shooting_partial_comoving(self, x, y, alpha_x, alpha_y, z_start, z_stop, kwargs_lens, *a, **k):
        self.seen.append((kwargs_lens, z_start, z_stop))
        at = self.u.dc(z_start)
        for z, ax, ay in sorted(self.planes):
            if z_start < z <= z_stop:
                d = self.u.dc(z)
                x, y, at = x + alpha_x * (d - at), y + alpha_y * (d - at), d
                alpha_x, alpha_y = alpha_x - ax, alpha_y - ay
        d = self.u.dc(z_stop)
        return x + alpha_x * (d - at), y + alpha_y * (d - at), alpha_x, alpha_y


def rays(rec, c, u, beh, rng):
    from pyHalo.utilities import interpolate_ray_paths, compute_comoving_ray_path
    le = beh['lens']
    zs = le['zs'] / 1000.
    zs = min(zs + 0.5 if zs < 0.5 else zs, 3.)
    xs, ys = [r['x'] / 1000. for r in beh['rays']], [r['y'] / 1000. for r in beh['rays']]
    # planes where the paths are sampled densely enough to be followed
    planes = [(round(z, 3), rng.choice([-1.1, 0.3, 0.9]), rng.choice([-0.7, 0.2, 1.2])) for z in sorted(rng.uniform(0.25, zs - 0.02) for _ in range(le['planes']))]
    src = (rng.choice([-0.3, 0.05, 0.4]), rng.choice([-0.2, 0.1]))
    note = dict(cosmology=beh['cosmo'], lens=le, rays=beh['rays'], planes=planes, zs=zs)
    kw = dict(terminate_at_source=True, source_x=src[0], source_y=src[1]) if le['stop'] else {}
    kwl = ['kwargs of the lens']
    shuffled = list(planes)
    rng.shuffle(shuffled)
    model = Bender(u, shuffled, le['arr'])
    try:
        fx, fy = interpolate_ray_paths(xs, ys, model, kwl, zs, evaluate_at_mean=le['mean'], cosmo=c, **kw)
        paths = [compute_comoving_ray_path(x, y, Bender(u, shuffled, le['arr']), kwl, zs, cosmo=c, **kw) for x, y in zip(xs, ys)]
    except Exception as ex:
        rec.emit('refused', _note=dict(note, error=repr(ex)), case='ray paths')
        return
    ds = [u.dc(zs) * k / 12. for k in range(13)] + [u.dc(0.02), u.dc(0.045)] + [u.dc(p[0]) for p in planes]
    ds = sorted(d for d in ds if d <= u.dc(zs))
    mil = lambda v: I(1000 * v)
    ps = lambda k: [dict(d=I(u.dc(p[0])), al=mil(p[k])) for p in planes]
    rec.emit('rays', _note=note, n=[len(fx), len(fy), len(xs)], mean=le['mean'], stop=le['stop'], src=[mil(src[0]), mil(src[1])], ds=[I(d) for d in ds], last=I(u.dc(zs)),
             x0=[mil(v) for v in xs], y0=[mil(v) for v in ys], px=ps(1), py=ps(2), kw=all(s[0] is kwl for s in model.seen),
             ax=[[mil(f(min(d, f.x[-1]))) for d in ds] for f in fx], ay=[[mil(f(min(d, f.x[-1]))) for d in ds] for f in fy],
             ends=[[I(f.x[0]), I(f.x[-1])] for f in list(fx) + list(fy)],
             path=[dict(d=[I(v) for v in p[2]], x=[I(v) for v in p[0]], y=[I(v) for v in p[1]]) for p in paths])


def bins(samples, edges):
    return [int(v) for v in np.histogram(samples, edges)[0]]


def sampling(rec, rng, seed):
    from pyHalo import utilities as ut
    np.random.seed(seed)
    n = 20000
    dists = dict(ramp=(lambda x, a: x ** a, 0., 1., lambda q, a: q ** (1. / (a + 1))), exp=(lambda x, a: np.exp(-a * x), 0., 3., lambda q, a: -np.log(1 - q * (1 - np.exp(-3 * a))) / a),
                 flat=(lambda x, a: np.ones_like(x) * a, -2., 5., lambda q, a: -2 + 7 * q))
    for name, (shape, lo, hi, quant) in dists.items():
        amp = rng.choice([0.02, 1., 40.])
        pdf = lambda x, a: amp * shape(x, a)
        a = rng.choice([0.7, 1.5, 2.2])
        qs = np.linspace(0, 1, 9)
        edges = quant(qs, a)
        edges[0], edges[-1] = lo - 1e-6, hi + 1e-6
        x = np.linspace(lo, hi, 4001)
        truth = quant(np.random.uniform(0, 1, 200000), a)
        cdf = np.cumsum(pdf(x, a)) * rng.choice([1., 7.3])
        s1 = ut.inverse_transform_sampling(x, pdf, (a,), n)
        s2 = ut.inverse_transform_sampling_from_cdf(x, cdf, n)
        it = ut.ITSampling(x, cdf)
        s3 = it(n)
        fs = ut.ITSampling.from_samples(truth)
        s4 = fs(n)
        one = it(1)
        # a histogram of 150 bins resolves the quantiles to two bins
        w = (hi - lo) / 75.
        tol = [max(float(np.mean(truth < e + w)) - float(np.mean(truth < e)), float(np.mean(truth < e)) - float(np.mean(truth < e - w))) for e in edges[1:-1]]
        rec.emit('samples', _note=dict(dist=name, a=a), n=n, counts=[bins(s1, edges), bins(s2, edges), bins(s3, edges)],
                 cum=[int(np.sum(s4 < e)) for e in edges[1:-1]], slack=[I(n * t) for t in tol],
                 one=isinstance(one, float) and lo <= one <= hi, inside=bool(min(s.min() for s in (s1, s2, s3, s4)) >= lo - 1e-9 and max(s.max() for s in (s1, s2, s3, s4)) <= hi + 1e-9))


def waves(rec, c, u, beh, rng):
    from pyHalo import utilities as ut
    from scipy.integrate import quad
    lm, v, low, z = rng.uniform(-23, -19), 10 ** rng.uniform(1, 2.8), rng.uniform(5, 9), rng.choice([0., 0.3, 1., 2.7, 6.])
    f = ut.MinHaloMassULDM(lm, c.astropy, low)
    om = lambda zz: u.par['Om0'] * (1 + zz) ** 3 / (u.par['Om0'] * (1 + zz) ** 3 + 1 - u.par['Om0'])
    zeta = lambda o: (18 * math.pi ** 2 + 82 * (o - 1) - 39 * (o - 1) ** 2) / o
    note = dict(cosmology=beh['cosmo'], lm=lm, v=v, low=low, z=z)
    rho, rs, cc = 10 ** rng.uniform(5, 8), 10 ** rng.uniform(0, 2), rng.uniform(4, 25)
    r = rs * rng.choice([0.05, 0.3, 1.]) * rng.uniform(0.8, 1.2)
    sq = lambda rr: (rho / ((rr / rs) * (1 + rr / rs) ** 2)) ** 2
    zmax = math.sqrt((cc * rs) ** 2 - r * r)
    want = 2 * quad(lambda t: sq(math.sqrt(r * r + t * t)), 0, zmax, points=[r], limit=200)[0]
    x0 = rng.choice([0.5, 1., 2.])
    m = lambda x: math.log(1 + x) - x / (1 + x)
    jeans = 4 * math.pi * 4.30091e-6 * rho * rs ** 2 * x0 * (1 + x0) ** 2 * quad(lambda x: m(x) / (x ** 3 * (1 + x) ** 2), x0, cc)[0]
    rec.emit('waves', _note=note, m=L(10 ** (lm + 22)), v=L(v / 100.), lam=L(ut.de_broglie_wavelength(lm, v)), a=L(1 + z), ratio=L(zeta(om(z)) / zeta(om(0.))),
             mmin=L(f.m_min(z)), floor=[I(1e5 * f(z)), I(1e5 * low), I(1e5 * math.log10(f.m_min(z)))], sq=[L(ut.projected_density_squared(r, rho, rs, cc)), L(want)],
             jeans=[L(ut.nfw_velocity_dispersion(rho, rs, cc, x0)), L(math.sqrt(jeans))])
    # fluctuations are those of the default cosmology
    d = Universe()
    zl, zs, mh, rein, lam = rng.choice([0.2, 0.5, 0.9]), rng.choice([1.5, 3.0]), 10 ** rng.uniform(12.5, 13.8), rng.uniform(2., 9.), 10 ** rng.uniform(-3, 0)
    with d.colossus():
        from colossus.halo.concentration import concentration
        con = float(concentration(mh * d.h, '200c', zl, model='diemer19'))
    r200 = d.r200(mh, zl) * 1000
    rs = r200 / con
    rho = mh / (4 * math.pi * rs ** 3 * m(con))
    I2 = 2 * quad(lambda t: sq(math.sqrt(rein * rein + t * t)), 0, math.sqrt(r200 ** 2 - rein ** 2), points=[rein, rs], limit=400)[0]
    ds, dk = ut.delta_sigma(mh, zl, rein, lam), ut.delta_kappa(zl, zs, mh, rein, lam)
    rec.emit('fluctuation', _note=dict(zl=zl, zs=zs, mh=mh, rein=rein, lam=lam), i2=L(I2), lam=L(lam), ds=L(ds), dk=L(dk), sig=L(d.sigma_crit(zl, zs) * 1e-6))


def masks(rec, rng):
    from pyHalo.utilities import mask_annular
    n = 9
    g = np.arange(n) - 4
    xx, yy = np.meshgrid(g, g)
    for _ in range(3):
        cx, cy, lo, hi = rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(0, 3), rng.choice([None, 4, 5])
        got = mask_annular(cx, cy, xx.astype(float), yy.astype(float), float(lo), None if hi is None else float(hi))
        rec.emit('mask', _note=dict(cx=cx, cy=cy, lo=lo, hi=hi), x=xx.ravel().tolist(), y=yy.ravel().tolist(), c=[cx, cy], lo=lo, hi=-1 if hi is None else hi,
                 got=[int(v) for v in got.ravel()], values=bool(set(np.unique(got)) <= {0., 1.} and got.shape == xx.shape))


def convergence(rec, c, u, rng, seed):
    from pyHalo.preset_models import preset_model_from_name
    from pyHalo.utilities import multiplane_convergence
    from lenstronomy.LensModel.lens_model import LensModel
    np.random.seed(seed)
    r = preset_model_from_name('CDM')(0.5, 1.5, sigma_sub=0.02, log_mlow=8., log_mhigh=9.5, LOS_normalization=0.4, cone_opening_angle_arcsec=4.)
    lml, zz, kw, _ = r.lensing_quantities()
    win, npix = rng.choice([2., 3.]), rng.choice([7, 10])
    own = rng.random() < 0.5
    args = dict(lens_model_list_macro=['SIS'], kwargs_lens_macro=[dict(theta_E=1., center_x=0., center_y=0.)], redshift_list_macro=[0.5]) if own else {}
    dk, model, kwall, macro, kwm = multiplane_convergence(r, win, npix, **args)
    t = np.linspace(-win / 2, win / 2, npix)
    xx, yy = np.meshgrid(t, t)
    want = LensModel(lml).kappa(xx.ravel(), yy.ravel(), kw).reshape(npix, npix) if len(lml) else np.zeros((npix, npix))
    nm = len(kwm)
    rec.emit('kappa', _note=dict(win=win, npix=npix, own=own), shape=list(np.shape(dk)), npix=npix, off=I(1e6 * np.max(np.abs(dk - want))), scale=I(1e6 * np.max(np.abs(want))),
             lists=[len(model.lens_model_list), len(model.redshift_list), len(kwall), nm + len(lml)], macro=len(macro.lens_model_list) == nm == (1 if own else 2),
             halos=[I(1e5 * v) for v in model.redshift_list[nm:]] == [I(1e5 * v) for v in zz] and list(model.lens_model_list[nm:]) == list(lml),
             planes=[I(1e5 * v) for v in model.redshift_list[:nm]], source=I(1e5 * model.z_source), multi=bool(model.multi_plane), own=own)


def utilities(tier, seed):
    n = 10 if tier == 'quick' else 60
    rec = Recorder()
    for i, beh in enumerate(tlc.simulate('ScalesGen', 'ScalesGen', n, 90, seed + 500)):
        rng = random.Random(seed * 1000 + i)
        c, u = make(beh['cosmo'])
        for mean, stop in ((False, False), (True, False), (False, True), (True, True)):
            rays(rec, c, u, dict(beh, lens=dict(beh['lens'], mean=mean, stop=stop)), rng)
        waves(rec, c, u, beh, rng)
        masks(rec, rng)
        if i % 3 == 0:
            sampling(rec, rng, seed * 100 + i)
            convergence(rec, c, u, rng, seed * 100 + i)
    return rec
