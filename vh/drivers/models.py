"""Concentration, truncation and infall models, and the functions that find models by name."""
import copy
import json
import os
import subprocess
import numpy as np
from scipy.integrate import quad
from scipy.interpolate import RegularGridInterpolator
from vh.rec import Recorder, I, L, Interner, attempt
from vh.drivers.oracle import Universe

UNIVERSES = [dict(H0=67.5, Om0=0.309, Ob0=0.049, sigma8=0.81, ns=0.965), dict(H0=72., Om0=0.26, Ob0=0.044, sigma8=0.86, ns=0.95),
             dict(H0=64., Om0=0.34, Ob0=0.05, sigma8=0.76, ns=0.98)]
T3 = 1000.


def E6(x):
    return I(x, 1e6)


def begin(par):
    """a cosmology for the code under test, and the same one for the oracle"""
    from pyHalo.Cosmology.cosmology import Cosmology
    u = Universe(**par)
    return u, Cosmology(u.a, u.kwargs())


# -- C16 ---------------------------------------------------------------------------------

class Relation(object):
    """one concentration model, the parameters it was made with, and what it needs to know about a halo"""
    serial = 0

    def __init__(self, rec, rng, u, name, wide=0.5):
        from pyHalo.concentration_models import preset_concentration_models
        from pyHalo.Halos import concentration as cc
        Relation.serial += 1
        self.i, self.name, self.u, self.rec = Relation.serial, name, u, rec
        kw = {}
        sigma = 0.2
        if rng.rand() < 0.75:
            kw['scatter'] = bool(rng.rand() < 0.4)
            if rng.rand() < 0.6:
                kw['scatter_dex'] = sigma = float(rng.choice([0.05, 0.12, 0.3]))
        sigma = sigma if kw.get('scatter', True) else 0.
        self.par, self.sup, self.base, self.model, self.mdef, self.pivot = {}, {}, 'TABLE', 'diemer19', '200c', 1e8
        self.bins = None
        self.tol = 400
        self.wide = rng.rand() < wide
        if name in ('DIEMERJOYCE19', 'LUDLOW2016'):
            self.model = 'diemer19' if name[0] == 'D' else 'ludlow16'
            if rng.rand() < 0.1 + 0.5 * wide:
                kw['mdef'] = self.mdef = str(rng.choice(['vir', '200c', '500c']))
            if rng.rand() < 0.3:
                kw['use_interpolation_table'] = False
                self.tol = 20
        elif name == 'CONSTANT':
            kw, sigma = {'c': float(rng.uniform(1.05, 30))}, 0.
            self.base, self.par = 'CONST', {'lc0': L(kw['c'])}
        elif name in ('PEAK_HEIGHT_POWERLAW', 'BINNED_HALO_MASS'):
            self.tol = 60
            ev = rng.choice(['PEAK_HEIGHT', 'RHO_CRIT', ''])
            if ev:
                kw['redshift_evolution'] = str(ev)
            if name[0] == 'P':
                self.base = 'PEAK'
                c0, zeta, beta = round(rng.uniform(3, 40), 2), round(rng.uniform(-1, 0.4), 3), round(rng.uniform(0, 2.5), 3)
                kw.update(c0=c0, zeta=zeta, beta=beta)
                if rng.rand() < 0.4:
                    kw['m_pivot'] = self.pivot = float(rng.choice([1e7, 3e9]))
                self.par = dict(lc0=L(c0), beta=I(beta, T3), zeta=I(zeta, T3), evol=str(ev) or 'PEAK_HEIGHT')
            else:
                self.base = 'BINNED'
                n = rng.randint(1, 5)
                edges = [float(e) for e in np.cumsum(np.concatenate([[6.5], rng.choice([0.5, 1., 1.3], n)]))]
                self.bins = list(zip(edges[:-1], edges[1:]))
                c0, zeta, beta = [[round(v, 3) for v in rng.uniform(a, b, n)] for a, b in ((3, 40), (-0.9, 0.4), (0, 2.5))]
                kw.update(log10_mass_bins=[[a, b] for a, b in self.bins], normalization_list=c0, beta_list=beta, zeta_list=zeta)
                self.par = dict(bins=[dict(lo=L(10 ** a), hi=L(10 ** b), lc0=L(c), beta=I(e, T3), zeta=I(g, T3))
                                      for (a, b), c, g, e in zip(self.bins, c0, zeta, beta)], evol=str(ev) or 'RHO_CRIT')
        else:
            lm = round(rng.uniform(6, 9), 2)
            kw['log_mc'] = lm
            self.sup = {'lmhm': L(10 ** lm)}
            if name in ('WDM_POLYNOMIAL', 'WDM_HYPERBOLIC', 'FROM_FORMATION_HISTORY'):
                ludlow = rng.rand() < 0.3 * wide + 0.1
                kw['concentration_cdm_class'] = cc.ConcentrationLudlow if ludlow else cc.ConcentrationDiemerJoyce
                self.model = 'ludlow16' if ludlow else 'diemer19'
                if rng.rand() < 0.4:
                    kw['kwargs_cdm'] = {}
                    if rng.rand() < 0.6:
                        kw['kwargs_cdm'] = {'scatter': bool(rng.rand() < 0.5), 'scatter_dex': 0.1}
                        sigma = 0.1 if kw['kwargs_cdm']['scatter'] else 0.
            if name == 'WDM_POLYNOMIAL':
                s, p, q = round(float(rng.choice([0, 1., 60., 15.])), 2), round(rng.uniform(-0.6, 0), 3), round(rng.uniform(0.6, 2), 3)
                kw.update(c_scale=s, c_power=p, c_power_inner=q)
                ev = bool(rng.rand() < 0.5)
                if ev is False or rng.rand() < 0.5:
                    kw['mc_suppression_redshift_evolution'] = ev
                self.sup.update(lscale=L(s), inner=I(q, T3), power=I(p, T3), zevol=ev)
            if name == 'WDM_HYPERBOLIC':
                a, b = round(rng.uniform(-1, 1), 3), round(rng.uniform(0.2, 1.2), 3)
                kw.update(a=a, b=b)
                self.sup.update(a6=E6(a), b6=E6(b))
            if name == 'FROM_FORMATION_HISTORY':
                d = round(rng.uniform(0.8, 3.5), 3)
                kw['dlogT_dlogk'] = d
                self.sup.update(ld=L(d), lld=L(abs(np.log(d + 0.6))))
            if name == 'LUDLOW_WDM':
                d = -float(rng.choice([round(rng.uniform(1., 4.), 3), 2.7, 0.4, 5.]))
                kw['dlogT_dlogk'] = d
                if rng.rand() < 0.3:
                    kw['log_mc'] = lm = float(rng.choice([5.5, 7., 8.6]))
                self.sup.update(slope=I(d, T3), mhm3=I(lm, T3), lmhm=L(10 ** lm))
            if name in ('LUDLOW_WDM', 'BOSE2016_LUDLOW'):
                self.model = 'ludlow16'
            self.tol = 600
        cls, out = preset_concentration_models(name, kw)
        self.kw = kw
        self.obj = cls(u.a, **out)
        self.sigma = sigma
        rec.emit('cnew', i=self.i, name=name, base=self.base, par=self.par, sup=self.sup, sigma=I(sigma, T3))

    def q(self, m, z):
        from colossus.halo.concentration import concentration
        from colossus.lss import peaks
        u = self.u
        q = dict(lm=L(m), lcol=0, lnu=0, lnup=0, lnu0=0, lrho=L(u.rho_crit(z) / u.rho_crit(0)), lz1=L(1 + z), z3=I(z, T3))
        with u.colossus():
            if self.base == 'TABLE':
                q['lcol'] = L(concentration(m * u.h, self.mdef, z, model=self.model))
            elif self.base != 'CONST':
                q['lnu'], q['lnup'], q['lnu0'] = [L(peaks.peakHeight(x * u.h, y)) for x, y in ((m, z), (self.pivot, z), (m, 0.))]
        return q

    def masses(self, rng):
        lo, hi = ((5, 13) if self.wide else (5.1, 11.4)) if self.bins is None else (self.bins[0][0] - 0.7, self.bins[-1][1] + 0.7)
        m = float(10 ** rng.uniform(lo, hi))
        return int(m) if rng.rand() < 0.1 else m

    def redshift(self, rng):
        return float(rng.choice([0., 0.5, round(rng.uniform(0, 3), 3), round(rng.uniform(3, 11 if self.wide else 10), 3)]))

    def read(self, rng):
        m, z = self.masses(rng), self.redshift(rng)
        quiet = isinstance_cdm(self) and rng.rand() < 0.5
        kw = {'force_no_scatter': True} if quiet else {}
        note = '%s(%s) at m=%r z=%g' % (self.name, self.kw, m, z)
        if rng.rand() < 0.3:
            ms = [self.masses(rng) for _ in range(3)]
            if self.bins is not None:
                ms = [float(np.clip(x, 10 ** self.bins[0][0] * 1.001, 10 ** self.bins[-1][1] * 0.999)) for x in ms]
            ms = [float(x) for x in ms]
            o, v = attempt(self.obj.nfw_concentration, np.array(ms), z, **kw)
            vs = [v] * 3 if np.ndim(v) == 0 else list(v)
            for mi, vi in zip(ms, vs if o == 'ok' else [1.] * 3):
                self.rec.emit('cval', _note=note + ' in %s' % ms, i=self.i, ok=o == 'ok', quiet=quiet, obs=[L(vi)], q=self.q(mi, z), tol=self.tol)
        else:
            o, v = attempt(self.obj.nfw_concentration, m, z, **kw)
            self.rec.emit('cval', _note=note, i=self.i, ok=o == 'ok', quiet=quiet, obs=[L(v)] if o == 'ok' else [], q=self.q(m, z), tol=self.tol)

    def scatter(self, rng, n):
        for _ in range(20):
            m, z = (10 ** rng.uniform(9, 11), self.redshift(rng))
            if self.bins is not None:
                m = 10 ** rng.uniform(self.bins[0][0] + .01, self.bins[-1][1] - .01)
            m = float(m)
            one = rng.rand() < 0.5
            c = np.array([self.obj.nfw_concentration(m, z) for _ in range(n)]) if one else self.obj.nfw_concentration(np.full(n, m), z)
            med = np.median(c)
            if med > 1.2 * np.exp(3.5 * self.sigma):
                ts = [med * np.exp(k * self.sigma) for k in (-1.5, -0.7, 0, 0.7, 1.5)]
                self.rec.emit('cscat', _note='%s(%s) m=%g z=%g' % (self.name, self.kw, m, z), i=self.i, q=self.q(m, z), n=n,
                              t=[L(t) for t in ts], below=[int(np.sum(c < t)) for t in ts])
                return


def isinstance_cdm(r):
    return r.base in ('TABLE', 'PEAK', 'BINNED') and not r.sup


RELATIONS = ['DIEMERJOYCE19', 'LUDLOW2016', 'PEAK_HEIGHT_POWERLAW', 'BINNED_HALO_MASS', 'WDM_POLYNOMIAL', 'WDM_HYPERBOLIC',
             'BOSE2016', 'BOSE2016_LUDLOW', 'LAROCHE2022', 'LUDLOW_WDM', 'FROM_FORMATION_HISTORY', 'CONSTANT']


def concentrations(tier, seed):
    rng = np.random.RandomState(seed + 160)
    traces = []
    for par in UNIVERSES[:2 if tier == 'quick' else 3]:
        u, cosmo = begin(par)
        rec = Recorder()
        # a table of the Ludlow relation takes seconds to build, and is built again for masses outside it
        names = list(RELATIONS) * (2 if tier == 'quick' else 12)
        if tier == 'quick':
            for n in ('LUDLOW2016', 'BOSE2016_LUDLOW', 'LUDLOW_WDM'):
                names = [x for x in names if x != n] + [n]
        rng.shuffle(names)
        alive = []
        for name in names:
            alive.append(Relation(rec, rng, u, name, 0.2 if tier == 'quick' else 0.6))
            for r in [alive[-1]] + [alive[rng.randint(len(alive))] for _ in range(2)]:
                for _ in range(3):
                    r.read(rng)
        seen = {}
        for r in alive:
            if r.sigma > 0 and seen.setdefault(r.name, 0) < (1 if tier == 'quick' else 3):
                seen[r.name] += 1
                r.scatter(rng, 2500 if tier == 'quick' else 6000)
        builds(rec, u)
        traces.append(rec)
    return traces


def builds(rec, u):
    from pyHalo.Halos import concentration as cc
    dj = cc.ConcentrationDiemerJoyce
    for cls, kw, bad in [
            (cc.ConcentrationWDMPolynomial, dict(concentration_cdm_class=dj, log_mc=7., c_power=0.1), True),
            (cc.ConcentrationWDMPolynomial, dict(concentration_cdm_class=dj, log_mc=7., c_scale=-1.), True),
            (cc.ConcentrationWDMPolynomial, dict(concentration_cdm_class=dj, log_mc=7., c_scale=0., c_power=0.), False),
            (cc.ConcentrationLudlowWDM, dict(log_mc=7., dlogT_dlogk=0.3), True),
            (cc.ConcentrationLudlowWDM, dict(log_mc=7., dlogT_dlogk=-0.3), False),
            (cc.ConcentrationPeakHeight, dict(c0=12., zeta=-0.2, beta=0.8, redshift_evolution='NOPE'), True),
            (cc.ConcentrationPeakHeight, dict(c0=12., zeta=-0.2, beta=0.8, redshift_evolution='RHO_CRIT'), False)]:
        o, _ = attempt(cls, u.a, **kw)
        rec.emit('cbuild', _note='%s %s' % (cls.__name__, {k: v for k, v in kw.items() if k[0] != 'c' or k == 'c0'}), ok=o == 'ok', unphysical=bad)


# -- C17 -----------------------------------------------------------------------------------

class Fixed(object):
    """a concentration model for one halo"""
    name = 'Fixed'

    def __init__(self, c):
        self.c = c

    def nfw_concentration(self, m, z, force_no_scatter=False):
        return self.c


class NoInfall(object):
    def __init__(self, z_lens, **kw):
        self.z_lens = z_lens

    def __call__(self, m):
        return self.z_lens + 1.2


def total(tau, a=1., b=3., g=1., d=2.):
    """mass of x^-g (1 + x^a)^((g - b)/a) / (1 + (x/tau)^d) out to infinity, over 4 pi"""
    def f(t):
        x = np.exp(t)
        return x ** (3 - g) * (1 + x ** a) ** ((g - b) / a) / (1 + (x / tau) ** d)
    cuts = np.linspace(np.log(min(tau, 1.)) - 30, np.log(max(tau, 1.)) + 30, 61)
    return sum(quad(f, p, q, epsabs=0, epsrel=1e-9)[0] for p, q in zip(cuts[:-1], cuts[1:]))


def mu(c, a=1., b=3., g=1.):
    def f(t):
        x = np.exp(t)
        return x ** (3 - g) * (1 + x ** a) ** ((g - b) / a)
    cuts = np.linspace(-30, np.log(c), 31)
    return sum(quad(f, p, q, epsabs=0, epsrel=1e-9)[0] for p, q in zip(cuts[:-1], cuts[1:]))


def nmu(c):
    return np.log(1 + c) - c / (1 + c)


def inside(tau, c):
    """fraction of the mass within c of an NFW halo left inside it by a truncation at tau"""
    def f(t):
        x = np.exp(t)
        return x ** 2 / (1 + x) ** 2 * tau ** 2 / (tau ** 2 + x ** 2)
    cuts = np.linspace(-30, np.log(c), 31)
    return sum(quad(f, p, q, epsabs=0, epsrel=1e-9)[0] for p, q in zip(cuts[:-1], cuts[1:])) / nmu(c)


MASSLOSS = {'GALACTICUS': ('johnsonSUparams', 'a_fit', 'b_fit', (0, 8.1), (2, 384), (4, 9)),
            'ZINFALL': ('johnsonSUparams', 'a_fit_zinfall', 'b_fit_zinfall', (0, 8.1), (2, 384), (4, 9)),
            'MILKYWAY': ('johnsonSUparams_MW_rmax30kpc', 'a_fit', 'b_fit', (0, 12.9), (2, 128), (6, 12))}
LIMITS = {'GALACTICUS': ((2, 384), (0, 8.1), (4, 8)), 'ZINFALL': ((2, 384), (0.001, 9.5), (4, 8)), 'MILKYWAY': ((2, 128), (0, 12.9), (6, 12))}


def calibrated(kind, logc, t, h):
    """the tables at a point moved into the range they were calibrated in: a, b, and that point"""
    import importlib
    mod, an, bn, tr, cr, hr = MASSLOSS[kind]
    mod = importlib.import_module('pyHalo.Halos.galacticus_truncation.' + mod)
    lc, lt, lh = LIMITS[kind]
    at = (float(np.clip(logc, np.log10(lc[0]), np.log10(lc[1]))), float(np.clip(t, *lt)), float(np.clip(h, *lh)))
    pts = (np.linspace(tr[0], tr[1], 15), np.linspace(np.log10(cr[0]), np.log10(cr[1]), 15), np.linspace(hr[0], hr[1], 15))
    # beyond the last node of the infall redshift the last cell goes on in a straight line
    a, b = [float(RegularGridInterpolator(pts, np.array(getattr(mod, n)).reshape(15, 15, 15), bounds_error=False, fill_value=None)(
        (at[1], at[0], at[2]))) for n in (an, bn)]
    return a, b, at


def truncations(tier, seed):
    from pyHalo.Halos.lens_cosmo import LensCosmo
    from pyHalo.Halos import tidal_truncation as tt
    from pyHalo.Halos.HaloModels.TNFW import TNFWFieldHalo, TNFWSubhalo
    from colossus.lss import peaks
    from colossus.halo import splashback
    from colossus.halo.concentration import concentration
    rng = np.random.RandomState(seed + 170)
    traces = []
    many = tier != 'quick'
    for par in UNIVERSES[:2 if not many else 3]:
        u, cosmo = begin(par)
        rec = Recorder()
        zl = float(rng.choice([0.2, 0.35, 0.5, 0.81]))
        lc = LensCosmo(zl, 2.2, cosmo, NoInfall, {})

        def halo(model, sub=None, m=None, c=None, z=None, zi=None, r3d=None, key='drawn'):
            sub = rng.rand() < 0.5 if sub is None else sub
            m = float(10 ** rng.uniform(6, 10.5)) if m is None else m
            c = float(rng.uniform(4, 30)) if c is None else c
            z = (zl if sub else float(round(rng.uniform(0.1, 2.1), 3))) if z is None else z
            h = (TNFWSubhalo if sub else TNFWFieldHalo)(m, 0.1, -0.2, float(rng.uniform(3, 200)) if r3d is None else r3d, z, sub, lc, {},
                                                        model, Fixed(c), float(rng.rand()))
            zi = (zl + float(round(rng.uniform(0.01, 6), 3))) if zi is None else zi
            if sub:
                h.set_infall_redshift(zi)
            return h, m, c, (zi if sub else z)

        # simple laws, several models alive at once
        for _ in range(8 if not many else 60):
            ms = {}
            n = float(rng.choice([50, 200, 100, 337]))
            ms['RN'] = (tt.TruncationRN(lc, n) if n != 50 or rng.rand() < 0.5 else tt.TruncationRN(lc), {'n': L(n)})
            ms['SPLASHBACK'] = (tt.TruncationSplashBack(lc), {})
            p = [float(rng.uniform(0.5, 3)), float(rng.uniform(0.2, 0.5)), float(rng.uniform(0.3, 1))]
            if rng.rand() < 0.4:
                p = [1.4, 1. / 3, 2. / 3]
                ms['ROCHE'] = (tt.TruncationRoche(lc), None)
            else:
                ms['ROCHE'] = (tt.TruncationRoche(lc, RocheNorm=p[0], m_power=p[1], RocheNu=p[2]), None)
            ms['ROCHE'] = (ms['ROCHE'][0], dict(norm=L(p[0]), mpow6=E6(p[1]), nu6=E6(p[2])))
            w, cp = float(rng.uniform(0.5, 5)), round(float(rng.uniform(0.5, 4)), 3)
            if rng.rand() < 0.4:
                w, cp = 2., 3.
                mean = tt.TruncateMeanDensity(lc)
            else:
                mean = tt.TruncateMeanDensity(lc, median_rt_over_rs=w, c_power=cp)
            ms['MEAN'] = (mean, dict(norm=L(w), cpow=I(cp, T3)))
            t = float(rng.uniform(0.3, 20))
            ms['MULTIPLE'] = (tt.Multiple_RS(lc, t), dict(norm=L(t)))
            t = float(rng.uniform(0.01, 3))
            ms['CONST'] = (tt.ConstantTruncationArcsec(lc, t), dict(norm=L(t)))
            kinds = list(ms) * 2
            rng.shuffle(kinds)
            for k in kinds:
                model, par_ = ms[k]
                sub = True if k == 'ROCHE' else None
                r3d = float(rng.uniform(3, 200))
                h, m, c, ze = halo(model, sub, r3d=r3d)
                q = dict(m=L(m), rhoc=L(u.rho_crit(ze)), rhom=L(u.rho_crit(ze) * u.a.Om(ze)), lsp=0, r3d=L(r3d), lc=L(c), lcmed=0,
                         kpa=L(u.kpc_per_arcsec(h.z)))
                tol = 600
                with u.colossus():
                    if k == 'SPLASHBACK':
                        q['lsp'] = L(splashback.splashbackModel('RspR200m', nu200m=peaks.peakHeight(m * u.h, ze), z=ze, rspdef='sp-apr-mn')[0])
                    if k == 'MEAN':
                        q['lcmed'] = L(concentration(m * u.h, '200c', ze, model='diemer19'))
                        tol = 600 + int(400 * cp)
                if k == 'CONST':
                    tol = 4000
                rt = h.profile_args[1] if rng.rand() < 0.5 else h.params_physical['r_trunc_kpc']
                if k == 'ROCHE':
                    tol += int(1e6 * 0.0006 / max(rt, 1e-3))
                rec.emit('trunc', _note='%s %s m=%g z=%g c=%g' % (k, par_, m, ze, c), kind=k, par=par_, q=q, obs=L(rt), tol=tol)
        # scatter about the median truncation radius
        n = 2500 if not many else 8000
        for s in (0.1, 0.4, 0.9):
            model = tt.TruncateMeanDensity(lc, intrinsic_scatter=s)
            quiet = tt.TruncateMeanDensity(lc)
            h, m, c, ze = halo(quiet, True)
            med = h.profile_args[1]
            v = np.array([model.truncation_radius_halo(h) for _ in range(n)]) / med
            ts = [300, 700, 900, 1000, 1200, 1800]
            rec.emit('folded', n=n, t=ts, s=I(s, T3), below=[int(np.sum(v < t / 1000.)) for t in ts])
        # bound mass and tidal track
        tidal(rec, rng, u, lc, zl, halo, many)
        traces.append(rec)
    traces.append(profiles(rng, many))
    return traces


def tidal(rec, rng, u, lc, zl, halo, many):
    from pyHalo.Halos import tidal_truncation as tt
    ch = float(rng.uniform(4.2, 7.8))
    models = {'GALACTICUS': tt.TruncationGalacticus(lc, ch), 'ZINFALL': tt.TruncationGalacticusZinfall(lc, ch),
              'APPROX': tt.TruncationGalacticusApproxCDM(lc), 'MILKYWAY': tt.TruncationGalacticusMilkyWay(lc, ch + 3),
              'PDF': tt.TruncationBoundMassPDF(lc, -1.2, 0.4), 'KEELEY': tt.TruncationGalacticusKeeley24(lc, ch)}

    def track(kind, h, m, c, ze):
        rs = 1000 * u.r200(m, ze) / c
        tau = h.params_physical['r_trunc_kpc'] / rs
        norm = h.rescale_norm
        if kind == 'PDF':
            mb = m * norm * total(tau) / nmu(c)
        else:
            mb = h.bound_mass_galacticus_definition
        rec.emit('tidal', _note='%s m=%g c=%g m_bound/m=%g' % (kind, m, c, mb / m), track=True, tol=2500,
                 q=dict(m=L(m), lmb=L(mb), lmu=L(nmu(c)), norm=L(norm), ltot=L(total(tau))))

    for _ in range(14 if not many else 120):
        kinds = [k for k in models if k != 'KEELEY']
        rng.shuffle(kinds)
        hs = [(k,) + halo(models[k], True) for k in kinds]
        for k, h, m, c, ze in hs:
            # bound masses that are given, that are drawn, that are looked at first or last
            if k != 'PDF' and rng.rand() < 0.4:
                h._mbound_galacticus_definition = m * float(10 ** rng.uniform(-8, 0)) if rng.rand() < 0.7 else m
            elif k != 'PDF' and rng.rand() < 0.5:
                h.bound_mass_galacticus_definition
            elif rng.rand() < 0.3:
                h.lenstronomy_params
        rng.shuffle(hs)
        for k, h, m, c, ze in hs:
            track(k, h, m, c, ze)
        # Keeley: an NFW halo is cut at the radius that leaves the bound mass inside its virial radius
        h, m, c, ze = halo(models['KEELEY'], True)
        if rng.rand() < 0.6:
            h._mbound_galacticus_definition = m * float(10 ** rng.uniform(-5.5, 0))
        tau = h.params_physical['r_trunc_kpc'] / (1000 * u.r200(m, ze) / c)
        rec.emit('keeley', _note='m=%g c=%g want %g' % (m, c, h.bound_mass_galacticus_definition / m), frac=L(inside(tau, c)),
                 want=L(h.bound_mass_galacticus_definition / m),
                 tol=30000 if h.bound_mass_galacticus_definition < 0.8 * m else 100000)  # the table is coarse at the top
    # direct requests for a bound mass
    for _ in range(6 if not many else 40):
        k = str(rng.choice(['GALACTICUS', 'ZINFALL', 'APPROX', 'MILKYWAY']))
        h, m, c, ze = halo(models[k], True)
        mb = m * float(10 ** rng.uniform(-4, 0))
        rt = models[k].truncation_radius_from_bound_mass(h, mb)
        rec.emit('tidal', _note='%s asked for m_bound/m=%g' % (k, mb / m), track=True, tol=2500,
                 q=dict(m=L(m), lmb=L(mb), lmu=L(nmu(c)), norm=L(h.rescale_norm), ltot=L(total(rt / (1000 * u.r200(m, ze) / c)))))
    # what is drawn
    n = 3000 if not many else 8000
    for k in ('GALACTICUS', 'ZINFALL', 'MILKYWAY'):
        hosts = {'MILKYWAY': ((6, 12), (12.5, 16), (2, 5.5), (6, 12)), '': ((4, 8), (8.3, 12), (2, 3.7), (7, 8))}
        hosts = list(hosts.get(k, hosts['']))
        rng.shuffle(hosts)
        for hr in hosts * (3 if not many else 8):
            out = rng.rand() < 0.5
            host = float(rng.uniform(*hr))
            model = {'GALACTICUS': tt.TruncationGalacticus, 'ZINFALL': tt.TruncationGalacticusZinfall,
                     'MILKYWAY': tt.TruncationGalacticusMilkyWay}[k](lc, host)
            c = float(10 ** (rng.uniform(0.1, 2.9) if out else rng.uniform(0.4, 2)))
            zi = zl + float(round(rng.choice([0.02, rng.uniform(0, 5), rng.uniform(0, 11)]), 3))
            m = float(10 ** rng.uniform(6, 10))
            t = zi - zl if k == 'ZINFALL' else u.a.age(zl).value - u.a.age(zi).value
            hs = [halo(model, True, m, c, zl, zi)[0] for _ in range(10)]
            f = np.array([model.calculate_mbound(hs[j % 10]) / m for j in range(n)])
            a, b, at = calibrated(k, np.log10(c), t, host)
            x = np.arcsinh(np.log10(f))
            ts = [float(v) for v in np.unique(np.round([(p - a) / b for p in (-1.6, -0.6, 0, 0.6, 1.4)], 6)) if v < -0.01]
            if ts:
                rec.emit('drawn', _note='%s c=%g t=%g host=%g' % (k, c, t, host), what='massloss', kind=k, hi=L(f.max()), n=n, a6=E6(a), b6=E6(b),
                         c6=E6(np.log10(c)), t6=E6(t), h6=E6(host), at=[E6(v) for v in at], t=[E6(v) for v in ts],
                         below=[int(np.sum(x < v)) for v in ts])
    # approximate CDM
    for zz in (0.1, 0.35, 0.5, 0.93, 1.4)[:3 if not many else 5]:
        from pyHalo.Halos.lens_cosmo import LensCosmo
        lz = LensCosmo(zz, 2.2, lc.cosmo, NoInfall, {})
        model = tt.TruncationGalacticusApproxCDM(lz)
        h = halo(model, True)[0]
        x = np.log10([model.calculate_mbound(h) / h.mass for _ in range(n)])
        ts = [-6, -3, -2, -1, -0.5, -0.1]
        rec.emit('drawn', _note='approx z=%g' % zz, what='approx', z3=I(zz, T3), n=n, t=[E6(t) for t in ts], below=[int(np.sum(x < t)) for t in ts])
    # a given distribution of bound masses
    for mean, sd in ((-1.5, 0.5), (-0.6, 0.25)):
        model = tt.TruncationBoundMassPDF(lc) if mean == -1.5 else tt.TruncationBoundMassPDF(lc, log10_fbound_mean=mean, log10_fbound_standard_dev=sd)
        x = []
        taus = np.logspace(-5, 4, 400)
        tot = np.array([total_closed(t) for t in taus])
        for _ in range(n):
            h, m, c, ze = halo(model, True)
            tau = h.params_physical['r_trunc_kpc'] / (1000 * u.r200(m, ze) / c)
            x.append(np.log10(h.rescale_norm * np.exp(np.interp(np.log(tau), np.log(taus), np.log(tot))) / nmu(c)))
        ts = [mean - sd, mean, mean + 0.8 * sd]
        rec.emit('drawn', _note='bound mass pdf', what='boundpdf', mean6=E6(mean), sd6=E6(sd), n=n, t=[E6(t) for t in ts],
                 below=[int(np.sum(np.array(x) < t)) for t in ts])
    # Keeley: normal about a tabulated mean
    mod = tables_keeley()
    for _ in range(3):
        c, host, zi = float(10 ** rng.uniform(0.5, 2)), float(rng.uniform(2.5, 7.5)), zl + float(round(rng.uniform(0.1, 1), 3))
        model = tt.TruncationGalacticusKeeley24(lc, host)
        t = u.a.age(zl).value - u.a.age(zi).value
        mean, sd = mod(t, host, np.log10(c))
        x = np.log10([model.calculate_mbound(halo(model, True, 1e8, c, zl, zi)[0]) / 1e8 for _ in range(n)])
        ts = [mean - sd, mean, mean + sd]
        rec.emit('drawn', _note='keeley c=%g host=%g t=%g' % (c, host, t), what='boundpdf', mean6=E6(mean), sd6=E6(sd), n=n,
                 t=[E6(v) for v in ts], below=[int(np.sum(x < v)) for v in ts])


def tables_keeley():
    from pyHalo.Halos.galacticus_truncation import tabulated_mass_loss_Keeley24 as k
    pts = (np.linspace(0, 7.658449372663094, 20), np.linspace(2, 8, 20), np.linspace(0.3010299956639812, 2.3010299956639813, 20))
    f, g = [RegularGridInterpolator(pts, np.array(v).reshape(20, 20, 20)) for v in
            (k._log10_mbound_over_minfall, k._log10_mbound_over_minfall_scatter_dex)]
    return lambda t, h, c: (float(f((t, h, c))), max(0.001, float(g((t, h, c)))))


def total_closed(t):
    return t ** 2 / (t ** 2 + 1) ** 2 * ((t ** 2 - 1) * np.log(t) + t * np.pi - (t ** 2 + 1))


def fresh(jobs):
    from vh import env
    code = ('import sys, json\nsys.path[:0] = %r\n'
            'from pyHalo.Halos.galacticus_truncation.transfer_function_density_profile import compute_r_te_and_f_t as f\n'
            'print(json.dumps([[float(v) for v in f(*a, **k)] for a, k in json.load(sys.stdin)]))') % [env.REPO, os.path.join(env.VERIF, 'stubs')]
    r = subprocess.run([env.PYTHON, '-W', 'ignore', '-c', code], input=json.dumps(jobs), capture_output=True, text=True)
    return json.loads(r.stdout) if r.returncode == 0 else None


def profiles(rng, many):
    """truncation radius and normalization of generalized profiles, in any order of parameters"""
    from pyHalo.Halos.galacticus_truncation.transfer_function_density_profile import compute_r_te_and_f_t
    rec = Recorder()
    shapes = [(1., b, g, d) for b in (3., 4.) for g in (0., 0.5, 1., 1.5) for d in (2., 3.)] + [(2., 3., 0., d) for d in (2., 3.)]
    asked = []
    for _ in range(40 if not many else 300):
        a, b, g, d = shapes[rng.randint(len(shapes))] if rng.rand() < 0.7 else (1., 3., 1., 2.)
        c = float(rng.uniform(3, 40))
        m, mb = 1e9, 1e9 * float(10 ** rng.uniform(-6, 0))
        kw = {} if (a, b, g, d) == (1., 3., 1., 2.) and rng.rand() < 0.5 else dict(alpha=a, beta=b, gamma=g, delta=d)
        rt, ft = compute_r_te_and_f_t(mb, m, 30., c, **kw)
        asked.append(((mb, m, 30., c), kw, (float(rt), float(ft))))
        tau = float(rt) / (30. / c)
        rec.emit('tidal', _note='profile %s c=%g m_bound/m=%g' % ((a, b, g, d), c, mb / m), track=(a, b, g, d) == (1., 3., 1., 2.), tol=4000,
                 q=dict(m=L(m), lmb=L(mb), lmu=L(mu(c, a, b, g)), norm=L(float(ft)), ltot=L(total(tau, a, b, g, d))))
    # the same requests in another order, in a process that has seen nothing else
    again = fresh([[a, kw] for a, kw, _ in asked[::-1]])
    rec.emit('raise', clause='C17_history', outcome='raises' if again is None else 'answers', want='answers')
    for (a, kw, (rt, ft)), (rt2, ft2) in zip(asked[::-1], again or []):
        for x, y in ((rt, rt2), (ft, ft2)):
            rec.emit('same', _note='profile %s %s' % (a, kw), clause='C17_history', a=L(x), b=L(y), tol=300)
    return rec


# -- C18 -----------------------------------------------------------------------------------

INFALL = {'HYBRID_INFALL': 'HYBRID', 'DIRECT_INFALL': 'DIRECT', 'DIRECT_INFALL_CLUSTER': 'CLUSTER', 'GALACTICUS_2024': 'TABLE',
          'INFALL_ZLENS': 'ZLENS', 'INFALL_0': 'ZERO'}


def infall(tier, seed):
    from pyHalo.Halos.lens_cosmo import LensCosmo
    u, cosmo = begin(UNIVERSES[0])
    rng = np.random.RandomState(seed + 180)
    rec = Recorder()
    lcs = []
    for _ in range(3 if tier == 'quick' else 10):
        for name, kind in INFALL.items():
            zl = float(rng.choice([0.2, 0.5, 0.77, 1.3]))
            lh = round(float(rng.uniform(14, 15) if kind == 'CLUSTER' else rng.uniform(11.8, 14.4)), 3)
            kw = {'log_m_host': lh}
            if kind in ('HYBRID', 'DIRECT', 'CLUSTER') and rng.rand() < 0.3:
                kw = {'m_host': 10 ** lh}
            if kind in ('HYBRID', 'DIRECT') and rng.rand() < 0.15:
                kw, lh = {}, 13.0
            if kind in ('TABLE', 'ZLENS', 'ZERO'):
                kw = {} if rng.rand() < 0.5 else kw
            lcs.append((LensCosmo(zl, 3.5, cosmo, name, kw), kind, zl, lh))
    order = list(range(len(lcs))) * 2
    rng.shuffle(order)
    for i in order:
        lc, kind, zl, lh = lcs[i]
        pick = rng.rand() if tier != 'quick' else rng.choice([0.3, 0.3, 0.7, 0.7, 0.9])
        m = float(10 ** (lh - (rng.uniform(0.5, 5) if pick < 0.6 else rng.uniform(5, 8) if pick < 0.85 else rng.uniform(0, 0.5))))
        n = 20000 if 0.6 < pick < 0.85 or rng.rand() < (0.2 if tier == 'quick' else 0.8) else 2500
        z = np.array([float(lc.z_accreted_from_zlens(m)) for _ in range(n)])
        ts = [0.3, 1.0, 1.7, 2.5, 4., 6.5]
        rec.emit('infall', _note='%s log_m_host=%g m=%g zl=%g' % (kind, lh, m, zl), kind=kind, lm=L(m), lhost=L(10 ** lh), zl=E6(zl),
                 lo=E6(z.min()), hi=E6(z.max()), n=n, t=[E6(t) for t in ts], below=[int(np.sum(z - zl < t)) for t in ts])
    for lh in (13.5, 13.999, 14.001, 14.5, 14.999, 15.001, 16.):
        o, _ = attempt(LensCosmo, 0.5, 2., cosmo, 'DIRECT_INFALL_CLUSTER', {'log_m_host': lh})
        rec.emit('infallhost', ok=o == 'ok', lhost3=I(lh, T3))
    o, _ = attempt(lambda: LensCosmo(0.5, 2., cosmo, None).z_accreted_from_zlens(1e8))
    rec.emit('raise', clause='C18_unset', outcome='ok' if o == 'ok' else 'refused', want='refused')
    # a later setup replaces the earlier one
    lc = LensCosmo(0.5, 2., cosmo, 'HYBRID_INFALL', {'log_m_host': 13.})
    lc.z_accreted_from_zlens(1e8)
    lc.setup_infall_model('INFALL_ZLENS', {})
    z = np.array([lc.z_accreted_from_zlens(1e8) for _ in range(50)])
    rec.emit('infall', kind='ZLENS', lm=0, lhost=0, zl=E6(0.5), lo=E6(z.min()), hi=E6(z.max()), n=50, t=[], below=[])
    return rec


# -- C19 -----------------------------------------------------------------------------------

def names(tier, seed):
    from pyHalo.concentration_models import preset_concentration_models
    from pyHalo.mass_function_models import preset_mass_function_models
    from pyHalo.truncation_models import truncation_models
    from pyHalo.preset_models import preset_model_from_name
    from pyHalo.Halos.lens_cosmo import LensCosmo
    from pyHalo.Halos.concentration import ConcentrationLudlow
    u, cosmo = begin(UNIVERSES[0])
    rng = np.random.RandomState(seed + 190)
    rec, ids = Recorder(), Interner()

    def code(v):
        if isinstance(v, bool):
            return 1000 * v
        if isinstance(v, (int, float, np.number)):
            return I(v, T3)
        return 5000000 + ids(repr(v))

    class Own(object):
        def nfw_concentration(self, m, z):
            return 7.

    def own(*a, **k):
        pass
    conc = ['DIEMERJOYCE19', 'LUDLOW2016', 'PEAK_HEIGHT_POWERLAW', 'BINNED_HALO_MASS', 'WDM_HYPERBOLIC', 'WDM_POLYNOMIAL', 'BOSE2016',
            'BOSE2016_LUDLOW', 'LAROCHE2022', 'LUDLOW_WDM', 'FROM_FORMATION_HISTORY', 'CUSTOM', 'CONSTANT', 'bose2016', '', 'CDM', 'LOVELL2020']
    mf = ['SHMF_LOVELL2020', 'LOVELL2020', 'SHMF_LOVELL2014', 'LOVELL2014', 'SCHIVE2016', 'SHMF_SCHIVE2016', 'POWER_LAW',
          'POWER_LAW_TURNOVER_SHMF', 'POWER_LAW_TURNOVER', 'SHMF_MIXED_WDM_TURNOVER', 'MIXED_WDM_TURNOVER', 'STUCKER', 'STUCKER_SHMF',
          'lovell2020', 'BOSE2016', 'STUCKER2']
    tr = ['TRUNCATION_R50', 'TRUNCATION_R200', 'TRUNCATION_RN', 'TRUNCATION_ROCHE', 'TRUNCATION_ROCHE_GILMAN2020', 'SPLASHBACK',
          'TRUNCATION_MEAN_DENSITY', 'TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL', 'TRUNCATION_GALACTICUS_KEELEY24', 'CONSTANT',
          'MULTIPLE_RS', 'BOUND_MASS_PDF', 'TRUNCATION_GALACTICUS_CDM_APPROX', 'TRUNCATION_R51', '']
    pre = ['CDM', 'WDM', 'SIDM_core_collapse', 'SIDM_parametric', 'SIDM_parametric_fixedbins', 'ULDM', 'DMEmulator', 'WDM_mixed', 'WDMGeneral',
           'DMGalacticus', 'CDM_plus_BH', 'JointLOSWithEmulator', 'CUSTOM', 'cdm', 'SIDM', 'FDM']
    inf = ['HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER', 'GALACTICUS_2024', 'INFALL_ZLENS', 'INFALL_0', 'HYBRID', 'infall_0']
    jobs = [('concentration', n) for n in conc] + [('massfunction', n) for n in mf] + [('truncation', n) for n in tr] \
        + [('preset', n) for n in pre] + [('infall', n) for n in inf]
    jobs = jobs * (12 if tier == 'quick' else 40)
    rng.shuffle(jobs)
    dicts = {}
    for reg, name in jobs:
        base = {}
        if reg == 'concentration':
            pool = dict(scatter=True, scatter_dex=0.15, log_mc=7.25, c_scale=3.5, kwargs_cdm={'scatter': False}, a=0.5, extra=2.25)
            base = {k: pool[k] for k in pool if rng.rand() < 0.4}
            if name in ('FROM_FORMATION_HISTORY',):
                base['dlogT_dlogk'] = round(float(rng.uniform(0.9, 3)), 3)
            if name == 'CUSTOM':
                base['custom_class'] = Own
            if name in ('WDM_HYPERBOLIC', 'WDM_POLYNOMIAL'):
                base['concentration_cdm_class'] = ConcentrationLudlow
        elif reg == 'massfunction':
            pool = dict(log_m_hm=7.5, log_mlow=6., sigma_sub=0.05, extra=2.25, nested={'x': [1, 2]})
            base = {k: pool[k] for k in pool if rng.rand() < 0.4}
            if 'LOVELL' in name or 'SCHIVE' in name:
                for k in ('a_wdm', 'b_wdm', 'c_wdm'):
                    if rng.rand() < 0.5:
                        base[k] = 77.
            if name.startswith('STUCKER'):
                pick = rng.rand()
                if pick < 0.8:
                    base['dlogT_dlogk'] = -round(float(rng.uniform(1.1, 3.8)), 3)
                if pick < 0.2:
                    base[str(rng.choice(['a_wdm', 'b_wdm', 'c_wdm']))] = 1.
        elif reg == 'infall':
            base = {'log_m_host': 14.5}
        # the same dictionaries are used again, for the same name and for others
        if base and rng.rand() < 0.3 and (reg, name) in dicts:
            base = dicts[(reg, name)]
        dicts[(reg, name)] = base
        if reg in ('concentration', 'massfunction') and rng.rand() < 0.15 and not {'FROM_FORMATION_HISTORY', 'CUSTOM'} & {name} and base == {}:
            args = ()
        else:
            args = (base,)
        given = {k: code(v) for k, v in base.items()} if reg != 'infall' else {}
        before = copy.deepcopy({k: v for k, v in base.items() if k != 'custom_class'})
        keys0 = set(base)
        f = {'concentration': preset_concentration_models, 'massfunction': preset_mass_function_models, 'truncation': truncation_models,
             'preset': preset_model_from_name, 'infall': None}[reg]
        if reg == 'infall':
            o, r = attempt(lambda: LensCosmo(0.5, 2., cosmo, name, base))
        elif reg == 'preset':
            o, r = attempt(f, name, *([own] if name == 'CUSTOM' else []))
        elif reg == 'truncation':
            o, r = attempt(f, name)
        else:
            o, r = attempt(f, name, *args)
        ok = o == 'ok'
        kept = set(base) == keys0 and all(repr(base[k]) == repr(before[k]) for k in before)
        cls, out, shared, st = '', {}, False, {'la': 0, 'b6': 0, 'c6': 0, 'ls': 0}
        if ok and reg == 'preset':
            cls = 'given' if name == 'CUSTOM' and r is own else r.__name__
        elif ok and reg != 'infall':
            cls = 'given' if name == 'CUSTOM' and r[0] is Own else r[0].__name__
            out = dict(r[1])
            shared = r[1] is base or any(r[1].get(k) is base[k] for k in base if isinstance(base[k], (dict, list)) and k in r[1])
            if name.startswith('STUCKER'):
                st = dict(la=L(out['a_wdm']), b6=E6(out['b_wdm']), c6=E6(out['c_wdm']), ls=L(abs(base['dlogT_dlogk'])))
        rec.emit('name', _note='%s %s(%s)' % (reg, name, base), reg=reg, name=name, given=given, ok=ok, kept=kept, cls=cls,
                 keys=sorted(out), par={k: code(v) for k, v in out.items()}, shared=shared, st=st)
        # what becomes of an answer is nobody else's business
        if ok and reg in ('concentration', 'massfunction', 'truncation'):
            for k in list(r[1]):
                if isinstance(r[1][k], dict):
                    r[1][k]['scribble'] = 1
            r[1]['scribble'] = 1.
            for k in list(r[1])[:1]:
                del r[1][k]
    # a truncation class can be given as it is; a custom relation must be able to answer; infall models can be classes
    o, r = attempt(truncation_models, NoInfall)
    rec.emit('raise', clause='C19_direct', outcome='same' if o == 'ok' and r[0] is NoInfall and r[1] == {} else o, want='same')
    o, r = attempt(preset_concentration_models, 'CUSTOM', {'custom_class': NoInfall})
    rec.emit('raise', clause='C19_custom', outcome='ok' if o == 'ok' else 'refused', want='refused')
    o, r = attempt(lambda: LensCosmo(0.5, 2., cosmo, NoInfall, {}).z_accreted_from_zlens(1e8))
    rec.emit('raise', clause='C19_direct', outcome=str(r) if o == 'ok' else o, want='1.7')
    return rec
