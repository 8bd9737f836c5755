"""Operations that convert the objects of a realization or add objects to it: histories chosen
by ExtGen on small realizations, and the statistics of what is added."""
import numpy as np
from scipy.optimize import brentq
from vh import tlc
from vh.rec import Recorder, I, L, NAN, Interner
from vh.drivers import halos as H
from vh.drivers.halos import U, L2, ZL, ZS

KINDS = {'TNFWFieldHalo': 'TNFW', 'TNFWSubhalo': 'TNFW', 'TNFWCHaloEvolving': 'EVOLVING',
         'TNFWCHaloParametric': 'TNFWC', 'CoreCollapsedHalo': 'CC', 'CoreCollapsedHaloBH': 'CCBH', 'SIS': 'SIS',
         'MassiveGalaxy': 'GALAXY', 'GeneralNFWFieldHalo': 'GNFW', 'GeneralNFWSubhalo': 'GNFW',
         'PowerLawFieldHalo': 'SPL', 'PowerLawSubhalo': 'SPL', 'CoreNFWHalo': 'CNFW', 'BlackHole': 'BH',
         'GlobularCluster': 'GC', 'GaussianHalo': 'GAUSS', 'NFWFieldHalo': 'NFW', 'NFWSubhhalo': 'NFW'}
NFWLIKE = ('TNFW', 'NFW', 'TNFWC', 'EVOLVING', 'CC', 'CCBH', 'GNFW', 'CNFW', 'GALAXY')


def kind(h):
    return KINDS[type(h).__name__]


def t_gyr(z_early, z_late):
    return max(0., float(U().a.age(z_late).value - U().a.age(z_early).value))


class World(object):
    """objects, the realizations made of them, and the identities of both"""

    def __init__(self, rng, lc=None, n=12, points=True, mass=None, uniform_z=None):
        from pyHalo.single_realization import Realization
        from pyHalo.Cosmology.geometry import Geometry
        self.rng, self.lc = rng, lc or H.counted_lens_cosmo()
        self.intern, self.keep, self.ids = Interner(), [], {}
        conc, trunc = H.Concentration(rng), H.Truncation(rng)
        hs = []
        args = {}                      # one dictionary for all of them, as in a rendered realization
        for i in range(n):
            if points and i in (4, 8, 10):
                hs.append(self.point(i, rng))
                continue
            sub = bool(rng.rand() < 0.6)
            m = mass if mass is not None else float(rng.choice([10 ** 7., 10 ** 8., 10 ** rng.uniform(6.1, 6.99), 10 ** rng.uniform(7.01, 7.99),
                                                                10 ** rng.uniform(8.01, 9.6), 10 ** rng.uniform(8.01, 9.6)]))
            z = ZL if sub else float(rng.choice([0.3, 0.5, round(rng.uniform(0.1, 1.9), 2)]))
            if uniform_z is not None:
                sub, z = False, uniform_z
            hs.append(H.halo_class('TNFW', sub)(m, float(rng.randint(-90, 90)) / 64, float(rng.randint(-90, 90)) / 64,
                                                float(rng.uniform(5, 150)) if sub else None, z, sub, self.lc, args, trunc, conc,
                                                float(rng.rand())))
        self.geometry = Geometry(self.lc.cosmo, ZL, ZS, 6.0, 'DOUBLE_CONE')
        self.reals = [Realization.from_halos(hs, self.lc, {'kwargs_density_profile': args}, True, None, 0.0, 0.0, self.geometry)]

    def point(self, i, rng):
        x, y, tag = float(rng.randint(-90, 90)) / 64, float(rng.randint(-90, 90)) / 64, float(rng.rand())
        if i == 8:
            return H.cls('gaussianhalo.GaussianHalo')(3e5, x, y, None, ZL, True, self.lc,
                                                      {'amp': 0.01, 'sigma': 0.1, 'center_x': x, 'center_y': y}, None, None, tag)
        return H.cls('blackhole.BlackHole')(2e5, x, y, None, 0.7, False, self.lc, {}, None, None, tag)

    def ident(self, h):
        if id(h) not in self.ids:
            self.keep.append(h)
            self.ids[id(h)] = len(self.keep)
        return self.ids[id(h)]

    def lens(self, h):
        ids, (kws, _) = h.lenstronomy_ID, h.lenstronomy_params
        return self.intern(repr((list(ids), [[(k, float(v)) for k, v in sorted(kw.items())] for kw in kws])))

    def basic(self, h, deep):
        return {'id': self.ident(h), 'kept': self.intern(repr((float(h.mass), float(h.x), float(h.y), h.r3d, float(h.z), h.unique_tag, bool(h.is_subhalo)))),
                'lens': self.lens(h) if deep else 0}

    def obs(self, h, old=None, rmatch=None, given=True, mass=True, timed=False):
        k = kind(h)
        o = self.basic(h, True)
        o.update(kind=k, lm=int(round(1000 * np.log10(h.mass))), sub=bool(h.is_subhalo), t1=0, t2=0, c=0, zi=0, b=0, rt=0, mr=0, mm=0,
                 rs=0, rc=0, rtr=0, lnrs=0, age=0, tau=0, lntau=0, given=bool(given))
        if k in NFWLIKE:
            o['c'] = L2(h.c)
        zi = h.z
        if h.is_subhalo and k in NFWLIKE + ('SIS', 'SPL'):
            zi = h.z_infall
            o['zi'] = I(zi, 1e6)
            if k in ('TNFW', 'TNFWC', 'EVOLVING', 'CC', 'CCBH', 'SIS', 'GALAXY', 'CNFW'):
                o['b'] = L(h.bound_mass)
        zi = min(zi, 10.)
        o['t1'], o['t2'] = int(round(1000 * t_gyr(10., zi))), int(round(1000 * t_gyr(zi, h.z)))
        if not h.is_subhalo:
            o['t1'], o['t2'] = int(round(1000 * t_gyr(10., h.z))), 0
        a = U().kpc_per_arcsec(h.z)
        kw = h.lenstronomy_params[0][0]
        base = old if old is not None else h
        if kind(base) in NFWLIKE:
            _, rs0, r200 = base.nfw_params
            if 'r_trunc' in kw:
                o['rt'] = L(kw['r_trunc'] * a)
                o['rtr'] = I(kw['r_trunc'] * a / rs0, 1e4)
            if 'Rs' in kw:
                o['rs'], o['lnrs'] = I(kw['Rs'] * a / rs0, 1e4), L(kw['Rs'] * a / rs0)
            if 'r_core' in kw:
                o['rc'] = I(kw['r_core'] * a / rs0, 1e4)
            if mass and k in ('TNFW', 'TNFWC', 'EVOLVING', 'GALAXY', 'CC'):
                o['mr'] = L(H.lens_mass(h, r200, h.z))
            if rmatch:
                o['mm'] = L(H.lens_mass(h, rmatch, h.z))
        tau = None
        if timed:                      # only then has the halo an age to be compared with a timescale
            tau = h.t_over_tc
        if tau is not None:
            o['age'], o['tau'], o['lntau'] = I(h.halo_effective_age, 1e3), I(tau, 1e4), L(tau + 0.001)
        return o

    def look(self, h):
        self.lens(h)
        if kind(h) in NFWLIKE:
            h.c


def matching_radius(h, slope):
    _, rs, _ = h.nfw_params
    tau = h.lenstronomy_params[0][0]['r_trunc'] * U().kpc_per_arcsec(h.z) / rs

    def f(lx):
        x = np.exp(lx)
        return -1 - 2 * x / (1 + x) - 2 * x ** 2 / (x ** 2 + tau ** 2) - slope
    return rs * float(np.exp(brentq(f, -14, 10)))


def essig(rhos, rs, sigma):
    """t_c = 150 / C / (sigma rhos rs sqrt(4 pi G rhos)) [Gyr], C = 0.75"""
    kpc, msun, G = 3.0857e21, 1.98847e33, 6.6743e-8
    rho = rhos * msun / kpc ** 3
    return 150 / 0.75 / (sigma * rho * rs * kpc) / np.sqrt(4 * np.pi * G * rho) / 3.15576e16


BINS = [[[2.0, 6.0], [6.0, 8.0], [8.0, 10.0]], [[2.0, 7.0], [7.0, 9.0], [9.0, 10.0]], [[2.0, 7.0], [7.5, 10.0]],
        [[2.0, 8.0], [7.0, 10.0]]]
TC_SPREAD = [1.0, 0.4, 2.5]


def conversions(tier, seed):
    from pyHalo.realization_extensions import RealizationExtensions
    rng = np.random.RandomState(seed + 140)
    H.Infall.rng = np.random.RandomState(seed + 141)
    H.Infall.log.clear()
    rec = Recorder()
    done = {}
    num = 45 if tier == 'quick' else 400
    for b, beh in enumerate(tlc.simulate('ExtGen', 'ExtGen', num, 12, seed + 1)):
        w = World(rng)
        rec.emit('enew')
        np.random.seed(seed + b)
        for o in beh:
            src = w.reals[max(0, len(w.reals) - 1 - o['s'])]
            step(w, rec, src, o, rng, RealizationExtensions, 'history %d' % b, done)
            seen, orders = [], True
            for r in w.reals:
                seen += r.halos
            ids = {}
            for h in seen:
                ids[id(h)] = h
            rec.emit('eaudit', all=[w.basic(h, False) for h in ids.values()],
                     orders=all(getattr(r, '_order', None) in (None, [id(h) for h in r.halos]) for r in w.reals))
            for r in w.reals:
                r._order = [id(h) for h in r.halos]
    rec.done = done
    return rec


def step(w, rec, src, o, rng, Ext, name, done):
    hs = list(src.halos)
    ks = [kind(h) for h in hs]
    op, p = o['op'], o['p']
    if o['look'] == 'before':
        for h in hs:
            w.look(h)
    ext = Ext(src)
    note = '%s: %s %s %s %s' % (name, op, o['how'], o['m'], p if op == 'sidm' else (o['a'], o['b']))
    target = list(hs)
    rmatch = [None] * len(hs)
    if op == 'sidm':
        sidm(w, rec, src, ext, hs, ks, o, rng, note, done)
        return
    if op == 'galaxy':
        th = o['a']
        fits = lambda r: all(h.mass < 10 ** (th / 1000.) or kind(h) in ('TNFW', 'TNFWC', 'EVOLVING') for h in r.halos)
        if not fits(src):              # take the most recent realization that allows it
            src = [r for r in w.reals if fits(r)][-1]
            hs = list(src.halos)
            ext = Ext(src)
        res = ext.SIS_injection(10 ** (th / 1000.), galaxy_model=o['m'])
        # masses sit away from this threshold unless they are exactly at it
        emit_pair(w, rec, 'egalaxy', note, hs, res, o, done, th=th, m=o['m'], xcore=0)
        return
    if op == 'bymass':
        sr, fr = RANGES[o['a']], RANGES[o['b']]
        sp, fp = [PROBS[(o['a'] + i) % 4] for i in range(len(sr))], [PROBS[(o['b'] + 1 + i) % 4] for i in range(len(fr))]
        call = lambda q: (lambda halo: q / 1000.) if o['look'] == 'old' else q / 1000.
        idx = ext.core_collapse_by_mass([[x / 1000., y / 1000.] for x, y in sr], [[x / 1000., y / 1000.] for x, y in fr],
                                        [call(q) for q in sp], [call(q) for q in fp])
        rec.emit('eselect', _note=note, old=[w.obs(h, mass=False) for h in hs], idx=[int(i) + 1 for i in idx], sr=sr, fr=fr, sp=sp, fp=fp)
        done['select'] = done.get('select', 0) + len(idx)
        o = dict(o, op='collapse', m='SPL_CORE', b=1, look='new')
        idx = [i for i in idx if ks[i] == 'TNFW']
    elif op in ('collapse', 'cored'):
        idx = [i for i in range(len(hs)) if ks[i] == 'TNFW' and (o['a'] >> i) & 1]
    if not idx:
        return
    given = lambda h, old: True
    scale = 0
    if o['op'] == 'collapse':
        b = o['b']
        kw = {'GNFW': {'gamma_inner': [0.6, 1.4, 2.2, 2.5, 1.0][b], 'gamma_outer': [3.2, 3.5, 4.0, 5.0, 3.1][b]},
              'SPL_CORE': {'log_slope_halo': [1.4, 2.0, 2.4, 2.7, 3.0][b], 'x_core_halo': [0.05, 0.1, 0.02, 0.2, 0.05][b]},
              'TNFWC': {'x_core_halo': [0.05, 0.1, 0.02, 0.2, 0.5][b]},
              'CC_COMPOSITE': {'gamma_inner': 2.4, 'scale_match_r': [1.2, 1.4, 1.6, 1.8, 2.0][b], 'log_slope_match': -1.9}}[o['m']]
        ids = np.array(idx) if b % 2 else idx
        try:
            res = ext.add_core_collapsed_halos(ids, halo_profile=o['m'], **kw)
        except Exception as e:
            if 'alpha_Rs cannot be negative' in str(e):
                return
            raise
        to = {'GNFW': 'GNFW', 'SPL_CORE': 'SPL', 'TNFWC': 'TNFWC', 'CC_COMPOSITE': 'CC'}[o['m']]
        xcore = I(kw.get('x_core_halo', 0), 1e4)
        if o['m'] == 'GNFW':
            given = lambda h, old: all(abs(h.lenstronomy_params[0][0][k] - v) < 1e-6 for k, v in kw.items())
        elif o['m'] == 'SPL_CORE':
            def given(h, old):
                q = h.lenstronomy_params[0][0]
                rc = q['r_core'] * U().kpc_per_arcsec(h.z) / old.nfw_params[1]
                return abs(q['gamma'] - kw['log_slope_halo']) < 1e-6 and abs(rc / kw['x_core_halo'] - 1) < 2e-3
        elif o['m'] == 'CC_COMPOSITE':
            given = lambda h, old: abs(h.lenstronomy_params[0][0]['gamma_inner'] - 2.4) < 1e-6
    else:
        beta = o['b'] / 1000.
        res = ext.add_cored_halos(idx, beta, core_density_profile=o['m'])
        to, xcore = o['m'], I(beta, 1e4)
    emit_pair(w, rec, 'elisted', note, hs, res, o, done, idx=[i + 1 for i in idx], to=to, xcore=xcore, _given=given)


RANGES = [[[6000, 8000]], [[6000, 7000], [7000, 8000], [8000, 10000]], [[7000, 8000]], [[8000, 10000], [6000, 7000]],
          [[6000, 9000], [7000, 10000]], [[9990, 9999]]]
PROBS = [1000, 0, 1000, 400]


def emit_pair(w, rec, ev, note, hs, res, o, done, _given=None, new=None, _slope=None, **more):
    _given = _given or (lambda h, old: True)
    new = list(res.halos) if new is None else new
    olds = {}
    if o['look'] == 'new':
        for h in new:
            w.look(h)
    else:
        for h in hs:
            w.look(h)
    timed = ev == 'esidm' and more['p']['mode'] != 'none'
    changed = [id(n) != id(h) for n, h in zip(new, hs)] if len(new) == len(hs) else [True] * len(new)
    rm = [None] * len(hs)
    if ev == 'esidm' and len(new) == len(hs):
        rm = [matching_radius(h, _slope) if ch and kind(n) == 'CC' else None for h, n, ch in zip(hs, new, changed)]
    old = [w.obs(h, rmatch=r, mass=ch) for h, r, ch in zip(hs, rm, changed + [False] * len(hs))]
    news = [w.obs(n, old=hs[i] if i < len(hs) and changed[i] else None, rmatch=rm[i] if i < len(rm) else None,
                  given=_given(n, hs[i]) if changed[i] else True, mass=changed[i], timed=timed and kind(hs[i]) == 'TNFW') for i, n in enumerate(new)]
    rec.emit(ev, _note=note, old=old, new=news, **more)
    for n, ch in zip(new, changed):
        if ch:
            key = (ev, kind(n))
            done[key] = done.get(key, 0) + 1
    if res is not None:
        w.reals.append(res)


def sidm(w, rec, src, ext, hs, ks, o, rng, note, done):
    p = dict(o['p'])
    how, profile = o['how'], o['m']
    if p['mode'] == 'ratio':
        p['ratio'] = {700: 80, 4000: 300, 8000: 520, 14000: 900, 60000: 1300}[p['tc']]
        p['ev'] = True
    else:
        p['ratio'] = 0
    evolving = p['ev'] and not (p['mode'] == 'none')
    prob = {'zero': 0.0, 'one': 1.0, 'mid': 0.5}[p['prob']]
    x_core = [0.05, 0.1, 0.3][p['tc'] % 3]
    slope, scale = -1.9, [1.3, 1.6][p['cut'] == 600]
    gamma = -1.0 if p['gbh'] else 2.4
    tc, lam = p['tc'] / 1000., p['lam'] / 1000.
    tp = {'profile': profile, 'evolving': bool(p['ev']), 'gbh': bool(p['gbh']), 'mode': p['mode'], 'tc': 1, 'ratio': p['ratio'],
          'cut': p['cut'], 'thr': p['thr'], 'prob': p['prob'], 'lam': p['lam']}
    bins, tcs = [], [1] * len(hs)
    pick = None
    try:
        if how == 'list':
            hs = [h for h, k in zip(hs, ks) if k == 'TNFW']
            if not hs:
                return
            tp['thr'] = 1000           # what toSIDM_halo_list uses
            kw = dict(t_over_tc_cut=p['cut'] / 1000., evolving_profile=bool(p['ev']), collapse_probability=prob, halo_profile=profile,
                      gamma_inner=gamma, scale_match_r=scale, log_slope_match=slope, x_core_halo=x_core)
            tcs = [p['tc']] * len(hs)
            if p['mode'] == 'tc':
                res = ext.toSIDM_halo_list(hs, t_c=tc, subhalo_evolution_scaling=lam, **kw)
            elif p['mode'] == 'ratio':
                res = ext.toSIDM_halo_list(hs, subhalo_evolution_scaling=lam, t_over_tc=p['ratio'] / 1000., **kw)
            else:
                kw['evolving_profile'] = False
                res = ext.toSIDM_halo_list(hs, **kw)
        else:
            bins = BINS[rng.randint(len(BINS) + 3) % len(BINS) if rng.rand() < 0.5 else 0]
            if rng.rand() < 0.5:           # edges just above or below the masses of some of the halos
                lms = sorted(set(round(float(np.log10(h.mass)), 3) for h in hs))
                e = sorted(lms[rng.randint(len(lms))] + rng.choice([-0.02, 0.03]) for _ in range(2))
                e = [max(5.9, round(v, 3)) for v in e]
                bins = [[2.0, e[0]], [e[0], e[1] + 0.4], [e[1] + 0.4, 10.0]] if rng.rand() < 0.7 else [[e[0], 10.0]]
            kw = dict(evolving_SIDM_profile=bool(p['ev']), x_core_halo=x_core, collapse_probability=prob, halo_profile=profile,
                      gamma_inner=gamma, scale_match_r=scale, log_slope_match=slope, t_over_tc_collapse_threshold=p['thr'] / 1000.)
            tp['cut'] = 150            # what toSIDM_single_halo uses
            if 'NFW' in ks:
                return
            if how == 'timescale':
                per = [tc * TC_SPREAD[i] for i in range(len(bins))]
                tcs = [int(round(1000 * t)) for t in per]
                res = ext.toSIDM_from_timescale(bins, [float(np.log10(t)) for t in per], None, float(np.log10(lam)), **kw)
            else:
                # a cross section that puts the timescale of a 10^8 halo near tc
                per = [2.0 + np.log10(8. / tc) + d for d in (0.0, 0.3, -0.4)][:len(bins)]
                fn = None
                if p['cut'] == 600 and p['thr'] == 500:
                    fn = lambda rhos, rs, s: 0.7 * essig(rhos, rs, s) ** 0.9
                res = ext.toSIDM_from_cross_section(bins, per, float(np.log10(lam)), sidm_timescale_function=fn, **kw)
                tcs = []
                for h, k in zip(hs, ks):
                    i = [i for i, q in enumerate(bins) if q[0] <= np.log10(h.mass) < q[1]]
                    t = 1
                    if k == 'TNFW' and i:
                        rhos, rs, _ = h.nfw_params
                        t = essig(rhos, rs, 10 ** per[i[0]])
                        if fn is not None:
                            t = 0.7 * t ** 0.9
                        t = max(1, min(1000000, int(round(1000 * t))))
                    tcs.append(t)
    except Exception as e:
        if 'alpha_Rs cannot be negative' in str(e):
            raised = 'refused'
        elif 'not inside the minimum' in str(e):
            raised = 'range'
        else:
            raise
        rec.emit('esidm', _note=note, raised=raised, old=[w.obs(h, mass=False) for h in hs], new=[], p=tp, how=how,
                 bins=[[int(round(1000 * x)), int(round(1000 * y))] for x, y in bins], tcs=tcs, xcore=0, lnscale=0)
        done[raised] = done.get(raised, 0) + 1
        return
    emit_pair(w, rec, 'esidm', note, hs, res, o, done, raised='ok', p=tp, how=how, bins=[[int(round(1000 * x)), int(round(1000 * y))] for x, y in bins], tcs=tcs,
              xcore=I(x_core, 1e4), lnscale=L(scale), _slope=slope)


# -- counts and added populations --------------------------------------------------------

def probabilities(tier, seed):
    from pyHalo.realization_extensions import RealizationExtensions
    from vh.drivers.oracle import moment
    rng = np.random.RandomState(seed + 150)
    H.Infall.rng = np.random.RandomState(seed + 151)
    H.Infall.log.clear()
    np.random.seed(seed + 15)
    rec = Recorder()
    n = 1500 if tier == 'quick' else 6000
    w = World(rng, n=n, points=False, uniform_z=0.5, mass=10 ** 7.5)
    src = w.reals[0]
    ext = RealizationExtensions(src)
    age = t_gyr(10., 0.5)

    def count(name, prop, got, k):
        rec.emit('ecount', _note='%s: %d of %d, expected %d/1000' % (name, got, n, k), prop=prop, n=n, k=k, of=1000, got=int(got))

    def turned(res):
        return sum(kind(h) != 'TNFW' for h in res.halos)
    bins = [[6.0, 9.0]]
    kw = dict(x_core_halo=0.05, scale_match_r=1.3, log_slope_match=-1.9, gamma_inner=2.4)
    lt = float(np.log10(age))
    for ev, prof in ((True, 'TNFWC'), (False, 'TNFWC'), (False, 'CC_COMPOSITE')):
        count('collapse probability (%s %s)' % (ev, prof), 'C14', turned(ext.toSIDM_from_timescale(
            bins, [lt - 0.5], None, 0.0, evolving_SIDM_profile=ev, collapse_probability=0.25, halo_profile=prof, **kw)), 250)
        # log10 tc is normal: 30% of the draws fall below log10 age (non-evolving), 2.3% more than the cut for evolving ones
        if not ev:
            count('scatter of the timescale (%s)' % prof, 'C14', turned(ext.toSIDM_from_timescale(
                bins, [lt + 0.3 * 0.524401], [0.3], 0.0, evolving_SIDM_profile=ev, halo_profile=prof, **kw)), 300)
    count('scatter of the timescale (evolving)', 'C14', turned(ext.toSIDM_from_timescale(
        bins, [lt - np.log10(0.15) + 0.4 * 0.524401], [0.4], 0.0, evolving_SIDM_profile=True, **kw)), 300)
    count('list with probability', 'C14', turned(ext.toSIDM_halo_list(
        src.halos, t_c=age / 3, subhalo_evolution_scaling=1.0, collapse_probability=0.7)), 700)
    count('collapse by mass', 'C15', len(ext.core_collapse_by_mass([[6., 9.]], [[6., 9.]], [0.9], [0.3])), 300)
    count('collapse by mass, second bin', 'C15', len(ext.core_collapse_by_mass([[6., 9.]], [[6., 7.], [7.0, 9.]], [0.9], [0.9, lambda h: 0.2])), 200)
    bh = ext.add_black_holes(-1.0, 0.4, log10_mlow_halos_subres=5.9, log10_min_mbh=4.5, log_mlow_halos=6.0, LOS_normalization=0.0)
    count('black hole fraction', 'C15', len(bh.halos), 400)
    few = World(rng, n=1, points=False, uniform_z=0.5, mass=10 ** 7.5).reals[0]
    u = U()
    for f in (1.0, 0.25):              # unresolved halos host seeds as often as resolved ones
        norm, idx = u.sheth_tormen(0.5, 5.2, 6.0, 1e8, 0.0)
        mean = f * 0.4 * norm * u.volume('DOUBLE_CONE', ZL, ZS, 6.0, 0.5, ZS - 0.5) * moment(1., idx, 5.2, 6.0, 0)
        got = len(RealizationExtensions(few).add_black_holes(-0.5, f, log10_mlow_halos_subres=5.2, log10_min_mbh=4.5, log_mlow_halos=6.0,
                                                             LOS_normalization=0.4).halos)
        rec.emit('eadded', _note='black holes in a fraction %g of unresolved halos' % f, kept=True, ok=abs(got - mean) <= 6 * mean ** 0.5 + 2 + 0.03 * mean, untouched=True,
                 got=0, mean=-1, vals=[], sums=[], exact=False)
    return rec


def snapshot(w, r):
    return [(id(h), w.basic(h, True)['kept'], w.lens(h)) for h in r.halos]


def additions(tier, seed):
    from pyHalo.realization_extensions import RealizationExtensions
    rng = np.random.RandomState(seed + 160)
    H.Infall.rng = np.random.RandomState(seed + 161)
    H.Infall.log.clear()
    np.random.seed(seed + 16)
    rec = Recorder()
    rec.emit('enew')
    for rep in range(9 if tier == 'quick' else 60):
        clusters(rec, rng, RealizationExtensions, rep)
        fluctuations(rec, rng, RealizationExtensions, rep)
        seeds(rec, rng, RealizationExtensions, rep)
    return rec


def mean_of(vals, want, sd, scale):
    """a sample mean against its expectation, six standard errors"""
    n = max(1, len(vals))
    return {'got': I(np.mean(vals), scale) if len(vals) else I(want, scale), 'want': I(want, scale), 'tol': I(6 * sd / np.sqrt(n), scale) + 2}


def within(vals, lo, hi, scale):
    return [{'v': I(v, scale), 'lo': I(lo, scale) - 1, 'hi': I(hi, scale) + 1} for v in vals]


def added(rec, w, src, res, before, note, got, mean, vals, sums, ok, exact=False):
    n = len(src.halos)
    after = res.halos
    ids = [id(h) for h in after]
    kept = all(id(h) in ids for h in src.halos)
    rec.emit('eadded', _note=note, kept=kept, ok=bool(ok), untouched=snapshot(w, src) == before, got=int(got), mean=int(round(mean)) if mean >= 0 else -1,
             vals=vals, sums=sums, exact=exact)


def clusters(rec, rng, Ext, rep):
    w = World(rng)
    src = w.reals[0]
    before = snapshot(w, src)
    a = U().kpc_per_arcsec(ZL)
    R = float(rng.uniform(0.15, 0.4))
    mu, sg = float(rng.choice([4.8, 5.1, 5.3])), float(rng.choice([0.2, 0.45, 0.6]))
    several = rep % 2 == 1
    cx, cy = ([0.7, -0.9], [0.3, 0.4]) if several else ((0.4, -0.2) if rep % 4 else (0, 0))
    sd = 10 ** float(rng.uniform(7.3, 7.6))
    profile = 'PTMASS' if rep % 3 == 2 else 'SPL_CORE'
    gm, gs, sm, ss = 5.6, 0.3, 2.5, 1.0
    res = Ext(src).add_globular_clusters(mu, sg, R, gc_density_profile=profile, gamma_mean=gm, gamma_sigma=gs, gc_size_mean=sm, gc_size_sigma=ss,
                                         gc_surface_mass_density=sd, center_x=cx, center_y=cy)
    old = set(id(h) for h in src.halos)
    new = [h for h in res.halos if id(h) not in old]
    cs = list(zip(cx, cy)) if several else [(cx, cy)]
    per = int(np.pi * sd * (R * a) ** 2 / 10 ** (mu + sg ** 2 * np.log(10) / 2))
    d2 = [min((h.x - x) ** 2 + (h.y - y) ** 2 for x, y in cs) / R ** 2 for h in new]
    lm = [np.log10(h.mass) for h in new]
    vals = within(d2, 0, 1, 1e4)
    sums = [mean_of(lm, mu, sg, 1e4), mean_of((np.array(lm) - mu) ** 2, sg ** 2, sg ** 2 * 1.42, 1e4), mean_of(d2, 0.5, 0.289, 1e4)]
    if several:
        sums.append(mean_of([float((h.x - 0.7) ** 2 + (h.y - 0.3) ** 2 <= 1.0001 * R ** 2) for h in new], 0.5, 0.5, 1e4))
    ok = all(h.z == ZL and not h.is_subhalo and h.fixed_position for h in new)
    if profile == 'SPL_CORE':
        kws = [h.lenstronomy_params[0][0] for h in new]
        g = [k['gamma'] for k in kws]
        rc = [k['r_core'] * a * 1000 / (h.mass / 1e5) ** (1. / 3) for k, h in zip(kws, new)]
        vals += within(g, gm - gs, gm + gs, 1e5) + within(rc, 0.99 * (sm - ss), 1.01 * (sm + ss), 1e5)
        vals += within([H.lens_mass(h, 0.5 * h.half_mass_radius / 500 * 20, ZL) / h.mass for h in new[:3]], 0.985, 1.015, 1e4)
        sums += [mean_of(g, gm, gs / np.sqrt(3), 1e4), mean_of(rc, sm, ss / np.sqrt(3), 1e4)]
        ok = ok and all(kind(h) == 'GC' for h in new)
    else:
        ok = ok and all(kind(h) == 'BH' for h in new)
    ok = ok and len(set(h.unique_tag for h in new)) == len(new)
    added(rec, w, src, res, before, 'globular clusters %s of %g%s' % (profile, mu, ' around two centers' if several else ''),
          len(new), per * len(cs), vals, sums, ok)


def fluctuations(rec, rng, Ext, rep):
    for shape in ('ring', 'ellipse', 'aperture'):
        w = World(rng)
        src = w.reals[0]
        before = snapshot(w, src)
        a = U().kpc_per_arcsec(ZL)
        ldb = float(rng.uniform(0.3, 0.6))
        size, var = ldb * float(rng.uniform(0.3, 0.6)), 0.05 * ldb
        scale = float(rng.choice([0.5, 1.0, 2.0]))
        amp = 0.01
        few = rng.rand() < 0.5
        ims = ([1.0, -0.8, 0.3], [0.2, 0.5, -1.1])
        if shape == 'ring':
            args = {'rmin': 0.8, 'rmax': 1.2}
            area = np.pi * (1.2 ** 2 - 0.8 ** 2) * a ** 2
        elif shape == 'ellipse':
            args = {'amin': 0.8, 'amax': 1.2, 'bmin': 0.5, 'bmax': 0.9, 'angle': 0.6}
            area = np.pi * (1.2 * 0.9 - 0.8 * 0.5) * a ** 2
        else:
            args = {'x_images': ims[0], 'y_images': ims[1], 'aperture': 0.3}
            area = np.pi * 0.3 ** 2 * a ** 2
            if rng.rand() < 0.3:       # an image may well have no fluctuation at all
                scale = 0.7 * np.pi * size ** 2 / area
        per = scale * area / (np.pi * size ** 2)
        cut = 10 ** 6 if few else max(1, int(0.4 * per))
        rescale = rng.rand() < 0.7
        res = Ext(src).add_ULDM_fluctuations(ldb, amp, size, var, cut, n_fluc_scale=scale, shape=shape, args=args, rescale_fluc_amp=rescale)
        old = set(id(h) for h in src.halos)
        new = [h for h in res.halos if id(h) not in old]
        kws = [h.lenstronomy_params[0][0] for h in new]
        images = 3 if shape == 'aperture' else 1
        cutting = rescale and not few and per > 4 * 1
        vals = []
        if shape == 'ring':
            vals += within([np.hypot(k['center_x'], k['center_y']) for k in kws], 0.8, 1.2, 1e5)
        elif shape == 'aperture':
            ds = [min(np.hypot(k['center_x'] - x, k['center_y'] - y) for x, y in zip(*ims)) for k in kws]
            vals += within(ds, 0, 0.3, 1e5)
        else:
            c, s = np.cos(0.6), np.sin(0.6)
            for k in kws:
                x, y = k['center_x'] * c + k['center_y'] * s, -k['center_x'] * s + k['center_y'] * c
                vals += within([(x / 1.2) ** 2 + (y / 0.9) ** 2], 0, 1, 1e5) + within([(x / 0.8) ** 2 + (y / 0.5) ** 2], 1, 99, 1e5)
        k0 = [k['amp'] / (2 * np.pi * k['sigma'] ** 2) for k in kws]
        sums = []
        want = amp
        exact = False
        if few or not rescale:
            mean = per * images
        elif per > 30:
            mean, exact = cut * images, True
            want = amp / np.sqrt(per / cut)
        else:
            mean, want = -1, None
        if want is not None:
            slop = 1 + 6. / np.sqrt(per * images) if exact else 1
            sums += [mean_of(k0, 0, want, 1e6), dict(mean_of(np.array(k0) ** 2, want ** 2, 1.42 * want ** 2, 1e10))]
            sums[-1]['tol'] = int(sums[-1]['tol'] * slop + (slop - 1) * sums[-1]['want'])
        sums.append(mean_of([k['sigma'] * a for k in kws], size, var, 1e5))
        if shape == 'aperture':
            sums.append(mean_of([(d / 0.3) ** 2 for d in ds], 0.5, 0.289, 1e4))
        ok = all(h.z == ZL and h.fixed_position and kind(h) == 'GAUSS' and h.x == k['center_x'] and h.y == k['center_y'] for h, k in zip(new, kws))
        added(rec, w, src, res, before, 'fluctuations in %s' % shape, len(new), mean, vals, sums, ok, exact)


def seeds(rec, rng, Ext, rep):
    from vh.drivers.oracle import moment
    w = World(rng, points=False)
    src = w.reals[0]
    if rep % 3 == 1:
        hs = [h for h in src.halos]
        src = Ext(src).toSIDM_halo_list(hs, t_c=5.0, subhalo_evolution_scaling=1.0)
    elif rep % 3 == 2:
        src = Ext(src).SIS_injection(1e9)
    before = snapshot(w, src)
    ratio, mn, mx = [(-3.0, 4.503, 5.8), (-1.0, 4.4, 6.7), (-2.0, 4.2, 7.0)][rep % 3]
    los, f = [(0.0, 1.0), (0.05, 1.0), (0.3, 1.0)][rep % 3]
    lo, hi = 5.2, 6.0
    res = Ext(src).add_black_holes(ratio, f, log10_mlow_halos_subres=lo, log10_min_mbh=mn, log_mlow_halos=hi, log10_mass_maximum=mx, LOS_normalization=los)
    hosts, new = src.halos, list(res.halos)
    n = sum(h.mass * 10 ** ratio > 10 ** mn for h in hosts)
    zs = sorted(set(h.z for h in hosts))
    planes = []
    rest = new[n:]
    u = U()
    for z, z2 in zip(zs, zs[1:] + [ZS]):
        norm, idx = u.sheth_tormen(z, lo, hi, 1e8, 0.0)
        vol = u.volume('DOUBLE_CONE', ZL, ZS, 6.0, z, z2 - z)
        mean = f * los * norm * vol * moment(1., idx, max(lo, mn - ratio), hi, 0)
        mine = [h for h in rest if h.z == z]
        planes.append({'got': len(mine), 'mean': int(round(mean))})
        far = max([np.hypot(h.x, h.y) for h in mine] + [0]) / (3.0 * u.scale('DOUBLE_CONE', ZL, ZS, z))
        planes.append({'got': 0 if far <= 1.0001 else 999, 'mean': 0})
    o = lambda h: {'lm': I(np.log10(h.mass), 1e6), 'z': I(h.z, 1e6), 'x': I(h.x, 1e5), 'y': I(h.y, 1e5), 'kind': kind(h), 'sub': bool(h.is_subhalo)}
    rec.emit('eseeds', _note='black holes, ratio %g, sub-resolution normalization %g' % (ratio, los),
             hosts=[dict(o(h), rs=I(h.nfw_params[1] / u.kpc_per_arcsec(h.z), 1e5)) for h in hosts], seeds=[o(h) for h in new[:n]] + [o(h) for h in rest[:40]],
             ratio=I(ratio, 1e6), max=I(mx, 1e6), min=I(mn, 1e6), planes=planes, untouched=snapshot(w, src) == before)


# -- point masses that follow the dark matter ---------------------------------------------

def projected(w, src, z, cx, cy, R, n=240):
    """[Msun] of the halos within R of (cx, cy) inside that aperture, and the map it came from"""
    from lenstronomy.LensModel.lens_model import LensModel
    hs = [h for h in src.halos if h.z == z and np.hypot(h.x - cx, h.y - cy) < R]
    if not hs:
        return 0., None, None, None
    names, kws = [], []
    for h in hs:
        names += h.lenstronomy_ID
        kws += h.lenstronomy_params[0]
    g = (np.arange(n) + 0.5) / n * 2 * R - R
    xx, yy = [v.ravel() for v in np.meshgrid(g, g)]
    inside = np.hypot(xx, yy) <= R
    xx, yy = xx[inside], yy[inside]
    k = np.nan_to_num(LensModel(names).kappa(xx + cx, yy + cy, kws))
    u = U()
    dm = k * u.sigma_crit(z, ZS) * (u.da(z) * H.ARCSEC) ** 2 * (2 * R / n) ** 2
    return float(dm.sum()), xx, yy, dm


def blackholes(tier, seed):
    from pyHalo.realization_extensions import RealizationExtensions
    from pyHalo.single_realization import Realization
    from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
    from vh.drivers.world import path, chi
    rng = np.random.RandomState(seed + 270)
    H.Infall.rng = np.random.RandomState(seed + 271)
    H.Infall.log.clear()
    np.random.seed(seed + 27)
    rec = Recorder()
    u = U()
    for rep in range(8 if tier == 'quick' else 48):
        zs = [[0.3, 0.5, 0.8], [0.48, 0.5, 0.52, 1.2], [0.5], [0.2, 0.5, 0.51, 1.4]][rep % 4]
        images = 1 + rep % 3
        rays, paths, radii = [], [], []
        for i in range(images):
            pts = {int(1000 * z): (int(rng.randint(-40, 40)) + 150 * i, int(rng.randint(-40, 40)) - 150 * i) for z in zs}
            radii.append(float(rng.uniform(0.15, 0.35)))
            if i == 1 and rep % 4 != 0:    # the apertures of two images may overlap
                for z in zs:
                    if rng.rand() < 0.5:
                        pts[int(1000 * z)] = tuple(int(round(64 * v)) + d for v, d in zip(rays[0][z], (int(64 * 0.6 * radii[0]), 0)))
            rays.append({z: (pts[int(1000 * z)][0] / 64., pts[int(1000 * z)][1] / 64.) for z in zs})
            paths.append(path(pts))
        w = World(rng, n=1, points=False)
        conc, trunc = H.Concentration(rng), H.Truncation(rng)
        hs = []

        def put(m, x, y, z, sub=False):
            hs.append(H.halo_class('TNFW', sub)(float(m), x, y, 50. if sub else None, z, sub, w.lc, {}, trunc, conc, float(rng.rand())))
        for z in zs:
            far = rng.randint(images + 1)
            for i in range(images):
                cx, cy = rays[i][z]
                if i == far and z != 0.5:
                    continue                  # no halo near this ray on this plane
                for n_in in range(rng.randint(2, 5)):
                    r, t = radii[i] * [0.3, 1.08, 0.93, 0.6][n_in], rng.uniform(0, 6.28)
                    put(10 ** rng.uniform(7.5, 9), cx + r * np.cos(t), cy + r * np.sin(t), z, z == 0.5 and rng.rand() < 0.7)
            put(10 ** rng.uniform(7, 9), 8. + rng.rand(), -9., z)
        src = Realization.from_halos(hs, w.lc, {'kwargs_density_profile': {}}, True, None, 0.0, 0.0, w.geometry)
        before = snapshot(w, src)
        mode = ['smooth', 'clumped', 'mixed', 'clumped', 'gauss', 'gauss clumped', 'direct', 'clumped'][rep % 8]
        fh = {'smooth': 0.0, 'clumped': 1.0, 'gauss clumped': 1.0}.get(mode, 0.4)
        f = float(rng.choice([0.2, 0.5, 0.8]))
        rescale = rep % 8 != 3
        lm, sg = 4.7 if fh == 1 else 5.3, None
        kw = {}
        if 'gauss' in mode:
            sg = 0.4
            kw = dict(mass_function_type='GAUSSIAN', logM_pbh_sigma=sg)
        mpbh = 10 ** lm if sg is None else 10 ** (lm + sg ** 2 * np.log(10) / 2)
        if mode == 'direct':
            fh = 1.0
            res = RealizationExtensions(src).add_correlated_structure(
                DeltaFunction, {'mass_fraction': f, 'logM': lm, 'mass_function_type': 'DELTA'}, 'PT_MASS',
                [p[0] for p in paths], [p[1] for p in paths], 0.004, radii, rescale_normalizations=rescale)
        else:
            res = RealizationExtensions(src).add_primordial_black_holes(
                f, lm, fh, [p[0] for p in paths], [p[1] for p in paths], radii, arcsec_per_pixel=0.004, rescale_normalizations=rescale, **kw)
        tags = dict((h.unique_tag, h) for h in hs)
        new = [h for h in res.halos if kind(h) == 'BH']
        stray = 0
        planes, follow = [], []
        for z, z2 in zip(zs, zs[1:] + [ZS]):
            mine = [h for h in new if h.z == z]
            ws = wc = 0.
            for i in range(images):
                cx, cy = rays[i][z]
                sc = u.scale('DOUBLE_CONE', ZL, ZS, z)
                if mode != 'direct':
                    ws += (1 - fh) * f * u.volume('DOUBLE_CONE', ZL, ZS, 2 * radii[i], z, z2 - z) * (u.par['Om0'] - u.par['Ob0']) * u.rho_crit(0) / mpbh
                m, xx, yy, dm = projected(w, src, z, cx, cy, radii[i])
                wc += f * fh * m / mpbh
                near = [h for h in mine if np.hypot(h.x - cx, h.y - cy) < 2.5 * radii[i]]
                lone = all(np.hypot(rays[j][z][0] - cx, rays[j][z][1] - cy) > 2.5 * radii[i] + 1.1 * radii[j] for j in range(images) if j != i)
                if m > 0 and fh == 1.0 and len(near) > 40 and lone:
                    # where the mass is: half-planes and an inner disc
                    for sel, want in ((lambda x, y: x > 0, dm[xx > 0].sum() / m), (lambda x, y: y > 0, dm[yy > 0].sum() / m),
                                      (lambda x, y: np.hypot(x, y) < 0.5 * radii[i], dm[np.hypot(xx, yy) < 0.5 * radii[i]].sum() / m)):
                        got = np.mean([bool(sel(h.x - cx, h.y - cy)) for h in near])
                        follow.append({'got': I(got, 1e4), 'want': I(want, 1e4), 'tol': I(6 * np.sqrt(0.25 / len(near)) + 0.03, 1e4)})
            for h in mine:
                d = min(np.hypot(h.x - rays[i][z][0], h.y - rays[i][z][1]) / radii[i] for i in range(images))
                stray += d > (1.1 if fh > 0 else max(u.scale('DOUBLE_CONE', ZL, ZS, z), 1e-3) * 1.0001)
            planes.append({'got': len(mine), 'smooth': int(round(ws)), 'clumped': int(round(wc))})
        if sg is not None:
            follow.append(dict(mean_of([np.log10(h.mass) for h in new], lm, sg, 1e4)))
        halos = []
        for h in res.halos:
            if h.unique_tag in tags:
                o = tags[h.unique_tag]
                near = any(np.hypot(o.x - rays[i][o.z][0], o.y - rays[i][o.z][1]) < radii[i] for i in range(images))
                halos.append({'near': bool(near), 'f': I(np.log(h.lenstronomy_params[0][0]['alpha_Rs'] / o.lenstronomy_params[0][0]['alpha_Rs']), 1e6)})
        rec.emit('epbh', _note='rep %d: %s f=%g fh=%g planes %s, %d images' % (rep, mode, f, fh, zs, images), planes=planes, mode=mode, stray=int(stray),
                 kinds=all(h.mdef == 'PT_MASS' and not h.is_subhalo and h.z in zs for h in new) and len(halos) == len(hs),
                 masses=sg is not None or all(abs(h.mass / mpbh - 1) < 1e-9 for h in new), follow=follow, halos=halos, rescale=rescale,
                 lnf=I(np.log(1 - f * fh), 1e6), untouched=snapshot(w, src) == before)
    return rec
