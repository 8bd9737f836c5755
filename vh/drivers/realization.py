"""Histories of operations on realizations (spec/Realization.tla)."""
import random
import numpy as np
from vh.rec import Recorder, Interner, I, attempt
from vh import tlc
from vh.drivers import world

UNIT = 1e5           # solar masses
KINDS = ['TNFW', 'NFW', 'TNFW', 'PT_MASS', 'GAUSSIAN_KAPPA', 'GNFW', 'SPL_CORE', 'PJAFFE', 'TNFW', 'NFW']


class Sheets(object):
    """stands for a rendering class: a name and a list of convergence sheets"""

    def __init__(self, ident, name, sheets):
        self.ident, self.name, self.sheets = ident, name, sheets

    def _out(self):
        return ([{'kappa': k / 1e6} for _, k in self.sheets], ['CONVERGENCE'] * len(self.sheets),
                [z / 1000.0 for z, _ in self.sheets])


class LosSheets(Sheets):
    def convergence_sheet_correction(self, *args, **kwargs):
        return self._out()


class SubSheets(Sheets):
    def convergence_sheet_correction(self, *args, **kwargs):
        return self._out()


class World(object):
    def __init__(self, rec, rng, zl=500, zs=1500):
        from pyHalo.Cosmology.geometry import Geometry
        self.rec, self.rng = rec, rng
        self.zl, self.zs = zl, zs
        others = [z for z in (100, 101, 253, 255, 400, 604, 750, 751, 899, 1203, 1350) if z < zs - 50 and z != zl]
        self.planes = sorted(rng.sample(others, 4) + [zl] + ([zl + 1] if rng.random() < 0.3 else []))
        self.lc = world.lens_cosmo(zl / 1000.0, zs / 1000.0)
        self.geom = Geometry(world.cosmology(), zl / 1000.0, zs / 1000.0, 6.0, 'DOUBLE_CONE')
        self.kwargs = {'truncation_model': world.FixedTruncation(), 'concentration_model': world.FixedConcentration(),
                       'kwargs_density_profile': {'amp': 0.01, 'sigma': 0.1, 'center_x': 0.3, 'center_y': -0.2,
                                                  'gamma_inner': 1.1, 'gamma_outer': 3.2, 'x_match': 2.2,
                                                  'log_slope_halo': 2.9, 'x_core_halo': 0.1}}
        self.reals = []          # rid-1 -> Realization
        self.models = []         # rid-1 -> (shifted, sheets flag, rendering class idents, kinds present)
        self.tags = {}           # unique_tag -> int
        self.kind = {}
        self.classes = {}
        self.fp = Interner()
        self.dead = set()

    # -- building -----------------------------------------------------------
    def make(self, n, shifted=False, sheets=True, special=True, grid=True):
        from pyHalo.single_realization import Realization
        rng = self.rng
        ms, xs, ys, zs, subs, kinds = [], [], [], [], [], []
        for k in range(n):
            z = rng.choice(self.planes)
            sub = z == self.zl and rng.random() < 0.7
            kind = rng.choice(KINDS)
            m = rng.choice([10, 100, 1000, 10000, rng.randint(5, 4000), rng.randint(5, 400)])
            ms.append(m)
            if grid:
                xs.append(4 * rng.randint(-24, 24)); ys.append(4 * rng.randint(-24, 24))
            else:
                xs.append(rng.randint(-120, 120)); ys.append(rng.randint(-120, 120))
            zs.append(z); subs.append(sub); kinds.append(kind)
        pts = {z: (rng.randint(-20, 20), rng.randint(-20, 20)) if rng.random() < 0.5 else (0, 0) for z in self.planes}
        cx, cy = world.path(pts)
        rcs = self.rendering_classes()
        real = Realization([m * UNIT for m in ms], [x / 64.0 for x in xs], [y / 64.0 for y in ys],
                           [30.0 + 3 * k for k in range(n)], kinds, [z / 1000.0 for z in zs], subs, self.lc,
                           kwargs_halo_model=self.kwargs, mass_sheet_correction=sheets, rendering_classes=rcs,
                           rendering_center_x=cx, rendering_center_y=cy, geometry=self.geom)
        halos = []
        for k, h in enumerate(real.halos):
            halos.append((h, kinds[k], ms[k], xs[k], ys[k], zs[k], subs[k], h.fixed_position_expected
                          if hasattr(h, 'fixed_position_expected') else kinds[k] in ('PT_MASS', 'GAUSSIAN_KAPPA')))
        if special:
            extra = []
            for h, kind, m, x, y, z, sub, fixed in list(halos):
                if kind != 'TNFW':
                    continue
                u = rng.random()
                e = None
                if u < 0.2:
                    from pyHalo.Halos.HaloModels.sis import SIS
                    e = (SIS(h), 'SIS', m, x, y, z, sub, False)
                elif u < 0.45:
                    from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloParametric, Hybrid
                    args = {'x_core_halo': 0.2, 'rt_kpc': 2.0, 'mass_conservation': 0.8 * h.mass, 'sidm_timescale': 5.0,
                            'lambda_t': 1.0}
                    t = TNFWCHaloParametric(h.mass, h.x, h.y, h.r3d, h.z, h.is_subhalo, h.lens_cosmo, args,
                                            self.kwargs['truncation_model'], self.kwargs['concentration_model'],
                                            h.unique_tag)
                    if sub:
                        t.set_bound_mass(h.bound_mass)
                    e = (t, 'TNFWC', m, x, y, z, sub, False) if rng.random() < 0.5 else \
                        (Hybrid(h, t, 0.4), 'HYBRID', m, x, y, z, sub, False)
                    if sub and e[1] == 'HYBRID':
                        e[0].set_bound_mass(h.bound_mass)
                if e is not None:
                    extra.append((h, e))
            repl = dict((id(h), e) for h, e in extra)
            halos = [repl.get(id(t[0]), t) for t in halos]
            if rng.random() < 0.6:
                from pyHalo.Halos.HaloModels.globular_cluster import GlobularCluster
                x, y = 4 * rng.randint(-10, 10), 4 * rng.randint(-10, 10)
                gc = GlobularCluster(3 * UNIT, x / 64.0, y / 64.0, self.zl / 1000.0, self.lc,
                                     {'gamma': 5.0, 'gc_size_pc': 10.0, 'gc_concentration': 8.0}, rng.random())
                halos.append((gc, 'GC', 3, x, y, self.zl, False, True))
            real = Realization.from_halos([t[0] for t in halos], self.lc, self.kwargs, sheets, rcs, cx, cy, self.geom)
        if rng.random() < 0.5:
            base, step = rng.random(), 10. ** -rng.randint(3, 11)      # tags that look alike are still different halos
            for i, t in enumerate(halos):
                t[0].unique_tag = base + step * (i + 1)
        rows = []
        want = []
        for h, kind, m, x, y, z, sub, fixed in halos:
            t = len(self.tags) + 1
            self.tags[h.unique_tag] = t
            self.kind[t] = kind
            bmexact = True
            bm, bmc = 2 * m, 200 * m
            if sub:
                if kind in ('TNFW', 'SIS'):
                    bmexact = False
                    bm, bmc = I(h.bound_mass / UNIT, 2), I(h.bound_mass / UNIT, 200)
                elif kind in ('TNFWC', 'HYBRID'):
                    bmexact = False
                    bm, bmc = I(h.bound_mass / UNIT, 2), I(h.bound_mass / UNIT, 200)
                else:
                    b = rng.choice([m, max(1, m // 2), 10, 100])
                    h.set_bound_mass(b * UNIT)
                    bm, bmc = 2 * b, 200 * b
            rows.append(dict(tag=t, m=2 * m, x=x, y=y, z=z, sub=sub, fixed=fixed, bm=bm, bmc=bmc, bmexact=bmexact,
                             kind=kind))
            want.append(t)
        ctx = dict(center=world.jpath(pts), rcs=[r.ident if r is not None else 0 for r in rcs], geom=1, lc=1,
                   sheets=sheets)
        self.reals.append(real)
        self.models.append(dict(shifted=shifted, sheets=sheets, rcs=[r for r in rcs]))
        self.rec.emit('new', halos=rows, want=want, ctx=ctx, shifted=shifted, obs=self.obs(real))
        return len(self.reals)

    def rendering_classes(self):
        out = []
        for _ in range(self.rng.choice([1, 2, 3])):
            i = len(self.classes) + 1
            u = self.rng.random()
            if u < 0.2:
                out.append(None)
                continue
            if u < 0.5:
                r = SubSheets(i, 'SUBHALOS', [(self.zl, -self.rng.randint(1, 50000))] if self.rng.random() < 0.8 else [])
            else:
                zs = sorted(self.rng.sample(self.planes, self.rng.randint(0, 3)))
                r = LosSheets(i, 'LINE_OF_SIGHT', [(z, -self.rng.randint(1, 50000)) for z in zs])
            self.classes[i] = r
            out.append(r)
        return out

    # -- projections ----------------------------------------------------------
    def tag(self, h):
        return self.tags.get(h.unique_tag, 0)

    def obs(self, real):
        hs = list(real.halos)
        center = {}
        cx, cy = real.rendering_center
        for z in self.planes:
            d = world.chi(z / 1000.0)
            center[str(z)] = {'x': I(cx(d), 65536), 'y': I(cy(d), 65536)}
        rcs = real.rendering_classes
        X = lambda v: [I(a, 65536) for a in v]
        M = lambda v: [I(a, 2000 / UNIT) for a in v]
        Z = lambda v: [I(a, 1e6) for a in v]
        R = lambda v: [I(a, 1e3) for a in v]
        return dict(tags=[self.tag(h) for h in hs], x=X(h.x for h in hs), y=X(h.y for h in hs),
                    m=M(h.mass for h in hs), z=Z(h.z for h in hs), sub=[bool(h.is_subhalo) for h in hs],
                    kinds=[h.mdef for h in hs], r3d=R(h.r3d for h in hs),
                    arr=dict(m=M(real.masses), x=X(real.x), y=X(real.y), z=Z(real.redshifts),
                             sub=[bool(b) for b in real.subhalo_flags], kinds=list(real.mdefs),
                             r3d=R(real.r3d), uz=Z(real.unique_redshifts)),
                    subtags=[self.tag(h) for h in real.subhalos], fieldtags=[self.tag(h) for h in real.field_halos],
                    ctx=dict(center=center, rcs=[r.ident if r is not None else 0 for r in rcs],
                             geom=1 if real.geometry is self.geom else 0,
                             lc=1 if real.lens_cosmo is self.lc else 0,
                             sheets=bool(real.apply_mass_sheet_correction)))

    def brief(self, real):
        hs = list(real.halos)
        return dict(tags=[self.tag(h) for h in hs], x=[I(h.x, 65536) for h in hs], y=[I(h.y, 65536) for h in hs],
                    m=[I(h.mass, 2000 / UNIT) for h in hs], z=[I(h.z, 1e6) for h in hs],
                    sub=[bool(h.is_subhalo) for h in hs])

    def push(self, real, src, rcs=None, sheets=None, shifted=None):
        m = self.models[src - 1]
        self.reals.append(real)
        self.models.append(dict(shifted=m['shifted'] if shifted is None else shifted,
                                sheets=m['sheets'] if sheets is None else sheets,
                                rcs=m['rcs'] if rcs is None else rcs))
        return len(self.reals)

    def result(self, op, src, out, want=True, n=1, **fields):
        """emit an event for an operation that returned `out` (one realization or two)"""
        outcome, val = out
        if outcome != 'ok':
            self.rec.emit('raise', clause='C01_raised', outcome=outcome, want='ok', what=op, _note=repr(val))
            return None
        r = self.reals[src - 1]
        fields['srcobs'] = self.brief(r)
        if n == 2:
            fields['obs'], fields['obs2'] = self.obs(val[0]), self.obs(val[1])
        else:
            fields['obs'] = self.obs(val)
        self.rec.emit(op, src=src, **fields)
        return val

    # -- operations -------------------------------------------------------------
    def masses_thr(self):
        """(log10 threshold, threshold in half-units); ties are exact powers of ten"""
        import math
        if self.rng.random() < 0.6:
            k = self.rng.choice([6, 7, 8, 9])
            return float(k), 2 * 10 ** (k - 5)
        t = 2 * self.rng.randint(5, 3000) + 1
        return math.log10(t / 2.0 * UNIT), t

    def rays(self, near=None):
        n = self.rng.randint(1, 4)
        out = []
        for _ in range(n):
            pts = {}
            for z in self.planes:
                pts[z] = (4 * self.rng.randint(-20, 20), 4 * self.rng.randint(-20, 20))
            if near and self.rng.random() < 0.8:
                h = self.rng.choice(near)
                a = self.rng.choice([(12, 16), (16, 12), (20, 0), (0, 20), (3, 4), (0, 0), (24, 32), (7, 24)])
                z = int(round(h.z * 1000))
                pts[z] = (int(round(h.x * 64)) + self.rng.choice([-1, 1]) * a[0],
                          int(round(h.y * 64)) + self.rng.choice([-1, 1]) * a[1])
            out.append(pts)
        return out

    def chis(self):
        return dict(chi={str(z): I(world.chi(z / 1000.0)) for z in self.planes}, chis=I(world.chi(self.zs / 1000.0)))

    def op_filter(self, s, log_thr=None, thr=None, r=None, units=None, gw=None, wmin=None, rays=None):
        real = self.reals[s - 1]
        if log_thr is None:
            log_thr, thr = self.masses_thr()
        units = units or self.rng.choice(['ANGLES', 'ANGLES', 'KPC'])
        gw = self.rng.random() < 0.6 if gw is None else gw
        wmin = wmin or self.rng.choice([0.1, 0.25, 0.5, 0.9])
        rays = rays or self.rays(real.halos)
        paths = [world.path(p) for p in rays]
        if units == 'ANGLES':
            rr = r or self.rng.choice([20, 5, 40, 25, 64])
            ap = rr / 64.0
        else:
            rr = r or self.rng.choice([200, 500, 1000, 60])
            ap = rr / 100.0
        kw = dict(aperture_units=units, geometric_weighting=gw, w_min=wmin)
        if units == 'ANGLES' and gw and wmin == 0.1 and self.rng.random() < 0.5:
            kw = {}             # the defaults
        out = attempt(real.filter, ap, log_thr, [p[0] for p in paths], [p[1] for p in paths], **kw)
        v = self.result('filter', s, out, thr=thr, r=rr, rays=[world.jpath(p) for p in rays], units=units, gw=gw,
                        wmin=I(wmin, 10000), **self.chis())
        return None if v is None else self.push(v, s)

    def op_filter_subhalos(self, s, log_thr=None, thr=None, r=None, pts=None):
        real = self.reals[s - 1]
        if log_thr is None:
            log_thr, thr = self.masses_thr()
        rr = r or self.rng.choice([20, 40, 5, 25])
        if pts is None:
            rays = self.rays(real.subhalos or real.halos or None)
            pts = [p[self.zl] for p in rays]
        out = attempt(real.filter_subhalos, rr / 64.0, log_thr, [p[0] / 64.0 for p in pts], [p[1] / 64.0 for p in pts])
        v = self.result('filter_subhalos', s, out, thr=thr, r=rr, pts=[{'x': p[0], 'y': p[1]} for p in pts])
        return None if v is None else self.push(v, s)

    def op_filter_bound(self, s, log_thr=None, thr=None):
        if log_thr is None:
            log_thr, thr = self.masses_thr()
        out = attempt(self.reals[s - 1].filter_bound_mass, 10 ** log_thr)
        v = self.result('filter_bound_mass', s, out, thr=thr)
        return None if v is None else self.push(v, s)

    def op_split(self, s, z=None):
        z = z or self.rng.choice(self.planes + [self.planes[0] + 1, self.planes[2] - 1, 50, 1450])
        out = attempt(self.reals[s - 1].split_at_z, z / 1000.0)
        v = self.result('split_at_z', s, out, z=z, n=2)
        if v is None:
            return None
        a = self.push(v[0], s)
        self.push(v[1], s)
        return a

    def op_atz(self, s, z=None, ranged=None, r=None, p=None, sheets=None):
        from pyHalo.single_realization import realization_at_z
        real = self.reals[s - 1]
        z = z or self.rng.choice(self.planes)
        ranged = self.rng.random() < 0.6 if ranged is None else ranged
        r = r or self.rng.choice([20, 40, 64, 5])
        p = p or self.rays([h for h in real.halos if int(round(1000 * h.z)) == z] or None)[0][z]
        sheets = self.rng.random() < 0.5 if sheets is None else sheets
        kw = dict(mass_sheet_correction=sheets)
        if ranged:
            kw.update(angular_coordinate_x=p[0] / 64.0, angular_coordinate_y=p[1] / 64.0, max_range=r / 64.0)
        out = attempt(realization_at_z, real, z / 1000.0, **kw)
        if out[0] == 'ok':
            out = ('ok', out[1][0]), [int(i) for i in out[1][1]]
        else:
            out = out, []
        v = self.result('realization_at_z', s, out[0], z=z, ranged=ranged, r=r, p={'x': p[0], 'y': p[1]},
                        sheets=sheets, indexes=out[1])
        return None if v is None else self.push(v, s, sheets=sheets)

    def op_join(self, a, b, classes=None):
        classes = self.rng.random() < 0.5 if classes is None else classes
        ra, rb = self.reals[a - 1], self.reals[b - 1]
        out = attempt(ra.join, rb, join_rendering_classes=classes) if classes or self.rng.random() < 0.5 \
            else attempt(ra.join, rb)
        v = self.result('join', a, out, other=b, classes=classes, otherobs=self.brief(rb))
        rcs = self.models[a - 1]['rcs'] + (self.models[b - 1]['rcs'] if classes else [])
        return None if v is None else self.push(v, a, rcs=rcs)

    def op_eq(self, a, b):
        out, v = attempt(lambda: self.reals[a - 1] == self.reals[b - 1])
        self.rec.emit('eq', src=a, other=b, res=bool(v) if out == 'ok' else 'raised')

    def op_shift(self, s, zmin=None, peek=None):
        real = self.reals[s - 1]
        zmin = self.rng.choice([0, 0, 300, self.zl, self.planes[1], self.planes[1] + 1]) if zmin is None else zmin
        peek = self.rng.random() < 0.5 if peek is None else peek
        if peek:               # lensing quantities looked at before the realization is moved
            attempt(real.lensing_quantities)
        pts = {z: (self.rng.randint(-60, 60), self.rng.randint(-60, 60)) for z in self.planes}
        cx, cy = world.path(pts)
        out = attempt(real.shift_background_to_source, cx, cy, zmin / 1000.0) if zmin \
            else attempt(real.shift_background_to_source, cx, cy)
        if out[0] != 'ok':
            self.rec.emit('raise', clause='C03_raised', outcome=out[0], want='ok', what='shift', _note=repr(out[1]))
            return None
        was = self.models[s - 1]['shifted']
        self.rec.emit('shift', src=s, zmin=zmin, ray=world.jpath(pts), obs=self.obs(out[1]))
        rid = self.push(out[1], s, shifted=True)
        if not was:
            # halos are moved in place: every realization sharing one is superseded
            moved = set(id(h) for h in out[1].halos if not h.fixed_position)
            for k, r in enumerate(self.reals[:-1]):
                if any(id(h) in moved for h in r.halos):
                    self.dead.add(k + 1)
        return rid

    def op_lens(self, s, addsheets=None):
        real = self.reals[s - 1]
        m = self.models[s - 1]
        addsheets = self.rng.random() < 0.7 if addsheets is None else addsheets
        hfp = []
        for h in real.halos:
            for kw in h.lenstronomy_params[0]:
                hfp.append(self.fingerprint(kw))
        out = attempt(real.lensing_quantities, add_mass_sheet_correction=addsheets) if not addsheets or \
            self.rng.random() < 0.5 else attempt(real.lensing_quantities)
        if out[0] != 'ok':
            self.rec.emit('raise', clause='C04_raised', outcome=out[0], want='ok', what='lensing_quantities',
                          _note=repr(out[1]))
            return
        names, zs, kws, _ = out[1]
        sheets = []
        for r in m['rcs']:
            if r is not None:
                sheets += [{'z': z, 'kappa': k} for z, k in r.sheets]
        conv = [kw for n, kw in zip(names, kws) if n == 'CONVERGENCE']
        self.rec.emit('lens', src=s, addsheets=addsheets, names=list(names), zs=[I(z, 1e6) for z in zs],
                      cx=[I(kw.get('center_x', kw.get('ra_0')), 1e4) for kw in kws],
                      cy=[I(kw.get('center_y', kw.get('dec_0')), 1e4) for kw in kws],
                      fp=[self.fingerprint(kw) for kw in kws], hfp=hfp, sheets=sheets,
                      kappa=[I(kw.get('kappa'), 1e6) for kw in conv],
                      ra=[I(kw.get('ra_0'), 65536) for kw in conv], dec=[I(kw.get('dec_0'), 65536) for kw in conv])

    def fingerprint(self, kw):
        return self.fp(tuple(sorted((k, float(v)) for k, v in kw.items())))

    def op_count(self, s, z=None):
        real = self.reals[s - 1]
        z = z or self.rng.choice([10 * p for p in self.planes] + [self.zl * 10] * 3 + [4550, 10, 14990, 10 * self.planes[1] + 10])
        zz = z / 10000.0
        halos, idx = real.halos_at_z(zz)
        out = attempt(real.mass_at_z_exact, zz)
        cx, cy, lm, cz = real.halo_comoving_coordinates()
        self.rec.emit('count', src=s, z=z, zlens=self.zl, before=real.number_of_halos_before_redshift(zz),
                      after=real.number_of_halos_after_redshift(zz), at=real.number_of_halos_at_redshift(zz),
                      listed=[self.tag(h) for h in halos], index=[int(i) for i in idx],
                      mass=I(out[1], 200 / UNIT) if out[0] == 'ok' else -1,
                      comx=[I(v, 640) for v in cx], comy=[I(v, 640) for v in cy], comz=[I(v, 1e6) for v in cz],
                      chi10={str(p): I(world.chi(p / 1000.0), 10) for p in self.planes})

    def live(self):
        return [k for k in range(1, len(self.reals) + 1) if k not in self.dead]


def history(rec, rng, steps):
    w = World(rec, rng, zl=rng.choice([500, 400, 604, 455]), zs=rng.choice([1500, 2000, 1400]))
    w.make(rng.randint(5, 12), sheets=rng.random() < 0.8, grid=rng.random() < 0.7)
    if rng.random() < 0.8:
        w.make(rng.randint(2, 6), sheets=rng.random() < 0.8)
    if rng.random() < 0.2:
        w.make(0, special=False)
    for _ in range(steps):
        live = w.live()
        s = rng.choice(live[-6:] if rng.random() < 0.8 else live)
        u = rng.random()
        if u < 0.24:
            w.op_filter(s)
        elif u < 0.38:
            w.op_filter_subhalos(s)
        elif u < 0.46:
            w.op_filter_bound(s)
        elif u < 0.54:
            w.op_split(s)
        elif u < 0.64:
            w.op_atz(s)
        elif u < 0.78:
            mates = [b for b in live if w.models[b - 1]['shifted'] == w.models[s - 1]['shifted']]
            w.op_join(s, rng.choice(mates))
        elif u < 0.84:
            w.op_eq(s, rng.choice(live))
        elif u < 0.90:
            w.op_shift(s)
        elif u < 0.95:
            w.op_lens(s)
        else:
            w.op_count(s)
    for s in w.live()[-5:]:
        w.op_lens(s)
        w.op_count(s)
    # second alignment of everything derived from an aligned realization
    for s in [k for k in w.live() if w.models[k - 1]['shifted']][-4:]:
        w.op_shift(s, zmin=0)
        w.op_lens(len(w.reals))


def generated(rec, rng, seed, num, depth):
    """operation sequences chosen by TLC from spec/RealizationGen.tla"""
    behs = tlc.simulate('RealizationGen', 'RealizationGen', num, depth, seed)
    for beh in behs:
        w = World(rec, rng)
        w.planes = [200, 350, 500, 700, 900]
        w.make(7, grid=True)
        w.make(3, grid=True)
        for o in beh:
            name, s = o['op'], o['s']
            if s > len(w.reals) or s in w.dead:
                continue
            if name == 'filter':
                w.op_filter(s, float(o['a']), 2 * 10 ** (o['a'] - 5), units=o['u'], gw=o['g'])
            elif name == 'sub':
                w.op_filter_subhalos(s, float(o['a']), 2 * 10 ** (o['a'] - 5))
            elif name == 'bound':
                w.op_filter_bound(s, float(o['a']), 2 * 10 ** (o['a'] - 5))
            elif name == 'split':
                w.op_split(s, o['a'])
            elif name == 'atz':
                w.op_atz(s, o['a'], o['g'])
            elif name == 'join':
                if o['b'] > len(w.reals) or o['b'] in w.dead or \
                        w.models[o['b'] - 1]['shifted'] != w.models[s - 1]['shifted']:
                    continue
                w.op_join(s, o['b'], o['g'])
            elif name == 'shift':
                w.op_shift(s, o['a'], o['g'])
            elif name == 'lens':
                w.op_lens(s, o['g'])
            elif name == 'eq':
                if o['b'] <= len(w.reals):
                    w.op_eq(s, o['b'])
        for s in w.live()[-3:]:
            w.op_lens(s)
            w.op_count(s)
        yield


def histories(tier, seed):
    rng = random.Random(1000 + seed)
    n, steps = (80, 30) if tier == 'quick' else (600, 60)
    recs = []
    for _ in range(n):
        r = Recorder()
        history(r, rng, steps)
        recs.append(r)
    g = []
    num, depth = (60, 14) if tier == 'quick' else (600, 14)
    r = Recorder()
    for _ in generated(r, rng, seed, num, depth):
        g.append(r.events)
        r.events = []
    out = list(recs)
    for ev in g:
        q = Recorder()
        q.events = ev
        out.append(q)
    # few TLC starts: several histories per trace, heap and realization numbers continue
    k = 4 if tier == 'quick' else 24
    return [merge(out[i::k]) for i in range(k)]


def merge(recs):
    """one trace out of several independent histories (separated by a reset event)"""
    m = Recorder()
    for r in recs:
        if not r.events:
            continue
        m.emit('reset')
        off = len(m.events)
        m.events += r.events
        m.notes.update({k + off: v for k, v in r.notes.items()})
    return m
