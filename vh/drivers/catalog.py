"""Files of the Galacticus model made up by the specification, read, filtered and turned into realizations."""
import contextlib
import io
import math
import multiprocessing
import os
import random
import shutil
import tempfile
import numpy as np
from vh import tlc
from vh.rec import Recorder, I, L
from vh.drivers.oracle import Universe

RENAMED = dict(PARAM_X='px', PARAM_Y='py', PARAM_Z='pz', PARAM_ISOLATED='alone', PARAM_RADIUS_VIRIAL='rvirial', PARAM_TREE_ORDER='nth', PARAM_TREE_INDEX='which',
               PARAM_NODE_ID='number', PARAM_MASS_BOUND='mbound', PARAM_MASS_INFALL='minfall', PARAM_CONCENTRATION='cvir', PARAM_RADIUS_SCALE='rscale',
               PARAM_TNFW_RHO_S='rho', PARAM_TNFW_RADIUS_TRUNCATION='rtrunc', PARAM_Z_LAST_ISOLATED='zlast', HDF5_GROUP_NODEDATA='nodes',
               HDF5_GROUP_OUTPUT_N_PREFIX='Snap')
OWN = {'PARAM_TREE_INDEX': 'custom_treeIndex', 'PARAM_TREE_ORDER': 'custom_treeOutputOrder', 'PARAM_NODE_ID': 'id'}
OTHERS = [[dict(index=5, size=2), dict(index=4, size=3)], [dict(index=9, size=4)]]
mass = lambda rank: 10 ** (6 + 0.5 * rank)


def plain(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


class File(object):
    def __init__(self, beh, seed, folder):
        from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil
        self.rng = rng = random.Random(seed)
        self.trees, self.nodes, self.q = beh['trees'], beh['nodes'], beh['q']
        self.util = GalacticusUtil()
        if self.q['util']:
            self.util = type('Mine', (GalacticusUtil,), RENAMED)()
        u = self.util
        n = len(self.nodes)
        col = lambda k: np.array([v[k] for v in self.nodes], dtype=float)
        self.rs = np.array([rng.uniform(0.1, 3.) for _ in range(n)])              # kpc
        self.rt = np.array([rng.uniform(0.1, 9.) for _ in range(n)])
        self.conc = np.array([rng.uniform(3., 30.) for _ in range(n)])
        self.rho = np.array([10 ** rng.uniform(14., 17.) for _ in range(n)])      # at the scale radius, solar masses per cubic Mpc
        self.zlast = np.array([rng.uniform(0.5, 4.) for _ in range(n)])
        self.data = {u.PARAM_X: col('x') * 1e-3, u.PARAM_Y: col('y') * 1e-3, u.PARAM_Z: col('z') * 1e-3, u.PARAM_ISOLATED: col('iso').astype(int),
                     u.PARAM_RADIUS_VIRIAL: col('rv') * 0.5e-3, u.PARAM_MASS_BOUND: mass(col('mb')), u.PARAM_MASS_INFALL: mass(col('mi')),
                     u.PARAM_RADIUS_SCALE: self.rs * 1e-3, u.PARAM_TNFW_RADIUS_TRUNCATION: self.rt * 1e-3, u.PARAM_CONCENTRATION: self.conc,
                     u.PARAM_TNFW_RHO_S: self.rho, u.PARAM_Z_LAST_ISOLATED: self.zlast, 'mark': 7 * np.arange(n)}
        self.path = os.path.join(folder, 'f%d.hdf5' % seed)
        numbers = rng.choice([[3, 2, 1], [10, 9, 2], [11, 9, 10], [7, 1, 0]])[:1 + beh['old']]
        numbers = [max(numbers)] + [k for k in numbers if k != max(numbers)]
        self.outputs = [dict(n=k, trees=t) for k, t in zip(numbers, [self.trees] + OTHERS)]
        self.write()

    def write(self):
        import h5py
        u = self.util
        with h5py.File(self.path, 'w') as f:
            top = f.create_group(u.HDF5_GROUP_OUTPUT_PRIMARY)
            top.create_group('Version')
            top.create_group(u.HDF5_GROUP_OUTPUT_N_PREFIX + 'Times')
            order = list(enumerate(self.outputs))
            self.rng.shuffle(order)
            for i, o in order:
                g = top.create_group('%s%d' % (u.HDF5_GROUP_OUTPUT_N_PREFIX, o['n']))
                size = [t['size'] for t in o['trees']]
                g['mergerTreeCount'], g['mergerTreeIndex'] = np.array(size), np.array([t['index'] for t in o['trees']])
                g['mergerTreeStartIndex'] = np.concatenate([[0], np.cumsum(size)[:-1]]).astype(int)
                d = g.create_group(u.HDF5_GROUP_NODEDATA)
                d.create_group('more')
                d['bins'] = np.arange(sum(size) + 2)
                for k, v in self.data.items():
                    d[k] = v if i == 0 else np.resize(v, sum(size)) + (100 if k == 'mark' else 0)

    def own(self):
        return {getattr(self.util, a): b for a, b in OWN.items()}

    def read_events(self, rec):
        import h5py
        u = self.util
        for _ in range(2):
            asked = self.rng.choice([None] + [o['n'] for o in self.outputs])
            names = self.rng.choice([None, ['mark', u.PARAM_X], 'mark', ['mark', 'bins'], [], ['mark', 'absent', 'more']])
            only = self.rng.random() < 0.6
            if self.rng.random() < 0.5:
                got = u.read_nodedata_galacticus(self.path, output_index=asked, params_to_read=names, nodes_only=only)
            else:
                with h5py.File(self.path, 'r') as f:
                    got = u.hdf5_read_galacticus_nodedata(f, asked, names, only)
            own = self.own()
            with h5py.File(self.path, 'r') as f:
                listed = sorted(int(x) for x in u.hdf5_read_output_indices(f))
                i = self.rng.choice(self.outputs)['n']
                count = int(u.hdf5_read_nodecount_total(f, i))
            rec.emit('read', outputs=self.outputs, asked=-1 if asked is None else asked, listed=listed, counted=i, count=count, all=names is None,
                     names=[] if names is None else [names] if isinstance(names, str) else names, nodesonly=only,
                     sets=[dict(name=k, pernode=True) for k in self.data] + [dict(name='bins', pernode=False)],
                     keys=sorted(own.get(k, k) for k in got), order=got[u.PARAM_TREE_ORDER].tolist(), index=got[u.PARAM_TREE_INDEX].tolist(),
                     id=got[u.PARAM_NODE_ID].tolist(), mark=[int(x) for x in got['mark']] if 'mark' in got else [], main=self.outputs[0]['n'],
                     _note='output %s names %s nodes_only %s' % (asked, names, only))

    def table(self):
        return self.util.read_nodedata_galacticus(self.path)

    def normal(self):
        a, b = self.q['th'], self.q['ph']
        k = self.rng.choice([0.3, 1., 7.]) / (a['k'] * b['k'])
        return np.array([a['s'] * b['c'], a['s'] * b['s'], a['c'] * b['k']]) * k

    def filter_events(self, rec):
        from pyHalo.Halos.galacticus_util import galacticus_filter as gf
        d, u, q = self.table(), self.util, self.q
        arg = dict(galacticus_util=u) if q['util'] or self.rng.random() < 0.5 else {}
        key = u.PARAM_MASS_BOUND if q['bound'] else u.PARAM_MASS_INFALL
        ids = lambda f: np.nonzero(np.asarray(f))[0].tolist()
        chosen = gf.nodedata_filter_subhalos(d, **arg) & gf.nodedata_filter_tree(d, q['tree'], **arg)
        kept = gf.nodedata_apply_filter(d, chosen)
        pick = self.rng.randrange(len(self.nodes))
        one = gf.nodedata_select_subhalo(d, pick, **arg)
        rec.emit('filters', trees=self.trees, nodes=self.nodes, q=q, subs=ids(gf.nodedata_filter_subhalos(d, **arg)), halos=ids(gf.nodedata_filter_halos(d, **arg)),
                 tree=ids(gf.nodedata_filter_tree(d, q['tree'], **arg)), virial=ids(gf.nodedata_filter_virialized(d, **arg)),
                 range=ids(gf.nodedata_filter_range(d, (mass(q['lo']), mass(q['hi'])), key, **arg)),
                 near=ids(gf.nodedata_filter_r2d(d, q['r2'] * 0.5e-3, self.normal(), **arg)),
                 kept=[int(x) // 7 for x in kept['mark']], same=sorted(kept) == sorted(d) and len({len(v) for v in kept.values()}) == 1,
                 pick=pick, picked=int(one['mark']) // 7, _note='util %s' % q['util'])

    def make_events(self, rec):
        import h5py
        from pyHalo.PresetModels.external import DMFromGalacticus
        q, u = self.q, self.util
        uni = Universe()
        zs = self.rng.choice([1.5, 2.2])
        kpa = uni.kpc_per_arcsec(0.5)
        cone = q['r2'] / kpa
        kw = {}
        los = self.rng.choice(['CDM', 'CDM', 'WDM', 'ULDM', 'none'])
        args = {'WDM': dict(log_mc=7.), 'ULDM': dict(log10_m_uldm=-20.5, flucs=False)}.get(los, {})
        args.update(log_mlow=8., log_mhigh=9., LOS_normalization=0. if los == 'none' else 0.3)
        if los not in ('CDM', 'none') or self.rng.random() < 0.4:
            kw['preset_model_los'] = 'CDM' if los == 'none' else los
        if q['filter'] == 'mine':
            kw['nodedata_filter'] = lambda d, g: d[g.PARAM_MASS_BOUND] > mass(q['lo'])
        if q['util']:
            kw['galacticus_utilities'] = u
        if not q['bound'] or self.rng.random() < 0.5:
            kw['mass_range_is_bound'] = q['bound']
        scale = 1.
        if q['table']:
            scale = 2.5
            kw['galacticus_params_additional'] = ['mark']
            kw['galacticus_tabulate_tnfw_params'] = lambda d, g: {
                'rhos': 4e-9 * d[g.PARAM_TNFW_RHO_S], 'rs': d[g.PARAM_RADIUS_SCALE] * 1e3, 'r_trunc_kpc': 2.5e3 * d[g.PARAM_TNFW_RADIUS_TRUNCATION],
                'rv': 1e3 * d[g.PARAM_CONCENTRATION] * d[g.PARAM_RADIUS_SCALE], 'z_infall': d[g.PARAM_Z_LAST_ISOLATED], 'index': d['mark'] // 7}
        th = math.atan2(q['th']['s'], q['th']['c'])
        ph = math.atan2(q['ph']['s'], q['ph']['c']) % (2 * math.pi)
        if th or ph or self.rng.random() < 0.5:
            kw.update(proj_angle_theta=th, proj_angle_phi=ph)
        f = None
        src = self.path
        if q['source'] == 'file':
            src = f = h5py.File(self.path, 'r')
        elif q['source'] == 'dict':
            src = self.table()
        tree = q['tree'] + self.rng.choice([0, 0, 1e-9])
        np.random.seed(self.rng.randrange(10 ** 6))
        try:
            real = plain(DMFromGalacticus, src, zs, cone, tree, 6 + 0.5 * q['lo'], 6 + 0.5 * q['hi'], **kw, **args)
        finally:
            if f is not None:
                f.close()
        mine = [h for h in real.halos if type(h).__name__ == 'TNFWFromParams']
        rest = [h for h in real.halos if type(h).__name__ != 'TNFWFromParams']
        out = []
        for h in mine:
            i, p, kwl = int(h.id), h.params_physical, h.lenstronomy_params[0][0]
            out.append(dict(id=i, lm=L(h.mass), lr=[L(p['rhos']), L(self.rho[i])], ls=[L(p['rs']), L(self.rs[i])], lt=[L(p['r_trunc_kpc']), L(scale * self.rt[i])],
                            lc=[L(h.c), L(self.conc[i])], zi=[I(h.z_infall, 1e5), I(self.zlast[i], 1e5)], x=I(h.x * kpa, 100), y=I(h.y * kpa, 100),
                            z=I(h.z, 1e5), sub=bool(h.is_subhalo), r3d=I(h.r3d, 10), la=[L(kwl['Rs'] * kpa), L(kwl['r_trunc'] * kpa)]))
        # of the halos along the line of sight: outside the plane of the lens or at it, never subhalos
        rec.emit('make', trees=self.trees, nodes=self.nodes, q=q, halos=out, identity=(th == 0 and ph == 0), ranks=[L(mass(r)) for r in range(1, 9)],
                 los=los != 'none' and cone > 10, nlos=len(rest), subslos=sum(bool(h.is_subhalo) for h in rest), zl=I(real.lens_cosmo.z_lens, 1e5),
                 zs=[I(real.lens_cosmo.z_source, 1e5), I(zs, 1e5)], _note='los %s cone %.1f %s' % (los, cone, sorted(kw)))


def files(tier, seed):
    rec = Recorder()
    folder = tempfile.mkdtemp(prefix='catalog')
    try:
        for n, b in enumerate(tlc.simulate('CatalogGen', 'CatalogGen', 200 if tier == 'quick' else 3000, 90, seed)):
            f = File(b, 10000 * seed + n, folder)
            f.read_events(rec)
            f.filter_events(rec)
            os.remove(f.path)
    finally:
        shutil.rmtree(folder)
    return rec


def _make(job):
    beh, seed, folder = job
    rec = Recorder()
    f = File(beh, seed, folder)
    f.make_events(rec)
    os.remove(f.path)
    return rec.events, rec.notes


def catalogs(tier, seed):
    rec = Recorder()
    folder = tempfile.mkdtemp(prefix='catalog')
    try:
        behs = tlc.simulate('CatalogGen', 'CatalogGen', 120 if tier == 'quick' else 1500, 90, seed)
        with multiprocessing.get_context('fork').Pool(8) as pool:
            for events, notes in pool.imap(_make, [(b, 10000 * seed + n, folder) for n, b in enumerate(behs)], chunksize=1):
                for i, e in enumerate(events):
                    e = dict(e)
                    rec.emit(e.pop('op'), _note=notes.get(i + 1), **e)
    finally:
        shutil.rmtree(folder)
    return rec


def emulators(tier, seed):
    from pyHalo.PresetModels.external import DMSubhalosFromEmulator
    from pyHalo.preset_models import preset_model_from_name
    rec, rng = Recorder(), random.Random(seed)
    uni = Universe()
    for n in range(30 if tier == 'quick' else 200):
        zl, zs = rng.choice([0.2, 0.5, 0.8]), rng.choice([1.5, 2.5])
        cone = rng.choice([4., 8., 10.])
        size = rng.choice([1, 2, 9, 30])
        m = np.array([10 ** rng.uniform(6, 10) for _ in range(size)])
        c = np.array([rng.uniform(2., 40.) for _ in range(size)])
        mb, zi = m * 0.3, np.array([rng.uniform(zl, 6.) for _ in range(size)])
        rt = np.array([10 ** rng.uniform(-4., -1.5) for _ in range(size)])
        x, y = (np.array([rng.uniform(-0.03, 0.03) for _ in range(size)]) for _ in range(2))
        calls = []

        def data():
            calls.append(1)
            return m, c, mb, zi, rt, x, y
        joint = rng.random() < 0.5
        los = rng.choice(['CDM', 'WDM', 'WDMGeneral']) if joint else 'none'
        np.random.seed(n)
        if joint:
            kw = {'WDM': dict(log_mc=7.), 'WDMGeneral': dict(log_mc=7., dlogT_dlogk=-2.)}.get(los, {})
            real = plain(preset_model_from_name('JointLOSWithEmulator'), zl, zs, data, cone, los, sigma_sub=0., log_mlow=6.5, **kw)
        else:
            real = plain(DMSubhalosFromEmulator, zl, zs, data, **({} if cone == 8. else {'cone_opening_angle_arcsec': cone}))
        kpa, rhoc = uni.kpc_per_arcsec(zl), uni.rho_crit(zl)            # solar masses per cubic Mpc
        rows = []
        for i in range(size):
            rv = (3 * m[i] / (800 * math.pi * rhoc)) ** (1 / 3.) * 1e3
            rho0 = 200 / 3. * rhoc * 1e-9 * c[i] ** 3 / (math.log(1 + c[i]) - c[i] / (1 + c[i]))
            rows.append(dict(lm=L(m[i]), lc=L(c[i]), ls=L(rv / c[i]), lr=L(rho0), lt=L(rt[i] * 1e3), zi=I(zi[i], 1e5), x=I(x[i] * 1e5, 1), y=I(y[i] * 1e5, 1)))
        mine = [h for h in real.halos if type(h).__name__ == 'TNFWFromParams']
        rest = [h for h in real.halos if type(h).__name__ != 'TNFWFromParams']
        out = []
        for h in mine:
            p = h.params_physical
            out.append(dict(lm=L(h.mass), lc=L(h.c), ls=L(p['rs']), lr=L(p['rhos']), lt=L(p['r_trunc_kpc']), zi=I(h.z_infall, 1e5), x=I(h.x * kpa, 100), y=I(h.y * kpa, 100),
                            z=I(h.z, 1e5), sub=bool(h.is_subhalo), lens=[L(h.lenstronomy_params[0][0]['Rs'] * kpa), L(h.lenstronomy_params[0][0]['r_trunc'] * kpa)]))
        front = [math.hypot(h.x, h.y) for h in rest if h.z < zl - 1e-6]
        rec.emit('emulated', front=len(front), farthest=I(max(front), 1000) if front else 0, rows=rows, halos=out, calls=len(calls), joint=joint, nlos=len(rest), subslos=sum(bool(h.is_subhalo) for h in rest),
                 zl=[I(real.lens_cosmo.z_lens, 1e5), I(zl, 1e5)], zs=[I(real.lens_cosmo.z_source, 1e5), I(zs, 1e5)],
                 cone=[I(real.geometry.cone_opening_angle, 1000), I(cone, 1000)], _note='%d rows, los %s, z %s' % (size, los, zl))
    return rec
