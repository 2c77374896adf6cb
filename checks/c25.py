"""C25: eta-omega maps (spec Maps)."""
import os
import numpy as np
import vf
from vf import outcome, rval

H = [[1, 0, 0], [1, 1, 0], [1, 1, 1], [2, 0, 0], [2, 1, 0]]
EPS = 1e-9


def rod(w):
    w = np.asarray(w, float)
    a = np.linalg.norm(w)
    if a == 0:
        return np.eye(3)
    k = w / a
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def pixel_dirs(p, b, e):
    """two theta and eta of the pixels of a panel by the definition of the angles"""
    i, j = np.meshgrid(np.arange(p['rows']), np.arange(p['cols']), indexing='ij')
    x = (j - (p['cols'] - 1) / 2) * p['size'][1]
    y = ((p['rows'] - 1) / 2 - i) * p['size'][0]
    d = np.stack([x, y, 0 * x], -1) @ rod(p['tilt']).T + p['tvec']
    d /= np.linalg.norm(d, axis=-1)[..., None]
    z = -b
    Y = np.cross(z, e)
    Y /= np.linalg.norm(Y)
    X = np.cross(Y, z)
    return np.arctan2(np.linalg.norm(np.cross(d, b), axis=-1), d @ b), np.arctan2(d @ Y, d @ X)


class World:
    def __init__(self, hdr, rng):
        from hexrd.core.instrument import HEDMInstrument
        from hexrd.core.material.crystallography import PlaneData
        from hexrd.core import valunits as vu
        self.rng, self.hdr = rng, hdr
        self.delta = rng.choice([.1, .25, .3, .7, 1., 5., 2.5])
        if hdr['full']:
            self.delta = 360. / hdr['full']
        # where omega starts (step 0 of the wedges)
        self.om0 = rng.choice([0., -180., -60., 13.3, .05, 179.9, 90.])
        self.nf = sum(w[1] for w in hdr['wedges'])
        # plane data
        self.wl, self.a = rng.choice([.5, .5, .1839701, .6199210, rng.uniform(.2, .7)]), rng.choice([2.5, 3.6, 5.])
        self.w = np.radians(rng.choice([.5, 1., 2., 4.]))
        h = [H[i] for i in range(len(hdr['excl']))]
        self.pd = PlaneData(np.array(h).T, [self.a, self.a, self.a, 90., 90., 90.], 'm3m' if False else 'oh', vu.valWUnit('w', 'length', self.wl, 'angstrom'), .001, tThWidth=self.w)
        self.pd.exclusions = np.array(hdr['excl'], bool)
        N = [sum(v * v for v in d['hkl']) for d in self.pd.hklDataList]
        tth = 2 * np.arcsin(self.wl * np.sqrt(N) / 2 / self.a)
        self.rings = [(t - self.w / 2, t + self.w / 2) for t in tth]
        # panels
        self.step = rng.choice([5., 10., 15., 22.5, 30., 45., 7., 24., 100.])
        self.nb = int(360 / self.step + 1e-9)
        b = -np.array([0, 0, 1.]) if rng.random() < .6 else None
        e = np.array([1., 0, 0]) if rng.random() < .6 else None
        cfg = {'beam': {'energy': 12.398419843320026 / self.wl, 'vector': {'azimuth': 90., 'polar_angle': 90.} if b is not None else {'azimuth': 90. + rng.uniform(-9, 9), 'polar_angle': 90. + rng.uniform(-9, 9)}},
               'oscillation_stage': {'chi': rng.choice([0., .1]), 'translation': [0., 0., 0.]}, 'detectors': {}}
        if e is None:
            e = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1), 0.])
            e /= np.linalg.norm(e)
        shared = rng.random() < .3
        n = rng.choice([1, 1, 2, 3])
        self.names = ['p%d' % k for k in range(n)]
        rng.shuffle(self.names)
        dist = rng.choice([200., 500.])
        rmax = dist * np.tan(max(tth)) if max(tth) < 1 else dist
        R, C = rng.randint(5, 12), rng.randint(5, 12)
        self.pan = {}
        for k, m in enumerate(self.names):
            rows, cols = rng.randint(3, 12), rng.randint(3, 12)
            r0, c0 = rng.randint(0, R - 3), rng.randint(0, C - 3)
            if shared:
                rows, cols = rng.randint(2, R - r0), rng.randint(2, C - c0)
            size = [2.4 * rmax / rows * rng.uniform(.3, 1), 2.4 * rmax / cols * rng.uniform(.3, 1)]
            q = dict(rows=rows, cols=cols, size=size, tilt=[rng.choice([0., rng.uniform(-.3, .3)]) for _ in range(3)],
                     tvec=[rng.uniform(-.6, .6) * rmax, rng.uniform(-.6, .6) * rmax, -dist * rng.uniform(.8, 1.2)])
            self.pan[m] = q
            det = {'pixels': {'rows': rows, 'columns': cols, 'size': size}, 'transform': {'tilt': list(q['tilt']), 'translation': list(q['tvec'])}, 'saturation_level': 1e5}
            if shared:
                det['pixels']['roi'] = [r0, c0]
                q['roi'] = (r0, c0)
            if rng.random() < .2:
                det['buffer'] = [1., 2.]
            cfg['detectors'][m] = det
        self.ins = HEDMInstrument(cfg, eta_vector=e, max_workers=1)
        bv = np.array(self.ins.beam_vector)
        # images
        def img(r, c):
            return [np.array([[rng.choice([0, rng.randint(0, 60)]) for _ in range(c)] for _ in range(r)]).reshape(r, c) for _ in range(self.nf)]
        if shared:
            base = img(R, C)
            self.raw = {rng.choice(['SHARED-IMAGES', 'SHARED-IMAGES']): base}
        else:
            self.raw = {}
        amb, panels = set(), []
        for m in self.names:
            q = self.pan[m]
            if shared:
                r0, c0 = q['roi']
                mine = [f[r0:r0 + q['rows'], c0:c0 + q['cols']] for f in base]
            else:
                mine = self.raw[m] = img(q['rows'], q['cols'])
            tt, et = pixel_dirs(q, bv, e)
            k = (np.degrees(et) + 180) / self.step
            px, where = [], []
            for i in range(q['rows']):
                for j in range(q['cols']):
                    rs = [r for r, (lo, hi) in enumerate(self.rings) if lo - EPS <= tt[i, j] <= hi + EPS]
                    if not rs:
                        continue
                    bi = int(np.floor(k[i, j])) + 1
                    near = abs(k[i, j] - round(k[i, j])) < 1e-7
                    for r in rs:
                        lo, hi = self.rings[r]
                        if near or min(abs(tt[i, j] - lo), abs(tt[i, j] - hi)) < EPS or tt[i, j] < 1e-6:
                            kk = int(round(k[i, j]))
                            for b_ in ({kk, kk + 1, 1, self.nb} if near else {bi}):
                                amb.add((r, b_))
                    px.append({'b': bi if 1 <= bi <= self.nb else 0, 'r': rs})
                    where.append((i, j))
            panels.append({'px': px, 'img': [[int(f[w]) for w in where] for f in mine]})
        self.model = {'panels': panels, 'wedges': hdr['wedges'], 'excl': hdr['excl'], 'nb': self.nb, 'amb': sorted(map(list, amb))}

    def series(self):
        from hexrd.core import imageseries
        from hexrd.core.imageseries.omega import OmegaImageSeries, OmegaWedges
        rng = self.rng
        ow = OmegaWedges(self.nf)
        for s, n in self.hdr['wedges']:
            ow.addwedge(self.om0 + s * self.delta, self.om0 + (s + n) * self.delta, n)
        d = {}
        for m, fr in self.raw.items():
            a = np.array(fr, dtype=rng.choice([np.uint16, np.int32, float, np.uint8]))
            if rng.random() < .3:
                import tempfile
                s = imageseries.open(None, 'array', data=a, meta={'omega': ow.omegas})
                fn = os.path.join(self.tmp, 'f%d.npz' % rng.randrange(10 ** 9))
                imageseries.write(s, fn, 'frame-cache', threshold=0, cache_file=fn, style='npz')
                s = imageseries.open(fn, 'frame-cache', style='npz')
            else:
                s = imageseries.open(None, 'array', data=a, meta={'omega': ow.omegas})
            d[m] = OmegaImageSeries(s)
        return d

    def arr(self, m):
        m = np.asarray(m, float)
        return np.where(np.isnan(m), -1, m).astype(int).tolist() if np.array_equal(m[~np.isnan(m)], np.round(m[~np.isnan(m)])) else 'fractions'

    def event(self, e):
        from hexrd.hedm.instrument import GenerateEtaOmeMaps
        from hexrd.hedm.xrdutil import EtaOmeMaps
        rng = self.rng
        self.ins.max_workers = e['workers']
        act = None if not e['active'] else rng.choice([list, np.array])(e['active'])
        thr = None if e['thr'] < 0 else e['thr'] / 2
        S = lambda q, u, o, sc: [rval((np.degrees(x) - o) * 2 / u, 1, 1e-6) for x in q]

        def go():
            ims = self.series()
            keep = {m: [np.array(s[i]) for i in range(len(s))] for m, s in ims.items()}
            ex, ww = self.pd.exclusions.copy(), self.pd.tThWidth
            if e['op'] == 'polar':
                mp, ed = self.ins.extract_polar_maps(self.pd, ims, active_hkls=act, threshold=thr, tth_tol=rng.choice([None, np.degrees(self.w)]), eta_tol=self.step)
                return {'m': [self.arr(mp[m]) for m in self.names], 'etaEdges': S(ed, self.step, -180, 1)}
            g = GenerateEtaOmeMaps(ims, self.ins, self.pd, active_hkls=act, eta_step=self.step, threshold=thr)
            if e['op'] == 'archive':
                fn = os.path.join(self.tmp, 'm%d.npz' % rng.randrange(10 ** 9))
                g.save(fn)
                a = EtaOmeMaps(fn)
                os.unlink(fn)
                p, q = a.planeData, self.pd
                same = np.array_equal(p.exclusions, q.exclusions) and np.array_equal(p.hkls, q.hkls) and abs(p.wavelength / q.wavelength - 1) < 1e-12 and np.array_equal(p.lparms, q.lparms) and p.laueGroup == q.laueGroup
                fn2 = fn + '.2.npz'
                a.save_eta_ome_maps(fn2)
                g = EtaOmeMaps(fn2)
                os.unlink(fn2)
            else:
                same = g.planeData is self.pd
            same = same and all(np.array_equal(keep[m][i], s[i]) for m, s in ims.items() for i in range(len(s)))
            same = bool(same and np.array_equal(ex, self.pd.exclusions) and abs(ww - self.pd.tThWidth) < 1e-12)
            o0 = self.om0 + self.hdr['wedges'][0][0] * self.delta
            return {'ids': [int(x) for x in g.iHKLList], 'm': [self.arr(x) for x in g.dataStore], 'same': same,
                    'ome': S(g.omegas, self.delta, o0, 1), 'omeEdges': S(g.omeEdges, self.delta, o0, 1), 'etas': S(g.etas, self.step, -180, 1), 'etaEdges': S(g.etaEdges, self.step, -180, 1)}
        k, v = outcome(go)
        return dict(e, obs=dict(v, k='v') if k == 'ok' else {'k': 'err', 'e': v})


def random_beh(rng):
    n = rng.randint(1, 5)
    excl = [rng.random() < .3 for _ in range(n)]
    if all(excl):
        excl[rng.randrange(n)] = False
    full = 0
    if rng.random() < .2:           # the whole turn, perhaps with a gap
        full = rng.choice([4, 6, 8, 9])
        cut = rng.randint(1, full - 2)
        gap = rng.randint(0, full - cut - 1)
        ws = rng.choice([[[0, full]], [[0, cut], [cut + gap, full - cut - gap]]])
        if gap == 0:
            ws = [[0, full]]
    else:
        ws, p = [], rng.choice([0, 0, 1, 7])
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            k = rng.randint(1, 4)
            ws.append([p, k])
            p += k + rng.randint(1, 6)
    hdr = {'wedges': ws, 'excl': excl, 'full': full}
    ev = []
    for _ in range(rng.randint(1, 3)):
        act = [] if rng.random() < .4 else [rng.randrange(n) if rng.random() < .1 else rng.choice([i for i in range(n) if not excl[i]]) for _ in range(rng.randint(1, n))]
        if rng.random() < .8:
            act = list(dict.fromkeys(act))
        ev.append({'op': rng.choice(['maps', 'maps', 'polar', 'archive']), 'active': act, 'thr': rng.choice([-1, -1, 0, 1, 20, 21, 40, 200]), 'workers': rng.choice([1, 1, 2, 3, 8])})
    return {'hdr': hdr, 'ev': ev}


def body(c):
    rng = c.rng
    behs = c.generate('Maps', 1)
    c.cov['model_behaviours'] = len(behs)
    uniq = {}
    for b in behs:
        k = (str(b['hdr']['wedges']), str(b['hdr']['excl']), str(b['ev']))
        uniq[k] = {'hdr': {'wedges': b['hdr']['wedges'], 'excl': b['hdr']['excl'], 'full': 0}, 'ev': b['ev']}
    behs = [uniq[k] for k in sorted(uniq)]
    if c.quick:
        behs = rng.sample(behs, min(len(behs), 500))
    behs += [random_beh(rng) for _ in range(400 if c.quick else 12000)]
    traces = []
    for b in behs:
        w = World(b['hdr'], rng)
        w.tmp = c.tmp
        traces.append({'hdr': w.model, 'ev': [w.event(e) for e in b['ev']], 'replay': {'delta': w.delta, 'start': w.om0, 'panels': w.pan, 'step': w.step, 'width': w.w}})
    c.judge('Maps', traces, chunk=3000)
    c.assumptions.append('pixels within 1e-9 rad of a ring edge or 1e-7 of a bin edge leave their cell open')


vf.main('C25', body)
