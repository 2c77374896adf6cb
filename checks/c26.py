"""C26: fibres, seeds and clusters of orientations (spec Search)."""
import copy
from types import SimpleNamespace as NS
import numpy as np
import vf
from vf import outcome, rval, NONINT

S2, S3 = np.sqrt(.5), np.sqrt(.75)
GENS = {'ci': [], 'c2h': [[0, 0, 1, 0]], 'd2h': [[0, 1, 0, 0], [0, 0, 1, 0]], 'c4h': [[S2, 0, 0, S2]], 'd4h': [[S2, 0, 0, S2], [0, 1, 0, 0]],
        'th': [[0, 1, 0, 0], [0, 0, 1, 0], [.5, .5, .5, .5]], 'oh': [[S2, 0, 0, S2], [S2, S2, 0, 0]],
        'c3i': [[.5, 0, 0, S3]], 'd3d': [[.5, 0, 0, S3], [0, 1, 0, 0]], 'c6h': [[S3, 0, 0, .5]], 'd6h': [[S3, 0, 0, .5], [0, 1, 0, 0]]}


def qm(p, q):
    return np.array([p[0] * q[0] - p[1:] @ q[1:], *(p[0] * q[1:] + q[0] * p[1:] + np.cross(p[1:], q[1:]))])


def group(tag):
    G = [np.array([1., 0, 0, 0])]
    todo = list(G)
    while todo:
        a = todo.pop()
        for g in GENS[tag]:
            b = qm(a, np.array(g, float))
            if all(abs(abs(b @ x) - 1) > 1e-9 for x in G):
                G.append(b)
                todo.append(b)
    return G


def mat(q):
    a, b, c, d = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)], [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]])


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


def perp(c):
    e = np.eye(3)[np.argmin(np.abs(c))]
    return unit(np.cross(c, e))


def phases(qs, c, s, ndiv, G, ref=None):
    """for each orientation the divisions of the fibre c -> s that it, or an equivalent, is"""
    c, s = unit(c), unit(s)
    u = perp(c)
    v = perp(s)
    w = np.cross(s, v)
    GR = [mat(g) for g in G]
    raw = []
    for q in np.asarray(qs, float).T:
        R = mat(q) if np.all(np.isfinite(q)) and np.linalg.norm(q) > 0 else np.full((3, 3), np.nan)
        p = []
        for g in GR:
            if np.linalg.norm(R @ g @ c - s) < 1e-6:
                x = R @ g @ u
                p.append(np.arctan2(x @ w, x @ v) * ndiv / 2 / np.pi)
        raw.append(p)
    if ref is None:
        ref = next((p[0] for p in raw if p), 0)
    out = []
    for p in raw:
        ks = [rval(x - ref, 1, 1e-5) for x in p]
        out.append(sorted({k % ndiv for k in ks if k != NONINT}))
    return out, ref


def reduced(qs, G):
    return bool(np.all(np.abs(np.linalg.norm(qs, axis=0) - 1) < 1e-9) and all(q[0] >= max(abs(qm(q, g)[0]) for g in G) - 1e-7 for q in np.asarray(qs).T))


def cell(rng, tag):
    a, b, c = rng.uniform(3, 5), rng.uniform(3, 6), rng.uniform(3, 7)
    if tag in ('oh', 'th'):
        return [a, a, a, 90., 90., 90.]
    if tag in ('c4h', 'd4h'):
        return [a, a, c, 90., 90., 90.]
    if tag in ('c3i', 'd3d', 'c6h', 'd6h'):
        return [a, a, c, 90., 90., 120.]
    return [a, b, c, 90., 90., 90.]


def recip(lp):
    a, b, c, _, _, ga = lp
    ga = np.radians(ga)
    A = np.array([[a, 0, 0], [b * np.cos(ga), b * np.sin(ga), 0], [0, 0, c]])
    return np.linalg.inv(A)        # columns: reciprocal vectors, a along x, b in the xy plane


def rq(rng, r=4):
    while True:
        q = [rng.randint(-r, r) for _ in range(4)]
        if any(q):
            return q


def blob(rng, r, c, n):
    k = rng.choice([0, 0, 1, 2, 3])
    if k == 0:
        return [[r, c, n]]
    if k == 1:
        return [[r, c, n], [r, c + 1, n]]
    if k == 2:
        return [[r, c, n], [r + 1, c, n + rng.randint(0, 3)]]
    return [[r, c, n], [r + 1, c, n], [r + 1, c + 1, n + 2]]


class World:
    def __init__(self, rng, hdr, lp=None):
        self.rng, self.hdr, self.tag = rng, hdr, hdr['group']
        self.G = group(self.tag)
        self.lp = cell(rng, self.tag)
        self.B = recip(self.lp)

    # ---- maps
    def setup(self):
        from hexrd.core.material.crystallography import PlaneData
        from hexrd.core import valunits as vu
        rng = self.rng
        pool = [[1, 0, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [1, 1, 1], [2, 0, 0], [2, 1, 0], [2, 1, 1], [0, 0, 2], [2, 1, 3]]
        if self.tag in ('oh', 'th'):
            pool = [[1, 0, 0], [1, 1, 0], [1, 1, 1], [2, 0, 0], [2, 1, 0], [2, 1, 1], [3, 2, 1]]
        h = rng.sample(pool, rng.randint(len(self.hdr['maps']), len(pool)))
        lp = {'oh': [0], 'th': [0], 'c2h': [0, 1, 2, 4], 'd2h': [0, 1, 2], 'ci': range(6)}.get(self.tag, [0, 2])
        self.pd = PlaneData(np.array(h).T, [self.lp[i] for i in lp], self.tag, vu.valWUnit('w', 'length', .3, 'angstrom'), .001, tThWidth=.01)
        n = len(h)
        ex = np.zeros(n, bool)
        ex[rng.sample(range(n), rng.randint(0, n - len(self.hdr['maps'])))] = True
        self.pd.exclusions = ex
        ids = self.pd.getHKLID(self.pd.hkls, master=True)
        hk = [list(int(x) for x in v) for v in self.pd.hkls.T]
        pick = rng.sample(range(len(ids)), len(self.hdr['maps']))
        self.hkls = [hk[i] for i in pick]
        self.ids = np.array([ids[i] for i in pick])
        sh = (14, 20)
        self.ome0, self.dome = np.radians(rng.choice([0., -60., 10.])), np.radians(rng.choice([.25, 1., 5.]))
        self.eta0, self.deta = -np.pi, 2 * np.pi / sh[1]
        if rng.random() < .3:
            self.dome = -self.dome
        bg = rng.choice([0, 0, 3])
        self.data = []
        for bl in self.hdr['maps']:
            m = np.full(sh, float(bg))
            for b in bl:
                for r, c, v in b:
                    m[r, c] += v
            if rng.random() < .4:           # never measured
                z = [k for k in range(sh[1]) if all(p[1] != k for b in bl for p in b)]
                m[:, rng.sample(z, min(3, len(z)))] = np.nan
            self.data.append(m)
        ome = self.ome0 + self.dome * np.arange(sh[0] + 1)
        eta = self.eta0 + self.deta * np.arange(sh[1] + 1)
        self.maps = NS(planeData=self.pd, iHKLList=self.ids, dataStore=self.data, omeEdges=ome, etaEdges=eta, omegas=ome[:-1] + self.dome / 2, etas=eta[:-1] + self.deta / 2)
        self.chi = rng.choice([0., 0., .1])

    def sample_dir(self, hkl, row, col):
        d = 1 / np.linalg.norm(self.B @ hkl)
        th = np.arcsin(.3 / 2 / d)
        ome, eta = self.ome0 + (row + .5) * self.dome, self.eta0 + (col + .5) * self.deta
        g = np.array([np.cos(th) * np.cos(eta), np.cos(th) * np.sin(eta), np.sin(th)])
        x, c, s, C, S = self.chi, np.cos(ome), np.sin(ome), np.cos(self.chi), np.sin(self.chi)
        R = np.array([[1, 0, 0], [0, C, -S], [0, S, C]]) @ np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
        return R.T @ g

    def event(self, e):
        from hexrd.core import rotations as rot
        from hexrd.hedm import findorientations as fo
        rng, G, op = self.rng, self.G, e['op']
        wrap = rng.choice([np.array, list, lambda v: np.array(v).reshape(3, 1)])

        def go():
            if op == 'fiber':
                c = self.B @ e['c'] if e['useB'] else np.array(e['c'], float)
                kw = {'B': self.B} if e['useB'] else {}
                if e['sym']:
                    kw['csym'] = rng.choice([self.tag, rot.quatOfLaueGroup(self.tag)])
                q = rot.discreteFiber(wrap(e['c']), wrap(e['s']), ndiv=e['ndiv'], **kw)
                assert len(q) == 1
                q = q[0]
                if e['unique']:
                    from hexrd.core import matrixutil as mu
                    q = mu.uniqueVectors(q)
                assert q.shape[0] == 4
                ph, _ = phases(q, c, e['s'], e['ndiv'], G if e['sym'] else [np.array([1., 0, 0, 0])])
                return {'n': q.shape[1], 'ph': ph, 'fz': reduced(q, G), 'unit': bool(np.all(np.abs(np.linalg.norm(q, axis=0) - 1) < 1e-9) and np.all(q[0] >= -1e-9))}
            if op == 'distance':
                q = np.array([unit(x) for x in e['q']]).T
                d = np.atleast_1d(rot.distanceToFiber(wrap(e['c']), wrap(e['s']), q, rot.quatOfLaueGroup(self.tag), centrosymmetry=e['cs']))
                nc = np.linalg.norm(e['c']) * np.linalg.norm(e['s'])
                return {'d': [rval(np.cos(x) * nc * sum(v * v for v in k), 1, 1e-4) for x, k in zip(d, e['q'])]}
            if op == 'seeds':
                self.setup()
                keep = copy.deepcopy(self.data)
                cfg = NS(multiprocessing=e['cpus'], instrument=NS(hedm=NS(chi=self.chi)),
                         find_orientations=NS(seed_search=NS(hkl_seeds=[m - 1 for m in e['maps']], fiber_ndiv=e['ndiv'], method={'label': {'filter_radius': rng.choice([0, None]), 'threshold': e['thr']}})))
                q = fo.generate_orientation_fibers(cfg, self.maps)
                own, at = [], []
                for m, bl in enumerate(self.hdr['maps']):
                    for k, b in enumerate(bl):
                        px = [p for p in b if p[2] > e['thr']]
                        if not px:
                            continue
                        t = sum(p[2] for p in px)
                        r, c = sum(p[0] * p[2] for p in px), sum(p[1] * p[2] for p in px)
                        at.append({'spot': [m + 1, k + 1], 'c': [r, c, t]})
                        ph, _ = phases(q, self.B @ self.hkls[m], self.sample_dir(self.hkls[m], r / t, c / t), e['ndiv'], G)
                        own += [{'spot': [m + 1, k + 1], 'i': i + 1, 'ph': p} for i, p in enumerate(ph) if p]
                return {'n': q.shape[1], 'own': own, 'at': at, 'fz': reduced(q, G), 'same': all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, self.data))}
            # clusters
            rad = e['radius']
            grains, exact = self.grains(e), e['alg'] in ('sph-dbscan', 'fclusterdata')
            one = e['min'] > 1 and not exact
            pairs, qs = {}, []
            for m in e['members']:
                g = grains[m['g']]
                # members come in opposite pairs about the grain
                if m['g'] in pairs:
                    d = -pairs.pop(m['g'])
                else:
                    d = unit([rng.gauss(0, 1) for _ in range(3)]) * np.radians(rad) / 10 * rng.random()
                    pairs[m['g']] = d
                x = qm(g, np.array([np.cos(np.linalg.norm(d) / 2), *(np.sinc(np.linalg.norm(d) / 2 / np.pi) / 2 * d)]))
                y = x if one else qm(x, rng.choice(G))
                if e['reduced'] and not one:
                    y = max((qm(x, h) for h in G), key=lambda z: abs(z[0]))
                qs.append(y if y[0] >= 0 else -y)
            even = not pairs and all(m['s'] > e['thr'] for m in e['members'])
            cfg = NS(multiprocessing=1, find_orientations=NS(use_quaternion_grid='x.npy' if e['grid'] else None, clustering=NS(algorithm=e['alg'], radius=rad if not e['override'] else 77., completeness=e['thr'] / 100 if not e['override'] else .999)))
            kw = dict(compl_thresh=e['thr'] / 100, radius=rad) if e['override'] else {}
            q0 = np.array(qs).T
            qsym = rot.quatOfLaueGroup(self.tag)
            qbar, cl = fo.run_cluster(rng.choice([list, np.array])([m['s'] / 100 for m in e['members']]), q0.copy(), qsym, cfg, min_samples=e['min'], **kw)
            got = []
            if np.size(qbar):
                for q in np.asarray(qbar).reshape(4, -1).T:
                    mis = [2 * np.arccos(min(1, max(abs(qm(q, h) @ g) for h in G))) for g in grains]
                    i = int(np.argmin(mis))
                    tol = 2e-7 + (np.radians(rad) / 10 if not (even and exact) else 1e-6)
                    got.append(i if mis[i] < tol else -1)
            return {'got': got, 'label': [int(x) for x in cl]}
        k, v = outcome(go)
        return dict(e, obs=dict(v, k='v') if k == 'ok' else {'k': 'err', 'e': v})

    def grains(self, e):
        n = 1 + max(m['g'] for m in e['members'])
        out = []
        while len(out) < n:
            q = unit([self.rng.gauss(0, 1) for _ in range(4)])
            q = max((qm(q, g) for g in self.G), key=lambda x: abs(x[0]))
            q = q if q[0] > 0 else -q
            if e['alg'] == 'ort-dbscan' and q[0] < .4:
                continue
            if all(max(abs(qm(q, g) @ x) for g in self.G) < np.cos(np.radians(4 * e['radius']) / 2) for x in out):
                out.append(q)
        return out


def random_beh(rng):
    tag = rng.choice(list(GENS))
    maps, ev = [], []
    for _ in range(rng.randint(1, 4)):
        bl = []
        for r in rng.sample([0, 3, 6, 9, 12], rng.randint(0, 3)):
            bl.append(blob(rng, r, rng.randint(0, 18), rng.randint(1, 60)))
        maps.append(bl)
    if not any(maps):
        maps[0] = [[[3, 5, 9]]]
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(['fiber', 'fiber', 'distance', 'seeds', 'cluster', 'cluster'])
        c = rng.choice([[1, 0, 0], [0, 0, 1], [1, 1, 0], [1, 1, 1], [2, 1, 0], [-1, 2, 3], [0, 0, -2], [3, 1, -1]])
        s = rng.choice([[1, 0, 0], [0, 0, 1], [0, 0, -1], [-1, -1, 0], [2, -1, 3], [-1, 2, 3], [1, -2, -3], [-c[0], -c[1], -c[2]], c])
        if op == 'fiber':
            ev.append({'op': op, 'c': c, 's': s, 'ndiv': rng.choice([2, 3, 4, 5, 7, 12, 30]), 'sym': rng.random() < .6, 'unique': False, 'useB': rng.random() < .5})
            ev[-1]['unique'] = rng.random() < .4
        elif op == 'distance' and tag not in ('c3i', 'd3d', 'c6h', 'd6h'):
            ev.append({'op': op, 'c': c, 's': s, 'q': [rq(rng) for _ in range(rng.choice([1, 1, 2, 5]))], 'cs': rng.random() < .5})
        elif op == 'seeds':
            k = rng.sample(range(1, len(maps) + 1), rng.randint(1, len(maps)))
            top = max((p[2] for m in k for b in maps[m - 1] for p in b), default=0)
            if top == 0:
                continue
            lo = min(top - 1, rng.choice([0, 0, 1, 5, 20]))
            ev.append({'op': op, 'maps': k, 'thr': lo, 'ndiv': rng.choice([2, 4, 9, 12]), 'cpus': 1})
        elif op == 'cluster':
            ng, big = rng.randint(1, 4), rng.random() < .3
            mem = []
            for g in range(ng):
                mem += [{'g': g, 's': rng.choice([95, 95, 90, 80, 60, 61, 59])} for _ in range(rng.choice([1, 2, 3, 4, 8 if big else 2]))]
            if rng.random() < .4:
                for m in mem:
                    m['s'] = 95
            rng.shuffle(mem)
            ev.append({'op': op, 'alg': rng.choice(['dbscan', 'ort-dbscan', 'sph-dbscan', 'fclusterdata']), 'min': rng.choice([1, 1, 2, 3]), 'grid': rng.random() < .15, 'thr': rng.choice([60, 60, 0, 80, 94, 95]), 'members': mem,
                       'radius': rng.choice([.5, 1., 2., 4.]), 'override': rng.random() < .5, 'reduced': rng.random() < .4})
    return {'hdr': {'group': tag, 'maps': maps}, 'ev': ev}


def fill(rng, e):
    e = dict(e)
    if e['op'] == 'fiber':
        e['useB'] = rng.random() < .5
    if e['op'] == 'seeds':
        e['cpus'] = 1
    if e['op'] == 'cluster':
        e.update(radius=rng.choice([.5, 1., 4.]), override=rng.random() < .5, reduced=rng.random() < .4)
    return e


def body(c):
    rng = c.rng
    behs = c.generate('Search', 1)
    c.cov['model_behaviours'] = len(behs)
    if c.quick:
        behs = rng.sample(behs, min(len(behs), 500))
    behs = [{'hdr': {'group': b['hdr']['group'], 'maps': b['hdr']['maps']}, 'ev': [fill(rng, x) for x in b['ev']]} for b in behs]
    behs = [b for b in behs if not any(e['op'] == 'seeds' and not any(p[2] > e['thr'] for m in e['maps'] for bl in b['hdr']['maps'][m - 1] for p in bl) for e in b['ev'])]
    behs += [random_beh(rng) for _ in range(700 if c.quick else 20000)]
    # several processes
    n = 0
    for b in behs[::-1]:
        for e in b['ev']:
            if e['op'] == 'seeds' and n < (3 if c.quick else 20):
                e['cpus'] = 2 + n % 2
                n += 1
    traces = []
    for b in behs:
        w = World(rng, b['hdr'])
        traces.append({'hdr': b['hdr'], 'ev': [w.event(e) for e in b['ev']], 'replay': {'lp': w.lp}})
    c.judge('Search', traces, chunk=6000)
    c.assumptions.append('grains are at least four cluster radii apart, members within a tenth of a radius of their grain')


vf.main('C26', body)
