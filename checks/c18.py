"""C18: grid and polygon utilities (spec Grid)."""
import math
import numpy as np
import vf
from vf import outcome, rval, ival, NONINT

BAD = [NONINT, NONINT, NONINT]


def rat(p, dmax=400):
    """a float point as a reduced rational point"""
    x, y = float(p[0]), float(p[1])
    if not (math.isfinite(x) and math.isfinite(y)):
        return BAD
    for d in range(1, dmax):
        a, b = x * d, y * d
        if abs(a - round(a)) < 1e-9 * d and abs(b - round(b)) < 1e-9 * d:
            return [round(a), round(b), d]
    return BAD


def observe(e, rng):
    from hexrd.core import gridutil as g
    op = e['op']
    u = rng.choice([1.0, 0.125, 64.0])
    shape = rng.random()
    v = rng.choice([1.0, 1.0, 2.0 ** -7, 2.0 ** -12, 1024.0])

    def poly(P, scale=1.0):
        a = np.array(P, dtype=float) * scale
        return P if shape < .2 and scale == 1.0 else a.tolist() if shape < .5 else a

    def go():
        if op == 'bins':
            un = rng.choice([1.0, 0.5, 0.125]) if e.get('u') is None else e['u']
            edges = np.array([e['e0'] + k * e['de'] for k in range(e['n'] + 1)], dtype=float) * un
            if shape < .15 and un == 1.0:
                edges = edges.astype(int)
            x = np.array(e['x'], dtype=float) * un
            if .15 < shape < .3 and np.all(x == np.floor(x)):
                x = x.astype(int)
            if .3 < shape < .4:
                x = x.tolist()
            if .4 < shape < .5 and len(e['x']) == 1:
                x = float(x[0])
            if isinstance(x, np.ndarray) and x.dtype.kind == 'f' and rng.random() < .5:
                # on the last edge but for rounding
                x = np.where(x == edges[-1], x + rng.choice([1e-12, -1e-12, 1e-10]), x)
            keep = np.array(x, copy=True)
            r = g.cellIndices(edges, x)
            assert np.array_equal(keep, np.array(x)) and r.dtype.kind == 'i'
            return [int(max(min(i, 10 ** 6), -10 ** 6)) for i in r]
        if op == 'conn':
            kw = {} if e['p'] == 1 and rng.random() < .5 else {'p': e['p']}
            kw.update({'origin': rng.choice(['ll', 'LL', ' ll'])} if e['ll'] else {} if rng.random() < .5 else {'origin': 'ul'})
            return [[int(k) for k in r] for r in g.cellConnectivity(e['m'], e['n'], **kw)]
        if op == 'cent':
            r = g.cellCentroids(np.array(e['crd'], float) * u, np.array(e['con']))
            return [[rval(x, len(e['con'][0]) / u) for x in row] for row in r]
        if op == 'areas':
            r = g.compute_areas(np.array(e['crd'], float) * u, np.array(e['con']))
            return [ival(x, 2 / u / u) for x in r]
        if op == 'area':
            return ival(g.computeArea(poly(e['P'], u)), 2 / u / u)
        if op == 'cross':
            r = g.computeIntersection(poly([e['a'], e['b']], v), poly([e['c'], e['d']], v))
            return rat(np.asarray(r) / v) if len(r) else []
        if op == 'side':
            args = (np.array(e['x'], float), np.array([e['a'], e['b']], float))
            return bool(g.isinside(*args) if e['ccw'] and rng.random() < .5 else g.isinside(*args, ccw=e['ccw']))
        if op == 'clip':
            return [rat(np.asarray(p) / v) for p in g.sutherlandHodgman(poly(e['A'], v), poly(e['B'], v))]
        if op == 'tol':
            un = rng.choice([1.0, 0.1, 0.05, 0.25, 0.01, 0.3, 0.7, 1e-3])
            kw = {}
            if e['adj'] or rng.random() < .3:
                kw['adjust_window'] = e['adj']
            if e['one'] or rng.random() < .3:
                kw['one_sided'] = e['one']
            # the widths as a user writes them: decimal literals
            lit = lambda k: float('%.6g' % (k * un))
            n, gr = g.make_tolerance_grid(lit(e['b']), lit(e['w']), e['sub'], **kw)
            return {'ndiv': int(n), 'grid': [rval(x, 2 * n / un) for x in gr]}
    k, v = outcome(go)
    return dict(e, obs={'k': 'v', 'v': v} if k == 'ok' else {'k': 'err', 'e': v})


def hull(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return None
    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    h = half(pts) + half(pts[::-1])
    return [list(p) for p in h] if len(h) >= 3 else None


def rpoly(rng, n=5):
    while True:
        P = hull([(rng.randint(0, n), rng.randint(0, n)) for _ in range(rng.choice([3, 4, 6, 9]))])
        if P:
            k = rng.randrange(len(P))
            return P[k:] + P[:k]


def random_event(rng):
    j = rng.random()
    if j < .35:
        A, B = rpoly(rng), rpoly(rng)
        return {'op': 'clip', 'A': A, 'B': B}
    if j < .55:
        de = rng.choice([-7, -4, -2, -1, 1, 2, 3, 5, 16])
        n = rng.choice([1, 2, 3, 8, 20])
        e0 = rng.randint(-20, 20)
        special = [e0 + k * de for k in range(-1, n + 2)]
        return {'op': 'bins', 'e0': e0, 'de': de, 'n': n, 'x': [rng.choice(special) if rng.random() < .5 else rng.randint(-40, 40) for _ in range(rng.choice([1, 3, 12]))]}
    if j < .62:
        return {'op': 'conn', 'm': rng.randint(1, 7), 'n': rng.randint(1, 7), 'p': rng.choice([1, 1, 2, 3, 4]), 'll': rng.random() < .5}
    if j < .7:
        P = rpoly(rng, 9)
        return {'op': 'area', 'P': P if rng.random() < .7 else P[::-1]}
    if j < .82:
        m, n = rng.randint(1, 4), rng.randint(1, 4)
        from hexrd.core.gridutil import cellConnectivity
        crd = [[3 * x + rng.randint(0, 1), 3 * y + rng.randint(0, 1)] for y in range(m + 1) for x in range(n + 1)]
        con = cellConnectivity(m, n, origin=rng.choice(['ul', 'll'])).tolist()
        if rng.random() < .5:
            return {'op': 'areas', 'crd': crd, 'con': con}
        if rng.random() < .3:
            crd = [c + [rng.randint(-3, 3)] for c in crd]
        return {'op': 'cent', 'crd': crd, 'con': con}
    if j < .93:
        return {'op': 'tol', 'b': rng.randint(1, 30), 'w': rng.randint(1, 60), 'sub': rng.choice([1, 1, 2, 3]), 'adj': rng.random() < .5, 'one': rng.random() < .4}
    p = lambda: [rng.randint(-6, 6), rng.randint(-6, 6)]
    if rng.random() < .5:
        return {'op': 'cross', 'a': p(), 'b': p(), 'c': p(), 'd': p()}
    return {'op': 'side', 'a': p(), 'b': p(), 'x': p(), 'ccw': rng.random() < .5}


def body(c):
    rng = c.rng
    behs = c.generate('Grid', 1)
    c.cov['model_queries'] = len(behs)
    evs = [observe(b['ev'][0], rng) for b in behs for _ in range(2 if b['ev'][0]['op'] == 'tol' else 1)]
    evs += [observe(random_event(rng), rng) for _ in range(6000 if c.quick else 150000)]
    c.judge('Grid', [{'hdr': {}, 'ev': evs[i:i + 40]} for i in range(0, len(evs), 40)])
    # coordinates that are not numbers are outside of every list of edges
    from hexrd.core import gridutil as g
    for edges in ([0., 1., 2.], [2., 1., 0.]):
        r = g.cellIndices(np.array(edges), np.array([np.nan, .5, np.inf, -np.inf]))
        c.expect(not 0 <= r[0] < 2 and 0 <= r[1] < 2 and not 0 <= r[2] < 2 and not 0 <= r[3] < 2, 'not-a-number or infinity has a bin', {'edges': edges, 'r': r.tolist()})


vf.main('C18', body)
