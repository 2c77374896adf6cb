"""C23: fundamental region and misorientation (spec FundReg)."""
import itertools
import numpy as np
import vf
from vf import outcome, NONINT

RING = {'ci': (2, 3), 'c2h': (2, 3), 'd2h': (2, 3), 'c4h': (2,), 'd4h': (2,), 'th': (2,), 'oh': (2,),
        'c3i': (3,), 'd3d': (3,), 'c6h': (3,), 'd6h': (3,)}
ALIAS = {'ci': ['Ci', 'S2', 'ci'], 'c2h': ['C2h', 'c2h'], 'd2h': ['D2h', 'Vh'], 'c4h': ['C4h'], 'd4h': ['D4h', 'd4h'], 'th': ['Th'],
         'oh': ['Oh', 'oh'], 'c3i': ['C3i', 'S6'], 'd3d': ['D3d'], 'c6h': ['C6h'], 'd6h': ['D6h']}


def dec(v, D, bound, tol=1e-6):
    """a float as a + b sqrt(D) with |b| <= bound (unique at this accuracy)"""
    if not np.isfinite(v):
        return [NONINT, NONINT]
    b = np.arange(-bound, bound + 1)
    r = v - b * np.sqrt(D)
    a = np.round(r)
    err = np.abs(r - a)
    err[np.abs(a) > 4 * bound + 4] = 1
    i = int(np.argmin(err))
    return [int(a[i]), int(b[i])] if err[i] < tol else [NONINT, NONINT]


def decq(col, scale, D, tol=1e-6):
    return [dec(float(x) * scale, D, 2 * scale, tol) for x in col]


def nrm(q):
    return int(round(np.sqrt(sum(x * x for x in q))))


def U(q):
    return np.array(q, dtype=float) / np.sqrt(sum(x * x for x in q))


def observe(e, D, rng):
    from hexrd.core import rotations as rot
    from hexrd.core.transforms import xfcapi
    op = e['op']

    def sym(g):
        return rot.quatOfLaueGroup(rng.choice(ALIAS[g]))

    def run():
        if op == 'group':
            s = sym(e['g'])
            return {'v': [decq(c, 2, D) for c in s.T]}
        if op == 'reduce':
            Q = np.array([U(q) * x for q, x in zip(e['q'], e.get('sgn') or [1] * len(e['q']))]).T
            keep = Q.copy()
            crys = rng.choice(ALIAS[e['g']]) if e.get('how') != 'array' else sym(e['g'])
            if e.get('how') == 'd3':
                r = rot.toFundamentalRegion(np.array([Q[:, ::-1], Q]), crysSym=crys)
                assert r.shape == (2,) + Q.shape
                r = r[1]
            elif e.get('how') == 'default' and e['g'] == 'oh':
                r = rot.toFundamentalRegion(Q)
            else:
                r = rot.toFundamentalRegion(Q, crysSym=crys)
            if e.get('twice'):
                r = rot.toFundamentalRegion(r, crysSym=crys)
            assert (Q == keep).all()
            assert r.shape == Q.shape
            return {'v': [decq(c, 2 * nrm(q), D) for c, q in zip(r.T, e['q'])]}
        if op == 'mis':
            p = U(e['p']).reshape(4, 1) * e.get('psgn', 1)
            Q = np.array([U(q) for q in e['q']]).T
            sc = [4 * nrm(e['p']) * nrm(q) for q in e['q']]
            f = 1
            if e['how'] == 'dist':
                ang = np.array([xfcapi.quat_distance(p, q.reshape(4, 1), sym(e['g'])) for q in Q.T])
                mis = None
            elif e['how'] == 'none':
                ang, mis = rot.misorientation(p, Q)
            elif e['how'] == 'one':
                ang, mis = rot.misorientation(p, Q, (sym(e['g']),))
            else:
                ang, mis = rot.misorientation(p, Q, (sym(e['g']), sym(e['h'])))
            ang = np.asarray(ang).reshape(-1)
            assert np.all(ang >= 0) and np.all(ang <= np.pi + 1e-9)
            return {'c': [dec(np.cos(a / 2) * s, D, 2 * s) for a, s in zip(ang, sc)],
                    'v': [] if mis is None else [decq(c, s, D) for c, s in zip(mis.T, sc)]}
        if op == 'avg':
            Q = np.array([x * np.array(rot.quatProduct(s.reshape(4, 1), U(e['q']).reshape(4, 1))).reshape(4)
                          for s, x in zip(sym(e['g']).T[e['pick']], itertools.cycle([1, -1]))]).T
            r = rot.quatAverageCluster(Q, sym(e['g'])) if e['how'] == 'cluster' else rot.quatAverage(Q, sym(e['g']))
            return {'v': decq(np.asarray(r).reshape(4), 2 * nrm(e['q']), D, 1e-5)}
        if op == 'bad':
            if e['how'] == 'tag':
                rot.quatOfLaueGroup('Ohh')
            elif e['how'] == 'shape':
                rot.misorientation(np.ones(4), np.ones((4, 1)))
            elif e['how'] == 'many':
                rot.misorientation(np.ones((4, 2)) / 2, np.ones((4, 1)) / 2)
            elif e['how'] == 'type':
                rot.misorientation([[1], [0], [0], [0]], np.ones((4, 1)) / 2)
            return {}
    k, v = outcome(run)
    if k == 'ok':
        o = {'k': 'v', 'v': [], 'c': []}
        o.update(v)
    else:
        o = {'k': 'err', 'v': [], 'c': [], 'e': v}
    return dict(e, obs=o)


def square_quats(n):
    out = []
    for a in range(-n, n + 1):
        for b in range(-n, n + 1):
            for c in range(-n, n + 1):
                d2 = n * n - a * a - b * b - c * c
                if d2 >= 0 and int(np.sqrt(d2) + .5) ** 2 == d2:
                    out.append([a, b, c, int(np.sqrt(d2) + .5)])
    return out


def body(c):
    rng = c.rng
    behs = c.generate('FundReg', 1)
    c.cov['model_cases'] = len(behs)
    traces = {}
    for b in behs:
        D = b['hdr']['D']
        for e in b['ev']:
            e = dict(e)
            if e['op'] == 'mis':
                # the second group must be there: scale 4
                e['hasq'] = True
                traces.setdefault(D, []).append(observe(dict(e, how='both'), D, rng))
            else:
                traces.setdefault(D, []).append(observe(e, D, rng))
    tr = []
    for D, evs in traces.items():
        tr += [{'hdr': {'D': D}, 'ev': evs[i:i + 10]} for i in range(0, len(evs), 10)]
    pool = [q for n in (1, 2, 3, 5, 6, 7, 9, 10, 11, 13) for q in rng.sample(square_quats(n), min(60, len(square_quats(n))))]
    # 3-4-5 half angles about axes: boundary and tie cases
    special = [[2, 0, 0, 0], [0, 2, 0, 0], [1, 1, 1, 1], [1, -1, 1, 1], [3, 4, 0, 0], [4, 0, 3, 0], [0, 3, 4, 0], [3, 0, 0, -4], [0, 0, 0, 1], [2, 2, 0, 1], [0, 2, 1, 2]]
    # a hair off the boundary of the region
    close = [[696, 697, 0, 0], [697, -696, 0, 0], [4059, 4060, 0, 0], [-4060, 4059, 0, 0], [119, 120, 0, 0]]
    for _ in range(220 if c.quick else 4000):
        g = rng.choice(list(RING))
        D = rng.choice(RING[g])
        evs = []
        for _ in range(6):
            n = rng.choice([1, 1, 2, 3, 5])
            pick = lambda: list(rng.choice(pool)) if rng.random() < .75 else list(rng.choice(special))
            qs = [pick() for _ in range(n)]
            op = rng.choice(['reduce', 'reduce', 'mis', 'mis', 'avg', 'group'])
            if op == 'reduce' and g in ('ci', 'c2h', 'd2h') and rng.random() < .5:
                qs[0] = rng.sample(rng.choice(close), 4)
            if op == 'reduce':
                e = {'q': qs, 'g': g, 'sgn': [rng.choice([1, -1]) for _ in qs], 'how': rng.choice(['str', 'array', 'd3', 'default']), 'twice': rng.random() < .3}
            elif op == 'mis':
                how = rng.choice(['dist', 'none', 'one', 'both', 'one'])
                h = rng.choice([x for x in RING if D in RING[x] and x in ('ci', 'c2h', 'd2h', 'c4h', 'c3i')]) if how == 'both' else 'ci'
                p = pick() if rng.random() < .7 else list(qs[0])
                e = {'p': p, 'q': qs, 'g': 'ci' if how == 'none' else g, 'h': h, 'how': how, 'hasq': how != 'dist', 'psgn': rng.choice([1, -1])}
            elif op == 'avg':
                o = {'ci': 1, 'c2h': 2, 'd2h': 4, 'c4h': 4, 'd4h': 8, 'th': 12, 'oh': 24, 'c3i': 3, 'd3d': 6, 'c6h': 6, 'd6h': 12}[g]
                e = {'q': pick(), 'g': g, 'pick': [rng.randrange(o) for _ in range(rng.choice([1, 2, 3, 4, 6]))], 'how': rng.choice(['cluster', 'cluster', 'fit'])}
            else:
                e = {'g': g}
            evs.append(observe(dict(e, op=op), D, rng))
        if rng.random() < .1:
            evs.append(observe({'op': 'bad', 'how': rng.choice(['tag', 'shape', 'many', 'type'])}, D, rng))
        tr.append({'hdr': {'D': D}, 'ev': evs})
    c.judge('FundReg', tr)
    c.assumptions = ['orientations with rational quaternions of denominator <= 13; observed floats are decoded uniquely in Z[sqrt 2] / Z[sqrt 3]']


vf.main('C23', body)
