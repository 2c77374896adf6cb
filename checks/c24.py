"""C24: simulated diffraction patterns are complete and exact (spec Sim)."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np
import vf
from c21 import CUBE, P3, P5, H1, H5, num, ang, rsam, fx, ssq, FAR

KAPPAS = [Fr(3, 5), Fr(4, 5), Fr(5, 13), Fr(7, 25), Fr(8, 17), Fr(1, 3), Fr(1, 5), Fr(1, 4), Fr(1, 2), Fr(2, 5), Fr(3, 10), Fr(1, 7), Fr(9, 41)]
BIG = 2 ** 31 - 1


def rot(q):
    """exact integer matrix and denominator, in lowest terms"""
    a, b, c, d = q
    m = [[a*a + b*b - c*c - d*d, 2*(b*c - a*d), 2*(b*d + a*c)],
         [2*(b*c + a*d), a*a - b*b + c*c - d*d, 2*(c*d - a*b)],
         [2*(b*d - a*c), 2*(c*d + a*b), a*a - b*b - c*c + d*d]]
    n = a*a + b*b + c*c + d*d
    g = math.gcd(n, *[abs(v) for r in m for v in r])
    return [[v // g for v in r] for r in m], n // g


def mul(m, v):
    return [sum(a * b for a, b in zip(r, v)) for r in m]


def prim(v):
    g = math.gcd(*[abs(x) for x in v])
    return [x // g for x in v] if g else list(v)


def qmul(p, q):
    return (p[0]*q[0] - p[1]*q[1] - p[2]*q[2] - p[3]*q[3], p[0]*q[1] + p[1]*q[0] + p[2]*q[3] - p[3]*q[2],
            p[0]*q[2] - p[1]*q[3] + p[2]*q[0] + p[3]*q[1], p[0]*q[3] + p[1]*q[2] - p[2]*q[1] + p[3]*q[0])


def stretch(V, x):
    return [V[0]*x[0] + V[5]*x[1] + V[4]*x[2], V[5]*x[0] + V[1]*x[1] + V[3]*x[2], V[4]*x[0] + V[3]*x[1] + V[2]*x[2]]


def fits(s, g, h, hkl):
    """would the specification's 32-bit integers hold for this reflection?  (a size estimate, not an oracle)"""
    S, sd = rot(qmul((s['chi'][0], s['chi'][1], 0, 0), (h[0], 0, h[1], 0)))
    D, dd = rot(s['qd'])
    C, cd = rot(g['qc'])
    b, bd = rot(s['qb'])
    z = [r[2] for r in b]
    x = mul(C, hkl)
    if 'V' in g:
        x = stretch(g['V'], x)
    gl = prim(mul(S, x))
    n = sum(v * v for v in gl)
    k = sum(u * v for u, v in zip(gl, z))
    if max(n * max(map(abs, z)), 2 * abs(k) * max(map(abs, gl)), n * sum(v * v for v in z), 2 * k * k, n * n if n < 1 else 0) * 4 > BIG:
        return False
    u = prim([2 * k * x - n * y for x, y in zip(gl, z)])
    Dt = list(zip(*D))
    v = [abs(x) for x in mul(Dt, u)]
    od = mul(Dt, [sd * (x - y) + w for x, y, w in zip(s['ts'], s['td'], mul(S, g['tc']))])
    m = max(abs(x) for x in od) * max(v) * 2
    return m < BIG and max(v) * sd * dd * 10 < BIG and max(abs(y) for y in mul(S, x)) ** 2 * 3 < BIG \
        and n * bd * 10 < BIG and abs(k) * 10 * sd * cd * g.get('Vd', 1) < BIG and (25 * (sd * cd * g.get('Vd', 1)) ** 2 < BIG)


def roots(s, e, g, hkl):
    """sizes of the numbers in the Bragg equation (again an estimate only)"""
    C, cd = rot(g['qc'])
    X, xd = rot((s['chi'][0], s['chi'][1], 0, 0))
    b, bd = rot(s['qb'])
    z = mul(list(zip(*X)), [r[2] for r in b])
    G = mul(C, hkl)
    pos = 0 if e['ec']['axis'] == 0 else g['tc'][e['ec']['axis'] - 1] + s['ts'][e['ec']['axis'] - 1] - e['ec']['at']
    k = Fr(e['lam'][0] * g['v'][0] * e['ec']['den'], e['lam'][1] * g['v'][1] * 2 * e['a0'] * (e['ec']['den'] + e['ec']['num'] * pos))
    p, q = k.numerator, k.denominator
    A, B = q * (G[2] * z[0] - G[0] * z[2]), q * (G[0] * z[0] + G[2] * z[2])
    R = p * sum(v * v for v in hkl) * cd * xd * bd - q * G[1] * z[1]
    T = A * A + B * B
    if max(T, R * R) > BIG // 2 or q * q * 4 > 10 ** 8:
        return None
    disc = T - R * R
    if disc <= 0:
        return []
    m = math.isqrt(disc)
    if m * m != disc:
        return 'irrational'
    out = []
    for sg in (1, -1):
        sn, cn = A * R + sg * B * m, B * R - sg * A * m
        if max(abs(sn), abs(cn)) * 10 > BIG or T * 10 > BIG:
            return None
        gg = math.gcd(T + cn, sn)
        out.append(((T + cn) // gg, sn // gg) if gg else (0, 1))
    return out


def planedata(a0, lam, fams):
    from hexrd.core.material.crystallography import PlaneData
    from hexrd.core import constants
    hk = np.array(fams).T
    pd = PlaneData(hk, np.array([float(a0)]), 'oh', constants.keVToAngstrom(lam), .003)
    pd.exclusions = None
    return pd


def panel(s, e, cls='PlanarDetector', evec=True):
    from hexrd.core.instrument import PlanarDetector
    from hexrd.core.rotations import expMapOfQuat
    q = np.array(s['qd'], float)
    q = q / np.linalg.norm(q)
    q = q if q[0] >= 0 else -q
    rb = num(s['qb'])
    px = e['px']
    buf = e['buf']
    return PlanarDetector(panel_buffer=None if buf == [0, 0] else [b / 1. for b in buf], rows=int(round(e['hy'] / px)), cols=int(round(e['hx'] / px)), pixel_size=(px, px),
                          tvec=np.array(s['td'], float), tilt=expMapOfQuat(q.reshape(4, 1)).flatten(),
                          bvec=-rb[:, 2], evec=rb[:, 0], name='p')


def gparams(g):
    from hexrd.core.rotations import expMapOfQuat
    q = np.array(g['qc'], float)
    q = q / np.linalg.norm(q)
    q = q if q[0] >= 0 else -q
    v = np.array(g['V']) / g['Vd'] if 'V' in g else np.r_[np.ones(3) * g['v'][0] / g['v'][1], 0, 0, 0]
    return np.r_[expMapOfQuat(q.reshape(4, 1)).flatten(), np.array(g['tc'], float), v[:3], v[3:] * math.sqrt(2)]


def rng_of(r, rad=True):
    """the float endpoints of a range; ccw upwards, cw downwards"""
    a, b = ang(r['a']), ang(r['b'])
    if r['ccw']:
        while b <= a + 1e-9:
            b += 2 * math.pi
    else:
        while b >= a - 1e-9:
            b -= 2 * math.pi
    return a + 2 * math.pi * r.get('turn', 0), b + 2 * math.pi * r.get('turn', 0)


def run_rot(s, e, rng):
    d = panel(s, e)
    pd = planedata(e['a0'], e['lam'][0] / e['lam'][1], e['fams'])
    gp = [gparams(g) for g in e['grains']]
    before = [p.copy() for p in gp]
    hk = np.hstack(pd.getSymHKLs(withID=True)).T
    e['hkls'] = [{'id': int(r[0]), 'h': [int(v) for v in r[1:]]} for r in hk]
    kw = {}
    full = len(e['etar']) == 1 and e['etar'][0]['a'] == [0, -1] and e['etar'][0]['b'] == [0, 1]
    if not full or rng.random() < .4:
        kw['eta_ranges'] = [rng_of(r) for r in e['etar']]
    full = len(e['omer']) == 1 and e['omer'][0]['a'] == [0, -1] and e['omer'][0]['b'] == [0, 1]
    if not full or rng.random() < .4:
        kw['ome_ranges'] = [rng_of(r) for r in e['omer']]
    per = rng.choice([None, (-math.pi, math.pi), (0., 2 * math.pi), (-2 * math.pi, 0.), (math.pi / 3, 7 * math.pi / 3)])
    if per:
        kw['ome_period'] = per
    else:
        per = (-math.pi, math.pi)
    ec = None
    if e['ec']['axis']:
        from hexrd.core import constants
        E = constants.keVToAngstrom(e['lam'][0] / e['lam'][1])
        ec = {'axis': 'xy'[e['ec']['axis'] - 1], 'intercept': float(e['ec']['at']), 'slope': 1e3 * E * e['ec']['num'] / e['ec']['den']}
    chi = ang(s['chi'])
    j = rng.random()
    if e['via'] == 'gvecs':
        from hexrd.hedm import xrdutil
        from hexrd.core.transforms import xfcapi
        from hexrd.core.rotations import angles_from_rmat_xyz
        t = angles_from_rmat_xyz(d.rmat)
        dp = np.r_[t, d.tvec, chi, np.array(s['ts'], float)]
        res = [xrdutil.simulateGVecs(pd, dp, p, ome_range=kw.get('ome_ranges', [(-np.pi, np.pi)]),
                                     ome_period=per, eta_range=kw.get('eta_ranges', [(-np.pi, np.pi)]),
                                     panel_dims=[(-e['hx'] / 2, -e['hy'] / 2), (e['hx'] / 2, e['hy'] / 2)],
                                     pixel_pitch=(e['px'], e['px']), beam_vector=d.bvec, energy_correction=ec)
               for p in gp]
        ids, hkls, angs, xys = ([r[i] for r in res] for i in range(4))
    elif e['via'] == 'instr':
        from hexrd.core.instrument import HEDMInstrument
        ins = HEDMInstrument()
        ins.detectors.clear()
        ins.detectors['p'] = d
        ins.chi = chi
        ins.tvec = np.array(s['ts'], float)
        if ec:
            ins.energy_correction = ec
        ids, hkls, angs, xys, _ = ins.simulate_rotation_series(pd, gp, **kw)['p']
    else:
        if s['chi'] != [1, 0] or j < .5:
            kw['chi'] = chi
        if s['ts'] != [0, 0, 0] or j < .5:
            kw['tVec_s'] = np.array(s['ts'], float)
        if ec:
            kw['energy_correction'] = ec
        if j < .3:
            kw['wavelength'] = e['lam'][0] / e['lam'][1]
        ids, hkls, angs, xys, _ = d.simulate_rotation_series(pd, gp, **kw)
    out = []
    for k in range(len(gp)):
        o = []
        assert len(ids[k]) == len(hkls[k]) == len(angs[k]) == len(xys[k])
        for i, h, a, x in zip(ids[k], hkls[k], angs[k], xys[k]):
            o.append([int(i)] + [int(v) for v in h] + [fx(math.cos(a[0])), ssq(math.cos(a[1])), ssq(math.sin(a[1])),
                     fx(math.cos(a[2])), fx(math.sin(a[2])), fx(x[0]), fx(x[1]),
                     1 if per[0] - 1e-9 <= a[2] <= per[1] + 1e-9 else 0])
        out.append(o)
    same = all((a == b).all() for a, b in zip(gp, before)) and abs(pd.wavelength - e['lam'][0] / e['lam'][1]) < 1e-12
    return {'k': 'v', 'v': out, 'inputs': bool(same)}


def run_laue(s, e, rng):
    from hexrd.core import constants
    from hexrd.laue.simulation import simulate_laue_pattern_on_panel, simulate_laue_pattern_on_instrument
    d = panel(s, e)
    gp = np.array([gparams(g) for g in e['grains']])
    before = gp.copy()
    lo = [constants.keVToAngstrom(l[1][0] / l[1][1]) for l in e['lams']]
    hi = [constants.keVToAngstrom(l[0][0] / l[0][1]) for l in e['lams']]
    if len(lo) == 1 and rng.random() < .7:
        lo, hi = lo[0], hi[0]
    kw = dict(minEnergy=lo, maxEnergy=hi)
    if e['array']:
        hk = np.array(e['fams']).T
        cd = [hk, np.eye(3) / e['a0']]
        e['hkls'] = [{'id': 0, 'h': list(map(int, h))} for h in hk.T]
    else:
        cd = planedata(e['a0'], .5, e['fams'])
        hk = np.hstack(cd.getSymHKLs())
        e['hkls'] = [{'id': 0, 'h': list(map(int, h))} for h in hk.T]
    rs = rsam(s['chi'], e['h'])
    if tuple(e['h']) != (1, 0) or tuple(s['chi']) != (1, 0) or rng.random() < .5:
        kw['rmat_s'] = rs
    ident = len(gp) == 1 and (gp[0] == [0, 0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0]).all()
    if not ident or rng.random() < .5:
        kw['grain_params'] = gp
    if e['via'] == 'instr':
        from hexrd.core.instrument import HEDMInstrument
        ins = HEDMInstrument()
        ins.detectors.clear()
        ins.detectors['p'] = d
        ins.beam_vector = d.bvec
        ins.tvec = np.array(s['ts'], float)
        r = simulate_laue_pattern_on_instrument(ins, cd, **kw)['p']
    else:
        if s['ts'] != [0, 0, 0] or rng.random() < .5:
            kw['tvec_s'] = np.array(s['ts'], float)
        r = simulate_laue_pattern_on_panel(d, cd, beam_vec=d.bvec, **kw)
    xy, hk, an, ds, en = r
    out = []
    for k in range(len(gp)):
        o = []
        ok = np.isfinite(xy[k]).all(axis=1)
        full = np.isfinite(hk[k]).all(axis=0) & np.isfinite(an[k]).all(axis=1) & np.isfinite(ds[k]) & np.isfinite(en[k])
        assert (full[ok]).all()
        assert not np.isfinite(xy[k][~ok]).any() and not np.isfinite(en[k][~ok]).any()
        for i in np.flatnonzero(ok):
            o.append([int(v) for v in hk[k][:, i]] + [fx(math.cos(an[k][i, 0])), ssq(math.cos(an[k][i, 1])), ssq(math.sin(an[k][i, 1])),
                     fx(constants.keVToAngstrom(en[k][i])), fx(ds[k][i] ** 2), fx(xy[k][i, 0]), fx(xy[k][i, 1])])
        out.append(o)
    return {'k': 'v', 'v': out, 'inputs': bool((gp == before).all())}


def event(s, e, rng):
    try:
        return (run_rot if e['op'] == 'rot' else run_laue)(s, e, rng)
    except Exception as x:
        import traceback
        e.setdefault('hkls', [])
        return {'k': 'err', 'e': '%s: %s %s' % (type(x).__name__, str(x)[:80], traceback.format_exc()[-300:]), 'v': [], 'inputs': True}


FAMS = [(1, 0, 0), (1, 1, 0), (1, 1, 1), (2, 0, 0), (2, 1, 0), (2, 1, 1), (2, 2, 0), (2, 2, 1), (3, 0, 0), (3, 1, 0), (2, 2, 2), (3, 1, 1), (3, 2, 0)]
FULLR = [{'a': [0, -1], 'b': [0, 1], 'ccw': True}]
ENDS = [(1, 0), (1, 1), (1, -1), (2, 1), (2, -1), (0, 1), (3, 1), (1, -2), (1, 3), (4, -1)]


def ranges(rng, cw):
    if rng.random() < .35:
        return [dict(FULLR[0])]
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        a, b = rng.sample(ENDS, 2)
        out.append({'a': list(a), 'b': list(b), 'ccw': not (cw and rng.random() < .4), 'turn': 0})
    return out


def rot_case(rng):
    chi = rng.choice([(1, 0)] * 3 + H1[1:2] + H5[:2])
    qb = rng.choice([(1, 0, 0, 0)] * 5 + [(1, 0, 1, 0), (1, 1, 0, 0), (0, 1, 1, 0)] + P3[:1])
    rb = num(qb)
    # panel facing the beam, downstream or upstream, turned about its normal or tilted a little
    qd = rng.choice([(1, 0, 0, 0), (1, 0, 0, 1), (0, 0, 0, 1)] * 2 + [(3, 1, 0, 0), (3, 0, -1, 0), (2, 1, 0, 0), (0, 1, 0, 0)])
    qd = qmul(qb, qd) if rng.random() < .8 else rng.choice(CUBE)
    g = math.gcd(*[abs(v) for v in qd])
    qd = tuple(v // g for v in qd)
    zd = num(qd)[:, 2]
    dist = rng.choice([6, 10])
    td = [int(round(-dist * z)) + rng.randint(-2, 2) for z in zd]
    t = lambda n: [rng.randint(-n, n) for _ in range(3)]
    s = {'qd': qd, 'qc': (1, 0, 0, 0), 'qb': qb, 'chi': chi, 'td': td,
         'ts': t(2) if rng.random() < .5 else [0, 0, 0], 'tc': [0, 0, 0]}
    s = {k: list(v) for k, v in s.items()}
    a0 = rng.choice([2, 3, 5])
    kap = rng.choice(KAPPAS)
    lam = 2 * a0 * kap
    ec = {'axis': 0, 'at': 0, 'num': 0, 'den': 1}
    if rng.random() < .3:
        ec = {'axis': rng.choice([1, 2]), 'at': rng.randint(-1, 1), 'num': rng.choice([1, -1]), 'den': rng.choice([8, 10, 16])}
    grains = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        v = rng.choice([(1, 1)] * 3 + [(4, 5), (5, 4), (9, 10)])
        grains.append({'qc': list(rng.choice(CUBE + P3 + P5[:2])), 'tc': t(2) if rng.random() < .7 else [0, 0, 0], 'v': list(v)})
    fams = [f for f in FAMS if float(kap) * 1.4 * math.sqrt(sum(x * x for x in f)) < .999]
    if not fams:
        return None
    fams = rng.sample(fams, min(len(fams), 4))
    fams = sorted(fams, key=lambda f: sum(x * x for x in f))
    e = {'op': 'rot', 'a0': a0, 'lam': [lam.numerator, lam.denominator], 'ec': ec, 'grains': grains,
         'etar': ranges(rng, False), 'omer': ranges(rng, True), 'fams': [list(f) for f in fams],
         'hx': rng.choice([20, 40, 80]), 'hy': rng.choice([20, 40, 60]), 'px': rng.choice([.5, 1., .25]), 'buf': rng.choice([[0, 0]] * 3 + [[1, 4], [6, 2], [0, 8]]),
         'via': rng.choice(['panel', 'instr', 'gvecs', 'gvecs'])}
    if e['via'] == 'gvecs' and abs(rb[:, 0] - [1, 0, 0]).max() > 1e-9:
        e['via'] = 'panel'          # simulateGVecs measures eta from the laboratory X only
    if e['via'] == 'gvecs':
        e['buf'] = [0, 0]
    # keep only what the specification can compute with
    for g in grains:
        p = 0 if not ec['axis'] else g['tc'][ec['axis'] - 1] + s['ts'][ec['axis'] - 1] - ec['at']
        if ec['den'] + ec['num'] * p <= 0:
            return None
    n = 0
    for f in fams:
        for h in set(itertools.permutations(f)):
            for sg in itertools.product((1, -1), repeat=3):
                x = [a * b for a, b in zip(h, sg)]
                for g in grains:
                    r = roots(s, e, g, x)
                    if r is None:
                        return None
                    if r and r != 'irrational':
                        if not all(fits(s, g, y, x) for y in r):
                            return None
                        n += 1
    return (s, e) if n >= 3 else None


def laue_case(rng):
    from c21 import geometry
    s, hs = geometry(rng, 5)
    rb = num(s['qb'])
    s = {k: list(v) for k, v in s.items()}
    # the azimuth's reference is fixed in the laboratory: keep it off the beam
    if abs(rb[0, 2]) > .9 or abs(rb[:, 0] - [1, 0, 0]).max() > 1e-9:
        s['qb'] = rng.choice([[1, 0, 0, 0], [1, 1, 0, 0], [0, 1, 0, 0], [1, -1, 0, 0]])
        if rng.random() < .3:
            s['qb'] = [2, 1, 0, 0]
            s['chi'] = [1, 0]
            s['qd'] = list(rng.choice(CUBE))
    a0 = rng.choice([2, 3, 4, 5])
    grains = []
    strains = [([1, 1, 1, 0, 0, 0], 1)] * 3 + [([4, 4, 4, 0, 0, 0], 5), ([5, 5, 5, 0, 0, 0], 4), ([9, 10, 10, 0, 0, 0], 10), ([5, 5, 5, 0, 0, 1], 5), ([5, 5, 5, 1, 0, 0], 5), ([4, 5, 6, 0, 1, 0], 5), ([5, 6, 5, -1, 0, 1], 5)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        V, Vd = rng.choice(strains)
        grains.append({'V': V, 'Vd': Vd, 'qc': list(rng.choice(CUBE + (P3 if s['qb'][0] != 2 else []))),
                       'tc': [rng.randint(-2, 2) for _ in range(3)] if rng.random() < .7 else [0, 0, 0]})
    if rng.random() < .3:
        grains = [{'qc': [1, 0, 0, 0], 'tc': [0, 0, 0], 'V': [1, 1, 1, 0, 0, 0], 'Vd': 1}]
    L = [[1, 3], [1, 2], [2, 3], [1, 1], [3, 2], [2, 1], [5, 2], [7, 3], [3, 1], [4, 1]]
    k = rng.choice([1, 1, 2])
    idx = sorted(rng.sample(range(len(L)), 2 * k))
    lams = [[L[idx[2 * i]], L[idx[2 * i + 1]]] for i in range(k)]
    array = rng.random() < .3
    if array:
        fams = [list(rng.choice([f for f in itertools.product(range(-3, 4), repeat=3) if any(f)])) for _ in range(rng.choice([1, 5, 20]))]
        fams = [list(x) for x in dict.fromkeys(map(tuple, fams))]
    else:
        fams = [list(f) for f in sorted(rng.sample(FAMS, 4), key=lambda f: sum(x * x for x in f))]
    e = {'op': 'laue', 'a0': a0, 'grains': grains, 'lams': lams, 'fams': fams, 'array': array, 'h': list(rng.choice(hs)),
         'hx': rng.choice([20, 40, 80]), 'hy': rng.choice([20, 40, 60]), 'px': rng.choice([.5, 1., .25]), 'buf': rng.choice([[0, 0]] * 3 + [[1, 4], [6, 2], [0, 8]]),
         'via': rng.choice(['panel', 'instr'])}
    for f in fams:
        for h in set(itertools.permutations(f)):
            for sg in itertools.product((1, -1), repeat=3):
                for g in grains:
                    if not fits(s, g, e['h'], [a * b for a, b in zip(h, sg)]):
                        return None
    return s, e


def body(c):
    rng = c.rng
    c.generate('Sim', 1, prefix='S', emit=False)
    traces = []
    for make, n in ((rot_case, 140 if c.quick else 900), (laue_case, 140 if c.quick else 900)):
        k = 0
        while k < n:
            r = make(rng)
            if r is None:
                continue
            s, e = r
            e['obs'] = event(s, e, rng)
            traces.append({'hdr': s, 'ev': [e]})
            k += 1
    c.judge('Sim', traces, prefix='S')
    c.cov['reflections'] = sum(len(o) for t in traces for o in t['ev'][0]['obs']['v'])
    c.assumptions += ['cubic crystals, isotropic strain; rotation angles with rational cosines are checked exactly, reflections with irrational ones are not judged here (C21 judges the equation)']


if __name__ == '__main__':
    vf.main('C24', body)
