"""C15: orientation scores, task splits and gathered results (spec Score)."""
import itertools
import multiprocessing
import os
import signal
from fractions import Fraction
from types import SimpleNamespace

import numpy as np
import vf
from vf import outcome

NANV = -1000000
FAM = [(1, 0, 0), (1, 1, 0), (1, 1, 1), (2, 0, 0), (2, 1, 0), (2, 1, 1)]


def orbit(h, tetr):
    """equivalent planes of (h, k, l): all signs; all permutations, or only
    those of the first two indices"""
    s = set()
    for p in itertools.permutations(range(3)):
        if tetr and p[2] != 2:
            continue
        for sg in itertools.product((1, -1), repeat=3):
            s.add(tuple(sg[i] * h[p[i]] for i in range(3)))
    return sorted(s)


def rot_of_quat(q):
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def predict(R, hkls, recip, lam):
    """(eta, omega) in degrees where a plane satisfies Bragg's law: beam -Z,
    rotation about Y, azimuth from X towards Y"""
    out = []
    for h in hkls:
        g = R @ (np.array(h) * recip)
        st = lam * np.linalg.norm(g) / 2
        if st >= 1:
            continue
        g = g / np.linalg.norm(g)
        A = np.hypot(g[0], g[2])
        if abs(A - st) < 1e-6:
            return None                 # tangent: one or two solutions
        if A < st:
            continue
        phi, d = np.arctan2(g[0], g[2]), np.arccos(st / A)
        for ome in (-phi + d, -phi - d):
            x = np.cos(ome) * g[0] + np.sin(ome) * g[2]
            out.append((np.degrees(np.arctan2(g[1], x)), np.degrees(ome)))
    return out


def frac(x):
    if x is None or x != x:
        return [-1, 1]
    x = float(x)
    f = Fraction(x).limit_denominator(2000)
    if not abs(float(f) - x) < 1e-12:
        return [-1, 1]
    return [f.numerator, f.denominator]


TIMEOUT = 'no result in time'


def isolated(fn, timeout):
    """fn() in a process group of its own, ended afterwards"""
    ctx = multiprocessing.get_context('fork')
    here, there = ctx.Pipe()

    def child():
        os.setsid()
        there.send(fn())
        os._exit(0)
    p = ctx.Process(target=child)
    p.start()
    try:
        r = here.recv() if here.poll(timeout) else ('err', TIMEOUT)
    except EOFError:
        r = ('err', 'the process died')
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.join()
    return r


def scene(rng, quick):
    """a map, tolerances and ranges; edges and range ends are whole degrees"""
    ome0 = rng.choice([-180, -180, 0, -90, 30])
    neta = rng.choice([12, 24, 36, 72])
    etaE = [-180 + i * 360 // neta for i in range(neta + 1)]
    if rng.random() < .3:                # a part of the circle only
        a, b = sorted(rng.sample(range(neta + 1), 2))
        etaE = etaE[a:b + 1] if b - a > 1 else etaE
    dome = rng.choice([5, 10, 20, 30])
    full = 360 // dome
    if rng.random() < .4:
        omeE = [ome0 + i * dome for i in range(full + 1)]
    else:
        a = rng.randrange(full - 1)
        b = rng.randint(a + 2, full)
        omeE = [ome0 + i * dome for i in range(a, b + 1)]

    def ranges(lo):
        if rng.random() < .15:
            s = rng.randint(-200, 200)
            return [[s, s + rng.choice([360, 361, 400])]]
        k = rng.choice([1, 2, 2, 3, 4, 5])
        cuts = sorted(rng.sample(range(0, 360, 3), 2 * k))
        rs = [[cuts[2 * i], cuts[2 * i + 1]] for i in range(k)]
        if rng.random() < .5:            # the gaps instead: the last one wraps
            rs = [[cuts[2 * i + 1], cuts[(2 * i + 2) % (2 * k)] + (360 if i == k - 1 else 0)] for i in range(k)]
        if rng.random() < .25 and k > 1:  # abut
            rs[0][1] = rs[1][0]
        if rng.random() < .15:           # ends on the period boundary
            if all(r[1] <= 359 for r in rs):
                rs[-1][1] = 360
        if rng.random() < .12:           # overlapping, empty or inverted
            i = rng.randrange(k)
            w = rng.random()
            if w < .4:
                rs[i] = [rs[i][1], rs[i][0]]
            elif w < .5:
                rs[i] = [rs[i][0], rs[i][0]]
            elif k > 1:
                rs[i][1] = rs[i][0] + rng.randint(20, 200)
        sh = rng.choice([0, 0, -180, lo, -360, 77])
        rs = [[a + sh + t, b + sh + t] for a, b in rs for t in [rng.choice([0, 0, 0, 360, -360])]]
        rng.shuffle(rs)
        return rs
    er = None if rng.random() < .3 else ranges(-180)
    orr = None if rng.random() < .4 else ranges(ome0)
    de = etaE[1] - etaE[0]

    def tol(d):
        return rng.choice([0, d, 2 * d, d + d / 4, d - d / 4, d / 4, 3 * d, d * 1.7, 2.4 * d])
    return dict(ome0=ome0, etaE=etaE, omeE=omeE, er=er, orr=orr, etaTol=tol(de), omeTol=tol(dome))


def near(x, marks):
    return any(abs((x - m + 180) % 360 - 180) < .003 for m in marks)


def body(c):
    from hexrd.core.material.crystallography import PlaneData
    from hexrd.hedm import indexer
    from hexrd.core import constants as ct
    from hexrd.core.utils.concurrent import distribute_tasks
    from hexrd.core.utils import multiprocess_generic as mg
    rng = c.rng
    U = lambda x: int(round(x * 1000))
    traces = []
    nproc = stuck = 0
    for it in range(70 if c.quick else 900):
        tetr = rng.random() < .4
        recip = np.array([1., 1., .7 if tetr else 1.]) / 3.1
        lam = rng.choice([.3, .6, 1.1, 2.4])
        fams = [h for h in FAM]
        if tetr:
            fams += [(0, 0, 1), (1, 0, 1), (1, 0, 2)]
        rng.shuffle(fams)
        fams = fams[:rng.randint(2, 6)]
        lat = [3.1] if not tetr else [3.1, 3.1 / .7]
        pd = PlaneData(np.array(fams).T, lat, 'D4h' if tetr else 'Oh', ct.keVToAngstrom(lam), .002)
        master = fams
        can = [lam * np.linalg.norm(np.array(h) * recip) / 2 < .98 for h in master]
        if not any(can):
            continue
        exc = np.array([not x or rng.random() < .25 for x in can])
        if exc.all():
            exc[can.index(True)] = False
        # exclusions are listed by spacing, identifiers in the given order
        pd.exclusions = np.array([exc[d['hklID']] for d in pd.hklDataList])
        ids = [i for i in range(len(master)) if not exc[i]]
        rng.shuffle(ids)
        ids = ids[:rng.randint(1, 3)]
        if rng.random() < .5:
            ids.sort()
        sc = scene(rng, c.quick)
        ne, no = len(sc['etaE']) - 1, len(sc['omeE']) - 1
        dens = rng.choice([.05, .2, .5, .9])
        nanp = rng.choice([0, 0, .02, .15])
        maps = [[[NANV if rng.random() < nanp else (rng.randint(1, 40) if rng.random() < dens else rng.choice([0, 0, -2, 3]))
                  for _ in range(ne)] for _ in range(no)] for _ in ids]
        snug = rng.random() < .5            # single pixels decide
        if snug:
            de, do = sc['etaE'][1] - sc['etaE'][0], sc['omeE'][1] - sc['omeE'][0]
            sc['etaTol'], sc['omeTol'] = rng.choice([0, de / 4, de]), rng.choice([0, do / 4, do])
            maps = [[[NANV if rng.random() < nanp else rng.randint(0, 40) for _ in range(ne)] for _ in range(no)] for _ in ids]
        k = rng.random()
        if k < .3:
            thr, arg = {'k': 'auto'}, None
        elif k < .6:
            t2 = rng.choice([20, 41, 60, 65, 71] if snug else [0, 6, 11, 20, 40, -5])
            thr, arg = {'k': 'list', 'v2': [t2] * len(ids)}, t2 / 2
        else:
            v2 = [rng.choice([20, 40, 61, 70, 75] if snug else [0, 6, 11, 20, 40, 79, 80]) for _ in range(len(ids) + (1 if rng.random() < .06 else 0))]
            thr, arg = {'k': 'list', 'v2': v2}, [x / 2 for x in v2]
            if rng.random() < .5:
                arg = np.array(arg)
        er = sc['er'] if sc['er'] is not None else [[-180, 180]]
        orr = sc['orr'] if sc['orr'] is not None else [[sc['omeE'][0], sc['omeE'][-1]]]
        marks_e = sc['etaE'] + [x for r in er for x in r] + [180]
        marks_o = sc['omeE'] + [x for r in orr for x in r] + [sc['ome0']]
        hdr = {'kind': 'score', 'ome0': U(sc['ome0']), 'etaEdges': [U(x) for x in sc['etaE']], 'omeEdges': [U(x) for x in sc['omeE']],
               'etaTol': U(sc['etaTol']), 'omeTol': U(sc['omeTol']), 'etaRanges': [[U(a), U(b)] for a, b in er],
               'omeRanges': [[U(a), U(b)] for a, b in orr], 'maps': maps, 'thr': thr}
        om = SimpleNamespace(planeData=pd, iHKLList=np.array(ids) if rng.random() < .5 else list(ids),
                             etaEdges=np.radians(sc['etaE']), omeEdges=np.radians(sc['omeE']),
                             dataStore=np.array(maps, dtype=float))
        om.dataStore[om.dataStore == NANV] = np.nan
        f = rng.choice([1., .5, 2. ** -6, 16.])      # other units of intensity
        om.dataStore *= f
        arg = arg if arg is None else arg * f if np.ndim(arg) == 0 or isinstance(arg, np.ndarray) else [x * f for x in arg]
        quats, preds = [], []
        n = rng.choice([1, 2, 3, 7, 11, 13])
        while len(quats) < n:
            q = np.array([rng.gauss(0, 1) for _ in range(4)])
            q /= np.linalg.norm(q)
            R = rot_of_quat(q)
            p, ok = [], True
            for m, i in enumerate(ids):
                pr = predict(R, orbit(master[i], tetr), recip, lam)
                if pr is None or any(near(e, marks_e) or near(o, marks_o) for e, o in pr):
                    ok = False
                    break
                p += [[m + 1, U(e), U(o)] for e, o in pr]
            if ok:
                quats.append(q)
                preds.append(p)
        Q = np.array(quats).T
        keep = om.dataStore.copy()
        evs = []
        modes = [None]
        if nproc < (24 if c.quick else 300):
            modes += [rng.choice([1, 2, 3, 4, 8])]
            nproc += 1
        for w in modes:
            kw = {}
            if sc['er'] is not None:
                kw['etaRange'] = np.radians(er) if rng.random() < .6 else [list(np.radians(r)) for r in er]
            if sc['orr'] is not None:
                kw['omegaRange'] = np.radians(orr)
            if sc['ome0'] != -180 or rng.random() < .3:
                kw['omePeriod'] = np.radians([sc['ome0'], sc['ome0'] + 360])
            if rng.random() < .3:
                kw['bMat'] = pd.latVecOps['B']
            if w is not None:
                kw.update(doMultiProc=True, nCPUs=w)
            qa = Q[:, 0] if n == 1 and rng.random() < .5 else Q
            run = lambda: outcome(indexer.paintGrid, qa, om, threshold=arg, etaTol=np.radians(sc['etaTol']), omeTol=np.radians(sc['omeTol']), **kw)
            if w is None:
                kk, v = run()
            elif stuck > 2:
                continue
            else:
                kk, v = isolated(run, 40)
                stuck += v == TIMEOUT
            same = np.array_equal(keep, om.dataStore, equal_nan=True)
            evs.append({'op': 'score', 'w': w or 0, 'preds': preds,
                        'obs': {'k': 'v', 'v': [frac(x) for x in v]} if kk == 'ok' and same else {'k': 'err', 'e': str(v) if kk == 'err' else 'maps changed'}})
        traces.append({'hdr': hdr, 'ev': evs, 'replay': {'quats': [list(q) for q in quats], 'fams': fams, 'ids': ids, 'tetr': tetr, 'lam': lam,
                                                         'exclusions': [bool(x) for x in exc], 'scene': sc}})
    c.cov['orientations'] = sum(len(t['ev'][0]['preds']) for t in traces)
    c.cov['multiprocess_runs'] = nproc

    # splits
    evs = []
    for n in range(0, 40 if c.quick else 200):
        for w in range(1, 14 if c.quick else 40):
            k, v = outcome(distribute_tasks, n, w)
            evs.append({'op': 'split', 'n': n, 'w': w, 'obs': {'k': 'v', 'v': [list(x) for x in v]} if k == 'ok' else {'k': 'err', 'e': v}})
    for _ in range(40):
        n, w = rng.randint(0, 100000), rng.randint(1, 128)
        k, v = outcome(distribute_tasks, n, w)
        evs.append({'op': 'split', 'n': n, 'w': w, 'obs': {'k': 'v', 'v': [list(x) for x in v]} if k == 'ok' else {'k': 'err', 'e': v}})
    traces += [{'hdr': {'kind': 'split'}, 'ev': evs[i:i + 60]} for i in range(0, len(evs), 60)]

    # gathering: the completion orders come from the model of the pool
    behs = c.generate('Score', 4)
    scheds = sorted({(b['hdr']['n'], b['hdr']['w'], tuple(o['i'] for o in b['ev'] if o['op'] == 'finish')) for b in behs})
    c.cov['schedules'] = len(scheds)
    if c.quick:
        rng.shuffle(scheds)
        scheds = scheds[:24]
    stuck = 0
    for n, w, order in scheds:
        if stuck > 2:
            break
        inputs = [rng.randint(-50, 50) * 8 + i for i in range(n)]
        rank = {inputs[i]: order.index(i) for i in range(n)}
        clock = multiprocessing.Value('i', 0)
        add = rng.choice([0, 5])

        def task(var, extra, rank=rank, clock=clock):
            import time
            t = time.time()
            while clock.value < rank[var] and time.time() - t < 20:
                time.sleep(.0005)
            with clock.get_lock():
                clock.value += 1
            return var, var + extra
        kw = rng.random() < .5

        def run():
            mg.cpu_count = lambda w=w: w
            g = mg.GenericMultiprocessing()
            if kw:
                return outcome(g.parallelise_function, inputs, task, extra=add)
            return outcome(g.parallelise_function, inputs, task, add)
        k, v = isolated(run, 30)
        stuck += v == TIMEOUT
        traces.append({'hdr': {'kind': 'gather', 'n': n, 'w': w}, 'replay': {'order': order},
                       'ev': [{'op': 'gather', 'inputs': inputs, 'add': add,
                               'obs': {'k': 'v', 'v': [list(x) for x in v]} if k == 'ok' and all(isinstance(x, (tuple, list)) and len(x) == 2 for x in v)
                               else {'k': 'err', 'e': str(v)}}]})
    c.judge('Score', traces)
    c.assumptions = ['predicted angles are computed by the check itself from Bragg\'s law; angles within 0.003 degree of an edge or range end are not generated',
                     'a window holding both a value above threshold and a NaN may count as a hit or be excluded (the documented ambiguity)']


vf.main('C15', body)
