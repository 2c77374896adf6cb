"""C21: exact diffraction geometry (spec Ray)."""
import itertools
import math

import numpy as np
import vf
from vf import NONINT

FAR = 2000
G = [g for g in itertools.product(range(-3, 4), repeat=3) if g != (0, 0, 0)]
CUBE = [(1, 0, 0, 0), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1),
        (1, 1, 1, 1), (1, -1, 1, 1), (1, 1, -1, -1), (0, 1, 1, 0), (0, 1, 0, -1), (1, 0, -1, 0), (1, -1, 0, 0)]
P3 = [(1, 1, 1, 0), (1, 0, 1, -1), (0, 1, 1, 1), (1, -1, 0, 1)]
P5 = [(2, 1, 0, 0), (2, 0, 1, 0), (2, 0, 0, -1), (1, 0, 2, 0), (0, 1, 2, 0)]
H1 = [(1, 0), (1, 1), (1, -1), (0, 1)]
H5 = [(2, 1), (2, -1), (1, 2), (3, 1)]


def num(q):
    a, b, c, d = np.array(q, float) / math.sqrt(sum(v * v for v in q))
    return np.array([[a*a + b*b - c*c - d*d, 2*(b*c - a*d), 2*(b*d + a*c)],
                     [2*(b*c + a*d), a*a - b*b + c*c - d*d, 2*(c*d - a*b)],
                     [2*(b*d - a*c), 2*(c*d + a*b), a*a - b*b - c*c + d*d]])


def ang(h):
    return 2 * math.atan2(h[1], h[0])


def rsam(chi, h):
    c, o = ang(chi), ang(h)
    rx = np.array([[1, 0, 0], [0, math.cos(c), -math.sin(c)], [0, math.sin(c), math.cos(c)]])
    ry = np.array([[math.cos(o), 0, math.sin(o)], [0, 1, 0], [-math.sin(o), 0, math.cos(o)]])
    return rx @ ry


def fx(x, k=1000000):
    x = float(x)
    return NONINT if not math.isfinite(x) or abs(x * k) > 2e9 else int(math.floor(x * k + .5))


def ssq(x):
    return fx(math.copysign(x * x, x))


def enc_xy(p):
    if np.isnan(p).any():
        return [0, 0, 0]
    if (np.abs(p) > FAR).any():
        return [2, 0, 0]
    return [1, fx(p[0]), fx(p[1])]


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or (np.isnan(a) != np.isnan(b)).any():
        return False
    big = ~(np.abs(a) < 1e6)
    return bool(np.allclose(np.where(big, 0, a), np.where(big, 0, b), rtol=1e-9, atol=1e-9, equal_nan=True))


class Run:
    def __init__(self, s, rng):
        self.s, self.rng = dict(s), rng

    # ---------------------------------------------------------------- inputs
    def geom(self):
        s, rng = self.s, self.rng
        v = lambda x: np.array(x, float) if rng.random() < .7 else np.array(x, float).reshape(3, 1)
        rb = num(s['qb'])
        k = rng.choice([1., 1., 2.5, .125])
        beam = -rb[:, 2] * k
        if rng.random() < .3:
            beam = beam.reshape(3, 1)
        eta = rb[:, 0] * rng.choice([1., 3.]) + rb[:, 2] * rng.choice([0., 0., .5, -1.25])
        return num(s['qd']), num(s['qc']), v(s['td']), v(s['ts']), v(s['tc']), beam, eta, rb

    def gv(self, gs):
        a = np.array(gs, float)
        return a / np.linalg.norm(a, axis=1)[:, None]

    def event(self, e):
        op = e['op']
        try:
            return {'k': 'v', **getattr(self, op)(e)}
        except Exception as x:
            return {'k': 'err', 'e': '%s: %s' % (type(x).__name__, str(x)[:80]), 'v': [], 'batch': True}

    def geo(self, e):
        self.s.update(e['set'])
        return {'v': [], 'batch': True}

    def split(self, n):
        """a partition of range(n) into batches"""
        out, i = [], 0
        while i < n:
            k = min(n - i, self.rng.choice([1, 1, 2, 3, 4, 5, 7, 64, 127, 128, 129, 200]))
            out.append((i, i + k))
            i += k
        return out

    def xy(self, e, **kw):
        from hexrd.core.transforms import xfcapi as X
        rd, rc, td, ts, tc, beam, eta, rb = self.geom()
        g = self.gv(e['gs']) if not kw else np.array(e['gs'], float)
        rs = np.array([rsam(self.s['chi'], h) for h in e['hs']])
        one = len(rs) == 1
        if one and self.rng.random() < .5:
            rs, one = np.repeat(rs, len(g), axis=0), False
        if tuple(self.s['qb']) == (1, 0, 0, 0) and self.rng.random() < .5:
            b = {}
        else:
            b = {'beam_vec': beam}
        b.update(kw)
        sub = lambda i, j: (rs[0] if one else rs[i:j])
        full = X.gvec_to_xy(g, rd, sub(0, len(g)), rc, td, ts, tc, **b)
        parts = []
        for i, j in self.split(len(g)):
            if j == i + 1 and one and self.rng.random() < .5:
                parts.append(X.gvec_to_xy(g[i], rd, rs[0], rc, td, ts, tc, **b)[None])
            else:
                parts.append(X.gvec_to_xy(g[i:j], rd, sub(i, j), rc, td, ts, tc, **b))
        return {'v': [enc_xy(p) for p in full], 'batch': close(full, np.vstack(parts))}

    def xyb(self, e):
        kw = {'bmat': np.array(e['B'], float) * self.rng.choice([1., .25])}
        V = e['V']
        if V != [1, 1, 1, 0, 0, 0] or self.rng.random() < .3:
            kw['vmat_inv'] = np.array([[V[0], V[5], V[4]], [V[5], V[1], V[3]], [V[4], V[3], V[2]]], float) / e['dv']
        return self.xy(e, **kw)

    def xym(self, e):
        from hexrd.core.transforms import xfcapi as X
        rd, rc, td, ts, tc, beam, eta, rb = self.geom()
        g = self.gv(e['gs'])
        rs = np.array([rsam(self.s['chi'], h) for h in e['hs']])
        rs = rs[0] if len(rs) == 1 else rs
        tcs = np.array(e['tcs'], float)
        full = X.gvec_to_xy(g, rd, rs, rc, td, ts, tcs, beam_vec=beam)
        each = np.array([X.gvec_to_xy(g, rd, rs, rc, td, ts, t, beam_vec=beam) for t in tcs])
        return {'v': [[enc_xy(full[m, i]) for m in range(len(tcs))] for i in range(len(g))], 'batch': close(full, each)}

    def positions(self, e):
        """positions of the reflections, from the code (they are judged by "xy")"""
        from hexrd.core.transforms import xfcapi as X
        rd, rc, td, ts, tc, beam, eta, rb = self.geom()
        rs = rsam(self.s['chi'], e['hs'][0])
        return X.gvec_to_xy(self.gv(e['gs']), rd, rs, rc, td, ts, tc, beam_vec=beam), rs

    def inv(self, e):
        from hexrd.core.transforms import xfcapi as X
        rd, rc, td, ts, tc, beam, eta, rb = self.geom()
        p, rs = self.positions(e)
        ok = np.isfinite(p).all(axis=1) & (np.abs(p) < FAR).all(axis=1)
        kw = {} if tuple(self.s['qb']) == (1, 0, 0, 0) and self.rng.random() < .5 else {'rmat_b': rb}
        out = [[-9999999] * 6] * len(p)
        batch = True
        if ok.any():
            f = lambda q: X.xy_to_gvec(q, rd, rs, td, ts, tc, **kw)
            (t, n), gl = f(p[ok])
            parts = [f(p[ok][i:j]) for i, j in self.split(ok.sum())]
            batch = close(t, np.hstack([q[0][0] for q in parts])) and close(n, np.hstack([q[0][1] for q in parts])) \
                and close(gl, np.vstack([q[1] for q in parts]))
            for k, i in enumerate(np.flatnonzero(ok)):
                out[i] = [fx(math.cos(t[k])) if t[k] >= 0 else NONINT, ssq(math.cos(n[k])), ssq(math.sin(n[k]))] + [ssq(v) for v in gl[k]]
        return {'v': out, 'batch': batch}

    def det(self, e):
        """a panel object: position -> angles -> position"""
        from hexrd.core.instrument import PlanarDetector
        from hexrd.core.rotations import expMapOfQuat
        rd, rc, td, ts, tc, beam, eta, rb = self.geom()
        q = np.array(self.s['qd'], float)
        q = q / np.linalg.norm(q)
        q = q if q[0] >= 0 else -q
        d = PlanarDetector(rows=11, cols=7, pixel_size=(.5, .25), tvec=td.flatten(),
                           tilt=expMapOfQuat(q.reshape(4, 1)).flatten(), bvec=(beam / np.linalg.norm(beam)).flatten(),
                           evec=eta.flatten())
        p, rs = self.positions(e)
        ok = np.isfinite(p).all(axis=1) & (np.abs(p) < FAR).all(axis=1)
        out = [[3, 0, 0]] * len(p)
        if ok.any():
            kw = dict(rmat_s=rs, tvec_s=ts.flatten(), tvec_c=tc.flatten())
            te, g = d.cart_to_angles(p[ok], **kw)
            if self.rng.random() < .4:
                kw['rmat_c'] = rc
            # forward and backward reflections have no azimuth to come back from
            pin = (np.abs(te[:, 0]) < 1e-5) | (np.abs(te[:, 0] - np.pi) < 1e-5) | np.isnan(te).any(axis=1)
            back = d.angles_to_cart(te, **kw)
            back[pin] = p[ok][pin]
            for k, i in enumerate(np.flatnonzero(ok)):
                out[i] = enc_xy(back[k])
        return {'v': out, 'batch': True}

    def av(self, e, kind):
        from hexrd.core.transforms import xfcapi as X
        rd, rc, td, ts, tc, beam, eta, rb = self.geom()
        a = np.array([[2 * ang(t), ang(n), ang(o)] for t, n, o in e['angs']])
        f = X.angles_to_gvec if kind == 'g' else X.angles_to_dvec
        kw = {}
        if tuple(self.s['qb']) != (1, 0, 0, 0) or self.rng.random() < .5:
            kw.update(beam_vec=beam, eta_vec=eta)
        if tuple(self.s['chi']) != (1, 0) or self.rng.random() < .5:
            kw['chi'] = ang(self.s['chi'])
        if tuple(self.s['qc']) != (1, 0, 0, 0) or self.rng.random() < .5:
            kw['rmat_c'] = rc
        if (a[:, 2] == 0).all() and self.rng.random() < .5:
            a = a[:, :2]
        full = f(a, **kw)
        parts = [f(a[i:j], **kw) for i, j in self.split(len(a))]
        one = np.asarray(f(a[-1], **kw)).reshape(-1)
        return {'v': [[fx(v) for v in r] for r in full],
                'batch': close(full, np.vstack(parts)) and close(one, full[-1])}

    def ag(self, e):
        return self.av(e, 'g')

    def ad(self, e):
        return self.av(e, 'd')

    def osc(self, e):
        from hexrd.core.transforms import xfcapi as X
        rd, rc, td, ts, tc, beam, eta, rb = self.geom()
        h = np.array(e['hkls'], float)
        B = np.array(e['B'], float) / e['db']
        V = np.array(e['V'], float) / e['dv']
        kw = {}
        if (V == [1, 1, 1, 0, 0, 0]).all() and self.rng.random() < .5:
            pass
        else:
            kw['v_inv'] = V * np.r_[1, 1, 1, np.sqrt([2., 2., 2.])]
            if self.rng.random() < .3:
                kw['v_inv'] = kw['v_inv'].reshape(6, 1)
        if tuple(self.s['qb']) != (1, 0, 0, 0) or self.rng.random() < .5:
            kw.update(beam_vec=beam, eta_vec=eta)
        f = lambda q: X.oscill_angles_of_hkls(q, ang(self.s['chi']), rc, B, e['lam'][0] / e['lam'][1], **kw)
        o0, o1 = f(h)
        parts = [f(h[i:j]) for i, j in self.split(len(h))]
        batch = close(o0, np.vstack([p[0] for p in parts])) and close(o1, np.vstack([p[1] for p in parts]))

        def root(r):
            return [fx(math.cos(r[0])), fx(math.cos(r[1]), 10000), fx(math.sin(r[1]), 10000),
                    fx(math.cos(r[2]), 10000), fx(math.sin(r[2]), 10000)]
        out = []
        for a, b in zip(o0, o1):
            if np.isnan(a).all() and np.isnan(b).all():
                out.append({'k': 'nan'})
            elif np.isnan(a).any() or np.isnan(b).any():
                out.append({'k': 'part'})
            else:
                out.append({'k': 'v', 'r': [root(a), root(b)]})
        return {'v': out, 'batch': batch}


# -------------------------------------------------------------- random inputs
def budget(rng, kinds, total):
    """choose rotations whose denominators multiply to at most total"""
    out = {}
    order = list(kinds)
    rng.shuffle(order)
    for k in order:
        choices = [1] + [d for d in (3, 5) if d <= total and not (k in ('chi', 'h') and d == 3)]
        d = rng.choice(choices + ([choices[-1]] if total > 1 else []))
        total //= d
        if k in ('chi', 'h'):
            out[k] = rng.choice(H1 if d == 1 else H5)
            if k == 'h':
                out['hd'] = d
        else:
            out[k] = rng.choice({1: CUBE, 3: P3, 5: P5}[d])
            if d == 1 and rng.random() < .5:
                out[k] = (1, 0, 0, 0)
    return out


def geometry(rng, total=15):
    b = budget(rng, ['qd', 'qc', 'qb', 'chi', 'h'], total)
    t = lambda n: [rng.randint(-n, n) for _ in range(3)]
    # a panel somewhere in front of its own normal, or behind the sample
    zd = num(b['qd'])[:, 2]
    dist = rng.choice([5, 10, 15])
    td = [int(round(-dist * z)) + rng.randint(-4, 4) for z in zd] if rng.random() < .8 else t(10)
    s = {'qd': b['qd'], 'qc': b['qc'], 'qb': b['qb'], 'chi': b['chi'], 'td': td,
         'ts': t(3) if rng.random() < .5 else [0, 0, 0], 'tc': t(3) if rng.random() < .6 else [0, 0, 0]}
    return s, (H5 + H1 if b['hd'] == 5 else H1)


def omegas(rng, hs, n):
    r = rng.random()
    return [rng.choice(hs)] if r < .5 else [rng.choice(hs) for _ in range(n)]


def trace(c, rng, sizes):
    s, hs = geometry(rng)
    hdr = {k: list(v) for k, v in s.items()}
    run = Run(s, rng)
    ev = []

    def do(e):
        e['obs'] = run.event(e)
        ev.append(e)
    for n in sizes:
        gs = [list(rng.choice(G)) for _ in range(n)]
        do({'op': 'xy', 'gs': gs, 'hs': omegas(rng, hs, n)})
        m = min(n, 12)
        do({'op': 'inv', 'gs': gs[:m], 'hs': [rng.choice(hs)]})
        do({'op': 'det', 'gs': gs[:m], 'hs': [rng.choice(hs)]})
        k = rng.random()
        small = (rng.random() < .5)
        V = [1, 1, 1, 0, 0, 0] if small else [rng.randint(4, 6) for _ in range(3)] + [rng.randint(-1, 1) for _ in range(3)]
        V, dv = (V, 1) if small else (V, 5)
        B = [[rng.randint(1, 2), rng.randint(-1, 1), rng.randint(-1, 1)], [0, rng.randint(1, 2), rng.randint(-1, 1)], [0, 0, rng.randint(1, 2)]]
        if rng.random() < .4:
            B = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        tests = (3, 5) if dv == 5 else (1,)
        # the strained reflections need small rotations
        if max(abs(v) for v in s['tc'] + s['ts']) <= 3 and all(tuple(q) in CUBE for q in (s['qc'], s['qb'])):
            do({'op': 'xyb', 'gs': [list(rng.choice(G)) for _ in range(min(n, 9))], 'hs': [rng.choice(H1)], 'B': B, 'V': V, 'dv': dv})
        if k < .5:
            mm = min(n, 8)
            do({'op': 'xym', 'gs': gs[:mm], 'hs': omegas(rng, hs, mm),
                'tcs': [[rng.randint(-3, 3) for _ in range(3)] for _ in range(rng.choice([2, 3, 4]))]})
        if rng.random() < .4:
            f = rng.choice(['td', 'ts', 'tc'])
            e = {'op': 'geo', 'set': {f: [rng.randint(-3, 3) + (5 if f == 'td' else 0) for _ in range(3)]}}
            do(e)
    return {'hdr': hdr, 'ev': ev}


HA = [(1, 0), (1, 1), (2, 1), (3, 1), (4, 1), (3, 2), (5, 2), (7, 1)]
HE = HA + [(1, -1), (2, -1), (0, 1), (1, 2), (1, -2), (1, 3), (3, -2), (1, -4)]


def atrace(c, rng, sizes):
    s, hs = geometry(rng)
    hdr = {k: list(v) for k, v in s.items()}
    run = Run(s, rng)
    ev = []
    for n in sizes:
        zero = rng.random() < .3
        angs = [[list(rng.choice(HA)), list(rng.choice(HE)), [1, 0] if zero else list(rng.choice(hs))] for _ in range(n)]
        e = {'op': rng.choice(['ag', 'ad']), 'angs': angs}
        e['obs'] = run.event(e)
        ev.append(e)
    return {'hdr': hdr, 'ev': ev}


def otrace(c, rng, sizes):
    b = budget(rng, ['qc', 'qb', 'chi'], 5)
    s = {'qd': (1, 0, 0, 0), 'qc': b['qc'], 'qb': b['qb'], 'chi': b['chi'], 'td': [0, 0, -10], 'ts': [0, 0, 0], 'tc': [0, 0, 0]}
    run = Run(s, rng)
    hdr = {k: list(v) for k, v in s.items()}
    ev = []
    for n in sizes:
        plain = rng.random() < .4
        B = [[1, 0, 0], [0, 1, 0], [0, 0, 1]] if rng.random() < .5 else \
            [[rng.randint(1, 2), rng.randint(-1, 1), rng.randint(-1, 1)], [0, rng.randint(1, 2), rng.randint(-1, 1)], [0, 0, rng.randint(1, 2)]]
        db = rng.choice([2, 4, 5])
        V, dv = ([1, 1, 1, 0, 0, 0], 1) if plain else ([rng.randint(4, 6) for _ in range(3)] + [rng.randint(-1, 1) for _ in range(3)], 5)
        e = {'op': 'osc', 'hkls': [list(rng.choice(G)) for _ in range(n)], 'B': B, 'db': db, 'V': V, 'dv': dv,
             'lam': rng.choice([[1, 2], [1, 5], [2, 5], [1, 1], [3, 4], [1, 10]])}
        e['obs'] = run.event(e)
        ev.append(e)
    return {'hdr': hdr, 'ev': ev}


def body(c):
    rng = c.rng
    traces = []
    # behaviours of the specification, replayed with rays in every state
    gens = c.generate('Ray', 2 if c.quick else 3)
    rng.shuffle(gens)
    for g in gens[:60 if c.quick else 700]:
        run = Run(g['hdr'], rng)
        ev = []
        for e in g['ev'] + [None]:
            for op in ('xy', 'inv', 'det'):
                x = {'op': op, 'gs': [[0, 0, 1], [1, 0, 2], [1, -2, 2], [0, 3, -1], [2, 1, 1], [-1, 1, -1], [0, 1, 0]],
                     'hs': [rng.choice(H1 + [(2, 1)])]}
                x['obs'] = run.event(x)
                ev.append(x)
            if e is not None:
                e = dict(e)
                e['obs'] = run.event(e)
                ev.append(e)
        traces.append({'hdr': g['hdr'], 'ev': ev})
    nt = 40 if c.quick else 500
    for i in range(nt):
        traces.append(trace(c, rng, [rng.choice([1, 2, 3, 5, 17, 40]) for _ in range(2)]))
    for n in ([127, 128, 129, 300] if c.quick else [126, 127, 128, 129, 130, 255, 256, 257, 300, 513] * 4):
        traces.append(trace(c, rng, [n]))
    for i in range(nt):
        traces.append(atrace(c, rng, [rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33]) for _ in range(5)]))
    for i in range(nt * 2):
        traces.append(otrace(c, rng, [rng.choice([1, 2, 6, 20]) for _ in range(3)]))
    c.judge('Ray', traces)
    c.assumptions += ['beam, sample, crystal and panel rotations with rational matrices; integer translations and reciprocal vectors',
                      'positions compared to 3e-6, rotation angles to 1e-4']


if __name__ == '__main__':
    vf.main('C21', body)
