"""C27: distortion functions of detectors (spec Distort)."""
import math
from fractions import Fraction as Fr
import numpy as np
import vf
from vf import outcome, rval, NONINT

R = 204.8
NAME = {'ge': 'GE_41RT', 'dex': 'Dexela_2923', 'quad': 'Dexela_2923_quad', 'id': 'identity'}
SIZE = {'ge': 6, 'dex': 8, 'quad': 6}
DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (4, -3), (-3, 4), (-4, -3), (4, 3), (-3, -4)]


def stretch(p, pt):
    n, m, a, b = pt
    c = math.isqrt(a * a + b * b)
    c2 = Fr(a * a - b * b, c * c)
    r = Fr(n, m)
    return 1 + (p[0] * r ** p[3] * c2 + p[1] * r ** p[4] * (2 * c2 * c2 - 1) + p[2] * r ** p[5]) / Fr(1000)


def place(kind, pt):
    if not pt:
        return [math.nan, math.nan]
    if kind != 'ge':
        return [float(pt[0]), float(pt[1])]
    n, m, a, b = pt
    c = math.isqrt(a * a + b * b)
    return [R * n / m * a / c, R * n / m * b / c]


def params(kind, p):
    return [v / 1000 for v in p[:3]] + [float(v) for v in p[3:]] if kind == 'ge' else [v / 16 for v in p] if kind == 'quad' else [float(v) for v in p]


def points(kind, rng, n):
    out = []
    for _ in range(n):
        if rng.random() < .05:
            out.append([])
        elif kind == 'ge':
            m = rng.choice([1, 2])
            out.append([rng.choice([0, 1, 1] if m == 1 else [1, 1, 3]), m, *rng.choice(DIRS)])
        else:
            out.append([rng.choice([0, 0, rng.randint(-40, 40)]), rng.choice([0, rng.randint(-40, 40), rng.randint(-40, 40)])])
    return out


class Drv:
    def __init__(self, hdr, rng):
        from hexrd.core.distortion import get_mapping
        self.k, self.p, self.rng = hdr['kind'], list(hdr['p']), rng
        v = params(self.k, self.p)
        self.d = get_mapping(NAME[self.k], rng.choice([list, np.array, tuple])(v))
        self.panel = None

    def see(self, v, pt):
        """the observed point in the terms of the specification"""
        if not pt:
            return [] if np.all(np.isnan(v)) else [NONINT]
        if self.k != 'ge':
            return [rval(v[0], 1, 1e-9), rval(v[1], 1, 1e-9)]
        n, m, a, b = pt
        if n == 0:
            return [0] if np.abs(v).max() < 1e-9 else [NONINT]
        c = math.isqrt(a * a + b * b)
        u, w = (v[0] * a + v[1] * b) / c, (v[1] * a - v[0] * b) / c
        if not abs(w) < 1e-8 or not u > 0:
            return [NONINT]
        return [rval(u / (R * n / m), 1000 * m ** 4 * c ** 4, 1e-9), a, b]

    def event(self, e):
        rng, k = self.rng, self.k
        if e['op'] == 'set':
            def go():
                self.d.params = rng.choice([list, np.array])(params(k, e['p']))
            s, v = outcome(go)
            if s == 'ok':
                self.p = list(e['p'])
            pp = [float(x) for x in self.d.params]
            f = [1000] * 3 + [1] * 3 if k == 'ge' else [16] * 6 if k == 'quad' else [1] * 8
            return dict(e, obs={'k': s, 'p': [rval(x, y) for x, y in zip(pp, f)], 'trivial': bool(self.d.is_trivial)})
        if e['op'] == 'kinds':
            from hexrd.core import distortion as D
            def go():
                for n, a in NAME.items():
                    t = D.get_mapping(a, [0.] * SIZE.get(n, 0))
                    if t.maptype != a:
                        return False
                    if n != 'id' and (not t.is_trivial or len(t.params) != SIZE[n]):
                        return False
                if outcome(D.get_mapping, 'nosuch', [])[0] != 'err' or outcome(D.get_mapping, 'nyi', [])[0] != 'err':
                    return False
                return set(NAME.values()) <= set(D.maptypes())
            s, v = outcome(go)
            return dict(e, obs={'k': 'v' if s == 'ok' else 'err', 'v': v})
        # where the points come from: applying undoes the affine map; inverting undoes the stretch
        pts = e['pts']
        src = []
        for pt in pts:
            x = place(k, pt)
            if pt and k == 'ge' and e['op'] == 'inverse':
                f = float(stretch(self.p, pt))
                x = [f * x[0], f * x[1]]
            if pt and k == 'quad' and e['op'] == 'apply' and any(self.p):
                q = params(k, self.p)
                x = [q[0] + q[1] * pt[0] + q[2] * pt[1], q[3] + q[4] * pt[0] + q[5] * pt[1]]
            src.append(x)
        a = np.array(src, dtype=float).reshape(-1, 2)
        j = rng.random()
        if j < .2 and a.size and np.all(a == np.floor(a)) and e['how'] == 'direct':
            a = a.astype(rng.choice([int, np.int32]))
        elif j < .3:
            a = np.asfortranarray(a)
        elif j < .4:
            a = np.repeat(a, 2, axis=0)[::2]
        elif j < .5:
            a = np.hstack([a, a])[:, :2]
        keep = a.copy()

        def go():
            if e['how'] == 'direct':
                return self.d.apply(a) if e['op'] == 'apply' else self.d.apply_inverse(a)
            if self.panel is None:
                from hexrd.core.instrument import PlanarDetector
                self.panel = PlanarDetector(rows=100, cols=120, pixel_size=(2., 1.5), tvec=np.array([3., -2., -900.]), tilt=np.array([.1, -.05, .2]), distortion=self.d)
            P = self.panel
            if e['op'] == 'apply':
                if e['how'] == 'pixel':
                    ij = P.cartToPixel(a, apply_distortion=True)
                    return np.array([(ij[:, 1] + .5) * 1.5 - 90, 100 - (ij[:, 0] + .5) * 2.]).T
                ang, _ = P.cart_to_angles(a, apply_distortion=True)
                return P.angles_to_cart(ang)
            ang, _ = P.cart_to_angles(a)
            return P.angles_to_cart(ang, apply_distortion=True)
        s, v = outcome(go)
        if s == 'err':
            return dict(e, obs={'k': 'err', 'e': v})
        v = np.asarray(v)
        if v.shape != (len(pts), 2):
            return dict(e, obs={'k': 'v', 'v': [], 'same': True})
        same = bool(np.array_equal(a, keep, equal_nan=True)) and a.dtype == keep.dtype
        out = []
        for x, pt in zip(v, pts):
            if e['op'] == 'inverse' and k == 'ge' and pt:
                out.append(pt if np.abs(x - place(k, pt)).max() < 1e-7 else [NONINT])
            elif e['op'] == 'inverse' and k == 'quad' and pt:
                out.append([rval(x[0], 16, 1e-9), rval(x[1], 16, 1e-9)])
            elif e['op'] == 'inverse' or k != 'ge':
                out.append([rval(t, 1, 1e-8) for t in x] if pt else ([] if np.all(np.isnan(x)) else [NONINT]))
            else:
                out.append(self.see(x, pt))
        return dict(e, obs={'k': 'v', 'v': out, 'same': same})


def fix_how(e, rng, kind):
    e = dict(e)
    if e['op'] in ('apply', 'inverse'):
        e['how'] = rng.choice(['direct', 'direct', 'panel', 'pixel'] if e['op'] == 'apply' else ['direct', 'direct', 'panel'])
        if kind == 'dex' and any(0 in pt for pt in e['pts']):  # on the seam: a rounding on the way there and back decides
            e['how'] = 'direct'
    return e


def rparams(kind, rng):
    if kind == 'ge':
        m = rng.choice([1, 3, 8])
        return [rng.choice([0, rng.randint(-m, m)]) for _ in range(3)] + (([2] * 3) if rng.random() < .6 else [rng.choice([1, 2, 3]) for _ in range(3)])
    if kind == 'dex':
        return [rng.choice([0, rng.randint(-9, 9), rng.randint(-9, 9)]) for _ in range(8)] if rng.random() < .9 else [0] * 8
    if kind == 'quad':
        if rng.random() < .1:
            return [0] * 6
        return [rng.randint(-30, 30), 16 + rng.randint(-3, 3), rng.randint(-4, 4), rng.randint(-30, 30), rng.randint(-4, 4), 16 + rng.randint(-3, 3)]
    return []


def body(c):
    rng = c.rng
    behs = c.generate('Distort', 2)
    c.cov['model_behaviours'] = len(behs)
    if c.quick:
        behs = rng.sample(behs, min(len(behs), 2000))
    traces = []

    def run(hdr, evs):
        d = Drv(hdr, rng)
        traces.append({'hdr': hdr, 'ev': [d.event(fix_how(e, rng, hdr["kind"])) for e in evs]})
    for b in behs:
        run({'kind': b['hdr']['kind'], 'p': list(b['hdr']['p'])}, b['ev'])
    for _ in range(1500 if c.quick else 40000):
        k = rng.choice(['ge', 'ge', 'dex', 'quad', 'id'])
        evs = []
        for _ in range(rng.randint(1, 5)):
            op = rng.choice(['apply', 'inverse', 'apply', 'inverse', 'set'])
            if op == 'set':
                if k != 'id':
                    p = rparams(k, rng)
                    evs.append({'op': 'set', 'p': p if rng.random() < .9 else p + [1] if rng.random() < .5 else p[:-1]})
            else:
                evs.append({'op': op, 'pts': points(k, rng, rng.choice([1, 2, 3, 4, 5, 9, 30]))})
        run({'kind': k, 'p': rparams(k, rng)}, evs)
    c.judge('Distort', traces, chunk=30000)
    c.assumptions.append('GE distortion with terms up to eight thousandths; positions compared to 1e-7 mm')


vf.main('C27', body)
