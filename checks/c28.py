"""C28: vectors, symmetry in cartesian axes, colour keys and variants of a crystal (spec Crystal)."""
import math
import itertools
from types import SimpleNamespace
import numpy as np
import vf
from vf import outcome, rval, NONINT

UNIT = .4          # nm: the length whose square is one unit of the metric
GROUPS = [3, 4, 6, 10, 12, 14, 16, 19, 25, 36, 47, 62, 63, 75, 81, 83, 89, 99, 111, 115, 123, 139, 141, 143, 147, 148, 149, 150, 152, 155, 156, 160, 162, 164, 166, 168, 174, 176, 177, 183, 187, 190, 191, 194, 195, 198, 200, 205, 207, 212, 215, 216, 221, 225, 227, 229]
# Laue class -31m: the two-fold axes lie between the cell's axes
M31 = {149, 151, 153, 157, 159, 162, 163}
# these, and the monoclinic groups without a centre, are coloured by operations about other axes: known findings
ASKEW = M31 | {3, 4, 5, 6, 7, 8, 9}


def system(n):
    return [s for s, m in (('triclinic', 2), ('monoclinic', 15), ('orthorhombic', 74), ('tetragonal', 142), ('trigonal', 167), ('hexagonal', 194), ('cubic', 230)) if n <= m][0]


def det(m):
    return m[0] * m[1] * m[2] + 2 * m[3] * m[4] * m[5] - m[0] * m[3] ** 2 - m[1] * m[4] ** 2 - m[2] * m[5] ** 2


def metric(rng, sg):
    s = system(sg)
    while True:
        A, B, C = [rng.randint(1, 5) for _ in range(3)]
        D = E = F = 0
        if s == 'cubic':
            A = B = C = rng.choice([1, 2])
        elif s == 'tetragonal':
            B = A
        elif s in ('hexagonal', 'trigonal'):
            F = -rng.randint(1, 2)
            A = B = -2 * F
        elif s == 'monoclinic':
            E = rng.randint(-3, 3)
        elif s == 'triclinic':
            D, E, F = [rng.randint(-2, 2) for _ in range(3)]
        m = [A, B, C, D, E, F]
        G = np.array([[A, F, E], [F, B, D], [E, D, C]], float)
        if min(np.linalg.eigvalsh(G)) > .4:
            return m


def cell(sg, m, rng):
    from hexrd.core.material.unitcell import unitcell
    from hexrd.core.valunits import valWUnit
    L = [math.sqrt(x) * UNIT for x in m[:3]]
    ang = [math.degrees(math.acos(m[k] / math.sqrt(m[i] * m[j]))) for k, i, j in ((3, 1, 2), (4, 0, 2), (5, 0, 1))]
    u, f = rng.choice([('nm', 1), ('angstrom', 10)])
    lp = [valWUnit('lp', 'length', x * f, u) for x in L] + [valWUnit('lp', 'angle', *((a, 'degrees') if rng.random() < .5 else (math.radians(a), 'radians'))) for a in ang]
    return unitcell(lp, sg, np.array([14]), np.array(['0']), np.array([[.1, .2, .3, 1.]]), np.array([1e-3]), .2, 20.)


class Drv:
    def __init__(self, hdr, rng):
        self.h, self.rng = hdr, rng
        self.u1 = cell(hdr['sg'], hdr['m'], rng)
        self.u2 = cell(hdr['sg2'], hdr['m2'], rng)
        m = hdr['m']
        self.D, self.k = det(m), UNIT ** 2
        self.V = math.sqrt(self.D) * UNIT ** 3

    def ints(self, v, f=1.):
        return [rval(x * f, 1, 1e-6) for x in np.asarray(v, float).ravel()]

    def event(self, e):
        s, v = outcome(self.do, e)
        return dict(e, obs=dict(v, k='v') if s == 'ok' else {'k': 'err', 'e': v})

    def do(self, e):
        rng, uc, D, k, V, op = self.rng, self.u1, self.D, self.k, self.V, e['op']
        vec = lambda v: rng.choice([lambda x: np.array(x, float), lambda x: np.array(x), list])(v)
        # one raised or lowered component carries the unit of the metric
        up = lambda sp: 1. if sp == 'd' else k * D      # scale of a product of reciprocal vectors to a whole number
        if op == 'path':
            p, v = e['path'], vec(e['v'])
            for a, b in zip(p, p[1:]):
                v = uc.TransSpace(v, a, b)
            return {'v': self.ints(v, 1 if p[0] == p[-1] else 1 / k if p[0] == 'd' else k * D)}
        if op in ('dot', 'length', 'angle'):
            sp, f = e['sp'], 1 / k if e['sp'] == 'd' else k * D
            u, v = vec(e['u']), vec(e.get('v', e['u']))
            if e.get('via'):
                u, v, sp = uc.TransSpace(u, sp, 'c'), uc.TransSpace(v, sp, 'c'), 'c'
            if op == 'dot':
                return {'v': rval(uc.CalcDot(u, v, sp) * f, 1, 1e-6)}
            if op == 'length':
                n = uc.CalcLength(u, sp)
                return {'v': rval(n ** 2 * f, 1, 1e-6), 'unit': bool(abs(uc.CalcLength(uc.NormVec(np.array(u), sp), sp) - 1) < 1e-9 and np.allclose(uc.NormVec(np.array(u), sp) * n, u, atol=1e-9))}
            c = math.cos(uc.CalcAngle(u, v, sp))
            G = self.gram(e['sp'])
            q = (np.dot(e['u'], G @ e['u'])) * np.dot(e['v'], G @ e['v'])
            return {'v': rval(math.copysign(c * c * q, c) if abs(c) > 1e-9 else 0., 1, 1e-5)}
        if op == 'cross':
            sp, out, u, v = e['sp'], e['out'], vec(e['u']), vec(e['v'])
            k0 = (np.array(u).copy(), np.array(v).copy())
            ins = sp
            if e['via'] and e['div']:
                u, v, ins = uc.TransSpace(u, sp, 'c'), uc.TransSpace(v, sp, 'c'), 'c'
                k0 = (u.copy(), v.copy())
            o2 = 'c' if e['outc'] else out
            x = uc.CalcCross(u, v, ins, o2, **({'vol_divide': True} if e['div'] else {} if rng.random() < .5 else {'vol_divide': False}))
            same = np.array_equal(u, k0[0]) and np.array_equal(v, k0[1])
            if o2 == 'c':
                x = uc.TransSpace(x, 'c', out)
            if e['div']:      # the true product: divide by the volume, or by that of the reciprocal cell
                x = x / V if sp == 'd' else x * V
            return {'v': self.ints(x, (k * D if sp == 'd' else 1 / k) if sp == out else 1), 'same': bool(same)}
        if op == 'cart':
            f = lambda S: [self.ints(uc.rsm.T @ x @ uc.dsm) for x in S]
            return {'pg': f(uc.SYM_PG_c), 'laue': f(uc.SYM_PG_c_laue)}
        if op == 'colour':
            c = np.array([uc.dsm @ np.array(v, float) for v in e['vs']])
            if rng.random() < .5:
                c = c / np.linalg.norm(c, axis=1)[:, None]
            n = np.linalg.norm([uc.dsm @ np.array(v, float) for v in e['vs']], axis=1)
            keep = c.copy()
            r = uc.reduce_dirvector(c, 'laue') * n[:, None]
            if e['via']:      # the direction along a sample axis, of orientations
                ref = np.array([.48, -.6, .64])
                from hexrd.core import rotations as rot
                R = []
                for d in c / np.linalg.norm(c, axis=1)[:, None]:
                    a = np.cross(ref, d)
                    a = rng.uniform(.5, 2) * (d + ref) / 2 if np.linalg.norm(d + ref) > .3 else None
                    if a is None:
                        b = np.cross(ref, [0, 0, 1.])
                        Q = rot.rotMatOfExpMap(np.atleast_2d(b / np.linalg.norm(b) * math.pi).T)
                        a = Q @ ref + d
                        R.append((rot.rotMatOfExpMap(np.atleast_2d(a / np.linalg.norm(a) * math.pi).T) @ Q).T)
                    else:      # half a turn about the bisector
                        R.append(rot.rotMatOfExpMap(np.atleast_2d(a / np.linalg.norm(a) * math.pi).T).T)
                rgb = uc.color_orientations(np.array(R), ref_dir=ref)
            else:
                rgb = uc.color_directions(c, True)
            if not (rgb.shape == c.shape and np.all(np.isfinite(rgb)) and rgb.min() >= 0 and rgb.max() <= 1 and np.array_equal(c, keep)):
                raise RuntimeError('not colours')
            lab, rep = [], []
            for x in rgb:
                i = [j for j, y in enumerate(rep) if np.abs(x - y).max() < 1e-5]
                if not i:
                    rep.append(x)
                lab.append(i[0] if i else len(rep) - 1)
            return {'colour': lab, 'red': [self.ints(uc.rsm.T @ x) for x in r]}
        if op == 'variants':
            from hexrd.phase_transition.variants import getPhaseTransformationVariants as get
            a = lambda v: np.array(v, float) if rng.random() < .5 else np.array(v)
            R, n = get(SimpleNamespace(unitcell=self.u1), SimpleNamespace(unitcell=self.u2), [a(e['p1']), a(e['p2'])], [a(e['d1']), a(e['d2'])])
            u1, u2 = self.u1, self.u2
            d2, p2 = u2.dsm @ np.array(e['d2'], float), u2.rsm @ np.array(e['p2'], float)
            nd, np_ = np.linalg.norm(u1.dsm @ np.array(e['d1'], float)), np.linalg.norm(u1.rsm @ np.array(e['p1'], float))
            out = []
            for M in R:
                if np.abs(M @ M.T - np.eye(3)).max() > 1e-9:
                    raise RuntimeError('not a rotation')
                out.append([self.ints(u1.rsm.T @ (M @ d2) / np.linalg.norm(d2) * nd), self.ints(u1.dsm.T @ (M @ p2) / np.linalg.norm(p2) * np_), int(round(np.linalg.det(M)))])
            return {'v': out, 'num': int(n)}

    def gram(self, sp):
        A, B, C, D, E, F = self.h['m']
        G = np.array([[A, F, E], [F, B, D], [E, D, C]], float)
        return G if sp == 'd' else np.linalg.inv(G) * self.D


def fill(e, rng):
    e = dict(e)
    if e['op'] in ('dot', 'length', 'angle', 'cross', 'colour'):
        e['via'] = rng.random() < .4
    if e['op'] == 'cross':
        e['div'], e['outc'] = rng.random() < .6, rng.random() < .3
    return e


def vecs(rng, n=3):
    while True:
        v = [rng.randint(-n, n) for _ in range(3)]
        if any(v):
            return v


def flat(rng, n=2):
    """a plane and a direction in it"""
    while True:
        d, p = vecs(rng, n), vecs(rng, n)
        if sum(a * b for a, b in zip(d, p)) == 0:
            return d, p


def three(sg):
    return 143 <= sg <= 148


def directions(rng, sg, rec):
    """directions, many of them equivalent: images under the operations of the code"""
    rot = [np.round(W).astype(int) for W in rec]
    out = []
    for _ in range(rng.randint(1, 4)):
        v = np.array(vecs(rng, rng.choice([1, 2, 4])))
        if three(sg) and v[2] == 0:      # the equator of class -3: a known finding
            v[2] = 1
        out += [v] + [rng.choice(rot) @ v for _ in range(rng.randint(0, 4))]
    return [[int(x) for x in v] for v in rng.sample(out, len(out))]


def body(c):
    rng = c.rng
    behs = c.generate('Crystal', 1)
    c.cov['model_behaviours'] = len(behs)
    behs = rng.sample(behs, min(len(behs), 600 if c.quick else 5000))
    traces, drv = [], {}

    def run(hdr, evs):
        key = (hdr['sg'], tuple(hdr['m']), hdr['sg2'], tuple(hdr['m2']))
        d = drv.setdefault(key, None) or Drv(hdr, rng)
        drv[key] = d
        traces.append({'hdr': hdr, 'ev': [d.event(fill(e, rng)) for e in evs]})
    for b in behs:
        run({k: b['hdr'][k] for k in ('sg', 'm', 'sg2', 'm2')}, b['ev'])
    groups = GROUPS if c.quick else [n for n in range(3, 231)]
    for rep in range(1 if c.quick else 4):
        for sg in [1, 2] + groups:
            h = {'sg': sg, 'm': metric(rng, sg), 'sg2': rng.choice(groups), 'm2': None}
            h['m2'] = metric(rng, h['sg2'])
            d = Drv(h, rng)
            evs = []
            for _ in range(24 if c.quick else 60):
                op = rng.choice(['path', 'dot', 'length', 'angle', 'cross', 'cross', 'variants', 'variants', 'variants', 'colour', 'colour', 'cart'] if _ else ['cart'])
                sp = rng.choice('dr')
                if op == 'colour' and sg in ASKEW:
                    continue
                if op == 'cart' and (_ and rng.random() < .9 or system(sg) in ('monoclinic', 'triclinic')):
                    continue
                e = {'op': op}
                if op == 'path':
                    p = [sp]
                    while len(p) < 2 or p[-1] == 'c' or rng.random() < .5:
                        p.append(rng.choice('drc'))
                    e.update(path=p, v=vecs(rng))
                elif op in ('dot', 'angle'):
                    e.update(sp=sp, u=vecs(rng), v=vecs(rng))
                elif op == 'length':
                    e.update(sp=sp, u=vecs(rng))
                elif op == 'cross':
                    e.update(sp=sp, out=rng.choice('dr'), u=vecs(rng), v=vecs(rng))
                elif op == 'variants':
                    e['d1'], e['p1'] = flat(rng)
                    e['d2'], e['p2'] = flat(rng)
                elif op == 'colour':
                    e['vs'] = directions(rng, sg, d.u1.SYM_PG_d_laue)
                evs.append(d.event(fill(e, rng)))
            traces.append({'hdr': h, 'ev': evs})
    for sg in sorted(ASKEW):
        h = {'sg': sg, 'm': metric(rng, sg), 'sg2': 225, 'm2': [1, 1, 1, 0, 0, 0], 'label': 'colours'}
        d = Drv(h, rng)
        rot = [np.round(W).astype(int) for W in d.u1.SYM_PG_d_laue]
        traces.append({'hdr': h, 'ev': [d.event(fill({'op': 'colour', 'vs': [[int(x) for x in W @ np.array(v)] for v in ([1, 2, 3], [-1, 3, 1], [3, 1, 0], [1, -2, 4]) for W in rot]}, rng))]})
    h = {'sg': 147, 'm': [2, 2, 3, 0, 0, -1], 'sg2': 225, 'm2': [1, 1, 1, 0, 0, 0], 'label': 'equator'}
    traces.append({'hdr': h, 'ev': [Drv(h, rng).event(fill({'op': 'colour', 'vs': [[-3, -2, 0]]}, rng))]})
    # well-known relationships
    cub, hexm = [1, 1, 1, 0, 0, 0], [2, 2, 5, 0, 0, -1]
    for a, b in itertools.product((225, 221, 229), (229, 225)):
        for p1, d1, p2, d2 in (([1, 1, 1], [1, 0, -1], [0, 1, 1], [1, 1, -1]), ([1, 1, 1], [1, 1, -2], [1, 1, 0], [1, -1, 0]), ([0, 0, 1], [1, 1, 0], [0, 0, 1], [1, 0, 0]), ([1, 1, 1], [1, -1, 0], [1, 1, 1], [1, -1, 0])):
            run({'sg': a, 'm': cub, 'sg2': b, 'm2': cub}, [{'op': 'variants', 'p1': p1, 'd1': d1, 'p2': p2, 'd2': d2}])
    for a, b, ma, mb in ((229, 194, cub, hexm), (194, 229, hexm, cub)):
        f, g = ([1, 1, 0], [1, -1, 1]), ([0, 0, 1], [1, 0, 0])
        (p1, d1), (p2, d2) = (f, g) if a == 229 else (g, f)
        run({'sg': a, 'm': ma, 'sg2': b, 'm2': mb}, [{'op': 'variants', 'p1': p1, 'd1': d1, 'p2': p2, 'd2': d2}])
    c.judge('Crystal', traces, chunk=4000)
    c.assumptions.append('colours of directions with the symmetry of the Laue class (X-rays)')


vf.main('C28', body)
