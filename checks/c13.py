"""C13: space groups, families, absences and orbits (spec SpGroup)."""
import math
import numpy as np
import vf
from vf import outcome, rval, NONINT

FREE = {'triclinic': 6, 'monoclinic': 4, 'orthorhombic': 3, 'tetragonal': 2, 'trigonal': 2, 'hexagonal': 2, 'cubic': 1}
PICK = {'triclinic': [0, 1, 2, 3, 4, 5], 'monoclinic': [0, 1, 2, 4], 'orthorhombic': [0, 1, 2], 'tetragonal': [0, 2], 'trigonal': [0, 2], 'hexagonal': [0, 2], 'cubic': [0]}
# the rotations about c and the two-fold axes along a, b and a + b
M3 = {(1, 0, 0, 0, 1, 0, 0, 0, 1), (0, -1, 0, 1, -1, 0, 0, 0, 1), (-1, 1, 0, -1, 0, 0, 0, 0, 1),
      (1, -1, 0, 0, -1, 0, 0, 0, -1), (0, 1, 0, 1, 0, 0, 0, 0, -1), (-1, 0, 0, -1, 1, 0, 0, 0, -1)}


def system(n):
    return [s for s, m in (('triclinic', 2), ('monoclinic', 15), ('orthorhombic', 74), ('tetragonal', 142), ('trigonal', 167), ('hexagonal', 194), ('cubic', 230)) if n <= m][0]


def ints(M):
    return [rval(x, 1, 1e-6) for x in np.asarray(M, float).ravel()]


def op12(S):
    return ints(S[:3, :3]) + [(lambda x: x if x == NONINT else x % 24)(rval(x, 24, 1e-4)) for x in np.asarray(S, float)[:3, 3]]


def near(rng, s):
    """a metric with spacings that nearly coincide"""
    while True:
        m, _ = metric(rng, s)
        k = rng.randint(20, 60)
        A, B, C, D, E, F = [k * x for x in m]
        if s not in ('cubic', 'tetragonal', 'hexagonal', 'trigonal'):
            A += rng.randint(-2, 2)
            B = rng.choice([A, B]) + rng.randint(-2, 2)
        C = (C if s == 'cubic' else rng.choice([A, B, C]) + rng.randint(-2, 2))
        G = np.array([[A, F, E], [F, B, D], [E, D, C]], float)
        if min(np.linalg.eigvalsh(G)) > .4 * k:
            return [A, B, C, D, E, F]


def metric(rng, s):
    """reciprocal metric <<A, B, C, D, E, F>> of a cell of the system"""
    while True:
        A, B, C = [rng.randint(2, 9) for _ in range(3)]
        D = E = F = 0
        if s == 'cubic':
            B = C = A = rng.randint(1, 3)
        elif s == 'tetragonal':
            B = A
        elif s in ('hexagonal', 'trigonal'):
            F = rng.randint(1, 4)
            A = B = 2 * F
        elif s == 'monoclinic':
            E = rng.choice([-1, 1]) * rng.randint(1, 6)
        elif s == 'triclinic':
            D, E, F = [rng.randint(-5, 5) for _ in range(3)]
        G = np.array([[A, F, E], [F, B, D], [E, D, C]], float)
        if np.linalg.det(G) > 4 and min(np.linalg.eigvalsh(G)) > .4:
            return [A, B, C, D, E, F], G


def box(G, N):
    g = np.linalg.inv(G)
    return [int(math.floor(math.sqrt(N * g[i, i]) + 1e-6)) for i in range(3)]


def axis_bound_loses(G, N):
    """Is there a plane within the limit whose first, second or third index
    exceeds the last multiple of that reciprocal axis within the limit?  (See
    the known finding on oblique cells: these are exercised separately.)"""
    r = box(G, N)
    H = np.array(np.meshgrid(*[np.arange(-x, x + 1) for x in r], indexing='ij')).reshape(3, -1).T
    q = np.einsum('ni,ij,nj->n', H, G, H)
    lim = [max(1, math.ceil(math.sqrt((N + .5) / G[i, i]) - 1e-9)) for i in range(3)]
    return bool(np.any((q < N + .5) & np.any(np.abs(H) > lim, axis=1)))


def choose_N(rng, G, top=150, oblique=False, lo=.05):
    # about `top` reflections at most, in a box that is not too large
    V = 4 / 3 * math.pi / math.sqrt(np.linalg.det(G))
    N = max(1, int((rng.uniform(lo, 1) * top / V) ** (2 / 3)))
    N = max(N, int(max(np.diag(G))))        # at least one reflection along each axis
    while N > 1 and np.prod([2 * r + 1 for r in box(G, N)]) > 2200:
        N -= max(1, N // 60)
    while oblique and N > 1 and axis_bound_loses(G, N):
        N -= max(1, N // 60)
    return N


class Sut:
    def __init__(self, sg, rng):
        from hexrd.core.material import Material
        self.sg, self.rng, self.sys = sg, rng, system(sg)
        from hexrd.core.valunits import valWUnit
        self.m = Material()
        self.m.dmin = valWUnit('dmin', 'length', .9, 'angstrom')
        self.m.sgnum = sg
        self.cell()

    def cell(self, met=None):
        if met is None:
            self.met, self.G = metric(self.rng, self.sys)
        else:
            A, B, C, D, E, F = self.met = met
            self.G = np.array([[A, F, E], [F, B, D], [E, D, C]], float)
        D = np.linalg.inv(self.G)
        L = np.sqrt(np.diag(D))
        # lengths of at least 3 angstrom, so that 120ths are distinct positions
        k = self.rng.uniform(3.2, 5) / min(L)
        self.kappa = (10 / k) ** 2            # 1/d^2 in nm^-2 for each unit of Q
        ang = [math.degrees(math.acos(D[i, j] / L[i] / L[j])) for i, j in ((1, 2), (0, 2), (0, 1))]
        lp = list(L * k) + ang
        self.m.latticeParameters = [float(lp[i]) for i in PICK[self.sys]]
        return lp

    def event(self, e):
        from hexrd.core.material import symmetry, spacegroup
        op, m, rng = e['op'], self.m, self.rng
        uc = m.unitcell

        def go():
            if op == 'group':
                S, P, L, c, sy = symmetry.GenerateSGSym(self.sg)
                assert np.array_equal(S, uc.SYM_SG) and np.array_equal(P, uc.SYM_PG_d) and np.array_equal(L, uc.SYM_PG_d_laue)
                assert uc.nsgsym == len(S) and uc.npgsym == len(P) and bool(uc.centrosymmetric) == bool(c)
                assert np.allclose(S[:, 3], [0, 0, 0, 1]) and np.allclose(S[0], np.eye(4)) and np.all(S[:, :3, 3] >= 0) and np.all(S[:, :3, 3] < 1)
                return {'ops': [op12(x) for x in S], 'pg': [ints(x) for x in P], 'laue': [ints(x) for x in L], 'recip': [ints(x) for x in uc.SYM_PG_r_laue], 'centro': bool(c), 'symm': bool(sy)}
            if op == 'orient':
                from hexrd.core import rotations as rot
                pd = m.planeData
                tag = pd.laueGroup
                assert tag == spacegroup.SpaceGroup(self.sg).laueGroup
                R = rot.rotMatOfQuat(rot.quatOfLaueGroup(tag)).reshape(-1, 3, 3)
                F = pd.latVecOps['F']
                v = [ints(np.linalg.inv(F) @ r @ F) for r in R]
                return {'v': v, 'label': '-3m1' if {tuple(x) for x in v} == M3 else tag}
            if op == 'star':
                v = np.array(e['v'])
                return {'v': [ints(x) for x in uc.CalcStar(v, e['space'], applyLaue=e['laue'])]}
            if op == 'orbit':
                p, n = uc.CalcOrbit(np.array(e['v']) / 120)
                return {'v': [[(lambda y: y if y == NONINT else y % 120)(rval(y, 120, 1e-6)) for y in x] for x in p], 'n': int(n)}
            if op == 'allowed':
                h = np.array(e['h'])
                if rng.random() < .3:
                    h = h.astype(np.int32)
                return {'v': [[int(y) for y in x] for x in spacegroup.Allowed_HKLs(self.sg, h)]}
            if op == 'power':
                uc.atom_pos = np.array([[.123, .271, .345, 1.]])
                f = np.asarray(uc.CalcXRSF(np.array(e['h'], float)))
                f0 = max(f.max(), float(np.max(uc.CalcXRSF(np.array([[12., 12., 24.]])))), 1e-12)
                return {'v': [int(x > 1e-9 * f0) for x in f]}
            if op == 'hkls':
                d = 1 / math.sqrt(self.kappa * (e['N'] + .5))
                uc.dmin = d
                if e['how'] == 'phase':
                    from hexrd.powder.wppf.phase import Material_LeBail
                    h = Material_LeBail(material_obj=m).getHKLs(d)
                elif e['how'] == 'material':
                    from hexrd.core.valunits import valWUnit
                    m.dmin = valWUnit('dmin', 'length', d * 10, 'angstrom')
                    h = m.unitcell.getHKLs(d)
                else:
                    h = uc.getHKLs(d)
                return {'v': [[int(y) for y in x] for x in h]}
        k, v = outcome(go)
        return dict(e, obs=dict(v, k='v') if k == 'ok' else {'k': 'err', 'e': str(v)})


def hkl(rng, r=9):
    p = rng.random()
    a, b, c = [rng.randint(-r, r) for _ in range(3)]
    if p < .2:
        return rng.choice([[a, 0, 0], [0, a, 0], [0, 0, a]])
    if p < .45:
        return rng.choice([[a, b, 0], [0, a, b], [a, 0, b]])
    if p < .6:
        return rng.choice([[a, a, b], [a, -a, b], [a, b, a], [b, a, -a]])
    return [a, b, c]


def events(rng, s, quick):
    ev = [{'op': 'group'}, {'op': 'orient'}]
    n = 3 if quick else 30
    for _ in range(n):
        ev.append({'op': 'star', 'v': hkl(rng), 'space': rng.choice('rrd'), 'laue': rng.random() < .6})
    for _ in range(2 if quick else 12):
        p = rng.choice([0, 0, 15, 20, 30, 40, 45, 60, 80, 90, rng.randint(-150, 250)])
        x = [rng.choice([p, p, 0, 60, 30, -p, rng.randint(-150, 250)]) for _ in range(3)]
        ev.append({'op': 'orbit', 'v': x})
    h = []
    for _ in range(60 if quick else 200):
        x = hkl(rng)
        if x != [0, 0, 0] and x not in h:
            h.append(x)
    ev.append({'op': 'allowed', 'h': h})
    ev.append({'op': 'power', 'h': h[:15]})
    for how in (['cell', rng.choice(['phase', 'material'])] if quick else ['cell', 'phase', 'material'] * 2):
        N = choose_N(rng, s.G, 120 if quick else 400, s.sg <= 15)
        ev.append({'op': 'hkls', 'how': how, 'm': s.met, 'N': N, 'R': box(s.G, N)})
    return ev


def body(c):
    rng = c.rng
    behs = c.generate('SpGroup', 1)
    c.cov['model_behaviours'] = len(behs)
    traces = []
    for rep in range(1 if c.quick else 6):
        for n in range(1, 231):
            s = Sut(n, rng)
            traces.append({'hdr': {'sg': n}, 'ev': [s.event(e) for e in events(rng, s, c.quick)], 'replay': {'metric': s.met, 'kappa': s.kappa}})
            # nearly equal spacings, many reflections
        for _ in range(60 if c.quick else 400):
            n = rng.choice([rng.randint(1, 230), rng.randint(143, 167), rng.randint(3, 142)])
            s = Sut(n, rng)
            s.cell(near(rng, s.sys))
            N = choose_N(rng, s.G, 150 if c.quick else 300, n <= 15, lo=.7)
            e = {'op': 'hkls', 'how': rng.choice(['cell', 'phase', 'material']), 'm': s.met, 'N': N, 'R': box(s.G, N)}
            traces.append({'hdr': {'sg': n}, 'ev': [s.event(e)], 'replay': {'metric': s.met, 'kappa': s.kappa}})
        # skewed cells, deeper
        for _ in range(40 if c.quick else 200):
            n = rng.choice([1, 2, 3, 5, 8, 12, 14, 15])
            s = Sut(n, rng)
            N = choose_N(rng, s.G, 260, True)
            e = [{'op': 'hkls', 'how': rng.choice(['cell', 'phase']), 'm': s.met, 'N': N, 'R': box(s.G, N)}]
            traces.append({'hdr': {'sg': n}, 'ev': [s.event(x) for x in e], 'replay': {'metric': s.met, 'kappa': s.kappa}})
    # three fixed inputs of the known finding on oblique cells
    for n, met, N in ((1, [7, 8, 4, -3, -1, -4], 27), (2, [9, 7, 4, -4, 2, -1], 39), (5, [7, 8, 7, 0, -6, 0], 37)):
        s = Sut(n, rng)
        s.cell(met)
        traces.append({'hdr': {'sg': n}, 'ev': [s.event({'op': 'hkls', 'how': 'cell', 'm': met, 'N': N, 'R': box(s.G, N)})],
                       'replay': {'oblique cell beyond the axis bound': [n, met, N]}})
    by = {}
    for b in behs:
        by.setdefault(b['hdr']['sg'], []).extend(b['ev'])
    for n, ev in sorted(by.items()):
        s = Sut(n, rng)
        traces.append({'hdr': {'sg': n}, 'ev': [s.event(e) for e in ev], 'replay': {}})
    c.judge('SpGroup', traces)


vf.main('C13', body)
