"""C05: reflection exclusions and the views of plane data (spec Planes)."""
import copy
import pickle
import numpy as np
import vf
from vf import outcome, NONINT

U = 0.013            # 1/d^2 unit in 1/angstrom^2
TYPE = {'ci': 'tri', 'c2h': 'mono', 'd2h': 'ortho', 'c4h': 'tetr', 'd4h': 'tetr', 's6': 'hex', 'd3d': 'hex', 'c6h': 'hex', 'd6h': 'hex', 'th': 'cub', 'oh': 'cub'}
TAG = {'ci': ['Ci', 'S2'], 'c2h': ['C2h'], 'd2h': ['D2h', 'Vh'], 'c4h': ['C4h'], 'd4h': ['D4h'], 's6': ['S6', 'C3i'], 'd3d': ['D3d'], 'c6h': ['C6h'],
       'd6h': ['D6h'], 'th': ['Th'], 'oh': ['Oh', 'oh']}


def lparms(met, typ):
    """reduced lattice parameters (angstrom, degrees) of a reciprocal metric"""
    A, B, C, D, E, F = met
    G = np.array([[A, F / 2, E / 2], [F / 2, B, D / 2], [E / 2, D / 2, C]]) * U
    M = np.linalg.inv(G)
    a, b, c = np.sqrt(np.diag(M))
    al = np.degrees(np.arccos(M[1, 2] / b / c))
    be = np.degrees(np.arccos(M[0, 2] / a / c))
    ga = np.degrees(np.arccos(M[0, 1] / a / b))
    return {'cub': [a], 'hex': [a, c], 'tetr': [a, c], 'ortho': [a, b, c], 'mono': [a, b, c, be], 'tri': [a, b, c, al, be, ga]}[typ]


def mkmet(rng, typ):
    r = lambda lo=2, hi=12: rng.randint(lo, hi)
    if typ == 'cub':
        a = r()
        return [a, a, a, 0, 0, 0]
    if typ == 'hex':
        a = r()
        return [a, a, r(), 0, 0, a]
    if typ == 'tetr':
        a = r()
        return [a, a, r(), 0, 0, 0]
    if typ == 'ortho':
        return [r(), r(), r(), 0, 0, 0]
    if typ == 'mono':
        return [r(4), r(), r(4), 0, rng.randint(-4, 4), 0]
    while True:
        m = [r(6, 14), r(6, 14), r(6, 14)] + [rng.randint(-5, 5) for _ in range(3)]
        G = np.array([[2 * m[0], m[5], m[4]], [m[5], 2 * m[1], m[3]], [m[4], m[3], 2 * m[2]]])
        if np.linalg.eigvalsh(G)[0] > 2:
            return m


def wavelen(ql):
    return 2.0 / np.sqrt((ql + .5) * U)


def wave_arg(ql, rng):
    """the ways a wavelength may be given"""
    from hexrd.core import valunits as vu, constants as ct
    w = wavelen(ql)
    k = rng.randrange(4)
    if k == 0:
        return vu.valWUnit('w', 'length', w, 'angstrom')
    if k == 1:
        return ct.keVToAngstrom(w)
    if k == 2:
        return vu.valWUnit('e', 'energy', ct.keVToAngstrom(w), 'keV')
    return vu.valWUnit('w', 'length', w / 10, 'nm')


def lp_arg(met, typ, rng):
    from hexrd.core import valunits as vu
    lp = lparms(met, typ)
    if rng.random() < .3:
        n = {'cub': 1, 'hex': 2, 'tetr': 2}.get(typ, 3)
        return [vu.valWUnit('a', 'length', x / 10, 'nm') if i < n else vu.valWUnit('b', 'angle', np.radians(x), 'radians') for i, x in enumerate(lp)]
    return lp if rng.random() < .5 else np.array(lp)


def views(pd, m, rng):
    H = [tuple(h) for h in m['H']]
    num = lambda h: H.index(tuple(int(x) for x in h))
    wl = wavelen(m['ql'])
    sc = (2 / wl) ** 2 / U

    def qt(t):
        return NONINT if not np.isfinite(t) else vf.rval(np.sin(t / 2) ** 2, sc, 1e-5)

    def qd(d):
        return vf.rval(1 / d ** 2, 1 / U, 1e-5)
    o = {'k': 'ok'}
    allh = pd.getHKLs(allHKLs=True)
    o['order'] = [num(h) for h in allh]
    sh = pd.getHKLs()
    o['ids'] = [num(h) for h in sh]
    o['hkls'] = [[int(x) for x in h] for h in (pd.hkls.T if len(sh) else [])]
    o['tth'] = [qt(t) for t in pd.getTTh()]
    o['alltth'] = [qt(t) for t in pd.getTTh(allHKLs=True)]
    o['d'] = [qd(d) for d in pd.getPlaneSpacings()]
    o['mult'] = [int(x) for x in pd.getMultiplicity()]
    o['allmult'] = [int(x) for x in pd.getMultiplicity(allHKLs=True)]
    o['excl'] = [bool(x) for x in pd.exclusions]
    o['n'] = int(pd.nHKLs)
    o['nref'] = int(pd.getNhklRef())
    o['nr'] = len(pd.getTThRanges())
    if m['sf']:
        o['sf'] = [vf.ival(x) for x in pd.structFact]
        # intensities, with the angular factor taken out
        t = lambda q: 2 * np.arcsin(np.sqrt(q / (m['ql'] + .5)))
        lp = lambda q: 1 / (np.cos(t(q) / 2) * np.sin(t(q) / 2) ** 2) * (1 + np.cos(t(q)) ** 2) / 2
        qs = [q for q in o['alltth']]
        sfo = [m['sf'][i] for i in o['order']]
        mu = o['allmult']
        hi = [s * lp(q) for s, q in zip(sfo, qs) if q != NONINT]
        pw = [s * lp(q) * u for s, q, u in zip(sfo, qs, mu) if q != NONINT]
        hmax, pmax = (max(hi), max(pw)) if hi else (1, 1)
        shown = [(q, u) for q, u, x in zip(qs, mu, o['excl']) if not x]
        h, p = pd.hedm_intensity, pd.powder_intensity
        assert len(h) == len(p) == len(shown), 'intensity lengths'
        o['hi'] = [NONINT if q == NONINT and not np.isfinite(x) else vf.rval(x / 100 * hmax / lp(q), 1, 1e-6) for x, (q, u) in zip(h, shown)]
        o['pi'] = [NONINT if q == NONINT and not np.isfinite(x) else vf.rval(x / 100 * pmax / lp(q) / u, 1, 1e-6) for x, (q, u) in zip(p, shown)]
    else:
        o['sf'] = o['hi'] = o['pi'] = []
    sym = pd.getSymHKLs()
    o['sym'] = [[[int(x) for x in h] for h in s.T] for s in sym]
    wid = pd.getSymHKLs(withID=True)
    o['symid'] = []
    for s, w in zip(sym, wid):
        same = w.shape[0] == 4 and (w[1:] == s).all() and len(set(w[0])) == 1
        o['symid'].append(int(w[0, 0]) if same else -1)
    strs = pd.getSymHKLs(asStr=True)
    if [[' '.join(str(x) for x in h) for h in s] for s in o['sym']] != [[' '.join(x.split()) for x in s] for s in strs]:
        o['symid'] = [-2]
    pick = sorted(rng.sample(range(len(sh)), rng.randint(1, len(sh)))) if len(sh) else []
    o['pick'] = pick
    o['sub'] = []
    if pick:
        o['sub'] = [next((i for i, h in enumerate(H) if {tuple(x) for x in s.T.astype(int).tolist()} >= {h}), -1) for s in pd.getSymHKLs(indices=pick)]
        idsub = [int(s[0, 0]) for s in pd.getSymHKLs(withID=True, indices=pick)]
        if idsub != o['sub']:
            o['sub'] = [-2]
    o['hid'], o['mid'] = [], []
    for s in o['sym']:
        form = rng.randrange(3)
        if form == 0:
            a = [pd.getHKLID(tuple(h)) for h in s]
            b = [pd.getHKLID(tuple(h), master=True) for h in s]
        elif form == 1:
            a = pd.getHKLID([tuple(h) for h in s])
            b = pd.getHKLID([list(h) for h in s], master=True)
        else:
            a = pd.getHKLID(np.array(s).T)
            b = pd.getHKLID(np.array(s).T, master=True)
        o['hid'].append(sorted(set(int(x) for x in a)))
        o['mid'].append(sorted(set(int(x) for x in b)))
    o['byid'], o['allbyid'] = [], []
    for i in range(len(H)):
        k, v = outcome(lambda: pd.getHKLs(i))
        o['byid'].append(num(v[0]) if k == 'ok' and len(v) == 1 else -1)
        k, v = outcome(lambda: pd.getHKLs(i, allHKLs=True))
        o['allbyid'].append(num(v[0]) if k == 'ok' and len(v) == 1 else -1)
    two = [i for i in range(len(H)) if o['byid'][i] >= 0][::-1]
    if two and [num(h) for h in pd.getHKLs(*two)] != two:
        o['byid'] = [-2]
    o['badid'] = outcome(lambda: pd.getHKLs(len(H)))[0] == 'err' and outcome(lambda: pd.getHKLID((97, 3, 5)))[0] == 'err'
    if [''.join(x.split()) for x in pd.getHKLs(asStr=True)] != [''.join(str(int(v)) for v in h) for h in sh]:
        o['hkls'] = ['str']
    return o


def tth_of(r):
    return 2 * np.arcsin(np.sqrt(r[0] / r[1]))


def weights(m, order):
    """powder-intensity weights (millionths of the largest) by reflection"""
    def Q(h):
        A, B, C, D, E, F = m['met']
        return A * h[0] ** 2 + B * h[1] ** 2 + C * h[2] ** 2 + D * h[1] * h[2] + E * h[0] * h[2] + F * h[0] * h[1]
    t = lambda q: 2 * np.arcsin(np.sqrt(q / (m['ql'] + .5)))
    lp = lambda q: 1 / (np.cos(t(q) / 2) * np.sin(t(q) / 2) ** 2) * (1 + np.cos(t(q)) ** 2) / 2
    w = [(s * lp(Q(h)) * u if Q(h) <= m['ql'] else 0) for s, h, u in zip(m['sf'], m['H'], m['mult'])]
    mx = max(w)
    return [int(round(1e6 * x / mx)) for x in w] if mx else None


class Sim:
    def __init__(self, hdr, rng):
        self.rng = rng
        self.m = copy.deepcopy(hdr)
        self.m['order'] = None

    def build(self):
        from hexrd.core.material.crystallography import PlaneData
        m, rng = self.m, self.rng
        kw = {}
        if not m['sorted']:
            kw['doTThSort'] = False
        if m['ex'] or rng.random() < .2:
            mask = [i in m['ex'] for i in range(len(m['H']))]
            kw['exclusions'] = mask if rng.random() < .3 else np.array(mask)
        if m['mx']:
            kw['tThMax'] = tth_of(m['mx'])
        if rng.random() < .5:
            kw['tThWidth'] = 0.01
        self.pd = PlaneData(np.array(m['H']).T, lp_arg(m['met'], TYPE[m['grp']], rng), rng.choice(TAG[m['grp']]), wave_arg(m['ql'], rng), .002, **kw)
        order = [m['H'].index([int(x) for x in h]) for h in self.pd.getHKLs(allHKLs=True)]
        if m['sf']:
            self.pd.structFact = np.array([m['sf'][i] for i in order], dtype=float)

    def order(self):
        return [self.m['H'].index([int(x) for x in h]) for h in self.pd.getHKLs(allHKLs=True)]

    def step(self, e):
        m, rng, pd = self.m, self.rng, getattr(self, 'pd', None)
        op = e['op']
        typ = lambda: TYPE[m['grp']]

        def run():
            if op == 'new':
                self.build()
            elif op == 'none':
                pd.exclusions = None
            elif op == 'mask':
                pd.exclusions = np.array(e['m']) if rng.random() < .6 else list(e['m'])
            elif op == 'idx':
                pd.exclusions = np.array(e['i']) if rng.random() < .6 else list(e['i'])
            elif op == 'range':
                pd.exclusions = np.array(e['r']) if rng.random() < .6 else [list(r) for r in e['r']]
            elif op == 'lparms':
                pd.lparms = lp_arg(e['met'], typ(), rng)
            elif op == 'laue':
                pd.set_laue_and_lparms(rng.choice(TAG[e['grp']]), lp_arg(e['met'], TYPE[e['grp']], rng))
            elif op == 'wave':
                pd.wavelength = wave_arg(e['ql'], rng)
            elif op == 'max':
                pd.tThMax = tth_of(e['mx']) if e['mx'] else None
            elif op == 'width':
                if rng.random() < .5:
                    pd.strainMag = .003
                else:
                    pd.tThWidth = .02
            elif op == 'sf':
                pd.structFact = np.array(e['v'], dtype=float)
            elif op == 'copy':
                from hexrd.core.material.crystallography import PlaneData
                self.pd = PlaneData(None, pd)
            elif op == 'clone':
                self.pd = copy.deepcopy(pd) if rng.random() < .5 else pickle.loads(pickle.dumps(pd))
            elif op == 'exclude':
                kw = {}
                d = lambda q: 1 / np.sqrt((q + .5) * U)
                if e['qhi']:
                    kw['dmin'] = d(e['qhi'][0])
                if e['qlo']:
                    kw['dmax'] = d(e['qlo'][0])
                if e['tlo']:
                    kw['tthmin'] = tth_of(e['tlo'])
                if e['thi']:
                    kw['tthmax'] = tth_of(e['thi'])
                if e['slo']:
                    kw['sfacmin'] = (e['slo'][0] + .5) / max(m['sf'])
                if e['shi']:
                    kw['sfacmax'] = (e['shi'][0] + .5) / max(m['sf'])
                if e['plo']:
                    kw['pintmin'] = e['plo'][0] / 1e6
                if e['phi']:
                    kw['pintmax'] = e['phi'][0] / 1e6
                pd.exclude(**kw)
        k, v = outcome(run)
        if k == 'err':
            return dict(e, obs={'k': 'err', 'e': v})
        # the model's own continuation of the settings the driver needs
        if op in ('lparms', 'laue'):
            m['met'] = e['met']
        if op == 'laue':
            m['grp'] = e['grp']
        if op == 'wave':
            m['ql'] = e['ql']
        if op == 'copy':
            m['sf'] = []
        if op == 'sf':
            for p, i in enumerate(self.last):
                m['sf'][i] = e['v'][p]
        k, v = outcome(views, self.pd, m, rng)
        if k == 'err':
            return dict(e, obs={'k': 'broken', 'e': v})
        self.last = v['order']
        m['mult'] = [v['allmult'][v['order'].index(i)] for i in range(len(m['H']))] if sorted(v['order']) == list(range(len(m['H']))) else None
        return dict(e, obs=v)


HKL_GEN = [[h, k, l] for h in range(5) for k in range(h + 1) for l in range(k + 1) if h]
HKL_HEX = [[h, k, l] for h in range(4) for k in range(h + 1) for l in range(4) if h or l]


def random_trace(rng, c):
    grp = rng.choice(list(TYPE))
    pool = HKL_HEX if TYPE[grp] == 'hex' else HKL_GEN
    n = rng.choice([1, 2, 3, 5, 8, 12])
    H = rng.sample(pool, min(n, len(pool)))
    met = mkmet(rng, TYPE[grp])
    n = len(H)
    rat = lambda: [rng.choice([1, 3, 5, 7, 9, 13, 17, 21, 27, 33, 41, 51]), 64]
    ql = lambda: rng.choice([rng.randint(5, 60), rng.randint(60, 250), rng.randint(250, 900)])
    hdr = {'H': H, 'grp': grp, 'sorted': rng.random() < .85, 'met': met, 'ql': ql(), 'mx': rat() if rng.random() < .3 else [],
           'ex': sorted(rng.sample(range(n), rng.randint(0, n))) if rng.random() < .3 else [], 'order': [],
           'sf': [rng.randint(1, 60) for _ in range(n)]}
    sim = Sim(hdr, rng)
    evs = [sim.step({'op': 'new'})]
    if evs[0]['obs']['k'] != 'ok':
        return {'hdr': hdr, 'ev': evs}
    for _ in range(rng.randint(3, 9)):
        op = rng.choice(['mask', 'mask', 'idx', 'idx', 'range', 'lparms', 'lparms', 'lparms', 'wave', 'max', 'max', 'exclude', 'exclude', 'none', 'sf', 'copy', 'clone', 'laue', 'width'])
        e = {'op': op}
        if op == 'mask':
            e['m'] = [rng.random() < .5 for _ in range(n)]
        elif op == 'idx':
            k = rng.randint(1, n)
            if k == n:
                continue
            e['i'] = rng.sample(range(n), k)
        elif op == 'range':
            k = rng.choice([1, 1, 2])
            if k == n:
                continue
            e['r'] = [sorted([rng.randint(0, n), rng.randint(0, n)]) for _ in range(k)]
        elif op == 'lparms':
            e['met'] = mkmet(rng, TYPE[sim.m['grp']])
        elif op == 'laue':
            g = rng.choice([x for x in TYPE if (TYPE[x] == 'hex') == (TYPE[grp] == 'hex')])
            e['grp'], e['met'] = g, mkmet(rng, TYPE[g])
        elif op == 'wave':
            e['ql'] = ql()
        elif op == 'max':
            e['mx'] = rat() if rng.random() < .7 else []
        elif op == 'sf':
            if not sim.m['sf']:
                sim.m['sf'] = [0] * n
            e['v'] = [rng.randint(1, 60) for _ in range(n)]
        elif op == 'exclude':
            e.update({k: [] for k in ('qhi', 'qlo', 'tlo', 'thi', 'slo', 'shi', 'plo', 'phi', 'pw')})
            for k in rng.sample(['qhi', 'qlo', 'tlo', 'thi', 'slo', 'shi', 'plo', 'phi'], rng.randint(1, 3)):
                if k in ('qhi', 'qlo'):
                    e[k] = [rng.randint(2, 200)]
                elif k in ('tlo', 'thi'):
                    e[k] = rat()
                elif k in ('slo', 'shi') and sim.m['sf']:
                    e[k] = [rng.randint(0, 60)]
                elif sim.m['sf'] and sim.m['mult']:
                    w = weights(sim.m, None)
                    if w is None:
                        continue
                    t = rng.randint(1, 999999)
                    if all(abs(t - x) > 5 for x in w):
                        e['pw'], e[k] = w, [t]
        evs.append(sim.step(e))
        if evs[-1]['obs']['k'] == 'broken':
            break
    return {'hdr': hdr, 'ev': evs}


def body(c):
    rng = c.rng
    behs = c.generate('Planes', 2 if c.quick else 3)
    c.cov['model_behaviours'] = len(behs)
    traces = []
    for b in behs:
        hdr = dict(b['hdr'], ex=sorted(b['hdr']['ex']), order=[])
        sim = Sim(hdr, rng)
        evs = [sim.step({'op': 'new'})]
        for e in b['ev']:
            if evs[-1]['obs']['k'] == 'broken':
                break
            evs.append(sim.step(e))
        traces.append({'hdr': hdr, 'ev': evs})
    for _ in range(500 if c.quick else 6000):
        traces.append(random_trace(rng, c))
    c.judge('Planes', traces)
    c.assumptions = ['lattices with integer reciprocal metrics; the order among exactly equal spacings is left open']


vf.main('C05', body)
