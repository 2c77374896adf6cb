"""C06: two-theta ranges and merged ranges (spec Ranges)."""
import numpy as np
import vf
from vf import outcome, NONINT

SC = 2e8
U = 0.02


def enc(x):
    return NONINT if not np.isfinite(x) else int(round(float(x) * SC))


def norm_vecs(n, cache={}):
    """integer vectors of squared length n, one of each pair +-"""
    if n not in cache:
        r = int(n ** .5) + 1
        cache[n] = [[h, k, l] for h in range(0, r + 1) for k in range(-r, r + 1) for l in range(-r, r + 1)
                    if h * h + k * k + l * l == n and (h, k, l) > (0, 0, 0)]
    return cache[n]


class Sim:
    """reflections of given squared lengths, stored shuffled"""

    def __init__(self, qs, ql, ex, w, rng):
        from hexrd.core.material.crystallography import PlaneData
        from hexrd.core import valunits as vu
        self.rng, self.ql = rng, ql
        H, used = [], {}
        for q in qs:
            v = norm_vecs(q)
            H.append(v[used.get(q, 0) % len(v)])
            used[q] = used.get(q, 0) + 1
        self.qs, self.H = qs, H
        perm = list(range(len(H)))
        rng.shuffle(perm)
        kw = {'tThWidth': w['v'] / SC} if w['k'] == 'w' else {}
        a = 1 / np.sqrt(U)
        self.pd = PlaneData(np.array([H[i] for i in perm]).T, [a, a, a, 90., 90., 90.], 'ci', vu.valWUnit('w', 'length', self.wl(), 'angstrom'),
                            w['v'] / 1e6 if w['k'] == 's' else 1e-3, **kw)
        # numbering by angle, as the code shows the reflections
        self.order = [H.index([int(x) for x in h]) for h in self.pd.getHKLs(allHKLs=True)]
        if ex:
            self.pd.exclusions = np.array([i in ex for i in range(len(H))])

    def wl(self):
        return 2 / np.sqrt((self.ql + .5) * U)

    def tth(self, q):
        return 2 * np.arcsin(np.sqrt(q / (self.ql + .5))) if q <= self.ql else np.nan

    def hdr(self, ex, w):
        qs = [self.qs[i] for i in self.order]
        return {'T': [enc(self.tth(q)) for q in qs], 'cls': qs, 'ex': ex, 'w': w, 'edge': self.edge(qs)}

    def edge(self, qs):
        return [bool(q <= self.ql and q * 1.06 >= self.ql) for q in qs]

    def touching(self):
        """a width with which two neighbours touch exactly"""
        t = np.unique(self.pd.getTTh())
        t = t[np.isfinite(t)]
        if len(t) < 2:
            return None
        i = self.rng.randrange(len(t) - 1)
        w = float(t[i + 1] - t[i])
        for _ in range(8):
            d = (t[i] + w * .5) - (t[i + 1] - w * .5)
            if d == 0:
                return w
            w = float(np.nextafter(w, -1 if d > 0 else 9))
        return None

    def observe(self, e):
        pd, rng = self.pd, self.rng

        def rg(r):
            t = pd.getTTh()
            r = np.asarray(r, dtype=float).reshape(-1, 2)
            with np.errstate(all='ignore'):
                rl, rh = np.sin(t / 2) / np.sin(r[:, 0] / 2), np.sin(t / 2) / np.sin(r[:, 1] / 2)
            i6 = lambda v: [NONINT if not np.isfinite(x) or abs(x) > 2000 else int(round(x * 1e6)) for x in v]
            return {'lo': [enc(x) for x in r[:, 0]], 'hi': [enc(x) for x in r[:, 1]], 'rlo': i6(rl), 'rhi': i6(rh)}

        def run():
            r0 = np.asarray(pd.getTThRanges(), dtype=float).reshape(-1, 2)
            o = {'k': 'ok', 'rg': rg(r0), 'joins': [bool(r0[i, 1] >= r0[i + 1, 0]) for i in range(len(r0) - 1)]}
            sv = rng.choice([500, 2000, 12000])
            o['sv'] = sv
            o['rs'] = rg(pd.getTThRanges(strainMag=sv / 1e6))
            a, b = pd.getMergedRanges() if rng.random() < .5 else pd.getMergedRanges(cullDupl=False)
            o['mlist'], o['mhull'] = [[int(i) for i in g] for g in a], [[enc(x) for x in h] for h in b]
            a, b = pd.getMergedRanges(cullDupl=True)
            o['clist'], o['chull'] = [[int(i) for i in g] for g in a], [[enc(x) for x in h] for h in b]
            o['at'] = []
            num = [self.order.index(self.H.index([int(x) for x in h])) for h in pd.getHKLs(allHKLs=True)]
            assert num == list(range(len(num)))
            ends = [x for r in pd.getTThRanges() for x in r if np.isfinite(x)]
            for _ in range(3):
                t = rng.choice([rng.uniform(.01, 3)] + [x + d for x in ends for d in (-1e-6, 1e-6)])
                o['at'].append({'t': enc(t), 'ids': [self.order.index(self.H.index([int(x) for x in h])) for h in pd.getHKLs(thisTTh=t)]})
            return o
        k, v = outcome(run)
        return dict(e, obs=v if k == 'ok' else {'k': 'err', 'e': v})

    def step(self, e):
        pd, op = self.pd, e['op']
        if op == 'mask':
            pd.exclusions = np.array(e['m'])
        elif op == 'width':
            pd.tThWidth = float(e['f']) if 'f' in e else e['v'] / SC
        elif op == 'strain':
            pd.strainMag = e['v'] / 1e6
        elif op == 'wave':
            from hexrd.core import valunits as vu
            self.ql = e['ql']
            pd.wavelength = vu.valWUnit('w', 'length', self.wl(), 'angstrom')
            # ties may be listed in another order now: follow the stored numbering
            new = [self.H.index([int(x) for x in h]) for h in pd.getHKLs(allHKLs=True)]
            if new != self.order:
                return None
            qs = [self.qs[i] for i in self.order]
            e = dict(e, T=[enc(self.tth(q)) for q in qs], edge=self.edge(qs))
        return self.observe(e)


REP = [n for n in range(1, 700) if norm_vecs(n)]


def body(c):
    rng = c.rng
    behs = c.generate('Ranges', 1 if c.quick else 2, consts=None)
    c.cov['model_behaviours'] = len(behs)
    traces = []
    W = int(.04 * SC)
    for b in behs:
        # realise the pattern: equal length / next length / far length
        T = b['hdr']['T']
        n = 30
        qs = [n]
        for x, y in zip(T, T[1:]):
            if y == x:
                pass
            elif y - x == 2:
                n = next(m for m in REP if m > n and len(norm_vecs(m)) > 4)
            else:
                n = next(m for m in REP if m > n + 11 and len(norm_vecs(m)) > 4)
            qs.append(n)
        w = {'k': 'w', 'v': W}
        sim = Sim(qs, 400, [], w, rng)
        hdr = sim.hdr([], w)
        evs = [sim.observe({'op': 'new'})]
        for e in b['ev']:
            if e['op'] == 'width':
                e = {'op': 'width', 'v': {0: 0, 2: int(.02 * SC), 18: int(.2 * SC)}[e['v']]}
            evs.append(sim.step(e))
        traces.append({'hdr': hdr, 'ev': evs, 'replay': {'qs': qs, 'ql': 400}})
    for _ in range(300 if c.quick else 6000):
        n = rng.choice([1, 2, 3, 5, 8, 14])
        base = rng.choice([3, 10, 40, 120, 300])
        qs = []
        while len(qs) < n:
            q = rng.choice([m for m in REP if base <= m <= base + rng.choice([8, 40, 200])])
            if qs.count(q) < len(norm_vecs(q)):
                qs.append(q)
                if rng.random() < .3 and len(qs) < n and qs.count(q) < len(norm_vecs(q)):
                    qs.append(q)
        ql = rng.choice([max(qs) + rng.randint(20, 100), max(qs) * 2, max(qs) * 30, sorted(qs)[len(qs) // 2] + rng.randint(0, 9)])
        ex = sorted(rng.sample(range(n), rng.randint(0, n))) if rng.random() < .4 else []
        wv = lambda: int(rng.choice([0, 1e-5, .0005, .003, .01, .03, .1, .4]) * SC)
        sv = lambda: rng.choice([100, 1000, 5000, 20000])
        w = {'k': 'w', 'v': wv()} if rng.random() < .6 else {'k': 's', 'v': sv()}
        sim = Sim(qs, ql, ex, w, rng)
        tr = {'hdr': sim.hdr(ex, w), 'ev': [sim.observe({'op': 'new'})], 'replay': {'qs': qs, 'ql': ql}}
        for _ in range(rng.randint(1, 4)):
            op = rng.choice(['mask', 'width', 'strain', 'wave', 'mask'])
            e = {'op': op}
            if op == 'mask':
                p = rng.choice([.1, .5, .9, 1])
                e['m'] = [rng.random() < p for _ in range(n)]
            elif op == 'width':
                e['v'] = wv()
                if rng.random() < .4:
                    f = sim.touching()
                    if f is not None:
                        e['v'], e['f'] = enc(f), repr(f)
            elif op == 'strain':
                e['v'] = sv()
            else:
                e['ql'] = rng.choice([max(qs) + rng.randint(20, 100), max(qs) * 4])
            r = sim.step(e)
            if r is None:
                break
            tr['ev'].append(r)
        traces.append(tr)
    c.judge('Ranges', traces)
    c.assumptions = ['angles compared in units of 5e-9 rad; whether neighbours touch is decided by the exact order of the reported ends']


vf.main('C06', body)
