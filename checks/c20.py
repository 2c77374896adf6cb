"""C20: quantities with units (spec Units)."""
import math
import numpy as np
import vf
from vf import outcome

NDIG, LO = 56, -10
DIM = {'m': 'length', 'meter': 'length', 'mm': 'length', 'nm': 'length', 'angstrom': 'length',
       'degrees': 'angle', 'radians': 'angle', 'keV': 'energy', 'J': 'energy'}
# value in the base unit = value * SCALE
SCALE = {'m': 1e10, 'meter': 1e10, 'mm': 1e7, 'nm': 10.0, 'angstrom': 1.0, 'degrees': 1.0, 'radians': 180 / math.pi, 'keV': 1.0, 'J': 1 / 1.602176634e-16}
HC = 12.398419843320026     # keV angstrom
UNITS = list(DIM)


def dec(v, mag, digits, tol):
    """the decimal of `digits` significant digits (of mag) that v is, within tol"""
    v = float(v)
    bad = {'neg': False, 'dig': [-1]}
    if not math.isfinite(v):
        return bad
    if mag == 0:
        return {'neg': False, 'dig': [0] * NDIG} if v == 0 else bad
    k = math.floor(math.log10(mag)) - digits + 1
    n = round(v / 10.0 ** k) if k >= 0 else round(v * 10.0 ** -k)
    back = n * 10.0 ** k if k >= 0 else n / 10.0 ** -k
    if abs(back - v) > tol * mag:
        return bad
    out = [0] * NDIG
    i = k - LO
    s = abs(n)
    while s:
        if not 0 <= i < NDIG:
            if s % 10:
                return bad
        else:
            out[i] = s % 10
        s //= 10
        i += 1
    return {'neg': n < 0, 'dig': out}


class Drv:
    """registers hold the code's objects, their unit scale and magnitude"""
    def __init__(self, rng):
        from hexrd.core import valunits
        self.vu = valunits
        self.regs, self.mag, self.rough = [], [], []
        self.rng = rng

    def obs_val(self, v, scale, mag, rough, dim):
        b = float(v) * scale
        x = {'k': 'v', 'rough': bool(rough), 'd': dec(b, mag or abs(b), 6 if rough else 13, 2e-6 if rough else 2e-14)}
        m = mag or abs(b)
        x['lo'] = math.floor(math.log10(m)) - 12 - LO + 1 if m else 0
        x['i'] = dec(HC / b, abs(HC / b), 6, 2e-6) if dim in ('length', 'energy') and b else {'neg': False, 'dig': [-1]}
        return x

    def push(self, q, mag, rough):
        self.regs.append(q)
        self.mag.append(mag)
        self.rough.append(rough)

    def make(self, e):
        """a literal quantity"""
        u = e['unit']
        v = e['m'] * 10.0 ** e['x'] if e['x'] >= 0 else e['m'] / 10.0 ** -e['x']
        if e['inv']:
            v = HC / v / SCALE[u]
        elif u in ('radians', 'J'):
            v = v / SCALE[u]
        kind = DIM[u]
        ut = kind if self.rng.random() < .5 else kind.upper()
        mk = self.rng.random()
        vu = self.vu
        if mk < .25 and u in ('nm', 'keV', 'angstrom', 'degrees'):
            return getattr(vu, {'nm': '_nm', 'keV': '_kev', 'angstrom': self.rng.choice(['_angstrom', '_angstroms']), 'degrees': '_degrees'}[u])(v)
        return vu.valWUnit('q', ut, np.float64(v) if mk > .8 else v, u)

    def run(self, e):
        vu, op = self.vu, e['op']
        state = [(q.value, q.unit, q.uT, q.name) if q is not None else None for q in self.regs]
        R = lambda i: self.regs[i - 1]
        M = lambda i: self.mag[i - 1]
        res = None
        void = False

        def go():
            nonlocal res, void
            if op == 'new':
                q = self.make(e)
                mag = abs(float(q.value) * SCALE[q.unit])
                res = (q, mag, q.unit == 'J' or e['inv'])
            elif op == 'conv':
                a = R(e['r'])
                v = a.getVal(e['u'])
                u = e['u']
                if u not in DIM:         # a product asked for its own unit
                    res = (vu.valWUnit(a.name, a.uT, v, u), M(e['r']), self.rough[e['r'] - 1])
                else:
                    cross = DIM.get(a.unit) != DIM[u]
                    res = (vu.valWUnit('q', DIM[u], v, u), abs(float(v) * SCALE[u]) if cross else M(e['r']), True if cross else self.rough[e['r'] - 1] or 'J' in (u, a.unit))
            elif op in ('add', 'sub'):
                a, b = R(e['a']), R(e['b'])
                q = a + b if op == 'add' else a - b
                res = (q, max(M(e['a']), M(e['b'])), self.rough[e['a'] - 1] or self.rough[e['b'] - 1] or a.unit != b.unit and 'J' in (a.unit, b.unit))
            elif op in ('addf', 'subf', 'mulf'):
                a = R(e['a'])
                m = e['m'] if e['int'] else float(e['m'])
                if a.unit in ('radians', 'J') and op != 'mulf':
                    m = m / SCALE[a.unit]
                if not e['int'] and self.rng.random() < .3:
                    m = np.float64(m)
                q = a + m if op == 'addf' else a - m if op == 'subf' else a * m
                sc = SCALE.get(a.unit, 1)
                res = (q, max(M(e['a']), abs(e['m']) * (1 if a.unit in ('radians', 'J') else sc)) if op != 'mulf' else M(e['a']) * abs(e['m']), self.rough[e['a'] - 1])
            elif op == 'mulq':
                a, b = R(e['a']), R(e['b'])
                res = (a * b, M(e['a']) * M(e['b']), self.rough[e['a'] - 1] or self.rough[e['b'] - 1])
            elif op == 'wave':
                from hexrd.core.material.crystallography import processWavelength
                a = R(e['r'])
                v = processWavelength(a)
                return self.obs_val(v, 1.0, M(e['r']) if DIM.get(a.unit) == 'length' else 0, self.rough[e['r'] - 1] or DIM.get(a.unit) != 'length', 'length')
            elif op == 'kev':
                from hexrd.core.material.crystallography import processWavelength
                v = processWavelength(e['m'] * 10.0 ** e['x'])
                return self.obs_val(v, 1.0, 0, True, 'length')
            elif op == 'floats':
                args = [float(x['m']) / (SCALE[e['u']] if e['u'] in ('radians', 'J') else 1) if x['bare'] else R(x['r']) for x in e['of']]
                if e['how'] == 'scalar':
                    r = [vu.toFloat(x, e['u']) for x in args]
                elif e['how'] == 'dflt':
                    r = [vu.valWithDflt(x, 1e9, e['u']) for x in args]
                elif e['how'] == 'none':
                    r = [vu.valWithDflt(None, x, e['u']) for x in args]
                else:
                    r = vu.toFloat(args, e['u']) if e['how'] == 'list' else vu.toFloat(tuple(args), e['u'])
                out = []
                for x, v in zip(e['of'], r):
                    if x['bare']:
                        out.append(self.obs_val(v, SCALE[e['u']], 0, False, DIM[e['u']]))
                    else:
                        q = R(x['r'])
                        cross = DIM.get(q.unit) != DIM[e['u']]
                        out.append(self.obs_val(v, SCALE[e['u']], 0 if cross else M(x['r']), cross or self.rough[x['r'] - 1] or 'J' in (q.unit, e['u']), DIM[e['u']]))
                return {'k': 'list', 'v': out}
            q, mag, rough = res
            parts = [p.strip('()') for p in q.unit.split(')*(')]
            sc = 1.0
            for p in parts:
                sc *= SCALE.get(p, 1.0)
            o = self.obs_val(q.value, sc, mag, rough, DIM.get(q.unit, 'prod'))
            o.update(unit=q.unit, len=bool(q.isLength()), ang=bool(q.isAngle()), en=bool(q.isEnergy()))
            return o
        k, o = outcome(go)
        if k == 'err':
            res = None
            o = {'k': 'err', 'e': o}
        now = [(q.value, q.unit, q.uT, q.name) if q is not None else None for q in self.regs]
        o['pure'] = now == state
        if op not in ('wave', 'kev', 'floats'):
            self.push(*(res if res and math.isfinite(float(res[0].value)) else (None, 0, False)))
        return dict(e, obs=o)


def history(rng, head, evs):
    d = Drv(rng)
    for e in head:
        d.run(e)
    out = []
    for e in evs:
        out.append(d.run(e))
    return out


def random_history(rng):
    d = Drv(rng)
    out = []
    muls = set()
    for _ in range(rng.choice([6, 10, 16])):
        live = [i + 1 for i, q in enumerate(d.regs) if q is not None]
        simple = [i for i in live if i not in muls]
        j = rng.random()
        def pick(pred=lambda q: True):
            c = [i for i in simple if pred(d.regs[i - 1])]
            return rng.choice(c or live)
        if j < .25 or len(live) < 2:
            u = rng.choice(UNITS)
            inv = DIM[u] in ('length', 'energy') and u in ('angstrom', 'keV') and rng.random() < .25
            x = rng.choice([0, 0, 1, -1])
            e = {'op': 'new', 'unit': u, 'm': rng.choice([1, 2, 5, 9, 17, 64, 99]) * (1 if inv or rng.random() < .8 else -1), 'x': x, 'inv': inv}
        elif j < .55:
            r = rng.choice(live)
            q = d.regs[r - 1]
            us = [u for u in UNITS if DIM[u] == DIM.get(q.unit)] or [q.unit]
            e = {'op': 'conv', 'r': r, 'u': rng.choice(us) if rng.random() < .8 else rng.choice(UNITS + ['furlong'])}
        elif j < .7:
            a = rng.choice(live)
            b = pick(lambda q: DIM.get(q.unit) == DIM.get(d.regs[a - 1].unit)) if rng.random() < .85 else rng.choice(live)
            if 1e-9 > abs(d.mag[a - 1] / d.mag[b - 1]) or abs(d.mag[a - 1] / d.mag[b - 1]) > 1e9:
                continue
            e = {'op': rng.choice(['add', 'sub']), 'a': a, 'b': b}
        elif j < .8:
            a = pick()
            op = rng.choice(['addf', 'subf', 'mulf'])
            if op == 'mulf' and a in muls:
                continue
            e = {'op': op, 'a': a, 'm': rng.choice([0, 1, 2, 3, -2, 10]), 'int': rng.random() < .15}
            if e['op'] == 'mulf' and e['m'] == 0:
                e['m'] = 4
            if e['int'] and d.regs[a - 1].unit in ('radians', 'J'):
                e['int'] = False
        elif j < .86:
            a, b = pick(), pick()
            if abs(d.mag[a - 1] * d.mag[b - 1]) > 1e28 or min(d.mag[a - 1], d.mag[b - 1]) < 1e-3:
                continue
            e = {'op': 'mulq', 'a': a, 'b': b}
        elif j < .92:
            e = {'op': 'wave', 'r': rng.choice(live)} if rng.random() < .8 else {'op': 'kev', 'm': rng.choice([1, 8, 65, 80, 12]), 'x': rng.choice([0, 1])}
        else:
            u = rng.choice(UNITS)
            c = [i for i in live if DIM.get(d.regs[i - 1].unit) == DIM[u]] if rng.random() < .85 else live
            of = [{'bare': True, 'm': rng.choice([0, 1, 3, 12]), 'r': 0} if rng.random() < .3 or not c else {'bare': False, 'm': 0, 'r': rng.choice(c)} for _ in range(rng.choice([1, 2, 4]))]
            e = {'op': 'floats', 'u': u, 'of': of, 'how': rng.choice(['scalar', 'list', 'tuple', 'dflt', 'none'])}
        out.append(d.run(e))
        k = len(d.regs)
        if out[-1]['op'] in ('mulf', 'mulq') or out[-1]['op'] in ('conv', 'add', 'sub', 'addf', 'subf') and any(x in muls for x in (e.get('a'), e.get('b'), e.get('r'))):
            muls.add(k)
    return out


def body(c):
    rng = c.rng
    behs = c.generate('Units', 2)
    c.cov['model_behaviours'] = len(behs)
    pre = [('m', 3, 0), ('meter', 25, -1), ('mm', 4, 0), ('nm', 7, 0), ('angstrom', 2, 0), ('degrees', 45, 0), ('radians', -12, 1), ('keV', 65, 0), ('J', 8, 0), ('angstrom', 5, -1)]
    head = [{'op': 'new', 'unit': u, 'm': m, 'x': x, 'inv': i == 9} for i, (u, m, x) in enumerate(pre)]
    traces = []
    for b in behs:
        traces.append({'hdr': {'std': True}, 'ev': history(rng, head, b['ev'])})
    for _ in range(1500 if c.quick else 40000):
        traces.append({'hdr': {'std': False}, 'ev': random_history(rng)})
    c.judge('Units', traces, chunk=30000)
    c.assumptions = ['hc = 12.398419843320026 keV angstrom, 1 keV = 1.602176634e-16 J, both to 6 digits; everything else to 13 digits']


vf.main('C20', body)
