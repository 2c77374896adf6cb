"""C07: a material depends only on its current settings (spec Matl)."""
import copy
import io
import math
import os
import pickle
import numpy as np
import h5py
import vf
from vf import outcome, NONINT

SG = [1, 2, 14, 15, 62, 70, 123, 141, 148, 166, 167, 176, 191, 194, 221, 225, 227, 229]
ATOMS = [
    ([28], [[0, 0, 0, 1.]], [6.33e-3], ['0']),
    ([11, 17], [[0, 0, 0, 1.], [.5, .5, .5, 1.]], [.01, .012], ['1+', '1-']),
    ([14], [[.125, .125, .125, 1.]], [.006], ['0']),
    ([26, 8], [[.1, .2, .3, .75], [.4, .15, .05, 1.]], [.005, .02], ['3+', '2-']),
    ([58, 8, 13], [[0, 0, 0, .5], [.25, .25, .25, 1.], [0, 0, .3, 1.]], [.004, .008, .007], ['0', '0', '0']),
]
FREE = {'triclinic': (0, 1, 2, 3, 4, 5), 'monoclinic': (0, 1, 2, 4), 'orthorhombic': (0, 1, 2), 'tetragonal': (0, 2), 'hexagonal': (0, 2), 'cubic': (0,)}
EOS0 = [100, 0, 0, 0, 0, 0, 298, 0]


def system(sg):
    for hi, n in ((2, 'triclinic'), (15, 'monoclinic'), (74, 'orthorhombic'), (142, 'tetragonal'), (194, 'hexagonal'), (230, 'cubic')):
        if sg <= hi:
            return n


def full(sysn, p):
    return {'triclinic': lambda: list(p), 'monoclinic': lambda: [p[0], p[1], p[2], 90000, p[3], 90000], 'orthorhombic': lambda: [*p, 90000, 90000, 90000],
            'tetragonal': lambda: [p[0], p[0], p[1], 90000, 90000, 90000], 'hexagonal': lambda: [p[0], p[0], p[1], 90000, 90000, 120000],
            'cubic': lambda: [p[0]] * 3 + [90000] * 3}[sysn]()


def constrain(sg, lp):
    return full(system(sg), [lp[i] for i in FREE[system(sg)]])


def h5mat(s, extra=None):
    """A material built directly from settings s."""
    from hexrd.core.material import Material
    f = h5py.File('x%d' % id(s), 'w', driver='core', backing_store=False)
    g = f.create_group('m')
    Z, pos, U, ch = ATOMS[s['atoms']]
    g['SpaceGroupNumber'] = np.array([s['sg']], dtype=np.int32)
    g['SpaceGroupSetting'] = np.array([s['setting']], dtype=np.int32)
    g['LatticeParameters'] = np.array([x / 1e4 for x in s['lp'][:3]] + [x / 1e3 for x in s['lp'][3:]])
    g['AtomData'] = np.array(pos, dtype=float).T
    g['U'] = np.array(s.get('U', U), dtype=float)
    g['Atomtypes'] = np.array(Z, dtype=np.int32)
    g.create_dataset('ChargeStates', data=ch, dtype=h5py.special_dtype(vlen=str))
    g['dmin'] = s['dmin'] / 1e4
    g['kev'] = s['kev'] / 1e3
    if s['w'][0] == 'w':
        g['tThWidth'] = s['w'][1] / 1e3
    for k, v in zip(('k0', 'k0p', 'dk0dt', 'dk0pdt', 'alpha_t', 'dalpha_t_dt', 'temperature', 'pressure'), s['eos']):
        g[k] = float(v)
    if extra:
        for k, v in extra.items():
            g[k] = v
    m = Material('m', f)
    f.close()
    return m


def q(x, sc):
    x = float(x)
    if x != x or math.isinf(x) or abs(x * sc) >= 2 ** 31:
        return NONINT
    return int(round(x * sc))


def shown_all(pd):
    # only shown reflections report structure factors, so show everything on a copy
    full_ = copy.deepcopy(pd)
    full_.exclusions = None
    full_.tThMax = None
    return full_


def rows(m, sfs):
    pd = m.planeData
    H = pd.getHKLs(allHKLs=True)
    tth = pd.getTTh(allHKLs=True)
    mult = pd.getMultiplicity(allHKLs=True)
    al = shown_all(pd)
    # the shown ones report their own values whether or not anything is hidden
    part = iter(copy.deepcopy(pd).structFact)
    sf = al.structFact
    d = al.getPlaneSpacings()
    ex = pd.exclusions
    sf = [f if b else next(part) for f, b in zip(sf, ex)]
    if next(part, None) is not None:
        sf = [NONINT] * len(sf)
    nolim = copy.deepcopy(pd)
    nolim.tThMax = None
    return [{'h': [int(v) for v in h], 'tth': q(np.degrees(t), 1e3), 'sf': q(f, sfs), 'm': int(u), 'd': q(x, 1e5), 'shown': not bool(b), 'ex': bool(y)}
            for h, t, f, u, x, b, y in zip(H, tth, sf, mult, d, ex, nolim.exclusions)]


def wof(pd):
    if pd.tThWidth is not None:
        return ['w', q(np.degrees(pd.tThWidth), 1e3)]
    return ['s', q(pd.strainMag, 1e6)]


def sig(x):
    """scale with seven significant digits"""
    x = abs(float(x))
    if not x > 0 or math.isinf(x):
        return 1.
    return 10. ** (6 - math.floor(math.log10(x)))


def observe(m, s):
    r = h5mat(s)
    o = {'k': 'ok', 'pure': True}
    sf = shown_all(r.planeData).structFact
    sfs = sig(max(np.nanmax(np.abs(sf)), 1e-2)) if len(sf) else 1.
    o['rows'] = rows(m, sfs)
    o['ref'] = rows(r, sfs)
    o['lp'] = [q(x, 1e4) for x in m.lparms[:3]] + [q(x, 1e3) for x in m.lparms[3:]]
    o['lp'] = o['lp'] if [q(x.getVal('angstrom'), 1e3) for x in m.latticeParameters[:3]] == o['lp'][:3] else [0] * 6
    u = m.unitcell
    o['ulp'] = [q(x, 1e4) for x in (u.a, u.b, u.c)] + [q(x, 1e3) for x in (u.alpha, u.beta, u.gamma)]
    o['plp'] = [q(x, 1e3) for x in m.planeData.lparms]
    o['sg'], o['setting'] = int(m.sgnum), int(m.sgsetting)
    o['kev'] = q(m.beamEnergy.getVal('keV'), 1e3)
    o['pkev'] = q(12.39841984 / m.planeData.wavelength, 1e3)
    o['dmin'] = q(m.dmin.getVal('angstrom'), 1e3) if abs(m.dmin.getVal('nm') - u.dmin) < 1e-12 else -1
    for k, f in (('vol', lambda x: x.vol), ('den', lambda x: x.unitcell.density), ('abs', lambda x: x.absorption_length)):
        sc = sig(f(r)) if k != 'vol' else 1e3
        o[k], o['r' + k] = q(f(m), sc), q(f(r), sc)
    o['laue'], o['rlaue'] = str(m.planeData.laueGroup), str(r.planeData.laueGroup)
    o['formula'], o['rformula'] = str(m.chemical_formula), str(r.chemical_formula)
    o['vpa'], o['rvpa'] = q(m.vol_per_atom, 1e4), q(r.vol_per_atom, 1e4)
    o['w'] = wof(m.planeData)
    o['mx'] = -1 if m.planeData.tThMax is None else q(np.degrees(m.planeData.tThMax), 1e3)
    o['eos'] = [vf.rval(x, 1) for x in (m.k0, m.k0p, m.dk0dt, m.dk0pdt, m.alpha_t, m.dalpha_t_dt, m.temperature, m.pressure)]
    o['v0'] = q(m.v0, 1e3)
    at = lambda x: [q(v, 1e6) for v in np.asarray(x.unitcell.atom_pos).ravel()] + [int(z) for z in x.unitcell.atom_type] + \
        [q(v, 1e6) for v in np.asarray(x.unitcell.U).ravel()] + [str(c) for c in x.unitcell.chargestates]
    o['atoms'], o['ratoms'] = [str(v) for v in at(m)], [str(v) for v in at(r)]
    return o


class Sim:
    def __init__(self, s, rng, tmp, raw=None):
        self.s, self.rng, self.tmp = copy.deepcopy(s), rng, tmp
        self.raw = raw

    def step(self, e):
        from hexrd.core.material import Material
        from hexrd.core.material.material import load_materials_hdf5, save_materials_hdf5
        from hexrd.core import valunits as vu
        s, rng, op = self.s, self.rng, e['op']
        pure = [True]

        def ang(x):
            return vu.valWUnit('a', 'length', x / 1e3, 'angstrom') if rng.random() < .5 else vu.valWUnit('a', 'length', x / 1e4, 'nm')

        def run():
            m = getattr(self, 'm', None)
            if op == 'new':
                ex = {}
                if s['file']:
                    ex['hkls'] = np.array(s['file'][0], dtype=np.int32).reshape(-1, 3)
                self.m = h5mat(dict(s, lp=self.raw or s['lp']), ex)
            elif op == 'lp6':
                v = [x / 1e3 for x in e['lp']]
                m.latticeParameters = v if rng.random() < .5 else np.array(v)
            elif op == 'lpnm':
                m.lparms = np.array([x / 1e4 for x in e['lp'][:3]] + [x / 1e3 for x in e['lp'][3:]])
            elif op == 'lpred':
                m.latticeParameters = [x / 1e3 for x in e['p']]
            elif op == 'sg':
                m.sgnum = e['sg']
            elif op == 'set':
                m.sgsetting = e['v']
            elif op == 'kev':
                k = e['v'] / 1e3
                m.beamEnergy = k if rng.random() < .5 else vu.valWUnit('kev', 'energy', k, 'keV')
            elif op == 'dmin':
                m.dmin = ang(e['v'])
            elif op == 'atoms':
                Z, pos, U, ch = ATOMS[e['v']]
                m._set_atomdata(list(Z), np.array(pos), list(U), list(ch))
            elif op == 'max':
                m.planeData.tThMax = None if e['v'] < 0 else np.radians(e['v'] / 1e3)
            elif op == 'width':
                if e['v'][0] == 'w':
                    m.planeData.tThWidth = np.radians(e['v'][1] / 1e3)
                else:
                    m.planeData.tThWidth = None
            elif op == 'eos':
                m.k0, m.k0p, m.dk0dt, m.dk0pdt, m.alpha_t, m.dalpha_t_dt, m.temperature, m.pressure = [float(v) for v in e['v']]
            elif op == 'exset':
                H = [[int(x) for x in h] for h in m.planeData.getHKLs(allHKLs=True)]
                mask = [h in e['v'] for h in H]
                m.planeData.exclusions = np.array(mask) if rng.random() < .7 else mask
            elif op == 'first':
                m.enable_hkls_below_index(e['n'])
            elif op == 'default':
                m.set_default_exclusions()
            elif op == 'v0':
                m.reset_v0()
            elif op == 'copy':
                before = outcome(observe, m, s)[1]
                old = m
                self.m = copy.deepcopy(m) if rng.random() < .5 else pickle.loads(pickle.dumps(m))
                # changing the copy must leave the original alone
                t = copy.deepcopy(self.m) if rng.random() < .5 else self.m
                keep = t if t is not self.m else copy.deepcopy(self.m)
                t.latticeParameters = [x * 1.07 for x in (7, 8, 9)] + [90, 90, 90] if system(s['sg']) == 'orthorhombic' else [7.] * len(FREE[system(s['sg'])])
                if system(s['sg']) not in ('triclinic', 'monoclinic'):
                    t.planeData.exclusions = None
                if t is self.m:
                    self.m = keep
                pure[0] = outcome(observe, old, s)[1] == before
            elif op == 'save':
                p = os.path.join(self.tmp, 'm%d.h5' % rng.getrandbits(40))
                before = outcome(observe, m, s)[1]
                m.name = 'steel 316'
                if rng.random() < .3:
                    with h5py.File(p, 'w') as f:
                        save_materials_hdf5(f, {'steel 316': m}, path='a/b')
                    with h5py.File(p, 'r') as f:
                        d = load_materials_hdf5(f['a/b'])
                else:
                    save_materials_hdf5(p, {'steel 316': m})
                    d = load_materials_hdf5(p)
                os.unlink(p)
                assert list(d) == ['steel 316']
                pure[0] = outcome(observe, m, s)[1] == before
                self.m = d['steel 316']
            elif op == 'cif':
                p = os.path.join(self.tmp, 'm%d.cif' % rng.getrandbits(40))
                m.name = 'abc'
                m.write_cif(p)
                self.m = Material('abc', p, dmin=vu.valWUnit('d', 'length', e['dmin'] / 1e3, 'angstrom'), kev=vu.valWUnit('k', 'energy', e['kev'] / 1e3, 'keV'))
                os.unlink(p)
        if op == 'save':
            e['shown'] = [[int(x) for x in h] for h in self.m.planeData.getHKLs()]
        k, v = outcome(run)
        if op in ('lp6', 'lpnm'):
            s['lp'] = constrain(s['sg'], e['lp'])
        elif op == 'lpred':
            s['lp'] = full(system(s['sg']), e['p'])
        elif op == 'sg':
            s['sg'], s['lp'] = e['sg'], constrain(e['sg'], s['lp'])
        elif op == 'set':
            s['setting'] = e['v']
        elif op in ('kev', 'dmin', 'atoms'):
            s[op] = e['v']
        elif op == 'cif':
            s['setting'], s['kev'], s['dmin'] = e['setting'], e['kev'], e['dmin']
            s['U'] = [6.33e-3] * len(ATOMS[s['atoms']][0])
        if op == 'atoms':
            s.pop('U', None)
        if k == 'err':
            # settings without any reflection cannot be built either
            return None if outcome(h5mat, s)[0] == 'err' else dict(e, obs={'k': 'err', 'e': v})
        k, v = outcome(observe, self.m, s)
        if k == 'err':
            return dict(e, obs={'k': 'broken', 'e': v})
        v['pure'] = pure[0]
        return dict(e, obs=v)


TWO = None


def dflt_setting(sg):
    from hexrd.core.material.symbols import two_origin_choice
    return 1 if sg in two_origin_choice else 0


def cell(rng):
    return [rng.randrange(2600, 5200, 7) for _ in range(3)] + [rng.randrange(75000, 108000, 250) for _ in range(3)]


def start(rng):
    sg = rng.choice(SG)
    raw = cell(rng)
    return {'sg': sg, 'lp': constrain(sg, raw), 'kev': rng.choice([12000, 45000, 61332, 80725]), 'dmin': rng.choice([1200, 1250, 1400, 1700]), 'setting': rng.choice([0, 0, 1]),
            'atoms': rng.randrange(len(ATOMS)), 'H': [], 'ex': [], 'file': [], 'mx': -1, 'w': rng.choice([['w', 250], ['w', 125], ['s', 2500]]), 'v0': 0, 'eos': EOS0}, raw


OPS = ['lp6', 'lp6', 'lpnm', 'lpred', 'lpred', 'sg', 'sg', 'set', 'kev', 'kev', 'dmin', 'dmin', 'atoms', 'max', 'width', 'eos', 'exset', 'exset', 'exset', 'first', 'default', 'v0', 'copy', 'save', 'cif']


# histories whose steps only matter together
PLANS = [['exset', 'max', 'dmin', 'max'], ['exset', 'max', 'lp6', 'max'], ['exset', 'kev', 'max', 'dmin'], ['exset', 'dmin', 'dmin'],
         ['exset', 'copy', 'kev'], ['max', 'sg', 'max'], ['exset', 'atoms', 'kev'], ['width', 'kev', 'lp6', 'save'], ['atoms', 'copy', 'kev', 'lp6']]


def random_trace(rng, c, plan=None):
    hdr, raw = start(rng)
    if rng.random() < .35:
        hdr['file'] = [[[1, 1, 1], [2, 0, 0], [1, 1, 0], [1, 0, 0], [0, 0, 2], [0, 1, 2], [-1, 1, 1], [4, 1, 0]][:rng.randint(1, 8)]]
    sim = Sim(hdr, rng, c.tmp, raw)
    evs = [sim.step({'op': 'new'})]
    if evs[0] is None:
        return random_trace(rng, c, plan)
    for i in range(rng.randint(2, 7) if plan is None else len(plan)):
        if evs[-1]['obs']['k'] != 'ok':
            break
        s = sim.s
        op = rng.choice(OPS) if plan is None else plan[i]
        e = {'op': op}
        if op in ('lp6', 'lpnm'):
            e['lp'] = cell(rng)
            if rng.random() < .4:           # a small change that keeps most reflections
                e['lp'] = [x + rng.randrange(0, 30) for x in s['lp'][:3]] + s['lp'][3:]
        elif op == 'lpred':
            e['p'] = [cell(rng)[i] for i in FREE[system(s['sg'])]]
        elif op == 'sg':
            e['sg'] = rng.choice(SG)
        elif op == 'set':
            e['v'] = rng.choice([0, 1])
        elif op == 'kev':
            e['v'] = rng.choice([12000, 30000, 45000, 61332, 80725, 111000] + [s['kev'] + x for x in (-40, -10, 7, 25)])
        elif op == 'dmin':
            e['v'] = rng.choice([1150, 1200, 1250, 1400, 1700, 2600])
        elif op == 'atoms':
            e['v'] = rng.randrange(len(ATOMS))
        elif op == 'max':
            e['v'] = rng.choice([-1, 6000, 9500, 14000, 21000, 35000, 70000])
            t = sorted({r['tth'] for r in evs[-1]['obs']['rows'] if r['tth'] != NONINT})
            if len(t) > 1 and rng.random() < .5:
                k = rng.randrange(len(t) - 1)
                e['v'] = (t[k] + t[k + 1]) // 2
        elif op == 'width':
            e['v'] = rng.choice([['w', 250], ['w', 100], ['w', 500], ['s', 2500]])
        elif op == 'eos':
            e['v'] = [rng.randint(50, 300), rng.randint(2, 6), rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(0, 4), rng.randint(0, 4), rng.randint(200, 900), rng.randint(0, 9)]
        elif op == 'exset':
            H = [r['h'] for r in evs[-1]['obs']['rows']]
            k = rng.choice([0, 1] if plan else [0, 1, len(H) // 2, len(H) - 1, rng.randint(0, len(H)), len(H)])
            e['v'] = rng.sample(H, max(0, min(k, len(H))))
        elif op == 'first':
            e['n'] = rng.randint(1, 9)
        elif op == 'cif':
            e.update(setting=dflt_setting(s['sg']), kev=rng.choice([30000, 61332]), dmin=rng.choice([1250, 1500]), w=['w', 250])
        o = sim.step(e)
        if o is None:
            break
        evs.append(o)
    return {'hdr': hdr, 'ev': evs}


def body(c):
    rng = c.rng
    behs = c.generate('Matl', 2 if c.quick else 3)
    c.cov['model_behaviours'] = len(behs)
    if not c.quick:
        behs = rng.sample(behs, min(len(behs), 2500))
    else:
        behs = rng.sample(behs, min(len(behs), 120))
    traces = []
    for b in behs:
        hdr = dict(b['hdr'], H=[], ex=[])
        sim = Sim(hdr, rng, c.tmp)
        evs = [sim.step({'op': 'new'})]
        for e in b['ev']:
            if evs[-1]['obs']['k'] != 'ok':
                break
            o = sim.step(dict(e))
            if o is None:
                break
            evs.append(o)
        traces.append({'hdr': hdr, 'ev': evs})
    for _ in range(120 if c.quick else 2500):
        traces.append(random_trace(rng, c))
    for i in range(36 if c.quick else 600):
        traces.append(random_trace(rng, c, PLANS[i % len(PLANS)]))
    c.judge('Matl', traces, heap='10g')
    c.assumptions = ['history independence is judged against a material built directly from the final settings']


vf.main('C07', body)
