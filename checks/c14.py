"""C14: angle ranges, period mapping, angular differences (spec Angles)."""
import numpy as np
import vf
from vf import outcome, rval


def observe(e, turn, unit):
    """e: event in units of 1/turn of a circle; unit: the code's unit for it"""
    from hexrd.core import rotations as rot
    from hexrd.core.transforms import xfcapi
    per = {'degrees': 360.0, 'radians': 2 * np.pi}[unit]
    f = lambda xs: np.array([x * per / turn for x in xs], dtype=float)
    inv = lambda v: [rval(x, turn / per, 1e-7) for x in np.atleast_1d(v)]
    if e['op'] == 'valid':
        per = 2 * np.pi        # always radians
        def run():
            a, s, t = f(e['a']), f(e['start']), f(e['stop'])
            keep = [x.copy() for x in (a, s, t)]
            if e.get('default'):
                r = xfcapi.validate_angle_ranges(a, s, t)
            elif e.get('scalar'):
                r = np.array([bool(xfcapi.validate_angle_ranges(float(x), s, t, ccw=e['ccw'])[0]) for x in a])
            else:
                r = xfcapi.validate_angle_ranges(a, s, t, ccw=e['ccw'])
            assert all((x == y).all() for x, y in zip(keep, (a, s, t)))
            return [bool(x) for x in r]
    elif e['op'] == 'map':
        def run():
            lo, hi = e['lo'] * per / turn, e['hi'] * per / turn
            if e.get('norange'):
                return inv(rot.mapAngle(f(e['a']), units=unit))
            rg = [lo, hi] if not e.get('arr') else np.array([hi, lo])
            if e.get('scalar'):
                return [inv(rot.mapAngle(x, rg, units=unit))[0] for x in f(e['a'])]
            if unit == 'radians' and e.get('arr'):
                return inv(rot.mapAngle(f(e['a']), rg))
            return inv(rot.mapAngle(f(e['a']), rg, units=unit))
    else:
        def run():
            if e.get('scalar'):
                return [rval(rot.angularDifference(x, y, units=unit), turn / per, 1e-7) for x, y in zip(f(e['a']), f(e['b']))]
            if e.get('default') and unit == 'radians':
                return inv(rot.angularDifference(f(e['a']), f(e['b'])))
            return inv(rot.angularDifference(f(e['a']), f(e['b']), units=unit))
    k, v = outcome(run)
    return dict(e, obs={'k': 'v', 'v': v} if k == 'ok' else {'k': 'err', 'e': v})


def body(c):
    rng = c.rng
    behs = c.generate('Angles', 1)
    c.cov['model_queries'] = len(behs)
    traces = []
    for u in ('degrees', 'radians'):
        evs = [observe(b['ev'][0], 12, u) for b in behs]
        traces += [{'hdr': {'turn': 12}, 'ev': evs[i:i + 40], 'replay': {'unit': u, 'turn': 12}} for i in range(0, len(evs), 40)]
    for turn in (360, 5760, 24, 7, 1000):
        for _ in range(40 if c.quick else 600):
            u = rng.choice(['degrees', 'radians'])
            evs = []
            for _ in range(12):
                ang = lambda: rng.choice([rng.randint(-3 * turn, 3 * turn), rng.randint(0, turn), rng.choice([0, turn, -turn, turn // 2, -(turn // 2), 2 * turn])])
                n = rng.choice([1, 2, 5, 9])
                k = rng.choice(['valid', 'valid', 'valid', 'map', 'diff'])
                if k == 'valid':
                    m = rng.choice([1, 1, 2, 3, 6])
                    st = [ang() for _ in range(m)]
                    sp = [s + rng.choice([0, 1, -1, turn, turn - 1, 1 - turn, turn + 3, rng.randint(-turn, turn)]) for s in st]
                    if rng.random() < .04:
                        sp = sp + [0]
                    al = [rng.choice([ang(), ang(), rng.choice(st + sp) + rng.choice([0, 1, -1]) + turn * rng.randint(-2, 2)]) for _ in range(n)]
                    ccw = rng.random() < .6
                    e = {'op': 'valid', 'a': al, 'start': st, 'stop': sp, 'ccw': ccw, 'default': ccw and rng.random() < .5, 'scalar': rng.random() < .3}
                elif k == 'map':
                    lo = ang()
                    hi = lo + turn if rng.random() < .85 else lo + rng.choice([turn - 1, turn // 2, 2 * turn, turn + 1])
                    al = [rng.choice([ang(), lo + turn * rng.randint(-2, 3), lo + 1, lo - 1]) for _ in range(n)]
                    nr = turn % 2 == 0 and rng.random() < .3
                    if nr:
                        lo, hi = -turn // 2, turn // 2
                    e = {'op': 'map', 'a': al, 'lo': lo, 'hi': hi, 'norange': nr, 'arr': rng.random() < .4, 'scalar': rng.random() < .3}
                else:
                    al = [ang() for _ in range(n)]
                    bl = [rng.choice([ang(), x + rng.choice([0, 1, -1, turn, turn // 2, -2 * turn])]) for x in al]
                    e = {'op': 'diff', 'a': al, 'b': bl, 'scalar': rng.random() < .3, 'default': rng.random() < .5}
                evs.append(observe(e, turn, u))
            traces.append({'hdr': {'turn': turn}, 'ev': evs, 'replay': {'unit': u, 'turn': turn}})
    c.judge('Angles', traces)
    c.assumptions = ['angles are multiples of 1/turn of a circle up to float rounding; the 1.5e-8 rad end tolerance of the code is below that grid']


vf.main('C14', body)
