"""C03: omega wedges and frames (spec Omega)."""
from fractions import Fraction
import numpy as np
import vf
from vf import outcome, rval

U = 16


def val(fn):
    k, v = outcome(fn)
    return {'k': 'v', 'v': v} if k == 'ok' else {'k': 'err', 'e': v}


def okerr(fn):
    k, v = outcome(fn)
    return {'k': 'ok'} if k == 'ok' else {'k': 'err', 'e': v}


def wedge_events(evs, nframes, scale):
    from hexrd.core.imageseries.omega import OmegaWedges
    w = OmegaWedges(nframes)
    out = []
    for e in evs:
        e = dict(e)
        if e['op'] == 'add':
            a, b = e['a'] / scale, e['b'] / scale
            if e['hasloc']:
                e['obs'] = okerr(lambda: w.addwedge(a, b, e['n'], e['loc']))
            else:
                e['obs'] = okerr(lambda: w.addwedge(a, b, e['n']))
        elif e['op'] == 'del':
            e['obs'] = okerr(lambda: w.delwedge(e['i']))
        elif e['op'] == 'wframes':
            e['obs'] = val(lambda: [int(w.wframes), int(w.nwedges)])
        elif e['op'] == 'omegas':
            e['obs'] = val(lambda: [[rval(x, scale), rval(y, scale)] for x, y in w.omegas])
        elif e['op'] == 'list':
            e['obs'] = val(lambda: [[rval(d['ostart'], scale), rval(d['ostop'], scale), int(d['nsteps'])] for d in w.wedges])
        out.append(e)
    return out


def series_trace(om, nframes, scale, queries, floats=None, hasom=True, wrap=False):
    """om: ideal integer intervals; floats: the float intervals actually used"""
    from hexrd.core import imageseries
    from hexrd.core.imageseries.omega import OmegaImageSeries
    from hexrd.core.imageseries.process import ProcessedImageSeries
    arr = np.array(om, dtype=float).reshape(-1, 2) / scale if floats is None else floats
    meta = {'omega': arr} if hasom else {}
    ims = imageseries.open(None, 'array', data=np.zeros((nframes, 1, 1)), meta=meta)
    if wrap:
        ims = ProcessedImageSeries(ims, [])
    evs = []
    k, s = outcome(lambda: OmegaImageSeries(ims))
    if k == 'ok':
        obs = val(lambda: [[rval(s.wedge(i)['ostart'], scale), rval(s.wedge(i)['ostop'], scale), int(s.wedge(i)['nsteps']),
                            rval(s.wedge(i)['delta'], scale)] for i in range(s.nwedges)])
    else:
        obs = {'k': 'err', 'e': s}
    evs.append({'op': 'build', 'obs': obs})
    if k == 'ok':
        evs.append({'op': 'series-omegas', 'obs': val(lambda: [[rval(x, scale), rval(y, scale)] for x, y in s.omegawedges.omegas])})
        for q in queries:
            if q[0] == 'find':
                evs.append({'op': 'find', 'q2': q[1], 'obs': val(lambda: [int(x) for x in s.omega_to_frame(q[2])])})
            else:
                evs.append({'op': 'range', 'p2': q[1], 'q2': q[2],
                            'obs': val(lambda: [int(x) for x in s.omegarange_to_frames(q[3], q[4])])})
    return {'hdr': {'nframes': nframes, 'om': om, 'hasom': hasom, 'turn': 360 * scale}, 'ev': evs,
            'replay': {'omega': arr.tolist(), 'scale': scale}}


def exact_below(x, starts):
    """nextafter below x, if the code's subtraction from every wedge start is exact"""
    q = float(np.nextafter(x, -1e9))
    for a in starts:
        if Fraction(q) - Fraction(float(a)) != Fraction(q - float(a)) or not 0 <= q - float(a) < 360:
            return None
    return q


def frames_of(ws):
    out = []
    for a, b, n in ws:
        d = (b - a) // n
        out += [[a + k * d, a + (k + 1) * d] for k in range(n)]
    return out


def queries_for(rng, om, n, scale=U):
    qs = []
    pts = sorted({x for p in om for x in p})
    def one():
        r = rng.random()
        if r < .4:
            x = rng.choice(pts)
            d = rng.choice([0, 0, 1, -1]) / 2
        elif r < .75:
            p = rng.choice(om)
            x, d = (p[0] + p[1]) / 2, 0
        else:
            x, d = rng.randint(-800 * scale, 800 * scale), 0
        x = x + d + rng.choice([0, 0, 0, 360, -360, 720, -1080]) * scale
        return int(round(2 * x))
    for _ in range(n):
        if rng.random() < .6:
            q2 = one()
            qs.append(('find', q2, q2 / 2 / scale))
        else:
            p2, q2 = one(), one()
            if rng.random() < .4:
                q2 = p2 + rng.randint(0, 6 * scale)
            qs.append(('range', p2, q2, p2 / 2 / scale, q2 / 2 / scale))
    return qs


def body(c):
    rng = c.rng
    # 1. every edit history of the model, replayed
    behs = c.generate('Omega', 3 if c.quick else 4)
    if len(behs) > 6000:
        behs = rng.sample(behs, 6000)
    c.cov['edit_histories'] = len(behs)
    traces = []
    for b in behs:
        ws, evs = [], []
        for o in b['ev']:
            evs += [o, {'op': 'wframes'}]
            if o['op'] == 'add':
                ws.insert(o['loc'], (o['a'], o['b'], o['n']))
            else:
                ws.pop(o['i'])
        evs += [{'op': 'list'}, {'op': 'omegas'}]
        nf = sum(w[2] for w in ws)
        if rng.random() < .15:
            nf += rng.choice([1, -1])
        evs = wedge_events(evs, nf, 1)
        traces.append({'hdr': {'nframes': nf, 'om': [], 'hasom': True, 'turn': 360}, 'ev': evs})
        om = frames_of(ws)
        if om:
            traces.append(series_trace(om, len(om), 1, queries_for(rng, om, 6, 1)))
    c.judge('Omega', traces)
    # 2. random wedge editors and series
    traces = []
    for _ in range(400 if c.quick else 5000):
        ops, total, nw = [], 0, 0
        for _ in range(rng.randint(1, 9)):
            k = rng.choice(['add', 'add', 'add', 'del', 'wframes', 'omegas', 'list'])
            if k == 'add':
                n = rng.choice([1, 2, 4, 8, 3, 5])
                a = rng.randint(-360 * U, 360 * U)
                d = rng.randint(1, 60)
                hasloc = rng.random() < .4
                ops.append({'op': 'add', 'a': a, 'b': a + n * d, 'n': n, 'hasloc': hasloc, 'loc': rng.randint(-3, 5) if hasloc else 0})
                nw += 1
            elif k == 'del':
                ops.append({'op': 'del', 'i': rng.randint(-3, 3)})
            else:
                ops.append({'op': k})
        # choose nframes so that omegas sometimes matches
        ws = []
        for o in ops:
            if o['op'] == 'add':
                ws.insert(o['loc'] if o['hasloc'] else len(ws), o)
            elif o['op'] == 'del' and -len(ws) <= o['i'] < len(ws):
                ws.pop(o['i'])
        nf = sum(w['n'] for w in ws) + (0 if rng.random() < .8 else 1)
        ops += [{'op': 'wframes'}, {'op': 'list'}, {'op': 'omegas'}]
        traces.append({'hdr': {'nframes': nf, 'om': [], 'hasom': True, 'turn': 360 * U}, 'ev': wedge_events(ops, nf, U)})
    for _ in range(700 if c.quick else 9000):
        om, cur = [], rng.randint(-360 * U, 360 * U)
        for _ in range(rng.randint(1, 4)):
            d = rng.choice([1, 2, 4, 8, 16, 24, 40, 90 * U, 120 * U])
            n = rng.randint(1, 6)
            for _ in range(n):
                om.append([cur, cur + d])
                cur += d
            cur += rng.choice([0, 0, 360 * U, -360 * U, 8, 100, -rng.randint(0, 200) * U, 720 * U])
        r = rng.random()
        nf, hasom = len(om), True
        if r < .06:
            i = rng.randrange(len(om))
            om[i] = [om[i][0], om[i][0] - rng.choice([0, 1, 16])]
        elif r < .1:
            nf += rng.choice([1, -1]) if nf > 1 else 1
        elif r < .12:
            hasom = False
        traces.append(series_trace(om, nf, U, queries_for(rng, om, 10), hasom=hasom, wrap=rng.random() < .3))
    # 3. steps that are not exact in binary: centres and the last ulp of a wedge
    for _ in range(300 if c.quick else 3000):
        ws, cur = [], rng.choice([0, 0, 0, 10, -180, -90])
        nw = rng.choice([1, 1, 1, 2, 3])
        for _ in range(nw):
            w = rng.choice([30, 60, 90, 180, 90, 359, 360]) if nw == 1 else rng.choice([10, 30, 45, 60, 90, 110])
            ws.append((cur, cur + w, rng.randint(1, 130) if nw == 1 else rng.randint(1, 24)))
            cur += w + rng.choice([0, 0, 1, 5])
        # contiguous wedges of equal step are one wedge
        if any(q[0] == p[1] and (p[1] - p[0]) * q[2] == (q[1] - q[0]) * p[2] for p, q in zip(ws, ws[1:])):
            continue
        scale = int(np.lcm.reduce([w[2] for w in ws]))
        if scale > 8000:
            continue
        om, fl = [], []
        for a, b, n in ws:
            f = scale // n
            om += [[a * scale + k * (b - a) * f, a * scale + (k + 1) * (b - a) * f] for k in range(n)]
            e = np.linspace(a, b, n + 1)
            fl += np.array([e[:-1], e[1:]]).T.tolist()
        fl = np.array(fl)
        n = len(om)
        qs = []
        for k in [rng.randrange(n) for _ in range(4)] + [0, n - 1]:
            t = rng.choice([0, 0, 360, -360])
            qs.append(('find', om[k][0] + om[k][1] + 2 * t * scale, (fl[k, 0] + fl[k, 1]) / 2 + t))
        for k, w in enumerate(ws):
            q = exact_below(w[1], [v[0] for v in ws[:k + 1]])
            if q is not None:
                qs.append(('find', 2 * w[1] * scale - 1, q))
        i, j = sorted((rng.randrange(n), rng.randrange(n)))
        qs.append(('range', om[i][0] + om[i][1], om[j][0] + om[j][1], fl[i].mean(), fl[j].mean()))
        traces.append(series_trace(om, n, scale, qs, floats=fl))
    c.judge('Omega', traces)


vf.main('C03', body)
