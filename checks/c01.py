"""C01: processed image series (spec ImgProc)."""
import numpy as np
import vf
from vf import enc_img, outcome

DT = ['uint8', 'int8', 'uint16', 'int32', 'uint32', 'float32', 'float64']
FLIPS = ['y', 'v', 'x', 'h', 'vh', 'hv', 'r180', 't', 'T', 'ccw90', 'r90', 'cw90', 'r270', 'none']


def im_json(a):
    return {'r': a.shape[0], 'c': a.shape[1], 'px': [int(v) for v in a.reshape(-1)]}


def to_oplist(ops, dark_dtype):
    out = []
    for o in ops:
        k = o['k']
        if k == 'flip':
            out.append(('flip', o['how']))
        elif k == 'dark':
            im = o['img']
            out.append(('dark', np.array(im['px'], dtype=o.get('dt', dark_dtype)).reshape(im['r'], im['c'])))
        elif k == 'darks':
            out.append(('dark', o['v']))
        elif k == 'rectangle':
            r = ((o['a'], o['b']), (o['p'], o['q']))
            out.append(('rectangle', r if o.get('tup', True) else [list(r[0]), list(r[1])]))
        elif k == 'user':
            out.append(('user', None))
        else:
            out.append((k, o['v']))
    return out


def series(src, dtype, kind):
    from hexrd.core import imageseries
    data = np.array([np.array(i['px']).reshape(i['r'], i['c']) for i in src]).astype(dtype)
    meta = {'omega': np.array([[10 * i, 10 * i + 10] for i in range(len(src))], dtype=float), 'tag': 'x'}
    if kind == 'array':
        return imageseries.open(None, 'array', data=data, meta=meta), data
    def func(i):
        if not -len(data) <= i < len(data):
            raise IndexError(i)
        return data[i].copy()
    return imageseries.open(None, 'function', func=func, num_frames=len(data), meta=meta), data


def build(case):
    from hexrd.core.imageseries.process import ProcessedImageSeries
    base, data = series(case['src'], case['dtype'], case['kind'])
    chain = [base]
    for ly in case['layers']:
        kw = {}
        if ly['hasfl']:
            kw['frame_list'] = list(ly['frames'])
        p = ProcessedImageSeries(chain[-1], to_oplist(ly['ops'], case['dtype']), **kw)
        p.addop('user', lambda img, _: 2 * img + 1)
        chain.append(p)
    return chain, data


def obs_img(fn):
    k, v = outcome(fn)
    if k == 'err':
        return {'k': 'err', 'e': v}
    return enc_img(v)


def observe(chain, ev):
    s = chain[ev['d']]
    op = ev['op']
    if op == 'len':
        k, v = outcome(lambda: len(s))
        return {'k': 'n', 'v': v} if k == 'ok' else {'k': 'err', 'e': v}
    if op == 'shape':
        k, v = outcome(lambda: [int(x) for x in s.shape])
        if k == 'ok' and not (np.dtype(s.dtype) == s[0].dtype):
            return {'k': 'err', 'e': 'dtype-mismatch'}
        return {'k': 'n2', 'v': v} if k == 'ok' else {'k': 'err', 'e': v}
    if op == 'get':
        return obs_img(lambda: s[ev['i']])
    if op == 'scribble':
        r = obs_img(lambda: s[ev['i']])
        if r['k'] == 'ok':
            a = s[ev['i']]
            try:
                a[...] = 77
            except ValueError:
                pass
        return r
    if op == 'pick':
        return obs_img(lambda: s[(ev['i'],) + tuple(slice(*x) for x in ev['sl'])])
    if op == 'region':
        return obs_img(lambda: s.get_region(ev['i'], ((ev['a'], ev['b']), (ev['p'], ev['q']))))
    if op == 'iter':
        k, v = outcome(lambda: [enc_img(f) for f in s])
        return {'k': 'ims', 'v': v} if k == 'ok' else {'k': 'err', 'e': v}
    if op == 'meta':
        k, v = outcome(lambda: [int(x) for x in np.asarray(s.metadata['omega'])[:, 0]])
        return {'k': 'seq', 'v': v} if k == 'ok' else {'k': 'err', 'e': v}
    raise AssertionError(op)


class Shape:
    """tracks only shapes/value bounds so that generated operations are legal"""
    def __init__(self, r, c, isf, lo, hi, signed):
        self.r, self.c, self.isf, self.lo, self.hi, self.signed = r, c, isf, lo, hi, signed


def rand_ops(rng, sh, dtype, n):
    ops = []
    for _ in range(n):
        k = rng.choice(['flip', 'flip', 'dark', 'darks', 'rectangle', 'rectangle', 'add', 'add-row', 'add-column', 'user'])
        if k == 'flip':
            h = rng.choice(FLIPS)
            ops.append({'k': k, 'how': h})
            if h in ('t', 'T', 'ccw90', 'r90', 'cw90', 'r270'):
                sh.r, sh.c = sh.c, sh.r
        elif k == 'dark':
            dt = rng.choice([dtype, dtype, 'float64', 'float32'])
            px = [rng.randint(0, 60) for _ in range(sh.r * sh.c)]
            ops.append({'k': k, 'img': {'r': sh.r, 'c': sh.c, 'px': px}, 'dt': dt})
            sh.lo = 0
        elif k == 'darks':
            ops.append({'k': k, 'v': rng.randint(0, 40)})
            sh.lo = 0
        elif k == 'rectangle':
            a = rng.randint(0, max(0, sh.r - 1)); b = rng.randint(a, sh.r + 1)
            p = rng.randint(0, max(0, sh.c - 1)); q = rng.randint(p, sh.c + 1)
            if rng.random() < .85:
                b, q = max(b, a + 1), max(q, p + 1)
            ops.append({'k': k, 'a': a, 'b': b, 'p': p, 'q': q, 'tup': rng.random() < .5})
            sh.r = max(0, min(b, sh.r) - min(a, sh.r)); sh.c = max(0, min(q, sh.c) - min(p, sh.c))
        elif k == 'add':
            v = rng.randint(-50, 50)
            ops.append({'k': k, 'v': v})
            sh.lo += v; sh.hi += v; sh.isf = True
        elif k == 'add-row':
            ops.append({'k': k, 'v': rng.randint(-sh.r, sh.r)})
            sh.r += 1; sh.lo = min(sh.lo, 0)
        elif k == 'add-column':
            ops.append({'k': k, 'v': rng.randint(-sh.c, sh.c)})
            sh.c += 1; sh.lo = min(sh.lo, 0)
        elif k == 'user':
            hi = 2 * sh.hi + 1
            if not sh.isf and hi > {'uint8': 255, 'int8': 127}.get(dtype, 60000):
                continue
            ops.append({'k': k})
            sh.hi = hi; sh.lo = 2 * sh.lo + 1
    return ops


def rand_case(rng, maxl):
    dtype = rng.choice(DT)
    r, c, n = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)
    hi = {'uint8': 200, 'int8': 63}.get(dtype, 5000)
    lo = 0 if dtype.startswith('u') else rng.choice([0, -50])
    vals = [0, 1, hi] if rng.random() < .3 else range(lo, hi + 1)
    src = [{'r': r, 'c': c, 'px': [rng.choice(vals) for _ in range(r * c)]} for _ in range(n)]
    sh = Shape(r, c, 'float' in dtype, lo, hi, True)
    layers, cnt = [], n
    counts = [n]
    oms = [[10 * i for i in range(n)]]
    # int8 minus dark must not leave the type's range: keep dark <= 60 there
    for _ in range(rng.randint(1, maxl)):
        hasfl = rng.random() < .5
        frames = [rng.randrange(cnt) for _ in range(rng.randint(1, 5))] if hasfl else []
        if hasfl and rng.random() < .25:
            frames = [f - cnt for f in frames]
        layers.append({'ops': rand_ops(rng, sh, dtype, rng.choice([0, 1, 1, 2, 3, 4])), 'frames': frames, 'hasfl': hasfl})
        if hasfl:
            oms.append([oms[-1][f] for f in frames]); cnt = len(frames)
        else:
            oms.append(oms[-1])
        counts.append(cnt)
    return {'src': src, 'dtype': dtype, 'kind': rng.choice(['array', 'array', 'function']), 'layers': layers}, counts, oms


def rand_slice(rng, n):
    k = rng.random()
    if k < .2:
        return (None, None, None)
    if k < .4:
        return (None, None, -1)
    return (rng.choice([None] + list(range(-n - 1, n + 2))), rng.choice([None] + list(range(-n - 1, n + 2))), rng.choice([None, 1, 2, -1, -2]))


def events(rng, chain, counts, oms, nev):
    evs = []
    for _ in range(nev):
        d = rng.randrange(len(chain)) if rng.random() < .3 else len(chain) - 1
        n = counts[d]
        op = rng.choice(['len', 'shape', 'get', 'get', 'pick', 'pick', 'region', 'region', 'iter', 'meta', 'scribble'])
        e = {'op': op, 'd': d}
        if op in ('get', 'scribble', 'pick'):
            e['i'] = rng.randint(-n, n - 1) if rng.random() < .85 else rng.choice([n, n + 1, -n - 1])
        if op == 'pick':
            if d == 0:
                e['d'] = d = len(chain) - 1
                e['i'] = rng.randint(-counts[d], counts[d] - 1)
            k, shp = outcome(lambda: chain[d].shape)
            if k == 'err':
                continue
            sl = [rand_slice(rng, int(shp[0])), rand_slice(rng, int(shp[1]))][:rng.choice([0, 1, 2, 2, 2])]
            full = sl + [(None, None, None)] * (2 - len(sl))
            e['sl'] = sl
            e['rows'] = list(range(*slice(*full[0]).indices(int(shp[0]))))
            e['cols'] = list(range(*slice(*full[1]).indices(int(shp[1]))))
        if op == 'region':
            e['i'] = rng.randint(0, n - 1)
            a = rng.randint(0, 4); p = rng.randint(0, 4)
            e.update(a=a, b=a + rng.randint(0, 3), p=p, q=p + rng.randint(0, 3))
        if op == 'meta':
            e['want'] = oms[d]
        evs.append(e)
    return evs


def record(case, evs, chain, data):
    before = data.copy()
    out = []
    for e in evs:
        o = dict(e)
        o['obs'] = observe(chain, e)
        o.pop('sl', None)
        out.append(o)
    same = np.array_equal(before, data) and [enc_img(x) for x in before] == [enc_img(chain[0][i]) for i in range(len(before))]
    out.append({'op': 'src', 'd': 0, 'obs': {'k': 'ims', 'v': [enc_img(chain[0][i]) for i in range(len(before))]}})
    del same
    return {'hdr': {'src': case['src'], 'layers': case['layers']}, 'ev': out, 'replay': {'case': case, 'events': evs}}


def body(c):
    # 1. model exploration; every operation list up to the depth is replayed
    depth = 2 if c.quick else 3
    behs = c.generate('ImgProc', depth)
    c.cov['enumerated_oplists'] = len(behs)
    traces = []
    for b in behs:
        ops = b['ev']
        src = b['hdr']['im']
        src2 = dict(src, px=[7 - v for v in src['px']])
        for split in sorted({0, len(ops), c.rng.randint(0, len(ops))}):
            layers = [{'ops': ops[:split], 'frames': [1, 0, 1], 'hasfl': True}, {'ops': ops[split:], 'frames': [], 'hasfl': False}]
            case = {'src': [src, src2], 'dtype': c.rng.choice(DT), 'kind': 'array', 'layers': layers}
            if any(o['k'] == 'darks' for o in ops) and case['dtype'] == 'int8':
                case['dtype'] = 'int32'
            chain, data = build(case)
            evs = [{'op': 'len', 'd': 2}, {'op': 'shape', 'd': 2}, {'op': 'get', 'd': 2, 'i': 0}, {'op': 'get', 'd': 2, 'i': -2},
                   {'op': 'get', 'd': 2, 'i': 3}, {'op': 'region', 'd': 2, 'i': 1, 'a': 0, 'b': 2, 'p': 1, 'q': 3}]
            traces.append(record(case, evs, chain, data))
    c.judge('ImgProc', traces)
    # 2. random pipelines
    n = 500 if c.quick else 6000
    traces = []
    for _ in range(n):
        case, counts, oms = rand_case(c.rng, 3)
        chain, data = build(case)
        evs = events(c.rng, chain, counts, oms, 10)
        traces.append(record(case, evs, chain, data))
    c.judge('ImgProc', traces, chunk=2000)
    c.cov['random_pipelines'] = n


vf.main('C01', body)
