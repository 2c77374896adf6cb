"""C04: image series statistics (spec Stats)."""
import numpy as np
import vf
from vf import NONINT, outcome

DT = ['uint8', 'int16', 'uint16', 'int32', 'float32', 'float64']
STATS = ['max', 'min', 'sum', 'average', 'percentile', 'median']


def enc(img, scale, shape, tol=0.02):
    a = np.asarray(img)
    if a.shape != tuple(shape):
        return [NONINT]
    out = []
    for v in a.reshape(-1):
        f = float(v) * scale
        if f != f or abs(f) > 2 ** 31:
            out.append(NONINT)
            continue
        r = round(f)
        out.append(int(r) if abs(f - r) <= tol else NONINT)
    return out


def scale_of(stat, n):
    return n if stat == 'average' else 100 if stat in ('percentile', 'median') else 1


def upto(n, nch, i):
    return i * (n // nch) + min(i, n % nch)


def run(ims, shape, e, nfr):
    from hexrd.core.imageseries import stats
    st, nf = e['stat'], e['nf']
    n = nf if 0 < nf < nfr else nfr
    kw = {} if nf == 0 and e.get('omit') else {'nframes': nf}
    args = [ims] + ([e['p']] if st == 'percentile' else [])
    if e['op'] == 'full':
        k, v = outcome(lambda: getattr(stats, st)(*args, **kw))
        return {'k': 'v', 'v': [enc(v, scale_of(st, n), shape)]} if k == 'ok' else {'k': 'err', 'e': v, 'v': []}
    if st in ('percentile', 'median') and 'buf' in e:
        kw['use_buffer'] = e['buf']
    k, v = outcome(lambda: list(getattr(stats, st + '_iter')(*args, e['nch'], **kw)))
    if k == 'err':
        return {'k': 'err', 'e': v, 'v': []}
    row = st in ('percentile', 'median')
    return {'k': 'v', 'v': [enc(im, scale_of(st, n if row else upto(n, e['nch'], i + 1)), shape) for i, im in enumerate(v)]}


def body(c):
    from hexrd.core import imageseries
    from hexrd.core.imageseries import stats
    from hexrd.core.imageseries.process import ProcessedImageSeries
    rng = c.rng
    c.generate('Stats', 7, emit=False)
    saved = getattr(stats, 'STATS_BUFFER', None)
    traces = []

    def trace(frames, dtype, evs, raw=False, buffer=None, nested=False):
        n, r, cc = frames.shape
        ims = imageseries.open(None, 'array', data=frames.astype(dtype))
        if nested:
            ims = ProcessedImageSeries(ims, [('flip', 'vh'), ('flip', 'r180')])
        if buffer is not None and saved is not None:
            stats.STATS_BUFFER = buffer
        data = frames.astype(dtype)
        out = []
        for e in evs:
            e = dict(e)
            src = data if raw and e['stat'] not in ('percentile', 'median') else ims
            e['obs'] = run(src, (r, cc), e, n)
            out.append(e)
            if rng.random() < .3:
                # aggregating leaves the series itself alone
                k, v = outcome(lambda: [enc(src[i], 1, (r, cc)) for i in range(n)])
                out.append({'op': 'frames', 'obs': {'k': 'v', 'v': v} if k == 'ok' else {'k': 'err', 'e': v, 'v': []}})
        if saved is not None:
            stats.STATS_BUFFER = saved
        traces.append({'hdr': {'frames': [[int(x) for x in f.reshape(-1)] for f in frames], 'r': r, 'c': cc}, 'ev': out,
                       'replay': {'dtype': dtype, 'buffer': buffer}})

    # every (frames, rows, chunks, limit) combination in a small box
    N = 6 if c.quick else 9
    for n in range(1, N + 1):
        for r in (1, 2, 3, 5):
            fr = np.array([[rng.randint(0, 200) for _ in range(r * 2)] for _ in range(n)]).reshape(n, r, 2)
            evs = []
            for nf in range(0, n + 2):
                for st in STATS:
                    p = rng.choice([0, 1, 10, 25, 33, 50, 75, 99, 100])
                    evs.append({'op': 'full', 'stat': st, 'nf': nf, 'p': p, 'omit': True})
                    m = (nf if 0 < nf < n else n) if st not in ('percentile', 'median') else r
                    for nch in range(1, m + 2):
                        evs.append({'op': 'iter', 'stat': st, 'nf': nf, 'p': p, 'nch': nch, 'buf': rng.random() < .6})
            rng.shuffle(evs)
            trace(fr, rng.choice(DT), evs, buffer=rng.choice([None, None, 0, 40, 100]))
    for _ in range(150 if c.quick else 2500):
        n, r, cc = rng.randint(1, 9), rng.randint(1, 6), rng.randint(1, 4)
        dt = rng.choice(DT)
        hi = {'uint8': 255}.get(dt, 1000)
        lo = 0 if dt.startswith('u') else rng.choice([0, -900])
        fr = np.array([rng.randint(lo, hi) for _ in range(n * r * cc)]).reshape(n, r, cc)
        evs = []
        for _ in range(8):
            st = rng.choice(STATS)
            nf = rng.choice([0, 0, -1, rng.randint(1, n + 2)])
            m = r if st in ('percentile', 'median') else (nf if 0 < nf < n else n)
            evs.append({'op': rng.choice(['full', 'iter', 'iter']), 'stat': st, 'nf': nf, 'p': rng.randint(0, 100),
                        'nch': rng.randint(1, m + (rng.random() < .1)), 'buf': rng.random() < .6})
        isz = np.dtype(dt).itemsize * r * cc
        trace(fr, dt, evs, raw=rng.random() < .2, buffer=rng.choice([None, 0, isz - 1, isz, 2 * isz, 3 * isz + 1, 100 * isz]),
              nested=rng.random() < .2)
    c.judge('Stats', traces)


vf.main('C04', body)
