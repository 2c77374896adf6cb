"""C09: memoised functions (spec Memo)."""
import datetime
import enum
import json
import random as pyrandom
import numpy as np
import vf
from vf import outcome


class Colour(enum.Enum):
    RED = 1
    BLUE = 2


class Text(str):
    pass


def enc(x):
    """the structure of an argument, as far as a function can tell"""
    if isinstance(x, np.ma.MaskedArray):
        return {'t': 'masked', 'xs': [enc(np.asarray(x.data)), enc(np.ma.getmaskarray(x).copy())]}
    if isinstance(x, np.ndarray):
        v = json.dumps(list(map(repr, x.ravel().tolist()))) if x.dtype.hasobject else np.ascontiguousarray(x).tobytes().hex()
        return {'t': type(x).__name__, 'dt': x.dtype.str, 'sh': list(x.shape), 'v': v}
    if isinstance(x, dict):
        return {'t': type(x).__name__, 'kv': sorted(([enc(k), enc(v)] for k, v in x.items()), key=json.dumps)}
    if isinstance(x, (set, frozenset)):
        return {'t': type(x).__name__, 'el': sorted((enc(v) for v in x), key=json.dumps)}
    if isinstance(x, (list, tuple)):
        return {'t': type(x).__name__, 'xs': [enc(v) for v in x]}
    return {'t': type(x).__name__, 'v': repr(x)}


def arrays(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, dict):
        x = [x[k] for k in sorted(x, key=repr)]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays(v)]
    return []


class Sim:
    """`n` functions, each memoised on its own"""

    def __init__(self, maxs, rng):
        from hexrd.core.utils.decorators import memoize
        self.memoize = memoize
        self.rng = rng
        self.ran = 0
        self.fs = []
        for i, m in enumerate(maxs):
            self.fs.append(self.make(i, m))
        self.last = None

    def make(self, i, m):
        rng = self.rng
        style = rng.choice(['tuple', 'list', 'dict', 'view', 'single', 'nested'])

        def f(*a, **kw):
            self.ran += 1
            if 'deep_' in kw:
                n = kw['deep_']
                return ('deep', n, self.fs[i](deep_=n - 1) if n else None)
            if 'fail_' in kw:
                raise ValueError('no')
            r = {'a': [enc(x) for x in a], 'kw': {k: enc(v) for k, v in kw.items()}}
            whole = rng.random() < .5
            out = [(x if whole else x[...]) if style == 'view' and type(x) is np.ndarray else np.array(x, copy=True) for x in arrays((a, dict(sorted(kw.items()))))]
            text = json.dumps(r, sort_keys=True)
            if style == 'tuple':
                return (text, *out)
            if style == 'list':
                return [text] + out
            if style == 'dict':
                return {'text': text, **{str(j): x for j, x in enumerate(out)}}
            if style == 'single' and len(out) == 1 and type(out[0]) is np.ndarray and not out[0].dtype.hasobject:
                # the array alone; the text goes along as bytes of an array too
                return out[0]
            if style == 'nested':
                return text, (out, [{'x': out}])
            return text, *out
        if m == 2 and rng.random() < .5:
            return self.memoize(f)
        if rng.random() < .3:
            return self.memoize(f, m) if rng.random() < .5 else self.memoize(f, maxsize=m)
        return self.memoize(maxsize=m)(f)

    def info(self):
        return [dict(f.cache_info()) for f in self.fs]

    def step(self, e, a=(), kw=None):
        kw = kw or {}
        op = e['op']
        f = self.fs[e['f'] - 1]
        o = {'k': 'ok', 'ran': False, 'arr': True, 'same': True}
        self.ran = 0

        def run():
            if op == 'call':
                before = (enc(list(a)), enc(kw))
                flags = [x.flags.writeable for x in arrays((a, kw)) if x.size]
                items = list(kw.items())
                self.rng.shuffle(items)
                r = f(*a, **dict(items))
                o['ran'] = self.ran == 1
                self.last = arrays(r)
                text = next((x for x in (r.values() if isinstance(r, dict) else r) if isinstance(x, str)), None) if not isinstance(r, np.ndarray) else None
                want = arrays((a, dict(sorted(kw.items()))))
                got = self.last if not isinstance(r, tuple) or len(r) < 2 or not isinstance(r[1], tuple) else arrays(r[1][0])
                o['res'] = json.loads(text) if text is not None else {'a': e['a'], 'kw': e['kw']}
                o['arr'] = len(got) == len(want) and all(enc(np.array(x)) == enc(np.array(y)) for x, y in zip(got, want))
                # the arguments stay the caller's
                o['same'] = (enc(list(a)), enc(kw)) == before and flags == [x.flags.writeable for x in arrays((a, kw)) if x.size]
            elif op == 'fail':
                f(fail_=1)
            elif op == 'deep':
                r = f(deep_=e['n'])
                assert r[:2] == ('deep', e['n'])
            elif op == 'max':
                f.set_cache_maxsize(e['n'])
            elif op == 'grow':
                from hexrd.core.instrument.detector import Detector
                Detector.increase_memoization_sizes([f], e['n'])
            elif op == 'poke':
                for x in self.last or []:
                    if x.size and not x.dtype.hasobject:
                        try:
                            x[...] = np.zeros(x.shape, x.dtype) if x.dtype.kind not in 'f' else 77.
                        except ValueError:
                            pass
        k, v = outcome(run)
        if k == 'err':
            o['k'] = 'err'
        o['info'] = self.info()
        return dict(e, obs=o)


def dec(t):
    return {'int': int, 'float': float, 'bool': lambda v: v == 'True'}[t['t']](t['v']) if 'v' in t else [dec(x) for x in t['xs']]


def array(rng):
    n = rng.choice([0, 1, 1, 2, 4, 6])
    dt = rng.choice(['f8', 'f8', 'i8', 'i4', 'f4', 'u1', 'bool', 'i2', 'c16', 'U2', 'M8[s]', 'M8[D]', 'O', '>f8'])
    if dt == 'U2':
        x = np.array([rng.choice(['a', 'b', 'ab']) for _ in range(n)], dtype='U2')
    elif dt == 'O':
        x = np.empty(n, dtype=object)
        for i in range(n):
            x[i] = rng.choice([1, 1.0, 'a', None, (1, 2)])
    else:
        x = np.array([rng.randint(0, 2) for _ in range(n)], dtype='i8').astype(dt)
        if dt == 'f8' and n and rng.random() < .2:
            x[0] = rng.choice([np.nan, -0.0, np.inf])
    shapes = {0: [(0,), (0, 2), (1, 0)], 1: [(1,), (), (1, 1)], 2: [(2,), (1, 2), (2, 1)], 4: [(4,), (2, 2), (4, 1)], 6: [(6,), (2, 3), (3, 2)]}[n]
    x = x.reshape(rng.choice(shapes))
    k = rng.random()
    if x.ndim == 2 and k < .2:
        x = np.asfortranarray(x)
    elif x.ndim == 1 and k < .2:
        x = np.repeat(x, 2)[::2]
    elif k < .25 and x.dtype.kind in 'fi':
        x = np.ma.masked_array(x, mask=[rng.random() < .3 for _ in range(x.size)] if x.ndim == 1 else False)
    elif k < .3 and x.dtype.kind in 'fi':
        x = x[..., ::-1] if x.ndim else x
    elif k < .35:
        x.flags.writeable = False
    return x


def value(rng, d=2):
    k = rng.random()
    if k < .45:
        return rng.choice([1, 1.0, True, 0, 0.0, False, -0.0, None, 'a', '1', b'a', 1j, 1 + 0j, (), [], {}, Text('a'), Colour.RED, Colour.BLUE, slice, len,
                           np.int64(1), np.int32(1), np.float64(1), np.float32(1), np.bool_(True), np.float32(.1), np.str_('a'), np.datetime64(1, 's'), np.datetime64(1, 'D'),
                           datetime.date(2020, 1, 1), frozenset(), set(), 10 ** 20, -1, -2, 2 ** 61 - 1, 'args', 'x'])
    if k < .7 or d == 0:
        return array(rng)
    kids = [value(rng, d - 1) for _ in range(rng.randint(0, 3))]
    k = rng.choice(['list', 'tuple', 'dict', 'set', 'frozenset', 'pairs'])
    if k in ('list', 'tuple'):
        return {'list': list, 'tuple': tuple}[k](kids)
    if k == 'dict':
        return {rng.choice(['a', 'b', 'c', 1, 1.5]): v for v in kids}
    if k == 'pairs':
        return [('a', v) for v in kids]
    base = [rng.choice([1, 2, 'a', 'b', (1, 2), 1.5, None, True]) for _ in range(rng.randint(0, 3))]
    return set(base) if k == 'set' else frozenset(base)


def variants(rng, v):
    """values easily taken for v"""
    out = [v]
    if isinstance(v, np.ndarray) and type(v) is np.ndarray and not v.dtype.hasobject:
        out += [v.reshape(-1), v.reshape((1,) + v.shape), v.copy(), np.asfortranarray(v), v.tolist(), v.astype('f8') if v.dtype.kind in 'iub' else v.astype('U2') if v.dtype.kind == 'U' else v.view('u1').reshape(-1) if v.ndim and v.flags.c_contiguous and v.size else v]
        if v.ndim and v.dtype.itemsize == 8 and v.dtype.kind in 'if':
            out += [v.copy().view('i8' if v.dtype.kind == 'f' else 'f8')]
        if v.ndim and v.dtype.kind in 'ifc' and v.dtype.itemsize > 1:
            # the same bytes read in the other order
            out += [v.copy().view(v.dtype.newbyteorder())]
        if v.dtype.kind == 'M':
            out += [v.copy().view(u) for u in ('M8[s]', 'M8[D]', 'm8[s]')]
        if v.ndim == 2:
            out += [v.T]
        if v.dtype.kind in 'f' and v.size:
            out += [-v]
    elif isinstance(v, (list, tuple)):
        out += [list(v), tuple(v), list(v)[::-1], [v], list(v) + [None], v[:-1]]
        if all(isinstance(x, (int, float)) for x in v):
            out += [np.array(v), [float(x) for x in v]]
        if v and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in v):
            out += [dict(v)]
    elif isinstance(v, dict):
        out += [list(v.items()), dict(reversed(list(v.items()))), tuple(v.items()), list(v)]
    elif isinstance(v, (set, frozenset)):
        out += [set(v), frozenset(v), list(v), tuple(v)]
    elif isinstance(v, (bool, int, float)) and abs(v) < 1e9:
        out += [int(v), float(v), bool(v), -float(v), np.float64(v), str(v), [v], np.array(v), np.array([v])]
    elif isinstance(v, str):
        out += [str(v), v.encode(), [v], Text(v)]
    return rng.choice(out)


def random_trace(rng):
    maxs = [rng.choice([1, 2, 2, 3, 5, 0]) for _ in range(rng.randint(1, 3))]
    sim = Sim(maxs, rng)
    evs = []
    names = ['x', 'y', 'a', 'kwargs', 'z1']
    pool = []
    for _ in range(rng.randint(6, 25)):
        op = rng.choice(['call'] * 12 + ['poke'] * 3 + ['max', 'fail', 'deep', 'grow', 'inplace'])
        e = {'op': op, 'f': rng.randint(1, len(maxs))}
        a, kw = (), {}
        if op == 'inplace':     # the caller modifies an array it passed, then calls again
            cand = [x for p in pool for x in arrays(p) if x.flags.writeable and x.size and x.dtype.kind in 'fiu']
            if cand:
                x = rng.choice(cand)
                x.flat[rng.randrange(x.size)] = rng.choice([0, 1, 5])
            op = e['op'] = 'call'
            if not pool:
                pool.append(((1,), {}))
            a, kw = rng.choice(pool)
        elif op == 'call':
            k = rng.random()
            if pool and k < .45:
                a, kw = rng.choice(pool)
                if rng.random() < .2:
                    import copy
                    a, kw = copy.deepcopy(a), copy.deepcopy(kw)
            elif pool and k < .8:
                a, kw = rng.choice(pool)
                a, kw = list(a), dict(kw)
                j = rng.random()
                if a and j < .6:
                    i = rng.randrange(len(a))
                    a[i] = variants(rng, a[i])
                elif kw and j < .8:
                    n = rng.choice(list(kw))
                    kw[n] = variants(rng, kw[n])
                elif a and j < .9:
                    kw[rng.choice(names)] = a.pop()
                elif kw:
                    n = rng.choice(list(kw))
                    v = kw.pop(n)
                    if rng.random() < .5:
                        a.append(v)
                    elif rng.random() < .5:
                        a.extend([n, v])
                    else:
                        a.append((n, v))
                a = tuple(a)
            else:
                a = tuple(value(rng) for _ in range(rng.randint(0, 3)))
                kw = {n: value(rng) for n in rng.sample(names, rng.choice([0, 0, 0, 1, 2]))}
            pool.append((a, kw))
        elif op in ('max', 'grow'):
            e['n'] = rng.randint(0, 5) if op == 'max' else rng.randint(1, 5)
        elif op == 'deep':
            e['n'] = rng.randint(0, 4)
        if op == 'call':
            e.update(a=[enc(x) for x in a], kw={k: enc(v) for k, v in kw.items()})
        evs.append(sim.step(e, a, kw))
    return {'hdr': {'max': maxs}, 'ev': evs}


def panel_trace(rng):
    """Queries of panels, whose cached results must follow the panels' state"""
    from hexrd.core import distortion
    from hexrd.core.instrument import planar_detector as pd, cylindrical_detector as cd
    import hashlib

    def dist():
        k = rng.choice([None, 'GE_41RT', 'Dexela_2923', 'identity'])
        if k is None:
            return None
        n = {'GE_41RT': 6, 'Dexela_2923': 8, 'identity': 0}[k]
        return distortion.get_mapping(k, [rng.choice([0, 1e-3, 2e-3]) for _ in range(3)] + [2.] * 3 if n == 6 else [rng.choice([0, .5]) for _ in range(n)])
    mods = {pd: pd.PlanarDetector, cd: cd.CylindricalDetector}
    panels = []
    for _ in range(2):
        m = rng.choice([pd, pd, cd])
        shape = rng.choice([(4, 5), (5, 4), (6, 6)])
        panels.append((m, mods[m](rows=shape[0], cols=shape[1], pixel_size=(10., 10.), tvec=np.r_[0., 0., -500.], tilt=np.zeros(3), distortion=dist())))
    shared = dist()
    evs = []
    for _ in range(rng.randint(6, 16)):
        m, p = rng.choice(panels)
        k = rng.choice(['tvec', 'tvec_inplace', 'tilt', 'dist', 'params', 'params_inplace', 'shared', 'bvec', 'evec', 'px', 'radius', 'none'])

        def change():
            if k == 'tvec':
                p.tvec = np.r_[rng.choice([0, 5.]), 0, rng.choice([-500., -600.])]
            elif k == 'tvec_inplace':
                p.tvec[rng.randrange(2)] = rng.choice([0., 5.])
            elif k == 'tilt':
                p.tilt = np.r_[rng.choice([0, .1]), 0, rng.choice([0, .2])]
            elif k == 'dist':
                p.distortion = dist()
            elif k == 'shared':
                p.distortion = shared
            elif k == 'params' and getattr(p.distortion, 'params', None) is not None:
                q = np.array(p.distortion.params)
                q[0] = rng.choice([0, 1e-3, 3e-3])
                p.distortion.params = q
            elif k == 'params_inplace' and getattr(p.distortion, 'params', None) is not None:
                p.distortion.params[0] = rng.choice([0, 1e-3, 3e-3])
            elif k == 'bvec':
                p.bvec = np.r_[rng.choice([0., .6]), 0, 0] + np.r_[0, 0, -1.] if rng.random() < .5 else np.r_[.6, 0, -.8]
            elif k == 'evec':
                p.evec = np.r_[[1., 0, 0]] if rng.random() < .5 else np.r_[0, 1., 0]
            elif k == 'px':
                p.pixel_size_row = rng.choice([10., 20.])
            elif k == 'radius' and m is cd:
                p.radius = rng.choice([49., 500.])
        outcome(change)
        q = rng.choice(['pixel_angles', 'pixel_angles', 'pixel_tth_gradient', 'pixel_eta_gradient'])
        origin = rng.choice([(0., 0., 0.), (0., 0., 1.)])
        memo = ['_pixel_angles', '_pixel_tth_gradient', '_pixel_eta_gradient']

        def digest(r):
            return hashlib.sha1(b''.join(np.ascontiguousarray(x).tobytes() for x in (r if isinstance(r, tuple) else (r,)))).hexdigest()
        k1, got = outcome(lambda: digest(getattr(p, q)(origin=np.array(origin))))
        # the same with every memoised function bypassed
        keep = {n: getattr(m, n) for n in memo}
        try:
            for n in memo:
                setattr(m, n, keep[n].__wrapped__)
            k2, plain = outcome(lambda: digest(getattr(p, q)(origin=np.array(origin))))
        finally:
            for n in memo:
                setattr(m, n, keep[n])
        if rng.random() < .3 and k1 == 'ok':
            for x in arrays(getattr(p, q)(origin=np.array(origin))):
                try:
                    x[...] = 0
                except ValueError:
                    pass
        evs.append({'op': 'query', 'what': q, 'change': k, 'plain': plain, 'obs': {'k': k1, 'res': got} if k2 == 'ok' else {'k': 'ok', 'res': plain}})
    return {'hdr': {'max': [0]}, 'ev': evs}


def body(c):
    rng = c.rng
    behs = c.generate('Memo', 3)
    c.cov['model_behaviours'] = len(behs)
    if c.quick:
        behs = rng.sample(behs, min(len(behs), 6000))
    else:
        long = c.generate('Memo', 14, simulate=4000)
        behs = rng.sample(behs, min(len(behs), 12000)) + rng.sample(long, min(len(long), 3000))
    traces = []
    for b in behs:
        maxs = [x['max'] for x in b['hdr']]
        sim = Sim(maxs, rng)
        evs = []
        for e in b['ev']:
            kw = e.get('kw') or {}
            if e['op'] == 'call':
                e['kw'] = kw
            evs.append(sim.step(e, tuple(dec(x) for x in e.get('a', [])), {k: dec(v) for k, v in kw.items()} if kw else {}))
        traces.append({'hdr': {'max': maxs}, 'ev': evs})
    for _ in range(900 if c.quick else 15000):
        traces.append(random_trace(rng))
    c.cov['panel_histories'] = 60 if c.quick else 1500
    for _ in range(c.cov['panel_histories']):
        traces.append(panel_trace(rng))
    c.judge('Memo', traces)
    c.assumptions = ['arguments are distinguished as a function can tell them apart (type, dtype, shape, contents)', 'containers inside a cached result other than arrays are the callers\' responsibility']


vf.main('C09', body)
