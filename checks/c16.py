"""C16: nested dictionaries through the HDF5, JSON and YAML stores (spec Nest)."""
import json
import math
import os
import warnings
import numpy as np
import vf
from vf import outcome

warnings.simplefilter('ignore')


def num(x):
    x = x.item() if isinstance(x, (np.generic,)) else x
    if isinstance(x, np.longdouble):
        return repr(x)
    if isinstance(x, float):
        if math.isnan(x):
            return 'nan'
        if EXACT[0] and x == x and math.isfinite(x):
            return repr(x)
        return str(int(x)) if math.isfinite(x) and x == int(x) and not (x == 0 and math.copysign(1, x) < 0) else repr(x)
    if isinstance(x, complex):
        return num(x.real) + '|' + num(x.imag) if x.imag else num(x.real)
    return str(x)


# the text stores keep whole numbers apart from others
EXACT = [False]
KIND = {'i': 'f', 'u': 'f', 'f': 'f', 'c': 'c', 'b': 'o', 'U': 's', 'S': 'y'}


def leaf(x):
    if isinstance(x, (bool, np.bool_)):
        return {'t': 'o', 'v': 'true' if x else 'false'}
    if isinstance(x, (complex, np.complexfloating)):
        return {'t': 'c', 'v': num(x)}
    if isinstance(x, (int, float, np.integer, np.floating)):
        return {'t': 'f', 'v': num(x)}
    if isinstance(x, str):
        return {'t': 's', 'v': json.dumps(str(x))}
    if isinstance(x, bytes):
        return {'t': 'y', 'v': bytes(x).hex()}
    return {'t': 'x', 'v': repr(x)}


def enc(x):
    if isinstance(x, dict):
        return {'t': 'b', 'm': {k: enc(v) for k, v in x.items()}}
    if x is None:
        return {'t': 'n'}
    if isinstance(x, np.ndarray):
        ls = [leaf(v) for v in x.reshape(-1).tolist()] if x.dtype.kind != 'g' else [leaf(v) for v in x.reshape(-1)]
        kind = KIND.get(x.dtype.kind) or (ls[0]['t'] if ls and len({v['t'] for v in ls}) == 1 else 'f' if not ls else 'x')
        return {'t': 'a', 'kind': kind, 'dt': x.dtype.str if x.dtype.kind != 'O' else 'O', 'sh': list(x.shape), 'xs': [v['v'] for v in ls]}
    if isinstance(x, (list, tuple)):
        return {'t': 'l', 'xs': [enc(v) for v in x]}
    return leaf(x)


def full(x):
    """everything about an object, to see that it was not touched"""
    if isinstance(x, dict):
        return [type(x).__name__, [[k, full(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [full(v) for v in x]]
    if isinstance(x, np.ndarray):
        return ['array', x.dtype.str, list(x.shape), list(x.strides), bool(x.flags.writeable), x.tobytes().hex() if x.dtype.kind != 'O' else repr(x.tolist())]
    return [type(x).__name__, repr(x)]


class Sim:
    def __init__(self, store, tmp):
        self.store = store
        EXACT[0] = store != 'h5'
        self.path = os.path.join(tmp, 'nest')
        if os.path.exists(self.path):
            os.unlink(self.path)

    def step(self, e, d=None, pre=None):
        o = {'k': 'ok', 'same': True}

        def run():
            if e['op'] == 'write':
                before = full(d)
                try:
                    self.write(e['g'], d)
                finally:
                    o['same'] = full(d) == before
            else:
                r = self.read(e['g'], pre)
                o['d'] = enc(r)
        k, v = outcome(run)
        if k == 'err':
            o.update(k='err', e=v)
        o.setdefault('d', enc({}))
        return dict(e, obs=o)

    def write(self, g, d):
        if self.store == 'h5':
            import h5py
            from hexrd.core.utils.hdf5 import unwrap_dict_to_h5
            with h5py.File(self.path, 'a') as f:
                unwrap_dict_to_h5(f.require_group(g) if g else f, d)
        elif self.store == 'json':
            from hexrd.core.utils.json import NumpyEncoder
            self.text = json.dumps(d, cls=NumpyEncoder)
            self.text = self.text.encode().decode()
        elif self.store == 'plain':
            from hexrd.core.utils.json import NumpyToNativeEncoder
            self.text = json.dumps(d, cls=NumpyToNativeEncoder)
        else:
            import yaml
            from hexrd.core.utils.yaml import NumpyToNativeDumper
            self.text = yaml.dump(d, Dumper=NumpyToNativeDumper)

    def read(self, g, pre):
        if self.store == 'h5':
            import h5py
            from hexrd.core.utils.hdf5 import unwrap_h5_to_dict
            r = dict(pre or {})
            with h5py.File(self.path, 'r') as f:
                unwrap_h5_to_dict(f[g] if g else f, r)
            return r
        if self.store == 'json':
            from hexrd.core.utils.json import NumpyDecoder
            return json.loads(self.text, cls=NumpyDecoder)
        if self.store == 'plain':
            return json.loads(self.text)
        import yaml
        return yaml.safe_load(self.text)


def dec(t):
    k = t['t']
    if k == 'b':
        return {a: dec(b) for a, b in t['m'].items()} if isinstance(t['m'], dict) else {}
    if k == 'n':
        return None
    if k == 'l':
        return [dec(x) for x in t['xs']]
    if k == 'a':
        return np.array([{'f': float, 's': str}[t['kind']](x) for x in t['xs']], dtype=t['dt']).reshape(t['sh'])
    return {'f': int, 's': str, 'o': lambda v: v == 'true', 'y': str.encode}[k](t['v'])


TEXT = ['a', 'b', '', 'some text', 'é', '\u4e2d\u6587', 'null', 'yes', '1', '1.5', '~', '- x', 'a: b', '#c', 'true', ' pad ', 'line\nbreak', '\\u0041', "it's", '"q"', '{x}', 'b"a"', "['a']"]
KEYS = ['a', 'b', 'x', 'key', 'long key', 'é', 'K', '1', 'null', 'items', 'data', 'nan', 'a.b']


def arr(rng, dts):
    n = rng.choice([0, 1, 1, 2, 3, 4, 6])
    sh = rng.choice({0: [(0,), (0, 3), (2, 0)], 1: [(1,), (), (1, 1), (1, 1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (3, 1)], 4: [(4,), (2, 2)], 6: [(6,), (2, 3), (3, 1, 2)]}[n])
    dt = rng.choice(dts)
    if dt == 'esc':        # bytes that look like an escape
        x = np.frombuffer(rng.choice([b'\\u0041', b'\\U0001F600', b'a\\u12', b'\\\\u0041\\', b'\\x41\\n']), dtype='u1').copy()
        return x
    if dt[0] == 'U':
        x = np.array([rng.choice(TEXT) for _ in range(n)], dtype='U9' if n else 'U1').reshape(sh)
    elif dt[0] == 'S':
        x = np.array([rng.choice([b'a', b'bc', b'', b'\xff\x01']) for _ in range(n)], dtype='S3').reshape(sh)
    elif dt == 'bool':
        x = np.array([rng.random() < .5 for _ in range(n)], dtype=bool).reshape(sh)
    else:
        x = np.array([rng.choice([0, 1, 2, 92, 117, 100]) for _ in range(n)], dtype=dt).reshape(sh)
        if dt[-2] == 'f' and n and rng.random() < .4:
            x.flat[0] = rng.choice([np.nan, np.inf, -np.inf, .1, -0.0, 1e-30 if dt != '<f4' else .5, 1e300 if dt != '<f4' else 2])
        if dt[0] == '<' and dt[1] == 'c' and n:
            x.flat[0] = 1 - 2j
    if x.ndim == 2 and rng.random() < .3:
        x = np.asfortranarray(x)
    elif x.ndim == 1 and rng.random() < .2:
        x = np.repeat(x, 2)[::2]
    elif x.ndim and rng.random() < .2:
        x = x[::-1]
    if rng.random() < .2:
        x.flags.writeable = False
    return x


def value(rng, store, shared):
    if shared and rng.random() < .15:
        return rng.choice(shared)
    k = rng.random()
    num_ = lambda: rng.choice([0, 1, -3, 7.5, .1, 2 ** 40, -2 ** 31, 1e20, 1e-7, 2.0, float('inf'), float('nan'), -0.0, rng.random(), rng.gauss(0, 1e5)])
    np_ = lambda: rng.choice([np.float64(.5), np.float64(rng.random()), np.float32(.5), np.int64(3), np.int32(-2), np.uint8(4), np.bool_(True)])
    txt = lambda: rng.choice(TEXT)
    byt = lambda: rng.choice([b'a', b'bc', b'\xff\x01', b''])
    lists = lambda f: [f() for _ in range(rng.randint(0, 4))]
    if k < .3:
        v = rng.choice([num_, num_, txt, txt, lambda: rng.random() < .5, lambda: None, byt if store in ('h5', 'yaml') else txt])()
    elif k < .42:
        v = rng.choice([np_, np_, lambda: np.str_(txt())])() if store != 'json' else np.float64(num_())
    elif k < .7:
        dts = ['<f8', '<f8', '<i8', '<f4', '<i4', 'u1', 'bool', 'U', '>f8', '<u2', 'esc', 'i1']
        if store == 'h5':
            dts += ['S', '<c16', 'U']
        if store == 'json':
            dts += ['S', '<c16', 'esc', 'esc']
        dts = ['|' + d if d in ('u1', 'i1') else d for d in dts]
        v = arr(rng, dts)
    elif k < .95:
        f = rng.choice([num_, num_, txt, lambda: rng.random() < .5, np_])
        if store == 'json' and f is np_:
            f = num_
        v = lists(f)
        j = rng.random()
        if j < .25:
            w = rng.randint(1, 3)
            v = [[f() for _ in range(w)] for _ in range(rng.randint(1, 3))]
        elif j < .35:
            v = [rng.choice([num_, txt, lambda: None, lambda: [1, 2], lambda: arr(rng, ['<f8'])])() for _ in range(rng.randint(1, 3))]
        elif j < .45 and store != 'h5':
            v = [{'a': num_()}, [arr(rng, ['<f8'])], arr(rng, ['<i8'])]
        elif j < .5:
            v = [np.arange(3.), np.ones(3)]
        elif j < .6:
            v = [num_(), rng.random() < .5]
        if rng.random() < .4:
            v = tuple(v)
    else:
        v = rng.choice([1 + 2j, 3j]) if store == 'h5' else num_()
    shared.append(v)
    return v


def tree(rng, store, depth, shared):
    d = {}
    for k in rng.sample(KEYS, rng.randint(0 if depth else 1, 4)):
        d[k] = tree(rng, store, depth - 1, shared) if depth and rng.random() < .4 else value(rng, store, shared)
        if isinstance(d[k], dict) and rng.random() < .2:
            shared.append(d[k])
    return d


def hard(x, store):
    """values outside the store's declared kinds, which it may refuse or keep"""
    if isinstance(x, dict):
        return any(hard(v, store) for v in x.values())
    if isinstance(x, (list, tuple)):
        if store == 'h5' and any(hard(v, store) or isinstance(v, dict) for v in x):
            return True
        if store == 'h5':       # lists of plain text are kept, lists of numpy's text and deeper lists of text may be refused
            return any(isinstance(v, (np.str_, np.ndarray)) and np.asarray(v).dtype.kind == 'U' for v in x) or any(isinstance(v, (list, tuple)) and 's' in json.dumps(enc(v)) for v in x)
        return any(hard(v, store) for v in x)
    if store == 'json':
        return isinstance(x, (bytes, np.generic)) and not isinstance(x, (float, str))
    if store in ('plain', 'yaml') and isinstance(x, (bytes, complex)):
        return store == 'plain' or isinstance(x, complex)
    return False


def random_trace(rng, c):
    store = rng.choice(['h5', 'h5', 'json', 'yaml', 'plain'])
    sim = Sim(store, c.tmp)
    evs = []
    shared = []
    written = []
    for _ in range(rng.choice([1, 2, 3]) if store == 'h5' else 1):
        d = tree(rng, store, rng.randint(0, 3), shared)
        g = rng.choice(['', 'grp', 'grp/sub', 'other']) if store == 'h5' else ''
        # groups written at different places share nothing but the file
        if any(g != w and (g == '' or w == '' or g.startswith(w) or w.startswith(g)) for w in written):
            continue
        evs.append(sim.step({'op': 'write', 'g': g, 'd': enc(d), 'maybe': hard(d, store)}, d))
        if evs[-1]['obs']['k'] == 'err':
            break
        written.append(g)
        if rng.random() < .8:
            g = rng.choice(written)
            pre = tree(rng, 'plain', 0, []) if store == 'h5' and rng.random() < .3 else {}
            evs.append(sim.step({'op': 'read', 'g': g, 'pre': enc(pre)}, pre=pre))
    for g in written:
        evs.append(sim.step({'op': 'read', 'g': g, 'pre': enc({})}))
    return {'hdr': {'store': store}, 'ev': evs}


def body(c):
    rng = c.rng
    behs = c.generate('Nest', 2)
    c.cov['model_behaviours'] = len(behs)
    traces = []
    for b in behs if not c.quick else rng.sample(behs, min(len(behs), 900)):
        sim = Sim(b['hdr']['h'], c.tmp)
        evs = []
        for e in b['ev']:
            if e['op'] == 'write':
                d = dec(e['d'])
                e.update(d=enc(d), maybe=hard(d, b['hdr']['h']))
                evs.append(sim.step(e, d))
                if evs[-1]['obs']['k'] == 'err':
                    break
            else:
                pre = dec(e['pre'])
                e['pre'] = enc(pre)
                evs.append(sim.step(e, pre=pre))
        traces.append({'hdr': {'store': b['hdr']['h']}, 'ev': evs})
    for _ in range(2500 if c.quick else 40000):
        traces.append(random_trace(rng, c))
    c.judge('Nest', traces)
    c.assumptions = ['keys are text without a slash', 'entries holding nothing are left out by the HDF5 store; one-element lists read back as their element',
                     'byte strings do not end in zero bytes']


vf.main('C16', body)
