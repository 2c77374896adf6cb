"""C02: image series stores (spec ImgStore)."""
import json
import os
import pickle
import shutil
import sys
import threading
import time
import numpy as np
import vf
from vf import enc_img, outcome, ival, NONINT

DT = ['uint8', 'uint16', 'int32', 'float32', 'float64', 'int16']


def canon(v):
    if isinstance(v, bytes):
        v = v.decode()
    if isinstance(v, str):
        return json.dumps(v)
    a = np.asarray(v)
    if a.ndim == 1 and a.size == 1:
        a = a.reshape(())
    x = a.tolist()

    def f(y):
        if isinstance(y, list):
            return [f(z) for z in y]
        if isinstance(y, bytes):
            return y.decode()
        if isinstance(y, (bool, int, float)):
            return repr(float(y))
        return str(y)
    return json.dumps(f(x))


def meta_json(m, pre=''):
    out = []
    for k in sorted(m):
        v = m[k]
        if isinstance(v, dict):
            out += meta_json(v, pre + k + '/') if v else [{'p': pre + k + '/', 'n': True, 'v': '{}'}]
        else:
            out.append({'p': pre + k, 'n': '/' in pre + k, 'v': canon(v)})
    return sorted(out, key=lambda x: x['p'])


class Gate:
    """Lets worker threads return frames in an order chosen by rng."""
    def __init__(self, rng, n, w):
        self.rng, self.left, self.w = rng, n, w
        self.waiting, self.go = [], set()
        self.cv = threading.Condition()

    def __call__(self, i):
        if threading.current_thread() is threading.main_thread():
            return
        with self.cv:
            self.waiting.append(i)
            t0 = time.time()
            while i not in self.go:
                if self.waiting and (len(self.waiting) >= min(self.w, self.left) or time.time() - t0 > .25):
                    j = self.rng.choice(self.waiting)
                    self.waiting.remove(j)
                    self.go.add(j)
                    self.left -= 1
                    self.cv.notify_all()
                    continue
                self.cv.wait(.02)
            self.go.discard(i)


def source(frames, dtype, meta, gate=None, nested=False):
    from hexrd.core import imageseries
    from hexrd.core.imageseries.process import ProcessedImageSeries
    data = np.array(frames).astype(dtype)
    if gate is None:
        s = imageseries.open(None, 'array', data=data, meta=meta)
    else:
        def func(i):
            gate(i)
            return data[i].copy()
        s = imageseries.open(None, 'function', func=func, num_frames=len(data), meta=meta)
    if nested:
        s = ProcessedImageSeries(s, [('flip', 'r180'), ('flip', 'r180')])
    return s


def rand_meta(rng, fmt):
    m = {}
    for k in rng.sample(['omega', 'panel_id', 'count', 'note', 'vals', 'flag', 'mat', 'names'], rng.randint(0, 5)):
        m[k] = {'omega': lambda: np.linspace(0, 10, 6).reshape(3, 2), 'panel_id': lambda: 'ge1', 'count': lambda: rng.randint(0, 99),
                'note': lambda: 'a note, with: punctuation', 'vals': lambda: [1.5, 2.0, rng.randint(0, 9)], 'flag': lambda: True,
                'mat': lambda: np.arange(12).reshape(2, 3, 2),
                'names': lambda: np.array(['ge1', 'ge22']) if fmt == 'hdf5' else np.array([1, 2], dtype='int16')}[k]()
    if fmt != 'hdf5' and rng.random() < .5:
        m['nest'] = {'x': 1, 'deep': {'y': np.array([1., 2.]), 'z': 'text'}}
    return m


class World:
    def __init__(self, c, d):
        self.c, self.rng, self.d = c, c.rng, d
        self.how = {}
        self.last = {}
        self.n = 0
        self.t0 = 1700000000

    def path(self, name):
        return os.path.join(self.d, name)

    def write(self, name, fmt, workers=None, gated=False, big=False):
        from hexrd.core import imageseries
        rng = self.rng
        dt = rng.choice(DT)
        n = rng.randint(1, 7)
        r, cc = (rng.randint(1, 5), rng.randint(1, 5)) if not big else (16, 16)
        hi = 255 if dt == 'uint8' else 3000
        lo = 0 if dt.startswith('u') else rng.choice([0, -20])
        p0 = rng.choice([0, .3, .8, 1])
        frames = [[[0 if rng.random() < p0 else rng.randint(lo, hi if rng.random() < .5 else 6) for _ in range(cc)] for _ in range(r)] for _ in range(n)]
        thr2 = rng.choice([0, 0, 1, 2, 5, 6, 10, -1, 200])
        meta = rand_meta(rng, fmt)
        if name in self.last and not gated and rng.random() < .5:
            # the same file again, with the frames in another order: a file of the same size
            frames, dt, n, r, cc, thr2, meta = self.last[name]
            frames = frames[::-1] if rng.random() < .7 else [[[x // 2 for x in row] for row in f] for f in frames]
        self.last[name] = (frames, dt, n, r, cc, thr2, meta)
        before = meta_json(meta)
        w = workers or rng.choice([None, 1, 2, 3, 8])
        gate = Gate(rng, n, min(w or 8, n)) if gated else None
        ims = source(frames, dt, meta, gate, nested=not gated and rng.random() < .2)
        p = self.path(name)
        kw = {} if fmt == 'hdf5' else {'threshold': thr2 / 2, 'style': fmt}
        if fmt != 'hdf5' and w:
            kw['max_workers'] = w
        if os.path.exists(p):
            os.unlink(p)
        self.n += 1
        how = {'fmt': fmt, 'mode': 'file'}
        if fmt == 'hdf5':
            kw['path'] = rng.choice(['imageseries', 'a/b'])
            how['path'] = kw['path']
            if rng.random() < .5:
                kw['gzip'] = rng.choice([0, 1, 5])
            if rng.random() < .5:
                kw['chunk_rows'] = rng.randint(0, r + 1)
            if rng.random() < .3:
                kw['shuffle'] = False
            how['mode'] = rng.choice(['file', 'file', 'open'])
        elif fmt == 'fch5' and rng.random() < .35:
            how['mode'] = 'group'
            kw['path'] = how['path'] = 'grp/fc'

        def go():
            import h5py
            if how['mode'] == 'file':
                imageseries.write(ims, p, 'hdf5' if fmt == 'hdf5' else 'frame-cache', **kw)
            else:
                with h5py.File(p, 'w') as f:
                    imageseries.write(ims, f, 'hdf5' if fmt == 'hdf5' else 'frame-cache', **kw)
        old = sys.getswitchinterval()
        if gated or big:
            sys.setswitchinterval(1e-5)
        k, v = outcome(go)
        sys.setswitchinterval(old)
        if os.path.exists(p) and not gated:
            # successive writes lie 7 ms apart whatever the file system's clock does
            ns = self.t0 * 10 ** 9 + self.n * 7 * 10 ** 6
            os.utime(p, ns=(ns, ns))
        if gate:
            gate.left = 0
        flat = [[x for row in f for x in row] for f in frames]
        self.how[name] = dict(how, neg=True)
        src = [enc_img(ims[i])['data'] for i in range(n)] if k == 'ok' else []
        obs = {'k': 'ok', 'meta': meta_json(ims.metadata), 'frames': src} if k == 'ok' else {'k': 'err', 'e': v}
        return [{'op': 'write', 'name': name, 'fmt': fmt, 'thr2': thr2, 'frames': flat, 'r': r, 'c': cc, 'meta': before,
                 'dt': dt, 'obs': obs}], (n, r, cc)

    def layout(self, name):
        rng = self.rng
        import fabio
        d = self.path(name) + '.d'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subs = ['']
        if rng.random() < .25:
            subs = ['b', 'a'][:rng.randint(1, 2)]
            for x in subs:
                os.makedirs(os.path.join(d, x))
        nfile = rng.randint(1, 4)
        r, cc = rng.randint(1, 4), rng.randint(1, 4)
        multi = rng.random() < .75
        same = rng.randint(1, 4)
        dt = rng.choice(['uint16', 'int32', 'uint8'])
        files = []
        ext = 'edf' if multi else 'tif'
        fnames = [os.path.join(d, rng.choice(subs), 'f_%02d.%s' % (i, ext)) for i in rng.sample(range(10), nfile)]
        for fname in sorted(fnames):
            nfr = (same if rng.random() < .7 else rng.randint(1, 4)) if multi else 1
            fr = np.array([rng.randint(0, 200) for _ in range(nfr * r * cc)]).reshape(nfr, r, cc).astype(dt)
            if multi:
                e = fabio.edfimage.EdfImage(data=fr[0], header={})
                for f in fr[1:]:
                    e.append_frame(data=f, header={})
                e.write(fname)
            else:
                fabio.tifimage.TifImage(data=fr[0]).write(fname)
            files.append([[int(x) for x in f.reshape(-1)] for f in fr])
        empty = rng.choice([0, 0, 1, 2]) if multi else rng.choice([0, 0, 0, 0, 1])
        maxf = rng.choice([0, 0, 1, 2, 5])
        maxt = rng.choice([0, 0, 1, 2, 3, 4, 50])
        opts = {}
        if empty or rng.random() < .3:
            opts['empty-frames'] = empty
        if maxf or rng.random() < .3:
            opts['max-file-frames'] = maxf
        if maxt or rng.random() < .3:
            opts['max-total-frames'] = maxt
        if rng.random() < .3:
            opts['dtype'] = rng.choice(['float32', 'int64', 'uint16', 'float64'])
        meta = {'panel': 'a', 'num': 3} if rng.random() < .6 else {}
        import yaml
        y = yaml.safe_dump({'image-files': {'directory': d, 'files': rng.choice(['*.edf *.tif', '*.*', 'f_0*'] if subs == [''] else ['*/*.*', '*/*.edf */*.tif'] + [' '.join(x + '/*' for x in subs)])}, 'options': opts, 'meta': meta})
        p = self.path(name)
        with open(p, 'w') as f:
            f.write(y)
        self.how[name] = {'fmt': 'image-files', 'mode': 'text' if rng.random() < .5 else 'file', 'text': y, 'neg': True}
        return [{'op': 'layout', 'name': name, 'files': files, 'empty': empty, 'maxf': maxf, 'maxt': maxt, 'r': r, 'c': cc,
                 'meta': meta_json(meta), 'obs': {'k': 'ok'}}], (None, r, cc)

    def raw(self, name):
        rng = self.rng
        import yaml
        n, r, cc = rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 4)
        typ, nb, sg, end = rng.choice([('i', 1, False), ('i', 1, True), ('i', 2, False), ('i', 2, True), ('i', 4, True), ('i', 4, False), ('i', 8, True), ('f', 4, True), ('d', 8, True)]) + (rng.choice(['little', 'big']),)
        npd = {'i': ('i' if sg else 'u') + str(nb), 'f': 'f4', 'd': 'f8'}[typ]
        npd = np.dtype(npd).newbyteorder('<' if end == 'little' else '>')
        lo = -100 if sg else 0
        fr = np.array([rng.randint(lo, 120) for _ in range(n * r * cc)]).reshape(n, r, cc)
        skip = rng.choice([0, 0, 8, 1, 64, r * cc * npd.itemsize, 2 * r * cc * npd.itemsize])
        p = self.path(name)
        with open(p + '.raw', 'wb') as f:
            f.write(bytes(rng.randrange(256) for _ in range(skip)))
            f.write(fr.astype(npd).tobytes())
        with open(p, 'w') as f:
            yaml.safe_dump({'filename': p + '.raw', 'scalar': {'type': typ, 'bytes': nb, 'signed': sg, 'endian': end}, 'shape': '%d %d' % (r, cc), 'skip': skip}, f)
        self.how[name] = {'fmt': 'raw-image', 'mode': 'file', 'neg': False}
        return [{'op': 'layout', 'name': name, 'files': [[[int(x) for x in f.reshape(-1)] for f in fr]], 'empty': 0, 'maxf': 0, 'maxt': 0, 'r': r, 'c': cc,
                 'meta': [], 'obs': {'k': 'ok'}}], (n, r, cc)

    def open(self, name):
        from hexrd.core import imageseries
        h = self.how[name]
        p = self.path(name)
        if h['fmt'] == 'hdf5':
            return imageseries.open(p, 'hdf5', path=h['path'])
        if h['fmt'] in ('npz', 'fch5'):
            kw = {'max_workers': self.rng.choice([1, 2, 8])} if self.rng.random() < .5 else {}
            if h['mode'] == 'group':
                import h5py
                if self.rng.random() < .5:
                    return imageseries.open(h5py.File(p, 'r'), 'frame-cache', style='fch5', path=h['path'], **kw)
                return imageseries.open(h5py.File(p, 'r')[h['path']], 'frame-cache', style='fch5', **kw)
            return imageseries.open(p, 'frame-cache', style=h['fmt'], **kw)
        if h['fmt'] == 'image-files':
            return imageseries.open(h['text'] if h['mode'] == 'text' else p, 'image-files')
        return imageseries.open(p, 'raw-image')

    def read(self, name, extra=3):
        """open and observe"""
        rng = self.rng
        k, s = outcome(lambda: self.open(name))
        if k == 'err':
            return [{'op': 'open', 'name': name, 'obs': {'k': 'err', 'e': s}}]
        h = self.how[name]
        evs = []
        if rng.random() < .15 and h['fmt'] in ('npz', 'fch5', 'hdf5') and h['mode'] == 'file':
            s = pickle.loads(pickle.dumps(s))
        def full():
            fr = [enc_img(f) for f in s] if rng.random() < .5 else [enc_img(s[i]) for i in range(len(s))]
            shp = [int(x) for x in s.shape]
            return {'k': 'ok', 'n': len(s), 'shape': shp, 'meta': meta_json(s.metadata),
                    'frames': [f['data'] if f['shape'] == shp else [NONINT] for f in fr]}
        k, v = outcome(full)
        evs.append({'op': 'open', 'name': name, 'obs': v if k == 'ok' else {'k': 'err', 'e': v}})
        if k == 'err':
            return evs
        n, (r, cc) = v['n'], v['shape']
        for _ in range(extra):
            op = rng.choice(['get', 'region', 'pix', 'get'])
            e = {'op': op, 'name': name}
            if op == 'get':
                lo = -n if h['neg'] else 0
                e['i'] = rng.randint(lo, n - 1) if rng.random() < .75 else rng.choice([n, n + 3] + ([-n - 1] if h['neg'] else []))
                k, v = outcome(lambda: s[e['i']])
                e['obs'] = enc_img(v) if k == 'ok' else {'k': 'err', 'e': v}
                if k == 'ok':
                    outcome(lambda: np.copyto(v, 9))
            elif op == 'region':
                a, p = rng.randint(0, r), rng.randint(0, cc)
                e.update(i=rng.randrange(n), a=a, b=rng.randint(a, r + 1), p=p, q=rng.randint(p, cc + 1))
                k, v = outcome(lambda: s.get_region(e['i'], ((e['a'], e['b']), (e['p'], e['q']))))
                e['obs'] = enc_img(v) if k == 'ok' else {'k': 'err', 'e': v}
            else:
                m = rng.randint(1, 4)
                e.update(i=rng.randrange(n), rows=[rng.randrange(r) for _ in range(m)], cols=[rng.randrange(cc) for _ in range(m)])
                k, v = outcome(lambda: s[e['i'], np.array(e['rows']), np.array(e['cols'])])
                e['obs'] = enc_img(v) if k == 'ok' else {'k': 'err', 'e': v}
            evs.append(e)
        return evs


def body(c):
    rng = c.rng
    c.generate('ImgStore', 16, emit=False, consts={}, extra_view=True)
    d = os.path.join(c.tmp, 'files')
    os.makedirs(d)
    w = World(c, d)
    traces = []
    N = (170, 130, 60, 60) if c.quick else (1500, 1500, 600, 500)
    # histories over a few names, overwriting and reopening
    for _ in range(N[0]):
        evs = []
        names = []
        for _ in range(rng.randint(1, 4)):
            name = rng.choice(['A', 'B'])
            fmt = rng.choice(['hdf5', 'npz', 'npz', 'fch5', 'fch5'])
            nm = name + '.' + fmt + ('.npz' if fmt == 'npz' else '.h5')
            time.sleep(.006)
            e, _ = w.write(nm, fmt)
            evs += e
            if e[0]['obs']['k'] == 'err':
                break
            if nm not in names:
                names.append(nm)
            for x in names:
                if rng.random() < .7 or x == nm:
                    evs += w.read(x)
        traces.append({'hdr': {}, 'ev': evs})
    for _ in range(N[1]):
        evs, _ = w.layout('L.yml')
        evs += w.read('L.yml', 5)
        traces.append({'hdr': {}, 'ev': evs})
    for _ in range(N[2]):
        evs, _ = w.raw('R.yml')
        evs += w.read('R.yml', 4)
        traces.append({'hdr': {}, 'ev': evs})
    # schedules of the threaded writers
    for i in range(N[3]):
        fmt = rng.choice(['npz', 'fch5', 'fch5'])
        nm = 'T.' + fmt + ('.npz' if fmt == 'npz' else '.h5')
        evs, _ = w.write(nm, fmt, workers=rng.choice([1, 2, 3, 4, 8]), gated=True, big=i % 4 == 0)
        if evs[0]['obs']['k'] == 'ok':
            evs += w.read(nm, 2)
        traces.append({'hdr': {}, 'ev': evs})
    c.cov['gated_writer_schedules'] = N[3]
    c.judge('ImgStore', traces)


vf.main('C02', body)
