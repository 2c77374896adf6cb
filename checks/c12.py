"""C12: pixel, position, mask and region bookkeeping of a panel (spec Panel)."""
import numpy as np
import vf
from vf import outcome, rval, ival, NONINT

PITCH = [0.125, 0.25, 0.1875, 0.375, 0.0625, 1.0, 0.03125]


class Panel:
    """a real panel, with lengths in sixteenths of a pixel"""
    def __init__(self, h, rng):
        from hexrd.core.instrument import PlanarDetector
        self.rng = rng
        self.pr, self.pc = rng.choice(PITCH), rng.choice(PITCH)
        self.buf = h['buf']
        self.rows, self.cols = h['rows'], h['cols']
        kw = {}
        if h['roi'] or rng.random() < .3:
            kw['roi'] = tuple(h['roi']) or None
        if h.get('named'):
            kw['panel_buffer'] = h['named']
        elif self.buf['k'] != 'none' or rng.random() < .3:
            kw['panel_buffer'] = self.buffer(self.buf)
        if rng.random() < .7:
            kw['tvec'] = np.array([rng.choice([0., -3.5, 100.]), rng.choice([0., 7.25]), rng.choice([-1000., -33.5])])
            kw['tilt'] = np.array([rng.choice([0., .1, -1.5]), rng.choice([0., .3]), rng.choice([0., np.pi / 2, .7])])
        self.d = PlanarDetector(rows=self.rows, cols=self.cols, pixel_size=(self.pr, self.pc), name='p', **kw)

    def buffer(self, b):
        if b['k'] == 'none':
            return None
        if b['k'] == 'mask':
            return np.array(b['m'], dtype=bool)
        x, y = b['x'] * self.pc / 16, b['y'] * self.pr / 16
        j = self.rng.random()
        if x == y and j < .4:
            return x
        return [x, y] if j < .6 else (x, y) if j < .7 else np.array([x, y])

    def xy(self, pts):
        return np.array([[x * self.pc / 16, y * self.pr / 16] for x, y in pts], dtype=float).reshape(-1, 2)

    def unxy(self, a):
        return [[ival(p[0], 16 / self.pc), ival(p[1], 16 / self.pr)] for p in a]

    def enc_buf(self, b, d):
        if b is None:
            return {'k': 'none'}
        b = np.asarray(b)
        if b.ndim == 2:
            return {'k': 'mask', 'm': [[bool(v) for v in r] for r in b]}
        b = np.broadcast_to(b, (2,))
        return {'k': 'edge', 'x': ival(b[0], 16 / d.pixel_size_col), 'y': ival(b[1], 16 / d.pixel_size_row)}

    def event(self, e):
        d, op, rng = self.d, e['op'], self.rng

        def points(pts):
            a = self.xy(pts)
            j = rng.random()
            return a.tolist() if j < .15 else a[0] if len(a) == 1 and j < .4 else a

        def go():
            if op in ('rows', 'cols'):
                setattr(d, op, e['v'])
                setattr(self, op, e['v'])
                if self.buf['k'] == 'mask':
                    self.buf = {'k': 'none'}
                    d.panel_buffer = None
                return {}
            if op == 'pitch':
                self.pr, self.pc = rng.choice(PITCH), rng.choice(PITCH)
                d.pixel_size_row, d.pixel_size_col = self.pr, self.pc
                d.panel_buffer = self.buffer(self.buf)
                return {}
            if op == 'buf':
                self.buf = e['buf']
                d.panel_buffer = self.buffer(self.buf)
                return {}
            if op == 'roi':
                d.roi = (tuple(e['at']) if rng.random() < .5 else np.array(e['at'])) if e['at'] else None
                return {}
            if op == 'geo':
                ys = lambda a: [ival(v, 16 / self.pr) for v in np.asarray(a).ravel()]
                xs = lambda a: [ival(v, 16 / self.pc) for v in np.asarray(a).ravel()]
                pt = lambda p: [ival(p[0], 16 / self.pc), ival(p[1], 16 / self.pr)]
                g = np.array(d.pixel_coords)
                roi = d.roi
                v = {'shape': [int(k) for k in d.shape], 'ul': pt(d.corner_ul), 'll': pt(d.corner_ll), 'lr': pt(d.corner_lr), 'ur': pt(d.corner_ur),
                     'dims': ys(d.row_dim) + xs(d.col_dim), 'rpv': ys(d.row_pixel_vec), 'cpv': xs(d.col_pixel_vec), 'rev': ys(d.row_edge_vec), 'cev': xs(d.col_edge_vec),
                     'roi': [] if roi is None else [[int(a) for a in r] for r in roi]}
                grid = g.shape == (2, self.rows, self.cols) and np.array_equal(g[0], np.repeat(d.row_pixel_vec[:, None], self.cols, 1)) \
                    and np.array_equal(g[1], np.repeat(d.col_pixel_vec[None], self.rows, 0)) and d.pixel_area == self.pr * self.pc
                return {'v': v, 'grid': bool(grid)}
            if op == 'p2c':
                ij = np.array(e['ij'], float).reshape(-1, 2) / 16
                if np.array_equal(ij, np.floor(ij)) and rng.random() < .4:
                    ij = ij.astype(int)
                return {'v': self.unxy(d.pixelToCart(ij.tolist() if rng.random() < .2 else ij))}
            if op == 'c2p':
                r = d.cartToPixel(points(e['xy']), **({} if rng.random() < .5 else {'pixels': False}))
                return {'v': [[ival(a, 16) for a in p] for p in r]}
            if op == 'c2px':
                r = d.cartToPixel(points(e['xy']), pixels=True)
                assert r.dtype.kind == 'i'
                return {'v': [[int(a) for a in p] for p in r]}
            if op == 'clip':
                pts = points(e['xy'])
                keep = np.array(pts, copy=True)
                got, on = d.clip_to_panel(pts, **({} if e['edges'] and rng.random() < .5 else {'buffer_edges': e['edges']}))
                assert np.array_equal(keep, np.array(pts)) and on.dtype == bool and len(got) == int(on.sum())
                where = [k + 1 for k in np.nonzero(on)[0].tolist()]
                return {'on': [bool(b) for b in on], 'xy': [p + [k] for p, k in zip(self.unxy(got), where)]}
            if op == 'as2d':
                from hexrd.core.utils.panel_buffer import panel_buffer_as_2d_array
                r = panel_buffer_as_2d_array(d)
                assert r.dtype == bool
                return {'v': [[bool(b) for b in row] for row in r]}
            if op == 'tiles':
                from hexrd.core.instrument.hedm_instrument import generate_chunks
                gap = {} if e['gap'] == [0, 0] and rng.random() < .5 else {'row_gap': e['gap'][0], 'col_gap': e['gap'][1]}
                rects, labels = generate_chunks(e['n'][0], e['n'][1], e['base'][0], e['base'][1], **gap)
                return {'v': [[[int(a) for a in r] for r in q] for q in rects], 'labels': labels == [f'{i}_{j}' for i in range(e['n'][0]) for j in range(e['n'][1])]}
            if op == 'chunk':
                return self.chunk(e)
        k, v = outcome(go)
        return dict(e, obs=dict(v, k='v') if k == 'ok' else {'k': 'err', 'e': v})

    def chunk(self, e):
        from hexrd.core.instrument.hedm_instrument import HEDMInstrument, chunk_instrument
        d, rng = self.d, self.rng
        d.saturation_level = d.saturation_level or 1000.
        instr = HEDMInstrument()
        old_roi = d.roi
        if old_roi is not None:
            d.roi = None        # (a region of a region is not claimed)
        instr._detectors = {'p': d}
        before = (d.rows, d.cols, d.tvec.copy(), d.tilt.copy(), repr(d.panel_buffer))
        rects = [np.array(r) for r in e['rects']]
        labels = [f'L{i}' for i in range(len(rects))]
        cfg = chunk_instrument(instr, rects, labels, **({} if not e['roi'] and rng.random() < .5 else {'use_roi': e['roi']}))
        sub = HEDMInstrument(cfg)
        same = before[:2] == (d.rows, d.cols) and np.array_equal(before[2], d.tvec) and np.array_equal(before[3], d.tilt) and before[4] == repr(d.panel_buffer)
        same = same and list(sub.detectors) == ['p_' + l for l in labels]
        out = []
        for r, l in zip(rects, labels):
            q = sub.detectors['p_' + l]
            same = same and q.pixel_size_row == self.pr and q.pixel_size_col == self.pc and np.allclose(q.rmat, d.rmat, atol=1e-12)
            at = []
            for i, j in ((0, 0), (q.rows - 1, 0), (q.rows - 1, q.cols - 1), (0, q.cols - 1)):
                p = np.append(q.pixelToCart([[i, j]])[0], 0.)
                lab = q.rmat @ p + q.tvec
                local = d.rmat.T @ (lab - d.tvec)
                same = same and abs(local[2]) < 1e-9
                at.append([rval(local[0], 16 / self.pc, 1e-7), rval(local[1], 16 / self.pr, 1e-7)])
            out.append({'st': {'rows': int(q.rows), 'cols': int(q.cols), 'buf': self.enc_buf(q.panel_buffer, q)}, 'at': at,
                        'roi': [] if q.roi is None else [[int(a) for a in x] for x in q.roi]})
        if old_roi is not None:
            d.roi = (old_roi[0][0], old_roi[1][0])
        return {'v': out, 'same': bool(same)}


def rbuf(rng, rows, cols):
    j = rng.random()
    if j < .2:
        return {'k': 'none'}
    if j < .65:
        x = rng.choice([0, 3, 8, 16, 20, 24, 8 * cols, 16 * cols])
        return {'k': 'edge', 'x': x, 'y': x if rng.random() < .2 else rng.choice([0, 5, 8, 16, 17, 24, 40, 8 * rows])}
    return {'k': 'mask', 'm': [[rng.random() < .6 for _ in range(cols)] for _ in range(rows)]}


def coord(rng, n, b=0):
    h = 8 * n
    j = rng.random()
    if j < .45:
        return rng.choice([-1, 1]) * (h - b) + rng.choice([0, 0, 1, -1])
    if j < .55:
        return rng.choice([-1, 1]) * h + rng.choice([0, 1, -1, 8, -8])
    return rng.randint(-h - 20, h + 20) if j < .9 else 16 * rng.randint(-n, n) + rng.choice([0, 8])


def random_beh(rng):
    rows, cols = rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 3, 4, 7])
    s = {'rows': rows, 'cols': cols, 'buf': rbuf(rng, rows, cols)}
    hdr = dict(s, roi=[] if rng.random() < .6 else [rng.randint(0, 30), rng.randint(0, 30)])
    ev = []
    for _ in range(rng.randint(3, 9)):
        b = s['buf']
        bx, by = (b['x'], b['y']) if b['k'] == 'edge' else (0, 0)
        pts = lambda: [[coord(rng, s['cols'], bx), coord(rng, s['rows'], by)] for _ in range(rng.choice([1, 4, 15]))]
        op = rng.choice(['geo', 'p2c', 'c2p', 'c2px', 'clip', 'clip', 'clip', 'as2d', 'tiles', 'chunk', 'chunk', 'rows', 'cols', 'buf', 'buf', 'roi', 'pitch'])
        e = {'op': op}
        if op in ('rows', 'cols'):
            e['v'] = rng.choice([1, 2, 3, 4, 6, 9])
            s[op] = e['v']
            if b['k'] == 'mask':
                s['buf'] = {'k': 'none'}
        elif op == 'buf':
            e['buf'] = s['buf'] = rbuf(rng, s['rows'], s['cols'])
        elif op == 'roi':
            e['at'] = [] if rng.random() < .3 else [rng.randint(0, 30), rng.randint(0, 30)]
        elif op == 'p2c':
            e['ij'] = [[rng.choice([16 * rng.randint(-1, s['rows']), rng.randint(-30, 16 * s['rows'] + 20)]), rng.choice([16 * rng.randint(-1, s['cols']), rng.randint(-30, 16 * s['cols'] + 20)])] for _ in range(rng.choice([1, 5]))]
        elif op in ('c2p', 'c2px', 'clip'):
            e['xy'] = pts()
            if op == 'clip':
                e['edges'] = rng.random() < .75
        elif op == 'tiles':
            e.update(n=[rng.randint(1, 4), rng.randint(1, 4)], base=[rng.randint(1, 6), rng.randint(1, 6)], gap=[0, 0] if rng.random() < .5 else [rng.randint(0, 4), rng.randint(0, 4)])
        elif op == 'chunk':
            def part(n):
                a = rng.randint(0, n - 1)
                return [a, rng.randint(a + 1, n)]
            e.update(rects=[[part(s['rows']), part(s['cols'])] for _ in range(rng.choice([1, 2, 4]))], roi=rng.random() < .4)
        ev.append(e)
    return {'hdr': hdr, 'ev': ev}


def named_beh(rng, stock):
    """a buffer known by name is the part of the stored one that the panel's region covers"""
    name = rng.choice(sorted(stock))
    a = stock[name]
    r, c = np.nonzero(a[:-1, :-1] != a[1:, 1:])
    k = rng.randrange(len(r))
    rows, cols = rng.choice([2, 5, 9]), rng.choice([3, 4, 8])
    r0, c0 = max(0, min(int(r[k]) - rows // 2, a.shape[0] - rows)), max(0, min(int(c[k]) - cols // 2, a.shape[1] - cols))
    hdr = {'rows': rows, 'cols': cols, 'buf': {'k': 'mask', 'm': a[r0:r0 + rows, c0:c0 + cols].astype(bool).tolist()}, 'roi': [r0, c0], 'named': name}
    pts = [[coord(rng, cols), coord(rng, rows)] for _ in range(20)]
    return {'hdr': hdr, 'ev': [{'op': 'as2d'}, {'op': 'clip', 'xy': pts, 'edges': True}, {'op': 'clip', 'xy': pts, 'edges': False}, {'op': 'geo'}, {'op': 'as2d'}]}


def body(c):
    rng = c.rng
    import glob
    import os
    import hexrd.core.resources.panel_buffers as pb
    stock = {}
    for f in glob.glob(os.path.join(list(pb.__path__)[0], '*.npz')):
        with np.load(f) as z:
            stock[os.path.basename(f)[:-4]] = z['panel_buffer']
    behs = c.generate('Panel', 2)
    c.cov['model_behaviours'] = len(behs)
    if c.quick and len(behs) > 1500:
        behs = rng.sample(behs, 1500)
    behs += [random_beh(rng) for _ in range(900 if c.quick else 40000)]
    behs += [named_beh(rng, stock) for _ in range(40 if c.quick else 600)] if stock else []
    traces = []
    for b in behs:
        p = Panel(b['hdr'], rng)
        traces.append({'hdr': b['hdr'], 'ev': [p.event(e) for e in b['ev']], 'replay': {'pitch': [p.pr, p.pc]}})
    c.judge('Panel', traces)


vf.main('C12', body)
