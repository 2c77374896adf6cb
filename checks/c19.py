"""C19: reading images at points of a panel (spec PanelRead)."""
import math
import numpy as np
import vf
from vf import outcome, ival, rval, NONINT
vf_main, vf.main = vf.main, lambda *a: None
import c12                                              # noqa: the panel of C12
vf.main = vf_main
Panel, rbuf, coord = c12.Panel, c12.rbuf, c12.coord


def val(x):
    x = float(x)
    return {'t': 'fill'} if math.isnan(x) else {'t': 'n', 'v': rval(x, 256, 1e-10)}


class Reader(Panel):
    def __init__(self, h, rng):
        super().__init__(dict(h, roi=[]), rng)
        self.h = h

    def image(self):
        j = self.rng.random()
        a = np.array(self.h['img'])
        dt = [float, float, np.float32, np.uint16, np.int32, np.uint8, int][int(j * 7)]
        if a.max() > 250:
            dt = [float, np.int32, int, np.uint32][int(j * 4)]
        a = a.astype(dt)
        if self.rng.random() < .2:
            a = np.asfortranarray(a)
        a.flags.writeable = self.rng.random() < .8
        return a

    def event(self, e):
        op, d, rng = e['op'], self.d, self.rng

        def go():
            if op in ('bil', 'near'):
                img = self.image()
                pts = self.xy(e['xy'])
                keep = pts.copy()
                fn = d.interpolate_bilinear if op == 'bil' else d.interpolate_nearest
                r = fn(pts, img, **({} if e['nan'] and rng.random() < .5 else {'pad_with_nans': e['nan']}))
                assert np.array_equal(keep, pts) and len(r) == len(pts)
                return {'v': [val(x) for x in r]}
            if op == 'crop':
                return self.crop(e)
            if op == 'patch':
                return self.patch(e)
        k, v = outcome(go)
        return dict(e, obs=dict(v, k='v') if k == 'ok' else {'k': 'err', 'e': v})

    def crop(self, e):
        from hexrd.core.instrument.hedm_instrument import _parse_imgser_dict
        from hexrd.core import imageseries
        from hexrd.core.imageseries.omega import OmegaImageSeries
        rng = self.rng
        ims = {}
        for k in e['keys']:
            a = np.array(e['imgs'][k], dtype=rng.choice([np.uint16, np.float64, np.int32]))
            how = e['how'][k]
            if how == 'flat':
                ims[k] = a[0]
            elif how == 'stack':
                ims[k] = a
            else:
                meta = {}
                if how == 'omega':
                    meta = {'omega': np.array([[i, i + 1.] for i in range(len(a))])}
                s = imageseries.open(None, 'array', data=a, meta=meta)
                ims[k] = OmegaImageSeries(s) if how == 'omega' else s
        roi = None if not e['roi'] else (tuple(map(tuple, e['roi'])) if rng.random() < .5 else np.array(e['roi']))
        kw = {'roi': roi}
        if e['group'] or rng.random() < .5:
            kw['group'] = e['group'] or None
        r = _parse_imgser_dict(ims, 'det', **kw)
        if isinstance(r, np.ndarray):
            r = r if r.ndim == 3 else r[None]
        else:
            if any(isinstance(x, OmegaImageSeries) for x in ims.values()):
                assert isinstance(r, OmegaImageSeries)
                assert np.array_equal(r.omega, np.array([[i, i + 1.] for i in range(len(r))]))
            r = [r[i] for i in range(len(r))]
        return {'v': [[[ival(x) for x in row] for row in f] for f in r]}

    def patch(self, e):
        from hexrd.hedm.xrdutil import make_reflection_patches
        d, rng = self.d, self.rng
        d.saturation_level = 1000.
        if d.tvec[0] > 50:
            d.tvec = [rng.choice([3.5, -40.]), d.tvec[1], -1000.]
        if abs(d.tilt[0]) > 1:      # (patches past the horizon of the panel have no positions)
            d.tilt = [rng.choice([.5, -.4]), d.tilt[1], d.tilt[2]]
        xy = self.xy(e['xy'])
        ang, _ = d.cart_to_angles(xy)
        cfg = d.config_dict(style=rng.choice(['yaml', 'hdf5']), **({} if rng.random() < .5 else {'chi': rng.choice([0., .1])}))
        cfg['oscillation_stage'] = cfg.get('oscillation_stage') or {'chi': 0., 'translation': np.zeros(3)}
        px = d.angularPixelSize(xy)
        # between two and a dozen pixels wide
        tol = np.degrees(px.mean(axis=0)) * rng.choice([2., 3.3, 7.1, 12.])
        out = []
        back = True
        for vtx, vxy, conn, areas, ev, ij in make_reflection_patches(cfg, ang, px, omega=None if rng.random() < .5 else np.zeros(len(ang)), tth_tol=tol[0], eta_tol=tol[1], npdiv=rng.choice([1, 2])):
            x, y = np.asarray(ev[0]).ravel(), np.asarray(ev[1]).ravel()
            cen = 0.25 * (vtx[0][1:, 1:] + vtx[0][:-1, 1:] + vtx[0][1:, :-1] + vtx[0][:-1, :-1]).ravel(), 0.25 * (vtx[1][1:, 1:] + vtx[1][:-1, 1:] + vtx[1][1:, :-1] + vtx[1][:-1, :-1]).ravel()
            ok = np.isfinite(x) & np.isfinite(y)
            far = ok & (cen[0] > 1e-4) & (cen[0] < np.pi / 2)
            if cfg['oscillation_stage']['chi'] == 0 and far.any():
                a, _ = d.cart_to_angles(np.vstack([x, y]).T[far])
                dt, de = a[:, 0] - cen[0][far], (a[:, 1] - cen[1][far] + np.pi) % (2 * np.pi) - np.pi
                # the direction is ill defined near the beam
                back = back and np.abs(dt).max() < 1e-7 and (np.abs(de) * np.sin(a[:, 0])).max() < 1e-7
            assert areas.shape == ij[0].shape == ij[1].shape
            for k in np.nonzero(ok)[0]:
                fx, fy = x[k] * 16 / self.pc, y[k] * 16 / self.pr
                if abs(fx) < 1e6 and abs(fy) < 1e6:
                    out.append([math.floor(fx), math.floor(fy), int(max(min(ij[0].ravel()[k], 10 ** 6), -10 ** 6)), int(max(min(ij[1].ravel()[k], 10 ** 6), -10 ** 6))])
        if len(out) > 150:
            out = rng.sample(out, 150)
        return {'v': out, 'back': bool(back)}


def rimg(rng, rows, cols, top=250):
    return [[rng.choice([0, rng.randint(0, top)]) for _ in range(cols)] for _ in range(rows)]


def random_beh(rng):
    rows, cols = rng.choice([2, 3, 5, 9]), rng.choice([2, 3, 4, 7])
    s = {'rows': rows, 'cols': cols, 'buf': rbuf(rng, rows, cols) if rng.random() < .6 else {'k': 'none'}, 'img': rimg(rng, rows, cols, rng.choice([250, 250, 4000000]))}
    ev = []
    for _ in range(rng.randint(2, 5)):
        b = s['buf']
        bx, by = (b['x'], b['y']) if b['k'] == 'edge' else (0, 0)
        pts = [[coord(rng, cols, bx), coord(rng, rows, by)] for _ in range(rng.choice([1, 6, 25]))]
        op = rng.choice(['bil', 'bil', 'near', 'near', 'patch', 'crop'])
        e = {'op': op}
        if op in ('bil', 'near'):
            if rng.random() < .5:      # mostly on the panel
                pts = [[rng.randint(-8 * cols, 8 * cols), rng.randint(-8 * rows, 8 * rows)] for _ in range(20)]
            e.update(xy=pts, nan=rng.random() < .6)
        elif op == 'patch':
            e['xy'] = [[rng.randint(-8 * cols, 8 * cols) + .5, rng.randint(-8 * rows, 8 * rows) + .5] for _ in range(1)]
        else:
            keys = rng.sample(['det', 'SHARED-IMAGES', 'my-det-a', 'det2', 'grp', 'other'], rng.randint(1, 4))
            R, C = rng.randint(2, 5), rng.randint(2, 6)
            how = {k: rng.choice(['flat', 'stack', 'series']) for k in keys} if rng.random() < .7 else {k: 'omega' for k in keys}
            imgs = {k: [rimg(rng, R, C, 60000 // 250) for _ in range(1 if how[k] == 'flat' else rng.randint(1, 4))] for k in keys}
            r0, c0 = rng.randint(0, R - 1), rng.randint(0, C - 1)
            e.update(keys=keys, how=how, imgs=imgs, shared='SHARED-IMAGES', like=['my-det-a', 'det2', 'det'], group=rng.choice(['', 'grp', 'other', 'gone']),
                     roi=[] if rng.random() < .15 else [[r0, rng.randint(r0 + 1, R)], [c0, rng.randint(c0 + 1, C)]])
        ev.append(e)
    return {'hdr': s, 'ev': ev}


def strip(e):
    """patches are asked for at half units: the model need not know the request"""
    return {k: v for k, v in e.items() if not (e['op'] == 'patch' and k == 'xy')}


def body(c):
    rng = c.rng
    behs = c.generate('PanelRead', 1)
    c.cov['model_behaviours'] = len(behs)
    behs = [{'hdr': {k: b['hdr'][k] for k in ('rows', 'cols', 'buf', 'img')}, 'ev': b['ev']} for b in behs for _ in range(3)]
    behs += [random_beh(rng) for _ in range(700 if c.quick else 30000)]
    traces = []
    for b in behs:
        p = Reader(b['hdr'], rng)
        traces.append({'hdr': b['hdr'], 'ev': [strip(p.event(e)) for e in b['ev']], 'replay': {'pitch': [p.pr, p.pc], 'tilt': p.d.tilt.tolist(), 'tvec': p.d.tvec.tolist()}})
    c.judge('PanelRead', traces)


vf.main('C19', body)
