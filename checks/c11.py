"""C11: an instrument, its panels and its descriptions agree (spec Instr)."""
import copy
import math
import os
import numpy as np
import vf
from vf import outcome, rval

NAMES = [['a', 'b', 'c'], ['Det-1', 'det_2', 'ge 3'], ['1', '12', '2'], ['GE1', 'GE10', 'x.y']]
BNAMES = [['XRS1', 'XRS2', 'XRS3'], ['XRS1', 'b-1', 'b_2'], ['XRS1', 'beam', 'no']]
GROUPS = ['', 'g-1', 'h', 'h2']
NAMED = 'ROI'


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def vec(az, po):
    t, p = math.radians(az), math.radians(po)
    return -np.array([math.sin(p) * math.cos(t), math.cos(p), math.sin(p) * math.sin(t)])


def direction(v):
    v = -np.asarray(v, float)
    po = math.degrees(math.acos(max(-1., min(1., v[1]))))
    po = rval(po, 1, 1e-5) if abs(v[1]) > .9999 else rval(po, 1, 1e-8)
    az = 0 if po in (0, 180) else rval(math.degrees(math.atan2(v[2], v[0])), 1, 1e-7)
    return {'az': 180 if az == -180 else az, 'po': po}


class Sut:
    def __init__(self, h, rng, tmp):
        self.rng, self.tmp, self.n = rng, tmp, 0
        self.names, self.bn = rng.choice(NAMES), rng.choice(BNAMES)
        self.npy = rng.random() < .5
        self.u = rng.choice([.5, .125, 1.])
        self.masks = {}
        self.written = []
        self.ctx = []
        cfg = self.config(h)
        self.cfg, self.cfg0 = cfg, copy.deepcopy(cfg)
        kw = {}
        if h['eta'] != [1, 0, 0] or rng.random() < .5:
            kw['eta_vector'] = np.array(h['eta'], float)
        if h['act'] != -1:
            kw['active_beam_name'] = self.bn[h['act']]
        self.build(cfg, kw)

    def build(self, cfg, kw):
        from hexrd.core.instrument import HEDMInstrument
        i = HEDMInstrument(cfg, **kw)
        if 'eta_vector' in kw:
            kw['eta_vector'][:] = .5
        self.instr = i
        self.ctx = []

    def tiny(self):
        """a change too small for the model, but not for exact comparisons"""
        return self.rng.choice([0., 0., 1e-9, -3e-10, 2e-13])

    def held(self):
        i = self.instr
        h = [i.beam_vector, i.eta_vector, i.tvec] + [b['vector'] for b in i.beam_dict.values()]
        for d in i.detectors.values():
            h += [d.bvec, d.evec, d.tvec, d.tilt]
        return [(x, np.array(x)) for x in h]

    def arr(self, x):
        return np.array(x) if self.npy else list(x)

    def mask(self, m, shape):
        k = (m,) + tuple(shape)
        if k not in self.masks:
            r = np.random.default_rng(m)
            a = r.random(shape) < .5
            a[0, 0] = True
            self.masks[k] = a
        return self.masks[k].copy()

    def corr(self, c):
        return None if not c else {'intercept': c[0] / 1000, 'slope': c[1] / 1000, 'axis': 'xy'[c[2]]}

    def buf(self, b, shape):
        if not b:
            return None
        if b[0] == 1:
            x = [v * self.u for v in b[1:]]
            if x[0] == x[1] and self.rng.random() < .5:
                return x[0]
            return self.arr(x)
        return self.mask(b[1], shape) if b[0] == 2 else NAMED

    def dist(self, p):
        from hexrd.core.distortion import get_mapping
        return None if not p else get_mapping('GE_41RT', [x / 1000 for x in p])

    def config(self, h):
        rng = self.rng
        beams = {}
        for b in h['beams']:
            d = {'energy': b['e'] / 1000, 'vector': {'azimuth': float(b['az']), 'polar_angle': float(b['po'])}}
            if b['d']:
                d['source_distance'] = b['d'] * self.u
            elif rng.random() < .3:
                d['source_distance'] = np.inf
            if b['corr']:
                d['energy_correction'] = self.corr(b['corr'])
            beams[self.bn[b['n']]] = d
        if len(beams) == 1 and (h['beams'][0]['n'] == 0 or h['act'] == h['beams'][0]['n']) and rng.random() < .7:
            beams = next(iter(beams.values()))
        dets = {}
        for d in h['dets']:
            x = {'transform': {'tilt': self.arr([v / 8 for v in d['tilt']]), 'translation': self.arr([v * self.u for v in d['t']])},
                 'pixels': {'rows': d['rows'], 'columns': d['cols'], 'size': self.arr([v / 4 for v in d['px']])}}
            if d['sat'] != 65536 or rng.random() < .5:
                x['saturation_level'] = None if d['sat'] < 0 else d['sat']
            if d['g']:
                x['group'] = GROUPS[d['g']]
            if d['type'] or rng.random() < .3:
                x['detector_type'] = ['planar', 'cylindrical'][d['type']]
            if d['type']:
                x['radius'] = d['rad'] * self.u
            if d['buf'] or rng.random() < .3:
                x['buffer'] = self.buf(d['buf'], (d['rows'], d['cols']))
            if d['roi']:
                x['pixels']['roi'] = self.arr(d['roi'])
            if d['dist']:
                x['distortion'] = {'function_name': 'GE_41RT', 'parameters': self.arr([v / 1000 for v in d['dist']])}
            dets[self.names[d['n'] - 1]] = x
        return {'id': 'id%d' % h['id'], 'beam': beams, 'oscillation_stage': {'chi': math.radians(h['chi']), 'translation': self.arr([v * self.u for v in h['tv']])}, 'detectors': dets}

    # --- looking
    def bufv(self, b, shape):
        if b is None:
            return []
        if isinstance(b, str):
            return [3] if b == NAMED else [-9]
        b = np.asarray(b)
        if b.ndim == 2:
            for (m, *sh), a in self.masks.items():
                if tuple(sh) == b.shape == tuple(shape) and np.array_equal(a, b):
                    return [2, m]
            return [-9]
        return [1] + [rval(x, 1 / self.u) for x in b]

    def beamv(self, n, b, vec_of, d):
        c = b.get('energy_correction')
        if c is not None and (sorted(c) != ['axis', 'intercept', 'slope'] or c['axis'] not in ('x', 'y')):
            c = {'intercept': math.nan, 'slope': 0, 'axis': 'x'}
        return dict(direction(vec_of(b)), n=n, e=rval(b['energy'], 1000), d=0 if d == np.inf else rval(d, 1 / self.u), corr=[] if c is None else [rval(c['intercept'], 1000), rval(c['slope'], 1000), 'xy'.index(c['axis'])])

    def detv(self, name, type_, rad, tilt, t, rows, cols, px, sat, buf, roi, dist, g):
        return {'n': self.names.index(name) + 1, 'g': GROUPS.index(g or ''), 'type': ['planar', 'cylindrical'].index(type_), 'rad': rval(rad, 1 / self.u), 'tilt': [rval(x, 8) for x in tilt],
                't': [rval(x, 1 / self.u) for x in t], 'rows': int(rows), 'cols': int(cols), 'px': [rval(x, 4) for x in px], 'sat': -1 if sat is None else rval(sat, 1), 'buf': self.bufv(buf, (rows, cols)),
                'roi': [] if roi is None else [rval(x, 1) for x in roi], 'dist': [rval(x, 1000) for x in dist]}

    def seen(self):
        from hexrd.core import constants as ct
        i = self.instr
        beams = sorted((self.beamv(self.bn.index(n), b, lambda b: b['vector'], b['distance']) for n, b in i.beam_dict.items()), key=lambda b: b['n'])
        dets, pan = [], []
        for n in sorted(i.detectors):
            d = i.detectors[n]
            assert d.name == n
            roi = d.roi
            if roi is not None:
                assert [r[1] - r[0] for r in roi] == [d.rows, d.cols]
                roi = [r[0] for r in roi]
            dets.append(self.detv(n, d.detector_type, d.radius if d.detector_type == 'cylindrical' else 0, d.tilt, d.tvec, d.rows, d.cols, (d.pixel_size_row, d.pixel_size_col), d.saturation_level, d.panel_buffer, roi,
                                  [] if d.distortion is None else d.distortion.params, d.group))
            pan.append(dict(direction(d.bvec), d=0 if d.xrs_dist in (None, np.inf) else rval(d.xrs_dist, 1 / self.u), eta=[rval(x, 1) for x in d.evec]))
        assert i.num_panels == len(dets) and sorted(i.beam_names) == sorted(i.beam_dict)
        assert abs(i.beam_wavelength - ct.keVToAngstrom(i.beam_energy)) < 1e-12 and i.xrs_beam_energy(None) == i.beam_energy
        assert all(i.xrs_beam_energy(n) == b['energy'] for n, b in i.beam_dict.items())
        nd = len(dets)
        groups = []
        for g in sorted(i.detector_groups, key=GROUPS.index):
            m = i.detectors_in_group(g)
            groups.append({'g': GROUPS.index(g), 'n': sorted(self.names.index(x) + 1 for x in m), 'sum': [rval(x, len(m) / self.u) for x in i.mean_group_center(g)]})
        now = self.beamv(0, {'energy': i.beam_energy, 'energy_correction': i.energy_correction}, lambda b: i.beam_vector, i.source_distance)
        del now['n']
        now['multi'] = bool(i.has_multi_beam)
        dp = i.detector_parameters
        for n, d in i.detectors.items():
            assert np.array_equal(dp[n]['oscillation_stage']['translation'], i.tvec) and dp[n]['oscillation_stage']['chi'] == i.chi
            assert dp[n]['beam']['energy'] == i.beam_energy and np.array_equal(dp[n]['beam']['vector'], i.beam_vector)
        # the panels see exactly what the instrument holds
        for d in i.detectors.values():
            assert np.array_equal(d.bvec, i.beam_vector) and np.array_equal(d.evec, i.eta_vector) and d.xrs_dist == i.source_distance
        kept = same(self.cfg, self.cfg0) and all(same(a, b) for a, b in self.written)
        return {'id': int(i.id[2:]), 'beams': beams, 'act': self.bn.index(i.active_beam_name), 'eta': [rval(x, 1) for x in i.eta_vector], 'chi': rval(math.degrees(i.chi), 1, 1e-9), 'tv': [rval(x, 1 / self.u) for x in i.tvec],
                'dets': dets, 'pan': pan, 'now': now, 'groups': groups, 'sum': [rval(x, nd / self.u) for x in i.mean_detector_center], 'kept': bool(kept)}

    def described(self, d):
        b = d['beam']
        v = lambda x: vec(x['vector']['azimuth'], x['vector']['polar_angle'])
        one = lambda n, x: self.beamv(n, x, v, x.get('source_distance', np.inf))
        beams = [one(0, b)] if 'energy' in b else sorted((one(self.bn.index(n), x) for n, x in b.items()), key=lambda x: x['n'])
        dets = []
        for n in sorted(d['detectors']):
            x = d['detectors'][n]
            ds = x.get('distortion')
            if ds is not None:
                assert ds['function_name'] == 'GE_41RT'
            p = x['pixels']
            dets.append(self.detv(n, x['detector_type'], x.get('radius', 0), x['transform']['tilt'], x['transform']['translation'], p['rows'], p['columns'], p['size'], x['saturation_level'], x['buffer'], p.get('roi'), [] if ds is None else ds['parameters'], x.get('group')))
        return {'id': int(d['id'][2:]), 'chi': rval(math.degrees(d['oscillation_stage']['chi']), 1, 1e-9), 'tv': [rval(x, 1 / self.u) for x in d['oscillation_stage']['translation']], 'dets': dets, 'beams': beams}

    def keep(self, d):
        self.written.append((d, copy.deepcopy(d)))

    def path(self, ext):
        self.n += 1
        return os.path.join(self.tmp, f'i{os.getpid()}-{self.n}{ext}')

    def write(self, style, file=None):
        rng = self.rng
        kw = {'style': style if rng.random() < .8 else style.upper()}
        if rng.random() < .2:
            kw['calibration_dict'] = {'grain': 3}
            self.keep(kw['calibration_dict'])
        d = self.instr.write_config(file, **kw) if file is not None else self.instr.write_config(**kw)
        self.keep(d)
        return d

    def event(self, e):
        from hexrd.core.instrument.hedm_instrument import switch_xray_source, GrainDataWriter_h5
        import h5py
        import yaml
        op, rng, out = e['op'], self.rng, {}

        def setbeam(b, f, v):      # the dictionary of beams itself
            if f == 'e':
                b['energy'] = v[0] / 1000
            elif f == 'dir':
                b['vector'] = vec(*v)
            elif f == 'd':
                b['distance'] = v[0] * self.u if v[0] else np.inf
            else:
                b['energy_correction'] = self.corr(v)

        def go():
            i = self.instr
            if op == 'beam':
                f, v = e['f'], e['v']
                if f == 'e':
                    i.beam_energy = v[0] / 1000
                elif f == 'dir':
                    x = vec(v[0] + self.tiny(), v[1] + self.tiny())
                    exact = abs(np.linalg.norm(x) - 1) <= np.finfo(float).eps
                    y = rng.choice([x, x.tolist(), x.reshape(3, 1)]) if exact and rng.random() < .6 else self.arr([v[0] + self.tiny(), float(v[1])])
                    i.beam_vector = y
                    if isinstance(y, np.ndarray):
                        y[:] = .5
                elif f == 'd':
                    x = v[0] * self.u if v[0] else np.inf
                    i.source_distance = np.float64(x) if self.npy else x
                else:
                    x = self.corr(v)
                    if x is not None:
                        self.keep(x)
                    i.energy_correction = x
            elif op == 'mod':
                setbeam(i.beam_dict[self.bn[e['n']]], e['f'], e['v'])
                i.beam_dict_modified()
            elif op == 'active':
                i.active_beam_name = self.bn[e['n']]
            elif op == 'enter':
                cm = switch_xray_source(i, None if e['n'] == -1 else self.bn[e['n']])
                cm.__enter__()
                self.ctx.append(cm)
            elif op == 'leave':
                if self.ctx:
                    cm = self.ctx.pop()
                    if e['exc']:
                        x = ValueError('body')
                        assert not cm.__exit__(ValueError, x, None)
                    else:
                        cm.__exit__(None, None, None)
            elif op == 'eta':
                v = np.array(e['v'], float)
                i.eta_vector = v if self.npy else e['v']
                v[:] = .5
            elif op == 'chi':
                i.chi = math.radians(e['v'][0])
            elif op == 'tv':
                v = np.array([x * self.u for x in e['v']])
                i.tvec = v
                v[:] = 9e9
            elif op == 'det':
                d = list(i.detectors.values())[e['k'] - 1]
                f, v = e['f'], e['v']
                if f == 't':
                    x = np.array([x * self.u for x in v]) + self.tiny() / 100
                    d.tvec = x if self.npy else x.tolist()
                    x[:] = 7.
                elif f == 'tilt':
                    x = np.array([x / 8 for x in v]) + self.tiny() / 100
                    d.tilt = x if self.npy else x.tolist()
                    x[:] = 7.
                elif f == 'sat':
                    d.saturation_level = None if v[0] < 0 else v[0]
                elif f == 'buf':
                    d.panel_buffer = self.buf(v, d.shape)
                elif f == 'roi':
                    d.roi = v if v else None
                elif f == 'dist':
                    d.distortion = self.dist(v)
                elif f == 'g':
                    d.group = GROUPS[v[0]] or None
                elif f == 'px':
                    d.pixel_size_row, d.pixel_size_col = [x / 4 for x in v]
            elif op == 'slope':
                if not all(n.replace('-', '_').isidentifier() for n in self.names) or 'no' in self.bn or rng.random() < .3:
                    c = i.beam_dict[self.bn[e['n']]]['energy_correction']
                    if c is not None:
                        c['slope'] = e['v'][0] / 1000
                    return
                import lmfit
                from hexrd.core.fitting.calibration.lmfit_param_handling import create_instr_params, update_instrument_from_params
                p = lmfit.Parameters()
                p.add_many(*create_instr_params(i))
                n = ((self.bn[e['n']] + '_').replace('-', '_') if i.has_multi_beam else '') + 'beam_energy_correction_slope'
                if n in p:
                    p[n].min, p[n].max = -np.inf, np.inf
                    p[n].value = e['v'][0] / 1000
                    update_instrument_from_params(i, p)
            elif op == 'badDir':
                i.beam_vector = rng.choice([[0., 0., -1.5], [.6, .6, 0.], [0., 0., 0.], [1., 0., 0., 0.], [1.]])
            elif op == 'badEta':
                i.eta_vector = rng.choice([[0., 0., 1.5], [.6, .6, 0.], [0., 0., 0.], [1., 0., 0., 0.], [1., 0.]])
            elif op == 'badCorr':
                i.energy_correction = rng.choice([{}, {'intercept': 0., 'slope': 0.}, {'intercept': 0., 'slope': 0., 'axis': 'y', 'more': 1}])
            elif op == 'badTv':
                i.tvec = [1., 2.]
            elif op == 'badDist':
                i.source_distance = [1., 2.]
            elif op == 'badStyle':
                i.write_config(style='xml')
            elif op == 'write':
                if rng.random() < .5:
                    d = self.write(e['style'])
                else:
                    f = self.path('.yml' if e['style'] == 'yaml' else '.h5')
                    d = self.write(e['style'], f)
                    os.remove(f)
                out['d'] = self.described(d)
                os_ = d['oscillation_stage']
                assert os_['chi'] == i.chi and np.array_equal(os_['translation'], i.tvec)
                for n, x in i.detectors.items():       # to the last digit
                    t = d['detectors'][n]['transform']
                    assert np.array_equal(t['tilt'], x.tilt) and np.array_equal(t['translation'], x.tvec)
                if rng.random() < .2:     # an archive of grain data holds it as well
                    with h5py.File(self.path('.h5'), 'w', driver='core', backing_store=False) as f:
                        GrainDataWriter_h5(f, d, np.r_[0., 0., 0., 0., 0., 0., 1., 1., 1., 0., 0., 0.])
            elif op == 'rebuild':
                kw = {} if e['act'] == -1 else {'active_beam_name': self.bn[e['act']]}
                if e['eta'] != [1, 0, 0]:
                    kw['eta_vector'] = np.array(e['eta'], float)
                if not e['file']:
                    d = self.write(e['style'])
                    self.build(d, kw)
                elif e['style'] == 'yaml':
                    f = self.path('.yml')
                    self.write('yaml', f)
                    with open(f) as g:
                        d = yaml.safe_load(g)
                    os.remove(f)
                    self.keep(d)
                    self.build(d, kw)
                else:
                    f = self.path('.h5')
                    if rng.random() < .5:
                        self.write('hdf5', f)
                    else:
                        with h5py.File(f, 'w') as g:
                            self.write('hdf5', g)
                    with h5py.File(f, 'r') as g:
                        self.build(g, kw)
                    os.remove(f)
        held = self.held()
        k, v = outcome(go)
        # values read before are left alone (calibration moves the panels it is given in place)
        if k == 'ok' and op != 'slope' and not all(np.array_equal(x, y) for x, y in held):
            k, v = 'err', 'a value read before changed'
        k2, v2 = outcome(self.seen)
        obs = {'k': 'v' if k == 'ok' else 'err', 'v': v2}
        if k != 'ok':
            obs['e'] = str(v)
        if k2 != 'ok':
            obs = {'k': 'none', 'e': str(v2)}
        obs.update(out)
        return dict(e, obs=obs)


def random_beh(rng):
    ang = lambda: [rng.choice([-180, -90, 0, 90, 180, rng.randint(-400, 400)]), rng.choice([90, 90, 0, 180, rng.randint(1, 179), rng.randint(-200, 400)])]
    corr = lambda: [] if rng.random() < .4 else [rng.randint(-90, 90), rng.randint(-90, 90), rng.randint(0, 1)]
    tri = lambda m=9: [rng.randint(-m, m) for _ in range(3)]
    axis = lambda: rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]])

    def beam(n):
        a = ang()
        return {'n': n, 'e': rng.randint(5000, 90000), 'az': a[0], 'po': a[1], 'd': rng.choice([0, 0, rng.randint(1, 99)]), 'corr': corr()}

    buf = lambda: rng.choice([[], [1, rng.randint(0, 5), rng.randint(0, 5)], [1, 2, 2], [2, rng.randint(1, 3)], [3]])
    dist = lambda: [] if rng.random() < .6 else [rng.randint(-900, 900) for _ in range(6)]

    def det(n):
        ty = rng.random() < .2
        return {'n': n, 'g': rng.choice([0, 0, 1, 2, 3]), 'type': int(ty), 'rad': rng.randint(1, 90) if ty else 0, 'tilt': tri(12), 't': tri(99), 'rows': rng.randint(2, 6), 'cols': rng.randint(2, 6), 'px': [rng.randint(1, 4), rng.randint(1, 4)],
                'sat': rng.choice([-1, 65536, rng.randint(1, 9999)]), 'buf': buf(), 'roi': rng.choice([[], [rng.randint(0, 9), rng.randint(0, 9)]]), 'dist': dist()}
    bs = rng.sample([0, 1, 2], rng.choice([1, 1, 2, 3]))
    ds = rng.sample([1, 2, 3], rng.randint(1, 3))
    hdr = {'id': rng.randint(1, 5), 'beams': [beam(n) for n in bs], 'act': rng.choice([-1, -1] + bs), 'eta': axis(), 'chi': rng.randint(-90, 90), 'tv': tri(), 'dets': [det(n) for n in ds]}
    ev, depth = [], 0
    sole = len(bs) == 1
    names = list(bs)

    def bval(f):
        return {'e': [rng.randint(5000, 90000)], 'dir': ang(), 'd': [rng.choice([0, rng.randint(1, 99)])], 'corr': corr()}[f]
    for _ in range(rng.randint(4, 14)):
        op = rng.choice(['beam'] * 5 + ['mod', 'mod', 'active', 'active', 'enter', 'enter', 'leave', 'leave', 'leave', 'eta', 'chi', 'tv', 'det', 'det', 'det', 'slope', 'write', 'write', 'rebuild', 'rebuild', 'badDir', 'badEta', 'badCorr', 'badTv', 'badDist', 'badStyle'])
        e = {'op': op}
        if op in ('beam', 'mod'):
            e['f'] = rng.choice(['e', 'dir', 'dir', 'd', 'corr'])
            e['v'] = bval(e['f'])
        if op in ('mod', 'slope'):
            e['n'] = rng.choice(names)
        if op == 'active':
            e['n'] = rng.randint(0, 2)
        if op == 'enter':
            e['n'] = rng.randint(-1, 2)
            depth += e['n'] == -1 or e['n'] in names
        if op == 'leave':
            if depth == 0:
                continue
            depth -= 1
            e['exc'] = rng.random() < .5
        if op == 'eta':
            e['v'] = axis()
        if op in ('chi', 'slope'):
            e['v'] = [rng.randint(-90, 90)]
        if op == 'tv':
            e['v'] = tri()
        if op == 'det':
            e['k'] = rng.randint(1, len(ds))
            e['f'] = rng.choice(['t', 'tilt', 'sat', 'buf', 'roi', 'dist', 'g', 'px'])
            e['v'] = {'t': tri(99), 'tilt': tri(12), 'sat': [rng.choice([-1, rng.randint(1, 9999)])], 'buf': buf(), 'roi': [] if rng.random() < .3 else [rng.randint(0, 9), rng.randint(0, 9)], 'dist': dist(), 'g': [rng.randint(0, 3)], 'px': [rng.randint(1, 4), rng.randint(1, 4)]}[e['f']]
        if op == 'write':
            e['style'] = rng.choice(['yaml', 'hdf5'])
        if op == 'rebuild':
            e.update(style=rng.choice(['yaml', 'hdf5']), file=rng.random() < .7, act=rng.choice([-1, -1, 0, 1, 2]), eta=rng.choice([[1, 0, 0], axis()]))
            if sole or e['act'] == -1 or e['act'] in names:
                depth = 0
            if sole:
                names = [0 if e['act'] == -1 else e['act']]
        ev.append(e)
    return {'hdr': hdr, 'ev': ev}


def body(c):
    rng = c.rng
    behs = c.generate('Instr', 3 if not c.quick else 2)
    c.cov['model_behaviours'] = len(behs)
    cap = 1200 if c.quick else 20000
    if len(behs) > cap:
        behs = rng.sample(behs, cap)
    behs = [{'hdr': {k: b['hdr'][k] for k in ('id', 'beams', 'act', 'eta', 'chi', 'tv', 'dets')}, 'ev': b['ev']} for b in behs]
    behs += [random_beh(rng) for _ in range(1000 if c.quick else 20000)]
    traces = []
    for b in behs:
        s = Sut(b['hdr'], rng, c.tmp)
        traces.append({'hdr': b['hdr'], 'ev': [s.event(e) for e in b['ev']], 'replay': {'names': s.names, 'beams': s.bn, 'numpy': s.npy, 'unit': s.u}})
    c.judge('Instr', traces)


vf.main('C11', body)
