"""C10: calibration parameters and rigid-body constraints (spec Calib)."""
import itertools
import math
import numpy as np
from scipy.spatial.transform import Rotation
import vf
from vf import outcome, rval, NONINT

U = 7776
CONV = [None, ('xyz', True), ('zxz', False), {'axes_order': 'xyz', 'extrinsic': True}, {'axes_order': 'zxz', 'extrinsic': False}, 'default']
ANG = {None: ('expmap_x', 'expmap_y', 'expmap_z'), 'xyz': ('euler_x', 'euler_y', 'euler_z'), 'zxz': ('euler_z', 'euler_xp', 'euler_zpp')}
SG = {'cubic': 225, 'hexagonal': 194, 'trigonal': 166, 'tetragonal': 139, 'orthorhombic': 62, 'monoclinic': 14, 'triclinic': 2}


def octa():
    out = []
    for p in itertools.permutations(range(3)):
        for sg in itertools.product([1, -1], repeat=3):
            m = np.zeros((3, 3), int)
            for i in range(3):
                m[i, p[i]] = sg[i]
            if round(np.linalg.det(m)) == 1:
                out.append(m.tolist())
    return out


OCTA = octa()


def key(conv):
    if conv is None:
        return None
    if conv == 'default':
        return 'zxz'
    return conv['axes_order'] if isinstance(conv, dict) else conv[0]


def angles_of(M, conv):
    r = Rotation.from_matrix(M)
    k = key(conv)
    if k is None:
        return r.as_rotvec()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return r.as_euler('xyz' if k == 'xyz' else 'ZXZ', degrees=True)


def rmat_of(ang, conv):
    k = key(conv)
    ang = np.asarray(ang, float)
    return (Rotation.from_rotvec(ang) if k is None else Rotation.from_euler('xyz' if k == 'xyz' else 'ZXZ', ang, degrees=True)).as_matrix()


def imat(M):
    return [[rval(x, 1, 1e-6) for x in r] for r in M]


class Sut:
    def __init__(self, h, rng):
        from hexrd.core.instrument import HEDMInstrument
        self.rng, self.h = rng, h
        self.conv = rng.choice(CONV)
        self.u = rng.choice([1., .25, 8.])            # millimetres for each U
        self.mm = self.u / U
        dash = lambda p: p.replace('_', '-') if rng.random() < .5 else p
        self.names = [dash(d['p']) for d in h['dets']]
        self.Q = [Rotation.random(random_state=rng.randrange(10 ** 6)).as_matrix() if rng.random() < .5 else np.eye(3) for _ in h['dets']]
        self.gname = {}
        dets = {}
        ints = rng.random() < .4
        for d, n, Q in zip(h['dets'], self.names, self.Q):
            t = [x * self.mm for x in d['t']]
            if ints and all(x == int(x) for x in t):
                t = [int(x) for x in t]
            tilt = Rotation.from_matrix(np.array(d['R']) @ Q).as_rotvec().tolist()
            if ints and d['R'] == [[1, 0, 0], [0, 1, 0], [0, 0, 1]] and np.array_equal(Q, np.eye(3)):
                tilt = [0, 0, 0]
            dd = {'pixels': {'rows': 4, 'columns': 5, 'size': [.5, .25]}, 'transform': {'tilt': tilt, 'translation': t}, 'saturation_level': 1000}
            if d['group']:
                g = self.gname.setdefault(d['group'], dash(d['group']))
                dd['group'] = g
            if d['dist']:
                f = {6: rng.choice(['GE_41RT', 'Dexela_2923_quad']), 8: 'Dexela_2923'}[len(d['dist'])]
                dd['distortion'] = {'function_name': f, 'parameters': [x / 1000 for x in d['dist']]}
            if d['rad']:
                dd.update(detector_type='cylindrical', radius=d['rad'] * self.mm)
            dets[n] = dd
        self.bnames = [dash(b['p']) for b in h['beams']]
        beams = {}
        for b, n in zip(h['beams'], self.bnames):
            beams[n] = {'energy': b['e'] / 1000, 'vector': {'azimuth': float(b['az']), 'polar_angle': float(b['po'])}}
            if b['corr']:
                beams[n]['energy_correction'] = {'intercept': b['corr'][0] / 1000, 'slope': b['corr'][1] / 1000, 'axis': 'y'}
        cfg = {'beam': beams if len(beams) > 1 else next(iter(beams.values())), 'oscillation_stage': {'chi': math.radians(h['chi']), 'translation': [x * self.mm for x in h['tv']]}, 'detectors': dets}
        self.instr = HEDMInstrument(cfg)
        if len(beams) == 1:
            self.bnames = list(self.instr.beam_dict)
        self.con, self.ctype = None, 'none'

    # --- helpers
    def ckw(self):
        kw = {}
        if self.conv != 'default':
            kw['euler_convention'] = self.conv
        if self.con is not None or self.rng.random() < .5:
            kw['relative_constraints'] = self.con
        return kw

    def prefixes(self):
        if self.ctype == 'none':
            return [d['p'] for d in self.h['dets']]
        if self.ctype == 'system':
            return ['system']
        out = []
        for d in self.h['dets']:
            if d['group'] and d['group'] not in out:
                out.append(d['group'])
        return out

    def params(self):
        import lmfit
        from hexrd.core.fitting.calibration.lmfit_param_handling import create_instr_params, validate_params_list
        lst = create_instr_params(self.instr, **self.ckw())
        validate_params_list(lst)
        p = lmfit.Parameters()
        p.add_many(*lst)
        return p, lst

    def scale(self, name):
        if name.endswith(('beam_polar', 'beam_azimuth', 'instr_chi')):
            return 1.
        if 'distortion_param' in name or name.endswith('beam_energy') or 'energy_correction' in name:
            return 1000.
        return 1 / self.mm

    def q(self, p):
        """the generic part of a prefix's rotation"""
        if self.ctype != 'none':
            return np.eye(3)
        return self.Q[[d['p'] for d in self.h['dets']].index(p)]

    def seen(self):
        dets = []
        for (n, d), Q in zip(self.instr.detectors.items(), self.Q):
            R = Rotation.from_rotvec(np.asarray(d.tilt, float)).as_matrix() @ Q.T
            dets.append({'R': imat(R), 't': [rval(x, 1 / self.mm, 1e-8) for x in d.tvec], 'dist': [] if d.distortion is None else [rval(x, 1000) for x in d.distortion.params],
                         'rad': rval(d.radius, 1 / self.mm, 1e-8) if d.detector_type == 'cylindrical' else 0})
        beams = []
        for b in self.instr.beam_dict.values():
            v = -np.asarray(b['vector'], float)
            c = b['energy_correction']
            beams.append({'e': rval(b['energy'], 1000), 'az': rval(math.degrees(math.atan2(v[2], v[0])), 1, 1e-7), 'po': rval(math.degrees(math.acos(max(-1, min(1, v[1])))), 1, 1e-7),
                          'corr': [] if c is None else [rval(c['intercept'], 1000), rval(c['slope'], 1000)]})
        par = []
        if self.ctype != 'none':
            src = self.con.params
            for p in self.prefixes():
                c = src if self.ctype == 'system' else src[self.gname[p]]
                par.append({'R': imat(Rotation.from_rotvec(np.asarray(c['tilt'], float)).as_matrix()), 't': [rval(x, 1 / self.mm, 1e-8) for x in c['translation']]})
        return {'dets': dets, 'beams': beams, 'chi': rval(math.degrees(self.instr.chi), 1, 1e-8), 'tv': [rval(x, 1 / self.mm, 1e-8) for x in self.instr.tvec], 'par': par}

    def event(self, e):
        from hexrd.core.fitting.calibration import lmfit_param_handling as L
        from hexrd.core.fitting.calibration import relative_constraints as RC
        op, rng = e['op'], self.rng

        def go():
            if op == 'constrain':
                self.ctype = e['type']
                t = {'none': RC.RelativeConstraintsType.none, 'group': RC.RelativeConstraintsType.group, 'system': RC.RelativeConstraintsType.system}[e['type']]
                self.con = RC.create_relative_constraints(t, self.instr)
                if e['type'] == 'none' and rng.random() < .5:
                    self.con = None
                return {'v': self.seen()}
            if op == 'centre':
                self.con.rotation_center = {'origin': RC.RotationCenter.lab_origin, 'mean': RC.RotationCenter.instrument_mean_center, 'group': RC.RotationCenter.group_mean_center}[e['centre']]
                return {'v': self.seen()}
            if op == 'reset':
                if self.con is not None:
                    self.con.reset()
                return {'v': self.seen()}
            if op == 'look':
                return {'v': self.seen()}
            if op == 'export':
                p, lst = self.params()
                nums = {n: rval(p[n].value, self.scale(n), 1e-8) for n in p}
                rots = {}
                for x in self.prefixes():
                    a = [p[f'{x}_{k}'].value for k in ANG[key(self.conv)]]
                    rots[x] = imat(rmat_of(a, self.conv) @ self.q(x).T)
                    for k in ANG[key(self.conv)]:
                        del nums[f'{x}_{k}']
                clean = len(p) == len(lst) and all(p[n].min < p[n].value < p[n].max for n in p)
                return {'nums': nums, 'rots': rots, 'clean': bool(clean)}
            if op == 'import':
                p, _ = self.params()
                for n in p:
                    p[n].min, p[n].max = -np.inf, np.inf
                for n, v in e['nums'].items():
                    p[n].value = v / self.scale(n)
                for x, R in e['rots'].items():
                    a = angles_of(np.array(R) @ self.q(x), self.conv)
                    for k, v in zip(ANG[key(self.conv)], a):
                        p[f'{x}_{k}'].value = v
                for x, st in e['still'].items():
                    for k in ANG[key(self.conv)]:
                        p[f'{x}_{k}'].vary = not st['rot']
                    for k in 'xyz':
                        p[f'{x}_tvec_{k}'].vary = not st['tv']
                if not e['still'] and self.ctype == 'none':
                    for n in p:
                        p[n].vary = rng.random() < .5
                elif not e['still']:      # any free parameter of a kind frees the kind
                    for x in self.prefixes():
                        keep = rng.choice(ANG[key(self.conv)])
                        for k in ANG[key(self.conv)]:
                            p[f'{x}_{k}'].vary = k == keep or rng.random() < .5
                        keep = rng.choice('xyz')
                        for k in 'xyz':
                            p[f'{x}_tvec_{k}'].vary = k == keep or rng.random() < .5
                kw = self.ckw()
                L.update_instrument_from_params(self.instr, p, **kw)
                return {'v': self.seen()}
            if op == 'fixy':
                p, _ = self.params()
                for n in p:
                    p[n].vary = True
                L.fix_detector_y(self.instr, p, **({} if self.con is None and rng.random() < .5 else {'relative_constraints': self.con}))
                return {'v': [n for n in p if not p[n].vary]}
            if op == 'mat':
                return self.mat(e)
            if op == 'names':
                new = [(n, i, True, i - 1, i + 1) for i, n in enumerate(e['new'])]
                cur = [(n, 0, False, 0, 0) for n in e['cur']]
                out, m = L.rename_to_avoid_collision(list(new), list(cur))
                uniq = [n for n in e['new'] if e['new'].count(n) == 1]
                rest = [x[1:] for x in out] == [x[1:] for x in new] and all(m[n] == out[e['new'].index(n)][0] for n in uniq)
                return {'v': [x[0] for x in out], 'rest': bool(rest)}
            if op == 'grain':
                return self.grain(e)
        k, v = outcome(go)
        return dict(e, obs=dict(v, k='v') if k == 'ok' else {'k': 'err', 'e': v})

    MAT = {}

    def mat(self, e):
        import lmfit
        from hexrd.core.fitting.calibration import lmfit_param_handling as L
        from hexrd.core.material import Material
        m = self.MAT.get(e['sys'])
        if m is None:
            m = self.MAT[e['sys']] = Material()
            m.sgnum = SG[e['sys']]
        m.name = self.rng.choice(['m', 'my-mat'])
        # lengths in pm, angles in degrees
        m.latticeParameters = [x / 100 if i < 3 else float(x) for i, x in enumerate(e['cell'])]
        p = lmfit.Parameters()
        lst = L.create_material_params(m)
        p.add_many(*lst)
        pre = m.name.replace('-', '_') + '_'
        sc = lambda n: 100 if n in 'abc' else 1
        names = [n[0].removeprefix(pre) for n in lst]
        vals = {n: rval(p[pre + n].value, sc(n), 1e-8) for n in names}
        for n, v in e['nums'].items():
            p[pre + n].min, p[pre + n].max = -np.inf, np.inf
            p[pre + n].value = v / sc(n)
        L.update_material_from_params(p, m)
        lp = m.lparms
        other = [x.getVal('nm' if i < 3 else 'degrees') for i, x in enumerate(m.latticeParameters)]
        assert np.allclose(lp, other, atol=1e-12)
        return {'names': names, 'vals': vals, 'cell': [rval(x, 1000 if i < 3 else 1, 1e-8) for i, x in enumerate(lp)]}

    def grain(self, e):
        from hexrd.core.fitting.calibration.abstract_grain import AbstractGrainCalibrator

        class G(AbstractGrainCalibrator):
            name = 'the-grain'
            type = 'x'
            autopick_points = residual = model = lambda self: None
        Q = Rotation.random(random_state=self.rng.randrange(10 ** 6)).as_matrix()
        gp = np.r_[Rotation.from_matrix(np.array(e['R']) @ Q).as_rotvec(), np.array(e['t']) * self.mm, np.array(e['st']) / 1000]
        g = G(None, None, gp, **({} if self.conv == 'default' else {'euler_convention': self.conv}))
        taken = [(n, 0, 0, 0, 0) for n in self.rng.sample(['the_grain_grain_param_%d' % i for i in range(12)] + ['1_the_grain_grain_param_2'], self.rng.choice([0, 0, 3]))]
        lst = g.create_lmfit_params(taken)
        names = [x[0] for x in lst]
        assert len(set(names) | {x[0] for x in taken}) == 12 + len(taken)
        look = lambda a: {'R': imat(rmat_of(a[:3], self.conv) @ Q.T), 't': [rval(x, 1 / self.mm, 1e-8) for x in a[3:6]], 'st': [rval(x, 1000) for x in a[6:]]}
        first = look([x[1] for x in lst])
        vals = {x[0]: _P(x[1]) for x in lst}
        if e['setR']:
            for n, a in zip(names, angles_of(np.array(e['nR']) @ Q, self.conv)):
                vals[n].value = a
        if e['i']:
            vals[names[2 + e['i']]].value = e['v'] * self.mm if e['i'] <= 3 else e['v'] / 1000
        g.update_from_lmfit_params(vals)
        a = np.asarray(g.grain_params, float)
        v = {'R': imat(Rotation.from_rotvec(a[:3]).as_matrix() @ Q.T), 't': [rval(x, 1 / self.mm, 1e-8) for x in a[3:6]], 'st': [rval(x, 1000) for x in a[6:]]}
        return {'first': first, 'v': v}


class _P:
    def __init__(self, v):
        self.value = float(v)


def random_beh(rng):
    names = rng.choice([['a', 'ba', 'cba'], ['det', 'det_1', 'det_11'], ['ge1', 'ge2', 'ge12'], ['x_y', 'y', 'y_z']])
    rng.shuffle(names)
    n = rng.choice([1, 2, 2, 3, 3])
    gr = rng.choice([['', '', ''], ['g', 'g', 'g'], ['g', 'h', 'g'], ['g', '', 'h_1'], ['h_1', 'h_1', '']])
    R = lambda: rng.choice(OCTA)
    T = lambda: [U * rng.randint(-20, 20) for _ in range(3)]
    dets = [{'p': names[i], 'group': gr[i], 'R': R(), 't': T(), 'dist': [] if rng.random() < .5 else [rng.randint(-900, 900) for _ in range(rng.choice([6, 6, 8]))], 'rad': 0 if rng.random() < .85 else U * rng.randint(1, 60)} for i in range(n)]
    bn = rng.choice([['XRS1', 'XRS2', 'XRS12'], ['b', 'ab', 'b_b']])
    beams = [{'p': bn[i], 'e': rng.randint(10000, 90000), 'az': rng.randint(-179, 180), 'po': rng.randint(1, 179), 'corr': [] if rng.random() < .7 else [rng.randint(-50, 50), rng.randint(-50, 50)]} for i in range(rng.choice([1, 1, 2, 3]))]
    hdr = {'dets': dets, 'beams': beams, 'chi': rng.randint(-20, 20), 'tv': T()}
    ev = []
    ctype = 'none'
    means = 0
    bp = lambda b: b['p'] + '_' if len(beams) > 1 else ''
    for _ in range(rng.randint(3, 8)):
        groups = [g for k, g in enumerate(gr[:n]) if g and g not in gr[:k]]
        pre = [d['p'] for d in dets] if ctype == 'none' else ['system'] if ctype == 'system' else groups
        op = rng.choice(['export', 'import', 'import', 'import', 'constrain', 'centre', 'reset', 'fixy', 'names', 'grain'] + (['mat'] if rng.random() < .3 else []))
        if op in ('centre', 'reset') and ctype == 'none':
            op = 'export'
        e = {'op': op}
        if op == 'constrain':
            e['type'] = ctype = rng.choice(['none', 'group', 'system', 'system', 'group'])
        elif op == 'centre':
            e['centre'] = rng.choice(['origin', 'mean'] + (['group'] if ctype == 'group' else []))
        elif op == 'import':
            means += 1
            if means > 4:
                continue
            nums, rots, still = {}, {}, {}
            if rng.random() < .4:
                b = rng.choice(beams)
                k = rng.choice(['beam_polar', 'beam_azimuth', 'beam_energy'] + (['beam_energy_correction_slope', 'beam_energy_correction_intercept'] if b['corr'] else []))
                nums[bp(b) + k] = {'beam_polar': rng.randint(1, 179), 'beam_azimuth': rng.randint(-179, 180), 'beam_energy': rng.randint(10000, 90000)}.get(k, rng.randint(-90, 90))
            if rng.random() < .3:
                k = rng.choice(['instr_chi', 'instr_tvec_x', 'instr_tvec_y', 'instr_tvec_z'])
                nums[k] = rng.randint(-90, 90) * (1 if k == 'instr_chi' else U)
            if ctype == 'none':
                for d in dets:
                    if rng.random() < .4:
                        rots[d['p']] = R()
                    if rng.random() < .4:
                        nums[d['p'] + '_tvec_' + rng.choice('xyz')] = U * rng.randint(-30, 30)
                    if d['dist'] and rng.random() < .4:
                        nums['%s_distortion_param_%d' % (d['p'], rng.randrange(len(d['dist'])))] = rng.randint(-900, 900)
                    if d['rad'] and rng.random() < .4:
                        nums[d['p'] + '_radius'] = U * rng.randint(1, 60)
            elif pre:
                for x in rng.sample(pre, 1 if rng.random() < .7 else len(pre)):
                    if rng.random() < .7:
                        rots[x] = R()
                    for c in 'xyz':
                        if rng.random() < .4:
                            nums[f'{x}_tvec_{c}'] = U * rng.randint(-30, 30)
                if rng.random() < .3:
                    still = {x: {'rot': rng.random() < .5, 'tv': rng.random() < .5} for x in pre}
            e.update(nums=nums, rots=rots, still=still)
        elif op == 'names':
            pool = ['p', 'q', '1_p', '2_p', 'r', '1_1_p']
            e.update(new=[rng.choice(pool) for _ in range(rng.randint(1, 4))], cur=rng.sample(pool, rng.randint(0, 4)))
        elif op == 'grain':
            e.update(R=R(), nR=R(), setR=rng.random() < .5, t=T(), st=[rng.randint(-50, 1050) for _ in range(6)], i=rng.randint(0, 9))
            e['v'] = U * rng.randint(-9, 9) if e['i'] <= 3 else rng.randint(0, 1100)
        elif op == 'mat':
            s = rng.choice(list(SG))
            a, b, c = [rng.randint(300, 900) for _ in range(3)]
            free = {'cubic': 'a', 'hexagonal': 'a c', 'trigonal': 'a c', 'tetragonal': 'a c', 'orthorhombic': 'a b c', 'monoclinic': 'a b c beta', 'triclinic': 'a b c alpha beta gamma'}[s].split()
            cell = {'cubic': [a] * 3 + [90] * 3, 'hexagonal': [a, a, c, 90, 90, 120], 'trigonal': [a, a, c, 90, 90, 120], 'tetragonal': [a, a, c, 90, 90, 90], 'orthorhombic': [a, b, c, 90, 90, 90],
                    'monoclinic': [a, b, c, 90, rng.randint(95, 110), 90], 'triclinic': [a, b, c] + [rng.randint(85, 100) for _ in range(3)]}[s]
            nums = {k: rng.randint(300, 900) if k in 'abc' else rng.randint(85, 100) for k in rng.sample(free, rng.randint(0, len(free)))}
            e.update(sys=s, cell=cell, nums=nums)
        ev.append(e)
    return {'hdr': hdr, 'ev': ev}


def fix(e):
    return {k: ({} if k in ('nums', 'rots', 'still') and v == [] else v) for k, v in e.items()}


def body(c):
    rng = c.rng
    behs = c.generate('Calib', 3 if not c.quick else 2)
    c.cov['model_behaviours'] = len(behs)
    cap = 500 if c.quick else 20000
    if len(behs) > cap:
        behs = rng.sample(behs, cap)
    behs = [{'hdr': {k: b['hdr'][k] for k in ('dets', 'beams', 'chi', 'tv')}, 'ev': [fix(e) for e in b['ev']]} for b in behs]
    behs += [random_beh(rng) for _ in range(500 if c.quick else 20000)]
    traces = []
    for b in behs:
        if not b['ev']:
            continue
        s = Sut(b['hdr'], rng)
        traces.append({'hdr': b['hdr'], 'ev': [s.event(e) for e in b['ev']], 'replay': {'conv': repr(s.conv), 'names': s.names, 'unit': s.u, 'Q': [q.tolist() for q in s.Q]}})
    c.judge('Calib', traces)
    usable_names(c)


def usable_names(c):
    """the names given to a second calibrator's parameters are names that the
    minimiser accepts, so that both can be calibrated together"""
    import lmfit
    from hexrd.core.fitting.calibration import lmfit_param_handling as L
    for new in (['g_grain_param_0'], ['g_grain_param_0', 'g_grain_param_1']):
        for cur in ([], ['g_grain_param_0']):
            out, _ = L.rename_to_avoid_collision([(n, 0., True, -1., 1.) for n in new], [(n, 0., True, -1., 1.) for n in cur])
            k, v = outcome(lambda: lmfit.Parameters().add_many(*out))
            renamed = [n[0] for n in out if n[0] not in new]
            c.expect(k == 'ok', 'parameter names that avoid a collision are not accepted by lmfit', {'new': new, 'taken': cur, 'names': renamed, 'got': str(v)[:80]})


vf.main('C10', body)
