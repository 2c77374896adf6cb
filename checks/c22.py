"""C22: rotation representations (spec Rot)."""
import numpy as np
import vf
from vf import outcome, rval

LET = 'xyz'


def unitq(q):
    q = np.array(q, dtype=float)
    return q / np.sqrt((q * q).sum())


def norm(q):
    return sum(x * x for x in q)


def enc(R, q):
    n = norm(q) if not isinstance(q, int) else q
    return [[rval(x, n, 1e-8) for x in row] for row in np.asarray(R)]


def mat(q):
    a, b, c, d = q
    return np.array([[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)],
                     [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]]) / norm(q)


def qmul(p, q):
    return [p[0]*q[0]-p[1]*q[1]-p[2]*q[2]-p[3]*q[3], p[0]*q[1]+p[1]*q[0]+p[2]*q[3]-p[3]*q[2],
            p[0]*q[2]-p[1]*q[3]+p[2]*q[0]+p[3]*q[1], p[0]*q[3]+p[1]*q[2]-p[2]*q[1]+p[3]*q[0]]


class Flags:
    def __init__(self):
        self.unit = self.pos = True

    def see(self, qs):
        qs = np.asarray(qs, dtype=float).reshape(4, -1)
        self.unit = self.unit and bool(np.all(np.abs((qs ** 2).sum(0) - 1) < 1e-9))
        self.pos = self.pos and bool(np.all(qs[0] >= 0))
        return qs


def to_rep(rep, Rm, fl, ext):
    """rotation matrices (n,3,3) -> representation, by the code"""
    from hexrd.core import rotations as rot
    if rep == 'quat':
        return fl.see(rot.quatOfRotMat(Rm if len(Rm) > 1 or ext else Rm[0]))
    if rep == 'expmap':
        return np.asarray(rot.expMapOfQuat(fl.see(rot.quatOfRotMat(Rm)))).reshape(3, -1)
    if rep == 'angax':
        a, n = rot.angleAxisOfRotMat(Rm if len(Rm) > 1 or ext else Rm[0])
        assert np.shape(a) == (len(Rm),) and np.shape(n) == (3, len(Rm))
        assert np.all(a >= 0) and np.all(a <= np.pi + 1e-12)
        return a, n
    if rep == 'xyz':
        return [rot.angles_from_rmat_xyz(R) for R in Rm]
    if rep == 'zxz':
        return [rot.angles_from_rmat_zxz(R) for R in Rm]
    if rep.startswith('obj'):
        out = []
        for R in Rm:
            o = rot.RotMatEuler([.1, .2, .3], rep[3:6], ext, rep[7:])
            o.rmat = R
            out.append(o)
        return out


def from_rep(rep, x, fl, alt):
    """representation -> rotation matrices by the code"""
    from hexrd.core import rotations as rot
    from hexrd.core.transforms import xfcapi
    if rep == 'quat':
        if alt:
            return [rot.rotMatOfQuat(q) for q in x.T]
        return np.asarray(rot.rotMatOfQuat(x)).reshape(-1, 3, 3)
    if rep == 'expmap':
        if alt == 1:
            return [xfcapi.make_rmat_of_expmap(e) for e in x.T]
        if alt == 2:
            return [rot.rotMatOfQuat(fl.see(rot.quatOfExpMap(e))) for e in x.T]
        if alt == 3:
            return np.asarray(rot.rotMatOfQuat(fl.see(rot.quatOfExpMap(x)))).reshape(-1, 3, 3)
        return np.asarray(rot.rotMatOfExpMap(x if x.shape[1] > 1 else x[:, 0])).reshape(-1, 3, 3)
    if rep == 'angax':
        a, n = x
        q = fl.see(rot.quatOfAngleAxis(a, n * (2.5 if alt else 1.0)))
        return np.asarray(rot.rotMatOfQuat(q)).reshape(-1, 3, 3)
    if rep == 'xyz':
        if alt:
            return [xfcapi.make_detector_rmat(np.array(a)) for a in x]
        return [rot.make_rmat_euler(a, 'xyz', True) for a in x]
    if rep == 'zxz':
        return [rot.make_rmat_euler(a, 'ZXZ' if alt else 'zxz', extrinsic=False) for a in x]
    if alt:
        return [rot.rotMatOfExpMap(o.exponential_map) for o in x]
    return [o.rmat for o in x]


def observe(e):
    from hexrd.core import rotations as rot
    from hexrd.core.transforms import xfcapi
    fl = Flags()
    op = e['op']

    def run():
        if op == 'conv':
            Q = np.array([unitq(q) for q in e['q']]).T * e.get('sgn', 1)
            R = np.asarray(rot.rotMatOfQuat(Q)).reshape(-1, 3, 3)
            for rep, alt in e['path']:
                R = np.asarray(from_rep(rep, to_rep(rep, R, fl, e.get('ext', False)), fl, alt))
            return [enc(r, q) for r, q in zip(R, e['q'])]
        if op == 'angle':
            Q = np.array([unitq(q) for q in e['q']]).T
            a, n = rot.angleAxisOfRotMat(np.asarray(rot.rotMatOfQuat(Q)).reshape(-1, 3, 3))
            return [rval(np.cos(x), norm(q), 1e-8) if 0 <= x <= np.pi + 1e-9 else 'range' for x, q in zip(a, e['q'])]
        if op == 'prod':
            P = np.array([unitq(q) for q in e['p']]).T
            Q = np.array([unitq(q) for q in e['q']]).T
            if e['how'] == 'prod':
                r = fl.see(rot.quatProduct(Q, P))
            elif e['how'] == 'right':      # p*q = [right(q)] p
                r = fl.see(rot.fixQuat(np.array([np.dot(m, p) for m, p in zip(rot.quatProductMatrix(Q, mult='right'), P.T)]).T))
            else:
                r = fl.see(rot.fixQuat(np.array([np.dot(m, q) for m, q in zip(rot.quatProductMatrix(P, mult='left'), Q.T)]).T))
            R = np.asarray(rot.rotMatOfQuat(r)).reshape(-1, 3, 3)
            return [enc(m, norm(p) * norm(q)) for m, p, q in zip(R, e['p'], e['q'])]
        if op == 'inv':
            Q = np.array([unitq(q) * s for q, s in zip(e['q'], e['scale'])]).T
            if e['how'] == 'inv':
                r = fl.see(rot.invertQuat(Q))
            else:
                Q = Q * np.array([[1], [-1], [-1], [-1]])
                k = Q.copy()
                if e['how'] == 'fix3':
                    Q3 = np.array([Q, Q[:, ::-1]] if len(e['q']) % 2 else [Q])
                    r3 = rot.fixQuat(Q3)
                    assert r3.shape == Q3.shape
                    r = fl.see(r3[0])
                    assert np.abs(r3[-1][:, ::-1 if len(r3) > 1 else 1] - r3[0]).max() == 0
                else:
                    r = fl.see(rot.fixQuat(Q))
                assert (Q == k).all()
            R = np.asarray(rot.rotMatOfQuat(r)).reshape(-1, 3, 3)
            return [enc(m, q) for m, q in zip(R, e['q'])]
        if op == 'vec':
            X = np.array(e['x'], dtype=float).T
            if e['how'] == 'about':
                Q = [unitq(q) for q in e['q']]
                ang = np.array([2 * np.arctan2(np.sqrt((q[1:] ** 2).sum()), q[0]) for q in Q])
                ax = np.array([q[1:] / max(1e-300, np.sqrt((q[1:] ** 2).sum())) if np.any(q[1:]) else [0, 0, 1.] for q in Q]).T
                Y = xfcapi.rotate_vecs_about_axis(ang, np.ascontiguousarray(ax), X)
            elif e['how'] == 'about1':
                q = unitq(e['q'][0])
                s = np.sqrt((q[1:] ** 2).sum())
                ax = (q[1:] / s if s > 0 else np.array([1., 0, 0])).reshape(3, 1)
                Y = xfcapi.rotate_vecs_about_axis(np.array([2 * np.arctan2(s, q[0])]), ax, X)
            else:
                s = np.array([unitq(q) for q in e['q']])
                v = np.array([unitq([0] + list(q[1:]))[1:] for q in e['q']])
                Y = np.array([np.dot(xfcapi.make_binary_rmat(a), x) for a, x in zip(v, X.T)]).T
            return [[rval(t, norm(q), 1e-8) for t in y] for y, q in zip(Y.T, e['q'])]
        if op == 'euler':
            a = [2 * np.arctan2(n, m) for m, n in e['h']]
            o = ''.join(LET[k - 1] for k in e['ax'])
            nn = int(np.prod([m * m + n * n for m, n in e['h']]))
            if e['how'] == 'make':
                R = rot.make_rmat_euler(np.array(a), o.upper() if e['up'] else o, extrinsic=e['ext'])
            elif e['how'] == 'make0':
                R = rot.make_rmat_euler(a, o) if e['ext'] else rot.make_rmat_euler(a, o, False)
            elif e['how'] == 'det':
                R = xfcapi.make_detector_rmat(np.array(a) if e['up'] else a)
            else:
                u = e['units']
                x = np.degrees(a) if u.lower() == 'degrees' else np.array(a)
                R = rot.RotMatEuler(x, o, e['ext'], u).rmat
            return [enc(R, nn)]
        if op == 'sample':
            chi = 2 * np.arctan2(e['chi'][1], e['chi'][0])
            om = np.array([2 * np.arctan2(n, m) for m, n in e['o']])
            if e['how'] == 'array':
                R = xfcapi.make_sample_rmat(chi, om)
            elif e['how'] == 'scalar':
                R = [xfcapi.make_sample_rmat(chi, float(o)) for o in om]
            elif e['how'] == 'oscill':
                R = [xfcapi.make_oscill_rmat([chi, o]) for o in om]
            else:
                R = xfcapi.make_oscill_rmat_array(chi, om)
            assert len(R) == len(om)
            nc = e['chi'][0] ** 2 + e['chi'][1] ** 2
            return [enc(r, nc * (m * m + n * n)) for r, (m, n) in zip(R, e['o'])]
        if op == 'bad':
            if e['how'] == 'order':
                rot.make_rmat_euler([0, 0, 0], e['arg'])
            elif e['how'] == 'objorder':
                rot.RotMatEuler([0, 0, 0], e['arg'])
            elif e['how'] == 'rmat':
                rot.RotMatEuler([0, 0, 0], 'xyz').rmat = np.array([[1, 0, 0], [0, 1, 0], [0, .1, 1]])
            elif e['how'] == 'scaled':
                rot.angles_from_rmat_xyz(2 * np.eye(3))
            elif e['how'] == 'shape':
                rot.rotMatOfQuat(np.zeros((3, 4)))
            return 0
    k, v = outcome(run)
    if k == 'ok':
        return dict(e, obs={'k': 'v', 'v': v, 'unit': fl.unit, 'pos': fl.pos})
    return dict(e, obs={'k': 'err', 'e': v, 'unit': True, 'pos': True})


def eulobj(hdr, evs):
    """Run a history on one RotMatEuler object."""
    from hexrd.core import rotations as rot
    ang = lambda h, u: np.array([2 * np.arctan2(n, m) for m, n in h]) * (180 / np.pi if u == 'degrees' else 1)
    order = lambda ax: ''.join(LET[k - 1] for k in ax)
    o = rot.RotMatEuler(ang(hdr['h'], hdr['units']), order(hdr['ax']), hdr['ext'], hdr['units'])
    st, out = dict(hdr), []
    for e in evs:
        e = dict(e)
        op = e['op']

        def run():
            if op == 'setang':
                o.angles = ang(e['h'], st['units']); st.update(h=e['h'], known=True)
            elif op == 'setunits':
                o.units = e['units']; st['units'] = e['units']
            elif op == 'setrmat':
                if e.get('exp'):
                    q = unitq(e['q'])
                    s = np.sqrt((q[1:] ** 2).sum())
                    o.exponential_map = (2 * np.arctan2(s, q[0]) * q[1:] / s) if s > 0 else np.zeros(3)
                else:
                    o.rmat = mat(e['q'])
                st.update(q=e['q'], known=False)
            elif op == 'setext':
                o.extrinsic = e['ext']; st['ext'] = e['ext']
            elif op == 'setorder':
                o.axes_order = order(e['ax']); st['ax'] = e['ax']
            nn = int(np.prod([m * m + n * n for m, n in st['h']])) if st['known'] else norm(st['q'])
            if op == 'rd':
                return [enc(o.rmat, nn)]
            if op == 'rdexp':
                return [enc(rot.rotMatOfExpMap(o.exponential_map), nn)]
            if op == 'rdunits':
                return o.units
            if op == 'rdang':
                if not st['known']:
                    return []
                return [list(h) if abs(a - b) < 1e-9 else [0, 0] for h, a, b in zip(st['h'], o.angles, ang(st['h'], st['units']))]
        k, v = outcome(run)
        if op.startswith('rd'):
            e['obs'] = {'k': 'v', 'v': v} if k == 'ok' else {'k': 'err', 'e': v}
        else:
            e['obs'] = {'k': 'ok'} if k == 'ok' else {'k': 'err', 'e': v}
        out.append(e)
    return out


SPECIAL = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 1, 0], [0, -1, 2, -2], [0, 3, 0, 4], [1, 1, 0, 0],
           [1, 0, -1, 0], [1, 1, 1, 1], [1, -1, 1, -1], [0, 1, 1, 1], [9, 0, 0, 1], [1, 9, 0, 0], [0, 0, -1, 1], [1, 0, 0, 1], [0, -2, 0, 1]]


def body(c):
    rng = c.rng
    behs = c.generate('Rot', 2 if c.quick else 3)
    c.cov['object_histories'] = len(behs)
    traces = []
    if len(behs) > 2500:
        behs = rng.sample(behs, 2500)
    for b in behs:
        evs = []
        for o in b['ev']:
            evs += [dict(o, exp=rng.random() < .4), {'op': rng.choice(['rd', 'rdexp', 'rdang', 'rdunits'])}, {'op': 'rd'}]
        traces.append({'hdr': b['hdr'], 'ev': eulobj(b['hdr'], evs)})

    def rq():
        if rng.random() < .35:
            q = list(rng.choice(SPECIAL))
            return [x * rng.choice([1, 1, -1]) for x in q] if rng.random() < .3 else q
        while True:
            q = [rng.randint(-6, 6) for _ in range(4)]
            if any(q):
                return q
    half = lambda: rng.choice([[1, 0], [1, 1], [0, 1], [1, -1], [2, 1], [3, -1], [1, 2], [-1, 3], [4, 1], [3, 2], [-1, 1]])
    orders = [[a, b, d] for a in (1, 2, 3) for b in (1, 2, 3) for d in (1, 2, 3) if a != b and b != d]
    reps = ['quat', 'expmap', 'angax', 'xyz', 'zxz'] + ['obj%s:%s' % (''.join(LET[k - 1] for k in o), u) for o in orders for u in ('radians', 'degrees')]
    for _ in range(150 if c.quick else 2500):
        evs = []
        for _ in range(10):
            n = rng.choice([1, 1, 2, 3, 4, 5, 9])
            qs = [rq() for _ in range(n)]
            op = rng.choice(['conv', 'conv', 'conv', 'angle', 'prod', 'prod', 'inv', 'vec', 'euler', 'euler', 'sample'])
            if op == 'conv':
                e = {'q': qs, 'path': [[rng.choice(reps[:5]) if rng.random() < .7 else rng.choice(reps), rng.choice([0, 1, 2, 3])] for _ in range(rng.randint(0, 3))],
                     'ext': rng.random() < .5, 'sgn': rng.choice([1, -1])}
            elif op == 'angle':
                e = {'q': qs}
            elif op == 'prod':
                ps = [rng.choice([rq(), [q[0], -q[1], -q[2], -q[3]], [-q[1], q[0], q[3], -q[2]]]) for q in qs]
                e = {'p': ps, 'q': qs, 'how': rng.choice(['prod', 'right', 'left'])}
            elif op == 'inv':
                e = {'q': qs, 'how': rng.choice(['inv', 'fix', 'fix3']), 'scale': [rng.choice([1, -1, 3, -.25]) for _ in qs]}
            elif op == 'vec':
                how = rng.choice(['about', 'about1', 'binary'])
                if how == 'about1':
                    qs = [qs[0]] * n
                if how == 'binary':
                    qs = [[0] + (q[1:] if any(q[1:]) else [1, 0, 2]) for q in qs]
                e = {'q': qs, 'how': how, 'x': [[rng.randint(-9, 9) for _ in range(3)] for _ in qs]}
            elif op == 'euler':
                how = rng.choice(['make', 'make0', 'obj', 'det'])
                e = {'how': how, 'ax': rng.choice(orders), 'h': [half() for _ in range(3)], 'ext': rng.random() < .5, 'up': rng.random() < .5,
                     'units': rng.choice(['radians', 'degrees', 'Degrees'])}
                if how == 'det':
                    e['ax'], e['ext'] = [1, 2, 3], True
            else:
                e = {'chi': half(), 'o': [half() for _ in range(n)], 'how': rng.choice(['array', 'scalar', 'oscill', 'oarray'])}
            evs.append(observe(dict(e, op=op)))
        if rng.random() < .2:
            evs.append(observe({'op': 'bad', 'how': rng.choice(['order', 'objorder', 'rmat', 'scaled', 'shape']), 'arg': rng.choice(['xxy', 'abc', 'xyzx', 'xy'])}))
        traces.append({'hdr': {'x': 0}, 'ev': evs})
    # long histories of one Euler object
    for _ in range(100 if c.quick else 1500):
        hdr = {'known': True, 'h': [half() for _ in range(3)], 'ax': rng.choice(orders), 'ext': rng.random() < .5,
               'units': rng.choice(['radians', 'degrees']), 'q': [1, 0, 0, 0]}
        evs, known = [], True
        for _ in range(14):
            op = rng.choice(['rd', 'rdexp', 'rdang', 'rdunits', 'setang', 'setunits', 'setrmat'] + (['setext', 'setorder'] if known else []))
            e = {'op': op}
            if op == 'setang':
                e['h'] = [half() for _ in range(3)]; known = True
            elif op == 'setunits':
                e['units'] = rng.choice(['radians', 'degrees'])
            elif op == 'setrmat':
                e['q'] = rq(); e['exp'] = rng.random() < .4; known = False
            elif op == 'setext':
                e['ext'] = rng.random() < .5
            elif op == 'setorder':
                e['ax'] = rng.choice(orders)
            evs.append(e)
        traces.append({'hdr': hdr, 'ev': eulobj(hdr, evs)})
    c.judge('Rot', traces)
    c.assumptions = ['rotations are integer quaternions; matrices compared as exact rationals within 1e-8']


vf.main('C22', body)
