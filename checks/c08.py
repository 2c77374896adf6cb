"""C08: configuration merge, lookup, defaults and saving (spec Cfg)."""
import json
import os
import warnings
from pathlib import Path
from unittest import mock
import numpy as np
import yaml
import vf
from vf import outcome

warnings.simplefilter('ignore')


def enc(x):
    if isinstance(x, dict):
        return {'t': 'b', 'm': {str(k): enc(v) for k, v in x.items()}}
    if x is None:
        return {'t': 'n', 'v': 'null'}
    if isinstance(x, bool):
        return {'t': 'o', 'v': 'true' if x else 'false'}
    if isinstance(x, (int, np.integer)):
        return {'t': 'i', 'v': str(int(x)), 'i': int(x)}
    if isinstance(x, (float, np.floating)):
        return {'t': 'f', 'v': str(int(x)) if float(x).is_integer() and abs(x) < 1e9 else repr(float(x))}
    if isinstance(x, np.ndarray):
        return enc([[int(v) if float(v).is_integer() else float(v) for v in r] for r in x])
    if isinstance(x, (list, tuple)):
        return {'t': 'l', 'v': json.dumps(x, sort_keys=True)}
    if isinstance(x, (str, Path)):
        return {'t': 's', 'v': json.dumps(str(x))}
    return {'t': 'x', 'v': repr(x)}


def dec(t):
    if t['t'] == 'b':
        m = t['m']
        return {k: dec(v) for k, v in m.items()} if isinstance(m, dict) else {}
    return json.loads(t['v'])


ATTRS = {
    'fo_threshold': lambda c: c.find_orientations.threshold, 'fo_extract': lambda c: c.find_orientations.extract_measured_g_vectors,
    'ome_tol': lambda c: c.find_orientations.omega.tolerance, 'eta_tol': lambda c: c.find_orientations.eta.tolerance,
    'eta_mask': lambda c: c.find_orientations.eta.mask, 'eta_range': lambda c: c.find_orientations.eta.range,
    'om_active': lambda c: c.find_orientations.orientation_maps.active_hkls, 'om_bin': lambda c: c.find_orientations.orientation_maps.bin_frames,
    'om_step': lambda c: c.find_orientations.orientation_maps.eta_step, 'om_thr': lambda c: c.find_orientations.orientation_maps.threshold,
    'om_filter': lambda c: c.find_orientations.orientation_maps.filter_maps, 'seeds': lambda c: c.find_orientations.seed_search.hkl_seeds,
    'step': lambda c: c.find_orientations.seed_search.fiber_step, 'alg': lambda c: c.find_orientations.clustering.algorithm,
    'compl': lambda c: c.find_orientations.clustering.completeness, 'radius': lambda c: c.find_orientations.clustering.radius,
    'do_fit': lambda c: c.fit_grains.do_fit, 'npdiv': lambda c: c.fit_grains.npdiv, 'fg_thr': lambda c: c.fit_grains.threshold,
    'tol_eta': lambda c: c.fit_grains.tolerance.eta, 'tol_ome': lambda c: c.fit_grains.tolerance.omega, 'tol_tth': lambda c: c.fit_grains.tolerance.tth,
    'refit': lambda c: c.fit_grains.refit, 'skip': lambda c: c.fit_grains.skip_on_estimate, 'fit_only': lambda c: c.fit_grains.fit_only,
    'tth_max': lambda c: c.fit_grains.tth_max, 'active': lambda c: c.material.active, 'dmin': lambda c: c.material.dmin,
    'tthw': lambda c: c.material.tthw, 'fminr': lambda c: c.material.fminr, 'newfile': lambda c: c.new_file_placement,
    'name': lambda c: c.analysis_name, 'mp': lambda c: c.multiprocessing}
CACHED = {'do_fit', 'npdiv', 'fg_thr', 'tol_eta', 'tol_ome', 'tol_tth', 'refit', 'skip', 'fit_only', 'tth_max', 'active', 'dmin', 'tthw', 'fminr'}


def write_yaml(docs, path, rng):
    """one of the ways a person may lay the documents out"""
    parts = []
    for d in docs:
        t = yaml.safe_dump(d, default_flow_style=rng.choice([False, True, None]), sort_keys=rng.random() < .5)
        if rng.random() < .5:
            t = t.replace(': null\n', ':\n')
        if rng.random() < .3:
            t = '# a comment\n' + t
        parts.append(t)
    sep = '---\n'
    with open(path, 'w') as f:
        f.write((sep if rng.random() < .4 else '') + sep.join(parts))


class Sim:
    def __init__(self, rng, tmp):
        self.rng, self.tmp = rng, tmp
        self.n = 0

    def path(self):
        self.n += 1
        return os.path.join(self.tmp, 'c%d.yml' % self.n)

    def trees(self):
        from hexrd.core import config
        p = self.path()
        config.save(self.cfgs, p)
        with open(p) as f:
            r = [enc(x) for x in yaml.safe_load_all(f)]
        os.unlink(p)
        return r

    def step(self, e):
        from hexrd.core import config
        rng, op = self.rng, e['op']
        o = {'k': 'ok'}

        def run():
            if op == 'open':
                p = self.path()
                write_yaml([dec(d) for d in e['docs']], p, rng)
                self.cfgs = config.open(p)
                os.unlink(p)
                return
            c = self.cfgs[e['n'] - 1] if 'n' in e else None
            if op == 'set':
                c.set(':'.join(e['p']), dec(e['v']))
                o['back'] = enc(c.get(':'.join(e['p'])))
            elif op == 'setprop':
                if e['p'] == ['working_dir']:
                    v = json.loads(e['v']['v'])
                    c.working_dir = v if rng.random() < .5 else Path(v)
                    assert c.working_dir == Path(v)
                elif e['p'] == ['analysis_name']:
                    c.analysis_name = json.loads(e['v']['v'])
                    assert str(c.analysis_dir).startswith(str(c.working_dir)) and c.analysis_dir.name == Path(c.analysis_name).name
                else:
                    with mock.patch('multiprocessing.cpu_count', return_value=8):
                        c.multiprocessing = dec(e['v'])
            elif op == 'get':
                key = ':'.join(e['p'])
                if e['hasd']:
                    o['v'] = enc(c.get(key, dec(e['d'])) if rng.random() < .5 else c.get(key, default=dec(e['d'])))
                else:
                    o['v'] = enc(c.get(key))
            elif op == 'dump':
                p = self.path()
                c.dump(p)
                with open(p) as f:
                    assert enc(yaml.safe_load(f)) == self.trees()[e['n'] - 1], 'dump differs from save'
                os.unlink(p)
            elif op == 'reopen':
                p = self.path()
                config.save(self.cfgs, p)
                self.cfgs = config.open(p)
                os.unlink(p)
            elif op == 'redump':
                p = self.path()
                c.dump(p)
                self.cfgs = config.open(p)
                os.unlink(p)
            elif op == 'attrs':
                self.attrs(c, e, o)
        k, v = outcome(run)
        if k == 'err':
            o['k'], o['e'] = 'err', v
        k, v = outcome(self.trees)
        if k == 'err':
            return dict(e, obs={'k': 'err', 'e': 'saving: ' + v, 'trees': [], 'dirty': []})
        o['trees'] = v
        o['dirty'] = [bool(c.dirty) for c in self.cfgs]
        return dict(e, obs=o)

    def attrs(self, c, e, o):
        from hexrd.core.config.material import MaterialConfig
        from hexrd.hedm.config.fitgrains import FitGrainsConfig
        o['attrs'] = []
        with mock.patch('multiprocessing.cpu_count', return_value=e['cpus']):
            for a in e['names']:
                k, v = outcome(ATTRS[a], c)
                o['attrs'].append({'name': a, 'got': {'t': 'err', 'v': v} if k == 'err' else enc(v)})

            def flt(cls):
                x = cls(c)
                return {'reset': enc(x.reset_exclusions), 'f': [enc(getattr(x.exclusion_parameters, n)) for n in
                        ('dmin', 'dmax', 'tthmin', 'tthmax', 'sfacmin', 'sfacmax', 'pintmin', 'pintmax')]}
            bad = {'reset': enc('?'), 'f': [enc('?')] * 8}
            k, v = outcome(flt, FitGrainsConfig)
            o['ffg'] = v if k == 'ok' else bad
            k, v = outcome(flt, MaterialConfig)
            o['fmat'] = v if k == 'ok' else bad

            def files():
                w = str(c.working_dir)
                rel = lambda p: os.path.relpath(str(p), w)
                fo = c.find_orientations
                assert fo.grains_file == c.fit_grains.grains_file
                return {'id': c.analysis_id, 'log': rel(fo.logfile), 'acc': rel(fo.accepted_orientations_file), 'maps': rel(fo.orientation_maps.file),
                        'scored': rel(fo.orientation_maps.scored_orientations_file), 'grains': rel(c.fit_grains.grains_file), 'fitlog': rel(c.fit_grains.logfile)}
            k, v = outcome(files)
            o['files'] = {'k': 'ok', 'f': v} if k == 'ok' else {'k': 'err', 'e': v}


NAMES = ['run1', 'my run', 'a/b c', ' pad ', 'x']
MATS = ['ceria', 'Ti 64', 'steel']
FILES = ['maps.npz', 'sub/maps file.npz']
NORM = {'raw': {json.dumps(s): s for s in NAMES + FILES}, 'dash': {json.dumps(s): s.strip().replace(' ', '-') for s in NAMES + MATS + ['analysis']}}
NORM['raw'][json.dumps('a/b c')] = 'a/b c'


def leaf(rng):
    return rng.choice([None, None, 2, 3, -4, 7.5, .25, 'x', 'some text', '', True, False, [1, 2], [], [[1.5, 2], 'a'], ['a', None], [{'k': 1}], {}])


def tree(rng, depth, keys='abcd'):
    return {k: (tree(rng, depth - 1, keys) if depth > 0 and rng.random() < .55 else leaf(rng)) for k in rng.sample(keys, rng.randint(0, 3))}


def known_doc(rng):
    """a document of the documented keys"""
    d = {}
    vals = {'fo': [None, 3, 'all', [0, 1, 2], .75, True, False, 12], 'num': [None, 1, 2.5, 10, [.5, 1], 0, -3, 'text', True]}

    def put(p, v):
        x = d
        for k in p[:-1]:
            if not isinstance(x.get(k), dict):
                x[k] = {}
            x = x[k]
        x[p[-1]] = v
    specs = [(['find_orientations', k], vals['fo']) for k in ('threshold', 'extract_measured_g_vectors')] + \
        [(['find_orientations', a, b], vals['fo'] + vals['num']) for a, b in (('omega', 'tolerance'), ('eta', 'tolerance'), ('eta', 'mask'), ('orientation_maps', 'active_hkls'),
         ('orientation_maps', 'bin_frames'), ('orientation_maps', 'eta_step'), ('orientation_maps', 'threshold'), ('orientation_maps', 'filter_maps'), ('seed_search', 'hkl_seeds'),
         ('seed_search', 'fiber_step'), ('clustering', 'completeness'), ('clustering', 'radius'))] + \
        [(['find_orientations', 'clustering', 'algorithm'], ['dbscan', 'sph-dbscan', 'DBSCAN', 'ort-dbscan', 'fclusterdata', 'kmeans', None])] + \
        [(['find_orientations', 'orientation_maps', 'file'], FILES + [None])] + \
        [(['fit_grains', k], vals['num']) for k in ('do_fit', 'npdiv', 'threshold', 'refit', 'skip_on_estimate', 'fit_only', 'tth_max')] + \
        [(['fit_grains', 'tolerance', k], vals['num']) for k in ('eta', 'omega', 'tth')] + \
        [([s, k], [None, .5, 2, .1]) for s in ('fit_grains', 'material') for k in ('dmin', 'dmax', 'tthmin', 'tthmax', 'sfacmin', 'sfacmax', 'pintmin', 'pintmax', 'min_sfac_ratio', 'tth_width')] + \
        [([s, 'reset_exclusions'], [True, False]) for s in ('fit_grains', 'material')] + \
        [(['material', 'active'], MATS)] * 3 + [(['new_file_placement'], [True, False]), (['analysis_name'], NAMES), (['multiprocessing'], ['all', 'half', 'none', 0, 1, 3, 20, -1, -3, -30, None, 2.5])] + \
        [([s], [None, {}, 5]) for s in ('find_orientations', 'fit_grains', 'material')][:1]
    n = rng.choice([4, 12, 30])
    for p, v in rng.sample(specs, n):
        put(p, rng.choice(v))
    return d


def random_trace(rng, c):
    sim = Sim(rng, c.tmp)
    mode = rng.random() < .5
    nd = rng.randint(1, 4)
    mk = (lambda: known_doc(rng)) if mode else (lambda: tree(rng, rng.randint(0, 3)))
    evs = [sim.step({'op': 'open', 'docs': [enc(mk()) for _ in range(nd)]})]
    if evs[0]['obs']['k'] == 'err':
        return {'hdr': {}, 'ev': evs}
    if mode:
        from itertools import chain
        keys = [list(p) for p in (('find_orientations', 'omega', 'tolerance'), ('fit_grains', 'tolerance', 'eta'), ('material', 'active'), ('fit_grains', 'threshold'), ('multiprocessing',),
                ('find_orientations', 'orientation_maps', 'active_hkls'), ('material', 'sfacmin'), ('find_orientations',), ('fit_grains', 'tolerance'), ('material', 'dmin'))]
    for _ in range(rng.randint(2, 8)):
        op = rng.choice(['set', 'set', 'get', 'get', 'get', 'dump', 'reopen', 'redump', 'setprop'] + (['attrs'] * 5 if mode else []))
        n = rng.randint(1, len(sim.cfgs))
        p = rng.choice(keys) if mode else [rng.choice('abcd') for _ in range(rng.randint(1, 4))]
        e = {'op': op}
        if op in ('set', 'get', 'dump', 'redump', 'setprop', 'attrs'):
            e['n'] = n
        if op == 'set':
            v = (leaf(rng) if not mode else rng.choice([1.5, 3, [2, 3], 'ceria', True, None])) if rng.random() < .8 or mode else tree(rng, 1)
            if mode and p == ['material', 'active']:
                v = rng.choice(MATS)
            e.update(p=p, v=enc(v))
        elif op == 'get':
            e.update(p=p, hasd=rng.random() < .5, d=enc(leaf(rng)))
        elif op == 'setprop':
            k = rng.randrange(3)
            if k == 0:
                w = os.path.join(c.tmp, 'w%d' % rng.randrange(3))
                os.makedirs(w, exist_ok=True)
                e.update(p=['working_dir'], v=enc(w))
            elif k == 1:
                e.update(p=['analysis_name'], v=enc(rng.choice(NAMES)))
            else:
                e.update(p=['multiprocessing'], v=enc(rng.choice(['all', 'half', -1, 0, 3, 8])))
        elif op == 'attrs':
            e.update(cpus=rng.randint(1, 9), norm=NORM, names=sorted(ATTRS))
        evs.append(sim.step(e))
        if not evs[-1]['obs']['trees']:
            break
    return {'hdr': {}, 'ev': evs}


def body(c):
    rng = c.rng
    behs = c.generate('Cfg', 1 if c.quick else 2)
    c.cov['model_behaviours'] = len(behs)
    behs = rng.sample(behs, min(len(behs), 12000 if not c.quick else 3000))
    traces = []
    for b in behs:
        sim = Sim(rng, c.tmp)
        evs = [sim.step({'op': 'open', 'docs': [enc(dec(d)) for d in b['hdr']]})]
        for e in b['ev']:
            if evs[-1]['obs']['k'] == 'err' and evs[-1]['op'] == 'open':
                break
            if 'v' in e:
                e['v'] = enc(dec(e['v']))
            evs.append(sim.step(e))
        traces.append({'hdr': {}, 'ev': evs})
    for _ in range(700 if c.quick else 12000):
        traces.append(random_trace(rng, c))
    c.judge('Cfg', traces)
    c.assumptions = ['documents are blocks; YAML parsing is trusted; a path through a plain value may fail or give the default']


vf.main('C08', body)
