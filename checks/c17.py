"""C17: import names of relocated modules (spec Alias)."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import vf

HERE = os.path.abspath(__file__)
BROKEN = ['hexrd.copyright', 'hexrd.hed.instrument', 'hexrd.laue.instrument', 'hexrd.powder.instrument', 'hexrd.powder.wppf.RietveldHEDM',
          'hexrd.core.convolution._convolve']     # (a C library for ctypes)
# bound by the package itself
TOP = ['crystallography', 'mksupport', 'spacegroup', 'symbols', 'symmetry', 'unitcell']


# --------------------------------------------------------------- worker side
def statement(form, name):
    d = {}
    if form == 'import':
        return importlib.import_module(name)
    if form == 'from':
        p, t = name.rsplit('.', 1)
        exec('from %s import %s as X' % (p, t), d)
        return d['X']
    if form == 'dotted':
        exec('import %s' % name, d)
        m = d['hexrd']
        for t in name.split('.')[1:]:
            m = getattr(m, t)
        return m
    if form == 'as':
        exec('import %s as X' % name, d)
        return d['X']
    if form == 'fromlist':
        return __import__(name, fromlist=['x'])
    if form == 'attr':
        exec('import hexrd', d)
        return getattr(d['hexrd'], name.split('.')[1])
    raise ValueError(form)


def history(ops):
    import types
    uids = {}
    uid = lambda m: uids.setdefault(id(m), len(uids) + 1)
    out = []
    keep = []
    for e in ops:
        if e['op'] != 'imp':
            continue
        name = '.'.join(e['n'])
        try:
            m = statement(e['form'], name)
            keep.append(m)
            if isinstance(m, types.ModuleType):
                o = {'k': 'mod', 'name': m.__name__, 'u': uid(m), 'same': True}
            else:       # an object of the package that hides the submodule
                new = importlib.import_module(name.rsplit('.', 1)[0])
                twin = getattr(importlib.import_module(new.__name__), name.rsplit('.', 1)[1])
                o = {'k': 'obj', 'name': 'object', 'u': 0, 'same': m is twin and getattr(m, '__module__', '').startswith(new.__name__)}
        except Exception as x:
            o = {'k': 'err', 'e': type(x).__name__, 'name': '', 'u': 0, 'same': True}
        out.append(dict(e, obs=o))
    mods, files = [], {}
    for k, m in list(sys.modules.items()):
        if (k == 'hexrd' or k.startswith('hexrd.')) and isinstance(m, types.ModuleType):
            mods.append({'n': k.split('.'), 'name': m.__name__, 'u': uid(m)})
            f = getattr(m, '__file__', None) or '|'.join(sorted(getattr(m, '__path__', [])))
            files.setdefault(f, set()).add(id(m))
    twice = sorted(f for f, ids in files.items() if len(ids) > 1)
    ran = getattr(sys, 'vf_ran', [])
    twice += sorted({f for f in ran if ran.count(f) > 1})
    out.append({'op': 'scan', 'obs': {'k': 'ok'}, 'mods': mods, 'twice': twice})
    return out


def serve(inp):
    """run each history in a fork of a process that has imported nothing of hexrd"""
    jobs = json.load(open(inp))
    if jobs['heavy']:
        import numpy, scipy.optimize, scipy.ndimage, scipy.signal, scipy.interpolate, scipy.spatial, scipy.sparse, scipy.linalg, numba, h5py, yaml, lmfit   # noqa
        import skimage.measure, skimage.transform, skimage.filters, skimage.feature, matplotlib.pyplot, fabio, tqdm, xxhash                                 # noqa
    assert not any(k.split('.')[0] == 'hexrd' for k in sys.modules)
    import warnings
    warnings.simplefilter('ignore')
    for j in jobs['jobs']:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)
                os.dup2(null, 1)
                sys.path.insert(0, j['path'])
                res = history(j['ev'])
                with os.fdopen(w, 'w') as f:
                    f.write(json.dumps(res))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        print(text or 'null', flush=True)


# --------------------------------------------------------------- check side
def run_all(c, jobs, heavy, n=8):
    parts = [jobs[i::n] for i in range(n)]
    procs = []
    env = dict(os.environ)
    env['PYTHONPATH'] = os.path.join(vf.ROOT, 'harness')
    for i, p in enumerate(parts):
        f = os.path.join(c.tmp, 'jobs%d.json' % i)
        json.dump({'heavy': heavy, 'jobs': p}, open(f, 'w'))
        procs.append(subprocess.Popen([sys.executable, '-c', 'import sys; sys.path[:] = [p for p in sys.path if not p.startswith("/repo")]; sys.argv=["c17", "serve"]; '
                                       'import importlib.util as u; s=u.spec_from_file_location("c17", %r); m=u.module_from_spec(s); s.loader.exec_module(m); m.serve(%r)' % (HERE, f)],
                                      stdout=open(f + '.out', 'w'), stderr=open(f + '.err', 'w'), env=env, cwd=c.tmp))
    for p in procs:
        p.wait()
    res = [None] * len(jobs)
    for i, p in enumerate(parts):
        lines = open(os.path.join(c.tmp, 'jobs%d.json.out' % i)).read().splitlines()
        if len(lines) != len(p):
            raise vf.MachineryError('worker %d stopped: %s' % (i, open(os.path.join(c.tmp, 'jobs%d.json.err' % i)).read()[-1500:]))
        for k, l in enumerate(lines):
            res[i + k * n] = json.loads(l)
    return res


def lay_out(T, path):
    """a package tree as the table describes, with the repository's own alias machinery"""
    src = os.path.join(vf.REPO, 'hexrd')
    names = set(T['exists']) - {'hexrd.module_map'}
    pkg = set(T['pkg']) | {'hexrd.core.material'}
    ns = set(T['ns']) | {'hexrd.core', 'hexrd.hedm', 'hexrd.hed'}
    for n in sorted(names):
        p = os.path.join(path, *n.split('.'))
        body = 'import sys\n'
        if n in T['broken']:
            body += 'raise ImportError("broken")\n'
        body += 'sys.__dict__.setdefault("vf_ran", []).append(__file__)\nSTATE = []\n\n\nclass Thing:\n    pass\n'
        if n in ns or n in pkg or n == 'hexrd':
            os.makedirs(p, exist_ok=True)
            if n in pkg:
                for s in T['shadow']:
                    if s.rsplit('.', 1)[0] == n:
                        t = s.rsplit('.', 1)[1]
                        body += 'from .%s import %s\n' % (t, t)
                open(os.path.join(p, '__init__.py'), 'w').write(body)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            t = n.rsplit('.', 1)[1]
            open(p + '.py', 'w').write(body + ('\n\ndef %s():\n    pass\n' % t if n in T['shadow'] else ''))
    for f in ('__init__.py', 'module_map.py'):
        shutil.copy(os.path.join(src, f), os.path.join(path, 'hexrd', f))
    isdir = lambda n: n in pkg or n in ns
    f = lambda n, d: n.replace('.', '/') + ('/__init__.py' if d else '.py')
    with open(os.path.join(path, 'hexrd', 'file_table.tsv'), 'w') as o:
        for old, news in T['map'].items():
            for x in news if old.split('.')[1] not in TOP else []:
                o.write('%s\t%s\n' % (f(old, isdir(x['name'])), f(x['name'], isdir(x['name']))))


def real_table():
    m = {}
    mod = lambda p: (p[:-3][:-9] if p.endswith('/__init__.py') else p[:-3]).replace('/', '.')
    with open(os.path.join(vf.REPO, 'hexrd', 'file_table.tsv')) as f:
        for line in f:
            kv = line.split()
            if len(kv) == 2 and kv[0].startswith('hexrd/') and all(x.endswith('.py') for x in kv):
                n = mod(kv[1])
                if mod(kv[0]) == 'hexrd':
                    continue
                m.setdefault(mod(kv[0]), []).append({'name': n, 'parts': n.split('.')})
    exists = {'hexrd'}
    base = os.path.join(vf.REPO, 'hexrd')
    for d, ds, fs in os.walk(base):
        ds[:] = [x for x in ds if x != '__pycache__' and x.isidentifier()]
        rel = ['hexrd'] + [x for x in os.path.relpath(d, base).split('/') if x != '.']
        exists.add('.'.join(rel))
        for x in fs:
            if x.endswith(('.py', '.so')) and not x.startswith('__'):
                exists.add('.'.join(rel + [x.split('.')[0]]))
    for a in TOP:
        n = 'hexrd.core.material.' + a
        m['hexrd.' + a] = [{'name': n, 'parts': n.split('.')}]
    return {'map': m, 'exists': sorted(exists), 'broken': BROKEN, 'shadow': ['hexrd.core.convolution.convolve', 'hexrd.hedm.sampleOrientations.sampleRFZ'], 'pkg': [], 'ns': []}


def real_jobs(rng, T, n):
    old = sorted(T['map'])
    exists = [x for x in T['exists'] if x != 'hexrd']
    packs = [o for o in old if any(x.startswith(o + '.') for x in old)]
    pick = {o: next((x['name'] for x in T['map'][o] if 'core' in x['parts']), T['map'][o][0]['name']) for o in old}

    def form(name):
        fs = ['import', 'from', 'from', 'dotted', 'as', 'fromlist']
        return rng.choice(fs + (['attr'] * 2 if name.count('.') == 1 and name in T['map'] else []))

    def unmapped():
        k = rng.random()
        if k < .5:      # a submodule that came after the move, by its package's old name
            o = rng.choice(packs)
            subs = [x for x in exists if x.startswith(pick[o] + '.')]
            return o + rng.choice(subs)[len(pick[o]):] if subs else o + '.nothing'
        if k < .7:
            return rng.choice(old) + '.nothing'
        if k < .85:     # a new package asked for a module that lives elsewhere
            o = rng.choice(packs)
            t = [x for x in old if x.startswith(o + '.') and not pick[x].startswith(pick[o] + '.')]
            return pick[o] + (rng.choice(t)[len(o):] if t else '.nowhere')
        return 'hexrd.' + rng.choice(['nothing', 'config_', 'core.nothing', 'hedm.material', 'core.hedm'])
    firsts = old[:]
    rng.shuffle(firsts)
    jobs = []
    for i in range(n):
        focus = firsts[i % len(firsts)]
        evs = []
        near = [x for x in old if x.rsplit('.', 1)[0] == focus.rsplit('.', 1)[0] or x.startswith(focus + '.')]
        news = [pick[x] for x in near]
        for k in range(rng.choice([8, 14])):
            j = rng.random()
            name = focus if k == 0 and j < .7 else pick[focus] if k == 0 else \
                rng.choice(near) if j < .25 else rng.choice(news) if j < .45 else rng.choice([focus, pick[focus]]) if j < .6 else \
                unmapped() if j < .8 else rng.choice(old) if j < .9 else rng.choice(exists)
            evs.append({'op': 'imp', 'form': form(name), 'n': name.split('.')})
        jobs.append({'path': vf.REPO, 'ev': evs})
    return jobs


def body(c):
    rng = c.rng
    os.environ['VF_TABLE'] = os.path.join(c.tmp, 'tables.ndjson')
    open(os.environ['VF_TABLE'], 'w').write('{}\n')
    behs = c.generate('Alias', 2)
    c.cov['model_behaviours'] = len(behs)
    T = {}
    for b in behs:
        T[b['hdr']['tbl']] = b['hdr']['T']
    tables = [T[1], T[2]]
    for t in tables:
        t['exists'] = list(t['exists']) + ['hexrd.module_map', 'hexrd.core.material'] + ['hexrd.core.material.' + x for x in TOP]
        t['map'].update({'hexrd.' + x: [{'name': 'hexrd.core.material.' + x, 'parts': ['hexrd', 'core', 'material', x]}] for x in TOP})
    jobs = []
    roots = []
    for i, t in enumerate(tables):
        roots.append(os.path.join(c.tmp, 'tree%d' % (i + 1)))
        os.makedirs(roots[-1])
        lay_out(t, roots[-1])
    tid = []
    if c.quick:
        behs = rng.sample(behs, min(len(behs), 2500))
    for b in behs:
        jobs.append({'path': roots[b['hdr']['tbl'] - 1], 'ev': b['ev']})
        tid.append(b['hdr']['tbl'])
    pool = {k: sorted({json.dumps(e, sort_keys=True) for b in behs if b['hdr']['tbl'] == k for e in b['ev']}) for k in (1, 2)}
    for _ in range(1500 if c.quick else 20000):
        k = rng.choice([1, 2])
        evs = [json.loads(rng.choice(pool[k])) for _ in range(rng.randint(3, 7))]
        for e in evs:
            if rng.random() < .3:
                e['form'] = rng.choice(['as', 'fromlist'] + (['attr'] if len(e['n']) == 2 and '.'.join(e['n']) in T[k]['map'] else []))
        jobs.append({'path': roots[k - 1], 'ev': evs})
        tid.append(k)
    res = run_all(c, jobs, False)
    real = real_table()
    tables.append(real)
    rj = real_jobs(rng, real, 160 if c.quick else 2200)
    res += run_all(c, rj, True)
    tid += [3] * len(rj)
    with open(os.environ['VF_TABLE'], 'w') as f:
        for t in tables:
            f.write(json.dumps({k: t[k] for k in ('map', 'exists', 'broken', 'shadow')}) + '\n')
    traces = []
    for j, r, t in zip(jobs + rj, res, tid):
        if r is None:
            c.violation('the interpreter died on an import history', {'path': j['path'], 'ev': j['ev']})
            continue
        for e in r:
            # 'fromlist' and 'import' name the module itself
            if e['op'] == 'imp' and e['form'] == 'fromlist':
                e['form'] = 'import'
        traces.append({'hdr': {'table': t}, 'ev': r})
    c.cov['histories_of_the_real_package'] = len(rj)
    c.judge('Alias', traces)
    c.assumptions = ['modules that fail to import by themselves are left out of the judgement: ' + ', '.join(BROKEN)]


if sys.argv[1:2] != ['serve']:
    vf.main('C17', body)
