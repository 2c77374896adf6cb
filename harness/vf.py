"""Shared runner: TLC invocation, trace judging, evidence, verdicts.

Runs under /opt/venv/bin/python (the repository's interpreter), so that the
drivers can import hexrd from /repo's working tree.
"""
import atexit
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, 'specs')
JAVA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
           '/opt/veriftools/tla/CommunityModules-deps.jar')
REPO = '/repo'


class MachineryError(Exception):
    pass


def jsonable(o):
    """Encode observations: ints, bools, strings, lists, dicts only."""
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        i = int(o)
        if abs(i) >= 2 ** 31:
            return 'big:%d' % i
        return i
    if isinstance(o, (float, np.floating)):
        f = float(o)
        if f == int(f) if f == f and abs(f) < 2 ** 31 else False:
            return int(f)
        return 'flt:%r' % f
    if o is None:
        return 'none'
    return str(o)


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.quick = self.tier == 'quick'
        self.level = level
        self.rng = random.Random('%s-%d' % (pid, self.seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.viol = []
        self.known_hit = {}
        self.outdir = os.path.join(ROOT, 'out', pid)
        shutil.rmtree(self.outdir, ignore_errors=True)
        os.makedirs(self.outdir, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % pid)
        atexit.register(shutil.rmtree, self.tmp, True)
        kf = os.path.join(ROOT, 'known_findings.json')
        self.known = []
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))['findings']
                          if k['property'] == pid and k['status'] == 'open']
        self._n = 0

    # ------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=6, simulate=None, depth=None,
            heap='6g', timeout=800, coverage=False):
        """Run TLC; returns (printed JSON objects, raw output)."""
        self._n += 1
        work = os.path.join(self.tmp, 'tlc%d' % self._n)
        os.makedirs(work)
        base = 'GenBase' if 'GenInit' in cfg else 'TraceBase' if 'TraceInit' in cfg else None
        target = os.path.join(SPECS, module + '.tla')
        if base:
            # the domain module is bound to the generic state machine here
            target = os.path.join(work, 'Run.tla')
            open(target, 'w').write('---- MODULE Run ----\nEXTENDS %s, %s\n====\n' % (module, base))
        cfgp = os.path.join(work, 'M.cfg')
        open(cfgp, 'w').write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-DTLA-Library=' + SPECS, '-Djava.io.tmpdir=' + work,
               '-cp', JAVA_CP, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', os.path.join(work, 'md'), '-noGenerateSpecTE',
               '-config', cfgp]
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(self.seed)]
        if depth:
            cmd += ['-depth', str(depth)]
        if coverage:
            cmd += ['-coverage', '1']
        cmd += [target]
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        try:
            r = subprocess.run(cmd, cwd=work, env=e, capture_output=True,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s' % module)
        out = r.stdout
        objs = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                objs.append(json.loads(json.loads(line)[2:]))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states', out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        else:
            m = re.findall(r'The number of states generated: (\d+)', out)
            if m:
                self.transitions += int(m[-1])
                self.states += int(m[-1])
        if r.returncode != 0:
            keep = os.path.join(self.outdir, 'tlc-%s.out' % module)
            open(keep, 'w').write(out + r.stderr)
            err = MachineryError('TLC failed on %s (rc %d), see %s\n%s' % (
                module, r.returncode, keep, out[-3000:]))
            err.rc, err.objs, err.out = r.returncode, objs, out
            raise err
        shutil.rmtree(work, ignore_errors=True)
        return objs, out

    @staticmethod
    def cfg(init, next, consts=None, invs=(), extra=''):
        s = 'INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n' % (init, next)
        for k, v in (consts or {}).items():
            s += 'CONSTANT %s\n' % (k + v if v.startswith(' <-') else '%s = %s' % (k, v))
        for i in invs:
            s += 'INVARIANT %s\n' % i
        return s + extra

    def generate(self, module, depth, prefix='', emit=True, simulate=None,
                 consts=None, workers=6, extra_view=False, **kw):
        """Explore the state machine of `module`, checking Safe on every
        state, and return the behaviours of length `depth`."""
        c = {k: ' <- %s%s' % (prefix, n) for k, n in
             (('Start', 'MCStart'), ('Ops', 'MCOps'), ('Apply', 'MCApply'),
              ('Safe', 'MCSafe'), ('SafeStep', 'MCSafeStep'))}
        c['GenDepth'] = str(depth)
        c['Emit'] = 'TRUE' if emit else 'FALSE'
        c.update(consts or {})
        objs, out = self.tlc(module, self.cfg('GenInit', 'GenNext', c, ('GenSafe', 'EmitHist'),
                                      'VIEW GenView\n' if extra_view else ''),
                             simulate=simulate, depth=(depth + 1 if simulate else None),
                             workers=1 if simulate else workers, **kw)
        seen, res = set(), []
        for o in objs:
            k = json.dumps(o, sort_keys=True)
            if k not in seen:
                seen.add(k)
                res.append(o)
        res.sort(key=lambda o: json.dumps(o, sort_keys=True))
        return res

    def judge(self, module, traces, prefix='', consts=None, workers=6, chunk=None, **kw):
        """Validate recorded traces with TLC.  traces: list of
        {"hdr":…, "ev":[…]}; a trace may carry a "replay" object (not sent to TLC)
        Returns the list of rejected events."""
        if not traces:
            return []
        bad = []
        chunk = chunk or len(traces)
        for base in range(0, len(traces), chunk):
            part = traces[base:base + chunk]
            path = os.path.join(self.tmp, 'traces%d.ndjson' % self._n)
            with open(path, 'w') as f:
                for t in part:
                    f.write(json.dumps({'hdr': jsonable(t['hdr']), 'ev': jsonable(t['ev'])}) + '\n')
            c = {'Begin': ' <- %sBegin' % prefix if prefix else ' <- XBegin',
                 'Judge': ' <- %sJudge' % prefix if prefix else ' <- XJudge'}
            c.update(consts or {})
            try:
                objs, out = self.tlc(module, self.cfg('TraceInit', 'TraceNext', c, (), 'VIEW TraceView\n'),
                                     env={'VF_TRACES': path}, workers=workers, **kw)
            except MachineryError as e:
                # An observation outside the domain of the model (an index the
                # model's own state does not have, say) stops TLC.  Whatever was
                # rejected before that stands; otherwise the observation is the deviation.
                if getattr(e, 'rc', None) not in (75, 76):
                    raise
                for o in e.objs:
                    t, p = o['t'] - 1, o['p'] - 1
                    tr = part[t]
                    self.violation('%s rejected event %d: %s' % (module, p, ','.join(sorted(o['bad']))),
                                   {'module': module, 'clauses': sorted(o['bad']), 'expected': o['want'],
                                    'event': tr['ev'][p], 'hdr': tr['hdr'], 'prefix': tr['ev'][:p],
                                    'replay': tr.get('replay')})
                if not e.objs:
                    self.violation('%s cannot interpret an observation: %s' % (module, e.out[-1200:]),
                                   {'module': module, 'tlc': e.out[-6000:]})
                return bad
            m = re.findall(r'(\d+) distinct states', out)
            want = sum(len(t['ev']) + 1 for t in part)
            if not m or int(m[-1]) != want:
                raise MachineryError('trace spec %s consumed %s states, expected %d' % (
                    module, m[-1:], want))
            self.traces += len(part)
            self.events += want - len(part)
            os.unlink(path)
            seen = set()
            for o in objs:
                if (o['t'], o['p']) in seen:
                    continue
                seen.add((o['t'], o['p']))
                bad.append((base + o['t'] - 1, o['p'] - 1, sorted(o['bad']), o['want']))
        bad.sort(key=lambda b: (b[0], b[1]))
        for t, p, clauses, want in bad:
            tr = traces[t]
            self.violation('%s rejected event %d: %s' % (module, p, ','.join(clauses)),
                           {'module': module, 'clauses': clauses, 'expected': want,
                            'event': tr['ev'][p], 'hdr': tr['hdr'], 'prefix': tr['ev'][:p],
                            'replay': tr.get('replay')})
        if traces and len(self.samples) < 6:
            self.samples.append({'spec': module, 'trace': json.loads(json.dumps(jsonable(
                {'hdr': traces[0]['hdr'], 'ev': traces[0]['ev'][:3]})))})
        return bad

    # ------------------------------------------------------------- verdicts
    def violation(self, what, replay):
        replay = jsonable_soft(replay)
        blob = json.dumps(replay, sort_keys=True)
        for k in self.known:
            if all(s in what + ' ' + blob for s in k['match']):
                self.known_hit[k['id']] = k
                return
        n = len(self.viol)
        path = os.path.join(self.outdir, 'replay-%03d.json' % n)
        if n < 40:
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'what': what, 'replay': replay}, f, indent=1)
        self.viol.append(what)
        if n < 10:
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(path, ROOT)))
            print('   ' + what[:400])

    def expect(self, cond, what, replay):
        if not cond:
            self.violation(what, replay)
        return cond

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(jsonable_soft(s))

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'events_validated': self.events,
               'samples': self.samples or ['none']}
        cov.update(self.cov)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        print('%s %s: %d states, %d traces, %d events, %d violations, %.1fs' % (
            self.pid, self.tier, self.states, self.traces, self.events, len(self.viol),
            time.time() - self.t0))
        return 1 if self.viol else 0


def jsonable_soft(o):
    try:
        return json.loads(json.dumps(o, default=lambda x: jsonable(x)))
    except Exception:
        return repr(o)


def outcome(fn, *a, **k):
    """Run fn; ('ok', value) or ('err', exception class name)."""
    try:
        return 'ok', fn(*a, **k)
    except Exception as e:          # noqa: the class is the observation
        return 'err', type(e).__name__


def main(pid, body):
    import logging
    logging.disable(logging.CRITICAL)
    c = Check(pid)
    try:
        body(c)
    except MachineryError as e:
        print('MACHINERY', e)
        rc = c.finish()
        sys.exit(rc if rc else 2)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        if any(f.filename.startswith(REPO + '/') for f in tb) or \
                isinstance(e, (ImportError,)):
            c.violation('the implementation raised %s where the model expects a result: %s' % (
                type(e).__name__, e), {'traceback': traceback.format_exc()})
            c.finish()
            sys.exit(1)
        rc = c.finish()
        sys.exit(rc if rc else 2)
    sys.exit(c.finish())


# ----------------------------------------------------------------- encoding
NONINT = -2147483647


def ival(x, scale=1):
    """A number as an exact integer multiple of 1/scale, or the sentinel."""
    try:
        f = float(x) * scale
    except Exception:
        return NONINT
    if f != f or abs(f) >= 2 ** 31 or f != int(f):
        return NONINT
    return int(f)


def rval(x, scale, tol=1e-9):
    """As ival, but rounding to the nearest multiple within a relative tol."""
    try:
        f = float(x) * scale
    except Exception:
        return NONINT
    if f != f or abs(f) >= 2 ** 31:
        return NONINT
    r = round(f)
    return int(r) if abs(f - r) <= tol * max(1.0, abs(f)) + tol else NONINT


def enc_img(a):
    import numpy as np
    a = np.asarray(a)
    flat = a.reshape(-1)
    if a.dtype.kind in 'iub':
        data = [int(v) if abs(int(v)) < 2 ** 31 else NONINT for v in flat]
    else:
        data = [ival(v) for v in flat]
    return {'k': 'ok', 'shape': list(a.shape), 'data': data}
