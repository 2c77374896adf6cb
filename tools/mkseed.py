"""mkseed(id, prop, [(file, old, new)], demo, needs, breaks): write /verif/seeded/<id>/."""
import json, os, subprocess, tempfile, shutil, textwrap
SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export NUMBA_CACHE_DIR=$work/numba HOME=$work TMPDIR=$work PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
cd "$work" && PYTHONPATH=/repo /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def mkseed(id, prop, edits, demo, needs, breaks):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, a, b in edits:
        p = os.path.join(w, 'r', f)
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
    shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(SH)
    open(d + '/demo.py', 'w').write(textwrap.dedent(demo).lstrip())
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', id)
