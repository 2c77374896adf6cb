"""Regenerate known_findings.json: fixed entries from /repo's fix: commits
(property looked up by keyword below) plus the open findings listed here."""
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(ROOT, 'tools', 'fix_props.json')))
OPEN = json.load(open(os.path.join(ROOT, 'tools', 'open_findings.json')))
out = list(OPEN)
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    what = s[5:]
    p = PROP.get(what)
    if not p:
        print('no property for:', what)
        continue
    out.append({'id': 'fixed-' + h, 'property': p, 'status': 'fixed', 'match': [],
                'what': 'fixed: property=%s %s %s' % (p, h, what)})
json.dump({'findings': out}, open(os.path.join(ROOT, 'known_findings.json'), 'w'), indent=1)
print(len(out), 'entries')
