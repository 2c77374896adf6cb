"""Assemble DESIGN.md from tools/DESIGN.in, the property table, known_findings.json and tools/seed_results.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(R + '/MANIFEST.json'))
P = [json.loads(l) for l in open(R + '/properties.jsonl')]
ch = {c['property']: c for c in m['checks']}
na = {c['property']: c for c in m['not_applicable']}
notes = json.load(open(R + '/tools/design_props.json')) if os.path.exists(R + '/tools/design_props.json') else {}
s = open(R + '/tools/DESIGN.in').read()
out = []
for p in P:
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    if i in ch:
        out.append('%s. %s' % (ch[i].get('technique', '').rstrip('.'), ch[i].get('level_note', '')))
        out.append(notes.get(i, ''))
    else:
        out.append('Not claimed: %s' % na[i]['reason'])
    out.append('')
fx = ['* %s' % f['what'] for f in json.load(open(R + '/known_findings.json'))['findings'] if f['status'] == 'fixed']
op = ['* **open** %s: %s' % (f['property'], f['what']) for f in json.load(open(R + '/known_findings.json'))['findings'] if f['status'] == 'open']
sr = json.load(open(R + '/tools/seed_results.json')) if os.path.exists(R + '/tools/seed_results.json') else {}
rows = []
for d in sorted(os.listdir(R + '/seeded')):
    mt = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows.append('* `%s` (%s): needs %s. %s' % (d, mt['property'], mt['needs'], sr.get(d, 'caught by ' + mt['property'])))
s = s.replace('@@PROPS@@', '\n'.join(out)).replace('@@FIXES@@', '\n'.join(fx + op)).replace('@@SEEDS@@', '\n'.join(rows))
s = s.replace('@@NOTES@@', open(R + '/tools/design_notes.md').read())
open(R + '/DESIGN.md', 'w').write(s)
