"""Single table from which properties.jsonl and MANIFEST.json are generated.

Run:  python3 tools/table.py      (rewrites both files)
"""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None,
         level_note='', technique='', claimed=True, reason='', thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, state=state, observe=observe,
                  level_note=level_note, technique=technique, claimed=claimed,
                  reason=reason, thorough=thorough))


exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            anchors = {'files': p['files'],
                       'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                anchors['state'] = [{'name': n, 'meaning': m} for n, m in p['state']]
            if p['observe']:
                anchors['observe_at'] = p['observe']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    checks, na = [], []
    for p in P:
        if p['claimed'] and os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')):
            c = {'property': p['id'], 'quick_cmd': f"bash run.sh {p['id']} quick"}
            if p['thorough']:
                c['thorough_cmd'] = f"bash run.sh {p['id']} thorough"
            c['technique'] = p['technique']
            c['level'] = 'model_checking'
            c['level_note'] = p['level_note']
            checks.append(c)
        else:
            na.append({'property': p['id'], 'reason': p['reason'] or 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'TLA+ specifications in specs/, drivers in checks/, shared runner in harness/vf.py. '
                  'Known findings: known_findings.json.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
