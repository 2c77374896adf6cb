#!/bin/bash
# run the repository's stable tests and report any regression against the baseline
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def passed(d):
    for k in ('passed','pass','stable','tests'):
        if k in d: 
            v=d[k]; return set(v if isinstance(v,list) else [n for n,s in v.items() if s in ('passed','pass',True)])
print(type(b), list(b)[:6], list(t)[:6])
pb, pt = passed(b), passed(t)
print(len(pb), len(pt), 'regressions:', sorted(pb-pt)[:20])
P
