#!/bin/bash
# bash tools/seed.sh ID [notests] [CHECK...]
# Judge one planted bug in a private mount namespace: a patched copy of /repo is
# bind-mounted over /repo (nothing outside the namespace changes).
id=$1; shift
tests=1; [ "$1" = notests ] && { tests=0; shift; }
V=/verif/seeded/$id
checks="$*"; [ -z "$checks" ] && checks=$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo $W/repo; mkdir $W/verif; (cd /verif && cp -a --parents checks harness specs tools run.sh build_ext.sh known_findings.json $W/verif)
cp -a $V $W/demo
export id tests checks W V
unshare -m bash <<'N'
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
d() { (cd /repo; timeout 300 bash $W/demo/demo.sh >$W/demo.log 2>&1; echo $?); }
bash /verif/build_ext.sh >/dev/null 2>&1
echo "[$id] demo clean rc=$(d)"
git apply --check $W/demo/patch.diff || { echo "[$id] PATCH DOES NOT APPLY"; exit 1; }
git apply $W/demo/patch.diff
bash /verif/build_ext.sh >/dev/null 2>&1 || echo "[$id] BUILD FAILS"
echo "[$id] demo patched rc=$(d)  $(tail -1 $W/demo.log | cut -c1-200)"
if [ $tests = 1 ]; then
  mkdir -p $W/t; bash /opt/vp/test.sh $W/t/t.json >$W/t/log 2>&1
  python3 - $W/t/t.json <<'P'
import json,sys,os
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed','pass','stable','tests'):
        if k in d:
            v=d[k]; return set(v if isinstance(v,list) else [n for n,s in v.items() if s in ('passed','pass',True)])
pb, pt = passed(b), passed(t)
print('[%s] tests: regressions %d %s' % (os.environ['id'], len(pb-pt), sorted(pb-pt)[:3]))
P
fi
for c in $checks; do
  VERIF_SEED=1 timeout 900 bash /verif/run.sh $c quick >$W/c.log 2>&1; rc=$?
  echo "[$id] check $c rc=$rc $(grep -c ^VIOLATION $W/c.log) $(grep -A1 ^VIOLATION $W/c.log | sed -n 2p | cut -c1-150)"
done
N
