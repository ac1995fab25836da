#!/bin/bash
# tryseed.sh ID [PROP...]: demo on clean tree, then with the patch: build, stable tests, demo, check(s)
D=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; git checkout -q -- .
if [ -z "$NODEMO" ]; then bash $D/demo.sh > /tmp/ts.out 2>&1; echo "clean demo: $? $(tail -1 /tmp/ts.out)"; fi
git apply $D/patch.diff || exit 1
if [ -z "$NODEMO" ]; then bash $D/demo.sh > /tmp/ts.out 2>&1; echo "patched demo: $? $(tail -1 /tmp/ts.out)"; fi
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh > /tmp/ts.build 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/ts.json > /tmp/ts.test 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ts.json'))
def norm(x):
    if isinstance(x,dict):
        for k in ('stable','passing','passed','tests'):
            if k in x: return norm(x[k])
        return {k for k,v in x.items() if v in ('pass','passed',True,'ok')}
    return set(t if isinstance(t,str) else t.get('id') or t.get('name') for t in x if isinstance(t,str) or t.get('status','pass') in ('pass','passed'))
m=norm(b)-norm(r); print('stable tests now failing:',sorted(m)[:5] if m else 'none', len(norm(b)))
PY
fi
cd /verif
for c in ${@:-$P}; do timeout 900 python3-vt -m dv.check $c 2>&1 | tail -4; done
git -C /repo checkout -q -- .
