#!/bin/bash
# tools/seed.sh BUG [notest]: confirm a planted bug: it applies, builds, passes
# the stable tests; its demo fails with it and passes without; the check sees it.
bug=$1; d=/verif/seeded/$bug
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash $d/demo.sh >/tmp/seed.$bug.clean 2>&1 && echo "clean demo ok" || echo "CLEAN DEMO FAILS"
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed.$bug.build 2>&1 && echo "build ok" || echo "BUILD FAILS"
bash $d/demo.sh >/tmp/seed.$bug.demo 2>&1 && echo "DEMO PASSES WITH BUG" || echo "demo fails as it should"
if [ "$2" != notest ]; then
  bash /opt/vp/test.sh /tmp/seed.$bug.json >/tmp/seed.$bug.test 2>&1
  python3 - /tmp/seed.$bug.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('stable','passed'):
        if k in x: return set(x[k])
    return set(k for k,v in x.get('tests',x).items() if v in ('pass','passed',True))
m=passed(b)-passed(r)
print("tests: missing", len(m), sorted(m)[:5])
PY
fi
bash /verif/run.sh $prop quick >/tmp/seed.$bug.check 2>&1; echo "check exit $?"; grep -a "failing input\|failed obligation\|VIOLATION" /tmp/seed.$bug.check | cut -c1-220 | head -6
