#!/bin/bash
# seed.sh ID...: confirm planted bugs: the patch applies to /repo, builds, passes the stable tests, and its demonstration tells the trees apart.
# With CHECK=1 also run the property's quick check on the changed tree. /repo is restored afterwards.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  lay=$(mktemp -d); cp -r $d/* $lay/; rm -f $lay/*.diff $lay/meta.json
  git checkout -q -- .
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || echo "$id: base build failed"
  if [ -z "$SKIPDEMO" ]; then ( timeout 300 bash $lay/demo.sh >/tmp/seed_demo0.log 2>&1 ); r0=$?; else r0=skip; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$SKIPDEMO" ]; then
    bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_test.log 2>&1
    miss=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed_t.json'))
l=b['stable']
print([x for x in l if x not in t['passed']][:5] if isinstance(l,list) else 'format')
P
)
    ( timeout 300 bash $lay/demo.sh >/tmp/seed_demo1.log 2>&1 ); r1=$?
  else r1=skip; miss=; fi
  c=
  if [ -n "$CHECK" ]; then
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    (cd /verif && timeout 900 python3 check.py ${CHECKPROP:-$p} quick >/tmp/seed_check.log 2>&1); c="check=$? $(grep -m1 '^  \[' /tmp/seed_check.log | cut -c1-160)"
  fi
  echo "$id: clean=$r0 patched=$r1 tests-missing=$miss $c"
  rm -rf "$lay"
done
