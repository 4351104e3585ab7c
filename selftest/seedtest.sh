#!/bin/bash
# seedtest.sh ID...: confirm a planted bug in a scratch copy is impossible (build.sh is tied to /repo), so apply it to
# /repo, build, run the stable tests and the demonstration, and undo it again.
for id in "$@"; do
  d=/verif/seeded/$id
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || echo "base build failed"
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.clean 2>&1); c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || b=BUILD-FAILS
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed.json'))
m=sorted(set(b['stable'])-set(o.get('passed',[])));print(len(m),m[:3])")
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.mut 2>&1); m=$?
  out=""
  for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
    (cd /verif && ./check $p quick >/tmp/seed.chk 2>&1); out="$out $p=$?"
  done
  git -C /repo checkout -q -- .
  echo "$id: demo clean=$c mutant=$m build=$b failing-tests=$t checks:$out"
done
bash /opt/vp/build.sh >/tmp/seed.log 2>&1
