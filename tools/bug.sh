#!/bin/bash
# bug.sh ID [checkprop...]: confirm a planted bug (builds, passes tests, demo fails with it and passes without) and run the checks on it
id=$1; shift; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo "base build fails"; exit 2; }
(bash $d/demo.sh >/tmp/bug.demo0 2>&1); r0=$?
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/bug.build; exit 1; }
t=$(bash /opt/vp/test.sh /tmp/bug.json 2>&1 | tail -1)
(timeout 300 bash $d/demo.sh >/tmp/bug.demo1 2>&1); r1=$?
c=""; for q in ${@:-$p}; do python3 /verif/bin/check $q > /tmp/bug.check.$q 2>&1; c="$c $q=$?($(grep -c VIOLATION /tmp/bug.check.$q))"; done
git -C /repo checkout -q -- .
echo "$id: demo base=$r0 bug=$r1 tests: $t checks:$c"
