#!/bin/bash
# seedtest.sh ID... : build+stable tests+demo+check with the patch, demo without (restores /repo)
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git status --porcelain)" ] || { echo dirty repo; exit 1; }
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1 && b=ok || b=FAIL
  t=-; [ $b = ok ] && { bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; t=$(python3 /verif/tools/cmptests.py /tmp/seed.json); }
  bash $d/demo.sh >/tmp/seed.demo 2>&1; dm=$?
  (cd /verif && timeout 900 python3 run.py check $p quick >/tmp/seed.check.$id 2>&1); c=$?
  git checkout -- .
  bash $d/demo.sh >/tmp/seed.demo0 2>&1; d0=$?
  echo "$id ($p): build=$b tests=$t demo_patched=$dm demo_clean=$d0 check=$c $(grep -c '^VIOLATION' /tmp/seed.check.$id) $(grep -m1 CHECK-ERROR /tmp/seed.check.$id | cut -c1-200)"
done
