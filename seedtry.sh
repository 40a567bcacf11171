#!/bin/bash
# seedtry.sh ID...: applies each planted bug to /repo, checks it counts (demo
# passes before, builds, stable tests pass, demo fails after), runs the check
# of its property, and undoes it.  NOBUILD=1 skips the build and the tests.
cd /repo || exit 1
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
    d=/verif/seeded/$id
    p=$(/usr/bin/python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    bash $d/demo.sh >/tmp/st_demo0.log 2>&1; d0=$?
    git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    if [ -z "$NOBUILD" ]; then
        bash /opt/vp/build.sh >/tmp/st_build.log 2>&1; b=$?
        t=$(bash /opt/vp/test.sh /tmp/st_t.json 2>/dev/null | tail -1)
    else b=skip; t=skip; fi
    bash $d/demo.sh >/tmp/st_demo1.log 2>&1; d1=$?
    /usr/bin/python3 /verif/check.py $p --tier quick >/tmp/st_check.log 2>&1; r=$?
    git checkout -q -- .
    echo "$id [$p]: demo $d0/$d1 build $b tests '$t' check exit $r: $(grep -m1 VIOLATION /tmp/st_check.log | cut -c1-200)"
done
