#!/bin/bash
# tools/seed.sh ID [nocheck]: confirms a planted bug in a scratch copy: it applies, builds,
# passes the stable tests, its demonstration fails with it and passes without;
# then runs the check of its property against the changed copy
set -u
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedwork
mkdir -p $W
sync_tree() { (cd /repo && git ls-files -z | xargs -0 -n 200 cp --parents --update=none -t $W 2>/dev/null; git ls-files | while read f; do cmp -s "$f" "$W/$f" || cp --parents "$f" $W; done); }
sync_tree
cd $W; [ -d .git ] || git init -q .
build() { [ -f _build/build.ninja ] || cmake -S /opt/vp/cmake -B $W/_build -G Ninja -DREPO_DIR=$W -DCMAKE_BUILD_TYPE=RelWithDebInfo >/dev/null; CC=gcc CXX=g++ ninja -C $W/_build >/tmp/seed.build 2>&1; }
git apply --check $S/patch.diff || { echo "$ID: does not apply"; exit 1; }
build || { echo "base build failed"; exit 1; }
timeout 300 bash $S/demo.sh > /tmp/seed.demo0 2>&1; d0=$?
git apply $S/patch.diff
build || { echo "$ID: does not build"; tail -20 /tmp/seed.build; sync_tree; exit 1; }
timeout 300 bash $S/demo.sh > /tmp/seed.demo1 2>&1; d1=$?
export QT_QPA_PLATFORM=offscreen HOME=/root
racy='cxx_dispatch_(after_global|after_serial|group|group_lambda)$'; heavy='benchmark|priority_(custom|global)$'
ctest --test-dir $W/_build --timeout 20 -j4 -E "$heavy|$racy" > /tmp/seed.t1 2>&1; t1=$?
ctest --test-dir $W/_build --timeout 20 -j1 -R "$heavy" > /tmp/seed.t2 2>&1; t2=$?
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
c=skipped
if [ "${2:-}" != nocheck ]; then
    (cd /verif && XD_REPO=$W XD_BUILD=/tmp/mutbuild python3 check.py $P --no-evidence > /tmp/seed.check 2>&1); c=$?
fi
echo "$ID ($P): demo clean=$d0 bug=$d1 tests=$t1/$t2 check=$c $(grep -m1 -o '^--- [a-z-]*' /tmp/seed.check 2>/dev/null)"
sync_tree
