#!/bin/bash
# tools/plant.sh ID: validates /verif/seeded/ID in the scratch copy /tmp/w/repo (see DESIGN.md): the demonstration passes
# without the change, the change builds, the stable tests pass with it, and the demonstration fails with it.
set -u
ID=$1; D=/verif/seeded/$ID; R=/tmp/w/repo
mkdir -p /tmp/w
if [ ! -d $R ]; then
    git -C /repo worktree prune; git clone -q /repo $R
    for f in build test; do sed 's#/repo#/tmp/w/repo#g' /opt/vp/$f.sh | sed 's#/opt/vp/build.sh#/tmp/w/build.sh#' > /tmp/w/$f.sh; done
fi
cd $R && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
rm -rf /tmp/w/demo && mkdir /tmp/w/demo && cp $D/* /tmp/w/demo/ && rm -f /tmp/w/demo/*.diff /tmp/w/demo/meta.json
bash /tmp/w/build.sh > /tmp/w/b0.log 2>&1 || { echo "$ID: base does not build"; exit 1; }
bash /tmp/w/demo/demo.sh > /tmp/w/d0.log 2>&1 || { echo "$ID: demo fails without the change"; tail -5 /tmp/w/d0.log; exit 1; }
git apply $D/patch.diff || { echo "$ID: does not apply"; exit 1; }
bash /tmp/w/test.sh /tmp/w/out.json > /tmp/w/t.log 2>&1
N=$(python3 -c "import json;print(len(json.load(open('/tmp/w/out.json'))['passed']))")
[ "$N" = 123 ] || { echo "$ID: only $N tests pass"; grep -E "error:|FAILED|\*\*\*" /tmp/w/t.log | head; git checkout -q -- .; exit 1; }
timeout 300 bash /tmp/w/demo/demo.sh > /tmp/w/d1.log 2>&1; RC=$?
git checkout -q -- .
[ $RC != 0 ] || { echo "$ID: demo passes with the change"; exit 1; }
echo "$ID: good (demo rc=$RC: $(tail -1 /tmp/w/d1.log | cut -c1-150))"
