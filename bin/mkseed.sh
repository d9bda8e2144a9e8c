#!/bin/bash
# mkseed.sh ID: records /repo's current uncommitted diff as seeded/ID (demo.rs and meta.json must be there), validates it
# (tests pass with it, demo passes without and fails with it), and restores /repo.  Development helper.
id=$1; d=/verif/seeded/$id
[ -f $d/demo.rs ] && [ -f $d/meta.json ] || { echo "need demo.rs and meta.json"; exit 1; }
[ -f $d/util.rs ] || cp /verif/bin/seed_template/util.rs $d/
cp /verif/bin/seed_template/demo.sh $d/
if [ -n "$(git -C /repo status --porcelain)" ]; then git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .; fi
[ -s $d/patch.diff ] || { echo no patch; exit 1; }
cd /repo
echo "--- demo on the unchanged tree"; bash $d/demo.sh; r0=$?
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; git -C /repo checkout -q -- .; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
base=b.get('stable') or b.get('passed') or b
base=set(base if isinstance(base,list) else base.keys())
p=t['passed']; p=set(p if isinstance(p,list) else p.keys())
print('tests lost:', sorted(base-p)[:5], len(base-p), 'of', len(base))
PY
echo "--- demo with the patch"; bash $d/demo.sh; r1=$?
git -C /repo checkout -q -- .
echo "RESULT $id clean=$r0 patched=$r1"
