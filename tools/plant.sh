#!/bin/bash
# plant.sh ID: confirm seeded/ID (patch.diff, demo.sh, meta.json) in a scratch copy: demo passes without, fails with, tests pass with the patch
set -u
ID=$1; S=/verif/seeded/$ID; W=/tmp/wt
mkdir -p $W; rsync -a --delete --exclude target /repo/ $W/ 2>/dev/null || { cp -a /repo/. $W/; git -C $W checkout -q -- .; }
git -C $W checkout -q -- .
(cd /repo && timeout 300 bash $S/demo.sh >/tmp/demo.out 2>&1); a=$?
git -C $W apply $S/patch.diff || exit 2
(cd $W && timeout 300 bash $S/demo.sh >/tmp/demo2.out 2>&1); b=$?
echo "unchanged: $a  patched: $b"; tail -n3 /tmp/demo.out; tail -n3 /tmp/demo2.out | cut -c1-200
[ "${2:-}" = notest ] && exit
mkdir -p /tmp/wtvp; cp -a /opt/vp/. /tmp/wtvp/; sed -i 's#/repo#'$W'#g;s#/opt/vp#/tmp/wtvp#g' /tmp/wtvp/*.sh
(cd $W; bash /tmp/wtvp/build.sh >/tmp/wt-build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/wt-build.log; }
 bash /tmp/wtvp/test.sh /tmp/wt-res.json 2>&1 | tail -1)
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/wt-res.json'))
base=b if isinstance(b,list) else b.get('passed') or b.get('tests') or list(b.values())[0]
print('missing', [x for x in base if x not in r['passed']][:5])
P
git -C $W checkout -q -- .
