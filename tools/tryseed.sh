#!/bin/bash
# tryseed.sh ID [CHECK...] : clean demo, then patched build+tests+demo+checks, then undo
V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); shift
cd /repo || exit 9
[ -z "$(git status --porcelain -uno)" ] || { echo dirty; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
[ -n "$SKIPCLEAN" ] || { bash $d/demo.sh >/tmp/ts.clean 2>&1; r=$?; echo "clean demo: $r"; [ $r = 0 ] || tail -5 /tmp/ts.clean; }
git apply $d/patch.diff || exit 8
bash /opt/vp/build.sh >/tmp/ts.build 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/ts.build; }
bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1; python3 - <<P
import json; b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ts.json'))
st=b.get('stable') or b.get('tests') or b.get('passed') or b
f=r.get('failed', []); print('tests failed:', f if isinstance(f,list) else [k for k in f])
P
bash $d/demo.sh >/tmp/ts.pat 2>&1; echo "patched demo: $?  $(tail -1 /tmp/ts.pat | cut -c1-150)"
for c in $p "$@"; do (cd $V; python3 check.py $c 2>&1 | grep -v ^UNDECIDED | cut -c1-260 | tail -4); done
