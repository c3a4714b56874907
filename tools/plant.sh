#!/bin/bash
# usage: plant.sh ID [nocheck]: confirm a planted bug in /repo (applied, then undone) and run its property's check (development only)
d=/verif/seeded/$1; p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
t=$(mktemp -d); cp -r $d/* $t/; rm -f $t/*.diff $t/meta.json
demo() { (cd /repo && timeout 300 bash $t/demo.sh >$t/out 2>&1); }
demo || { echo "$1: demo FAILS on the clean tree"; tail -5 $t/out; exit 1; }
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .; rm -r "$t"' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$1: build FAILS"
if demo; then echo "$1: demo passes with the bug"; else echo "$1: demo ok ($(tail -1 $t/out | cut -c1-150))"; fi
bash /opt/vp/test.sh $t/o.json >/dev/null 2>&1
python3 - $t/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passed') or b.get('tests') or b
names=set(st if isinstance(st,list) else st.keys())
ps=o.get('passed') or []
ps=set(ps if isinstance(ps,list) else ps.keys())
print("stable tests failing:", sorted(names-ps)[:5] if names-ps else "none", len(names))
P
[ "$2" = nocheck ] || /verif/check.sh $p --no-evidence | tail -4 | cut -c1-400
