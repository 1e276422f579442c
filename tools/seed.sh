#!/bin/bash
# tools/seed.sh ID [notest]: confirms a planted bug in /repo (applied, built, tested, demonstrated, checked, undone)
id=$1; d=/verif/seeded/$id; cd /repo || exit 3
[ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 3; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
tmp=$(mktemp -d); cp -r $d $tmp/s; rm -f $tmp/s/*.diff $tmp/s/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
bash $tmp/s/demo.sh >$tmp/o 2>&1; r0=$?
git apply $d/patch.diff || { echo "patch does not apply"; exit 3; }
bash /opt/vp/build.sh >$tmp/b 2>&1 || { echo BUILD FAILED; tail -5 $tmp/b; exit 3; }
bash $tmp/s/demo.sh >$tmp/o1 2>&1; r1=$?
if [ "$2" != notest ]; then
timeout 150 bash /opt/vp/test.sh $tmp/t.json >/dev/null 2>&1
python3 - $tmp/t.json <<'P'
import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
want=b.get('passed') or b.get('stable') or b
lost=[x for x in want if x not in set(t['passed'])]
print('tests lost:',len(lost),lost[:3])
P
fi
echo "$id demo: clean=$r0 patched=$r1"; [ $r0 = 0 ] || tail -5 $tmp/o
[ "$r1" = 0 ] && tail -5 $tmp/o1
(cd /verif && bin/check $p 2>&1 | cut -c1-250 | tail -8)
rm -rf $tmp
