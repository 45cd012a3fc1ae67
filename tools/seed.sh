#!/bin/bash
# Confirms a planted bug in a scratch copy, then runs its property's check
# against it. Usage: tools/seed.sh ID [nocheck]
id=$1; d=/verif/seeded/$id
t=$(mktemp -d /tmp/seedXXXXXX); trap "/bin/rm -rf $t" EXIT
cp -a /repo $t/repo; cd $t/repo; . /opt/vp/env.sh >/dev/null 2>&1
cp -a $d $t/demo
bash $t/demo/demo.sh >$t/o1 2>&1; r1=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
go build ./... >$t/ob 2>&1 || { echo "$id: no build"; cat $t/ob; exit 2; }
go test ./... >$t/ot 2>&1; rt=$?
bash $t/demo/demo.sh >$t/o2 2>&1; r2=$?
echo "$id: demo clean=$r1 patched=$r2 tests=$rt"
[ $r1 = 0 ] || cat $t/o1 | head; [ $r2 != 0 ] || cat $t/o2 | head; [ $rt = 0 ] || grep -v "^ok\|no test files" $t/ot | head -20
[ "$2" = nocheck ] && exit
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff
s=$(date +%s); (cd /verif && timeout 900 ./check $p quick >$t/oc 2>&1); rc=$?
git -C /repo checkout -- .
echo "$id: check $p rc=$rc $(( $(date +%s)-s ))s"; grep VIOLATION -A1 $t/oc | head -2 | cut -c1-200; [ $rc = 1 ] || tail -3 $t/oc | cut -c1-300
