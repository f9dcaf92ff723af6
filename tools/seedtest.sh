#!/bin/bash
# seedtest.sh ID [check]: confirms a planted bug in a scratch copy (and runs its property's check on it)
id=$1; s=/verif/seeded/$id; w=/tmp/seed-$id; rm -rf $w; cp -a /repo $w; cd $w || exit 2
. /verif/env.sh
bash $s/demo.sh >/tmp/seed-$id.clean 2>&1; c=$?
git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
pk="./book ./loader ./script ./cmd/app ./cmd/export ./cmd/register ./cmd/reports ./cmd/utils ./cmd/importer ./cmd/accounts ./cmd/currencies"
go build $pk >/tmp/seed-$id.build 2>&1 || echo "$id: build fails"
go test -vet=off -count=1 $pk >/tmp/seed-$id.test 2>&1 || { echo "$id: tests fail"; grep -a FAIL /tmp/seed-$id.test|head -5; }
bash $s/demo.sh >/tmp/seed-$id.bad 2>&1; b=$?
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
r=""
if [ "$2" = check ]; then
 # run a copy of the committed checks, so that evidence is not overwritten
 v=/tmp/seedv-$id; rm -rf $v; mkdir $v; cp -a /verif/check.py /verif/properties.cfg.json /verif/known_findings.txt /verif/gv /verif/specs /verif/harness /verif/tools $v/; mkdir -p $v/evidence
 (cd $v && VERIF_DEV_REPO=$w python3 check.py $p quick >/tmp/seed-$id.out 2>&1); r="check exit $? $(grep -a VIOLATION /tmp/seed-$id.out | sed 's#replay=[^ ]*/##') | $(grep -a 'failed obligation' /tmp/seed-$id.out | head -2 | tr '\n' ';')"
 rm -rf $v
fi
echo "$id ($p): demo clean $c, patched $b; $r"
rm -rf $w
