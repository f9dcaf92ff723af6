#!/bin/bash
# hrun.sh BUDGET cNN...: builds and runs harness programs (development aid)
b=$1; shift
mkdir -p /tmp/h/scr
for c in "$@"; do
 bash /verif/tools/hbuild.sh $c /tmp/h/$c || continue
 VERIF_SCRATCH=/tmp/h/scr /tmp/h/$c -budget $b -out /tmp/h/$c.json; echo $c exit $?
 python3 - /tmp/h/$c.json <<'P'
import json,sys
r=json.load(open(sys.argv[1]));print(r['evaluations'],r['distinct_nontrivial'],r['per_check'])
if r.get('failure'): print(json.dumps(r['failure'],indent=0,ensure_ascii=False)[-2500:])
P
done
