#!/bin/bash
# soak.sh SECONDS SEED: long runs of all harnesses on the unchanged tree (development aid)
mkdir -p /tmp/soak; cd /tmp/soak
for i in $(seq 1 21); do c=c$(printf %02d $i); bash /verif/tools/hbuild.sh $c /tmp/soak/$c || echo nobuild $c; done
seq 1 21 | xargs -P 3 -I{} bash -c 'c=c$(printf %02d {}); mkdir -p scr$c; VERIF_SCRATCH=/tmp/soak/scr$c ./$c -budget '$1' -seed '$2' -out $c.json >$c.log 2>&1; echo $c $?'
