#!/bin/bash
# hrun_case.sh cNN CASE:INDEX SEED: runs one case of a harness again
t=$(mktemp -d); trap "rm -rf $t" EXIT
bash "$(dirname "$0")/hbuild.sh" "$1" $t/h || exit 2
mkdir $t/s; VERIF_SCRATCH=$t/s $t/h -case "$2" -seed "${3:-1}"
