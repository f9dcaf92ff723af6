#!/bin/bash
# hbuild.sh cNN OUT: builds a harness program inside the module of /repo through an overlay
. /verif/env.sh
c=$1; out=$2; tmp=$(mktemp)
python3 - "$c" > "$tmp" <<'P'
import json,os,sys,glob
rep={}
H='/verif/harness'
for d in ('lib',sys.argv[1]):
    for f in glob.glob(f'{H}/{d}/*.go'):
        rep[f'/repo/verifharness/{d}/'+os.path.basename(f)]=f
for f in glob.glob(f'{H}/inpkg/*/*.go')+glob.glob(f'{H}/inpkg/*/*/*.go'):
    rep['/repo/'+os.path.relpath(f,H+'/inpkg')]=f
print(json.dumps({"Replace":rep}))
P
cd /repo && go build -overlay "$tmp" -o "$out" ./verifharness/$c; rc=$?
rm -f "$tmp"; exit $rc
