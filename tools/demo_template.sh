#!/bin/bash
# runs demo.go (a program inside the module, through an overlay): exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:$PATH
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp go.mod go.sum "$t"/
printf '{"Replace":{"%s/zzdemo/main.go":"%s/demo.go"}}' "$r" "$d" > "$t/o.json"
go build -modfile "$t/go.mod" -overlay "$t/o.json" -o "$t/demo" ./zzdemo || exit 2
mkdir "$t/w"; cd "$t/w" && timeout 120 "$t/demo"
