# Offline Go environment for the verifier and the harnesses (no cd).
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
