export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin; do [ -d $d ] && PATH=$d:$PATH; done
export PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
