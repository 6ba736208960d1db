# Offline Go toolchain settings for the harness (never touches /opt/vp).
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
