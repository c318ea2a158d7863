# Offline Go settings for the engine and harness builds.
export HOME=/root
export GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on
unset GOFLAGS
