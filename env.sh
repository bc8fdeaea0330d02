# Offline Go settings
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOSUMDB=off GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOWORK=off
export GORACE="halt_on_error=1 history_size=3"
