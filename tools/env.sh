# Go settings that work offline.
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off
export GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
