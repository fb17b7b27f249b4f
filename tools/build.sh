# Sourced from check.sh, and run by setup: builds bin/check and bin/db-recovery.
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off
export GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
V=${VERIF:-/verif}
mkdir -p "$V/bin" || return 2 2>/dev/null || exit 2
(cd /repo && go build -o "$V/bin/db-recovery" ./cmd/db-recovery) || { echo "build.sh: /repo does not build" >&2; return 2 2>/dev/null || exit 2; }
(cd "$V/harness" && go build -o "$V/bin/check" ./cmd/check) ||
(cd "$V/harness" && echo "build.sh: trying without the codec checks" >&2 && go build -tags noc23 -o "$V/bin/check" ./cmd/check) || { echo "build.sh: the harness does not build" >&2; return 2 2>/dev/null || exit 2; }
if [ "${ID:-C30}" = C30 ]; then # the race detector's program for the concurrent requests
	(cd "$V/harness" && go build -race -o "$V/bin/conc" ./cmd/conc) || { echo "build.sh: no race detector" >&2; rm -f "$V/bin/conc"; }
fi
