#!/bin/bash
# Builds the command-line program from the current directory and runs script.sh
# beside this script in a directory with the fixture files: X is the program,
# T a scratch directory. Its exit status is the result.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" TZ=UTC
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
go build -o "$T/db-recovery" ./cmd/db-recovery || exit 2
mkdir "$T/files" "$T/log"
for f in "$D"/*.gz; do [ -e "$f" ] && gunzip -c "$f" > "$T/files/$(basename "$f" .gz)"; done
cd "$T/files" || exit 2
export T X="$T/db-recovery" D
timeout 120 bash "$D/script.sh"
