#!/bin/bash
# Runs main.go.txt beside this script against the packages in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" TZ=UTC
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/files" "$T/prog"
for f in "$D"/*.gz; do [ -e "$f" ] && gunzip -c "$f" > "$T/files/$(basename "$f" .gz)"; done
cp "$D/main.go.txt" "$T/prog/main.go"
# a module of its own with the dependencies of the repository
sed -e 's#^module .*#module demo#' "$R/go.mod" > "$T/prog/go.mod"
printf '\nrequire github.com/zbdba/db-recovery v0.0.0\nreplace github.com/zbdba/db-recovery => %s\n' "$R" >> "$T/prog/go.mod"
cp "$R/go.sum" "$T/prog/go.sum"
(cd "$T/prog" && go build -o "$T/demo" .) || exit 2
cd "$T/files" || exit 2
timeout 120 "$T/demo" "$T" 2> "$T/err"
c=$?
[ $c = 0 ] || tail -5 "$T/err"
exit $c
