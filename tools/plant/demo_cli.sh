#!/bin/bash
# Runs the command-line program built from the current directory on the fixture
# files beside this script and compares what it prints with expect.N.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" TZ=UTC
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
go build -o "$T/db-recovery" ./cmd/db-recovery || exit 2
mkdir "$T/files" "$T/log"
for f in "$D"/*.gz; do gunzip -c "$f" > "$T/files/$(basename "$f" .gz)"; done
cd "$T/files" || exit 2
n=0
rc=0
while read -r line; do
	n=$((n + 1))
	timeout 60 "$T/db-recovery" --LogPath "$T/log" $line < /dev/null > "$T/out" 2> /dev/null
	c=$?
	if [ $c -gt 1 ] || ! cmp -s "$T/out" "$D/expect.$n"; then
		rc=1
		echo "exit $c: db-recovery $line"
		diff "$D/expect.$n" "$T/out" | cut -c1-300 | head -20
	fi
done < "$D/cmds"
exit $rc
