#!/bin/bash
# For development: every check, with few cases, against each planted change.
#   tools/matrix.sh OUT [BUGID...]     appends "BUG: ID ID ..." to OUT
V=$(cd "$(dirname "$0")/.." && pwd)
. $V/tools/env.sh
OUT=$1; shift
for b in ${@:-$(ls $V/seeded)}; do
	W=$(mktemp -d /tmp/mx.XXXXXX)
	mkdir "$W/repo" "$W/bin" "$W/verif"
	git -C /repo archive HEAD | tar -x -C "$W/repo"
	(cd "$W/repo" && git init -q . && git apply "$V/seeded/$b/patch.diff") || echo "$b: does not apply" >> $OUT
	sed "s#=> /repo#=> $W/repo#" $V/harness/go.mod > "$W/go.mod"; cp $V/harness/go.sum "$W/go.sum"
	(cd "$W/repo" && go build -o "$W/bin/db-recovery" ./cmd/db-recovery)
	(cd $V/harness && go build -modfile="$W/go.mod" -o "$W/bin/check" ./cmd/check)
	cp $V/KNOWN_FINDINGS.txt "$W/verif/"
	s=
	for k in $(seq -w 1 27); do
		(cd "$W/verif" && timeout 300 "$W/bin/check" -verif "$W/verif" -prop C$k -checks ${CHECKS:-2500} -seed 1 -workers ${WORKERS:-3} -cli "$W/bin/db-recovery" > "$W/out" 2>&1)
		case $? in 0) ;; 1) s="$s C$k";; *) s="$s C$k(?)";; esac
	done
	echo "$b:$s" >> $OUT
	rm -rf "$W"
done
