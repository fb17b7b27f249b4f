#!/bin/bash
# For development: runs checks against a scratch copy of /repo with a patch.
#   tools/trypatch.sh PATCH [-R] ID...     prints "ID caught|quiet|exit N"
V=/verif
. $V/tools/env.sh
P=$(readlink -f "$1"); shift
REV=; [ "$1" = -R ] && { REV=-R; shift; }
W=$(mktemp -d /tmp/try.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/repo" "$W/bin" "$W/verif"
git -C /repo archive HEAD | tar -x -C "$W/repo"
(cd "$W/repo" && git init -q . && git apply $REV "$P") || { echo "patch does not apply"; exit 9; }
sed "s#=> /repo#=> $W/repo#" $V/harness/go.mod > "$W/go.mod"; cp $V/harness/go.sum "$W/go.sum"
(cd "$W/repo" && go build -o "$W/bin/db-recovery" ./cmd/db-recovery) || { echo "does not build"; exit 9; }
(cd $V/harness && go build -modfile="$W/go.mod" -o "$W/bin/check" ./cmd/check) || { echo "harness does not build"; exit 9; }
case " $* " in *" C30 "*) (cd $V/harness && go build -race -modfile="$W/go.mod" -o "$W/bin/conc" ./cmd/conc);; esac
cp $V/KNOWN_FINDINGS.txt "$W/verif/" 2>/dev/null
for id in "$@"; do
	(cd "$W/verif" && timeout 900 "$W/bin/check" -verif "$W/verif" -prop "$id" -tier ${TIER:-quick} -seed ${SEED:-1} -workers ${WORKERS:-6} -cli "$W/bin/db-recovery" > "$W/out" 2>&1); rc=$?
	case $rc in
	0) echo "$id quiet";;
	1) echo "$id caught $(grep -m1 -a '^VIOLATION' "$W/out" | head -c 100) $(grep -a -v '^VIOLATION' "$W/out" | head -${LINES_SHOWN:-1} | head -c ${CH:-250})";;
	*) echo "$id exit $rc: $(tail -c 300 "$W/out")";;
	esac
done
