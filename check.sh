#!/bin/bash
# check.sh ID [quick|thorough|replay FILE]: build the harness and the program
# from /repo's working tree and decide one property.
# Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
ID=${1:?usage: check.sh ID [quick|thorough|replay FILE]}
MODE=${2:-${VERIF_TIER:-quick}}
. "$VERIF/tools/build.sh" || exit 2
WORKERS=${VERIF_WORKERS:-6}
if [ "$MODE" = replay ]; then
    exec "$VERIF/bin/check" -verif "$VERIF" -prop "$ID" -cli "$VERIF/bin/db-recovery" -replay "${3:?replay file}"
fi
exec "$VERIF/bin/check" -verif "$VERIF" -prop "$ID" -cli "$VERIF/bin/db-recovery" -tier "$MODE" -seed "${VERIF_SEED:-1}" -workers "$WORKERS" 
