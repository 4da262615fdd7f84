#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current tree by simulation.
# VERIF_SEED: the base of all seeds. VERIF_TIER: quick or thorough.
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/tools/build.sh"
prop=$1
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
secs=${VERIF_SECS:-}
if [ -z "$secs" ]; then
    if [ "$tier" = thorough ]; then secs=900; else secs=40; fi
fi
if [ "$prop" = C20 ]; then
    build_go || exit 3
    exec "$GOSIM" -mode check -tier "$tier" -base "$seed" -secs "$secs" -root "$ROOT"
fi
build_all || exit 3
if [ "$prop" = C21 ] && [ -f "$ROOT/target/.no-tool" ]; then
    echo "the command line tool could not be built into the simulation" >&2
    exit 3
fi
exec "$SIMCTL" check --prop "$prop" --tier "$tier" --base "$seed" --secs "$secs" --root "$ROOT" --so "$ROOT/target/copies/node"
