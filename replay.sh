#!/bin/bash
# replay.sh FILE: runs a replay file on /repo's current tree; exit 1 if it fails exactly as recorded.
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/tools/build.sh"
if grep -q '"engine": "gosim"' "$1"; then
    build_go || exit 3
    exec "$GOSIM" -mode replay "$1"
fi
build_all || exit 3
exec "$SIMCTL" replay "$1" --so "$ROOT/target/copies/node"
