#!/bin/bash
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/tools/build.sh"
build_all && build_go
