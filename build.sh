#!/bin/bash
# Builds /verif/build/pesim from /repo's current working tree (sources are globbed).
# Only what changed is recompiled: objects are keyed by a hash of their preprocessed input.
set -eu
export LC_ALL=C.UTF-8
here=$(cd "$(dirname "$0")" && pwd)
repo=${PESIM_REPO:-/repo}
out=${PESIM_BUILD:-$here/build}
mkdir -p "$out"
exec 9>"$out/.lock"
flock 9
python3 "$here/tools/build.py" "$here" "$repo" "$out"
