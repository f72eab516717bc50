#!/bin/bash
# check.sh PROPERTY quick|thorough: rebuilds from /repo's tree and runs the check.
here=$(cd "$(dirname "$0")" && pwd)
out=${PESIM_BUILD:-$here/build}
if ! bash "$here/build.sh" >&2; then
  echo "build failed" >&2
  exit 2
fi
export PESIM_ROOT=$here
exec "$out/pesim" check "$1" "${2:-quick}" "${@:3}"
