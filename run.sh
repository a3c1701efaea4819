#!/bin/bash
# bash run.sh check <property> quick|thorough | replay <file> | selftest <seconds>
# Builds the simulator's driver outside /repo and /verif and runs it; the
# driver builds the simulated pkgr from /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PKGRSIM_DIR=${PKGRSIM_DIR:-$here}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
base=/dev/shm; [ -w "$base" ] || base=${TMPDIR:-/tmp}
bin=$(mktemp -d "$base/pkgrdrv-XXXXXX") || exit 3
trap 'rm -rf "$bin"' EXIT
trap 'kill -TERM $pid 2>/dev/null; wait $pid; exit 5' TERM INT HUP
if ! (cd "$here/sim" && go build -o "$bin/driver" ./driver); then
  echo "ERROR: the driver does not build"
  exit 3
fi
"$bin/driver" "$@" &
pid=$!
wait $pid
exit $?
