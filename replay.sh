#!/bin/bash
# replay.sh FILE: executes a replay file on /repo's current tree, exactly.
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export DST_ROOT="$root"
"$root/build.sh" cli page || exit 2
exec "$root/build/sim/debug/dst" replay "$1"
