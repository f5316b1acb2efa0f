#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's current tree.
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export DST_ROOT="$root"
case "$1" in
  C01|C02|C03|C04|C05|C06|C09|C12|C13|C14|C17) needs=cli ;;
  C15|C16) needs=page ;;
  *) needs= ;;
esac
"$root/build.sh" $needs || { echo "HARNESS ERROR: no build, no answer"; exit 2; }
exec "$root/build/sim/debug/dst" check "$1" "${2:-${VERIF_TIER:-quick}}"
