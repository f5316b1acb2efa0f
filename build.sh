#!/bin/bash
# Builds what the checks need from /repo's current tree, into /verif/build.
# Usage: build.sh cli|lib|page ...   (each check names its own needs)
set -e
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$root/build" "$root/out" "$root/evidence"
exec 9>"$root/build/lock"
flock 9
fresh() { # never trust time stamps of /repo's files
  for d in "$@"; do find "$d" -maxdepth 4 -path '*/.fingerprint/whitespace-*' -prune -exec rm -rf {} + 2>/dev/null || true; done
}
log="$root/build/log.$$"
run() { "$@" >>"$log" 2>&1 || { cat "$log" >&2; rm -f "$log"; echo "HARNESS ERROR: build failed" >&2; exit 2; }; }
# The simulator with the instrumented library: always.
fresh "$root/build/sim"
RUSTC_WRAPPER="$root/sim/wrap.sh" run cargo build --locked --offline --manifest-path "$root/sim/Cargo.toml" --target-dir "$root/build/sim"
for what in "$@"; do
  case "$what" in
    cli)
      fresh "$root/build/cli"
      run gcc -O1 -g -shared -fPIC -fno-builtin -Wall -Wno-unused-parameter -Wno-nonnull-compare -o "$root/build/shim.so" "$root/shim/shim.c"
      run cargo build --locked --offline --manifest-path /repo/Cargo.toml --bin whitespace --target-dir "$root/build/cli"
      run cargo build --release --locked --offline --manifest-path /repo/Cargo.toml --bin whitespace --target-dir "$root/build/cli"
      ;;
    page)
      fresh "$root/build/wasm"
      run cargo build --locked --offline --manifest-path /repo/Cargo.toml --lib --target wasm32-unknown-unknown --target-dir "$root/build/wasm"
      run cargo build --release --locked --offline --manifest-path /repo/Cargo.toml --lib --target wasm32-unknown-unknown --target-dir "$root/build/wasm"
      ;;
  esac
done
rm -f "$log"
