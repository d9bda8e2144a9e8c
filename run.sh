#!/bin/bash
# usage: run.sh <property> <quick|thorough> [--replay file]
# Builds the harness against /repo's current working tree and decides one property.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/bin/env.sh"
export VERIF_ROOT="$here"
prop="$1"; shift
log="$here/build/build.$prop.log"
mkdir -p "$here/build" "$here/evidence"
(
  flock 9
  python3 "$here/bin/mirror.py" && cd "$here/harness" && cargo build --release --offline --locked >"$log" 2>&1
) 9>"$here/build/.lock"
if [ $? -ne 0 ]; then
  tail -n 60 "$log" >&2
  echo "build of the harness failed" >&2
  exit 3
fi
exec "$CARGO_TARGET_DIR/release/mega-mc" "$prop" "$@"
