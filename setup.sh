#!/bin/bash
# Builds the harness once (every check builds it again from /repo's current tree, incrementally).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/bin/env.sh"
mkdir -p "$here/build" "$here/evidence"
python3 "$here/bin/mirror.py" && cd "$here/harness" && cargo build --release --offline --locked
