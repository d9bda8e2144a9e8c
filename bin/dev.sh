# dev helper: build and run without the lock
. /verif/bin/env.sh; python3 /verif/bin/mirror.py && cd /verif/harness && cargo build --release --offline 2>&1 | grep -E "^error" -A12 | head -${LINES_MAX:-60}; cd /verif; /verif/build/target/release/mega-mc "$@"
