#!/bin/bash
# run.sh ID: rebuilds the harness against /repo's current working tree and decides property ID.
# run.sh --build: only builds (setup). run.sh --replay FILE: re-runs one saved case.
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
cd "$here/harness" || exit 2
# cargo trusts modification times; drop the library's artifacts so that every run compiles /repo as it is now
cargo clean --offline --release -p swrs >/dev/null 2>&1
log="$(mktemp)"
if ! cargo build --release --offline --locked >"$log" 2>&1; then
  echo "the harness does not build against /repo:" >&2; tail -n 60 "$log" >&2; rm -f "$log"; exit 2
fi
rm -f "$log"
cd "$here" || exit 2
case "$1" in
  --build) exit 0 ;;
  --replay) exec ./harness/target/release/harness replay "$2" ;;
  *) exec ./harness/target/release/harness check "$1" ;;
esac
