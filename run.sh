#!/bin/bash
# run.sh <property>: build the harness against /repo's current tree and run one check.
# VERIF_TIER=thorough selects the deep bounds.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_TARGET_DIR="$PWD/harness/target"
mkdir -p "$CARGO_TARGET_DIR" || exit 2
(
  flock 9
  # cargo goes by modification times: always rebuild the code under test
  (cd harness && cargo clean -q --offline --release -p gpt) 2>/dev/null
  (cd harness && cargo build -q --offline --release) 2>"$CARGO_TARGET_DIR/build.log" || { tail -50 "$CARGO_TARGET_DIR/build.log" >&2; exit 2; }
) 9>"$CARGO_TARGET_DIR/.runlock" || { echo "build failed" >&2; exit 2; }
if [ "$1" = C27 ]; then
  # a second build, with the crate's messages compiled in
  L="$CARGO_TARGET_DIR/logged"
  mkdir -p "$L" || exit 2
  (
    flock 9
    (cd harness && cargo clean -q --offline --release --target-dir "$L" -p gpt) 2>/dev/null
    (
      cd harness && cargo build -q --offline --release --target-dir "$L" --features logged &&
        cargo check -q --offline --release --target-dir "$L" --features only-log &&
        cargo check -q --offline --release --target-dir "$L" --features only-tracing
    ) 2>"$L/build.log"
  ) 9>"$L/.runlock" || {
    if grep -q 'could not compile `gpt`' "$L/build.log"; then
      GPTMC_LOGGED_BROKEN="$(grep -A6 '^error' "$L/build.log" | head -40)"
      export GPTMC_LOGGED_BROKEN
    else
      tail -50 "$L/build.log" >&2; echo "build failed" >&2; exit 2
    fi
  }
  export GPTMC_LOGGED="$L/release/gptmc"
fi
exec "$CARGO_TARGET_DIR/release/gptmc" "$1"
