#!/bin/bash
# run.sh setup | run.sh <property> [quick|thorough] | run.sh replay <file>
# Builds the harness against /repo's working tree, then decides one property.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
ulimit -v 24000000
mkdir -p work harness/target variants/target

build() {
  # cargo goes by modification times; go by content
  local now old
  now=$( { find /repo/src harness/src -type f -name '*.rs' -print0 | sort -z | xargs -0 sha256sum
           sha256sum /repo/Cargo.toml harness/Cargo.toml harness/Cargo.lock; } | sha256sum)
  old=$(cat harness/target/.content 2>/dev/null)
  if [ "$now" != "$old" ] || [ ! -x harness/target/release/harness ]; then
    rm -f harness/target/.content
    (cd harness && cargo clean -q --offline --release -p icalendar -p harness 2>/dev/null
     cargo build -q --offline --release 2>../work/build.log) || { tail -40 work/build.log >&2; return 1; }
    echo "$now" > harness/target/.content
  fi
}

# the coverage-guided fuzzer, for the thorough tier only
build_fuzz() {
  local now
  now=$(cat harness/target/.content; sha256sum fuzz/src/*.rs fuzz/Cargo.toml fuzz/Cargo.lock)
  if [ "$now" != "$(cat fuzz/target/.content 2>/dev/null)" ] || [ ! -x "$VERIF_FUZZ" ]; then
    rm -f fuzz/target/.content
    (cd fuzz && cargo clean -q --offline --release --target x86_64-unknown-linux-gnu -p icalendar -p harness -p fuzz 2>/dev/null
     RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares" \
     cargo build -q --offline --release --target x86_64-unknown-linux-gnu 2>../work/fuzz-build.log) || { tail -40 work/fuzz-build.log >&2; return 1; }
    echo "$now" > fuzz/target/.content
  fi
}

# the same recipes in builds with other features, for C27
build_variants() {
  local now
  now=$(cat harness/target/.content; sha256sum variants/src/*.rs variants/Cargo.toml variants/Cargo.lock variants/build.sh)
  if [ "$now" != "$(cat variants/target/.content 2>/dev/null)" ]; then
    rm -f variants/target/.content
    (cd variants && cargo clean -q --offline --release -p icalendar -p variants 2>/dev/null
     bash build.sh 2>../work/variants-build.log) || { tail -40 work/variants-build.log >&2; return 1; }
    echo "$now" > variants/target/.content
  fi
  grep "does not compile" work/variants-build.log >&2 || true
}

exec 9>work/.lock
flock 9
build || { echo "the harness does not build against /repo" >&2; exit 2; }
if [ "${2:-$VERIF_TIER}" = thorough ] && [ "$1" != replay ]; then
  export VERIF_FUZZ="$PWD/fuzz/target/x86_64-unknown-linux-gnu/release/fuzz"
  mkdir -p fuzz/target
  build_fuzz || { echo "the fuzzer does not build against /repo" >&2; exit 2; }
fi
if [ "$1" = C27 ] || [ "$1" = setup ] || { [ "$1" = replay ] && grep -q '"property": "C27"' "$2"; }; then
  build_variants || [ "$1" = setup ] || { echo "the crate does not build with other features" >&2; exit 2; }
fi
flock -u 9
exec 9>&-

case "$1" in
  setup) exit 0 ;;
  replay) exec harness/target/release/harness replay "$2" ;;
  *) [ -n "$2" ] && export VERIF_TIER="$2"
     exec harness/target/release/harness check "$1" ;;
esac
