#!/bin/bash
# run.sh build | run.sh PROP quick|thorough | run.sh replay FILE
# Builds the harness against /repo's current working tree, then runs one exploration.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
REPO=${VERIF_REPO:-/repo}
# The nightly compiler type-checks the project's parser combinators about four times faster than
# the stable one (40 s against 140 s); either will do.
TC=+nightly
cargo $TC --version >/dev/null 2>&1 || TC=
build() {
  mkdir -p target evidence scratch
  # cargo judges staleness by modification times; judge by content so that no edit can be missed
  local h
  h=$( (cd "$REPO" && cat Cargo.toml Cargo.lock build.rs 2>/dev/null; cd "$REPO" && find src protobuf -type f | LC_ALL=C sort | xargs sha256sum; sha256sum "$REPO/README.md") | sha256sum | cut -d' ' -f1)
  if [ "$(cat target/.repo-hash 2>/dev/null)" != "$h" ]; then
    rm -rf target/mc/.fingerprint/beancount-parser-lima-*
  fi
  if ! cargo $TC build --offline --locked --profile mc --manifest-path mc/Cargo.toml >target/build.log 2>&1; then
    tail -40 target/build.log
    echo "ENGINE ERROR: harness does not build against $REPO"
    rm -f target/.repo-hash
    return 1
  fi
  echo "$h" > target/.repo-hash
}
case "$1" in
  build) build || exit 2 ;;
  replay) build || exit 2; exec target/mc/mc replay "$2" ;;
  C[0-9]*) build || exit 2; exec target/mc/mc run "$1" "${2:-quick}" ;;
  *) echo "usage: run.sh build | run.sh PROP quick|thorough | run.sh replay FILE"; exit 2 ;;
esac
