#!/bin/bash
# Builds the shared part of the explorers once; every check rebuilds what it needs anyway.
set -u
cd "$(dirname "$0")/mc" || exit 1
for opt in 0 1; do
  CARGO_PROFILE_RELEASE_OPT_LEVEL=$opt CARGO_TARGET_DIR=$PWD/target/o$opt CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true \
    CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true cargo build --quiet --release --offline --lib || exit 1
  CARGO_PROFILE_RELEASE_OPT_LEVEL=$opt CARGO_TARGET_DIR=$PWD/target/r$opt CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false \
    CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false cargo build --quiet --release --offline --lib || exit 1
done
