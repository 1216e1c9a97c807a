#!/bin/bash
# Builds every checker once (offline) so that the first run of each check only relinks what changed.
cd "$(dirname "$0")" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
now=$(cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
for prof in release wrap dbg; do
  cargo build --offline --locked --manifest-path mc/Cargo.toml --profile $prof --bins 2>&1 | tail -n 3
  [ "${PIPESTATUS[0]}" = 0 ] || exit 1
  echo "$now" > mc/target/la-$prof.sha
done
