#!/bin/bash
# usage: run.sh cNN [--tier thorough] [--replay FILE] [--only FAMILY]
# Builds the checker cNN against the current working tree of /repo (offline) and runs it; then runs its cheap families
# again in the other builds of the crate (debug assertions on; wrapping index arithmetic).
cd "$(dirname "$0")" || exit 3
V=$PWD
id=${1:?usage: run.sh cNN [args]}
shift
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET MC_SECOND
# c01 also checks arithmetic that must not wrap in a user's release build
main=release
others="dbg wrap"
[ "$id" = c01 ] && { main=wrap; others=dbg; }
args=("$@")
while [ $# -gt 0 ]; do
  case $1 in
    --only) others= ;;
    --replay)
      others=
      b=$(sed -n 's/^ "build": "\([a-z]*\)",$/\1/p' "$2" 2>/dev/null)
      [ -n "$b" ] && main=$b ;;
  esac
  shift
done
[ -n "$MC_BUILD" ] && { main=$MC_BUILD; others=; }
T=$V/mc/target
mkdir -p "$T" || exit 3
build() {
  prof=$1 log=$T/build-$id-$1.log
  # content stamp: never trust file times of /repo
  now=$(cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  stamp=$T/la-$prof.sha
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$stamp"
    cargo clean --offline --manifest-path mc/Cargo.toml --profile $prof -p la >/dev/null 2>&1
  fi
  cargo build --offline --locked --manifest-path mc/Cargo.toml --profile $prof --bin "$id" >"$log" 2>&1 || return 1
  echo "$now" >"$stamp"
}
failed() { echo "build of $id ($1) failed:"; tail -n 40 "$T/build-$id-$1.log"; exit 3; }
build $main || failed $main
pids=
for p in $others; do
  build $p & pids="$pids $p:$!"
done
MC_BUILD=$main "$T/$main/$id" "${args[@]}"
rc=$?
for x in $pids; do
  wait "${x#*:}" || { [ $rc = 0 ] && failed "${x%:*}"; }
done
[ $rc = 0 ] || exit $rc
for p in $others; do
  echo "again, build $p:"
  MC_BUILD=$p MC_SECOND=$p "$T/$p/$id" "${args[@]}" || exit $?
done
exit 0
