#!/bin/bash
# check.sh PROPERTY        build the simulator from /repo's working tree and decide one property
# check.sh build           only build
# check.sh replay FILE     run a replay file again and show its event log
# check.sh selftest [N]    same seeds, several processes and worker splits: event logs must agree
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough)
set -u
cd "$(dirname "$0")" || exit 2
here=$(pwd)
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true
bin=sim/target/release/yamlsim
steps_bin=sim/target/steps/x86_64-unknown-linux-gnu/release/yamlsim
# build plain|steps: cargo notices changed files by their time stamps; the stamp
# file makes sure of it when the working tree was swapped underneath
build() {
  local dir=sim/target want have
  local args=(--release --offline)
  if [ "$1" = steps ]; then
    dir=sim/target/steps
    args+=(--target x86_64-unknown-linux-gnu)
    export RUSTC_WRAPPER="$here/sim/rustc-steps.sh"
  else
    unset RUSTC_WRAPPER
  fi
  mkdir -p evidence "$dir"
  export CARGO_TARGET_DIR="$here/$dir"
  want=$(cd /repo && cat Cargo.toml $(find src -type f | LC_ALL=C sort) | sha256sum)
  have=$(cat "$dir/.repo-stamp" 2>/dev/null)
  if [ "$want" != "$have" ]; then
    [ -d "$dir/release" ] && (cd sim && cargo clean "${args[@]}" -p yaml-subset >/dev/null 2>&1)
    rm -f "$here/$dir/.repo-stamp"
  fi
  if ! (cd sim && cargo build "${args[@]}") >"evidence/build-$1.log" 2>&1; then
    echo "the simulator does not build against /repo" >&2
    tail -40 "evidence/build-$1.log" >&2
    return 2
  fi
  echo "$want" > "$here/$dir/.repo-stamp"
}
# C09 and C10 need the build in which every basic block is a step
kind_of() { case "$1" in C09|C10) echo steps ;; *) echo plain ;; esac; }
bin_of() { [ "$1" = steps ] && echo $steps_bin || echo $bin; }
case "${1:-}" in
  build) build plain && build steps || exit 2 ;;
  replay) p=$(grep -o '"property": *"[A-Z0-9]*"' "$2" | head -1 | grep -o '[A-Z][0-9]*"' | tr -d '"')
     k=$(kind_of "$p"); build $k || exit 2; exec $(bin_of $k) replay "$2" ;;
  selftest) build steps || exit 2; exec $steps_bin selftest --runs "${2:-400}" --seeds "${3:-5}" ;;
  [A-Z][0-9]*) k=$(kind_of "$1"); build $k || exit 2
     exec $(bin_of $k) check --prop "$1" --seed "${VERIF_SEED:-1}" --tier "${VERIF_TIER:-quick}" --verif "$here" ${YAMLSIM_RUNS:+--runs $YAMLSIM_RUNS} ;;
  *) sed -n 2,6p "$0"; exit 2 ;;
esac
