#!/bin/bash
# check.sh PROPERTY [quick|thorough]   exit 0: held; 1: VIOLATION line printed; other: the harness could not decide
# check.sh PROPERTY replay FILE        re-executes a replay file against the current tree
ID=$1; TIER=${2:-quick}
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$V RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${SIM_TARGET:-$V/target} SIM_GEN_DIR=${SIM_TARGET:-$V/target}/gen
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUST_BACKTRACE
if [ "$TIER" = replay ]; then ARGS="replay $3"; else export VERIF_TIER=$TIER; ARGS=; fi
B=$CARGO_TARGET_DIR/release
mkdir -p "$CARGO_TARGET_DIR" "$V/evidence/replays"
LOG=$CARGO_TARGET_DIR/build-$ID.log
build() { # build ARGS... : quiet unless it fails
  ( cd "$V/sim/$SUB" && cargo build --release --offline --locked "$@" ) >"$LOG" 2>&1
}
giveup() { echo "HARNESS: $1" >&2; grep -E '^error' -A6 "$LOG" | head -40 >&2; exit 3; }
case $ID in
S02|S03)
  # S02: the pool of generated formats and the shipped ones; S03: the shipped ones only
  build --bin simgen || giveup "the tree or the harness does not build"
  rm -rf "$SIM_GEN_DIR"
  R="$V/evidence/replays/$ID-build.txt"
  timeout 400 "$B/simgen" emit "$SIM_GEN_DIR" 1 $([ $ID = S02 ] && cat "$V/sim/pool.txt") >"$CARGO_TARGET_DIR/emit.log" 2>&1
  case $? in
  0) ;;
  124|132|134|135|136|139) echo "nogen: code generation ends by a signal or not at all" >>"$CARGO_TARGET_DIR/emit.log" ;;
  *) cat "$CARGO_TARGET_DIR/emit.log" >&2; exit 3 ;;
  esac
  if grep -q '^nogen' "$CARGO_TARGET_DIR/emit.log"; then
    grep '^nogen' "$CARGO_TARGET_DIR/emit.log" >"$R"
    echo "code generation fails for a format it is known to support: $(head -1 "$R")"
    echo "VIOLATION property=$ID replay=$R"; exit 1
  fi
  SUB=pool
  if ! build --bin simrun; then
    if [ $ID = S02 ] && grep -qE -- "--> .*/gen/(g[0-9]+|s_[a-z0-9]+)\.rs" "$LOG"; then
      cp "$LOG" "$R"
      echo "generated code does not compile: $(grep -E -- '--> .*/gen/' "$LOG" | head -1)"
      echo "VIOLATION property=$ID replay=$R"; exit 1
    fi
    giveup "the pool runner does not build"
  fi
  exec "$B/simrun" "$ID" $ARGS ;;
S07|S08|S09|S11)
  # the programs themselves, built from /repo as they are shipped (no hooks), and the I/O shim they run under
  T=$CARGO_TARGET_DIR/tools
  if [ "$ID" = S11 ]; then W="-p doodle_gencode --bins --features rle"; O=0; else W="--bin doodle"; O=1; fi
  ( cd /repo && CARGO_TARGET_DIR=$T CARGO_PROFILE_RELEASE_OPT_LEVEL=$O CARGO_PROFILE_RELEASE_DEBUG=0 \
    cargo build --release --offline --locked $W ) >"$LOG" 2>&1 || giveup "the tree does not build"
  gcc -O1 -shared -fPIC -fno-delete-null-pointer-checks -o "$CARGO_TARGET_DIR/shim.so" "$V/sim/shim/shim.c" || exit 3
  SUB=cli
  build || giveup "the harness does not build"
  export SIM_BIN=$T/release SIM_SHIM=$CARGO_TARGET_DIR/shim.so SIM_SCRATCH=$CARGO_TARGET_DIR/scratch-$$
  exec "$B/simcli" "$ID" $ARGS ;;
*)
  build --bin simcore || giveup "the tree or the harness does not build"
  exec "$B/simcore" "$ID" $ARGS ;;
esac
