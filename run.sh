#!/usr/bin/env bash
# run.sh check PROP     search for a violation of PROP (VERIF_TIER, VERIF_SEED select the amount and the seed)
# run.sh setup          build everything once
# run.sh replay FILE    run the case in a replay file again
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
export TWV_ROOT=${TWV_ROOT:-$ROOT}
export RUSTUP_TOOLCHAIN=${TWV_TOOLCHAIN:-nightly-2026-10-30} CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}

# cargo decides by modification time; when the content of /repo differs from what was built, force it
fresh() { # dir, cargo clean arguments...
  local dir=$1 h
  shift
  h=$(cd /repo && find crates Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ -f "$dir/.srchash" ] && [ "$(cat "$dir/.srchash")" != "$h" ]; then
    cargo clean "$@" -p tinywasm -p tinywasm-parser -p tinywasm-types --target-dir "$dir" >/dev/null 2>&1
  fi
  rm -f "$dir/.srchash.new"
  mkdir -p "$dir"
  echo "$h" >"$dir/.srchash.new"
}
# build default|simd|plain|bare|raw|cli  (thorough runs use the optimised profile)
build() {
  local log dir prof=fuzz
  [ "$TIER" = thorough ] && prof=deep
  log=$(mktemp)
  dir=$ROOT/harness/target/$1
  if [ "$1" = cli ]; then
    fresh "$dir" --manifest-path /repo/Cargo.toml
    (cd /repo && cargo build --locked -p tinywasm-cli --target-dir "$dir") >"$log" 2>&1
  else
    [ $prof = deep ] && dir=$dir-deep
    fresh "$dir" --manifest-path harness/Cargo.toml --profile $prof
    if [ "$1" = simd ]; then
      RUSTFLAGS="-C target-cpu=x86-64-v3" cargo build --manifest-path harness/Cargo.toml --profile $prof --features simd-x86 --target-dir "$dir" >"$log" 2>&1
    elif [ "$1" = plain ]; then
      cargo build --manifest-path harness/Cargo.toml --profile $prof --no-default-features --features full,canon --target-dir "$dir" >"$log" 2>&1
    elif [ "$1" = bare ]; then
      cargo build --manifest-path harness/Cargo.toml --profile $prof --no-default-features --features dbg,canon --target-dir "$dir" >"$log" 2>&1
    elif [ "$1" = raw ]; then
      cargo build --manifest-path harness/Cargo.toml --profile $prof --no-default-features --features dbg --target-dir "$dir" >"$log" 2>&1
    else
      cargo build --manifest-path harness/Cargo.toml --profile $prof --target-dir "$dir" >"$log" 2>&1
    fi
  fi
  local rc=$?
  if [ $rc -ne 0 ]; then
    echo "ERROR: building the harness ($1) failed" >&2
    tail -40 "$log" >&2
    rm -f "$log"
    exit 2
  fi
  mv "$dir/.srchash.new" "$dir/.srchash"
  rm -f "$log"
  BIN=$dir/$prof/twv
}
variants() {
  case $1 in
    E03 | N01) echo "default simd" ;;
    E07) echo "default plain" ;;
    B01) echo "bare raw" ;;
    *) echo default ;;
  esac
}

case ${1:-} in
  setup)
    build default
    build simd
    build plain
    build bare
    build raw
    build cli
    ;;
  check)
    P=$2
    [ $# -ge 3 ] && TIER=$3
    case $P in C01 | C02 | W01) build cli && export TWV_CLI="$ROOT/harness/target/cli/debug/tinywasm" ;; esac
    rm -f "$ROOT/evidence/$P.json"
    for v in $(variants "$P"); do
      build "$v"
      "$BIN" check "$P" "$TIER" "$SEED"
      rc=$?
      [ $rc -ne 0 ] && exit $rc
    done
    exit 0
    ;;
  replay)
    TIER=quick
    v=default
    grep -q '"variant": "-simd-x86"' "$2" && v=simd
    grep -q '"variant": "-plain"' "$2" && v=plain
    grep -q '"variant": "-bare"' "$2" && v=bare
    grep -q '"variant": "-raw"' "$2" && v=raw
    build $v
    if grep -qE '"property": "(C01|C02|W01)"' "$2"; then build cli; export TWV_CLI="$ROOT/harness/target/cli/debug/tinywasm"; fi
    "$BIN" replay "$2"
    ;;
  *)
    echo "usage: run.sh setup | check PROP [quick|thorough] | replay FILE" >&2
    exit 2
    ;;
esac
