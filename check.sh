#!/bin/bash
# usage: check.sh <ID> [--replay FILE]   exit 0: holds, 1: VIOLATION, 2: no answer
set -u
ID=$1; shift
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
TIER=${VERIF_TIER:-quick}
cd /verif/mc || exit 2
mkdir -p target
exec 9>target/.verif.lock
flock 9
# Cargo decides by modification times; decide by content that the crate under test has to be rebuilt.
STAMP=$(cd /repo && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-64)
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
build() { # target dir, features
  mkdir -p "$1"
  if [ "$(cat "$1/.stamp" 2>/dev/null)" != "$STAMP" ]; then
    cargo clean --offline --release -p mixed-num --target-dir "$1" >/dev/null 2>&1
  fi
  if ! RUSTFLAGS="--cap-lints=allow" cargo build --offline --locked --release --bin "$bin" --target-dir "$1" ${2:+--features "$2"} >"$1/$bin.log" 2>&1; then
    grep -E "^error" -A8 "$1/$bin.log" | head -60
    if grep -q '^error\[E0' "$1/$bin.log" && ! grep -q 'could not compile `mixed-num`' "$1/$bin.log"; then
      # The crate compiles, but an operation the property speaks about cannot be called any more.
      mkdir -p /verif/replays
      cp "$1/$bin.log" "/verif/replays/$ID-build.log"
      mkdir -p /verif/evidence
      echo "{\"property\":\"$ID\",\"tier\":\"$TIER\",\"seed\":${VERIF_SEED:-0},\"level\":\"model_checking\",\"coverage\":{\"states\":0,\"transitions\":0,\"rule\":\"the harness calls the public operations of the crate; it no longer compiles against it\"},\"assumptions\":[],\"wall_s\":0,\"violations\":1}" >"/verif/evidence/$ID.json"
      echo "VIOLATION property=$ID replay=/verif/replays/$ID-build.log"
      echo "  an operation is not available: the crate builds, but programs that use it as documented do not"
      exit 1
    fi
    echo "$ID: build failed"
    exit 2
  fi
  echo "$STAMP" >"$1/.stamp"
}
dir=target
build "$dir" ""
exe=$dir/release/$bin
if [ "$ID" = C22 ]; then
  build target/std std
  export MC_STD_EXE=/verif/mc/target/std/release/$bin
fi
flock -u 9
case "${1:-} ${2:-}" in
"--replay "*-build.log) echo "holds: the harness compiles"; exit 0 ;;
"--replay "*) grep -q '"unit":"std ' "$2" && exe=$MC_STD_EXE ;;
esac
exec "$exe" "$@"
