#!/bin/bash
# check.sh ID [quick|thorough]: builds the monitor against /repo's working tree and runs one check.
# The thorough tier first runs some properties under a sanitizer (AddressSanitizer, ThreadSanitizer, Miri).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VMON_ROOT="$PWD"
id=$1 tier=${2:-${VERIF_TIER:-quick}}
log=target/build.log
mkdir -p target evidence replays
build() {
  RUSTC_WRAPPER="$PWD/tools/rustc-cov.sh" CARGO_TARGET_DIR="$PWD/target/vmon" \
    cargo build --release --offline --manifest-path harness/Cargo.toml >>"$log" 2>&1 || return 1
  case "$id" in
    C25|C26) CARGO_TARGET_DIR="$PWD/target/cli" cargo build --offline --manifest-path /repo/Cargo.toml --bin minifier >>"$log" 2>&1 ;;
  esac
}
# sanitized NAME FLAG SLOW SECS [cargo args]: runs the check in a build with this sanitizer
sanitized() {
  local name=$1 flag=$2 slow=$3 secs=$4; shift 4
  RUSTFLAGS="-Zsanitizer=$flag" CARGO_TARGET_DIR="$PWD/target/$flag" \
    cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu "$@" --manifest-path harness/Cargo.toml >>"$log" 2>&1 \
    || { echo "no build under $name"; tail -5 "$log"; return 0; }
  ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:allocator_may_return_null=1 TSAN_OPTIONS=halt_on_error=1:abort_on_error=1 \
    VMON_SLOW=$slow VMON_SECS=${VMON_SAN_SECS:-$secs} VMON_EVIDENCE="$PWD/target/$flag-$id.json" \
    "target/$flag/x86_64-unknown-linux-gnu/release/vmon" run "$id" thorough
  [ $? = 1 ] && exit 1
  VMON_EXTRA="$VMON_EXTRA,$name=$PWD/target/$flag-$id.json"
}
interpreted() {
  local f="$PWD/target/miri-texts" n
  target/vmon/release/vmon texts "${VERIF_SEED:-1}" 150 >"$f"
  MIRIFLAGS=-Zmiri-disable-isolation CARGO_TARGET_DIR="$PWD/target/miri" \
    cargo +nightly miri run --offline --manifest-path miri/Cargo.toml -- "$f" >target/miri.out 2>&1
  if grep -q 'Undefined Behavior' target/miri.out; then
    cp "$f" "replays/$id-miri-texts"
    echo "VIOLATION property=$id replay=$PWD/replays/$id-miri-texts"; grep -A20 'Undefined Behavior' target/miri.out
    exit 1
  fi
  tail -1 target/miri.out
  n=$(sed -n 's/^\([0-9]*\) texts, .*/\1/p' target/miri.out)
  echo "\"evaluations\": ${n:-0}" >target/miri.json
  VMON_EXTRA="$VMON_EXTRA,Miri=$PWD/target/miri.json"
}
: >"$log"
if ! build; then
  echo "BUILD FAILED"; tail -40 "$log"; exit 2
fi
if [ "$tier" = thorough ]; then
  case "$id" in
    C01) sanitized AddressSanitizer address 8 90; interpreted ;;
    C05|C06|C23) sanitized AddressSanitizer address 8 60 ;;
    C24) sanitized ThreadSanitizer thread 16 90 -Zbuild-std ;;
  esac
  export VMON_EXTRA
fi
exec target/vmon/release/vmon run "$id" "$tier"
