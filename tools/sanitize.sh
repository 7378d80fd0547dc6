#!/bin/bash
# usage: tools/sanitize.sh thread|address ID
# Runs a check's quick workload with everything (std and dependencies too) built under
# ThreadSanitizer or AddressSanitizer. ftml itself forbids unsafe code; this watches the
# unsafe code of what it is built on, as ftml uses it. Exits 1 when there is a report.
# Where the nightly toolchain can't build it, says so and exits 0.
cd "$(dirname "$0")/.." || exit 2
KIND=$1 ID=$2 DIR=$PWD/target/san-$1
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only
mkdir -p "$DIR/out/evidence" "$DIR/out/replays" "$DIR/harness" || exit 2
CRATE=$(ls /root/.cargo/registry/cache/*/parcel_css-1.0.0-alpha.32.crate 2>/dev/null | head -1)
cp -a harness/. "$DIR/harness/"
if [ -n "$CRATE" ] && tar -xzf "$CRATE" -C "$DIR"; then
    # This crate doesn't compile with new compilers: two glob imports of the name Token.
    sed -i 's/^use cssparser::\*;/use cssparser::*;\nuse cssparser::Token;/' "$DIR/parcel_css-1.0.0-alpha.32/src/properties/mod.rs"
    printf '\n[patch.crates-io]\nparcel_css = { path = "%s" }\n' "$DIR/parcel_css-1.0.0-alpha.32" >>"$DIR/harness/Cargo.toml"
fi
if ! (cd "$DIR/harness" && RUSTFLAGS="-Zsanitizer=$KIND" cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir "$DIR/target") >"$DIR/build.log" 2>&1; then
    echo "sanitize: no $KIND sanitizer build here (see $DIR/build.log); not run"
    exit 0
fi
cp known-findings.txt "$DIR/out/"
find "$DIR/out" -maxdepth 1 -name 'report*' -delete
export FTML_MON_DIR="$DIR/out"
export TSAN_OPTIONS="log_path=$DIR/out/report halt_on_error=0" ASAN_OPTIONS="log_path=$DIR/out/report detect_leaks=0"
"$DIR/target/x86_64-unknown-linux-gnu/debug/ftml-mon" check "$ID" quick >"$DIR/out/log" 2>&1
echo "sanitize: $KIND: $(tail -n 1 "$DIR/out/log")"
REPORT=$(find "$DIR/out" -maxdepth 1 -name 'report*' | sort | head -1)
if [ -n "$REPORT" ]; then
    cp "$REPORT" "replays/$ID-$KIND.txt"
    grep -m1 -a "WARNING\|ERROR" "$REPORT"
    echo "VIOLATION property=$ID replay=replays/$ID-$KIND.txt"
    exit 1
fi
exit 0
