#!/bin/bash
# Builds the harness against /repo's working tree into /verif/target. Exit 3 when it does not build.
cd "$(dirname "$0")/harness" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS LD_LIBRARY_PATH RUST_LOG CARGO_TARGET_DIR
T=../target
mkdir -p $T/crate-hash ../scratch ../evidence
exec 9>$T/build.lock
flock 9
# Cargo decides by file times; sources that changed without a newer time (copied trees) are
# found by content and their crates cleaned first.
clean=()
new=$(mktemp -d)
while read -r toml; do
    dir=$(dirname "$toml")
    name=$(sed -n 's/^name *= *"\(.*\)"/\1/p' "$toml" | head -1)
    [ -n "$name" ] && grep -q "^name = \"$name\"$" Cargo.lock || continue
    h=$(find "$dir" -name target -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
    echo "$h" > "$new/$name"
    if [ -f "$T/crate-hash/$name" ] && [ "$(cat "$T/crate-hash/$name")" != "$h" ]; then clean+=(-p "$name"); fi
done < <(find /repo -name target -prune -o -name Cargo.toml -print)
if [ ${#clean[@]} -gt 0 ]; then cargo clean --offline --target-dir $T "${clean[@]}" > $T/clean.log 2>&1; fi
if ! cargo build --offline --target-dir $T > $T/build.log 2>&1; then
    grep -E '^error' -A12 $T/build.log | head -60
    rm -rf "$new"
    echo "harness build failed"
    exit 3
fi
cp "$new"/* $T/crate-hash/
rm -rf "$new"
exit 0
