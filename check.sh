#!/bin/bash
# usage: check.sh ID            (tier from VERIF_TIER, seed from VERIF_SEED)
# Builds the harness against /repo's working tree and runs the monitors of one property.
# exit 0: held; 1: violated (VIOLATION line); 2: the check itself could not be run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RV_ROOT="$here" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTUP_TOOLCHAIN RUSTC_WRAPPER
mkdir -p "$here/build" "$here/evidence" "$here/replays"
rm -f "$here/evidence/$id.json"

build() { # $1: log, then the cargo command
    local log=$1; shift
    if ! "$@" >"$log" 2>&1; then
        grep -E -A8 '^error' "$log" | head -40
        echo "CHECK ERROR: the harness does not build against /repo (see $log)"
        exit 2
    fi
}

# cargo looks at modification times; look at the contents too
sum=$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
exec 9>"$here/build/lock"
flock 9
if [ "$(cat "$here/build/repo.sum" 2>/dev/null)" != "$sum" ] && [ -d "$here/harness/target" ]; then
    (cd "$here/harness" && cargo clean --locked -p ruplicity >/dev/null 2>&1)
fi
build "$here/build/build.log" cargo build --locked --manifest-path "$here/harness/Cargo.toml"
echo "$sum" >"$here/build/repo.sum"
flock -u 9

"$here/harness/target/debug/rv" run "$id"
rc=$?
if [ $rc = 0 ] && [ "$VERIF_TIER" = thorough ]; then
    "$here/thorough.sh" "$id"
    rc=$?
fi
exit $rc
