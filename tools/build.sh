#!/bin/bash
# Builds the simulator, the driver and pica (from /repo's working tree) into
# /verif/.build.  Quiet unless something fails.
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
R="${PICA_REPO:-/repo}"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER= RUSTFLAGS=
B="$V/.build"
mkdir -p "$B/target" "$B/drv" "$V/evidence"
exec 9>"$B/lock"
flock 9

fail() { echo "build failed: $1" >&2; tail -40 "$B/log" >&2; exit 70; }

stamp() {
    { cd "$1" && find $2 -type f ! -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-64
}

# the simulator
s=$(stamp "$V" sim)
if [ "$(cat "$B/sim.stamp" 2>/dev/null)" != "$s" ] || [ ! -f "$B/libsimio.so" ]; then
    gcc -O2 -U_FORTIFY_SOURCE -Wall -fPIC -shared -fvisibility=hidden \
        -o "$B/libsimio.so.new" "$V/sim/simio.c" -ldl -lpthread >"$B/log" 2>&1 || fail simulator
    mv "$B/libsimio.so.new" "$B/libsimio.so"
    echo "$s" >"$B/sim.stamp"
fi

# the driver
s=$(stamp "$V" driver)
if [ "$(cat "$B/drv.stamp" 2>/dev/null)" != "$s" ] || [ ! -x "$B/drv/debug/pica-sim" ]; then
    rm -rf "$B/drv/debug/.fingerprint"/pica-sim-*
    ( cd "$V/driver" && CARGO_TARGET_DIR="$B/drv" cargo build --offline --locked ) >"$B/log" 2>&1 || fail driver
    echo "$s" >"$B/drv.stamp"
fi

# pica
[ -f "$R/Cargo.lock" ] || cp "$V/tools/repo.Cargo.lock" "$R/Cargo.lock"
s=$(stamp "$R" "Cargo.toml Cargo.lock src crates")
if [ "$(cat "$B/pica.stamp" 2>/dev/null)" != "$s" ] || [ ! -x "$B/target/debug/pica" ]; then
    # never trust modification times
    rm -rf "$B/target/debug/.fingerprint"/pica-* "$B/target/debug/.fingerprint"/pica_*
    ( cd "$R" && CARGO_TARGET_DIR="$B/target" cargo build -p pica-cli \
        --features performant,compat,unstable --offline ) >"$B/log" 2>&1 || fail pica
    echo "$s" >"$B/pica.stamp"
fi

# the library harness
if [ "${1:-}" = lib ]; then
    l=$(stamp "$V" libsim)
    if [ "$(cat "$B/lib.stamp" 2>/dev/null)" != "$s $l" ] || [ ! -x "$B/lib/debug/pica-libsim" ]; then
        rm -rf "$B/lib/debug/.fingerprint"/pica-*
        ( cd "$V/libsim" && CARGO_TARGET_DIR="$B/lib" cargo build --offline --locked ) >"$B/log" 2>&1 || fail libsim
        echo "$s $l" >"$B/lib.stamp"
    fi
fi
exit 0
