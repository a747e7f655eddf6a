#!/bin/bash
# build.sh [quick|thorough [mc_mat|mc_quat|mc_shape]]
# Builds the explorers (both profiles and all three binaries by default) from /verif/mc and
# /repo's working tree, offline.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME="${HOME:-/root}"
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p target
exec 9>target/.lock
flock 9
# cargo decides by modification times; this decides by content: nothing is built when the
# binaries were made from exactly these sources, and the library is compiled again otherwise
sum=$( { cat /repo/Cargo.toml mc/Cargo.toml mc/Cargo.lock build.sh
         find /repo mc -path /repo/target -prune -o -path /repo/.git -prune -o -name '*.rs' -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
build() { # profile binary...
    local p=$1 d=$1 b need=()
    shift
    [ "$p" = thorough ] && p=release d=release
    for b in "$@"; do
        [ -x "target/$d/$b" ] && [ "$(cat "target/$d/$b.sum" 2>/dev/null)" = "$sum" ] || need+=("$b")
    done
    [ ${#need[@]} = 0 ] && return 0
    rm -f "${need[@]/#/target/$d/}"
    [ "$(cat "target/$d/lib.sum" 2>/dev/null)" = "$sum" ] || rm -rf "$PWD/target/$d/.fingerprint"/mazth-* "$PWD/target/$d/.fingerprint"/mc-*
    local log
    log=$(cargo build --profile "$p" --offline --locked --manifest-path mc/Cargo.toml "${need[@]/#/--bin=}" 2>&1) || { echo "$log" | grep -v '^warning' | tail -60 >&2; return 2; }
    echo "$sum" > "target/$d/lib.sum"
    for b in "${need[@]}"; do echo "$sum" > "target/$d/$b.sum"; done
}
all=(mc_mat mc_quat mc_shape)
case "$1" in
    "") build quick "${all[@]}" && build thorough "${all[@]}" ;;
    *) if [ -n "$2" ]; then build "$1" "$2"; else build "$1" "${all[@]}"; fi ;;
esac || exit 2
