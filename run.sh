#!/bin/bash
# usage: run.sh build | run.sh check <property> | run.sh replay <file>
# Builds the harness against /repo's current working tree (offline) and runs one check.
HERE="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS
export VERIF_DIR="$HERE"
H="$HERE/harness"

# One build: build <features...>; $1 = target directory name, the rest are cargo arguments.
build() {
    local tdir="$H/$1"; shift
    mkdir -p "$tdir"
    local sum
    sum=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
    (
        flock 9
        # cargo trusts modification times; a tree that was swapped under it must be rebuilt
        if [ "$(cat "$tdir/repo.sum" 2>/dev/null)" != "$sum" ]; then
            rm -rf "$tdir"/release/.fingerprint/cmaes-* "$tdir/repo.sum"
        fi
        (cd "$H" && cargo build --release --offline --target-dir "$tdir" "$@") > "$tdir/build.log" 2>&1 || exit 1
        echo "$sum" > "$tdir/repo.sum"
    ) 9> "$tdir/lock"
    if [ $? -ne 0 ]; then
        echo "building the harness failed:" >&2
        grep -E '^error' -A 8 "$tdir/build.log" | head -60 >&2
        exit 2
    fi
}

case "$1" in
build)
    build target
    build target-noplot --no-default-features
    ;;
check)
    build target
    if [ "$2" = C28 ]; then
        build target-noplot --no-default-features
        export VH_NOPLOT="$H/target-noplot/release/harness"
    fi
    exec "$H/target/release/harness" check "$2"
    ;;
replay)
    build target
    if grep -q '"property": "C28"' "$2"; then
        build target-noplot --no-default-features
        export VH_NOPLOT="$H/target-noplot/release/harness"
    fi
    exec "$H/target/release/harness" replay "$2"
    ;;
*)
    echo "usage: run.sh build | check <property> | replay <file>" >&2
    exit 2
    ;;
esac
