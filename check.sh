#!/bin/sh
# check.sh ID [quick|thorough]   decide one property on /repo's working tree
# check.sh replay FILE           run one recorded case again
# check.sh build                 only build
set -u
VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT
export CARGO_TARGET_DIR="$VERIF_ROOT/.build/target"
export RUSTC_WRAPPER="$VERIF_ROOT/rustc-cov.sh"
export CARGO_NET_OFFLINE=true
mkdir -p "$VERIF_ROOT/.build" "$VERIF_ROOT/evidence"

core="$CARGO_TARGET_DIR/release/vh"
lab="$CARGO_TARGET_DIR/release/derivelab"

build() { # name directory
    cargo +stable build --release --offline --locked --manifest-path "$VERIF_ROOT/$2/Cargo.toml" >"$VERIF_ROOT/.build/$1.log" 2>&1
}
build_core() {
    build core harness || {
        tail -40 "$VERIF_ROOT/.build/core.log"
        echo "ERROR the checks do not build against /repo"
        exit 2
    }
}
# the library as the checks were built with it, for definitions compiled by a check itself
find_rlib() {
    VERIF_RLIB=$(cargo +stable build --release --offline --locked --manifest-path "$VERIF_ROOT/harness/Cargo.toml" --message-format=json 2>/dev/null |
        grep -o '"[^"]*/libcbored-[0-9a-f]*\.rlib"' | tail -1 | tr -d '"')
    [ -f "$VERIF_RLIB" ] || {
        echo "ERROR no library found"
        exit 2
    }
    export VERIF_RLIB
}
# the same checks and library built with AddressSanitizer, in a directory of their own
asan_env() {
    VERIF_ASAN=1
    RUSTC_BOOTSTRAP=1
    RUSTFLAGS="-Zsanitizer=address -Cllvm-args=-asan-detect-invalid-pointer-cmp=0"
    ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    CARGO_TARGET_DIR="$VERIF_ROOT/.build/asan"
    export VERIF_ASAN RUSTC_BOOTSTRAP RUSTFLAGS ASAN_OPTIONS CARGO_TARGET_DIR
}
build_asan() {
    (
        asan_env
        cargo +stable build --release --offline --locked --target x86_64-unknown-linux-gnu --manifest-path "$VERIF_ROOT/harness/Cargo.toml" >"$VERIF_ROOT/.build/asan.log" 2>&1
    )
}
vh_asan="$VERIF_ROOT/.build/asan/x86_64-unknown-linux-gnu/release/vh"
# a part of the cases with AddressSanitizer; a violation ends the check
run_asan() { # property tier scale step
    rm -f "$VERIF_ROOT/.build/$1-asan.n"
    build_asan || {
        echo "NOTE no AddressSanitizer build here, see .build/asan.log"
        return 0
    }
    (
        asan_env
        VH_SCALE=$3
        VH_ENUM_STEP=$4
        export VH_SCALE VH_ENUM_STEP
        exec "$vh_asan" run "$1" "$2"
    )
    rc=$?
    if [ $rc -ne 0 ]; then
        cp "$VERIF_ROOT/.build/$1-asan.json" "$VERIF_ROOT/evidence/$1.json"
        exit $rc
    fi
    VERIF_ASAN_CASES=$(cat "$VERIF_ROOT/.build/$1-asan.n")
    export VERIF_ASAN_CASES
}
# the derived types of this seed, or of the given definitions
build_lab() { # property seed count
    build_core
    VERIF_GEN="$VERIF_ROOT/.build/gen"
    export VERIF_GEN
    mkdir -p "$VERIF_GEN"
    "$core" gen "$2" "$3" >"$VERIF_GEN/new.rs" || exit 2
    cmp -s "$VERIF_GEN/new.rs" "$VERIF_GEN/defs.rs" || cp "$VERIF_GEN/new.rs" "$VERIF_GEN/defs.rs"
    build lab lab && return 0
    # the library and the checks build: the derive fails on a supported definition
    replay="$VERIF_ROOT/replays/$1-derive-$2-$3.txt"
    mkdir -p "$VERIF_ROOT/replays"
    {
        echo "property $1"
        echo "definitions $2 $3"
        echo "message the code generated for a supported definition does not compile"
        cat "$VERIF_ROOT/.build/lab.log"
    } >"$replay"
    grep -A12 '^error' "$VERIF_ROOT/.build/lab.log" | head -60
    cat >"$VERIF_ROOT/evidence/$1.json" <<EOF
{"property": "$1", "tier": "$tier", "seed": $seed, "level": "exploration",
 "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "compiling the derived definitions", "samples": ["definitions of seed $2, $3 random ones"]},
 "assumptions": [], "wall_s": 0, "violations": 1}
EOF
    echo "VIOLATION property=$1 replay=$replay"
    exit 1
}

seed=${VERIF_SEED:-1}
case "$seed" in *[!0-9]* | "") seed=1 ;; esac
count() {
    case "$1" in thorough) echo 600 ;; *) echo 160 ;; esac
}

case "${1:-}" in
build)
    build_core
    build_asan
    tier=quick
    build_lab build "$seed" "$(count quick)"
    ;;
replay)
    id=$(sed -n 's/^property //p' "$2" | head -1)
    tier=$(sed -n 's/^tier //p' "$2" | head -1)
    defs=$(sed -n 's/^definitions //p' "$2" | head -1)
    case "$id" in
    C20 | C21 | C22 | C24 | C30)
        # shellcheck disable=SC2086
        build_lab "$id" ${defs:-$seed $(count "$tier")}
        grep -q '^case ' "$2" || { echo "$id: the definitions compile"; exit 0; }
        exec "$lab" replay "$2"
        ;;
    *)
        build_core
        [ "$id" != C29 ] || find_rlib
        if grep -q '^sanitizer address' "$2"; then
            build_asan || exit 2
            asan_env
            exec "$vh_asan" replay "$2"
        fi
        exec "$core" replay "$2"
        ;;
    esac
    ;;
C20 | C21 | C22 | C24 | C30)
    tier=${2:-${VERIF_TIER:-quick}}
    build_lab "$1" "$seed" "$(count "$tier")"
    VERIF_DEFS="$seed $(count "$tier")"
    export VERIF_DEFS
    exec "$lab" run "$1" "$tier"
    ;;
C04 | C14)
    build_core
    run_asan "$1" "${2:-${VERIF_TIER:-quick}}" 0.1 40
    exec "$core" run "$1" "${2:-${VERIF_TIER:-quick}}"
    ;;
C*)
    build_core
    [ "$1" != C29 ] || find_rlib
    exec "$core" run "$1" "${2:-${VERIF_TIER:-quick}}"
    ;;
*)
    echo "usage: check.sh ID [quick|thorough] | replay FILE | build"
    exit 2
    ;;
esac
