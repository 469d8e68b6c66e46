#!/bin/bash
# check.sh <property> quick|thorough   build from /repo's working tree and decide one property
# check.sh replay <file>               run one recorded case again
# check.sh build                       build all that any check needs
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" || exit 2
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replay"

# cargo goes by file times; a tree put there with old ones has to be seen too
tree=$(find /repo/src /repo/Cargo.toml /repo/build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
fresh() { # profile name
    local stamp="$CARGO_TARGET_DIR/tree-$1"
    if [ "$(cat "$stamp" 2>/dev/null)" != "$tree" ]; then
        cargo clean --quiet --offline -p dmidecode --profile "$1" 2>/dev/null
    fi
}
build() { # profile, folder of its output, more arguments
    local profile=$1 dir=$2
    shift 2
    fresh "$profile"
    if ! cargo build --quiet --offline --profile "$profile" "$@" >"$CARGO_TARGET_DIR/build-$profile.log" 2>&1; then
        tail -n 40 "$CARGO_TARGET_DIR/build-$profile.log" >&2
        echo "the harness does not build with profile $profile" >&2
        exit 2
    fi
    printf '%s' "$tree" >"$CARGO_TARGET_DIR/tree-$profile"
    [ -x "$CARGO_TARGET_DIR/$dir/dmiverif" ] || exit 2
}
others() {
    build nostd nostd --no-default-features
    build shipped shipped
    build nostd-shipped nostd-shipped --no-default-features
    for p in "checked-nostd nostd" "shipped-std shipped" "shipped-nostd nostd-shipped"; do
        set -- $p
        mkdir -p "$CARGO_TARGET_DIR/builds/$1"
        cp -f "$CARGO_TARGET_DIR/$2/dmiverif" "$CARGO_TARGET_DIR/builds/$1/dmiverif" || exit 2
    done
    export DMIVERIF_BUILDS="$CARGO_TARGET_DIR/builds"
}

guided() { RUSTC_WRAPPER="$here/harness/trace.sh" build guided guided; }

need=guided
case "${1:-}" in replay) need=: ;; esac
$need &
build release release
wait $! || exit 2
case "${1:-}" in
    build) others; exit 0 ;;
    replay)
        grep -q '"property": *"C21"' "${2:?file}" && others
        exec "$CARGO_TARGET_DIR/release/dmiverif" replay "$2" ;;
    C21) others ;;
esac
exec "$CARGO_TARGET_DIR/release/dmiverif" check "${1:?property}" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" "$here"
