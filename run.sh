#!/bin/bash
# Builds one check from the current tree of /repo and runs it, first in a plain
# release build, then in one with overflow checks and debug assertions.
#   run.sh <property id> [quick|thorough]      run the check
#   run.sh <property id> --replay <file>       re-run one counterexample
#   run.sh build                               build all checks
# Exit: 0 held, 1 violated (prints VIOLATION ...), other: the check itself failed.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/target"
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER MC_COUNTS
if [ -z "$RUSTUP_TOOLCHAIN" ]; then
    export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
fi
from="$(pwd)"
cd "$here/mc" || exit 2

# Cargo compares modification times; make sure by content that the crate is
# rebuilt whenever its files differ from those of the last build here.
mkdir -p "$CARGO_TARGET_DIR" || exit 2
exec 9> "$CARGO_TARGET_DIR/tree.lock"
flock 9
tree="$(cd /repo && find Cargo.toml build.rs src -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$tree" != "$(cat "$CARGO_TARGET_DIR/tree.sha" 2>/dev/null)" ]; then
    rm -f "$CARGO_TARGET_DIR/tree.sha"
    cargo clean --profile release --offline -p mpegts -p mc > /dev/null 2>&1
    cargo clean --profile plain --offline -p mpegts -p mc > /dev/null 2>&1
    echo "$tree" > "$CARGO_TARGET_DIR/tree.sha"
fi

if [ "$1" = build ]; then
    cargo build --profile plain --offline --bins && cargo build --release --offline --bins
    exit $?
fi

id="$1"
shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
build() {
    log="$(cargo build --profile "$1" --offline --bin "$bin" 2>&1)" || {
        echo "$log" >&2
        echo "cannot build the check $id" >&2
        exit 2
    }
}
build plain &
both=$!
build release
wait $both || exit 2

exec 9>&-

case "$1" in
quick | thorough) export VERIF_TIER="$1"; shift ;;
esac

# Runs one build of the check; returns 0 to 4.
check() {
    local exe="$CARGO_TARGET_DIR/$1/$bin" code again f
    shift
    "$exe" "$@"
    code=$?
    if [ $code -le 3 ]; then
        return $code
    fi
    # Died by a signal. The same death twice (other than being killed from
    # outside) is what the code under test does.
    if [ $code -ne 137 ] && [ $code -ne 143 ] && [ $code -ne 130 ]; then
        "$exe" "$@"
        again=$?
        if [ $again -le 3 ]; then
            return $again
        fi
        if [ $again -eq $code ]; then
            mkdir -p "$here/replays" "$here/evidence"
            f="$here/replays/$id-crash.json"
            printf '{"property": "%s", "space": "", "choices": [], "what": "process died with status %s twice", "trace": ""}\n' "$id" "$code" > "$f"
            printf '{"property": "%s", "tier": "%s", "seed": %d, "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": false, "samples": ["process died with status %s twice"]}, "violations": 1, "wall_s": 0}\n' \
                "$id" "${VERIF_TIER:-quick}" "${VERIF_SEED:-0}" "$code" > "$here/evidence/$id.json"
            echo "VIOLATION property=$id replay=$f"
            return 1
        fi
    fi
    return 4
}

if [ "$1" = --replay ]; then
    case "$2" in
    /*) file="$2" ;;
    *) file="$from/$2" ;;
    esac
    if grep -q '"build": "plain"' "$file"; then
        check plain --replay "$file"
    else
        check release --replay "$file"
    fi
    exit $?
fi

export MC_COUNTS="$CARGO_TARGET_DIR/counts.$$"
rm -f "$MC_COUNTS"
trap 'rm -f "$MC_COUNTS"' EXIT
check plain "$@" || exit $?
check release "$@"
exit $?
