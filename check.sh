#!/bin/bash
# check.sh <ID> [task]     run one check
# check.sh replay <file>   run the case of a replay file
# check.sh build           build everything (setup)
# Exit status: 0 held, 1 violated (with a VIOLATION line), anything else is an error of the check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export MMV_VERIF=$here MMV_TARGET=$here/target MMV_REPO=/repo
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
mkdir -p "$MMV_TARGET"

# Rebuild the crate under test whenever its content changes, whatever the times of its files say.
hash=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$MMV_TARGET/stamp" 2>/dev/null)" != "$hash" ]; then
    find "$MMV_TARGET" -type d -path '*/.fingerprint/micromath-*' -prune -exec rm -r {} +
    echo "$hash" > "$MMV_TARGET/stamp"
fi

build() { # crate, target directory, profile
    if ! out=$(cd "$here/$1" && cargo build --offline --profile "$3" --quiet --target-dir "$2" 2>&1); then
        echo "$out" | tail -40
        echo "cannot build $1 against /repo" >&2
        exit 3
    fi
}
build_harness() { # in both profiles at once
    build harness "$MMV_TARGET/plain" plain > "$MMV_TARGET/plain.log" 2>&1 &
    local bg=$!
    build harness "$MMV_TARGET" release
    wait $bg || { cat "$MMV_TARGET/plain.log"; exit 3; }
}
plain=$MMV_TARGET/plain/plain/mmv

case "${1:-}" in
build)
    build_harness
    build defmtcheck "$MMV_TARGET/defmt" release
    exit 0 ;;
replay) id=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1) ;;
*) id=${1:?usage: check.sh <ID> | replay <file> | build} ;;
esac
if [ "$id" = C35 ]; then
    build defmtcheck "$MMV_TARGET/defmt" release
    bin=$MMV_TARGET/defmt/release/defmtcheck
else
    build_harness
    bin=$MMV_TARGET/release/mmv
    [ "$id" = C34 ] || export MMV_PLAIN_BIN=$plain
fi
if [ "$1" = replay ]; then
    grep -q '"build": "plain"' "$2" && bin=$plain
    exec "$bin" replay "$2"
fi
exec "$bin" check "$@"
