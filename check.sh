#!/bin/bash
# check.sh <property id> | build | replay <file> : builds what it needs from /repo's working tree, then runs the check.
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR=/verif/.build/t CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export VH_ROOT=/verif
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p .build evidence replays

# Cargo goes by time stamps; when the content of /repo is not what was last built, build its crates afresh.
sources() { (cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64); }

build() { # crate
    local c=$1 stamp=.build/stamp.$1 now
    (
        flock 9
        now=$(sources)
        if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
            rm -f "$stamp"
            case $c in
            codec) (cd codec && cargo clean --offline --release -p serde_xdr) >/dev/null 2>&1 ;;
            gen) (cd gen && cargo clean --offline --release -p rpcgen -p serde_xdr -p serde_xdr_derive -p vh-gen) >/dev/null 2>&1 ;;
            esac
        fi
        (cd "$c" && cargo build --offline --release --quiet) >".build/log.$c" 2>&1 || { cat ".build/log.$c" >&2; exit 1; }
        # Where the generated programs find the libraries.
        [ "$c" != gen ] || { (cd gen && cargo build --offline --release --quiet --message-format=json) >.build/artifacts.tmp 2>/dev/null && mv .build/artifacts.tmp .build/artifacts.json || exit 1; }
        echo "$now" >"$stamp"
    ) 9>.build/lock
}
crate() { case $1 in C0[1-9]|C12|C25|C27) echo codec ;; *) echo gen ;; esac; }
bin() { echo "$CARGO_TARGET_DIR/release/vh-$1"; }

case ${1:-} in
build) for c in codec gen; do if [ -f $c/Cargo.toml ]; then build $c || exit 2; fi; done ;;
replay) c=$(crate "$(basename "$2" | cut -c1-3)"); build "$c" || exit 2; exec "$(bin "$c")" replay "$2" ;;
C[0-9][0-9]) c=$(crate "$1"); build "$c" || { echo "cannot build the checks against /repo"; exit 2; }; exec "$(bin "$c")" check "$1" ;;
*) echo "usage: check.sh <property> | build | replay <file>"; exit 2 ;;
esac
