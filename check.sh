#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds what the check needs from /repo's working tree and runs it.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never XMC_VERIF="$here"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER
mkdir -p "$here/target" "$here/evidence"
exec 9>"$here/target/.lock"
flock 9

# Cargo judges freshness by modification times; judge by content as well.
stamp=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name 'Cargo.*' \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$here/target/.stamp" 2>/dev/null)" != "$stamp" ]; then
    find "$here/target" -type d \( -name 'xdvdfs*' -o -name 'xmc*' \) -path '*/.fingerprint/*' -prune -exec rm -rf {} + 2>/dev/null
    echo "$stamp" > "$here/target/.stamp"
fi

build() { # name, cargo arguments...
    local log="$here/target/build-$1.log"; shift
    if ! cargo build --offline --locked "$@" > "$log" 2>&1; then
        tail -n 40 "$log" >&2
        echo "build failed: cargo build $*" >&2
        exit 3
    fi
}

needs=" $(sed -n "s/^$id: *//p" "$here/tools/needs.txt") "
export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
case "$needs" in *" cli "*)
    build cli --manifest-path /repo/Cargo.toml -p xdvdfs-cli --target-dir "$here/target/cli"
    export XMC_CLI="$here/target/cli/debug/xdvdfs" ;;
esac
case "$needs" in *" fsd "*)
    build fsd --manifest-path /repo/Cargo.toml -p xdvdfs-fsd --target-dir "$here/target/cli"
    export XMC_FSD="$here/target/cli/debug/xdvdfsd" ;;
esac
case "$needs" in *" shim "*)
    if ! gcc -O1 -shared -fPIC -o "$here/target/shim.so" "$here/shim/shim.c" -ldl > "$here/target/build-shim.log" 2>&1; then
        cat "$here/target/build-shim.log" >&2; exit 3
    fi
    export XMC_SHIM="$here/target/shim.so" ;;
esac
case "$needs" in *" desktop "*)
    build desktop --manifest-path "$here/desktop/Cargo.toml" --target-dir "$here/target/desktop"
    export XMC_DESKTOP="$here/target/desktop/debug/xdvdfs-desktop" ;;
esac
unset CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
case "$needs" in *" sync "*)
    build sync --manifest-path "$here/mc/Cargo.toml" --features sync --target-dir "$here/target/mcsync"
    export XMC_SYNC="$here/target/mcsync/debug/xmc" ;;
esac
bin="$here/target/mc"
case "$needs" in
    *" web "*) bin="$here/target/mcweb"; build mcweb --manifest-path "$here/mc/Cargo.toml" --features web --target-dir "$bin" ;;
    *) build mc --manifest-path "$here/mc/Cargo.toml" --target-dir "$bin" ;;
esac
flock -u 9
"$bin/debug/xmc" "$id" "$tier" 9>&-
rc=$?
exit $rc
