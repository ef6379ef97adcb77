#!/bin/bash
# run.sh <property> [quick|thorough]   run one check against /repo's working tree
# run.sh replay <file>                 run one case again
# run.sh build                         just build
set -u
here=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF="$here"
export MC_BIN="$here/mc/target/repo/debug/tiny-spice-rs"
export MC_SHIM="$here/mc/target/faults.so"
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS RUST_BACKTRACE
log=$(mktemp)
trap 'rm -f "$log"' EXIT

# the checker, with the library from /repo's working tree in it. If some functions of it have got
# another interface, what is checked by calling them directly is left out.
built=
for features in "" no_bracket no_convcheck no_wavewriter lin1 no_bracket,no_convcheck,no_wavewriter no_bracket,no_convcheck,no_wavewriter,lin1; do
    if (cd "$here/mc" && cargo build --release --offline --locked --features "$features") >"$log.${features:-all}" 2>&1; then
        built=y
        [ -z "$features" ] || echo "NOTE: built with $features"
        break
    fi
    [ -s "$log" ] || cat "$log.${features:-all}" >"$log"
done
rm -f "$log".*
if [ -z "$built" ]; then
    cat "$log"
    echo "ERROR: can't build the checker"
    exit 2
fi
# the simulator itself, for the checks which run it
case "${1:-}" in
C13|C17|C23|replay|build)
    if ! (cd /repo && cargo build --offline --locked --bins --target-dir "$here/mc/target/repo") >"$log" 2>&1; then
        cat "$log"
        echo "ERROR: can't build the simulator"
        exit 2
    fi
    # and a fault injector to put under it
    if ! { cc -O1 -shared -fPIC -o "$here/mc/target/faults.$$" "$here/mc/shim/faults.c" -ldl &&
           mv -f "$here/mc/target/faults.$$" "$here/mc/target/faults.so"; } >"$log" 2>&1; then
        cat "$log"
        echo "ERROR: can't build the fault injector"
        exit 2
    fi
    ;;
esac
if [ "${1:-}" = build ]; then
    exit 0
fi

# a runaway simulation ends itself, not the sandbox
ulimit -v 6000000
ulimit -f 400000
ulimit -c 0
if [ "${1:-}" = replay ]; then
    "$here/mc/target/release/mc" replay "$2"
else
    "$here/mc/target/release/mc" run "$1" "${2:-${VERIF_TIER:-quick}}"
fi
exit $?
