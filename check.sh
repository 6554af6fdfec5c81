#!/bin/bash
# check.sh ID [quick|thorough]   decide a property on /repo's working tree
# check.sh --replay FILE         re-execute a recorded violation
# check.sh --build               build only
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 harness error.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_HOME="${CARGO_HOME:-/root/.cargo}" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
unset RUSTFLAGS RUST_LOG RUSTC_WRAPPER
mkdir -p "$here/.build/toolsrc" "$here/evidence" "$here/replays"

# The tools are built into a simulator of their own, for S20.
tools() {
    local t
    for t in adjust_layout dump_footprint dump_layout identify klc_kicad_mod klc_symbol_lib; do
        {
            cat "/repo/src/bin/$t.rs"
            echo
            echo '#[doc(hidden)] pub fn __ksim_main() -> bool { ::std::process::Termination::report(main()) == ::std::process::ExitCode::SUCCESS }'
        } >"$here/.build/toolsrc/$t.new" || return 1
        cmp -s "$here/.build/toolsrc/$t.new" "$here/.build/toolsrc/$t.rs" || mv "$here/.build/toolsrc/$t.new" "$here/.build/toolsrc/$t.rs"
        rm -f "$here/.build/toolsrc/$t.new"
    done
}
build() { # target directory, cargo arguments
    local dir="$1"
    shift
    if ! CARGO_TARGET_DIR="$dir" cargo build --release --offline --locked --manifest-path "$here/sim/Cargo.toml" "$@" >"$dir.log" 2>&1; then
        echo "harness error: the simulator does not build" >&2
        grep -E -A6 '^error' "$dir.log" >&2 || tail -20 "$dir.log" >&2
        return 1
    fi
}
plain() {
    build "$here/.build/plain" || exit 2
    bin="$here/.build/plain/release/ksim"
}
with_tools() {
    tools && build "$here/.build/tools" --features tools || exit 2
    bin="$here/.build/tools/release/ksim"
}
# S15 interrupts the library at points that are compiled into it
with_points() {
    RUSTC_WRAPPER="$here/sim/instrument.sh" build "$here/.build/points" || exit 2
    bin="$here/.build/points/release/ksim"
}
case "${1:-}" in
--build)
    plain
    with_points
    with_tools
    exit 0
    ;;
--replay)
    if grep -q '"property": *"S20"' "$2"; then with_tools; elif grep -q '"property": *"S15"' "$2"; then with_points; else plain; fi
    exec "$bin" replay "$2"
    ;;
S15) with_points ;;
S20) with_tools ;;
*) plain ;;
esac
exec "$bin" check --prop "$1" --tier "${2:-${VERIF_TIER:-quick}}" --root "$here"
