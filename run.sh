#!/bin/bash
# run.sh check ID [quick|thorough] | replay FILE | try LATEX | build
# Builds the harness from /repo's current tree, then runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PATH=/opt/typst/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUST_BACKTRACE CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="${MC_TARGET:-$PWD/harness/target}"
build() {
    # Never trust time stamps for what is under test: its crates are always built again.
    (cd harness && cargo clean --release --offline -p mitex -p mitex-parser -p mitex-lexer -p mitex-spec \
        -p mitex-spec-gen -p mitex-glob -p mitex-wasm -p mitex-cli -p mc && cargo build --release --offline --workspace) >"$CARGO_TARGET_DIR.log" 2>&1 ||
        { cat "$CARGO_TARGET_DIR.log" >&2; echo "check error: the harness does not build" >&2; exit 2; }
}
# The code for the browser, as one module.
bundle() {
    local out="$CARGO_TARGET_DIR/release/dom" es="/opt/veriftools/node/node_modules/.bin/esbuild --bundle --format=esm --platform=neutral --log-level=error"
    $es harness/dom/code.ts --outfile="$out/code.mjs" || { echo "check error: typst-dom does not bundle" >&2; exit 2; }
    case "$*" in *C39*)
        $es /repo/packages/mitex-web/src/main.ts --alias:vanjs-core="$PWD/harness/dom/stub/van.mjs" --alias:mitex-wasm="$PWD/harness/dom/stub/wasm.mjs" \
            --loader:.css=empty --outfile="$out/web.mjs" || { echo "check error: mitex-web does not bundle" >&2; exit 2; } ;;
    esac
}
mkdir -p "$CARGO_TARGET_DIR"
case "$1" in
build) build ;;
*) [ -n "$MC_NOBUILD" ] || build
    case "$*" in *C28* | *C34* | *C37* | *C38* | *C39*) bundle "$@" ;; esac
    exec "$CARGO_TARGET_DIR/release/mc" "$@" ;;
esac
