#!/bin/bash
# irbuild.sh <harness> <outdir>: builds /verif/harness/<harness> against /repo's
# current working tree; leaves <outdir>/<harness>.bc (post-LTO IR) and
# <outdir>/lib<harness>.so (the same code natively, for replay).
set -e
V=$(cd "$(dirname "$0")" && pwd); H=$1; mkdir -p "$2"; OUT=$(cd "$2" && pwd)
set +u; source /opt/vp/env.sh >/dev/null 2>&1 || true
export CARGO_TARGET_DIR="$OUT/target-$H"; unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
W="$OUT/src-$H"; mkdir -p "$W"; cp "$V/harness/$H/Cargo.toml" "$W/"; ln -sfn "$V/harness/$H/src" "$W/src"; ln -sfn "$V/harness/kh.rs" "$OUT/kh.rs"
cp /repo/Cargo.lock "$W/Cargo.lock" 
cd "$W"
rm -f "$CARGO_TARGET_DIR"/release/deps/h${H}.*.bc "$CARGO_TARGET_DIR"/release/deps/libh${H}.so
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/h${H}-*
cargo rustc --offline --release -- -C codegen-units=1 -C no-vectorize-loops -C no-vectorize-slp -C save-temps
BC=$(ls "$CARGO_TARGET_DIR"/release/deps/h${H}.*.rcgu.o.rcgu.bc | head -1)
cp "$BC" "$OUT/$H.bc.tmp"; mv "$OUT/$H.bc.tmp" "$OUT/$H.bc"
cp "$CARGO_TARGET_DIR/release/deps/libh${H}.so" "$OUT/lib$H.so" 2>/dev/null || cp "$CARGO_TARGET_DIR/release/libh${H}.so" "$OUT/lib$H.so"
rm -f "$CARGO_TARGET_DIR"/release/deps/h${H}.*.bc "$CARGO_TARGET_DIR"/release/deps/h${H}.*.o
