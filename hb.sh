#!/bin/bash
# dev helper: hb.sh FEATURE  -> .build/h_FEATURE/harness.ll
cd /verif/harness; export CARGO_TARGET_DIR=/verif/.build/target RUSTFLAGS="--cfg verif" VERIF_HOOK=$(ls /verif/hooks/$1.rs 2>/dev/null || echo /verif/hooks/mod.rs) RUSTUP_TOOLCHAIN=stable
exec 9>/verif/.build/lock; flock 9
rm -f $CARGO_TARGET_DIR/debug/deps/harness-*.ll; touch src/lib.rs
if cargo rustc --offline --lib --features $1 -- --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp >/tmp/hb.log 2>&1; then
 mkdir -p ../.build/h_$1; mv $CARGO_TARGET_DIR/debug/deps/harness-*.ll ../.build/h_$1/harness.ll; cp $CARGO_TARGET_DIR/debug/libharness.a ../.build/h_$1/
else grep -E "^error" -A12 /tmp/hb.log | head -${2:-60}; exit 1; fi
