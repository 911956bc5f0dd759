#!/bin/bash
# builds the extractor and the simulator from the committed files
cd "$(dirname "$(realpath "$0")")" || exit 1
(cd tools/extract && cargo build --offline --quiet) || exit 1
(cd harness && cargo build --release --offline --quiet --target-dir target/std --no-default-features --features pers) || true
(cd harness && cargo build --release --offline --quiet --target-dir target/uc --no-default-features --features pers,unicache) || true
(cd derive && RUSTC_BOOTSTRAP=1 cargo rustc --offline --quiet --profile check --lib --target-dir ../harness/target/derive -- -Zunpretty=expanded) >/dev/null 2>&1 || true
exit 0
