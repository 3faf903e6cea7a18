#!/bin/bash
# Build every harness crate once (the checks rebuild what they need themselves).
cd "$(dirname "$0")" || exit 1
VERIF_DIR=$(pwd); export VERIF_DIR
. "$VERIF_DIR/env.sh"
for c in mc_de mc_sr mc_wasm; do
  [ -f "$c/Cargo.toml" ] && { build "$c" || exit 1; }
done
exit 0
