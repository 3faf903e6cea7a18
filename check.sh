#!/bin/bash
# check.sh <property id>: build the harness crate that decides the property from /repo's working
# tree and run it. Exit 0: held; 1: VIOLATION line printed; 2: could not build or run.
set -u
ID=${1:?usage: check.sh <property id>}
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$(pwd); export VERIF_DIR
. "$VERIF_DIR/env.sh"
case "$ID" in
  C50|C51|C52|C53|C54|C55) # the web UI needs no build: its sources are bundled by the check
    timeout -k 5 "${VERIF_TIMEOUT:-14000}" node --no-warnings "$VERIF_DIR/mc_web/main.mjs" "$ID"; rc=$?
    case $rc in 0|1) exit $rc ;; *) echo "check of $ID ended with status $rc"; exit 2 ;; esac ;;
  C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C11|C13) CRATE=mc_de ;;
  C37|C38|C42|C43) CRATE=mc_wasm ;;
  *) CRATE=mc_sr ;;
esac
build "$CRATE" || exit 2
# The process group is bounded in time: a deadlock in the code under test must not hang the check.
timeout -k 5 "${VERIF_TIMEOUT:-14000}" "$VERIF_DIR/target/$CRATE/debug/$CRATE" "$ID"
rc=$?
case $rc in 0|1) exit $rc ;; *) echo "check of $ID ended with status $rc"; exit 2 ;; esac
