#!/bin/bash
# development helper: extract + verify; args are passed to verus
cd "$(dirname "$0")"
B=${VX:-/verif/tools/extract/target/debug/vx-extract}
O=${OUT:-/tmp/vx/out}
C=""; for f in *.vspec; do C="$C --contracts $f"; done
$B --repo ${REPO:-/repo} $C --out $O.rs --map $O.json ${TRUST:+--trust "$TRUST"} && verus $O.rs --multiple-errors 10 --triggers-mode silent "$@" 2>&1
