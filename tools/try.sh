#!/bin/bash
# try.sh H1,H2 [TIME] [TIER] : development aid, one executor run without the rest of the check
. "$(dirname "$0")/lib.sh"
D=$(mktemp -d "$B/try.XXXX"); trap 'rm -rf "$D"' EXIT
python3 "$V/tools/gentable.py"; bash "$V/tools/build_ir.sh" $D/a.ll $1 || exit 1
mkdir $D/o
"$B/engine/release/symex" $D/a.ll --out $D/o --harness $1 --time ${2:-60} --procs 8 --tier ${3:-0} $4 $5 $6
python3 "$V/tools/sx.py" $D/o
