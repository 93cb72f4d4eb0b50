#!/bin/bash
# conform.sh [TIME] : not a check. The executor against native code on much of
# the standard library (harness/src/conform.rs): every path is run natively in
# both builds and the traces compared.
. "$(dirname "$0")/lib.sh"
D=$(mktemp -d "$B/try.XXXX"); trap 'rm -rf "$D"' EXIT
python3 "$V/tools/gentable.py"; bash "$V/tools/build_native.sh" >/dev/null || exit 1
R=0
for h in h_zz_str h_zz_coll h_zz_num h_zz_misc h_zz_fp; do
    bash "$V/tools/build_ir.sh" $D/a.ll $h || exit 1
    rm -rf $D/o; mkdir $D/o
    "$B/engine/release/symex" $D/a.ll --out $D/o --harness $h --time ${1:-100} --procs 8 --tier 0 --keep-going >/dev/null
    python3 - $D/o $h "$B" <<'P' || R=1
import glob, json, subprocess, sys
d, h, B = sys.argv[1:]
n = bad = 0; paths = left = 0
for f in glob.glob(d + '/part*'):
    x = json.load(open(f))['harness'][h]
    paths += x['paths']; left += x['left']
    for u in x['unsup'][:2]: print(h, 'UNSUPPORTED', u); bad += 1
    for v in x['viol'][:2]: print(h, 'VIOLATION', v); bad += 1
    for hx, tr in x['samples']:
        for k in ('debug', 'release'):
            p = subprocess.run([B + '/native/%s/replay' % k, h, hx, '0'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            n += 1
            o = p.stdout.decode().strip()
            if p.returncode or not o.endswith(tr):
                bad += 1
                if bad < 6: print(h, hx, k, p.returncode, 'native', o[-150:], 'executor', tr[-150:])
print(h, 'paths', paths, 'left', left, 'compared', n, 'bad', bad)
sys.exit(bad > 0)
P
done
exit $R
