#!/bin/bash
# development helper: rebuild the IR and run one harness, short summary
V=$(cd "$(dirname "$0")" && pwd)
h=$1; shift
[ -n "$NOBUILD" ] || bash "$V/build_ir.sh" || exit 3
timeout $((${T:-300}+20)) "$V/symir/target/release/symir" --ir "$V/.build/hir.ll" --harness $h --time ${T:-300} --out /tmp/$h.json "$@" 2>/tmp/$h.err
echo "exit $?"
python3 - /tmp/$h.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
d.pop('functions',None);print('witnesses',len(d.pop('witnesses',{})))
for k,v in d.items():
    if k in('violations','errors','notes'):
        print(k,len(v))
        for x in v[:8]: print('   ',str(x)[:700])
    else: print(k,v)
P
tail -3 /tmp/$h.err
