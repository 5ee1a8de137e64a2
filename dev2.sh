#!/bin/bash
# dev2.sh "h p p" "h p" ... : short summaries
for x in "$@"; do set -- $x; e=$1; shift; o=/tmp/sxo/$e-$(echo $* | tr ' ' _); rm -rf "$o"; mkdir -p "$o"; ps=(); for p in "$@"; do ps+=(--param $p); done
timeout ${T:-120} /verif/.build/engine/sx /verif/.build/${BC:-vh}.bc --entry $e --out $o "${ps[@]}" --jobs ${JOBS:-1} --max-time ${T:-120} >/dev/null 2>$o/err
python3 - "$o" "$x" <<'P'
import json,sys,os
o,x=sys.argv[1:]
try: r=json.load(open(o+'/result.json'))
except Exception: print(x,'NO RESULT',open(o+'/err').read()[-300:]); sys.exit()
print(x,{k:r[k] for k in('ok','killed','violations','hangs','errors','bounded','queries','solver_s','wall_s')},'cov',r['covers'][:12])
for f in('violations.jsonl','errors.log'):
    p=o+'/'+f
    if os.path.exists(p):
        for l in list(open(p))[:2]: print('   ',f[:5],l[:700].rstrip())
P
done
