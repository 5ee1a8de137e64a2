#!/bin/bash
# dev.sh ENTRY [params...] : run one harness
e=$1; shift; o=/tmp/sxo/$e; rm -rf $o; mkdir -p $o; ps=(); ex=(); for p in "$@"; do case $p in -*|*=*) ex+=(${p/=/ });; *) ps+=(--param $p);; esac; done
/verif/.build/engine/sx /verif/.build/vh.bc --entry $e --out $o "${ps[@]}" ${ex[@]}
python3 - $o <<'P'
import json,sys
o=sys.argv[1]; r=json.load(open(o+'/result.json')); print({k:r[k] for k in r if k not in('functions','lines')}); print(len(r['functions']),'fns',len(r['lines']),'lines')
import os
for f in('violations.jsonl','errors.log'):
    p=o+'/'+f
    if os.path.exists(p):
        for l in list(open(p))[:4]: print(f[:5],l[:900].rstrip())
P
