#!/bin/bash
# dev3.sh entry params… : explores without a violation limit, groups violations and replays one of each natively
e=$1; shift; o=/tmp/sxo/v-$e; rm -rf "$o"; mkdir -p "$o"; ps=(); for p in "$@"; do ps+=(--param $p); done
timeout ${T:-300} /verif/.build/engine/sx /verif/.build/${BC:-vhc}.bc --entry $e --out $o "${ps[@]}" --jobs ${JOBS:-6} --max-time ${T:-300} --max-viol 100000 >/dev/null 2>$o/err
python3 - "$o" "$e" "$@" <<'P'
import json,sys,os,subprocess
o,e,*ps=sys.argv[1:]
try: r=json.load(open(o+'/result.json'))
except Exception: print('NO RESULT',open(o+'/err').read()[-300:]); sys.exit()
print({k:r[k] for k in('ok','killed','violations','hangs','errors','bounded','queries','solver_s','wall_s')},'cov',r['covers'][:12])
if os.path.exists(o+'/errors.log'): print(open(o+'/errors.log').read()[:500])
g={}
p=o+'/violations.jsonl'
if os.path.exists(p):
    for l in open(p):
        v=json.loads(l); g.setdefault(v['kind']+v["msg"],[]).append(v)
for k,vs in g.items():
    print('##',len(vs),k[:200]); print('   ',vs[0]['stack'][:300])
    for v in vs[:int(os.environ.get('N','2'))]:
        f=o+'/in'; open(f,'w').write(''.join(f'{w} {x}\n' for w,x in v['inputs'])+''.join(f'p {x}\n' for x in ps))
        try: q=subprocess.run(["/verif/.build/native"+os.environ.get("BC","vhc")[2:]+"/debug/replay",e,f],capture_output=True,text=True,timeout=10,env={**os.environ,"RUST_BACKTRACE":"0"}); print('   ',q.returncode,q.stderr[:900])
        except subprocess.TimeoutExpired as x: print('    TIMEOUT',(x.stderr or b'')[:900])
P
