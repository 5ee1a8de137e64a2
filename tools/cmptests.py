import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x,dict) and k in x and isinstance(x[k],list): return set(map(str,x[k]))
    return None
pb,pr=passed(b),passed(r)
if pb is None or pr is None: print('?',list(b)[:5],list(r)[:5])
else: print('ok' if pb<=pr else f'{len(pb-pr)}broken:{sorted(pb-pr)[0]}')
