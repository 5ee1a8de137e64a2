#!/usr/bin/env python3
"""run.py setup | check <ID> [quick|thorough] | list
Decides one property: regenerates the LLVM bitcode of /repo's crates and the harnesses from the current working
tree, executes the property's harnesses symbolically (engine/sx, Z3), replays every counterexample natively and
writes evidence/<ID>.json.  Exit 0 held / 1 violated (replayed) / 2 the check itself failed."""
import fcntl, json, os, re, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, '.build')
sys.path.insert(0, V)
from specs import SPECS  # noqa: E402

CORES = os.cpu_count() or 8


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fail(msg):
    print('CHECK-ERROR: ' + msg, flush=True)
    sys.exit(2)


def build(which):
    cmd = ['bash', os.path.join(V, 'engine/build.sh')] if which == 'engine' else ['bash', os.path.join(V, 'build_harness.sh'), which]
    r = sh(cmd)
    return which, r.returncode, r.stdout


def build_all(kinds):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # the two native profiles share a target directory: build them one after the other
        groups = [[k] for k in kinds if not k.startswith('native')]
        for pre in ('native', 'nativec', 'nativeo', 'nativep'):
            nat = [k for k in kinds if k in (pre, pre + '-release')]
            if nat:
                groups.append(nat)
        with ThreadPoolExecutor(4) as ex:
            for res in ex.map(lambda g: [build(k) for k in g], groups):
                for which, rc, out in res:
                    if rc != 0:
                        sys.stderr.write(out[-6000:])
                        fail(f'build of {which} failed')


def job_name(j):
    return j['h'] + ''.join(f'_{p}' for p in j.get('p', []))


def run_job(j, outroot, jobs, c=''):
    out = os.path.join(outroot, job_name(j))
    subprocess.run(['rm', '-rf', out])
    os.makedirs(out)
    cmd = [os.path.join(B, 'engine/sx'), os.path.join(B, f'vh{c}.bc'), '--entry', j['h'], '--out', out, '--jobs', str(jobs),
           '--max-time', str(j.get('t', 240)), '--samples', str(j.get('samples', 12)), '--sample-every', str(j.get('every', 7)),
           '--max-insts', str(j.get('insts', 30_000_000)), '--max-viol', str(j.get('viol', 4))]
    for p in j.get('p', []):
        cmd += ['--param', str(p)]
    cmd += j.get('x', [])
    r = sh(cmd)
    res = None
    try:
        res = json.load(open(os.path.join(out, 'result.json')))
    except Exception:
        pass
    return j, out, r.returncode, r.stdout[-2000:], res


def read_lines(path, n=None):
    try:
        ls = [json.loads(x) for x in open(path) if x.strip()]
    except FileNotFoundError:
        return []
    return ls if n is None else ls[:n]


def write_replay(path, j, inputs):
    with open(path, 'w') as f:
        for p in j.get('p', []):
            f.write(f'p {p}\n')
        for w, v in inputs:
            f.write(f'{w} {v}\n')


def replay(profile, j, path, c='', timeout=25):
    exe = os.path.join(B, 'native' + c, profile, 'replay')
    try:
        r = subprocess.run([exe, j['h'], path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace',
                           preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (6 << 30, 6 << 30)))
        return r.returncode, r.stdout, r.stderr[-1500:]
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''


def known_findings(pid):
    out = []
    p = os.path.join(V, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get('property') == pid and d.get('status', 'open') == 'open':
                    out.append(d)
    return out


def check(pid, tier):
    t0 = time.time()
    spec = SPECS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    # which harness: '' core and decompiler, 'c' with the compiler, 'o' command line
    c = spec.get('m', 'c' if spec.get('c') else '')
    build_all(['engine', 'sym' + c, f'native{c}', f'native{c}-release'])
    tb = time.time() - t0
    jobs = [j for j in spec['jobs'] if tier == 'thorough' or not j.get('thorough')]
    outroot = os.path.join(B, 'out', pid)
    os.makedirs(outroot, exist_ok=True)
    rdir = os.path.join(V, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    results, errors, viols = [], [], []
    small = [j for j in jobs if not j.get('big')]
    big = [j for j in jobs if j.get('big')]
    with ThreadPoolExecutor(4) as ex:
        results += list(ex.map(lambda j: run_job(j, outroot, 2, c), small))
    for j in big:
        results.append(run_job(j, outroot, CORES, c))
        if time.time() - t0 > (780 if tier == 'quick' else 7200):
            errors.append('time budget exhausted')
            break
    known = known_findings(pid)
    known_hit = set()
    xval = 0
    sample_cases = []
    for j, out, rc, log, res in results:
        name = job_name(j)
        vs = read_lines(os.path.join(out, 'violations.jsonl'))
        seen = {}
        for v in vs:
            k = (v['kind'], v['msg'])
            seen.setdefault(k, [])
            if len(seen[k]) < 2:
                seen[k].append(v)
        n = 0
        for (kind, msg), lst in seen.items():
            for v in lst:
                path = os.path.join(rdir, f'{pid}-{name}-{n}.txt')
                n += 1
                write_replay(path, j, v['inputs'])
                got = {}
                for prof in ('debug', 'release'):
                    got[prof] = replay(prof, j, path, c)
                rep = [p for p in got if got[p][0] in (101, 'timeout', 134, 139, -6, -11, -4)]
                if rep:
                    viols.append((j, kind, msg, path, {p: got[p][0] for p in rep}, got[rep[0]][2], v))
                    break
                errors.append(f'{name}: counterexample does not reproduce natively ({kind}: {msg}; exit codes {[got[p][0] for p in got]}; {path})')
        if res is None:
            errors.append(f'{name}: engine failed (exit {rc}): {log[-600:]}')
            continue
        if res['errors']:
            el = ''
            try:
                el = open(os.path.join(out, 'errors.log')).read()[:800]
            except FileNotFoundError:
                pass
            errors.append(f"{name}: {res['errors']} engine errors: {el}")
        if not vs:
            want = set(j.get('cover', [1]))
            if not want <= set(res['covers']):
                errors.append(f"{name}: vacuous: reachability witnesses {sorted(want - set(res['covers']))[:20]} not reached")
            if res['ok'] < j.get('min_ok', 1):
                errors.append(f"{name}: only {res['ok']} completed paths")
        if res['bounded'] and not j.get('bounded_ok'):
            errors.append(f"{name}: {res['bounded']} paths cut at an allocation bound")
        # cross-validation of the encoding: solver models of completed paths run natively must behave as predicted
        if not vs:
            for i, s in enumerate(read_lines(os.path.join(out, 'samples.jsonl'), 6 if tier == 'quick' else 24)):
                path = os.path.join(outroot, name, f'sample{i}.txt')
                write_replay(path, j, s['inputs'])
                prof = 'debug' if i % 2 == 0 else 'release'
                rc2, o, e = replay(prof, j, path, c)
                if len(sample_cases) < 6:
                    sample_cases.append({'harness': name, 'inputs': s['inputs'][:40], 'observed': s['obs'][:8]})
                if rc2 != 0:
                    errors.append(f'{name}: completed path fails natively ({prof}, exit {rc2}): {e[-400:]} {path}')
                elif [int(x) for x in re.findall(r'\d+', o.split('OBS', 1)[1].split(']')[0])] != s['obs']:
                    errors.append(f"{name}: native observation differs: {o.strip()[-200:]} vs {s['obs']} ({path})")
                else:
                    xval += 1
    real = []
    for v in viols:
        j, kind, msg, path, prof, err, raw = v
        hit = None
        for kf in known:
            if kf['harness'] == j['h'] and re.search(kf['match'], msg + '\n' + err):
                hit = kf
        if hit:
            known_hit.add(hit['what'])
        else:
            real.append(v)
    for w in sorted(known_hit):
        print(f'KNOWN-FINDING: property={pid} {w}')
    ok = [r for r in results if r[4]]
    tot = lambda k: sum(r[4][k] for r in ok)
    fns = sorted({f for r in ok for f in r[4]['functions']})
    lines = {l for r in ok for l in r[4]['lines']}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('ok') + tot('killed'),
            'transitions': tot('branches') + tot('folded'),
            'traces_validated_against_impl': xval,
            'exhaustive': not errors and not real,
            'samples': sample_cases,
            'explanation': 'states = symbolic paths completed or refuted (each stands for every input satisfying its path condition); '
                           'transitions = symbolic branch decisions; within the stated bounds every feasible path was explored.',
            'bounds': spec['bounds'], 'outside_claim': spec.get('outside', ''),
            'harnesses': [{'harness': job_name(r[0]), 'paths': r[4]['ok'], 'assumed_away': r[4]['killed'], 'queries': r[4]['queries'], 'sat': r[4]['sat'],
                           'unsat': r[4]['unsat'], 'solver_s': r[4]['solver_s'], 'wall_s': r[4]['wall_s'], 'instructions': r[4]['insts'],
                           'beyond_allocation_bound': r[4]['bounded'], 'witnesses': r[4]['covers'][:200]} for r in ok],
            'queries_discharged': tot('queries'), 'solver_s': round(tot('solver_s'), 3), 'folded_without_solver': tot('folded'),
            'functions_encoded': fns, 'source_lines_executed': len(lines), 'instructions_executed': tot('insts'), 'build_s': round(tb, 1),
        },
        'assumptions': spec.get('assumptions', []) + [
            'rustc 1.77.2 bitcode (opt-level per harness/sym/Cargo.toml, overflow checks on) represents the source; engine/sx interprets it faithfully (cross-validated natively)',
            'hashing (ahash) and crc32fast are replaced by stub crates; panics are reported at the call of the panic entry points, unwinding is not modelled']
            + (['peg, hamt-sync and sequence_trie (not available offline) are replaced by stand-ins in harness/shims, the grammar itself is /repo/compiler/src/parser.rs'] if c else []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(real),
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print(f"{pid} {tier}: {len(ok)} harness runs, {tot('ok')} paths, {tot('queries')} queries, {tot('solver_s'):.1f} s solver, {len(fns)} functions, {xval} native cross-checks, {time.time()-t0:.0f} s (build {tb:.0f} s)")
    for j, kind, msg, path, prof, err, raw in real:
        print(f'-- {job_name(j)}: {kind}: {msg}\n   reproduces natively: {prof}\n   {err.strip()[:700]}')
        print(f'VIOLATION property={pid} replay={path}', flush=True)
    for e in errors:
        print('CHECK-ERROR: ' + e[:1500], flush=True)
    if real:
        return 1
    return 2 if errors else 0


def main():
    if sys.argv[1] == 'setup':
        build_all(['engine', 'sym', 'symc', 'native', 'native-release', 'nativec', 'nativec-release', 'symo', 'symp', 'nativep', 'nativep-release', 'nativeo', 'nativeo-release'])
        print('built')
    elif sys.argv[1] == 'list':
        print('\n'.join(SPECS))
    else:
        sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')))


if __name__ == '__main__':
    main()
