#!/usr/bin/env python3
"""mutate.py SEED COUNT LOG [file-substring] : plants random small changes in the files the repository builds and reports which quick checks see them.
Works on /repo in place (run it in a private copy).  A change that the compiler or the repository's stable tests reject is skipped."""
import random, re, subprocess, sys, os, json, time
MAP = {
    'core/src/ast.rs': ['P16', 'P14', 'P15', 'P22'], 'core/src/bundle.rs': ['P07', 'P10', 'P11', 'P08', 'P05', 'P09', 'P06'], 'core/src/bytecode.rs': ['P01', 'P02', 'P03', 'P04', 'P12', 'P17', 'P14', 'P24'],
    'core/src/decode.rs': ['P05', 'P13', 'P09', 'P06'], 'core/src/encode.rs': ['P05', 'P13', 'P06'], 'core/src/definition.rs': ['P06', 'P11', 'P17', 'P19', 'P09', 'P14'], 'core/src/io.rs': ['P13', 'P08'],
    'core/src/mapper.rs': ['P12'], 'decompiler/src/files.rs': ['P19'], 'decompiler/src/lib.rs': ['P14', 'P18', 'P15', 'P16'], 'decompiler/src/print.rs': ['P17', 'P16', 'P18'], 'scc/cli/src/opts.rs': ['P21'],
}
R = '/repo'
seed, count, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
sub = sys.argv[4] if len(sys.argv) > 4 else ''
rnd = random.Random(seed)


def sh(c, t=1000):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ''


def mutants(path):
    ls = open(os.path.join(R, path)).read().split('\n')
    out = []
    end = next((i for i, l in enumerate(ls) if '#[cfg(test)]' in l), len(ls))
    for i in range(end):
        l = ls[i]
        st = l.strip()
        if not st or st.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'fn ', 'pub fn', 'impl', 'pub struct', 'pub enum', 'struct', 'enum', 'trait', 'type ')):
            continue
        if 'derive' in l or 'assert' in l:
            continue
        def put(new, op):
            if new != l:
                out.append((i, [new], op))
        for a, b in (('==', '!='), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '), ('true', 'false'), ('false', 'true'), (' + ', ' - '), (' - ', ' + '),
                     ('.min(', '.max('), ('.first()', '.last()'), ('.last()', '.first()'), ('.any(', '.all('), ('.all(', '.any('), ('.rev()', ''), ('wrapping', 'saturating'), ('.is_some()', '.is_none()'), ('.is_none()', '.is_some()'), ('.is_empty()', '.len() == 1'),
                     ('push_front', 'push_back'), ('.skip(1)', ''), ('LittleEndian', 'BigEndian'), ('u32', 'u16'), (' as u32', ' as u16 as u32'), (' as usize', ' as u8 as usize'), ('continue', 'break'), ('..=', '..')):
            for m in re.finditer(re.escape(a), l):
                put(l[:m.start()] + b + l[m.end():], f'{a}->{b}')
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', l):
            put(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], 'const+1')
        if re.match(r'^\s+[a-z_][\w.]*(::\w+)*\(.*\)\??;$', l) or re.match(r'^\s+[\w.]+ [+-]?= .*;$', l):
            put('', 'delete')
            put('', 'delete')
        for m in re.finditer(r'\(([\w.&*?]+), ([\w.&*?]+)\)', l):
            put(l[:m.start()] + f'({m.group(2)}, {m.group(1)})' + l[m.end():], 'swap-args')
        for m in re.finditer(r'(?<=\bif )(?!let)([^{]+) \{', l):
            put(l[:m.start()] + f'!({m.group(1)}) {{' + l[m.end():], 'negate-if')
            put(l[:m.start()] + f'({m.group(1)}) && false {{' + l[m.end():], 'if-false')
        m = re.match(r'^(\s+)(.+?) if (.+) => (.*)$', l)
        if m and not st.startswith('//'):
            put(f'{m.group(1)}{m.group(2)} => {m.group(4)}', 'drop-guard')
        m = re.match(r'^(\s+.+?) => (.+),$', l)
        if m:
            for j in (i - 1, i + 1, i + 2):
                if 0 <= j < end:
                    n = re.match(r'^(\s+.+?) => (.+),$', ls[j])
                    if n and n.group(2) != m.group(2):
                        put(f'{m.group(1)} => {n.group(2)},', 'neighbour-arm')
        if i + 1 < end and re.match(r'^\s+.*;$', l) and re.match(r'^\s+.*;$', ls[i + 1]) and ls[i + 1].strip() and not ls[i + 1].strip().startswith('//'):
            out.append((i, [ls[i + 1], l], 'swap-lines'))
    return ls, out


def main():
    files = [f for f in MAP if sub in f]
    pool = {}
    for f in files:
        pool[f] = mutants(f)
    done = 0
    while done < count:
        f = rnd.choices(files, weights=[min(len(pool[x][1]), 300) for x in files])[0]
        ls, ms = pool[f]
        ops = sorted({m[2] for m in ms})
        op = rnd.choice(ops)
        i, new, op = rnd.choice([m for m in ms if m[2] == op])
        src = ls[:i] + new + ls[i + len(new):]
        open(os.path.join(R, f), 'w').write('\n'.join(src))
        res = None
        try:
            rc, o = sh('bash /opt/vp/build.sh', 300)
            if rc:
                continue
            rc, o = sh('bash /opt/vp/test.sh /tmp/mut.json; python3 /verif/tools/cmptests.py /tmp/mut.json', 120)
            if not o.strip().endswith('ok'):
                continue
            done += 1
            t0 = time.time()
            res = 'MISSED'
            errs = []
            for p in MAP[f]:
                rc, o = sh(f'cd /verif && timeout 900 python3 run.py check {p} quick')
                if rc == 1 and 'VIOLATION' in o:
                    res = 'caught ' + p
                    break
                if rc:
                    errs.append(f'{p}:{rc}:' + ' '.join(re.findall(r'CHECK-ERROR.*', o))[:200])
            with open(log, 'a') as g:
                g.write(f'{res} {f}:{i + 1} [{op}] {time.time() - t0:.0f}s {errs}\n    - {ls[i].strip()}\n    + {" / ".join(x.strip() for x in new)}\n')
        finally:
            open(os.path.join(R, f), 'w').write('\n'.join(ls))


main()
