#!/usr/bin/env python3
"""mkseed.py SPECFILE : (re)creates seeded/<id> from a python spec: ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (main.rs text)"""
import json, os, subprocess, sys
V = '/verif'; R = '/repo'
TEMPLATE = '''#!/bin/bash
# Builds a small program against the crates of the current directory (offline, in a scratch directory) and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "${t:?}"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"; cp "$here/Cargo.lock.txt" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
redscript = { path = "$repo/core" }
redscript-decompiler = { path = "$repo/decompiler" }
X
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 REPO="$repo" RUSTFLAGS="--cap-lints allow"
cd "$t" && cargo build --offline -q || exit 2
timeout 60 "$t/target/debug/demo"
'''
for sf in sys.argv[1:]:
    ns = {}
    exec(open(sf).read(), ns)
    d = f"{V}/seeded/{ns['ID']}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in ns['EDITS']:
        p = f'{R}/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', R, 'checkout', '--', '.'], check=True)
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(ns.get('SH', TEMPLATE))
    if 'DEMO' in ns:
        open(d + '/main.rs', 'w').write(ns['DEMO'])
        open(d + '/Cargo.lock.txt', 'w').write(open(V + '/tools/demo.lock').read())
    json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    print('made', ns['ID'])
