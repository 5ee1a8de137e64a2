ID='B21'; PROP='P21'
SH='#!/bin/bash\n# Builds a small program with the command line module of the current directory (offline, in a scratch directory) and runs it.\nhere=$(cd "$(dirname "$0")" && pwd); repo=$PWD\nt=$(mktemp -d /tmp/demo.XXXXXX); trap \'rm -rf "${t:?}"\' EXIT\nmkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"; cp "$repo/scc/cli/src/opts.rs" "$t/src/opts.rs"\ncat > "$t/Cargo.toml" <<X\n[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nbpaf = "0.7"\nX\nexport RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTFLAGS="--cap-lints allow"\ncd "$t" && cargo build --offline -q || exit 2\ntimeout 60 "$t/target/debug/demo"\n'
EDITS=[('scc/cli/src/opts.rs', 'arg.replace(\'"\', "\\\\")', 'arg.replace(\'"\', "")')]
NEEDS='two quoted paths that end with a backslash, the second with a blank in it'
BREAKS='the second path loses its last backslash'
DEMO='#![allow(dead_code)]\nmod opts; use opts::*;\nfn main() { let a: Vec<String> = ["-compile", "C:\\\\a\\" C:\\\\b", "c\\"", "-optimize"].iter().map(|s| s.to_string()).collect(); let f = fix_args(a); println!("{f:?}"); assert_eq!(f, ["-compile", "C:\\\\a\\\\", "C:\\\\b c\\\\", "-optimize"]); }'
