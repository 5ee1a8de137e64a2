ID='B20'; PROP='P21'
SH='#!/bin/bash\n# Builds a small program with the command line module of the current directory (offline, in a scratch directory) and runs it.\nhere=$(cd "$(dirname "$0")" && pwd); repo=$PWD\nt=$(mktemp -d /tmp/demo.XXXXXX); trap \'rm -rf "${t:?}"\' EXIT\nmkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"; cp "$repo/scc/cli/src/opts.rs" "$t/src/opts.rs"\ncat > "$t/Cargo.toml" <<X\n[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nbpaf = "0.7"\nX\nexport RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTFLAGS="--cap-lints allow"\ncd "$t" && cargo build --offline -q || exit 2\ntimeout 60 "$t/target/debug/demo"\n'
EDITS=[('scc/cli/src/opts.rs', 'toggle_options("-no-exec", "Unknown")', 'toggle_options("-no-debug", "Unknown")'), ('scc/cli/src/opts.rs', 'toggle_options("-no-debug", "Unknown").map(|s| s.unwrap_or(Opts::DEFAULT_NO_DEBUG))', 'toggle_options("-no-exec", "Unknown").map(|s| s.unwrap_or(Opts::DEFAULT_NO_DEBUG))')]
NEEDS='-no-exec or -no-debug on the command line'
BREAKS='the two switches are exchanged'
DEMO='#![allow(dead_code)]\nmod opts; use opts::*;\nfn main() { let o = Opts::load(&["-compile", "d", "-no-exec"]).ok().unwrap(); assert!(o.no_exec && !o.no_debug); let o = Opts::load(&["-compile", "d", "-no-debug"]).ok().unwrap(); assert!(o.no_debug && !o.no_exec); }'
