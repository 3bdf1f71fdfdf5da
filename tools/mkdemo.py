#!/usr/bin/env python3
"""mkdemo.py NAME crate-dir,...  < main.rs body : fills seeded/NAME with demo.sh and what it needs (a copy of the mini-chain)"""
import os, re, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# crate-dir,... may be the name of a harness crate: its helpers are then copied and included
name, dirs = sys.argv[1], [d for d in sys.argv[2].split(",") if d]
main = sys.stdin.read()
d = os.path.join(HERE, "seeded", name)
os.makedirs(os.path.join(d, "demo", "src"), exist_ok=True)
for c in ("sx", "chain"):
    t = os.path.join(d, "demo", c)
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "harness", c), t)
deps = ""
for l in list(dirs):
    if l.startswith("h_"):
        dirs.remove(l)
        h = open(os.path.join(HERE, "harness", l, "src", "lib.rs")).read()
        open(os.path.join(d, "demo", "src", "h.rs"), "w").write("\n".join(x for x in h.splitlines() if not x.startswith("//!")) + "\n")
        main = '#![allow(dead_code, unused)]\ninclude!("h.rs");\n' + main
        dirs += re.findall(r'path = "/repo/(contracts/[^"]*)"', open(os.path.join(HERE, "harness", l, "Cargo.toml")).read())
for l in dirs:
    t = open("/repo/%s/Cargo.toml" % l).read()
    n = re.search(r'^name = "(.*)"', t, re.M).group(1)
    f = ', features = ["library"]' if re.search(r"^library", t, re.M) else ""
    deps += '%s = { path = "/repo/%s"%s }\n' % (n, l, f)
open(os.path.join(d, "demo", "Cargo.toml"), "w").write('''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
sx = { path = "sx" }
chain = { path = "chain" }
cosmwasm-std = { version = "1.5", features = ["cosmwasm_1_1", "stargate"] }
astroport = { path = "/repo/packages/astroport" }
cw20 = "1.1"
serde = { version = "1", default-features = false, features = ["derive"] }
%s
[profile.dev]
debug = false
incremental = false
overflow-checks = true
''' % deps)
shutil.copy(os.path.join(HERE, "harness", "Cargo.lock"), os.path.join(d, "demo", "Cargo.lock"))
open(os.path.join(d, "demo", "src", "main.rs"), "w").write(main)
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# builds the small program in demo/ against the contracts in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cp -r "$here/demo" "$w/demo"
find "$w/demo" -name Cargo.toml -exec sed -i "s#\\"/repo/#\\"$repo/#" {} +
cd "$w/demo"
export CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0
cargo build --offline -q 2> "$w/log" || { cat "$w/log"; exit 3; }
"$w/target/debug/demo"
''')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
