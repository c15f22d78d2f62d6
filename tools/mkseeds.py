#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/: patch.diff, demo.sh, meta.json and the demonstration crate.
A development aid only: no check reads it or its output."""
import json, os, re, shutil, subprocess, sys
ROOT = "/verif/seeded"
SRC = os.environ.get("SEED_SRC", "/repo")
S = "programs/presale/src/"
SEEDS = []
def seed(id, prop, edits, body, needs, breaks):
    SEEDS.append((id, prop, edits, body, needs, breaks))
exec(open(os.path.join(os.path.dirname(__file__), "seeds_list.py")).read())

DEMO = '''#!/bin/bash
# Runs the real program natively through a history; exits nonzero when the property is broken.
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp -a "$d/nrt" "$t/nrt"
cp -f /repo/Cargo.lock "$t/nrt/Cargo.lock"
cd "$t/nrt"
export RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo build --offline -q --bin demo 2>"$t/log" || { tail -40 "$t/log"; exit 2; }
"$t/target/debug/demo"
'''
TOML = '''[package]
name = "nrt"
version = "0.1.0"
edition = "2021"

[workspace]

[lib]
name = "nrt"
path = "src/lib.rs"

[[bin]]
name = "demo"
path = "src/demo.rs"

[dependencies]
presale = { path = "/repo/programs/presale" }
anchor-lang = { version = "0.31.1" }
anchor-spl = { version = "0.31.1", features = ["memo"] }
%s
[features]
default = ["sim"]
sim = []

[profile.dev]
opt-level = 0
debug = false
overflow-checks = true
'''
def sh(*a): return subprocess.run(a, capture_output=True, text=True, check=True).stdout
assert sh("git", "-C", SRC, "status", "--porcelain") == "", "repo not clean"
only = sys.argv[1:]
for id, prop, edits, body, needs, breaks in SEEDS:
    if only and id not in only: continue
    d = f"{ROOT}/{id}"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d + "/nrt/src")
    try:
        for f, old, new in edits:
            p = SRC + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git", "-C", SRC, "diff"))
    finally:
        sh("git", "-C", SRC, "checkout", "--", ".")
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    dep = ""
    if "merkle_tree" in body: dep = 'merkle-tree = { path = "/repo/merkle-tree" }\n'
    open(d + "/nrt/Cargo.toml", "w").write(TOML % dep)
    for f in ("lib.rs", "kit.rs", "sim.rs"): shutil.copy(f"/verif/harness/src/{f}", d + "/nrt/src/")
    open(d + "/nrt/src/demo.rs", "w").write("#![allow(unused)]\nuse nrt::kit::*;\nuse nrt::sim::*;\nuse nrt::*;\n\nfn main() {\n" + body.strip("\n") + "\n    println!(\"held\");\n}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
