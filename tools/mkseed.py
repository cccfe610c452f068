#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from /verif/tools/seeds/<id>.py (developer tool).

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO
(Rust main) and optionally DEPS (Cargo dependency lines) and FLAGS.
"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Builds main.rs against the crate in the current directory's repository and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%(deps)s
EOF
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTFLAGS="%(flags)s"
cd "$t" && exec timeout 280 cargo run --quiet --offline --target-dir "$t/target"
'''
for id in sys.argv[1:]:
    g = {}
    exec(open(f"{V}/tools/seeds/{id}.py").read(), g)
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="/tmp/seed.")
    subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True)
    for f, old, new in g["EDITS"]:
        s = open(f"{w}/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(f"{w}/{f}", "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    shutil.rmtree(w)
    deps = g.get("DEPS", 'measured = { path = "$repo/core" }')
    open(f"{d}/demo.sh", "w").write(DEMO_SH % dict(deps=deps, flags=g.get("FLAGS", "")))
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(g["DEMO"].lstrip())
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    print(id)
