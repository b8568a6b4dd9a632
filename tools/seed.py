"""Make a seeded bug: seed(id, prop, needs, breaks, edits, main_rs).

edits: [(path, [(old, new[, count])...])] against /repo's HEAD; main_rs: the body of a demonstration that exits
with 0 on the unchanged tree.  Checks in a scratch copy: applies, builds, stable tests pass, the demo tells."""
import json, os, subprocess, sys, tempfile, shutil
S = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, 1 with the patch; run in the repository's root
set -u
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
texture2ddecoder = { path = "$repo" }
[workspace]
[profile.dev]
opt-level = 1
EOT
cp "$repo/Cargo.lock" "$tmp/" 2>/dev/null
cd "$tmp" && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$tmp/target" timeout 250 cargo run --offline -q
'''
PRE = '''#![allow(unused)]
use texture2ddecoder as t;
fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2*i..2*i+2], 16).unwrap()).collect() }
fn px(r: u8, g: u8, b: u8, a: u8) -> u32 { u32::from_le_bytes([b, g, r, a]) }
fn check(ok: bool, what: &str) { if !ok { eprintln!("FAILED: {what}"); std::process::exit(1) } }
'''
def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def subst(root, edits):
    for path, subs in edits:
        p = os.path.join(root, path)
        b = open(p, "rb").read(); crlf = b"\r\n" in b
        s = b.decode().replace("\r\n", "\n")
        for sub in subs:
            old, new = sub[0], sub[1]; n = sub[2] if len(sub) > 2 else 1
            assert s.count(old) == n, (path, s.count(old), old)
            s = s.replace(old, new)
        if crlf: s = s.replace("\n", "\r\n")
        open(p, "wb").write(s.encode())
def seed(id, prop, needs, breaks, edits, main_rs, files=None, demo=None):
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    w = "/tmp/seedw"
    if not os.path.isdir(w): sh(f"git -C /repo worktree list; cp -a /repo {w}")
    sh("git checkout -q -f --detach $(git -C /repo rev-parse HEAD) -- . ; git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD && git clean -fdq", cwd=w)
    assert sh("git status --short", cwd=w).stdout == "", "dirty"
    open(f"{d}/demo.sh", "w").write(demo or DEMO); os.chmod(f"{d}/demo.sh", 0o755)
    if main_rs: open(f"{d}/main.rs", "w").write(PRE + main_rs)
    for n, c in (files or {}).items(): open(f"{d}/{n}", "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    r = sh(f"bash {d}/demo.sh", cwd=w)
    if main_rs and "GOLDEN: u64 = 0x0;" in main_rs:
        import re
        g = re.findall(r"golden (0x[0-9a-f]+)", r.stderr)[-1]
        open(f"{d}/main.rs", "w").write(PRE + main_rs.replace("GOLDEN: u64 = 0x0;", f"GOLDEN: u64 = {g};"))
        r = sh(f"bash {d}/demo.sh", cwd=w)
    if r.returncode: print(id, "DEMO FAILS ON CLEAN", r.stdout[-1500:], r.stderr[-2500:]); return False
    subst(w, edits)
    p = sh("git diff --binary", cwd=w).stdout
    raw = subprocess.run("git diff", shell=True, cwd=w, capture_output=True).stdout
    open(f"{d}/patch.diff", "wb").write(raw)
    r = sh("cargo test --offline --workspace --no-fail-fast -- --test-threads 8 2>&1 | grep -E '^(test result|error|test .*FAILED)'", cwd=w)
    ok = "error" not in r.stdout and "FAILED" not in r.stdout and "ok." in r.stdout
    if not ok: print(id, "TESTS:", r.stdout[-1500:])
    r = sh(f"bash {d}/demo.sh", cwd=w)
    if r.returncode == 0: print(id, "DEMO PASSES WITH PATCH"); ok = False
    print(id, "ok" if ok else "BAD", "|", r.stderr.strip().splitlines()[-1][:150] if r.stderr.strip() else "")
    a = sh(f"git -C /repo apply --check {d}/patch.diff"); 
    if a.returncode: print("apply:", a.stderr); ok = False
    sh("git checkout -q -f -- .", cwd=w)
    return ok
