#!/usr/bin/env python3
"""Plant the bugs of a spec file in a scratch copy of /repo and keep the ones that count.

usage: seed.py SPEC.py [ID...]

SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)...], demo (statements of main),
needs, breaks. For each: apply to a clean copy of /repo's HEAD, check that it builds, that the stable tests pass and
that the demonstration passes without and fails with it; if so write /verif/seeded/ID.
"""
import json, os, re, runpy, shutil, subprocess, sys

SCR = "/tmp/seedscr"
REPO = f"{SCR}/repo"
PRE = """#![allow(unused_imports, dead_code)]
use scale_value::*;
use scale_value::stringify::*;
use ::serde::{Serialize, Deserialize};
use scale_info::PortableRegistry;
use codec::{Encode, Decode, Compact};
fn reg<T: scale_info::TypeInfo + 'static>() -> (u32, PortableRegistry) {
    let mut types = scale_info::Registry::new();
    let id = types.register_type(&scale_info::MetaType::new::<T>());
    (id.id, types.into())
}
"""
TOML = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
scale-value = { path = "REPO" }
scale-encode = { version = "0.10.0", default-features = false, features = ["bits"] }
scale-decode = { version = "0.16.0", default-features = false }
scale-type-resolver = { version = "0.2.0", features = ["scale-info"] }
scale-bits = "0.7.0"
scale-info = { version = "2.11", features = ["derive"] }
codec = { package = "parity-scale-codec", version = "3", features = ["derive"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
base58 = "0.2"
blake2 = "0.10"
"""
DEMO = """#!/bin/bash
# Run with cwd /repo after a build: exit 0 if the property holds there, non-zero if not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
sed "s#REPO#$repo#" "$here/demo.toml" > "$d/Cargo.toml"
cd "$d" || exit 2
CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" RUSTC_WRAPPER= timeout 250 cargo run --offline --quiet
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def setup():
    shutil.rmtree(SCR, ignore_errors=True)
    os.makedirs(SCR)
    sh(f"cp -a /repo {REPO}")
    for f in ("env.sh", "build.sh", "test.sh"):
        t = open(f"/opt/vp/{f}").read()
        t = t.replace("/repo", REPO).replace("/opt/vp/env.sh", f"{SCR}/env.sh")
        open(f"{SCR}/{f}", "w").write(t)

def stable():
    out = f"{SCR}/out.json"
    r = sh(f"bash {SCR}/build.sh")
    if r.returncode:
        return "build: " + r.stderr[-1500:]
    sh(f"bash {SCR}/test.sh {out}")
    got = set(json.load(open(out))["passed"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"])
    miss = want - got
    return f"{len(miss)} tests fail: {sorted(miss)[:3]}" if miss else None

def own(tmp):
    """Removed lines that our own commits added."""
    bad, base = [], "4ba0e12"
    for f in sh("git diff --name-only", cwd=REPO).stdout.split():
        blame = sh(f"git blame -s HEAD -- {f}", cwd=REPO).stdout.splitlines()
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(f"git diff -U0 -- {f}", cwd=REPO).stdout, re.M):
            a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
            bad += [l for l in blame[a-1:a-1+n] if sh(f"git merge-base --is-ancestor {l.split()[0].lstrip('^')} {base}", cwd=REPO).returncode]
    return bad

def demo(d):
    shutil.rmtree(f"{SCR}/demo", ignore_errors=True)
    shutil.copytree(d, f"{SCR}/demo")
    return sh(f"DEMO_TARGET={SCR}/dt bash {SCR}/demo/demo.sh", cwd=REPO)

def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])
    setup()
    for s in spec:
        if only and s["id"] not in only:
            continue
        sh("git checkout -- .", cwd=REPO)
        d = f"/verif/seeded/{s['id']}"
        if os.path.exists(d) and not only:
            continue
        tmp = f"{SCR}/new"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        bad = None
        for (f, old, new) in s["edits"]:
            t = open(f"{REPO}/{f}").read()
            if t.count(old) != 1:
                bad = f"{f}: {t.count(old)} matches of {old[:60]!r}"
                break
            open(f"{REPO}/{f}", "w").write(t.replace(old, new))
        if bad:
            print(s["id"], "BAD EDIT", bad, flush=True)
            continue
        open(f"{tmp}/patch.diff", "w").write(sh("git diff", cwd=REPO).stdout)
        e = own(tmp)
        if e:
            print(s["id"], "NO: touches own lines", e, flush=True)
            continue
        open(f"{tmp}/demo.rs", "w").write(PRE + s.get("pre", "") + "fn main() {\n" + s["demo"].strip("\n") + "\n}\n")
        open(f"{tmp}/demo.toml", "w").write(TOML)
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo.lock"), f"{tmp}/Cargo.lock")
        open(f"{tmp}/demo.sh", "w").write(DEMO)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{tmp}/meta.json", "w"), indent=1)
        e = stable()
        if e:
            print(s["id"], "NO:", e, flush=True)
            continue
        r1 = demo(tmp)
        sh("git checkout -- .", cwd=REPO)
        r0 = demo(tmp)
        if r0.returncode != 0 or r1.returncode == 0 or "error[" in r1.stderr or "could not compile" in r1.stderr:
            print(s["id"], f"NO: demo clean={r0.returncode} patched={r1.returncode}", r0.stderr[:500], "----", r1.stderr[:200], flush=True)
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        print(s["id"], "ok", r1.stderr.strip().splitlines()[:3], flush=True)
main()
