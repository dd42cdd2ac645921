#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a bug description and confirms it in a scratch copy of /repo.

usage: plant.py SPEC.py [ID ...]   (SPEC.py defines BUGS: a list of dicts id, property, edits [(file, old, new)], demo, needs, breaks)
Confirms: applies to HEAD, builds, the stable tests pass, the demonstration passes without and fails with the change.
"""
import json, os, re, shutil, subprocess, sys
V = "/verif"
DEMO = '''#!/bin/bash
# Builds main.rs against the crates of the current directory and runs it: exit 0 if the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
dir="$(mktemp -d)"
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat >"$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
layered-nlp = { path = "$repo" }
layered-amount = { path = "$repo/layered-amount" }
layered-clauses = { path = "$repo/layered-clauses" }
layered-part-of-speech = { path = "$repo/layered-part-of-speech" }
T
cd "$dir" && unset CARGO_TARGET_DIR && timeout 250 cargo run --quiet --offline --target-dir "$dir/target"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passing", []) or [])
    S = "/tmp/plant/repo"
    shutil.rmtree("/tmp/plant", ignore_errors=True)
    os.makedirs("/tmp/plant")
    sh("cp -a /repo /tmp/plant/repo")
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        sh("git checkout -q -- .", cwd=S)
        d = f"{V}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/main.rs", "w").write(b["demo"])
        open(f"{d}/demo.sh", "w").write(DEMO)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        r0 = sh(f"bash {d}/demo.sh", cwd=S)
        ok = True
        for f, old, new, *many in b["edits"]:
            p = f"{S}/{f}"; t = open(p).read()
            if t.count(old) != 1 and not (many and old in t):
                print(b["id"], "EDIT: matches", t.count(old), "times in", f); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: shutil.rmtree(d); continue
        diff = sh("git diff", cwd=S).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        t = sh("cargo test --workspace --offline --no-fail-fast 2>&1", cwd=S, env={**os.environ, "INSTA_UPDATE": "no", "INSTA_FORCE_PASS": "0", "CARGO_TARGET_DIR": S + "/target"})
        passed = len(re.findall(r"^test .* ok$", t.stdout, re.M)); failed = re.findall(r"^test (.*) FAILED$|^test (.*) \.\.\. FAILED$", t.stdout, re.M)
        built = "could not compile" not in t.stdout
        r1 = sh(f"bash {d}/demo.sh", cwd=S)
        good = r0.returncode == 0 and built and not failed and passed >= 35 and r1.returncode not in (0, 124)
        print(("OK  " if good else "BAD ") + b["id"], b["property"], f"demo clean={r0.returncode} patched={r1.returncode} tests={passed} failed={failed} built={built}", flush=True)
        if r0.returncode: print(r0.stderr[-1500:])
        if not built: print(t.stdout[-2500:])
        if "error" in r1.stderr and "panicked" not in r1.stderr: print(r1.stderr[-1500:])
        if not good: shutil.rmtree(d)
    shutil.rmtree("/tmp/plant", ignore_errors=True)
main()
