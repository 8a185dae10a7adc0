#!/usr/bin/env python3
"""Makes planted bugs (run by hand): mkseed.py FILE.py [ID...]
FILE.py defines SEEDS = [dict(id, prop, edits=[(file, old, new), ...], demo=rust body of main, needs, breaks)].
Each is built and tested in a scratch copy of /repo; kept in /verif/seeded/<id>/ when it compiles, passes the
stable tests, and its demonstration passes without and fails with it."""
import json, os, subprocess, sys, shutil
S = "/tmp/seedrepo"
OUT = "/verif/seeded"
DEMO = """#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
visdom = { path = "$repo", features = ["full"] }
[workspace]
T
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q
"""
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    if not os.path.isdir(S):
        sh("cp -a /repo %s" % S)
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        sh("git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=S)
        bad = None
        for f, old, new in s["edits"]:
            p = os.path.join(S, f)
            t = open(p).read()
            n = s.get("occ", {}).get(f)
            if t.count(old) == 0 or (t.count(old) > 1 and n is None):
                bad = "edit: %d occurrences in %s of %r" % (t.count(old), f, old[:60])
                break
            if n is None:
                t = t.replace(old, new)
            else:
                i = -1
                for _ in range(n + 1):
                    i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            open(p, "w").write(t)
        if bad:
            print(s["id"], "BAD", bad); continue
        diff = sh("git diff", cwd=S).stdout
        sh("rm -rf /tmp/seeddemo && mkdir /tmp/seeddemo")
        open("/tmp/seeddemo/main.rs", "w").write("#![allow(unused)]\nuse visdom::Vis;\nuse visdom::types::*;\nfn main() {\n%s\n}\n" % s["demo"].strip("\n"))
        open("/tmp/seeddemo/demo.sh", "w").write(DEMO)
        r0 = sh("bash /tmp/seeddemo/demo.sh", cwd="/repo")
        r1 = sh("bash /tmp/seeddemo/demo.sh", cwd=S)
        t = sh("cargo test --workspace --features full --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test .*FAILED|^error|panicked|could not compile'", cwd=S)
        fails = t.stdout.strip()
        ok = r0.returncode == 0 and r1.returncode != 0 and not fails
        print(s["id"], "OK" if ok else "BAD", "demo unchanged=%d patched=%d" % (r0.returncode, r1.returncode), "tests:", fails[:300].replace("\n", " | "))
        if r0.returncode != 0:
            print(r0.stdout[-1500:])
        elif not ok:
            print(r1.stdout[-300:])
        if ok:
            d = os.path.join(OUT, s["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            shutil.copy("/tmp/seeddemo/main.rs", d)
            shutil.copy("/tmp/seeddemo/demo.sh", d)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        sh("git checkout -q -- .", cwd=S)
main()
