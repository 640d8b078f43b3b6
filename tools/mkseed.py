#!/usr/bin/env python3
"""mkseed.py [names...]: makes /verif/seeded/<name>/ from tools/seeds/<name>.py and confirms each in a scratch copy of /repo.
A seed file defines: prop, needs, breaks, file, edits=[(old,new),...] (or edits with a file each), demo (Rust main.rs)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# Builds a small program against the library in the current directory; fails if the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock.demo" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[dependencies]
topogeo = { path = "$repo" }
encoding = "0.2.33"
[workspace]
T
cd "$d" && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline -q
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def main():
    names = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(HERE + "/tools/seeds") if f.endswith(".py"))
    shutil.rmtree(W, ignore_errors=True)
    sh("mkdir -p %s && cp -a /repo/. %s" % (W, W))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for n in names:
        ns = {}
        exec(open("%s/tools/seeds/%s.py" % (HERE, n)).read(), ns)
        sh("git -C %s checkout -q -- ." % W)
        bad = None
        for e in ns["edits"]:
            f, old, new = e if len(e) == 3 else (ns["file"],) + e
            p = W + "/" + f
            t = open(p).read()
            if t.count(old) != 1: bad = "edit does not match once (%d): %r" % (t.count(old), old); break
            open(p, "w").write(t.replace(old, new))
        if bad: print(n, "BAD", bad); continue
        diff = sh("git -C %s diff" % W).stdout
        # removed lines must be the original repository's
        for f in {(e[0] if len(e) == 3 else ns["file"]) for e in ns["edits"]}:
            base = sh("git -C %s show b6a6315:%s" % (W, f)).stdout.split("\n")
        removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        if removed and not any(l in base for l in removed if l.strip()): print(n, "BAD: touches no original line"); continue
        out = HERE + "/seeded/" + n
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.rs", "w").write(ns["demo"])
        shutil.copy(HERE + "/harness/Cargo.lock", out + "/Cargo.lock.demo")
        json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(out + "/meta.json", "w"), indent=1)
        t = sh("cd %s && CARGO_INCREMENTAL=1 cargo test --workspace --no-fail-fast --offline -- --test-threads 8" % W)
        ok = sum(1 for l in t.stdout.split("\n") if l.startswith("test ") and l.rstrip().endswith("... ok"))
        failed = [l for l in t.stdout.split("\n") if l.startswith("test ") and "FAILED" in l]
        d1 = sh("bash %s/demo.sh" % out, cwd=W)
        sh("git -C %s checkout -q -- ." % W)
        d0 = sh("bash %s/demo.sh" % out, cwd=W)
        good = not failed and ok >= len(stable) and d1.returncode != 0 and d0.returncode == 0
        print(n, "ok" if good else "BAD", "tests ok %d/%d failed %s; demo with %d without %d" % (ok, len(stable), failed, d1.returncode, d0.returncode))
        if d0.returncode: print(d0.stdout[-1500:])
        if not good: print(t.stdout[-800:] if not ok else "", d1.stdout[-300:]); shutil.rmtree(out)
    shutil.rmtree(W, ignore_errors=True)
main()
