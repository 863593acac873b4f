#!/usr/bin/env python3
"""Confirms planted changes in scratch copies and files them under /verif/seeded.

usage: tools/plant.py SPECS.py [id ...]      (--check-only: run the checks on filed ones)
A spec is a dict: id, property, edits=[(file, old, new)], demo (Rust source of main.rs),
needs, what.  Each change is applied to a scratch copy of /repo, must build, pass the
stable tests and make its demonstration fail, which passes without it.  Then the change
is applied to /repo, the quick check of its property is run, and the change is undone.
"""
import json, os, re, shutil, subprocess, sys, runpy

SEEDED = "/verif/seeded"
SCRATCH = "/tmp/plant-scratch"
TESTED = json.load(open("/opt/vp/BASELINE.json"))

DEMO = r'''#!/bin/bash
# Runs main.rs against the crate in the current directory: exit 0 if the property holds for it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/demo/src"
cp "$here/main.rs" "$dir/demo/src/main.rs"
cp "$repo/Cargo.lock" "$dir/demo/Cargo.lock" 2>/dev/null
cat > "$dir/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
webrtc-sdp = { path = "$repo"@FEATURES@ }
@DEPS@
[workspace]
EOF
cd "$dir/demo" || exit 3
export CARGO_TARGET_DIR="$dir/target"
cargo build --offline --quiet || exit 3
timeout 60 "$dir/target/debug/demo"
'''

def sh(cmd, cwd=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def tests(copy):
    """Runs the tests of a copy; returns the names that fail of those that should pass."""
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", cwd=copy)
    ok = set(re.findall(r"^test (\S+)(?: - should panic)? \.\.\. ok$", r.stdout, re.M))
    bad = set(re.findall(r"^test (\S+)(?: - should panic)? \.\.\. FAILED$", r.stdout, re.M))
    if "error: could not compile" in r.stderr:
        return ["no build: " + r.stderr[-800:]]
    r2 = sh("cargo build --example file_parser --all-features --offline", cwd=copy)
    bad2 = []
    for l in open(copy + "/.circleci/config.yml"):
        m = re.match(r" *- run: cargo run --example file_parser (.*)", l)
        if m and sh("target/debug/examples/file_parser " + m.group(1), cwd=copy).returncode:
            bad2.append(m.group(1))
    return sorted(bad) + bad2 + ([] if len(ok) > 150 else ["only %d ok" % len(ok)])

def main():
    args = sys.argv[1:]
    only = "--check-only" in args
    nocheck = "--no-check" in args
    args = [a for a in args if not a.startswith("--")]
    specs = runpy.run_path(args[0])["SPECS"]
    want = set(args[1:])
    for s in specs:
        if want and s["id"] not in want:
            continue
        out = os.path.join(SEEDED, s["id"])
        if not only:
            if not want and os.path.exists(out + "/patch.diff"):
                continue
            sh("rm -rf " + SCRATCH)
            sh("mkdir -p %s && cp -a /repo %s/repo" % (SCRATCH, SCRATCH))
            copy = SCRATCH + "/repo"
            tmp = SCRATCH + "/seed"
            os.makedirs(tmp)
            f = s.get("features"); d = s.get("deps", "")
            demo = DEMO.replace("@FEATURES@", ', ' + f if f else "").replace("@DEPS@", d)
            open(tmp + "/demo.sh", "w").write(demo)
            os.chmod(tmp + "/demo.sh", 0o755)
            open(tmp + "/main.rs", "w").write(s["demo"])
            r = sh("bash %s/demo.sh" % tmp, cwd=copy)
            if r.returncode:
                print(s["id"], "DEMO FAILS ON CLEAN", r.returncode, r.stdout[-600:], r.stderr[-1500:]); continue
            bad = False
            for (fn, old, new) in s["edits"]:
                p = copy + "/" + fn
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "EDIT MATCHES", t.count(old), repr(old[:60])); bad = True; break
                open(p, "w").write(t.replace(old, new))
            if bad: continue
            fails = tests(copy)
            if fails:
                print(s["id"], "TESTS", fails[:5]); continue
            r = sh("bash %s/demo.sh" % tmp, cwd=copy)
            if r.returncode in (0, 3):
                print(s["id"], "DEMO DOES NOT FAIL WITH PATCH", r.returncode, r.stderr[-800:]); continue
            diff = sh("git diff", cwd=copy).stdout
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            open(out + "/patch.diff", "w").write(diff)
            shutil.copy(tmp + "/demo.sh", out); shutil.copy(tmp + "/main.rs", out)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]},
                      open(out + "/meta.json", "w"), indent=1)
        if nocheck:
            print(s["id"], "filed"); continue
        a = sh("git apply %s/patch.diff" % out, cwd="/repo")
        if a.returncode:
            print(s["id"], "DOES NOT APPLY", a.stderr); continue
        try:
            c = sh("/verif/check.sh %s quick" % s["property"], cwd="/verif", timeout=1000)
        finally:
            sh("git checkout -- .", cwd="/repo")
        hit = "VIOLATION property=%s " % s["property"] in c.stdout
        print(s["id"], s["property"], "CAUGHT" if c.returncode == 1 and hit else "MISSED rc=%d" % c.returncode,
              flush=True)
    sh("rm -rf " + SCRATCH)

main()
