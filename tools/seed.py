#!/usr/bin/env python3
"""Makes and confirms planted changes: seed.py DEFS.py [ID...].

DEFS.py defines BUGS, a list of (id, property, [(file, old, new)], demo main.rs, needs, breaks).
Each change is confirmed in /repo (build, stable tests, demonstration with and without it) and undone."""
import json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# the tree to work in and its build scripts
REPO = os.environ.get("PGNV_REPO", "/repo")
VP = os.environ.get("PGNV_VP", "/opt/vp")
DEMO = r'''#!/bin/bash
# Builds the demonstration against the tree in the current directory, in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; cd "$repo" || exit 2
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
cp Cargo.lock "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
pgnumeric = { path = "$repo", features = [@FEAT@] }
@DEPS@
[workspace]
[profile.dev]
incremental = false
@PROF@
T
@NIGHTLY@cd "$d" && CARGO_TARGET_DIR="$d/target" ${CARGO:-cargo} build --offline -q 2>"$d/log" || { cat "$d/log"; exit 2; }
timeout 200 "$d/target/debug/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    defs = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["passing"]) if False else None
    for b in defs["BUGS"]:
        id, prop, edits, demo, needs, breaks = b[:6]
        opt = b[6] if len(b) > 6 else {}
        if want and id not in want:
            continue
        d = os.path.join(V, "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write(demo.lstrip())
        open(d + "/demo.sh", "w").write(DEMO.replace("@FEAT@", opt.get("feat", "")).replace("@NIGHTLY@", "unset RUSTC RUSTDOC; export RUSTUP_TOOLCHAIN=nightly CARGO=cargo # checks raw accesses\n" if opt.get("nightly") else "").replace("@DEPS@", opt.get("deps", "")).replace("@PROF@", opt.get("prof", "")))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        assert not sh("git -C " + REPO + " status --porcelain").stdout.strip(), "dirty"
        r = sh("bash " + VP + "/build.sh"); 
        clean = sh("bash %s/demo.sh" % d, cwd=REPO)
        why = []
        if clean.returncode != 0:
            why.append("demo fails clean rc=%d %s" % (clean.returncode, (clean.stdout + clean.stderr)[-600:]))
        try:
            for f, old, new in edits:
                p = REPO + "/" + f
                s = open(p).read()
                n = opt.get("nth", {}).get(old)
                if n is None:
                    assert s.count(old) == 1, (id, f, s.count(old), old)
                    s = s.replace(old, new)
                else:
                    parts = s.split(old)
                    s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
                open(p, "w").write(s)
            open(d + "/patch.diff", "w").write(sh("git -C " + REPO + " diff").stdout)
            # original lines only
            r = sh("bash " + VP + "/build.sh")
            if r.returncode:
                why.append("does not build " + r.stderr[-1500:])
            else:
                r = sh("bash " + VP + "/test.sh /tmp/seed.json")
                t = json.load(open("/tmp/seed.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
                ok = BASE(base)
                passed = PASSED(t)
                bad = sorted(ok - passed)
                if bad:
                    why.append("tests fail: " + ", ".join(bad)[:400])
                r = sh("bash %s/demo.sh" % d, cwd=REPO)
                if r.returncode == 0:
                    why.append("demo passes with the change")
                elif r.returncode == 2:
                    why.append("demo does not build " + r.stdout[-500:])
                else:
                    why.append if False else None
                    print("   ", (r.stdout + r.stderr).strip().splitlines()[-1:] )
        finally:
            sh("git -C " + REPO + " checkout -- .")
        print(id, prop, "OK" if not why else "BAD: " + "; ".join(why), flush=True)
        if why:
            sh("mkdir -p /tmp/badseed; rm -rf /tmp/badseed/%s; mv %s /tmp/badseed/" % (id, d))
def names(x):
    out = set()
    if isinstance(x, dict):
        for k in ("passed", "passing", "tests", "stable"):
            if k in x:
                v = x[k]
                return set(v if isinstance(v, list) else [n for n, r in v.items() if r in (True, "pass", "passed", "ok")])
    return set(x)
BASE = PASSED = names
if __name__ == "__main__":
    main()
