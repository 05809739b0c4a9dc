#!/usr/bin/env python3
"""plant.py BUGS.py [id ...]: makes /verif/seeded/<id>/ from a list of changes, in a scratch copy of /repo, and keeps those
that compile, pass the tests, and whose demonstration tells them from the unchanged program; then runs the property's check.
plant.py --check [id ...]: runs the checks against kept changes again.   (--all: every check, not only the property's)"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE)); S = os.path.join(V, "seeded"); W = os.environ.get("SEEDWORK", "/tmp/seedwork")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=W + "/target")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.isdir(W): os.makedirs(W); sh("cp -a /repo/. " + W)
    sh("git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD; git clean -fdq -e target", cwd=W)
    assert sh("git rev-parse HEAD", cwd=W).stdout == sh("git rev-parse HEAD", cwd="/repo").stdout
def build():
    r = sh("cargo build --offline", cwd=W, env=ENV)
    return r.returncode == 0, r.stderr
def demo(d):
    try: return sh("bash %s/demo.sh" % d, cwd=W, timeout=300)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess("", 99, "timeout", "")
def check(i, props):
    out = []
    for p in props:
        r = sh("VERIF_REPO=%s python3 run.py %s" % (W, p), cwd=V)
        m = re.search(r"VIOLATION.*", r.stdout)
        out.append("%s:%s" % (p, {0: "missed", 1: "caught", 2: "inconclusive"}.get(r.returncode, r.returncode)))
        if r.returncode == 2 or (r.returncode == 1 and not m): out.append(r.stdout[-400:])
    print(i, " ".join(out), flush=True)
def main():
    a = sys.argv[1:]
    allc = "--all" in a; nocheck = "--nocheck" in a
    a = [x for x in a if x not in ("--all", "--nocheck")]
    sys.path.insert(0, V); from checks import CHECKS
    if a[0] == "--check":
        for i in a[1:] or sorted(os.listdir(S)):
            fresh(); r = sh("git apply %s/%s/patch.diff" % (S, i), cwd=W)
            if r.returncode: print(i, "does not apply", r.stderr); continue
            p = json.load(open("%s/%s/meta.json" % (S, i)))["property"]
            check(i, list(CHECKS) if allc else [p])
        return
    ns = {}; exec(open(a[0]).read(), ns)
    fresh(); ok, e = build(); assert ok, e
    shutil.copy(W + "/target/debug/mapeditr", "/tmp/seed-base-bin")
    for b in ns["BUGS"]:
        i = b["id"]
        if a[1:] and i not in a[1:]: continue
        d = os.path.join(S, i); sh("mkdir -p " + d)
        fresh()
        for f, old, new in b["edits"]:
            t = open(W + "/" + f).read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(W + "/" + f, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=W).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write("from maplib import *\n" + b["demo"].strip() + "\n")
        shutil.copy(HERE + "/maplib.py", d)
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository, built\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.copy("/tmp/seed-base-bin", W + "/target/debug/mapeditr")
        r = demo(d)
        if r.returncode: print(i, "DROPPED: demo fails on the unchanged program:", (r.stdout + r.stderr)[-600:]); shutil.rmtree(d); continue
        ok, e = build()
        if not ok: print(i, "DROPPED: does not compile", e[-800:]); shutil.rmtree(d); continue
        t = sh("cargo test --offline", cwd=W, env=ENV)
        if t.returncode: print(i, "DROPPED: tests fail", t.stdout[-600:]); shutil.rmtree(d); continue
        r = demo(d)
        if r.returncode == 0: print(i, "DROPPED: demo passes with the change"); shutil.rmtree(d); continue
        print(i, "kept:", (r.stdout + r.stderr).strip().split("\n")[-1][:150], flush=True)
        if b["property"] in CHECKS and not nocheck: check(i, [b["property"]])
main()
