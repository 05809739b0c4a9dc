#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--entry NAME]...   run one property's check
   run.py --setup                                                build everything
   run.py --replay FILE                                          replay a counterexample natively"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
from checks import CHECKS, BOUNDS

ENV = dict(os.environ)
for k in list(ENV):
    if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS"): del ENV[k]
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + ENV.get("PATH", "")

def say(*a): print(*a, flush=True)
class Broken(Exception): pass

def sh(cmd, cwd, log, extra=None):
    e = dict(ENV); e.update(extra or {})
    with open(log, "wb") as f:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode:
        t = open(log, errors="replace").read()
        raise Broken("%s failed:\n%s" % (" ".join(cmd[:4]), t[-3000:]))

def put(path, text):
    """Write only what changed, so that cargo's time stamps stay meaningful."""
    data = text if isinstance(text, bytes) else text.encode()
    try:
        if open(path, "rb").read() == data: return False
    except OSError: pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f: f.write(data)
    return True

def copy_src(dst, head, tail):
    """/repo/src, with `tail` added at the end of its root file."""
    want = set()
    for d, _, fs in os.walk(os.path.join(R, "src")):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, os.path.join(R, "src"))
            want.add(rel)
            data = open(p, "rb").read()
            if rel == "main.rs": data = head.encode() + data + tail.encode()
            put(os.path.join(dst, rel), data)
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, dst) not in want: os.remove(p)

def deps():
    t = open(os.path.join(R, "Cargo.toml")).read()
    m = re.search(r"^\[dependencies\]\s*$(.*?)(?=^\[|\Z)", t, re.M | re.S)
    return m.group(1) if m else ""

def meta(name):
    t = open(os.path.join(R, "Cargo.toml")).read()
    m = re.search(r'^%s\s*=\s*(.*)$' % name, t, re.M)
    return m.group(1) if m else '"0"'

def package(name):
    return '[package]\nname = "%s"\nversion = %s\nauthors = %s\nedition = %s\nautobins = false\n' % (name, meta("version"), meta("authors"), meta("edition"))

MODELS = ["sqlite", "flate2", "zstd"]

def lock_file(dst):
    p = os.path.join(dst, "Cargo.lock")
    src = open(os.path.join(R, "Cargo.lock"), "rb").read()
    mark = os.path.join(dst, ".lock-of")
    h = hashlib.sha256(src).hexdigest()
    if not os.path.exists(p) or not os.path.exists(mark) or open(mark).read() != h:
        put(p, src); put(mark, h)

def build_engine():
    sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"), os.path.join(B, "engine.log"), {"CARGO_TARGET_DIR": os.path.join(B, "engine")})
    return os.path.join(B, "engine/release/symx")

def build_sym():
    d = os.path.join(B, "sym")
    copy_src(os.path.join(d, "src"), "", "\nextern crate vstd as std;\n#[path=\"%s/harness/src/mod.rs\"] pub mod verif_harness;\n" % V)
    cargo = package("mapeditr") + '[workspace]\n[lib]\nname = "mapeditr"\npath = "src/main.rs"\ncrate-type = ["cdylib"]\n[dependencies]\n%s\nvstd = { path = "%s/models/vstd" }\n' % (deps(), V)
    cargo += "[patch.crates-io]\n" + "".join('%s = { path = "%s/models/%s" }\n' % (m, V, m) for m in MODELS)
    cargo += '[profile.release]\nlto = "fat"\npanic = "abort"\nopt-level = 2\ncodegen-units = 1\noverflow-checks = true\ndebug = "line-tables-only"\n'
    put(os.path.join(d, "Cargo.toml"), cargo)
    lock_file(d)
    t = os.path.join(B, "sym-target")
    for f in glob.glob(os.path.join(t, "release/deps/mapeditr*.ll")) + glob.glob(os.path.join(t, "release/.fingerprint/mapeditr-*")):
        if os.path.isdir(f): shutil.rmtree(f)
        else: os.remove(f)
    sh(["cargo", "rustc", "--lib", "--release", "--offline", "--", "--cfg", "symx", "-A", "warnings", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], d, os.path.join(B, "sym.log"), {"CARGO_TARGET_DIR": t})
    ll = glob.glob(os.path.join(t, "release/deps/mapeditr*.ll"))
    if len(ll) != 1: raise Broken("no LLVM IR was produced")
    return ll[0]

def build_native():
    d = os.path.join(B, "native")
    copy_src(os.path.join(d, "src"), "", "\n#[path=\"%s/harness/src/mod.rs\"] pub mod verif_harness;\n" % V)
    dp = re.sub(r"(?m)^\s*sqlite\s*=.*$", "", deps())
    ver = re.search(r'(?m)^\s*sqlite\s*=\s*(.*)$', deps())
    cargo = package("mapeditr") + '[workspace]\n[lib]\nname = "mapeditr"\npath = "src/main.rs"\n[[bin]]\nname = "replay"\npath = "%s/native/replay.rs"\n[dependencies]\n%s\nsqlite = { path = "%s/models/sqlite_shim" }\nreal = { package = "sqlite", version = %s }\n' % (V, dp, V, ver.group(1) if ver else '"0.26"')
    cargo += '[profile.release]\nopt-level = 1\noverflow-checks = true\ncodegen-units = 16\n'
    put(os.path.join(d, "Cargo.toml"), cargo)
    lock_file(d)
    t = os.path.join(B, "native-target")
    for f in glob.glob(os.path.join(t, "release/.fingerprint/mapeditr-*")): shutil.rmtree(f)
    sh(["cargo", "rustc", "--bin", "replay", "--release", "--offline", "--", "-A", "warnings"], d, os.path.join(B, "native.log"), {"CARGO_TARGET_DIR": t, "RUSTFLAGS": "-A warnings"})
    return os.path.join(t, "release/replay")

class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, "lock"), "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def grouped(cmd, env, timeout):
    """Runs a command, and ends all of its processes when it takes too long."""
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try: out, err = p.communicate(timeout=timeout)
    except BaseException:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)

def replay(binary, path, timeout=180):
    """-> (verdict, output). verdict: 'fails' | 'holds' | 'diverged'"""
    tmp = tempfile.mkdtemp(prefix="scratch-", dir=B)
    e = dict(ENV); e["TMPDIR"] = tmp; e["RUST_BACKTRACE"] = "0"
    try:
        r = subprocess.run(["prlimit", "--as=8589934592", binary, path], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout, cwd=tmp)
        out, rc = r.stdout.decode(errors="replace"), r.returncode
        if rc < 0: out += "\nFAILED the program died of signal %d\n" % -rc
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT", 9
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if rc == 1 or rc < 0: return "fails", out
    if rc == 0: return "holds", out
    return "diverged", out

def known(prop):
    p = os.path.join(V, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) check=\[(.*?)\] (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        with Lock():
            build_engine(); build_sym(); build_native()
        return 0
    if a and a[0] == "--replay":
        with Lock(): nat = build_native()
        v, o = replay(nat, a[1]); print(o); return 1 if v == "fails" else 0
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    only = [a[i + 1] for i, x in enumerate(a) if x == "--entry"]
    verbose = "-v" in a
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    out = os.path.join(B, "out", prop)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    state = dict(viol=[], known=[], problems=[], runs=[], traces=0, samples=[])
    try:
        check(prop, tier, only, out, state, verbose)
    except Broken as x:
        state["problems"].append(str(x))
    wall = time.time() - t0
    if not only: evidence(prop, tier, seed, state, wall)
    for label, what in state["known"]: say("KNOWN-FINDING: property=%s %s" % (prop, what))
    for v in state["viol"]: say("  %s: %s" % (v[1], v[0]))
    if state["viol"]:
        say("VIOLATION property=%s replay=%s" % (prop, state["viol"][0][2])); return 1
    if state["problems"]:
        for p in state["problems"]: say("INCONCLUSIVE: " + p)
        return 2
    n = sum(r["paths"] for r in state["runs"])
    say("%s holds: %d entries, %d paths, %d solver queries, %d traces replayed, %.0f s" % (prop, len(state["runs"]), n, sum(r["queries"] for r in state["runs"]), state["traces"], wall))
    return 0

def check(prop, tier, only, out, state, verbose):
    with Lock():
        import threading
        res = {}
        def job(n, f):
            try: res[n] = f()
            except Exception as x: res[n] = x
        ts = [threading.Thread(target=job, args=(n, f)) for n, f in (("engine", build_engine), ("native", build_native), ("sym", build_sym))]
        [t.start() for t in ts]; [t.join() for t in ts]
        for n in ("engine", "native", "sym"):
            if isinstance(res[n], Exception): raise Broken(str(res[n]))
        symx, nat = res["engine"], res["native"]
        ll = os.path.join(out, "program.ll"); shutil.copy(res["sym"], ll)
        nb = os.path.join(out, "replay"); shutil.copy(nat, nb); nat = nb
    if verbose: say("built")
    rdir = os.path.join(B, "replays"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*")): os.remove(f)
    fin = known(prop)
    end = time.time() + (640 if tier != "thorough" else 1e9)
    for ent in CHECKS[prop]["entries"]:
        name, opts = ent if isinstance(ent, tuple) else (ent, {})
        if only and name not in only: continue
        if opts.get("tier") == "thorough" and tier != "thorough": continue
        d = os.path.join(out, name)
        limit = max(10, min(opts.get("time", 500) * (4 if tier == "thorough" else 1), end - time.time()))
        # with a violation in hand the search ends soon, unless findings are listed (it could be one of those)
        cmd = [symx, ll, "--entry", name, "--out", d, "--procs", "8", "--time", str(limit), "--wit", str(opts.get("wit", 1)), "--steps", str(opts.get("steps", 7e8)), "--viols", "6", "--after", "1e9" if fin else "20"]
        env = dict(ENV)
        if tier == "thorough": env["VERIF_TIER"] = "thorough"
        try:
            r = grouped(cmd + (["--verbose"] if verbose else []), env, limit + 60)
        except subprocess.TimeoutExpired: raise Broken("%s: the executor did not end" % name)
        if verbose: sys.stderr.write(r.stderr.decode(errors="replace")[-6000:])
        try: j = json.load(open(os.path.join(d, "result.json")))
        except Exception: raise Broken("%s: the executor failed: %s" % (name, r.stderr.decode(errors="replace")[-2000:]))
        state["runs"].append(j)
        if verbose: say(name, {k: j[k] for k in ("paths", "steps", "forks", "concs", "queries", "viols", "infeasible", "exprs", "solver_s", "wall_s", "load_s", "processes", "incomplete")}, {k: v for k, v in j["checks"].items()}, j["covers"])
        # counterexamples: only what fails on the real program counts
        seen = set(); bad = []
        for f in sorted(glob.glob(os.path.join(d, "viol.*.txt"))):
            label = open(f).read().split("\n")[1][2:]
            if label in seen and (len(seen) > 3 or label == "the program does not end"): continue
            verdict, o = replay(nat, f, 60 if label == "the program does not end" else 180)
            if verdict == "diverged" and o.endswith("TIMEOUT"): verdict, o = "fails", o + "\nFAILED the program does not end\n"
            fails = [l[7:] for l in o.splitlines() if l.startswith("FAILED ")]
            if verdict == "fails":
                seen.add(label)
                k = next((w for c, w in fin if any(c == x for x in fails) or c == label), None)
                if k:
                    if (label, k) not in state["known"]: state["known"].append((label, k))
                else:
                    p = os.path.join(rdir, "%s-%d.txt" % (prop, len(state["viol"]))); shutil.copy(f, p)
                    state["viol"].append((fails[0] if fails else label, name, p))
            else: bad.append((label, f, verdict, o[-300:]))
        for b in bad: state["problems"].append("%s: a counterexample did not replay (%s): %s %s\n%s" % (name, b[2], b[0], b[1], b[3]))
        # what led out of the models is judged on the real program
        gaps = sorted(glob.glob(os.path.join(d, "gap.*.txt")))
        if len(gaps) > 48: gaps = [gaps[i * len(gaps) // 48] for i in range(48)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex: outs = list(ex.map(lambda f: replay(nat, f), gaps))
        for f, (verdict, o) in zip(gaps, outs):
            if verdict != "fails": continue
            fl = [l[7:] for l in o.splitlines() if l.startswith("FAILED ")] or ["fails on the real program"]
            k = next((w for c, w in fin if any(c == x for x in fl)), None)
            if k: state["known"].append((fl[0], k))
            elif fl[0] not in [v[0] for v in state["viol"]]:
                p = os.path.join(rdir, "%s-%d.txt" % (prop, len(state["viol"]))); shutil.copy(f, p)
                state["viol"].append((fl[0], name, p))
        # sampled paths: the model and the real program must agree on what is observed
        wits = sorted(glob.glob(os.path.join(d, "wit.*.txt")))
        if len(wits) > 48: wits = [wits[i * len(wits) // 48] for i in range(48)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex: outs = list(ex.map(lambda f: replay(nat, f), wits))
        for f, (verdict, o) in zip(wits, outs):
            want = [l for l in open(f).read().splitlines() if l.startswith("O ")]
            got = [l for l in o.splitlines() if l.startswith("O ")]
            want = [("O %s %s" % ("_".join(l[2:].split(" ")[:-1]), l.split(" ")[-1])) for l in want]
            if verdict == "fails":
                p = os.path.join(rdir, "%s-%d.txt" % (prop, len(state["viol"]))); shutil.copy(f, p)
                fl = [l[7:] for l in o.splitlines() if l.startswith("FAILED ")]
                k = next((w for c, w in fin if any(c == x for x in fl)), None)
                if k: state["known"].append((fl[0], k))
                else: state["viol"].append((fl[0] if fl else "fails on the real program", name, p))
            elif verdict == "diverged": state["problems"].append("%s: a sampled path did not replay: %s\n%s" % (name, f, o[-500:]))
            elif want != got:
                dd = [(w, g) for w, g in zip(want, got) if w != g]
                state["problems"].append("%s: model and program differ on %s: %s" % (name, f, (dd[0] if dd else (len(want), len(got)))))
            else:
                state["traces"] += 1
                if len(state["samples"]) < 6: state["samples"].append({"entry": name, "inputs": [l for l in open(f).read().splitlines() if l[:1] in "IBC"][:12], "observed": [w[:160] for w in want[:4]]})
        inc = {k: v for k, v in j["incomplete"].items()}
        if inc and not (state["viol"]): state["problems"].append("%s: not everything was explored: %s" % (name, inc))
        if j["paths"] == 0 and not state["viol"]: state["problems"].append("%s: no path was completed" % name)
        for c in opts.get("covers", []):
            if c not in j["covers"] and not state["viol"]: state["problems"].append("%s: the case '%s' was never reached" % (name, c))
        if state["viol"] and not verbose: break

def evidence(prop, tier, seed, st, wall):
    rs = st["runs"]
    s = lambda k: sum(r[k] for r in rs)
    funcs = sorted({f[1] for r in rs for f in r["inlined"] if "verif_harness" not in f[1] and "/harness/" not in f[0] and f[0].startswith("src/")})
    cov = dict(states=s("forks") + s("paths"), transitions=s("steps"), traces_validated_against_impl=st["traces"],
        samples=st["samples"] or [{"note": "no path was replayed"}], paths=s("paths"), infeasible_branches=s("infeasible"), solver_queries=s("queries"),
        solver_seconds=round(sum(r["solver_s"] for r in rs), 2), solver=rs[0]["z3"] if rs else "",
        assertions={k: {"evaluated": v[0], "decided_by_solver": v[1]} for r in rs for k, v in r["checks"].items()},
        functions_encoded=len(funcs), functions=funcs[:400],
        source_lines_executed={k: v for r in rs for k, v in r["lines"].items() if k.startswith("src/")},
        entries={r["entry"]: {"paths": r["paths"], "steps": r["steps"], "queries": r["queries"], "seconds": r["wall_s"]} for r in rs},
        bounds=CHECKS[prop]["bounds"], outside=CHECKS[prop].get("outside", []), problems=st["problems"][:10])
    e = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=BOUNDS, wall_s=round(wall, 2), violations=len(st["viol"]))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(e, f, indent=1)

if __name__ == "__main__": sys.exit(main())
