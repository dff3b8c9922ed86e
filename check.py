#!/usr/bin/env python3
"""Decide one property: check.py PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
or build everything: check.py --setup.

Rebuilds the harnesses from /repo's working tree to LLVM IR, lets sevm decide every assertion over all
symbolic inputs, replays each counterexample (and sampled completed paths) natively, writes the evidence.
Exit 0: held on everything explored. 1: VIOLATION. 2: no answer (never reported as a pass)."""
import fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
JOBS = max(1, min(8, os.cpu_count() or 1))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.exists(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def cargo(dir, target, args, flags=None):
    """Build a crate into build/TARGET, dropping what cargo holds for an older /repo."""
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(B, target))
    if flags:
        env["RUSTFLAGS"] = flags
    stamp = os.path.join(B, target + "".join(args) + ".stamp")
    want = tree_hash() if dir != "sevm" else ""
    have = open(stamp).read() if os.path.exists(stamp) else None
    if dir != "sevm" and have != want:
        prof = ["--release"] if "--release" in args else []
        subprocess.run(["cargo", "clean", "--offline", "-p", "scale-value"] + prof, cwd=os.path.join(V, dir), env=env, capture_output=True)
    p = subprocess.run(["cargo", "build", "--offline"] + args, cwd=os.path.join(V, dir), env=env, capture_output=True, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout + p.stderr)
        die(f"building {dir} failed")
    os.makedirs(B, exist_ok=True)
    open(stamp, "w").write(want)


def build_sevm():
    cargo("sevm", "sevm", ["--release"])
    return os.path.join(B, "sevm/release/sevm")


def build_ir():
    d = os.path.join(B, "ir/release/deps")
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith("harness") and f.endswith(".ll"):
                if not os.path.exists(os.path.join(B, "ir--lib--release.stamp")):
                    os.unlink(os.path.join(d, f))
    cargo("harness", "ir", ["--lib", "--release"], "--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp")
    ll = [os.path.join(d, f) for f in os.listdir(d) if f.startswith("harness") and f.endswith(".ll")]
    if not ll:
        die("no LLVM IR was produced")
    return max(ll, key=os.path.getmtime)


def build_replay(prof):
    cargo("replay", "replay", ["--release"] if prof == "release" else [])
    return os.path.join(B, "replay", prof, "replay")


def replay(exe, name, param, inp, timeout=30):
    try:
        p = subprocess.run([exe, name, str(param), inp], capture_output=True, text=True, timeout=timeout, cwd="/")
    except subprocess.TimeoutExpired:
        return {"fail": "does not return within %d s" % timeout, "obs": [], "covers": []}
    out = p.stdout.splitlines()
    r = {"obs": [l[4:] for l in out if l.startswith("obs ")] + ["" for l in out if l == "obs"],
         "covers": sorted(int(l[6:]) for l in out if l.startswith("cover ")), "fail": None, "assume": "ASSUME" in out}
    fails = [l[5:] for l in out if l.startswith("FAIL ")]
    if fails:
        r["fail"] = fails[0]
    elif p.returncode < 0:
        r["fail"] = "killed by signal %d (stack overflow or invalid access) %s" % (-p.returncode, p.stderr[-200:].strip())
    elif p.returncode not in (0, 3):
        die("replayer ended with %d: %s %s" % (p.returncode, p.stdout[-300:], p.stderr[-300:]))
    return r


def instructions(exe, name, param, inp):
    """How many instructions a native run takes (cut off at two minutes)."""
    cmd = ["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", exe, name, str(param), inp]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=120, cwd="/")
    except subprocess.TimeoutExpired:
        return 10 ** 9
    m = re.search(r"Collected : (\d+)", p.stderr)
    return int(m.group(1)) if m else 0


def demangle(s):
    m = re.match(r"_ZN(.*)E$", s)
    if not m:
        return s
    t, parts = m.group(1), []
    while t and t[0].isdigit():
        n = re.match(r"\d+", t).group(0)
        parts.append(t[len(n):len(n) + int(n)])
        t = t[len(n) + int(n):]
    if parts and re.match(r"h[0-9a-f]{16}$", parts[-1]):
        parts.pop()
    s = "::".join(parts)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$BP$", "*"), ("$u20$", " "), ("$C$", ","), ("$LP$", "("), ("$RP$", ")"),
                 ("$u7b$", "{"), ("$u7d$", "}"), ("$u5b$", "["), ("$u5d$", "]"), ("$u27$", "'"), ("$u3b$", ";"), ("$u2b$", "+"), ("..", "::")):
        s = s.replace(a, b)
    return s.lstrip("_")


def known_findings(prop):
    """Lines `known: property=ID harness=NAME what=TEXT input-prefix/site`, see known_findings.txt."""
    out = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) harness=(\S+) fail=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"harness": m.group(2), "fail": m.group(3).replace("_", " "), "what": m.group(4)})
    return out


def check_line(name, fail):
    """The source line of a failed assertion."""
    m = re.match(r"assert (\d+)", fail or "")
    if not m:
        return ""
    d = os.path.join(V, "harness/src")
    for f in sorted(os.listdir(d)):
        t = open(os.path.join(d, f)).read()
        if re.search(r"fn %s\(" % name, t):
            ls = t.splitlines()
            n = int(m.group(1))
            if 0 < n <= len(ls):
                return "harness/src/%s:%d: %s" % (f, n, ls[n - 1].strip())
    return ""


def main():
    if sys.argv[1:] == ["--setup"]:
        os.makedirs(B, exist_ok=True)
        with open(os.path.join(B, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            build_sevm(); build_ir(); build_replay("release"); build_replay("debug")
        print("setup done")
        return
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from checks import CHECKS
    spec = CHECKS[prop]
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sevm = build_sevm()
        ir = build_ir()
        rel = build_replay("release")
        dev = build_replay("debug")
        t_build = time.time() - t0
        # keep the IR of this run, should another build replace it
        jobs = spec["quick"] if tier != "thorough" else spec.get("thorough", spec["quick"])
        out = os.path.join(B, "out_%s.json" % prop)
        if os.path.exists(out):
            os.unlink(out)
        total = 600 if tier != "thorough" else spec.get("thorough_s", 7200)
        cmd = [sevm, ir, out, "--jobs", str(JOBS), "--time", str(int(spec.get("job_s", 400) if tier != "thorough" else total)), "--total", str(int(total)),
               "--samples", "2" if tier != "thorough" else "6", "--seed", str(seed), "--max-viol", "2", "--max-steps", str(spec.get("max_steps", 60000000))]
        cmd += ["--cross-check", str(spec.get("cross_check", 1 if tier == "thorough" else 0.3))]
        # a counterexample ends the run, unless it may be one that is known
        cmd += ["--grace", "15"] + [a for k in known_findings(prop) for a in ("--known", k["harness"])]
        p = subprocess.run(cmd + jobs, capture_output=True, text=True)
    sys.stdout.write(p.stderr)
    if p.returncode != 0 or not os.path.exists(out):
        die("sevm ended with %d: %s" % (p.returncode, p.stdout[-500:]))
    res = json.load(open(out))
    os.unlink(out)

    # counterexamples first
    known, shown = known_findings(prop), set()
    viols, bogus = [], []
    for r in res:
        for v in r["violations"][:12]:
            if len(viols) >= 5:
                break
            rep = None
            for exe in (rel, dev):
                rep = replay(exe, r["harness"], r["param"], v["input"])
                if rep["fail"]:
                    break
            if not rep["fail"] and v["kind"] == "steps":
                n = instructions(dev, r["harness"], r["param"], v["input"])
                if n > spec.get("max_steps", 60000000) // 4:
                    rep["fail"] = "executes %d instructions" % n
                    exe = dev
            if not rep["fail"]:
                bogus.append("%s:%d %s %s input=%s" % (r["harness"], r["param"], v["kind"], v["detail"], v["input"]))
                continue
            k = [k for k in known if k["harness"] == r["harness"] and rep["fail"].startswith(k["fail"])]
            if k:
                if k[0]["what"] not in shown:
                    print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
                    shown.add(k[0]["what"])
                continue
            viols.append({"harness": r["harness"], "param": r["param"], "input": v["input"], "solver": v["kind"] + " " + v["detail"],
                          "native": rep["fail"], "where": check_line(r["harness"], rep["fail"]), "profile": "release" if exe == rel else "dev",
                          "reproduce": "%s %s %d %s" % (exe, r["harness"], r["param"], v["input"])})
    # sampled completed paths: the real code must do what the encoding did
    traces, mismatch, samples = 0, [], []
    if not viols:
        for r in res:
            for s in r["samples"]:
                for exe in (rel, dev):
                    rep = replay(exe, r["harness"], r["param"], s["input"])
                    if rep["fail"] or rep["assume"] or rep["obs"] != s["obs"] or rep["covers"] != s["covers"]:
                        mismatch.append("%s:%d input=%s engine=%s native=%s" % (r["harness"], r["param"], s["input"], {k: s[k] for k in ("obs", "covers")}, rep))
                    traces += 1
                if len(samples) < 40:
                    samples.append({"harness": "%s:%d" % (r["harness"], r["param"]), "input": s["input"], "marks": s["covers"], "observed": [o[:200] for o in s["obs"]]})
    S = lambda k: sum(r[k] for r in res)
    covers = {}
    for r in res:
        for k, n in r["covers"].items():
            covers.setdefault(r["harness"], {}).setdefault(int(k), 0)
            covers[r["harness"]][int(k)] += n
    missing = []
    for h, want in spec.get("covers", {}).items():
        if any(j.split(":")[0] == h for j in jobs):
            missing += ["%s mark %d" % (h, c) for c in want if not covers.get(h, {}).get(c)]
    for j in jobs:
        if not any(covers.get(j.split(":")[0], {}).values()):
            missing.append(j + " reached no mark")
    incomplete = ["%s:%d %s" % (r["harness"], r["param"], list(r["errors"].items())[:3]) for r in res if not r["complete"]]
    if len(res) < len(jobs):
        incomplete.append("only %d of %d jobs ran" % (len(res), len(jobs)))
    fns = sorted({demangle(f) for r in res for f in r["funcs"]})
    own = [f for f in fns if "scale_value" in f and "harness" not in f.split("::")[0]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("forks"), "traces_validated_against_impl": traces, "samples": samples,
            "exhaustive": not incomplete and not viols,
            "what": "states = feasible complete paths of the compiled code, each standing for every input that takes it; transitions = two-way branches both sides of which the solver found feasible; every assertion is decided for all inputs of its path",
            "bounds": spec["bounds"], "outside": spec.get("outside", ""),
            "instructions_executed_symbolically": S("steps"), "paths_cut_by_assumptions": S("killed"),
            "assertions_decided": S("asserts"), "assertions_needing_a_query": S("assert_queries"),
            "smt_queries": S("z3_queries"), "smt_sat": S("z3_sat"), "smt_unsat": S("z3_unsat"), "smt_unknown": S("z3_unknown"),
            "smt_time_s": round(S("z3_time_s"), 2), "longest_query_s": max([r["max_query_s"] for r in res] or [0]),
            "decided_by_enumerating_small_domains": S("domain_decided"), "answered_by_known_model": S("model_hits"), "answered_from_cache": S("cache_hits"),
            "of_those_also_put_to_the_solver": S("cross_checked"), "max_symbolic_input_bytes": max([r["max_inputs"] for r in res] or [0]),
            "marks_reached": {h: {str(k): n for k, n in c.items()} for h, c in covers.items()},
            "jobs": [{"harness": "%s:%d" % (r["harness"], r["param"]), "paths": r["paths"], "complete": r["complete"], "wall_s": r["wall_s"],
                      "smt_queries": r["z3_queries"], "smt_time_s": r["z3_time_s"]} for r in res],
            "functions_encoded": own, "functions_encoded_other": len(fns) - len(own),
            "source_sha256": tree_hash(), "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d paths, %d assertions, %d solver queries (%.1f s), %d traces replayed, %.1f s (build %.1f s)" % (
        prop, tier, S("paths"), S("asserts"), S("z3_queries"), S("z3_time_s"), traces, time.time() - t0, t_build))
    for b in bogus:
        print("NOT REPRODUCED: " + b)
    if viols:
        path = os.path.join(V, "evidence", "%s.violation.json" % prop)
        with open(path, "w") as f:
            json.dump(viols, f, indent=1)
        for v in viols:
            print("  %s:%d: %s  %s\n    input %s" % (v["harness"], v["param"], v["native"], v["where"], v["input"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if bogus:
        die("a counterexample does not reproduce: the encoding is wrong")
    if mismatch:
        die("the encoding and the real code disagree: " + "\n".join(mismatch[:5]))
    if incomplete:
        die("exploration incomplete: " + "; ".join(incomplete))
    if missing:
        die("vacuous: " + "; ".join(missing))


COMMON = [
    "Encoded: optimised LLVM IR of the harness crate with fat LTO (scale-value, its dependencies and the parts of std they use), opt-level 1, overflow checks and debug assertions on; rustc's lowering and sevm's IR semantics are trusted, and checked by replaying sampled paths and every counterexample natively in the release and dev profiles",
    "Allocation never fails below the stated limit; single-threaded; 64-bit little-endian",
]

if __name__ == "__main__":
    sys.path.insert(0, V)
    main()
