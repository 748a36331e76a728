#!/usr/bin/env python3
"""check.py <property>: decides one property of the crate in /repo's working tree.

Builds the harness against /repo (LLVM IR of the whole program, plus native replay binaries),
runs the symbolic executor over the property's entry points, validates sample models natively,
replays counterexamples natively, writes evidence/<property>.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENGINE = os.path.join(HERE, "symex/target/release/symex")
RC = {70: "assert", 71: "panic", 73: "ub", 72: "allowed-panic", 77: "assumption"}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build_engine():
    r = sh(["bash", os.path.join(HERE, "setup.sh")])
    if r.returncode != 0:
        die("engine build failed\n" + r.stdout[-3000:])


def replay(binary, entry, inputs, tier, work, timeout=120):
    f = os.path.join(work, "in-%d.txt" % replay.n)
    replay.n += 1
    with open(f, "w") as h:
        h.write(("t1 " if tier == "thorough" else "t0 ") + inputs + "\n")
    try:
        r = subprocess.run([binary, entry, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""


replay.n = 0


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) kind=(\S+) msg=\"([^\"]*)\" inputs=\"([^\"]*)\" (.*)", line)
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    cfg = PROPS[prop]
    thorough = TIER == "thorough"
    build_engine()
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, "build"))
    try:
        rc = run(prop, cfg, thorough, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


BAD = (70, 71, 73, 134, -6, -11)


def start_build(work, what, feats):
    return subprocess.Popen([os.path.join(HERE, "build_ir.sh"), work, what], env=dict(os.environ, HARNESS_FEATURES=feats),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def run(prop, cfg, thorough, work, t0):
    """passes: (entries, features, without debug assertions); by default one pass over all entries"""
    passes = [(cfg["entries"], "", False)] if cfg["entries"] else []
    if cfg.get("release"):
        passes.append((cfg["release"], "", True))
    for feats, entries in cfg.get("features", {}).items():
        passes.append((entries, feats, False))
    st = {"violations": [], "known": [], "problems": [], "validated": 0, "entries": [], "functions": set(), "wall": 0.0, "solver": {}}
    deadline = time.time() + int(os.environ.get("VERIF_TIME", "5400" if thorough else "780"))
    for k, (entries, feats, rel) in enumerate(passes):
        w = os.path.join(work, feats or "base")
        os.makedirs(w, exist_ok=True)
        one_pass(prop, cfg, thorough, w, entries, feats, rel, max(20, int((deadline - time.time()) * (0.5 if k + 1 < len(passes) else 1))), st)
    return report(prop, cfg, thorough, t0, st)


def one_pass(prop, cfg, thorough, work, entries, feats, rel, limit, st):
    b = start_build(work, "irr" if rel else "ir", feats)
    o, _ = b.communicate()
    if b.returncode != 0:
        die("harness does not build against /repo\n" + o[-3000:])
    dbgf, relf = os.path.join(work, "replay-debug"), os.path.join(work, "replay-release")
    nat = None if os.path.exists(relf) else start_build(work, "native", feats)
    out = os.path.join(work, "out.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [ENGINE, os.path.join(work, "harness-r.ll" if rel else "harness.ll")] + entries + [
        "--out", out, "--tier", "1" if thorough else "0", "--time", str(limit), "--path-steps", "6000000000" if thorough or cfg.get("long_paths") else "400000000",
        "--query-ms", "120000" if thorough else "60000"]
    r = sh(cmd)
    if nat is not None:
        nout, _ = nat.communicate()
        if nat.returncode != 0:
            die("native replay does not build against /repo\n" + nout[-3000:])
    if r.returncode != 0 or not os.path.exists(out):
        die("symbolic executor failed (%s)\n%s" % (r.returncode, r.stdout[-3000:]))
    j = json.load(open(out))
    tag = (" [%s]" % feats if feats else "") + (" [no debug assertions]" if rel else "")
    problems, violations, known = st["problems"], st["violations"], st["known"]
    both = ((relf, "release"),) if rel else ((dbgf, "debug"), (relf, "release"))
    # sample models through the natively compiled code
    for e in j["entries"]:
        for s in e["samples"] + e["refusals"]:
            want = (72,) if s in e["refusals"] else (0,)
            for b, name in both:
                c, o = replay(b, e["name"], s, TIER, work)
                if c in want:
                    st["validated"] += 1
                elif e["violations"]:
                    pass
                elif c in BAD:
                    v = {"kind": "native", "msg": "fails in the native %s build" % name, "inputs": s, "stack": []}
                    violations.append((e["name"] + tag, v, "native %s run exits %s" % (name, c), o, o))
                else:
                    problems.append("native run of a proved path disagrees: %s%s %s -> %s\n%s" % (e["name"], tag, s, c, o[-500:]))
    # counterexamples
    kf = known_findings(prop)
    for e in j["entries"]:
        for v in e["violations"]:
            k = None
            for f in kf:
                if f[1] == e["name"] and f[2] == v["kind"] and f[3] in v["msg"] and (f[4] == "*" or f[4] == v["inputs"]):
                    k = f
            if k is not None:
                known.append(k)
                continue
            res = [(name,) + replay(b, e["name"], v["inputs"], TIER, work) for b, name in both]
            how = ", ".join("%s exit %s" % (n, c) for n, c, _ in res)
            if any(c in BAD or c == "timeout" for _, c, _ in res):
                how = "reproduced natively (%s)" % how
            elif v["kind"] == "ub":
                how = "undefined behaviour in the compiled code, not observable in the native run (%s)" % how
            else:
                problems.append("counterexample does not reproduce natively: %s%s %s: %s [%s] -> %s\n%s" % (
                    e["name"], tag, v["kind"], v["msg"], v["inputs"], how, res[0][2][-500:]))
                continue
            violations.append((e["name"] + tag, v, how, res[0][2], res[-1][2]))
        # paths left unfinished: their inputs may already show a violation
        for why, s in e["open"][:12]:
            if violations:
                break
            for b, name in both:
                c, o = replay(b, e["name"], s, TIER, work, timeout=60)
                if c in BAD or c == "timeout":
                    v = {"kind": "native", "msg": "fails in the native %s build" % name, "inputs": s, "stack": []}
                    violations.append((e["name"] + tag, v, "native %s run exits %s" % (name, c), o, o))
                    break
            else:
                if why == "refusal":
                    problems.append("%s%s: the refusal does not come within the step limit: %s" % (e["name"], tag, s))
    # anything left undecided
    for e in j["entries"]:
        for x in e["errors"]:
            problems.append("%s%s: %s" % (e["name"], tag, x))
        if not j["timed_out"] and e["unchecked"] and not violations and not known:
            problems.append("%s%s: %d paths not explored" % (e["name"], tag, e["unchecked"]))
        if not e["paths"] and not e["panics_allowed"]:
            problems.append("%s%s: no path completed" % (e["name"], tag))
        want = set(cfg.get("reach", {}).get(e["name"], []))
        miss = want - set(e["reached"])
        if (miss or not e["reached"]) and not e["violations"]:
            problems.append("%s%s: vacuous, witnesses missing %s" % (e["name"], tag, sorted(miss)))
    s = j["solver"]
    if s["errors"]:
        problems.append("solver: " + "; ".join(s["errors"])[:1000])
    if s["unknown"]:
        problems.append("%d queries undecided" % s["unknown"])
    if j["timed_out"]:
        problems.append("time limit of %d s reached%s" % (limit, tag))
    for k, v in s.items():
        if k == "max_query_seconds":
            st["solver"][k] = max(v, st["solver"].get(k, 0))
        elif k in st["solver"]:
            st["solver"][k] += v
        else:
            st["solver"][k] = v
    st["functions"] |= set(j["functions"])
    st["wall"] += j["wall_s"]
    for e in j["entries"]:
        e["name"] += tag
        st["entries"].append(e)


def report(prop, cfg, thorough, t0, st):
    problems, violations, known, validated, s = st["problems"], st["violations"], st["known"], st["validated"], st["solver"]
    j = {"entries": st["entries"], "functions": sorted(st["functions"]), "wall_s": round(st["wall"], 3)}
    tot = lambda k: sum(e[k] for e in j["entries"])
    funcs = sorted(f for f in j["functions"] if "pgnumeric" in f)
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": [{"entry": e["name"], "inputs": x} for e in j["entries"] for x in e["samples"]][:12],
            "rule": "states: symbolic paths of the compiled crate completed (each covers every value of its symbolic inputs); transitions: LLVM instructions executed symbolically; traces: solver models of proved paths run through the native debug and release builds",
            "exhaustive_within_bounds": not problems,
            "bounds": cfg["bounds"],
            "outside": cfg.get("outside", ""),
            "entries": {e["name"]: {k: e[k] for k in ("paths", "panics_allowed", "infeasible", "asserts", "symbolic_asserts", "steps", "forks", "choices", "max_path_steps", "reached")} for e in j["entries"]},
            "functions_encoded": funcs,
            "functions_total": len(j["functions"]),
            "solver": s,
            "symbolic_execution_s": j["wall_s"],
            "undecided": problems[:20],
        },
        "assumptions": [
            "rustc 1.69 LLVM IR of the debug profile (opt-level 1, overflow checks and debug assertions on) stands for the crate; models are also replayed on the release build",
            "the symbolic executor in /verif/symex and the SMT solvers (z3, cvc5) are correct",
            "allocation never fails",
        ] + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[5]))
    print("%s %s: %d paths, %d assertions (%d symbolic), %d solver queries (%.1f s), %d native runs, %.1f s" % (
        prop, TIER, tot("paths"), tot("asserts"), tot("symbolic_asserts"), s["queries"], s["seconds"], validated, time.time() - t0))
    if violations:
        rd = os.path.join(HERE, "build", "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for n, (entry, v, how, o1, o2) in enumerate(violations):
            if v["msg"] in seen:
                continue
            seen.add(v["msg"])
            p = os.path.join(rd, "%s-%d.json" % (prop, n))
            with open(p, "w") as h:
                json.dump({"property": prop, "entry": entry, "kind": v["kind"], "message": v["msg"], "inputs": v["inputs"],
                           "stack": v["stack"], "native": how, "tier": TIER, "debug_output": o1[-2000:], "release_output": o2[-2000:],
                           "reproduce": "cd /verif && ./build_ir.sh $PWD/build/r native && echo '%s %s' > build/r/in && build/r/replay-debug %s build/r/in" % (
                               "t1" if thorough else "t0", v["inputs"], entry)}, h, indent=1)
            print("  %s: %s: %s\n    inputs %s\n    %s" % (entry, v["kind"], v["msg"], v["inputs"], how))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if problems:
        for p in problems[:20]:
            print("UNDECIDED: " + p)
        return 2
    return 0


main()
