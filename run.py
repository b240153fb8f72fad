#!/usr/bin/env python3
"""Driver of the checks.   run.py <property> quick|thorough     run.py replay <file>     run.py list

Compiles the harness units of a property against /repo's current tree (nothing is cached between runs), runs
their shards in parallel, aggregates what they explored into evidence/<property>.json, matches failures
against known_findings.txt and reports the others.  Exit 0: held on everything explored; 1: VIOLATION;
2: the check itself could not run (compile error, lost shard ...)."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, HERE)
from units import CHECKS, FLAVORS  # noqa: E402

NCPU = os.cpu_count() or 4


def known_findings(prop):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            m = re.match(r"known: property=(\S+) match=(.*?) what=(.*)$", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def compile_unit(u, build):
    fl = FLAVORS[u.get("flavor", "asan")]
    out = os.path.join(build, u["name"])
    inc = ["-I" + REPO, "-I" + os.path.join(HERE, "lib")]
    cxx = fl.get("cxx", "g++")
    src = os.path.join(HERE, "checks", u["src"])
    extra = [os.path.join(build, e) if e.endswith(".o") else e for e in fl.get("extra", [])] + fl.get("libs", ["-ltbb", "-lpthread"])
    if fl.get("two_step"):
        cmds = [[cxx] + fl["flags"] + u.get("flags", []) + inc + ["-c", src, "-o", out + ".unit.o"], [cxx, out + ".unit.o", "-o", out] + extra]
    else:
        cmds = [[cxx] + fl["flags"] + u.get("flags", []) + inc + [src, "-o", out] + extra]
    t = time.time()
    for cmd in cmds:
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            lines = [l for l in r.stderr.splitlines() if "error" in l][:20]
            return None, " ".join(cmd) + "\n" + "\n".join(lines or r.stderr.splitlines()[:20])
    return out, "%.1f" % (time.time() - t)


def env_for(u):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:hard_rss_limit_mb=6000:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e.update(u.get("env", {}))
    return e


def run_shard(u, exe, i, n, tier, build, deadline, knownfile):
    out = os.path.join(build, "%s.%d.json" % (u["name"], i))
    budget = max(5.0, deadline - time.time())
    cmd = [exe, "--out", out, "--shard", str(i), str(n), "--tier", tier, "--budget", "%.1f" % budget]
    if knownfile:
        cmd += ["--known", knownfile]
    cmd += u.get("args", []) + (u.get("targs", []) if tier == "thorough" else u.get("qargs", []))
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=env_for(u), timeout=budget + 420, errors="replace")
    except subprocess.TimeoutExpired:
        return {"error": "shard timed out: " + " ".join(cmd)}
    if not os.path.exists(out):
        return {"error": "no output (exit %d): %s\n%s" % (r.returncode, " ".join(cmd), r.stderr[-2000:])}
    try:
        d = json.load(open(out))
    except Exception as ex:  # noqa
        return {"error": "bad output %s: %s" % (out, ex)}
    d["unit"] = u["name"]
    return d


def prepare(chk, build):
    for f in set(u.get("flavor", "asan") for u in chk["units"]):
        for src, obj, flags in FLAVORS[f].get("objs", []):
            r = subprocess.run(["g++"] + flags + ["-c", os.path.join(HERE, "lib", src), "-o", os.path.join(build, obj)], capture_output=True, text=True)
            if r.returncode:
                print(r.stderr[:4000], file=sys.stderr)
                sys.exit(2)


def new_build(prop):
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=prop + ".", dir=base)


def do_check(prop, tier):
    t0 = time.time()
    chk = CHECKS[prop]
    build = new_build(prop)
    try:
        return do_check_in(prop, tier, chk, build, t0)
    finally:
        shutil.rmtree(build, ignore_errors=True)


def do_check_in(prop, tier, chk, build, t0):
    wall = chk.get("thorough_wall", 1500) if tier == "thorough" else chk.get("quick_wall", 420)
    deadline = t0 + wall
    prepare(chk, build)
    known = known_findings(prop)
    knownfile = ""
    if known:
        knownfile = os.path.join(build, "known.txt")
        with open(knownfile, "w") as f:
            for k, _ in known:
                f.write(k + "\n")
    units = [u for u in chk["units"] if tier == "thorough" or not u.get("thorough_only")]
    results, errors = [], []
    with cf.ThreadPoolExecutor(NCPU) as pool:
        comp = {pool.submit(compile_unit, u, build): u for u in units}
        runs = []
        for fut in cf.as_completed(comp):
            u = comp[fut]
            exe, msg = fut.result()
            if exe is None:
                errors.append("compilation of %s failed:\n%s" % (u["name"], msg))
                continue
            if os.environ.get("VERIF_TIMES"):
                print("  %-14s compiled in %s s" % (u["name"], msg))
            n = u.get("shards", NCPU)
            for i in range(n):
                runs.append(pool.submit(run_shard, u, exe, i, n, tier, build, deadline, knownfile))
        if not errors:
            for r in runs:
                d = r.result()
                if "error" in d:
                    errors.append(d["error"])
                else:
                    results.append(d)
    viol = []
    known_hit = {}
    tot = dict(cases=0, transitions=0, states=0, faults=0, nontrivial=0, outcomes=0)
    samples, capped, per_unit, extra = [], 0, {}, {}
    for d in results:
        for k in tot:
            tot[k] += d.get(k, 0)
        pu = per_unit.setdefault(d["unit"], dict(cases=0, transitions=0, states=0, faults=0, wall=0.0, completed_depth=99))
        for k in ("cases", "transitions", "states", "faults"):
            pu[k] += d.get(k, 0)
        pu["wall"] = max(pu["wall"], d.get("wall", 0))
        pu["completed_depth"] = min(pu["completed_depth"], d.get("depth", 0))
        capped += d.get("capped", 0)
        for k, v in d.get("extra", {}).items():
            extra[k] = extra.get(k, 0) + v
        samples += [s for s in d["samples"]]
        for k, c in d["known"]:
            known_hit.setdefault(k, c)
        for c, m in d["violations"]:
            viol.append((d["unit"], c, m))
    if len(samples) > 24:
        step = len(samples) / 24.0
        samples = [samples[int(i * step)] for i in range(24)]
    for k, what in known:
        # listed findings are announced on every run
        print("KNOWN-FINDING: property=%s %s%s" % (prop, what, "" if k in known_hit else " (not reached by this run)"))
    wall_s = time.time() - t0
    lvl = chk["level"]
    cov = {}
    if lvl == "model_checking":
        cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["cases"], samples=samples)
    else:
        cov = dict(evaluations=tot["cases"], distinct_nontrivial=tot["nontrivial"], rule=chk["rule"], samples=samples)
        if tot["states"]:
            cov["distinct_states"] = tot["states"]
        if tot["transitions"]:
            cov["operations_executed"] = tot["transitions"]
    if tot["faults"]:
        cov["faults_injected"] = tot["faults"]
    if tot["outcomes"]:
        cov["distinct_outcomes"] = tot["outcomes"]
    cov.update(extra)
    cov["bounds"] = chk["bounds"]
    cov["per_unit"] = per_unit
    cov["shards_stopped_by_time_budget"] = capped
    cov["exhaustive"] = capped == 0 and not errors and not viol
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=lvl, coverage=cov, assumptions=chk.get("assumptions", []), wall_s=round(wall_s, 2), violations=len(viol))
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d operations/steps, %d states, %d faults, %d capped shard(s), %.1f s" % (prop, tier, tot["cases"], tot["transitions"], tot["states"], tot["faults"], capped, wall_s))
    if viol:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        n = 0
        viol.sort(key=lambda v: ("NOT REPRODUCED ALONE" in v[2], len(v[1])))
        for unit, c, m in viol:
            if c in seen:
                continue
            seen.add(c)
            n += 1
            path = os.path.join(rd, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(dict(property=prop, unit=unit, case=c, message=m), f, indent=1)
            print("case: %s\n  %s" % (c, m[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            if n >= 5:
                break
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR " + e, file=sys.stderr)
        return 2
    return 0


def do_replay(path):
    d = json.load(open(path))
    chk = CHECKS[d["property"]]
    u = [x for x in chk["units"] if x["name"] == d["unit"]][0]
    build = new_build("replay")
    try:
        prepare(chk, build)
        exe, msg = compile_unit(u, build)
        if exe is None:
            print(msg)
            return 2
        out = os.path.join(build, "out.json")
        subprocess.run([exe, "--out", out, "--replay", d["case"]] + u.get("args", []), env=env_for(u))
        r = json.load(open(out))
        for c, m in r["violations"]:
            print("case: %s\n%s" % (c, m))
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1 if r["violations"] else 0
    finally:
        shutil.rmtree(build, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["replay"]:
        sys.exit(do_replay(a[1]))
    if a[:1] == ["list"]:
        print(" ".join(CHECKS))
        sys.exit(0)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(do_check(a[0], tier))
