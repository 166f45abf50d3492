#!/usr/bin/env python3
"""Decide one property:  check.py ID [--tier quick|thorough]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not decide."""
import concurrent.futures as cf, glob, itertools, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build as B
import props

T0 = time.time()


def entries(js, byname):
    """the jobs, summed up by entry point and build; the parameters of the jobs in the shortest form that tells them apart"""
    r = {}
    for n, d in js.items():
        j = byname[n]
        e = r.setdefault(j["entry"] + ("-u" if j.get("unicode") else ""), {"jobs": 0, "paths": 0, "discarded": 0, "assertions": 0, "longest_path_instructions": 0, "free_bytes": 0, "reached": set(), "parameters_behind_the_first": {}})
        e["jobs"] += 1
        e["paths"] += d["paths"]
        e["discarded"] += d["killed"]
        e["assertions"] += d["asserts"]
        e["longest_path_instructions"] = max(e["longest_path_instructions"], d["maxsteps"])
        e["free_bytes"] = max(e["free_bytes"], d["maxvars"])
        e["reached"] |= set(d["reach"])
        q = ",".join(map(str, j.get("params", [])[1:]))
        e["parameters_behind_the_first"][q] = e["parameters_behind_the_first"].get(q, 0) + 1
    for e in r.values():
        e["reached"] = sorted(e["reached"])
        q = e["parameters_behind_the_first"]
        e["parameters_behind_the_first"] = ["%s x%d" % kv for kv in sorted(q.items(), key=lambda kv: -kv[1])[:400]]
    return r


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


class Replayer:
    """runs one path natively against the real code (dev profile, verification cfg off)"""

    count = itertools.count()

    def __init__(self, exe, tmp):
        self.exe, self.tmp = exe, tmp

    def write(self, log, path, head=""):
        with open(path, "w") as f:
            f.write(head)
            for n, v in log:
                f.write("%d %d\n" % (n, v))

    def run(self, entry, params, log, valgrind=False, timeout=30):
        f = os.path.join(self.tmp, "in-%d-%d" % (os.getpid(), next(Replayer.count)))
        self.write(log, f)
        cmd = [self.exe, entry, ",".join(map(str, params)) or "-", f]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=yes"] + cmd
            timeout *= 4
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env={"PATH": os.environ.get("PATH", ""), "RUST_BACKTRACE": "0"})
        except subprocess.TimeoutExpired:
            return "hang", "no termination within %d s" % timeout, []
        finally:
            os.unlink(f)
        out = p.stdout.decode("utf-8", "replace")
        err = p.stderr.decode("utf-8", "replace")
        notes = [int(x) for x in re.findall(r"^NOTE (\d+)$", out, re.M)]
        if p.returncode == 0 and out.rstrip().endswith("OK"):
            return "ok", "", notes
        if p.returncode == 10:
            m = re.search(r"^ASSERT-FAILED (.*)$", out, re.M)
            return "assert", m.group(1) if m else "", notes
        if p.returncode == 99:
            return "memory", " / ".join([l for l in err.splitlines() if l.strip()][:6]), notes
        if p.returncode < 0:
            return "crash", "signal %d %s" % (-p.returncode, " ".join(err.split())[:300]), notes
        if p.returncode in (3, 4):
            return "diverged", out.strip().splitlines()[-1] if out.strip() else "", notes
        return "error", "exit %d %s" % (p.returncode, err[:300]), notes


def load_known(pid):
    known = []
    f = os.path.join(B.VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known:"):
                m = re.match(r"known: property=(\S+) entry=(\S+) input=(\S+) msg=(.*?) :: (.*)$", l)
                if m and m.group(1) == pid:
                    known.append(m.groups())
    return known


def show(log):
    return "-" if not log else "".join(("%02x" % v if n == 0 else "(%d/%d)" % (v, n)) for n, v in log)


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[pid]
    jobs = P["quick"] if tier == "quick" or "thorough" not in P else P["thorough"]
    limit = P.get("limit", 500) if tier == "quick" else P.get("tlimit", 3600)
    run = os.path.join(B.BUILD, "run", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    for j in jobs:
        j["variant"] = "wf" if j["entry"] == "h_wf" else "u" if j.get("unicode") else ""
    unis = sorted(set(j["variant"] for j in jobs))
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            fs = ex.submit(B.build_symx)
            B.make_shadow()
            fi = {u: ex.submit(B.build_ir, u) for u in unis}
            fr = {u: ex.submit(B.build_replay, u) for u in unis}
            symx = fs.result()
            irs = {u: f.result() for u, f in fi.items()}
            reps = {u: Replayer(f.result(), run) for u, f in fr.items()}
    except (B.BuildError, subprocess.TimeoutExpired) as e:
        die("build failed: %s" % e)
    tb = time.time() - T0
    parts, wall = [], 0.0
    byname = {j["name"]: j for j in jobs}
    if len(byname) != len(jobs):
        die("duplicate job names")
    for u in unis:
        out = os.path.join(run, u or "n")
        sel = [j for j in jobs if j["variant"] == u]
        cmd = [symx, "--ir", irs[u], "--out", out, "--procs", str(min(8, os.cpu_count() or 8)), "--time", str(limit),
               "--maxviol", str(P.get("maxviol", 12)), "--maxsteps", str(P.get("maxsteps", 3000000)), "--samples", "1"]
        cmd += ["%s=%s:%s" % (j["name"], j["entry"], ",".join(map(str, j.get("params", [])))) for j in sel]
        te = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit + 120)
        except subprocess.TimeoutExpired:
            die("the executor did not stop")
        wall += time.time() - te
        ps = []
        for f in glob.glob(os.path.join(out, "part-*.json")):
            ps.append(json.load(open(f)))
        if p.returncode != 0 or len(ps) != 1 + sum(x["children"] for x in ps):
            die("executor failed (rc %d, %d of %d parts): %s" % (p.returncode, len(ps), 1 + sum(x["children"] for x in ps), p.stderr.decode("utf-8", "replace")[-800:]))
        for x in ps:
            x["u"] = u
        parts += ps
    viol = [dict(v, u=x["u"]) for x in parts for v in x["violations"]]
    unsup = [s for x in parts for s in x["unsupported"]]
    status = set(x["status"] for x in parts)
    js = {n: {"paths": 0, "killed": 0, "asserts": 0, "asserts_sym": 0, "maxsteps": 0, "maxvars": 0, "reach": set()} for n in byname}
    for x in parts:
        for n, v in x["jobs"].items():
            d = js[n]
            for k in ("paths", "killed", "asserts", "asserts_sym"):
                d[k] += v[k]
            d["maxsteps"] = max(d["maxsteps"], v["maxsteps"])
            d["maxvars"] = max(d["maxvars"], v["maxvars"])
            d["reach"] |= set(v["reach"])

    # ---- counterexamples: replay against the real code
    known = load_known(pid)
    seen, confirmed, unconfirmed, kf, nkf = set(), [], [], [], 0
    for v in sorted(viol, key=lambda v: (len(v["log"]), v["log"])):
        key = (v["job"], v["msg"], v["at"])
        j = byname[v["job"]]
        k = [q for q in known if q[1] == j["entry"] and q[2] == show(v["log"]) and q[3] in v["msg"]]
        if k:
            nkf += 1
            if k[0] not in kf:
                kf.append(k[0])
            continue
        if key in seen or len(confirmed) >= 5 or len(unconfirmed) > 12:
            continue
        seen.add(key)
        rp = reps[v["u"]]
        kind, what, _ = rp.run(j["entry"], j.get("params", []), v["log"])
        if kind == "ok" or kind == "diverged":
            k2, w2, _ = rp.run(j["entry"], j.get("params", []), v["log"], valgrind=True)
            if k2 not in ("ok",):
                kind, what = k2, w2
        if kind in ("assert", "crash", "memory", "hang"):
            confirmed.append((v, kind, what))
        else:
            unconfirmed.append((v, kind, what))

    new = len(viol) - nkf

    # ---- sampled paths: the executor's event digest against the native run
    samples = [dict(s, u=x["u"]) for x in parts for s in x["samples"]]
    samples.sort(key=lambda s: (s["job"], s["log"]))
    step = max(1, len(samples) // P.get("nsamples", 150))
    picked = samples[seed % step::step]
    mism = []
    if not new:
        def one(s):
            j = byname[s["job"]]
            return s, reps[s["u"]].run(j["entry"], j.get("params", []), s["log"])
        with cf.ThreadPoolExecutor(8) as ex:
            for s, (kind, what, notes) in ex.map(one, picked):
                if kind != "ok" or notes != s["notes"]:
                    mism.append((s, kind, what, notes))
    missing = []
    for n, j in byname.items():
        for r in j.get("reach", []):
            if r not in js[n]["reach"]:
                missing.append("%s: %s" % (n, r))
    allreach = set().union(*[d["reach"] for d in js.values()])
    missing += [r for r in P.get("reach", ()) if r not in allreach]
    tot = {k: sum(x[k] for x in parts) for k in ("forks", "insts", "branches_sym", "queries", "sat", "unsat", "cached", "z3_time")}
    funcs = sorted(set(f for x in parts for f in x["functions"] if "rexpat" in f or f.startswith("XML_")))
    lines = {}
    for x in parts:
        for f, l in x["lines"].items():
            lines.setdefault(os.path.basename(os.path.dirname(f)) + "/" + os.path.basename(f), set()).update(l)
    paths = sum(d["paths"] for d in js.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["forks"] + len(jobs),
            "transitions": tot["insts"],
            "traces_validated_against_impl": 0 if new else len(picked) - len(mism),
            "exhaustive": not new and status == {"done"} and not unsup,
            "paths": paths,
            "paths_discarded_by_assumptions": sum(d["killed"] for d in js.values()),
            "assertions_evaluated": sum(d["asserts"] for d in js.values()),
            "assertions_symbolic": sum(d["asserts_sym"] for d in js.values()),
            "queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "answered_from_cache": tot["cached"],
            "solver_s": round(tot["z3_time"], 2), "solver": "z3 (libz3)",
            "symbolic_branches": tot["branches_sym"],
            "bounds": P["bounds"] if tier == "quick" else P.get("tbounds", P["bounds"]),
            "jobs": len(js),
            "entry_points": entries(js, byname),
            "functions_encoded": len(funcs), "functions": funcs,
            "source_lines_executed": {f: len(l) for f, l in sorted(lines.items())},
            "samples": [{"job": s["job"], "input": show(s["log"])} for s in picked[:8]],
            "known_findings_seen": [q[4] for q in kf],
            "sample_mismatches": len(mism),
            "rule": "one path = one equivalence class of inputs on which the real code takes the same branches; states = explored path prefixes, transitions = executed IR instructions",
            "build_s": round(tb, 1), "exploration_s": round(wall, 1),
        },
        "assumptions": props.COMMON_ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(B.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(run, ignore_errors=True)
    print("%s %s: %d paths, %d assertions, %d instructions, %d queries (%.1f s solver), build %.1f s, exploration %.1f s, %d/%d native replays agree" % (
        pid, tier, paths, sum(d["asserts"] for d in js.values()), tot["insts"], tot["queries"], tot["z3_time"], tb, wall, len(picked) - len(mism), len(picked)), flush=True)
    for q in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, q[4]))
    for k, (v, kind, what) in enumerate(confirmed):
        rd = os.path.join(B.VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%d.txt" % (pid, k))
        j = byname[v["job"]]
        with open(rp, "w") as f:
            f.write("# %s: %s\n# at %s\n# native: %s %s\n# replay: python3 /verif/tools/replay.py %s %s %s%s\n" % (
                pid, v["msg"], v["at"], kind, what, j["entry"], ",".join(map(str, j.get("params", []))) or "-", rp, " " + v["u"] if v["u"] else ""))
            for n, x in v["log"]:
                f.write("%d %d\n" % (n, x))
        print("  %s [%s] %s -- native: %s %s -- input %s" % (v["job"], v["at"], v["msg"], kind, what, show(v["log"])), flush=True)
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
    if confirmed:
        sys.exit(1)
    for v, kind, what in unconfirmed:
        print("  not reproduced natively: %s %s at %s input %s (%s %s)" % (v["job"], v["msg"], v["at"], show(v["log"]), kind, what))
    for s, kind, what, notes in mism[:5]:
        print("  executor and native run disagree: %s %s (%s %s)\n   %r\n   %r" % (s["job"], show(s["log"]), kind, what, s["notes"][:40], notes[:40]))
    if unconfirmed:
        die("counterexamples that do not reproduce")
    if mism:
        die("executor and native runs disagree")
    if unsup:
        die("unsupported: %s" % unsup[0])
    if status != {"done"}:
        if not (viol and status == {"done", "stopped"}):
            die("exploration incomplete: %s" % status)
        die("exploration stopped at known findings")
    if missing:
        die("vacuous: not reached: " + "; ".join(missing))
    sys.exit(0)


if __name__ == "__main__":
    main()
