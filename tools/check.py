#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current working tree.

Build the harness from the tree, lower it to LLVM IR, explore the jobs of the
property symbolically (engine/), validate a sample of explored paths against
the native build, replay every counterexample natively, write the evidence.
"""
import collections, concurrent.futures, json, os, random, shlex, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import irbuild
import spec

VERIF = irbuild.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def native_one(binary, job, tape, timeout=20, valgrind=False):
    """replay one tape on the native build -> (verdict, text)"""
    cmd = [binary, "one", job.entry, ",".join(map(str, job.params)), tape]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--main-stacksize=67108864"] + cmd
    pre = "ulimit -c 0; ulimit -v %d; exec " % (24 << 20 if valgrind else 8 << 20)
    try:
        r = subprocess.run(["bash", "-c", pre + " ".join(shlex.quote(c) for c in cmd)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", "no answer within %d s" % timeout
    out = r.stdout.decode("utf-8", "replace")[-1500:]
    if r.returncode == 0:
        return "ok", out
    if r.returncode == 2 and "BAD TAPE" in out:
        return "bad", out
    return "fail", "exit %d: %s" % (r.returncode, out)


def describe(tape):
    """human readable inputs of a tape"""
    r = []
    for e in tape.split(","):
        if e.startswith("S"):
            r.append(repr(bytes.fromhex(e[1:]))[1:])
        elif e.startswith("C"):
            r.append("choice " + e[1:])
    return "; ".join(r)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    p = spec.PROPS[pid](TIER)
    workdir = os.path.join(irbuild.BUILD, "run-" + pid)
    os.makedirs(workdir, exist_ok=True)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evfile = os.path.join(evdir, pid + ".json")
    if os.path.exists(evfile):
        os.remove(evfile)
    engine = irbuild.build_engine()
    tot = collections.Counter()
    z3 = collections.Counter()
    unsupported = collections.Counter()
    functions, jobs_ev, samples, confirmed, unconfirmed, mism = set(), [], [], [], [], []
    builds, zsec, solver, exhaustive, validated, reach = [], 0.0, "", True, 0, collections.Counter()
    rnd = random.Random(SEED)
    def build(run):
        return irbuild.build_harness(run["crate"], run["config"], features=run.get("features", ()), rustflags=run.get("rustflags", ()), mock=run.get("mock", False),
                                     bootstrap=run.get("bootstrap", False), alts=run.get("alts", ()), bare=run.get("bare", False))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        built = list(ex.map(build, p["runs"]))
    for run, h in zip(p["runs"], built):
        builds.append(dict(harness=run["crate"], config=run["config"], seconds=h["seconds"]))
        jobs = run["jobs"]
        tag = "%s-%s" % (run["crate"], run["config"])
        jf, of = os.path.join(workdir, tag + ".tsv"), os.path.join(workdir, tag + ".json")
        with open(jf, "w") as fh:
            for i, j in enumerate(jobs):
                fh.write("%d\t%s\t%s\t%d\t%g\n" % (i, j.entry, ",".join(map(str, j.params)), j.steps, j.time))
        cmd = [engine, "--module", h["module"], "--jobs", jf, "--out", of, "--threads", "8",
               "--time", str(max(30, int(min(run.get("time", 300), 540 - (time.time() - t0))) if TIER == "quick" else run.get("time", 3000))), "--after", "90" if TIER == "quick" else "900", "--seed", str(SEED),
               "--crosscheck", str(run.get("crosscheck", 997)), "--recs", str(run.get("recs", 6000 if TIER == "quick" else 40000))]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            print("engine failed with %d" % r.returncode)
            sys.exit(2)
        res = json.load(open(of))
        solver = res["solver"]
        for k in ("queries", "sat", "unsat", "unknown"):
            z3[k] += res["z3"][k]
        zsec += res["z3"]["seconds"]
        functions.update(res["functions"])
        for i, j in enumerate(res["jobs"]):
            for k in ("paths", "done", "assumed", "forks", "instrs", "merges", "asserts", "asserts_const", "asserts_z3", "dom_decided", "rel_decided", "model_decided", "cache_hits", "crosschecks"):
                tot[k] += j[k]
            for k, v in j["unsupported"].items():
                unsupported[k] += v
            for k, v in j["reach"].items():
                reach[k] += v
            exhaustive = exhaustive and not j["incomplete"]
            jobs_ev.append(dict(input=jobs[i].name, config=run["config"], paths=j["paths"], forks=j["forks"], complete=not j["incomplete"], cpu_s=round(j["cpu"], 2)))
        # native validation of sampled paths
        recs = [l.split("\t") for l in open(of + ".recs").read().split("\n") if l]
        bf = os.path.join(workdir, tag + ".batch")
        with open(bf, "w") as fh:
            for r4 in recs:
                j = jobs[int(r4[1])]
                fh.write("%s\t%s\t%s\t%s\n" % (j.entry, ",".join(map(str, j.params)), r4[2], r4[3]))
        r = subprocess.run([h["binary"], "isolated" if run.get("isolated") else "batch", bf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode < 0:
            # it crashed: find out on which of them, each in a process of its own
            r = subprocess.run([h["binary"], "isolated", bf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        for l in r.stdout.split("\n"):
            if l.startswith("validated "):
                validated += int(l.split()[1])
            elif l.startswith("MISMATCH"):
                mism.append(l)
        if r.returncode not in (0, 1):
            mism.append("native batch run ended with %d: %s" % (r.returncode, r.stdout[-500:]))
        for r4 in rnd.sample(recs, min(6, len(recs))):
            samples.append("%s [%s] -> path end %s" % (jobs[int(r4[1])].name, describe(r4[2]), r4[3]))
        # counterexamples
        for v in res["violations"]:
            j = jobs[int(v["job"])]
            verdict, text = native_one(h["binary"], j, v["tape"], timeout=40 if "step" in v["kind"] else 20)
            if verdict == "ok" and v["kind"].startswith("memory"):
                verdict, text = native_one(h["binary"], j, v["tape"], timeout=120, valgrind=True)
            rec = dict(kind=v["kind"], assertion=v["id"], input=j.name, values=describe(v["tape"]), trace=v["trace"], native=text,
                       entry=j.entry, params=",".join(map(str, j.params)), tape=v["tape"], crate=run["crate"], run=run)
            if verdict == "fail" or (verdict == "timeout"):
                confirmed.append(rec)
            else:
                unconfirmed.append(rec)
    # known findings
    known = spec.known_findings(pid)
    fresh, matched = [], collections.Counter()
    for c in confirmed:
        k = next((k for k in known if spec.matches(k, c)), None)
        if k is None:
            fresh.append(c)
        else:
            matched[k["what"]] += 1
    ev = dict(
        property=pid, tier=TIER, seed=SEED, level="model_checking",
        coverage=dict(
            states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated,
            samples=samples[:24], exhaustive=bool(exhaustive),
            instructions_executed_symbolically=tot["instrs"], paths_completed=tot["done"], paths_outside_assumptions=tot["assumed"],
            assertions=tot["asserts"], assertions_decided_syntactically=tot["asserts_const"], assertions_decided_by_solver=tot["asserts_z3"],
            branch_queries=dict(exact_byte_domain=tot["dom_decided"], exact_small_relation=tot["rel_decided"], by_model=tot["model_decided"], cached=tot["cache_hits"], smt=dict(z3), crosschecked_against_smt=tot["crosschecks"]),
            solver=solver, solver_seconds=round(zsec, 3),
            functions_encoded=len(functions), functions=[f for f in sorted(functions) if "proc_macro2" in f],
            bounds=p["bounds"], outside=p.get("outside", ""), jobs=jobs_ev, builds=builds, unsupported=dict(unsupported),
            unconfirmed_counterexamples=len(unconfirmed), reach_markers=dict(reach)),
        assumptions=spec.ASSUMPTIONS + p.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(fresh))
    json.dump(ev, open(evfile, "w"), indent=1)
    for k, n in sorted(matched.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for u in unconfirmed[:5]:
        print("note: counterexample of the encoding not confirmed natively (%s %s): %s [%s] %s" % (u["kind"], u["assertion"], u["input"], u["values"], u["native"][:200]))
    print("%s: %d paths, %d forks, %d instructions, %d z3 queries (%.2f s), %d validated natively, exhaustive=%s, %.1f s" % (
        pid, tot["paths"], tot["forks"], tot["instrs"], z3["queries"], zsec, validated, exhaustive, time.time() - t0))
    for x in jobs_ev:
        if not x["complete"]:
            print("note: incomplete: %s %s" % (x["input"], dict(unsupported)))
    if fresh:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, c in enumerate(fresh[:5]):
            path = os.path.join(rdir, "%s-%d.sh" % (pid, n + 1))
            run = c.pop("run")
            with open(path, "w") as fh:
                fh.write("#!/bin/bash\n# counterexample of %s: %s (assertion %s)\n# input: %s\n# symbolic values: %s\n" % (
                    pid, c["kind"], c["assertion"], repr(c["input"]), repr(c["values"])))
                fh.write("# in: %s\n# rebuilds the harness from /repo's tree and replays; exit 1 if the property fails\n" % " < ".join(c["trace"][:6]))
                fh.write("exec python3 %s/replay.py %s %s '%s' '%s'\n" % (HERE, pid, run["config"] + "@" + run["crate"], c["entry"] + ":" + c["params"], c["tape"]))
            os.chmod(path, 0o755)
            print("counterexample: %s %s: %s [%s] native: %s" % (c["kind"], c["assertion"], c["input"], c["values"], c["native"].strip()[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(rdir, "%s-1.sh" % pid)))
        sys.exit(1)
    if mism:
        bad = [m for m in mism if "Assert(" in m or "Panic(" in m]
        for m in mism[:10]:
            print(m)
        if bad:
            path = os.path.join(evdir, "%s-mismatch.txt" % pid)
            open(path, "w").write("\n".join(bad) + "\n")
            print("VIOLATION property=%s replay=%s" % (pid, path))
            sys.exit(1)
        print("engine and native build disagree: the encoding is wrong")
        sys.exit(3)
    if tot["done"] == 0:
        print("nothing was explored")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.exit(2)
