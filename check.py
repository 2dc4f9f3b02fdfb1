#!/usr/bin/env python3
"""check.py ID [quick|thorough]     decides one property for /repo's working tree
check.py --replay FILE            runs one recorded history again

exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no verdict (the machinery or a build failed)"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import build, run, props, theory
from run import Scenario, Session, Broken

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known-findings.txt")
RDIR = os.path.join(build.BUILD, "replay")


def known(pid):
    """Lines 'KNOWN-FINDING: property=ID match={...} text': a violation whose report contains all of match is that finding."""
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=(\{.*?\}) (.*)", l.strip())
            if m and m[1] == pid:
                out.append((json.loads(m[2]), m[3]))
    return out


def line(d):
    return "%s %s, call %d %s%s%s: %s %s %s" % (d["tag"], d["type"], d["event"], d["operation"], d["I"], d["D"][:6], d["reason"], d["details"][:6], d["note"][-300:])


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(RDIR, exist_ok=True)
    work = os.path.join(build.BUILD, "work-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return decide(pid, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, seed, work):
    t0 = time.time()
    deep = tier == "thorough"
    rng = random.Random("%s/%d" % (pid, seed))
    ses = Session(work)
    stats = []
    with cf.ThreadPoolExecutor(2) as ex:
        gh = ex.submit(theory.generated, pid, deep, seed, work)
        th = ex.submit(theory.run_all, pid, deep, seed, work)
        try:
            scens = props.ALL[pid](rng, deep)
            run.prepare(scens)              # builds, while the specification generates histories
            own, stats = gh.result()
            scens += own
            random.Random(seed).shuffle(scens)
            violations = ses.run(scens)
        except build.BuildError as e:
            print(e.log)
            print("the library does not build with the driver: " + e.what)
            if pid == "C17" and "C++ driver" in e.what and "(base)" not in e.what:
                # a build configuration in which the header does not even compile
                p = os.path.join(RDIR, "C17-build.txt")
                open(p, "w").write(e.what + "\n" + e.log)
                evidence(pid, tier, seed, t0, ses, [], th.result() + gh.result()[1], 1)
                print("VIOLATION property=C17 replay=" + p)
                return 1
            return 2
        theorems = th.result() + stats
    reports, listed = [], set()
    kn = known(pid)
    for k, v in enumerate(violations):
        d = run.describe(v)
        d["property"] = pid
        d["scenario"] = v[0].dump()
        hit = [t for m, t in kn if all(d.get(x) == y for x, y in m.items())]
        if hit:
            listed.add(hit[0])
            continue
        p = os.path.join(RDIR, "%s-%d.json" % (pid, k))
        json.dump(d, open(p, "w"), indent=1)
        reports.append((d, p))
    for t in sorted(listed):
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    evidence(pid, tier, seed, t0, ses, reports, theorems, len(reports))
    for d, p in reports[:8]:
        print(line(d))
    if reports:
        print("VIOLATION property=%s replay=%s" % (pid, reports[0][1]))
        return 1
    print("%s held: %d histories, %d calls of the real code validated, %d states of the specification's own in %.0f s"
          % (pid, ses.scenarios, ses.events, sum(t["states"] for t in theorems), time.time() - t0))
    return 0


def evidence(pid, tier, seed, t0, ses, reports, theorems, count):
    cov = {
        "states": len(ses.states) + sum(t["states"] for t in theorems),
        "transitions": ses.events - ses.scenarios + sum(t["transitions"] for t in theorems),
        "traces_validated_against_impl": ses.scenarios,
        "samples": [{"driver": s.driver, "history": s.tag, "calls": ["%s %s %s" % (run.OPNAME.get(o, o), I, D) for o, I, D in s.cmds[:60]]} for s in ses.samples],
        "distinct_states_of_the_implementation": len(ses.states),
        "refused_calls": ses.rejected,
        "calls_per_driver": ses.per_driver,
        "calls_per_operation": {run.OPNAME[k]: v for k, v in sorted(ses.ops.items())},
        "types": sorted(ses.types),
        "specification_runs": theorems,
        "reports": [{k: x for k, x in d.items() if k != "scenario"} for d, _ in reports[:20]],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "violations": count,
          "assumptions": ["rounding tolerance 2^-34 (double), 2^-13 (single), 2^-57 (extended) of the condition-weighted magnitude of each entry",
                          "the drivers report the real objects' contents faithfully (drivers/driver.h, drivers/pydriver.py)"],
          "wall_s": round(time.time() - t0, 1)}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)


def replay(path):
    d = json.load(open(path))
    s = Scenario.load(d["scenario"])
    work = os.path.join(build.BUILD, "work-replay-%d" % os.getpid())
    vs = Session(work).run([s])
    for v in vs:
        print(line(run.describe(v)))
    shutil.rmtree(work, ignore_errors=True)
    print("violation reproduced" if vs else "no violation")
    return 1 if vs else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("BROKEN", e)
        sys.exit(2)
