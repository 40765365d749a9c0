#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree.

exit 0  the property held on everything explored
exit 1  violated; prints VIOLATION property=<id> replay=<path>
exit 2  the check itself failed (build error, lost worker, unconfirmed report)
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B  # noqa: E402
import jobs as J  # noqa: E402

SETS = J.SETS


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[2:]
    if "--thorough" in only:
        only.remove("--thorough")
        tier = "thorough"
    t0 = time.time()
    jobs = J.JOBS[pid].split()
    if tier == "thorough":
        jobs += J.THOROUGH_JOBS.get(pid, "").split()
    if only:
        jobs = [j for j in jobs if j.split(":")[1].split("@")[0] in only]
    kinds = {"c": "cluster", "u": "units", "t": "conc", "s": "units_san"}
    bins = {}
    try:
        for k in sorted({kinds[j.split(":")[0]] for j in jobs}):
            bins[k] = B.build(k, **SETS[k])
    except RuntimeError as e:
        print(str(e))
        print("check error: the library or the harness does not build")
        return 2
    t_build = time.time() - t0
    work = os.path.join(VERIF, "build", "run", pid + "-" + str(os.getpid()))
    replays = os.path.join(VERIF, "replays")
    os.makedirs(work, exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    cap = J.QUICK if tier == "quick" else J.THOROUGH
    ncpu = os.cpu_count() or 4

    cmds = []
    for j in jobs:
        kind, name = j.split(":")
        out = os.path.join(work, kind + "-" + name)
        if kind == "c":
            base = [bins["cluster"], "--flavour", name, "--props", str(int(pid[1:])), "--primary", pid,
                    "--replays", replays, "--time", str(cap)]
            if tier == "thorough":
                sh = 4
                for s in range(sh):
                    o = out + "-" + str(s)
                    cmds.append((j, o, base + ["--deeper", "2", "--min-depth", "3", "--shard", "%d/%d" % (s, sh), "--out", o + ".json"]))
            else:
                cmds.append((j, out, base + ["--out", out + ".json"]))
        else:
            # u:name@k runs in k shards
            name, _, sh = name.partition("@")
            sh = int(sh or 1)
            base = [bins[kinds[kind]], name, "--primary", pid, "--replays", replays, "--tier", tier,
                    "--time", str(cap * 4 if tier == "quick" else cap * 3)]
            for s in range(sh):
                o = out + "-" + str(s)
                cmds.append((kind + ":" + name, o, base + ["--shard", "%d/%d" % (s, sh), "--out", o + ".json"]))

    def work_one(c):
        j, out, cmd = c
        lim = (cap * 5 + 120) if tier == "quick" else cap * 4 + 300
        t = time.time()
        with open(out + ".txt", "w") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=work)
            try:
                rc = p.wait(lim)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -99
        js = None
        if os.path.exists(out + ".json"):
            try:
                js = json.load(open(out + ".json"))
            except ValueError:
                js = None
        return j, rc, js, open(out + ".txt", errors="replace").read()[-3000:], time.time() - t

    # long jobs first: components are short, cluster jobs all have the same cap
    results = []
    with cf.ThreadPoolExecutor(ncpu) as ex:
        for r in ex.map(work_one, cmds):
            results.append(r)
    shutil.rmtree(work, ignore_errors=True)

    known = known_findings(pid)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], jobs=[])
    rc_final = 0
    violations = []
    problems = []
    for j, rc, js, txt, wall in results:
        if js is None:
            problems.append("%s: worker ended with %d and no result: %s" % (j, rc, txt[-800:]))
            continue
        cov["states"] += int(js.get("states", 0))
        cov["transitions"] += int(js.get("transitions", 0))
        cov["traces_validated_against_impl"] += int(js.get("validated", 0))
        for s in js.get("samples", [])[:1 if len(results) > 4 else 2]:
            if len(cov["samples"]) < 24:
                cov["samples"].append("%s: %s" % (j, s[:1500]))
        keep = {k: v for k, v in js.items() if k not in ("samples", "replay") and v not in ("", None)}
        keep["job"] = j
        keep["wall_s"] = round(wall, 2)
        cov["jobs"].append(keep)
        if rc == 1 and js.get("violation"):
            violations.append((j, js))
        elif rc != 0:
            problems.append("%s: rc=%d %s %s" % (j, rc, js.get("violation", ""), txt[-800:]))
    cov["exhaustive_within"] = list(dict.fromkeys(
        "%s: %s" % (k["job"], k.get("bounds") or "every history of depth <= %d, at most %d deviations, from the flavour's alphabet" % (k.get("depth_completed", 0), k.get("budget", 0)))
        for k in cov["jobs"]))
    for key, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for j, js in violations:
        if any(key in js.get("violation", "") or key == js.get("monitor") for key, _ in known):
            continue
        rc_final = 1
        print("VIOLATION property=%s replay=%s" % (pid, js.get("replay", "")))
        print("  %s: %s: %s" % (j, js.get("monitor", ""), js.get("violation", "")))
    if rc_final == 0 and problems:
        rc_final = 2
    for p in problems:
        print("check problem: " + p)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=J.ASSUMPTIONS.get(pid, J.ASSUME_CLUSTER))
    ev["build_s"] = round(t_build, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d states, %d transitions, %d traces re-executed, %d jobs, %.1f s: %s" % (
        pid, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], len(cov["jobs"]),
        time.time() - t0, {0: "held", 1: "VIOLATED", 2: "check error"}[rc_final]))
    return rc_final


if __name__ == "__main__":
    sys.exit(main())
