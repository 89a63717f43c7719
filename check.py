#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the simulators from /repo's working tree, runs the seeded search of the property, replays the
known findings, writes evidence/PROPERTY.json.  Exit 0: held; 1: violated (VIOLATION line); 2: error.
"""
import hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks_table import CHECKS, SHARED  # noqa: E402


def sources():
    out = []
    for base in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(HERE, "sim")):
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".hpp", ".cpp", ".h", ".c", ".ipp", ".cc")) or f == "Makefile":
                    out.append(os.path.join(d, f))
    return out


def build(targets):
    """Content addressed freshness: an object is kept only if every file it was made from is unchanged."""
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "sources.json")
    cur = {p: hashlib.sha256(open(p, "rb").read()).hexdigest() for p in sources()}
    try:
        old = json.load(open(stamp))
    except Exception:
        old = {}
    changed = {p for p in set(cur) | set(old) if cur.get(p) != old.get(p)}
    if changed:
        mk = any(p.endswith("Makefile") for p in changed)
        for d, _, files in os.walk(BUILD):
            for f in files:
                if f.endswith(".d"):
                    path = os.path.join(d, f)
                    deps = set(open(path).read().replace("\\\n", " ").split())
                    deps = {os.path.normpath(x.rstrip(":")) for x in deps}
                    if mk or not old or deps & changed:
                        for victim in (path, path[:-2] + ".o"):
                            if os.path.exists(victim):
                                os.remove(victim)
        if os.path.exists(stamp):
            os.remove(stamp)
    t0 = time.time()
    r = subprocess.run(["make", "-C", os.path.join(HERE, "sim"), "-j%d" % (os.cpu_count() or 4), "REPO=" + REPO, "OUT=" + BUILD]
                       + [os.path.join(BUILD, t) for t in targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        print("error: the simulators do not build from " + REPO)
        sys.exit(2)
    json.dump(cur, open(stamp, "w"))
    return time.time() - t0


def load_findings():
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for line in open(path):
        m = re.match(r"finding: property=(\S+) replay=(\S+) kind=(\S+) op=(\S+) (.*)", line)
        if m:
            out.append(dict(property=m[1], replay=os.path.join(HERE, m[2]), kind=m[3], op=m[4], what=m[5].strip()))
    return out


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py PROPERTY [quick|thorough]; properties: " + " ".join(sorted(CHECKS)))
        sys.exit(2)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = CHECKS[prop]
    t0 = time.time()
    build_s = build(sorted({p[0] for p in conf["profiles"]}))
    outdir = os.path.join(HERE, "replays")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=0")
    total = conf.get("thorough_s", 600) if tier == "thorough" else conf.get("quick_s", 25)
    weight = sum(p[2] for p in conf["profiles"])
    violations, error, stats = [], False, []
    # 1. known findings: replayed exactly
    bin_of = {p[1]: p[0] for p in conf["profiles"]}
    known = 0
    for k in load_findings():
        if k["property"] != prop:
            continue
        head = open(k["replay"]).read()
        profile = re.search(r"^profile (\S+)", head, re.M)[1]
        binary = bin_of.get(profile) or conf["profiles"][0][0]
        r = subprocess.run([os.path.join(BUILD, binary), "--replay", k["replay"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = re.search(r"REPLAY violation kind=(.*?) op=(\S*) hash", r.stdout)
        if m and m[1].replace(" ", "_") == k["kind"] and m[2] == k["op"]:
            known += 1
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif m:
            print("known finding now fails differently: " + r.stdout.strip()[:600])
            violations.append(dict(kind=m[1], op=m[2], replay=k["replay"], message=r.stdout.strip()[:400]))
        elif "REPLAY ok" in r.stdout:
            print("note: the known finding '%s' does not show any more" % k["what"])
        else:
            print("error: cannot replay %s: %s" % (k["replay"], r.stdout[:600]))
            error = True
    # 2. regression replays of this property (minimised histories of repaired defects)
    regressions = 0
    regdir = os.path.join(HERE, "regress", prop)
    if os.path.isdir(regdir):
        for f in sorted(os.listdir(regdir)):
            if not f.endswith(".replay"):
                continue
            path = os.path.join(regdir, f)
            profile = re.search(r"^profile (\S+)", open(path).read(), re.M)[1]
            binary = bin_of.get(profile)
            if not binary:
                continue
            r = subprocess.run([os.path.join(BUILD, binary), "--replay", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            regressions += 1
            m = re.search(r"REPLAY violation kind=(.*?) op=(\S*) hash", r.stdout)
            if m:
                violations.append(dict(kind=m[1], op=m[2], replay=path, message=r.stdout.strip()[:400]))
            elif "REPLAY ok" not in r.stdout:
                print("error: cannot replay %s: %s" % (path, r.stdout[:600]))
                error = True
    # 3. seeded search
    for i, (binary, profile, share) in enumerate(conf["profiles"]):
        stat = os.path.join(BUILD, "stats-%s-%s.json" % (prop, profile))
        if os.path.exists(stat):
            os.remove(stat)
        r = subprocess.run([os.path.join(BUILD, binary), "--profile", profile, "--seed", str(seed * 1000003 + i), "--time", "%.1f" % (total * share / weight),
                            "--workers", str(os.cpu_count() or 4), "--outdir", outdir, "--out", stat, "--max-fail", "4"],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=total * 2 + 700)
        if r.returncode not in (0, 1):
            print(r.stdout[-3000:])
            print("error: %s %s exited with %d" % (binary, profile, r.returncode))
            error = True
        elif r.stdout.strip():
            print(r.stdout[-3000:].rstrip())
        if os.path.exists(stat):
            s = json.load(open(stat))
            s["profile"] = profile
            stats.append(s)
            violations += s["violations"]
            if s["runs"] == 0:
                print("error: no run was completed by %s" % profile)
                error = True
    wall = time.time() - t0
    runs = sum(s["runs"] for s in stats)
    search = sum(s["search_s"] for s in stats) or 1.0
    ctr = {}
    for s in stats:
        for k, v in s["counters"].items():
            ctr[k] = ctr.get(k, 0) + v
    faults = {k[6:]: v for k, v in ctr.items() if k.startswith("fault:")}
    faults["allocation failures injected"] = sum(s["injected_failures"] for s in stats)
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=sum(s["distinct_traces"] for s in stats),
        rule="Each evaluation is one simulated execution: a program of steps (operations, schedule and fault choices) drawn from one seed, executed "
             "in a process forked from a pristine image. It is non-trivial if at least 4 of its steps changed or compared library state; distinct "
             "executions are counted by a hash of the complete trace (results, values, faults) in a 2^27 bit map. " + conf["rule"],
        samples=[x for s in stats for x in s["samples"]][:4],
        simulated_runs_per_hour=int(runs / search * 3600), seeds_per_hour=int(runs / search * 3600),
        simulated_time="no clock in this code base; simulated time is counted in steps",
        simulated_steps=sum(s["steps"] for s in stats),
        library_allocations_seen=sum(s["library_allocations"] for s in stats),
        faults_injected=faults,
        operations={k: v for k, v in ctr.items() if not k.startswith("fault:")},
        distinct_states=sum(s["distinct_states"] for s in stats),
        distinct_states_measure=conf.get("states", "abstract state signatures after a step (operation, outcome, layout, size class, alignment, null pattern)"),
        determinism_reruns=sum(s["determinism_reruns"] for s in stats),
        fresh_memory_reruns=sum(s["fresh_memory_reruns"] for s in stats),
        regression_replays=regressions, known_findings_reproduced=known,
        real_components=conf["real"], stubbed_components=conf["stub"],
        build_s=round(build_s, 1), search_s=round(search, 1),
        profiles={s["profile"]: dict(runs=s["runs"], distinct_traces=s["distinct_traces"], distinct_states=s["distinct_states"]) for s in stats})
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=conf["level"], coverage=cov,
              assumptions=SHARED["assumptions"] + conf.get("assumptions", []), wall_s=round(wall, 1), violations=len(violations))
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for v in violations:
        print("  %s in %s: %s" % (v["kind"], v["op"], v["message"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if violations:
        sys.exit(1)
    if error:
        sys.exit(2)
    print("property=%s held on %d simulated executions (%d distinct), %d steps, %d injected allocation failures, %.0f s"
          % (prop, runs, cov["distinct_nontrivial"], cov["simulated_steps"], faults["allocation failures injected"], wall))


if __name__ == "__main__":
    main()
