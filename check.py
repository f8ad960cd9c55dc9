#!/usr/bin/env python3
"""Deterministic simulation check of one property of fn-log.

  check.py setup            build the simulator (not the code under test)
  check.py run ID [--thorough]  the check of property ID (VERIF_SEED, VERIF_TIER)
  check.py replay FILE [-v] build from /repo and replay one plan file
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, zlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(ROOT, "sim")
REPO = os.environ.get("FNLOG_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
REPLAYS = os.path.join(ROOT, "replays")
VARIANTS = {
    "small": ["-DFN_LOG_MAX_LOG_SIZE=800", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=16", "-DFN_LOG_MAX_CHANNEL_SIZE=3"],
    "tiny": ["-DFN_LOG_MAX_LOG_SIZE=700", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=11", "-DFN_LOG_MAX_CHANNEL_SIZE=4",
             "-DFN_LOG_USING_ATOM_CFG", "-DFN_LOG_FORCE_FLUSH_QUE=3"],
    "std": [],
}
SIM_SRC = ["rt", "oracle", "model", "plan", "gen"]
CXX = ["g++", "-std=c++17", "-O2", "-g", "-w"]
RTCXX = ["clang++", "-std=c++17", "-O2", "-g", "-w"]
# the code under test is built by both compilers: they differ in instrumentation (clang's also covers memcpy)
# and in what they make of undefined behaviour
CLANG = ["clang++", "-std=c++11", "-O1", "-g", "-w", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
GCC = ["g++", "-std=c++11", "-g", "-w", "-fsanitize=thread"]
SUTCXX = {"small": [CLANG], "tiny": [GCC + ["-O1"], CLANG], "std": [GCC + ["-O2"], CLANG]}
# seconds of search per tier, and how they are split over the variants
QUICK_S = float(os.environ.get("FNLOG_QUICK_S", "26"))
THOROUGH_S = float(os.environ.get("FNLOG_THOROUGH_S", "600"))
SPLIT = {"small": 0.5, "tiny": 0.3, "std": 0.2}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def sim_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(SIM)):
        if f.endswith((".cpp", ".h")) and f != "sut.cpp":
            h.update(f.encode() + b"\0" + open(os.path.join(SIM, f), "rb").read() + b"\0")
    h.update(repr((CXX, RTCXX)).encode())
    return h.hexdigest()[:16]


def build_sim():
    """objects that do not depend on the code under test"""
    d = os.path.join(BUILD, "obj-" + sim_hash())
    if os.path.exists(os.path.join(d, "done")):
        return d
    tmp = d + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    jobs = []
    for s in SIM_SRC:
        jobs.append((RTCXX if s == "rt" else CXX) + ["-c", os.path.join(SIM, s + ".cpp"), "-o", os.path.join(tmp, s + ".o")])
    for v in VARIANTS:
        jobs.append(CXX + ['-DVARIANT="%s"' % v, "-c", os.path.join(SIM, "main.cpp"), "-o", os.path.join(tmp, "main_%s.o" % v)])
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(run, jobs):
            if r.returncode:
                print(r.stdout)
                raise SystemExit("simulator does not build")
    open(os.path.join(tmp, "done"), "w").close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def build_sut(out, objs):
    """the three variants from /repo's working tree"""
    def one(v):
        first = None
        for cxx in SUTCXX[v]:
            for extra in ([], ["-DSUT_NO_RING"], ["-DSUT_NO_SEG"], ["-DSUT_NO_RING", "-DSUT_NO_SEG"]):
                o = os.path.join(out, "sut_%s.o" % v)
                c = run(cxx + VARIANTS[v] + extra + ["-I" + os.path.join(REPO, "src/include"), "-c", os.path.join(SIM, "sut.cpp"), "-o", o])
                if c.returncode == 0:
                    b = os.path.join(out, "sim_" + v)
                    c = run(["clang++", "-rdynamic"] + [os.path.join(objs, s + ".o") for s in SIM_SRC] + [o, os.path.join(objs, "main_%s.o" % v), "-o", b, "-ldl", "-lpthread"])
                    if c.returncode == 0:
                        return v, None, extra
                    first = first or c.stdout
                    break
                first = first or c.stdout
        return v, first, None
    missing = {}
    with ThreadPoolExecutor(3) as ex:
        for v, err, extra in ex.map(one, VARIANTS):
            if err is not None:
                print(err[-4000:])
                raise SystemExit("variant %s does not build from %s" % (v, REPO))
            if extra:
                missing[v] = extra
    return missing


def plan_variant(path):
    m = re.search(r"^variant (\S+)", open(path, errors="replace").read(), re.M)
    return m.group(1) if m else "small"


def replay(binaries, path):
    """fresh process; (violates, classes, exact)"""
    r = run([os.path.join(binaries, "sim_" + plan_variant(path)), "replay", path], timeout=120)
    classes = re.findall(r"^violation (\S+): (.*)$", r.stdout, re.M)
    return r.returncode == 1 and bool(classes), classes, "reproduced exactly" in r.stdout


def known_findings(prop):
    """lines `known: property=<id> plan=<file> class=<class> <what fails>` of known-findings.txt"""
    res = []
    f = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) plan=(\S+) class=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res.append(m.groups()[1:])
    return res


def check(prop, thorough):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if thorough or tier == "thorough" else "quick"
    total = THOROUGH_S if tier == "thorough" else QUICK_S
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        return check2(prop, t0, seed, tier, total, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def check2(prop, t0, seed, tier, total, out):
    missing = build_sut(out, build_sim())
    build_s = time.time() - t0
    workers = max(2, min(16, os.cpu_count() or 8))
    base = ((seed * 0x9E3779B97F4A7C15 + zlib.crc32(prop.encode()) * 1000003) % (1 << 40)) * 1024 + 1
    print("property %s tier %s VERIF_SEED %d first run seed %d, built in %.1f s" % (prop, tier, seed, base, build_s), flush=True)
    knowns = known_findings(prop)
    violation, unconfirmed, known_seen = None, [], []
    for plan, cls, match, what in knowns:
        bad, classes, exact = replay(out, os.path.join(ROOT, plan))
        if bad and any(c == cls for c, _ in classes):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
            known_seen.append(what)

    def is_known(classes):
        return bool(classes) and all(any(c == k[1] and re.search(k[2], m) for k in knowns) for c, m in classes)
    stats = []
    # regression plans first: minimised histories that once failed
    reg = 0
    regdir = os.path.join(ROOT, "plans")
    files = sorted(f for f in os.listdir(regdir) if f.startswith(prop + "_")) if os.path.isdir(regdir) else []
    for f in files:
        path = os.path.join(regdir, f)
        reg += 1
        bad, classes, exact = replay(out, path)
        if bad and not is_known(classes):
            bad2, classes2, _ = replay(out, path)
            if bad2 and classes2 and classes2[0][0] == classes[0][0]:
                violation = (path, classes[0], True)
                break
    t_search = time.time()
    for v in VARIANTS:
        if violation:
            break
        end = time.time() + total * SPLIT[v]
        off = 0
        while time.time() < end and not violation:
            d = os.path.join(out, "d_" + v)
            os.makedirs(d, exist_ok=True)
            left = max(1.0, end - time.time())
            cmd = [os.path.join(out, "sim_" + v), "search", "--prop", prop, "--base", str(base + off), "--seconds", "%.2f" % left,
                   "--workers", str(workers), "--dir", d, "--min-budget", "20" if tier == "quick" else "60"]
            if tier == "thorough":
                cmd += ["--thorough", "1"]
            r = run(cmd, timeout=left + 240)
            st = None
            for l in r.stdout.splitlines():
                if l.startswith("{"):
                    st = json.loads(l)
            if st is None:
                print(r.stdout[-2000:])
                raise SystemExit("search failed, exit %d" % r.returncode)
            stats.append(st)
            found = re.findall(r"^FOUND \S+ class=(\S+) seed=(\d+) min_runs=\d+ file=(\S+) msg=(.*)$", r.stdout, re.M)
            if not found:
                break
            for cls, s, f, msg in found:
                bad, classes, exact = replay(out, f)
                if bad and is_known(classes):
                    if any(k[1] == cls for k in knowns):
                        off = max(off, int(s) - base + workers)
                        continue
                if bad and any(c == cls for c, _ in classes):
                    dst = os.path.join(REPLAYS, os.path.basename(f))
                    shutil.copy(f, dst)
                    violation = (dst, next(c for c in classes if c[0] == cls), exact)
                    break
                unconfirmed.append("%s seed %s class %s" % (v, s, cls))
                off = max(off, int(s) - base + workers)
    search_s = time.time() - t_search

    # evidence
    tot = {}
    for st in stats:
        for k, x in st.items():
            if isinstance(x, (int, float)):
                tot[k] = max(tot.get(k, 0), x) if k == "maxthr" else tot.get(k, 0) + x
    I = lambda k: int(tot.get(k, 0))
    samples = []
    for v in list(VARIANTS)[:2]:
        g = run([os.path.join(out, "sim_" + v), "gen", "--prop", prop, "--seed", str(base)])
        lines = g.stdout.splitlines()
        samples.append({"variant": v, "seed": base, "plan": lines[:60] + (["... %d more lines" % (len(lines) - 60)] if len(lines) > 60 else [])})
    cov = {
        "evaluations": I("runs") + reg,
        "distinct_nontrivial": I("distinct_schedules"),
        "rule": "One evaluation is one simulated execution (one or more process lives) of a plan generated from one seed: configuration, threads, operations, faults and schedule policy are drawn from it. Counted as distinct and non-trivial: different hashes of the full sequence of scheduling decisions, time steps and faults, among runs with at least one operation and one switch between threads.",
        "samples": samples,
        "distinct_observed_histories": I("distinct_histories"),
        "regression_plans_replayed": reg,
        "seeds_per_variant": {st["variant"]: int(sum(s.get("runs", 0) for s in stats if s["variant"] == st["variant"])) for st in stats},
        "runs_per_hour": int(I("runs") / max(search_s, 0.1) * 3600),
        "simulated_seconds": round(tot.get("sim_s", 0), 1),
        "process_lives": I("lives"),
        "operations": I("ops"),
        "scheduling_points": I("points"),
        "synchronisation_points": I("syncs"),
        "thread_switches": I("switches"),
        "preemptions": I("preempts"),
        "max_threads_in_a_run": I("maxthr"),
        "runs_executed_twice_and_compared": I("twice"),
        "runs_that_differed_when_repeated": I("nondet"),
        "violations_dropped_because_not_reproducible": I("unrepro") + len(unconfirmed),
        "runs_ended_by_simulator_limits": I("harness"),
        "faults_injected": {k[6:]: int(x) for k, x in sorted(tot.items()) if k.startswith("fault.")},
        "probes_hit": {k[6:]: int(x) for k, x in sorted(tot.items()) if k.startswith("probe.")},
        "scenario_profiles": {k[8:]: int(x) for k, x in sorted(tot.items()) if k.startswith("profile.")},
        "findings_of_other_properties_seen": {k[6:]: int(x) for k, x in sorted(tot.items()) if k.startswith("other.")},
        "simulator_messages": sum((st.get("messages", []) for st in stats), [])[:10] + unconfirmed[:10],
        "real_components": "all of /repo/src/include compiled unchanged (logger, channels, ring buffer, devices, file handling, configuration parser, hot update, recovery), libstdc++, real pthreads of which exactly one runs at a time",
        "simulated_components": "thread scheduling and blocking, mutexes, thread creation, sleeping and clocks, local time and time zone, files and directories, stdio streams on files, standard output, sockets, System V shared memory, process kill and restart",
        "hooks_left_out_because_names_changed": missing,
        "workers": workers,
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "interleavings are sequentially consistent; weak memory orders are judged only by the happens-before monitor of M01",
            "reduced queue and record sizes in two of three build variants; the third uses the shipped sizes",
            "the simulated file system, sockets and shared memory follow Linux semantics",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%d runs, %d distinct schedules, %.0f simulated s, faults %s" % (I("runs"), I("distinct_schedules"), tot.get("sim_s", 0), json.dumps(cov["faults_injected"])))
    for m in cov["simulator_messages"]:
        print("note: " + m)
    if violation:
        path, (cls, msg), exact = violation
        print("class %s: %s" % (cls, msg[:400]))
        print("replayed in a fresh process: %s" % ("identical event log" if exact else "same violation"))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        os.makedirs(BUILD, exist_ok=True)
        d = build_sim()
        # prove that the code under test builds too
        out = os.path.join(BUILD, "run-setup-%d" % os.getpid())
        os.makedirs(out, exist_ok=True)
        try:
            build_sut(out, d)
        finally:
            shutil.rmtree(out, ignore_errors=True)
        print("built " + d)
        return 0
    if len(a) in (2, 3) and a[0] == "run" and a[2:] in ([], ["--thorough"]):
        return check(a[1], len(a) == 3)
    if len(a) >= 2 and a[0] == "replay":
        out = os.path.join(BUILD, "run-replay-%d" % os.getpid())
        os.makedirs(out, exist_ok=True)
        try:
            build_sut(out, build_sim())
            r = run([os.path.join(out, "sim_" + plan_variant(a[1])), "replay", a[1]] + (["--v"] if "-v" in a else []))
            print(r.stdout)
            return r.returncode
        finally:
            shutil.rmtree(out, ignore_errors=True)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
