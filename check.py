#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation (see DESIGN.md).

  check.py P01                 run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py P01 --seconds 600   override the time budget
  check.py --replay FILE       replay a violation file (exit 1 when it reproduces)
  check.py --build             build everything (setup_cmd)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, glob, signal
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FFCL_REPO", "/repo")
BUILD = os.environ.get("FFCL_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
from simconf import CONF, DEFAULT

OUT = os.environ.get("FFCL_OUT", HERE)  # where evidence and replay files go
FAST = bool(os.environ.get("SIM_FAST"))  # mutation testing: no minimisation
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
FLAVOURS = ("par", "seq")
BASE = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-DVERBOSE=false", "-w",
        "-fno-pie", "-fopenmp", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
FLAG = {"par": ["-DTHREADS_ENABLED=true"], "seq": ["-DTHREADS_ENABLED=false"]}
REDEF = ["--redefine-sym", "memcpy=simw_memcpy", "--redefine-sym", "memmove=simw_memmove",
         "--redefine-sym", "memset=simw_memset", "--redefine-sym", "malloc=simw_malloc", "--redefine-sym", "calloc=simw_calloc",
         "--redefine-sym", "realloc=simw_realloc", "--redefine-sym", "free=simw_free"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("$ %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


# ------------------------------------------------------------------------------------------------------------ building
def groups_of(prop):
    g = []
    for f in sorted(glob.glob(os.path.join(HERE, "scn", "*.cpp"))):
        if re.search(r"SIM_SCENARIO\(\s*%s\s*," % prop, open(f).read()):
            g.append(os.path.splitext(os.path.basename(f))[0])
    return g


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include")]
    files = []
    for r in roots:
        for d, _, fs in os.walk(r):
            files += [os.path.join(d, f) for f in fs]
    files += glob.glob(os.path.join(HERE, "scn", "*.hpp")) + glob.glob(os.path.join(HERE, "sim", "*.hpp"))
    for f in sorted(files):
        h.update(os.path.relpath(f, "/").encode())
        h.update(open(f, "rb").read())
    h.update(repr((BASE, REDEF)).encode())
    return h


def build_obj(group, flavour, th):
    src = os.path.join(HERE, "scn", group + ".cpp")
    h = th.copy()
    h.update(open(src, "rb").read())
    h.update(flavour.encode())
    out = os.path.join(BUILD, "%s.%s.%s.o" % (group, flavour, h.hexdigest()[:16]))
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(BUILD, "%s.%s.*.o" % (group, flavour))):
            os.unlink(old)
        tmp = out + ".%d.tmp" % os.getpid()
        run(["g++"] + BASE + FLAG[flavour] + ["-I" + os.path.join(REPO, "include"), "-c", src, "-o", tmp])
        run(["objcopy"] + REDEF + [tmp])
        os.rename(tmp, out)
    return out


def build_rt():
    h = hashlib.sha256()
    for f in ("rt.cpp", "rt.hpp", "rt_int.hpp"):
        h.update(open(os.path.join(HERE, "sim", f), "rb").read())
    out = os.path.join(BUILD, "rt.%s.o" % h.hexdigest()[:16])
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(BUILD, "rt.*.o")):
            os.unlink(old)
        tmp = out + ".%d.tmp" % os.getpid()
        run(["g++", "-std=c++17", "-O2", "-g1", "-fno-pie", "-w", "-c", os.path.join(HERE, "sim", "rt.cpp"), "-o", tmp])
        os.rename(tmp, out)
    return out


def build(props):
    """Builds the simulator binaries of the given properties from REPO's working tree: {(prop, flavour): path}."""
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    need = {p: groups_of(p) for p in props}
    for p, g in need.items():
        if not g:
            raise BuildError("no scenario for " + p)
    allg = sorted({g for gs in need.values() for g in gs})
    with ThreadPoolExecutor(WORKERS) as ex:
        rt = ex.submit(build_rt)
        objs = {(g, f): ex.submit(build_obj, g, f, th) for g in allg for f in FLAVOURS}
        rt = rt.result()
        objs = {k: v.result() for k, v in objs.items()}

    def link(p, f):
        ins = [objs[(g, f)] for g in need[p]] + [rt]
        tag = hashlib.sha256(" ".join(ins).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, "sim_%s_%s_%s" % (p, f, tag))
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, "sim_%s_%s_*" % (p, f))):
                os.unlink(old)
            tmp = out + ".%d.tmp" % os.getpid()
            run(["g++", "-no-pie", "-o", tmp] + ins + ["-lpthread", "-ldl"])
            os.rename(tmp, out)
        return out
    with ThreadPoolExecutor(WORKERS) as ex:
        r = {(p, f): ex.submit(link, p, f) for p in props for f in FLAVOURS}
        return {k: v.result() for k, v in r.items()}


# ------------------------------------------------------------------------------------------------------------- replays
def klass(msg):
    """Violation class: the message without numbers and without what depends on the address layout."""
    m = re.sub(r"\[pc .*\]", "", msg)
    m = re.sub(r"0x[0-9a-f]+", "#", m)
    m = re.sub(r"-?(nan|inf)\b", "#", m)
    m = re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", "#", m)
    m = re.sub(r"(read|write)( of #)", "access\\2", m)
    m = re.sub(r"unordered (read|write)", "unordered access", m)
    return m[:160].strip()


def replay_text(prop, flavour, tier, r):
    t = ["# " + r.get("msg", "").replace("\n", " "), "property " + prop, "flavour " + flavour, "tier %d" % tier,
         "seed %d" % r["seed"], "scenario " + r["scenario"]]
    for n, v in r["params"]:
        t.append("param %s %d" % (n, v))
    if r.get("trace") is not None:
        t.append("schedule explicit")
        for s, tid, forced in r["trace"]:
            t.append("at %d %d %d" % (s, tid, forced))
    return "\n".join(t) + "\n"


def run_replay(binary, prop, flavour, tier, r, scratch):
    fd, path = tempfile.mkstemp(suffix=".replay", dir=scratch)
    os.write(fd, replay_text(prop, flavour, tier, r).encode())
    os.close(fd)
    sd = tempfile.mkdtemp(dir=scratch)
    out = path + ".out"
    try:
        subprocess.run([binary, "--prop", prop, "--replay", path, "--out", out, "--scratch", sd, "--tier", str(tier),
                        "--wall", "90"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        for line in open(out, errors="replace"):
            d = json.loads(line)
            if d["type"] == "run":
                return d
    except (subprocess.TimeoutExpired, OSError, ValueError):
        pass
    finally:
        for f in (path, out):
            if os.path.exists(f):
                os.unlink(f)
        shutil.rmtree(sd, ignore_errors=True)
    return None


def minimise(binary, prop, flavour, tier, v, scratch, budget):
    """Smaller parameters first (seed-driven schedule), then fewer context switches (explicit schedule)."""
    t_end = time.time() + budget
    want = klass(v["msg"])
    tried = 0

    def fails(r):
        nonlocal tried
        if time.time() > t_end:
            return None
        tried += 1
        d = run_replay(binary, prop, flavour, tier, r, scratch)
        return d if d and d["status"] in (2, 4) and klass(d["msg"]) == want else None

    cur = {"seed": v["seed"], "scenario": v["scenario"], "params": [], "trace": None, "msg": v["msg"]}
    base = fails(cur)
    if not base:
        return None, tried
    slow = base["steps"] + base["serial"] > 2e7
    best, bestrun = cur, base

    def knobs(d):
        return [(n, val, lo, hi) for n, val, lo, hi in d["params"]]
    # fix every parameter explicitly, then shrink each towards its lower bound
    pinned = {n: val for n, val, lo, hi in knobs(base)}
    progress = not slow
    while progress and time.time() < t_end:
        progress = False
        for n, val, lo, hi in knobs(bestrun):
            cand = pinned.get(n, val)
            for smaller in (lo, lo + (cand - lo) // 2, cand - 1):
                if smaller >= cand or smaller < lo:
                    continue
                p = dict(pinned)
                p[n] = smaller
                r = dict(best, params=sorted(p.items()))
                d = fails(r)
                if d:
                    pinned, best, bestrun, progress = p, dict(r, msg=d["msg"]), d, True
                    break
    best = dict(best, params=[(n, val) for n, val, lo, hi in knobs(bestrun)], msg=bestrun["msg"])
    # explicit schedule
    if not bestrun.get("trace_overflow"):
        tr = [tuple(x) for x in bestrun["trace"]]
        r = dict(best, trace=tr)
        d = fails(r)
        if d:
            best, bestrun = dict(r, msg=d["msg"]), d
            n = 2
            while len(tr) >= 1 and time.time() < t_end and not slow:
                size = max(1, len(tr) // n)
                reduced = False
                for i in range(0, len(tr), size):
                    sub = tr[:i] + tr[i + size:]
                    r = dict(best, trace=sub)
                    d = fails(r)
                    if d:
                        tr, best, bestrun, reduced = sub, dict(r, msg=d["msg"]), d, True
                        n = max(n - 1, 2)
                        break
                if not reduced:
                    if size == 1:
                        break
                    n = min(len(tr), n * 2)
    return best, tried


def symbolise(binary, pcs):
    try:
        o = subprocess.run(["addr2line", "-Cfpi", "-e", binary] + [hex(x - 1) for x in pcs if x], text=True,
                           capture_output=True, timeout=60).stdout
        return [l for l in o.splitlines() if "/include/ffcl/" in l or "/scn/" in l][:8]
    except Exception:
        return []


# ---------------------------------------------------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "known"]


def match_known(prop, v):
    params = {n: val for n, val, lo, hi in v["params"]}
    for k in known_findings():
        if k["property"] != prop or k.get("scenario", v["scenario"]) != v["scenario"]:
            continue
        if not re.search(k["message"], v["msg"]):
            continue
        if all(params.get(n) == x for n, x in k.get("params", {}).items()):
            return k
    return None


# ------------------------------------------------------------------------------------------------------------- the check
def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        props = a[1:] or sorted(p for p in CONF)
        build(props)
        return 0
    if a and a[0] == "--replay":
        txt = open(a[1]).read()
        prop = re.search(r"^property (\S+)", txt, re.M).group(1)
        fl = re.search(r"^flavour (\S+)", txt, re.M).group(1)
        tier = re.search(r"^tier (\d+)", txt, re.M).group(1)
        b = build([prop])[(prop, fl)]
        sd = tempfile.mkdtemp(prefix="ffclsim")
        try:
            p = subprocess.run([b, "--prop", prop, "--replay", os.path.abspath(a[1]), "--scratch", sd, "--tier", tier]
                               + a[2:])
        finally:
            shutil.rmtree(sd, ignore_errors=True)
        return p.returncode
    prop = a[0]
    conf = dict(DEFAULT)
    conf.update(CONF[prop])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    seconds = conf["thorough_seconds"] if thorough else conf["quick_seconds"]
    if "--seconds" in a:
        seconds = float(a[a.index("--seconds") + 1])
    runs = {f: (10**9 if thorough and conf["quick_runs"][f] else conf["quick_runs"][f]) for f in FLAVOURS}
    if "--runs" in a:
        runs = {f: int(a[a.index("--runs") + 1]) if runs[f] else 0 for f in FLAVOURS}
    only = a[a.index("--only") + 1] if "--only" in a else None
    t0 = time.time()
    bins = build([prop])
    t_build = time.time() - t0
    log("[%s] built in %.1fs" % (prop, t_build))
    scratch = tempfile.mkdtemp(prefix="ffclsim.")
    try:
        return explore(prop, conf, tier, thorough, seed, seconds, runs, only, bins, scratch, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, conf, tier, thorough, seed, seconds, runs, only, bins, scratch, t0, t_build):
    procs = []
    total = sum(runs.values()) or 1
    share = {}
    flav = [f for f in FLAVOURS if runs[f]]
    # worker slots per flavour, each worker takes every k-th seed
    for f in flav:
        share[f] = max(1, round(WORKERS * conf["share"][f])) if len(flav) > 1 else WORKERS
    for f in flav:
        for w in range(share[f]):
            out = os.path.join(scratch, "%s.%d.out" % (f, w))
            sd = os.path.join(scratch, "%s.%d.d" % (f, w))
            os.mkdir(sd)
            cnt = (runs[f] + share[f] - 1) // share[f]
            base = seed * 2 + (1 if f == "seq" else 0)
            cmd = [bins[(prop, f)], "--prop", prop, "--base", str(base), "--start", str(w), "--stride", str(share[f]),
                   "--count", str(cnt), "--seconds", str(seconds), "--out", out, "--scratch", sd, "--verify",
                   str(conf["verify_every"]), "--max-violations", "1", "--wall", "120", "--tier", "1" if thorough else "0"]
            if only:
                cmd += ["--only", only]
            procs.append({"f": f, "out": out, "p": subprocess.Popen(cmd, stdout=subprocess.DEVNULL,
                                                                     stderr=open(out + ".err", "w"))})
    # wait; stop everybody a little after the first violation
    stop_at = None
    while any(x["p"].poll() is None for x in procs):
        time.sleep(0.05)
        if stop_at is None and any(x["p"].poll() == 1 for x in procs):
            stop_at = time.time() + (0 if FAST else 3)
        if stop_at and time.time() > stop_at:
            for x in procs:
                if x["p"].poll() is None:
                    x["p"].kill()
            break
    for x in procs:
        x["p"].wait()
    S = {}
    faults, scen, kinds = {}, {}, [0] * 8
    viols, samples, herr, nondet = [], [], [], []
    hs, hn, ht = set(), set(), set()
    bad_exit = []
    perflav = {}
    for x in procs:
        if x["p"].returncode not in (0, 1, -9):
            bad_exit.append("%s rc=%s %s" % (x["f"], x["p"].returncode, open(x["out"] + ".err").read()[-500:]))
        if os.path.exists(x["out"]):
            for line in open(x["out"], errors="replace"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                d["flavour"] = x["f"]
                if d["type"] == "violation":
                    viols.append(d)
                elif d["type"] == "sample":
                    samples.append(d)
                elif d["type"] == "harness_error":
                    herr.append(d)
                elif d["type"] == "nondeterminism":
                    nondet.append(d)
                elif d["type"] == "summary":
                    for k, v in d.items():
                        if isinstance(v, (int, float)) and not isinstance(v, bool):
                            S[k] = max(S.get(k, 0), v) if k in ("max_live", "max_steps") else S.get(k, 0) + v
                    for k, v in d["faults"].items():
                        faults[k] = faults.get(k, 0) + v
                    for k, v in d["scenarios"].items():
                        scen[k] = scen.get(k, 0) + v
                    for i, v in enumerate(d["kinds"]):
                        kinds[i] += v
                    perflav[x["f"]] = perflav.get(x["f"], 0) + d["runs"]
        hp = x["out"] + ".hashes"
        if os.path.exists(hp):
            for line in open(hp, errors="replace"):
                if len(line) == 19:
                    {"s": hs, "n": hn, "t": ht}[line[0]].add(line[2:18])
    if os.environ.get("SIM_SHOW_SCENARIOS"):
        log(json.dumps({"scen": scen, "faults": faults, "perflav": perflav, "steps": S.get("steps"), "runs": S.get("runs"), "discarded": S.get("discarded"), "max_steps": S.get("max_steps"), "wall": time.time() - t0}))
    # ---- violations
    known = []
    fresh = []
    for v in viols:
        k = match_known(prop, v)
        (known if k else fresh).append((v, k))
    rc = 0
    reported = []
    t_search = time.time() - t0 - t_build
    for v, _ in sorted(fresh, key=lambda t: (t[0]["steps"] + t[0]["serial"], t[0]["seed"]))[:3]:
        b = bins[(prop, v["flavour"])]
        tierno = 1 if thorough else 0
        # gate: the same seed twice, in fresh processes, must fail the same way
        plain = {"seed": v["seed"], "scenario": v["scenario"], "params": [], "trace": None, "msg": v["msg"]}
        r1 = run_replay(b, prop, v["flavour"], tierno, plain, scratch)
        r2 = run_replay(b, prop, v["flavour"], tierno, plain, scratch)
        ok = all(r and r["status"] in (2, 4) and klass(r["msg"]) == klass(v["msg"]) for r in (r1, r2)) and \
            r1["trace_hash"] == r2["trace_hash"] and r1["steps"] == r2["steps"]
        if not ok:
            herr.append(dict(v, msg="violation did not reproduce: " + v["msg"]))
            continue
        m, tried = minimise(b, prop, v["flavour"], tierno, v, scratch, 0 if FAST else 40)
        if m is None:
            m = plain
        # the minimised file must reproduce, twice
        good = [run_replay(b, prop, v["flavour"], tierno, m, scratch) for _ in range(2)]
        if not all(g and g["status"] in (2, 4) and klass(g["msg"]) == klass(v["msg"]) for g in good):
            m = plain
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", "%s-%s-%d.replay" % (prop, v["flavour"], v["seed"]))
        where = symbolise(b, (good[0] or v).get("pcs") or v["pcs"])
        with open(path, "w") as f:
            f.write(replay_text(prop, v["flavour"], tierno, m))
            for w in where:
                f.write("# at %s\n" % w)
        log("[%s] %s" % (prop, m["msg"]))
        for w in where:
            log("     at " + w)
        log("     scenario %s, %s flavour, seed %d, minimised in %d replays to %s context switches; replay: %s --replay %s"
            % (v["scenario"], v["flavour"], v["seed"], tried, "seed-driven" if m["trace"] is None else len(m["trace"]),
               os.path.join(HERE, "check.py"), path))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        reported.append({"message": m["msg"], "replay": path, "where": where})
        rc = 1
        break
    for k in known_findings():
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    wall = time.time() - t0
    err = None
    if rc == 0:
        if herr:
            err = "harness errors: " + herr[0]["msg"]
        elif bad_exit:
            err = "simulator ended abnormally: " + bad_exit[0]
        elif nondet:
            err = "nondeterministic run, seed %d (%s)" % (nondet[0]["seed"], nondet[0]["scenario"])
        elif S.get("discarded", 0) > 0.02 * S.get("runs", 0) + 1:
            err = "%d of %d runs went beyond the simulator's memory" % (S["discarded"], S.get("runs", 0))
        elif S.get("runs", 0) == 0:
            err = "no runs"
    nruns = int(S.get("runs", 0))
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": nruns,
            "distinct_nontrivial": len(hn),
            "rule": conf["rule"] + " A run is one seed: the seed decides data, options, entropy, team sizes, every "
                    "context switch and every fault. Non-trivial: the scenario reached the operation under test with a "
                    "workload that can violate the property; distinct: by hash over all decisions, observed states and "
                    "the complete schedule.",
            "samples": [{"seed": s["seed"], "flavour": s["flavour"], "scenario": s["scenario"],
                         "decisions": {n: v for n, v, lo, hi in s["params"]}, "context_switches": s["switches"],
                         "steps": s["steps"] + s["serial"], "faults": s["faults"]} for s in samples[:6]],
            "runs_by_flavour": perflav, "runs_by_scenario": scen,
            "runs_per_hour": round(nruns / max(t_search, 1e-3) * 3600),
            "seeds_per_hour": round(nruns / max(t_search, 1e-3) * 3600),
            "simulated_seconds": S.get("sim_ns", 0) / 1e9,
            "simulated_steps": int(S.get("steps", 0) + S.get("serial", 0)),
            "instrumented_accesses_checked_for_races": int(S.get("accesses", 0)),
            "context_switches": {"preemptive": int(S.get("switches", 0)), "forced": int(S.get("forced", 0))},
            "distinct_interleavings": {"count": len(hs), "measure": "hash of the sequence (step, next thread) of all context switches of a run"},
            "distinct_states": {"count": len(ht), "measure": "hash of the outcome states the scenario noted"},
            "faults_injected": faults,
            "parallel_regions": {"entered": int(S.get("regions", 0)), "with_more_than_one_thread": int(S.get("par_regions", 0))},
            "max_live_threads": int(S.get("max_live", 0)), "entropy_draws": int(S.get("entropy_draws", 0)),
            "scheduler_kinds": dict(zip(["random", "pct", "stall_one_thread", "sync_points_only", "sequential"], kinds)),
            "determinism": {"runs_repeated": int(S.get("verified", 0)), "mismatches": int(S.get("mismatched", 0))},
            "components": {"real": "all of /repo/include/ffcl reached by the scenarios, libstdc++ containers and <random>",
                           "simulated": "OpenMP runtime, threads and locks, scheduler, entropy device, heap, clocks and sleep, file descriptors below the scratch directory"},
            "known_findings_seen": len(known), "reported": reported,
        },
        "assumptions": conf["assumptions"] + [
            "interleavings are sequentially consistent; weaker orderings are covered by reporting every unordered conflicting access",
            "code is compiled with -O1 and instrumented accesses; accesses inside libstdc++.so itself are not instrumented"],
        "wall_s": round(wall, 2), "violations": 1 if rc else 0,
    }
    if err:
        ev["coverage"]["error"] = err
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("[%s] %d runs, %d distinct interleavings, %d non-trivial, %.1fs (build %.1fs, search %.1fs)" %
        (prop, nruns, len(hs), len(hn), wall, t_build, t_search))
    if err:
        log("[%s] ERROR %s" % (prop, err))
        return 2
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        log(str(e))
        sys.exit(2)
