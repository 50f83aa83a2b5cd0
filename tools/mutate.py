#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool, no check uses it).

  mutate.py list                       number of mutants per file
  mutate.py run N SEED OUT.jsonl [FILE-REGEX]   samples N mutants, runs the checks of the file on each
Survivors are the mutants no check reports; they are looked at by hand: equivalent, outside the properties, or a gap."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo/include/ffcl/"
MAP = [
 ("datastruct/matrix/", "P01"), ("linear_algebra/Transpose", "P02"),
 ("kmeans/KMeans.hpp", "P03 P04"), ("kmeans/Lloyd", "P04 P03"), ("kmeans/Hamerly", "P04 P03"), ("kmeans/KMeansUtils", "P04 P03"),
 ("kmeans/KMeansPlusPlus", "P08"), ("kmedoids/FasterPAM", "P05"), ("kmedoids/FasterMSC", "P05"), ("kmedoids/KMedoids", "P05"),
 ("kmedoids/PAMUtils", "P05"), ("random/Distributions", "P06 P07"), ("random/Sampling", "P07"), ("random/Voses", "P08"),
 ("kdtree/KDTree.hpp", "P09 P17 P20"), ("kdtree/KDNodeView", "P09 P17 P10"), ("kdtree/KDTreeAlgorithms", "P09"), ("kdtree/policy", "P09"),
 ("algorithms/Sorting", "P09"), ("bounds/segment", "P10 P09"), ("bounds/", "P10 P09"), ("vector/", "P10 P11"),
 ("search/Search", "P10 P12"), ("search/TreeTraverser", "P10 P11"), ("search/DualTree", "P11"), ("search/Closest", "P11"),
 ("buffer/IndicesToBuffers", "P11 P13"), ("buffer/", "P10 P11"), ("dbscan/DBSCAN", "P12"), ("spanning_tree/", "P13"), ("UnionFind", "P13 P10 P14"),
 ("single_linkage", "P14 P17 P20"), ("condensed", "P15 P20"), ("hdbscan/", "P15"), ("common/Timer", "P18"), ("common/Utils", "P17 P05"),
 ("statistics/Statistics", "P03 P05 P09"), ("heuristics/Distances", "P01 P10"), ("heuristics/Silhouette", "P19"),
]
OPS = [
 (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
 (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ 1\b", [""]), (r" - 1\b", ["", " - 2"]), (r" \+ ", [" - "]), (r" - ", [" + "]),
 (r" \* ", [" + "]), (r" / ", [" * "]), (r" \+= ", [" = ", " -= "]), (r" -= ", [" += "]), (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"infinity<(\w+)>\(\)", [r"\1{0}"]),
 (r"!(?=[a-z_])", [""]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\bif \((?!constexpr)(.*)\) \{$", ["if (true) {", "if (false) {"]),
 (r"left", ["right"]), (r"right", ["left"]), (r"lower", ["upper"]), (r"upper", ["lower"]), (r"_begin\b", ["_end"]), (r"\bfirst\b", ["second"]), (r"\bsecond\b", ["first"]),
 (r"nearest", ["furthest"]), (r"\bthread_local ", [""]), (r"^(\s+)auto (\w+ = std::vector)", [r"\1static auto \2"]), (r"^(\s+)std::vector<([^;=]*)> (\w+)", [r"\1static std::vector<\2> \3"]),
 (r"std::sqrt\(", ["("]), (r"std::abs\(", ["("]),
]
def mutants():
    out = []
    for d, _, fs in os.walk(R):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, R)
            props = next((v for k, v in MAP if k in rel), None)
            if not props: continue
            lines = open(p).read().split("\n")
            incomment = False
            for i, l in enumerate(lines):
                s = l.strip()
                if "/*" in s: incomment = True
                if "*/" in s: incomment = False; continue
                if incomment or not s or s.startswith(("//", "#include", "template", "using", "static_assert", "assert", "}", "namespace", "public", "private", "typename", "class", "struct")): continue
                code = l.split("//")[0].rstrip()
                for pat, reps in OPS:
                    for m in re.finditer(pat, code):
                        for r in reps:
                            new = code[:m.start()] + m.expand(r) + code[m.end():]
                            if new != code: out.append((rel, i, code, new, props))
                # delete a statement
                if s.endswith(";") and not re.match(r"(return|auto|const|std::size_t|static|constexpr|using|bool|typename|friend|throw)\b", s) and not re.match(r"^[\w:<>,&* ]+ \w+(_|)( = .*|\{.*|)?;$", s) and i > 0 and lines[i-1].strip().endswith((";", "{", "}", "")):
                    out.append((rel, i, code, re.match(r"\s*", l).group(0) + ";", props))
    return out
def objects(b):
    """Code of the built scenario objects, without debug information."""
    out = {}
    for o in sorted(glob.glob(b + "/*.o")):
        n = os.path.basename(o).split(".")
        if n[0] == "rt": continue
        t = o + ".stripped"
        subprocess.run(["objcopy", "--strip-debug", o, t], check=True)
        out[n[0] + "." + n[1]] = hashlib.sha256(open(t, "rb").read()).hexdigest()
        os.unlink(t)
    return out
BASE_OBJ = {}
def one(k, m, outf, runs):
    rel, i, old, new, props = m
    w = "/tmp/mut/w%d" % k
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo/include", w + "/include")
    p = w + "/include/ffcl/" + rel
    L = open(p).read().split("\n")
    L[i] = new
    open(p, "w").write("\n".join(L))
    env = dict(os.environ, FFCL_REPO=w, FFCL_BUILD=w + "/b", FFCL_OUT=w + "/o", SIM_FAST="1", SIM_WORKERS="2")
    res = {"file": rel, "line": i + 1, "old": old.strip(), "new": new.strip(), "res": {}}
    verdict = "survived"
    for prop in props.split():
        b = subprocess.run([sys.executable, os.path.join(H, "check.py"), "--build", prop], env=env, capture_output=True, text=True)
        if b.returncode: verdict = "nocompile"; break
        o = objects(w + "/b")
        if all(BASE_OBJ.get(x) == o[x] for x in o):
            verdict = "dead"; continue
        verdict = "survived"
        t = time.time()
        try:
            r = subprocess.run([sys.executable, os.path.join(H, "check.py"), prop, "--runs", str(runs), "--seconds", "60"], env=env, capture_output=True, text=True, timeout=600)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = 99, "timeout"
        if rc == 2 and "error:" in err and "g++" in err:
            verdict = "nocompile"; break
        msg = [x for x in err.splitlines() if x.startswith("[" + prop + "]")]
        res["res"][prop] = [rc, round(time.time() - t, 1), (msg[1] if len(msg) > 1 else err[-200:])[:160]]
        if rc == 1: verdict = "caught"; break
        if rc not in (0, 1): verdict = "error"
    res["verdict"] = verdict
    shutil.rmtree(w, ignore_errors=True)
    with open(outf, "a") as f: f.write(json.dumps(res) + "\n")
    return res
if sys.argv[1] == "list":
    from collections import Counter
    c = Counter(m[0] for m in mutants())
    for k, v in sorted(c.items()): print(v, k)
    print(sum(c.values()))
else:
    n, seed, outf = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    pat = sys.argv[5] if len(sys.argv) > 5 else ""
    runs = int(sys.argv[6]) if len(sys.argv) > 6 else 1500
    e = dict(os.environ, FFCL_REPO="/tmp/mut/base", FFCL_BUILD="/tmp/mut/base/b", FFCL_OUT="/tmp/mut/base/o")
    shutil.rmtree("/tmp/mut", ignore_errors=True)
    shutil.copytree("/repo/include", "/tmp/mut/base/include")
    subprocess.run([sys.executable, os.path.join(H, "check.py"), "--build"], env=e, check=True)
    BASE_OBJ.update(objects("/tmp/mut/base/b"))
    ms = [m for m in mutants() if re.search(pat, m[0])]
    random.Random(seed).shuffle(ms)
    par = int(os.environ.get("MUT_PAR", "4"))
    with ThreadPoolExecutor(par) as ex:
        import queue
        q = queue.Queue()
        for i in range(par): q.put(i)
        def job(m):
            k = q.get()
            try: return one(k, m, outf, runs)
            finally: q.put(k)
        for r in ex.map(job, ms[:n]):
            pass
