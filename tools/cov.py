#!/usr/bin/env python3
"""Which lines of the library do the scenarios of a property execute?  tools/cov.py P01 [RUNS] ...; tools/cov.py all RUNS
Works in /tmp/cov: the scenario objects are built with -fsanitize-coverage=trace-pc as well."""
import os, sys, re, subprocess, glob, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["FFCL_BUILD"] = "/tmp/cov/build"
os.environ["FFCL_OUT"] = "/tmp/cov/out"
os.environ["SIM_FAST"] = "1"
sys.path.insert(0, HERE)
import check
check.BASE = [x for x in check.BASE if x != "-g1"] + ["-g", "-fsanitize-coverage=trace-pc"]
COV = r'''
#include <cstdint>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
static unsigned char* map_;
__attribute__((constructor(101))) static void init() {
    const char* f = getenv("SIM_COV_FILE");
    if (!f) return;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, f, O_RDWR | O_CREAT, 0644);
    syscall(SYS_ftruncate, fd, 64 << 20);
    map_ = (unsigned char*)syscall(SYS_mmap, nullptr, 64 << 20, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
}
extern "C" void __sanitizer_cov_trace_pc() {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0) - 0x400000;
    if (map_ && pc < (64u << 20)) map_[pc] = 1;
}
'''
os.makedirs("/tmp/cov/build", exist_ok=True)
open("/tmp/cov/cov.cpp", "w").write(COV)
old_rt = check.build_rt
def build_rt():
    rt = old_rt()
    out = rt[:-2] + ".cov.o"
    if not os.path.exists(out):
        check.run(["g++", "-O2", "-fno-pie", "-c", "/tmp/cov/cov.cpp", "-o", "/tmp/cov/cov.o"])
        check.run(["ld", "-r", "-o", out, rt, "/tmp/cov/cov.o"])
    return out
check.build_rt = build_rt


def lines_of(binary, addrs):
    p = subprocess.run(["addr2line", "-e", binary], input="\n".join(hex(a) for a in addrs), stdout=subprocess.PIPE, text=True)
    return p.stdout.splitlines()


def main():
    props = ["P%02d" % i for i in range(1, 21)] if sys.argv[1] == "all" else [sys.argv[1]]
    runs = int(sys.argv[2]) if len(sys.argv) > 2 else 4000
    total, hit = set(), set()
    for p in props:
        bins = check.build([p])
        for f in check.FLAVOURS:
            b = bins[(p, f)]
            cov = "/tmp/cov/%s.%s.map" % (p, f)
            if os.path.exists(cov):
                os.unlink(cov)
            env = dict(os.environ, SIM_COV_FILE=cov)
            procs = []
            for w in range(8):
                sd = "/tmp/cov/s%d" % w
                os.makedirs(sd, exist_ok=True)
                procs.append(subprocess.Popen([b, "--prop", p, "--base", "2", "--start", str(w), "--stride", "8", "--count", str(runs // 8), "--seconds", "120",
                                               "--out", "/dev/null", "--scratch", sd, "--wall", "60", "--tier", "0", "--max-violations", "1000"], env=env, stdout=subprocess.DEVNULL))
            for q in procs:
                q.wait()
            m = open(cov, "rb").read()
            got = {i + 0x400000 for i, x in enumerate(m) if x} if False else set()
            i = m.find(b"\x01")
            while i >= 0:
                got.add(i + 0x400000)
                i = m.find(b"\x01", i + 1)
            d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", b], stdout=subprocess.PIPE, text=True).stdout.splitlines()
            sites = []
            for a, nxt in zip(d, d[1:]):
                if "call" in a and "__sanitizer_cov_trace_pc>" in a:
                    mm = re.match(r"\s*([0-9a-f]+):", nxt)
                    if mm:
                        sites.append(int(mm.group(1), 16))
            ls = lines_of(b, sites)
            t, h = set(), set()
            for s, l in zip(sites, ls):
                if "/include/ffcl/" not in l:
                    continue
                l = re.sub(r" \(discr.*", "", l.split("/include/ffcl/")[1])
                t.add(l)
                if s in got:
                    h.add(l)
            total |= t
            hit |= h
            print(p, f, "sites", len(sites), "hit", len(got), "lines", len(t), "hit lines", len(h), flush=True)
            if len(props) == 1:
                pass
    miss = sorted(total - hit, key=lambda l: (l.split(":")[0], int(l.split(":")[1])))
    src = {}
    for l in miss:
        f, n = l.split(":")
        n = int(n)
        if f not in src:
            src[f] = open(os.path.join(check.REPO, "include/ffcl", f)).read().split("\n")
            print("==", f)
        print("  %4d %s" % (n, src[f][n - 1].strip() if 0 < n <= len(src[f]) else "?"))


main()
