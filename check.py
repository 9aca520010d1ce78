#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough] : decide one property on /repo's current working tree.

Builds copc-lib's sources from /repo (plus the laz-perf stand-in in shim/) with address and undefined-behaviour
sanitizers, links them with harness/props/<PROPERTY>.cpp, searches generated cases, and writes
evidence/<PROPERTY>.json. Exit 0: held on everything explored. Exit 1: a VIOLATION line with the shrunk replay file.
Exit 2: the check itself could not run.

check.py --replay <PROPERTY> <FILE> : re-run one replay file.
check.py --build : build every harness (setup).
"""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("COPC_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
PY = "/opt/veriftools/pyvenv/bin/python3"
CXX = "clang++"
TSAN = ("C33",)  # checks with threads
BASE = ["-std=gnu++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize-recover=all", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/cpp/include", "-I" + HERE + "/shim", "-I" + HERE + "/harness"]
JOBS = min(8, os.cpu_count() or 8)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()[:20]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def compile_one(cmd, out):
    if os.path.exists(out):
        return 0, ""
    tmp = out + ".%d.tmp" % os.getpid()
    rc, log = run(cmd + ["-o", tmp])
    if rc == 0:
        os.replace(tmp, out)
    return rc, log


class Builder:
    def __init__(self, fuzz=False, tsan=False):
        self.flags = [f.replace("address,undefined", "thread") if tsan else f for f in BASE] + (["-fsanitize=fuzzer-no-link", "-DPBT_FUZZ"] if fuzz else [])
        self.fuzz = fuzz
        self.obj = os.path.join(BUILD, "obj")
        os.makedirs(self.obj, exist_ok=True)
        walk = lambda d, ext: sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(ext))
        self.repo_hdr = walk(REPO + "/cpp/include", (".hpp", ".h"))
        self.repo_src = walk(REPO + "/cpp/src", (".cpp",))
        self.shim_hdr = walk(HERE + "/shim", (".hpp",))
        self.h_hdr = walk(HERE + "/harness", (".hpp",))
        self.fl = " ".join(self.flags)
        self.prelude = os.path.join(HERE, "shim/prelude.hpp")
        self.pch = os.path.join(self.obj, "prelude-%s.pch" % digest([self.prelude], self.fl))

    def job(self, src, hdrs, pch=True):
        key = digest([src] + hdrs, self.fl)
        out = os.path.join(self.obj, "%s-%s.o" % (os.path.basename(src), key))
        return [CXX] + self.flags + (["-include-pch", self.pch] if pch else []) + ["-c", src], out

    def build(self, ids):
        rc, log = compile_one([CXX] + self.flags + ["-x", "c++-header", self.prelude], self.pch)
        if rc:
            die("prelude does not compile:\n" + log)
        common = [self.job(s, self.repo_hdr + self.shim_hdr) for s in self.repo_src]
        common.append(self.job(os.path.join(HERE, "shim/lazperf_shim.cpp"), self.shim_hdr))
        common.append(self.job(os.path.join(HERE, "harness/engine.cpp"), [os.path.join(HERE, "harness/engine.hpp")]))
        props = {i: self.job(os.path.join(HERE, "harness/props/%s.cpp" % i), self.repo_hdr + self.shim_hdr + self.h_hdr)
                 for i in ids}
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            # the property file is the slowest: start it first
            res = list(ex.map(lambda j: (j, compile_one(*j)), list(props.values()) + common))
        for (cmd, out), (rc, log) in res:
            if rc:
                die("does not compile: %s\n%s" % (cmd[-1], log[-6000:]))
        bins = {}

        def link(i):
            objs = [o for _, o in common] + [props[i][1]]
            out = os.path.join(BUILD, "%s%s-%s" % (i, "-fuzz" if self.fuzz else "", hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]))
            rc, log = compile_one([CXX] + [f for f in self.flags if f != "-fsanitize=fuzzer-no-link"] +
                                  (["-fsanitize=fuzzer"] if self.fuzz else []) + objs, out)
            return i, out, rc, log

        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for i, out, rc, log in ex.map(link, ids):
                if rc:
                    die("%s does not link:\n%s" % (i, log[-6000:]))
                bins[i] = out
        return bins


CORE = ["-std=gnu++17", "-O1", "-fPIC", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/cpp/include", "-I" + HERE + "/shim",
        "-I/usr/include/python3.12"]


def build_core():
    """copclib._core from /repo's bindings.cpp over the small pybind11 stand-in of shim/pybind11"""
    b = Builder()
    pyb = sorted(glob.glob(HERE + "/shim/pybind11/*.h"))

    def job(src, hdrs):
        return [CXX] + CORE + ["-include", b.prelude, "-c", src], os.path.join(
            b.obj, "core-%s-%s.o" % (os.path.basename(src), digest([src] + hdrs + [b.prelude], " ".join(CORE))))

    jobs = [job(REPO + "/python/bindings.cpp", b.repo_hdr + b.shim_hdr + pyb)]
    jobs += [job(x, b.repo_hdr + b.shim_hdr) for x in b.repo_src]
    jobs.append(job(HERE + "/shim/lazperf_shim.cpp", b.shim_hdr))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for (cmd, out), (rc, log) in ex.map(lambda j: (j, compile_one(*j)), jobs):
            if rc:
                die("does not compile: %s\n%s" % (cmd[-1], log[-6000:]))
    objs = [o for _, o in jobs]
    out = os.path.join(BUILD, "core-%s.so" % hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16])
    rc, log = compile_one([CXX, "-shared"] + objs, out)
    if rc:
        die("_core does not link:\n" + log[-6000:])
    return out


def known():
    """known-findings.txt: 'known: property=ID <what fails>' / 'fixed: property=ID <commit> <what failed>'"""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property="):
                rest = line[len("known: property="):]
                pid, _, what = rest.partition(" ")
                out.setdefault(pid, []).append(what)
    return out


def env_for(tmp):
    e = dict(os.environ)
    e["PBT_TMP"] = tmp
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=0:symbolize=1"
    e["TSAN_OPTIONS"] = "exitcode=78:halt_on_error=1:report_signal_unsafe=0:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:symbolize=1"
    return e


def prune():
    """keep the object cache small"""
    files = [os.path.join(r, f) for r, _, fs in os.walk(BUILD) for f in fs]
    if sum(os.path.getsize(f) for f in files if os.path.exists(f)) > 3 << 30:
        for f in sorted(files, key=os.path.getmtime)[: len(files) // 2]:
            os.unlink(f)


def cpp_check(pid, tier, seed):
    prune_safe()
    binp = Builder(tsan=pid in TSAN).build([pid])[pid]
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    stats, rc, log = {}, 0, ""
    with tempfile.TemporaryDirectory(prefix="copcv-") as tmp:
        out = os.path.join(tmp, "stats.json")
        budget = "90" if tier == "quick" else "500"
        budget = os.environ.get("PBT_BUDGET", budget)
        cmd = [binp, "--seed", str(seed), "--cases", os.environ.get("PBT_CASES", tier), "--budget", budget, "--workers", str(JOBS),
               "--out", out, "--replay-dir", replays, "--tmp", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env_for(tmp))
        rc, log = r.returncode, r.stdout
        if os.path.exists(out):
            stats = json.load(open(out))
        if rc == 0 and tier == "thorough" and pid not in TSAN:
            rc, log2, fz = fuzz(pid, binp, seed, tmp, replays)
            log += log2
            stats["fuzz"] = fz
    replay = ""
    for line in log.splitlines():
        if line.startswith("FAILURE "):
            replay = line[8:].strip()
    return rc, log, stats, replay


def prune_safe():
    try:
        prune()
    except OSError:
        pass


def fuzz(pid, binp, seed, tmp, replays):
    """coverage-guided stage: the same property driven by libFuzzer, bytes decoded into the generator's choices"""
    fb = Builder(fuzz=True).build([pid])[pid]
    corpus, art = os.path.join(tmp, "corpus"), os.path.join(tmp, "art")
    os.makedirs(corpus)
    os.makedirs(art)
    secs = int(os.environ.get("PBT_FUZZ_S", "150"))
    cmd = [fb, "-seed=%d" % (seed * 7919 + 1), "-max_total_time=%d" % secs, "-fork=%d" % JOBS, "-max_len=4096", "-timeout=40",
           "-rss_limit_mb=3000", "-len_control=20", "-print_final_stats=1", "-artifact_prefix=" + art + "/", corpus]
    e = env_for(tmp)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e)
    execs = 0
    for line in r.stdout.splitlines():
        if line.startswith("#") and ":" in line:
            try:
                execs = max(execs, int(line[1:].split(":")[0]))
            except ValueError:
                pass
    fz = {"executions": execs, "corpus": len(os.listdir(corpus)), "seconds": secs}
    for f in sorted(glob.glob(art + "/*")):
        r = subprocess.run([binp, "--from-bytes", f, "--replay-dir", replays, "--tmp", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", env=e)
        if r.returncode == 1:
            return 1, r.stdout, fz
    return 0, "", fz


def py_check(pid, tier, seed):
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="copcv-") as tmp:
        out = os.path.join(tmp, "stats.json")
        e = dict(os.environ, PBT_TMP=tmp, PYTHONDONTWRITEBYTECODE="1", COPC_REPO=REPO, COPC_CORE=build_core(),
                 MALLOC_PERTURB_="165")  # what is freed is overwritten
        r = subprocess.run([PY, os.path.join(HERE, "python/props/%s.py" % pid), "--seed", str(seed), "--tier", tier, "--out", out,
                            "--replay-dir", replays], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", env=e)
        stats = json.load(open(out)) if os.path.exists(out) else {}
    replay = ""
    for line in r.stdout.splitlines():
        if line.startswith("FAILURE "):
            replay = line[8:].strip()
    return r.returncode, r.stdout, stats, replay


def main():
    if sys.argv[1] == "--build":
        ids = sorted(os.path.basename(f)[:-4] for f in glob.glob(HERE + "/harness/props/*.cpp"))
        Builder().build([i for i in ids if i not in TSAN])
        Builder(tsan=True).build(list(TSAN))
        build_core()
        print("built " + " ".join(ids))
        return 0
    if sys.argv[1] == "--replay":
        pid, f = sys.argv[2:4]
        if os.path.exists(HERE + "/python/props/%s.py" % pid):
            return subprocess.run([PY, HERE + "/python/props/%s.py" % pid, "--replay", f],
                                  env=dict(os.environ, COPC_REPO=REPO, COPC_CORE=build_core(), MALLOC_PERTURB_="165")).returncode
        b = Builder(tsan=pid in TSAN).build([pid])[pid]
        with tempfile.TemporaryDirectory(prefix="copcv-") as tmp:
            return subprocess.run([b, "--replay", f, "--tmp", tmp], env=env_for(tmp)).returncode
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    is_py = os.path.exists(HERE + "/python/props/%s.py" % pid)
    rc, log, stats, replay = (py_check if is_py else cpp_check)(pid, tier, seed)
    wall = time.time() - t0
    assumptions = ["laz-perf is replaced by the lossless stand-in in shim/ (the real library is not installed here)",
                   "clang 18, -O1, %s; x86-64 little endian" % ("thread sanitizer" if pid in TSAN else "address and undefined-behaviour sanitizers")]
    if is_py:
        assumptions = ["pybind11 is replaced by the stand-in in shim/pybind11 and laz-perf by the lossless one in shim/ (neither is installed here)"]
        if pid in ("C25", "C26"):
            assumptions.append("the process pool is replaced by one whose order of completion is drawn, except in the cases labelled real processes")
    cov = {"evaluations": stats.get("evaluations", 0), "distinct_nontrivial": stats.get("distinct", 0),
           "rule": "cases drawn by the seeded structured generators of harness/; non-trivial: " + stats.get("rule", "?"),
           "samples": stats.get("samples", []) or ["(none)"], "requested": stats.get("requested", 0),
           "nontrivial": stats.get("nontrivial", 0), "discarded": stats.get("discarded", 0),
           "classes": stats.get("labels", {}), "search_s": stats.get("search_s", 0)}
    if "fuzz" in stats:
        cov["coverage_guided"] = stats["fuzz"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions,
          "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for what in known().get(pid, []):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if rc == 1 and replay:
        print(log[-5000:])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if rc == 3:
        # a failure that its own tape does not reproduce is not believed
        print("note: an unreproducible failure was seen and ignored\n" + log[-3000:])
        return 0
    if rc != 0:
        print(log[-6000:])
        return 2
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
