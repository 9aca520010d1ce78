"""Drives a property over Hypothesis-generated cases (plain JSON values), in several processes, with a replay file for
the shrunk failure.

A property module gives: ID, RULE, CASES (quick, thorough), strategy(), check(case) -> (labels, nontrivial, note), and
calls pbt.main(module)."""
import argparse
import hashlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
CASE_TIMEOUT = 60


class Violation(AssertionError):
    pass


def require(cond, what):
    if not cond:
        raise Violation(what)


def equal(got, want, what):
    if got != want:
        raise Violation("%s: got %.400r, expected %.400r" % (what, got, want))


def same(got, want, what):
    """equal, and equal down to the sign of zeros and NaNs"""
    if repr(got) != repr(want):
        raise Violation("%s: got %.400r, expected %.400r" % (what, got, want))


def raises(f, what, kinds=(Exception,)):
    try:
        f()
    except Violation:
        raise
    except kinds:
        return
    raise Violation(what + " was not refused")


class Timeout(BaseException):
    pass


def on_alarm(*_):
    raise Timeout()


def run_case(mod, case):
    """-> (labels, nontrivial, note); raises Violation"""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        return mod.check(json.loads(json.dumps(case)))
    except Violation:
        raise
    except Timeout:
        raise Violation("the call did not return within %d s" % CASE_TIMEOUT)
    except Exception as e:
        raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:])))
    finally:
        signal.alarm(0)


def shard(mod, seed, cases, budget, out):
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    stats = {"evaluations": 0, "distinct": 0, "nontrivial": 0, "labels": {}, "samples": [], "discarded": 0, "hashes": []}
    seen, good, t0 = set(), set(), time.time()
    failing, shrinking = {}, {}

    def one(case):
        if time.time() - t0 > budget and not failing:
            stats["discarded"] += 1
            return
        stats["evaluations"] += 1
        if getattr(mod, "CORE", False):  # compiled code may end the process
            with open(out + ".case", "w") as f:
                json.dump(case, f)
        try:
            labels, nontrivial, note = run_case(mod, case)
        except Violation as e:
            failing["case"], failing["what"] = case, str(e)
            shrinking.setdefault("t", time.time())
            raise
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
        for lab in labels:
            stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
        if h not in seen:
            seen.add(h)
            if nontrivial:
                good.add(h)
                stats["nontrivial"] += 1
                if len(stats["samples"]) < 4 or (len(stats["samples"]) < 8 and stats["evaluations"] % 97 == 0):
                    stats["samples"].append(note)

    test = settings(max_examples=cases, database=None, deadline=None, derandomize=False, print_blob=False,
                    suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                    report_multiple_bugs=False)(hseed(seed)(given(mod.strategy())(one)))
    try:
        test()
    except BaseException as e:
        if not failing:
            raise
        if isinstance(e, KeyboardInterrupt):
            raise
    stats["hashes"] = sorted(good)
    stats["failure"] = failing or None
    stats["search_s"] = time.time() - t0
    json.dump(stats, open(out, "w"))


def main(mod):
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--replay-dir")
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    if a.replay:
        case = json.load(open(a.replay))["case"]
        try:
            print(run_case(mod, case))
        except Violation as e:
            print("FAILURE " + a.replay + "\n" + str(e))
            return 1
        return 0
    cases = int(os.environ.get("PBT_CASES", 0)) or mod.CASES[0 if a.tier == "quick" else 1]
    budget = float(os.environ.get("PBT_BUDGET", 0)) or (60 if a.tier == "quick" else 600)
    jobs = min(8, os.cpu_count() or 8)
    if a.shard is not None:
        shard(mod, a.seed * 1000 + a.shard, a.cases, budget, a.out)
        return 0
    tmp = os.environ.get("PBT_TMP") or "/tmp"
    procs = []
    for i in range(jobs):
        o = os.path.join(tmp, "shard%d.json" % i)
        procs.append((o, subprocess.Popen([sys.executable, sys.argv[0], "--seed", str(a.seed), "--tier", a.tier, "--shard", str(i),
                                           "--cases", str(-(-cases // jobs)), "--out", o],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    all_, errors, died = [], [], []
    for o, p in procs:
        log = p.communicate()[0]
        if p.returncode < 0 and os.path.exists(o + ".case"):
            died.append({"case": json.load(open(o + ".case")), "what": "the process was ended by signal %d" % -p.returncode})
        elif p.returncode or not os.path.exists(o):
            errors.append(log[-3000:])
        else:
            all_.append(json.load(open(o)))
    labels, hashes = {}, set()
    for s in all_:
        hashes.update(s["hashes"])
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
    res = {"evaluations": sum(s["evaluations"] for s in all_), "distinct": len(hashes),
           "nontrivial": sum(s["nontrivial"] for s in all_), "rule": mod.RULE, "labels": labels, "requested": cases,
           "discarded": sum(s["discarded"] for s in all_), "search_s": max([s["search_s"] for s in all_], default=0),
           "samples": [x for s in all_ for x in s["samples"][:2]][:10]}
    json.dump(res, open(a.out, "w"))
    fails = [s["failure"] for s in all_ if s["failure"]] + died
    if fails:
        f = min(fails, key=lambda f: len(json.dumps(f["case"])))
        text = json.dumps({"property": mod.ID, "what": f["what"], "case": f["case"]}, indent=1)
        path = os.path.join(a.replay_dir, "%s-%s.json" % (mod.ID, hashlib.sha1(text.encode()).hexdigest()[:16]))
        open(path, "w").write(text)
        print("FAILURE " + path)
        print(f["what"])
        print(json.dumps(f["case"])[:1500])
        return 1
    if errors:
        print("\n".join(errors))
        return 2
    return 0
