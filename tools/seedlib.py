"""Makes /verif/seeded/<id>/ from the definitions in seeds*.py and tries them out.

seeds.py make [ID...]    write the folders and confirm them in scratch copies (original lines, demo 0 / nonzero)
seeds.py detect [ID...]  run each bug's own check against a patched scratch copy (COPC_REPO) and print what it reports
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = HERE + "/tools/seedkit"
BASE = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--reverse"], capture_output=True, text=True).stdout.split()[0]
SEEDS = {}


def S(id, prop, edits, needs, breaks, demo, kind="cpp"):
    """edits: [(file, old, new)...]; demo: C++ main body, or a Python script (kind py), or a shell script (kind sh)"""
    assert id not in SEEDS
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind)


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", env=env, timeout=timeout)
    return r.returncode, r.stdout


def scratch():
    t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    sh("git -C /repo archive HEAD | tar -x -C %s && git -C %s init -q && git -C %s add -A && git -C %s -c user.name=a -c user.email=a@b commit -qm x" % (t, t, t, t))
    return t


def apply(t, s):
    for f, old, new in s["edits"]:
        p = os.path.join(t, f)
        x = open(p).read()
        assert x.count(old) == 1, "%s: %d matches of %r" % (f, x.count(old), old)
        open(p, "w").write(x.replace(old, new))


def own_lines(t):
    """Removed lines of the scratch diff that are not lines of the base commit"""
    _, d = sh("git diff -U0", cwd=t)
    bad, n, f = [], 0, ""
    for line in d.splitlines():
        if line.startswith("--- "):
            f = line[6:]
        elif line.startswith("@@"):
            a = line.split()[1][1:].split(",")
            start, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if not cnt:
                continue
            _, b = sh(["git", "-C", "/repo", "blame", "-s", "-l", "-L%d,+%d" % (start, cnt), "HEAD", "--", f])
            for x in b.splitlines():
                n += 1
                if not x.lstrip("^").startswith(BASE[:30]):
                    bad.append(f + ": " + x[40:])
    return bad, n


def make(id):
    s = SEEDS[id]
    d = HERE + "/seeded/" + id
    t = scratch()
    try:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(HERE + "/shim", d + "/shim", ignore=None if s["kind"] == "py" else shutil.ignore_patterns("pybind11"))
        shutil.copy(KIT + "/run.sh", d)
        if s["kind"] == "py":
            open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        else:
            shutil.copy(KIT + "/demo.hpp", d)
            open(d + "/demo.cpp", "w").write('#include "demo.hpp"\n\n' + s["demo"].lstrip("\n"))
        flags = '"-fsanitize=address,undefined -fno-sanitize-recover=all"' if s["kind"] == "asan" else '""'
        open(d + "/demo.sh", "w").write("#!/bin/bash\n# run in the repository: exit 0 if it behaves\n. \"$(dirname \"$0\")/run.sh\"\n%s\n"
                                        % ("py_demo" if s["kind"] == "py" else "cpp_demo " + flags))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc0, log0 = sh(["bash", d + "/demo.sh"], cwd=t)
        apply(t, s)
        bad, n = own_lines(t)
        _, diff = sh("git diff", cwd=t)
        open(d + "/patch.diff", "w").write(diff)
        rc1, log1 = sh(["bash", d + "/demo.sh"], cwd=t)
        rca, _ = sh(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
        ok = rc0 == 0 and rc1 not in (0, 3) and rca == 0 and n > 0 and not bad
        return "%s %s: clean %d patched %d, %d original lines%s%s%s" % (
            "ok  " if ok else "BAD ", id, rc0, rc1, n, "; NOT ORIGINAL " + str(bad) if bad else "",
            "" if rc0 == 0 else "\n" + log0[-1500:], "\n    " + log1.strip().splitlines()[-1][:150] if log1.strip() else "")
    finally:
        shutil.rmtree(t)


def detect(id, checks=None, tier="quick"):
    s = SEEDS[id]
    t = scratch()
    try:
        apply(t, s)
        out = []
        for c in checks or [s["prop"]]:
            rc, log = sh(["python3", HERE + "/check.py", c, tier], env=dict(os.environ, COPC_REPO=t))
            v = [x for x in log.splitlines() if x.startswith("VIOLATION")]
            tail = [x for x in log.splitlines() if x.strip() and not x.startswith("VIOLATION")]
            out.append("%s %s %s rc=%d %s" % ("CAUGHT" if rc == 1 and v else "missed" if rc == 0 else "ERROR ", id, c, rc,
                                           "; ".join(x.strip() for x in tail)[:160]))
        return "\n".join(out)
    finally:
        shutil.rmtree(t)


def main():
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if a in SEEDS]
    checks = [a for a in sys.argv[2:] if a not in SEEDS]
    bad = 0
    for gone in set(os.listdir(HERE + "/seeded")) - set(SEEDS) if cmd == "make" else ():
        shutil.rmtree(HERE + "/seeded/" + gone)
    for id in ids or sorted(SEEDS):
        try:
            r = make(id) if cmd == "make" else detect(id, checks)
        except AssertionError as e:
            r = "BAD %s: %s" % (id, e)
        print(r, flush=True)
        bad += r.startswith(("BAD", "missed", "ERROR"))
    return 1 if bad else 0
