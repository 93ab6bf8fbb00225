#!/usr/bin/env python3
"""mkseed.py SPEC.py: creates seeded/<id>/ for each record of SPECS and confirms it (build, stable tests,
demo passes without and fails with the change); then runs the property's check on the changed tree.
SPECS = [dict(id=, property=, edits=[(file, old, new)], needs=, breaks=, demo=, checks=[..])]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
B = "include/boost/numeric/interval/"
DEMO_SH = """#!/bin/bash
# exit 0: the property held on this input; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -frounding-math %s -Iinclude "$d/demo.cpp" -o "$t/demo" || exit 3
timeout 60 "$t/demo"
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    assert sh("git -C %s status --porcelain --untracked-files=no" % R).stdout == "", "repo not clean"


def stable_ok():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        return "build failed: " + (b.stdout + b.stderr)[-800:]
    sh("bash /opt/vp/test.sh /tmp/mkseed.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    new = json.load(open("/tmp/mkseed.json"))
    def names(d, k):
        v = d.get(k)
        return set(v if isinstance(v, list) else (v or {}))
    want = None
    for k in ("stable", "passing", "passed", "pass"):
        if k in base:
            want = names(base, k)
    got = None
    for k in ("passed", "passing", "pass"):
        if k in new:
            got = names(new, k)
    miss = want - got
    return "tests fail: " + ", ".join(sorted(miss)[:5]) if miss else None


def run(spec, keep_existing=False):
    d = os.path.join(V, "seeded", spec["id"])
    clean()
    if "edits" in spec:
        os.makedirs(d, exist_ok=True)
        for f, old, new in spec["edits"]:
            p = os.path.join(R, f if f.startswith("include") else B + f)
            s = open(p, encoding="utf-8", newline="").read()
            cnt = s.count(old)
            assert cnt == 1, "%s: %d matches of %r in %s" % (spec["id"], cnt, old, f)
            open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
        diff = sh("git -C %s diff" % R).stdout
        sh("git -C %s checkout -- ." % R)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(spec["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % spec.get("flags", ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
    msg = []
    r = sh("bash %s/demo.sh" % d, cwd=R)
    if r.returncode:
        msg.append("demo fails on clean tree rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-500:]))
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode:
        print(spec["id"], "patch does not apply", a.stderr)
        return
    try:
        if not spec.get("notest"):
            e = stable_ok()
            if e:
                msg.append(e)
        r = sh("bash %s/demo.sh" % d, cwd=R)
        if r.returncode == 0:
            msg.append("demo passes with the change")
        elif r.returncode == 3:
            msg.append("demo does not compile with the change " + r.stderr[-500:])
        res = []
        for c in spec.get("checks") or [spec["property"]]:
            t = time.time()
            k = sh("python3 sa/check.py " + c, cwd=V)
            res.append("%s:%s(%.0fs)" % (c, {0: "MISSED", 1: "caught", 2: "exit2"}.get(k.returncode, k.returncode), time.time() - t))
            if k.returncode == 2:
                res.append(k.stderr[-300:])
            if k.returncode == 1 and "-v" in sys.argv:
                res.append(k.stdout[:600])
    finally:
        sh("git -C %s checkout -- ." % R)
    print(spec["id"], "|", "; ".join(msg) or "valid", "|", " ".join(res), flush=True)


if sys.argv[1] == "--all":
    ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        if i.startswith("-"):
            continue
        m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        run({"id": i, "property": m["property"], "notest": "-t" not in sys.argv})
else:
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SPECS"]:
        if len(sys.argv) > 2 and not any(a == s["id"] for a in sys.argv[2:] if not a.startswith("-")):
            continue
        run(s)
