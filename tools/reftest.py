#!/usr/bin/env python3
"""Behaviour-preserving refactorings must leave every check quiet.
usage: reftest.py BUNDLE.py [-k] [CHECK ...]     applies the bundle to a scratch copy of /repo,
builds and tests it, then runs the checks on it; prints the checks that alarm or give no verdict."""
import sys, os, re, shutil, subprocess, runpy, json, time, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    args = sys.argv[1:]
    notest = "-n" in args; keep = "-k" in args
    args = [a for a in args if a not in ("-n", "-k")]
    spec, only = args[0], args[1:]
    ns = runpy.run_path(spec)
    d = tempfile.mkdtemp(prefix="ref."); repo = d + "/repo"
    try:
        os.makedirs(repo)
        subprocess.run("git -C /repo archive HEAD | tar -x -C " + repo, shell=True, check=True)
        inc = repo + "/include/boost/numeric/interval/"
        for f, old, new, n in ns["EDITS"]:
            s = open(inc + f).read()
            if old.startswith("@@re:"):
                t, k = re.subn(old[5:], lambda m: new, s, count=n, flags=re.S)
            else:
                k = s.count(old); t = s.replace(old, new) if n == 0 else s.replace(old, new, n)
            if k < 1: print("edit does not apply:", f, old[:80].replace("\n", "|")); return 3
            open(inc + f, "w").write(t)
        if not notest:
            bad = 0
            t = 0
            import glob
            os.makedirs(d + "/b", exist_ok=True)
            procs = []
            for c in sorted(glob.glob(repo + "/test/*.cpp")):
                b = os.path.basename(c)[:-4]
                procs.append((b, subprocess.Popen(f"g++ -std=c++17 -w -frounding-math -I{repo}/include {c} -o {d}/b/{b} && {d}/b/{b} >/dev/null", shell=True, stderr=subprocess.PIPE, text=True)))
                if len(procs) % 8 == 0:
                    for _, p in procs: p.wait()
            for b, p in procs:
                o = p.communicate()[1]
                if p.returncode: print("TEST", b, p.returncode, [l for l in o.split("\n") if "error" in l][:3])
        ids = only or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        env = dict(os.environ, VERIF_REPO=repo)
        ok = 0
        for c in ids:
            t0 = time.time()
            p = subprocess.run(["python3", V + "/sa/check.py", c, "--tier", "quick"], env=env, cwd=V, capture_output=True, text=True)
            if p.returncode:
                print(f"{c} rc={p.returncode} {time.time()-t0:.0f}s")
                print("   ", "\n    ".join((p.stdout + p.stderr)[-1500:].split("\n")[-12:]), flush=True)
            else: ok += 1
        print(f"quiet: {ok}/{len(ids)}")
    finally:
        if keep: print(d)
        else: shutil.rmtree(d)
sys.exit(main() or 0)
