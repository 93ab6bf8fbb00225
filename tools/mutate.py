#!/usr/bin/env python3
"""First-order mutants of the headers against the checks (development tool; works on scratch copies only).
usage: mutate.py OUT FILE[:CHECK,CHECK..] ...    FILE relative to include/boost/numeric/interval
Lists the mutants that no listed check reports; they are equivalent, outside every property, or gaps."""
import os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r"(?<![<>=!\-&|])<(?![<=a-zA-Z])", ["<="]), (r"<=", ["<", "=="]), (r"(?<![<>=!\-])>(?![>=:,;({&*])(?=\s[\w(])", [">="]), (r">=", [">"]),
       (r"==", ["!=", "<="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"_down\b", ["_up"]), (r"_up\b", ["_down"]), (r"\blower\(\)", ["upper()"]), (r"\bupper\(\)", ["lower()"]),
       (r"is_neg\(", ["is_pos(", "!is_pos("]), (r"is_pos\(", ["!is_neg(", "is_neg("]), (r"is_zero\(", ["!is_zero("]), (r"neg_inf", ["pos_inf"]), (r"pos_inf", ["neg_inf"]),
       (r"!(?=[\w:(])", [""]), (r"(?<=[(,?:= ])-(?=[\w(])", [""]), (r"\btrue\b(?=[;} ])", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\bDOWN", ["UP"]), (r"_DN\(", ["_UP("]), (r"_UP\(", ["_DN("]), (r"_NR\(", ["_UP("]),
       (r"\bxl\b", ["xu"]), (r"\bxu\b", ["xl"]), (r"\byl\b", ["yu"]), (r"\byu\b", ["yl"]), (r"\blow\b", ["up"]), (r"\bup\b(?! *\()", ["low"]),
       (r"->downward\(\)", ["->upward()"]), (r"->upward\(\)", ["->downward()"]), (r"->to_nearest\(\)", ["->upward()"]),
       (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r" \+ (?=\w)", [" - "]), (r" - (?=\w)", [" + "]),
       (r"empty\(\)(?=[;,)])", ["whole()"]), (r"whole\(\)(?=[;,)])", ["empty()"]), (r"1(?=\))", ["2"]), (r"(?<=[ (])0(?=\)| :|;)", ["1"])]
def mutants(f):
    src = open("/repo/include/boost/numeric/interval/" + f).read()
    pos = 0; blk = False
    for ln, line in enumerate(src.split("\n"), 1):
        start = pos; pos += len(line) + 1
        s = line.strip()
        if s.startswith("/*"): blk = True
        if blk:
            if "*/" in s: blk = False
            continue
        if not s or s.startswith("//") or s.startswith("#i") or s.startswith("#e") or s.startswith("#pragma") or s.startswith("template") or s.startswith("namespace") or s.startswith("using"): continue
        code = line.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    yield ln, line.strip(), (line[:m.start()] + r + line[m.end():]).strip(), src[:start + m.start()] + r + src[start + m.end():]
        if re.match(r"\s*(this->\w+\(\);|rnd\.|set_\w+\(|\w+ = .*;|if \(.*\) (throw|return).*;)", code):
            yield ln, line.strip(), "", src[:start] + " " * len(line) + src[start + len(line):]
def main():
    out = open(sys.argv[1], "a")
    pool = []
    lock = threading.Lock()
    base = tempfile.mkdtemp(prefix="mu.")
    N = 3
    for i in range(N):
        d = "%s/%d" % (base, i)
        os.makedirs(d + "/repo")
        subprocess.run(["cp", "-a", "/repo/.", d + "/repo/"]); subprocess.run(["cp", "-a", V, d + "/verif"])
        pool.append(d)
    def one(job):
        f, checks, ln, a, b, text = job
        with lock: d = pool.pop()
        try:
            p = d + "/repo/include/boost/numeric/interval/" + f
            orig = open("/repo/include/boost/numeric/interval/" + f).read()
            open(p, "w").write(text)
            env = dict(os.environ, VERIF_REPO=d + "/repo")
            res = []
            for c in checks:
                try:
                    r = subprocess.run(["python3", "sa/check.py", c, "--tier", "quick"], cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=600)
                    res.append((c, r.returncode))
                    if r.returncode == 1: break
                    if r.returncode == 2 and "does not compile" in r.stdout + r.stderr: break
                except subprocess.TimeoutExpired:
                    res.append((c, "timeout"))
            open(p, "w").write(orig)
            tag = "caught" if any(x[1] == 1 for x in res) else "EXIT2" if any(x[1] != 0 for x in res) else "MISSED"
            with lock:
                out.write("%s %s:%d | %s => %s | %s\n" % (tag, f, ln, a, b, res)); out.flush()
        finally:
            with lock: pool.append(d)
    jobs = []
    for arg in sys.argv[2:]:
        f, cs = arg.split(":")
        for ln, a, b, text in mutants(f): jobs.append((f, cs.split(","), ln, a, b, text))
    print(len(jobs), "mutants")
    with ThreadPoolExecutor(N) as ex: list(ex.map(one, jobs))
    shutil.rmtree(base)
main()
