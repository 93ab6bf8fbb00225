"""C38, C39: type-level and compile-fail witnesses, decided by the type checkers of two compilers."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import *
import lib
import platform_

TYPES = os.path.join(lib.VERIF, "harness", "types")
INC = os.path.join(lib.REPO, "include")
ROOT = os.path.join(INC, "boost", "numeric")
COMPILERS = [("g++", "c++11"), ("g++", "c++14"), ("g++", "c++17"), ("g++", "c++20"), ("clang++", "c++14"), ("clang++", "c++17"), ("clang++", "c++20")]
QUICK = [("g++", "c++11"), ("g++", "c++17"), ("g++", "c++20"), ("clang++", "c++17"), ("clang++", "c++20")]
WEX = re.compile(r"\b(TY|REF|NO|YES|use|static_assert|eqt<|X6|SIX|F|E)\s*\(")


def compilers(tier):
    return COMPILERS if tier == "thorough" else QUICK


def first_error(err):
    """the first error, the deepest /repo location around it, and the witness that needs it"""
    lines = err.splitlines()
    for i, l in enumerate(lines):
        if re.search(r"\b(fatal )?error:", l):
            near = []
            for x in lines[max(0, i - 12):i + 14]:
                m = re.search(r"((?:/repo/|%s)?[^\s:]+\.[hc]pp:\d+(?::\d+)?)" % re.escape(lib.REPO + "/"), x)
                if m and ("required from" in x or "instantiation of" in x or "requested here" in x) and m.group(1) not in near:
                    near.append(m.group(1))
            return l.strip()[:400] + (" (instantiated from %s)" % ", ".join(near[:5]) if near else "")
    return (lines[0] if lines else "no message")[:400]


def run(job):
    key, cmd, text = job
    p = subprocess.run(cmd, input=text, capture_output=True, text=True)
    return key, p.returncode, p.stderr


def compile_jobs(R, jobs, seen=None):
    with ThreadPoolExecutor(8) as ex:
        for key, rc, err in ex.map(run, jobs):
            R.check(rc == 0, key, lambda: "does not compile: " + first_error(err))
            R.fns.add(key)


def base_cmd(cc, std):
    return [cc, "-std=" + std, "-w", "-fsyntax-only", "-ftemplate-depth=512", "-I" + INC, "-I" + TYPES]


def count(src):
    return len(WEX.findall(open(os.path.join(TYPES, src)).read()))


def witnesses(src):
    return sorted({int(n) for n in re.findall(r"WITNESS == (\d+)", open(os.path.join(TYPES, src)).read()) if int(n) < 90})


def C38(tier):
    R = Result()
    jobs = [("arche.cpp witness %d, %s %s" % (n, cc, std), base_cmd(cc, std) + ["-DWITNESS=%d" % n, os.path.join(TYPES, "arche.cpp")], None)
            for n in witnesses("arche.cpp") for cc, std in compilers(tier)]
    compile_jobs(R, jobs)
    defined(R, "arche.cpp", "clang++", "c++17")
    return dict(level="other", result=R,
                rule="every public function template is instantiated with archetypes that offer exactly the documented operations of a base type, a rounding policy, a checking policy and a rounding control, "
                     "and must compile; any other operation used by the library is a compile error at the construct that uses it",
                trusted=["type checkers of gcc 13 and clang 18", "the archetypes of harness/types/arche.hpp transcribe the documented requirements"],
                extra={"witness_expressions": count("arche.cpp"), "witness_units": len(witnesses("arche.cpp")), "compilers": ["%s %s" % c for c in compilers(tier)],
                       "samples": [j[0] for j in jobs[:12]]})


def headers():
    out = []
    for d, _, fs in os.walk(ROOT):
        for f in sorted(fs):
            h = os.path.relpath(os.path.join(d, f), INC)
            # detail/ headers are internal (the platform ones are decided with their platform, C36)
            if f.endswith(".hpp") and os.sep + "detail" + os.sep not in h and not h.endswith("x86_fast_rounding_control.hpp"):
                out.append(h)
    return sorted(out, key=lambda h: (h.count("/"), h))


STRONG = re.compile(r"^[-0-9a-f]* ([TDBRSC]) (.*)$")


def units(R):
    """no header defines a function or object that two translation units could not both contain"""
    hs = headers()
    text = "".join("#include <%s>\n" % h for h in hs)
    for cc in ("clang++", "g++"):
        out = os.path.join(lib.workdir(), "all-%s.o" % cc.replace("+", "p"))
        p = subprocess.run([cc, "-std=c++17", "-w", "-c", "-o", out, "-I" + INC, "-x", "c++", "-"], input=text, capture_output=True, text=True)
        if not R.check(p.returncode == 0, "all headers together, %s" % cc, lambda: "does not compile: " + first_error(p.stderr)):
            continue
        q = subprocess.run(["nm", "-C", "--defined-only", "-g", out], capture_output=True, text=True)
        strong = [m.group(2) for m in map(STRONG.match, q.stdout.splitlines()) if m]
        R.check(not strong, "definitions usable from several translation units, %s" % cc,
                lambda: "a header defines, with external linkage and not inline: " + ", ".join(strong[:6]))


def platform_units(R):
    with ThreadPoolExecutor(8) as ex:
        for name, out, rc, err in ex.map(platform_.build, platform_.PLATFORMS):
            key = "%s: platform header usable from several translation units" % name
            if not R.check(rc == 0, key, lambda: "does not compile: " + first_error(err)):
                continue
            q = subprocess.run(["llvm-nm-18", "-C", "--defined-only", "-g", out], capture_output=True, text=True)
            strong = [m.group(2) for m in map(STRONG.match, q.stdout.splitlines()) if m and "boost::" in m.group(2)]
            R.check(q.returncode == 0 and not strong, key, lambda: "defines, with external linkage and not inline: " + ", ".join(strong[:6]) + q.stderr[:200])


def defined(R, src, cc, std):
    """every function the interface declares has a definition in the headers"""
    def one(n):
        out = os.path.join(lib.workdir(), "%s-%d-%s.o" % (src, n, cc.replace("+", "p")))
        p = subprocess.run([cc, "-std=" + std, "-w", "-c", "-O0", "-o", out, "-DWITNESS=%d" % n, "-I" + INC, "-I" + TYPES, os.path.join(TYPES, src)], capture_output=True, text=True)
        if p.returncode:
            return n, None, first_error(p.stderr)
        q = subprocess.run(["nm", "-u", out], capture_output=True, text=True)
        un = [x.split()[-1] for x in q.stdout.splitlines() if re.search(r"\b_ZNK?(5boost|St14numeric_limitsIN5boost)", x)]
        return n, [llvmir.demangle(x) for x in un], ""
    with ThreadPoolExecutor(8) as ex:
        for n, un, err in ex.map(one, witnesses(src)):
            key = "%s witness %d is defined, %s %s" % (src, n, cc, std)
            R.check(un is not None and not un, key, lambda: ("does not compile: " + err) if un is None else "declared and used, but no header defines it: " + ", ".join(un[:4]))


def C39(tier):
    R = Result()
    jobs = [("iface.cpp witness %d, %s %s" % (n, cc, std), base_cmd(cc, std) + ["-DWITNESS=%d" % n, os.path.join(TYPES, "iface.cpp")], None)
            for n in witnesses("iface.cpp") for cc, std in compilers(tier)]
    hs = headers()
    for h in hs:
        for cc, std in compilers(tier):
            jobs.append(("%s alone, %s %s" % (h, cc, std), base_cmd(cc, std) + ["-x", "c++", "-"], "#include <%s>\n" % h))
    for cc, std in compilers(tier):
        jobs.append(("all headers, twice, in reverse order, %s %s" % (cc, std), base_cmd(cc, std) + ["-x", "c++", "-"], "".join("#include <%s>\n" % h for h in (hs + hs)[::-1])))
    jobs.append(("rounded_transc_dummy", base_cmd("g++", "c++17") + ["-DWITNESS=99", os.path.join(TYPES, "iface.cpp")], None))
    jobs.append(("istream operator>>", base_cmd("g++", "c++17") + ["-DWITNESS=98", "-include", "boost/numeric/interval/io.hpp", os.path.join(TYPES, "iface.cpp")], None))
    for n in witnesses("alone.cpp"):
        for cc, std in compilers(tier):
            jobs.append(("alone.cpp witness %d, %s %s" % (n, cc, std), base_cmd(cc, std) + ["-DWITNESS=%d" % n, os.path.join(TYPES, "alone.cpp")], None))
    compile_jobs(R, jobs)
    defined(R, "alone.cpp", "clang++", "c++17")
    units(R)
    platform_units(R)
    defined(R, "iface.cpp", "clang++", "c++17")
    return dict(level="other", result=R,
                rule="every documented function, overload, member, policy and numeric_limits member is instantiated for the built-in base types and eleven policy combinations and must have the documented type; "
                     "expressions that the interface excludes must be ill-formed (detected in the immediate context, each next to an accepted twin); every public header compiles alone, in any order and twice, and what the documentation attributes to it is usable with only the class and user policies besides it; every function used is defined by a header, and no header defines anything that two translation units could not both contain",
                trusted=["type checkers of gcc 13 and clang 18", "harness/types/iface.cpp transcribes the documented interface"],
                extra={"witness_expressions": count("iface.cpp"), "witness_units": len(witnesses("iface.cpp")), "headers": hs, "compilers": ["%s %s" % c for c in compilers(tier)]})
