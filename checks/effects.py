"""C40: no hidden global state, by an effect analysis over the call graph."""
import re
import subprocess
from lib import *
import lib
import rounding

FLAT = ["arith.cpp", "transc.cpp", "order.cpp", "conv.cpp", "util.cpp", "rel.cpp", "io.cpp"]
# functions of the C and C++ library without effects on shared program state (errno and the
# floating-point environment belong to the calling thread)
LIBM = ("sqrt cbrt exp exp2 expm1 log log2 log10 log1p sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh pow fmod remainder "
        "hypot floor ceil trunc round rint nearbyint lrint llrint fabs fmin fmax fdim fma ldexp frexp scalbn scalbln ilogb logb modf nextafter nexttoward "
        "copysign signbit isnan isinf isfinite fpclassify erf erfc").split()
OKFN = {n + s for n in LIBM for s in ("", "f", "l")} | {
    "fesetround", "fegetround", "fetestexcept", "feclearexcept", "feholdexcept", "fesetenv", "fegetenv", "feupdateenv",
    "memcpy", "memmove", "memset", "memcmp", "strlen", "abort", "abs", "labs", "llabs", "__errno_location", "__assert_fail",
    "__cxa_allocate_exception", "__cxa_free_exception", "__cxa_throw", "__cxa_rethrow", "__cxa_begin_catch", "__cxa_end_catch",
    "__cxa_get_exception_ptr", "__cxa_pure_virtual", "__cxa_call_unexpected", "__gxx_personality_v0", "__clang_call_terminate", "_Unwind_Resume",
    "_Znwm", "_ZdlPv", "_ZdlPvm", "_Znam", "_ZdaPv", "_ZSt9terminatev"}
ASMOK = re.compile(r"fldcw|fn?stcw|frndint|stmxcsr|ldmxcsr|^$")


def external_ok(name, pretty):
    if name in OKFN or name.startswith("llvm."):
        return True
    q, b = llvmir.base_name(pretty)
    if re.match(r"std::(runtime_error|logic_error|invalid_argument|domain_error|range_error|overflow_error|out_of_range|exception|bad_\w+)::", q):
        return True
    if q.startswith("std::") and ("stream::" in q or q == "std::operator<<"):
        return True         # output to the stream that was passed in
    if re.match(r"std::(basic_string|string|allocator|__cxx11)", q):
        return True
    return q.split("::")[0] in ("OExc", "ORnd", "ORndU", "OChk", "OChk2", "Opaque", "OBase") or re.match(r"O[A-Z]\w*::", q) is not None or q.startswith("std::__throw_")


def globs(c, out):
    if not isinstance(c, tuple) or not c:
        return
    if c[0] == "glob":
        out.append(c[1])
    elif c[0] in ("agg", "cgep"):
        for x in c[2]:
            globs(x, out)
    elif c[0] == "cexpr":
        for x in c[3]:
            globs(x, out)


def fnrefs(c, out):
    if not isinstance(c, tuple) or not c:
        return
    if c[0] == "fn":
        out.append(c[1])
    elif c[0] in ("agg", "cgep"):
        for x in c[2]:
            fnrefs(x, out)
    elif c[0] == "cexpr":
        for x in c[3]:
            fnrefs(x, out)


def operands(ins):
    r = list(ins.ops)
    if ins.op in ("call", "invoke"):
        r.append(ins.x[0])
    elif ins.op == "phi":
        r += list(ins.x.values())
    return [o[1] for o in r if o[0] == "c"]


def run(path, label):
    R = Result()
    m = load_module(path)
    roots = [f for f in m.functions.values() if not f.decl and not f.name.startswith("_")]
    # functions that only run before main (dynamic initialisation)
    init = {f.name for f in m.functions.values() if f.name.startswith(("__cxx_global_var_init", "_GLOBAL__sub_I_"))}
    seen, todo = {}, [(f, None) for f in roots]
    ginfo = {}
    while todo:
        f, caller = todo.pop()
        if f.name in seen:
            continue
        seen[f.name] = caller
        if f.decl:
            R.check(external_ok(f.name, f.pretty), "call of %s" % f.pretty.split("(")[0],
                    lambda: "%s: %s calls %s, whose effects on shared state are unknown" % (label, chain(seen, caller), f.pretty))
            continue
        m.decode(f)
        R.fns.add(f.name)
        for b in f.blocks:
            for ins in b.insts:
                R.insts += 1
                gs, fs = [], []
                for c in operands(ins):
                    globs(c, gs)
                    fnrefs(c, fs)
                    if c[0] == "asm":
                        R.check(ASMOK.search(c[1].strip()) is not None, "asm in %s" % llvmir.base_name(f.pretty)[0], "inline assembly %r" % c[1])
                for g in gs:
                    if g not in ginfo:
                        if g.startswith(("_ZT", ".str", "__PRETTY_FUNCTION__")):
                            ginfo[g] = None
                        else:
                            t, ini, const, tls = m.global_init(g)
                            ginfo[g] = ("thread-local " if tls else "") + "object " + llvmir.demangle(g) if not const or tls else None
                    R.ob += 1
                    if ginfo[g] is None:
                        R.ok += 1
                        continue
                    kind = {"store": "writes", "load": "reads"}.get(ins.op, "uses")
                    if kind == "reads" and initialised_once(m, g, init):
                        R.ok += 1
                        continue
                    file, line = m.loc(ins)
                    R.fails.append(("global %s in %s" % (llvmir.demangle(g), llvmir.base_name(f.pretty)[0]),
                                    "%s: %s %s the mutable %s (%s:%s)" % (label, chain(seen, f.name), kind, ginfo[g], file.replace(REPO + "/", ""), line)))
                for n in fs:
                    g = m.functions.get(n)
                    if g is not None:
                        R.calls += 1
                        todo.append((g, f.name))
    R.paths += len(roots)
    R.samples.append("%s: %d functions reachable from %d entry points" % (label, len(seen), len(roots)))
    return R


_once = {}


def initialised_once(m, g, init):
    """every reference other than loads is in the dynamic initialisation: a const object"""
    k = (m.path, g)
    if k not in _once:
        ok = True
        for f in m.functions.values():
            if f.decl:
                continue
            m.decode(f)
            for b in f.blocks:
                for ins in b.insts:
                    gs = []
                    for c in operands(ins):
                        globs(c, gs)
                    if g in gs and ins.op != "load" and f.name not in init:
                        ok = False
        # the object must be const in the source: the declaration query (part A) decides that
        _once[k] = ok
    return _once[k]


def chain(seen, f):
    out = []
    while f is not None and len(out) < 6:
        out.append(llvmir.base_name(llvmir.demangle(f))[0])
        f = seen.get(f)
    return " <- ".join(out)


QUERIES = [
    ("object with static or thread storage that is not const",
     'varDecl(hasGlobalStorage(), unless(isConstexpr()), unless(hasType(isConstQualified())), unless(hasType(arrayType(hasElementType(isConstQualified())))), isExpansionInFileMatching("boost/numeric/interval"))'),
    ("thread-local object",
     'varDecl(hasThreadStorageDuration(), isExpansionInFileMatching("boost/numeric/interval"))'),
    ("union, class or pointer member of static storage with mutable target",
     'varDecl(hasGlobalStorage(), hasType(pointsTo(qualType(unless(isConstQualified())))), unless(hasType(pointsTo(functionType()))), isExpansionInFileMatching("boost/numeric/interval"))'),
]


def query(R):
    src = os.path.join(lib.workdir(), "all.cpp")
    inc = os.path.join(REPO, "include", "boost", "numeric")
    with open(src, "w") as f:
        f.write("#include <boost/numeric/interval.hpp>\n")
        for r, d, fs in sorted(os.walk(os.path.join(inc, "interval"))):
            for x in sorted(fs):
                if x.endswith("_rounding_control.hpp") or x == "test_input.hpp":
                    continue
                f.write("#include <%s>\n" % os.path.relpath(os.path.join(r, x), os.path.join(REPO, "include")))
    for what, q in QUERIES:
        p = subprocess.run(["clang-query", "-c", "set output diag", "-c", "match " + q, src, "--", "-std=c++17", "-I" + REPO + "/include"],
                           capture_output=True, text=True, timeout=120)
        n = re.search(r"^(\d+) match", p.stdout, re.M)
        if p.returncode or n is None or "error:" in p.stderr + p.stdout:
            raise Bad("clang-query failed: " + (p.stderr + p.stdout)[:800])
        hits = re.findall(r'^(\S+?):(\d+):\d+: note: "root" binds here', p.stdout, re.M)
        R.check(n.group(1) == "0", what, lambda: "%s: %s" % (what, ", ".join("%s:%s" % (a.replace(REPO + "/", ""), b) for a, b in hits[:8])))
        R.samples.append("AST query over all headers: no " + what)


def C40(tier):
    R = Result()
    query(R)
    cf = ["def/d", "def/f", "std/d", "raw/d", "strict/d", "opq/d"] + (["def/l", "std/f", "std/l", "strict/f", "raw/f", "opq/f", "opq/l"] if tier == "thorough" else [])
    jobs = []
    for c in cf:
        for s in FLAT:
            if s == "transc.cpp" and c.split("/")[0] in ("def", "raw"):
                continue
            jobs.append((s, c, ()))
    jobs += [("transc.cpp", "transc/d", ()), ("check.cpp", "def/d", ()), ("check.cpp", "opq/d", ())]
    for c in rounding.CLASSES:
        jobs.append(("round.cpp", "def/d", ("-DCLS=" + rounding.CLASSES[c][0],) + (("-DTRANSC",) if rounding.CLASSES[c][3] else ())))
    paths = compile_all(jobs)
    tasks = [(run, ("%s [%s]" % (s, c),), paths[(s, c, e)]) for s, c, e in jobs]
    return dict(level="proof", tasks=tasks, result=R,
                rule="no function on any call path from the public interface refers to a mutable global, static or thread-local object or calls an external function outside the list of "
                     "effect-free library functions; no declaration in the headers, instantiated or not, creates such an object",
                trusted=["clang 18 lowering of the templates to LLVM IR (-O0) and its AST matchers", "the list of effect-free C and C++ library functions in checks/effects.py",
                         "opaque policy members stand for user code and are excluded"],
                extra={"queries": [q for _, q in QUERIES]})
