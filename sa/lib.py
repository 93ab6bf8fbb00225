"""Shared machinery of the checks: configurations, compilation of the analysis
harnesses to LLVM IR from /repo's current tree, operand cells, opaque policy
contracts, entailment with ghost splitting, parallel execution, reporting."""
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

import llvmir
import terms as T
import engine
from engine import Engine, State, Unsupported, TopVal, is_num
from terms import PINF, NINF, NAN, ZERO, ONE, const, padd, pneg, pmul, pdiv, ppow, rnd, fn, is_special, show

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

FMTSZ = {"f32": 4, "f64": 8, "f80": 16}
NUMT = {"float": "f32", "double": "f64", "long double": "f80"}


class Cfg:
    def __init__(self, name, defs, num):
        self.name, self.defs, self.num, self.fmt = name, defs, num, NUMT[num]
        self.opaque = "CFG_OPQ" in defs

    def flags(self):
        return ["-D" + d for d in self.defs] + ["-DNUM=" + self.num]


CFG = {}
for _n, _d in (("opq", ["CFG_OPQ"]), ("def", []), ("std", ["CFG_STD"]), ("transc", ["CFG_TRANSC"]),
               ("strict", ["CFG_STRICT"]), ("raw", ["CFG_RAW"])):
    for _s, _t in (("d", "double"), ("f", "float"), ("l", "long double")):
        CFG[_n + "/" + _s] = Cfg(_n + "/" + _s, _d, _t)


class Bad(Exception):
    """the analysis itself cannot proceed (exit 2)"""


# ------------------------------------------------------------------ workspace
_tmp = None


def workdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vsa.")
    return _tmp


def cleanup():
    if _tmp and os.path.isdir(_tmp):
        shutil.rmtree(_tmp, ignore_errors=True)


_compiled = {}


def bcname(src, cfgname, extra=()):
    key = (src, cfgname, tuple(extra))
    return os.path.join(workdir(), "%s.%s.%x.bc" % (os.path.basename(src), cfgname.replace("/", "_"),
                                                    abs(hash(key)) & 0xffffff))


def _compile1(j):
    src, cfgname, extra = j
    out = bcname(src, cfgname, extra)
    flags = CFG[cfgname].flags() if cfgname in CFG else []
    rc, err = llvmir.compile_ir(os.path.join(VERIF, "harness", src), out, flags + list(extra), repo=REPO)
    return j, out, rc, err


def compile_all(jobs):
    """jobs: iterable of (src, cfgname, extra tuple) -> {job: path}"""
    jobs = list(dict.fromkeys((s, c, tuple(e)) for s, c, e in jobs))
    from concurrent.futures import ThreadPoolExecutor
    res = {}
    workdir()
    with ThreadPoolExecutor(8) as ex:
        for j, out, rc, err in ex.map(_compile1, jobs):
            if rc:
                raise Bad("harness %s [%s %s] does not compile against %s:\n%s" % (j[0], j[1], " ".join(j[2]), REPO, err[:3000]))
            res[j] = out
    return res


# ------------------------------------------------------------------ workers
_mods = {}


def load_module(path):
    m = _mods.get(path)
    if m is None:
        m = _mods[path] = llvmir.Module(path)
    return m


class Result:
    """what one task found"""

    def __init__(self):
        self.ob = 0
        self.ok = 0
        self.fails = []      # (key, message)
        self.fns = set()
        self.paths = 0
        self.insts = 0
        self.sites = set()
        self.samples = []
        self.calls = 0
        self.notes = []

    def check(self, cond, key, msg):
        self.ob += 1
        if cond:
            self.ok += 1
        else:
            self.fails.append((key, msg() if callable(msg) else msg))
        return cond

    def absorb(self, E):
        self.fns |= {f for f in E.functions_seen}
        self.insts += E.stats["insts"]
        self.calls += E.stats["calls"]


def _run_task(t):
    func, params, path = t
    t0 = time.time()
    try:
        T.reset()
        r = func(path, *params)
        return ("ok", r.__dict__, time.time() - t0, (func.__name__, params))
    except Unsupported as e:
        return ("unsupported", "%s%r: %s" % (func.__name__, params, e), time.time() - t0, (func.__name__, params))
    except Exception:
        return ("error", "%s%r: %s" % (func.__name__, params, traceback.format_exc()), time.time() - t0,
                (func.__name__, params))


def _run_chunk(ts):
    return [_run_task(t) for t in ts]


STOP_AFTER = None       # quick tier: seconds after which an analysis that has found violations stops looking for more


def paced(it, pool, total, bad):
    t0 = time.time()
    if pool is None:
        yield from it
        return
    while True:
        try:
            r = it.next(timeout=10)
        except StopIteration:
            return
        except mp.TimeoutError:
            r = None
        if r is not None:
            yield from r
        if STOP_AFTER and total.fails and time.time() - t0 > STOP_AFTER:
            bad.append(("stopped", "violations found; the analysis of the remaining cases was stopped after %d s" % STOP_AFTER))
            pool.terminate()
            return


def run_tasks(tasks, procs=8, verbose=False):
    """tasks: (func, params, bcpath).  Returns merged Result; raises Bad on analysis failure"""
    total = Result()
    T.reset()
    if not tasks:
        raise Bad("no analysis task was generated")
    bad = []
    slow = []
    # a failed assumption of the analyser must not hide violations found elsewhere
    ctx = mp.get_context("fork")
    n = min(procs, len(tasks))
    if os.environ.get("VERIF_SERIAL"):
        it = map(_run_task, tasks)
        pool = None
    else:
        pool = ctx.Pool(n, maxtasksperchild=None)
        k = max(1, min(3, len(tasks) // (n * 8) or 1))
        it = pool.imap_unordered(_run_chunk, [tasks[i:i + k] for i in range(0, len(tasks), k)])
    for kind, v, dt, what in paced(it, pool, total, bad):
        slow.append((dt, what))
        if kind != "ok":
            bad.append((kind, v))
            continue
        total.ob += v["ob"]
        total.ok += v["ok"]
        total.fails += v["fails"]
        total.fns |= v["fns"]
        total.paths += v["paths"]
        total.insts += v["insts"]
        total.calls += v["calls"]
        total.sites |= v["sites"]
        total.notes += v["notes"]
        if len(total.samples) < 12 or len(v["samples"]) and len(total.samples) < 24:
            total.samples += v["samples"][:2]
    if pool:
        if not any(b[0] == "stopped" for b in bad):
            pool.close()
        pool.join()
    if os.environ.get("VERIF_VERBOSE"):
        slow.sort(key=lambda z: -z[0])
        for dt, w in slow[:10]:
            print("  %.2fs %s %r" % (dt, w[0], w[1]), file=sys.stderr)
    total.bad = bad
    return total


# ------------------------------------------------------------------ operand cells
LOW = ("ninf", "-", "0", "+")
UPP = ("-", "0", "+", "pinf")
CELLS = [(l, u) for l in LOW for u in UPP
         if not (l == "0" and u == "-") and not (l == "+" and u in "-0")]
SCELLS = ["-", "0", "+"]


def cellname(c):
    if isinstance(c, str):
        return c
    return "[%s,%s]" % ({"ninf": "-inf"}.get(c[0], c[0]), {"pinf": "+inf"}.get(c[1], c[1]))


def bound_value(F, name, kind, fmt):
    if kind == "ninf":
        return NINF
    if kind == "pinf":
        return PINF
    if kind == "0":
        return ZERO
    v = T.sym(name, fmt)
    if kind == "-":
        F.add_ge(pneg(v), True)
    elif kind == "+":
        F.add_ge(v, True)
    return v


class Operand:
    """an interval argument: bounds lo, hi and a ghost point p with lo<=p<=hi"""

    def __init__(self, F, name, cell, fmt, ghost=True):
        self.name, self.cell = name, cell
        self.lo = bound_value(F, name + "l", cell[0], fmt)
        self.hi = bound_value(F, name + "u", cell[1], fmt)
        if not is_special(self.lo) and not is_special(self.hi):
            F.add_ge(padd(self.hi, self.lo, -1))
        self.args = [0, self.lo, self.hi]
        self.p = None
        if ghost:
            self.p = T.sym(name)
            if not is_special(self.lo):
                F.add_ge(padd(self.p, self.lo, -1))
            if not is_special(self.hi):
                F.add_ge(padd(self.hi, self.p, -1))


class Scalar:
    def __init__(self, F, name, kind, fmt):
        self.name, self.cell = name, kind
        self.lo = self.hi = self.p = bound_value(F, name, kind, fmt)
        self.args = [self.p]


class Empty:
    def __init__(self, name):
        self.name, self.cell = name, "empty"
        self.lo = self.hi = NAN
        self.args = [1, ZERO, ZERO]
        self.p = None


# ------------------------------------------------------------------ opaque policies
Token = T.Token
EMPTY_L = Token("EMPTY_L")
EMPTY_U = Token("EMPTY_U")
EMPTY_L2 = Token("EMPTY_L2")     # of the second opaque checking policy
EMPTY_U2 = Token("EMPTY_U2")



def unan(fmt):
    """a value that the opaque policy declares invalid: any value of the base type, ordered like any other"""
    return T.sym("user_nan", fmt)


UNANS = {unan(f) for f in ("f32", "f64", "f80")}


def badnum(v):
    return v is NAN or not is_special(v) and not isinstance(v, (Token, TopVal, int, tuple)) and v in UNANS


def nanarg(cfg, fmt):
    return unan(fmt) if cfg.opaque else NAN


OP2 = {"add", "sub", "mul", "div"}
OP1 = {"exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"}
DIR = {"down": "D", "up": "U"}
HALFPI = T.sym("HALFPI")
# natural domain of each rounding operation: (lo, lo strict, hi, hi strict)
DOM = {"sqrt": (0, False, None, False), "log": (0, False, None, False), "asin": (-1, False, 1, False),
       "acos": (-1, False, 1, False), "acosh": (1, False, None, False), "atanh": (-1, False, 1, False)}
LIMITS = {"exp": (ZERO, PINF), "log": (None, PINF), "sinh": (NINF, PINF), "cosh": (PINF, PINF),
          "tanh": (const(-1), ONE), "asinh": (NINF, PINF), "acosh": (None, PINF),
          "atan": (pneg(HALFPI), HALFPI), "sqrt": (None, PINF), "int": (NINF, PINF)}


def opaque_hooks(E, fmt):
    """transfer functions = documented contracts of the Rounding and Checking concepts"""

    def deref(st, p):
        o = st.mem[p[1]].get(p[2])
        if o is None:
            raise Unsupported("opaque policy called with an uninitialised argument")
        v = o[1]
        if isinstance(v, int):
            return const(v)
        if isinstance(v, tuple) and v and v[0] == "bits":
            return v[1]
        return v

    def live(st):
        return st.user.get("live", ())

    def rnd_call(e, st, a, ins, f):
        q, b = llvmir.base_name(f.pretty)
        cls = q.split("::")[0]
        if b == cls:
            if cls == "ORnd":
                st.user["live"] = live(st) + (a[0][1:],)
                st.event("rnd_ctor", e.loc(ins))
            return [("ret", None, st)]
        if b == "~" + cls:
            l = list(live(st))
            if a[0][1:] in l:
                l.remove(a[0][1:])
            else:
                st.event("protocol", "destructor of a rounding object that was never constructed", e.loc(ins))
            st.user["live"] = tuple(l)
            st.event("rnd_dtor", e.loc(ins))
            return [("ret", None, st)]
        if cls == "ORnd" and a[0][1:] not in live(st):
            st.event("protocol", "%s called on a rounding object that is not alive" % b, e.loc(ins))
        if cls == "ORndU" and not live(st):
            st.event("protocol", "unprotected %s called with no rounding object alive" % b, e.loc(ins))
        if b == "median":
            x, y = deref(st, a[1]), deref(st, a[2])
            if isinstance(x, Token) or isinstance(y, Token) or badnum(x) or badnum(y):
                st.event("opdom", b, "bounds of an empty interval", e.loc(ins))
                return [("ret", NAN, st)]
            st.event("op", b, (x, y), e.loc(ins))
            if is_special(x) or is_special(y):
                return [("ret", e.fadd(st, x, y), st)]
            return [("ret", rnd("N", fmt, T.pscale(padd(x, y), T.Fraction(1, 2))), st)]
        k, _, d = b.rpartition("_")
        m = DIR.get(d)
        if m is None:
            raise Unsupported("unknown member of the rounding policy: " + b)
        if k in ("conv",):
            v = a[1]
            v = deref(st, v) if isinstance(v, tuple) else v
            if isinstance(v, int):
                v = const(v)
            if isinstance(v, tuple):
                raise Unsupported("conversion of %r" % (v,))
            st.event("op", b, (v,), e.loc(ins))
            return [("ret", v if isinstance(v, Token) else mkround(e, ins, m, fmt, v), st)]
        args = [deref(st, x) for x in a[1:]]
        for x in args:
            if isinstance(x, TopVal):
                raise Unsupported("opaque %s called with %r" % (b, x))
        if any(isinstance(x, Token) or badnum(x) for x in args):
            st.event("opdom", b, "called with the bounds of an empty interval or a NaN", e.loc(ins))
            return [("ret", NAN, st)]
        st.event("op", b, tuple(args), e.loc(ins))
        if k == "add":
            v = e.fadd(st, *args)
        elif k == "sub":
            v = e.fadd(st, args[0], e.fneg(args[1]))
        elif k == "mul":
            v = e.fmul(st, *args)
        elif k == "div":
            y = args[1]
            s = st.facts.sign(y)
            if "0" in s:
                if len(s) > 1:
                    raise engine.NeedSign(y)
                st.event("opdom", b, "divisor may be zero", e.loc(ins))
                return [("ret", NAN, st)]
            v = e.fdiv(st, *args)
        elif k in OP1 or k in ("sqrt", "int"):
            x = args[0]
            if x in (PINF, NINF):
                v = LIMITS.get(k, (None, None))[1 if x is PINF else 0]
                if v is None:
                    st.event("opdom", b, "infinite argument outside the domain", e.loc(ins))
                    v = NAN
            else:
                if k in DOM:
                    lo, ls, hi, hs = DOM[k]
                    F = st.facts
                    if (lo is not None and not F.le(const(lo), x, ls)) or \
                       (hi is not None and not F.le(x, const(hi), hs)):
                        st.event("opdom", b, "argument %s may lie outside the domain" % show(x), e.loc(ins))
                if k == "int":
                    return [("ret", fn("floor" if m == "D" else "ceil", (x,), fmt), st)]
                v = e.pole(st, k, x)
                if v is None:
                    v = fn(k, (x,))
        else:
            raise Unsupported("unknown member of the rounding policy: " + b)
        if v is NAN:
            st.event("opdom", b, "invalid operands %s" % ", ".join(show(x) for x in args), e.loc(ins))
        return [("ret", mkround(e, ins, m, fmt, v), st)]

    def mkround(e, ins, m, fmt, v):
        e.stats["rounded_ops"] += 1
        r = rnd(m, fmt, v)
        if ins is not None and isinstance(r, T.Poly) and r is not v:
            for at in T.atoms_of(r):
                if at.kind == "rnd" and at not in e.rnd_loc:
                    e.rnd_loc[at] = e.loc(ins)
        return r

    E.throwing = False       # may the members of the opaque policies throw?

    def thrown(st):
        s2 = st.fork()
        s2.exc = ("_ZTI9AnyThrown", s2.new("exc"))
        return ("throw", s2.exc[0], s2)

    def maythrow(h, members=None):
        def g(e, st, a, ins, f):
            if not e.throwing:
                return h(e, st, a, ins, f)
            q, b = llvmir.base_name(f.pretty)
            cls = q.split("::")[0]
            if b in (cls, "~" + cls) or (members and b not in members):
                return h(e, st, a, ins, f)
            if callable(e.throwing) and not e.throwing(b):
                return h(e, st, a, ins, f)
            x = thrown(st)
            return [x] + h(e, st, a, ins, f)
        return g
    E.qhooks.insert(0, (lambda b, q, dem: q.startswith("ORnd::") or q.startswith("ORndU::"), maythrow(rnd_call)))

    def chk_call(e, st, a, ins, f):
        q, b = llvmir.base_name(f.pretty)
        R = lambda v: [("ret", v, st)]
        st.event("chk", b, e.loc(ins))
        if b == "pos_inf":
            return R(PINF)
        if b == "neg_inf":
            return R(NINF)
        if b == "nan":
            return R(NAN)
        if b == "empty_lower":
            return R(EMPTY_L2 if q.startswith("OChk2::") else EMPTY_L)
        if b == "empty_upper":
            return R(EMPTY_U2 if q.startswith("OChk2::") else EMPTY_U)
        if b == "is_nan":
            v = deref(st, a[0])
            if isinstance(v, Token):
                s2 = st.fork()
                return [("ret", 1, st), ("ret", 0, s2)]
            return R(int(badnum(v)))
        if b == "is_empty":
            x, y = deref(st, a[0]), deref(st, a[1])
            own = (EMPTY_L2, EMPTY_U2) if q.startswith("OChk2::") else (EMPTY_L, EMPTY_U)
            if any(isinstance(v, Token) and v in (EMPTY_L, EMPTY_U, EMPTY_L2, EMPTY_U2) and v not in own for v in (x, y)):
                # the empty pair of another policy: the contract says nothing about it
                return [("ret", 1, st), ("ret", 0, st.fork())]
            if (x, y) == own or x is NAN or y is NAN:
                return R(1)
            if isinstance(x, Token) or isinstance(y, Token):
                # not the pair that the policy supplies for an empty interval
                return [("ret", 1, st), ("ret", 0, st.fork())]
            if badnum(x) or badnum(y):
                # whether the policy's NaN counts as a bound of an empty interval is for the policy to say
                return [("ret", 1, st), ("ret", 0, st.fork())]
            return [("ret", v, s) for v, s in e.compare(st, x, y, ">")]
        raise Unsupported("unknown member of the checking policy: " + b)
    E.qhooks.insert(0, (lambda b, q, dem: q.startswith("OChk::") or q.startswith("OChk2::"), maythrow(chk_call)))
    E.deref = deref


def make_engine(path, cfg, **kw):
    E = Engine(load_module(path), **kw)
    E.cfg = cfg
    E.fmt = cfg.fmt
    opaque_hooks(E, cfg.fmt)
    return E


def getout(st, ptr, i, fmt):
    c = st.mem[ptr[1]].get(i * FMTSZ[fmt])
    if c is None:
        return TopVal("result never written")
    return c[1]


def getbool(st, ptr, off=0):
    c = st.mem[ptr[1]].get(off)
    return None if c is None else c[1]


def isempty(l, u):
    return l is NAN or u is NAN or isinstance(l, Token) or isinstance(u, Token)


# ------------------------------------------------------------------ proving with case splits
def prove_cases(F, goals, splits, leaf=None):
    """every case of splitting the facts on the signs of `splits` must prove all goals.
    goals: list of (a, b, strict): a<=b.  Returns None or the failing goal."""
    if F.dead:
        return None
    bad = None
    for g in goals:
        if not F.le(g[0], g[1], g[2] if len(g) > 2 else False):
            bad = g
            break
    if bad is None:
        return None
    if not splits:
        return bad
    s = splits[0]
    sg = F.sign(s) if not is_special(s) else "+"
    if len(sg) <= 1:
        return prove_cases(F, goals, splits[1:], leaf)
    for c in sg:
        G = F.copy()
        if c == "-":
            G.add_ge(pneg(s), True)
        elif c == "0":
            G.add_eq(s)
        else:
            G.add_ge(s, True)
        if G.dead:
            continue
        b = prove_cases(G, goals, splits[1:], leaf)
        if b is not None:
            return b
    return None


def eq_under(F, a, b):
    """a and b denote the same number under the facts"""
    if a is b:
        return True
    if is_special(a) or is_special(b):
        return False
    return F.le(a, b) and F.le(b, a)


def where(E, v, st, k=6):
    """source constructs responsible for value v in state st"""
    out = []
    if isinstance(v, T.Poly):
        for at in sorted((a for a in T.atoms_of(v) if a in E.rnd_loc), key=lambda a: -a.id):
            l = E.rnd_loc[at]
            if l not in out:
                out.append(l)
    return out[:k]


def pathdesc(E, st, n=8):
    out = []
    for ins, c in st.path(60):
        l = E.loc(ins)
        if l.startswith("include/boost/numeric"):
            s = "%s is %s" % (l.replace("include/boost/numeric/", ""), "true" if c else "false")
            if not out or out[-1] != s:
                out.append(s)
    return out[-n:]


def describe(E, st, what, vals=()):
    s = what
    ws = []
    for v in vals:
        for w in where(E, v, st):
            if w not in ws:
                ws.append(w)
    if ws:
        s += "; computed at " + ", ".join(ws)
    pd = pathdesc(E, st)
    if pd:
        s += "; branches taken: " + "; ".join(pd)
    return s


# ------------------------------------------------------------------ main driver
def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("status") == "known":
                    out.append(d)
    return out


def finish(prop, tier, level, res, t0, rule, trusted, extra=None):
    """evidence, report, exit code"""
    known = [k for k in load_known() if k["property"] == prop]
    new, old = [], []
    for key, msg in res.fails:
        hit = None
        for k in known:
            if key in k["keys"]:
                hit = k
                break
        (old if hit else new).append((key, msg, hit))
    cov = {
        "explanation": rule,
        "rule": rule,
        "obligations": res.ob,
        "discharged": res.ok,
        "checker_cmd": "python3 sa/check.py %s --tier %s" % (prop, tier),
        "trusted_base": trusted,
        "functions_analysed": len(res.fns),
        "functions": sorted({llvmir.base_name(llvmir.demangle(f))[0] for f in res.fns})[:120],
        "abstract_paths": res.paths,
        "ir_instructions_interpreted": res.insts,
        "call_sites_entered": res.calls,
        "samples": res.samples[:12],
        "known_findings_seen": sorted({k["id"] for _, _, k in old}),
    }
    if extra:
        cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    rep = os.path.join(d, prop + ".violations.txt")
    if os.path.exists(rep):
        os.remove(rep)
    for kid in sorted({k["id"] for _, _, k in old}):
        k = [k for k in known if k["id"] == kid][0]
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if new:
        with open(rep, "w") as f:
            f.write("property %s: %d violation(s)\nrule: %s\n\n" % (prop, len(new), rule))
            for key, msg, _ in new:
                f.write("[%s]\n  %s\n" % (key, msg))
        for key, msg, _ in new[:5]:
            print("  %s: %s" % (key, msg))
        if len(new) > 5:
            print("  ... %d more in %s" % (len(new) - 5, rep))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    bad = getattr(res, "bad", [])
    if bad:
        for k, m in bad[:5]:
            print("ANALYSIS INCOMPLETE (%s): %s" % (k, m if len(m) < 700 else m[:200] + " ... " + m[-500:]), file=sys.stderr)
        return 2
    if res.ob == 0:
        print("ANALYSIS INCOMPLETE: no obligation was generated", file=sys.stderr)
        return 2
    print("%s holds: %d obligations discharged over %d functions (%d paths) in %.1fs" %
          (prop, res.ok, len(res.fns), res.paths, time.time() - t0))
    return 0
