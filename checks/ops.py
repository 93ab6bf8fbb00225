"""Properties quantified over every public operation: C15 mode restored, C16 rounding objects, C17 domains,
C33 empty propagation, C35 provenance of infinities and empty intervals."""
from lib import *
import root

TR = ["clang 18 lowering of the templates to LLVM IR (-O0)", "sa/engine.py abstract semantics of IR"]

# ------------------------------------------------------------------ the operations
# (source, entry, operand signature, number of results); X Y interval, s scalar, n int, = l u alias of the first
OPS = []
for _op in ("add", "sub", "mul", "div"):
    for _n, _s in (("ii", "XY"), ("si", "sY"), ("is", "Xs"), ("cii", "XY"), ("cis", "Xs"), ("xx", "X="), ("cxx", "X="),
                   ("cxl", "Xl"), ("cxu", "Xu"), ("ss", "ss"), ("ni", "nY"), ("in", "Xn")):
        OPS.append(("arith.cpp", _op + "_" + _n, _s, 2))
OPS += [("arith.cpp", "neg_i", "X", 2), ("arith.cpp", "pos_i", "X", 2), ("arith.cpp", "inv_i", "X", 2),
        ("arith.cpp", "part1_ii", "XY", "2b"), ("arith.cpp", "parts_ii", "XY", "22b"),
        ("arith.cpp", "square_i", "X", 2), ("arith.cpp", "sqrt_i", "X", 2),
        ("arith.cpp", "fmod_ii", "XY", 2), ("arith.cpp", "fmod_is", "Xs", 2), ("arith.cpp", "fmod_si", "sY", 2)]
OPS += [("arith.cpp", "pow_in:%d" % n, "X", 2) for n in (-4, -3, -1, 0, 1, 2, 3, 6)]
OPS += [("arith.cpp", "root_in:%d" % n, "X", 2) for n in (1, 2, 3)]
TRANSC = ["exp", "log", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "asin", "acos", "atan", "sin", "cos", "tan"]
OPS += [("transc.cpp", "t_" + n, "X", 2) for n in TRANSC]
UTIL = [("util.cpp", "width_i", "X", 1), ("util.cpp", "median_i", "X", 1), ("util.cpp", "widen_is", "Xs", 2), ("util.cpp", "bisect_i", "X", 4)]
SETS = [("order.cpp", "intersect_ii", "XY", 2), ("order.cpp", "abs_i", "X", 2), ("order.cpp", "norm_i", "X", 1)]
for _n in ("hull", "min", "max"):
    SETS += [("order.cpp", _n + "_ii", "XY", 2), ("order.cpp", _n + "_is", "Xs", 2), ("order.cpp", _n + "_si", "sY", 2)]
RELS = [("order.cpp", "%s_%s_%s" % (ns, op, v), "XY" if v == "ii" else "Xs", 0) for ns in ("def", "cer", "pos", "lex", "set", "tri")
        for op in ("lt", "le", "gt", "ge", "eq", "ne") for v in ("ii", "is")]
RELS += [("order.cpp", "exp_%s%s_%s" % (ns, op, v), {"ii": "XY", "is": "Xs", "si": "sY"}[v], 0) for ns in ("cer", "pos")
         for op in ("lt", "le", "gt", "ge", "eq", "ne") for v in ("ii", "is", "si")]
RELS += [("order.cpp", n + "_ii", "XY", 0) for n in ("subset", "proper_subset", "overlap", "equal")]
RELS += [("order.cpp", n, s, 0) for n, s in (("in_si", "sY"), ("zeroin_i", "X"), ("singleton_i", "X"), ("empty_i", "X"))]
CTOR = [("order.cpp", "ctor_s", "s", 2), ("order.cpp", "ctor_ss", "ss", 2), ("order.cpp", "ctor_copy", "X", 2), ("order.cpp", "set_s", "Xs", 2),
        ("order.cpp", "set_i", "XY", 2), ("order.cpp", "assign_ss", "Xss", 2), ("order.cpp", "hull_ss", "ss", 2), ("order.cpp", "empty_", "", 2), ("order.cpp", "whole_", "", 2),
        ("order.cpp", "ctor_def", "", 2)]
CONV = []
for _n in ("f32", "f64", "f80"):
    CONV += [("conv.cpp", "conv_%s_s" % _n, _n, 2), ("conv.cpp", "conv_%s_a" % _n, "X" + _n, 2), ("conv.cpp", "conv_%s_ss" % _n, _n + _n, 2),
             ("conv.cpp", "conv_%s_i" % _n, "I" + _n, 2), ("conv.cpp", "conv_%s_ai" % _n, "XI" + _n, 2)]
for _n in ("i32", "u32", "i64", "u64"):
    CONV += [("conv.cpp", "conv_%s_s" % _n, _n, 2), ("conv.cpp", "conv_%s_ss" % _n, _n + _n, 2)]

FREE = [("any", "any"), ("ninf", "any"), ("any", "pinf"), ("ninf", "pinf")]
IRANGE = {"i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}


def toks(sig):
    out, i = [], 0
    while i < len(sig):
        if sig[i:i + 1] == "I" or sig[i] in "XYsn=lu" and sig[i:i + 3] not in IRANGE:
            if sig[i] == "I":
                out.append(sig[i:i + 4])
                i += 4
            else:
                out.append(sig[i])
                i += 1
        else:
            out.append(sig[i:i + 3])
            i += 3
    return out


def domain_of(tok, kinds):
    """cells of one operand"""
    iv, sc, n = kinds
    if tok in "XY":
        return iv
    if tok == "s":
        return sc
    if tok == "n":
        return n
    if tok in "=lu":
        return ["alias"]
    if tok[0] == "I":
        return ["any", "empty"]
    return ["any"]


def operand(F, i, tok, cell, fmt, prev, nan=NAN):
    nm = "xyz"[i]
    if tok in "XY":
        if cell == "empty":
            return Empty(nm)
        return Operand(F, nm, cell, fmt, ghost=False)
    if tok == "s":
        if cell in ("nan", "ninf", "pinf"):
            o = Empty(nm)
            v = {"nan": nan, "ninf": NINF, "pinf": PINF}[cell]
            o.lo = o.hi = v
            o.args, o.cell = [v], cell
            return o
        return Scalar(F, nm, cell, fmt)
    if tok == "n":
        o = Scalar(F, nm, cell, "i32")
        if cell == "0":
            o.args = [0]
        if o.p is not ZERO:
            F.add_ge(padd(const(2**31 - 1), o.p, -1))
            F.add_ge(padd(o.p, const(2**31)))
        return o
    if tok in "=lu":
        o = Empty(nm)
        o.cell, o.args = "alias", []
        o.lo, o.hi = (prev.lo, prev.hi) if tok == "=" else (prev.lo, prev.lo) if tok == "l" else (prev.hi, prev.hi)
        return o
    if tok[0] == "I":
        if cell == "empty":
            o = Empty(nm)
            return o
        o = Operand(F, nm, ("any", "any"), tok[1:], ghost=False)
        return o
    o = Scalar(F, nm, "any", tok)
    if tok in IRANGE:
        F.add_ge(padd(o.p, const(-IRANGE[tok][0])))
        F.add_ge(padd(const(IRANGE[tok][1]), o.p, -1))
    return o


class Done:
    """outcomes of one abstract run of an operation"""


def go(path, cn, src, fname, sig, nout, cells, setup=None, worst_mode=False):
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    st = State()
    F = st.F()
    D = Done()
    D.ops, args = [], []
    for i, (t, c) in enumerate(zip(toks(sig), cells)):
        o = operand(F, i, t, c, cfg.fmt, D.ops[0] if D.ops else None, nanarg(cfg, cfg.fmt))
        D.ops.append(o)
        args += o.args
    D.dead = F.dead
    D.E = E
    D.R = Result()
    D.base = "%s %s %s" % (cn, fname, ",".join(cellname(c) for c in cells))
    if F.dead:
        return D
    entry, _, k = fname.partition(":")
    if k:
        args.append(int(k) & 0xffffffff)
    D.outs = []
    for ch in str(nout):
        if ch == "b":
            D.outs.append(("b", st.new("b")))
        elif ch != "0":
            D.outs.append((int(ch), st.new("out")))
    args += [p for _n, p in D.outs]
    cut(E, cfg, worst_mode)
    if setup:
        setup(E)
    if entry.startswith("root"):
        D.res = run_root(E, cfg, D, entry, args, st, int(k), worst_mode, cells, sig, setup)
    else:
        D.res = E.run(entry, args, st)
    D.R.absorb(D.E)
    return D


def cut(E, cfg, worst_mode):
    """the recursion of cos: the inner call may return any interval of its type (or leave by an exception)"""
    sz = FMTSZ[cfg.fmt]
    cnt = [0]

    def cos_hook(e, s, a, ins, f):
        if sum(g.name == f.name for g, _ in e.stack) < (1 if len(root.split_params(f.pretty)) == 1 else 4):
            return None
        unprot(e, s, f, ins)
        cnt[0] += 1
        cl, cu = T.sym("cl%d" % cnt[0]), T.sym("cu%d" % cnt[0])
        G = s.F()
        G.add_ge(padd(cu, cl, -1))
        c = s.cells(a[0][1], True)
        for i, v in enumerate((cl, cu)):
            c[a[0][2] + i * sz] = (sz if cfg.fmt != "f80" else 10, v)
        if worst_mode:
            s.mode = "?"
            s.user.pop("unk", None)
        out = [("ret", None, s)]
        return out
    E.qhooks.insert(0, (lambda b, q, dem: q.startswith("boost::numeric::") and "interval<" in dem and
                        not any(x in q for x in ("interval<", "interval::")), lambda e, s, a, ins, f: cos_hook(e, s, a, ins, f)
                        if len(a) >= 2 and isinstance(a[0], tuple) and a[0][0] == "p" else None))


def unprot(e, s, f, ins):
    """an operation on the unprotected type may only run while a rounding object is alive"""
    if "ORndU" in f.pretty and "ORnd<" not in f.pretty and not s.user.get("live", ()):
        s.event("protocol", "operation on the unprotected interval type with no rounding object alive", e.loc(ins))


def run_root(E, cfg, D, entry, args, st, k, worst_mode, cells, sig, setup):
    """nth_root: the iteration is abstracted by the invariant C08 establishes"""
    modified = {}
    for _ in range(40):
        E = make_engine(E.m.path, cfg)
        cut(E, cfg, worst_mode)
        if setup:
            setup(E)
        dummy = Result()
        N = root.Newton(E, dummy, D.base, cfg.fmt, k, modified)
        for i, (pred, h) in enumerate(list(E.qhooks)):
            if h in (N.binop, N.pow, N.compound):
                def g(e, s, a, ins, f, h=h):
                    unprot(e, s, f, ins)
                    own = [(a[0], "boost::numeric::interval<")] if h == N.compound else []
                    for p, t in own + list(zip(a[1:], root.split_params(f.pretty))):
                        if root.is_iv(t):
                            c = s.mem[p[1]]
                            lo, hi = c[p[2]][1], c[p[2] + N.sz][1]
                            if isempty(lo, hi):
                                s.event("opdom", llvmir.base_name(f.pretty)[1], "operand of an inner operation is empty", e.loc(ins))
                    if worst_mode:
                        s.mode = "?"
                        s.user.pop("unk", None)
                    return h(e, s, a, ins, f)
                E.qhooks[i] = (pred, g)
        D.E = E
        st2 = st.fork()
        try:
            return E.run(entry, args, st2)
        except root.Restart:
            continue
    raise Unsupported("the loop-carried variables of the iteration do not stabilise")


def results(D, s, i):
    n, p = D.outs[i]
    if n == "b":
        return [getbool(s, p)]
    return [getout(s, p, j, D.E.fmt) for j in range(n)]


def combos(sig, kinds):
    import itertools
    return list(itertools.product(*[domain_of(t, kinds) for t in toks(sig)]))


# ------------------------------------------------------------------ C15
def c15(path, cn, src, fname, sig, nout, cells):
    D = go(path, cn, src, fname, sig, nout, cells, worst_mode=True)
    if D.dead:
        return D.R
    exits = 0
    for kind, v, s in D.res:
        if s.facts.dead or kind == "stop":
            continue
        exits += 1
        D.R.paths += 1
        bad = [e for e in s.events() if e[0] == "badmode"]
        last = [e for e in s.events() if e[0] == "mode"]
        D.R.check(D.E.inmode(s, "E") and not bad, D.base + " mode", lambda: describe(
            D.E, s, "%s: on an exit by %s the rounding mode is %s instead of the mode at entry%s%s" % (
                D.base, {"ret": "return", "throw": "exception"}[kind], MODE.get(s.mode, s.mode),
                "; last changed at " + last[-1][2] if last else "", "; " + repr(bad) if bad else "")))
        if kind == "throw" and len(D.R.samples) < 1:
            D.R.samples.append("%s: exceptional exit %s with the entry mode" % (D.base, v))
    if not D.R.samples:
        D.R.samples.append("%s: %d exits, mode at entry on each" % (D.base, exits))
    return D.R


MODE = {"D": "downward", "U": "upward", "N": "to nearest", "Z": "toward zero", "?": "unknown"}


def plan(cfgs, kinds, func, ops, only=None):
    def use(c, src, fname):
        if src == "transc.cpp" and c[:3] in ("def", "raw") or src != "transc.cpp" and c[:3] == "tra":
            return False
        return not only or only(c, src, fname)
    bc = compile_all([(o[0], c, ()) for c in cfgs for o in ops if use(c, o[0], o[1])])
    t = []
    for c in cfgs:
        for src, fname, sig, nout in ops:
            if not use(c, src, fname):
                continue
            for cells in combos(sig, kinds):
                if sig[1:2] in ("l", "u") and len(cells) == 2 and cells[0][0 if sig[1] == "l" else 1] in ("ninf", "pinf") and cells[0] != "empty":
                    continue
                if func is not c15 and cells[:1] == ("empty",) and sig[1:2] in "lu" and len(sig) == 2:
                    continue
                t.append((func, (c, src, fname, sig, nout, cells), bc[(src, c, ())]))
    t.sort(key=lambda k: k[1][2][:4] not in ("root", "t_co", "t_si"))     # the long ones first
    return t


def C15(tier):
    kinds = (FREE + ["empty"], ["any", "nan"], ["any"])
    cs = ["def/d", "transc/d", "strict/d"] + (["def/f", "def/l", "std/d", "std/f", "transc/f", "transc/l", "strict/f"] if tier == "thorough" else [])
    ops = OPS + UTIL + SETS + CTOR + CONV + (RELS if tier == "thorough" else RELS[::3])
    t = plan(cs, kinds, c15, ops)
    return t, ("Typestate of the processor rounding mode: entering in an arbitrary symbolic mode, every public operation is interpreted over "
               "all paths for unconstrained operands (finite, unbounded, empty, NaN); at every normal and exceptional exit the mode must be the "
               "symbolic entry mode again."), TR + ["fesetround/fegetround set and report the mode", "inner recursive calls of cos and the inner interval "
               "operations of the nth-root iteration are assumed to leave any mode whatever"]


# ------------------------------------------------------------------ C16
def c16(path, cn, src, fname, sig, nout, cells):
    def setup(E):
        E.throwing = True
    D = go(path, cn, src, fname, sig, nout, cells, setup)
    if D.dead:
        return D.R
    n = th = 0
    for kind, v, s in D.res:
        if s.facts.dead:
            continue
        if kind == "stop":
            D.R.check(v != "terminate", D.base + " exception", lambda: describe(
                D.E, s, "%s: an exception thrown by a policy ends the program instead of reaching the caller" % D.base))
            continue
        D.R.paths += 1
        ev = s.events()
        pr = [e for e in ev if e[0] == "protocol"]
        n += sum(1 for e in ev if e[0] == "op")
        th += kind == "throw"
        D.R.check(not pr, D.base + " protocol", lambda: describe(D.E, s, "%s: %s at %s" % (D.base, pr[0][1], pr[0][2])))
        left = s.user.get("live", ())
        D.R.check(not left, D.base + " released", lambda: describe(
            D.E, s, "%s: on an exit by %s %d rounding object(s) are not destroyed" % (D.base, kind, len(left))))
    if n or th:
        D.R.samples.append("%s: %d rounded operations under a live object, %d exceptional exits" % (D.base, n, th))
    return D.R


def C16(tier):
    kinds = (FREE + ["empty"], ["any", "nan"], ["any"])
    cs = ["opq/d"] + (["opq/f", "opq/l"] if tier == "thorough" else [])
    ops = OPS + UTIL + SETS + CTOR + CONV + (RELS if tier == "thorough" else RELS[::3])
    return plan(cs, kinds, c16, ops), (
        "Typestate of opaque rounding-policy objects: on every path of every public operation, with each member of the opaque policies "
        "also allowed to throw, each rounded operation must go through an object that is constructed and not yet destroyed (or the unprotected "
        "variant while one is), no object may be left alive at any exit, and no exception may end in std::terminate."), TR


# ------------------------------------------------------------------ C17
def c17(path, cn, src, fname, sig, nout, cells):
    D = go(path, cn, src, fname, sig, nout, cells)
    if D.dead:
        return D.R
    n = 0
    for kind, v, s in D.res:
        if s.facts.dead:
            continue
        D.R.paths += 1
        ev = s.events()
        bad = [e for e in ev if e[0] in ("opdom", "domain", "div0")]
        n += sum(1 for e in ev if e[0] == "op")
        D.R.check(not bad, D.base + " domain", lambda: describe(D.E, s, "%s: rounded operation %s outside its domain: %s" % (
            D.base, bad[0][1], " at ".join(str(x) for x in bad[0][2:]))))
    if n:
        D.R.samples.append("%s: %d rounded operations inside their domains" % (D.base, n))
    return D.R


def bounded(cells):
    return all(c == "alias" or isinstance(c, str) or (c[0] != "ninf" and c[1] != "pinf") for c in cells)


def C17(tier):
    kinds = (CELLS, SCELLS, SCELLS)
    cs = ["opq/d"] + (["opq/f"] if tier == "thorough" else [])
    t = []
    for k in plan(cs, kinds, c17, OPS + UTIL + SETS):
        cells, fname, sig = k[1][5], k[1][2], k[1][3]
        if fname[:4] == "fmod" and not (bounded(cells) and cells[1] in ("+", ("+", "+"))):
            continue
        if fname in ("t_sin", "t_cos", "t_tan", "median_i", "bisect_i", "width_i") and not bounded(cells):
            continue
        t.append(k)
    return t, ("Every rounded operation of the opaque policy carries its domain as a precondition (no NaN, no bound of an empty interval, "
               "no zero divisor, no inf-inf, 0*inf, negative radicand, argument outside the closed domain); on every path of every operation, for "
               "every sign cell of non-empty operands, infinite bounds included, each call must satisfy it."), TR


# ------------------------------------------------------------------ C33
def c33(path, cn, src, fname, sig, nout, cells):
    D = go(path, cn, src, fname, sig, nout, cells)
    if D.dead:
        return D.R
    live = 0
    for kind, v, s in D.res:
        if s.facts.dead:
            continue
        live += 1
        D.R.paths += 1
        if not D.R.check(kind == "ret", D.base + " exit", lambda: describe(D.E, s, "%s: no result (%s %s)" % (D.base, kind, v))):
            continue
        bad = [e for e in s.events() if e[0] in ("opdom", "domain")]
        D.R.check(not bad, D.base + " evaluated", lambda: describe(D.E, s, "%s: rounded operation %s is evaluated although an operand is empty or NaN, at %s" % (
            D.base, bad[0][1], bad[0][-1])))
        for i, (n, p) in enumerate(D.outs):
            r = results(D, s, i)
            if n == "b":
                continue
            if fname == "width_i":
                D.R.check(r[0] is ZERO, D.base + " zero", lambda: describe(D.E, s, "%s: width of an empty interval is %s, not 0" % (D.base, show(r[0]))))
            elif n == 1:
                D.R.check(r[0] is NAN, D.base + " nan", lambda: describe(D.E, s, "%s: result is %s, not the checking policy's nan" % (D.base, show(r[0]))))
            else:
                for j in range(0, n, 2):
                    D.R.check(isempty(r[j], r[j + 1]), D.base + " empty", lambda: describe(D.E, s, "%s: result [%s, %s] is not empty" % (
                        D.base, show(r[j]), show(r[j + 1])), [r[j], r[j + 1]]))
    D.R.check(live > 0, D.base + " live", D.base + ": no path")
    if not D.R.samples:
        D.R.samples.append(D.base + ": empty")
    return D.R


def C33(tier):
    iv = CELLS + ["empty"]
    kinds = (iv, SCELLS + ["nan"], SCELLS)
    cs = ["opq/d", "def/d"] + (["opq/f", "def/f", "def/l", "std/d"] if tier == "thorough" else [])
    t = []
    for k in plan(cs, kinds, c33, OPS + UTIL):
        cells, fname, sig = k[1][5], k[1][2], k[1][3]
        none = any(c in ("empty", "nan") for c in cells)
        zero = fname[:3] == "div" or fname in ("part1_ii", "parts_ii")
        dz = zero and len(cells) > 1 and (cells[1] in ("0", ("0", "0")) or (cells[1] == "alias" and cells[0] != "empty" and (
            (sig[1] == "=" and cells[0] == ("0", "0")) or (sig[1] in "lu" and cells[0]["lu".index(sig[1])] == "0"))))
        dz = dz or fname == "inv_i" and cells[0] == ("0", "0") or fname.startswith("pow_in:-") and cells[0] == ("0", "0")
        if (none or dz) and not (fname == "widen_is" and cells[0] != "empty"):
            t.append(k)
    return t, ("Each operation is interpreted with each operand empty (bounds that are opaque tokens of the checking policy) or NaN in turn, the "
               "other operand in every sign cell; every path must return an empty interval (0 for width, the policy's nan for median) without "
               "evaluating a rounded operation on an empty interval's bounds.  Division by exactly zero likewise."), TR


# ------------------------------------------------------------------ C35
def c35(path, cn, src, fname, sig, nout, cells):
    def setup(E):
        E.ieee = True
    D = go(path, cn, src, fname, sig, nout, cells, setup)
    if D.dead:
        return D.R
    vals = [b for o in D.ops for b in (o.lo, o.hi)]
    noinf = not any(v is PINF or v is NINF for v in vals)
    for kind, v, s in D.res:
        if s.facts.dead or kind != "ret":
            continue
        D.R.paths += 1
        ev = s.events()
        bad = [e for e in ev if e[0] == "ieee"]
        D.R.check(not bad, D.base + " ieee", lambda: describe(D.E, s, "%s: uses the IEEE constant %s in %s instead of the checking policy" % (
            D.base, bad[0][1], bad[0][2])))
        chk = {e[1] for e in ev if e[0] == "chk"}
        for i, (n, p) in enumerate(D.outs):
            r = results(D, s, i)
            if n == "b":
                continue
            if n == 1:
                D.R.check(r[0] is not NAN or "nan" in chk, D.base + " nan", lambda: describe(D.E, s, "%s: NaN not supplied by the checking policy" % D.base))
                continue
            for j in range(0, n, 2):
                l, u = r[j], r[j + 1]
                if isempty(l, u):
                    own = any(l is o.lo for o in D.ops) and any(c == "empty" for c in cells)
                    D.R.check((l is EMPTY_L and u is EMPTY_U) or own, D.base + " empty", lambda: describe(
                        D.E, s, "%s: empty result [%s, %s] is not the checking policy's (empty_lower, empty_upper)" % (D.base, show(l), show(u))))
                elif noinf:
                    for w, nm in ((PINF, "pos_inf"), (NINF, "neg_inf")):
                        if w in (l, u):
                            D.R.check(nm in chk, D.base + " " + nm, lambda: describe(
                                D.E, s, "%s: infinite bound in [%s, %s] was not supplied by %s() of the checking policy" % (D.base, show(l), show(u), nm)))
                pole = fname == "t_atanh" and l is u        # atanh of an operand that meets its domain in the pole alone
                D.R.check(pole or l is not PINF and u is not NINF, D.base + " side", lambda: describe(D.E, s, "%s: infinity on the wrong side: [%s, %s]" % (D.base, show(l), show(u))))
    D.R.ob += 1
    D.R.ok += 1
    return D.R


def C35(tier):
    kinds = (CELLS + ["empty"], SCELLS + ["nan"], SCELLS)
    cs = ["opq/d"] + (["opq/f", "opq/l"] if tier == "thorough" else [])
    t = []
    for k in plan(cs, kinds, c35, OPS + UTIL + SETS + CTOR):
        cells, fname = k[1][5], k[1][2]
        if (fname[:4] == "fmod" or fname in ("t_sin", "t_cos", "t_tan", "median_i", "bisect_i")) and not bounded(cells):
            continue
        if fname == "widen_is" and cells[1] == "nan" and cells[0] != "empty":
            continue
        t.append(k)
    return t, ("Provenance analysis with an opaque checking policy: on every path of every operation, an empty result must be the policy's pair "
               "(empty_lower, empty_upper), an infinite bound that no operand carries must follow a call of pos_inf/neg_inf of the matching sign, a NaN a call "
               "of nan, and no IEEE infinity or NaN constant may be used."), TR


# ------------------------------------------------------------------ C32
def c32(path, cn, src, fname, sig, nout, cells):
    T.SCALE2 = True
    try:
        D = go(path, cn, src, fname, sig, nout, cells)
        if D.dead:
            return D.R
        x = D.ops[0]
        live = 0
        for kind, v, s in D.res:
            if s.facts.dead:
                continue
            live += 1
            D.R.paths += 1
            if not D.R.check(kind == "ret", D.base + " exit", lambda: describe(D.E, s, "%s: no result (%s %s)" % (D.base, kind, v))):
                continue
            r = results(D, s, 0)
            F = s.facts

            def need(ok, key, what):
                D.R.check(ok, D.base + " " + key, lambda: describe(D.E, s, "%s: %s; result %s" % (D.base, what, ", ".join(map(show, r))), r))
            if cells[0] == "empty":
                if fname == "width_i":
                    need(r[0] is ZERO, "empty", "the width of an empty interval is 0")
                elif fname == "median_i":
                    need(r[0] is NAN, "empty", "the median of an empty interval is NaN")
                else:
                    need(all(isempty(r[j], r[j + 1]) for j in range(0, nout, 2)), "empty", "an empty operand gives empty results")
                continue
            if any(z is NAN or isinstance(z, (TopVal, Token)) for z in r):
                need(False, "number", "every bound is a number")
            elif fname == "width_i":
                if x.lo is NINF or x.hi is PINF:
                    need(r[0] is PINF, "width", "the width of an unbounded interval is infinite")
                else:
                    need(eq_under(F, r[0], rnd("U", fmtof(cn), padd(x.hi, x.lo, -1))), "tight", "the width is upper-lower rounded up")
                    need(le(F, padd(x.hi, x.lo, -1), r[0]), "width", "the width is at least upper-lower")
            elif fname == "widen_is":
                v = D.ops[1].lo
                need(r[0] is NINF if x.lo is NINF else le(F, r[0], padd(x.lo, v, -1)), "lower", "the lower bound is at most lower-v")
                need(r[1] is PINF if x.hi is PINF else le(F, padd(x.hi, v), r[1]), "upper", "the upper bound is at least upper+v")
            elif fname == "median_i":
                need(le(F, x.lo, r[0]) and le(F, r[0], x.hi), "median", "the median lies in the interval")
                need(nearmid(F, x, r[0], cn), "midpoint", "the median is (lower+upper)/2 rounded to nearest")
            else:
                need(eq_under(F, r[0], x.lo) and eq_under(F, r[3], x.hi), "union", "the outer bounds are those of the operand")
                need(eq_under(F, r[1], r[2]), "shared", "the two halves share a bound")
                need(le(F, x.lo, r[1]) and le(F, r[1], x.hi), "median", "the shared bound lies in the interval")
        D.R.check(live > 0, D.base + " live", D.base + ": no path")
        D.R.samples.append(D.base + ": %d paths" % live)
        return D.R
    finally:
        T.SCALE2 = False


def fmtof(cn):
    return {"d": "f64", "f": "f32", "l": "f80"}[cn[-1]]


def nearmid(F, x, r, cn):
    """(lower+upper)/2 rounded to nearest, the sum rounded or not"""
    f, s, h = fmtof(cn), padd(x.lo, x.hi), T.Fraction(1, 2)
    return any(eq_under(F, r, w) for w in (rnd("N", f, T.pscale(s, h)), rnd("N", f, T.pscale(rnd("N", f, s), h))))


def le(F, a, b):
    if a is NINF or b is PINF:
        return a is not NAN and b is not NAN
    if is_special(a) or is_special(b):
        return False
    return F.le(a, b)


def C32(tier):
    kinds = (CELLS + ["empty"], ["0", "+"], [])
    cs = ["opq/d", "def/d", "def/f", "def/l", "std/d", "raw/d"] + (["opq/f", "opq/l", "std/f", "std/l", "raw/f", "raw/l", "strict/d"] if tier == "thorough" else [])
    t = []
    for k in plan(cs, kinds, c32, UTIL):
        cells, fname, c = k[1][5], k[1][2], k[1][0]
        if fname in ("median_i", "bisect_i") and not bounded(cells):
            continue
        if c[:3] in ("raw", "str") and "empty" in cells:
            continue
        t.append(k)
    return t, ("Abstract interpretation of width, median, widen and bisect over every sign cell of the operand, with opaque rounding (documented "
               "contract) and with the real rounding classes (symbolic rounding mode); each bound is a rounding term compared with the exact value; in "
               "round-to-nearest a doubled bound is representable (no overflow)."), TR + ["the sum of the bounds does not overflow (median, bisect)"]
