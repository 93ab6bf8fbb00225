"""C13, C14: the rounding policy classes, member by member, in a symbolic processor mode."""
from lib import *
import ops

TR = ops.TR
ARITH = "boost::numeric::interval_lib::rounded_arith_%s<T>"
IL = "boost::numeric::interval_lib::"
# name -> (class, processor mode the members rely on and must leave, kind)
CLASSES = {}
for _k, _m in (("exact", "E"), ("std", "E"), ("opp", "U")):
    _a = IL + "rounded_arith_%s<T> " % _k
    _t = IL + "rounded_transc_%s<T, %s > " % (_k, _a)
    CLASSES["save_" + _k] = (IL + "save_state<%s >" % _a, _m, _k, False)
    CLASSES["transc_" + _k] = (IL + "save_state<%s >" % _t, _m, _k, True)
    CLASSES["transcdef_" + _k] = (IL + "save_state<" + IL + "rounded_transc_%s<T> >" % _k, _m, _k, True)
    CLASSES["nothing_" + _k] = (IL + "save_state_nothing<%s >" % _t, _m, _k, True)
CLASSES["math"] = (IL + "rounded_math<T>", "U", "opp", False)
DIR = {"down": "D", "up": "U"}
ELEM = ops.TRANSC
NUM = {"d": "double", "f": "float", "l": "long double"}


def setup(path, cn):
    cfg = CFG[cn]
    return cfg, make_engine(path, cfg), State()


def operand(F, name, cell, fmt):
    if cell in ("ninf", "pinf"):
        return NINF if cell == "ninf" else PINF
    if isinstance(cell, tuple):           # elementary functions: open range
        v = T.sym(name, fmt)
        if cell[0] is not None:
            F.add_ge(padd(v, const(-cell[0])), True)
        if cell[1] is not None:
            F.add_ge(padd(const(cell[1]), v, -1), True)
        return v
    v = Scalar(F, name, cell, fmt)
    if cell == "any" and fmt in ops.IRANGE:
        F.add_ge(padd(v.lo, const(-ops.IRANGE[fmt][0])))
        F.add_ge(padd(const(ops.IRANGE[fmt][1]), v.lo, -1))
    return v.lo


def want(op, xs, fmt, plain):
    """acceptable results; plain: the mode in which an exact class computes"""
    n, _, d = op.rpartition("_")
    if op == "median":
        s, m = padd(xs[0], xs[1]), plain or "N"
        return [rnd(m, fmt, pdiv(rnd(m, fmt, s), const(2))), rnd(m, fmt, pdiv(s, const(2)))]
    if op[:4] == "conv":
        return [rnd(plain or {"d": "D", "u": "U"}[op[4]], fmt, xs[0])]
    m = DIR[d]
    if n == "int":
        return [fn("floor" if m == "D" else "ceil", (xs[0],), fmt)]
    e = {"add": lambda x, y: padd(x, y), "sub": lambda x, y: padd(x, y, -1), "mul": pmul, "div": pdiv}.get(n) or (lambda x: fn(n, (x,)))
    r = plain or m
    ok = [rnd(r, fmt, e(*xs))]
    if n in ("asinh", "acosh", "atanh"):     # increasing; only the double version may be declared: argument and result go through double
        ok.append(rnd(r, fmt, rnd(r, "f64", e(rnd(r, "f64", xs[0])))))
        if n == "atanh" and fmt == "f80":    # the argument may round to the pole
            ok += [w for w, k in ((NINF, "D"), (PINF, "U")) if r in (k, "E")]
    return ok


def member(path, cn, cls, pre, op, cells, sfmt=None):
    """one member function"""
    _c, mode, kind, _t = CLASSES[cls]
    cfg, E, st = setup(path, cn)
    R = Result()
    F = st.F()
    base = "%s %s %s%s %s" % (cls, cn[-1], pre, op, ",".join(map(str, cells)))
    xs = [operand(F, nm, c, sfmt or cfg.fmt) for nm, c in zip("xy", cells)]
    if F.dead:
        return R
    args = list(xs)
    if pre in ("p_", "u_"):
        args = [st.new("obj")] + args
        st.mode = mode
    live = 0
    for k, v, s in E.run(pre + op, args, st):
        if s.facts.dead:
            continue
        live += 1
        R.paths += 1
        if not R.check(k == "ret", base + " exit", lambda: describe(E, s, "%s: no result (%s %s)" % (base, k, v))):
            continue
        G = s.facts
        ok = want(op, xs, cfg.fmt, "E" if kind == "exact" else None)
        R.check(any(v is w or not isinstance(v, TopVal) and eq_under(G, v, w) for w in ok), base + " value", lambda: describe(
            E, s, "%s: gives %s instead of %s" % (base, show(v), show(ok[0])), [v]))
        bad = [e for e in s.events() if e[0] == "badmode"]
        after = "E" if pre not in ("p_", "u_") else mode if kind != "std" else None
        R.check(not bad and (after is None or E.inmode(s, after)), base + " mode", lambda: describe(
            E, s, "%s: leaves the processor in mode %s instead of %s%s" % (base, s.mode, after, "; %r" % bad if bad else "")))
    R.absorb(E)
    R.check(live > 0, base + " live", base + ": no path")
    R.samples.append("%s: %d paths" % (base, live))
    return R




def mode_only(path, cn, cls, fname, entry, after):
    cfg, E, st = setup(path, cn)
    R = Result()
    base = "%s %s %s in mode %s" % (cls, cn[-1], fname, entry)
    st.mode = entry
    n = 0
    args = {"life": 2, "idle": 1, "ctor": 1}[fname]
    for k, v, s in E.run(fname, [st.new("o%d" % i) for i in range(args)], st):
        if s.facts.dead:
            continue
        n += 1
        R.paths += 1
        R.check(k == "ret" and E.inmode(s, after), base, lambda: describe(E, s, "%s: leaves mode %s instead of %s" % (base, s.mode, after)))
    R.absorb(E)
    R.check(n > 0, base + " live", base + ": no path")
    R.samples.append("%s: leaves %s" % (base, after))
    return R


PM = ["-", "0", "+"]
DOM = {"log": [(0, 1), (0, None)], "acosh": [(1, None)], "asin": [(-1, 1)], "acos": [(-1, 1)], "atanh": [(-1, 1)], "sqrt": ["0", "+"]}
SRC = {"i32": "i32", "u32": "u32", "i64": "i64", "u64": "u64", "f32": "f32", "f64": "f64", "f80": "f80"}


def jobs(classes, fmts):
    j = {}
    for c in classes:
        for f in fmts:
            x = ["-DCLS=" + CLASSES[c][0]] + (["-DTRANSC"] if CLASSES[c][3] else [])
            j[(c, f)] = ("round.cpp", "opq/" + f, tuple(x))
    bc = compile_all(list(j.values()))
    return {k: bc[v] for k, v in j.items()}


def pres(c):
    return ("p_", "u_") if c.startswith("nothing") else ("p_", "u_", "l_")


def C13(tier):
    cl = ["save_exact", "save_std", "save_opp", "math", "nothing_opp"] + (["nothing_exact", "nothing_std", "transc_opp", "transcdef_opp"] if tier == "thorough" else [])
    t = []
    for (c, f), p in jobs(cl, "dfl").items():
        cn = "opq/" + f
        for pre in pres(c):
            for op in ("add", "sub", "mul", "div"):
                for d in ("_down", "_up"):
                    for x in PM:
                        for y in PM:
                            if op != "div" or y != "0":
                                t.append((member, (cn, c, pre, op + d, (x, y)), p))
            t.append((member, (cn, c, pre, "median", ("any", "any")), p))
            for op in ("sqrt", "int"):
                for d in ("_down", "_up"):
                    for x in DOM.get(op, PM):
                        t.append((member, (cn, c, pre, op + d, (x,)), p))
            if pre != "l_":
                for n in SRC:
                    for d in ("convd_", "convu_"):
                        t.append((member, (cn, c, pre, d + n, ("any",), n), p))
        t += modes(cn, c, p)
    return t, ("Each member function of each arithmetic rounding class is interpreted in the processor mode the class relies on (after init, or, for "
               "a local protected object, from an arbitrary mode); its result must be the directed rounding of the exact result as a term, and the mode "
               "on exit the one the class requires (the mode at entry, once a protecting object is destroyed)."), TR + [
                   "fesetround/fegetround set and report the mode; conversions and arithmetic instructions round in the current mode"]


def modes(cn, c, p):
    if c.startswith("nothing"):
        return [(mode_only, (cn, c, "idle", "E", "E"), p)]
    m = CLASSES[c][1]
    return [(mode_only, (cn, c, "life", "E", "E"), p), (mode_only, (cn, c, "life", "D", "D"), p), (mode_only, (cn, c, "idle", "E", "E"), p),
            (mode_only, (cn, c, "idle", "U", "U"), p), (mode_only, (cn, c, "ctor", "E", m), p)]


def C14(tier):
    cl = ["transc_exact", "transc_std", "transc_opp", "nothing_opp", "transcdef_opp"] + (["transcdef_std", "transcdef_exact", "nothing_std", "nothing_exact"] if tier == "thorough" else [])
    t = []
    for (c, f), p in jobs(cl, "dfl").items():
        cn = "opq/" + f
        for pre in pres(c):
            for op in ELEM:
                for d in ("_down", "_up"):
                    for x in DOM.get(op, ["any"]):
                        t.append((member, (cn, c, pre, op + d, (x,)), p))
        t += modes(cn, c, p)
    return t, ("Each elementary function of each rounding class is interpreted in the mode the class relies on; the value must be the library "
               "function's result evaluated in the stated direction (odd symmetry allowed), unmodified, and the mode on exit the one the class requires."), TR + [
                   "the C library's function rounds in the current mode (C42)", "asin, atan, sin, tan, sinh, tanh, asinh, atanh are odd"]
