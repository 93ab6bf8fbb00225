"""C18 scalar operands as point intervals, C19 compound forms: two versions interpreted one after the other from one
abstract state, their bounds compared."""
from lib import *
import ops

TR = ops.TR


def outcome(E, s, kind, v, what, p):
    """comparable outcome: ('throw', type) / ('val', v) / ('iv', [bounds])"""
    if kind != "ret":
        return (kind, v)
    if what == "i":
        return ("val", v)
    return ("iv", [getout(s, p, j, E.fmt) for j in range(what)])


def same(s, a, b):
    if a[0] != b[0]:
        return False
    if a[0] != "iv":
        return a[1] == b[1]
    if len(a[1]) == 2 and isempty(*a[1]) and isempty(*b[1]):
        return True
    return all(x is y or not isinstance(x, TopVal) and not isinstance(y, TopVal) and (x is NAN) == (y is NAN) and
               eq_under(s.facts, x, y) for x, y in zip(a[1], b[1]))


def txt(a):
    if a[0] == "iv":
        return "empty" if len(a[1]) == 2 and isempty(*a[1]) else "[" + ", ".join(show(x) for x in a[1]) + "]"
    return "%s %s" % a


def pair(path, cn, f1, b1, f2, b2, sig, what, cells, path2=None):
    """b1, b2: argument pattern over operand bounds, e.g. 'X y' = interval x, scalar y; P = the point interval of y"""
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    st = State()
    F = st.F()
    R = Result()
    opn = []
    for i, (t, c) in enumerate(zip(ops.toks(sig), cells)):
        opn.append(ops.operand(F, i, t, c, cfg.fmt, opn[0] if opn else None, nanarg(cfg, cfg.fmt)))
    base = "%s %s/%s %s" % (cn, f1, f2, ",".join(cellname(c) for c in cells))
    if F.dead:
        return R
    ops.cut(E, cfg, False)

    def args(pat):
        a = []
        for ch in pat:
            if ch in "XYZ":
                a += opn["XYZ".index(ch)].args
            elif ch in "xyz":
                a.append(opn["xyz".index(ch)].lo)
            elif ch in "PQR":
                v = opn["PQR".index(ch)].lo
                a += [0, v, v]
            elif ch in "IJK":          # the integer itself
                a += opn["IJK".index(ch)].args
            elif ch == "l":
                a.append(opn[0].lo)
            elif ch == "u":
                a.append(opn[0].hi)
        return a
    n = 0
    p1, p2 = (None, None) if what == "i" else (st.new("o1"), st.new("o2"))
    for k1, v1, s1 in E.run(f1, args(b1) + ([p1] if p1 else []), st):
        if s1.facts.dead:
            continue
        o1 = outcome(E, s1, k1, v1, what, p1)
        s1.exc = None
        for k2, v2, s2 in E.run(f2, args(b2) + ([p2] if p2 else []), s1):
            if s2.facts.dead:
                continue
            o2 = outcome(E, s2, k2, v2, what, p2)
            n += 1
            R.paths += 1
            R.check(same(s2, o1, o2), base, lambda: describe(E, s2, "%s: %s gives %s but %s gives %s" % (base, f1, txt(o1), f2, txt(o2)),
                                                           [x for o in (o1, o2) if o[0] == "iv" for x in o[1]]))
    R.absorb(E)
    R.check(n > 0, base + " live", base + ": no path reaches the end")
    R.samples.append("%s: %d pairs of paths agree" % (base, n))
    return R


def tasks(rows, cfgs, kinds, skip=None):
    bc = compile_all([(r[0], c, ()) for c in cfgs for r in rows])
    t = []
    for c in cfgs:
        for src, f1, b1, f2, b2, sig, what in rows:
            for cells in ops.combos(sig, kinds):
                if skip and skip(c, f1, cells):
                    continue
                t.append((pair, (c, f1, b1, f2, b2, sig, what, cells), bc[(src, c, ())]))
    return t


def C18(tier):
    kinds = (CELLS + ["empty"], SCELLS, SCELLS)
    rows = []
    for o in ("add", "sub", "mul", "div"):
        rows += [("arith.cpp", o + "_is", "Xy", o + "_ii", "XQ", "Xs", 2), ("arith.cpp", o + "_si", "xY", o + "_ii", "PY", "sY", 2),
                 ("arith.cpp", o + "_cis", "Xy", o + "_ii", "XQ", "Xs", 2), ("arith.cpp", o + "_ss", "xy", o + "_ii", "PQ", "ss", 2),
                 ("arith.cpp", o + "_in", "XJ", o + "_ii", "XQ", "Xn", 2), ("arith.cpp", o + "_ni", "IY", o + "_ii", "PY", "nY", 2)]
    rows += [("arith.cpp", "fmod_is", "Xy", "fmod_ii", "XQ", "Xs", 2), ("arith.cpp", "fmod_si", "xY", "fmod_ii", "PY", "sY", 2)]
    for o in ("hull", "min", "max"):
        rows += [("order.cpp", o + "_is", "Xy", o + "_ii", "XQ", "Xs", 2), ("order.cpp", o + "_si", "xY", o + "_ii", "PY", "sY", 2)]
    rows += [("order.cpp", "hull_ss", "xy", "hull_ii", "PQ", "ss", 2), ("order.cpp", "hull_fss", "xy", "hull_ii", "PQ", "ss", 2),
             ("order.cpp", "in_si", "xY", "subset_ii", "PY", "sY", "i"),
             ("order.cpp", "ctor_s", "x", "ctor_ss", "xx", "s", 2), ("order.cpp", "set_s", "Xy", "set_i", "XQ", "Xs", 2)]
    for ns in ("def", "cer", "pos", "lex", "tri"):
        for r in ("lt", "le", "gt", "ge", "eq", "ne"):
            rows.append(("order.cpp", "%s_%s_is" % (ns, r), "Xy", "%s_%s_ii" % (ns, r), "XQ", "Xs", "i"))
    for ns in ("cer", "pos"):
        for r in ("lt", "le", "gt", "ge", "eq", "ne"):
            rows.append(("order.cpp", "exp_%s%s_is" % (ns, r), "Xy", "exp_%s%s_ii" % (ns, r), "XQ", "Xs", "i"))
            rows.append(("order.cpp", "exp_%s%s_si" % (ns, r), "xY", "exp_%s%s_ii" % (ns, r), "PY", "sY", "i"))
    cs = ["opq/d", "def/d"] + (["def/l", "std/d", "opq/f", "opq/l"] if tier == "thorough" else [])

    def skip(c, f, cells):
        if f[:4] == "fmod":      # the reduction needs a bounded operand and a positive modulus
            return not (cells[0] != "empty" and ops.bounded(cells) and cells[1] in ("+", ("+", "+")) or "empty" in cells)
        if f[:4] == "exp_" and "empty" in cells:
            return True
        if f[-3:] in ("_in", "_ni") and c.endswith("/f"):
            return True
        return False
    return tasks(rows, cs, kinds, skip), (
        "Relational analysis: the scalar (integer) overload and the interval overload on the one-point interval are interpreted one "
        "after the other from one symbolic state, for every sign cell of the operands; on every pair of compatible paths the results are "
        "equal, bound for bound (both empty, same truth value, same exception)."), TR


# ------------------------------------------------------------------ C19
def retself(path, cn, fname, sig, cells):
    """the compound operator returns the interval itself"""
    D = ops.go(path, cn, "rel.cpp", fname, sig, 3, cells)
    if D.dead:
        return D.R
    for k, v, s in D.res:
        if s.facts.dead or k != "ret":
            continue
        D.R.paths += 1
        r = ops.results(D, s, 0)
        D.R.check(r[2] is ONE, D.base + " returns", lambda: describe(D.E, s, "%s: does not return the interval it was applied to" % D.base))
    return D.R


def thr(path, cn, fname, sig, cells):
    def setup(E):
        E.throwing = lambda b: b != "empty_upper" and b[:5] != "conv_"
    D = ops.go(path, cn, "rel.cpp", fname, sig, "2b", cells, setup)
    if D.dead:
        return D.R
    caught = 0
    x = D.ops[0]
    for k, v, s in D.res:
        if s.facts.dead or k != "ret":
            continue
        D.R.paths += 1
        r = ops.results(D, s, 0)
        b = ops.results(D, s, 1)[0]
        if not D.R.check(isinstance(b, int), D.base + " flag", D.base + ": undetermined outcome"):
            continue
        if not b:
            continue
        caught += 1
        ok = isempty(*r) if cells[0] == "empty" else all(p is q or eq_under(s.facts, p, q) for p, q in zip(r, (x.lo, x.hi)))
        D.R.check(ok, D.base + " kept", lambda: describe(D.E, s, "%s: an exception leaves the interval with bounds [%s, %s] instead of its previous value [%s, %s]" % (
            D.base, show(r[0]), show(r[1]), show(x.lo), show(x.hi)), r))
    D.R.samples.append("%s: %d exceptional outcomes keep the old value" % (D.base, caught))
    D.R.notes.append(caught)
    return D.R


def C19(tier):
    rows = []
    for o in ("add", "sub", "mul", "div"):
        a = "arith.cpp"
        rows += [(a, o + "_cii", "XY", o + "_ii", "XY", "XY", 2), (a, o + "_cis", "Xy", o + "_is", "Xy", "Xs", 2),
                 (a, o + "_xx", "X", o + "_ii", "XX", "X", 2), (a, o + "_cxx", "X", o + "_ii", "XX", "X", 2),
                 ("rel.cpp", o + "_cin", "XJ", o + "_in", "XJ", "Xn", 2),
                 (a, o + "_cxl", "X", o + "_is", "Xl", "X", 2), (a, o + "_cxu", "X", o + "_is", "Xu", "X", 2)]
    rows += [("order.cpp", "assign_lu", "X", "assign_ss", "Xlu", "X", 2), ("order.cpp", "assign_ul", "X", "assign_ss", "Xul", "X", 2),
             ("order.cpp", "assign_ll", "X", "assign_ss", "Xll", "X", 2), ("order.cpp", "assign_uu", "X", "assign_ss", "Xuu", "X", 2),
             ("order.cpp", "assign_sl", "Xy", "assign_ss", "Xyl", "Xs", 2), ("order.cpp", "assign_us", "Xy", "assign_ss", "Xuy", "Xs", 2),
             ("order.cpp", "set_l", "X", "set_s", "Xl", "X", 2), ("order.cpp", "set_u", "X", "set_s", "Xu", "X", 2),
             ("order.cpp", "set_self", "X", "ctor_copy", "X", "X", 2)]
    kinds = (CELLS + ["empty"], SCELLS + ["nan"], SCELLS)
    cs = ["opq/d", "def/d"] + (["def/l", "std/d", "opq/f", "opq/l"] if tier == "thorough" else [])

    def skip(c, f, cells):
        m = f.split("_")[1]
        if m in ("cxl", "cxu", "lu", "ul", "ll", "uu", "sl", "us", "l", "u"):
            if cells[0] == "empty":
                return True
            if m in ("cxl", "ll", "ul", "sl", "l", "lu") and cells[0][0] == "ninf" or m in ("cxu", "uu", "ul", "us", "u", "lu") and cells[0][1] == "pinf":
                return m not in ("lu",)
        return False
    t = tasks(rows, cs, kinds, skip)
    iv = [("any", "any"), ("ninf", "any"), ("any", "pinf"), ("ninf", "pinf"), "empty"]
    k2 = (iv, ["any", "nan"], ["any"])
    k3 = (CELLS, SCELLS + ["nan"], SCELLS)
    tc = ["opq/d", "strict/d"] + (["strict/f", "strict/l", "opq/f", "opq/l"] if tier == "thorough" else [])
    bc = compile_all([("rel.cpp", c, ()) for c in tc])
    bc2 = compile_all([("rel.cpp", c, ()) for c in cs])
    for o in ("add", "sub", "mul", "div"):
        for c in cs:
            for f, sig in (("_ret", "XY"), ("_rets", "Xs")):
                for cells in ops.combos(sig, (iv, ["any", "nan"], ["any"])):
                    t.append((retself, (c, o + f, sig, cells), bc2[("rel.cpp", c, ())]))
    F = [(o + "_t" + m, sig) for o in ("add", "sub", "mul", "div") for m, sig in (
        ("ii", "XY"), ("is", "Xs"), ("in", "Xn"), ("xx", "X"), ("xl", "X"), ("xu", "X"))]
    F += [("eq_tii", "XY"), ("eq_tim", "XY"), ("eq_tis", "Xs"), ("eq_tin", "Xn"), ("as_tss", "Xss")]
    for c in tc:
        for f, sig in F:
            for cells in ops.combos(sig, k2 if c[:3] == "opq" else k3):
                if f[-2:] in ("xl", "xu") and (cells[0] == "empty" or (cells[0][0] == "ninf" if f[-1] == "l" else cells[0][1] == "pinf")):
                    continue
                if c[:6] == "strict" and f == "eq_tim":
                    continue
                t.append((thr, (c, f, sig, cells), bc[("rel.cpp", c, ())]))
    return t, (
        "Relational analysis: the compound form (aliased with itself or with its own bounds, too) and the binary form are interpreted one "
        "after the other from one symbolic state and must give equal bounds on every pair of paths; with opaque policies whose members may "
        "throw, and with the strict checking policy, every path that catches an exception must find the interval's bounds unchanged."), TR
