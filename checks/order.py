"""C20, C22-C31: comparisons, set predicates and set operations, decided over every weak ordering
of the bounds against an oracle that quantifies over points."""
import itertools

from lib import *
from engine import exc_matches

SRC = "order.cpp"
COMPARISON_ERROR = "N5boost7numeric12interval_lib16comparison_errorE"
TRUST = ["clang 18 lowering of the templates to LLVM IR (-O0)", "sa/engine.py abstract semantics of IR",
         "a value of a totally ordered type is known to the code only through its order with the other bounds"]
INF = float("inf")


def weak_orders(names, cons):
    """all rank assignments of names onto 0..k-1 satisfying cons(ranks dict)"""
    n = len(names)
    for r in itertools.product(range(n), repeat=n):
        k = max(r) + 1 if r else 0
        if set(r) != set(range(k)):
            continue
        d = dict(zip(names, r))
        if cons(d):
            yield d


class Ord:
    """an abstract ordering: variable -> rank (or +-INF); optional zero rank"""

    def __init__(self, ranks, F, fmt):
        self.r = ranks
        fin = sorted({v for v in ranks.values() if abs(v) != INF})
        zero = ranks.get("0")
        self.val = {INF: PINF, -INF: NINF}
        vs = []
        for k in fin:
            v = ZERO if k == zero else T.sym("r%d" % k, fmt)
            self.val[k] = v
            vs.append(v)
        for i in range(len(vs)):
            for j in range(i + 1, len(vs)):
                F.add_ge(padd(vs[j], vs[i], -1), True)
        self.lo, self.hi = (min(fin), max(fin)) if fin else (0, 0)

    def v(self, n):
        return self.val[self.r[n]]

    def pts(self, l, u):
        """sample points (4 per rank step, 12 beyond each end) of [l,u]: determines every order relation"""
        l, u = self.r[l], self.r[u]
        return [p for p in range(int(self.lo) * 4 - 12, int(self.hi) * 4 + 13) if l * 4 <= p <= u * 4]

    def name(self):
        by = {}
        for n, k in self.r.items():
            by.setdefault(k, []).append(n)
        return "<".join("=".join(sorted(by[k])) if abs(k) != INF else
                        ("-inf=" if k < 0 else "+inf=") + "=".join(sorted(by[k])) for k in sorted(by))


def orders(shape, zero=False):
    """shape: string over i (interval), s (scalar); yields rank dicts"""
    names, lows, ups, pairs = [], [], [], []
    for c, n in zip(shape, "xyz"):
        if c == "i":
            names += [n + "l", n + "u"]
            lows.append(n + "l")
            ups.append(n + "u")
            pairs.append((n + "l", n + "u"))
        else:
            names.append(n + "s")
    if zero:
        names.append("0")
    for infs in itertools.product((0, 1), repeat=len(lows) + len(ups)):
        inf = {}
        for b, n in zip(infs, lows + ups):
            if b:
                inf[n] = -INF if n in lows else INF
        rest = [n for n in names if n not in inf]
        for r in weak_orders(rest, lambda d: all(d.get(a, -1) <= d.get(b, 99) for a, b in pairs)):
            r.update(inf)
            yield {n: r[n] for n in names}


REL = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
       "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


def oracle(ns, rel, A, B, la, lb, scalar):
    """-> 1, 0, 3 (indeterminate) or 'E' (comparison_error); A, B lists of points or None when empty"""
    f = REL[rel]
    if ns == "set":
        if scalar:
            return "E"
        a, b = set(A or ()), set(B or ())
        return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[rel])
    if A is None or B is None:
        return "E"
    if ns == "lex":
        return int(f(la, lb))
    every = all(f(p, q) for p in A for q in B)
    some = any(f(p, q) for p in A for q in B)
    if ns == "cer":
        return int(every)
    if ns == "pos":
        return int(some)
    if ns == "tri":
        return 1 if every else 0 if not some else 3
    return 1 if every else 0 if not some else "E"


def operands(o, shape, empties, nan=NAN):
    """call arguments and point sets"""
    args, pts, lex = [], [], []
    for c, n, e in zip(shape, "xyz", empties):
        if c == "s":
            if e:
                args.append(nan)
                pts.append(None)
                lex.append(None)
            else:
                args.append(o.v(n + "s"))
                pts.append(o.pts(n + "s", n + "s"))
                lex.append((o.r[n + "s"], o.r[n + "s"]))
        elif e:
            args += [1, ZERO, ZERO]
            pts.append(None)
            lex.append(None)
        else:
            args += [0, o.v(n + "l"), o.v(n + "u")]
            pts.append(o.pts(n + "l", n + "u"))
            lex.append((o.r[n + "l"], o.r[n + "u"]))
    return args, pts, lex


def cases(shape, empties=True, zero=False):
    """(ranks, emptiness flags)"""
    for e in itertools.product((0, 1), repeat=len(shape)):
        if any(e) and not empties:
            continue
        keep = "".join(c for c, k in zip(shape, e))
        names = [n for n, k in zip("xyz", e) if not k]
        sub = "".join(c for c, k in zip(shape, e) if not k)
        for r in orders(sub, zero):
            # rename to the remaining operands
            m = dict(zip("xyz", names))
            yield {(m[n[0]] + n[1:] if n != "0" else n): k for n, k in r.items()}, e


def as_bool(v):
    if isinstance(v, int):
        return v
    return None


def run_cmp(path, cfgname, fname, ns, rel, shape):
    cfg = CFG[cfgname]
    R = Result()
    scalar = "s" in shape
    for ranks, emp in cases(shape):
        E = make_engine(path, cfg)
        st = State()
        o = Ord(ranks, st.F(), cfg.fmt)
        args, pts, lex = operands(o, shape, emp, nanarg(cfg, cfg.fmt))
        if ns == "exp":
            if any(emp):
                continue
            want = oracle(rel[:3], rel[3:], pts[0], pts[1], lex[0], lex[1], scalar)
        else:
            want = oracle(ns, rel, pts[0], pts[1], lex[0], lex[1], scalar)
        base = "%s %s %s%s" % (cfgname, fname, o.name(), "".join(
            " %s empty" % n if c == "i" else " %s NaN" % n for n, c, e in zip("xy", shape, emp) if e))
        res = E.run(fname, args, st)
        R.absorb(E)
        live = 0
        for kind, val, s in res:
            if s.facts.dead:
                continue
            live += 1
            R.paths += 1
            got = val if kind == "ret" else "E" if kind == "throw" and exc_is(E, s, val) else kind
            R.check(got == want, base, lambda: describe(E, s, "%s: gives %s instead of %s" % (
                base, meaning(got, val), meaning(want))))
        R.check(live > 0, base + " live", base + ": no path reaches the end")
        if len(R.samples) < 1:
            R.samples.append("%s = %s" % (base, meaning(want)))
    return R


def exc_is(E, st, name):
    return exc_matches(name, "_ZTI" + COMPARISON_ERROR)


def meaning(v, d=None):
    return {1: "true", 0: "false", 3: "indeterminate", "E": "comparison_error"}.get(v, "%s %s" % (v, d))


def cfgs(tier):
    return ["opq/d", "def/d"] + (["opq/f", "def/f", "def/l", "std/d"] if tier == "thorough" else [])


def jobs(tier):
    cs = cfgs(tier)
    bc = compile_all([(SRC, c, ()) for c in cs])
    return [(c, bc[(SRC, c, ())]) for c in cs]


def cmp_tasks(ns, tier):
    t = []
    for c, p in jobs(tier):
        for rel in REL:
            for shape, s in (("ii", "ii"), ("im", "ii"), ("is", "is")):
                t.append((run_cmp, (c, "%s_%s_%s" % (ns, rel, shape), ns, rel, s), p))
    return t


RULE = ("Every weak ordering of the operand bounds (infinite bounds, empty operands and NaN numbers included) is one abstract "
        "input; the comparison's IR is interpreted on symbolic bounds that are known only through that ordering, and the value "
        "returned (or exception thrown) on every path must be what the quantifier over points of the operands gives.")


def _mk(ns):
    return lambda tier: (cmp_tasks(ns, tier), RULE, TRUST)


C22, C23, C24, C25, C26, C27 = map(_mk, ("def", "cer", "pos", "lex", "set", "tri"))


def C28(tier):
    t = []
    for c, p in jobs(tier):
        for k in ("cer", "pos"):
            for rel in REL:
                for shape, s in (("ii", "ii"), ("im", "ii"), ("is", "is"), ("si", "si")):
                    t.append((run_cmp, (c, "exp_%s%s_%s" % (k, rel, shape), "exp", k + rel, s), p))
    return t, RULE, TRUST


# ------------------------------------------------------------------ predicates
def pred_oracle(name, pts, o):
    A = set(pts[0] or ())
    if name in ("zeroin_i", "inzero_i"):
        return 0 if pts[0] is None else int(o.r["0"] * 4 in A)
    if name == "singleton_i":
        return int(len(A) == 1)
    if name == "empty_i":
        return int(not A)
    B = set(pts[1] or ())
    if name == "in_si":
        return int(bool(A) and A <= B)
    base = name[:-3]
    return int({"subset": A <= B, "proper_subset": A < B, "overlap": bool(A & B), "equal": A == B}[base])


def run_pred(path, cfgname, fname, shape, zero):
    cfg = CFG[cfgname]
    R = Result()
    for ranks, emp in cases(shape, True, zero):
        E = make_engine(path, cfg)
        st = State()
        o = Ord(ranks, st.F(), cfg.fmt)
        args, pts, lex = operands(o, shape, emp, nanarg(cfg, cfg.fmt))
        want = pred_oracle(fname, pts, o)
        base = "%s %s %s%s" % (cfgname, fname, o.name(), "".join(
            " %s empty" % n if c == "i" else " %s NaN" % n for n, c, e in zip("xy", shape, emp) if e))
        res = E.run(fname, args, st)
        R.absorb(E)
        live = 0
        for kind, val, s in res:
            if s.facts.dead:
                continue
            live += 1
            R.paths += 1
            R.check(kind == "ret" and val == want, base, lambda: describe(E, s, "%s: gives %s instead of %s" % (
                base, meaning(val) if kind == "ret" else "%s %s" % (kind, val), meaning(want))))
        R.check(live > 0, base + " live", base + ": no path reaches the end")
        if len(R.samples) < 1:
            R.samples.append("%s = %s" % (base, meaning(want)))
    return R


def C29(tier):
    t = []
    for c, p in jobs(tier):
        for f, s, z in (("in_si", "si", False), ("zeroin_i", "i", True), ("inzero_i", "i", True), ("singleton_i", "i", False),
                        ("empty_i", "i", False)):
            t.append((run_pred, (c, f, s, z), p))
        for f in ("subset", "proper_subset", "overlap", "equal"):
            for k in ("_ii", "_im"):
                t.append((run_pred, (c, f + k, "ii", False), p))
    return t, RULE, TRUST


# ------------------------------------------------------------------ interval valued
def xmin(o, a, b):
    return a if o(a) <= o(b) else b


def img_oracle(fname, o, shape, emp):
    """-> None (empty) or (lower variable rank, upper rank)"""
    B = []
    for c, n, e in zip(shape, "xyz", emp):
        if e:
            B.append(None)
        elif c == "i":
            B.append((o.r[n + "l"], o.r[n + "u"]))
        else:
            B.append((o.r[n + "s"], o.r[n + "s"]))
    k = fname.split("_")[0]
    if fname.endswith("_xx"):
        return B[0]
    if k == "hull":
        C = [b for b in B if b]
        if not C:
            return None
        return min(b[0] for b in C), max(b[1] for b in C)
    if None in B:
        return None
    if k == "intersect":
        l, u = max(B[0][0], B[1][0]), min(B[0][1], B[1][1])
        return (l, u) if l <= u else None
    f = min if k == "min" else max
    return f(B[0][0], B[1][0]), f(B[0][1], B[1][1])


def run_img(path, cfgname, fname, shape, nan=True):
    cfg = CFG[cfgname]
    R = Result()
    for ranks, emp in cases(shape):
        if not nan and any(emp):
            continue
        E = make_engine(path, cfg)
        st = State()
        o = Ord(ranks, st.F(), cfg.fmt)
        args, pts, lex = operands(o, shape, emp, nanarg(cfg, cfg.fmt))
        want = img_oracle(fname, o, shape, emp)
        base = "%s %s %s%s" % (cfgname, fname, o.name(), "".join(
            " %s empty" % n if c == "i" else " %s NaN" % n for n, c, e in zip("xy", shape, emp) if e))
        out = st.new("out")
        res = E.run(fname, args + [out], st)
        R.absorb(E)
        check_iv(E, R, res, out, base, cfg, None if want is None else (o.val[want[0]], o.val[want[1]]))
    return R


def check_iv(E, R, res, out, base, cfg, want):
    """the interval stored at out is `want` (None: empty) on every path"""
    live = 0
    for kind, val, s in res:
        if s.facts.dead:
            continue
        live += 1
        R.paths += 1
        if not R.check(kind == "ret", base, lambda: describe(E, s, "%s: %s %s" % (base, kind, val))):
            continue
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
        if want is None:
            ok = isempty(L, U)
        else:
            ok = not isempty(L, U) and is_num(L) and is_num(U) and eq_under(s.F(), L, want[0]) and eq_under(s.F(), U, want[1])
        R.check(ok, base, lambda: describe(E, s, "%s: result is [%s, %s] instead of %s" % (
            base, show(L), show(U), "an empty interval" if want is None else "[%s, %s]" % tuple(map(show, want))), [L, U]))
    R.check(live > 0, base + " live", base + ": no path reaches the end")
    if len(R.samples) < 1:
        R.samples.append("%s = %s" % (base, "empty" if want is None else "[%s, %s]" % tuple(map(show, want))))


RULE_IMG = ("Every weak ordering of the operand bounds (infinite bounds, empty operands, NaN numbers included) is one abstract "
            "input; on every path the bounds stored in the result must be exactly the operand bounds that the set definition selects.")


def C30(tier):
    t = []
    for c, p in jobs(tier):
        t.append((run_img, (c, "intersect_ii", "ii"), p))
        t.append((run_img, (c, "intersect_xx", "i"), p))
        for f, s in (("hull_ii", "ii"), ("hull_is", "is"), ("hull_si", "si"), ("hull_ss", "ss")):
            t.append((run_img, (c, f, s), p))
        t.append((run_img, (c, "hull_fss", "ss", False), p))
    return t, RULE_IMG, TRUST


def run_absnorm(path, cfgname, fname, cell):
    cfg = CFG[cfgname]
    E = make_engine(path, cfg)
    R = Result()
    st = State()
    x = Operand(st.F(), "x", cell, cfg.fmt, False) if cell != "empty" else Empty("x")
    out = st.new("out")
    base = "%s %s %s" % (cfgname, fname, cellname(cell))
    if st.facts.dead:
        return R
    res = E.run(fname, x.args + [out], st)
    R.absorb(E)
    live = 0
    for kind, val, s in res:
        if s.facts.dead:
            continue
        live += 1
        R.paths += 1
        if not R.check(kind == "ret", base, lambda: describe(E, s, "%s: %s %s" % (base, kind, val))):
            continue
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt) if fname == "abs_i" else None
        if fname == "norm_i":
            U, L = L, None
        F = s.F()
        if cell == "empty":
            R.check(U is NAN if fname == "norm_i" else isempty(L, U), base, lambda: describe(
                E, s, "%s: result %s for an empty operand" % (base, show(U))))
            continue

        def mag(v):
            return PINF if is_special(v) else v
        m = pneg(x.lo) if not is_special(x.lo) else PINF
        # largest magnitude: max(-lo, hi)
        ok = is_num(U) and not isinstance(U, Token) and any(eq_under(F, U, c) for c in (m, x.hi)) and F_ge(F, U, m) and F_ge(F, U, x.hi)
        R.check(ok, base + " upper", lambda: describe(E, s, "%s: %s is not the largest absolute value of [%s, %s]" % (
            base, show(U), show(x.lo), show(x.hi)), [U]))
        if fname == "abs_i":
            if cell[0] in "0+":
                w = x.lo
            elif cell[1] in "0-":
                w = pneg(x.hi)
            else:
                w = ZERO
            R.check(is_num(L) and not isinstance(L, Token) and eq_under(F, L, w), base + " lower", lambda: describe(
                E, s, "%s: %s is not the smallest absolute value, %s" % (base, show(L), show(w)), [L]))
    R.check(live > 0, base + " live", base + ": no path reaches the end")
    return R


def F_ge(F, a, b):
    if a is PINF or b is NINF:
        return True
    if is_special(a) or is_special(b):
        return a is b
    return F.le(b, a)


def C31(tier):
    t = []
    for c, p in jobs(tier):
        for f in ("min", "max"):
            for s in ("ii", "is", "si"):
                t.append((run_img, (c, "%s_%s" % (f, s), s), p))
        t.append((run_img, (c, "min_xx", "i"), p))
        for f in ("abs_i", "norm_i"):
            for cell in CELLS + ["empty"]:
                t.append((run_absnorm, (c, f, cell), p))
    return t, RULE_IMG + " abs and norm are decided per sign cell of the operand.", TRUST


# ------------------------------------------------------------------ construction
def run_ctor(path, cfgname, fname, shape):
    cfg = CFG[cfgname]
    R = Result()
    for ranks, emp in cases(shape):
        todo = [ranks]
        if "s" in shape and len(ranks) <= 2 and not any(emp):
            # infinite scalars too
            for n in ranks:
                for v in (INF, -INF):
                    todo.append(dict(ranks, **{n: v}))
        for rk in todo:
            E = make_engine(path, cfg)
            st = State()
            o = Ord(rk, st.F(), cfg.fmt)
            args, pts, lex = operands(o, shape, emp, nanarg(cfg, cfg.fmt))
            base = "%s %s %s%s" % (cfgname, fname, o.name(), "".join(
                " %s empty" % n if c == "i" else " %s NaN" % n for n, c, e in zip("xyz", shape, emp) if e))

            def iv(n, c, e):
                if e:
                    return None
                return (o.v(n + "l"), o.v(n + "u")) if c == "i" else (o.v(n + "s"),) * 2
            B = [iv(n, c, e) for n, c, e in zip("xyz", shape, emp)]
            if fname in ("ctor_ss", "assign_ss"):
                a, b = ("x", "y") if fname == "ctor_ss" else ("y", "z")
                i = "xyz".index(a)
                want = None if emp[i] or emp[i + 1] or o.r[a + "s"] > o.r[b + "s"] else (o.v(a + "s"), o.v(b + "s"))
            elif fname in ("ctor_s", "ctor_copy", "ctor_mix"):
                want = B[0]
            else:
                want = B[1]
            out = st.new("out")
            res = E.run(fname, args + [out], st)
            R.absorb(E)
            check_iv(E, R, res, out, base, cfg, want)
            if want is None and cfg.opaque:
                # the empty interval is the one the target's checking policy supplies
                for kind, val, s in res:
                    if kind == "ret" and not s.facts.dead:
                        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
                        exp = (EMPTY_L2, EMPTY_U2) if fname == "ctor_mix" else (EMPTY_L, EMPTY_U)
                        R.check((L, U) == exp, base + " empty", lambda: describe(
                            E, s, "%s: the empty interval stored is [%s, %s], not the target policy's" % (base, show(L), show(U))))
    return R


def run_const(path, cfgname, fname):
    cfg = CFG[cfgname]
    R = Result()
    E = make_engine(path, cfg)
    st = State()
    out = st.new("out")
    base = "%s %s" % (cfgname, fname)
    if fname == "access_i":
        for cell in CELLS + ["empty"]:
            st = State()
            x = Operand(st.F(), "x", cell, cfg.fmt, False) if cell != "empty" else Empty("x")
            if st.facts.dead:
                continue
            out = st.new("out")
            res = E.run(fname, x.args + [out], st)
            for kind, val, s in res:
                if s.facts.dead:
                    continue
                R.paths += 1
                v = [getout(s, out, i, cfg.fmt) for i in range(4)]
                ok = kind == "ret" and ((v[2] is NAN and v[3] is NAN and isempty(v[0], v[1])) if cell == "empty" else
                                        all(a is b for a, b in zip(v, (x.lo, x.hi, x.lo, x.hi))))
                R.check(ok, base + cellname(cell), lambda: describe(E, s, "%s %s: lower, upper, checked_lower, checked_upper are %s" % (
                    base, cellname(cell), ", ".join(map(show, v)))))
    else:
        res = E.run(fname, [out], st)
        want = {"ctor_def": (ZERO, ZERO), "empty_": None, "whole_": (NINF, PINF)}[fname]
        check_iv(E, R, res, out, base, cfg, want)
    R.absorb(E)
    return R


def C20(tier):
    t = []
    for c, p in jobs(tier):
        for f, s in (("ctor_s", "s"), ("ctor_ss", "ss"), ("ctor_copy", "i"), ("ctor_mix", "i"), ("set_s", "is"), ("set_i", "ii"),
                     ("set_m", "ii"), ("assign_ss", "iss")):
            t.append((run_ctor, (c, f, s), p))
        for f in ("ctor_def", "empty_", "whole_", "access_i"):
            t.append((run_const, (c, f), p))
        t.append((run_img, (c, "hull_ss", "ss"), p))
    return t, RULE_IMG, TRUST
