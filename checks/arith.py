"""C01-C05: enclosure and tightness of the arithmetic operators."""
from lib import *

SRC = "arith.cpp"


# exact value of an operator on ghost points
def target(op, x, y):
    if op == "add":
        return padd(x, y)
    if op == "sub":
        return padd(x, y, -1)
    if op == "mul":
        return pmul(x, y)
    return pdiv(x, y)


# ---- extended-real corners of the exact range, used for tightness
def xadd(a, b):
    if is_special(a):
        return a
    if is_special(b):
        return b
    return padd(a, b)


def xneg(a):
    return NINF if a is PINF else PINF if a is NINF else pneg(a)


def xsign(F, a):
    if a is PINF:
        return "+"
    if a is NINF:
        return "-"
    s = F.sign(a)
    return s if len(s) == 1 else "?"


def xmul(F, a, b):
    if not is_special(a) and not is_special(b):
        return pmul(a, b)
    sa, sb = xsign(F, a), xsign(F, b)
    if sa == "0" or sb == "0":
        return ZERO
    if "?" in sa + sb:
        return None
    return PINF if sa == sb else NINF


def xinv(F, a):
    return ZERO if is_special(a) else pdiv(ONE, a)


def corners(F, op, x, y):
    """set of candidate (inf, sup) of the exact range as extended reals (None: unknown)"""
    if op == "add":
        return [xadd(x.lo, y.lo)], [xadd(x.hi, y.hi)]
    if op == "sub":
        return [xadd(x.lo, xneg(y.hi))], [xadd(x.hi, xneg(y.lo))]
    if op == "mul":
        c = [xmul(F, a, b) for a in (x.lo, x.hi) for b in (y.lo, y.hi)]
        return c, c
    # division
    if x.lo is ZERO and x.hi is ZERO:
        return [ZERO], [ZERO]
    sl, su = xsign(F, y.lo), xsign(F, y.hi)
    if sl == "-" and su == "+":
        return [NINF], [PINF]
    il = NINF if su == "0" else xinv(F, y.hi)
    ih = PINF if sl == "0" else xinv(F, y.lo)
    c = [xmul(F, a, b) for a in (x.lo, x.hi) for b in (il, ih)]
    return c, c


def rounded(mode, fmt, c):
    if c is None or is_special(c):
        return c
    return rnd(mode, fmt, c)


# harness entry -> (operands, op)
def entries(op):
    r = [("ii", "XY"), ("si", "sY"), ("is", "Xs"), ("cii", "XY"), ("cis", "Xs"), ("xx", "X="), ("cxx", "X="),
         ("cxl", "Xl"), ("cxu", "Xu"), ("ss", "ss"), ("ni", "nY"), ("in", "Xn")]
    return [(op + "_" + n, sig) for n, sig in r]


INTMAX = {"f32": 1 << 24, "f64": (1 << 31) - 1, "f80": (1 << 31) - 1}


def operands(F, sig, cx, cy, fmt):
    a = b = None
    args = []
    for i, (k, cell) in enumerate(zip(sig, (cx, cy))):
        nm = "xy"[i]
        if k in "XY":
            o = Operand(F, nm, cell, fmt)
        elif k == "s":
            o = Scalar(F, nm, cell, fmt)
        elif k == "n":
            o = Scalar(F, nm, cell, "i32")
            if cell == "0":
                o.args = [0]
            if o.p is not ZERO:
                F.add_ge(padd(const(INTMAX[fmt]), o.p, -1))
                F.add_ge(padd(o.p, const(INTMAX[fmt])))
        elif k in "=lu":
            # second operand aliases the first one
            o = Operand.__new__(Operand)
            o.name, o.cell, o.args = nm, k, []
            if k == "=":
                o.lo, o.hi = a.lo, a.hi
                o.p = a.p     # replaced by an independent ghost below for C01-C03
                o.p = T.sym(nm)
                if not is_special(o.lo):
                    F.add_ge(padd(o.p, o.lo, -1))
                if not is_special(o.hi):
                    F.add_ge(padd(o.hi, o.p, -1))
            else:
                o.lo = o.hi = o.p = a.lo if k == "l" else a.hi
        if i == 0:
            a = o
        else:
            b = o
        args += o.args
    return a, b, args


def cells_for(sig):
    out = []
    for k in sig:
        out.append(CELLS if k in "XY" else SCELLS if k in "sn" else ["alias"])
    res = [(cx, cy) for cx in out[0] for cy in out[1]]
    if sig[1] in "lu":
        res = [(cx, cy) for cx, cy in res if cx["lu".index(sig[1])] not in ("ninf", "pinf")]
    return res


def run_op(path, cfgname, op, fname, sig, cx, cy, want_tight):
    cfg = CFG[cfgname]
    E = make_engine(path, cfg)
    R = Result()
    st = State()
    F = st.F()
    x, y, args = operands(F, sig, cx, cy, cfg.fmt)
    if F.dead:
        return R
    if op == "div" and y.lo is ZERO and y.hi is ZERO:
        return R      # no quotient exists; see C33
    if op == "div" and want_tight and not F.le(ZERO, y.lo, True) and not F.le(y.hi, ZERO, True):
        return R      # tightness is only claimed for divisors that do not contain zero
    out = st.new("out")
    res = E.run(fname, args + [out], st)
    R.absorb(E)
    base = "%s %s %s,%s" % (cfgname, fname, cellname(cx), cellname(cy))
    live = 0
    for kind, val, s in res:
        if s.facts.dead:
            continue
        live += 1
        R.paths += 1
        if not R.check(kind == "ret", base + " exit", lambda: describe(
                E, s, "%s: no result is returned (%s %s)" % (base, kind, val))):
            continue
        G = s.F()
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
        if not want_tight:
            q = G
            if op == "div":
                q = G.copy()
                q.add_ne(y.p)
            if q.dead:
                continue
            R.check(not isempty(L, U) and is_num(L) and is_num(U), base + " shape", lambda: describe(
                E, s, "%s: result [%s, %s] is empty or not a number for non-empty operands" % (base, show(L), show(U))))
            if isempty(L, U) or not (is_num(L) and is_num(U)):
                continue
            if op == "div":
                # quantify y over the non-zero points: split its sign
                todo = []
                for sg in q.sign(y.p):
                    if sg == "0":
                        continue
                    h = q.copy()
                    h.add_ge(y.p if sg == "+" else pneg(y.p), True)
                    if not h.dead:
                        todo.append(h)
            else:
                todo = [q]
            t = target(op, x.p, y.p)
            for side in (0, 1):
                g = (L, t) if side == 0 else (t, U)
                bad = None
                for h in todo:
                    bad = bad or prove_cases(h, [g], [x.p, y.p])
                R.check(bad is None, "%s %s" % (base, "lower" if side == 0 else "upper"), lambda: describe(
                    E, s, "%s: %s bound %s is not shown to be %s %s for all x, y in the operands" % (
                        base, ("lower", "upper")[side], show(L if side == 0 else U), ("<=", ">=")[side], show(t)),
                    [L if side == 0 else U]))
            if len(R.samples) < 1:
                R.samples.append("%s: [%s, %s] encloses %s" % (base, show(L), show(U), show(t)))
        else:
            lo, hi = corners(G, op, x, y)
            for v, cs, m, side in ((L, lo, "D", "lower"), (U, hi, "U", "upper")):
                want = [rounded(m, cfg.fmt, c) for c in cs]
                ok = any(v is w for w in want)
                if not ok and is_num(v):
                    ok = any(w is not None and not is_special(w) and not is_special(v) and
                             eq_under(G, v, w) for w in want)
                R.check(ok, "%s %s" % (base, side), lambda: describe(
                    E, s, "%s: %s bound %s is not the correctly rounded extreme value (expected one of %s)" % (
                        base, side, show(v), ", ".join(sorted({show(w) for w in want if w is not None}))), [v]))
                if len(R.samples) < 1:
                    R.samples.append("%s: %s bound %s" % (base, side, show(v)))
    R.check(live > 0, base + " live", base + ": no abstract path reaches the end of the operator")
    return R


TRUST = ["clang 18 lowering of the templates to LLVM IR (-O0)", "sa/engine.py abstract semantics of IR",
         "sa/terms.py rounding-monotonicity and polynomial entailment rules",
         "IEEE-754 correctly rounded + - * / sqrt under the current rounding mode",
         "rounding atoms are interpreted over the extended reals (overflow to infinity keeps directed order)"]


def cfgs(tier, base=("opq/d", "def/d", "def/f")):
    return list(base) + (["opq/f", "def/l", "std/d", "strict/d"] if tier == "thorough" else [])


def tasks(op, tier, tight=False):
    t, jobs = [], []
    for c in cfgs(tier):
        jobs.append((SRC, c, ()))
    bc = compile_all(jobs)
    for c in cfgs(tier):
        p = bc[(SRC, c, ())]
        for fname, sig in entries(op):
            if tight and fname[4:] in ("xx", "cxx"):
                pass
            if tier == "quick" and c == "def/f" and fname[4:] not in ("ii", "cii", "si", "is"):
                continue
            for cx, cy in cells_for(sig):
                t.append((run_op, (c, op, fname, sig, cx, cy, tight), p))
    return t


RULE_INC = ("For every harness client of the operator, every combination of sign cells of the operand bounds "
            "(13 interval cells, 3 scalar cells, infinite bounds included) is interpreted abstractly over the LLVM IR; "
            "for every abstract path the returned bounds are symbolic terms with directed-rounding atoms, and "
            "lower <= x op y <= upper is discharged by polynomial entailment with ghost points x, y ranging over the operands.")
RULE_TIGHT = ("Same abstract paths; every returned bound must be syntactically (or under the path facts provably) the "
              "outward rounding of one extreme value of the exact range, or the infinity when the range is unbounded; "
              "together with the enclosure this is the tightest representable enclosure.")


def C01(tier):
    return tasks("add", tier) + tasks("sub", tier), RULE_INC, TRUST


def C02(tier):
    return tasks("mul", tier), RULE_INC, TRUST


def C03(tier):
    return tasks("div", tier), RULE_INC, TRUST


def C05(tier):
    t = []
    for op in ("add", "sub", "mul", "div"):
        t += tasks(op, tier, True)
    return t, RULE_TIGHT, TRUST
