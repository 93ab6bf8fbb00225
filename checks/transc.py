"""C10, C11: monotone and restricted-domain elementary functions."""
from lib import *
import arith
from arith import rounded

SRC = "transc.cpp"
TRUST = ["clang 18 lowering of the templates to LLVM IR (-O0)", "sa/engine.py abstract semantics of IR",
         "the rounding policy's elementary functions are correctly directed (Rounding concept)",
         "monotonicity of exp, log, sinh, tanh, asinh, acosh, atanh, asin, acos, atan on their domains and evenness of cosh"]
# pi with 60 digits, enclosed
_P = "3.14159265358979323846264338327950288419716939937510582097494459"
PI_LO = T.Fraction(_P)
PI_HI = PI_LO + T.Fraction(1, 10 ** 62)


def cell_bound(F, name, kind, fmt):
    """kinds: ninf pinf, a number n, '<n', '>n', 'm<..<n' as tuple (m, n)"""
    if kind in ("ninf", "pinf"):
        return NINF if kind == "ninf" else PINF
    if isinstance(kind, int):
        return const(kind)
    v = T.sym(name, fmt)
    if isinstance(kind, tuple):
        F.add_ge(padd(v, const(-kind[0])), True)
        F.add_ge(padd(const(kind[1]), v, -1), True)
    elif kind[0] == "<":
        F.add_ge(padd(const(int(kind[1:])), v, -1), True)
    else:
        F.add_ge(padd(v, const(-int(kind[1:]))), True)
    return v


def kname(k):
    return {"ninf": "-inf", "pinf": "+inf"}.get(k, k) if isinstance(k, str) else str(k) if isinstance(k, int) else "in(%d,%d)" % k


K0 = ["ninf", "<0", 0, ">0", "pinf"]
K1 = ["ninf", "<1", 1, ">1", "pinf"]
K11 = ["ninf", "<-1", -1, (-1, 1), 1, ">1", "pinf"]
KINDS = {"log": K0, "acosh": K1, "asin": K11, "acos": K11, "atanh": K11}


def val(name, x):
    """exact value at a point of the closed domain (extended)"""
    lim = {"exp": (ZERO, PINF), "sinh": (NINF, PINF), "cosh": (PINF, PINF), "tanh": (const(-1), ONE), "asinh": (NINF, PINF),
           "atan": (pneg(HALFPI), HALFPI), "log": (None, PINF), "acosh": (None, PINF)}
    if x is NINF or x is PINF:
        return lim[name][x is PINF]
    if name == "log" and x is ZERO:
        return NINF
    if name == "atanh" and x.is_const() and abs(x.const()) == 1:
        return PINF if x is ONE else NINF
    return fn(name, (x,))


def extremes(name, F, lo, hi, kl, ku):
    """-> (inf candidates, sup candidates) or None when the closed domain is missed, or 'any'"""
    if name == "cosh":
        neg = is_neg(F, hi, ku)
        pos = kl in (0, ">0")
        if neg:
            return [val(name, hi)], [val(name, lo)]
        if pos:
            return [val(name, lo)], [val(name, hi)]
        return [ONE], [val(name, lo), val(name, hi)]
    if name == "log":
        if ku == "<0" or ku == 0:
            return None if ku == "<0" else "any"
        return [val(name, lo if kl == ">0" else ZERO)], [val(name, hi)]
    if name == "acosh":
        if ku == "<1":
            return None
        return [val(name, lo) if kl == ">1" else ZERO], [val(name, hi)]
    if name in ("asin", "acos", "atanh"):
        if ku == "<-1" or kl == ">1":
            return None
        if name == "atanh" and (ku == -1 or kl == 1):
            return "any"
        l = lo if kl in ((-1, 1), -1, 1) else const(-1)
        h = hi if ku in ((-1, 1), -1, 1) else ONE
        if name == "acos":
            l, h = h, l
        return [val(name, l)], [val(name, h)]
    return [val(name, lo)], [val(name, hi)]


def is_neg(F, v, k):
    return k == "<0"


def const_ok(name, v, w, side):
    """v is a constant bound that encloses the limit w = f(+-1)"""
    if is_special(v) or not v.is_const() or is_special(w):
        return False
    c = v.const()
    at = w.single_atom()
    if at is None:
        return False
    k, a = at
    if a.kind != "fn" or a.a not in ("asin", "acos") or not a.b[0].is_const():
        return False
    x = a.b[0].const()
    if a.a == "asin":
        lo, hi = (PI_LO / 2 * x, PI_HI / 2 * x) if x > 0 else (PI_HI / 2 * x, PI_LO / 2 * x)
    else:
        lo, hi = (PI_LO, PI_HI) if x == -1 else (T.Fraction(0), T.Fraction(0))
    lo, hi = (lo * k, hi * k) if k > 0 else (hi * k, lo * k)
    # an enclosing constant, tight to a few ulps of single precision
    if side == "lower":
        return c <= lo and lo - c < T.Fraction(1, 10 ** 6)
    return c >= hi and c - hi < T.Fraction(1, 10 ** 6)


def run_fn(path, cn, name, kl, ku):
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    R = Result()
    st = State()
    F = st.F()
    lo = cell_bound(F, "xl", kl, cfg.fmt)
    hi = cell_bound(F, "xu", ku, cfg.fmt)
    if lo is PINF or hi is NINF:
        return R
    if not is_special(lo) and not is_special(hi):
        if lo.is_const() and hi.is_const() and lo.const() > hi.const():
            return R
        F.add_ge(padd(hi, lo, -1))
    if F.dead:
        return R
    out = st.new("out")
    base = "%s %s [%s,%s]" % (cn, name, kname(kl), kname(ku))
    res = E.run("t_" + name, [0, lo, hi, out], st)
    live = 0
    for kind, v, s in res:
        if s.facts.dead:
            continue
        live += 1
        R.paths += 1
        if not R.check(kind == "ret", base + " exit", lambda: describe(E, s, "%s: %s %s" % (base, kind, v))):
            continue
        G = s.F()
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
        w = extremes(name, G, lo, hi, kl, ku)
        if w is None:
            R.check(isempty(L, U), base + " domain", lambda: describe(
                E, s, "%s: the operand misses the domain but the result is [%s, %s], not empty" % (base, show(L), show(U)), [L, U]))
            continue
        if w == "any":
            continue
        ok = not isempty(L, U) and is_num(L) and is_num(U)
        R.check(ok, base + " shape", lambda: describe(E, s, "%s: result [%s, %s] is empty or not a number" % (base, show(L), show(U))))
        if not ok:
            continue
        for b, cs, m, side in ((L, w[0], "D", "lower"), (U, w[1], "U", "upper")):
            want = [rounded(m, cfg.fmt, c) for c in cs]
            good = []
            for c, t in zip(cs, want):
                if b is t or const_ok(name, b, c, side) or (not is_special(b) and not is_special(t) and eq_under(G, b, t)):
                    good.append(c)
            if name == "cosh" and len(cs) == 2 and good:
                # must be the bound of largest magnitude
                a = PINF if PINF in (lo, hi) or NINF in (lo, hi) else None
                if a is None:
                    big = good[0] is val(name, lo) and G.le(hi, pneg(lo)) or val(name, hi) in good and G.le(pneg(lo), hi) or \
                        val(name, lo) in good and G.le(hi, pneg(lo))
                else:
                    big = b is PINF
                good = good if big else []
            R.check(bool(good), base + " " + side, lambda: describe(
                E, s, "%s: %s bound %s is not the %s rounded extreme value (expected %s)" % (
                    base, side, show(b), "downward" if m == "D" else "upward", " or ".join(show(t) for t in want)), [b]))
        if len(R.samples) < 1:
            R.samples.append("%s = [%s, %s]" % (base, show(L), show(U)))
    R.check(live > 0, base + " live", base + ": no path reaches the end")
    R.absorb(E)
    return R


def cfgs(tier):
    return ["opq/d", "opq/f", "transc/d"] + (["opq/l", "transc/f", "transc/l"] if tier == "thorough" else [])


def tasks(names, tier):
    cs = cfgs(tier)
    bc = compile_all([(SRC, c, ()) for c in cs])
    return [(run_fn, (c, n, kl, ku), bc[(SRC, c, ())]) for c in cs for n in names
            for kl in KINDS.get(n, K0) for ku in KINDS.get(n, K0)]


RULE = ("Each function is interpreted abstractly for every position of the operand bounds relative to the points where its case analysis "
        "may change (infinities, 0, the domain ends); every path's bounds must be the directed rounding of the function at the operand bound "
        "where it is extreme, the limit (or an enclosing constant of pi) beyond a domain end, or empty when the domain is missed.")


def C10(tier):
    return tasks(["exp", "sinh", "cosh", "tanh", "asinh", "atan"], tier), RULE, TRUST


def C11(tier):
    return tasks(["log", "asin", "acos", "acosh", "atanh"], tier), RULE, TRUST
