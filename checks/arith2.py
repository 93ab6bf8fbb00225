"""C04 division parts / inverse, C06 square and sqrt, C07 pow, C09 fmod."""
from lib import *
from arith import TRUST, xsign, xinv, xmul, rounded, corners

SRC = "arith.cpp"


def cases_nonzero(F, p):
    """facts copies for p<0 and p>0"""
    out = []
    for sg in F.sign(p):
        if sg == "0":
            continue
        h = F.copy()
        h.add_ge(p if sg == "+" else pneg(p), True)
        if not h.dead:
            out.append(h)
    return out


def finite_corner(R, E, s, G, base, side, v, want, fmt):
    """a finite bound must be an outward rounding of one of `want`"""
    if v is PINF or v is NINF:
        return
    m = "D" if side == "lower" else "U"
    ws = [rounded(m, fmt, c) for c in want if c is not None]
    ok = any(v is w for w in ws) or any(
        not is_special(w) and is_num(v) and eq_under(G, v, w) for w in ws)
    R.check(ok, base + " tight " + side, lambda: describe(
        E, s, "%s: %s bound %s is not a correctly rounded extreme value (expected one of %s)" % (
            base, side, show(v), ", ".join(sorted({show(w) for w in ws}))), [v]))


def returned(R, E, base, kind, val, s):
    return R.check(kind == "ret", base + " exit", lambda: describe(
        E, s, "%s: no result is returned (%s %s)" % (base, kind, val)))


def shape(R, E, s, base, L, U):
    return R.check(is_num(L) and is_num(U) and not isempty(L, U), base + " shape", lambda: describe(
        E, s, "%s: result [%s, %s] is empty or not a number for a non-empty operand" % (base, show(L), show(U))))


def encl(R, E, s, base, hs, L, t, U, splits):
    for side, g in (("lower", (L, t)), ("upper", (t, U))):
        bad = None
        for h in hs:
            bad = bad or prove_cases(h, [g], splits)
        v = L if side == "lower" else U
        R.check(bad is None, "%s %s" % (base, side), lambda: describe(
            E, s, "%s: %s bound %s is not shown to be %s %s for every point of the operands" % (
                base, side, show(v), "<=" if side == "lower" else ">=", show(t)), [v]))
    if not R.samples:
        R.samples.append("%s: [%s, %s] encloses %s" % (base, show(L), show(U), show(t)))


# ------------------------------------------------------------------ C04
def run_inv(path, cn, cx):
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    R = Result()
    st = State()
    F = st.F()
    x = Operand(F, "x", cx, cfg.fmt)
    out = st.new("out")
    base = "%s multiplicative_inverse %s" % (cn, cellname(cx))
    if x.lo is ZERO and x.hi is ZERO:
        return R
    for kind, val, s in E.run("inv_i", x.args + [out], st):
        R.paths += 1
        if s.facts.dead or not returned(R, E, base, kind, val, s):
            continue
        G = s.F()
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
        if not shape(R, E, s, base, L, U):
            continue
        hs = cases_nonzero(G, x.p)
        encl(R, E, s, base, hs, L, pdiv(ONE, x.p), U, [])
        c = [xinv(G, b) for b in (x.lo, x.hi) if b is not ZERO]
        finite_corner(R, E, s, G, base, "lower", L, c, cfg.fmt)
        finite_corner(R, E, s, G, base, "upper", U, c, cfg.fmt)
        if "0" not in xsign(G, x.lo) + xsign(G, x.hi) and xsign(G, x.lo) == xsign(G, x.hi):
            for v, nm in ((L, "lower"), (U, "upper")):
                R.check(v is not PINF and v is not NINF, base + " bounded " + nm, lambda: describe(
                    E, s, "%s: %s bound is infinite although the inverse is bounded" % (base, nm), [v]))
    R.absorb(E)
    return R


def run_parts(path, cn, cx, cy):
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    R = Result()
    st = State()
    F = st.F()
    x = Operand(F, "x", cx, cfg.fmt)
    y = Operand(F, "y", cy, cfg.fmt)
    o1, o2, ob = st.new("o1"), st.new("o2"), st.new("b")
    base = "%s division_part1/2 %s,%s" % (cn, cellname(cx), cellname(cy))
    if y.lo is ZERO and y.hi is ZERO:
        return R
    sx = (xsign(F, x.lo), xsign(F, x.hi))
    sy = (xsign(F, y.lo), xsign(F, y.hi))
    need_two = sy == ("-", "+") and (sx == ("+", "+") or sx == ("-", "-"))
    for kind, val, s in E.run("part1_ii", x.args + y.args + [o1, ob], st):
        R.paths += 1
        if s.facts.dead or not returned(R, E, base, kind, val, s):
            continue
        L1, U1 = getout(s, o1, 0, cfg.fmt), getout(s, o1, 1, cfg.fmt)
        b = getbool(s, ob)
        if not R.check(b in (0, 1), base + " flag", base + ": the boolean result is not set"):
            continue
        R.check(need_two == (b == 1), base + " two", lambda: describe(
            E, s, "%s: the quotient set is %s" % (base, "two disjoint intervals but the flag is not set" if need_two else "one interval but the flag is set")))
        q = corners_div(s.facts, x, y)
        shape(R, E, s, base, L1, U1)
        if not b:
            G = s.F()
            hs = cases_nonzero(G, y.p)
            encl(R, E, s, base, hs, L1, pdiv(x.p, y.p), U1, [x.p])
            finite_corner(R, E, s, G, base, "lower", L1, q, cfg.fmt)
            finite_corner(R, E, s, G, base, "upper", U1, q, cfg.fmt)
            continue
        for kind2, val2, s2 in E.run("part2_ii", x.args + y.args + [o2], s):
            if s2.facts.dead or not returned(R, E, base + " part2", kind2, val2, s2):
                continue
            L2, U2 = getout(s2, o2, 0, cfg.fmt), getout(s2, o2, 1, cfg.fmt)
            shape(R, E, s2, base + " part2", L2, U2)
            G = s2.F()
            R.check(G.le(U1, ZERO) and G.le(ZERO, L2), base + " order", lambda: describe(
                E, s2, "%s: part1 %s..%s is not the negative part or part2 %s..%s not the positive part" % (
                    base, show(L1), show(U1), show(L2), show(U2)), [U1, L2]))
            finite_corner(R, E, s2, G, base + " part1", "lower", L1, q, cfg.fmt)
            finite_corner(R, E, s2, G, base + " part1", "upper", U1, q, cfg.fmt)
            finite_corner(R, E, s2, G, base + " part2", "lower", L2, q, cfg.fmt)
            finite_corner(R, E, s2, G, base + " part2", "upper", U2, q, cfg.fmt)
            t = pdiv(x.p, y.p)
            for h in cases_nonzero(G, y.p):
                for sg in h.sign(x.p):
                    g = h.copy()
                    if sg == "0":
                        g.add_eq(x.p)
                    else:
                        g.add_ge(x.p if sg == "+" else pneg(x.p), True)
                    if g.dead:
                        continue
                    in1 = g.le(L1, t) and g.le(t, U1)
                    in2 = g.le(L2, t) and g.le(t, U2)
                    R.check(in1 or in2, base + " union", lambda: describe(
                        E, s2, "%s: x/y with x %s 0, y %s 0 is neither shown to be in part1 [%s, %s] nor in part2 [%s, %s]" % (
                            base, sg, g.sign(y.p), show(L1), show(U1), show(L2), show(U2)), [L1, U1, L2, U2]))
        # the flagged form of part2 with b=false is empty by contract: see C33
    R.absorb(E)
    return R


def corners_div(F, x, y):
    q = []
    for a in (x.lo, x.hi):
        for b in (y.lo, y.hi):
            if b is ZERO:
                continue
            q.append(xmul(F, a, xinv(F, b)))
    if x.lo is ZERO or x.hi is ZERO:
        q.append(ZERO)
    return q


def cfgs(tier):
    return ["opq/d", "def/d", "def/f"] + (["opq/f", "def/l", "std/d", "strict/d"] if tier == "thorough" else [])


def _bc(tier, cs=None):
    cs = cs or cfgs(tier)
    bc = compile_all([(SRC, c, ()) for c in cs])
    return [(c, bc[(SRC, c, ())]) for c in cs]


def C04(tier):
    t = []
    for c, p in _bc(tier):
        t += [(run_inv, (c, cx), p) for cx in CELLS]
        t += [(run_parts, (c, cx, cy), p) for cx in CELLS for cy in CELLS]
    return t, ("division_part1/2 and multiplicative_inverse are interpreted abstractly for every pair of sign cells; on every "
               "path each ghost quotient x/y (y != 0) must provably lie in part1 or part2, the flag must be set exactly when two "
               "disjoint pieces are needed, and finite bounds must be correctly rounded corner quotients."), TRUST


# ------------------------------------------------------------------ C06
def run_square(path, cn, cx):
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    R = Result()
    st = State()
    F = st.F()
    x = Operand(F, "x", cx, cfg.fmt)
    out = st.new("out")
    base = "%s square %s" % (cn, cellname(cx))
    for kind, val, s in E.run("square_i", x.args + [out], st):
        R.paths += 1
        if s.facts.dead or not returned(R, E, base, kind, val, s):
            continue
        G = s.F()
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
        if not shape(R, E, s, base, L, U):
            continue
        encl(R, E, s, base, [G], L, pmul(x.p, x.p), U, [x.p])
        sq = [xmul(G, b, b) for b in (x.lo, x.hi)]
        straddle = "+" not in xsign(G, x.lo) and "-" not in xsign(G, x.hi)
        finite_corner(R, E, s, G, base, "lower", L, [ZERO] if straddle else sq, cfg.fmt)
        finite_corner(R, E, s, G, base, "upper", U, sq, cfg.fmt)
        R.check(G.le(ZERO, L), base + " nonneg", lambda: describe(E, s, "%s: lower bound %s may be negative" % (base, show(L)), [L]))
        R.check(U is not PINF or PINF in sq, base + " bounded", lambda: describe(E, s, base + ": upper bound is infinite", [U]))
    R.absorb(E)
    return R


def xsqrt(a):
    return a if is_special(a) else fn("sqrt", (a,))


def run_sqrt(path, cn, cx):
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    R = Result()
    st = State()
    F = st.F()
    x = Operand(F, "x", cx, cfg.fmt)
    out = st.new("out")
    base = "%s sqrt %s" % (cn, cellname(cx))
    neg = xsign(F, x.hi) == "-"
    for kind, val, s in E.run("sqrt_i", x.args + [out], st):
        R.paths += 1
        if s.facts.dead or not returned(R, E, base, kind, val, s):
            continue
        G = s.F()
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
        if neg:
            R.check(isempty(L, U), base + " domain", lambda: describe(
                E, s, "%s: the operand is strictly negative but the result is [%s, %s], not empty" % (base, show(L), show(U)), [L, U]))
            continue
        if not shape(R, E, s, base, L, U):
            continue
        h = G.copy()
        h.add_ge(x.p)
        if not h.dead:
            encl(R, E, s, base, [h], L, fn("sqrt", (x.p,)), U, [])
        lo = xsqrt(x.lo) if xsign(G, x.lo) in "+" else ZERO
        finite_corner(R, E, s, G, base, "lower", L, [lo], cfg.fmt)
        finite_corner(R, E, s, G, base, "upper", U, [xsqrt(x.hi)], cfg.fmt)
        R.check(G.le(ZERO, L), base + " nonneg", lambda: describe(E, s, "%s: lower bound %s may be negative" % (base, show(L)), [L]))
        R.check(U is not PINF or x.hi is PINF, base + " bounded", lambda: describe(E, s, base + ": upper bound is infinite", [U]))
    R.absorb(E)
    return R


def C06(tier):
    t = []
    for c, p in _bc(tier):
        t += [(run_square, (c, cx), p) for cx in CELLS]
        t += [(run_sqrt, (c, cx), p) for cx in CELLS]
    return t, ("square and sqrt are interpreted abstractly on the 13 sign cells; each path's bounds must provably enclose x*x / "
               "sqrt(max(x,0)) for a ghost point x, be the correctly rounded extreme value, be non-negative, and sqrt of a strictly "
               "negative interval must be empty."), TRUST


# ------------------------------------------------------------------ C07
def run_pow(path, cn, cx, n):
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    R = Result()
    st = State()
    F = st.F()
    x = Operand(F, "x", cx, cfg.fmt)
    out = st.new("out")
    base = "%s pow(%s, %d)" % (cn, cellname(cx), n)
    try:
        res = E.run("pow_in", x.args + [n & 0xffffffff, out], st)
    except Unsupported as e:
        if not engine.UBLOG:
            raise
        R.check(False, base + " ub", "%s: undefined behaviour (%s) and then: %s" % (base, engine.UBLOG[0][1:], e))
        return R
    for kind, val, s in res:
        R.paths += 1
        ub = [e for e in s.events() if e[0] == "ub"]
        R.check(not ub, base + " ub", lambda: "%s: undefined behaviour: %r" % (base, ub))
        if s.facts.dead or ub or not returned(R, E, base, kind, val, s):
            continue
        G = s.F()
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
        if n == 0:
            R.check(L is ONE and U is ONE, base + " one", lambda: describe(
                E, s, "%s: result is [%s, %s] instead of [1, 1]" % (base, show(L), show(U)), [L, U]))
            continue
        if n < 0:
            if x.lo is ZERO and x.hi is ZERO:
                R.check(isempty(L, U), base + " zero", lambda: describe(
                    E, s, "%s: result [%s, %s] is not empty for a negative power of zero" % (base, show(L), show(U))))
                continue
            hs = cases_nonzero(G, x.p)
        else:
            hs = [G]
        if not shape(R, E, s, base, L, U):
            continue
        t = ppow(x.p, n) if n > 0 else pdiv(ONE, ppow(x.p, -n))
        encl(R, E, s, base, hs, L, t, U, [x.p])
        if n % 2 == 0 and n > 0:
            R.check(G.le(ZERO, L), base + " even", lambda: describe(
                E, s, "%s: lower bound %s of an even power may be negative" % (base, show(L)), [L]))
        # no needless infinities
        for v, inf, nm in ((L, NINF, "lower"), (U, PINF, "upper")):
            if v is inf and n > 0:
                c = [b for b in (x.lo, x.hi) if is_special(b)]
                R.check(bool(c), base + " bounded " + nm, lambda: describe(E, s, "%s: %s bound is infinite" % (base, nm), [v]))
        if abs(n) == 1:
            for v, side in ((L, "lower"), (U, "upper")):
                cs = [x.lo, x.hi] if n == 1 else [xinv(G, b) for b in (x.lo, x.hi) if b is not ZERO]
                finite_corner(R, E, s, G, base, side, v, cs, cfg.fmt)
        else:
            pow_tight(R, E, s, G, base, L, U, x, n)
    if not res:
        R.check(False, base + " live", base + ": no path")
    R.absorb(E)
    return R


def strip_all(p):
    """the exact expression behind a chain of roundings in one direction"""
    if is_special(p):
        return p
    for _ in range(400):
        at = next((a for a in sorted(T.atoms_of(p), key=lambda a: -a.id) if a.kind == "rnd"
                   and any(m_a == a.id for m, _c in p.t for m_a, _e in m)), None)
        if at is None:
            return p
        p = T.subst(p, {at: at.c})
        if is_special(p):
            return p
    return p


def pow_tight(R, E, s, G, base, L, U, x, n):
    """up to the roundings, each finite bound is an exact power of an operand bound (no slack)"""
    for v, side in ((L, "lower"), (U, "upper")):
        if v is PINF or v is NINF:
            continue
        e = strip_all(v)
        want = [ZERO] if n % 2 == 0 or n < 0 else []
        for b in (x.lo, x.hi):
            if is_special(b):
                want.append(ZERO)
                continue
            if n < 0 and b is ZERO:
                continue
            want.append(ppow(b, n) if n > 0 else pdiv(ONE, ppow(b, -n)))
        ok = any(e is w for w in want)
        R.check(ok, "%s power %s" % (base, side), lambda: describe(
            E, s, "%s: %s bound %s is, up to rounding, %s, which is not a power %d of an operand bound" % (
                base, side, show(v), show(e), n), [v]))


def C07(tier):
    t = []
    ns = list(range(-9, 20)) + [31, 32, 33]
    if tier == "thorough":
        ns = list(range(-40, 129)) + [255, 256, 1000, 1023]
    for c, p in _bc(tier):
        for n in ns if c != "def/f" or tier == "thorough" else [-3, -2, -1, 0, 1, 2, 3, 4, 5, 6]:
            t += [(run_pow, (c, cx, n), p) for cx in CELLS]
        if c == "opq/d":
            t.append((run_pow, (c, ("+", "+"), -2**31), p))
    return t, ("pow is interpreted abstractly with the exponent as a constant partition and the operand bounds symbolic on the 13 "
               "sign cells: every path's bounds are nested directed-rounding terms that must provably enclose x^n for a ghost x, "
               "be exact powers of operand bounds up to rounding, non-negative for even n, [1,1] for n=0."), TRUST


# ------------------------------------------------------------------ C09
def run_fmod(path, cn, fname, sig, cx, cy):
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    R = Result()
    st = State()
    F = st.F()
    fmt = cfg.fmt
    x = Operand(F, "x", cx, fmt) if sig[0] == "X" else Scalar(F, "x", cx, fmt)
    y = Operand(F, "y", cy, fmt) if sig[1] == "Y" else Scalar(F, "y", cy, fmt)
    out = st.new("out")
    base = "%s %s %s,%s" % (cn, fname, cellname(cx), cellname(cy))
    for kind, val, s in E.run(fname, x.args + y.args + [out], st):
        R.paths += 1
        if s.facts.dead or not returned(R, E, base, kind, val, s):
            continue
        G = s.F()
        L, U = getout(s, out, 0, fmt), getout(s, out, 1, fmt)
        if not shape(R, E, s, base, L, U):
            continue
        ns = {a for v in (L, U) if isinstance(v, T.Poly) for a in T.atoms_of(v) if a.kind == "fn" and a.a in ("floor", "ceil")}
        if len(ns) == 0:
            # the integer was decided to be a constant (x.lower() is 0)
            n = ZERO
            ns = {a for f in G.fs for a in T.atoms_of(f) if a.kind == "fn" and a.a == "floor" and
                  G.bounds(T.patom(a)).lo == 0 and G.bounds(T.patom(a)).hi == 0}
        elif not R.check(len(ns) == 1, base + " integer", lambda: describe(
                E, s, "%s: the result is not x - n*y for one integer n" % base, [L, U])):
            continue
        else:
            n = T.patom(list(ns)[0])
        hs = []
        for sg in G.sign(n):
            h = G.copy()
            h.add_eq(n) if sg == "0" else h.add_ge(n if sg == "+" else pneg(n), True)
            if not h.dead:
                hs.append(h)
        t = padd(x.p, pmul(n, y.p), -1)
        encl(R, E, s, base, hs, L, t, U, [])
        # n = floor(x.lower()/y') with y' the bound of y that makes the lower bound of x - n*y non negative
        at = list(ns)[0] if ns else None
        if at is not None:
            q = at.b[0]
            e = strip_all(q)
            yb = y.hi if xsign(G, x.lo) == "+" else y.lo
            want = pdiv(x.lo, yb)
            okq = at.a == "floor" and e is want and (q is want or q is rnd("D", fmt, want))
            R.check(okq, base + " reduction", lambda: describe(
                E, s, "%s: the number of periods is %s, expected floor of the rounded down quotient %s" % (
                    base, T.show_atom(at), show(want)), [q]))
        else:
            R.check(xsign(G, x.lo) == "0", base + " reduction", lambda: describe(E, s, base + ": no reduction is performed"))
        # before rounding the lower bound is x.lower - n*y' >= 0
        e = strip_lower(L, n)
        R.check(e is not None and G.le(ZERO, e), base + " nonneg", lambda: describe(
            E, s, "%s: x.lower() - n*y = %s is not shown to be non-negative" % (base, show(e) if e is not None else "?"), [L]))
    R.absorb(E)
    return R


def strip_lower(L, n):
    return strip_all(L) if not is_special(L) else None


def C09(tier):
    t = []
    fc = [c for c in CELLS if c[0] != "ninf" and c[1] != "pinf"]
    pc = [("+", "+")]
    for c, p in _bc(tier):
        t += [(run_fmod, (c, "fmod_ii", "XY", cx, cy), p) for cx in fc for cy in pc]
        t += [(run_fmod, (c, "fmod_is", "Xs", cx, "+"), p) for cx in fc]
        t += [(run_fmod, (c, "fmod_si", "sY", cx, cy), p) for cx in SCELLS for cy in pc]
    return t, ("The three fmod overloads are interpreted abstractly for finite operands and strictly positive moduli; the result must "
               "enclose x - n*y for one integer n that is the floor of the rounded-down quotient x.lower()/y', and its exact lower "
               "bound must be non-negative."), TRUST
