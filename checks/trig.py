"""C12: cos, sin, tan enclose the image of every interval.

Ghosts: p a point of the operand, PI the real number pi (irrational, known through a 60-digit
enclosure), C = cos(p) (or sin(p), tan(p)).  Inner calls of cos are replaced by the property itself
(assume-guarantee, so the recursion of cos is an induction on its depth): the operand of the call must
provably contain s*p + k*pi - 2*n*pi for some sign s, integer k and reduction integer n of the path, and
the result is an arbitrary interval containing (-1)^k C."""
from lib import *
from root import split_params
from transc import PI_LO, PI_HI, TRUST as TR
import itertools

SRC = "transc.cpp"
TRUST = TR + ["cos is even, decreasing on [0,pi], cos(t+pi) = -cos(t); sin(t) = cos(t-pi/2); tan is increasing on (-pi/2,pi/2) with period pi",
              "partial correctness: that the recursion of cos ends is decided by C43"]
PI = T.sym("PI")
CUT = True


def setup(F):
    F.add_ge(padd(PI, const(PI_LO), -1), True)
    F.add_ge(padd(const(PI_HI), PI, -1), True)


def floors(vals):
    out = []
    for v in vals:
        if isinstance(v, T.Poly):
            for a in T.atoms_of(v):
                if a.kind == "fn" and a.a in ("floor", "ceil") and a not in out:
                    out.append(a)
    out.sort(key=lambda a: a.id)
    out = [T.patom(a) for a in out]
    if 2 <= len(out) <= 4:      # the point may be reduced more than once
        out += [padd(a, b) for i, a in enumerate(out) for b in out[i + 1:]]
    return out or [ZERO]


def images(P, ns, ks, period):
    """(value, parity): points congruent to +-P modulo pi"""
    for n in ns:
        base = padd(P, pmul(const(period), pmul(n, PI)), -1) if n is not ZERO else P
        for k in sorted(ks, key=abs):
            q = padd(base, pmul(const(k), PI)) if k else base
            yield q, k % 2


def inside(F, l, q, u):
    return (l is NINF or (not is_special(l) and F.le(l, q))) and (u is PINF or (not is_special(u) and F.le(q, u)))


def relate(F, P, C, t, ns):
    """add facts that order cos(t) and C = cos(P)"""
    ct = fn("cos", (t,))

    def inrange(v):
        return F.le(ZERO, v) and F.le(v, PI)
    tts = []
    for s2, k2 in ((1, 0), (-1, 0), (1, 1), (1, -1), (-1, 1), (1, 2), (1, -2), (-1, 2)):
        tt = t if s2 > 0 else pneg(t)
        if k2:
            tt = padd(tt, pmul(const(k2), PI))
        if inrange(tt):
            tts.append((tt, k2 % 2))
    if not tts:
        return False
    for q, par in images(P, ns, (0, 1, -1, 2, -2), 2):
        for sq in (1, -1):
            qq = q if sq > 0 else pneg(q)
            if not any(k == par for _t, k in tts) or not inrange(qq):
                continue
            for tt, k2 in tts:
                if k2 != par:
                    continue
                # (-1)^par C = cos(qq), (-1)^par cos(t) = cos(tt), both arguments in [0,pi]
                a = pneg(ct) if k2 else ct
                b = pneg(C) if par else C
                lo, hi = F.le(tt, qq), F.le(qq, tt)
                if lo:
                    F.add_ge(padd(a, b, -1))
                if hi:
                    F.add_ge(padd(b, a, -1))
                if lo or hi:
                    return True
    return False


def trig_atoms(v, name):
    return [a for a in T.atoms_of(v) if a.kind == "fn" and a.a == name] if isinstance(v, T.Poly) else []


def nan_empty(E):
    """the reduction may meet NaNs for an infinite operand; their order relative to the empty pair of an exotic
    policy is not part of this property, so the empty pair is the NaNs that the documentation gives"""
    E.qhooks.insert(0, (lambda b, q, dem: b in ("empty_lower", "empty_upper") and (q.startswith("OChk::") or q.startswith("OChk2::")),
                        lambda e, st, a, ins, f: [("ret", NAN, st)]))


def run_cs(path, cn, name, cell):
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    nan_empty(E)
    R = Result()
    st = State()
    F = st.F()
    setup(F)
    x = Operand(F, "x", cell, cfg.fmt)
    if F.dead:
        return R
    C = T.sym("C")
    F.add_ge(padd(C, ONE))
    F.add_ge(padd(ONE, C, -1))
    HPI = T.pscale(PI, T.Fraction(1, 2))
    P = x.p if name == "cos" else padd(x.p, HPI, -1)
    base = "%s %s %s" % (cn, name, cellname(cell))
    cnt = [0]
    sz = FMTSZ[cfg.fmt]

    def cos_hook(e, s, a, ins, f):
        q, b = llvmir.base_name(f.pretty)
        if "interval" not in f.pretty or len(a) < 2:
            return None
        nested = any(llvmir.base_name(g.pretty)[0] == q for g, _ in e.stack)
        if name == "cos" and not nested:
            return None
        l = s.mem[a[1][1]].get(a[1][2])
        u = s.mem[a[1][1]].get(a[1][2] + sz)
        if l is None or u is None:
            raise Unsupported("operand of the inner cos")
        l, u = l[1], u[1]
        cnt[0] += 1
        cl, cu = T.sym("cl%d" % cnt[0]), T.sym("cu%d" % cnt[0])
        G = s.F()
        found = None
        if l is NAN or u is NAN or isinstance(l, Token) or isinstance(u, Token):
            # an empty interval or a NaN: cos may return anything of its range, or be empty
            vals = [(NAN, NAN)]
        else:
            hit = locate(s, G, l, u)
            if hit is not None:
                found = hit[1]
            R.check(found is not None, base + " inner", lambda: describe(
                e, s, "%s: the operand [%s, %s] of the inner cos is not shown to contain an argument with the same cosine (up to sign)" % (
                    base, show(l), show(u)), [l, u]))
            if found is None:
                s.user["giveup"] = 1
            w = pneg(C) if found else C
            for v in (cl, cu):
                G.add_ge(padd(v, ONE))
                G.add_ge(padd(ONE, v, -1))
            G.add_ge(padd(w, cl, -1))
            G.add_ge(padd(cu, w, -1))
            vals = [(cl, cu)]
        c = s.cells(a[0][1], True)
        st_sz = 10 if cfg.fmt == "f80" else sz
        for i, v in enumerate(vals[0]):
            c[a[0][2] + i * sz] = (st_sz, v)
        return [("ret", None, s)]
    def locate(s, G, l, u):
        """(a point of [l, u] whose cosine is (-1)^parity C, parity)"""
        for Q, p0 in reversed(s.user.get("track", ((P, 0),))):
            for img, par in images(Q, floors([l, u]), (0, 1, -1, 2, -2), 2):
                for v in (img, pneg(img)):
                    if inside(G, l, v, u):
                        return v, (par + p0) % 2
        return None

    def fmod_hook(e, s, a, ins, f):
        """cut: after an interval reduction modulo 2 PI whose result provably contains the shifted point, only this, and
        the sign of the lower bound, is remembered of the result"""
        if len(a) != 3 or len(split_params(f.pretty)) != 2 or not all(isinstance(v, tuple) and v[0] == "p" for v in a):
            return None
        def bounds(p):
            c = s.mem[p[1]]
            return tuple(c.get(p[2] + i * sz, (0, NAN))[1] for i in (0, 1))
        (l, u), (ml, mu) = bounds(a[1]), bounds(a[2])
        hit = None
        if all(isinstance(v, T.Poly) for v in (l, u, ml, mu)) and \
                s.facts.le(ml, pmul(const(2), PI)) and s.facts.le(pmul(const(2), PI), mu):
            hit = locate(s, s.F(), l, u)
        e.m_decode(f)
        e.functions_seen.add(f.name)
        e.stack.append((f, ins))
        try:
            res = e.exec(f, a, s)
        finally:
            e.stack.pop()
        if hit is None:
            return res
        for kind, _v, s2 in res:
            c = s2.mem[a[0][1]]
            tl, tu = (c.get(a[0][2] + i * sz, (0, NAN))[1] for i in (0, 1))
            if kind != "ret" or not isinstance(tl, T.Poly) or not isinstance(tu, T.Poly):
                continue
            ns = floors([tl, tu])
            for n in ns + [pneg(v) for v in ns]:
                q = padd(hit[0], pmul(const(2), pmul(n, PI)), -1)
                G = s2.F()
                if inside(G, tl, q, tu):
                    k = len(s2.user.get("track", ((P, 0),)))
                    Q, nl, nu = T.sym("Q%d'" % k), T.sym("rl%d" % k, cfg.fmt), T.sym("ru%d" % k, cfg.fmt)
                    pos = G.le(ZERO, tl)
                    G.add_ge(padd(Q, nl, -1))
                    G.add_ge(padd(nu, Q, -1))
                    G.add_ge(padd(nu, nl, -1))
                    if pos:
                        G.add_ge(nl)
                    s2.user["track"] = tuple(s2.user.get("track", ((P, 0),))) + ((Q, hit[1]),)
                    cc = s2.cells(a[0][1], True)
                    for i, v in enumerate((nl, nu)):
                        o = a[0][2] + i * sz
                        cc[o] = (cc[o][0], v)
                    break
        return res
    if CUT:
        E.qhooks.insert(0, (lambda b, q, dem: q == "boost::numeric::fmod", fmod_hook))
    E.qhooks.insert(0, (lambda b, q, dem: q == "boost::numeric::cos", cos_hook))
    out = st.new("out")
    res = E.run("t_" + name, x.args + [out], st)
    live = 0
    for kind, val, s in res:
        if s.facts.dead or s.user.get("giveup"):
            continue
        live += 1
        R.paths += 1
        if not R.check(kind == "ret", base + " exit", lambda: describe(E, s, "%s: %s %s" % (base, kind, val))):
            continue
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
        ok = not isempty(L, U) and is_num(L) and is_num(U)
        R.check(ok, base + " shape", lambda: describe(E, s, "%s: result [%s, %s] is empty or not a number" % (base, show(L), show(U))))
        if not ok:
            continue
        ns = floors([L, U])
        bad = {"lower", "upper"}
        for level in (0, 1, 2):
            for Q, par in reversed(s.user.get("track", ((P, 0),))):
                for k in (0, -1, 1):    # the bounds may have been computed for p shifted by half a period
                    if bad:
                        bad &= prove(s.F(), padd(Q, pmul(const(k), PI)) if k else Q, pneg(C) if (par + k) % 2 else C, L, U, ns, HPI, level, C)
        for side, b in (("lower", L), ("upper", U)):
            R.check(side not in bad, base + " " + side, lambda: describe(
                E, s, "%s: %s bound %s is not shown to be %s %s(p) for every p of the operand" % (
                    base, side, show(b), "<=" if side == "lower" else ">=", name), [b]))
        G = s.F()
        R.check(G.le(const(-1), L) and G.le(U, ONE), base + " range", lambda: describe(
            E, s, "%s: [%s, %s] is not within [-1,1]" % (base, show(L), show(U)), [L, U]))
        if len(R.samples) < 2:
            R.samples.append("%s = [%s, %s]" % (base, show(L), show(U)))
    R.check(live > 0 or R.fails, base + " live", base + ": no path reaches the end")
    R.absorb(E)
    return R


def has_floor(v):
    return any(a.kind == "fn" and a.a in ("floor", "ceil") for a in T.atoms_of(v)) if isinstance(v, T.Poly) else False


def reduced(F, P, C, L, U, ns):
    """facts about the reduced bounds alone.  Every rounded bound obtained with a reduction integer n becomes
    a fresh symbol; kept about it are the path facts that mention only such symbols, its sign, its position
    relative to the reduced point Q = P - 2 n PI, and its definition when that needs no reduction integer."""
    keep = []

    def tops(v):
        if isinstance(v, T.Poly):
            for m, _c in v.t:
                for a, _e in m:
                    at = T.Atom._all[a]
                    if at.kind == "rnd" and at not in keep and not trig_atoms(T.patom(at), "cos") and \
                            not trig_atoms(T.patom(at), "sin"):
                        keep.append(at)
    for v in (L, U):
        for nm in ("cos", "sin"):
            for a in trig_atoms(v, nm):
                tops(a.b[0])
    for f in F.fs:
        if has_floor(f):
            tops(f)
    for a in keep:              # grows
        if has_floor(a.c):
            tops(a.c)
    keep = [a for a in keep if has_floor(T.patom(a))]
    keep.sort(key=lambda a: a.id)
    if not keep:
        return F, P, [P], L, U
    G = T.Facts()
    setup(G)
    G.add_ge(padd(C, ONE))
    G.add_ge(padd(ONE, C, -1))
    mp = {}
    for i, a in enumerate(keep):
        mp[a] = T.sym("t%d" % i, a.b)
    Qs = []
    for i, n in enumerate(ns):
        q = padd(P, pmul(const(2), pmul(n, PI)), -1)
        Q = T.sym("Q%d" % i)
        Qs.append(Q)
        for a in keep:
            pa = T.patom(a)
            first, second = ((pa, q), (q, pa)) if a.a == "D" else ((q, pa), (pa, q))
            for lo, hi in (first, second):
                if F.le(lo, hi):
                    G.add_ge(padd(mp[a] if hi is pa else Q, mp[a] if lo is pa else Q, -1))
                    break
    for a in keep:
        pa = T.patom(a)
        if F.le(ZERO, pa):
            G.add_ge(mp[a])
        elif F.le(pa, ZERO):
            G.add_ge(pneg(mp[a]))
        c = T.subst(a.c, mp)
        if isinstance(c, T.Poly) and not has_floor(c):
            G.add_ge(padd(c, mp[a], -1) if a.a == "D" else padd(mp[a], c, -1))
    for f, strict in F.fs.items():
        g = T.subst(f, mp)
        if isinstance(g, T.Poly) and not has_floor(g):
            G.add_ge(g, strict)
    return G, Qs[0], Qs, T.subst(L, mp) if isinstance(L, T.Poly) else L, T.subst(U, mp) if isinstance(U, T.Poly) else U


def prove(F, P, C, L, U, ns, HPI, level=0, V=None):
    """sides of L <= V <= U not proved, with C the cosine of P"""
    V = C if V is None else V
    def attempt(G):
        bad = set()
        if not (not is_special(L) and G.le(L, V)):
            bad.add("lower")
        if not (not is_special(U) and G.le(V, U)):
            bad.add("upper")
        return bad
    bad = attempt(F)
    if not bad:
        return bad
    out = set()
    F, P, Qs, L, U = reduced(F, P, C, L, U, ns)
    if level:       # make the order of the arguments, the point and pi explicit
        ts = []
        for v in (L, U):
            for nm in ("cos", "sin"):
                for a in trig_atoms(v, nm):
                    t = a.b[0]
                    ts += [t] if t not in ts else []
        for t in list(ts):
            ts += [v for v in (T.patom(r) for r in T.atoms_of(t) if r.kind == "rnd") if v not in ts and pneg(v) not in ts and not has_floor(v)]
        if level > 1:       # and the rounded values that the path compares with constants
            for f in F.fs:
                at = [T.patom(r) for r in T.atoms_of(f) if r.kind == "rnd"] if isinstance(f, T.Poly) and not has_floor(f) else []
                if len(at) == 1 and len(ts) < 5 and at[0] not in ts and pneg(at[0]) not in ts:
                    ts.append(at[0])
        F = F.copy()
        syms = []
        for f in F.fs:
            for a in T.atoms_of(f) if isinstance(f, T.Poly) else ():
                v = T.patom(a)
                if a.kind == "sym" and str(a.a).startswith("rl") and v not in syms:
                    syms.append(v)
        for t in ts:        # t <= v and t <= w with v + w <= 2 PI
            for x in (t, pneg(t)):
                at = T.atoms_of(x) if len(x.t) == 1 else ()
                at = [a for a in at if a.kind == "rnd" and (x is T.patom(a) and a.a == "D" or x is pneg(T.patom(a)) and a.a == "U")]
                if at:
                    w = at[0].c if x is T.patom(at[0]) else pneg(at[0].c)
                    for v in ts + syms:
                        if v is not t and F.le(padd(v, w), pmul(const(2), PI)) and F.le(x, v):
                            F.add_ge(padd(PI, x, -1))
                            break
        for i, t in enumerate(ts):
            for v in [w for t2 in ts[:i] for w in (t2, pneg(t2))] + Qs + [const(PI_LO), ZERO]:
                for x in (t, pneg(t)):
                    for a, b in ((x, v), (v, x)):
                        if F.le(a, b):
                            F.add_ge(padd(b, a, -1))
                            break
    # split on the half period p lies in
    cases = [F.copy()]
    for q in Qs:
        piv = padd(q, PI, -1)
        nxt = []
        for G in cases:
            for sg in (piv, pneg(piv)):
                H = G.copy()
                H.add_ge(sg)
                if not H.dead:
                    nxt.append(H)
        cases = nxt
        if len(cases) > 8:
            break
    for G in cases:
        for q in Qs:
            if G.le(q, ZERO) and G.le(ZERO, q):
                G.add_eq(padd(C, ONE, -1))
            for v in (L, U):
                for a in trig_atoms(v, "cos"):
                    relate(G, q, C, a.b[0], [ZERO])
                for a in trig_atoms(v, "sin"):
                    t = padd(a.b[0], HPI, -1)
                    ct = fn("cos", (t,))
                    G.add_eq(padd(ct, T.patom(a), -1))
                    relate(G, q, C, t, [ZERO])
                if v is ONE:
                    G.add_ge(padd(v, C, -1))
        out |= attempt(G)
    return out


def run_tan(path, cn, cell):
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    nan_empty(E)
    R = Result()
    st = State()
    F = st.F()
    setup(F)
    x = Operand(F, "x", cell, cfg.fmt)
    if F.dead:
        return R
    HPI = T.pscale(PI, T.Fraction(1, 2))
    base = "%s tan %s" % (cn, cellname(cell))
    out = st.new("out")
    res = E.run("t_tan", x.args + [out], st)
    live = 0
    for kind, val, s in res:
        if s.facts.dead:
            continue
        live += 1
        R.paths += 1
        if not R.check(kind == "ret", base + " exit", lambda: describe(E, s, "%s: %s %s" % (base, kind, val))):
            continue
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
        ok = not isempty(L, U) and is_num(L) and is_num(U)
        R.check(ok, base + " shape", lambda: describe(E, s, "%s: result [%s, %s] is empty or not a number" % (base, show(L), show(U))))
        if not ok or (L is NINF and U is PINF):
            R.ob += 1
            R.ok += ok
            continue
        G = s.F()
        # one image of p between -pi/2 and pi/2 that both bounds enclose
        tl, tu = trig_atoms(L, "tan"), trig_atoms(U, "tan")
        args = []
        for v, at in ((L, tl), (U, tu)):
            if is_special(v) or v is ZERO:
                args.append(v)      # tan(0) is 0
            else:
                args.append(None)
                for a in at:
                    k = rnd("D" if v is L else "U", cfg.fmt, T.patom(a))
                    k2 = rnd("D" if v is L else "U", cfg.fmt, pneg(T.patom(a)))
                    if v is k:
                        args[-1] = a.b[0]
                    elif v is k2:
                        args[-1] = pneg(a.b[0])
        good = False
        ns = floors([L, U])
        if None not in args:
            for q, par in images(x.p, ns, (0, 1, -1), 1):
                a, b = args
                if inside(G, a, q, b) and (a is NINF or G.le(pneg(HPI), a, True)) and (b is PINF or G.le(b, HPI, True)):
                    # the whole piece must be free of poles: both ends inside the same branch
                    good = (a is not NINF and b is not PINF) or (a is NINF and b is PINF)
                    break
        R.check(good, base + " image", lambda: describe(
            E, s, "%s: [%s, %s] is not shown to be the image of an interval between two poles that contains p modulo pi" % (
                base, show(L), show(U)), [L, U]))
        if len(R.samples) < 2:
            R.samples.append("%s = [%s, %s]" % (base, show(L), show(U)))
    R.check(live > 0, base + " live", base + ": no path reaches the end")
    R.absorb(E)
    return R


def C12(tier):
    cs = ["opq/d", "opq/f", "transc/d"] + (["opq/l", "transc/f", "transc/l"] if tier == "thorough" else [])
    bc = compile_all([(SRC, c, ()) for c in cs])
    t = []
    for c in cs:
        p = bc[(SRC, c, ())]
        for cell in CELLS:
            t += [(run_cs, (c, "cos", cell), p), (run_cs, (c, "sin", cell), p), (run_tan, (c, cell), p)]
    return t, ("cos, sin and tan are interpreted with a ghost point p, the irrational ghost PI and the reduction integers floor(q) as atoms; on "
               "every path the bounds must enclose cos(p), sin(p) or tan(p) using only evenness, monotonicity and periodicity; inner calls of cos "
               "are replaced by this property."), TRUST
