"""C08: nth_root.  No function of the implementation is named here: the iteration is found as
the loop reached from nth_root, the interval it carries as the object it modifies."""
import llvmir
from lib import *
from arith import TRUST, xsign
from arith2 import shape, returned

SRC = "arith.cpp"
NS = "boost::numeric::"


class Restart(Exception):
    pass


def split_params(dem):
    """parameter types of a demangled signature"""
    k = dem.rfind(")")
    d, i = 0, k
    while i >= 0:
        if dem[i] == ")":
            d += 1
        elif dem[i] == "(":
            d -= 1
            if d == 0:
                break
        i -= 1
    out, d, cur = [], 0, ""
    for ch in dem[i + 1:k]:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def is_iv(t):
    return t.startswith("boost::numeric::interval<")


class Newton:
    """interval-level contracts: the enclosure theorems decided by C01-C03 and C07, applied to ghosts"""

    def __init__(self, E, R, base, fmt, k, modified):
        self.E, self.R, self.base, self.fmt, self.k, self.modified = E, R, base, fmt, k, modified
        self.sz = FMTSZ[fmt]
        self.n = 0
        self.dem = {}
        for nm in ("operator-", "operator+", "operator*", "operator/"):
            E.qhooks.insert(0, (lambda b, q, dem, nm=nm: q == NS + nm and any(is_iv(t) for t in split_params(dem))
                                and len(split_params(dem)) == 2, self.binop))
            E.qhooks.insert(0, (lambda b, q, dem, nm=nm: b == nm + "=" and q.startswith(NS + "interval::") and
                                len(split_params(dem)) == 1, self.compound))
        E.qhooks.insert(0, (lambda b, q, dem: q == NS + "pow" and len(split_params(dem)) == 2, self.pow))
        E.qhooks.insert(0, (lambda b, q, dem: q in ("ORnd::median", "ORndU::median"), self.median))
        E.loophook = self.loop
        E.exithook = self.leave

    def fresh(self, s, nm):
        c = s.user["nfresh"] = s.user.get("nfresh", 0) + 1
        return T.patom(T._mk("sym", ("nth", nm, c), None, None, self.fmt))

    # ---- values of one operand: (lo, hi, ghost points known to lie in it)
    def operand(self, s, p, t):
        if is_iv(t):
            c = s.mem[p[1]]
            lo, hi = c[p[2]][1], c[p[2] + self.sz][1]
            g = s.user.get("ghosts", {}).get((lo, hi), ())
            if lo is hi and is_num(lo) and not is_special(lo):
                g = tuple(g) + (lo,)
            return lo, hi, g
        v = s.mem[p[1]][p[2]][1] if isinstance(p, tuple) else p
        if isinstance(v, int):
            v = const(v)
        return v, v, (v,) if is_num(v) and not is_special(v) else ()

    def result(self, s, ret, ghosts):
        L, U = self.fresh(s, "L"), self.fresh(s, "U")
        G = s.F()
        for g in ghosts:
            G.add_ge(padd(g, L, -1))
            G.add_ge(padd(U, g, -1))
        G.add_ge(padd(U, L, -1))
        d = dict(s.user.get("ghosts", {}))
        d[(L, U)] = tuple(ghosts)
        s.user["ghosts"] = d
        c = s.cells(ret[1], True)
        c[ret[2]] = (self.sz, L)
        c[ret[2] + self.sz] = (self.sz, U)
        return [("ret", None, s)]

    def compound(self, e, s, a, ins, f):
        """x op= y: the operand is overwritten, a reference to it returned"""
        r = self.apply(s, llvmir.base_name(f.pretty)[1][-2], a[0], self.operand(s, a[0], "boost::numeric::interval<"),
                       self.operand(s, a[1], split_params(f.pretty)[0]))
        return [(k, a[0], st) for k, _v, st in r]

    def binop(self, e, s, a, ins, f):
        ts = split_params(f.pretty)
        return self.apply(s, llvmir.base_name(f.pretty)[1][-1], a[0],
                          self.operand(s, a[1], ts[0]), self.operand(s, a[2], ts[1]))

    def apply(self, s, op, ret, x, y):
        gs = []
        for g in x[2]:
            for h in y[2]:
                if op == "-":
                    gs.append(padd(g, h, -1))
                elif op == "+":
                    gs.append(padd(g, h))
                elif op == "*":
                    gs.append(pmul(g, h))
                else:
                    F = s.facts
                    if F.le(ZERO, h, True) or F.le(h, ZERO, True):
                        gs.append(pdiv(g, h))
        return self.result(s, ret, gs[:6])

    def slope(self, s, pair):
        """q of the pair: an unknown between lo^(k-1) and hi^(k-1)"""
        qs = dict(s.user.get("qs", {}))
        if pair not in qs:
            q = self.fresh(s, "q")
            s.F().add_ge(padd(q, ONE, -1))
            qs[pair] = (q, None)
            s.user["qs"] = qs
        return qs[pair]

    def pow(self, e, s, a, ins, f):
        lo, hi, g = self.operand(s, a[1], "boost::numeric::interval<")
        n = a[2]
        L = s.user.get("loop")
        gs = []
        G = s.F()
        if L and n == self.k - 1 and self.contains(G, lo, hi, L):
            gs.append(self.slope(s, (lo, hi))[0])
        if n == self.k and lo is hi and L and isinstance(lo, T.Poly):
            v = lo
            known = [p for p in s.user.get("ghosts", {}) if L["r"] in s.user["ghosts"][p]]
            for p in known:
                # mean value theorem: v^k - r^k = k q (v - r) for some q between lo^(k-1) and hi^(k-1)
                if self.contains(G, p[0], p[1], L) and G.le(p[0], v) and G.le(v, p[1]):
                    q, vq = self.slope(s, p)
                    if vq in (None, v):
                        s.user["qs"] = dict(s.user["qs"])
                        s.user["qs"][p] = (q, v)
                        gs.append(padd(L["X"], pmul(pmul(const(self.k), q), padd(v, L["r"], -1))))
        if n == 1:
            gs += g
        return self.result(s, a[0], gs)

    def median(self, e, s, a, ins, f):
        x, y = e.deref(s, a[1]), e.deref(s, a[2])
        mids = s.user.get("mids", {})
        if (x, y) in mids:
            return [("ret", mids[(x, y)], s)]
        v = self.fresh(s, "mid")
        s.user["mids"] = dict(mids)
        s.user["mids"][(x, y)] = v
        G = s.F()
        if isinstance(x, T.Poly):
            G.add_ge(padd(v, x, -1))
        if isinstance(y, T.Poly):
            G.add_ge(padd(y, v, -1))
        return [("ret", v, s)]

    # ---- the iteration
    def objs(self, s, frame, args):
        out = {("f", i): (o, 0) for i, o in enumerate(frame)}
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == "p":
                out[("a", i)] = (a[1], a[2])
        return out

    def leave(self, E_, f, results):
        """after the iteration: keep only the loop invariant when the result is an invariant interval"""
        for _k, _v, s in results:
            w = s.user.get("within")
            if w and w[1] == f.name:
                s.user["within"] = None
            h = s.user.get("head")
            if not h or h[0] != f.name:
                continue
            if all(at.id < h[2] for c in s.mem.values() for _sz, v in c.values() if isinstance(v, T.Poly)
                   for at in T.atoms_of(v)):
                s.facts, s.fown = h[1].copy(), True
                s.ev = ()
            else:
                L = s.user["loop"]
                pw = dict(s.user.get("pw", {}))
                here = {v for c in s.mem.values() for _sz, v in c.values() if isinstance(v, T.Poly)}
                for lo, hi in s.user.get("ghosts", {}):
                    if (lo in here and lo not in pw or hi in here and hi not in pw) and self.contains(s.F(), lo, hi, L):
                        self.bound(s.F(), pw, lo, "le", L["X"])
                        self.bound(s.F(), pw, hi, "ge", L["X"])
                s.user["pw"] = pw
            s.user["head"] = None

    def contains(self, G, lo, hi, L):
        return is_num(lo) and is_num(hi) and not is_special(lo) and not is_special(hi) and \
            G.le(lo, L["r"]) and G.le(L["r"], hi) and G.le(ONE, lo)

    def bound(self, G, pw, v, how, X):
        """v^k <= X (le) or v^k >= X (ge), v >= 1; roots are monotonic, so it compares with the bounds of earlier iterations"""
        for w, (h, Y) in list(pw.items()):
            if how == "ge" and h == "le" and G.le(Y, X):
                G.add_ge(padd(v, w, -1))
            if how == "le" and h == "ge" and G.le(X, Y):
                G.add_ge(padd(w, v, -1))
        pw[v] = (how, X)

    def interval_at(self, s, o, off):
        c = s.mem.get(o, {})
        v = [c.get(i, (0, NAN)) for i in (off, off + self.sz)]
        if any(x[0] != self.sz for x in v) or not all(isinstance(x[1], (T.Poly, T.Special)) for x in v):
            return None
        return v[0][1], v[1][1]

    def demote(self, mod, w):
        """w is not an invariant interval; keep at least one candidate"""
        if sum(1 for x in mod.values() if x == "inv") > 1:
            mod[w] = "any"
            raise Restart()

    def loop(self, E_, f, s, frame, regs, bi, n, args):
        key = (f.name, bi)
        mod = self.modified.setdefault(key, {})
        ob = self.objs(s, frame, args)
        act = ("act", f.name, bi, tuple(frame[:1]))
        if n == 1:
            if s.user.get("within"):
                raise Unsupported("nested loops in the iteration")
            cand = [(w, ob[w]) for w in sorted(mod) if w in ob]
            inv = [(w, oo) for w, oo in cand if mod[w] == "inv"]
            G = s.F()
            X = None
            for w, (o, off) in inv:
                v = self.interval_at(s, o, off)
                ok = v is not None and v[0] is ONE and is_num(v[1]) and not is_special(v[1]) and G.le(ONE, v[1]) and X in (None, v[1])
                if not ok:
                    self.demote(mod, w)
                else:
                    X = v[1]
                self.R.check(ok, self.base + " init", lambda: describe(
                    E_, s, "%s: the iteration starts from [%s, %s]; it needs [1, x] with a finite x >= 1" % (
                        self.base, show(v[0]) if v else "?", show(v[1]) if v else "?"), []))
                if not ok:
                    return False
            if inv:
                L = s.user["loop"] = {"X": X, "r": self.fresh(s, "r"), "act": act}
                G.add_ge(padd(X, L["r"], -1))
                G.add_ge(padd(L["r"], ONE, -1))
                d = dict(s.user.get("ghosts", {}))
                pw = dict(s.user.get("pw", {}))
                s.user["qs"] = {}
                for w, (o, off) in inv:
                    a, b = self.fresh(s, "a"), self.fresh(s, "b")
                    G.add_ge(padd(a, ONE, -1))
                    G.add_ge(padd(L["r"], a, -1))
                    G.add_ge(padd(b, L["r"], -1))
                    d[(a, b)] = (L["r"],)
                    self.bound(G, pw, a, "le", X)       # a^k <= x
                    self.bound(G, pw, b, "ge", X)
                    c = s.cells(o, True)
                    c[off] = (self.sz, a)
                    c[off + self.sz] = (self.sz, b)
                s.user["ghosts"] = d
                s.user["pw"] = pw
            for w, (o, off) in cand:
                if mod[w] == "any":
                    c = s.cells(o, True)
                    for i in c:
                        c[i] = (c[i][0], TopVal("carried by the iteration"))
            if inv:
                s.user["head"] = (f.name, s.F().copy(), len(T.Atom._all))
            s.user["snap"] = (act, {w: dict(s.mem[o]) for w, (o, off) in ob.items() if o in s.mem})
            s.user["within"] = act
            return True
        a0, snap = s.user["snap"]
        if n == 2 and a0 == act:
            L = s.user.get("loop")
            for w, (o, off) in sorted(ob.items()):
                now = s.mem.get(o, {})
                old = snap.get(w, {})
                if mod.get(w) == "inv":
                    v = self.interval_at(s, o, off) or (NAN, NAN)
                    ok = self.contains(s.F(), v[0], v[1], L)
                    if not ok:
                        self.demote(mod, w)
                    self.R.check(ok, self.base + " step", lambda: describe(
                        E_, s, "%s: after one iteration from any [a, b] that contains the root and any midpoint, the interval "
                        "[%s, %s] is not shown to contain the root" % (self.base, show(v[0]), show(v[1])), [x for x in v if isinstance(x, T.Poly)]))
                elif w not in mod and old and any(now.get(i) != v for i, v in old.items()):
                    if any(ob[x] == (o, 0) for x in mod if x in ob):
                        continue
                    mod[w] = "inv" if self.interval_at(s, o, off) and set(old) >= {off, off + self.sz} else "any"
                    raise Restart()
            return False
        raise Unsupported("nested loops in the iteration")


def unround(v, down):
    """drop one outer rounding of v that only loosens the bound in the safe direction"""
    if is_special(v):
        return v
    if len(v.t) == 1:
        (m, c), = v.t if isinstance(v.t, tuple) else v.t.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            at = T.Atom._all[m[0][0]]
            if at.kind == "rnd" and at.a == ("D" if (c > 0) == down else "U"):
                return at.c if c > 0 else pneg(at.c)
    return v


def power(w, k, pw, F):
    """(w^k rewritten with power symbols, facts extended)"""
    p = ppow(w, k)
    mp = {}
    out = {}
    for m, c in (p.t if isinstance(p.t, tuple) else p.t.items()):
        nm = {}
        for aid, e in m:
            base = T.patom(T.Atom._all[aid])
            if base in pw and e % k == 0:
                z = mp.get(base)
                if z is None:
                    z = mp[base] = T.patom(T._mk("sym", ("pow", base, k), None, None, "real"))
                    F.add_ge(z, True)
                    F.add_ge(padd(z, ONE, -1))
                    how, X = pw[base]
                    for Y in ([X] if unround(X, how != "ge") is X else [X, unround(X, how != "ge")]):
                        F.add_ge(padd(Y, z, -1) if how == "le" else padd(z, Y, -1))
                zid = z.t[0][0][0][0]
                nm[zid] = nm.get(zid, 0) + e // k
            else:
                nm[aid] = nm.get(aid, 0) + e
        key = tuple(sorted((a, e) for a, e in nm.items() if e))
        out[key] = out.get(key, 0) + c
    return T._poly(out)


def signs_in(F, x):
    """signs taken by points of the operand"""
    lo, hi = xsign(F, x.lo), xsign(F, x.hi)
    return [c for c in "-0+" if "-0+".index(lo) <= "-0+".index(c) <= "-0+".index(hi)]


def bound_ok(F, v, z, sg, k, lower, pw):
    """v <= z^(1/k) (lower) or z^(1/k) <= v, z having sign sg"""
    if v is (NINF if lower else PINF):
        return True
    if is_special(v):
        return False
    if sg == "0":
        return F.le(v, ZERO) if lower else F.le(ZERO, v)
    if sg == "-":
        return bound_ok(F, pneg(v), pneg(z), "+", k, not lower, pw)
    w = unround(v, lower)
    if lower:
        if F.le(w, ZERO):
            return True
        if F.le(w, ONE) and F.le(w, z):
            return True
        return F.le(ZERO, w) and F.le(power(w, k, pw, F), z)
    if not F.le(ZERO, w):
        return False
    if F.le(ONE, w) and F.le(z, w):
        return True
    return F.le(z, power(w, k, pw, F))


def run_root(path, cn, cx, k):
    cfg = CFG[cn]
    base = "%s nth_root(%s, %d)" % (cn, cellname(cx), k)
    modified = {}
    for _ in range(40):
        T.reset()
        R = Result()
        try:
            return run_root1(path, cfg, base, cn, cx, k, modified, R)
        except Restart:
            continue
    raise Unsupported("the loop-carried variables of the iteration do not stabilise")


def run_root1(path, cfg, base, cn, cx, k, modified, R):
    E = make_engine(path, cfg)
    Newton(E, R, base, cfg.fmt, k, modified)
    st = State()
    F = st.F()
    x = Operand(F, "x", cx, cfg.fmt, ghost=False)
    out = st.new("out")
    nret = 0
    for kind, val, s in E.run("root_in", x.args + [k, out], st):
        R.paths += 1
        if s.facts.dead:
            continue
        if not returned(R, E, base, kind, val, s):
            continue
        nret += 1
        G = s.F()
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
        if k % 2 == 0 and xsign(G, x.hi) == "-":
            R.check(isempty(L, U), base + " domain", lambda: describe(
                E, s, "%s: even root of a negative interval is [%s, %s], not empty" % (base, show(L), show(U))))
            continue
        if not shape(R, E, s, base, L, U):
            continue
        pw = s.user.get("pw", {})
        for side, v in (("lower", L), ("upper", U)):
            bad = None
            for sg in ("-", "0", "+"):
                if sg == "-" and k % 2 == 0:
                    continue
                # the root is monotone: the extreme point among those of this sign suffices
                h = G.copy()
                b = x.lo if side == "lower" else x.hi
                if sg not in signs_in(G, x):
                    continue
                if (sg == "-" and b is NINF) or (sg == "+" and b is PINF):
                    if v is not b:
                        bad = sg
                    continue
                z = b if not is_special(b) and xsign(G, b) == sg else ZERO
                if not bound_ok(h, v, z, sg, k, side == "lower", pw):
                    bad = sg
            R.check(bad is None, base + " " + side, lambda: describe(
                E, s, "%s: %s bound %s is not shown to be %s every real t with t^%d in x (t %s 0)" % (
                    base, side, show(v), "<=" if side == "lower" else ">=", k, bad), [v]))
        if k % 2 == 0:
            R.check(G.le(ZERO, L), base + " nonneg", lambda: describe(E, s, "%s: lower bound %s may be negative" % (base, show(L)), [L]))
        R.check(U is not PINF or x.hi is PINF, base + " bounded", lambda: describe(E, s, base + ": upper bound is infinite", [U]))
        R.check(L is not NINF or x.lo is NINF, base + " bounded", lambda: describe(E, s, base + ": lower bound is infinite", [L]))
        if len(R.samples) < 1:
            R.samples.append("%s: [%s, %s]; iteration invariant over %d loop-carried interval(s)" % (
                base, show(L), show(U), sum(len(m) for m in modified.values())))
    R.check(nret > 0, base + " live", base + ": no path returns")
    R.absorb(E)
    return R


def C08(tier):
    cs = ("opq/d",) if tier == "quick" else ("opq/d", "opq/f")
    bc = compile_all([(SRC, c, ()) for c in cs])
    t = []
    ks = [1, 2, 3, 4, 5, 8] if tier == "quick" else list(range(1, 21)) + [31, 64]
    for c in cs:
        for k in ks:
            t += [(run_root, (c, cx, k), bc[(SRC, c, ())]) for cx in CELLS]
    return t, ("Loop invariant by abstract interpretation: the iteration reached from nth_root carries an interval y = [a, b]; "
               "assuming 1 <= a <= r <= b for the real root r, one abstract iteration with any midpoint must re-establish it (enclosure contracts of the "
               "interval operators, mean value theorem), and with that invariant the bounds returned by nth_root must enclose every t with t^k in x "
               "on every sign cell."), TRUST + ["enclosure contracts of interval operators are those decided by C01-C03 and C07",
                                               "exponents other than the enumerated constants are not covered",
                                               "termination of the iteration is decided by C43"]
