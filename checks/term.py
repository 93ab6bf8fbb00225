"""C43: every operation ends.

An abstract exploration that follows every path of an operation to its end, without cutting a loop or a
recursion, shows that no operand makes it run forever.  Three places need an argument instead: the
root iteration (its interval must strictly shrink, of finitely many numbers), a recursion on intervals (the
lower bound must strictly decrease and stay non-negative) and the exponents of pow, which are enumerated."""
from lib import *
from engine import Hang
import llvmir
import ops
import root
from arith2 import returned

NS = "boost::numeric::"
VISITS, DEPTH = 120, 48


def recursion(E, R, base, fmt):
    """a nested activation of a function of one interval: its operand starts at or above zero and below the
    operand of the outer activation, when that starts at or above zero too; it may return anything"""
    sz = FMTSZ[fmt]
    cnt = [0]

    def bounds(s, p):
        c = s.mem.get(p[1], {})
        l, u = c.get(p[2]), c.get(p[2] + sz)
        return (l[1], u[1]) if l and u else None

    def hook(e, s, a, ins, f):
        ps = root.split_params(f.pretty)
        if len(ps) != 1 or not root.is_iv(ps[0]) or len(a) != 2 or not all(isinstance(x, tuple) and x[0] == "p" for x in a):
            return None
        now = bounds(s, a[1])
        outer = s.user.get("act", {})
        nested = any(g.name == f.name for g, _ in e.stack)
        if not nested or f.name not in outer:
            s.user["act"] = dict(outer)
            s.user["act"][f.name] = now
            return None
        was = outer[f.name]
        G = s.F()
        if now is None or was is None:
            raise Unsupported("operand of a recursive call")
        (l, u), (l0, _u0) = now, was
        done = isempty(l, u)
        up = done or (is_num(l) and not is_special(l) and G.le(ZERO, l))
        down = done or is_special(l0) or isinstance(l0, Token) or (
            G.le(l0, ZERO, True) or (up and G.le(l, l0, True)))
        R.check(up and down, base + " recursion", lambda: describe(
            e, s, "%s: %s calls itself on [%s, %s] from [%s, ...]; the lower bound is not shown to %s, so the recursion may not end" % (
                base, llvmir.base_name(f.pretty)[1], show(l), show(u), show(l0), "decrease" if up else "be non-negative"), [l]))
        if len(R.samples) < 1 and not done:
            R.samples.append("%s: recursion on a lower bound %s, below %s and at least 0" % (base, show(l), show(l0)))
        cnt[0] += 1
        cl, cu = T.sym("cl%d" % cnt[0]), T.sym("cu%d" % cnt[0])
        G.add_ge(padd(cu, cl, -1))
        c = s.cells(a[0][1], True)
        for i, v in enumerate((cl, cu)):
            c[a[0][2] + i * sz] = (10 if fmt == "f80" else sz, v)
        return [("ret", None, s)]
    E.qhooks.insert(0, (lambda b, q, dem: q.startswith(NS) and "interval<" in dem and not any(x in q for x in ("interval<", "interval::")), hook))


def ends(R, base, f):
    """f() explores; not reaching the end of a loop or a recursion is the violation"""
    try:
        return f()
    except Hang as e:
        R.check(False, base + " end", "%s: %s: no bound on the number of steps is found" % (base, e))
        return None


# ------------------------------------------------------------------ all operations but the roots
def run_op(path, cn, src, fname, sig, nout, cells):
    R0 = Result()
    base = "%s %s %s" % (cn, fname, ",".join(cellname(c) for c in cells))

    def setup(E):
        # the cut of ops.go is replaced by the obligation on the recursion
        del E.qhooks[0]
        recursion(E, R0, base, CFG[cn].fmt)
        E.max_visits, E.max_depth = VISITS, DEPTH
    D = ends(R0, base, lambda: ops.go(path, cn, src, fname, sig, nout, cells, setup))
    if D is None or D.dead:
        return R0
    for kind, v, s in D.res:
        if s.facts.dead:
            continue
        R0.paths += 1
        R0.check(kind != "stop" or v == "assert", base + " end", lambda: describe(D.E, s, "%s: ends by %s" % (base, v)))
    R0.absorb(D.E)
    return R0


# ------------------------------------------------------------------ pow, by exponent
def run_pow(path, cn, n):
    cfg = CFG[cn]
    E = make_engine(path, cfg)
    E.max_visits, E.max_depth = VISITS, DEPTH
    R = Result()
    base = "%s pow(x, %d)" % (cn, n)
    cnt = [0]

    def value(e, s, a, ins, f):
        cnt[0] += 1
        v = T.sym("p%d" % cnt[0], cfg.fmt)
        s.F().add_ge(v)
        return [("ret", v, s)]
    # the products do not matter here
    E.qhooks.insert(0, (lambda b, q, dem: q in ("ORnd::mul_down", "ORnd::mul_up", "ORndU::mul_down", "ORndU::mul_up"), value))
    st = State()
    F = st.F()
    x = Operand(F, "x", ("any", "any"), cfg.fmt, ghost=False)
    res = ends(R, base, lambda: E.run("pow_in", x.args + [n & 0xffffffff, st.new("out")], st))
    for kind, v, s in res or []:
        if s.facts.dead:
            continue
        R.paths += 1
        R.check(kind != "stop" or v == "assert", base + " end", lambda: describe(E, s, "%s: ends by %s" % (base, v)))
    R.absorb(E)
    if n in (2**31 - 1, -2**31 + 1):
        R.samples.append("%s: all %d paths end" % (base, R.paths))
    return R


# ------------------------------------------------------------------ nth_root: the iteration shrinks its interval
class Shrink(root.Newton):
    def __init__(self, E, R, base, fmt, k, modified, SR):
        root.Newton.__init__(self, E, R, base, fmt, k, modified)
        self.SR = SR

    @staticmethod
    def differ(s, a, b, l, u):
        """l = a and u = b contradicts the path condition"""
        H = s.F().copy()
        H.add_eq(padd(l, a, -1))
        H.add_eq(padd(u, b, -1))
        m = s.user.get("mids", {})
        if (a, b) in m and (l, u) in m:
            H.add_eq(padd(m[(a, b)], m[(l, u)], -1))
        return H.dead or any(strict and H.le(f, ZERO) for f, strict in list(H.fs.items()))

    def loop(self, E_, f, s, frame, regs, bi, n, args):
        if n == 1:
            r = root.Newton.loop(self, E_, f, s, frame, regs, bi, n, args)
            if r:
                s.user["entry"] = {w: self.interval_at(s, *o) for w, o in self.objs(s, frame, args).items()}
            return r
        mod = self.modified.get((f.name, bi), {})
        inv = [w for w in mod if mod[w] == "inv"]
        a0, _snap = s.user["snap"]
        if a0 != ("act", f.name, bi, tuple(frame[:1])) or not inv or n not in (2, 3):
            return root.Newton.loop(self, E_, f, s, frame, regs, bi, n, args)
        ob = self.objs(s, frame, args)
        G = s.F()
        ok = False
        for w in inv:
            was, now = s.user["entry"].get(w), self.interval_at(s, *ob[w])
            if was is None or now is None or any(is_special(v) for v in was + now):
                continue
            (a, b), (l, u) = was, now
            if G.le(a, l) and G.le(u, b) and (G.le(a, l, True) or G.le(u, b, True) or self.differ(s, a, b, l, u)):
                ok = True
        if n == 2:
            root.Newton.loop(self, E_, f, s, frame, regs, bi, n, args)
            if not ok:          # the test at the head may end the loop: the obligation is on the next back edge
                return True
        self.SR.check(ok, self.base + " shrink", lambda: describe(
            E_, s, "%s: from [a, b], an iteration that does not end the loop leaves [%s, %s], which is not shown to be strictly "
            "inside: the iteration may not end" % (self.base, *((show(x) for x in self.interval_at(s, *ob[inv[0]]) or (NAN, NAN)))), []))
        self.SR.user = getattr(self.SR, "user", 0) + 1
        return False


def run_root(path, cn, cx, k):
    cfg = CFG[cn]
    base = "%s nth_root(%s, %d)" % (cn, cellname(cx), k)
    modified = {}
    for _ in range(40):
        T.reset()
        R = Result()
        E = make_engine(path, cfg)
        E.max_visits, E.max_depth = VISITS, DEPTH
        Shrink(E, Result(), base, cfg.fmt, k, modified, R)
        st = State()
        x = Operand(st.F(), "x", cx, cfg.fmt, ghost=False)
        try:
            res = ends(R, base, lambda: E.run("root_in", x.args + [k, st.new("out")], st))
        except root.Restart:
            continue
        for kind, v, s in res or []:
            if s.facts.dead:
                continue
            R.paths += 1
            R.check(kind != "stop" or v == "assert", base + " end", lambda: describe(E, s, "%s: ends by %s" % (base, v)))
        if R.ob and getattr(R, "user", 0):
            R.samples.append("%s: %d back edges of the iteration, on each the interval strictly shrinks" % (base, R.user))
        R.absorb(E)
        return R
    raise Unsupported("the loop-carried variables of the iteration do not stabilise")


def exponents(tier):
    ns = set(range(-20, 41))
    for j in range(5, 31):
        ns |= {2**j - 1, 2**j, 2**j + 1, -2**j}
    ns |= {2**31 - 1, -2**31 + 1, -2**31, 0x55555555, 0x2aaaaaaa, 1000, 999983}
    if tier == "thorough":
        ns |= set(range(-512, 1025))
    return sorted(ns)


def C43(tier):
    cs = ["opq/d"] + (["opq/f", "opq/l"] if tier == "thorough" else [])
    kinds = (ops.FREE + ["empty"], ["any", "nan"], ["any"])
    O = [o for o in ops.OPS if not o[1].startswith("root")] + ops.UTIL + ops.SETS + ops.CTOR + ops.RELS
    t = []
    bc = compile_all([(s, c, ()) for c in cs for s in ("arith.cpp", "transc.cpp")])
    for c in cs:
        a = bc[("arith.cpp", c, ())]
        for cx in CELLS:
            for k in (1, 2, 3, 4, 5) if tier == "quick" else range(1, 13):
                t.append((run_root, (c, cx, k), a))
        for n in exponents(tier):
            t.append((run_pow, (c, n), a))
    t += ops.plan(cs, kinds, run_op, O)
    for c in cs:
        for o in ("sin", "cos", "tan"):
            for cx in CELLS:
                t.append((run_op, (c, "transc.cpp", "t_" + o, "X", 2, (cx,)), bc[("transc.cpp", c, ())]))
    return t, ("Complete path exploration of every operation for unconstrained operands with no loop cut: each path reaches a return or an exception "
               "within the exploration bounds. The loop of nth_root is abstracted by its invariant, with the obligation that every back edge leaves "
               "the interval strictly inside the previous one; a recursive call on an interval needs a lower bound that is non-negative and "
               "strictly below that of the caller; pow is explored for each enumerated exponent."), ops.TR + [
                   "base types have finitely many values", "exponents between the enumerated ones behave alike", "policies return"]
