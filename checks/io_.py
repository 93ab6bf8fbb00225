"""C41: stream output."""
from lib import *
import order

SRC = "io.cpp"
SHAPES = [("-", "-"), ("-", "0"), ("-", "+"), ("0", "0"), ("0", "+"), ("+", "+"), ("ninf", "-"), ("-", "pinf"), ("ninf", "pinf")]


def text(E, st, v):
    """characters written for a character or string argument"""
    if isinstance(v, int):
        return chr(v & 0xff)
    if isinstance(v, tuple) and v and v[0] == "p":
        mem, off, out = st.mem[v[1]], v[2], ""
        step = 4 if (off + 4) in mem and (off + 1) not in mem else 1
        while True:
            c = mem.get(off)
            if c is None or not isinstance(c[1], int):
                return None
            if c[1] == 0:
                return out
            out += chr(c[1])
            off += step
    return None


def hooks(E):
    def put(e, st, a, ins, f):
        b = llvmir.base_name(f.pretty)[1]
        if b == "write":
            t = text(e, st, a[1])
            n = a[2] if isinstance(a[2], int) else None
            t = None if t is None or n is None or n > len(t) else t[:n]
        else:
            t = text(e, st, a[1])
        st.event("io", "text", t, a[0], e.loc(ins))
        return [("ret", a[0], st)]

    def num(e, st, a, ins, f):
        v = a[1]
        kind = "value" if not (isinstance(v, tuple) and v and v[0] in ("fn", "p")) else "other"
        st.event("io", kind, v, a[0], e.loc(ins))
        return [("ret", a[0], st)]
    E.qhooks.insert(0, (lambda b, q, dem: q == "std::operator<<" or (q.startswith("std::") and "stream::" in q and b in ("put", "write")), put))
    E.qhooks.insert(0, (lambda b, q, dem: q.startswith("std::") and "stream::" in q and b == "operator<<", num))


def run(path, cn, fname):
    cfg = CFG[cn]
    R = Result()
    isint = fname == "out_i"
    fmt = "i32" if isint else cfg.fmt
    for sh in SHAPES + ["empty", "any"]:
        if sh == "empty" and cn[:3] in ("raw", "str"):
            continue      # these policies have no empty interval
        if isint and (sh == "empty" or "ninf" in sh or "pinf" in sh):
            continue
        E = make_engine(path, cfg)
        hooks(E)
        st = State()
        F = st.F()
        if sh == "empty":
            x = Empty("x")
            args = x.args
        elif sh == "any":
            lo, hi = T.sym("xl", fmt), T.sym("xu", fmt)
            F.add_ge(padd(hi, lo, -1))
            x = None
            args = [0, lo, hi]
        else:
            x = Operand(F, "x", sh, fmt, False)
            lo, hi = x.lo, x.hi
            args = list(x.args)
        if isint:
            args = [0 if a is ZERO else a for a in args[1:]]
        s = st.new("stream")
        out = st.new("out")
        base = "%s %s %s" % (cn, fname, cellname(sh) if isinstance(sh, tuple) else sh)
        live = 0
        for kind, val, t in E.run(fname, [s] + args + [out], st):
            if t.facts.dead:
                continue
            live += 1
            R.paths += 1
            if not R.check(kind == "ret", base + " exit", lambda: describe(E, t, "%s: %s %s" % (base, kind, val))):
                continue
            G = t.F()
            seq = []
            strange = None
            for ev in t.events():
                if ev[0] != "io":
                    continue
                if ev[3] != s:
                    strange = "output goes to another stream at %s" % (ev[4],)
                if ev[1] == "text":
                    if ev[2] is None:
                        strange = "unknown text at %s" % (ev[4],)
                    else:
                        seq += list(ev[2])
                elif ev[1] == "value":
                    seq.append(("v", ev[2]))
                else:
                    strange = "unexpected output at %s" % (ev[4],)
            desc = " ".join(c if isinstance(c, str) else "<%s>" % show(c[1]) for c in seq)
            R.check(strange is None, base + " calls", lambda: describe(E, t, "%s: %s" % (base, strange)))
            want = "[]" if sh == "empty" else "[v,v]"
            got = "".join(c if isinstance(c, str) else "v" for c in seq)
            if R.check(got == want, base + " format", lambda: describe(E, t, "%s: writes %s" % (base, desc))) and sh != "empty":
                vals = [c[1] for c in seq if not isinstance(c, str)]
                for v, w, side in ((vals[0], lo, "lower"), (vals[1], hi, "upper")):
                    v2 = const(v - (1 << 32) if v >> 31 else v) if isinstance(v, int) else v
                    R.check(v2 is w or (is_num(v2) and eq_under(G, v2, w)), base + " " + side,
                            lambda: describe(E, t, "%s: %s bound is written as %s instead of %s" % (base, side, show(v2), show(w)), [v2]))
            r = t.mem[out[1]].get(0)
            R.check(r is not None and r[1] == s, base + " stream", lambda: describe(E, t, base + ": the stream itself is not returned"))
        R.check(live > 0, base + " live", base + ": no path reaches the end")
        R.absorb(E)
    R.samples.append("%s %s: [ lower , upper ] in order" % (cn, fname))
    return R


def C41(tier):
    cfgs = ["opq/d", "def/d", "def/f", "def/l", "raw/d", "strict/f"] + (["raw/f", "raw/l", "std/d"] if tier == "thorough" else [])
    paths = compile_all([(SRC, c, ()) for c in cfgs])
    tasks = []
    for c in cfgs:
        p = paths[(SRC, c, ())]
        fns = ["out_c", "out_w"] + (["out_i"] if c == "def/d" else [])
        for f in fns:
            tasks.append((run, (c, f), p))
    return tasks, ("on every path of operator<< the sequence of insertions into the stream, characters and values, is '[' lower ',' upper ']' for a non-empty interval "
                   "and '[]' for an empty one, all into the given stream, which is returned"), order.TRUST
