"""C21: conversions between base types."""
from lib import *
from order import TRUST as _T
import arith

SRC = "conv.cpp"
TRUST = arith.TRUST
SIGNED = {"i32", "i64"}
UNS = {"u32", "u64"}


def isnat(fmt, cfg):
    return fmt == cfg.fmt


def scal(F, name, fmt, kind, cfg):
    """argument value of source format fmt"""
    if kind == "nan":
        return nanarg(cfg, fmt) if fmt == cfg.fmt else NAN, None
    if kind in ("ninf", "pinf"):
        v = NINF if kind == "ninf" else PINF
        return v, v
    v = bound_value(F, name, kind, fmt)
    if fmt[0] in "iu" and v is ZERO:
        return 0, ZERO
    return v, v


def kinds(fmt):
    if fmt[0] == "u":
        return ["0", "+"]
    if fmt[0] == "i":
        return ["-", "0", "+"]
    return ["-", "0", "+", "ninf", "pinf", "nan"]


def want_bound(v, m, cfg):
    return v if is_special(v) else rnd(m, cfg.fmt, v)


def run_conv(path, cfgname, fname, f1, f2, shape):
    cfg = CFG[cfgname]
    R = Result()
    for k1 in kinds(f1) + (["empty"] if shape[-1] == "i" else []):
        for k2 in (kinds(f2) if f2 else ["-"]):
            if shape[-1] == "i" and (k1 in ("nan", "pinf") or k2 in ("nan", "ninf")):
                continue
            E = make_engine(path, cfg)
            st = State()
            F = st.F()
            a1, v1 = scal(F, "x", f1, k1, cfg) if k1 != "empty" else (ZERO, None)
            args = [a1]
            v2 = v1
            if f2:
                a2, v2 = scal(F, "y", f2, k2, cfg)
                args.append(a2)
                if shape[-1] == "i":
                    if k1 == "empty":
                        fi = f1[0] in "iu"
                        args = [1, 0 if fi else ZERO, 0 if fi else ZERO]
                    else:
                        # a valid source interval
                        if is_special(v1) and v1 is PINF or is_special(v2) and v2 is NINF:
                            continue
                        if not is_special(v1) and not is_special(v2):
                            F.add_ge(padd(v2, v1, -1))
                        args = [0] + args
            if F.dead:
                continue
            if shape[0] == "a":
                z = Operand(F, "z", ("-", "+"), cfg.fmt, False)
                args = z.args + args
            out = st.new("out")
            base = "%s %s %s%s" % (cfgname, fname, k1, "," + k2 if f2 else "")
            res = E.run(fname, args + [out], st)
            R.absorb(E)
            live = 0
            for kind, val, s in res:
                if s.facts.dead:
                    continue
                live += 1
                R.paths += 1
                if not R.check(kind == "ret", base + " exit", lambda: describe(E, s, "%s: %s %s" % (base, kind, val))):
                    continue
                G = s.F()
                L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
                empty = v1 is None or v2 is None
                if not empty and f2 and shape[-1] != "i":
                    # reversed pair of scalars: empty
                    if v1 is v2 or (not is_special(v1) and not is_special(v2) and G.le(v1, v2)) or \
                       (v1 is NINF and v2 is not NINF) or (v2 is PINF and v1 is not PINF):
                        pass
                    elif (not is_special(v1) and not is_special(v2) and G.le(v2, v1, True)) or (v1 is PINF) or (v2 is NINF):
                        empty = True
                    else:
                        # the code did not compare the two scalars on this path
                        h = G.copy()
                        h.add_ge(padd(v1, v2, -1), True)
                        R.check(h.dead, base + " order", lambda: describe(
                            E, s, "%s: [%s, %s] is stored although the bounds may be reversed" % (base, show(L), show(U))))
                        continue
                if empty:
                    R.check(isempty(L, U), base, lambda: describe(E, s, "%s: [%s, %s] instead of an empty interval" % (base, show(L), show(U))))
                    continue
                for v, m, w, side in ((L, "D", v1, "lower"), (U, "U", v2, "upper")):
                    t = want_bound(w, m, cfg)
                    ok = is_num(v) and not isempty(v, v) and (v is t or eq_under(G, v, t))
                    R.check(ok, base + " " + side, lambda: describe(
                        E, s, "%s: %s bound is %s instead of %s" % (base, side, show(v), show(t)), [v]))
            R.check(live > 0, base + " live", base + ": no path reaches the end")
            if len(R.samples) < 1:
                R.samples.append(base)
    return R


def cfgs(tier):
    return ["opq/d", "opq/f", "def/d", "def/f", "std/d"] + (["def/l", "std/f", "std/l"] if tier == "thorough" else [])


RULE = ("For every source type and every kind of source value (negative, zero, positive, infinite, NaN, empty) the converting constructors and "
        "assignments are interpreted; each stored bound must be the downward, respectively upward, rounding term of the source value to the target format.")


def C21(tier):
    cs = cfgs(tier)
    bc = compile_all([(SRC, c, ()) for c in cs])
    t = []
    for c in cs:
        cfg = CFG[c]
        p = bc[(SRC, c, ())]
        for f in ("i32", "u32", "i64", "u64", "f32", "f64", "f80"):
            t.append((run_conv, (c, "conv_%s_s" % f, f, None, "s"), p))
            t.append((run_conv, (c, "conv_%s_ss" % f, f, f, "ss"), p))
            t.append((run_conv, (c, "conv_%s_a" % f, f, None, "as"), p))
        for f in ("f32", "f64", "f80") + (("i32", "i64") if cfg.opaque else ()):
            t.append((run_conv, (c, "conv_%s_i" % f, f, f, "i"), p))
            t.append((run_conv, (c, "conv_%s_ai" % f, f, f, "ai"), p))
        for a, b in (("i32", "f64"), ("f32", "f64"), ("f64", "i32"), ("f80", "f64"), ("i32", "f80")):
            t.append((run_conv, (c, "conv2_%s_%s" % (a, b), a, b, "ss"), p))
    return t, RULE, TRUST
