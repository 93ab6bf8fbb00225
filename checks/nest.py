"""C46: rounding objects nest; the unprotected variants inside a live object do what the protected ones do."""
from lib import *
import ops
import rounding
from ops import TR

XY = [(o + v, s, "222") for o in ("add", "sub", "mul", "div") for v, s in (("_ii", "XY"), ("_is", "Xs"), ("_si", "sY"), ("_cii", "XY"), ("_cis", "Xs"))]
ARITH = XY + [(n, "X", "222") for n in ("inv_i", "square_i", "sqrt_i", "neg_i", "abs_i", "powm3_i", "pow0_i", "pow2_i", "pow5_i")] + [
    (n, "XY", "222") for n in ("part1_ii", "part2_ii", "fmod_ii", "hull_ii", "intersect_ii", "max_ii", "chain")] + [
    ("fmod_is", "Xs", "222"), ("widen_is", "Xs", "222"), ("norm_i", "X", "111"), ("width_i", "X", "111"), ("median_i", "X", "111"), ("bisect_i", "X", "444")]
for _n in ("i32", "i64", "f32", "f80"):
    ARITH += [("conv_%s_s" % _n, _n, "444"), ("conv_%s_ss" % _n, _n + _n, "222")]
ARITH += [("conv_f32_i", "If32", "444"), ("conv_f80_i", "If80", "444")]
ELEM = [(n + "_i", "X", "222") for n in ("exp", "log", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "asin", "acos", "atan")]
TRIG = [(n + "_i", "X", "222") for n in ("sin", "cos", "tan")]
WHO = ["the unprotected operation inside a live rounding object", "the protected operation inside a live rounding object"]


def same(F, a, b):
    if isinstance(a, TopVal) or isinstance(b, TopVal):
        return False
    return a is b or eq_under(F, a, b)


def pair(path, cn, src, name, sig, nout, cells):
    """protected, unprotected inside a live object, protected inside a live object: one result"""
    D = ops.go(path, cn, src, "n_" + name, sig, nout, cells, lambda E: None)
    R = D.R
    if D.dead:
        return R
    n = 0
    for kind, v, s in D.res:
        if s.facts.dead:
            continue
        n += 1
        R.paths += 1
        if not R.check(kind == "ret", D.base + " exit", lambda: describe(D.E, s, "%s: no result (%s %s)" % (D.base, kind, v))):
            continue
        r = [results(D, s, i) for i in range(3)]
        for i in (1, 2):
            for j, nm in enumerate(("lower", "upper", "second lower", "second upper")[:len(r[0])] if len(r[0]) > 1 else ("",)):
                R.check(same(s.facts, r[0][j], r[i][j]), "%s value %d.%d" % (D.base, i, j), lambda: describe(
                    D.E, s, "%s: %s gives %s %s, outside it is %s" % (D.base, WHO[i - 1], nm, show(r[i][j]), show(r[0][j])), [r[0][j], r[i][j]]))
        leave(D, s, R, kind)
    R.check(n > 0, D.base + " live", D.base + ": no path")
    R.samples.append("%s: three equal results on %d paths" % (D.base, n))
    return R


def results(D, s, i):
    return ops.results(D, s, i)


def leave(D, s, R, kind):
    ev = s.events()
    bad = [e for e in ev if e[0] == "badmode"]
    pr = [e for e in ev if e[0] == "protocol"]
    R.check(D.E.inmode(s, "E") and not bad, D.base + " mode", lambda: describe(D.E, s, "%s: on an exit by %s the rounding mode is %s instead of the mode at entry" % (
        D.base, {"ret": "return", "throw": "exception"}[kind], ops.MODE.get(s.mode, s.mode))))
    R.check(not pr and not s.user.get("live", ()), D.base + " alive", lambda: describe(
        D.E, s, "%s: %s" % (D.base, "%s at %s" % pr[0][1:3] if pr else "a rounding object is not destroyed")))


def alone(path, cn, src, name, sig, nout, cells):
    """the unprotected operation in a live object, left by return or exception"""
    def setup(E):
        E.throwing = cn[:3] == "opq"
    D = ops.go(path, cn, src, "u_" + name, sig, nout, cells, setup)
    R = D.R
    if D.dead:
        return R
    th = n = 0
    for kind, v, s in D.res:
        if s.facts.dead:
            continue
        if not R.check(kind != "stop", D.base + " exception", lambda: describe(D.E, s, "%s: an exception ends the program" % D.base)):
            continue
        n += 1
        th += kind == "throw"
        R.paths += 1
        leave(D, s, R, kind)
    R.samples.append("%s: %d exits, %d of them exceptional" % (D.base, n, th))
    return R


FORMS = ("a_", "b_", "c_", "d_", "e_", "f_", "g_")


def rjobs(classes, fmts):
    j = {}
    for c in classes:
        for f in fmts:
            x = ["-DCLS=" + rounding.CLASSES[c][0]] + (["-DTRANSC"] if rounding.CLASSES[c][3] else [])
            j[(c, f)] = ("nestr.cpp", "opq/" + f, tuple(x))
    return j


def C46(tier):
    deep = tier == "thorough"
    t = []
    cl = ["save_exact", "save_std", "save_opp", "math", "transc_std", "transc_opp"] + (["transc_exact", "transcdef_exact", "transcdef_std", "transcdef_opp"] if deep else [])
    fm = "dfl" if deep else "dl"
    j = rjobs(cl, fm)
    cs = [("def/d", ()), ("std/d", ()), ("opq/d", ())] + ([("def/f", ()), ("def/l", ()), ("std/f", ()), ("std/l", ()), ("transc/d", ())] if deep else [])
    tc = [(c, ("-DNESTT",)) for c in ("std/d", "transc/d") + (("std/f", "transc/f", "std/l", "transc/l") if deep else ())]
    wh = [("opq/d", ()), ("strict/d", ())] + ([("strict/f", ()), ("opq/l", ())] if deep else [])
    wt = [("strict/d", ("-DNESTT",)), ("opq/d", ("-DNESTT",))]
    keys = [("nest.cpp", c, x) for c, x in cs + tc + wh + wt]
    bc = compile_all(list(j.values()) + keys)
    kinds = (ops.FREE, ["any"], ["any"])
    for what, lst, func, kd in ((ARITH, cs, pair, kinds), (ELEM, tc, pair, kinds), (ARITH, wh, alone, (ops.FREE[:1] + ["empty"], ["any", "nan"], ["any"])),
                                (ELEM + TRIG, wt, alone, (ops.FREE[:1] + ["empty"], ["any"], ["any"]))):
        for c, x in lst:
            for name, sig, nout in what:
                for cells in ops.combos(sig, kd):
                    if func is pair and name == "atanh_i" and c[-1] == "l":
                        continue            # goes through double: the rounded argument may be the pole, undecided between two evaluations
                    if func is pair and name[:4] == "fmod" and any(b[:1] in "np" for c in cells if isinstance(c, tuple) for b in c):
                        continue            # fmod is meant for bounded operands (C17)
                    t.append((func, (c, "nest.cpp", name, sig, nout, cells), bc[("nest.cpp", c, x)]))
    t.sort(key=lambda k: k[1][2] not in ("chain", "div_ii", "div_cii", "mul_ii", "mul_cii"))
    PM = rounding.PM
    for (c, f), job in j.items():
        p, cn = bc[job], "opq/" + f
        for pre in FORMS:
            for d in ("_down", "_up"):
                for op in ("add", "sub", "mul", "div"):
                    t.append((rounding.member, (cn, c, pre, op + d, ("+" if op == "div" else "any", "-" if op == "div" else "any")), p))
                for op in ("sqrt", "int"):
                    t.append((rounding.member, (cn, c, pre, op + d, ("+" if op == "sqrt" else "any",)), p))
                if rounding.CLASSES[c][3]:
                    for op in rounding.ELEM:
                        for x in rounding.DOM.get(op, ["any"]):
                            t.append((rounding.member, (cn, c, pre, op + d, (x,)), p))
            t.append((rounding.member, (cn, c, pre, "median", ("any", "any")), p))
    return t, ("Each operation is interpreted three times on the same symbolic operands within one abstract run: on the protected type, on the unprotected type "
               "inside a live rounding object (after another such operation), and on the protected type inside a live rounding object; the results must be "
               "equal terms on every path and the processor mode on exit, by return or exception, the mode at entry. Each member of each rounding class is "
               "interpreted through seven nestings of protected and unprotected objects; its result must be the directed rounding of the exact result."), TR + [
                   "fesetround/fegetround set and report the mode; conversions and arithmetic instructions round in the current mode"]
