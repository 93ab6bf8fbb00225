"""C34: the checking policies."""
from lib import *
from engine import exc_matches
import llvmir

TR = ["clang 18 lowering of the templates to LLVM IR (-O0)", "sa/engine.py abstract semantics of IR"]
FAIL = {"empty": "_ZTISt13runtime_error", "nan": "_ZTISt16invalid_argument"}
VAL = ["NaN", "-inf", "+inf", "-", "0", "+"]
# name -> (reacts to an empty interval being created, is_nan: test/never/catch, opaque base and reaction, integer type)
POL = {"base": (0, "test"), "noempty": (1, "test"), "nonan": (0, "never"), "catchnan": (0, "catch"), "strict": (1, "never"), "catchstrict": (1, "catch"),
       "noempty_o": (1, "test"), "nonan_o": (0, "never"), "catchnan_o": (0, "catch"),
       "base_i": (0, "test"), "noempty_i": (1, "test"), "nonan_i": (0, "never"), "catchnan_i": (0, "catch"), "strict_i": (1, "never")}


def value(F, name, c, fmt):
    if c in ("NaN", "-inf", "+inf"):
        return {"NaN": NAN, "-inf": NINF, "+inf": PINF}[c]
    return Scalar(F, name, c, fmt).lo


def run(path, cn, pol, member, asserts=True):
    cfg = CFG[cn]
    R = Result()
    noempty, nanmode = POL[pol]
    opq, isint = pol.endswith("_o"), pol.endswith("_i")
    fmt = "i32" if isint else cfg.fmt
    if member == "is_nan":
        cases = [(c,) for c in (VAL if not isint else VAL[3:])]
    elif member == "is_empty":
        V2 = VAL if not isint else VAL[3:]
        cases = [(a, b) for a in V2 for b in V2] + [("x", "x"), ("x", "x-"), ("x", "x+")]
    else:
        cases = [()]
    for cs in cases:
        E = make_engine(path, cfg)

        def react(e, st, a, ins, f):
            st.event("react", e.loc(ins))
            s2 = st.fork()
            s2.exc = ("_ZTI5Opaque", s2.new("exc"))
            return [("throw", s2.exc[0], s2), ("ret", None, st)]
        E.qhooks.insert(0, (lambda b, q, dem: q.startswith("OExc::"), react))
        st = State()
        F = st.F()
        base = "%s %s::%s(%s)" % (cn, pol, member, ",".join(cs))
        if cs and cs[0] == "x":
            x = Scalar(F, "x", "any", fmt).lo
            y = x
            if cs[1] != "x":
                y = Scalar(F, "y", "any", fmt).lo
                F.add_ge(padd(y, x, -1) if cs[1] == "x+" else padd(x, y, -1), True)
            args, le = [x, y], cs[1] != "x-"
        else:
            args = [value(F, n, c, fmt) for n, c in zip("xy", cs)]
            rank = {"-inf": -2, "-": -1, "0": 0, "+": 1, "+inf": 2}
            le = None
            if len(cs) == 2:
                le = "NaN" not in cs and (rank[cs[0]] <= rank[cs[1]] if cs[0] != cs[1] or cs[0] not in "-+" else None)
        if isint:
            for v in args:
                if isinstance(v, T.Poly) and v is not ZERO:
                    F.add_ge(padd(v, const(2**31)))
                    F.add_ge(padd(const(2**31 - 1), v, -1))
            args = [0 if v is ZERO else v for v in args]
        live = 0
        for kind, v, s in E.run(pol + "_" + member, args, st):
            if s.facts.dead:
                continue
            live += 1
            R.paths += 1
            ev = s.events()
            react_n = sum(1 for e in ev if e[0] == "react")
            delegated = [e[1] for e in ev if e[0] == "chk"]
            ok, what = verdict(pol, member, cs, le, kind, v, s, react_n, delegated, noempty, nanmode, opq, isint, fmt, asserts)
            R.check(ok, base, lambda: describe(E, s, "%s: %s, expected %s" % (base, {"ret": "returns %s" % show_(v), "throw": "throws %s" % v}.get(
                kind, "%s %s" % (kind, v)) + (" after %d reactions" % react_n if opq else ""), what)))
        R.absorb(E)
        R.check(live > 0, base + " live", base + ": no outcome")
    R.samples.append("%s %s::%s: %d operand classes" % (cn, pol, member, len(cases)))
    return R


def show_(v):
    return "an empty-interval token" if isinstance(v, Token) else str(v) if isinstance(v, int) or v is None else show(v)


def num(v, c):
    return v == c or isinstance(v, T.Poly) and v.is_const() and v.const() == c


def verdict(pol, member, cs, le, kind, v, s, react_n, delegated, noempty, nanmode, opq, isint, fmt, asserts):
    if member in ("pos_inf", "neg_inf", "nan"):
        if isint or (member == "nan" and noempty):      # unavailable or excluded: an assertion, or some value without it
            if asserts:
                return (kind, v) == ("stop", "assert"), "a failed assertion"
            return kind == "ret", "no exception"
        w = {"pos_inf": PINF, "neg_inf": NINF, "nan": NAN}[member]
        return kind == "ret" and v is w and (not opq or delegated == [member]), "the value of %s%s" % (member, " of the underlying policy" if opq else "")
    if member in ("empty_lower", "empty_upper"):
        if noempty:
            if opq:
                if kind == "throw":
                    return v == "_ZTI5Opaque" and react_n == 1, "the user's exception"
                return kind == "ret" and react_n == 1 and delegated == [member], "the underlying policy's value after one call of the reaction"
            return kind == "throw" and exc_matches(v, FAIL["empty"]), "std::runtime_error"
        if opq:
            return kind == "ret" and delegated == [member] and not react_n, "the underlying policy's " + member
        if isint:
            return kind == "ret" and num(v, 1 if member == "empty_lower" else 0), "the bound of [1,0]"
        return kind == "ret" and v is NAN, "NaN"
    if member == "pair":
        if noempty:
            return kind == "throw" or opq and kind == "ret" and num(v, 0), "an exception"
        if opq:
            return kind == "ret" and num(v, 1), "true"
        return kind == "ret" and num(v, 1), "true"
    if member == "is_nan":
        isnan = cs[0] == "NaN"
        if nanmode == "never":
            return kind == "ret" and num(v, 0) and not react_n, "false"
        if nanmode == "test":
            return kind == "ret" and num(v, int(isnan)), "true" if isnan else "false"
        if not isnan:
            return kind == "ret" and num(v, 0) and not react_n, "false without any reaction"
        if opq:
            return react_n == 1 and (v == "_ZTI5Opaque" if kind == "throw" else num(v, 0)), "one reaction, then false"
        return kind == "throw" and exc_matches(v, FAIL["nan"]), "std::invalid_argument"
    # is_empty
    if noempty:
        return kind == "ret" and num(v, 0), "false"
    if le is None:       # operands of one sign: decided by their order
        F = s.facts
        x, y = s.user["xy"] if "xy" in s.user else (None, None)
        return kind == "ret" and (num(v, 0) or num(v, 1)), "a truth value"
    return kind == "ret" and num(v, int(not le)), "true" if not le else "false"


def C34(tier):
    cs = ["opq/d", "opq/f", "opq/l"]
    bc = compile_all([("check.cpp", c, e) for c in cs for e in ((), ("-DNDEBUG",))])
    t = []
    for c in cs:
        for e in ((), ("-DNDEBUG",)):
            for p in POL:
                if p.endswith("_i") and c != "opq/d":
                    continue
                for m in ("pos_inf", "neg_inf", "nan", "is_nan", "empty_lower", "empty_upper", "is_empty", "pair"):
                    t.append((run, (c, p, m, not e), bc[("check.cpp", c, e)]))
    return t, ("Every member of every checking policy is interpreted on every class of argument (NaN, infinities, signs, every order of two bounds), "
               "with and without assertions, over built-in types with and without NaN, and over an opaque underlying policy with an opaque reaction; value, "
               "exception type, reaction count and delegation must be those of the documented classification."), TR


# ------------------------------------------------------------------ no empty interval is ever created
def never(path, cn, src, fname, sig, nout, cells):
    import ops
    D = ops.go(path, cn, src, fname, sig, nout, cells)
    if D.dead:
        return D.R
    n = {"ret": 0, "throw": 0}
    for kind, v, s in D.res:
        if s.facts.dead:
            continue
        if kind == "stop":
            D.R.check(v != "terminate", D.base + " terminate", lambda: describe(D.E, s, "%s: the exception of the policy ends the program" % D.base))
            continue
        D.R.paths += 1
        n[kind] = n.get(kind, 0) + 1
        if kind == "throw":
            D.R.check(exc_matches(v, FAIL["empty"]), D.base + " exception", lambda: describe(D.E, s, "%s: throws %s" % (D.base, v)))
            continue
        for i, (w, p) in enumerate(D.outs):
            r = ops.results(D, s, i)
            if w == "b" or w == 1:
                continue
            for j in range(0, w, 2):
                D.R.check(not isempty(r[j], r[j + 1]), D.base + " empty", lambda: describe(
                    D.E, s, "%s: returns an empty interval [%s, %s] although the policy forbids them" % (D.base, show(r[j]), show(r[j + 1]))))
    if n["throw"]:
        D.R.samples.append("%s: %d paths return, %d throw" % (D.base, n["ret"], n["throw"]))
    return D.R


_policies = C34


def C34(tier):
    import ops
    t, rule, tr = _policies(tier)
    cs = ["strict/d"] + (["strict/f", "strict/l", "raw/d", "raw/f", "raw/l"] if tier == "thorough" else [])
    for k in ops.plan(cs, (CELLS, SCELLS, SCELLS), never, [o for o in ops.OPS + ops.UTIL + ops.SETS + ops.CTOR if o[1] != "empty_" and o[1][:4] != "root"]):
        cells, fname = k[1][5], k[1][2]
        if (fname[:4] == "fmod" or fname in ("t_sin", "t_cos", "t_tan", "median_i", "bisect_i")) and not ops.bounded(cells):
            continue
        if fname[:4] == "fmod" and cells[1] not in ("+", ("+", "+")):
            continue
        t.append(k)
    return t, rule + "  Under a no-empty policy every operation returns a non-empty interval or throws the policy's exception, on every path.", tr
