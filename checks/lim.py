"""C44: std::numeric_limits of interval types."""
from lib import *
from fractions import Fraction
from order import TRUST as _T
import arith

SRC = "lim.cpp"
TRUST = arith.TRUST
#       precision, min exponent, max exponent, decimal ones
FMT = {"f": (24, -125, 128, 6, 9, -37, 38), "d": (53, -1021, 1024, 15, 17, -307, 308), "l": (64, -16381, 16384, 18, 21, -4931, 4932)}


def want(ty):
    p, lo, hi = FMT[ty][:3]
    big = (1 - Fraction(1, 2 ** p)) * Fraction(2) ** hi
    return {"min": Fraction(2) ** (lo - 1), "max": big, "lowest": -big, "epsilon": Fraction(2) ** (1 - p), "denorm": Fraction(2) ** (lo - p)}


def consts(ty):
    p, lo, hi, d10, m10, lo10, hi10 = FMT[ty]
    return dict(is_specialized=1, is_signed=1, is_integer=0, is_exact=0, radix=2, digits=p, digits10=d10, max_digits10=m10,
                min_exponent=lo, min_exponent10=lo10, max_exponent=hi, max_exponent10=hi10, has_infinity=1, has_quiet_NaN=1,
                has_signaling_NaN=1, has_denorm=1, is_bounded=1, is_modulo=0, is_iec559=0, round_style=(1 << 32) - 1)


def run_val(path, cfgname, what):
    cfg = CFG[cfgname]
    R = Result()
    E = make_engine(path, cfg)
    E.ieee = what == "infinity"
    st = State()
    out = st.new("out")
    key = "%s numeric_limits::%s" % (cfgname, what)
    live = 0
    for kind, val, s in E.run("lim_" + what, [out], st):
        if s.facts.dead:
            continue
        live += 1
        R.paths += 1
        if not R.check(kind == "ret", key + " exit", lambda: describe(E, s, "%s: %s %s" % (key, kind, val))):
            continue
        L, U = getout(s, out, 0, cfg.fmt), getout(s, out, 1, cfg.fmt)
        say = lambda t: lambda: describe(E, s, "%s is [%s, %s] instead of %s" % (key, show(L), show(U), t))
        if what in ("qnan", "snan"):
            R.check(isempty(L, U), key, say("an empty interval"))
        elif what == "infinity":
            R.check(L is NINF and U is PINF, key, say("the whole line"))
            if cfg.opaque:
                ev = s.events()
                R.check({"pos_inf", "neg_inf"} <= {e[1] for e in ev if e[0] == "chk"} and not any(e[0] == "ieee" for e in ev), key + " policy",
                        lambda: describe(E, s, key + " is not made of the infinities that the checking policy supplies"))
        else:
            w = want(cfgname[-1])[what]
            ok = all(is_num(v) and not is_special(v) and eq_under(s.F(), v, const(w)) for v in (L, U))
            R.check(ok, key, say("[%s, %s]" % (float(w), float(w)) if cfg.fmt != "f80" else "the limit of the base type"))
    R.absorb(E)
    R.check(live > 0, key + " live", key + ": no path reaches the end")
    R.samples.append(key)
    return R


def run_const(path, cfgname):
    cfg = CFG[cfgname]
    R = Result()
    for n, w in consts(cfgname[-1]).items():
        E = make_engine(path, cfg)
        key = "%s numeric_limits::%s" % (cfgname, n)
        res = E.run("limc_" + n, [], State())
        R.absorb(E)
        for kind, val, s in res:
            R.paths += 1
            R.check(kind == "ret" and isinstance(val, int) and (val - w) % (1 << 32) == 0, key, lambda: "%s is %r instead of %r" % (key, val, w))
        R.check(len(res) > 0, key + " live", key + ": no path")
    return R


RULE = ("Every member function of numeric_limits for an interval type is interpreted: min, max, lowest, epsilon and denorm_min must be the point intervals of the "
        "base type's values, infinity the policy's whole line, both NaNs an empty interval; the constants must be those of the base type except is_iec559 (false) "
        "and round_style (indeterminate).")


def C44(tier):
    cs = ["opq/d", "opq/f", "opq/l", "def/d", "def/f", "def/l", "std/d", "transc/d"] + (["transc/f", "transc/l", "std/f", "std/l"] if tier == "thorough" else [])
    bc = compile_all([(SRC, c, ()) for c in cs])
    t = []
    for c in cs:
        p = bc[(SRC, c, ())]
        t += [(run_val, (c, w), p) for w in ("min", "max", "lowest", "epsilon", "denorm", "infinity", "qnan", "snan")]
        t.append((run_const, (c,), p))
    return t, RULE, TRUST
