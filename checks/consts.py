"""C37: the constants that enclose pi."""
from lib import *
from fractions import Fraction
import platform_
from platform_ import Odd
from transc import PI_LO, PI_HI

PREC = {"float": (24, -149), "double": (53, -1074), "x86_fp80": (64, -16445)}


def exact(q, ty):
    """q is a number of the format"""
    p, emin = PREC[ty]
    if q == 0:
        return True
    d, n = q.denominator, abs(q.numerator)
    if d & (d - 1) or d.bit_length() - 1 > -emin:
        return False
    while n & 1 == 0:
        n >>= 1
    return n.bit_length() <= p


class Fold(platform_.Reader):
    def docall(self, i, a):
        cv = i.x[0][1]
        if cv[0] == "fn" and cv[1].startswith("llvm.experimental.constrained."):
            op = cv[1].split(".")[3]
            return self.fold(op, i.ty, a)
        return platform_.Reader.docall(self, i, a)

    def num(self, v):
        if v[0] == "int":
            return Fraction(v[2] - (1 << v[1]) if v[2] >> (v[1] - 1) else v[2])
        if v[0] == "fp" and isinstance(v[2], Fraction):
            return v[2]
        if v[0] == "derived":
            raise Odd("%s is not folded" % v[1])
        raise Odd("not a constant: %r" % (v,))

    def fold(self, op, ty, a):
        x = self.num(a[0])
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            y = self.num(a[1])
            if op == "fdiv" and y == 0:
                raise Odd("division by zero")
            x = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
        elif op not in ("sitofp", "uitofp", "fpext", "fptrunc"):
            raise Odd("operation %s" % op)
        if not exact(x, ty.kind):
            raise Odd("%s is not exact in %s, so the constant depends on the rounding mode" % (op, ty.kind))
        return ("fp", ty.kind, x)


WHICH = {"pi": 1, "half": Fraction(1, 2), "twice": 2}


def value(rd, v):
    if v[0] == "derived":
        raise Odd("%s is not folded" % v[1])
    return rd.num(v)


def tight(R, key, ty, k, lo, hi):
    a, b = PI_LO * k, PI_HI * k
    R.check(lo <= a and b <= hi, key + " encloses", lambda: "[%s, %s] does not enclose the exact value" % (float(lo), float(hi)))
    if ty in ("f", "d"):
        p = PREC[{"f": "float", "d": "double"}[ty]][0]
        e = 0
        while Fraction(2) ** e <= b:
            e += 1
        ulp = Fraction(2) ** (e - p)
        R.check(hi - lo == ulp and (lo / ulp).denominator == 1, key + " tightest", lambda: "the bounds are not the two adjacent numbers of the format: width %s ulp" % float((hi - lo) / ulp))


def run(path):
    R = Result()
    m = load_module(path)
    rd = Fold(m)
    for ty in ("f", "d", "l", "i", "s", "u", "ll", "m"):
        for w, k in WHICH.items():
            key = "constants::pi_%s<%s>" % (w, ty)
            try:
                b = []
                for s in "lu":
                    rd.events("%s_%s_%s" % (ty, w, s))
                    b.append(value(rd, rd.ret))
                R.fns.add("%s_%s" % (ty, w))
                tight(R, key, ty, k, *b)
            except Odd as e:
                R.check(False, key, str(e))
    for ty in ("f", "d", "l", "i"):
        for pol in ("def", "base", "nonan"):
            for w, k in WHICH.items():
                key = "pi_%s<interval<%s>, %s>" % (w, ty, pol)
                try:
                    ev = rd.events("%s_%s_i%s" % (ty, pol, w))
                    out = {}
                    for e in ev:
                        if e[0] != "out":
                            raise Odd("effect %r" % (e,))
                        out[e[1]] = value(rd, e[2])
                    R.fns.add("%s_%s_%s" % (ty, pol, w))
                    tight(R, key, ty, k, out[0], out[1])
                except (Odd, KeyError) as e:
                    R.check(False, key, str(e))
    return R


def build():
    import subprocess
    out = bcname("pi.cpp", "pi")
    cmd = ["clang++", "-std=c++17", "-frounding-math", "-O2", "-mllvm", "-inline-threshold=1000000", "-w", "-c", "-emit-llvm", "-I" + REPO + "/include",
           "-o", out, os.path.join(VERIF, "harness", "pi.cpp")]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise Bad("pi.cpp does not compile: " + p.stderr[:2000])
    return out


def C37(tier):
    return [(run, (), build())], ("the accessors of the pi constants and pi<I>(), pi_half<I>(), pi_twice<I>() fold to exact constants (every operation exact in its format, so independent of the rounding mode); "
                                 "float and double bounds are the adjacent numbers around the exact value, the others enclose it"), \
        ["clang 18 constant folding and inlining (-O2 -frounding-math)", "60 digits of pi in checks/transc.py"]
