"""Abstract value domain: polynomials over symbolic atoms, with directed-rounding
atoms, plus a relational fact domain (polynomial inequalities) and a small
monotone-rewriting entailment test.

A numeric abstract value is
   Poly     sum of  coef * product(atom^exp)      (exact real arithmetic)
   PINF / NINF / NAN                              (IEEE specials)
Atoms:
   sym(name, fmt)        input / ghost point
   rnd(mode, fmt, poly)  result of one rounded operation, mode in D U N Z E ?
   fn(name, args)        exact mathematical function of exact arguments
"""
from fractions import Fraction
from functools import lru_cache

PREC = {"f32": (24, -149, 128), "f64": (53, -1074, 1024), "f80": (64, -16445, 16384)}
RANK = {"f32": 1, "f64": 2, "f80": 3, "real": 99}


class Special:
    __slots__ = ("name",)

    def __init__(self, n):
        self.name = n

    def __repr__(self):
        return self.name


class Token(Special):
    """unspecified value (bound of an empty interval chosen by an opaque policy)"""
    __slots__ = ()


PINF = Special("+inf")
NINF = Special("-inf")
NAN = Special("NaN")


class Atom:
    __slots__ = ("id", "kind", "a", "b", "c", "fmt")
    _tab = {}
    _all = []

    def __repr__(self):
        return show_atom(self)


def _mk(kind, a, b, c, fmt):
    k = (kind, a, b, c, fmt)
    r = Atom._tab.get(k)
    if r is None:
        r = Atom()
        r.kind, r.a, r.b, r.c, r.fmt = kind, a, b, c, fmt
        r.id = len(Atom._all)
        Atom._all.append(r)
        Atom._tab[k] = r
    return r


class Poly:
    __slots__ = ("t", "h")
    _tab = {}

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def const(self):
        return self.t[0][1] if self.t else Fraction(0)

    def single_atom(self):
        """(coef, atom) if the poly is coef*atom"""
        if len(self.t) == 1:
            m, c = self.t[0]
            if len(m) == 1 and m[0][1] == 1:
                return c, Atom._all[m[0][0]]
        return None


_snap = None


def reset():
    """forget everything interned since the first call (makes every analysis task
    independent of the tasks that ran before it in the same process)"""
    global _snap
    if _snap is None:
        _snap = (len(Atom._all), dict(Atom._tab), dict(Poly._tab))
        return
    del Atom._all[_snap[0]:]
    Atom._tab.clear()
    Atom._tab.update(_snap[1])
    Poly._tab.clear()
    Poly._tab.update(_snap[2])


def _poly(d):
    t = tuple(sorted((m, c) for m, c in d.items() if c != 0))
    r = Poly._tab.get(t)
    if r is None:
        r = Poly()
        r.t = t
        r.h = len(Poly._tab)
        Poly._tab[t] = r
    return r


def const(c):
    return _poly({(): Fraction(c)})


ZERO = const(0)
ONE = const(1)


def patom(a):
    return _poly({((a.id, 1),): Fraction(1)})


def sym(name, fmt="real"):
    return patom(_mk("sym", name, None, None, fmt))


def is_special(x):
    return isinstance(x, Special)


def padd(p, q, k=1):
    d = dict(p.t)
    for m, c in q.t:
        d[m] = d.get(m, 0) + k * c
    return _poly(d)


def pneg(p):
    return _poly({m: -c for m, c in p.t})


SCALE2 = False      # twice a representable number is representable (no overflow)


def pscale(p, k):
    return _poly({m: c * k for m, c in p.t})


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def mpow(m, n):
    return tuple((a, e * n) for a, e in m)


def pmul(p, q):
    d = {}
    for m1, c1 in p.t:
        for m2, c2 in q.t:
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _poly(d)


def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def pinv(p):
    """1/p, p assumed non-zero"""
    if len(p.t) == 1:
        m, c = p.t[0]
        return _poly({mpow(m, -1): 1 / c})
    lead = p.t[0][1]
    a = _mk("par", pscale(p, 1 / lead), None, None, "real")
    return _poly({((a.id, -1),): 1 / lead})


def pdiv(p, q):
    return pmul(p, pinv(q))


def fits(fmt, tgt):
    """every value of fmt is a value of tgt"""
    if fmt in RANK and tgt in RANK:
        return RANK[fmt] <= RANK[tgt] and fmt != "real" or tgt == "real"
    if fmt[0] in "iu" and tgt in PREC:
        w = int(fmt[1:])
        return w - (1 if fmt[0] == "i" else 0) <= PREC[tgt][0]
    if tgt[0] in "iu":
        return fmt == tgt
    return False


def round_const(c, mode, fmt):
    """directed rounding of a Fraction; returns Fraction/PINF/NINF or None"""
    if fmt == "real" or fmt[0] in "iu":
        return c
    p, emin, emax = PREC[fmt]
    if c == 0:
        return c
    a = abs(c)
    # exponent e with 2^e <= a < 2^(e+1)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    elif Fraction(2) ** (e + 1) <= a:
        e += 1
    q = Fraction(2) ** max(e - p + 1, emin)
    k = c / q
    fl = k.numerator // k.denominator
    if fl == k:
        r = c
    else:
        if mode == "D":
            r = fl * q
        elif mode == "U":
            r = (fl + 1) * q
        elif mode == "Z":
            r = (fl if c > 0 else fl + 1) * q
        elif mode == "N":
            f = k - fl
            if f > Fraction(1, 2) or (f == Fraction(1, 2) and fl % 2):
                fl += 1
            r = fl * q
        else:
            return None
    big = (2 - Fraction(2) ** (1 - p)) * Fraction(2) ** (emax - 1)
    if r > big:
        return PINF if mode in "UN" else big
    if r < -big:
        return NINF if mode in "DN" else -big
    return r


def representable(p, fmt):
    if fmt == "real":
        return True
    if p.is_const():
        return round_const(p.const(), "D", fmt) == p.const() if fmt in PREC else p.const().denominator == 1
    s = p.single_atom()
    if s and abs(s[0]) == 1 and fits(s[1].fmt, fmt):
        return True
    return False


FLIP = {"D": "U", "U": "D", "N": "N", "Z": "Z"}


def rnd(mode, fmt, p):
    """rounded value of the exact poly p"""
    if is_special(p):
        return p
    if representable(p, fmt):
        return p
    if p.is_const():
        r = round_const(p.const(), mode, fmt)
        if r is not None:
            return r if is_special(r) else const(r)
    if mode in FLIP and p.t[0][1] < 0:
        return pneg(patom(_mk("rnd", FLIP[mode], fmt, pneg(p), fmt)))
    return patom(_mk("rnd", mode, fmt, p, fmt))


ODD = {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh"}
EVEN = {"cos", "cosh"}


def fn(name, args, fmt="real"):
    args = tuple(args)
    if len(args) == 1:
        p = args[0]
        if p.t and p.t[0][1] < 0:
            if name in ODD:
                return pneg(fn(name, (pneg(p),), fmt))
            if name in EVEN:
                return fn(name, (pneg(p),), fmt)
            if name == "floor":
                return pneg(fn("ceil", (pneg(p),), fmt))
            if name == "ceil":
                return pneg(fn("floor", (pneg(p),), fmt))
        if p.is_const():
            c = p.const()
            if name == "sqrt" and c in (0, 1):
                return p
            if name in ("floor", "ceil"):
                return const(c.numerator // c.denominator if name == "floor" else -((-c.numerator) // c.denominator))
            if c == 0 and (name in ODD):
                return ZERO
            if c == 0 and name in ("exp", "cos", "cosh"):
                return ONE
            if c == 1 and name in ("log", "acosh"):
                return ZERO
    return patom(_mk("fn", name, args, None, fmt))


def show_atom(a):
    if a.kind == "sym":
        return str(a.a)
    if a.kind == "rnd":
        return "R%s%s(%s)" % (a.a, "" if a.b == "f64" else ":" + a.b, show(a.c))
    if a.kind == "fn":
        return "%s(%s)" % (a.a, ", ".join(show(x) if isinstance(x, (Poly, Special)) else str(x) for x in a.b))
    return "(%s)" % show(a.a)


def show(p):
    if is_special(p):
        return p.name
    if not isinstance(p, Poly):
        return repr(p)
    if not p.t:
        return "0"
    out = []
    for m, c in p.t:
        num, den = [], []
        for a, e in m:
            s = show_atom(Atom._all[a])
            (num if e > 0 else den).append(s if abs(e) == 1 else "%s^%d" % (s, abs(e)))
        s = "*".join(num)
        if abs(c) != 1 or not s:
            cs = str(abs(c)) if abs(c).denominator < 10**6 else "%.17g" % float(abs(c))
            s = cs + ("*" + s if s else "")
        if den:
            s += "/" + "/".join(den)
        out.append(("-" if c < 0 else "+") + s)
    r = " ".join(out)
    return r[1:] if r[0] == "+" else r


def atoms_of(p, acc=None):
    """all atoms of p (including nested ones)"""
    if acc is None:
        acc = set()
    if not isinstance(p, Poly):
        return acc
    for m, _ in p.t:
        for a, _e in m:
            at = Atom._all[a]
            if at in acc:
                continue
            acc.add(at)
            if at.kind == "rnd":
                atoms_of(at.c, acc)
            elif at.kind == "fn":
                for x in at.b:
                    atoms_of(x, acc)
            elif at.kind == "par":
                atoms_of(at.a, acc)
    return acc


def subst(p, mp):
    """substitute atoms (dict Atom -> Poly) at top level and inside rnd/fn"""
    if not isinstance(p, Poly):
        return p
    r = ZERO
    for m, c in p.t:
        q = const(c)
        for a, e in m:
            at = Atom._all[a]
            if at in mp:
                v = mp[at]
            elif at.kind == "rnd":
                n = subst(at.c, mp)
                v = rnd(at.a, at.b, n) if n is not at.c else patom(at)
            elif at.kind == "fn":
                n = tuple(subst(x, mp) for x in at.b)
                v = fn(at.a, n, at.fmt) if n != at.b else patom(at)
            elif at.kind == "par":
                n = subst(at.a, mp)
                v = n
            else:
                v = patom(at)
            if is_special(v):
                return NAN
            if e > 0:
                q = pmul(q, ppow(v, e))
            else:
                if v is ZERO:
                    return NAN
                q = pmul(q, ppow(pinv(v), -e))
        r = padd(r, q)
    return r


# ---------------------------------------------------------------- facts

INF = float("inf")


class Bd:
    """numeric bounds lo <= v <= hi with strictness flags"""
    __slots__ = ("lo", "ls", "hi", "hs")

    def __init__(self, lo=None, ls=False, hi=None, hs=False):
        self.lo, self.ls, self.hi, self.hs = lo, ls, hi, hs

    def sign(self):
        """subset of '-0+' that is possible"""
        s = ""
        if self.lo is None or self.lo < 0:
            s += "-"
        if not (self.lo is not None and (self.lo > 0 or (self.lo == 0 and self.ls))) and \
           not (self.hi is not None and (self.hi < 0 or (self.hi == 0 and self.hs))):
            s += "0"
        if self.hi is None or self.hi > 0:
            s += "+"
        return s

    def __repr__(self):
        return "%s%s,%s%s" % ("(" if self.ls else "[", self.lo, self.hi, ")" if self.hs else "]")


TOPB = Bd()


def b_add(x, y):
    lo = None if x.lo is None or y.lo is None else x.lo + y.lo
    hi = None if x.hi is None or y.hi is None else x.hi + y.hi
    return Bd(lo, x.ls or y.ls, hi, x.hs or y.hs)


def b_scale(x, k):
    if k > 0:
        return Bd(None if x.lo is None else x.lo * k, x.ls, None if x.hi is None else x.hi * k, x.hs)
    if k == 0:
        return Bd(Fraction(0), False, Fraction(0), False)
    return Bd(None if x.hi is None else x.hi * k, x.hs, None if x.lo is None else x.lo * k, x.ls)


def b_mul(x, y):
    # general products with None = infinite
    def ends(b):
        return [(b.lo, b.ls, -1), (b.hi, b.hs, 1)]
    if (x.lo == 0 and x.hi == 0) or (y.lo == 0 and y.hi == 0):
        return Bd(Fraction(0), False, Fraction(0), False)
    if x.lo is not None and x.lo >= 0 and y.lo is not None and y.lo >= 0:
        lo = x.lo * y.lo
        ls = (x.ls and y.ls) or (x.ls and y.lo > 0) or (y.ls and x.lo > 0)
        if lo == 0:
            ls = (x.lo > 0 or x.ls) and (y.lo > 0 or y.ls)
        hi = None if x.hi is None or y.hi is None else x.hi * y.hi
        hs = hi is not None and hi > 0 and (x.hs or y.hs)
        return Bd(lo, ls, hi, hs)
    if x.hi is not None and x.hi <= 0:
        return b_scale(b_mul(b_scale(x, -1), y), -1)
    if y.hi is not None and y.hi <= 0:
        return b_scale(b_mul(x, b_scale(y, -1)), -1)
    if None in (x.lo, x.hi, y.lo, y.hi):
        return TOPB
    v = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
    return Bd(min(v), False, max(v), False)


def b_inv(x):
    if x.lo is not None and x.hi is not None and x.lo >= x.hi == 0:
        return TOPB        # empty or zero: the facts are contradictory
    if x.lo is not None and (x.lo > 0 or (x.lo == 0 and x.ls)):
        hi = None if x.lo == 0 else 1 / x.lo
        lo = Fraction(0) if x.hi is None else 1 / x.hi
        return Bd(lo, True if x.hi is None else x.hs, hi, x.ls)
    if x.hi is not None and (x.hi < 0 or (x.hi == 0 and x.hs)):
        return b_scale(b_inv(b_scale(x, -1)), -1)
    return TOPB


def b_meet(x, y):
    lo, ls = x.lo, x.ls
    if y.lo is not None and (lo is None or y.lo > lo or (y.lo == lo and y.ls)):
        lo, ls = y.lo, y.ls
    hi, hs = x.hi, x.hs
    if y.hi is not None and (hi is None or y.hi < hi or (y.hi == hi and y.hs)):
        hi, hs = y.hi, y.hs
    return Bd(lo, ls, hi, hs)


MONO_INC = {"sqrt", "exp", "log", "asin", "atan", "sinh", "tanh", "asinh", "acosh", "atanh", "floor", "ceil",
            "tanR", "rint"}
MONO_DEC = {"acos"}


class Facts:
    """conjunction of polynomial inequalities f>=0 / f>0, numeric bounds of atoms,
    and disequalities; persistent by copying"""

    def __init__(self):
        self.fs = {}       # poly -> strict
        self.bd = {}       # atom id -> Bd
        self.ne = {}       # polys known non-zero
        self.fnf = ()      # extra fact generators (ghost axioms)
        self.cache = {}
        self.dead = False

    def copy(self):
        r = Facts()
        r.fs = dict(self.fs)
        r.bd = dict(self.bd)
        r.ne = dict(self.ne)
        r.fnf = self.fnf
        r.dead = self.dead
        r.cache = dict(self.cache)
        return r

    def key(self):
        return (frozenset(self.fs.items()), frozenset(self.ne))

    # -- adding
    def add_ge(self, p, strict=False):
        """assume p >= 0 (or > 0)"""
        if p.is_const():
            c = p.const()
            if c < 0 or (strict and c == 0):
                self.dead = True
            return
        if not strict and (p in self.ne or pneg(p) in self.ne):
            strict = True
        old = self.fs.get(p)
        if old is not None and (old or not strict):
            return
        self.cache = {}
        self.fs[p] = strict
        self._propagate()
        self.cache = {}

    def add_eq(self, p):
        self.add_ge(p)
        self.add_ge(pneg(p))

    def add_ne(self, p):
        if p.is_const():
            if p.const() == 0:
                self.dead = True
            return
        self.ne[p] = 1
        self.cache = {}
        for q in (p, pneg(p)):
            if q in self.fs and not self.fs[q]:
                self.fs[q] = True
        self._propagate()
        self.cache = {}

    def bound_atom(self, atom, lo=None, ls=False, hi=None, hs=False):
        self.bd[atom.id] = b_meet(self.bd.get(atom.id, TOPB), Bd(lo, ls, hi, hs))
        self.cache = {}

    def _propagate(self):
        for _ in range(6):
            ch = False
            for f, strict in list(self.fs.items()):
                # linear facts: sum c_i * a_i + c0 >= 0, bound each a_i from the others
                if len(f.t) > 4:
                    continue
                ok = True
                for m, c in f.t:
                    if m and not (len(m) == 1 and m[0][1] == 1):
                        ok = False
                if not ok:
                    continue
                for m, c in f.t:
                    if not m:
                        continue
                    aid = m[0][0]
                    rest = TOPB
                    first = True
                    for m2, c2 in f.t:
                        if m2 == m:
                            continue
                        b = Bd(c2, False, c2, False) if not m2 else b_scale(self.abd(m2[0][0]), c2)
                        rest = b if first else b_add(rest, b)
                        first = False
                    if first:
                        rest = Bd(Fraction(0), False, Fraction(0), False)
                    # c*a >= -rest ; need upper bound of rest
                    if rest.hi is None:
                        continue
                    v = -rest.hi / c
                    st = strict or rest.hs
                    old = self.bd.get(aid, TOPB)
                    at = Atom._all[aid]
                    nb = Bd(v, st, None, False) if c > 0 else Bd(None, False, v, st)
                    new = b_meet(old, nb)
                    if at.kind == "sym" and at.fmt[0] in "iu" and at.fmt not in PREC:
                        new = int_tighten(new)
                    if (new.lo, new.ls, new.hi, new.hs) != (old.lo, old.ls, old.hi, old.hs):
                        self.bd[aid] = new
                        self.cache = {}
                        if new.lo is not None and new.hi is not None and \
                           (new.lo > new.hi or (new.lo == new.hi and (new.ls or new.hs))):
                            self.dead = True
                            return
                        ch = True
            if not ch:
                break
        for p in self.ne:
            s = p.single_atom()
            if s:
                b = self.bd.get(s[1].id)
                if b is not None:
                    if b.lo == 0 and not b.ls:
                        self.bd[s[1].id] = Bd(b.lo, True, b.hi, b.hs)
                    if b.hi == 0 and not b.hs:
                        b = self.bd[s[1].id]
                        self.bd[s[1].id] = Bd(b.lo, b.ls, b.hi, True)

    # -- bounds
    def abd(self, aid):
        at = Atom._all[aid]
        k = ("a", aid)
        r = self.cache.get(k)
        if r is not None:
            return r
        b = self.bd.get(aid, TOPB)
        if at.kind == "rnd":
            b = b_meet(b, self._rnd_bounds(at))
        elif at.kind == "fn":
            b = b_meet(b, self._fn_bounds(at))
        elif at.kind == "par":
            b = b_meet(b, self.bounds(at.a))
        elif at.kind == "sym" and at.fmt[0] in "iu" and at.fmt not in PREC and len(at.fmt) > 1:
            w = int(at.fmt[1:])
            b = b_meet(b, Bd(Fraction(-(1 << (w - 1))), False, Fraction((1 << (w - 1)) - 1), False)
                       if at.fmt[0] == "i" else Bd(Fraction(0), False, Fraction((1 << w) - 1), False))
        self.cache[k] = b
        return b

    def _rnd_bounds(self, at):
        b = self.bounds(at.c)
        mode, fmt = at.a, at.b
        lo = hi = None
        ls = hs = False
        if b.lo is not None:
            v = round_const(b.lo, mode if mode in "DUNZ" else "D", fmt)
            if not is_special(v):
                lo = v
                if mode == "U" and v == b.lo:
                    ls = b.ls
                elif mode == "U" and v > b.lo:
                    ls = False
            elif v is PINF:
                lo = None
        if b.hi is not None:
            v = round_const(b.hi, mode if mode in "DUNZ" else "U", fmt)
            if not is_special(v):
                hi = v
                if mode == "D" and v == b.hi:
                    hs = b.hs
        return Bd(lo, ls, hi, hs)

    def _fn_bounds(self, at):
        n = at.a
        F = Fraction
        if n in ("floor", "ceil", "rint"):
            b = self.bounds(at.b[0])
            lo = None if b.lo is None else (F(b.lo.numerator // b.lo.denominator) if n != "ceil"
                                            else F(-((-b.lo.numerator) // b.lo.denominator)))
            hi = None if b.hi is None else (F(b.hi.numerator // b.hi.denominator) if n == "floor"
                                            else F(-((-b.hi.numerator) // b.hi.denominator)))
            if n == "floor" and b.hi is not None and b.hs and b.hi.denominator == 1:
                hi = b.hi - 1
            if n == "ceil" and b.lo is not None and b.ls and b.lo.denominator == 1:
                lo = b.lo + 1
            return Bd(lo, False, hi, False)
        if n == "sqrt":
            b = self.bounds(at.b[0])
            st = b.lo is not None and (b.lo > 0 or b.ls)
            hi = None
            if b.hi is not None:
                hi = F(0) if b.hi <= 0 else sqrt_above(b.hi)
            return Bd(F(0), st and hi != 0, hi, False)
        if n == "exp":
            return Bd(F(0), True, None, False)
        if n == "cosh":
            return Bd(F(1), False, None, False)
        if n in ("sin", "cos"):
            return Bd(F(-1), False, F(1), False)
        if n == "tanh":
            return Bd(F(-1), True, F(1), True)
        if n == "acos":
            return Bd(F(0), False, F(32, 10), False)
        if n in ("asin", "atan"):
            return Bd(F(-16, 10), False, F(16, 10), False)
        if n in ("sinh", "asinh", "atanh", "tan"):
            return TOPB
        return TOPB

    def mono_bounds(self, m):
        r = None
        for a, e in m:
            b = self.abd(a)
            if e < 0:
                b = b_inv(b)
                e = -e
            if e % 2 == 0:
                # even power: |.|^e
                s = b.sign()
                if "-" in s and "+" in s:
                    hi = None if b.lo is None or b.hi is None else max(b.lo ** e, b.hi ** e)
                    bb = Bd(Fraction(0), False, hi, False)
                    pp = patom(Atom._all[a])
                    if "0" not in s or pp in self.ne or pneg(pp) in self.ne:
                        bb = Bd(Fraction(0), True, hi, False)
                else:
                    ab = b if "-" not in s else b_scale(b, -1)
                    bb = ab
                    for _ in range(e - 1):
                        bb = b_mul(bb, ab)
            else:
                bb = b
                for _ in range(e - 1):
                    bb = b_mul(bb, b)
            r = bb if r is None else b_mul(r, bb)
        return r if r is not None else Bd(Fraction(1), False, Fraction(1), False)

    def bounds(self, p):
        k = ("p", p)
        r = self.cache.get(k)
        if r is not None:
            return r
        self.cache[k] = TOPB
        r = None
        for m, c in p.t:
            b = Bd(c, False, c, False) if not m else b_scale(self.mono_bounds(m), c)
            r = b if r is None else b_add(r, b)
        if r is None:
            r = Bd(Fraction(0), False, Fraction(0), False)
        st = self.fs.get(p)
        if st is not None:
            r = b_meet(r, Bd(Fraction(0), st, None, False))
        st = self.fs.get(pneg(p))
        if st is not None:
            r = b_meet(r, Bd(None, False, Fraction(0), st))
        self.cache[k] = r
        return r

    def msign(self, m, c):
        """possible signs of c*m"""
        return b_scale(self.mono_bounds(m), c).sign()

    # -- entailment
    def ge0(self, d, strict=False, depth=7):
        """prove d >= 0 (or > 0)"""
        if is_special(d):
            return d is PINF
        k = ("g", d, strict)
        r = self.cache.get(k)
        if r is not None and (r[0] or r[1] >= depth):
            return r[0]
        self._seen = {}
        self._budget = 60
        self._work = 700
        g = self._strip(d)
        ok = not strict and self._powcmp(g) or (g is not d and self._ge(g, strict, depth))
        if not ok:
            c = self._clear(g)
            if c is not None:
                self._seen = {}
                self._budget = 60
                self._work = 700
                g = self._strip(c)
                ok = not strict and self._powcmp(g) or self._ge(g, strict, depth)
        if not ok:
            self._seen = {}
            self._budget = 250
            self._work = 700
            ok = self._ge(d, strict, depth)
        self.cache[k] = (ok, depth)
        return ok

    def _powcmp(self, d):
        """A^e - B^e >= 0 by comparing |A| and |B| (e even) or A and B (e odd)"""
        if len(d.t) != 2:
            return False
        (m1, c1), (m2, c2) = d.t
        if c1 < 0:
            m1, c1, m2, c2 = m2, c2, m1, c1
        if c1 < 0 or c1 != -c2 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != m2[0][1] or m1[0][1] < 2:
            return False
        e = m1[0][1]
        A, B = patom(Atom._all[m1[0][0]]), patom(Atom._all[m2[0][0]])
        if e % 2:
            return self._sub(padd(A, B, -1))
        sa, sb = self.bounds(A).sign(), self.bounds(B).sign()
        if "-" not in sa:
            pass
        elif "+" not in sa:
            A = pneg(A)
        else:
            return False
        if "-" not in sb:
            pass
        elif "+" not in sb:
            B = pneg(B)
        else:
            return False
        return self._sub(padd(A, B, -1))

    def _clear(self, d):
        """d times the (sign-definite) common denominator, sign adjusted; None if there is none"""
        den = {}
        for m, _c in d.t:
            for a, e in m:
                if e < 0:
                    den[a] = max(den.get(a, 0), -e)
        if not den:
            return None
        sg = 1
        for a, e in den.items():
            s = self.abd(a).sign()
            if s == "+":
                continue
            if s == "-":
                if e % 2:
                    sg = -sg
                continue
            return None
        m = tuple(sorted(den.items()))
        return pmul(d, _poly({m: Fraction(sg)}))

    def _strip(self, d):
        """greedily replace rounding atoms by their exact argument wherever that
        can only decrease d"""
        for _ in range(200):
            done = True
            for m, c in d.t:
                for a, e in m:
                    at = Atom._all[a]
                    if at.kind != "rnd" or at.a not in "DU" or e < 1:
                        continue
                    rest = tuple((x, y) for x, y in m if x != a)
                    flip = False
                    if e > 1:
                        sg = set(self.abd(a).sign()) | set(self.bounds(at.c).sign())
                        if "-" in sg:
                            if "+" in sg:
                                continue
                            flip = e % 2 == 0       # decreasing on the negative side
                    s = self.msign(rest, c)
                    want = "+" if (at.a == "U") != flip else "-"
                    if ("-" if want == "+" else "+") in s:
                        continue
                    d = padd(d, _poly({m: c}), -1)
                    d = padd(d, pmul(_poly({rest: c}), ppow(at.c, e)))
                    done = False
                    break
                if not done:
                    break
            if done:
                return d
        return d

    def _ge(self, d, strict, depth):
        if not d.t:
            return not strict
        b = self.bounds(d)
        if b.lo is not None and (b.lo > 0 or (b.lo == 0 and (not strict or b.ls))):
            return True
        if strict and b.lo == 0 and (d in self.ne or pneg(d) in self.ne):
            return True
        if d.is_const() or depth <= 0:
            return False
        s = self._seen.get((d, strict))
        if s is not None and s >= depth:
            return False
        self._work -= 1
        if self._work < 0:
            return False
        self._seen[(d, strict)] = depth
        self._budget -= 1
        if self._budget < 0:
            return False
        cands = []
        for f, st in self._facts_for(d):
            for q in self._quotients(d, f):
                nd = padd(d, pmul(q, f), -1)
                if nd is d:
                    continue
                qs = None
                if st:
                    qs = st and ("0" not in self.bounds(q).sign())
                cands.append((len(nd.t), nd.h, nd, bool(qs)))
        cands.sort(key=lambda z: (z[0], z[1]))
        n0 = len(d.t)
        for ln, _h, nd, st in cands:
            if ln > n0 + 1:
                break
            if self._ge(nd, strict and not st, depth - 1):
                return True
        return False

    def _quotients(self, d, f):
        """non-negative monomial multipliers q such that d - q*f cancels a term of d"""
        out = []
        seen = set()
        for m, c in d.t:
            for g, k in f.t:
                if not g and m:
                    continue
                md = dict(m)
                if any(not ((e > 0 and md.get(a, 0) >= e) or (e < 0 and md.get(a, 0) <= e)) for a, e in g):
                    continue
                # q = (c/k) * m/g, must be >= 0
                qm = mmul(m, mpow(g, -1))
                qc = c / k
                key = (qm, qc)
                if key in seen:
                    continue
                seen.add(key)
                s = self.msign(qm, qc) if qm else ("+" if qc > 0 else "-")
                if "-" in s:
                    continue
                out.append(_poly({qm: qc}))
        return out

    def _facts_for(self, d):
        """facts (f>=0) that may help on d: stored ones plus implied ones"""
        atoms = set()
        for m, _c in d.t:
            for a, e in m:
                atoms.add(a)
        out = []
        for f, st in self.fs.items():
            for m, _c in f.t:
                if any(a in atoms for a, _e in m):
                    out.append((f, st))
                    break
        inv = {a for m, _c in d.t for a, e in m if e < 0}
        # implied facts of rounding atoms
        al = [Atom._all[a] for a in sorted(atoms)]
        for at in al:
            if at.kind == "rnd":
                p = patom(at)
                if at.a == "D":
                    out.append((padd(at.c, p, -1), False))
                elif at.a == "U":
                    out.append((padd(p, at.c, -1), False))
            elif at.kind == "fn" and at.a == "floor":
                p = patom(at)
                out.append((padd(at.b[0], p, -1), False))
                out.append((padd(padd(p, ONE), at.b[0], -1), True))
            elif at.kind == "fn" and at.a == "ceil":
                p = patom(at)
                out.append((padd(p, at.b[0], -1), False))
        # monotonicity between atoms of the same kind
        if getattr(self, "_nested", 0) < 2:
            for i, x in enumerate(al):
                if x.kind == "rnd":
                    # 0 is representable: the sign of a rounded value is that of its argument
                    sx = self.abd(x.id).sign()
                    if "-" in sx and "+" in sx:
                        if self._sub(x.c):
                            out.append((patom(x), False))
                        elif self._sub(pneg(x.c)):
                            out.append((pneg(patom(x)), False))
                for y in al:
                    if x is y:
                        continue
                    if x.kind == "fn" and y.kind == "fn" and x.a == y.a and len(x.b) == 1:
                        if x.a in MONO_INC or x.a in MONO_DEC:
                            if self._sub(padd(x.b[0], y.b[0], -1)):
                                dd = padd(patom(x), patom(y), -1)
                                out.append((dd if x.a in MONO_INC else pneg(dd), False))
                    elif x.kind == "rnd" and y.kind == "rnd" and x.a == y.a and x.b == y.b:
                        if self._sub(padd(x.c, y.c, -1)):
                            out.append((padd(patom(x), patom(y), -1), False))
                    elif x.kind == "rnd" and fits(y.fmt, x.b):
                        # y representable: y <= t => y <= R(t);  t <= y => R(t) <= y
                        for sg in (1, -1, 2, -2) if SCALE2 and x.a == "N" else (1, -1):
                            yp = pscale(patom(y), sg)
                            if self._sub(padd(x.c, yp, -1)):
                                out.append((padd(patom(x), yp, -1), False))
                            if self._sub(padd(yp, x.c, -1)):
                                out.append((padd(yp, patom(x), -1), False))
            for g in self.fnf:
                out.extend(g(self, al, d))
        # powers: strip whole powers and compare equal powers
        for m, _c in d.t:
            for a, e in m:
                if e >= 2:
                    at = Atom._all[a]
                    P = patom(at)
                    lo = [p for p in self._lower_exprs(at)]
                    hi = [p for p in self._upper_exprs(at)]
                    b = self.abd(a)
                    nonneg = "-" not in b.sign()
                    nonpos = "+" not in b.sign()
                    for q in hi:
                        if nonneg:
                            out.append((padd(ppow(q, e), ppow(P, e), -1), False))
                        elif nonpos and "+" not in self.bounds(q).sign():
                            out.append((pscale(padd(ppow(q, e), ppow(P, e), -1), 1 if e % 2 else -1), False))
                    for q in lo:
                        if nonneg and "-" not in self.bounds(q).sign():
                            out.append((padd(ppow(P, e), ppow(q, e), -1), False))
                        elif nonpos:
                            out.append((pscale(padd(ppow(P, e), ppow(q, e), -1), 1 if e % 2 else -1), False))
        # reciprocals
        if inv:
            extra = []
            for f, st in out:
                if len(f.t) != 2:
                    continue
                (m1, c1), (m2, c2) = f.t
                if c1 > 0 and c2 < 0:
                    big, cb, sm, cs = m1, c1, m2, -c2
                elif c2 > 0 and c1 < 0:
                    big, cb, sm, cs = m2, c2, m1, -c1
                else:
                    # A + B >= 0 : A >= -B
                    if c1 > 0 and c2 > 0:
                        big, cb, sm, cs = m1, c1, m2, -c2
                    else:
                        continue
                if not any(a in inv for a, _ in big) and not any(a in inv for a, _ in sm):
                    continue
                sb = self.msign(big, cb)
                ss = self.msign(sm, cs)
                if "0" in sb or "0" in ss or sb != ss or len(sb) != 1:
                    continue
                # cb*big >= cs*sm same strict sign  =>  1/(cs*sm) >= 1/(cb*big)
                d2 = {}
                k1, k2 = mpow(sm, -1), mpow(big, -1)
                d2[k1] = 1 / Fraction(cs)
                d2[k2] = d2.get(k2, 0) - 1 / Fraction(cb)
                extra.append((_poly(d2), st))
            out.extend(extra)
        return out

    def _lower_exprs(self, at):
        P = patom(at)
        r = []
        if at.kind == "rnd" and at.a == "U":
            r.append(at.c)
        for f in self.fs:
            if len(f.t) <= 2:
                for m, c in f.t:
                    if m == ((at.id, 1),) and c > 0:
                        r.append(pscale(padd(f, pscale(P, c), -1), -1 / c))
        return r

    def _upper_exprs(self, at):
        P = patom(at)
        r = []
        if at.kind == "rnd" and at.a == "D":
            r.append(at.c)
        for f in self.fs:
            if len(f.t) <= 2:
                for m, c in f.t:
                    if m == ((at.id, 1),) and c < 0:
                        r.append(pscale(padd(f, pscale(P, c), -1), -1 / c))
        return r

    def _sub(self, d):
        """nested entailment query with a small depth"""
        k = ("s", d)
        r = self.cache.get(k)
        if r is not None:
            return r
        if not d.t:
            return True
        b = self.bounds(d)
        if b.lo is not None and b.lo >= 0:
            return True
        self._nested = getattr(self, "_nested", 0) + 1
        self.cache[k] = False
        save = getattr(self, "_seen", {}), getattr(self, "_budget", 0)
        self._seen, self._budget = {}, 40
        try:
            r = self._ge(d, False, 4)
        finally:
            self._seen, self._budget = save
            self._nested -= 1
        if r or self._nested == 0:
            self.cache[k] = r
        else:
            self.cache.pop(k, None)
        return r

    def le(self, a, b, strict=False, depth=7):
        """prove a <= b (a < b)"""
        if a is NAN or b is NAN:
            return False
        if a is NINF:
            return not strict or (b is not NINF)
        if b is PINF:
            return not strict or (a is not PINF)
        if a is PINF or b is NINF:
            return False
        return self.ge0(padd(b, a, -1), strict, depth)

    def sign(self, p):
        """possible signs of p using entailment"""
        if p is PINF:
            return "+"
        if p is NINF:
            return "-"
        s = self.bounds(p).sign()
        if len(s) > 1:
            r = ""
            if "-" in s and not self.ge0(p, depth=4):
                r += "-"
            if "0" in s and not (p in self.ne or pneg(p) in self.ne) and \
                    not self.ge0(p, True, depth=4) and not self.ge0(pneg(p), True, depth=4):
                r += "0"
            if "+" in s and not self.ge0(pneg(p), depth=4):
                r += "+"
            s = r
        return s


def sqrt_above(c):
    """a rational >= sqrt(c)"""
    from math import isqrt
    k = 1 << 64
    n = c.numerator * c.denominator * k * k
    r = isqrt(n)
    if r * r < n:
        r += 1
    return Fraction(r, c.denominator * k)


def int_tighten(b):
    lo, ls, hi, hs = b.lo, b.ls, b.hi, b.hs
    if lo is not None:
        n = -((-lo.numerator) // lo.denominator)
        if ls and n == lo:
            n += 1
        lo, ls = Fraction(n), False
    if hi is not None:
        n = hi.numerator // hi.denominator
        if hs and n == hi:
            n -= 1
        hi, hs = Fraction(n), False
    return Bd(lo, ls, hi, hs)
