"""Abstract interpreter over LLVM IR.

Abstract state =  memory (field-sensitive, per object)
               x  numeric values (terms.Poly: symbolic constants with rounding atoms)
               x  relational facts (terms.Facts)
               x  floating-point rounding mode  (typestate: N D U Z or E = mode at entry)
               x  event log (calls of opaque policies, effects)
Undecided branches split the state (trace partitioning); callees are analysed
in the context of their call site (context-sensitive inlining); recursion is cut
by user supplied summaries.  No program code is run.
"""
import os
from fractions import Fraction

from llvmir import Module, base_name, demangle
import terms as T
from terms import Poly, Special, PINF, NINF, NAN, ZERO, ONE, const, padd, pneg, pmul, pdiv, rnd, fn, is_special, Facts


UBLOG = []        # undefined behaviour met on any path since the engine was created


class Unsupported(Exception):
    pass


class Hang(Unsupported):
    """a loop or a recursion that the exploration does not see the end of"""


class NeedSign(Exception):
    """ask the interpreter to split the state on the sign of a poly"""

    def __init__(self, poly):
        self.poly = poly


class TopVal:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "TOP(%s)" % self.why


def is_num(v):
    return isinstance(v, (Poly, Special))


class State:
    __slots__ = ("mem", "own", "facts", "fown", "mode", "ev", "user", "exc", "nobj", "trace", "nround", "caught")

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.facts = Facts()
        self.fown = True
        self.mode = "E"
        self.ev = ()
        self.user = {}
        self.exc = None
        self.caught = ()
        self.nobj = 0
        self.trace = None

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.facts = self.facts
        s.fown = False
        self.fown = False
        s.mode = self.mode
        s.ev = self.ev
        s.user = dict(self.user)
        s.exc = self.exc
        s.caught = self.caught
        s.nobj = self.nobj
        s.trace = self.trace
        return s

    def F(self):
        """facts, writable"""
        if not self.fown:
            self.facts = self.facts.copy()
            self.fown = True
        return self.facts

    def event(self, *e):
        if e[0] == "ub":
            UBLOG.append(e)
        self.ev = (self.ev, e)

    def events(self):
        out = []
        e = self.ev
        while e:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def new(self, name, cells=None):
        self.nobj += 1
        k = (name, self.nobj)
        self.mem[k] = cells if cells is not None else {}
        self.own.add(k)
        return ("p", k, 0)

    def cells(self, obj, write=False):
        c = self.mem.get(obj)
        if c is None:
            raise Unsupported("access to dead or unknown object %r" % (obj,))
        if write and obj not in self.own:
            c = dict(c)
            self.mem[obj] = c
            self.own.add(obj)
        return c

    def step(self, loc):
        self.trace = (self.trace, loc)

    def path(self, n=12):
        out = []
        t = self.trace
        while t and len(out) < n:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


ROUND_CONST = {0x000: "N", 0x400: "D", 0x800: "U", 0xC00: "Z"}
ROUND_INV = {v: k for k, v in ROUND_CONST.items()}
FMT = {"float": "f32", "double": "f64", "x86_fp80": "f80"}
ENTRY_MODE = ("mode", "E")
FCMP_FLIP = {}

STD_BASES = {
    "St13runtime_error": ["St9exception"], "St11logic_error": ["St9exception"],
    "St16invalid_argument": ["St11logic_error", "St9exception"],
    "St12domain_error": ["St11logic_error", "St9exception"],
    "St12out_of_range": ["St11logic_error", "St9exception"],
    "St14overflow_error": ["St13runtime_error", "St9exception"],
    "St11range_error": ["St13runtime_error", "St9exception"],
}

LIBM = {"exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"}


class Engine:
    def __init__(self, module, max_paths=20000, max_depth=60, max_visits=600):
        self.m = module
        self.hooks = {}          # by plain symbol name
        self.qhooks = []         # [(predicate(base, qual, dem), handler)]
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.max_visits = max_visits
        self.stats = {"insts": 0, "calls": 0, "forks": 0, "branches": 0, "decided": 0, "rounded_ops": 0}
        self.functions_seen = set()
        self.rnd_loc = {}
        self._hookcache = {}
        self.stack = []
        del UBLOG[:]
        self.loophook = None
        self.ieee = False        # log uses of IEEE infinity and NaN constants
        self.exithook = None
        self._headers = {}
        self._nz = {}
        install_std(self)

    # ------------------------------------------------------------ values
    def constval(self, c, st):
        k = c[0]
        if k == "int":
            return c[2]
        if k == "fp":
            v = c[2]
            if self.ieee and v in ("inf", "-inf", "nan"):
                st.event("ieee", v, demangle_fn(self))
            if v == "inf":
                return PINF
            if v == "-inf":
                return NINF
            if v == "nan":
                return NAN
            if v == "-0":
                return ZERO
            return const(v)
        if k == "null":
            return ("null",)
        if k == "fn":
            return ("fn", c[1])
        if k == "glob":
            return self.globptr(c[1], st)
        if k == "undef":
            return self.undef(c[1])
        if k == "zero":
            return self.zero(c[1])
        if k == "agg":
            return tuple(self.constval(x, st) for x in c[2])
        if k == "bytes":
            return tuple(c[2])
        if k == "cgep":
            base = self.constval(c[2][0], st)
            return self.gep(c[1], base, [self.constval(x, st) for x in c[2][1:]], [x[1] if x[0] == "int" else 64 for x in c[2][1:]])
        if k == "md":
            return ("md", c[1])
        if k == "asm":
            return ("asm", c[1])
        return TopVal("const %s" % (k,))

    def undef(self, ty):
        if ty is not None and ty.kind == "struct":
            return tuple(self.undef(e) for e in ty.elems)
        if ty is not None and ty.kind in ("array", "vector"):
            return tuple(self.undef(ty.elems[0]) for _ in range(ty.n))
        return TopVal("undef")

    def zero(self, ty):
        k = ty.kind
        if k == "int":
            return 0
        if k in FMT:
            return ZERO
        if k == "ptr":
            return ("null",)
        if k == "struct":
            return tuple(self.zero(e) for e in ty.elems)
        if k in ("array", "vector"):
            return tuple(self.zero(ty.elems[0]) for _ in range(ty.n))
        raise Unsupported("zero of %s" % k)

    def globptr(self, name, st):
        k = ("@" + name, 0)
        if k not in st.mem:
            st.mem[k] = {}
            st.own.add(k)
            ty, ini, isconst, tls = self.m.global_init(name)
            if ini is not None:
                # a non-const global may have been changed by anyone: unknown, unless
                # it is a const-qualified object initialised dynamically (none expected)
                if isconst or name.startswith("_ZT") or name.startswith(".str") or self.never_written(name):
                    self.store_typed(st, k, 0, ty, self.constval(ini, st))
        return ("p", k, 0)

    def never_written(self, name):
        """no instruction of this module stores to / takes the address of the internal global
        other than loads"""
        r = self._nz.get(name)
        if r is None:
            r = self._nz[name] = self.m.only_loaded(name) if hasattr(self.m, "only_loaded") else False
        return r

    def get(self, o, regs, args, st):
        k = o[0]
        if k == "r":
            return regs[o[1]]
        if k == "a":
            return args[o[1]]
        return self.constval(o[1], st)

    # ------------------------------------------------------------ memory
    def store_typed(self, st, obj, off, ty, v):
        k = ty.kind
        if k in ("struct",):
            if isinstance(v, TopVal):
                v = tuple(v for _ in ty.elems)
            for e, o, x in zip(ty.elems, ty.offs, v):
                self.store_typed(st, obj, off + o, e, x)
        elif k in ("array", "vector"):
            es = ty.elems[0].size
            if isinstance(v, TopVal):
                v = tuple(v for _ in range(ty.n))
            for i, x in enumerate(v):
                self.store_typed(st, obj, off + i * es, ty.elems[0], x)
        else:
            c = st.cells(obj, True)
            sz = ty.store
            self.clobber(c, off, sz)
            c[off] = (sz, v)

    def clobber(self, c, off, sz):
        if off in c and c[off][0] == sz:
            return
        for o in [o for o, (s, _v) in c.items() if o < off + sz and off < o + s]:
            s, v = c.pop(o)
            if v == "ZF":
                if o < off:
                    c[o] = (off - o, "ZF")
                if o + s > off + sz:
                    c[off + sz] = (o + s - off - sz, "ZF")

    def load_typed(self, st, obj, off, ty):
        k = ty.kind
        if k == "struct":
            return tuple(self.load_typed(st, obj, off + o, e) for e, o in zip(ty.elems, ty.offs))
        if k in ("array", "vector"):
            es = ty.elems[0].size
            return tuple(self.load_typed(st, obj, off + i * es, ty.elems[0]) for i in range(ty.n))
        c = st.cells(obj)
        x = c.get(off)
        if x is not None and x[0] == ty.store and x[1] != "ZF":
            v = x[1]
            if ty.kind == "int" and is_num(v):
                if isinstance(v, Poly) and v.t and not v.is_const() and all(
                        (at.fmt or "real")[0] in "iu" for at in T.atoms_of(v)):
                    return v
                return ("bits", v, ty.n)
            if ty.kind in FMT and isinstance(v, tuple) and v and v[0] == "bits":
                return v[1]
            if ty.kind in FMT and isinstance(v, int):
                return ("bits", v, 0) if v else ZERO
            return v
        for o, (s, v) in c.items():
            if v == "ZF" and o <= off and off + ty.store <= o + s:
                return self.zero(ty)
        if x is None and not any(o < off + ty.store and off < o + s for o, (s, _) in c.items()):
            return TopVal("uninitialised")
        # little-endian integer composed of concrete smaller ints / part of a bigger one
        if ty.kind == "int":
            for o, (s, v) in c.items():
                if o <= off and off + ty.store <= o + s and isinstance(v, int):
                    return (v >> (8 * (off - o))) & ((1 << ty.n) - 1)
            parts = 0
            o = off
            ok = True
            while o < off + ty.store:
                y = c.get(o)
                if y is None or not isinstance(y[1], int):
                    ok = False
                    break
                parts |= y[1] << (8 * (o - off))
                o += y[0]
            if ok:
                return parts & ((1 << ty.n) - 1)
        return TopVal("partial load")

    def gep(self, ty, base, idx, widths):
        if base[0] == "null":
            off = 0
            obj = None
        elif base[0] == "p":
            obj, off = base[1], base[2]
        else:
            raise Unsupported("gep on %r" % (base,))
        cur = ty
        for n, (i, w) in enumerate(zip(idx, widths)):
            if not isinstance(i, int):
                raise Unsupported("gep with symbolic index")
            if i >> (w - 1):
                i -= 1 << w
            if n == 0:
                off += i * cur.size
            elif cur.kind == "struct":
                off += cur.offs[i]
                cur = cur.elems[i]
            else:
                cur = cur.elems[0]
                off += i * cur.size
        if obj is None:
            return ("null",) if off == 0 else ("p", ("nullobj", 0), off)
        return ("p", obj, off)

    # ------------------------------------------------------------ numeric ops
    def num(self, v, what="number"):
        if isinstance(v, T.Token):
            return NAN
        if isinstance(v, (Poly, Special)):
            return v
        if isinstance(v, TopVal):
            raise Unsupported("%s used as number" % v)
        raise Unsupported("%r used as number (%s)" % (v, what))

    def sgn(self, st, p):
        s = st.facts.sign(p)
        if len(s) != 1:
            raise NeedSign(p)
        return s

    def fadd(self, st, a, b):
        if a is NAN or b is NAN:
            return NAN
        if is_special(a) or is_special(b):
            if is_special(a) and is_special(b):
                return a if a is b else NAN
            return a if is_special(a) else b
        return padd(a, b)

    def fneg(self, a):
        if a is NAN:
            return NAN
        if a is PINF:
            return NINF
        if a is NINF:
            return PINF
        return pneg(a)

    def fmul(self, st, a, b):
        if a is NAN or b is NAN:
            return NAN
        if is_special(a) or is_special(b):
            if is_special(a) and is_special(b):
                return PINF if a is b else NINF
            if is_special(b):
                a, b = b, a
            s = self.sgn(st, b)
            if s == "0":
                return NAN
            return a if s == "+" else self.fneg(a)
        return pmul(a, b)

    def fdiv(self, st, a, b):
        if a is NAN or b is NAN:
            return NAN
        if is_special(b):
            return NAN if is_special(a) else ZERO
        s = st.facts.sign(b)
        if "0" in s:
            if s != "0":
                raise NeedSign(b)
            st.event("div0", show(a))
            if is_special(a):
                return a
            sa = self.sgn(st, a)
            return NAN if sa == "0" else (PINF if sa == "+" else NINF)
        if is_special(a):
            s = self.sgn(st, b)
            return a if s == "+" else self.fneg(a)
        return pdiv(a, b)

    def fsqrt(self, st, a):
        if a is NAN or a is NINF:
            return NAN
        if a is PINF:
            return PINF
        s = st.facts.sign(a)
        if "-" in s:
            if s != "-":
                raise NeedSign(a)
            return NAN
        return fn("sqrt", (a,))

    def round(self, st, fmt, p, ins=None, mode=None):
        if is_special(p):
            return p
        self.stats["rounded_ops"] += 1
        m = mode or st.mode
        r = rnd(m, fmt, p)
        if ins is not None and r is not p and isinstance(r, Poly):
            for at in T.atoms_of(r):
                if at.kind == "rnd" and at not in self.rnd_loc:
                    self.rnd_loc[at] = self.loc(ins)
        return r

    def loc(self, ins):
        try:
            f, l = ins.fn.mod.loc(ins)
        except Exception:
            return "?"
        return "%s:%d" % (shortpath(f), l)

    # relation possibilities between two non-NaN numbers: subset of '<=>'
    def rel(self, st, a, b):
        F = st.facts
        if is_special(a) or is_special(b):
            if a is b:
                return "="
            if a is PINF or b is NINF:
                return ">"
            if a is NINF or b is PINF:
                return "<"
        d = padd(b, a, -1)
        if not d.t:
            return "="
        if d.is_const():
            return "<" if d.const() > 0 else ">"
        bb = F.bounds(d)
        s = bb.sign()
        r = ""
        nd = pneg(d)
        ge = "-" not in s or F.ge0(d, depth=4)        # a<=b
        le = "+" not in s or F.ge0(nd, depth=4)       # b<=a
        gt = "-" not in s and "0" not in s or (ge and F.ge0(d, True, depth=4))
        lt = "+" not in s and "0" not in s or (le and F.ge0(nd, True, depth=4))
        ne = d in F.ne or nd in F.ne or "0" not in s
        if not le:
            r += "<"
        if not (gt or lt or ne):
            r += "="
        if not ge:
            r += ">"
        return r

    def compare(self, st, a, b, accept):
        """accept: subset of '<=>' for which the predicate is true.
        returns list of (bool, state)"""
        self.stats["branches"] += 1
        if isinstance(a, TopVal) or isinstance(b, TopVal):
            s2 = st.fork()
            return [(1, st), (0, s2)]
        r = self.rel(st, a, b)
        if not r:
            st.facts.dead = True
            return []
        t = [x for x in r if x in accept]
        f = [x for x in r if x not in accept]
        if not f:
            self.stats["decided"] += 1
            return [(1, st)]
        if not t:
            self.stats["decided"] += 1
            return [(0, st)]
        self.stats["forks"] += 1
        out = []
        s2 = st.fork()
        for val, ss, rs in ((1, st, t), (0, s2, f)):
            self.assume(ss, a, b, rs)
            if not ss.facts.dead:
                out.append((val, ss))
        return out

    def assume(self, st, a, b, rels):
        F = st.F()
        d = padd(b, a, -1)
        rs = set(rels)
        if rs == {"<"}:
            F.add_ge(d, True)
        elif rs == {"<", "="}:
            F.add_ge(d)
        elif rs == {"="}:
            F.add_eq(d)
        elif rs == {">"}:
            F.add_ge(pneg(d), True)
        elif rs == {">", "="}:
            F.add_ge(pneg(d))
        elif rs == {"<", ">"}:
            F.add_ne(d)
        if F.ne and not F.dead:
            for q in F.ne:
                if F.ge0(q) and F.ge0(pneg(q)):
                    F.dead = True
                    return

    FC = {"oeq": ("=", 0), "ogt": (">", 0), "oge": (">=", 0), "olt": ("<", 0), "ole": ("<=", 0), "one": ("<>", 0),
          "ord": ("<=>", 0), "uno": ("", 1), "ueq": ("=", 1), "ugt": (">", 1), "uge": (">=", 1), "ult": ("<", 1),
          "ule": ("<=", 1), "une": ("<>", 1), "true": ("<=>", 1), "false": ("", 0)}

    def fcmp(self, st, pred, a, b):
        acc, un = self.FC[pred]
        if isinstance(a, (TopVal, T.Token)) or isinstance(b, (TopVal, T.Token)):
            s2 = st.fork()
            return [(1, st), (0, s2)]
        a, b = self.num(a), self.num(b)
        if a is NAN or b is NAN:
            return [(un, st)]
        return self.compare(st, a, b, acc)

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, TopVal) or isinstance(b, TopVal):
            s2 = st.fork()
            return [(1, st), (0, s2)]
        if isinstance(a, tuple) or isinstance(b, tuple):
            if a and b and isinstance(a, tuple) and isinstance(b, tuple):
                if a[0] == "mode" or b[0] == "mode":
                    return self.cmpmode(st, pred, a, b)
                if a[0] in ("p", "null", "fn") and b[0] in ("p", "null", "fn"):
                    if pred in ("eq", "ne"):
                        return [(int((a == b) == (pred == "eq")), st)]
                    if a[0] == b[0] == "p" and a[1] == b[1]:
                        x, y = a[2], b[2]
                        r = {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                             "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pred]
                        return [(int(r), st)]
            if (isinstance(a, tuple) and a[0] == "mode") or (isinstance(b, tuple) and b[0] == "mode"):
                return self.cmpmode(st, pred, a, b)
            raise Unsupported("icmp %s %r %r" % (pred, a, b))
        w = ty.n
        if isinstance(a, int) and isinstance(b, int):
            def sg(x):
                return x - (1 << w) if x >> (w - 1) else x
            x, y = (sg(a), sg(b)) if pred[0] == "s" else (a, b)
            r = {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[
                pred if pred in ("eq", "ne") else pred[1:]]
            self.stats["branches"] += 1
            self.stats["decided"] += 1
            return [(int(r), st)]
        a, b = self.ipoly(a, w, pred), self.ipoly(b, w, pred)
        acc = {"eq": "=", "ne": "<>", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}[
            pred if pred in ("eq", "ne") else pred[1:]]
        return self.compare(st, a, b, acc)

    def cmpmode(self, st, pred, a, b):
        """comparison of two reported rounding modes"""
        ent = st.user.get("entry")
        if pred in ("eq", "ne"):
            t = int(pred == "eq")
            if a == b:
                return [(t, st)]
            a, b = [ent[0] if ent and ent[0] is not None and v == ENTRY_MODE else v for v in (a, b)]
            if isinstance(a, int) and isinstance(b, int):
                return [(t if a == b else 1 - t, st)]
            for x, y in ((a, b), (b, a)):
                if x == ENTRY_MODE and isinstance(y, int):
                    no = ent[1] if ent else frozenset()
                    if y in no or y not in ROUND_CONST:
                        return [(1 - t, st)]
                    s2 = st.fork()
                    s2.user["entry"] = (None, no | {y})
                    st.user["entry"] = (y, no)
                    if st.mode == "E":
                        st.mode = ROUND_CONST[y]
                    return [(t, st), (1 - t, s2)]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[:2] == ("mode", "?"):     # the mode an unknown callee left
                    s2 = st.fork()
                    if st.mode == "?" and st.user.get("unk") == x:
                        if y == ENTRY_MODE:
                            st.mode = "E"
                        elif y in ROUND_CONST:
                            st.mode = ROUND_CONST[y]
                    return [(t, st), (1 - t, s2)]
        s2 = st.fork()
        return [(1, st), (0, s2)]

    def inmode(self, st, m):
        """the processor is in mode m ("E": the one at entry)"""
        e = st.user.get("entry")
        known = ROUND_CONST[e[0]] if e and e[0] is not None else None
        return st.mode == m or known is not None and (known if st.mode == "E" else st.mode) == (known if m == "E" else m)

    def ipoly(self, v, w, pred="s"):
        if isinstance(v, int):
            if pred[0] != "u" and v >> (w - 1):
                v -= 1 << w
            return const(v)
        if isinstance(v, Poly):
            return v
        raise Unsupported("int value %r" % (v,))

    def int_op(self, st, ins, op, a, b, w):
        mask = (1 << w) - 1
        if isinstance(a, tuple) and a and a[0] == "bits" and isinstance(b, int):
            if op == "and" and w in (32, 64) and b == mask >> 1:
                return ("bits", ("abs", a[1]), w)
            raise Unsupported("bit operation on a float")
        if isinstance(a, int) and isinstance(b, int):
            def sg(x):
                return x - (1 << w) if x >> (w - 1) else x
            if op == "add":
                r = a + b
            elif op == "sub":
                r = a - b
            elif op == "mul":
                r = a * b
            elif op == "and":
                r = a & b
            elif op == "or":
                r = a | b
            elif op == "xor":
                r = a ^ b
            elif op == "shl":
                r = a << b
            elif op == "lshr":
                r = a >> b
            elif op == "ashr":
                r = sg(a) >> b
            elif op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    st.event("ub", "division by zero", self.loc(ins))
                    return TopVal("x/0")
                if op == "udiv":
                    r = a // b
                elif op == "urem":
                    r = a % b
                else:
                    x, y = sg(a), sg(b)
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    r = q if op == "sdiv" else x - q * y
            if op in ("add", "sub", "mul") and ins is not None and ins.x and ins.x[0]:
                x, y = sg(a), sg(b)
                v = x + y if op == "add" else x - y if op == "sub" else x * y
                if not -(1 << (w - 1)) <= v < (1 << (w - 1)):
                    st.event("ub", "signed integer overflow", self.loc(ins))
            return r & mask
        if isinstance(a, TopVal) or isinstance(b, TopVal):
            return TopVal("int op on unknown")
        # symbolic integers
        if w == 1:
            raise Unsupported("symbolic i1 op")
        uns = any(at.fmt[0] == "u" for v in (a, b) if isinstance(v, Poly) for at in T.atoms_of(v))
        pa, pb = self.ipoly(a, w, "u" if uns else "s"), self.ipoly(b, w, "u" if uns else "s")
        if op == "add":
            r = padd(pa, pb)
        elif op == "sub":
            r = padd(pa, pb, -1)
        elif op == "mul":
            r = pmul(pa, pb)
        elif op == "and" and isinstance(b, int) and b == 1:
            raise Unsupported("parity of a symbolic integer")
        else:
            raise Unsupported("symbolic int op %s" % op)
        nsw = bool(ins is not None and ins.x and ins.x[0])
        lo, hi = (0, mask) if (uns and not nsw) else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        F = st.facts
        b_ = F.bounds(r)
        if b_.lo is None or b_.lo < lo or b_.hi is None or b_.hi > hi:
            if uns:
                # split on wrap-around
                if b_.lo is not None and b_.lo < 0:
                    s = F.sign(r)
                    if "-" in s and len(s) > 1:
                        raise NeedSign(r)
                    if s == "-":
                        return padd(r, const(1 << w))
                raise Unsupported("unsigned overflow")
            if nsw and b_.hi is not None and b_.hi > hi and padd(r, const(-hi)) is not None:
                # signed overflow possible?
                over = padd(r, const(-hi - 1))
                s = F.sign(over)
                if s != "-":
                    if len(s) > 1:
                        raise NeedSign(over)
                    st.event("ub", "signed integer overflow", self.loc(ins))
                    return TopVal("overflow")
        return r

    # ------------------------------------------------------------ running
    def run(self, fname, args, st):
        f = self.m.functions.get(fname)
        if f is None or f.decl:
            raise Unsupported("entry point %s not found in IR" % fname)
        self.paths = 0
        return self.call(f, args, st, None)

    def find_hook(self, name):
        h = self._hookcache.get(name, 0)
        if h != 0:
            return h
        h = self.hooks.get(name)
        if h is None:
            dem = demangle(name)
            q, b = base_name(dem)
            for pred, hd in self.qhooks:
                if pred(b, q, dem):
                    h = hd
                    break
        self._hookcache[name] = h
        return h

    def call(self, f, args, st, ins):
        """-> list of (kind, value, state); kind in ret/throw/stop"""
        self.stats["calls"] += 1
        h = self.find_hook(f.name)
        if h is not None:
            r = h(self, st, args, ins, f)
            if r is not None:
                return r
        if f.decl:
            raise Unsupported("call of unknown external function %s" % f.pretty)
        if len(self.stack) > self.max_depth:
            raise Hang("call depth limit (recursion?) at " + f.pretty)
        self.m_decode(f)
        self.functions_seen.add(f.name)
        self.stack.append((f, ins))
        try:
            return self.exec(f, args, st)
        finally:
            self.stack.pop()

    def m_decode(self, f):
        if not f.decoded:
            f.mod.decode(f)

    def exec(self, f, args, st):
        results = []
        work = [(0, 0, -1, {}, st, [], {})]
        while work:
            bi, ii, prev, regs, st, frame, visits = work.pop()
            blk = f.blocks[bi]
            insts = blk.insts
            while True:
                if ii == 0:
                    n = visits.get(bi, 0) + 1
                    if self.loophook is not None and bi in self.loop_headers(f):
                        if not self.loophook(self, f, st, frame, regs, bi, n, args):
                            break
                    if n > self.max_visits:
                        raise Hang("loop bound exceeded in %s" % f.pretty)
                    visits[bi] = n
                    if blk.nphi:
                        vals = []
                        for k in range(blk.nphi):
                            p = insts[k]
                            vals.append((p.id, self.get(p.x[prev], regs, args, st)))
                        for k, v in vals:
                            regs[k] = v
                        ii = blk.nphi
                ins = insts[ii]
                self.stats["insts"] += 1
                try:
                    r = self.step(ins, regs, args, st, frame)
                except NeedSign as e:
                    self.stats["forks"] += 1
                    cur = st.facts.sign(e.poly)
                    if len(cur) <= 1:
                        raise Unsupported("cannot split on the sign of %r" % (e.poly,))
                    todo = []
                    for sg in cur:
                        s2 = st.fork()
                        F = s2.F()
                        if sg == "-":
                            F.add_ge(pneg(e.poly), True)
                        elif sg == "0":
                            F.add_eq(e.poly)
                        else:
                            F.add_ge(e.poly, True)
                        if not F.dead:
                            todo.append((bi, ii, prev, dict(regs), s2, list(frame), dict(visits)))
                    # re-execute the same instruction in each part
                    work.extend((b, i, p, r_, s_, fr, vi) for b, i, p, r_, s_, fr, vi in todo)
                    if blk.nphi and ii < blk.nphi:
                        raise Unsupported("split in phi")
                    break
                if r is None:
                    ii += 1
                    continue
                kind = r[0]
                if kind == "jump":
                    prev, bi, ii = bi, r[1], 0
                    blk = f.blocks[bi]
                    insts = blk.insts
                    continue
                if kind == "multi":
                    # [(regvalue or None, state, jump or None)]
                    self.paths += len(r[1]) - 1 if r[1] else 0
                    if self.paths > self.max_paths:
                        raise Unsupported("path limit")
                    for v, s2, j, out in r[1]:
                        if out is not None:
                            self.leave(s2, frame)
                            results.append((out[0], out[1], s2))
                            continue
                        rg = dict(regs) if len(r[1]) > 1 else regs
                        fr = list(frame) if len(r[1]) > 1 else frame
                        vi = dict(visits) if len(r[1]) > 1 else visits
                        if v is not NOVAL:
                            rg[ins.id] = v
                        if j is None:
                            work.append((bi, ii + 1, prev, rg, s2, fr, vi))
                        else:
                            work.append((j, 0, bi, rg, s2, fr, vi))
                    break
                if kind in ("ret", "throw", "stop"):
                    self.leave(st, frame)
                    results.append((kind, r[1], st))
                    break
                raise Unsupported("internal: " + str(kind))
        if self.exithook is not None:
            self.exithook(self, f, results)
        return self.merge(results)

    def loop_headers(self, f):
        """indices of the blocks through which a cycle of the control flow graph is entered"""
        h = self._headers.get(f.name)
        if h is not None:
            return h
        succ = {}
        for i, b in enumerate(f.blocks):
            t = b.insts[-1]
            if t.op == "br":
                succ[i] = list(t.x)
            elif t.op == "switch":
                succ[i] = [t.x[0]] + [y for _c, y in t.x[1]]
            elif t.op == "invoke":
                succ[i] = [y for y in t.x[1:] if y is not None]
            else:
                succ[i] = []

        def reach(a):
            seen, todo = set(), list(succ[a])
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += succ[x]
            return seen
        R = {i: reach(i) for i in succ}
        h = set()
        for i in succ:
            if i in R[i] and any(i in succ[p] and p not in R[i] for p in succ):
                h.add(i)
        self._headers[f.name] = h
        return h

    def leave(self, st, frame):
        for k in frame:
            st.mem.pop(k, None)

    def merge(self, results):
        """join outcomes that agree on everything (keeps the path count small)"""
        if len(results) < 2:
            return results
        seen = {}
        out = []
        for k, v, s in results:
            try:
                key = (k, v if not isinstance(v, TopVal) else "top", s.mode, s.ev, s.facts.key(), s.user.get("entry"), s.user.get("unk"),
                       frozenset((o, frozenset(c.items())) for o, c in s.mem.items()))
                if key in seen:
                    continue
                seen[key] = 1
            except TypeError:
                pass
            out.append((k, v, s))
        return out

    def step(self, ins, regs, args, st, frame):
        op = ins.op
        g = self.get
        if op == "alloca":
            p = st.new("%s" % ("tmp",))
            frame.append(p[1])
            regs[ins.id] = p
            return None
        if op == "store":
            v = g(ins.ops[0], regs, args, st)
            p = g(ins.ops[1], regs, args, st)
            self.do_store(st, p, ins.x, v, ins)
            return None
        if op == "load":
            p = g(ins.ops[0], regs, args, st)
            regs[ins.id] = self.do_load(st, p, ins.ty, ins)
            return None
        if op == "gep":
            base = g(ins.ops[0], regs, args, st)
            if isinstance(base, TopVal):
                raise Unsupported("gep on unknown pointer")
            idx = [g(o, regs, args, st) for o in ins.ops[1:]]
            ws = []
            for o, i in zip(ins.ops[1:], idx):
                ws.append(o[1][1] if o[0] == "c" and o[1][0] == "int" else 64)
            regs[ins.id] = self.gep(ins.x, base, idx, ws)
            return None
        if op in ("call", "invoke"):
            return self.do_call(ins, regs, args, st)
        if op == "br":
            if len(ins.x) == 1:
                return ("jump", ins.x[0])
            c = g(ins.ops[0], regs, args, st)
            if isinstance(c, TopVal):
                s2 = st.fork()
                return ("multi", [(NOVAL, st, ins.x[0], None), (NOVAL, s2, ins.x[1], None)])
            st.step((ins, c))
            return ("jump", ins.x[0] if c else ins.x[1])
        if op == "switch":
            c = g(ins.ops[0], regs, args, st)
            if not isinstance(c, int):
                raise Unsupported("switch on symbolic value")
            for cv, t in ins.x[1]:
                if cv[2] == c:
                    return ("jump", t)
            return ("jump", ins.x[0])
        if op == "ret":
            return ("ret", g(ins.ops[0], regs, args, st) if ins.ops else None)
        if op == "fcmp":
            r = self.fcmp(st, ins.x, g(ins.ops[0], regs, args, st), g(ins.ops[1], regs, args, st))
            return self.many(ins, regs, r)
        if op == "icmp":
            r = self.icmp(st, ins.x[0], g(ins.ops[0], regs, args, st), g(ins.ops[1], regs, args, st), ins.x[1])
            return self.many(ins, regs, r)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            regs[ins.id] = self.fpop(st, op, [g(o, regs, args, st) for o in ins.ops], ins.ty, ins)
            return None
        if op == "fneg":
            v = g(ins.ops[0], regs, args, st)
            regs[ins.id] = v if isinstance(v, TopVal) else self.fneg(self.num(v))
            return None
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = g(ins.ops[0], regs, args, st), g(ins.ops[1], regs, args, st)
            if ins.ty.kind != "int":
                raise Unsupported("vector int op")
            regs[ins.id] = self.int_op(st, ins, op, a, b, ins.ty.n)
            return None
        if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast",
                  "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            return self.cast(ins, op, g(ins.ops[0], regs, args, st), regs, st)
        if op == "select":
            c = g(ins.ops[0], regs, args, st)
            a, b = g(ins.ops[1], regs, args, st), g(ins.ops[2], regs, args, st)
            if isinstance(c, TopVal):
                s2 = st.fork()
                return ("multi", [(a, st, None, None), (b, s2, None, None)])
            regs[ins.id] = a if c else b
            return None
        if op == "phi":
            raise Unsupported("phi out of place")
        if op == "extractvalue":
            v = g(ins.ops[0], regs, args, st)
            for i in ins.x:
                v = v[i]
            regs[ins.id] = v
            return None
        if op == "insertvalue":
            v = g(ins.ops[0], regs, args, st)
            x = g(ins.ops[1], regs, args, st)
            regs[ins.id] = self.insval(v, x, ins.x, ins.ty)
            return None
        if op == "extractelement":
            v = g(ins.ops[0], regs, args, st)
            regs[ins.id] = v[g(ins.ops[1], regs, args, st)]
            return None
        if op == "insertelement":
            v = g(ins.ops[0], regs, args, st)
            if isinstance(v, TopVal):
                v = tuple(TopVal("undef") for _ in range(ins.ty.n))
            v = list(v)
            v[g(ins.ops[2], regs, args, st)] = g(ins.ops[1], regs, args, st)
            regs[ins.id] = tuple(v)
            return None
        if op == "shufflevector":
            a, b = g(ins.ops[0], regs, args, st), g(ins.ops[1], regs, args, st)
            n = len(a) if isinstance(a, tuple) else 0
            allv = list(a) + (list(b) if isinstance(b, tuple) else [TopVal("undef")] * n)
            regs[ins.id] = tuple(allv[i] if i >= 0 else TopVal("undef") for i in ins.x)
            return None
        if op == "landingpad":
            cleanup, clauses = ins.x
            exc = st.exc
            sel = 0
            for c in clauses:
                if c[0] == "null":
                    sel = 1
                    break
                if c[0] == "glob" and exc_matches(exc[0], c[1]):
                    sel = typeid_for(c[1])
                    break
            regs[ins.id] = (exc[1], sel)
            st.user["unwinding"] = 1
            return None
        if op == "resume":
            return ("throw", st.exc[0])
        if op == "unreachable":
            st.event("ub", "unreachable reached", self.loc(ins))
            return ("stop", "unreachable")
        if op == "fence":
            return None
        raise Unsupported("instruction %s at %s" % (op, self.loc(ins)))

    def insval(self, v, x, path, ty):
        if isinstance(v, TopVal):
            v = self.undef(ty)
        v = list(v)
        if len(path) == 1:
            v[path[0]] = x
        else:
            v[path[0]] = self.insval(v[path[0]], x, path[1:], ty.elems[path[0]])
        return tuple(v)

    def many(self, ins, regs, r):
        if len(r) == 1:
            regs[ins.id] = r[0][0]
            return None
        return ("multi", [(v, s, None, None) for v, s in r])

    def do_store(self, st, p, ty, v, ins):
        if not (isinstance(p, tuple) and p[0] == "p"):
            raise Unsupported("store through %r at %s" % (p, self.loc(ins)))
        if p[1][0][:1] == "@":
            st.event("gwrite", p[1][0][1:], self.loc(ins))
        self.store_typed(st, p[1], p[2], ty, v)

    def do_load(self, st, p, ty, ins):
        if not (isinstance(p, tuple) and p[0] == "p"):
            raise Unsupported("load through %r at %s" % (p, self.loc(ins)))
        if p[1][0][:1] == "@":
            nm = p[1][0][1:]
            if not st.mem[p[1]] and not nm.startswith("_ZT"):
                st.event("gread", nm, self.loc(ins))
        return self.load_typed(st, p[1], p[2], ty)

    def fpop(self, st, op, a, ty, ins, mode=None):
        if ty.kind == "vector":
            return tuple(self.fpop(st, op, [x[i] for x in a], ty.elems[0], ins, mode) for i in range(ty.n))
        for x in a:
            if isinstance(x, TopVal):
                return x
        a = [self.num(x) for x in a]
        fmt = FMT[ty.kind]
        if op == "fadd":
            r = self.fadd(st, a[0], a[1])
        elif op == "fsub":
            r = self.fadd(st, a[0], self.fneg(a[1]))
        elif op == "fmul":
            r = self.fmul(st, a[0], a[1])
        elif op == "fdiv":
            r = self.fdiv(st, a[0], a[1])
        else:
            raise Unsupported(op)
        st.user["lastfp"] = ins
        return self.round(st, fmt, r, ins, mode)

    def cast(self, ins, op, v, regs, st):
        ty = ins.ty
        if isinstance(v, TopVal):
            regs[ins.id] = v
            return None
        src = ins.x
        if op in ("bitcast", "freeze", "addrspacecast"):
            if src is not None and src.kind == "vector" and ty.kind != "vector":
                raise Unsupported("vector bitcast")
            if ty.kind == "int" and is_num(v) and src.kind in FMT:
                v = ("bits", v, ty.n)
            elif ty.kind in FMT and isinstance(v, tuple) and v and v[0] == "bits":
                v = v[1]
                if isinstance(v, tuple) and v[0] == "abs":
                    x = v[1]
                    if x is NAN:
                        v = NAN
                    elif is_special(x):
                        v = PINF
                    else:
                        s = self.sgn(st, x)
                        v = pneg(x) if s == "-" else x
            regs[ins.id] = v
            return None
        if op in ("trunc", "zext", "sext"):
            if isinstance(v, int):
                if op == "sext" and v >> (src.n - 1):
                    v -= 1 << src.n
                v &= (1 << ty.n) - 1
            elif isinstance(v, Poly):
                if op == "trunc":
                    lo, hi = -(1 << (ty.n - 1)), (1 << ty.n) - 1
                    b = st.facts.bounds(v)
                    if b.lo is None or b.lo < lo or b.hi is None or b.hi > hi:
                        raise Unsupported("truncation of a symbolic integer")
                if op == "zext" and any(at.fmt[0] == "i" for at in T.atoms_of(v)) and "-" in st.facts.sign(v):
                    s = self.sgn(st, v)
                    v = padd(v, const(1 << src.n)) if s == "-" else v
            elif isinstance(v, tuple) and v and v[0] in ("mode", "bits"):
                pass
            else:
                raise Unsupported("%s of %r" % (op, v))
            regs[ins.id] = v
            return None
        if op in ("sitofp", "uitofp"):
            regs[ins.id] = self.int2fp(st, op, v, src, ty, ins, None)
            return None
        if op in ("fptrunc", "fpext"):
            regs[ins.id] = self.round(st, FMT[ty.kind], self.num(v), ins)
            return None
        if op in ("ptrtoint", "inttoptr"):
            regs[ins.id] = v
            return None
        raise Unsupported("cast %s" % op)

    def int2fp(self, st, op, v, src, ty, ins, mode):
        if isinstance(v, TopVal):
            return v
        if isinstance(v, int):
            if op == "sitofp" and v >> (src.n - 1):
                v -= 1 << src.n
            p = const(v)
        elif isinstance(v, Poly):
            p = v
        else:
            raise Unsupported("int2fp of %r" % (v,))
        return self.round(st, FMT[ty.kind], p, ins, mode)

    def do_call(self, ins, regs, args, st):
        callee, ndest, udest = ins.x
        cv = self.get(callee, regs, args, st)
        a = [self.get(o, regs, args, st) for o in ins.ops]
        if isinstance(cv, tuple) and cv[0] == "asm":
            r = self.asm(ins, cv[1], a, st)
        elif isinstance(cv, tuple) and cv[0] == "fn":
            name = cv[1]
            if name.startswith("llvm."):
                r = self.intrinsic(name, a, ins, st)
            else:
                f = self.m.functions[name]
                r = self.call(f, a, st, ins)
        else:
            raise Unsupported("indirect call through %r at %s" % (cv, self.loc(ins)))
        out = []
        for kind, v, s in r:
            if kind == "ret":
                out.append((v, s, ndest, None))
            elif kind == "throw":
                if udest is not None:
                    out.append((NOVAL, s, udest, None))
                else:
                    out.append((NOVAL, s, None, ("throw", v)))
            else:
                out.append((NOVAL, s, None, (kind, v)))
        if len(out) == 1 and out[0][3] is None and out[0][1] is st:
            regs[ins.id] = out[0][0]
            if ndest is None and out[0][2] is None:
                return None
            return ("jump", out[0][2])
        return ("multi", out)

    def asm(self, ins, text, a, st):
        h = self.hooks.get("asm")
        if h:
            return h(self, st, a, ins, text)
        if not text.strip():
            return [("ret", TopVal("asm"), st)]
        raise Unsupported("inline asm %r" % text)

    def intrinsic(self, name, a, ins, st):
        R = lambda v: [("ret", v, st)]
        p = name.split(".")
        if p[1] == "dbg" or p[1] in ("lifetime", "assume", "experimental") and p[2] == "noalias":
            return R(None)
        if p[1] in ("lifetime", "assume", "stacksave", "stackrestore", "donothing", "va_start", "va_end",
                    "invariant", "launder", "strip"):
            return R(a[0] if p[1] in ("launder", "strip") else ("null",))
        if p[1] in ("trap", "ubsantrap"):
            return [("stop", "trap", st)]
        if p[1] == "expect":
            return R(a[0])
        if p[1] in ("memcpy", "memmove"):
            self.memcpy(st, a[0], a[1], a[2], ins)
            return R(None)
        if p[1] == "memset":
            if not isinstance(a[2], int) or a[1] != 0:
                raise Unsupported("memset")
            c = st.cells(a[0][1], True)
            self.clobber(c, a[0][2], a[2])
            if a[2]:
                c[a[0][2]] = (a[2], "ZF")
            return R(None)
        if p[1] == "eh" and p[2] == "typeid":
            return R(typeid_for(a[0][1][0][1:]))
        if p[1] == "experimental" and p[2] == "constrained":
            op = p[3]
            rm = None
            for x in a:
                if isinstance(x, tuple) and x and x[0] == "md" and x[1].startswith("round."):
                    rm = {"round.tonearest": "N", "round.downward": "D", "round.upward": "U",
                          "round.towardzero": "Z"}.get(x[1])
            if op in ("fadd", "fsub", "fmul", "fdiv"):
                return R(self.fpop(st, op, a[:2], ins.ty, ins, rm))
            if op in ("fcmp", "fcmps"):
                pred = a[2][1]
                r = self.fcmp(st, pred, a[0], a[1])
                return [("ret", v, s) for v, s in r]
            if op in ("sitofp", "uitofp"):
                src = self.optype(ins, 0)
                return R(self.int2fp(st, op, a[0], src, ins.ty, ins, rm))
            if op in ("fptrunc", "fpext"):
                if isinstance(a[0], TopVal):
                    return R(a[0])
                if ins.ty.kind == "vector":
                    raise Unsupported("vector fptrunc")
                return R(self.round(st, FMT[ins.ty.kind], self.num(a[0]), ins, rm))
            if op == "sqrt":
                return R(self.round(st, FMT[ins.ty.kind], self.fsqrt(st, self.num(a[0])), ins, rm))
            if op in ("floor", "ceil", "rint", "nearbyint", "trunc", "round"):
                return self.rounding_fn(st, op, a[0], ins, rm)
            if op == "fma" or op == "fmuladd":
                v = self.fadd(st, self.fmul(st, self.num(a[0]), self.num(a[1])), self.num(a[2]))
                return R(self.round(st, FMT[ins.ty.kind], v, ins, rm))
            if op in LIBM:
                return self.libm(st, op, a[0], FMT[ins.ty.kind], ins)
            if op in ("maxnum", "minnum"):
                return self.minmax(st, op[:3], a[0], a[1], ins)
            if op in ("fptosi", "fptoui"):
                raise Unsupported("fptosi")
            if op in ("lrint", "lround", "llrint", "llround"):
                raise Unsupported(op)
            raise Unsupported("constrained " + op)
        if p[1] == "fabs":
            return self.fabs(st, a[0])
        if p[1] == "sqrt":
            return R(self.round(st, FMT[ins.ty.kind], self.fsqrt(st, self.num(a[0])), ins))
        if p[1] in ("floor", "ceil", "rint", "nearbyint", "trunc", "round"):
            return self.rounding_fn(st, p[1], a[0], ins, None)
        if p[1] in ("maxnum", "minnum"):
            return self.minmax(st, p[1][:3], a[0], a[1], ins)
        if p[1] == "is" and p[2] == "fpclass":
            return self.fpclass(st, a[0], a[1])
        if p[1] == "copysign":
            raise Unsupported("copysign")
        if p[1] in ("fma", "fmuladd"):
            v = self.fadd(st, self.fmul(st, self.num(a[0]), self.num(a[1])), self.num(a[2]))
            return R(self.round(st, FMT[ins.ty.kind], v, ins))
        if p[1] in LIBM:
            return self.libm(st, p[1], a[0], FMT[ins.ty.kind], ins)
        if p[1] in ("get", "set") and p[2] == "rounding":
            if p[1] == "get":
                if st.mode == "E":
                    return R(("mode", "Eflt"))
                return R({"Z": 0, "N": 1, "U": 2, "D": 3}[st.mode])
            st.mode = {0: "Z", 1: "N", 2: "U", 3: "D"}[a[0]]
            st.event("mode", st.mode, self.loc(ins))
            return R(None)
        if p[1] in ("smax", "smin", "umax", "umin", "abs"):
            raise Unsupported(name)
        if p[1] in ("sadd", "ssub", "smul", "uadd", "usub", "umul"):
            raise Unsupported(name)
        raise Unsupported("intrinsic " + name)

    def optype(self, ins, i):
        m = ins.fn.mod
        return m.type(m.L.LLVMTypeOf(m.L.LLVMGetOperand(ins.ref, i)))

    def fpclass(self, st, v, mask):
        if not isinstance(mask, int):
            raise Unsupported("fpclass mask")
        v = self.num(v)
        nan = mask & 3
        ninf = mask & 4
        pinf = mask & 0x200
        if v is NAN:
            return [("ret", int(bool(nan)), st)]
        if v is PINF:
            return [("ret", int(bool(pinf)), st)]
        if v is NINF:
            return [("ret", int(bool(ninf)), st)]
        fin = mask & 0x1F8
        if fin == 0:
            return [("ret", 0, st)]
        if fin == 0x1F8:
            return [("ret", 1, st)]
        s = self.sgn(st, v)
        neg, zero, pos = mask & 0x18, mask & 0x60, mask & 0x180
        m = {"-": (neg, 0x18), "0": (zero, 0x60), "+": (pos, 0x180)}[s]
        if m[0] in (0, m[1]):
            return [("ret", int(bool(m[0])), st)]
        s2 = st.fork()
        return [("ret", 1, st), ("ret", 0, s2)]

    def fabs(self, st, v):
        if isinstance(v, TopVal):
            return [("ret", v, st)]
        v = self.num(v)
        if v is NAN:
            return [("ret", v, st)]
        if is_special(v):
            return [("ret", PINF, st)]
        out = []
        for neg, s in self.compare(st, v, ZERO, "<"):
            out.append(("ret", pneg(v) if neg else v, s))
        return out

    def minmax(self, st, which, a, b, ins):
        a, b = self.num(a), self.num(b)
        if a is NAN:
            return [("ret", b, st)]
        if b is NAN:
            return [("ret", a, st)]
        out = []
        for lt, s in self.compare(st, a, b, "<"):
            out.append(("ret", (a if lt else b) if which == "min" else (b if lt else a), s))
        return out

    def rounding_fn(self, st, op, v, ins, rm):
        if isinstance(v, TopVal):
            return [("ret", v, st)]
        v = self.num(v)
        if is_special(v):
            return [("ret", v, st)]
        fmt = FMT[ins.ty.kind]
        if op in ("rint", "nearbyint"):
            m = rm or st.mode
            op = {"D": "floor", "U": "ceil", "Z": "trunc", "N": "roundeven"}.get(m, "rint_" + m)
        sa = v.single_atom()
        if sa and abs(sa[0]) == 1 and T.fits(sa[1].fmt, fmt):
            fmt = sa[1].fmt      # the integral part of a value of a format is a value of that format
        if op == "trunc":
            s = self.sgn(st, v)
            op = "ceil" if s == "-" else "floor"
        return [("ret", fn(op, (v,), fmt), st)]

    def libm(self, st, name, v, fmt, ins):
        if isinstance(v, TopVal):
            return [("ret", v, st)]
        v = self.num(v)
        if v is NAN:
            return [("ret", NAN, st)]
        lim = {"exp": (ZERO, PINF), "log": (NAN, PINF), "sinh": (NINF, PINF), "cosh": (PINF, PINF),
               "tanh": (const(-1), ONE), "asinh": (NINF, PINF), "acosh": (NAN, PINF)}
        if is_special(v):
            if name in lim:
                return [("ret", lim[name][1 if v is PINF else 0], st)]
            if name == "atan":
                h = T.sym("HALFPI")
                return [("ret", self.round(st, fmt, h if v is PINF else pneg(h), ins), st)]
            st.event("domain", name, "infinite argument", self.loc(ins))
            return [("ret", NAN, st)]
        F = st.facts
        if name in ("log", "acosh", "asin", "acos", "atanh"):
            lo, hi, los, his = {"log": (0, None, False, False), "acosh": (1, None, False, False),
                                "asin": (-1, 1, False, False), "acos": (-1, 1, False, False),
                                "atanh": (-1, 1, False, False)}[name]
            ok = True
            if lo is not None and not F.le(const(lo), v, los, depth=4):
                ok = False
            if hi is not None and not F.le(v, const(hi), his, depth=4):
                ok = False
            if not ok:
                st.event("domain", name, "argument %r may be outside the domain" % (v,), self.loc(ins))
            p = self.pole(st, name, v)
            if p is not None:
                return [("ret", p, st)]
        return [("ret", self.round(st, fmt, fn(name, (v,)), ins), st)]

    def pole(self, st, name, v):
        """the infinite value of log at 0 and atanh at -1 and 1"""
        for n, at, r in (("log", 0, NINF), ("atanh", -1, NINF), ("atanh", 1, PINF)):
            if n == name:
                d = padd(v, const(-at))
                s = st.facts.sign(d)
                if s == "0":
                    return r
                if "0" in s:
                    raise NeedSign(d)
        return None

    def memcpy(self, st, d, s, n, ins):
        if not isinstance(n, int):
            raise Unsupported("memcpy of symbolic size")
        if n == 0:
            return
        if d[1][0][:1] == "@":
            st.event("gwrite", d[1][0][1:], self.loc(ins))
        src = dict(st.cells(s[1]))
        dst = st.cells(d[1], True)
        self.clobber(dst, d[2], n)
        for o in [o for o in dst if d[2] <= o < d[2] + n]:
            del dst[o]
        for o, (sz, v) in src.items():
            if s[2] <= o and o + sz <= s[2] + n:
                dst[o - s[2] + d[2]] = (sz, v)
            elif o < s[2] + n and s[2] < o + sz:
                if v == "ZF":
                    a, b = max(o, s[2]), min(o + sz, s[2] + n)
                    dst[a - s[2] + d[2]] = (b - a, "ZF")
                else:
                    raise Unsupported("memcpy splits a scalar")


NOVAL = object()
_typeids = {}


def typeid_for(name):
    return _typeids.setdefault(name, len(_typeids) + 2)


def exc_bases(t):
    t = t[4:] if t.startswith("_ZTI") else t
    return STD_BASES.get(t, [])


CLASS_BASES = {}


def exc_matches(thrown, caught):
    a = thrown[4:] if thrown.startswith("_ZTI") else thrown
    b = caught[4:] if caught.startswith("_ZTI") else caught
    if a == b:
        return True
    todo = list(STD_BASES.get(a, [])) + CLASS_BASES.get(a, [])
    seen = set()
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += STD_BASES.get(x, []) + CLASS_BASES.get(x, [])
    return False


def shortpath(f):
    f = os.path.normpath(f)
    for pre in ("/repo/", "/verif/"):
        if f.startswith(pre):
            return f[len(pre):] if pre == "/repo/" else f
    return f


def show(v):
    return T.show(v) if is_num(v) else repr(v)


# ---------------------------------------------------------------- external world

def install_std(E):
    H = E.hooks

    def ret(v):
        return lambda e, st, a, ins, f: [("ret", v, st)]

    def fesetround(e, st, a, ins, f):
        v = a[0]
        unk = st.user.pop("unk", None)
        if v == ENTRY_MODE:
            ent = st.user.get("entry")
            st.mode = ROUND_CONST[ent[0]] if ent and ent[0] is not None else "E"
        elif isinstance(v, int) and v in ROUND_CONST:
            st.mode = ROUND_CONST[v]
        elif v == unk and unk and st.mode == "?":
            st.user["unk"] = unk
        elif isinstance(v, TopVal) or isinstance(v, tuple) and v[:2] == ("mode", "?"):
            st.mode = "?"
            st.event("badmode", "fesetround with an unknown value", e.loc(ins))
        else:
            st.event("badmode", "fesetround(%r)" % (v,), e.loc(ins))
            return [("ret", 1, st)]
        st.event("mode", st.mode, e.loc(ins))
        return [("ret", 0, st)]

    def fegetround(e, st, a, ins, f):
        if st.mode == "E":
            return [("ret", ENTRY_MODE, st)]
        if st.mode == "?":
            if "unk" not in st.user:
                st.user["nunk"] = st.user.get("nunk", 0) + 1
                st.user["unk"] = ("mode", "?", st.user["nunk"])
            return [("ret", st.user["unk"], st)]
        return [("ret", ROUND_INV[st.mode], st)]

    H["fesetround"] = fesetround
    H["fegetround"] = fegetround

    def assert_fail(e, st, a, ins, f):
        st.event("assert", e.loc(ins))
        return [("stop", "assert", st)]
    H["__assert_fail"] = assert_fail
    for n in ("abort", "_ZSt9terminatev", "exit", "__cxa_pure_virtual"):
        H[n] = lambda e, st, a, ins, f: [("stop", "terminate", st)]
    H["__clang_call_terminate"] = lambda e, st, a, ins, f: [("stop", "terminate", st)]

    def alloc_exc(e, st, a, ins, f):
        return [("ret", st.new("exc"), st)]
    H["__cxa_allocate_exception"] = alloc_exc
    H["__cxa_free_exception"] = ret(None)

    def throw(e, st, a, ins, f):
        name = a[1][1][0][1:]
        st.exc = (name, a[0])
        st.event("throw", demangle_ti(name), e.loc(ins), demangle_fn(e))
        return [("throw", name, st)]
    H["__cxa_throw"] = throw

    def begin(e, st, a, ins, f):
        st.caught = st.caught + (st.exc,)
        st.user["unwinding"] = 0
        return [("ret", a[0], st)]
    H["__cxa_begin_catch"] = begin

    def endc(e, st, a, ins, f):
        st.caught = st.caught[:-1]
        return [("ret", None, st)]
    H["__cxa_end_catch"] = endc

    def uncaught(e, st, a, ins, f):
        # the caller may itself be unwinding
        if st.user.get("unwinding"):
            return [("ret", 1, st)]
        return [("ret", 1, st.fork()), ("ret", 0, st)]
    H["_ZSt18uncaught_exceptionv"] = uncaught
    H["_ZSt19uncaught_exceptionsv"] = lambda e, st, a, ins, f: [("ret", st.user.get("unwinding", 0), st)]

    def rethrow(e, st, a, ins, f):
        st.exc = st.caught[-1]
        return [("throw", st.exc[0], st)]
    H["__cxa_rethrow"] = rethrow

    def guard(e, st, a, ins, f):
        st.event("static", a[0][1][0][1:], e.loc(ins))
        return [("ret", 1, st)]
    H["__cxa_guard_acquire"] = guard
    H["__cxa_guard_release"] = ret(None)
    H["__cxa_guard_abort"] = ret(None)

    def is_exc_special(b, q, dem):
        return q.startswith("std::") and (q.count("::") >= 2) and any(
            x in q for x in ("runtime_error", "logic_error", "invalid_argument", "domain_error", "exception",
                             "overflow_error", "range_error", "out_of_range"))
    E.qhooks.append((is_exc_special, lambda e, st, a, ins, f: [("ret", None, st)]))

    def math1(name):
        def h(e, st, a, ins, f):
            return e.libm(st, name, a[0], FMT[ins.ty.kind], ins)
        return h
    for n in LIBM:
        for suf in ("", "f", "l"):
            H[n + suf] = math1(n)

    def rfn(name):
        def h(e, st, a, ins, f):
            # rint(double) called on a wider value rounds the argument first (done by fptrunc)
            return e.rounding_fn(st, name, a[0], ins, None)
        return h
    for n in ("rint", "nearbyint", "floor", "ceil", "trunc", "round"):
        for suf in ("", "f", "l"):
            H[n + suf] = rfn(n)
    for suf in ("", "f", "l"):
        H["sqrt" + suf] = lambda e, st, a, ins, f: [
            ("ret", a[0] if isinstance(a[0], TopVal) else
             e.round(st, FMT[ins.ty.kind], e.fsqrt(st, e.num(a[0])), ins), st)]
        H["fabs" + suf] = lambda e, st, a, ins, f: e.fabs(st, a[0])
        H["fmin" + suf] = lambda e, st, a, ins, f: e.minmax(st, "min", a[0], a[1], ins)
        H["fmax" + suf] = lambda e, st, a, ins, f: e.minmax(st, "max", a[0], a[1], ins)
    H["__isnan"] = H["isnan"] = lambda e, st, a, ins, f: [("ret", int(a[0] is NAN), st)]

    def memcpy(e, st, a, ins, f):
        e.memcpy(st, a[0], a[1], a[2], ins)
        return [("ret", a[0], st)]
    H["memcpy"] = H["memmove"] = memcpy


def demangle_ti(n):
    return demangle("_Z" + n[4:]) if n.startswith("_ZTI") and n[4:5].isdigit() else n


def demangle_fn(e):
    return e.stack[-1][0].pretty if e.stack else "?"
