"""C36: mode tables and control-register access of every supported platform.

Each platform's header is compiled (never run) for that architecture, or the closest one the
compiler has, through the repository's own hw_rounding.hpp; the compiler folds the constants and
the straight-line IR that remains is read as a list of effects on the control register.
"""
import os
import re
import subprocess
from lib import *
import lib
import llvmir

PLAT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "plat")
HOST = ["/usr/lib/llvm-18/lib/clang/18/include", "/usr/include/c++/13", "/usr/include/x86_64-linux-gnu/c++/13", "/usr/include/x86_64-linux-gnu", "/usr/include"]
DIRS = ("downward", "upward", "to_nearest", "toward_zero")
C99 = dict(zip(DIRS, (9002, 9003, 9001, 9004)))
X87 = {"downward": 1, "upward": 2, "to_nearest": 0, "toward_zero": 3}
PPC = {"downward": 3, "upward": 2, "to_nearest": 0, "toward_zero": 1}
SPARC = PPC                     # FSR.RD uses the same codes
SOLARIS = PPC                   # FP_RM, FP_RP, FP_RN, FP_RZ of the stub
ALPHA = {"downward": 1, "upward": 3, "to_nearest": 2, "toward_zero": 0}
DEC = {"downward": 3, "upward": 2, "to_nearest": 1, "toward_zero": 0}

MSX = ("-target", "i686-pc-windows-msvc")
# name -> (compiler arguments, kind, fields)
PLATFORMS = {
    "x86_64 C99": (("-target", "x86_64-linux-gnu"), "c99", {}),
    "other C99": (("-target", "aarch64-linux-gnu"), "c99", {"vol": "fdl"}),
    "i386 GCC": (("-target", "i386-linux-gnu", "-DPLAT_FAST", "-DPLAT_INT"), "x87", {"vol": "fd", "ints": "fdl", "fast": True}),
    "i386 Metrowerks": (("-target", "i386-linux-gnu", "-U__GNUC__", "-D__MWERKS__"), "c99", {"vol": "fd"}),
    "i386 Intel": (("-target", "i386-linux-gnu", "-U__GNUC__", "-D__ICC=800"), "c99", {"vol": "fd"}),
    "i386 Sun": (("-target", "i386-linux-gnu", "-U__GNUC__", "-U__i386__", "-D__i386", "-D__SUNPRO_CC=0x590"), "c99", {"vol": "fd"}),
    "i386 Microsoft": (MSX + ("-DPLAT_MSVC", "-DPLAT_KEEP", "-DBOOST_MSVC=1310"), "msvc", {"vol": "fdl", "pc": True}),
    "x64 Microsoft": (("-target", "x86_64-pc-windows-msvc", "-U__x86_64__", "-DPLAT_MSVC", "-DPLAT_KEEP", "-DBOOST_MSVC=1900"), "msvc", {}),
    "i386 Borland": (MSX + ("-D__BORLANDC__", "-U__clang__", "-D_M_IX86", "-DPLAT_BCC", "-U_MSC_VER"), "bcc", {"vol": "fd", "noint": True}),
    "PowerPC GCC": (("-target", "powerpc64-linux-gnu"), "ppc", {}),
    "PowerPC XL": (("-target", "powerpc64-linux-gnu", "-U__GNUC__", "-D__IBMCPP__=700"), "ppc", {}),
    "SPARC GCC": (("-target", "sparcv9-linux-gnu"), "sparc", {}),
    "SPARC Sun": (("-target", "sparcv9-linux-gnu", "-U__GNUC__", "-D__SUNPRO_CC=0x590"), "solaris", {}),
    "Alpha GCC": (("-target", "sparcv9-linux-gnu", "-U__sparc__", "-Usparc", "-D__alpha__"), "alpha", {}),
    "Alpha DEC": (("-target", "sparcv9-linux-gnu", "-U__sparc__", "-Usparc", "-D__alpha__", "-U__GNUC__", "-D__DECCXX", "-D__FLT_ROUNDS=-1"), "dec", {}),
    "IA-64 HP-UX": (("-target", "x86_64-linux-gnu", "-U__x86_64__", "-D__ia64__", "-D__hpux"), "c99", {}),
}
SETTERS = {"fesetround": 0, "fpsetround": 0, "write_rnd": 0, "sink": 0}
GETTERS = ("fegetround", "fpgetround", "read_rnd")
ASM = [(r"fldcw[w]? \$0", "setm", 2), (r"fn?stcw[w]? \$0", "getm", 2), (r"ld \$0, ?%fsr", "setm", 4), (r"st %fsr, ?\$0", "getm", 4),
       (r"mtfsf (255|0xff), ?\$0", "set", 8), (r"mffs \$0", "get", 8), (r"mt_fpcr \$0", "set", 8), (r"mf_fpcr \$0", "get", 8),
       (r"frndint", "rint", 0), (r"frsp \$0, ?\$1", "frsp", 0)]


class Odd(Exception):
    pass


class Reader:
    """effects of one straight-line function"""

    def __init__(self, mod):
        self.m = mod
        self.globs = {}

    def flat(self, c, t, off, out):
        k = c[0]
        if k in ("int", "fp"):
            out[off] = c
        elif k == "zero":
            if t.kind == "struct":
                for e, o in zip(t.elems, t.offs):
                    self.flat(("zero", e), e, off + o, out)
            elif t.kind == "array":
                for i in range(t.n):
                    self.flat(("zero", t.elems[0]), t.elems[0], off + i * t.elems[0].size, out)
            elif t.kind == "int":
                out[off] = ("int", t.n, 0)
        elif k == "agg":
            t = c[1]
            for i, e in enumerate(c[2]):
                et = t.elems[i] if t.kind == "struct" else t.elems[0]
                self.flat(e, et, off + (t.offs[i] if t.kind == "struct" else i * et.size), out)

    def pointer(self, v):
        if v[0] == "glob":
            return ("g:" + v[1], 0)
        if v[0] == "cgep":
            o, n = self.pointer(v[2][0])
            return (o, n + self.offset(v[1], v[2][1:]))
        if v[0] == "ptr":
            return v[1:]
        raise Odd("pointer %r" % (v,))

    def offset(self, t, idx):
        off = 0
        for i, x in enumerate(idx):
            if x[0] != "int":
                raise Odd("variable index")
            n = x[2] - (1 << x[1]) if x[2] >> (x[1] - 1) else x[2]
            if i == 0:
                off += n * t.size
            elif t.kind == "struct":
                off += t.offs[n]
                t = t.elems[n]
            else:
                t = t.elems[0]
                off += n * t.size
        return off

    def read(self, p):
        obj, off = self.pointer(p)
        if obj in self.mem and off in self.mem[obj]:
            return self.mem[obj][off]
        if obj.startswith("g:"):
            n = obj[2:]
            t, ini, const, tls = self.m.global_init(n)
            if const and ini is not None:
                d = {}
                self.flat(ini, t, 0, d)
                return d.get(off, ("unknown", n, off))
            return ("reg0",) if n == "kread" or n.endswith("kread") else ("unknown", n, off)
        return ("unknown", obj, off)

    def events(self, name):
        f = self.m.functions.get(name)
        if f is None or f.decl:
            raise Odd("no function %s" % name)
        self.mem, self.ev, self.n, self.depth = {}, [], 0, 0
        args = [("arg", i) for i in range(f.nargs)]
        self.ret = self.call(f, args)
        return self.ev

    def call(self, f, args):
        self.depth += 1
        if self.depth > 12:
            raise Odd("recursion")
        self.m.decode(f)
        regs = {}

        def val(o):
            return regs[o[1]] if o[0] == "r" else args[o[1]] if o[0] == "a" else o[1]
        b = 0
        seen = set()
        while True:
            if b in seen:
                raise Odd("loop in %s" % f.name)
            seen.add(b)
            nxt = None
            for i in f.blocks[b].insts:
                op = i.op
                if op == "ret":
                    self.depth -= 1
                    return val(i.ops[0]) if i.ops else None
                if op == "br" and len(i.x) == 1:
                    nxt = i.x[0]
                elif op == "alloca":
                    self.n += 1
                    regs[i.id] = ("ptr", "a%d" % self.n, 0)
                elif op == "store":
                    p = val(i.ops[1])
                    v = val(i.ops[0])
                    if p[0] == "arg":
                        self.ev.append(("out", p[1], v))
                        continue
                    obj, off = self.pointer(p)
                    if i.vol:
                        v = ("vol", i.x.kind, v)
                    self.mem.setdefault(obj, {})[off] = v
                elif op == "load":
                    regs[i.id] = self.read(val(i.ops[0]))
                elif op == "gep":
                    o, n = self.pointer(val(i.ops[0]))
                    regs[i.id] = ("ptr", o, n + self.offset(i.x, [val(x) for x in i.ops[1:]]))
                elif op in ("call",):
                    regs[i.id] = self.docall(i, [val(x) for x in i.ops])
                elif op in ("br", "switch", "invoke", "unreachable", "resume"):
                    raise Odd("%s depends on the value read in %s" % (op, f.name))
                elif op == "bitcast":
                    regs[i.id] = val(i.ops[0])
                elif op == "fpext":
                    regs[i.id] = ("ext", val(i.ops[0]))
                elif op == "fptrunc":
                    regs[i.id] = ("narrow", i.ty.kind, val(i.ops[0]))
                else:
                    regs[i.id] = ("derived", op, tuple(val(x) for x in i.ops))
            if nxt is None:
                raise Odd("no successor")
            b = nxt

    def docall(self, i, a):
        cv = i.x[0][1]
        if cv[0] == "asm":
            t = re.sub(r"\s+", " ", cv[1].strip())
            for rx, kind, size in ASM:
                if re.fullmatch(rx, t):
                    break
            else:
                raise Odd("unknown instruction %r" % t)
            if kind == "setm":
                self.ev.append(("set", self.read(a[0]), None))
            elif kind == "set":
                self.ev.append(("set", self.bits(i, a[0]), None))
            elif kind in ("get", "getm"):
                tok = ("read", len(self.ev))
                self.ev.append(("get", tok))
                if kind == "getm":
                    o, n = self.pointer(a[0])
                    self.mem.setdefault(o, {})[n] = tok
                return tok
            elif kind == "rint":
                self.ev.append(("rint", a[0]))
                return ("rinted", a[0])
            else:
                return ("frsp", a[0])
            return None
        if cv[0] != "fn":
            raise Odd("indirect call")
        n = cv[1]
        if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.assume")):
            return None
        if n in SETTERS:
            self.ev.append(("set", a[0], a[1] if n == "sink" else None))
            return None
        if n in GETTERS:
            tok = ("read", len(self.ev))
            self.ev.append(("get", tok))
            return tok
        if n in ("rint", "rintf", "rintl") or n.startswith(("llvm.rint", "llvm.nearbyint")):
            self.ev.append(("rint", a[0]))
            return ("rinted", a[0])
        f = self.m.functions.get(n)
        if f is not None and not f.decl:
            return self.call(f, a)
        raise Odd("call of %s" % n)

    def bits(self, i, v):
        if v[0] == "fp":
            s = self.m._print(self.m.L.LLVMGetOperand(i.ref, 0)).split()[-1]
            if s.startswith("0x"):
                return ("int", 64, int(s, 16))
            import struct
            return ("int", 64, struct.unpack(">Q", struct.pack(">d", float(s)))[0])
        return v


def code(kind, v, mask, prec, pc):
    """(direction code, complaint about the other bits)"""
    if v[0] != "int":
        return None, "not a constant: %r" % (v,)
    w = v[2]
    if kind == "c99":
        return w, None
    if kind in ("solaris", "dec"):
        return w, None
    if kind == "x87" or kind == "bcc":
        bad = []
        if w & 0x3f != 0x3f:
            bad.append("exceptions are not masked")
        if w & 0x300 != prec:
            bad.append("precision field %#x, documented %#x" % (w & 0x300, prec))
        if w & ~0x1f7f:
            bad.append("undefined bits")
        if kind == "bcc" and mask[2] & 0xf3f & 0xffff != 0xf3f:
            bad.append("mask %#x leaves fields unchanged" % mask[2])
        return (w >> 10) & 3, "; ".join(bad) or None
    if kind == "ppc":
        return w & 3, None if w & 0xfffffffc == 0 else "other bits of the FPSCR %#x" % (w & 0xfffffffc)
    if kind == "sparc":
        return w >> 30, None if w & 0x3fffffff == 0 else "other bits of the FSR %#x" % (w & 0x3fffffff)
    if kind == "alpha":
        return (w >> 58) & 3, None if w & ~(3 << 58) == 0x4008 << 48 else "other bits of the FPCR %#x" % (w & ~(3 << 58))
    if kind == "msvc":
        if mask is None or mask[0] != "int":
            return None, "mask not constant"
        m = mask[2]
        want = 0x8001f | 0x300 | (0x70000 if pc else 0)
        bad = []
        if m != want:
            bad.append("mask %#x, documented %#x" % (m, want))
        if w & 0x8001f != 0x8001f:
            bad.append("exceptions are not masked")
        if pc and w & 0x30000 != 0:
            bad.append("precision is not extended")
        if w & ~0xf031f:
            bad.append("undefined bits")
        return {0x000: 0, 0x100: 1, 0x200: 2, 0x300: 3}[w & 0x300], "; ".join(bad) or None


WANT = {"c99": C99, "x87": X87, "bcc": X87, "msvc": X87, "ppc": PPC, "sparc": SPARC, "solaris": SOLARIS, "alpha": ALPHA, "dec": DEC}
FK = {"f": "float", "d": "double"}


def through(v, kinds):
    """the value, and whether it went through memory of a type in kinds"""
    mem = False
    while v[0] in ("vol", "frsp", "ext", "narrow"):
        if v[0] == "vol":
            mem = mem or v[1] in kinds
            v = v[2]
        elif v[0] == "narrow":
            return v, mem
        else:
            v = v[1]
    return v, mem


def run(path, name):
    args, kind, opt = PLATFORMS[name]
    R = Result()
    m = load_module(path)
    rd = Reader(m)

    def ev(fn):
        try:
            return rd.events(fn)
        except Odd as e:
            return e
    pres = ["f", "d", "l"] + (["xf", "xd", "xl"] if opt.get("fast") else [])
    for p in pres:
        prec = {"xf": 0, "xd": 0x200}.get(p, 0x300)
        for d in DIRS:
            e = ev("%s_%s" % (p, d))
            key = "%s %s %s" % (name, p, d)
            R.fns.add("%s:%s_%s" % (name, p, d))
            if isinstance(e, Odd):
                R.check(False, key, str(e))
                continue
            sets = [x for x in e if x[0] == "set"]
            R.check(len(sets) == 1 and len(e) == 1, key + " one write", lambda: "effects on the control register: %r" % (e,))
            if not sets:
                continue
            c, bad = code(kind, sets[-1][1], sets[-1][2], prec, opt.get("pc"))
            R.check(c == WANT[kind][d], key, lambda: "%s selects code %r, the platform's code for this direction is %r" % (d, c if c is not None else bad, WANT[kind][d]))
            R.check(bad is None, key + " other bits", lambda: bad)
        # save and restore
        if kind != "msvc":
            for fn, n in (("saverestore", 2), ("object", 3)):
                if fn == "object" and p[0] == "x":
                    continue
                e = ev("%s_%s" % (p, fn))
                key = "%s %s %s" % (name, p, fn)
                R.fns.add("%s:%s_%s" % (name, p, fn))
                if isinstance(e, Odd):
                    R.check(False, key, str(e))
                    continue
                if kind == "bcc":   # the stub's register is a variable
                    e = [("get", ("reg0",))] + e
                R.check(e[0][0] == "get" and e[-1][0] == "set" and e[-1][1] == e[0][1] and len([x for x in e if x[0] == "get"]) == 1, key,
                        lambda: "the mode read first is not written back last: %r" % (e,))
                if fn == "object":
                    R.check(len(e) == 3 and e[1][0] == "set" and code(kind, e[1][1], e[1][2], prec, opt.get("pc"))[0] == WANT[kind]["upward"], key + " init",
                            lambda: "the constructor does not select upward once: %r" % (e,))
        # force_rounding
        e = ev("%s_force" % p)
        key = "%s %s force_rounding" % (name, p)
        R.fns.add("%s:%s_force" % (name, p))
        if isinstance(e, Odd):
            R.check(False, key, str(e))
        else:
            v, mem = through(rd.ret, ("float", "double", "x86_fp80", "fp128", "ppc_fp128") if p[-1] == "l" else (FK[p[-1]],))
            R.check(v == ("arg", 0) and not e, key, lambda: "does not return its argument: %r" % (rd.ret,))
            if p in opt.get("vol", ""):
                R.check(mem, key + " excess precision", "the value does not go through memory of its own type, so it keeps the excess precision and range of the register")
        if not opt.get("noint"):
            e = ev("%s_int" % p)
            key = "%s %s to_int" % (name, p)
            R.fns.add("%s:%s_int" % (name, p))
            if isinstance(e, Odd):
                R.check(False, key, str(e))
            else:
                r = rd.ret
                while r[0] in ("ext", "narrow"):    # back to the type, exact for an integral value
                    r = r[1] if r[0] == "ext" else r[2]
                a = r[1] if r[0] == "rinted" else None
                while a is not None and a[0] == "ext":
                    a = a[1]
                R.check(a == ("arg", 0) and len(e) == 1, key, lambda: "is not one rounding to an integer of the argument in its own precision: %r" % (rd.ret,))
        if p in opt.get("ints", ""):
            e = ev("%s_ints" % p)
            key = "%s %s to_int in two directions" % (name, p)
            R.fns.add("%s:%s_ints" % (name, p))
            if isinstance(e, Odd):
                R.check(False, key, str(e))
            else:
                k = [x[0] for x in e if x[0] in ("set", "rint")]
                R.check(k == ["set", "rint", "set", "rint"], key,
                        lambda: "the two roundings of one number are not executed once in each direction: %r" % (k,))
    if kind == "msvc":
        full = 0x8001f | 0x300 | (0x70000 if opt.get("pc") else 0)
        for fn in sorted(m.functions):
            q = re.fullmatch(r"_?(keep|keepobj)_(\d+)", fn)
            if not q:
                continue
            K = int(q.group(2))
            e = ev(fn)
            key = "%s %s %#x" % (name, q.group(1), K)
            R.fns.add("%s:%s" % (name, fn))
            if isinstance(e, Odd):
                R.check(False, key, str(e))
                continue
            n = 1 if q.group(1) == "keep" else 2
            R.check(len(e) == n and e[-1][1][0] == "int" and e[-1][2] == ("int", 32, full) and (e[-1][1][2] ^ K) & full == 0, key,
                    lambda: "control word %#x is written back as %r" % (K, e))
            if n == 2:
                R.check(e[0][0] == "set" and code(kind, e[0][1], e[0][2], 0, opt.get("pc")) == (2, None), key + " init", lambda: "%r" % (e,))
    return R


def build(name):
    args = PLATFORMS[name][0]
    out = os.path.join(lib.workdir(), "plat-" + re.sub(r"\W", "_", name) + ".bc")
    cmd = ["clang++", "-std=c++17", "-nostdinc", "-nostdinc++", "-fno-exceptions", "-I" + PLAT, "-I" + os.path.join(lib.REPO, "include"),
           "-O2", "-mllvm", "-inline-threshold=1000000", "-w", "-c", "-emit-llvm", "-o", out, os.path.join(PLAT, "plat.cpp")] + list(args)
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode and "file not found" in p.stderr:   # a header that has no stub: take the host's
        for d in HOST:
            cmd += ["-idirafter", d]
        p = subprocess.run(cmd, capture_output=True, text=True)
    return name, out, p.returncode, p.stderr


def C36(tier):
    from concurrent.futures import ThreadPoolExecutor
    R = Result()
    tasks = []
    with ThreadPoolExecutor(8) as ex:
        for name, out, rc, err in ex.map(build, PLATFORMS):
            R.check(rc == 0, "%s compiles" % name, lambda: "the rounding control of this platform does not compile: " +
                    " | ".join(l for l in err.splitlines() if "error" in l)[:600])
            if rc == 0:
                tasks.append((run, (name,), out))
    return dict(level="other", tasks=tasks, result=R,
                rule="for every platform, the folded IR of each mode function writes the control register once, with the encoding that the architecture (or system interface) defines for "
                     "the direction and the documented remaining bits; get then set writes back the value read; a rounding object reads, selects upward, and writes back; force_rounding and to_int act on their argument in its own precision",
                trusted=["clang 18 constant folding and inlining (-O2)", "stub system headers in harness/plat carrying each platform's documented constants",
                         "Alpha and IA-64 headers are lowered for another target: their inline assembly is opaque text to the compiler"])
