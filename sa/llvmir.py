"""Lazy decoder of LLVM IR (bitcode) through the LLVM-18 C API.

Nothing is executed: the module is only parsed and its instructions are turned
into plain Python tuples for the abstract interpreter (engine.py).
"""
import ctypes as C
import ctypes.util
import os
import re
import struct
import subprocess
from fractions import Fraction

_lib = None


def lib():
    global _lib
    if _lib is not None:
        return _lib
    for cand in ("/usr/lib/llvm-18/lib/libLLVM-18.so.1", "/usr/lib/llvm-18/lib/libLLVM.so.1",
                 "/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so.1", "libLLVM-18.so"):
        try:
            L = C.CDLL(cand)
            break
        except OSError:
            continue
    else:
        raise RuntimeError("libLLVM-18 not found")
    P = C.c_void_p
    sig = {
        "LLVMContextCreate": (P, []),
        "LLVMCreateMemoryBufferWithContentsOfFile": (C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(P)]),
        "LLVMParseBitcodeInContext2": (C.c_int, [P, P, C.POINTER(P)]),
        "LLVMParseIRInContext": (C.c_int, [P, P, C.POINTER(P), C.POINTER(P)]),
        "LLVMGetModuleDataLayout": (P, [P]),
        "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
        "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
        "LLVMGetInitializer": (P, [P]), "LLVMIsGlobalConstant": (C.c_int, [P]),
        "LLVMIsThreadLocal": (C.c_int, [P]),
        "LLVMGlobalGetValueType": (P, [P]),
        "LLVMGetValueName2": (P, [P, C.POINTER(C.c_size_t)]),
        "LLVMIsDeclaration": (C.c_int, [P]),
        "LLVMCountBasicBlocks": (C.c_uint, [P]),
        "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
        "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
        "LLVMGetInstructionOpcode": (C.c_int, [P]),
        "LLVMGetNumOperands": (C.c_int, [P]), "LLVMGetOperand": (P, [P, C.c_uint]),
        "LLVMTypeOf": (P, [P]), "LLVMGetTypeKind": (C.c_int, [P]),
        "LLVMGetIntTypeWidth": (C.c_uint, [P]),
        "LLVMCountStructElementTypes": (C.c_uint, [P]),
        "LLVMStructGetTypeAtIndex": (P, [P, C.c_uint]),
        "LLVMOffsetOfElement": (C.c_ulonglong, [P, P, C.c_uint]),
        "LLVMABISizeOfType": (C.c_ulonglong, [P, P]),
        "LLVMStoreSizeOfType": (C.c_ulonglong, [P, P]),
        "LLVMGetArrayLength2": (C.c_ulonglong, [P]), "LLVMGetVectorSize": (C.c_uint, [P]),
        "LLVMGetElementType": (P, [P]),
        "LLVMGetStructName": (C.c_char_p, [P]),
        "LLVMIsOpaqueStruct": (C.c_int, [P]),
        "LLVMGetValueKind": (C.c_int, [P]),
        "LLVMConstIntGetZExtValue": (C.c_ulonglong, [P]),
        "LLVMPrintValueToString": (P, [P]), "LLVMDisposeMessage": (None, [P]),
        "LLVMGetICmpPredicate": (C.c_int, [P]), "LLVMGetFCmpPredicate": (C.c_int, [P]),
        "LLVMGetCalledValue": (P, [P]), "LLVMGetCalledFunctionType": (P, [P]),
        "LLVMGetNumArgOperands": (C.c_uint, [P]),
        "LLVMGetNormalDest": (P, [P]), "LLVMGetUnwindDest": (P, [P]),
        "LLVMGetNumSuccessors": (C.c_uint, [P]), "LLVMGetSuccessor": (P, [P, C.c_uint]),
        "LLVMGetCondition": (P, [P]), "LLVMIsConditional": (C.c_int, [P]),
        "LLVMGetAllocatedType": (P, [P]), "LLVMGetGEPSourceElementType": (P, [P]),
        "LLVMGetNumClauses": (C.c_uint, [P]), "LLVMGetClause": (P, [P, C.c_uint]),
        "LLVMIsCleanup": (C.c_int, [P]),
        "LLVMCountIncoming": (C.c_uint, [P]), "LLVMGetIncomingValue": (P, [P, C.c_uint]),
        "LLVMGetIncomingBlock": (P, [P, C.c_uint]),
        "LLVMGetNumIndices": (C.c_uint, [P]), "LLVMGetIndices": (C.POINTER(C.c_uint), [P]),
        "LLVMGetVolatile": (C.c_int, [P]),
        "LLVMGetDebugLocLine": (C.c_uint, [P]),
        "LLVMGetDebugLocFilename": (P, [P, C.POINTER(C.c_uint)]),
        "LLVMGetDebugLocDirectory": (P, [P, C.POINTER(C.c_uint)]),
        "LLVMCountParams": (C.c_uint, [P]), "LLVMGetParam": (P, [P, C.c_uint]),
        "LLVMGetConstOpcode": (C.c_int, [P]),
        "LLVMGetNSW": (C.c_int, [P]), "LLVMGetNUW": (C.c_int, [P]),
        "LLVMGetAtomicRMWBinOp": (C.c_int, [P]),
        "LLVMGetAggregateElement": (P, [P, C.c_uint]),
        "LLVMGetReturnType": (P, [P]),
        "LLVMIsConstantString": (C.c_int, [P]),
        "LLVMGetAsString": (P, [P, C.POINTER(C.c_size_t)]),
        "LLVMAliasGetAliasee": (P, [P]),
        "LLVMGetFirstGlobalAlias": (P, [P]), "LLVMGetNextGlobalAlias": (P, [P]),
        "LLVMGetInlineAsmAsmString": (P, [P, C.POINTER(C.c_size_t)]),
        "LLVMGetUndefMaskElem": (C.c_int, []),
        "LLVMGetNumMaskElements": (C.c_uint, [P]), "LLVMGetMaskValue": (C.c_int, [P, C.c_uint]),
        "LLVMGetLinkage": (C.c_int, [P]),
        "LLVMGetTypeByName2": (P, [P, C.c_char_p]),
        "LLVMGetSubprogram": (P, [P]),
        "LLVMDISubprogramGetLine": (C.c_uint, [P]),
    }
    for n, (r, a) in sig.items():
        try:
            f = getattr(L, n)
        except AttributeError:
            continue
        f.restype = r
        f.argtypes = a
    _lib = L
    return L


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv",
       16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and",
       24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc",
       31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp",
       43: "fcmp", 44: "phi", 45: "call", 46: "select", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg",
       57: "atomicrmw", 58: "resume", 59: "landingpad", 60: "addrspacecast", 66: "fneg",
       67: "callbr", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge",
        40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno",
        9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
# value kinds
VK = {0: "arg", 1: "bb", 5: "function", 6: "alias", 7: "ifunc", 8: "globalvar", 9: "blockaddress",
      10: "constexpr", 11: "constarray", 12: "conststruct", 13: "constvector", 14: "undef",
      15: "aggzero", 16: "dataarray", 17: "datavector", 18: "constint", 19: "constfp",
      20: "nullptr", 21: "tokennone", 22: "mdasvalue", 23: "asm", 24: "inst", 25: "poison"}
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 6: "ppc_fp128",
      7: "label", 8: "int", 9: "function", 10: "struct", 11: "array", 12: "ptr", 13: "vector",
      14: "metadata", 16: "token", 17: "scalable", 18: "bfloat"}


class Type:
    __slots__ = ("kind", "n", "elems", "offs", "size", "store", "name")

    def __repr__(self):
        return f"<{self.kind} {self.n or ''}>"


class Inst:
    __slots__ = ("op", "id", "ty", "ops", "x", "ref", "fn", "vol")

    def __repr__(self):
        return f"{self.op}#{self.id}"


class Block:
    __slots__ = ("idx", "insts", "nphi")


class Function:
    __slots__ = ("name", "ref", "decl", "blocks", "nargs", "decoded", "rty", "mod", "_dem")

    @property
    def pretty(self):
        if self._dem is None:
            self._dem = demangle(self.name)
        return self._dem


_dem_lib = None
_dem_cache = {}


def demangle(name):
    if name in _dem_cache:
        return _dem_cache[name]
    global _dem_lib
    if not name.startswith("_Z"):
        return name
    if _dem_lib is None:
        _dem_lib = C.CDLL("libstdc++.so.6")
        _dem_lib.__cxa_demangle.restype = C.c_void_p
        _dem_lib.__cxa_demangle.argtypes = [C.c_char_p, C.c_void_p, C.c_void_p, C.POINTER(C.c_int)]
        _dem_lib.free = C.CDLL(None).free
        _dem_lib.free.argtypes = [C.c_void_p]
    st = C.c_int(0)
    p = _dem_lib.__cxa_demangle(name.encode(), None, None, C.byref(st))
    if not p:
        _dem_cache[name] = name
        return name
    s = C.string_at(p).decode()
    _dem_lib.free(p)
    _dem_cache[name] = s
    return s


def _strip_templates(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        if s.startswith("operator", i):
            j = i + 8
            m = re.match(r"operator(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>|\(\))", s[i:])
            if m and d == 0:
                out.append(m.group(0))
                i += len(m.group(0))
                continue
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def base_name(dem):
    """'double ns::Foo<T>::bar<int>(int const&)' -> ('ns::Foo::bar', 'bar')"""
    s = _strip_templates(dem)
    s = s.replace("(anonymous namespace)", "_anon_")
    k = s.find("operator()")
    if k >= 0:
        q = s[: k + 10]
    else:
        k = s.find("(")
        q = s if k < 0 else s[:k]
    q = q.strip()
    # drop the return type (template functions carry one); operators may contain blanks
    m = re.search(r"operator\s*[^\w\s].*$", q)
    if m:
        head = q[: m.start()]
        tail = q[m.start():].strip()
        head = head.split(" ")[-1]
        q = head + tail
    else:
        q = q.split(" ")[-1]
    return q, q.split("::")[-1]


class Module:
    def __init__(self, path):
        L = lib()
        self.L = L
        self.path = path
        ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        m = C.c_void_p()
        if path.endswith(".ll"):
            if L.LLVMParseIRInContext(ctx, buf, C.byref(m), C.byref(msg)):
                raise RuntimeError("cannot parse IR " + path + C.string_at(msg.value).decode())
        else:
            if L.LLVMParseBitcodeInContext2(ctx, buf, C.byref(m)):
                raise RuntimeError("cannot parse bitcode " + path)
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.types = {}
        self.functions = {}
        self.globals = {}
        self.aliases = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            fn = Function()
            fn.name = self._name(f)
            fn.ref = f
            fn.decl = bool(L.LLVMIsDeclaration(f))
            fn.decoded = False
            fn.blocks = None
            fn.nargs = L.LLVMCountParams(f)
            fn.rty = None
            fn.mod = self
            fn._dem = None
            self.functions[fn.name] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[self._name(g)] = g
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.aliases[self._name(a)] = self._name(L.LLVMAliasGetAliasee(a))
            a = L.LLVMGetNextGlobalAlias(a)
        self._fncache = {}

    def _name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def type(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        L = self.L
        r = Type()
        self.types[t] = r
        r.kind = TK.get(L.LLVMGetTypeKind(t), "?")
        r.n = None
        r.elems = None
        r.offs = None
        r.name = None
        r.size = None
        r.store = None
        k = r.kind
        if k == "int":
            r.n = L.LLVMGetIntTypeWidth(t)
        elif k == "struct":
            nm = L.LLVMGetStructName(t)
            r.name = nm.decode() if nm else None
            if not L.LLVMIsOpaqueStruct(t):
                n = L.LLVMCountStructElementTypes(t)
                r.elems = [self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
                r.n = n
            else:
                return r
        elif k == "array":
            r.n = L.LLVMGetArrayLength2(t)
            r.elems = [self.type(L.LLVMGetElementType(t))]
        elif k == "vector":
            r.n = L.LLVMGetVectorSize(t)
            r.elems = [self.type(L.LLVMGetElementType(t))]
        if k not in ("void", "label", "function", "metadata", "token", "?"):
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.store = L.LLVMStoreSizeOfType(self.dl, t)
        return r

    # ---- values -> descriptors
    # ('r', id) register, ('a', i) argument, ('c', const)
    def const(self, v):
        L = self.L
        vk = VK.get(L.LLVMGetValueKind(v), "?")
        if vk == "constint":
            t = self.type(L.LLVMTypeOf(v))
            if t.n <= 64:
                return ("int", t.n, L.LLVMConstIntGetZExtValue(v) & ((1 << t.n) - 1))
            s = self._print(v)
            return ("int", t.n, int(s.split()[-1]) & ((1 << t.n) - 1))
        if vk == "constfp":
            s = self._print(v)
            ty, val = s.split(None, 1)
            return ("fp", ty, parse_fp(ty, val.strip()))
        if vk == "nullptr":
            return ("null",)
        if vk == "function":
            return ("fn", self._name(v))
        if vk == "alias":
            return ("fn", self.aliases[self._name(v)])
        if vk == "globalvar":
            return ("glob", self._name(v))
        if vk in ("undef", "poison"):
            return ("undef", self.type(L.LLVMTypeOf(v)))
        if vk == "aggzero":
            return ("zero", self.type(L.LLVMTypeOf(v)))
        if vk in ("constarray", "conststruct", "constvector"):
            n = L.LLVMGetNumOperands(v)
            return ("agg", self.type(L.LLVMTypeOf(v)), [self.const(L.LLVMGetOperand(v, i)) for i in range(n)])
        if vk in ("dataarray", "datavector"):
            t = self.type(L.LLVMTypeOf(v))
            if t.elems[0].kind == "int" and t.elems[0].n == 8:
                n = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(n))
                return ("bytes", t, C.string_at(p, n.value))
            return ("agg", t, [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(t.n)])
        if vk == "constexpr":
            op = OPC.get(L.LLVMGetConstOpcode(v))
            n = L.LLVMGetNumOperands(v)
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(n)]
            if op == "gep":
                return ("cgep", self.type(L.LLVMGetGEPSourceElementType(v)), ops)
            return ("cexpr", op, self.type(L.LLVMTypeOf(v)), ops)
        if vk == "mdasvalue":
            s = self._print(v)
            m = re.search(r'!"([^"]*)"', s)
            return ("md", m.group(1) if m else s)
        if vk == "asm":
            n = C.c_size_t()
            p = L.LLVMGetInlineAsmAsmString(v, C.byref(n)) if hasattr(L, "LLVMGetInlineAsmAsmString") else None
            return ("asm", C.string_at(p, n.value).decode() if p else self._print(v))
        if vk == "tokennone":
            return ("undef", None)
        return ("unk", vk)

    def _print(self, v):
        p = self.L.LLVMPrintValueToString(v)
        s = C.string_at(p).decode()
        self.L.LLVMDisposeMessage(p)
        return s

    def loc(self, inst):
        L = self.L
        line = L.LLVMGetDebugLocLine(inst.ref)
        n = C.c_uint()
        p = L.LLVMGetDebugLocFilename(inst.ref, C.byref(n))
        fn = C.string_at(p, n.value).decode() if p else "?"
        if not fn.startswith("/"):
            p = L.LLVMGetDebugLocDirectory(inst.ref, C.byref(n))
            d = C.string_at(p, n.value).decode() if p else ""
            fn = os.path.normpath(os.path.join(d, fn)) if d else fn
        return fn, line

    def decode(self, fn):
        if fn.decoded:
            return fn
        L = self.L
        blocks = []
        bidx = {}
        b = L.LLVMGetFirstBasicBlock(fn.ref)
        refs = []
        while b:
            bidx[b] = len(refs)
            refs.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        args = {}
        for i in range(fn.nargs):
            args[L.LLVMGetParam(fn.ref, i)] = i
        regs = {}
        raw = []
        for bi, b in enumerate(refs):
            lst = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                regs[i] = len(regs)
                lst.append(i)
                i = L.LLVMGetNextInstruction(i)
            raw.append(lst)

        def val(v):
            if v in regs:
                return ("r", regs[v])
            if v in args:
                return ("a", args[v])
            return ("c", self.const(v))

        for bi, lst in enumerate(raw):
            blk = Block()
            blk.idx = bi
            blk.insts = []
            blk.nphi = 0
            for i in lst:
                ins = Inst()
                ins.ref = i
                ins.fn = fn
                ins.id = regs[i]
                ins.vol = False
                op = OPC.get(L.LLVMGetInstructionOpcode(i), "?%d" % L.LLVMGetInstructionOpcode(i))
                ins.op = op
                ins.ty = self.type(L.LLVMTypeOf(i))
                ins.x = None
                nops = L.LLVMGetNumOperands(i)
                if op in ("call", "invoke"):
                    na = L.LLVMGetNumArgOperands(i)
                    ins.ops = [val(L.LLVMGetOperand(i, k)) for k in range(na)]
                    cv = L.LLVMGetCalledValue(i)
                    callee = val(cv)
                    if op == "invoke":
                        ins.x = (callee, bidx[L.LLVMGetNormalDest(i)], bidx[L.LLVMGetUnwindDest(i)])
                    else:
                        ins.x = (callee, None, None)
                elif op == "br":
                    if L.LLVMIsConditional(i):
                        ins.ops = [val(L.LLVMGetCondition(i))]
                        ins.x = [bidx[L.LLVMGetSuccessor(i, 0)], bidx[L.LLVMGetSuccessor(i, 1)]]
                    else:
                        ins.ops = []
                        ins.x = [bidx[L.LLVMGetSuccessor(i, 0)]]
                elif op == "switch":
                    ins.ops = [val(L.LLVMGetOperand(i, 0))]
                    cases = []
                    k = 2
                    while k < nops:
                        cases.append((self.const(L.LLVMGetOperand(i, k)), bidx[L.LLVMGetOperand(i, k + 1)]
                                      if L.LLVMGetOperand(i, k + 1) in bidx else None))
                        k += 2
                    succ = [bidx[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
                    ins.x = (succ[0], [(c[0], s) for c, s in zip(cases, succ[1:])])
                elif op == "phi":
                    n = L.LLVMCountIncoming(i)
                    ins.ops = []
                    ins.x = {bidx[L.LLVMGetIncomingBlock(i, k)]: val(L.LLVMGetIncomingValue(i, k)) for k in range(n)}
                    blk.nphi += 1
                else:
                    ins.ops = [val(L.LLVMGetOperand(i, k)) for k in range(nops)]
                    if op == "icmp":
                        ins.x = (ICMP[L.LLVMGetICmpPredicate(i)], self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    elif op == "fcmp":
                        ins.x = FCMP[L.LLVMGetFCmpPredicate(i)]
                    elif op == "alloca":
                        ins.x = self.type(L.LLVMGetAllocatedType(i))
                    elif op == "gep":
                        ins.x = self.type(L.LLVMGetGEPSourceElementType(i))
                    elif op in ("extractvalue", "insertvalue"):
                        n = L.LLVMGetNumIndices(i)
                        ids = L.LLVMGetIndices(i)
                        ins.x = [ids[k] for k in range(n)]
                    elif op == "landingpad":
                        ins.x = (bool(L.LLVMIsCleanup(i)),
                                 [self.const(L.LLVMGetClause(i, k)) for k in range(L.LLVMGetNumClauses(i))])
                    elif op in ("load", "store"):
                        ins.vol = bool(L.LLVMGetVolatile(i))
                        if op == "store":
                            ins.x = self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    elif op in ("add", "sub", "mul", "shl"):
                        ins.x = (bool(L.LLVMGetNSW(i)), bool(L.LLVMGetNUW(i)))
                    elif op in ("trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast",
                                "fptrunc", "fpext", "ptrtoint", "inttoptr"):
                        ins.x = self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    elif op == "shufflevector":
                        n = L.LLVMGetNumMaskElements(i)
                        ins.x = [L.LLVMGetMaskValue(i, k) for k in range(n)]
                blk.insts.append(ins)
            blocks.append(blk)
        fn.blocks = blocks
        fn.decoded = True
        return fn

    def global_init(self, name):
        g = self.globals[name]
        L = self.L
        t = self.type(L.LLVMGlobalGetValueType(g))
        ini = L.LLVMGetInitializer(g)
        return t, (self.const(ini) if ini else None), bool(L.LLVMIsGlobalConstant(g)), bool(L.LLVMIsThreadLocal(g))


def parse_fp(ty, s):
    """LLVM textual constant -> Fraction | 'inf' | '-inf' | 'nan' | '-0'."""
    if ty in ("double", "float"):
        if s.startswith("0x"):
            d = struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
        else:
            d = float(s)
        if d != d:
            return "nan"
        if d in (float("inf"), float("-inf")):
            return "inf" if d > 0 else "-inf"
        if d == 0 and struct.pack(">d", d)[0] & 0x80:
            return "-0"
        return Fraction(d)
    if ty == "x86_fp80":
        v = int(s[3:], 16)
        sign = v >> 79
        e = (v >> 64) & 0x7FFF
        m = v & ((1 << 64) - 1)
        if e == 0x7FFF:
            if m << 1 & ((1 << 64) - 1):
                return "nan"
            return "-inf" if sign else "inf"
        if m == 0:
            return "-0" if sign else Fraction(0)
        f = Fraction(m) * Fraction(2) ** (max(e, 1) - 16383 - 63)
        return -f if sign else f
    if ty == "fp128":
        raise ValueError("fp128")
    raise ValueError(ty)


def compile_ir(src, out, extra=(), repo="/repo", cxx="clang++", opt="-O0"):
    cmd = [cxx, "-std=c++17", "-frounding-math", opt, "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm",
           "-c", "-fno-discard-value-names", "-w",
           "-I" + repo + "/include"] + list(extra) + [src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode, p.stderr
