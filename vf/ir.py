"""Read-only view of an LLVM bitcode module, loaded through the LLVM-C API.

Nothing in here executes the analysed program: a module is parsed and exposed as
Python objects (functions, blocks, instructions, operands, debug locations).
"""
import ctypes as C
import glob
import re
import subprocess

_lib = None


def lib():
    global _lib
    if _lib is None:
        cands = glob.glob("/usr/lib/llvm-*/lib/libLLVM*.so*") + glob.glob("/usr/lib/*/libLLVM*.so*")
        cands = sorted(set(cands), key=lambda p: ("18" not in p, len(p)))
        for p in cands:
            try:
                _lib = C.CDLL(p)
                break
            except OSError:
                continue
        if _lib is None:
            raise RuntimeError("libLLVM not found")
        _proto(_lib)
    return _lib


P = C.c_void_p


def _proto(L):
    def f(name, res, *args):
        fn = getattr(L, name)
        fn.restype = res
        fn.argtypes = list(args)

    U, S, I, LL, ULL = C.c_uint, C.c_char_p, C.c_int, C.c_longlong, C.c_ulonglong
    SZ = C.POINTER(C.c_size_t)
    f("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(P), C.POINTER(C.c_char_p))
    f("LLVMContextCreate", P)
    f("LLVMParseBitcodeInContext2", I, P, P, C.POINTER(P))
    f("LLVMParseIRInContext", I, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
    f("LLVMGetModuleDataLayout", P, P)
    for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstGlobal", "LLVMGetNextGlobal",
              "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction",
              "LLVMGetNextInstruction", "LLVMGetInitializer", "LLVMTypeOf", "LLVMGetElementType",
              "LLVMGetBasicBlockTerminator", "LLVMGlobalGetValueType", "LLVMGetAllocatedType",
              "LLVMGetCalledValue", "LLVMGetCalledFunctionType", "LLVMGetGEPSourceElementType",
              "LLVMGetFirstParam", "LLVMGetNextParam", "LLVMGetCondition", "LLVMBasicBlockAsValue",
              "LLVMValueAsBasicBlock", "LLVMGetReturnType", "LLVMGetSwitchDefaultDest", "LLVMIsAInlineAsm"):
        f(n, P, P)
    f("LLVMGetNumOperands", I, P)
    f("LLVMGetOperand", P, P, U)
    f("LLVMGetValueKind", I, P)
    f("LLVMGetValueName2", S, P, SZ)
    f("LLVMGetInstructionOpcode", I, P)
    f("LLVMGetConstOpcode", I, P)
    f("LLVMGetICmpPredicate", I, P)
    f("LLVMCountIncoming", U, P)
    f("LLVMGetIncomingValue", P, P, U)
    f("LLVMGetIncomingBlock", P, P, U)
    f("LLVMGetTypeKind", I, P)
    f("LLVMGetIntTypeWidth", U, P)
    f("LLVMGetArrayLength2", ULL, P)
    f("LLVMGetVectorSize", U, P)
    f("LLVMGetStructName", S, P)
    f("LLVMCountStructElementTypes", U, P)
    f("LLVMStructGetTypeAtIndex", P, P, U)
    f("LLVMOffsetOfElement", ULL, P, P, U)
    f("LLVMABISizeOfType", ULL, P, P)
    f("LLVMStoreSizeOfType", ULL, P, P)
    f("LLVMTypeIsSized", I, P)
    f("LLVMPointerSizeForAS", U, P, U)
    f("LLVMConstIntGetZExtValue", ULL, P)
    f("LLVMConstIntGetSExtValue", LL, P)
    f("LLVMIsDeclaration", I, P)
    f("LLVMIsGlobalConstant", I, P)
    f("LLVMIsThreadLocal", I, P)
    f("LLVMIsThreadLocal", I, P)
    f("LLVMGetLinkage", I, P)
    f("LLVMGetVisibility", I, P)
    f("LLVMGetVolatile", I, P)
    f("LLVMGetOrdering", I, P)
    f("LLVMIsAtomicSingleThread", I, P)
    f("LLVMGetNumSuccessors", U, P)
    f("LLVMGetSuccessor", P, P, U)
    f("LLVMIsConditional", I, P)
    f("LLVMGetDebugLocFilename", S, P, C.POINTER(U))
    f("LLVMGetDebugLocLine", U, P)
    f("LLVMGetNumArgOperands", U, P)
    f("LLVMGetIndices", C.POINTER(U), P)
    f("LLVMGetNumIndices", U, P)
    f("LLVMIsConstantString", I, P)
    f("LLVMGetAsString", P, P, SZ)
    f("LLVMGetElementAsConstant", P, P, U)
    f("LLVMPrintValueToString", P, P)
    f("LLVMPrintTypeToString", P, P)
    f("LLVMGetParamParent", P, P)
    f("LLVMGetUndefMaskElem", I)
    f("LLVMIsTailCall", I, P)
    f("LLVMGetEnumAttributeKindForName", U, S, C.c_size_t)
    f("LLVMGetEnumAttributeAtIndex", P, P, U, U)
    f("LLVMGetCallSiteEnumAttribute", P, P, U, U)
    f("LLVMGetInlineAsmAsmString", S, P, SZ)
    f("LLVMGetInlineAsmConstraintString", S, P, SZ)
    f("LLVMGetAtomicRMWBinOp", I, P)
    f("LLVMIsFunctionVarArg", I, P)
    f("LLVMAliasGetAliasee", P, P)


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       47: "userop1", 48: "userop2", 49: "vaarg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
VK = {0: "arg", 1: "bb", 2: "memuse", 3: "memdef", 4: "memphi", 5: "function", 6: "alias", 7: "ifunc", 8: "global",
      9: "blockaddr", 10: "cexpr", 11: "carray", 12: "cstruct", 13: "cvector", 14: "undef", 15: "czero",
      16: "cdataarray", 17: "cdatavector", 18: "cint", 19: "cfp", 20: "null", 21: "cnone", 22: "metadata",
      23: "asm", 24: "inst", 25: "poison", 26: "targetnone"}


class Ty:
    __slots__ = ("kind", "bits", "size", "ref", "elems", "name", "n", "offs")
    # kind: int, ptr, struct, array, vector, void, fp, label, metadata, func, other

    def __repr__(self):
        return f"<{self.kind}{self.bits if self.kind == 'int' else ''}>"


class Value:
    __slots__ = ("kind", "ty", "name", "users", "__weakref__")

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


class Const(Value):
    __slots__ = ("val", "op", "ops", "off")
    # kind: int, null, undef, poison, zero, array, struct, bytes, cexpr, fp, asm, meta, other


class Global(Value):
    __slots__ = ("init", "decl", "const", "valty", "linkage", "visibility", "module", "_initref", "tls")


class Arg(Value):
    __slots__ = ("index", "fn")


class Inst(Value):
    __slots__ = ("op", "ops", "bb", "pred", "callee", "args", "off", "idx", "line", "file", "inc", "cases", "succs",
                 "size", "volatile", "ordering", "aty", "indices", "pos", "srcty", "noreturn", "rmw", "uid", "ref")

    def loc(self):
        return f"{self.file}:{self.line}" if self.line else f"{self.bb.fn.name}"


class Block:
    __slots__ = ("name", "insts", "fn", "preds", "succs", "index")

    def __repr__(self):
        return f"<bb {self.fn.name}:{self.name}#{self.index}>"

    @property
    def term(self):
        return self.insts[-1]


class Function(Value):
    __slots__ = ("blocks", "args", "decl", "linkage", "visibility", "noreturn", "module", "vararg", "retty", "insts")

    @property
    def entry(self):
        return self.blocks[0]


class Module:
    def __init__(self, path, config=None):
        self.path = path
        self.config = config
        L = self.L = lib()
        buf, msg = P(), C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.ctx = L.LLVMContextCreate()
        m = P()
        if path.endswith(".bc"):
            if L.LLVMParseBitcodeInContext2(self.ctx, buf, C.byref(m)):
                raise RuntimeError("bad bitcode " + path)
        else:
            if L.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(msg)):
                raise RuntimeError(msg.value)
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.ptrsize = L.LLVMPointerSizeForAS(self.dl, 0)
        self.cache = {}
        self.tys = {}
        self.functions = {}
        self.globals = {}
        self._uid = 0
        self._nr = L.LLVMGetEnumAttributeKindForName(b"noreturn", 8)
        self._load()
        self._di = None

    # -- types
    def ty(self, r):
        t = self.tys.get(r)
        if t is not None:
            return t
        L = self.L
        t = Ty()
        self.tys[r] = t
        k = L.LLVMGetTypeKind(r)
        t.bits = 0
        t.size = 0
        t.ref = r
        t.elems = None
        t.name = None
        t.n = 0
        t.offs = None
        t.kind = {8: "int", 12: "ptr", 10: "struct", 11: "array", 13: "vector", 0: "void", 9: "func", 7: "label",
                  14: "metadata"}.get(k, "fp" if k in (1, 2, 3, 4, 5, 6) else "other")
        if t.kind not in ("void", "func", "label", "metadata", "other") and L.LLVMTypeIsSized(r):
            t.size = L.LLVMABISizeOfType(self.dl, r)
        if t.kind == "int":
            t.bits = L.LLVMGetIntTypeWidth(r)
        elif t.kind == "ptr":
            t.bits = self.ptrsize * 8
        elif t.kind == "array":
            t.elems = [self.ty(L.LLVMGetElementType(r))]
            t.n = L.LLVMGetArrayLength2(r)
        elif t.kind == "vector":
            t.elems = [self.ty(L.LLVMGetElementType(r))]
            t.n = L.LLVMGetVectorSize(r)
        elif t.kind == "struct":
            n = L.LLVMGetStructName(r)
            t.name = n.decode() if n else None
            if L.LLVMTypeIsSized(r):
                t.n = L.LLVMCountStructElementTypes(r)
                t.elems = [self.ty(L.LLVMStructGetTypeAtIndex(r, i)) for i in range(t.n)]
                t.offs = [L.LLVMOffsetOfElement(self.dl, r, i) for i in range(t.n)]
        return t

    def _name(self, r):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(r, C.byref(n))
        return s.decode() if s else ""

    # -- values
    def val(self, r):
        v = self.cache.get(r)
        if v is not None:
            return v
        L = self.L
        k = VK.get(L.LLVMGetValueKind(r), "other")
        if k == "metadata":
            v = Const()
            v.kind, v.ty, v.name, v.users, v.val, v.op, v.ops, v.off = "meta", None, "", [], None, None, [], 0
            self.cache[r] = v
            return v
        v = Const()
        self.cache[r] = v
        v.ty = self.ty(L.LLVMTypeOf(r)) if k != "bb" else None
        v.name = ""
        v.users = []
        v.op = None
        v.ops = []
        v.off = 0
        v.val = None
        if k == "cint":
            v.kind = "int"
            if v.ty.bits <= 64:
                v.val = L.LLVMConstIntGetZExtValue(r)
            else:
                s = C.string_at(L.LLVMPrintValueToString(r)).decode().split()[-1]
                v.val = int(s) & ((1 << v.ty.bits) - 1)
            v.name = str(v.val)
        elif k == "null":
            v.kind, v.val, v.name = "null", 0, "null"
        elif k in ("undef", "poison"):
            v.kind = "undef"
        elif k == "czero":
            v.kind = "zero"
        elif k in ("cdataarray", "cdatavector"):
            if k == "cdataarray" and L.LLVMIsConstantString(r):
                n = C.c_size_t()
                p = L.LLVMGetAsString(r, C.byref(n))
                v.kind, v.val = "bytes", C.string_at(p, n.value)
            else:
                v.kind = "array"
                v.ops = [self.val(L.LLVMGetElementAsConstant(r, i)) for i in range(v.ty.n)]
        elif k in ("carray", "cvector", "cstruct"):
            v.kind = "struct" if k == "cstruct" else "array"
            v.ops = [self.val(L.LLVMGetOperand(r, i)) for i in range(L.LLVMGetNumOperands(r))]
        elif k == "cexpr":
            v.kind = "cexpr"
            v.op = OPC.get(L.LLVMGetConstOpcode(r), "?")
            v.ops = [self.val(L.LLVMGetOperand(r, i)) for i in range(L.LLVMGetNumOperands(r))]
            if v.op == "gep":
                v.off, idx = self._gep(r, v.ops)
                if idx:
                    v.kind = "other"
        elif k == "alias":
            self.cache[r] = self.val(L.LLVMAliasGetAliasee(r))
            return self.cache[r]
        elif k == "asm":
            v.kind = "asm"
            n = C.c_size_t()
            v.val = (L.LLVMGetInlineAsmAsmString(r, C.byref(n)) or b"").decode()
            v.name = (L.LLVMGetInlineAsmConstraintString(r, C.byref(n)) or b"").decode()
        elif k == "cfp":
            v.kind = "fp"
        else:
            v.kind = "other"
        return v

    def _gep(self, r, ops):
        """-> constant byte offset, [(index value, stride)]"""
        L = self.L
        t = self.ty(L.LLVMGetGEPSourceElementType(r))
        off, var = 0, []
        for i, o in enumerate(ops[1:]):
            if i == 0:
                stride = t.size
            elif t.kind == "struct":
                off += t.offs[o.val]
                t = t.elems[o.val]
                continue
            else:
                t = t.elems[0]
                stride = t.size
            if isinstance(o, Const) and o.kind in ("int",):
                x = o.val
                if x >> (o.ty.bits - 1):
                    x -= 1 << o.ty.bits
                off += x * stride
            elif isinstance(o, Const) and o.kind in ("null", "zero"):
                pass
            else:
                var.append((o, stride))
        return off, var

    def _load(self):
        L = self.L
        g = L.LLVMGetFirstGlobal(self.m)
        while g:
            v = Global()
            self.cache[g] = v
            v.kind, v.name, v.users, v.module = "global", self._name(g), [], self
            v.ty = self.ty(L.LLVMTypeOf(g))
            v.valty = self.ty(L.LLVMGlobalGetValueType(g))
            v.decl = bool(L.LLVMIsDeclaration(g))
            v.const = bool(L.LLVMIsGlobalConstant(g))
            v.tls = bool(L.LLVMIsThreadLocal(g))
            v.linkage, v.visibility = L.LLVMGetLinkage(g), L.LLVMGetVisibility(g)
            v._initref = None if v.decl else L.LLVMGetInitializer(g)
            v.init = None
            self.globals[v.name] = v
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(self.m)
        frefs = []
        while f:
            v = Function()
            self.cache[f] = v
            v.kind, v.name, v.users, v.module = "function", self._name(f), [], self
            v.ty = self.ty(L.LLVMTypeOf(f))
            v.decl = bool(L.LLVMIsDeclaration(f))
            v.linkage, v.visibility = L.LLVMGetLinkage(f), L.LLVMGetVisibility(f)
            v.noreturn = bool(L.LLVMGetEnumAttributeAtIndex(f, 0xFFFFFFFF, self._nr))
            ft = L.LLVMGlobalGetValueType(f)
            v.vararg = bool(L.LLVMIsFunctionVarArg(ft))
            v.retty = self.ty(L.LLVMGetReturnType(ft))
            v.args, v.blocks, v.insts = [], [], []
            a = L.LLVMGetFirstParam(f)
            while a:
                w = Arg()
                self.cache[a] = w
                w.kind, w.name, w.users, w.fn, w.index = "arg", self._name(a), [], v, len(v.args)
                w.ty = self.ty(L.LLVMTypeOf(a))
                v.args.append(w)
                a = L.LLVMGetNextParam(a)
            self.functions[v.name] = v
            frefs.append((f, v))
            f = L.LLVMGetNextFunction(f)
        for g in list(self.globals.values()):
            if g._initref:
                g.init = self.val(g._initref)
        for r, v in frefs:
            if not v.decl:
                self._body(r, v)
        self._infer_noreturn()

    def _infer_noreturn(self):
        """functions with a body from which no return can be reached are noreturn"""
        calls = {}
        for f in self.functions.values():
            for i in f.insts:
                if i.op == "call" and isinstance(i.callee, Function):
                    calls.setdefault(i.callee.name, []).append(i)
        todo = [f for f in self.functions.values() if f.blocks and not f.noreturn]
        changed = True
        while changed:
            changed = False
            for f in list(todo):
                seen, st, ret = {f.entry}, [f.entry], False
                while st and not ret:
                    bb = st.pop()
                    if any(i.op == "call" and i.noreturn for i in bb.insts):
                        continue
                    if bb.term.op == "ret":
                        ret = True
                    for s in bb.succs:
                        if s not in seen:
                            seen.add(s)
                            st.append(s)
                if not ret:
                    f.noreturn = True
                    todo.remove(f)
                    for i in calls.get(f.name, ()):
                        i.noreturn = True
                    changed = True

    def _body(self, fr, fn):
        L = self.L
        b = L.LLVMGetFirstBasicBlock(fr)
        bbs = {}
        order = []
        while b:
            B = Block()
            B.name = self._name(L.LLVMBasicBlockAsValue(b))
            B.insts, B.fn, B.preds, B.succs, B.index = [], fn, [], [], len(order)
            bbs[b] = B
            bbs[L.LLVMBasicBlockAsValue(b)] = B
            order.append((b, B))
            fn.blocks.append(B)
            b = L.LLVMGetNextBasicBlock(b)
        # create instructions first (for forward references)
        refs = []
        for b, B in order:
            i = L.LLVMGetFirstInstruction(b)
            while i:
                v = Inst()
                self.cache[i] = v
                v.kind, v.users, v.bb, v.name = "inst", [], B, self._name(i)
                v.op = OPC.get(L.LLVMGetInstructionOpcode(i), "?")
                v.ty = self.ty(L.LLVMTypeOf(i))
                v.pos = len(B.insts)
                self._uid += 1
                v.uid = self._uid
                v.ref = i
                v.pred = v.callee = v.args = v.idx = v.inc = v.cases = v.aty = v.indices = v.srcty = v.rmw = None
                v.off = v.size = 0
                v.volatile = False
                v.ordering = 0
                v.succs = []
                v.noreturn = False
                v.line = L.LLVMGetDebugLocLine(i)
                v.file = ""
                if v.line:
                    n = C.c_uint()
                    s = L.LLVMGetDebugLocFilename(i, C.byref(n))
                    v.file = s[:n.value].decode() if s else ""
                    if v.file.startswith("/repo/"):
                        v.file = v.file[6:]
                B.insts.append(v)
                fn.insts.append(v)
                refs.append((i, v))
                i = L.LLVMGetNextInstruction(i)
        for i, v in refs:
            op = v.op
            if op in ("br", "switch"):
                n = L.LLVMGetNumSuccessors(i)
                v.succs = [bbs[L.LLVMGetSuccessor(i, k)] for k in range(n)]
                v.ops = []
                if op == "br" and L.LLVMIsConditional(i):
                    v.ops = [self.val(L.LLVMGetCondition(i))]
                elif op == "switch":
                    v.ops = [self.val(L.LLVMGetOperand(i, 0))]
                    v.cases = []
                    for k in range(2, L.LLVMGetNumOperands(i), 2):
                        v.cases.append((self.val(L.LLVMGetOperand(i, k)).val, bbs[L.LLVMGetOperand(i, k + 1)]))
                v.bb.succs = list(v.succs)
                for s in v.succs:
                    if v.bb not in s.preds:
                        s.preds.append(v.bb)
            elif op == "phi":
                v.inc = [(self.val(L.LLVMGetIncomingValue(i, k)), bbs[L.LLVMGetIncomingBlock(i, k)])
                         for k in range(L.LLVMCountIncoming(i))]
                v.ops = [x for x, _ in v.inc]
            elif op == "call":
                n = L.LLVMGetNumArgOperands(i)
                v.args = [self.val(L.LLVMGetOperand(i, k)) for k in range(n)]
                v.callee = self.val(L.LLVMGetCalledValue(i))
                v.ops = list(v.args) + [v.callee]
                v.noreturn = bool(L.LLVMGetCallSiteEnumAttribute(i, 0xFFFFFFFF, self._nr)) or \
                    (isinstance(v.callee, Function) and v.callee.noreturn)
            else:
                v.ops = [self.val(L.LLVMGetOperand(i, k)) for k in range(L.LLVMGetNumOperands(i))]
                if op == "icmp":
                    v.pred = PRED[L.LLVMGetICmpPredicate(i)]
                elif op == "gep":
                    v.off, v.idx = self._gep(i, v.ops)
                    v.srcty = self.ty(L.LLVMGetGEPSourceElementType(i))
                elif op == "alloca":
                    v.aty = self.ty(L.LLVMGetAllocatedType(i))
                    v.size = v.aty.size
                elif op == "load":
                    v.volatile, v.ordering, v.size = bool(L.LLVMGetVolatile(i)), L.LLVMGetOrdering(i), v.ty.size
                elif op == "store":
                    v.volatile, v.ordering = bool(L.LLVMGetVolatile(i)), L.LLVMGetOrdering(i)
                    v.size = v.ops[0].ty.size
                elif op == "fence":
                    v.ordering = L.LLVMGetOrdering(i)
                elif op in ("cmpxchg", "atomicrmw"):
                    v.ordering = 7 if op == "cmpxchg" else L.LLVMGetOrdering(i)
                    v.volatile = bool(L.LLVMGetVolatile(i))
                    if op == "atomicrmw":
                        v.rmw = L.LLVMGetAtomicRMWBinOp(i)
                elif op in ("extractvalue", "insertvalue"):
                    n = L.LLVMGetNumIndices(i)
                    p = L.LLVMGetIndices(i)
                    v.indices = [p[k] for k in range(n)]
            for o in v.ops:
                o.users.append(v)

    def text(self, inst):
        return C.string_at(self.L.LLVMPrintValueToString(inst.ref)).decode().strip()

    # -- struct layouts from debug info (struct name -> [(offset, size, field path)])
    @property
    def di(self):
        if self._di is None:
            self._di = DebugInfo(self.path)
        return self._di


class DebugInfo:
    """Field layouts of all structs that the debug information describes."""

    def __init__(self, path):
        if path.endswith(".bc"):
            txt = subprocess.run(["llvm-dis-18", path, "-o", "-"], capture_output=True, text=True)
            if txt.returncode:
                raise RuntimeError(txt.stderr)
            txt = txt.stdout
        else:
            txt = open(path).read()
        self.md = {}
        for m in re.finditer(r"^!(\d+) = (?:distinct )?(.*)$", txt, re.M):
            self.md[int(m.group(1))] = m.group(2)
        self.structs = {}
        self.enums = {}
        for k, s in self.md.items():
            if s.startswith("!DICompositeType("):
                a = self.attrs(s)
                if a.get("tag") in ("DW_TAG_structure_type", "DW_TAG_union_type") and "elements" in a and a.get("name"):
                    self.structs.setdefault(a["name"], k)
                elif a.get("tag") == "DW_TAG_enumeration_type" and "elements" in a:
                    for e in self.tuple(a["elements"]):
                        b = self.attrs(self.md[e])
                        self.enums.setdefault(b["name"], int(b["value"]))

    @staticmethod
    def attrs(s):
        d = {}
        for m in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,()]+)', s[s.index("(") + 1:]):
            d[m.group(1)] = m.group(2).strip('"')
        return d

    def tuple(self, ref):
        s = self.md[int(ref[1:])]
        return [int(x) for x in re.findall(r"!(\d+)", s)]

    def sizeof(self, name):
        return int(self.attrs(self.md[self.structs[name]]).get("size", 0)) // 8

    def strip(self, k):
        """skip typedefs and cv-qualifiers"""
        while True:
            s = self.md[k]
            if s.startswith("!DIDerivedType("):
                a = self.attrs(s)
                if a["tag"] in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type") and a.get("baseType", "null") != "null":
                    k = int(a["baseType"][1:])
                    continue
            return k

    def fields(self, name_or_id, base=0, prefix=""):
        """flattened [(bit offset, bit size, path, kind)]; arrays appear as one entry of kind 'array'"""
        k = self.structs[name_or_id] if isinstance(name_or_id, str) else name_or_id
        out = []
        a = self.attrs(self.md[k])
        for e in self.tuple(a["elements"]):
            s = self.md[e]
            if not s.startswith("!DIDerivedType("):
                continue
            b = self.attrs(s)
            if b["tag"] != "DW_TAG_member":
                continue
            off = base + int(b.get("offset", 0))
            path = prefix + b.get("name", "")
            t = self.strip(int(b["baseType"][1:]))
            ts = self.md[t]
            ta = self.attrs(ts)
            if ts.startswith("!DICompositeType(") and ta["tag"] in ("DW_TAG_structure_type", "DW_TAG_union_type"):
                out += self.fields(t, off, path + "." if b.get("name") else prefix)
            else:
                kind = "array" if ta.get("tag") == "DW_TAG_array_type" else \
                    "ptr" if ta.get("tag") == "DW_TAG_pointer_type" else "scalar"
                out.append((off, int(b["size"]), path, kind))
        return out

    def bytefields(self, name):
        return {p: (o // 8, max(1, s // 8)) for o, s, p, k in self.fields(name)}
