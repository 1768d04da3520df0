"""Loads LLVM bitcode/IR through the LLVM-C API (ctypes) into plain Python objects.

The text that is verified is the IR clang produces from /repo's current sources;
nothing here is hand-copied from them.
"""
import ctypes as C
import ctypes.util
import functools

_LIBS = ["libLLVM-18.so.1", "libLLVM.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so.1",
         "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"]
_L = None
for _n in _LIBS:
    try:
        _L = C.CDLL(_n)
        break
    except OSError:
        pass
if _L is None:
    raise RuntimeError("libLLVM 18 not found")

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
Op = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntW = _f("LLVMGetIntTypeWidth", C.c_uint, P)
StructName = _f("LLVMGetStructName", C.c_char_p, P)
NStruct = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructEl = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
IsPacked = _f("LLVMIsPackedStruct", C.c_int, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
ElemTy = _f("LLVMGetElementType", P, P)
VecLen = _f("LLVMGetVectorSize", C.c_uint, P)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
ZExt = _f("LLVMConstIntGetZExtValue", C.c_uint64, P)
RealGet = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
ICmpP = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpP = _f("LLVMGetFCmpPredicate", C.c_int, P)
NInc = _f("LLVMCountIncoming", C.c_uint, P)
IncV = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
NSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
GEPTy = _f("LLVMGetGEPSourceElementType", P, P)
GetNSW = _f("LLVMGetNSW", C.c_int, P)
GetNUW = _f("LLVMGetNUW", C.c_int, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
Called = _f("LLVMGetCalledValue", P, P)
CalledTy = _f("LLVMGetCalledFunctionType", P, P)
NArgOps = _f("LLVMGetNumArgOperands", C.c_uint, P)
Name2 = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
Init = _f("LLVMGetInitializer", P, P)
IsGConst = _f("LLVMIsGlobalConstant", C.c_int, P)
DbgLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
NMask = _f("LLVMGetNumMaskElements", C.c_uint, P)
MaskV = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint)
ConstOp = _f("LLVMGetConstOpcode", C.c_int, P)
AggEl = _f("LLVMGetAggregateElement", P, P, C.c_uint)
AlignOf = _f("LLVMGetAlignment", C.c_uint, P)
NIdx = _f("LLVMGetNumIndices", C.c_uint, P)
Idx = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
NParams = _f("LLVMCountParams", C.c_uint, P)
Param = _f("LLVMGetParam", P, P, C.c_uint)
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
GVType = _f("LLVMGlobalGetValueType", P, P)
RetTy = _f("LLVMGetReturnType", P, P)
NFnPar = _f("LLVMCountParamTypes", C.c_uint, P)
FnParT = _f("LLVMGetParamTypes", None, P, C.POINTER(P))
PrintV = _f("LLVMPrintValueToString", C.c_void_p, P)
CondBr = _f("LLVMIsConditional", C.c_int, P)
Volatile = _f("LLVMGetVolatile", C.c_int, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "getelementptr", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp",
       36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp",
       43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 66: "fneg", 68: "freeze",
       55: "fence", 56: "cmpxchg", 57: "atomicrmw"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}


class Ty:
    __slots__ = ("k", "w", "n", "el", "fields", "name", "ret", "packed")

    def __init__(self, k, w=None, n=None, el=None, fields=None, name=None, ret=None, packed=False):
        self.k, self.w, self.n, self.el, self.fields, self.name, self.ret, self.packed = k, w, n, el, fields, name, ret, packed

    def key(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k == "struct":
            return "s:" + (self.name or ("{" + ",".join(f.key() for f in self.fields) + "}"))
        if self.k in ("array", "vec"):
            return "%s[%d x %s]" % (self.k[0], self.n, self.el.key())
        return self.k

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.key()

    def align(self):
        if self.k == "int":
            return max(1, self.w // 8)
        if self.k == "float":
            return 4
        if self.k in ("double", "ptr"):
            return 8
        if self.k == "fp80":
            return 16
        if self.k == "struct":
            return 1 if self.packed else max([f.align() for f in self.fields] or [1])
        if self.k == "array":
            return self.el.align()
        if self.k == "vec":
            return self.size()
        raise ValueError("align of " + self.k)

    def size(self):
        if self.k == "int":
            return max(1, (self.w + 7) // 8)
        if self.k == "float":
            return 4
        if self.k in ("double", "ptr"):
            return 8
        if self.k == "fp80":
            return 16
        if self.k == "array":
            return self.n * self.el.size()
        if self.k == "vec":
            return self.n * self.el.size()
        if self.k == "struct":
            o = 0
            for f in self.fields:
                a = 1 if self.packed else f.align()
                o = (o + a - 1) // a * a + f.size()
            a = self.align()
            return (o + a - 1) // a * a
        raise ValueError("size of " + self.k)

    def offsets(self):
        o, r = 0, []
        for f in self.fields:
            a = 1 if self.packed else f.align()
            o = (o + a - 1) // a * a
            r.append(o)
            o += f.size()
        return r


I1, I8, I16, I32, I64 = (Ty("int", w=w) for w in (1, 8, 16, 32, 64))
FLOAT, DOUBLE, PTR, VOID = Ty("float"), Ty("double"), Ty("ptr"), Ty("void")


class V:
    """A value: kinds arg, inst, int, fp, null, undef, global, func, block, cexpr, agg, zero."""
    __slots__ = ("k", "ty", "name", "val", "inst", "elems", "idx", "op")

    def __init__(self, k, ty, name=None, val=None):
        self.k, self.ty, self.name, self.val = k, ty, name, val
        self.inst = self.elems = self.idx = self.op = None

    def __repr__(self):
        return "%s:%s" % (self.k, self.name if self.name else self.val)


class Inst:
    __slots__ = ("op", "ty", "ops", "name", "line", "pred", "phi", "succ", "gepty", "nsw", "nuw", "allocty", "callee",
                 "mask", "indices", "align", "block", "cases", "fnty", "uid", "text", "val")


class Block:
    __slots__ = ("name", "insts", "fn", "preds", "succs", "idx")


class Func:
    def __init__(self):
        self.name = None
        self.args = []
        self.blocks = []
        self.decl = True
        self.ret = None
        self.module = None


class Module:
    def __init__(self):
        self.funcs = {}
        self.globals = {}
        self.structs = {}


def load(path):
    ctx = ContextCreate()
    buf, err = P(), C.c_char_p()
    if MemBuf(path.encode(), C.byref(buf), C.byref(err)):
        raise RuntimeError(err.value)
    mod = P()
    if ParseIR(ctx, buf, C.byref(mod), C.byref(err)):
        raise RuntimeError(err.value)
    M = Module()
    tcache = {}

    def ty(t):
        if t in tcache:
            return tcache[t]
        k = TypeKind(t)
        if k == 0:
            r = VOID
        elif k == 2:
            r = FLOAT
        elif k == 3:
            r = DOUBLE
        elif k == 4:
            r = Ty("fp80")
        elif k == 8:
            r = Ty("int", w=IntW(t))
        elif k == 9:
            ret = ty(RetTy(t))
            n = NFnPar(t)
            arr = (P * max(1, n))()
            FnParT(t, arr)
            r = Ty("func", ret=ret, fields=[ty(arr[i]) for i in range(n)])
        elif k == 10:
            nm = StructName(t)
            r = Ty("struct", name=nm.decode() if nm else None, packed=bool(IsPacked(t)))
            tcache[t] = r
            r.fields = [ty(StructEl(t, i)) for i in range(NStruct(t))]
            if r.name:
                M.structs[r.name] = r
        elif k == 11:
            r = Ty("array", n=ArrLen(t), el=ty(ElemTy(t)))
        elif k == 12:
            r = PTR
        elif k == 13:
            r = Ty("vec", n=VecLen(t), el=ty(ElemTy(t)))
        elif k == 7:
            r = Ty("label")
        elif k == 14:
            r = Ty("metadata")
        else:
            r = Ty("other%d" % k)
        tcache[t] = r
        return r

    def name(v):
        n = C.c_size_t()
        s = Name2(v, C.byref(n))
        return s[:n.value].decode() if s else ""

    vals = {}

    def val(v):
        if v in vals:
            return vals[v]
        vk = ValueKind(v)
        t = ty(TypeOf(v))
        # LLVMValueKind (18): 0 Argument 1 BasicBlock 2 MemoryUse.. 5 Function 6 GlobalAlias 7 GlobalIFunc 8 GlobalVariable
        # 9 BlockAddress 10 ConstantExpr 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 Undef
        # 15 ConstantAggregateZero 16 ConstantDataArray 17 ConstantDataVector 18 ConstantInt 19 ConstantFP
        # 20 ConstantPointerNull 21 ConstantTokenNone 22 MetadataAsValue 23 InlineAsm 24 Instruction 25 Poison
        if vk == 5:
            r = V("func", t, name(v))
        elif vk == 8:
            r = V("global", t, name(v))
        elif vk == 10:
            r = V("cexpr", t)
            vals[v] = r
            r.op = OPC.get(ConstOp(v), "?")
            r.elems = [val(Op(v, i)) for i in range(NumOps(v))]
            if r.op == "getelementptr":
                r.idx = ty(GEPTy(v))
        elif vk in (11, 12, 13, 16, 17):
            r = V("agg", t)
            vals[v] = r
            n = len(t.fields) if t.k == "struct" else t.n
            r.elems = [val(AggEl(v, i)) for i in range(n)]
        elif vk in (14, 25):
            r = V("undef", t)
        elif vk == 15:
            r = V("zero", t)
        elif vk == 18:
            r = V("int", t, val=ZExt(v) if t.w <= 64 else None)
        elif vk == 19:
            lose = C.c_int()
            r = V("fp", t, val=RealGet(v, C.byref(lose)))
        elif vk == 20:
            r = V("null", t)
        elif vk == 22:
            r = V("metadata", t)
        elif vk == 23:
            r = V("asm", t)
        elif vk == 1:
            r = V("block", t, name(v))
        else:
            r = V("unk%d" % vk, t, name(v))
        vals[v] = r
        return r

    g = FirstGlobal(mod)
    while g:
        v = val(g)
        ini = Init(g)
        M.globals[v.name] = (ty(GVType(g)), val(ini) if ini else None, bool(IsGConst(g)))
        g = NextGlobal(g)
    f = FirstFn(mod)
    todo = []
    while f:
        F = Func()
        F.name = name(f)
        F.module = M
        ft = ty(GVType(f))
        F.ret = ft.ret
        F.decl = bool(IsDecl(f))
        for i in range(NParams(f)):
            p = Param(f, i)
            a = V("arg", ty(TypeOf(p)), name(p), i)
            vals[p] = a
            F.args.append(a)
        M.funcs[F.name] = F
        if not F.decl:
            todo.append((f, F))
        f = NextFn(f)
    uid = [0]
    for f, F in todo:
        bmap, imap = {}, {}
        b = FirstBB(f)
        bi = 0
        while b:
            B = Block()
            B.fn, B.preds, B.succs, B.insts, B.idx = F, [], [], [], bi
            bi += 1
            bmap[b] = B
            B.name = name(b) if False else None
            F.blocks.append(B)
            i = FirstI(b)
            while i:
                I = Inst()
                uid[0] += 1
                I.uid = uid[0]
                I.op = OPC.get(Opcode(i), "op%d" % Opcode(i))
                I.ty = ty(TypeOf(i))
                I.name = name(i) if I.ty.k != "void" else ""
                I.line = DbgLine(i)
                I.block = B
                vv = V("inst", I.ty, I.name)
                vv.inst = I
                I.val = vv
                vals[i] = vv
                imap[i] = I
                B.insts.append(I)
                i = NextI(i)
            b = NextBB(b)
        for raw, I in imap.items():
            op = I.op
            I.align = I.pred = I.phi = I.succ = I.gepty = I.allocty = I.callee = I.mask = I.indices = I.cases = I.fnty = None
            I.nsw = I.nuw = False
            if op == "phi":
                I.phi = [(val(IncV(raw, j)), bmap[IncB(raw, j)]) for j in range(NInc(raw))]
                I.ops = []
                continue
            if op in ("br", "switch"):
                I.succ = [bmap[Succ(raw, j)] for j in range(NSucc(raw))]
                I.ops = []
                if op == "br":
                    if CondBr(raw):
                        I.ops = [val(Op(raw, 0))]
                else:
                    I.ops = [val(Op(raw, 0))]
                    # operands: cond, default, (value, dest)*
                    n = NumOps(raw)
                    I.cases = [(val(Op(raw, j)), bmap[_bb(Op(raw, j + 1))]) for j in range(2, n, 2)]
                    I.succ = [bmap[_bb(Op(raw, 1))]] + [c[1] for c in I.cases]
                continue
            if op == "call":
                n = NArgOps(raw)
                I.ops = [val(Op(raw, j)) for j in range(n)]
                I.callee = val(Called(raw))
                I.fnty = ty(CalledTy(raw))
                continue
            I.ops = [val(Op(raw, j)) for j in range(NumOps(raw))]
            if op == "icmp":
                I.pred = ICMP[ICmpP(raw)]
            elif op == "fcmp":
                I.pred = FCMP[FCmpP(raw)]
            elif op == "getelementptr":
                I.gepty = ty(GEPTy(raw))
            elif op in ("load", "store"):
                I.align = AlignOf(raw)
            elif op == "alloca":
                I.allocty = ty(AllocTy(raw))
            elif op in ("add", "sub", "mul", "shl"):
                I.nsw, I.nuw = bool(GetNSW(raw)), bool(GetNUW(raw))
            elif op == "shufflevector":
                I.mask = [MaskV(raw, j) for j in range(NMask(raw))]
            elif op in ("extractvalue", "insertvalue"):
                pi = Idx(raw)
                I.indices = [pi[j] for j in range(NIdx(raw))]
        for j, B in enumerate(F.blocks):
            B.name = "b%d" % j
            t = B.insts[-1]
            if t.succ:
                seen = []
                for s in t.succ:
                    if s not in seen:
                        seen.append(s)
                B.succs = seen
        for B in F.blocks:
            for s in B.succs:
                s.preds.append(B)
    return M


_bb = _f("LLVMValueAsBasicBlock", P, P)
