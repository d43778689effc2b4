"""Loads LLVM bitcode through the C API of libLLVM-18 (ctypes) into plain
Python objects.  Functions are converted lazily.  Nothing is interpreted here.
"""
import ctypes, glob, subprocess
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_size_t, c_ulonglong, c_longlong, POINTER, byref


def _find_lib():
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
        if glob.glob(p):
            return p
    c = glob.glob("/usr/lib/llvm-18/lib/libLLVM*.so*") + glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM*18*")
    if not c:
        raise RuntimeError("libLLVM-18 not found")
    return c[0]


L = ctypes.CDLL(_find_lib())


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


V = c_void_p
CreateMB = _f("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p, POINTER(V), POINTER(c_char_p))
CtxCreate = _f("LLVMContextCreate", V)
ParseBC = _f("LLVMParseBitcodeInContext2", c_int, V, V, POINTER(V))
FirstFn = _f("LLVMGetFirstFunction", V, V)
NextFn = _f("LLVMGetNextFunction", V, V)
FirstGlobal = _f("LLVMGetFirstGlobal", V, V)
NextGlobal = _f("LLVMGetNextGlobal", V, V)
NamedFn = _f("LLVMGetNamedFunction", V, V, c_char_p)
NameOf = _f("LLVMGetValueName2", c_void_p, V, POINTER(c_size_t))
IsDecl = _f("LLVMIsDeclaration", c_int, V)
CountParams = _f("LLVMCountParams", c_uint, V)
GetParam = _f("LLVMGetParam", V, V, c_uint)
FirstBB = _f("LLVMGetFirstBasicBlock", V, V)
NextBB = _f("LLVMGetNextBasicBlock", V, V)
FirstInst = _f("LLVMGetFirstInstruction", V, V)
NextInst = _f("LLVMGetNextInstruction", V, V)
Opcode = _f("LLVMGetInstructionOpcode", c_int, V)
NumOps = _f("LLVMGetNumOperands", c_int, V)
GetOp = _f("LLVMGetOperand", V, V, c_uint)
TypeOf = _f("LLVMTypeOf", V, V)
TypeKind = _f("LLVMGetTypeKind", c_int, V)
IntWidth = _f("LLVMGetIntTypeWidth", c_uint, V)
StructN = _f("LLVMCountStructElementTypes", c_uint, V)
StructAt = _f("LLVMStructGetTypeAtIndex", V, V, c_uint)
ArrLen = _f("LLVMGetArrayLength2", c_ulonglong, V)
ElemTy = _f("LLVMGetElementType", V, V)
RetTy = _f("LLVMGetReturnType", V, V)
GlobalValTy = _f("LLVMGlobalGetValueType", V, V)
ValueKind = _f("LLVMGetValueKind", c_int, V)
CIntS = _f("LLVMConstIntGetSExtValue", c_longlong, V)
CIntZ = _f("LLVMConstIntGetZExtValue", c_ulonglong, V)
CEOp = _f("LLVMGetConstOpcode", c_int, V)
ICmpPred = _f("LLVMGetICmpPredicate", c_int, V)
GEPTy = _f("LLVMGetGEPSourceElementType", V, V)
AllocTy = _f("LLVMGetAllocatedType", V, V)
Called = _f("LLVMGetCalledValue", V, V)
NumArgs = _f("LLVMGetNumArgOperands", c_uint, V)
CountInc = _f("LLVMCountIncoming", c_uint, V)
IncVal = _f("LLVMGetIncomingValue", V, V, c_uint)
IncBB = _f("LLVMGetIncomingBlock", V, V, c_uint)
NumSucc = _f("LLVMGetNumSuccessors", c_uint, V)
Succ = _f("LLVMGetSuccessor", V, V, c_uint)
NumIdx = _f("LLVMGetNumIndices", c_uint, V)
Indices = _f("LLVMGetIndices", POINTER(c_uint), V)
ValAsBB = _f("LLVMValueAsBasicBlock", V, V)
Init = _f("LLVMGetInitializer", V, V)
IsConstG = _f("LLVMIsGlobalConstant", c_int, V)
Linkage = _f("LLVMGetLinkage", c_int, V)
AggEl = _f("LLVMGetAggregateElement", V, V, c_uint)
DataLayout = _f("LLVMGetModuleDataLayout", V, V)
SizeOf = _f("LLVMABISizeOfType", c_ulonglong, V, V)
OffOf = _f("LLVMOffsetOfElement", c_ulonglong, V, V, c_uint)
DbgLine = _f("LLVMGetDebugLocLine", c_uint, V)
DbgFile = _f("LLVMGetDebugLocFilename", c_void_p, V, POINTER(c_uint))
FirstUse = _f("LLVMGetFirstUse", V, V)
NextUse = _f("LLVMGetNextUse", V, V)
UserOf = _f("LLVMGetUser", V, V)
IsAInst = _f("LLVMIsAInstruction", V, V)

OPC = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv",
       15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr",
       22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi",
       35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       53: "extractvalue", 54: "insertvalue", 60: "addrspacecast", 66: "fneg", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
# LLVMTypeKind
TK_VOID, TK_INT, TK_FUNC, TK_STRUCT, TK_ARR, TK_PTR = 0, 8, 9, 10, 11, 12
# LLVMValueKind
VK_ARG, VK_BB, VK_MD = 0, 1, 14  # (metadata handled by type)


class Ty:
    __slots__ = ("kind", "width", "fields", "offs", "elem", "n", "size", "raw")

    def __repr__(self):
        return {"int": "i%s" % self.width, "ptr": "ptr", "void": "void"}.get(self.kind, self.kind)


class Op:
    """An operand. kind: reg (local value), const (int), null, undef, global, fn, agg, ce, other"""
    __slots__ = ("kind", "val", "ty", "raw")

    def __init__(self, kind, val, ty, raw=None):
        self.kind, self.val, self.ty, self.raw = kind, val, ty, raw


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "x", "line", "file", "blk", "idx", "fn")

    def __repr__(self):
        return "%%%s=%s" % (self.id, self.op)


class Block:
    __slots__ = ("idx", "insts", "succs")


class Fn:
    __slots__ = ("name", "dem", "params", "ptys", "retty", "blocks", "decl", "raw", "loops", "mod", "ready", "cross")


class Module:
    def __init__(self, path):
        mb, err = V(), c_char_p()
        if CreateMB(path.encode(), byref(mb), byref(err)):
            raise RuntimeError("cannot read " + path)
        self.ctx = CtxCreate()
        m = V()
        if ParseBC(self.ctx, mb, byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m
        self.dl = DataLayout(m)
        self._ty = {}
        self.fns = {}
        self.byraw = {}
        self.globals = {}
        f = FirstFn(m)
        while f:
            fn = Fn()
            fn.name = self._name(f)
            fn.raw = f
            fn.decl = bool(IsDecl(f))
            fn.ready = False
            fn.mod = self
            fn.dem = fn.name
            self.fns[fn.name] = fn
            self.byraw[f] = fn
            f = NextFn(f)
        g = FirstGlobal(m)
        while g:
            self.globals[g] = self._name(g)
            g = NextGlobal(g)
        names = [n for n in self.fns]
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        for n, d in zip(names, out):
            self.fns[n].dem = d

    def _name(self, v):
        n = c_size_t()
        p = NameOf(v, byref(n))
        return ctypes.string_at(p, n.value).decode()

    def ty(self, t):
        if t in self._ty:
            return self._ty[t]
        r = Ty()
        r.raw = t
        r.width = r.fields = r.offs = r.elem = r.n = None
        k = TypeKind(t)
        self._ty[t] = r
        if k == TK_VOID:
            r.kind, r.size = "void", 0
        elif k == TK_INT:
            r.kind, r.width = "int", IntWidth(t)
            r.size = SizeOf(self.dl, t)
        elif k == TK_PTR:
            r.kind, r.size = "ptr", 8
        elif k == TK_STRUCT:
            r.kind = "struct"
            n = StructN(t)
            r.fields = [self.ty(StructAt(t, i)) for i in range(n)]
            r.offs = [OffOf(self.dl, t, i) for i in range(n)]
            r.size = SizeOf(self.dl, t)
        elif k == TK_ARR:
            r.kind = "array"
            r.n = ArrLen(t)
            r.elem = self.ty(ElemTy(t))
            r.size = SizeOf(self.dl, t)
        else:
            r.kind, r.size = "other%d" % k, 0
        return r

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            return None
        return self.prep(f)

    def prep(self, f):
        if f.ready:
            return f
        f.ready = True
        raw = f.raw
        ft = GlobalValTy(raw)
        f.retty = self.ty(RetTy(ft))
        ids = {}
        f.params = []
        f.ptys = []
        for i in range(CountParams(raw)):
            p = GetParam(raw, i)
            ids[p] = "a%d" % i
            f.params.append("a%d" % i)
            f.ptys.append(self.ty(TypeOf(p)))
        f.blocks = []
        if f.decl:
            return f
        bbs = {}
        b = FirstBB(raw)
        order = []
        while b:
            bbs[b] = len(order)
            order.append(b)
            b = NextBB(b)
        n = 0
        insts = []
        for b in order:
            i = FirstInst(b)
            lst = []
            while i:
                ids[i] = n
                n += 1
                lst.append(i)
                i = NextInst(i)
            insts.append(lst)
        for bi, lst in enumerate(insts):
            blk = Block()
            blk.idx = bi
            blk.insts = []
            for k, i in enumerate(lst):
                x = Inst()
                x.id = ids[i]
                x.op = OPC.get(Opcode(i), "op%d" % Opcode(i))
                x.ty = self.ty(TypeOf(i))
                x.line = DbgLine(i)
                x.file = None
                x.blk = bi
                x.idx = k
                x.fn = f
                x.x = None
                if x.line:
                    ln = c_uint()
                    p = DbgFile(i, byref(ln))
                    if p:
                        x.file = ctypes.string_at(p, ln.value).decode()
                if x.op == "phi":
                    x.x = [(bbs[IncBB(i, j)], self.operand(IncVal(i, j), ids)) for j in range(CountInc(i))]
                    x.ops = []
                elif x.op == "br":
                    x.x = [bbs[Succ(i, j)] for j in range(NumSucc(i))]
                    x.ops = [self.operand(GetOp(i, 0), ids)] if NumSucc(i) == 2 else []
                elif x.op == "switch":
                    no = NumOps(i)
                    x.ops = [self.operand(GetOp(i, 0), ids)]
                    dest = [bbs[Succ(i, j)] for j in range(NumSucc(i))]
                    x.x = (dest[0], [(CIntZ(GetOp(i, 2 + 2 * j)), dest[j + 1]) for j in range((no - 2) // 2)])
                elif x.op in ("call", "invoke"):
                    x.ops = [self.operand(GetOp(i, j), ids) for j in range(NumArgs(i))]
                    x.x = self.operand(Called(i), ids)
                else:
                    x.ops = [self.operand(GetOp(i, j), ids) for j in range(NumOps(i))]
                    if x.op == "icmp":
                        x.x = PRED[ICmpPred(i)]
                    elif x.op == "gep":
                        x.x = self.ty(GEPTy(i))
                    elif x.op == "alloca":
                        x.x = self.ty(AllocTy(i))
                    elif x.op in ("extractvalue", "insertvalue"):
                        ip = Indices(i)
                        x.x = [ip[j] for j in range(NumIdx(i))]
                blk.insts.append(x)
            last = blk.insts[-1]
            if last.op == "br":
                blk.succs = list(last.x)
            elif last.op == "switch":
                blk.succs = [last.x[0]] + [d for _, d in last.x[1]]
            else:
                blk.succs = []
            f.blocks.append(blk)
        f.loops = find_loops(f)
        home = {x.id: blk.idx for blk in f.blocks for x in blk.insts}
        f.cross = set(f.params)     # values used outside the block that defines them
        for blk in f.blocks:
            for x in blk.insts:
                for o in list(x.ops) + [o for _, o in x.x] if x.op == "phi" else list(x.ops) + [x.x] if x.op in ("call", "invoke") else x.ops:
                    if o.kind == "reg" and (x.op == "phi" or home.get(o.val) != blk.idx):
                        f.cross.add(o.val)
        return f

    def operand(self, v, ids=None):
        t = self.ty(TypeOf(v))
        if ids is not None and v in ids:
            return Op("reg", ids[v], t)
        return self.const(v, t)

    def const(self, v, t=None):
        if t is None:
            t = self.ty(TypeOf(v))
        if v in self.byraw:
            return Op("fn", self.byraw[v], t)
        if v in self.globals:
            return Op("global", v, t)
        k = ValueKind(v)
        # LLVMValueKind: ConstantExpr=10, ConstantArray=7, ConstantStruct=8, Undef=11, AggZero=12, DataArray=13,
        # Int=18 , FP=19, PtrNull=20, Poison=25 (checked in self-test)
        if k == KINDS["int"]:
            if t.width > 64:
                return Op("other", None, t)
            return Op("const", CIntZ(v) & ((1 << t.width) - 1), t)
        if k == KINDS["null"]:
            return Op("null", None, t)
        if k in (KINDS["undef"], KINDS["poison"]):
            return Op("undef", None, t)
        if k == KINDS["aggzero"]:
            return Op("zero", None, t)
        if k in (KINDS["struct"], KINDS["array"], KINDS["dataarray"]):
            return Op("agg", v, t, v)
        if k == KINDS["ce"]:
            oc = OPC.get(CEOp(v))
            return Op("ce", (oc, v), t, v)
        return Op("other", k, t, v)


def _enum_kinds():
    # enum LLVMValueKind of LLVM 18
    names = ["Argument", "BasicBlock", "MemoryUse", "MemoryDef", "MemoryPhi", "Function", "GlobalAlias",
             "GlobalIFunc", "GlobalVariable", "BlockAddress", "ConstantExpr", "ConstantArray", "ConstantStruct",
             "ConstantVector", "UndefValue", "ConstantAggregateZero", "ConstantDataArray", "ConstantDataVector",
             "ConstantInt", "ConstantFP", "ConstantPointerNull", "ConstantTokenNone", "MetadataAsValue",
             "InlineAsm", "Instruction", "PoisonValue", "ConstantTargetNone"]
    d = {n: i for i, n in enumerate(names)}
    return {"int": d["ConstantInt"], "null": d["ConstantPointerNull"], "undef": d["UndefValue"],
            "poison": d["PoisonValue"], "aggzero": d["ConstantAggregateZero"], "struct": d["ConstantStruct"],
            "array": d["ConstantArray"], "dataarray": d["ConstantDataArray"], "ce": d["ConstantExpr"]}


KINDS = _enum_kinds()


def find_loops(f):
    """Natural loops by dominators: header block -> set of blocks. Irreducible edges are reported under key None."""
    n = len(f.blocks)
    preds = [[] for _ in range(n)]
    for b in f.blocks:
        for s in b.succs:
            preds[s].append(b.idx)
    # reachable
    seen = {0}
    st = [0]
    while st:
        x = st.pop()
        for s in f.blocks[x].succs:
            if s not in seen:
                seen.add(s)
                st.append(s)
    dom = {b: (set(seen) if b else {0}) for b in seen}
    ch = True
    while ch:
        ch = False
        for b in sorted(seen):
            if b == 0:
                continue
            ps = [p for p in preds[b] if p in seen]
            s = set.intersection(*[dom[p] for p in ps]) | {b}
            if s != dom[b]:
                dom[b] = s
                ch = True
    loops = {}
    for b in seen:
        for s in f.blocks[b].succs:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in preds[x] if p in seen)
    return loops
