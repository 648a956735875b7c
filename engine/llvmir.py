"""LLVM bitcode -> Python code, through the LLVM-C API (ctypes).  One Python function per basic block."""
import ctypes as C, math
from . import rterm as R

L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM.so.1")
P = C.c_void_p
def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f
CreateBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
CtxCreate = _f("LLVMContextCreate", P)
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
FirstFn = _f("LLVMGetFirstFunction", P, P); NextFn = _f("LLVMGetNextFunction", P, P)
FirstGl = _f("LLVMGetFirstGlobal", P, P); NextGl = _f("LLVMGetNextGlobal", P, P)
FirstAl = _f("LLVMGetFirstGlobalAlias", P, P); NextAl = _f("LLVMGetNextGlobalAlias", P, P)
AliasGet = _f("LLVMAliasGetAliasee", P, P)
ValName = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P); NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P); NextI = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NOps = _f("LLVMGetNumOperands", C.c_int, P)
Op = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TKind = _f("LLVMGetTypeKind", C.c_int, P)
IntW = _f("LLVMGetIntTypeWidth", C.c_uint, P)
VKind = _f("LLVMGetValueKind", C.c_int, P)
CIz = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
CRd = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
COpc = _f("LLVMGetConstOpcode", C.c_int, P)
ICmpP = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpP = _f("LLVMGetFCmpPredicate", C.c_int, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
GEPTy = _f("LLVMGetGEPSourceElementType", P, P)
StructEl = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
StructN = _f("LLVMCountStructElementTypes", C.c_uint, P)
ElemTy = _f("LLVMGetElementType", P, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
VecLen = _f("LLVMGetVectorSize", C.c_uint, P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
OffEl = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, P); Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
IsCond = _f("LLVMIsConditional", C.c_int, P); Cond = _f("LLVMGetCondition", P, P)
NInc = _f("LLVMCountIncoming", C.c_uint, P); IncV = _f("LLVMGetIncomingValue", P, P, C.c_uint); IncB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
Called = _f("LLVMGetCalledValue", P, P); CalledTy = _f("LLVMGetCalledFunctionType", P, P)
RetTy = _f("LLVMGetReturnType", P, P)
NArgs = _f("LLVMGetNumArgOperands", C.c_uint, P)
NormDest = _f("LLVMGetNormalDest", P, P); UnwDest = _f("LLVMGetUnwindDest", P, P)
NClauses = _f("LLVMGetNumClauses", C.c_uint, P); Clause = _f("LLVMGetClause", P, P, C.c_uint); IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
NIdx = _f("LLVMGetNumIndices", C.c_uint, P); Idx = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
Init = _f("LLVMGetInitializer", P, P)
IsTLS = _f("LLVMIsThreadLocal", C.c_int, P)
IsConstG = _f("LLVMIsGlobalConstant", C.c_int, P)
GlobTy = _f("LLVMGlobalGetValueType", P, P)
AsStr = _f("LLVMGetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
AggEl = _f("LLVMGetAggregateElement", P, P, C.c_uint)
NParams = _f("LLVMCountParams", C.c_uint, P); Param = _f("LLVMGetParam", P, P, C.c_uint)
BBParent = _f("LLVMGetInstructionParent", P, P)
FirstUse = _f("LLVMGetFirstUse", P, P); NextUse = _f("LLVMGetNextUse", P, P); User = _f("LLVMGetUser", P, P)
SwDef = _f("LLVMGetSwitchDefaultDest", P, P)
BBTerm = _f("LLVMGetBasicBlockTerminator", P, P)
Ordering = _f("LLVMGetOrdering", C.c_int, P)
AtomOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
MaskVal = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint); NMask = _f("LLVMGetNumMaskElements", C.c_uint, P)

VK_ARG, VK_BB, VK_FN, VK_ALIAS, VK_GV = 0, 1, 5, 6, 8
VK_CE, VK_CA, VK_CS, VK_CV, VK_UNDEF, VK_CAZ, VK_CDA, VK_CDV, VK_CI, VK_CF, VK_NULL = 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20
VK_INST, VK_POISON = 24, 25
T_VOID, T_FLOAT, T_DOUBLE, T_LABEL, T_INT, T_FN, T_STRUCT, T_ARRAY, T_PTR, T_VEC, T_META = 0, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14

OBJ = 40                      # object id is in the address bits above this
MASK = {w: (1 << w) - 1 for w in (1, 2, 3, 4, 8, 16, 32, 64, 128)}
def mask(w):
    return (1 << w) - 1

class Unsupported(Exception):
    pass

def name_of(v):
    n = C.c_size_t()
    p = ValName(v, C.byref(n))
    return C.string_at(p, n.value).decode() if p else ""

class Fn:
    __slots__ = ("name", "v", "decl", "entry", "nregs", "compiled", "ninstr", "nblocks", "mod", "src", "id", "covered")
    def __init__(self, mod, name, v, i):
        self.mod, self.name, self.v, self.id = mod, name, v, i
        self.decl = bool(IsDecl(v))
        self.compiled = False
        self.entry = None
        self.covered = set()

class GV:
    __slots__ = ("name", "v", "decl", "size", "const", "id", "init")

class Module:
    def __init__(self, path):
        ctx = CtxCreate()
        buf = P(); err = C.c_char_p()
        if CreateBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        m = P()
        if ParseBC(ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse bitcode")
        self.m = m
        self.dl = DataLayout(m)
        self.fns = {}
        self.fn_by_id = {}
        self.gvs = {}
        self.gv_by_id = {}
        self.tls = set()           # thread-local variables
        self.addr = {}          # LLVM value ptr -> address
        nid = 16
        f = FirstFn(m)
        while f:
            fn = Fn(self, name_of(f), f, nid)
            self.fns[fn.name] = fn
            self.fn_by_id[nid] = fn
            self.addr[f] = nid << OBJ
            nid += 1
            f = NextFn(f)
        g = FirstGl(m)
        while g:
            v = GV()
            v.name, v.v, v.decl, v.const, v.id = name_of(g), g, bool(IsDecl(g)), bool(IsConstG(g)), nid
            ty = GlobTy(g)
            try:
                v.size = ABISize(self.dl, ty) if TKind(ty) != T_FN else 0
            except Exception:
                v.size = 0
            v.init = None
            self.gvs[v.name] = v
            self.gv_by_id[nid] = v
            if IsTLS(g): self.tls.add(nid)
            self.addr[g] = nid << OBJ
            nid += 1
            g = NextGl(g)
        self.aliases = {}
        a = FirstAl(m)
        while a:
            self.aliases[a] = AliasGet(a)
            self.aliases[name_of(a)] = AliasGet(a)
            a = NextAl(a)
        self.first_free = nid
        self.overrides = set()
        self.structs = {}

    # ---- constants ----------------------------------------------------
    def size(self, ty):
        return ABISize(self.dl, ty)

    def cval(self, v):
        """python value of a scalar constant"""
        k = VKind(v)
        if k == VK_CI:
            return CIz(v) if IntW(TypeOf(v)) <= 64 else self._big(v)
        if k == VK_CF:
            li = C.c_int()
            return R.dconst(CRd(v, C.byref(li)))
        if k == VK_NULL:
            return 0
        if k in (VK_FN, VK_GV):
            return self.addr[v]
        if k == VK_ALIAS:
            return self.cval(self.aliases[v])
        if k in (VK_UNDEF, VK_POISON):
            return UNDEF
        if k == VK_CE:
            o = COpc(v)
            if o == 29:
                base = self.cval(Op(v, 0))
                off, dyn = self.gep_off(v)
                assert not dyn
                return (base + off) & mask(64)
            if o in (39, 40, 41):
                return self.cval(Op(v, 0))
            if o == 30:
                return self.cval(Op(v, 0)) & mask(IntW(TypeOf(v)))
            if o == 10:
                return (self.cval(Op(v, 0)) - self.cval(Op(v, 1))) & mask(IntW(TypeOf(v)))
            if o == 8:
                return (self.cval(Op(v, 0)) + self.cval(Op(v, 1))) & mask(IntW(TypeOf(v)))
            raise Unsupported("constant expr %d" % o)
        if k == VK_CAZ or k == VK_CS or k == VK_CA:
            return self.cagg(v)
        raise Unsupported("constant kind %d" % k)

    def _big(self, v):
        raise Unsupported("wide constant")

    def cagg(self, v):
        ty = TypeOf(v)
        n = StructN(ty) if TKind(ty) == T_STRUCT else ArrLen(ty)
        return tuple(self.cval(AggEl(v, i)) for i in range(n))

    def gep_off(self, v):
        """(constant offset, [(operand, scale)])"""
        ty = GEPTy(v)
        off = 0
        dyn = []
        n = NOps(v)
        for i in range(1, n):
            o = Op(v, i)
            if i > 1:
                k = TKind(ty)
                if k == T_STRUCT:
                    ix = CIz(o)
                    off += OffEl(self.dl, ty, ix)
                    ty = StructEl(ty, ix)
                    continue
                ty = ElemTy(ty)
            sc = self.size(ty)
            if VKind(o) == VK_CI:
                w = IntW(TypeOf(o))
                x = CIz(o) & mask(w)
                if x >> (w - 1):
                    x -= 1 << w
                off += x * sc
            elif VKind(o) in (VK_UNDEF, VK_POISON):
                dyn.append((o, sc))
            else:
                dyn.append((o, sc))
        return off, dyn

    def init_cells(self, gv):
        """[(off, size, value)] of a global's initialiser"""
        if gv.init is None:
            out = []
            i = Init(gv.v)
            if i:
                self._flat(i, 0, out)
            gv.init = out
        return gv.init

    def _flat(self, v, off, out):
        k = VKind(v)
        ty = TypeOf(v)
        tk = TKind(ty)
        if k == VK_CAZ or (k == VK_NULL):
            out.append((off, self.size(ty), None))     # zero fill
            return
        if k in (VK_UNDEF, VK_POISON):
            return
        if k == VK_CDA:
            n = ArrLen(ty)
            et = ElemTy(ty)
            es = self.size(et)
            if TKind(et) == T_INT and es == 1:
                ln = C.c_size_t()
                p = AsStr(v, C.byref(ln))
                out.append((off, n, C.string_at(p, ln.value)))
                return
            for i in range(n):
                self._flat(AggEl(v, i), off + i * es, out)
            return
        if k == VK_CA:
            es = self.size(ElemTy(ty))
            for i in range(ArrLen(ty)):
                self._flat(AggEl(v, i), off + i * es, out)
            return
        if k == VK_CS:
            for i in range(StructN(ty)):
                self._flat(AggEl(v, i), off + OffEl(self.dl, ty, i), out)
            return
        out.append((off, self.size(ty), self.cval(v)))

    # ---- code generation ------------------------------------------------
    def compile(self, fn):
        if fn.compiled:
            return fn
        if fn.decl:
            raise Unsupported("call of external function " + fn.name)
        CG(self, fn).run()
        fn.compiled = True
        return fn

class UndefT:
    __slots__ = ()
    def __repr__(self): return "UNDEF"
    def __bool__(self): raise Unsupported("undef used as bool")
UNDEF = UndefT()

BIN = {8: "add", 10: "sub", 12: "mul", 14: "udiv", 15: "sdiv", 17: "urem", 18: "srem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and_", 24: "or_", 25: "xor"}
FBIN = {9: "fadd", 11: "fsub", 13: "fmul", 16: "fdiv", 19: "frem"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}

class CG:
    def __init__(self, mod, fn):
        self.mod, self.fn = mod, fn
        self.reg = {}
        self.consts = {}
        self.lines = []

    def ty(self, t):
        k = TKind(t)
        if k == T_INT: return ("i", IntW(t))
        if k == T_PTR: return ("p", 64)
        if k == T_DOUBLE: return ("d", 64)
        if k == T_FLOAT: return ("f", 32)
        if k == T_VOID: return ("v", 0)
        if k in (T_STRUCT, T_ARRAY): return ("a", 0)
        if k == T_VEC: return ("V", 0)
        if k == T_META: return ("m", 0)
        raise Unsupported("type kind %d" % k)

    def run(self):
        fn, mod = self.fn, self.mod
        bbs = []
        b = FirstBB(fn.v)
        while b:
            bbs.append(b)
            b = NextBB(b)
        self.bbi = {b: i for i, b in enumerate(bbs)}
        nr = 0
        for i in range(NParams(fn.v)):
            self.reg[Param(fn.v, i)] = nr
            nr += 1
        self.nparams = nr
        self.instrs = {}
        self.home = {}
        self.local = {}
        ninstr = 0
        for b in bbs:
            li = []
            i = FirstI(b)
            while i:
                li.append(i)
                self.reg[i] = nr
                self.home[i] = b
                nr += 1
                i = NextI(i)
            ninstr += len(li)
            self.instrs[b] = li
        # which values are needed outside of their block (or by a phi)
        self.glob = set()
        for b in bbs:
            for i in self.instrs[b]:
                u = FirstUse(i)
                while u:
                    us = User(u)
                    if self.home.get(us) != b or Opcode(us) == 44:
                        self.glob.add(i)
                        break
                    u = NextUse(u)
        fn.nregs = nr + 1
        fn.ninstr = ninstr
        fn.nblocks = len(bbs)
        self.allocas = []
        for b in bbs:
            self.block(b)
        src = "\n".join(self.lines)
        from . import exec as X
        g = dict(X.GENV)
        g.update(self.consts)
        g["UNDEF"] = UNDEF
        g["FN"] = fn
        try:
            code = compile(src, "<%s>" % fn.name, "exec")
        except SyntaxError:
            open("/tmp/bad.py", "w").write(src)
            raise
        exec(code, g)
        fn.src = src
        fn.entry = g["b0"]

    # operands ------------------------------------------------------------
    def cname(self, val):
        n = "K%d" % len(self.consts)
        self.consts[n] = val
        return n

    def v(self, o):
        """python expression for operand o inside the current block"""
        k = VKind(o)
        if k == VK_INST:
            if self.home.get(o) == self.cur and o in self.done:
                return "v%d" % self.reg[o]
            return "R[%d]" % self.reg[o]
        if k == VK_ARG:
            return "R[%d]" % self.reg[o]
        c = self.mod.cval(o)
        if type(c) is int:
            return repr(c)
        if c is UNDEF:
            return "UNDEF"
        return self.cname(c)

    def goto(self, dst, indent="    "):
        """phi moves of the edge cur->dst and return of the next block"""
        moves = []
        for i in self.instrs[dst]:
            if Opcode(i) != 44:
                break
            for j in range(NInc(i)):
                if IncB(i, j) == self.cur:
                    moves.append((self.reg[i], self.v(IncV(i, j))))
                    break
        out = []
        if len(moves) == 1:
            out.append("%sR[%d] = %s" % (indent, moves[0][0], moves[0][1]))
        elif moves:
            out.append("%s%s = %s" % (indent, ", ".join("R[%d]" % m[0] for m in moves), ", ".join(m[1] for m in moves)))
        out.append("%sreturn b%d" % (indent, self.bbi[dst]))
        return out

    def block(self, b):
        self.cur = b
        self.done = set()
        ix = self.bbi[b]
        w = self.lines.append
        w("def b%d(R, S):" % ix)
        ins = self.instrs[b]
        w("    S.steps += %d; FN.covered.add(%d)" % (len(ins), ix))
        for i in ins:
            self.instr(i)

    def setv(self, i, expr):
        n = self.reg[i]
        if i in self.glob:
            self.lines.append("    v%d = R[%d] = %s" % (n, n, expr))
        else:
            self.lines.append("    v%d = %s" % (n, expr))
        self.done.add(i)

    def instr(self, i):
        o = Opcode(i)
        w = self.lines.append
        mod = self.mod
        if o == 44:
            return
        t = self.ty(TypeOf(i))
        n = self.reg[i]
        if o in BIN:
            a, b = self.v(Op(i, 0)), self.v(Op(i, 1))
            W = t[1]
            if t[0] == "V": raise Unsupported("vector arithmetic")
            m = mask(W)
            nm = BIN[o]
            fast = {"add": "(a + b) & %d" % m, "sub": "(a - b) & %d" % m, "mul": "(a * b) & %d" % m, "and_": "a & b", "or_": "a | b", "xor": "a ^ b"}.get(nm)
            if fast:
                w("    a = %s; b = %s" % (a, b))
                w("    if type(a) is int and type(b) is int: v%d = %s" % (n, fast))
                w("    else: v%d = S.%s(a, b, %d)" % (n, nm, W))
                if i in self.glob: w("    R[%d] = v%d" % (n, n))
                self.done.add(i)
            else:
                self.setv(i, "S.%s(%s, %s, %d)" % (nm, a, b, W))
        elif o in FBIN:
            if t[0] == "V": raise Unsupported("vector arithmetic")
            e = "%s(%s, %s)" % (FBIN[o], self.v(Op(i, 0)), self.v(Op(i, 1)))
            self.setv(i, e if t[0] == "d" else "f32(%s)" % e)
        elif o == 66:
            self.setv(i, "fneg(%s)" % self.v(Op(i, 0)))
        elif o == 42:
            a, b = self.v(Op(i, 0)), self.v(Op(i, 1))
            p = IPRED[ICmpP(i)]
            ot = self.ty(TypeOf(Op(i, 0)))
            W = ot[1]
            py = {"eq": "a == b", "ne": "a != b", "ugt": "a > b", "uge": "a >= b", "ult": "a < b", "ule": "a <= b"}.get(p)
            if py is None:
                sg = 1 << (W - 1)
                py = {"sgt": "(a ^ %d) > (b ^ %d)", "sge": "(a ^ %d) >= (b ^ %d)", "slt": "(a ^ %d) < (b ^ %d)", "sle": "(a ^ %d) <= (b ^ %d)"}[p] % (sg, sg)
            w("    a = %s; b = %s" % (a, b))
            w("    if type(a) is int and type(b) is int: v%d = 1 if %s else 0" % (n, py))
            w("    else: v%d = S.icmp(%r, a, b, %d)" % (n, p, W))
            if i in self.glob: w("    R[%d] = v%d" % (n, n))
            self.done.add(i)
        elif o == 43:
            self.setv(i, "S.fcmp(%d, %s, %s)" % (FCmpP(i), self.v(Op(i, 0)), self.v(Op(i, 1))))
        elif o == 26:
            sz = mod.size(AllocTy(i))
            cnt = self.v(Op(i, 0))
            self.setv(i, "S.alloca(%d, %s, R)" % (sz, cnt))
        elif o == 27:
            if t[0] in "aV": raise Unsupported("aggregate load")
            self.setv(i, "S.%s(%s, %d, %r)" % ("aload" if Ordering(i) else "load", self.v(Op(i, 0)), mod.size(TypeOf(i)), t[0] + ("1" if t == ("i", 1) else "")))
        elif o == 28:
            vo = Op(i, 0)
            vt = self.ty(TypeOf(vo))
            if vt[0] in "aV": raise Unsupported("aggregate store")
            w("    S.%s(%s, %d, %s)" % ("astore" if Ordering(i) else "store", self.v(Op(i, 1)), mod.size(TypeOf(vo)), self.v(vo)))
        elif o == 29:
            if t[0] == "V": raise Unsupported("vector gep")
            off, dyn = mod.gep_off(i)
            base = self.v(Op(i, 0))
            if not dyn:
                w("    a = %s" % base)
                w("    v%d = (a + %d) & 0xffffffffffffffff if type(a) is int else S.add(a, %d, 64)" % (n, off, off & mask(64)))
            else:
                names = []
                w("    a = %s" % base)
                for j, (oo, sc) in enumerate(dyn):
                    w("    i%d = %s" % (j, self.v(oo)))
                conc = " and ".join(["type(a) is int"] + ["type(i%d) is int" % j for j in range(len(dyn))])
                parts = []
                for j, (oo, sc) in enumerate(dyn):
                    W = IntW(TypeOf(oo))
                    if W == 64:
                        parts.append("i%d * %d" % (j, sc))     # wraps mod 2^64
                    else:
                        parts.append("((i%d ^ %d) - %d) * %d" % (j, 1 << (W - 1), 1 << (W - 1), sc))
                w("    if %s: v%d = (a + %s + %d) & 0xffffffffffffffff" % (conc, n, " + ".join(parts), off))
                w("    else: v%d = S.gep(a, %d, [%s])" % (n, off, ", ".join("(i%d, %d, %d)" % (j, IntW(TypeOf(oo)), sc) for j, (oo, sc) in enumerate(dyn))))
            if i in self.glob: w("    R[%d] = v%d" % (n, n))
            self.done.add(i)
        elif o in (30, 31, 32):
            if t[0] == "V": raise Unsupported("vector cast")
            a = self.v(Op(i, 0))
            fw = IntW(TypeOf(Op(i, 0)))
            tw = t[1]
            w("    a = %s" % a)
            if o == 30: fast = "a & %d" % mask(tw)
            elif o == 31: fast = "a"
            else: fast = "((a ^ %d) - %d) & %d" % (1 << (fw - 1), 1 << (fw - 1), mask(tw))
            w("    v%d = %s if type(a) is int else S.%s(a, %d, %d)" % (n, fast, {30: "trunc", 31: "zext", 32: "sext"}[o], fw, tw))
            if i in self.glob: w("    R[%d] = v%d" % (n, n))
            self.done.add(i)
        elif o in (35, 36):
            fw = IntW(TypeOf(Op(i, 0)))
            e = "S.itofp(%s, %d, %d)" % (self.v(Op(i, 0)), fw, o == 36)
            self.setv(i, e if t[0] == "d" else "f32(%s)" % e)
        elif o in (33, 34):
            self.setv(i, "S.fptoi(%s, %d, %d)" % (self.v(Op(i, 0)), t[1], o == 34))
        elif o == 37:
            self.setv(i, "f32(%s)" % self.v(Op(i, 0)))
        elif o in (38, 39, 40, 68, 41):
            if o == 41 and t[0] != self.ty(TypeOf(Op(i, 0)))[0]:
                self.setv(i, "S.bitcast(%s, %r)" % (self.v(Op(i, 0)), t[0]))
            else:
                self.setv(i, self.v(Op(i, 0)))
        elif o == 46:
            c, a, b = (self.v(Op(i, j)) for j in range(3))
            w("    c = %s" % c)
            w("    v%d = (%s if c else %s) if type(c) is int else S.select(c, %s, %s, %r, %d)" % (n, a, b, a, b, t[0], t[1]))
            if i in self.glob: w("    R[%d] = v%d" % (n, n))
            self.done.add(i)
        elif o in (45, 5):
            self.call(i, o, t, n)
        elif o == 1:
            if NOps(i):
                w("    R[-1] = %s" % self.v(Op(i, 0)))
            else:
                w("    R[-1] = None")
            w("    return None")
        elif o == 2:
            if IsCond(i):
                w("    c = %s" % self.v(Cond(i)))
                w("    if (c if type(c) is int else S.decide(c)):")
                for l in self.goto(Succ(i, 0), "        "): w(l)
                for l in self.goto(Succ(i, 1)): w(l)
            else:
                for l in self.goto(Succ(i, 0)): w(l)
        elif o == 3:
            W = IntW(TypeOf(Op(i, 0)))
            w("    a = %s" % self.v(Op(i, 0)))
            cases = []
            for j in range(2, NOps(i), 2):
                cases.append((CIz(Op(i, j)) & mask(W), Op(i, j + 1)))
            w("    if type(a) is not int: a = S.switch(a, %d, %r)" % (W, tuple(c for c, _ in cases)))
            for c, dst in cases:
                w("    if a == %d:" % c)
                for l in self.goto(dst, "        "): w(l)
            for l in self.goto(SwDef(i)): w(l)
        elif o == 7:
            w("    S.unreachable(FN.name)")
        elif o == 53:
            ix = Idx(i)
            e = self.v(Op(i, 0))
            for j in range(NIdx(i)): e += "[%d]" % ix[j]
            self.setv(i, e)
        elif o == 54:
            ix = Idx(i)
            assert NIdx(i) == 1
            self.setv(i, "insv(%s, %d, %s, %d)" % (self.v(Op(i, 0)), ix[0], self.v(Op(i, 1)),
                      StructN(TypeOf(i)) if TKind(TypeOf(i)) == T_STRUCT else ArrLen(TypeOf(i))))
        elif o == 59:
            cl = []
            for j in range(NClauses(i)):
                c = Clause(i, j)
                if TKind(TypeOf(c)) == T_ARRAY:
                    cl.append(("filter", 0))
                else:
                    cl.append(("catch", mod.cval(c)))
            self.setv(i, "S.landing(%r, %d)" % (tuple(cl), IsCleanup(i)))
        elif o == 58:
            w("    S.resume(%s)" % self.v(Op(i, 0)))
        elif o == 55:
            w("    S.fence()")
        elif o == 57:
            self.setv(i, "S.atomicrmw(%d, %s, %s, %d)" % (AtomOp(i), self.v(Op(i, 0)), self.v(Op(i, 1)), mod.size(TypeOf(i))))
        elif o == 56:
            self.setv(i, "S.cmpxchg(%s, %s, %s, %d)" % (self.v(Op(i, 0)), self.v(Op(i, 1)), self.v(Op(i, 2)), mod.size(TypeOf(Op(i, 1)))))
        else:
            raise Unsupported("opcode %d in %s" % (o, self.fn.name))

    def call(self, i, o, t, n):
        w = self.lines.append
        mod = self.mod
        cv = Called(i)
        na = NArgs(i)
        ind = "    "
        args = []
        for j in range(na):
            a = Op(i, j)
            if TKind(TypeOf(a)) == T_META or VKind(a) in (22,):
                args.append("None")
            else:
                args.append(self.v(a))
        k = VKind(cv)
        if k == VK_ALIAS:
            cv = mod.aliases[cv]; k = VKind(cv)
        expr = None
        if k == VK_FN:
            nm = name_of(cv)
            from . import exec as X
            if nm.startswith("llvm."):
                expr = X.intrinsic(self, nm, args, i, t)
                if expr is None:
                    if o == 5:
                        for l in self.goto(NormDest(i)): w(l)
                    return
            elif nm in mod.overrides or (mod.fns[nm].decl):
                expr = "S.ext(%r, %s%s)" % (nm, ", ".join(args), "," if args else "") if False else "S.ext(%r, (%s))" % (nm, "".join(a + ", " for a in args))
            else:
                fnn = self.cname(mod.fns[nm])
                expr = "S.call(%s, (%s))" % (fnn, "".join(a + ", " for a in args))
        elif k == 23:
            expr = "S.asm(%r)" % (self.fn.name,)
        else:
            expr = "S.icall(%s, (%s))" % (self.v(cv), "".join(a + ", " for a in args))
        if o == 5:
            w("    try:")
            w("        v%d = %s" % (n, expr))
            w("    except CxxThrow as e:")
            w("        S.exc = e")
            for l in self.goto(UnwDest(i), "        "): w(l)
            if t[0] != "v":
                w("    R[%d] = v%d" % (n, n))
                self.done.add(i)
            for l in self.goto(NormDest(i)): w(l)
        else:
            if t[0] == "v":
                w("    " + expr)
            else:
                self.setv(i, expr)
