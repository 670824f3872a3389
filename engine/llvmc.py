"""Loads LLVM bitcode through the LLVM-C API (ctypes) and translates functions lazily
into small Python structures for the abstract interpreter."""
import ctypes as C
import os
from values import P, Fn, F, Agg, UNDEF, Term

_LIBS = ['/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so.1',
         '/usr/lib/x86_64-linux-gnu/libLLVM-18.so', 'libLLVM-18.so', 'libLLVM.so.18.1']
L = None
for _p in _LIBS:
    try:
        L = C.CDLL(_p)
        break
    except OSError:
        continue
if L is None:
    raise RuntimeError('libLLVM 18 not found')

vp = C.c_void_p


def _d(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _d('LLVMContextCreate', vp)
MemBuf = _d('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(vp), C.POINTER(C.c_char_p))
ParseBC = _d('LLVMParseBitcodeInContext2', C.c_int, vp, vp, C.POINTER(vp))
FirstFn = _d('LLVMGetFirstFunction', vp, vp)
NextFn = _d('LLVMGetNextFunction', vp, vp)
NamedFn = _d('LLVMGetNamedFunction', vp, vp, C.c_char_p)
FirstGl = _d('LLVMGetFirstGlobal', vp, vp)
NextGl = _d('LLVMGetNextGlobal', vp, vp)
FirstAl = _d('LLVMGetFirstGlobalAlias', vp, vp)
NextAl = _d('LLVMGetNextGlobalAlias', vp, vp)
Aliasee = _d('LLVMAliasGetAliasee', vp, vp)
Name2 = _d('LLVMGetValueName2', C.c_char_p, vp, C.POINTER(C.c_size_t))
CountBB = _d('LLVMCountBasicBlocks', C.c_uint, vp)
GetBBs = _d('LLVMGetBasicBlocks', None, vp, C.POINTER(vp))
FirstI = _d('LLVMGetFirstInstruction', vp, vp)
NextI = _d('LLVMGetNextInstruction', vp, vp)
Opcode = _d('LLVMGetInstructionOpcode', C.c_int, vp)
NumOps = _d('LLVMGetNumOperands', C.c_int, vp)
Op = _d('LLVMGetOperand', vp, vp, C.c_uint)
TypeOf = _d('LLVMTypeOf', vp, vp)
TypeKind = _d('LLVMGetTypeKind', C.c_int, vp)
IntWidth = _d('LLVMGetIntTypeWidth', C.c_uint, vp)
ICmpPred = _d('LLVMGetICmpPredicate', C.c_int, vp)
FCmpPred = _d('LLVMGetFCmpPredicate', C.c_int, vp)
CalledValue = _d('LLVMGetCalledValue', vp, vp)
CalledFnTy = _d('LLVMGetCalledFunctionType', vp, vp)
NumArgs = _d('LLVMGetNumArgOperands', C.c_uint, vp)
NormalDest = _d('LLVMGetNormalDest', vp, vp)
UnwindDest = _d('LLVMGetUnwindDest', vp, vp)
NumSucc = _d('LLVMGetNumSuccessors', C.c_uint, vp)
Succ = _d('LLVMGetSuccessor', vp, vp, C.c_uint)
IsCond = _d('LLVMIsConditional', C.c_int, vp)
Condition = _d('LLVMGetCondition', vp, vp)
CountInc = _d('LLVMCountIncoming', C.c_uint, vp)
IncVal = _d('LLVMGetIncomingValue', vp, vp, C.c_uint)
IncBB = _d('LLVMGetIncomingBlock', vp, vp, C.c_uint)
GEPTy = _d('LLVMGetGEPSourceElementType', vp, vp)
AllocTy = _d('LLVMGetAllocatedType', vp, vp)
GlobalTy = _d('LLVMGlobalGetValueType', vp, vp)
DataLayout = _d('LLVMGetModuleDataLayout', vp, vp)
ABISize = _d('LLVMABISizeOfType', C.c_ulonglong, vp, vp)
OffsetOf = _d('LLVMOffsetOfElement', C.c_ulonglong, vp, vp, C.c_uint)
StructElt = _d('LLVMStructGetTypeAtIndex', vp, vp, C.c_uint)
NStructElt = _d('LLVMCountStructElementTypes', C.c_uint, vp)
EltTy = _d('LLVMGetElementType', vp, vp)
ArrLen = _d('LLVMGetArrayLength2', C.c_ulonglong, vp)
GetIndices = _d('LLVMGetIndices', C.POINTER(C.c_uint), vp)
NumIndices = _d('LLVMGetNumIndices', C.c_uint, vp)
IsCleanup = _d('LLVMIsCleanup', C.c_int, vp)
NumClauses = _d('LLVMGetNumClauses', C.c_uint, vp)
Clause = _d('LLVMGetClause', vp, vp, C.c_uint)
Ordering = _d('LLVMGetOrdering', C.c_int, vp)
Alignment = _d('LLVMGetAlignment', C.c_uint, vp)
RMWOp = _d('LLVMGetAtomicRMWBinOp', C.c_int, vp)
CASSucc = _d('LLVMGetCmpXchgSuccessOrdering', C.c_int, vp)
DbgLine = _d('LLVMGetDebugLocLine', C.c_uint, vp)
DbgFile = _d('LLVMGetDebugLocFilename', C.c_char_p, vp, C.POINTER(C.c_uint))
ValueKind = _d('LLVMGetValueKind', C.c_int, vp)
ConstZ = _d('LLVMConstIntGetZExtValue', C.c_ulonglong, vp)
ConstReal = _d('LLVMConstRealGetDouble', C.c_double, vp, C.POINTER(C.c_int))
GetInit = _d('LLVMGetInitializer', vp, vp)
AggElt = _d('LLVMGetAggregateElement', vp, vp, C.c_uint)
ConstOpcode = _d('LLVMGetConstOpcode', C.c_int, vp)
IsDecl = _d('LLVMIsDeclaration', C.c_int, vp)
IsConstGl = _d('LLVMIsGlobalConstant', C.c_int, vp)
NumParams = _d('LLVMCountParams', C.c_uint, vp)
Param = _d('LLVMGetParam', vp, vp, C.c_uint)
AttrKind = _d('LLVMGetEnumAttributeKindForName', C.c_uint, C.c_char_p, C.c_size_t)
CallAttr = _d('LLVMGetCallSiteEnumAttribute', vp, vp, C.c_uint, C.c_uint)
FnAttr = _d('LLVMGetEnumAttributeAtIndex', vp, vp, C.c_uint, C.c_uint)
TypeAttr = _d('LLVMGetTypeAttributeValue', vp, vp)
BBAsVal = _d('LLVMBasicBlockAsValue', vp, vp)
ValAsBB = _d('LLVMValueAsBasicBlock', vp, vp)
RetTy = _d('LLVMGetReturnType', vp, vp)

# opcodes of the C API
OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem',
       19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FPRED = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
         10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax', 10: 'umin'}
ORD = {0: None, 1: 'unordered', 2: 'relaxed', 4: 'acquire', 5: 'release', 6: 'acq_rel', 7: 'seq_cst'}
# value kinds
VK_Arg, VK_BB, VK_Fn, VK_Alias, VK_GVar = 0, 1, 5, 6, 8

TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 7: 'label', 8: 'int', 9: 'func',
      10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'meta', 16: 'token'}


class Con:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Con(%r)' % (self.v,)


class Instr:
    __slots__ = ('op', 'd', 'a', 'x', 'loc', 'w')

    def __init__(self, op, d, a, x=None, w=None, loc=None):
        self.op, self.d, self.a, self.x, self.w, self.loc = op, d, a, x, w, loc

    def __repr__(self):
        return '%%%s=%s %r %r' % (self.d, self.op, self.a, self.x)


class Block:
    __slots__ = ('phis', 'ins', 'succ', 'header', 'livein', 'liveat')


class Func:
    __slots__ = ('name', 'dname', 'params', 'byval', 'blocks', 'nv', 'decl', 'sret', 'uses')


_cxa = C.CDLL('libstdc++.so.6').__cxa_demangle
_cxa.restype = vp
_cxa.argtypes = [C.c_char_p, vp, vp, C.POINTER(C.c_int)]
_free = C.CDLL(None).free
_free.argtypes = [vp]
_dem = {}


def demangle(n):
    r = _dem.get(n)
    if r is None:
        st = C.c_int()
        p = _cxa(n.encode(), None, None, C.byref(st))
        if p:
            r = C.string_at(p).decode()
            _free(p)
        else:
            r = n
        _dem[n] = r
    return r


def vname(v):
    n = C.c_size_t()
    s = Name2(v, C.byref(n))
    return s.decode() if s else ''


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = vp()
        msg = C.c_char_p()
        if MemBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError('cannot read ' + path)
        m = vp()
        if ParseBC(self.ctx, buf, C.byref(m)):
            raise RuntimeError('cannot parse ' + path)
        self.m = m
        self.dl = DataLayout(m)
        self.fv = {}
        f = FirstFn(m)
        while f:
            self.fv[vname(f)] = f
            f = NextFn(f)
        self.gv = {}
        g = FirstGl(m)
        while g:
            self.gv[vname(g)] = g
            g = NextGl(g)
        self.alias = {}
        a = FirstAl(m)
        while a:
            self.alias[vname(a)] = Aliasee(a)
            a = NextAl(a)
        self.funcs = {}
        self.tyc = {}
        self.k_byval = AttrKind(b'byval', 5)

    # ---- types: ('int', w) ('ptr',) ('struct', [(off, ty)], size) ('array', n, ty, esz) ('float', w) ('vector',..)
    def ty(self, t):
        r = self.tyc.get(t)
        if r is not None:
            return r
        k = TK.get(TypeKind(t))
        if k == 'int':
            r = ('int', IntWidth(t))
        elif k == 'ptr':
            r = ('ptr', 64)
        elif k in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
            r = ('fp', {'half': 16, 'float': 32, 'double': 64}.get(k, 128))
        elif k == 'struct':
            n = NStructElt(t)
            r = ('struct', [(OffsetOf(self.dl, t, i), self.ty(StructElt(t, i))) for i in range(n)], ABISize(self.dl, t))
        elif k in ('array', 'vector'):
            e = EltTy(t)
            n = ArrLen(t) if k == 'array' else 0
            r = (k, n, self.ty(e), ABISize(self.dl, e))
        elif k == 'void':
            r = ('void',)
        else:
            r = (k or 'other',)
        self.tyc[t] = r
        return r

    def size(self, t):
        return ABISize(self.dl, t)

    # ---- constants
    def const(self, v):
        k = ValueKind(v)
        if k == VK_Fn:
            return Fn(vname(v))
        if k == VK_GVar:
            return P('@' + vname(v), 0)
        if k == VK_Alias:
            return self.const(Aliasee(v))
        t = TypeOf(v)
        ty = self.ty(t)
        tk = ty[0]
        # value kinds by C API: 11 UndefValue ... use predicates
        if IsUndefOrPoison(v):
            return self.undef_of(ty)
        if tk == 'int':
            if IsConstInt(v):
                return ConstZ(v) & ((1 << ty[1]) - 1)
        if tk == 'fp':
            lo = C.c_int()
            return F(ConstReal(v, C.byref(lo)))
        if tk == 'ptr' and IsNull(v):
            return 0
        if tk in ('struct', 'array'):
            n = len(ty[1]) if tk == 'struct' else ty[1]
            return Agg(self.const(AggElt(v, i)) for i in range(n))
        if IsConstExpr(v):
            op = OPC.get(ConstOpcode(v))
            if op == 'gep':
                off = self.const_gep(v)
                b = self.const(Op(v, 0))
                if type(b) is P:
                    return P(b.o, b.f + off)
                return Term('constgep', (repr(b), off))
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.const(Op(v, 0))
            if op in ('sub', 'add'):
                a, b = self.const(Op(v, 0)), self.const(Op(v, 1))
                if type(a) is int and type(b) is int:
                    return (a + b if op == 'add' else a - b) & ((1 << ty[1]) - 1)
            return Term('constexpr', (op or '?', ConstOpcode(v)))
        return Term('const', (k, str(tk)))

    def undef_of(self, ty):
        if ty[0] == 'struct':
            return Agg(self.undef_of(t) for _, t in ty[1])
        if ty[0] == 'array':
            return Agg(self.undef_of(ty[2]) for _ in range(ty[1]))
        return UNDEF

    def const_gep(self, v):
        t = GEPTy(v)
        n = NumOps(v)
        off = 0
        first = True
        for i in range(1, n):
            idx = Op(v, i)
            w = self.ty(TypeOf(idx))[1]
            c = ConstZ(idx)
            if c >= 1 << (w - 1):
                c -= 1 << w
            if c >= 1 << 63:
                c -= 1 << 64
            if first:
                off += c * self.size(t)
                first = False
                continue
            kd = TK[TypeKind(t)]
            if kd == 'struct':
                off += OffsetOf(self.dl, t, c)
                t = StructElt(t, c)
            else:
                t = EltTy(t)
                off += c * self.size(t)
        return off

    def global_init(self, name):
        """returns (size, list of (off,size,value)) or None for a declaration"""
        g = self.gv.get(name)
        if g is None:
            return None
        t = GlobalTy(g)
        size = self.size(t) if TK[TypeKind(t)] != 'struct' or True else 0
        if IsDecl(g):
            return (None, [], False)
        out = []
        self._flat(GetInit(g), self.ty(t), 0, out)
        return (size, out, bool(IsConstGl(g)))

    def _flat(self, v, ty, off, out):
        tk = ty[0]
        if tk == 'struct':
            for i, (o, t) in enumerate(ty[1]):
                self._flat(AggElt(v, i), t, off + o, out)
        elif tk == 'array':
            if IsUndefOrPoison(v):
                return
            if ty[1] > 4096:
                return
            for i in range(ty[1]):
                self._flat(AggElt(v, i), ty[2], off + i * ty[3], out)
        else:
            c = self.const(v)
            if c is UNDEF:
                return
            out.append((off, max(1, (ty[1] if len(ty) > 1 else 64) // 8), c))

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            fv = self.fv.get(name)
            if fv is None:
                return None
            f = self._build(name, fv)
            self.funcs[name] = f
        return f

    def _build(self, name, fv):
        f = Func()
        f.name = name
        f.dname = demangle(name)
        f.decl = bool(IsDecl(fv))
        f.blocks = []
        vid = {}
        n = NumParams(fv)
        f.params = []
        f.byval = {}
        for i in range(n):
            p = Param(fv, i)
            vid[p] = i
            f.params.append(i)
            at = FnAttr(fv, i + 1, self.k_byval)
            if at:
                f.byval[i] = self.size(TypeAttr(at))
        nv = n
        if f.decl:
            f.nv = nv
            return f
        nb = CountBB(fv)
        arr = (vp * nb)()
        GetBBs(fv, arr)
        bbid = {arr[i]: i for i in range(nb)}
        raw = []
        for i in range(nb):
            lst = []
            ins = FirstI(arr[i])
            while ins:
                opn = Opcode(ins)
                lst.append((ins, opn))
                if TK.get(TypeKind(TypeOf(ins))) != 'void':
                    vid[ins] = nv
                    nv += 1
                ins = NextI(ins)
            raw.append(lst)
        f.nv = nv

        def operand(v):
            i = vid.get(v)
            if i is not None:
                return i
            return Con(self.const(v))

        for i in range(nb):
            b = Block()
            b.phis = []
            b.ins = []
            b.succ = []
            b.header = False
            for ins, opn in raw[i]:
                op = OPC.get(opn)
                d = vid.get(ins, -1)
                loc = None
                if op in ('call', 'invoke', 'load', 'store', 'br', 'ret', 'atomicrmw', 'cmpxchg', 'unreachable', 'icmp', 'switch', 'gep', 'resume'):
                    ln = DbgLine(ins)
                    if ln:
                        nn = C.c_uint()
                        fn = DbgFile(ins, C.byref(nn))
                        loc = (fn[:nn.value].decode() if fn else '?', ln)
                if op == 'phi':
                    m = {}
                    for j in range(CountInc(ins)):
                        m[bbid[IncBB(ins, j)]] = operand(IncVal(ins, j))
                    b.phis.append((d, m))
                elif op in ('call', 'invoke'):
                    na = NumArgs(ins)
                    cv = CalledValue(ins)
                    args = []
                    skip = False
                    for j in range(na):
                        ov = Op(ins, j)
                        if TK.get(TypeKind(TypeOf(ov))) == 'meta':
                            skip = True
                            break
                        args.append(operand(ov))
                    if skip:
                        continue
                    if ValueKind(cv) == 25 or IsInlineAsm(cv):
                        callee = Con(Term('asm', ()))
                    else:
                        callee = operand(cv)
                    bv = {}
                    for j in range(na):
                        at = CallAttr(ins, j + 1, self.k_byval)
                        if at:
                            bv[j] = self.size(TypeAttr(at))
                    rt = self.ty(TypeOf(ins))
                    x = (callee, bv, rt)
                    if op == 'invoke':
                        nd, ud = bbid[NormalDest(ins)], bbid[UnwindDest(ins)]
                        b.succ += [nd, ud]
                        x = (callee, bv, rt, nd, ud)
                    b.ins.append(Instr(op, d, args, x, None, loc))
                elif op == 'br':
                    ns = NumSucc(ins)
                    ss = [bbid[Succ(ins, j)] for j in range(ns)]
                    b.succ += ss
                    if IsCond(ins):
                        b.ins.append(Instr('condbr', -1, [operand(Condition(ins))], ss, None, loc))
                    else:
                        b.ins.append(Instr('br', -1, [], ss, None, loc))
                elif op == 'switch':
                    no = NumOps(ins)
                    cases = []
                    for j in range(2, no, 2):
                        cases.append((self.const(Op(ins, j)), bbid[ValAsBB(Op(ins, j + 1))]))
                    df = bbid[ValAsBB(Op(ins, 1))]
                    b.succ += [df] + [c[1] for c in cases]
                    b.ins.append(Instr('switch', -1, [operand(Op(ins, 0))], (df, cases), None, loc))
                elif op == 'ret':
                    no = NumOps(ins)
                    b.ins.append(Instr('ret', -1, [operand(Op(ins, 0))] if no else [], None, None, loc))
                elif op == 'alloca':
                    t = AllocTy(ins)
                    b.ins.append(Instr('alloca', d, [operand(Op(ins, 0))], self.size(t), None, loc))
                elif op == 'load':
                    ty = self.ty(TypeOf(ins))
                    b.ins.append(Instr('load', d, [operand(Op(ins, 0))], (ty, ORD.get(Ordering(ins))), Alignment(ins), loc))
                elif op == 'store':
                    ty = self.ty(TypeOf(Op(ins, 0)))
                    b.ins.append(Instr('store', -1, [operand(Op(ins, 0)), operand(Op(ins, 1))], (ty, ORD.get(Ordering(ins))), Alignment(ins), loc))
                elif op == 'gep':
                    t = GEPTy(ins)
                    no = NumOps(ins)
                    off = 0
                    dyn = []
                    first = True
                    for j in range(1, no):
                        idx = Op(ins, j)
                        w = self.ty(TypeOf(idx))[1]
                        isc = IsConstInt(idx)
                        if isc:
                            c = ConstZ(idx) & ((1 << w) - 1)
                            if c >= 1 << (w - 1):
                                c -= 1 << w
                        if first:
                            first = False
                            sz = self.size(t)
                            if isc:
                                off += c * sz
                            else:
                                dyn.append((operand(idx), sz, w))
                            continue
                        if TK[TypeKind(t)] == 'struct':
                            off += OffsetOf(self.dl, t, c)
                            t = StructElt(t, c)
                        else:
                            t = EltTy(t)
                            sz = self.size(t)
                            if isc:
                                off += c * sz
                            else:
                                dyn.append((operand(idx), sz, w))
                    b.ins.append(Instr('gep', d, [operand(Op(ins, 0))], (off, dyn), None, loc))
                elif op == 'icmp':
                    ty = self.ty(TypeOf(Op(ins, 0)))
                    b.ins.append(Instr('icmp', d, [operand(Op(ins, 0)), operand(Op(ins, 1))], PRED[ICmpPred(ins)], ty[1] if ty[0] in ('int', 'ptr') else 64, loc))
                elif op == 'fcmp':
                    b.ins.append(Instr('fcmp', d, [operand(Op(ins, 0)), operand(Op(ins, 1))], FPRED[FCmpPred(ins)], None, loc))
                elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
                    ty = self.ty(TypeOf(ins))
                    b.ins.append(Instr('bin', d, [operand(Op(ins, 0)), operand(Op(ins, 1))], op, ty[1], loc))
                elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
                    b.ins.append(Instr('fbin', d, [operand(Op(ins, j)) for j in range(NumOps(ins))], op, self.ty(TypeOf(ins))[1], loc))
                elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'freeze'):
                    st = self.ty(TypeOf(Op(ins, 0)))
                    dt = self.ty(TypeOf(ins))
                    b.ins.append(Instr('cast', d, [operand(Op(ins, 0))], (op, st, dt), None, loc))
                elif op == 'select':
                    b.ins.append(Instr('select', d, [operand(Op(ins, j)) for j in range(3)], None, None, loc))
                elif op == 'extractvalue':
                    ix = GetIndices(ins)
                    b.ins.append(Instr('extractvalue', d, [operand(Op(ins, 0))], [ix[j] for j in range(NumIndices(ins))], None, loc))
                elif op == 'insertvalue':
                    ix = GetIndices(ins)
                    b.ins.append(Instr('insertvalue', d, [operand(Op(ins, 0)), operand(Op(ins, 1))], [ix[j] for j in range(NumIndices(ins))], None, loc))
                elif op == 'landingpad':
                    cl = []
                    for j in range(NumClauses(ins)):
                        c = Clause(ins, j)
                        cl.append(self.const(c))
                    b.ins.append(Instr('landingpad', d, [], (bool(IsCleanup(ins)), cl), None, loc))
                elif op == 'resume':
                    b.ins.append(Instr('resume', -1, [operand(Op(ins, 0))], None, None, loc))
                elif op == 'atomicrmw':
                    ty = self.ty(TypeOf(ins))
                    b.ins.append(Instr('atomicrmw', d, [operand(Op(ins, 0)), operand(Op(ins, 1))], (RMW.get(RMWOp(ins), '?'), ty, ORD.get(Ordering(ins))), None, loc))
                elif op == 'cmpxchg':
                    ty = self.ty(TypeOf(Op(ins, 1)))
                    b.ins.append(Instr('cmpxchg', d, [operand(Op(ins, 0)), operand(Op(ins, 1)), operand(Op(ins, 2))], (ty, ORD.get(CASSucc(ins))), None, loc))
                elif op == 'unreachable':
                    b.ins.append(Instr('unreachable', -1, [], None, None, loc))
                elif op == 'fence':
                    b.ins.append(Instr('fence', -1, [], ORD.get(Ordering(ins)), None, loc))
                else:
                    b.ins.append(Instr('unsupported', d, [], op or opn, None, loc))
            f.blocks.append(b)
        self._loops(f)
        self._live(f)
        return f

    @staticmethod
    def _loops(f):
        color = [0] * len(f.blocks)
        st = [(0, iter(f.blocks[0].succ))]
        color[0] = 1
        while st:
            n, it = st[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    st.append((s, iter(f.blocks[s].succ)))
                    break
                if color[s] == 1:
                    f.blocks[s].header = True
            else:
                color[n] = 2
                st.pop()

    @staticmethod
    def _live(f):
        nb = len(f.blocks)
        use, df, phiuse = [], [], []
        for b in f.blocks:
            u, d = set(), set()
            for dst, m in b.phis:
                d.add(dst)
            for i in b.ins:
                for a in Module.iuses(i):
                    if a not in d:
                        u.add(a)
                if i.d >= 0:
                    d.add(i.d)
            use.append(u)
            df.append(d)
        livein = [set() for _ in range(nb)]
        pred_phi = [dict() for _ in range(nb)]   # block -> succ -> set(values used by succ's phis from block)
        for si, b in enumerate(f.blocks):
            for dst, m in b.phis:
                for pb, o in m.items():
                    if type(o) is int:
                        pred_phi[pb].setdefault(si, set()).add(o)
        ch = True
        while ch:
            ch = False
            for i in range(nb - 1, -1, -1):
                out = set()
                for s in f.blocks[i].succ:
                    out |= livein[s]
                    out |= pred_phi[i].get(s, set())
                li = use[i] | (out - df[i])
                if li != livein[i]:
                    livein[i] = li
                    ch = True
        # live-at-entry excluding phi defs (phi dests are live too if used inside)
        for i, b in enumerate(f.blocks):
            b.livein = frozenset(livein[i] | {dst for dst, _ in b.phis})
            # live after each instruction, computed lazily
            b.liveat = None
        f.uses = pred_phi
        scoped = set()
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'call' and type(i.x[0]) is Con and type(i.x[0].v) is Fn and i.x[0].v.n.startswith('llvm.lifetime.start') and type(i.a[1]) is int:
                    scoped.add(i.a[1])
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'alloca' and i.d in scoped:
                    i.w = 'scoped'

    @staticmethod
    def iuses(i):
        r = [a for a in i.a if type(a) is int]
        if i.op in ('call', 'invoke') and type(i.x[0]) is int:
            r.append(i.x[0])
        if i.op == 'gep':
            r += [o for o, _, _ in i.x[1] if type(o) is int]
        return r

    def live_after(self, f, bi, k):
        """set of SSA values live after instruction index k of block bi"""
        b = f.blocks[bi]
        if b.liveat is None:
            b.liveat = {}
        r = b.liveat.get(k)
        if r is None:
            live = set()
            for s in b.succ:
                sb = f.blocks[s]
                live |= (sb.livein - {dst for dst, _ in sb.phis})
                live |= f.uses[bi].get(s, set())
            for j in range(len(b.ins) - 1, k, -1):
                i = b.ins[j]
                live.discard(i.d)
                live.update(self.iuses(i))
            b.liveat[k] = r = frozenset(live)
        return r


_IsUndef = _d('LLVMIsUndef', C.c_int, vp)
_IsPoison = _d('LLVMIsPoison', C.c_int, vp)
_IsNull = _d('LLVMIsNull', C.c_int, vp)
_IsACI = _d('LLVMIsAConstantInt', vp, vp)
_IsACE = _d('LLVMIsAConstantExpr', vp, vp)
_IsAsm = _d('LLVMIsAInlineAsm', vp, vp)


def IsUndefOrPoison(v):
    return bool(_IsUndef(v)) or bool(_IsPoison(v))


def IsNull(v):
    return bool(_IsNull(v))


def IsConstInt(v):
    return bool(_IsACI(v))


def IsConstExpr(v):
    return bool(_IsACE(v))


def IsInlineAsm(v):
    return bool(_IsAsm(v))
