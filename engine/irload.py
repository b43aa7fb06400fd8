"""Load LLVM bitcode through libLLVM's C API (ctypes) and expose it as plain Python
objects, one function at a time (lazily).  Nothing is executed: the module is only read."""
import ctypes as C, os, re
from fractions import Fraction

_LIBS = ["/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so",
         "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so", "libLLVM.so.18.1"]


def _load():
    for p in _LIBS:
        try:
            return C.CDLL(p)
        except OSError:
            pass
    raise RuntimeError("libLLVM 18 not found")


L = _load()
V = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _f("LLVMContextCreate", V)
CreateMB = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, V, V, C.POINTER(V))
GetDL = _f("LLVMGetModuleDataLayout", V, V)
GetNamedFunction = _f("LLVMGetNamedFunction", V, V, C.c_char_p)
FirstFunction = _f("LLVMGetFirstFunction", V, V)
NextFunction = _f("LLVMGetNextFunction", V, V)
FirstGlobal = _f("LLVMGetFirstGlobal", V, V)
NextGlobal = _f("LLVMGetNextGlobal", V, V)
GetInitializer = _f("LLVMGetInitializer", V, V)
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, V)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, V)
IsThreadLocal = _f("LLVMIsThreadLocal", C.c_int, V)
GetLinkage = _f("LLVMGetLinkage", C.c_int, V)
GetValueName2 = _f("LLVMGetValueName2", C.c_char_p, V, C.POINTER(C.c_size_t))
CountParams = _f("LLVMCountParams", C.c_uint, V)
GetParam = _f("LLVMGetParam", V, V, C.c_uint)
FirstBB = _f("LLVMGetFirstBasicBlock", V, V)
NextBB = _f("LLVMGetNextBasicBlock", V, V)
FirstInst = _f("LLVMGetFirstInstruction", V, V)
NextInst = _f("LLVMGetNextInstruction", V, V)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, V)
NumOperands = _f("LLVMGetNumOperands", C.c_int, V)
GetOperand = _f("LLVMGetOperand", V, V, C.c_uint)
TypeOf = _f("LLVMTypeOf", V, V)
TypeKind = _f("LLVMGetTypeKind", C.c_int, V)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, V)
CountElems = _f("LLVMCountStructElementTypes", C.c_uint, V)
StructElem = _f("LLVMStructGetTypeAtIndex", V, V, C.c_uint)
ElemType = _f("LLVMGetElementType", V, V)
ArrayLen = _f("LLVMGetArrayLength", C.c_uint, V)
VecSize = _f("LLVMGetVectorSize", C.c_uint, V)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, V, V)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, V, V)
OffsetOfElement = _f("LLVMOffsetOfElement", C.c_ulonglong, V, V, C.c_uint)
ValueKind = _f("LLVMGetValueKind", C.c_int, V)
ConstIntZ = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, V)
ConstIntS = _f("LLVMConstIntGetSExtValue", C.c_longlong, V)
PrintVal = _f("LLVMPrintValueToString", V, V)
DisposeMessage = _f("LLVMDisposeMessage", None, V)
IsConstString = _f("LLVMIsConstantString", C.c_int, V)
GetAsString = _f("LLVMGetAsString", V, V, C.POINTER(C.c_size_t))
CDSElem = _f("LLVMGetElementAsConstant", V, V, C.c_uint)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, V)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, V)
IncomingValue = _f("LLVMGetIncomingValue", V, V, C.c_uint)
IncomingBlock = _f("LLVMGetIncomingBlock", V, V, C.c_uint)
ValueAsBB = _f("LLVMValueAsBasicBlock", V, V)
GetCalled = _f("LLVMGetCalledValue", V, V)
NumArgOps = _f("LLVMGetNumArgOperands", C.c_uint, V)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, V)
Succ = _f("LLVMGetSuccessor", V, V, C.c_uint)
NormalDest = _f("LLVMGetNormalDest", V, V)
UnwindDest = _f("LLVMGetUnwindDest", V, V)
IsCond = _f("LLVMIsConditional", C.c_int, V)
Cond = _f("LLVMGetCondition", V, V)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, V)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, V)
AllocatedType = _f("LLVMGetAllocatedType", V, V)
GEPSource = _f("LLVMGetGEPSourceElementType", V, V)
NumIndices = _f("LLVMGetNumIndices", C.c_uint, V)
Indices = _f("LLVMGetIndices", C.POINTER(C.c_uint), V)
DLine = _f("LLVMGetDebugLocLine", C.c_uint, V)
DFile = _f("LLVMGetDebugLocFilename", C.c_char_p, V, C.POINTER(C.c_uint))
SwitchDefault = _f("LLVMGetSwitchDefaultDest", V, V)
GlobalValueType = _f("LLVMGlobalGetValueType", V, V)
GetVolatile = _f("LLVMGetVolatile", C.c_int, V)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
       45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 60: 'addrspacecast', 66: 'fneg',
       68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = ['false', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'true']
TK = {0: 'void', 1: 'half', 2: 'f', 3: 'd', 4: 'l', 5: 'fp128', 6: 'ppc', 7: 'label', 8: 'int', 9: 'func', 10: 'struct',
      11: 'array', 12: 'ptr', 13: 'vec', 14: 'metadata'}
VK = {0: 'arg', 1: 'bb', 5: 'func', 6: 'galias', 8: 'gvar', 9: 'baddr', 10: 'cexpr', 11: 'carray', 12: 'cstruct',
      13: 'cvector', 14: 'undef', 15: 'zero', 16: 'cda', 17: 'cdv', 18: 'int', 19: 'fp', 20: 'null', 21: 'none',
      22: 'mdval', 23: 'asm', 24: 'inst', 25: 'poison'}


class Ty:
    __slots__ = ('k', 'bits', 'elems', 'elem', 'n', 'size', 'offs', 'ref', 'store')

    def __repr__(self):
        return f"<{self.k}{self.bits or ''}>"


class Val:
    """operand: k in {'reg','int','fp','null','undef','zero','func','gvar','cexpr','agg','str','md','bb','asm'}"""
    __slots__ = ('k', 'v', 'ty')

    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return f"{self.k}:{self.v}"


class Inst:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'loc', 'uid')

    def __repr__(self):
        return f"%{self.id} = {self.op} {self.ops} {self.x}"


class Block:
    __slots__ = ('id', 'insts', 'succs', 'phis', 'unw')


class Func:
    __slots__ = ('name', 'params', 'ptys', 'blocks', 'entry', 'decl', 'ipdom', 'rty', 'ninst', 'file')


def parse_fp(s, kind):
    """textual LLVM fp constant -> ('fin', Fraction, negzero) | ('inf',sign) | ('nan',)"""
    s = s.strip()
    m = re.match(r'0x([KLMHR]?)([0-9A-Fa-f]+)$', s)
    if m:
        if m.group(1) == 'K':
            h = m.group(2).rjust(20, '0')
            se, man = int(h[:4], 16), int(h[4:], 16)
            sign, e = se >> 15, se & 0x7fff
            if e == 0x7fff:
                return ('inf', -1 if sign else 1) if man == 1 << 63 else ('nan',)
            v = Fraction(man) * (Fraction(2) ** ((e or 1) - 16383 - 63))
        elif m.group(1) == '':
            b = int(m.group(2), 16)
            sign, e, man = b >> 63, (b >> 52) & 0x7ff, b & ((1 << 52) - 1)
            if e == 0x7ff:
                return ('inf', -1 if sign else 1) if man == 0 else ('nan',)
            v = Fraction(man if e == 0 else man | 1 << 52) * (Fraction(2) ** ((e or 1) - 1075))
        else:
            raise ValueError(s)
        if sign:
            v = -v
        return ('fin', v, bool(sign) and v == 0)
    v = Fraction(float(s)) if kind == 'd' or kind == 'f' else Fraction(s)
    return ('fin', v, v == 0 and s.startswith('-'))


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        mb, msg = V(), C.c_char_p()
        if CreateMB(path.encode(), C.byref(mb), C.byref(msg)):
            raise RuntimeError(f"cannot read {path}: {msg.value}")
        self.mod = V()
        if ParseBC(self.ctx, mb, C.byref(self.mod)):
            raise RuntimeError(f"cannot parse bitcode {path}")
        self.dl = GetDL(self.mod)
        self._types, self._funcs, self._gv, self._gl = {}, {}, {}, {}
        self.fnames = {}
        f = FirstFunction(self.mod)
        while f:
            self.fnames[self._name(f)] = f
            f = NextFunction(f)
        self.gnames = {}
        g = FirstGlobal(self.mod)
        while g:
            self.gnames[self._name(g)] = g
            g = NextGlobal(g)
        self.uid = 0

    @staticmethod
    def _name(v):
        n = C.c_size_t()
        s = GetValueName2(v, C.byref(n))
        return s[:n.value].decode() if s else ''

    def has(self, name):
        return name in self.fnames

    def type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        ty = Ty()
        ty.ref = t
        ty.k = TK.get(TypeKind(t), 'other')
        ty.bits = ty.elems = ty.elem = ty.n = ty.offs = None
        ty.size = ty.store = 0
        self._types[t] = ty
        if ty.k == 'int':
            ty.bits = IntWidth(t)
        elif ty.k == 'struct':
            n = CountElems(t)
            ty.elems = [self.type(StructElem(t, i)) for i in range(n)]
            try:
                ty.offs = [OffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                ty.offs = None
        elif ty.k == 'array':
            ty.elem = self.type(ElemType(t))
            ty.n = ArrayLen(t)
        elif ty.k == 'vec':
            ty.elem = self.type(ElemType(t))
            ty.n = VecSize(t)
        if ty.k in ('int', 'f', 'd', 'l', 'ptr', 'struct', 'array', 'vec'):
            ty.size = ABISize(self.dl, t)
            ty.store = StoreSize(self.dl, t)
        return ty

    def _print(self, v):
        p = PrintVal(v)
        s = C.cast(p, C.c_char_p).value.decode(errors='replace')
        DisposeMessage(p)
        return s

    def const(self, v, vk=None):
        vk = vk or VK.get(ValueKind(v), 'other')
        ty = self.type(TypeOf(v))
        if vk == 'int':
            return Val('int', ConstIntS(v) if ty.bits <= 64 else ConstIntZ(v), ty)
        if vk == 'fp':
            s = self._print(v)
            return Val('fp', parse_fp(s.split(None, 1)[1], ty.k) if not s.startswith('x86_fp80') else parse_fp(s.split()[1], 'l'), ty)
        if vk == 'null':
            return Val('null', 0, ty)
        if vk in ('undef', 'poison'):
            return Val('undef', None, ty)
        if vk in ('zero', 'none'):
            return Val('zero', None, ty)
        if vk == 'func':
            return Val('func', self._name(v), ty)
        if vk == 'gvar':
            return Val('gvar', self._name(v), ty)
        if vk in ('carray', 'cstruct', 'cvector'):
            n = NumOperands(v)
            return Val('agg', [self.const(GetOperand(v, i)) for i in range(n)], ty)
        if vk in ('cda', 'cdv'):
            if IsConstString(v):
                n = C.c_size_t()
                p = GetAsString(v, C.byref(n))
                return Val('str', C.string_at(p, n.value), ty)
            n = ty.n
            return Val('agg', [self.const(CDSElem(v, i)) for i in range(n)], ty)
        if vk == 'cexpr':
            op = OPC.get(ConstOpcode(v), '?')
            n = NumOperands(v)
            ops = [self.const(GetOperand(v, i)) for i in range(n)]
            src = self.type(GEPSource(v)) if op == 'gep' else None
            return Val('cexpr', (op, ops, src), ty)
        if vk in ('mdval', 'asm'):
            return Val('md', vk, ty)
        return Val('undef', vk, ty)

    def gvar(self, name):
        r = self._gv.get(name)
        if r is None:
            g = self.gnames[name]
            init = None if IsDeclaration(g) else GetInitializer(g)
            r = dict(name=name, ty=self.type(GlobalValueType(g)), const=bool(IsGlobalConstant(g)),
                     tls=bool(IsThreadLocal(g)), linkage=GetLinkage(g),
                     init=self.const(init) if init else None)
            self._gv[name] = r
        return r

    def linkage(self, name):
        return GetLinkage(self.fnames[name])

    def func(self, name):
        r = self._funcs.get(name)
        if r is None:
            r = self._funcs[name] = self._conv(name)
        return r

    def _conv(self, name):
        fv = self.fnames[name]
        F = Func()
        F.name = name
        F.decl = bool(IsDeclaration(fv))
        n = CountParams(fv)
        F.blocks, F.entry, F.ipdom, F.ninst = {}, None, None, 0
        regs = {}
        F.params, F.ptys = [], []
        for i in range(n):
            p = GetParam(fv, i)
            regs[p] = i
            F.params.append(i)
            F.ptys.append(self.type(TypeOf(p)))
        F.file = None
        if F.decl:
            return F
        bbs, order = {}, []
        b = FirstBB(fv)
        while b:
            bbs[b] = len(order)
            order.append(b)
            b = NextBB(b)
        nid = n
        insts = []
        for b in order:
            i = FirstInst(b)
            lst = []
            while i:
                regs[i] = nid
                nid += 1
                lst.append(i)
                i = NextInst(i)
            insts.append(lst)

        def operand(v):
            r = regs.get(v)
            if r is not None:
                return Val('reg', r, None)
            vk = VK.get(ValueKind(v), 'other')
            if vk == 'bb':
                return Val('bb', bbs[ValueAsBB(v)], None)
            if vk in ('mdval', 'asm'):
                return Val('md', vk, None)
            return self.const(v, vk)

        for bi, b in enumerate(order):
            B = Block()
            B.id, B.insts, B.phis, B.succs, B.unw = bi, [], [], [], None
            for iv in insts[bi]:
                I = Inst()
                I.id = regs[iv]
                self.uid += 1
                I.uid = self.uid
                oc = Opcode(iv)
                I.op = op = OPC.get(oc, f'op{oc}')
                I.ty = self.type(TypeOf(iv))
                I.x = None
                ln = DLine(iv)
                if ln:
                    k = C.c_uint()
                    fn = DFile(iv, C.byref(k))
                    I.loc = ((fn[:k.value].decode() if fn else '?'), ln)
                else:
                    I.loc = None
                if op in ('call', 'invoke'):
                    na = NumArgOps(iv)
                    callee = GetCalled(iv)
                    I.ops = [operand(GetOperand(iv, k)) for k in range(na)]
                    I.x = operand(callee)
                    if I.x.k == 'func' and I.x.v.startswith('llvm.dbg'):
                        continue
                    if op == 'invoke':
                        nd, ud = bbs[NormalDest(iv)], bbs[UnwindDest(iv)]
                        B.succs = [nd]
                        B.unw = ud
                        I.x = (I.x, nd, ud)
                elif op == 'phi':
                    I.ops = []
                    I.x = [(bbs[IncomingBlock(iv, k)], operand(IncomingValue(iv, k))) for k in range(CountIncoming(iv))]
                    B.phis.append(I)
                    continue
                elif op == 'br':
                    if IsCond(iv):
                        I.ops = [operand(Cond(iv))]
                        I.x = (bbs[Succ(iv, 0)], bbs[Succ(iv, 1)])
                        B.succs = list(I.x)
                    else:
                        I.ops = []
                        I.x = (bbs[Succ(iv, 0)],)
                        B.succs = [I.x[0]]
                elif op == 'switch':
                    nops = NumOperands(iv)
                    I.ops = [operand(GetOperand(iv, 0))]
                    dflt = bbs[SwitchDefault(iv)]
                    cases = []
                    for k in range(2, nops, 2):
                        cases.append((operand(GetOperand(iv, k)).v, bbs[ValueAsBB(GetOperand(iv, k + 1))]))
                    I.x = (dflt, cases)
                    B.succs = [dflt] + [c[1] for c in cases]
                else:
                    I.ops = [operand(GetOperand(iv, k)) for k in range(NumOperands(iv))]
                    if op == 'icmp':
                        I.x = ICMP[ICmpPred(iv)]
                    elif op == 'fcmp':
                        I.x = FCMP[FCmpPred(iv)]
                    elif op == 'alloca':
                        I.x = self.type(AllocatedType(iv))
                    elif op == 'gep':
                        I.x = self.type(GEPSource(iv))
                    elif op in ('extractvalue', 'insertvalue'):
                        nn = NumIndices(iv)
                        p = Indices(iv)
                        I.x = [p[k] for k in range(nn)]
                    elif op in ('fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'trunc', 'zext', 'sext', 'bitcast', 'fptoui'):
                        I.x = self.type(TypeOf(GetOperand(iv, 0)))
                B.insts.append(I)
                F.ninst += 1
                if F.file is None and I.loc:
                    F.file = I.loc[0]
            F.blocks[bi] = B
        F.entry = 0
        F.ipdom = self._ipdom(F)
        return F

    @staticmethod
    def _ipdom(F):
        """immediate post-dominators over normal edges; 'unreachable'/'resume' ends and unwind edges are ignored"""
        EXIT = -1
        succ = {}
        for b, B in F.blocks.items():
            t = B.insts[-1].op if B.insts else 'unreachable'
            succ[b] = [EXIT] if t == 'ret' else list(dict.fromkeys(B.succs))
        pred = {b: [] for b in list(succ) + [EXIT]}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        # reverse post order from EXIT on the reversed graph
        seen, order = {EXIT}, []
        stack = [(EXIT, iter(pred[EXIT]))]
        while stack:
            n, it = stack[-1]
            for p in it:
                if p not in seen:
                    seen.add(p)
                    stack.append((p, iter(pred[p])))
                    break
            else:
                order.append(n)
                stack.pop()
        rpo = order[::-1]
        idx = {n: i for i, n in enumerate(rpo)}
        idom = {EXIT: EXIT}
        changed = True
        while changed:
            changed = False
            for n in rpo[1:]:
                new = None
                for s in succ[n]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            a, c = s, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    changed = True
        return idom
