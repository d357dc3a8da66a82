"""Ingests LLVM bitcode through the LLVM-C API (ctypes), no text parsing.

Produces light Python objects (Module/Function/Block/Instr/Const) that the
verification-condition generator walks."""
import ctypes as C, struct, re


def _open():
    import glob
    for n in ["libLLVM-18.so.1", "libLLVM.so.18.1"] + sorted(glob.glob('/usr/lib/llvm-18/lib/libLLVM*.so*') + glob.glob('/usr/lib/x86_64-linux-gnu/libLLVM*18*.so*')):
        try:
            return C.CDLL(n)
        except OSError:
            continue
    raise OSError('libLLVM-18 not found')


_L = _open()
P = C.c_void_p

def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

CreateMem = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcode2", C.c_int, P, C.POINTER(P))
GetFirstFunction = _f("LLVMGetFirstFunction", P, P)
GetNextFunction = _f("LLVMGetNextFunction", P, P)
GetNamedFunction = _f("LLVMGetNamedFunction", P, P, C.c_char_p)
GetValueName2 = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, P)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
GetFirstBB = _f("LLVMGetFirstBasicBlock", P, P)
GetNextBB = _f("LLVMGetNextBasicBlock", P, P)
GetFirstInst = _f("LLVMGetFirstInstruction", P, P)
GetNextInst = _f("LLVMGetNextInstruction", P, P)
GetOpcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
GetNumOperands = _f("LLVMGetNumOperands", C.c_int, P)
GetOperand = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
GetTypeKind = _f("LLVMGetTypeKind", C.c_int, P)
GetIntTypeWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
CountStructElems = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructTypeAt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
IsOpaqueStruct = _f("LLVMIsOpaqueStruct", C.c_int, P)
GetElementType = _f("LLVMGetElementType", P, P)
GetArrayLength2 = _f("LLVMGetArrayLength2", C.c_uint64, P)
GetVectorSize = _f("LLVMGetVectorSize", C.c_uint, P)
GetModuleDataLayout = _f("LLVMGetModuleDataLayout", P, P)
ABISizeOfType = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSizeOfType = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
ABIAlign = _f("LLVMABIAlignmentOfType", C.c_uint, P, P)
OffsetOfElement = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
GetValueKind = _f("LLVMGetValueKind", C.c_int, P)
ConstIntGetZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstRealGetDouble = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
GetAggregateElement = _f("LLVMGetAggregateElement", P, P, C.c_uint)
GetConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, P)
GlobalGetValueType = _f("LLVMGlobalGetValueType", P, P)
GetICmpPredicate = _f("LLVMGetICmpPredicate", C.c_int, P)
GetFCmpPredicate = _f("LLVMGetFCmpPredicate", C.c_int, P)
GetNSW = _f("LLVMGetNSW", C.c_int, P)
GetNUW = _f("LLVMGetNUW", C.c_int, P)
GetExact = _f("LLVMGetExact", C.c_int, P)
GetIsInBounds = _f("LLVMIsInBounds", C.c_int, P)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, P)
GetIncomingValue = _f("LLVMGetIncomingValue", P, P, C.c_uint)
GetIncomingBlock = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
GetNumSuccessors = _f("LLVMGetNumSuccessors", C.c_uint, P)
GetSuccessor = _f("LLVMGetSuccessor", P, P, C.c_uint)
GetCondition = _f("LLVMGetCondition", P, P)
IsConditional = _f("LLVMIsConditional", C.c_int, P)
GetCalledValue = _f("LLVMGetCalledValue", P, P)
GetNumArgOperands = _f("LLVMGetNumArgOperands", C.c_uint, P)
GetNumIndices = _f("LLVMGetNumIndices", C.c_uint, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
GetGEPSourceElementType = _f("LLVMGetGEPSourceElementType", P, P)
GetAllocatedType = _f("LLVMGetAllocatedType", P, P)
GetNumMaskElements = _f("LLVMGetNumMaskElements", C.c_uint, P)
GetMaskValue = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint)
GetDebugLocLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
GetDebugLocFilename = _f("LLVMGetDebugLocFilename", C.c_void_p, P, C.POINTER(C.c_uint))
PrintValue = _f("LLVMPrintValueToString", C.c_void_p, P)
DisposeMessage = _f("LLVMDisposeMessage", None, C.c_void_p)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
GetNormalDest = _f("LLVMGetNormalDest", P, P)
GetUnwindDest = _f("LLVMGetUnwindDest", P, P)
GetAtomicOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetFirstGlobal = _f("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _f("LLVMGetNextGlobal", P, P)
GetReturnType = _f("LLVMGetReturnType", P, P)
GetAlignment = _f("LLVMGetAlignment", C.c_uint, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
       45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad',
       60: 'addrspacecast', 66: 'fneg', 67: 'callbr', 68: 'freeze', 49: 'vaarg'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = ['false', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'true']


def vname(v):
    n = C.c_size_t()
    s = GetValueName2(v, C.byref(n))
    return s.decode('utf8', 'replace') if s else ''


def pstr(v):
    p = PrintValue(v)
    s = C.string_at(p).decode('utf8', 'replace')
    DisposeMessage(p)
    return s


class Type:
    __slots__ = ('ref', 'kind', 'bits', 'elem', 'n', 'elems', 'offs', 'size', 'ssize', 'align')
    # kind: void int float ptr struct array vec func label meta token

    def __repr__(self):
        if self.kind == 'int': return 'i%d' % self.bits
        if self.kind == 'float': return 'f%d' % self.bits
        if self.kind == 'vec': return '<%d x %r>' % (self.n, self.elem)
        if self.kind == 'array': return '[%d x %r]' % (self.n, self.elem)
        if self.kind == 'struct': return '{%s}' % ','.join(map(repr, self.elems))
        return self.kind


class Instr:
    __slots__ = ('op', 'ty', 'ops', 'x', 'nsw', 'nuw', 'exact', 'ref', 'blk', 'line', 'idx')


class Block:
    __slots__ = ('ref', 'idx', 'ins', 'succs', 'fn', 'rpo', 'name')


class Function:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.decl = bool(IsDeclaration(ref))
        self._blocks = None

    def __repr__(self):
        return '@' + self.name

    @property
    def blocks(self):
        if self._blocks is None:
            self._load()
        return self._blocks

    def _load(self):
        m = self.mod
        self._blocks = []
        bmap = {}
        b = GetFirstBB(self.ref)
        while b:
            B = Block(); B.ref = b; B.idx = len(self._blocks); B.ins = []; B.succs = []; B.fn = self; B.rpo = None
            B.name = 'b%d' % B.idx
            self._blocks.append(B); bmap[b] = B
            b = GetNextBB(b)
        self.params = [('arg', self.name, i) for i in range(CountParams(self.ref))]
        self.param_types = [m.type(TypeOf(GetParam(self.ref, i))) for i in range(len(self.params))]
        vmap = {GetParam(self.ref, i): i for i in range(len(self.params))}
        self._argmap = vmap
        n = 0
        imap = {}
        for B in self._blocks:
            i = GetFirstInst(B.ref)
            while i:
                I = Instr(); I.ref = i; I.blk = B; I.idx = n; n += 1
                imap[i] = I
                B.ins.append(I)
                i = GetNextInst(i)
        for B in self._blocks:
            for I in B.ins:
                self._fill(I, bmap, imap)
        self._cfg()

    def _val(self, v, imap):
        if v in imap: return imap[v]
        if v in self._argmap: return ('arg', self._argmap[v])
        return self.mod.const(v)

    def _fill(self, I, bmap, imap):
        m = self.mod; r = I.ref
        I.op = OPC.get(GetOpcode(r), 'op%d' % GetOpcode(r))
        I.ty = m.type(TypeOf(r))
        I.nsw = I.nuw = I.exact = False
        I.x = None
        I.line = None
        op = I.op
        if op in ('add', 'sub', 'mul', 'shl'):
            I.nsw = bool(GetNSW(r)); I.nuw = bool(GetNUW(r))
        elif op in ('udiv', 'sdiv', 'lshr', 'ashr'):
            I.exact = bool(GetExact(r))
        V = lambda v: self._val(v, imap)
        if op == 'phi':
            I.ops = [V(GetIncomingValue(r, k)) for k in range(CountIncoming(r))]
            I.x = [bmap[GetIncomingBlock(r, k)] for k in range(CountIncoming(r))]
        elif op in ('call', 'invoke'):
            I.ops = [V(GetOperand(r, k)) for k in range(GetNumArgOperands(r))]
            I.x = V(GetCalledValue(r))
            if op == 'invoke':
                I.blk.succs = [bmap[GetNormalDest(r)], bmap[GetUnwindDest(r)]]
        elif op == 'br':
            n = GetNumSuccessors(r)
            I.blk.succs = [bmap[GetSuccessor(r, k)] for k in range(n)]
            I.ops = [V(GetCondition(r))] if IsConditional(r) else []
        elif op == 'switch':
            no = GetNumOperands(r)
            I.ops = [V(GetOperand(r, 0))]
            dflt = bmap[ValueAsBB(GetOperand(r, 1))]
            I.x = (dflt, [(V(GetOperand(r, k)), bmap[ValueAsBB(GetOperand(r, k + 1))]) for k in range(2, no, 2)])
            s = [dflt]
            for _, b in I.x[1]:
                if b not in s: s.append(b)
            I.blk.succs = s
        else:
            I.ops = [V(GetOperand(r, k)) for k in range(GetNumOperands(r))]
        if op == 'icmp': I.x = ICMP[GetICmpPredicate(r)]
        elif op == 'fcmp': I.x = FCMP[GetFCmpPredicate(r)]
        elif op == 'gep': I.x = m.type(GetGEPSourceElementType(r))
        elif op == 'alloca': I.x = m.type(GetAllocatedType(r))
        elif op in ('extractvalue', 'insertvalue'):
            p = GetIndices(r); I.x = [p[k] for k in range(GetNumIndices(r))]
        elif op == 'shufflevector':
            I.x = [GetMaskValue(r, k) for k in range(GetNumMaskElements(r))]
        elif op == 'atomicrmw':
            I.x = GetAtomicOp(r)

    def _cfg(self):
        bl = self._blocks
        # RPO
        seen = set(); post = []
        st = [(bl[0], iter(bl[0].succs))]; seen.add(bl[0].idx)
        while st:
            b, it = st[-1]
            for s in it:
                if s.idx not in seen:
                    seen.add(s.idx); st.append((s, iter(s.succs))); break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]
        for i, b in enumerate(rpo): b.rpo = i
        self.rpo = rpo
        preds = {b.idx: [] for b in rpo}
        for b in rpo:
            for s in b.succs: preds[s.idx].append(b)
        self.preds = preds
        # dominators
        idom = {rpo[0].idx: rpo[0]}
        ch = True
        def inter(a, b):
            while a is not b:
                while a.rpo > b.rpo: a = idom[a.idx]
                while b.rpo > a.rpo: b = idom[b.idx]
            return a
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b.idx]:
                    if p.idx in idom:
                        new = p if new is None else inter(p, new)
                if idom.get(b.idx) is not new:
                    idom[b.idx] = new; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a is b: return True
                if b is rpo[0]: return False
                b = idom[b.idx]
        # natural loops
        loops = {}
        for b in rpo:
            for s in b.succs:
                if dom(s, b):
                    body = loops.setdefault(s.idx, {s.idx})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x.idx in body: continue
                        body.add(x.idx); wl.extend(preds[x.idx])
                elif s.rpo <= b.rpo:
                    raise Unsupported('irreducible control flow in ' + self.name)
        self.loops = loops   # header idx -> set of block idx


class Unsupported(Exception):
    pass


class Const:
    __slots__ = ('k', 'v', 'ty')
    # k: int fp null undef poison agg zero func global expr asm meta

    def __init__(self, k, v, ty): self.k, self.v, self.ty = k, v, ty

    def __repr__(self): return 'C(%s,%r)' % (self.k, self.v)


class Global:
    __slots__ = ('ref', 'name', 'ty', 'const', 'init_ref', 'align')


class Module:
    def __init__(self, path):
        buf = P(); msg = C.c_char_p()
        if CreateMem(path.encode(), C.byref(buf), C.byref(msg)): raise RuntimeError(msg.value)
        m = P()
        if ParseBC(buf, C.byref(m)): raise RuntimeError('bad bitcode ' + path)
        self.ref = m
        self.dl = GetModuleDataLayout(m)
        self._types = {}; self._consts = {}; self._globals = {}
        self.funcs = {}
        self._fref = {}
        f = GetFirstFunction(m)
        while f:
            F = Function(self, f, vname(f))
            self.funcs[F.name] = F; self._fref[f] = F
            f = GetNextFunction(f)

    def type(self, r):
        t = self._types.get(r)
        if t: return t
        t = Type(); self._types[r] = t
        t.ref = r; t.bits = t.n = 0; t.elem = None; t.elems = None; t.offs = None; t.size = t.ssize = 0; t.align = 1
        k = GetTypeKind(r)
        if k == 0: t.kind = 'void'
        elif k == 8: t.kind = 'int'; t.bits = GetIntTypeWidth(r)
        elif k == 2: t.kind = 'float'; t.bits = 32
        elif k == 3: t.kind = 'float'; t.bits = 64
        elif k == 4: t.kind = 'float'; t.bits = 80
        elif k == 1: t.kind = 'float'; t.bits = 16
        elif k == 12: t.kind = 'ptr'; t.bits = 64
        elif k == 10:
            t.kind = 'struct'
            if IsOpaqueStruct(r): t.kind = 'opaque'; return t
            n = CountStructElems(r)
            t.elems = [self.type(StructTypeAt(r, i)) for i in range(n)]
            t.offs = [OffsetOfElement(self.dl, r, i) for i in range(n)]
        elif k == 11: t.kind = 'array'; t.elem = self.type(GetElementType(r)); t.n = GetArrayLength2(r)
        elif k == 13: t.kind = 'vec'; t.elem = self.type(GetElementType(r)); t.n = GetVectorSize(r)
        elif k == 9: t.kind = 'func'; t.elem = self.type(GetReturnType(r))
        else: t.kind = 'other%d' % k
        if t.kind in ('int', 'float', 'ptr', 'struct', 'array', 'vec'):
            t.size = ABISizeOfType(self.dl, r); t.ssize = StoreSizeOfType(self.dl, r); t.align = ABIAlign(self.dl, r)
        return t

    def const(self, v):
        c = self._consts.get(v)
        if c is None:
            c = self._const(v); self._consts[v] = c
        return c

    def _const(self, v):
        k = GetValueKind(v)
        if k == 5: return Const('func', self._fref[v], None)
        if k == 6: return self.const(AliasGetAliasee(v))
        if k == 8:
            g = Global(); g.ref = v; g.name = vname(v); g.ty = self.type(GlobalGetValueType(v))
            g.const = bool(IsGlobalConstant(v)); g.init_ref = GetInitializer(v); g.align = GetAlignment(v)
            return Const('global', g, None)
        if k == 23: return Const('asm', pstr(v), None)
        if k == 22: return Const('meta', None, None)
        if k == 1: return Const('block', v, None)
        ty = self.type(TypeOf(v))
        if k == 18:
            if ty.bits <= 64: return Const('int', ConstIntGetZExt(v), ty)
            return Const('int', int(pstr(v).split()[-1]) & ((1 << ty.bits) - 1), ty)
        if k == 19:
            l = C.c_int()
            d = ConstRealGetDouble(v, C.byref(l))
            if ty.bits == 32: b = struct.unpack('<I', struct.pack('<f', d))[0]
            elif ty.bits == 64: b = struct.unpack('<Q', struct.pack('<d', d))[0]
            else: raise Unsupported('fp constant of %d bits' % ty.bits)
            return Const('int', b, ty)
        if k == 20: return Const('null', None, ty)
        if k == 14: return Const('undef', None, ty)
        if k == 25: return Const('poison', None, ty)
        if k == 15: return Const('zero', None, ty)
        if k in (11, 12, 13, 16, 17):
            n = ty.n if ty.kind in ('array', 'vec') else len(ty.elems)
            return Const('agg', [self.const(GetAggregateElement(v, i)) for i in range(n)], ty)
        if k == 10:
            op = OPC[GetConstOpcode(v)]
            ops = [self.const(GetOperand(v, i)) for i in range(GetNumOperands(v))]
            x = None
            if op == 'gep': x = self.type(GetGEPSourceElementType(v))
            elif op == 'icmp': x = ICMP[GetICmpPredicate(v)]
            return Const('expr', (op, ops, x), ty)
        raise Unsupported('value kind %d' % k)


def line_of(I):
    if I.line is None:
        try:
            n = GetDebugLocLine(I.ref)
            ln = C.c_uint()
            f = GetDebugLocFilename(I.ref, C.byref(ln))
            fn = C.string_at(f, ln.value).decode() if f else '?'
            I.line = '%s:%d' % (fn.split('/')[-1], n)
        except Exception:
            I.line = '?'
    return I.line
