"""Loads LLVM bitcode through libLLVM-18's C API into plain Python objects."""
import ctypes as C, subprocess
from ctypes import c_void_p, c_uint, c_int, c_char_p, c_size_t, c_ulonglong, byref, POINTER

_L = None
def lib():
    global _L
    if _L is None:
        for p in ('/usr/lib/llvm-18/lib/libLLVM.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so', 'libLLVM-18.so', 'libLLVM-18.so.1'):
            try:
                _L = C.CDLL(p); break
            except OSError:
                continue
        if _L is None:
            raise OSError('libLLVM-18 not found')
        v, u, i, s = c_void_p, c_uint, c_int, c_char_p
        def d(n, r, *a):
            f = getattr(_L, n); f.restype = r; f.argtypes = list(a)
        d('LLVMContextCreate', v)
        d('LLVMCreateMemoryBufferWithContentsOfFile', i, s, POINTER(v), POINTER(s))
        d('LLVMParseIRInContext', i, v, v, POINTER(v), POINTER(s))
        for n in ('LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock',
                  'LLVMGetFirstInstruction', 'LLVMGetNextInstruction', 'LLVMTypeOf', 'LLVMGetElementType',
                  'LLVMGetFirstGlobal', 'LLVMGetNextGlobal', 'LLVMGetInitializer', 'LLVMGetAllocatedType', 'LLVMGlobalGetValueType',
                  'LLVMGetGEPSourceElementType', 'LLVMGetCalledValue', 'LLVMGetNormalDest', 'LLVMGetUnwindDest',
                  'LLVMGetModuleDataLayout', 'LLVMGetReturnType', 'LLVMGetCondition', 'LLVMGetSwitchDefaultDest', 'LLVMGetCalledFunctionType',
                  'LLVMGetFirstGlobalAlias', 'LLVMGetNextGlobalAlias', 'LLVMAliasGetAliasee', 'LLVMGetInstructionParent', 'LLVMIsAConstantExpr',
                  'LLVMIsAConstantInt', 'LLVMIsAConstantFP', 'LLVMIsAConstantPointerNull', 'LLVMIsAConstantAggregateZero',
                  'LLVMIsAConstantArray', 'LLVMIsAConstantStruct', 'LLVMIsAConstantVector', 'LLVMIsAConstantDataArray', 'LLVMIsAConstantDataVector', 'LLVMIsAGlobalVariable',
                  'LLVMIsAFunction', 'LLVMIsAGlobalAlias', 'LLVMIsAInstruction', 'LLVMIsAArgument', 'LLVMIsABasicBlock', 'LLVMIsAInlineAsm', 'LLVMIsAUndefValue', 'LLVMIsAPoisonValue', 'LLVMValueAsBasicBlock', 'LLVMBasicBlockAsValue'):
            d(n, v, v)
        for n in ('LLVMCountParams', 'LLVMGetTypeKind', 'LLVMGetInstructionOpcode', 'LLVMGetNumOperands', 'LLVMGetIntTypeWidth',
                  'LLVMGetICmpPredicate', 'LLVMGetFCmpPredicate', 'LLVMCountIncoming', 'LLVMGetNumArgOperands', 'LLVMGetNumIndices', 'LLVMGetNumClauses',
                  'LLVMGetNumSuccessors', 'LLVMCountStructElementTypes', 'LLVMGetArrayLength', 'LLVMGetVectorSize', 'LLVMIsConstant', 'LLVMIsConditional',
                  'LLVMIsDeclaration', 'LLVMGetConstOpcode', 'LLVMIsGlobalConstant', 'LLVMCountBasicBlocks', 'LLVMIsPackedStruct', 'LLVMIsUndef', 'LLVMIsPoison', 'LLVMIsNull', 'LLVMIsFunctionVarArg', 'LLVMIsInBounds'):
            d(n, u, v)
        for n in ('LLVMGetOperand', 'LLVMGetParam', 'LLVMGetIncomingValue', 'LLVMGetIncomingBlock', 'LLVMGetSuccessor', 'LLVMStructGetTypeAtIndex', 'LLVMGetAggregateElement'):
            d(n, v, v, u)
        d('LLVMGetIndices', POINTER(c_uint), v)
        d('LLVMGetValueName2', c_void_p, v, POINTER(c_size_t))
        d('LLVMConstIntGetZExtValue', c_ulonglong, v)
        d('LLVMConstRealGetDouble', C.c_double, v, POINTER(c_int))
        d('LLVMABISizeOfType', c_ulonglong, v, v)
        d('LLVMStoreSizeOfType', c_ulonglong, v, v)
        d('LLVMABIAlignmentOfType', c_uint, v, v)
        d('LLVMOffsetOfElement', c_ulonglong, v, v, u)
        d('LLVMPrintValueToString', c_void_p, v)
        d('LLVMDisposeMessage', None, v)
        d('LLVMGetEnumAttributeKindForName', u, s, c_size_t)
        d('LLVMGetEnumAttributeAtIndex', v, v, u, u)
        d('LLVMGetCallSiteEnumAttribute', v, v, u, u)
        d('LLVMGetTypeAttributeValue', v, v)
        d('LLVMGetAsString', c_void_p, v, POINTER(c_size_t))
    return _L

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',
12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',
38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',50:'extractelement',
51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
TK = {0:'void',1:'half',2:'float',3:'double',4:'x86_fp80',5:'fp128',7:'label',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vector',14:'metadata',16:'token'}

class Ty:
    __slots__ = ('k', 'bits', 'size', 'store', 'align', 'elems', 'offs', 'n', 'elem')
    def __repr__(s): return f'<{s.k}{s.bits or ""} {s.size}>'

class Inst:
    __slots__ = ('op', 'ty', 'ops', 'id', 'x', 'fn')
    def __repr__(s): return f'{s.id}={s.op} {s.ops} {s.x}'

class Block:
    __slots__ = ('id', 'insts', 'phis', 'rpo', 'preds', 'succs')

class Fn:
    __slots__ = ('name', 'params', 'pty', 'rty', 'blocks', 'entry', 'byval', 'sret', 'demangled', 'loops', 'ipdom', 'order')

class Module:
    def __init__(self, path):
        L = lib()
        self.ctx = L.LLVMContextCreate()
        buf = c_void_p(); msg = c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(buf), byref(msg)):
            raise OSError(f'{path}: {msg.value}')
        m = c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, byref(m), byref(msg)):
            raise ValueError(f'{path}: {msg.value}')
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.tys = {}
        self.fh = {}       # name -> handle (defined or declared)
        self.defined = set()
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = self.name(f); self.fh[n] = f
            if not L.LLVMIsDeclaration(f): self.defined.add(n)
            f = L.LLVMGetNextFunction(f)
        self.gh = {}
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.gh[self.name(g)] = g; g = L.LLVMGetNextGlobal(g)
        self.alias = {}
        g = L.LLVMGetFirstGlobalAlias(m)
        while g:
            self.alias[self.name(g)] = self.name(L.LLVMAliasGetAliasee(g)); g = L.LLVMGetNextGlobalAlias(g)
        self.fns = {}
        self.k_byval = L.LLVMGetEnumAttributeKindForName(b'byval', 5)
        self.k_sret = L.LLVMGetEnumAttributeKindForName(b'sret', 4)
        names = list(self.fh)
        out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
        if out.returncode: out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        self.dem = dict(zip(names, out.stdout.split('\n')))
        self.anon = 0

    def name(self, h):
        n = c_size_t()
        p = lib().LLVMGetValueName2(h, byref(n))
        return C.string_at(p, n.value).decode() if p else ''

    def ty(self, h):
        t = self.tys.get(h)
        if t: return t
        L = lib()
        t = Ty(); self.tys[h] = t
        t.k = TK.get(L.LLVMGetTypeKind(h), '?'); t.bits = None; t.size = t.store = 0; t.elems = t.offs = None; t.n = 0; t.elem = None; t.align = 1
        if t.k == 'int':
            t.bits = L.LLVMGetIntTypeWidth(h)
        if t.k in ('int', 'ptr', 'double', 'float', 'x86_fp80', 'fp128', 'struct', 'array', 'vector', 'half'):
            try:
                t.size = L.LLVMABISizeOfType(self.dl, h); t.store = L.LLVMStoreSizeOfType(self.dl, h); t.align = L.LLVMABIAlignmentOfType(self.dl, h)
            except Exception: pass
        if t.k == 'struct':
            n = L.LLVMCountStructElementTypes(h)
            t.elems = [self.ty(L.LLVMStructGetTypeAtIndex(h, i)) for i in range(n)]
            t.offs = [L.LLVMOffsetOfElement(self.dl, h, i) for i in range(n)]
        elif t.k == 'array':
            t.n = L.LLVMGetArrayLength(h); t.elem = self.ty(L.LLVMGetElementType(h))
        elif t.k == 'vector':
            t.n = L.LLVMGetVectorSize(h); t.elem = self.ty(L.LLVMGetElementType(h))
        return t

    def text(self, h):
        p = lib().LLVMPrintValueToString(h)
        s = C.string_at(p).decode(); lib().LLVMDisposeMessage(p); return s

    # constants ---------------------------------------------------------
    def const(self, h):
        """operand descriptor for a constant: ('int',v) ('null',) ('undef',ty) ('fp',text,ty) ('glob',name) ('fn',name) ('agg',ty,[..]) ('ce',op,...)"""
        L = lib()
        ty = self.ty(L.LLVMTypeOf(h))
        if L.LLVMIsUndef(h): return ('undef', ty)
        if L.LLVMIsAConstantInt(h):
            if ty.bits <= 64: return ('int', L.LLVMConstIntGetZExtValue(h) & ((1 << ty.bits) - 1), ty)
            t = self.text(h).split()[-1]
            return ('int', int(t) & ((1 << ty.bits) - 1), ty)
        if L.LLVMIsAConstantFP(h):
            return ('fp', self.text(h).split()[-1], ty)
        if L.LLVMIsAConstantPointerNull(h): return ('null',)
        if L.LLVMIsAFunction(h): return ('fn', self.name(h))
        if L.LLVMIsAGlobalVariable(h): return ('glob', self.name(h))
        if L.LLVMIsAGlobalAlias(h):
            n = self.alias[self.name(h)]
            while n in self.alias: n = self.alias[n]
            return ('fn', n) if n in self.fh else ('glob', n)
        if L.LLVMIsAConstantAggregateZero(h): return ('zero', ty)
        if L.LLVMIsAConstantDataArray(h):
            n = c_size_t()
            return ('agg', ty, [self.const(L.LLVMGetAggregateElement(h, i)) for i in range(ty.n)])
        if L.LLVMIsAConstantArray(h) or L.LLVMIsAConstantStruct(h) or L.LLVMIsAConstantVector(h):
            return ('agg', ty, [self.const(L.LLVMGetOperand(h, i)) for i in range(L.LLVMGetNumOperands(h))])
        if L.LLVMIsAConstantDataVector(h):
            return ('agg', ty, [self.const(L.LLVMGetAggregateElement(h, i)) for i in range(ty.n)])
        if L.LLVMIsAConstantExpr(h):
            op = OPC.get(L.LLVMGetConstOpcode(h), '?')
            ops = [self.const(L.LLVMGetOperand(h, i)) for i in range(L.LLVMGetNumOperands(h))]
            tys = [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(h, i))) for i in range(L.LLVMGetNumOperands(h))]
            src = self.ty(L.LLVMGetGEPSourceElementType(h)) if op == 'gep' else None
            return ('ce', op, ops, tys, src, ty)
        if L.LLVMIsAInlineAsm(h): return ('asm',)
        if ty.k == 'metadata': return ('meta',)
        return ('unk', self.text(h))

    def fn(self, name):
        if name in self.fns: return self.fns[name]
        L = lib()
        h = self.fh[name]
        f = Fn(); f.name = name; f.demangled = self.dem.get(name, name); f.loops = None
        np_ = L.LLVMCountParams(h)
        ids = {}
        f.params = []; f.pty = []; f.byval = {}; f.sret = None
        for i in range(np_):
            p = L.LLVMGetParam(h, i)
            ids[p] = f'a{i}'; f.params.append(f'a{i}'); f.pty.append(self.ty(L.LLVMTypeOf(p)))
            a = L.LLVMGetEnumAttributeAtIndex(h, i + 1, self.k_byval)
            if a: f.byval[i] = self.ty(L.LLVMGetTypeAttributeValue(a))
            a = L.LLVMGetEnumAttributeAtIndex(h, i + 1, self.k_sret)
            if a: f.sret = i
        bids = {}
        bb = L.LLVMGetFirstBasicBlock(h); k = 0; bl = []
        while bb:
            bids[bb] = k; bl.append(bb); k += 1
            i = L.LLVMGetFirstInstruction(bb)
            while i:
                ids[i] = len(ids); i = L.LLVMGetNextInstruction(i)
            bb = L.LLVMGetNextBasicBlock(bb)
        f.blocks = []
        def opd(v):
            x = ids.get(v)
            if x is not None: return ('l', x)
            return self.const(v)
        for bb in bl:
            B = Block(); B.id = bids[bb]; B.insts = []; B.phis = []; B.succs = []
            i = L.LLVMGetFirstInstruction(bb)
            while i:
                I = Inst(); I.fn = f
                I.op = op = OPC.get(L.LLVMGetInstructionOpcode(i), '?'); I.id = ids[i]
                I.ty = self.ty(L.LLVMTypeOf(i)); I.x = None
                n = L.LLVMGetNumOperands(i)
                if op == 'phi':
                    I.x = {bids[L.LLVMGetIncomingBlock(i, j)]: opd(L.LLVMGetIncomingValue(i, j)) for j in range(L.LLVMCountIncoming(i))}
                    I.ops = []
                    B.phis.append(I); i = L.LLVMGetNextInstruction(i); continue
                if op == 'br':
                    B.succs = [bids[L.LLVMGetSuccessor(i, j)] for j in range(L.LLVMGetNumSuccessors(i))]
                    I.ops = [opd(L.LLVMGetCondition(i))] if L.LLVMIsConditional(i) else []
                elif op == 'switch':
                    B.succs = [bids[L.LLVMGetSuccessor(i, j)] for j in range(L.LLVMGetNumSuccessors(i))]
                    I.ops = [opd(L.LLVMGetOperand(i, 0))]
                    I.x = dict(default=bids[L.LLVMGetSwitchDefaultDest(i)], ty=self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))),
                               cases=[(opd(L.LLVMGetOperand(i, j))[1], bids[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, j + 1))]) for j in range(2, n, 2)])
                elif op in ('call', 'invoke'):
                    na = L.LLVMGetNumArgOperands(i)
                    I.ops = [opd(L.LLVMGetOperand(i, j)) for j in range(na)]
                    cv = L.LLVMGetCalledValue(i)
                    byv = {}
                    for j in range(na):
                        a = L.LLVMGetCallSiteEnumAttribute(i, j + 1, self.k_byval)
                        if a: byv[j] = self.ty(L.LLVMGetTypeAttributeValue(a))
                    I.x = dict(callee=opd(cv), tys=[self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, j))) for j in range(na)], byval=byv)
                    if op == 'invoke':
                        I.x['normal'] = bids[L.LLVMGetNormalDest(i)]; I.x['unwind'] = bids[L.LLVMGetUnwindDest(i)]
                        B.succs = [I.x['normal'], I.x['unwind']]
                elif op == 'alloca':
                    I.ops = [opd(L.LLVMGetOperand(i, 0))]; I.x = self.ty(L.LLVMGetAllocatedType(i))
                elif op == 'gep':
                    I.ops = [opd(L.LLVMGetOperand(i, j)) for j in range(n)]
                    I.x = (self.ty(L.LLVMGetGEPSourceElementType(i)), [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, j))) for j in range(n)])
                else:
                    I.ops = [opd(L.LLVMGetOperand(i, j)) for j in range(n)]
                    if op == 'icmp': I.x = (ICMP[L.LLVMGetICmpPredicate(i)], self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    elif op == 'fcmp': I.x = (FCMP[L.LLVMGetFCmpPredicate(i)], self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    elif op in ('extractvalue', 'insertvalue'):
                        p = L.LLVMGetIndices(i); I.x = [p[j] for j in range(L.LLVMGetNumIndices(i))]
                    elif n: I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                B.insts.append(I)
                i = L.LLVMGetNextInstruction(i)
            f.blocks.append(B)
        self._cfg(f)
        self.fns[name] = f
        return f

    def _cfg(self, f):
        n = len(f.blocks)
        for b in f.blocks: b.preds = []
        for b in f.blocks:
            for s in b.succs: f.blocks[s].preds.append(b.id)
        # RPO (iterative DFS)
        seen = set(); post = []; stack = [(0, iter(f.blocks[0].succs))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(f.blocks[s].succs))); break
            else:
                post.append(b); stack.pop()
        order = post[::-1]
        for b in f.blocks: b.rpo = 10**9
        for i, b in enumerate(order): f.blocks[b].rpo = i
        # dominators, natural loops
        dom = {0: {0}}
        allb = set(order)
        for b in order[1:]: dom[b] = set(allb)
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in f.blocks[b].preds if p in dom]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        f.loops = {}
        for b in order:
            for s in f.blocks[b].succs:
                if s in dom[b]:
                    body = f.loops.setdefault(s, {s}); st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st.extend(p for p in f.blocks[x].preds if p in allb)
        # loop-aware order: blocks inside a loop come before blocks after it
        f.order = order
