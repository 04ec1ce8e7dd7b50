"""Reads an LLVM-18 module (bitcode) through libLLVM-C with ctypes and decodes
its functions lazily into plain Python structures for the symbolic executor."""
import ctypes as C
import re

_L = None


def lib():
    global _L
    if _L is not None:
        return _L
    for n in ("libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so", "/usr/lib/llvm-18/lib/libLLVM-18.so",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1", "libLLVM.so.18.1"):
        try:
            _L = C.CDLL(n)
            break
        except OSError:
            continue
    P = C.c_void_p
    I = C.c_int
    U = C.c_uint
    sig = {
        'LLVMContextCreate': (P, []),
        'LLVMCreateMemoryBufferWithContentsOfFile': (I, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
        'LLVMParseIRInContext': (I, [P, P, C.POINTER(P), C.POINTER(C.c_char_p)]),
        'LLVMGetFirstFunction': (P, [P]), 'LLVMGetNextFunction': (P, [P]),
        'LLVMGetFirstGlobal': (P, [P]), 'LLVMGetNextGlobal': (P, [P]),
        'LLVMGetFirstGlobalAlias': (P, [P]), 'LLVMGetNextGlobalAlias': (P, [P]),
        'LLVMAliasGetAliasee': (P, [P]),
        'LLVMGetValueName2': (C.c_char_p, [P, C.POINTER(C.c_size_t)]),
        'LLVMIsDeclaration': (I, [P]), 'LLVMCountParams': (U, [P]), 'LLVMGetParam': (P, [P, U]),
        'LLVMGetFirstBasicBlock': (P, [P]), 'LLVMGetNextBasicBlock': (P, [P]),
        'LLVMBasicBlockAsValue': (P, [P]), 'LLVMValueAsBasicBlock': (P, [P]),
        'LLVMGetFirstInstruction': (P, [P]), 'LLVMGetNextInstruction': (P, [P]),
        'LLVMGetInstructionOpcode': (I, [P]), 'LLVMGetConstOpcode': (I, [P]),
        'LLVMGetNumOperands': (I, [P]), 'LLVMGetOperand': (P, [P, U]),
        'LLVMTypeOf': (P, [P]), 'LLVMGetTypeKind': (I, [P]), 'LLVMGetIntTypeWidth': (U, [P]),
        'LLVMGetElementType': (P, [P]), 'LLVMGetArrayLength2': (C.c_uint64, [P]), 'LLVMGetVectorSize': (U, [P]),
        'LLVMCountStructElementTypes': (U, [P]), 'LLVMStructGetTypeAtIndex': (P, [P, U]),
        'LLVMGetICmpPredicate': (I, [P]), 'LLVMGetFCmpPredicate': (I, [P]),
        'LLVMGetAllocatedType': (P, [P]), 'LLVMGetGEPSourceElementType': (P, [P]),
        'LLVMGetNumIndices': (U, [P]), 'LLVMGetIndices': (C.POINTER(U), [P]),
        'LLVMCountIncoming': (U, [P]), 'LLVMGetIncomingValue': (P, [P, U]), 'LLVMGetIncomingBlock': (P, [P, U]),
        'LLVMGetCalledValue': (P, [P]), 'LLVMGetNumArgOperands': (U, [P]), 'LLVMGetNormalDest': (P, [P]),
        'LLVMGetNumSuccessors': (U, [P]), 'LLVMGetSuccessor': (P, [P, U]),
        'LLVMIsConditional': (I, [P]), 'LLVMGetCondition': (P, [P]),
        'LLVMIsAConstant': (P, [P]), 'LLVMIsAConstantInt': (P, [P]), 'LLVMIsAConstantFP': (P, [P]),
        'LLVMIsAConstantAggregateZero': (P, [P]), 'LLVMIsAConstantPointerNull': (P, [P]),
        'LLVMIsAConstantExpr': (P, [P]), 'LLVMIsAFunction': (P, [P]), 'LLVMIsAGlobalVariable': (P, [P]),
        'LLVMIsAGlobalAlias': (P, [P]), 'LLVMIsAUndefValue': (P, [P]), 'LLVMIsAPoisonValue': (P, [P]),
        'LLVMIsAConstantDataSequential': (P, [P]), 'LLVMIsAConstantArray': (P, [P]),
        'LLVMIsAConstantStruct': (P, [P]), 'LLVMIsAConstantVector': (P, [P]), 'LLVMIsAInlineAsm': (P, [P]),
        'LLVMConstIntGetZExtValue': (C.c_ulonglong, [P]), 'LLVMConstRealGetDouble': (C.c_double, [P, C.POINTER(I)]),
        'LLVMGetAggregateElement': (P, [P, U]), 'LLVMGetInitializer': (P, [P]),
        'LLVMGlobalGetValueType': (P, [P]), 'LLVMIsGlobalConstant': (I, [P]),
        'LLVMGetModuleDataLayout': (P, [P]), 'LLVMABISizeOfType': (C.c_ulonglong, [P, P]),
        'LLVMStoreSizeOfType': (C.c_ulonglong, [P, P]),
        'LLVMABIAlignmentOfType': (U, [P, P]),
        'LLVMOffsetOfElement': (C.c_ulonglong, [P, P, U]),
        'LLVMPrintValueToString': (P, [P]), 'LLVMPrintTypeToString': (P, [P]), 'LLVMDisposeMessage': (None, [P]),
        'LLVMGetMaskValue': (I, [P, U]), 'LLVMGetNumMaskElements': (U, [P]),
        'LLVMGetNSW': (I, [P]), 'LLVMGetNUW': (I, [P]),
        'LLVMGetEnumAttributeKindForName': (U, [C.c_char_p, C.c_size_t]),
        'LLVMGetCallSiteEnumAttribute': (P, [P, U, U]), 'LLVMGetTypeAttributeValue': (P, [P]),
        'LLVMGlobalGetValueType': (P, [P]), 'LLVMGetReturnType': (P, [P]), 'LLVMGetCalledFunctionType': (P, [P]),
        'LLVMGetAlignment': (U, [P]),
        'LLVMGetNumArgOperands': (U, [P]),
    }
    for k, (r, a) in sig.items():
        f = getattr(_L, k)
        f.restype = r
        f.argtypes = a
    return _L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad',
       60: 'addrspacecast'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Ty:
    __slots__ = ('kind', 'w', 'n', 'el', 'fields', 'offs', 'size', 'align', 'ssize')
    # kind: void int float double fp80 half ptr struct array vector label metadata fn

    def __repr__(self):
        return {'int': 'i%s' % self.w}.get(self.kind, self.kind)


class Const:
    """Lazily resolved constant operand."""
    __slots__ = ('k', 'a', 'ty')

    def __init__(self, k, a, ty):
        self.k = k
        self.a = a
        self.ty = ty


class Ins:
    __slots__ = ('op', 'dst', 'ops', 'ty', 'x', 'tys', 'run')

    def __repr__(self):
        return '%s %s <- %s %s' % (self.op, self.dst, self.ops, self.x)


class Fn:
    __slots__ = ('name', 'ref', 'decl', 'nparams', 'blocks', 'nregs', 'consts', 'ninstr', 'regs0', 'argtys', 'retty')


class Module:
    def __init__(self, path):
        L = lib()
        self.L = L
        self.ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        mod = C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self.tcache = {}
        self.fns = {}
        self.globals = {}
        self.gname = {}
        self.byval = L.LLVMGetEnumAttributeKindForName(b'byval', 5)
        f = L.LLVMGetFirstFunction(mod)
        while f:
            o = Fn()
            o.name = self.vname(f)
            o.ref = f
            o.decl = bool(L.LLVMIsDeclaration(f))
            o.nparams = L.LLVMCountParams(f)
            o.blocks = None
            self.fns[o.name] = o
            self.gname[f] = o.name
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            n = self.vname(g)
            if not n:
                n = '@anon%x' % g
            self.globals[n] = g
            self.gname[g] = n
            g = L.LLVMGetNextGlobal(g)
        self.aliases = {}
        a = L.LLVMGetFirstGlobalAlias(mod)
        while a:
            self.aliases[a] = L.LLVMAliasGetAliasee(a)
            self.gname[a] = self.vname(a)
            a = L.LLVMGetNextGlobalAlias(a)

    def vname(self, v):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(v, C.byref(n))
        return s[:n.value].decode() if s else ''

    def vstr(self, v):
        p = self.L.LLVMPrintValueToString(v)
        s = C.string_at(p).decode()
        self.L.LLVMDisposeMessage(p)
        return s

    def ty(self, t):
        r = self.tcache.get(t)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetTypeKind(t)
        r = Ty()
        self.tcache[t] = r
        r.w = r.n = 0
        r.el = r.fields = r.offs = None
        r.size = r.align = r.ssize = 0
        if k == 0:
            r.kind = 'void'
        elif k == 1:
            r.kind = 'half'
        elif k == 2:
            r.kind = 'float'
            r.w = 32
        elif k == 3:
            r.kind = 'double'
            r.w = 64
        elif k == 4:
            r.kind = 'fp80'
            r.w = 80
        elif k == 7:
            r.kind = 'label'
        elif k == 8:
            r.kind = 'int'
            r.w = L.LLVMGetIntTypeWidth(t)
        elif k == 9:
            r.kind = 'fn'
        elif k == 10:
            r.kind = 'struct'
            n = L.LLVMCountStructElementTypes(t)
            r.fields = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                r.offs = None
            r.n = n
        elif k == 11:
            r.kind = 'array'
            r.n = L.LLVMGetArrayLength2(t)
            r.el = self.ty(L.LLVMGetElementType(t))
        elif k == 12:
            r.kind = 'ptr'
            r.w = 64
        elif k == 13:
            r.kind = 'vector'
            r.n = L.LLVMGetVectorSize(t)
            r.el = self.ty(L.LLVMGetElementType(t))
        elif k in (14, 16):
            r.kind = 'metadata'
        else:
            r.kind = 'other%d' % k
        if r.kind in ('int', 'float', 'double', 'fp80', 'ptr', 'array', 'vector', 'struct'):
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.ssize = L.LLVMStoreSizeOfType(self.dl, t)
            r.align = L.LLVMABIAlignmentOfType(self.dl, t)
        return r

    # ---- constants -------------------------------------------------------
    def const(self, v):
        L = self.L
        t = self.ty(L.LLVMTypeOf(v))
        if L.LLVMIsAConstantInt(v):
            if t.w <= 64:
                return Const('int', L.LLVMConstIntGetZExtValue(v) & ((1 << t.w) - 1), t)
            s = self.vstr(v).split()[-1]
            return Const('int', int(s) & ((1 << t.w) - 1), t)
        if L.LLVMIsAConstantFP(v):
            loses = C.c_int()
            return Const('fp', L.LLVMConstRealGetDouble(v, C.byref(loses)), t)
        if L.LLVMIsAConstantPointerNull(v):
            return Const('null', None, t)
        if L.LLVMIsAFunction(v):
            return Const('fn', self.gname[v], t)
        if L.LLVMIsAGlobalVariable(v):
            return Const('global', self.gname[v], t)
        if L.LLVMIsAGlobalAlias(v):
            return self.const(self.aliases[v])
        if L.LLVMIsAPoisonValue(v) or L.LLVMIsAUndefValue(v):
            return Const('undef', None, t)
        if L.LLVMIsAConstantAggregateZero(v):
            return Const('zero', None, t)
        if L.LLVMIsAConstantExpr(v):
            op = OPC[L.LLVMGetConstOpcode(v)]
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            x = None
            if op == 'gep':
                x = self.ty(L.LLVMGetGEPSourceElementType(v))
            elif op == 'icmp':
                x = ICMP[L.LLVMGetICmpPredicate(v)]
            return Const('expr', (op, ops, x), t)
        if t.kind in ('array', 'vector'):
            return Const('agg', [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(t.n)], t)
        if t.kind == 'struct':
            return Const('agg', [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(t.n)], t)
        return Const('undef', None, t)

    # ---- functions -------------------------------------------------------
    def load_fn(self, name):
        f = self.fns[name]
        if f.blocks is not None or f.decl:
            return f
        L = self.L
        idx = {}
        n = 0
        f.argtys = []
        for i in range(f.nparams):
            p = L.LLVMGetParam(f.ref, i)
            idx[p] = n
            f.argtys.append(self.ty(L.LLVMTypeOf(p)))
            n += 1
        bbs = []
        bbidx = {}
        b = L.LLVMGetFirstBasicBlock(f.ref)
        while b:
            bbidx[b] = len(bbs)
            bbs.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        insrefs = []
        for b in bbs:
            cur = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                cur.append(i)
                idx[i] = n
                n += 1
                i = L.LLVMGetNextInstruction(i)
            insrefs.append(cur)
        consts = []
        cidx = {}
        base = n

        def opnd(v):
            r = idx.get(v)
            if r is not None:
                return r
            r = cidx.get(v)
            if r is None:
                r = base + len(consts)
                cidx[v] = r
                consts.append(self.const(v))
            return r

        f.ninstr = 0
        f.blocks = []
        for bi, cur in enumerate(insrefs):
            out = []
            for v in cur:
                op = OPC[L.LLVMGetInstructionOpcode(v)]
                s = Ins()
                s.op = op
                s.dst = idx[v]
                s.ty = self.ty(L.LLVMTypeOf(v))
                s.x = None
                s.run = None
                f.ninstr += 1
                if op == 'br':
                    if L.LLVMIsConditional(v):
                        s.ops = [opnd(L.LLVMGetCondition(v))]
                        s.x = (bbidx[L.LLVMGetSuccessor(v, 0)], bbidx[L.LLVMGetSuccessor(v, 1)])
                    else:
                        s.ops = []
                        s.x = bbidx[L.LLVMGetSuccessor(v, 0)]
                elif op == 'switch':
                    no = L.LLVMGetNumOperands(v)
                    s.ops = [opnd(L.LLVMGetOperand(v, 0))]
                    s.x = (bbidx[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(v, 1))],
                           [(self.const(L.LLVMGetOperand(v, i)).a,
                             bbidx[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(v, i + 1))]) for i in range(2, no, 2)])
                elif op == 'phi':
                    s.ops = []
                    s.x = {bbidx[L.LLVMGetIncomingBlock(v, i)]: opnd(L.LLVMGetIncomingValue(v, i))
                           for i in range(L.LLVMCountIncoming(v))}
                elif op in ('call', 'invoke'):
                    na = L.LLVMGetNumArgOperands(v)
                    cv = L.LLVMGetCalledValue(v)
                    while L.LLVMIsAGlobalAlias(cv):
                        cv = self.aliases[cv]
                    name_ = self.gname.get(cv) if L.LLVMIsAFunction(cv) else None
                    args = []
                    skip = name_ is not None and (name_.startswith('llvm.dbg') or name_.startswith('llvm.lifetime')
                                                  or name_.startswith('llvm.experimental.noalias'))
                    byv = None
                    if not skip:
                        for i in range(na):
                            ov = L.LLVMGetOperand(v, i)
                            args.append(opnd(ov) if self.ty(L.LLVMTypeOf(ov)).kind != 'metadata' else None)
                            if args[-1] is not None:
                                a = L.LLVMGetCallSiteEnumAttribute(v, i + 1, self.byval)
                                if a:
                                    byv = byv or {}
                                    byv[i] = self.ty(L.LLVMGetTypeAttributeValue(a)).size
                    s.ops = args
                    callee = None
                    if name_ is None and not L.LLVMIsAInlineAsm(cv):
                        callee = opnd(cv)
                    nxt = bbidx[L.LLVMGetNormalDest(v)] if op == 'invoke' else None
                    s.x = (name_, callee, nxt, byv, skip)
                    s.tys = [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(v, i))) for i in range(na)]
                    out.append(s)
                    continue
                elif op in ('landingpad', 'resume', 'unreachable', 'fence'):
                    s.ops = []
                else:
                    no = L.LLVMGetNumOperands(v)
                    s.ops = [opnd(L.LLVMGetOperand(v, i)) for i in range(no)]
                    if op == 'icmp':
                        s.x = ICMP[L.LLVMGetICmpPredicate(v)]
                    elif op == 'fcmp':
                        s.x = FCMP[L.LLVMGetFCmpPredicate(v)]
                    elif op == 'alloca':
                        s.x = self.ty(L.LLVMGetAllocatedType(v))
                    elif op == 'gep':
                        s.x = self.ty(L.LLVMGetGEPSourceElementType(v))
                    elif op in ('extractvalue', 'insertvalue'):
                        ni = L.LLVMGetNumIndices(v)
                        p = L.LLVMGetIndices(v)
                        s.x = [p[i] for i in range(ni)]
                    elif op == 'shufflevector':
                        s.x = [L.LLVMGetMaskValue(v, i) for i in range(L.LLVMGetNumMaskElements(v))]
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        s.x = bool(L.LLVMGetNSW(v))
                    elif op == 'atomicrmw':
                        m = re.search(r'atomicrmw (?:volatile )?(\w+) ', self.vstr(v))
                        s.x = m.group(1)
                s.tys = [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(v, i))) for i in range(L.LLVMGetNumOperands(v))] \
                    if op not in ('br', 'phi', 'switch', 'landingpad', 'resume', 'unreachable', 'fence') else \
                    ([self.ty(L.LLVMTypeOf(L.LLVMGetOperand(v, 0)))] if op == 'switch' else [])
                out.append(s)
            f.blocks.append(out)
        f.nregs = base + len(consts)
        f.consts = consts
        f.regs0 = None
        return f
