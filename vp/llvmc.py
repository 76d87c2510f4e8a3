"""Thin ctypes binding to libLLVM-18's C API: loads a bitcode/IR file."""
import ctypes as C

_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so')
P, I, U, UL, S, B = C.c_void_p, C.c_int, C.c_uint, C.c_ulonglong, C.c_char_p, C.c_int


def _f(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


for _n, _r, _a in [
    ('LLVMContextCreate', P, ()),
    ('LLVMCreateMemoryBufferWithContentsOfFile', I, (S, C.POINTER(P), C.POINTER(S))),
    ('LLVMParseIRInContext', I, (P, P, C.POINTER(P), C.POINTER(S))),
    ('LLVMGetModuleDataLayout', P, (P,)),
    ('LLVMOffsetOfElement', UL, (P, P, U)), ('LLVMABISizeOfType', UL, (P, P)),
    ('LLVMStoreSizeOfType', UL, (P, P)), ('LLVMABIAlignmentOfType', U, (P, P)),
    ('LLVMGetFirstFunction', P, (P,)), ('LLVMGetNextFunction', P, (P,)),
    ('LLVMGetFirstGlobal', P, (P,)), ('LLVMGetNextGlobal', P, (P,)),
    ('LLVMGetFirstGlobalAlias', P, (P,)), ('LLVMGetNextGlobalAlias', P, (P,)),
    ('LLVMAliasGetAliasee', P, (P,)), ('LLVMIsAGlobalAlias', P, (P,)),
    ('LLVMGetInitializer', P, (P,)), ('LLVMGlobalGetValueType', P, (P,)), ('LLVMIsGlobalConstant', I, (P,)),
    ('LLVMIsDeclaration', I, (P,)), ('LLVMGetValueName2', C.c_void_p, (P, C.POINTER(C.c_size_t))),
    ('LLVMCountParams', U, (P,)), ('LLVMGetParam', P, (P, U)),
    ('LLVMGetFirstBasicBlock', P, (P,)), ('LLVMGetNextBasicBlock', P, (P,)),
    ('LLVMGetFirstInstruction', P, (P,)), ('LLVMGetNextInstruction', P, (P,)),
    ('LLVMGetBasicBlockTerminator', P, (P,)),
    ('LLVMGetInstructionOpcode', I, (P,)), ('LLVMGetICmpPredicate', I, (P,)), ('LLVMGetFCmpPredicate', I, (P,)),
    ('LLVMGetNumOperands', I, (P,)), ('LLVMGetOperand', P, (P, U)),
    ('LLVMTypeOf', P, (P,)), ('LLVMGetTypeKind', I, (P,)), ('LLVMGetIntTypeWidth', U, (P,)),
    ('LLVMGetElementType', P, (P,)), ('LLVMGetArrayLength2', UL, (P,)), ('LLVMGetVectorSize', U, (P,)),
    ('LLVMCountStructElementTypes', U, (P,)), ('LLVMStructGetTypeAtIndex', P, (P, U)),
    ('LLVMGetGEPSourceElementType', P, (P,)), ('LLVMGetAllocatedType', P, (P,)),
    ('LLVMGetCalledValue', P, (P,)), ('LLVMGetNumArgOperands', U, (P,)),
    ('LLVMGetNormalDest', P, (P,)), ('LLVMGetUnwindDest', P, (P,)),
    ('LLVMCountIncoming', U, (P,)), ('LLVMGetIncomingValue', P, (P, U)), ('LLVMGetIncomingBlock', P, (P, U)),
    ('LLVMGetNumIndices', U, (P,)), ('LLVMGetIndices', C.POINTER(U), (P,)),
    ('LLVMGetNumClauses', U, (P,)), ('LLVMGetClause', P, (P, U)), ('LLVMIsCleanup', I, (P,)),
    ('LLVMGetNumMaskElements', U, (P,)), ('LLVMGetMaskValue', I, (P, U)),
    ('LLVMGetNumSuccessors', U, (P,)), ('LLVMGetSuccessor', P, (P, U)),
    ('LLVMIsConstant', I, (P,)), ('LLVMIsAConstantInt', P, (P,)), ('LLVMConstIntGetZExtValue', UL, (P,)),
    ('LLVMIsAConstantFP', P, (P,)), ('LLVMConstRealGetDouble', C.c_double, (P, C.POINTER(I))),
    ('LLVMIsNull', I, (P,)), ('LLVMIsUndef', I, (P,)), ('LLVMIsPoison', I, (P,)),
    ('LLVMGetValueKind', I, (P,)), ('LLVMGetConstOpcode', I, (P,)),
    ('LLVMGetAggregateElement', P, (P, U)), ('LLVMPrintValueToString', P, (P,)), ('LLVMPrintTypeToString', P, (P,)),
    ('LLVMIsAFunction', P, (P,)), ('LLVMIsAGlobalVariable', P, (P,)), ('LLVMIsAInstruction', P, (P,)),
    ('LLVMGetReturnType', P, (P,)), ('LLVMGetCalledFunctionType', P, (P,)), ('LLVMIsInBounds', I, (P,)),
    ('LLVMGetAtomicRMWBinOp', I, (P,)), ('LLVMGetOrdering', I, (P,)), ('LLVMGetInstructionParent', P, (P,)),
    ('LLVMGetSwitchDefaultDest', P, (P,)), ('LLVMIsConditional', I, (P,)), ('LLVMGetCondition', P, (P,)),
    ('LLVMGetAlignment', U, (P,)),
]:
    globals()[_n[4:]] = _f(_n, _r, *_a)

OP = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
      8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
      17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
      26: 'alloca', 27: 'load', 28: 'store', 29: 'getelementptr', 30: 'trunc', 31: 'zext', 32: 'sext',
      33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
      40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
      46: 'select', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
      53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
      58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86fp80', 5: 'fp128', 7: 'label', 8: 'int', 9: 'function',
      10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}


def name(v):
    n = C.c_size_t()
    p = GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode('utf-8', 'replace') if p else ''


def show(v):
    return C.string_at(PrintValueToString(v)).decode('utf-8', 'replace')


def showty(t):
    return C.string_at(PrintTypeToString(t)).decode()


class Ty:
    """Cached type description."""
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'offs', 'size', 'ssize', 'ref', 'align')


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf, err, mod = P(), S(), P()
        if CreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError('cannot read ' + path)
        if ParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError('cannot parse %s: %s' % (path, err.value))
        self.m = mod
        self.dl = GetModuleDataLayout(mod)
        self._ty = {}
        self.funcs, self.globals, self.aliases = {}, {}, {}
        f = GetFirstFunction(mod)
        while f:
            self.funcs[name(f)] = f
            f = GetNextFunction(f)
        g = GetFirstGlobal(mod)
        while g:
            self.globals[name(g)] = g
            g = GetNextGlobal(g)
        a = GetFirstGlobalAlias(mod)
        while a:
            self.aliases[name(a)] = a
            a = GetNextGlobalAlias(a)

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        r = Ty()
        self._ty[t] = r
        r.ref = t
        r.k = TK.get(GetTypeKind(t), 'other')
        r.w = r.n = 0
        r.el = r.els = r.offs = None
        r.size = r.ssize = 0
        if r.k == 'int':
            r.w = GetIntTypeWidth(t)
        elif r.k in ('array', 'vector'):
            r.n = GetArrayLength2(t) if r.k == 'array' else GetVectorSize(t)
            r.el = self.ty(GetElementType(t))
        elif r.k == 'struct':
            r.n = CountStructElementTypes(t)
            r.els = [self.ty(StructGetTypeAtIndex(t, i)) for i in range(r.n)]
            r.offs = [OffsetOfElement(self.dl, t, i) for i in range(r.n)]
        if r.k not in ('void', 'function', 'label', 'metadata', 'token', 'other'):
            r.size = ABISizeOfType(self.dl, t)
            r.ssize = StoreSizeOfType(self.dl, t)
            r.align = ABIAlignmentOfType(self.dl, t)
        return r

    def tyof(self, v):
        return self.ty(TypeOf(v))
