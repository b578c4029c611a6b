"""Thin ctypes view of LLVM bitcode (libLLVM-18 C API): just enough to walk a
module's globals, functions, blocks and instructions."""
import ctypes as C, ctypes.util, glob

def _find():
    for p in ('/usr/lib/llvm-18/lib/libLLVM.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so',
              '/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so'):
        if glob.glob(p):
            return p
    for p in glob.glob('/usr/lib/**/libLLVM*18*.so*', recursive=True):
        return p
    raise RuntimeError('libLLVM-18 not found')

L = C.CDLL(_find())
P = C.c_void_p

def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

u = C.c_uint
ContextCreate = _f('LLVMContextCreate', P)
MemBufFile = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f('LLVMParseBitcodeInContext2', C.c_int, P, P, C.POINTER(P))
GetDL = _f('LLVMGetModuleDataLayout', P, P)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
OffsetOf = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, u)
FirstFn = _f('LLVMGetFirstFunction', P, P); NextFn = _f('LLVMGetNextFunction', P, P)
FirstGl = _f('LLVMGetFirstGlobal', P, P); NextGl = _f('LLVMGetNextGlobal', P, P)
FirstAl = _f('LLVMGetFirstGlobalAlias', P, P); NextAl = _f('LLVMGetNextGlobalAlias', P, P)
Aliasee = _f('LLVMAliasGetAliasee', P, P)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P); NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstI = _f('LLVMGetFirstInstruction', P, P); NextI = _f('LLVMGetNextInstruction', P, P)
BBTerm = _f('LLVMGetBasicBlockTerminator', P, P)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
_Name = _f('LLVMGetValueName2', P, P, C.POINTER(C.c_size_t))
IsDecl = _f('LLVMIsDeclaration', C.c_int, P)
Linkage = _f('LLVMGetLinkage', C.c_int, P)
GInit = _f('LLVMGetInitializer', P, P)
IsConstGlobal = _f('LLVMIsGlobalConstant', C.c_int, P)
GValType = _f('LLVMGlobalGetValueType', P, P)
TypeOf = _f('LLVMTypeOf', P, P)
TKind = _f('LLVMGetTypeKind', C.c_int, P)
IntW = _f('LLVMGetIntTypeWidth', u, P)
ElemT = _f('LLVMGetElementType', P, P)
ArrLen = _f('LLVMGetArrayLength2', C.c_uint64, P)
VecLen = _f('LLVMGetVectorSize', u, P)
StructN = _f('LLVMCountStructElementTypes', u, P)
StructT = _f('LLVMStructGetTypeAtIndex', P, P, u)
NOps = _f('LLVMGetNumOperands', C.c_int, P)
Op = _f('LLVMGetOperand', P, P, u)
VKind = _f('LLVMGetValueKind', C.c_int, P)
ConstZ = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
ConstD = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
ConstOp = _f('LLVMGetConstOpcode', C.c_int, P)
AggElem = _f('LLVMGetAggregateElement', P, P, u)
ICmpP = _f('LLVMGetICmpPredicate', C.c_int, P)
FCmpP = _f('LLVMGetFCmpPredicate', C.c_int, P)
GepT = _f('LLVMGetGEPSourceElementType', P, P)
AllocT = _f('LLVMGetAllocatedType', P, P)
PhiN = _f('LLVMCountIncoming', u, P); PhiV = _f('LLVMGetIncomingValue', P, P, u); PhiB = _f('LLVMGetIncomingBlock', P, P, u)
Called = _f('LLVMGetCalledValue', P, P)
NArgs = _f('LLVMGetNumArgOperands', u, P)
NDest = _f('LLVMGetNormalDest', P, P); UDest = _f('LLVMGetUnwindDest', P, P)
NClause = _f('LLVMGetNumClauses', u, P); Clause = _f('LLVMGetClause', P, P, u); IsCleanup = _f('LLVMIsCleanup', C.c_int, P)
NIdx = _f('LLVMGetNumIndices', u, P); Idx = _f('LLVMGetIndices', C.POINTER(u), P)
CountParams = _f('LLVMCountParams', u, P); Param = _f('LLVMGetParam', P, P, u)
NSucc = _f('LLVMGetNumSuccessors', u, P); Succ = _f('LLVMGetSuccessor', P, P, u)
IsCond = _f('LLVMIsConditional', C.c_int, P)
ValAsBB = _f('LLVMValueAsBasicBlock', P, P)
PrintV = _f('LLVMPrintValueToString', P, P)
PrintT = _f('LLVMPrintTypeToString', P, P)
MaskN = _f('LLVMGetNumMaskElements', u, P); MaskE = _f('LLVMGetMaskValue', C.c_int, P, u)
IntrID = _f('LLVMGetIntrinsicID', u, P)

def name(v):
    n = C.c_size_t()
    p = _Name(v, C.byref(n))
    return C.string_at(p, n.value).decode()

def pr(v):
    return C.string_at(PrintV(v)).decode().strip()

def prt(t):
    return C.string_at(PrintT(t)).decode().strip()

def parse(path):
    ctx = ContextCreate()
    mb = P(); err = C.c_char_p()
    if MemBufFile(path.encode(), C.byref(mb), C.byref(err)):
        raise RuntimeError(err.value)
    m = P()
    if ParseBC(ctx, mb, C.byref(m)):
        raise RuntimeError('cannot parse ' + path)
    return m

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',8:'add',9:'fadd',
 10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',
 22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',
 33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
 60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',48:'userop2',49:'vaarg',
 50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',
 56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
# value kinds
VK = {0:'arg',1:'bb',2:'muse',3:'mdef',4:'mphi',5:'function',6:'alias',7:'ifunc',8:'global',9:'blockaddr',10:'cexpr',
 11:'carray',12:'cstruct',13:'cvector',14:'undef',15:'czero',16:'cdarray',17:'cdvector',18:'cint',19:'cfp',20:'cnull',
 21:'ctoken',22:'mdvalue',23:'inlineasm',24:'inst',25:'poison',26:'ctarget'}
TK = {0:'void',1:'half',2:'float',3:'double',4:'x86fp80',5:'fp128',6:'ppcfp128',7:'label',8:'int',9:'func',10:'struct',
 11:'array',12:'ptr',13:'vector',14:'metadata',16:'token'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
