"""Load LLVM bitcode through the LLVM-C API and translate each function into a
Python function working on concrete ints/floats or symbolic expressions."""
import ctypes as C
import math
import struct

_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM.so.18.1')


def _f(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


P = C.c_void_p
U = C.c_uint
S = C.c_char_p
ctxCreate = _f('LLVMContextCreate', P)
memBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, S, C.POINTER(P), C.POINTER(S))
parseIR = _f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(S))
firstFn = _f('LLVMGetFirstFunction', P, P)
nextFn = _f('LLVMGetNextFunction', P, P)
firstGl = _f('LLVMGetFirstGlobal', P, P)
nextGl = _f('LLVMGetNextGlobal', P, P)
firstAl = _f('LLVMGetFirstGlobalAlias', P, P)
nextAl = _f('LLVMGetNextGlobalAlias', P, P)
aliasee = _f('LLVMAliasGetAliasee', P, P)
_name = _f('LLVMGetValueName2', P, P, C.POINTER(C.c_size_t))
countBB = _f('LLVMCountBasicBlocks', U, P)
firstBB = _f('LLVMGetFirstBasicBlock', P, P)
nextBB = _f('LLVMGetNextBasicBlock', P, P)
firstI = _f('LLVMGetFirstInstruction', P, P)
nextI = _f('LLVMGetNextInstruction', P, P)
opcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
nOps = _f('LLVMGetNumOperands', C.c_int, P)
operand = _f('LLVMGetOperand', P, P, U)
typeOf = _f('LLVMTypeOf', P, P)
tkind = _f('LLVMGetTypeKind', C.c_int, P)
intW = _f('LLVMGetIntTypeWidth', U, P)
nParams = _f('LLVMCountParams', U, P)
param = _f('LLVMGetParam', P, P, U)
isConst = _f('LLVMIsConstant', C.c_int, P)
vkind = _f('LLVMGetValueKind', C.c_int, P)
zval = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
rval = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
constOp = _f('LLVMGetConstOpcode', C.c_int, P)
aggEl = _f('LLVMGetAggregateElement', P, P, U)
getInit = _f('LLVMGetInitializer', P, P)
gvType = _f('LLVMGlobalGetValueType', P, P)
isDecl = _f('LLVMIsDeclaration', C.c_int, P)
calledV = _f('LLVMGetCalledValue', P, P)
calledFT = _f('LLVMGetCalledFunctionType', P, P)
retType = _f('LLVMGetReturnType', P, P)
isVarArg = _f('LLVMIsFunctionVarArg', C.c_int, P)
nArgs = _f('LLVMGetNumArgOperands', U, P)
gepTy = _f('LLVMGetGEPSourceElementType', P, P)
allocTy = _f('LLVMGetAllocatedType', P, P)
icmpP = _f('LLVMGetICmpPredicate', C.c_int, P)
fcmpP = _f('LLVMGetFCmpPredicate', C.c_int, P)
normDest = _f('LLVMGetNormalDest', P, P)
unwDest = _f('LLVMGetUnwindDest', P, P)
nSucc = _f('LLVMGetNumSuccessors', U, P)
succ = _f('LLVMGetSuccessor', P, P, U)
isCond = _f('LLVMIsConditional', C.c_int, P)
cond = _f('LLVMGetCondition', P, P)
nInc = _f('LLVMCountIncoming', U, P)
incV = _f('LLVMGetIncomingValue', P, P, U)
incB = _f('LLVMGetIncomingBlock', P, P, U)
bbVal = _f('LLVMBasicBlockAsValue', P, P)
valBB = _f('LLVMValueAsBasicBlock', P, P)
nIdx = _f('LLVMGetNumIndices', U, P)
idxs = _f('LLVMGetIndices', C.POINTER(U), P)
nClause = _f('LLVMGetNumClauses', U, P)
clause = _f('LLVMGetClause', P, P, U)
isCleanup = _f('LLVMIsCleanup', C.c_int, P)
tdata = _f('LLVMGetModuleDataLayout', P, P)
abiSize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
storeSize = _f('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
offEl = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, U)
nElts = _f('LLVMCountStructElementTypes', U, P)
eltAt = _f('LLVMStructGetTypeAtIndex', P, P, U)
elType = _f('LLVMGetElementType', P, P)
arrLen = _f('LLVMGetArrayLength2', C.c_uint64, P)
vecLen = _f('LLVMGetVectorSize', U, P)
instParent = _f('LLVMGetInstructionParent', P, P)
toStr = _f('LLVMPrintValueToString', P, P)
atomicOp = _f('LLVMGetAtomicRMWBinOp', C.c_int, P)

K_VOID, K_HALF, K_FLOAT, K_DOUBLE, K_X86FP80 = 0, 1, 2, 3, 4
K_LABEL, K_INT, K_FN, K_STRUCT, K_ARRAY, K_PTR, K_VEC, K_META = 7, 8, 9, 10, 11, 12, 13, 14

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem',
       19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
# value kinds
VK = {0: 'arg', 1: 'bb', 5: 'fn', 6: 'alias', 7: 'ifunc', 8: 'gvar', 9: 'blockaddr', 10: 'cexpr', 11: 'carr', 12: 'cstruct',
      13: 'cvec', 14: 'undef', 15: 'czero', 16: 'cdarr', 17: 'cdvec', 18: 'cint', 19: 'cfp', 20: 'cnull', 21: 'cnone',
      22: 'meta', 23: 'asm', 24: 'inst', 25: 'poison'}


def name(v):
    n = C.c_size_t()
    p = _name(v, C.byref(n))
    return C.string_at(p, n.value).decode()


def vstr(v):
    return C.string_at(toStr(v)).decode().strip()


class Module:
    def __init__(self, path):
        self.ctx = ctxCreate()
        buf = P()
        err = S()
        if memBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        m = P()
        if parseIR(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.m = m
        self.td = tdata(m)
        self.fns = {}
        self.decls = {}
        f = firstFn(m)
        while f:
            (self.decls if isDecl(f) else self.fns)[name(f)] = f
            f = nextFn(f)
        self.gls = {}
        g = firstGl(m)
        while g:
            self.gls[name(g)] = g
            g = nextGl(g)
        self.aliases = {}
        a = firstAl(m)
        while a:
            self.aliases[name(a)] = name(aliasee(a))
            a = nextAl(a)
        self._kc = {}
        self._sz = {}

    def size(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._sz[t] = abiSize(self.td, t)
        return r

    def kind(self, t):
        """('i',w) ('f',) ('d',) ('p',) ('s',) ('v',) ('a',)..."""
        r = self._kc.get(t)
        if r is None:
            k = tkind(t)
            if k == K_INT:
                r = ('i', intW(t))
            elif k == K_PTR:
                r = ('p', 64)
            elif k == K_FLOAT:
                r = ('f', 32)
            elif k == K_DOUBLE:
                r = ('d', 64)
            elif k == K_VOID:
                r = ('v', 0)
            elif k == K_X86FP80:
                r = ('x', 80)
            elif k == K_STRUCT:
                r = ('s', 0)
            elif k == K_ARRAY:
                r = ('a', 0)
            elif k == K_VEC:
                r = ('vec', vecLen(t))
            elif k == K_META:
                r = ('m', 0)
            else:
                r = ('?', k)
            self._kc[t] = r
        return r

    def fields(self, t):
        """list of (offset, type) for struct/array"""
        k = tkind(t)
        if k == K_STRUCT:
            return [(offEl(self.td, t, i), eltAt(t, i)) for i in range(nElts(t))]
        if k == K_ARRAY:
            et = elType(t)
            s = self.size(et)
            return [(i * s, et) for i in range(arrLen(t))]
        if k == K_VEC:
            et = elType(t)
            s = self.size(et)
            return [(i * s, et) for i in range(vecLen(t))]
        raise NotImplementedError

    def const(self, v, resolve):
        """constant -> python value (int/float/bool/tuple); resolve(name)->address; None = undef"""
        k = VK.get(vkind(v))
        t = typeOf(v)
        kt = self.kind(t)
        if k == 'cint':
            if kt[1] > 64:
                return int(vstr(v).split()[-1]) & ((1 << kt[1]) - 1)
            x = zval(v)
            if kt[1] == 1:
                return bool(x)
            return x & ((1 << kt[1]) - 1)
        if k == 'cfp':
            l = C.c_int()
            if kt[0] == 'x':
                return float(rval(v, C.byref(l)))
            return rval(v, C.byref(l))
        if k == 'cnull':
            return 0
        if k in ('fn', 'gvar', 'alias'):
            return resolve(name(v))
        if k in ('undef', 'poison'):
            if kt[0] in ('s', 'a', 'vec'):
                return tuple(None for _ in self.fields(t))
            return None
        if k == 'czero':
            return self.zero(t)
        if k in ('carr', 'cstruct', 'cdarr', 'cvec', 'cdvec'):
            return tuple(self.const(aggEl(v, i), resolve) for i in range(len(self.fields(t))))
        if k == 'cexpr':
            op = OPC[constOp(v)]
            if op == 'gep':
                base = self.const(operand(v, 0), resolve)
                off = 0
                ty = gepTy(v)
                for i in range(1, nOps(v)):
                    ix = self.const(operand(v, i), resolve)
                    w = self.kind(typeOf(operand(v, i)))[1]
                    if ix >> (w - 1):
                        ix -= 1 << w
                    if i == 1:
                        off += ix * self.size(ty)
                    elif tkind(ty) == K_STRUCT:
                        off += offEl(self.td, ty, ix)
                        ty = eltAt(ty, ix)
                    else:
                        ty = elType(ty)
                        off += ix * self.size(ty)
                return (base + off) & ((1 << 64) - 1)
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.const(operand(v, 0), resolve)
            if op in ('add', 'sub'):
                a = self.const(operand(v, 0), resolve)
                b = self.const(operand(v, 1), resolve)
                return (a + b if op == 'add' else a - b) & ((1 << kt[1]) - 1)
            if op == 'trunc':
                return self.const(operand(v, 0), resolve) & ((1 << kt[1]) - 1)
        raise NotImplementedError('const %s %s' % (k, vstr(v)))

    def zero(self, t):
        k = self.kind(t)[0]
        if k in ('i', 'p'):
            return False if self.kind(t) == ('i', 1) else 0
        if k in ('f', 'd', 'x'):
            return 0.0
        return tuple(self.zero(ft) for _, ft in self.fields(t))


class Translator:
    """emits Python source for a function.  Runtime names available:
    M (machine), K (constants), helper functions from rt."""

    def __init__(self, mod, machine):
        self.mod = mod
        self.M = machine

    def translate(self, fv):
        mod = self.mod
        fname = name(fv)
        self.K = []
        self.vn = {}
        np_ = nParams(fv)
        params = []
        for i in range(np_):
            p = param(fv, i)
            n = 'a%d' % i
            self.vn[p] = n
            params.append(n)
        bbs = {}
        order = []
        b = firstBB(fv)
        while b:
            bbs[b] = len(order)
            order.append(b)
            b = nextBB(b)
        cnt = 0
        insts = {}
        for b in order:
            L = []
            i = firstI(b)
            while i:
                self.vn[i] = 'v%d' % cnt
                cnt += 1
                L.append(i)
                i = nextI(i)
            insts[b] = L
        self.bbs = bbs
        self.insts = insts
        self.isinst = {i for L in insts.values() for i in L}
        self.phis = {b: [i for i in insts[b] if OPC.get(opcode(i)) == 'phi'] for b in order}
        va = isVarArg(gvType(fv))
        self.has_alloca = False
        blocks = []
        for b in order:
            blocks.append(self.block(b, insts[b]))
        out = []
        out.append('def fn(%s):' % ', '.join(params + (['*va'] if va else [])))
        out.append(' M.enter(FN)')
        out.append(' AL=[]')
        out.append(' try:')
        out.append('  bb=0')
        out.append('  while True:')
        self.tree(out, blocks, 0, len(blocks), '   ')
        out.append(' finally:')
        out.append('  M.leave(AL)')
        src = '\n'.join(out)
        ns = dict(self.M.ns)
        ns['FN'] = fname
        ns['K'] = self.K
        try:
            exec(compile(src, '<' + fname + '>', 'exec'), ns)
        except SyntaxError:
            print(src)
            raise
        return ns['fn']

    def tree(self, out, blocks, lo, hi, ind):
        if hi - lo == 1:
            for l in blocks[lo]:
                out.append(ind + l)
            return
        mid = (lo + hi) // 2
        out.append(ind + 'if bb<%d:' % mid)
        self.tree(out, blocks, lo, mid, ind + ' ')
        out.append(ind + 'else:')
        self.tree(out, blocks, mid, hi, ind + ' ')

    def val(self, v):
        n = self.vn.get(v)
        if n is not None:
            return n
        k = VK.get(vkind(v))
        if k == 'asm':
            return 'None'
        c = self.mod.const(v, self.M.resolve)
        if c is None:
            t = self.mod.kind(typeOf(v))
            return 'UNDEF(%r,%d)' % (t[0], t[1])
        if isinstance(c, bool):
            return 'True' if c else 'False'
        if isinstance(c, int):
            return str(c)
        if isinstance(c, float):
            if math.isnan(c) or math.isinf(c):
                self.K.append(c)
                return 'K[%d]' % (len(self.K) - 1)
            return repr(c)
        self.K.append(c)
        return 'K[%d]' % (len(self.K) - 1)

    def edge(self, frm, to):
        """statements transferring control from block frm to block to"""
        ph = self.phis[to]
        st = []
        if ph:
            ls, rs = [], []
            for p in ph:
                for i in range(nInc(p)):
                    if incB(p, i) == frm:
                        ls.append(self.vn[p])
                        rs.append(self.val(incV(p, i)))
                        break
            if ls:
                if ls == rs:
                    pass
                else:
                    st.append('%s = %s' % (', '.join(ls), ', '.join(rs)))
        st.append('bb=%d' % self.bbs[to])
        st.append('continue')
        return '; '.join(st)

    PURE = {'load', 'getelementptr', 'gep', 'icmp', 'and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'trunc', 'zext',
            'sext', 'bitcast'}

    def ifconv(self, b, i):
        """Conditional chains without side effects (?:, && and || on integers):
        lines that evaluate every operand and either choose the phi values or
        branch once, when the first condition is symbolic and nothing can trap;
        falling through means take the ordinary branch."""
        insts = self.insts
        c0 = cond(i)
        if c0 not in self.isinst:
            return None
        # floating-point conditions: only ?: between ready values
        trivial_only = OPC.get(opcode(c0)) == 'fcmp'
        budget = [6]
        exits = []      # (target block, from block)
        ev = []

        def pure(t):
            L = insts[t]
            if len(L) > 24 or budget[0] == 0 or self.phis[t]:
                return False
            last = L[-1]
            if OPC.get(opcode(last)) != 'br':
                return False
            if len(L) > 1 and trivial_only:
                return False
            for x in L[:-1]:
                op = OPC.get(opcode(x))
                if op not in self.PURE:
                    return False
                if op == 'load' and self.mod.kind(typeOf(x))[0] not in ('i', 'p', 'd', 'f'):
                    return False
            return True

        def go(t, frm):
            """tree: ('exit', n) | ('cond', c, tree, tree)"""
            if t != b and pure(t):
                budget[0] -= 1
                L = insts[t]
                if len(L) > 1:
                    ev.append((t, L[:-1]))
                last = L[-1]
                if not isCond(last):
                    return go(succ(last, 0), t)
                c = cond(last)
                if c in self.isinst and OPC.get(opcode(c)) == 'fcmp':
                    return None
                x = go(succ(last, 0), t)
                y = go(succ(last, 1), t) if x else None
                return ('cond', self.val(c), x, y) if x and y else None
            e = (t, frm)
            if e not in exits:
                exits.append(e)
            return ('exit', exits.index(e))
        x = go(succ(i, 0), b)
        y = go(succ(i, 1), b) if x else None
        if not x or not y:
            return None
        tree = ('cond', self.val(cond(i)), x, y)
        targets = []
        for t, f in exits:
            if t not in targets:
                targets.append(t)
        if len(targets) > 2 or (len(targets) == 2 and (trivial_only or not ev)):
            return None
        kinds = {}
        for t in targets:
            fr = [f for u, f in exits if u == t]
            if len(fr) > 1 or len(targets) == 1:
                for p in self.phis[t]:
                    kt = self.mod.kind(typeOf(p))
                    if kt[0] not in ('i', 'd', 'f') or (len(targets) == 2):
                        return None
                    kinds[p] = 'b' if kt == ('i', 1) else kt[1] if kt[0] == 'i' else kt[0]
        if len(targets) == 1 and not kinds:
            return None

        def inc(p, f):
            for k in range(nInc(p)):
                if incB(p, k) == f:
                    return self.val(incV(p, k))
            return None

        def pick(n, p, k2):
            if n[0] == 'exit':
                return inc(p, exits[n[1]][1])
            return 'ite(%s,%s,%s,%r)' % (n[1], pick(n[2], p, k2), pick(n[3], p, k2), k2)

        def reach(n):
            if n[0] == 'exit':
                return 'True' if exits[n[1]][0] == targets[0] else 'False'
            return "ite(%s,%s,%s,'b')" % (n[1], reach(n[2]), reach(n[3]))
        out = ['if type(%s) is E:' % tree[1]]
        ind = ' '
        if ev:
            out += [' try:', '  M.spec=True']
            ind = '  '
            for t, L in ev:
                buf = []
                for x in L:
                    self.inst(t, x, buf)
                out += [ind + l for l in buf]
        if len(targets) == 1:
            J = targets[0]
            ps = self.phis[J]
            out.append(ind + '%s = %s' % (', '.join(self.vn[p] for p in ps) + ',', ', '.join(pick(tree, p, kinds[p]) for p in ps) + ','))
            out.append(ind + 'bb=%d' % self.bbs[J])
            if ev:
                out += [' except PathEnd: pass', ' else: M.spec=False; continue', ' M.spec=False']
            else:
                out.append(' continue')
        else:
            out.append(ind + 'cc = %s' % reach(tree))
            out += [' except PathEnd: pass', ' else:', '  M.spec=False']
            for k, t in enumerate(targets):
                f = [f for u, f in exits if u == t][0]
                st = self.edge(f, t)
                if k == 0:
                    out += ['  if (cc if type(cc) is bool else BR(cc)):', '   ' + st]
                else:
                    out.append('  ' + st)
            out.append(' M.spec=False')
        return out

    def block(self, b, L):
        out = ['M.steps+=%d' % len(L)]
        for i in L:
            self.inst(b, i, out)
        return out

    def gep(self, i):
        mod = self.mod
        ptr = self.val(operand(i, 0))
        ty = gepTy(i)
        off = 0
        terms = []
        for n in range(1, nOps(i)):
            o = operand(i, n)
            if n > 1 and tkind(ty) == K_STRUCT:
                ix = zval(o)
                off += offEl(mod.td, ty, ix)
                ty = eltAt(ty, ix)
                continue
            if n == 1:
                sz = mod.size(ty)
            else:
                ty = elType(ty)
                sz = mod.size(ty)
            w = mod.kind(typeOf(o))[1]
            if VK.get(vkind(o)) == 'cint':
                x = zval(o)
                if x >> (w - 1) & 1:
                    x -= 1 << w
                off += x * sz
            else:
                terms.append((self.val(o), w, sz))
        if not terms:
            return 'GEP0(%s,%d)' % (ptr, off)
        e = 'GEP0(%s,%d)' % (ptr, off) if off else ptr
        for (n, w, sz) in terms:
            e = 'GEP1(%s,%s,%d,%d)' % (e, n, w, sz)
        return e

    def call_expr(self, i):
        mod = self.mod
        cv = calledV(i)
        args = [self.val(operand(i, n)) if mod.kind(typeOf(operand(i, n)))[0] != 'm' else 'None' for n in range(nArgs(i))]
        k = VK.get(vkind(cv))
        if k in ('fn', 'alias'):
            nm = name(cv)
            if nm.startswith('llvm.'):
                return self.intrinsic(i, nm, args)
            return 'F[%r](%s)' % (nm, ', '.join(args))
        if k == 'asm':
            return 'M.unsupported("inline asm")'
        return 'ICALL(%s, (%s))' % (self.val(cv), ''.join(a + ', ' for a in args))

    def intrinsic(self, i, nm, args):
        mod = self.mod
        p = nm.split('.')
        t = mod.kind(typeOf(i))
        if nm.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.invariant')):
            return None
        if p[1] in ('memcpy', 'memmove'):
            return 'MEMCPY(%s)' % ', '.join(args[:3])
        if p[1] == 'memset':
            return 'MEMSET(%s)' % ', '.join(args[:3])
        if p[1] in ('trap', 'debugtrap'):
            return 'M.crash("trap")'
        if p[1] == 'expect':
            return args[0]
        if p[1] == 'fmuladd' or p[1] == 'fma':
            return 'fbin("fadd",%r,fbin("fmul",%r,%s,%s),%s)' % (t[0], t[0], args[0], args[1], args[2])
        if p[1] in ('fabs', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'sqrt', 'sin', 'cos', 'log', 'exp', 'log10', 'log2'):
            o = {'nearbyint': 'rint'}.get(p[1], p[1])
            return 'fun(%r,%r,%s)' % (o, t[0], args[0])
        if p[1] in ('maxnum', 'minnum'):
            return 'FMM(%r,%r,%s,%s)' % (p[1], t[0], args[0], args[1])
        if p[1] == 'copysign':
            return 'COPYSIGN(%r,%s,%s)' % (t[0], args[0], args[1])
        if p[1] == 'pow':
            return 'F["pow"](%s,%s)' % (args[0], args[1])
        if p[1] in ('umax', 'umin', 'smax', 'smin'):
            return 'IMM(%r,%d,%s,%s)' % (p[1], t[1], args[0], args[1])
        if p[1] == 'abs':
            return 'IABS(%d,%s)' % (t[1], args[0])
        if p[1] in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and p[2] == 'with':
            return 'OVF(%r,%d,%s,%s)' % (p[1], int(p[4][1:]), args[0], args[1])
        if p[1] == 'eh' and p[2] == 'typeid':
            return 'M.typeid(%s)' % args[0]
        if p[1] == 'objectsize':
            return str((1 << t[1]) - 1)
        if p[1] == 'is' and p[2] == 'constant':
            return 'False'
        if p[1] == 'is' and p[2] == 'fpclass':
            return 'FPCLASS(%s,%s)' % (args[0], args[1])
        if p[1] in ('stacksave',):
            return '0'
        if p[1] in ('stackrestore',):
            return None
        if p[1] == 'threadlocal':
            return args[0]
        if p[1] in ('va_start', 'va_end', 'va_copy'):
            return 'M.unsupported(%r)' % nm
        if p[1] in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse', 'fshl', 'fshr'):
            return 'BITS(%r,%d,%s)' % (p[1], t[1], ', '.join(args))
        return 'M.unsupported(%r)' % nm

    def inst(self, b, i, out):
        mod = self.mod
        op = OPC.get(opcode(i))
        v = self.vn[i]
        t = typeOf(i)
        kt = mod.kind(t)
        O = lambda n: self.val(operand(i, n))
        if op == 'phi':
            return
        if kt[0] == 'vec' and op not in ('load', 'extractelement', 'insertelement', 'shufflevector', 'call', 'select', 'extractvalue'):
            out.append('M.unsupported("vector " + %r)' % op)
            return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, c = O(0), O(1)
            w = kt[1]
            if w == 1:
                f = {'and': 'band', 'or': 'bor', 'xor': 'bxor', 'add': 'bxor', 'sub': 'bxor'}.get(op)
                if f is None:
                    out.append('M.unsupported("i1 %s")' % op)
                else:
                    out.append('%s = %s(%s,%s)' % (v, f, a, c))
                return
            m = (1 << w) - 1
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                sy = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
                ci, cc = a.isdigit(), c.isdigit()
                test = ' and '.join('type(%s) is int' % x for x, k in ((a, ci), (c, cc)) if not k)
                if test:
                    out.append('%s = (%s%s%s)&%d if %s else bv(%r,%d,%s,%s)' % (v, a, sy, c, m, test, op, w, a, c))
                    return
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                out.append('%s = DIV(%r,%d,%s,%s)' % (v, op, w, a, c))
            else:
                out.append('%s = bv(%r,%d,%s,%s)' % (v, op, w, a, c))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            out.append('%s = fbin(%r,%r,%s,%s)' % (v, op, kt[0] if kt[0] != 'x' else 'd', O(0), O(1)))
            return
        if op == 'fneg':
            out.append('%s = fneg(%s)' % (v, O(0)))
            return
        if op == 'alloca':
            ty = allocTy(i)
            n = O(0)
            out.append('%s = ALLOCA(AL,%d,%s,%r)' % (v, mod.size(ty), n, v))
            return
        if op == 'load':
            p = O(0)
            if kt[0] in ('i', 'p'):
                sz = (kt[1] + 7) // 8
                if kt == ('i', 1):
                    out.append('%s = trunc(LD(%s,1),1)' % (v, p))
                elif kt[0] == 'i' and kt[1] % 8:
                    out.append('%s = trunc(LD(%s,%d),%d)' % (v, p, sz, kt[1]))
                else:
                    out.append('%s = LD(%s,%d)' % (v, p, sz))
            elif kt[0] in ('f', 'd'):
                out.append('%s = LDF(%s,%r)' % (v, p, kt[0]))
            elif kt[0] == 'x':
                out.append('%s = LDX(%s)' % (v, p))
            else:
                out.append('%s = LDAGG(%s,%s)' % (v, p, self.aggdesc(t)))
            return
        if op == 'store':
            x = operand(i, 0)
            tx = typeOf(x)
            kx = mod.kind(tx)
            val = self.val(x)
            p = O(1)
            if val.startswith('UNDEF'):
                out.append('M.setundef(%s,%d)' % (p, storeSize(mod.td, tx)))
                return
            if kx[0] in ('i', 'p'):
                sz = (kx[1] + 7) // 8
                if kx == ('i', 1):
                    val = 'tob(%s,8)' % val
                elif kx[1] % 8:
                    val = 'zext(%s,%d,%d)' % (val, kx[1], sz * 8)
                out.append('ST(%s,%d,%s)' % (p, sz, val))
            elif kx[0] in ('f', 'd'):
                out.append('STF(%s,%r,%s)' % (p, kx[0], val))
            elif kx[0] == 'x':
                out.append('STX(%s,%s)' % (p, val))
            else:
                out.append('STAGG(%s,%s,%s)' % (p, self.aggdesc(tx), val))
            return
        if op == 'gep':
            out.append('%s = %s' % (v, self.gep(i)))
            return
        if op in ('trunc', 'zext', 'sext'):
            w0 = mod.kind(typeOf(operand(i, 0)))[1]
            if op == 'trunc':
                out.append('%s = trunc(%s,%d)' % (v, O(0), kt[1]))
            else:
                out.append('%s = %s(%s,%d,%d)' % (v, op, O(0), w0, kt[1]))
            return
        if op in ('fptoui', 'fptosi'):
            out.append('%s = F2I(%r,%s,%d)' % (v, op, O(0), kt[1]))
            return
        if op in ('uitofp', 'sitofp'):
            out.append('%s = i2f(%r,%r,%s,%d)' % (v, op, kt[0] if kt[0] != 'x' else 'd', O(0), mod.kind(typeOf(operand(i, 0)))[1]))
            return
        if op in ('fpext', 'fptrunc'):
            ks = mod.kind(typeOf(operand(i, 0)))[0]
            if 'x' in (ks, kt[0]):  # long double modelled as double
                out.append('%s = %s' % (v, O(0) if 'd' in (ks, kt[0]) else '%s(%s)' % (op, O(0))))
            else:
                out.append('%s = %s(%s)' % (v, op, O(0)))
            return
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            x = O(0)
            ks = mod.kind(typeOf(operand(i, 0)))
            if ks[1] != kt[1]:
                out.append('%s = %s' % (v, ('trunc(%s,%d)' % (x, kt[1])) if ks[1] > kt[1] else 'zext(%s,%d,%d)' % (x, ks[1], kt[1])))
            else:
                out.append('%s = %s' % (v, x))
            return
        if op == 'bitcast':
            ks = mod.kind(typeOf(operand(i, 0)))
            x = O(0)
            if ks[0] in ('f', 'd') and kt[0] == 'i':
                x = 'f2bits(%s,%r)' % (x, ks[0])
            elif ks[0] == 'i' and kt[0] in ('f', 'd'):
                x = 'bits2f(%s,%r)' % (x, kt[0])
            elif ks != kt:
                x = 'M.unsupported("bitcast")'
            out.append('%s = %s' % (v, x))
            return
        if op == 'icmp':
            pr = icmpP(i)
            a, c = O(0), O(1)
            w = mod.kind(typeOf(operand(i, 0)))[1]
            ops = {32: '==', 33: '!=', 34: '>', 35: '>=', 36: '<', 37: '<='}
            if pr in ops:
                t2 = ' and '.join('type(%s) is int' % x for x in (a, c) if not x.isdigit()) or 'True'
                conc = '%s%s%s' % (a, ops[pr], c)
            else:
                t2 = None
            sym = {32: 'beq(%s,%s)' % (a, c), 33: 'bnot(beq(%s,%s))' % (a, c), 34: 'bcmp("ult",%d,%s,%s)' % (w, c, a),
                   35: 'bcmp("ule",%d,%s,%s)' % (w, c, a), 36: 'bcmp("ult",%d,%s,%s)' % (w, a, c),
                   37: 'bcmp("ule",%d,%s,%s)' % (w, a, c), 38: 'bcmp("slt",%d,%s,%s)' % (w, c, a),
                   39: 'bcmp("sle",%d,%s,%s)' % (w, c, a), 40: 'bcmp("slt",%d,%s,%s)' % (w, a, c),
                   41: 'bcmp("sle",%d,%s,%s)' % (w, a, c)}[pr]
            if t2:
                out.append('%s = (%s) if %s else %s' % (v, conc, t2, sym))
            else:
                out.append('%s = %s' % (v, sym))
            return
        if op == 'fcmp':
            pr = fcmpP(i)
            a, c = O(0), O(1)
            e = {0: 'False', 15: 'True', 1: 'fcmp("oeq",%s,%s)', 2: 'fcmp("olt",%s,%s)', 3: 'fcmp("ole",%s,%s)',
                 4: 'fcmp("olt",%s,%s)', 5: 'fcmp("ole",%s,%s)', 7: 'bnot(fcmp("uno",%s,%s))', 8: 'fcmp("uno",%s,%s)',
                 10: 'bnot(fcmp("ole",%s,%s))', 11: 'bnot(fcmp("olt",%s,%s))', 12: 'bnot(fcmp("ole",%s,%s))',
                 13: 'bnot(fcmp("olt",%s,%s))', 14: 'bnot(fcmp("oeq",%s,%s))'}
            if pr in (0, 15):
                out.append('%s = %s' % (v, e[pr]))
            elif pr == 6:
                out.append('%s = band(bnot(fcmp("uno",%s,%s)),bnot(fcmp("oeq",%s,%s)))' % (v, a, c, a, c))
            elif pr == 9:
                out.append('%s = bor(fcmp("uno",%s,%s),fcmp("oeq",%s,%s))' % (v, a, c, a, c))
            else:
                # predicate -> operands: ogt(2): b<a ; oge(3): b<=a ; olt(4) ; ole(5)
                # ugt(10): not(a<=b) ; uge(11): not(a<b) ; ult(12): not(b<=a) ; ule(13): not(b<a)
                sw = pr in (2, 3, 12, 13)
                x, y = (c, a) if sw else (a, c)
                out.append('%s = %s' % (v, e[pr] % (x, y)))
            return
        if op == 'select':
            k2 = 'b' if kt == ('i', 1) else kt[1] if kt[0] in ('i', 'p') else kt[0]
            if kt[0] in ('s', 'a', 'vec', 'x'):
                out.append('%s = (%s) if BR(%s) else (%s)' % (v, O(1), O(0), O(2)))
            else:
                out.append('%s = ite(%s,%s,%s,%r)' % (v, O(0), O(1), O(2), k2))
            return
        if op == 'call':
            e = self.call_expr(i)
            if e is None:
                return
            out.append('%s = %s' % (v, e) if kt[0] != 'v' else e)
            return
        if op == 'invoke':
            e = self.call_expr(i)
            ndst, udst = valBB(bbVal(normDest(i))), valBB(bbVal(unwDest(i)))
            lp = [x for x in self.lp_inst(udst)]
            out.append('try:')
            out.append('  %s = %s' % (v, e))
            out.append('except CxxExc as ex:')
            out.append('  if not LPM(ex,%s): raise' % self.lpdesc(lp[0]))
            out.append('  EX=ex')
            out.append('  ' + self.edge(b, udst))
            out.append(self.edge(b, ndst))
            return
        if op == 'landingpad':
            out.append('%s = LP(EX,%s)' % (v, self.lpdesc(i)))
            return
        if op == 'resume':
            out.append('RESUME(%s)' % O(0))
            return
        if op == 'ret':
            if nOps(i):
                out.append('return %s' % O(0))
            else:
                out.append('return')
            return
        if op == 'br':
            if isCond(i):
                c = self.val(cond(i))
                t1, t2 = succ(i, 0), succ(i, 1)
                j = self.ifconv(b, i)
                if j:
                    out += j
                out.append('if (%s if (%s is True or %s is False) else BR(%s)):' % (c, c, c, c))
                out.append('  ' + self.edge(b, t1))
                out.append(self.edge(b, t2))
            else:
                out.append(self.edge(b, succ(i, 0)))
            return
        if op == 'switch':
            c = O(0)
            out.append('sw = %s if type(%s) is int else SWITCH(%s,(%s))' % (
                c, c, c, ''.join('%d,' % self.mod.const(operand(i, k), None) for k in range(2, nOps(i), 2))))
            for k in range(2, nOps(i), 2):
                out.append('if sw == %d:' % self.mod.const(operand(i, k), None))
                out.append('  ' + self.edge(b, valBB(operand(i, k + 1))))
            out.append(self.edge(b, valBB(operand(i, 1))))
            return
        if op == 'unreachable':
            out.append('M.crash("unreachable")')
            return
        if op == 'extractvalue':
            n = nIdx(i)
            ix = idxs(i)
            e = O(0)
            for k in range(n):
                e += '[%d]' % ix[k]
            out.append('%s = %s' % (v, e))
            return
        if op == 'insertvalue':
            n = nIdx(i)
            ix = idxs(i)
            out.append('%s = INSV(%s,%s,%r)' % (v, O(0), O(1), tuple(ix[k] for k in range(n))))
            return
        if op == 'fence':
            return
        if op == 'atomicrmw':
            o = atomicOp(i)
            w = kt[1]
            out.append('%s = LD(%s,%d)' % (v, O(0), w // 8))
            nv = {0: O(1), 1: 'bv("add",%d,%s,%s)' % (w, v, O(1)), 2: 'bv("sub",%d,%s,%s)' % (w, v, O(1))}.get(o, 'M.unsupported("rmw")')
            out.append('ST(%s,%d,%s)' % (O(0), w // 8, nv))
            return
        if op == 'va_arg':
            out.append('M.unsupported("va_arg")')
            return
        out.append('M.unsupported(%r)' % (op or str(opcode(i))))

    def aggdesc(self, t):
        def d(t):
            k = self.mod.kind(t)
            if k[0] in ('s', 'a', 'vec'):
                return ('agg', tuple((o, d(ft)) for o, ft in self.mod.fields(t)))
            return k
        self.K.append(d(t))
        return 'K[%d]' % (len(self.K) - 1)

    def lp_inst(self, b):
        i = firstI(b)
        while i:
            if OPC.get(opcode(i)) == 'landingpad':
                yield i
            i = nextI(i)

    def lpdesc(self, i):
        cl = []
        for n in range(nClause(i)):
            c = clause(i, n)
            k = VK.get(vkind(c))
            if k in ('carr', 'czero') or self.mod.kind(typeOf(c))[0] == 'a':
                continue  # filter
            cl.append(self.mod.const(c, self.M.resolve))
        self.K.append((tuple(cl), bool(isCleanup(i))))
        return 'K[%d]' % (len(self.K) - 1)
