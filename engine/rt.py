"""Symbolic machine: memory, calls, exceptions, path forking, libc/libstdc++
models and the vs_* intrinsics used by the harnesses."""
import os, sys, json, math, re, struct, subprocess, time, bisect, traceback, gc
import multiprocessing
import sx
from sx import *
import llir

M32 = 0xffffffff


class CxxExc(Exception):
    def __init__(self, ptr, ti):
        self.ptr = ptr
        self.ti = ti


class PathEnd(Exception):
    def __init__(self, status, msg=''):
        self.status = status
        self.msg = msg


class ExitCalled(Exception):
    def __init__(self, code):
        self.code = code


class Obj:
    __slots__ = ('size', 'cells', 'alive', 'kind', 'name')

    def __init__(self, size, kind, name):
        self.size = size
        self.cells = {}
        self.alive = True
        self.kind = kind
        self.name = name


class FnTable(dict):
    def __init__(self, m):
        self.m = m

    def __missing__(self, k):
        f = self.m.get_function(k)
        self[k] = f
        return f


class Stream:
    def __init__(self, kind):
        self.kind = kind      # 'ostr','istr','file','cout','cerr','sstr'
        self.buf = ''         # string streams / input text
        self.pos = 0
        self.file = None      # name
        self.mode = None
        self.open = False
        self.state = 0        # 1 bad 2 eof 4 fail
        self.flags = 0
        self.prec = 6
        self.width = 0
        self.fill = ' '
        self.wpos = None

# ios flags (libstdc++)
F_BOOL, F_DEC, F_FIXED, F_HEX, F_INTERNAL, F_LEFT, F_OCT, F_RIGHT, F_SCI, F_SHOWBASE, F_SHOWPOINT, F_SHOWPOS, F_SKIPWS, F_UNITBUF, F_UPPER = [1 << i for i in range(15)]
BAD, EOFB, FAIL = 1, 2, 4


class Machine:
    def __init__(self, bcpath, opts):
        self.mod = llir.Module(bcpath)
        self.opts = opts
        self.objs = {}
        self.nextid = 16
        self.symaddr = {}
        self.F = FnTable(self)
        self.steps = 0
        self.depth = 0
        self.stack = []
        self.called = set()
        self.excs = {}
        self.caught = []
        self.typeids = {}
        self.solver = Solver(**opts.get('solver', {}))
        self.inputs = []      # (name, kind, E or concrete)
        self.obs = []
        self.covers = set()
        self.violations = []
        self.inconclusive = []
        self.nvar = 0
        self.uninit = 0
        self.tokens = []
        self.streams = {}
        self.vfs = {}
        self.unwritable = set()
        self.asserts = 0
        self.forks = 0
        self.maybe = 0
        self.nassume = 0
        self.children = []
        self.lent = []
        self.spec = False      # evaluating code that may not be reached
        self.own_token = False
        self.token_sem = None
        self.resfd = None
        self.deadline = None
        self.base = None
        self.heaplive = {}
        self.trans = llir.Translator(self.mod, self)
        self.demangled = {}
        self.ns = self.build_ns()
        import models
        self.models = models.Models(self)
        self._demangle()

    # ------------------------------------------------------------ functions
    def _demangle(self):
        names = list(self.mod.fns) + list(self.mod.decls) + list(self.mod.aliases)
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.demangled = dict(zip(names, r))

    def get_function(self, nm):
        b = self.models.find(nm, self.demangled.get(nm, nm))
        if b is not None:
            return b
        if nm in self.mod.aliases:
            return self.F[self.mod.aliases[nm]]
        fv = self.mod.fns.get(nm)
        if fv is None:
            dn = self.demangled.get(nm, nm)

            def missing(*a):
                self.unsupported('external function ' + dn)
            return missing
        return self.trans.translate(fv)

    def precompile(self):
        """translate all functions with bodies reachable from address constants/calls (all defined)"""
        n = 0
        for nm in self.mod.fns:
            if nm not in self.F:
                try:
                    self.F[nm]
                    n += 1
                except NotImplementedError as ex:
                    def bad(*a, ex=ex, nm=nm):
                        self.unsupported('%s in %s' % (ex, nm))
                    self.F[nm] = bad
        return n

    def enter(self, name):
        self.stack.append(name)
        self.called.add(name)
        if len(self.stack) > 400:
            self.crash('stack overflow')

    def leave(self, al):
        self.stack.pop()
        for i in al:
            o = self.objs.pop(i, None)

    # ------------------------------------------------------------ memory
    def alloc(self, size, kind, name=''):
        i = self.nextid
        self.nextid = i + 1
        self.objs[i] = Obj(size, kind, name)
        return i << 32

    def resolve(self, nm):
        a = self.symaddr.get(nm)
        if a is not None:
            return a
        if nm in self.mod.aliases:
            a = self.resolve(self.mod.aliases[nm])
            self.symaddr[nm] = a
            return a
        g = self.mod.gls.get(nm)
        if g is None:
            a = self.models.extern_global(nm)
            if a is None:
                data = nm.startswith('_ZTI') or nm.startswith('_ZTV') or nm.startswith('_ZTS')
                a = self.alloc(16, 'global' if data else 'func', nm)
            self.symaddr[nm] = a
            return a
        t = llir.gvType(g)
        if llir.isDecl(g):
            a = self.models.extern_global(nm)
            if a is None:
                a = self.alloc(max(256, self.mod.size(t)), 'global', nm)
            self.symaddr[nm] = a
            return a
        a = self.alloc(self.mod.size(t), 'global', nm)
        self.symaddr[nm] = a
        init = llir.getInit(g)
        if init:
            self.store_const(a, t, self.mod.const(init, self.resolve))
        return a

    def store_const(self, a, t, v):
        if v is None:
            return
        k = self.mod.kind(t)
        if k[0] in ('i', 'p'):
            ST(a, (k[1] + 7) // 8, int(v))
        elif k[0] in ('f', 'd'):
            STF(a, k[0], v)
        elif k[0] == 'x':
            STX(a, v)
        else:
            for (o, ft), x in zip(self.mod.fields(t), v):
                self.store_const(a + o, ft, x)

    def obj(self, p, n, what):
        o = self.objs.get(p >> 32)
        if o is None:
            self.crash('memory error: %s through %s pointer' % (what, 'null' if p >> 32 == 0 else 'dangling'))
        if not o.alive:
            self.crash('memory error: use after free (%s)' % what)
        if o.kind == 'func':
            self.crash('memory error: %s of code' % what)
        if (p & M32) + n > o.size:
            self.crash('memory error: %s out of bounds of %s (%d+%d>%d)' % (what, o.name or o.kind, p & M32, n, o.size))
        return o

    def cptr(self, p):
        if type(p) is int:
            return p
        if type(p) is E:
            if self.spec:
                raise PathEnd('spec')
            return self.concretize(p)
        return int(p)

    def concretize(self, e, limit=4096):
        if type(e) is not E:
            return int(e) if type(e) is bool else e
        n = 0
        while True:
            r, env = self.solver.check(True)
            if r == 'unsat':
                raise PathEnd('infeasible')
            if env is None:
                self.unsupported('cannot concretize')
            v = evalE(e, env)
            if BR(beq(e, v)):
                return v
            n += 1
            if n > limit:
                self.unsupported('too many values')

    def fresh(self, kind, prefix):
        self.nvar += 1
        return var('%s!%d' % (prefix, self.nvar), kind)

    def setundef(self, p, n):
        p = self.cptr(p)
        o = self.obj(p, n, 'store')
        clear(o, p & M32, n)

    def rdbyte(self, p):
        return LD(p, 1)

    def cstr(self, p):
        """list of bytes (ints or E); terminator decided by branching"""
        p = self.cptr(p)
        out = []
        if p == 0:
            self.crash('null string')
        while True:
            b = LD(p, 1)
            if type(b) is E:
                if BR(beq(b, 0)):
                    return out
            elif b == 0:
                return out
            out.append(b)
            p += 1

    def pystr(self, p):
        b = self.cstr(p)
        if any(type(x) is E for x in b):
            b = [self.concretize(x) for x in b]
        return bytes(b).decode('latin-1')

    def putstr(self, p, s):
        for i, ch in enumerate(s.encode('latin-1') if isinstance(s, str) else s):
            ST(p + i, 1, ch)

    def newcstr(self, s):
        a = self.alloc(len(s) + 1, 'global', 'str')
        self.putstr(a, s + '\0')
        return a

    # std::string (libstdc++ cxx11 layout)
    def string_get(self, a):
        p = self.cptr(LD(a, 8))
        n = self.concretize(LD(a + 8, 8))
        return ''.join(chr(self.concretize(LD(p + i, 1))) for i in range(n))

    def string_init(self, a, s):
        n = len(s)
        if n < 16:
            ST(a, 8, a + 16)
            p = a + 16
        else:
            p = self.alloc(n + 1, 'heap', 'new')
            ST(a, 8, p)
            ST(a + 16, 8, n)
        ST(a + 8, 8, n)
        self.putstr(p, s + '\0')

    def string_set(self, a, s):
        p = self.cptr(LD(a, 8))
        if len(s) < 16:
            ST(a, 8, a + 16)
            p = a + 16
            # keep local buffer
        else:
            p = self.alloc(len(s) + 1, 'heap', 'new')
            ST(a, 8, p)
            ST(a + 16, 8, len(s))
        ST(a + 8, 8, len(s))
        self.putstr(p, s + '\0')

    # ------------------------------------------------------------ events
    def where(self):
        return [self.demangled.get(s, s).split('(')[0] for s in self.stack[-6:]]

    def crash(self, msg):
        raise PathEnd('crash', msg)

    def unsupported(self, msg):
        raise PathEnd('unsupported', msg)

    def typeid(self, ti):
        return self.typeids.setdefault(ti, len(self.typeids) + 1)

    # ------------------------------------------------------------ type info
    def ti_name(self, ti):
        o = self.objs.get(ti >> 32)
        return o.name if o else None

    def ti_bases(self, ti):
        nm = self.ti_name(ti)
        b = self.models.STDBASES.get(nm)
        if b is not None:
            return [self.resolve(x) for x in b]
        o = self.objs.get(ti >> 32)
        out = []
        if o and o.size in (24,):
            c = o.cells.get(16)
            if c:
                out.append(c[1])
        elif o and o.size >= 40:
            off = 24
            while off + 16 <= o.size:
                out.append(LD(ti + off, 8))
                off += 16
        return out

    def ti_match(self, thrown, want):
        if want == 0:
            return True
        st = [thrown]
        while st:
            x = st.pop()
            if x == want:
                return True
            st.extend(self.ti_bases(x))
        return False

    def throw(self, ptr, ti):
        self.excs[ptr] = ti
        raise CxxExc(ptr, ti)

    def throw_std(self, tiname, msg):
        """throw a std exception built by the model"""
        a = self.alloc(16, 'exc', 'exception')
        self.models.init_std_exc(a, tiname, msg)
        self.throw(a, self.resolve(tiname))

    # ------------------------------------------------------------ forking
    def fork(self):
        """returns True in the continuing (parent, first side) process, False in the child"""
        if self.deadline and time.time() > (self.cut.value and min(self.cut.value, self.deadline) or self.deadline):
            raise PathEnd('timeout')
        self.forks += 1
        sys.stdout.flush()
        if self.lent:
            self.settle()
        tok = self.token_sem.acquire(block=False) if self.token_sem else False
        pid = os.fork()
        if pid == 0:
            self.children = []
            self.lent = []
            self.own_token = tok
            self.reset_stats()
            return False
        if tok:
            self.children.append(pid)
        elif self.token_sem is None:
            self.reap(pid)
        else:
            self.park(pid)
        return True

    def park(self, pid):
        """the child runs in our slot: wait for its end or for a free slot"""
        delay = 0.002
        while True:
            r, st = os.waitpid(pid, os.WNOHANG)
            if r:
                if st != 0:
                    self.report({'status': 'error', 'msg': 'child exited with status %d' % st})
                return
            if self.token_sem.acquire(timeout=delay):
                self.children.append(pid)
                self.lent.append(pid)
                return
            delay = min(0.1, delay * 1.5)

    def settle(self):
        """give back the slots of lent children that have ended"""
        for pid in list(self.lent):
            r, st = os.waitpid(pid, os.WNOHANG)
            if r:
                self.lent.remove(pid)
                self.children.remove(pid)
                self.token_sem.release()
                if st != 0:
                    self.report({'status': 'error', 'msg': 'child exited with status %d' % st})

    def reap(self, pid):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            self.report({'status': 'error', 'msg': 'child exited with status %d' % st})

    def reset_stats(self):
        self.solver.stats = Stats()
        self.steps = 0
        self.forks = 0
        self.asserts = 0
        self.maybe = 0
        self.nassume = 0
        self.base = set(self.called)
        self.violations = []
        self.inconclusive = []

    def report(self, rec):
        os.write(self.resfd, (json.dumps(rec) + '\n').encode())

    def stats(self):
        s = self.solver.stats
        return {'queries': s.queries, 'unsat': s.unsat, 'sat': s.sat, 'refine': s.refine, 'exact': s.exact,
                'unknown': s.unknown, 'stime': round(s.time, 4), 'steps': self.steps, 'forks': self.forks,
                'asserts': self.asserts, 'assumes': self.nassume}

    def encode_inputs(self, env):
        out = []
        memo = {}
        for nm, kind, e in self.inputs:
            v = evalE(e, env, memo)
            if kind in ('d', 'f'):
                out.append([nm, kind, '%016x' % fbits(float(v), 'd'), repr(v)])
            else:
                out.append([nm, kind, '%x' % (int(v) & ((1 << 64) - 1)), repr(v)])
        return out

    def encode_obs(self, env):
        out = []
        memo = {}
        for nm, kind, e in self.obs:
            v = evalE(e, env, memo)
            if kind == 'd':
                out.append([nm, kind, '%016x' % (fbits(float(v), 'd') if not math.isnan(v) else 0x7ff8000000000000)])
            else:
                out.append([nm, kind, '%x' % (int(v) & ((1 << 64) - 1))])
        return out

    def violate(self, label, env, kind='assert'):
        rec = {'label': label, 'kind': kind, 'inputs': self.encode_inputs(env), 'where': self.where(), 'uninit': self.uninit}
        self.violations.append(rec)
        if self.deadline and not self.cut.value and self.opts.get('cut'):
            self.cut.value = time.time() + self.opts['cut']

    def finish(self, status, msg, covers_only=False):
        rec = {'status': status, 'msg': msg, 'stats': None, 'covers': sorted(self.covers)}
        env = None
        if status in ('done', 'crash', 'unsupported', 'timeout'):
            if status in ('done', 'crash'):
                r, env = self.solver.check(True)
                if r == 'unsat':
                    rec['status'] = status = 'infeasible'
                elif env is None:
                    rec['unvalidated'] = r
                    if status == 'crash':
                        self.inconclusive.append('crash path not decided: ' + msg)
            if status == 'crash' and env is not None:
                self.violate('crash: ' + msg, env, 'crash')
            if status == 'done' and env is not None:
                rec['inputs'] = self.encode_inputs(env)
                rec['obs'] = self.encode_obs(env)
                rec['uninit'] = self.uninit
            if status != 'done':
                rec['where'] = self.where()
        rec['violations'] = self.violations
        rec['inconclusive'] = self.inconclusive
        rec['stats'] = self.stats()
        rec['called'] = sorted(self.called - (self.base or set()))
        self.report(rec)

    def explore(self, entry, resfile, nproc, deadline):
        """run harness function; returns in the original process after all paths are done"""
        self.resfd = os.open(resfile, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        self.token_sem = multiprocessing.Semaphore(max(0, nproc - 1))
        self.deadline = deadline
        self.cut = multiprocessing.Value('d', 0.0)
        sys.setrecursionlimit(20000)
        gc.freeze()
        gc.disable()
        root = os.fork()
        if root == 0:
            code = 0
            try:
                try:
                    self.run_ctors()
                    self.F[entry]()
                    self.finish('done', '')
                except PathEnd as ex:
                    self.finish(ex.status, ex.msg)
                except CxxExc as ex:
                    try:
                        self.finish('crash', 'uncaught C++ exception ' + self.demangle_ti(ex.ti))
                    except PathEnd as ex2:
                        self.finish(ex2.status, ex2.msg)
                except ExitCalled as ex:
                    self.finish('crash', 'exit(%s) called' % (ex.code,))
                except Inconclusive as ex:
                    self.finish('unsupported', 'inconclusive: %s' % ex)
            except BaseException as ex:
                self.report({'status': 'error', 'msg': traceback.format_exc()[-3000:], 'where': self.where()})
            finally:
                try:
                    # our slot passes to the lent children still running
                    if self.own_token:
                        self.token_sem.release()
                    for pid in list(self.lent):
                        self.children.remove(pid)
                        self.reap(pid)
                        self.token_sem.release()
                    for pid in self.children:
                        self.reap(pid)
                except BaseException:
                    code = 3
                os._exit(code)
        _, st = os.waitpid(root, 0)
        os.close(self.resfd)
        return st

    def demangle_ti(self, ti):
        nm = self.ti_name(ti) or '?'
        return nm

    def run_ctors(self):
        a = self.mod.gls.get('llvm.global_ctors')
        if not a:
            return
        init = llir.getInit(a)
        ents = self.mod.const(init, self.resolve)
        for e in sorted(ents, key=lambda e: e[0]):
            fn = self.objs[e[1] >> 32].name
            self.F[fn]()

    # ------------------------------------------------------------ runtime ns
    def build_ns(self):
        M = self
        objs = self.objs
        glob = globals()

        def LD(p, n):
            if type(p) is not int:
                p = M.cptr(p)
            o = objs.get(p >> 32)
            if o is None or not o.alive or o.kind == 'func':
                M.obj(p, n, 'load')
            off = p & M32
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                v = c[1]
                t = type(v)
                if t is int:
                    return v
                if t is E:
                    if v.sort in ('d', 'f'):
                        return f2bits(v, v.sort)
                    return v
                if t is float:
                    return fbits(v, 'd' if n == 8 else 'f')
            if off + n > o.size:
                M.obj(p, n, 'load')
            return ldslow(o, off, n)

        def byteof(o, off):
            """byte value at off or None"""
            cells = o.cells
            for k in range(8):
                c = cells.get(off - k)
                if c is not None and c[0] > k:
                    v = c[1]
                    if type(v) is float:
                        v = fbits(v, 'd' if c[0] == 8 else 'f')
                    elif type(v) is E and v.sort in ('d', 'f'):
                        v = f2bits(v, v.sort)
                    return extract(v, 8 * k + 7, 8 * k)
            return None

        def ldslow(o, off, n, fp=None):
            bs = [byteof(o, off + i) for i in range(n)]
            if all(b is None for b in bs):
                M.uninit += 1
                v = M.fresh(fp or n * 8, 'uninit')
                o.cells[off] = (n, v)
                return v
            for i, b in enumerate(bs):
                if b is None:
                    M.uninit += 1
                    bs[i] = M.fresh(8, 'uninit')
                    o.cells[off + i] = (1, bs[i])
            v = bs[0]
            for i in range(1, n):
                v = concat(bs[i], 8, v, 8 * i)
            return v

        def LDF(p, s):
            n = 8 if s == 'd' else 4
            if type(p) is not int:
                p = M.cptr(p)
            o = objs.get(p >> 32)
            if o is None or not o.alive or o.kind == 'func':
                M.obj(p, n, 'load')
            off = p & M32
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                v = c[1]
                if type(v) is float:
                    return v
                if type(v) is E:
                    return v if v.sort == s else bits2f(v, s)
                return bitsf(v, s)
            if off + n > o.size:
                M.obj(p, n, 'load')
            v = ldslow(o, off, n, s)
            if type(v) is E and v.sort == s:
                return v
            return bits2f(v, s)

        def clear(o, off, n):
            cells = o.cells
            for k in range(1, 8):
                c = cells.get(off - k)
                if c is not None and c[0] > k:
                    split(o, off - k, c)
            for k in range(n):
                c = cells.get(off + k)
                if c is not None:
                    if k + c[0] > n:
                        split(o, off + k, c)
                    cells.pop(off + k, None)

        def split(o, off, c):
            v = c[1]
            if type(v) is float:
                v = fbits(v, 'd' if c[0] == 8 else 'f')
            elif type(v) is E and v.sort in ('d', 'f'):
                v = f2bits(v, v.sort)
            for i in range(c[0]):
                o.cells[off + i] = (1, extract(v, 8 * i + 7, 8 * i))

        def STc(p, n, v):
            if type(p) is not int:
                p = M.cptr(p)
            o = objs.get(p >> 32)
            off = p & M32
            if o is None or not o.alive or off + n > o.size or o.kind == 'func':
                M.obj(p, n, 'store')
            c = o.cells.get(off)
            if c is None or c[0] != n:
                clear(o, off, n)
            o.cells[off] = (n, v)

        def ST(p, n, v):
            if type(v) is bool:
                v = int(v)
            elif type(v) is E and v.sort == 'b':
                v = tob(v, 8 * n)
            STc(p, n, v)

        def STF(p, s, v):
            STc(p, 8 if s == 'd' else 4, v if type(v) is E else float(v))

        def LDX(p):
            return LDF(p, 'd')

        def STX(p, v):
            STF(p, 'd', v)

        def LDAGG(p, d):
            return tuple(ldd(p + o, k) for o, k in d[1])

        def ldd(p, k):
            if k[0] == 'agg':
                return LDAGG(p, k)
            if k[0] in ('i', 'p'):
                x = LD(p, (k[1] + 7) // 8)
                return trunc(x, k[1]) if k[1] % 8 else x
            return LDF(p, k[0])

        def STAGG(p, d, v):
            p = M.cptr(p)
            for (o, k), x in zip(d[1], v):
                if x is None:
                    continue
                if k[0] == 'agg':
                    STAGG(p + o, k, x)
                elif k[0] in ('i', 'p'):
                    ST(p + o, (k[1] + 7) // 8, x)
                else:
                    STF(p + o, k[0], x)

        def GEP0(p, off):
            if type(p) is int:
                return (p + off) & 0xffffffffffffffff
            return bv('add', 64, p, off & 0xffffffffffffffff)

        def GEP1(p, i, w, sz):
            if type(i) is int and type(p) is int:
                if i >> (w - 1):
                    i -= 1 << w
                return (p + i * sz) & 0xffffffffffffffff
            i = sext(i, w, 64)
            return bv('add', 64, p, bv('mul', 64, i, sz))

        def ALLOCA(al, size, n, name):
            n = M.concretize(n)
            a = M.alloc(size * n, 'stack', name)
            al.append(a >> 32)
            return a

        def cellrange(o, off, n):
            """[(rel, size, val)] for bytes [off,off+n)"""
            cells = o.cells
            # split straddling cells at both ends
            for e in (off, off + n):
                for k in range(1, 8):
                    c = cells.get(e - k)
                    if c is not None and c[0] > k:
                        split(o, e - k, c)
            if n < len(cells) * 2:
                out = []
                i = 0
                while i < n:
                    c = cells.get(off + i)
                    if c is not None:
                        out.append((i, c[0], c[1]))
                        i += c[0]
                    else:
                        i += 1
                return out
            return [(k - off, c[0], c[1]) for k, c in cells.items() if off <= k < off + n]

        def MEMCPY(d, s, n):
            n = M.concretize(n)
            if n == 0:
                return d
            d = M.cptr(d)
            s = M.cptr(s)
            so = M.obj(s, n, 'memcpy read')
            do = M.obj(d, n, 'memcpy write')
            cs = cellrange(so, s & M32, n)
            off = d & M32
            clear(do, off, n)
            for r, sz, v in cs:
                do.cells[off + r] = (sz, v)
            return d

        def MEMSET(d, c, n):
            n = M.concretize(n)
            if n == 0:
                return d
            d = M.cptr(d)
            o = M.obj(d, n, 'memset')
            off = d & M32
            clear(o, off, n)
            c = trunc(c, 8)
            for i in range(n):
                o.cells[off + i] = (1, c)
            return d

        def BR(c):
            if type(c) is not E:
                return bool(c)
            S = M.solver
            k = S.known(c)
            if k is not None:
                return k
            nc = bnot(c)
            r1, e1 = S.check(c)
            if r1 == 'unsat':
                S.pcset.add(nc)
                return False
            r0, e0 = S.check(nc)
            if r0 == 'unsat':
                S.pcset.add(c)
                return True
            if r1 in ('maybe', 'unknown') or r0 in ('maybe', 'unknown'):
                M.maybe += 1
            if M.fork():
                S.env = e1
                S.add(c)
                return True
            S.env = e0
            S.add(nc)
            return False

        def SWITCH(e, cases):
            for c in cases:
                if BR(beq(e, c)):
                    return c
            return -1

        def ICALL(p, args):
            p = M.cptr(p)
            o = objs.get(p >> 32)
            if o is None or o.kind != 'func':
                M.crash('call through invalid function pointer')
            return M.F[o.name](*args)

        def DIV(op, w, a, b):
            if type(b) is E:
                if BR(beq(b, 0)):
                    M.crash('integer division by zero')
            elif b == 0:
                M.crash('integer division by zero')
            return bv(op, w, a, b)

        def UNDEF(k, w):
            M.uninit += 1
            return M.fresh('b' if (k, w) == ('i', 1) else w if k in ('i', 'p') else k, 'undef')

        def F2I(op, a, w):
            if w == 1:
                M.unsupported('fp to i1')
            return f2i(op, a, w)

        def FMM(op, s, a, b):
            lt = fcmp('olt', a, b)
            r = ite(lt, a, b, s) if op == 'minnum' else ite(lt, b, a, s)
            return ite(isnan(a), b, ite(isnan(b), a, r, s), s)

        def COPYSIGN(s, a, b):
            if type(a) is not E and type(b) is not E:
                return math.copysign(a, b)
            w = 64 if s == 'd' else 32
            x, y = f2bits(a, s), f2bits(b, s)
            sb = 1 << (w - 1)
            return bits2f(bv('or', w, bv('and', w, x, sb - 1), bv('and', w, y, sb)), s)

        def IMM(op, w, a, b):
            c = bcmp('ult' if op[0] == 'u' else 'slt', w, a, b)
            return ite(c, b, a, w) if op[1:] == 'max' else ite(c, a, b, w)

        def IABS(w, a):
            return ite(bcmp('slt', w, a, 0), bv('sub', w, 0, a), a, w)

        def OVF(op, w, a, b):
            ext = zext if op[0] == 'u' else sext
            W = 2 * w
            full = bv({'add': 'add', 'sub': 'sub', 'mul': 'mul'}[op[1:]], W, ext(a, w, W), ext(b, w, W))
            r = trunc(full, w)
            return (r, bnot(beq(ext(r, w, W), full)))

        def BITS(op, w, *a):
            if any(type(x) is E for x in a[:1]):
                M.unsupported(op)
            x = a[0]
            if op == 'ctpop':
                return bin(x).count('1')
            if op == 'ctlz':
                return w - x.bit_length()
            if op == 'cttz':
                return (x & -x).bit_length() - 1 if x else w
            M.unsupported(op)

        def FPCLASS(a, mask):
            r = False
            if mask & 3:
                r = bor(r, isnan(a))
            if mask & ~3:
                s = a.sort if type(a) is E else 'd'
                pinf, ninf = math.inf, -math.inf
                if mask & 4:
                    r = bor(r, fcmp('oeq', a, ninf))
                if mask & 0x200:
                    r = bor(r, fcmp('oeq', a, pinf))
                if mask & 0x1f8:
                    if mask & 0x1f8 != 0x1f8:
                        M.unsupported('fpclass')
                    r = bor(r, band(fcmp('olt', ninf, a), fcmp('olt', a, pinf)))
            return r

        def INSV(agg, v, ix):
            l = list(agg)
            if len(ix) == 1:
                l[ix[0]] = v
            else:
                l[ix[0]] = INSV(l[ix[0]], v, ix[1:])
            return tuple(l)

        def LPM(ex, desc):
            cl, cleanup = desc
            if cleanup:
                return True
            return any(M.ti_match(ex.ti, c) for c in cl)

        def LP(ex, desc):
            for c in desc[0]:
                if M.ti_match(ex.ti, c):
                    return (ex.ptr, M.typeid(c))
            return (ex.ptr, 0)

        def RESUME(v):
            p = v[0]
            raise CxxExc(p, M.excs[p])

        ns = {k: v for k, v in glob.items() if not k.startswith('__')}
        ns.update({k: v for k, v in locals().items() if callable(v) and k not in ('self',)})
        ns['M'] = M
        ns['F'] = M.F
        for k in ('LD', 'LDF', 'ST', 'STF', 'STX', 'BR', 'MEMCPY', 'MEMSET', 'clear', 'ICALL'):
            glob[k] = ns[k]
        return ns
