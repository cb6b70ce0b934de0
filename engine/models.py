"""Models of libc / libstdc++ / libsupc++ entry points and the vs_* intrinsics."""
import math, re
import sx, rt
from sx import *
from rt import *

TOK = re.compile('\x01(\\d+)\x02')


def norm(dn):
    dn = dn.replace('std::__cxx11::', 'std::')
    dn = dn.replace('basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string')
    for n in ('ostringstream', 'istringstream', 'stringstream', 'stringbuf'):
        dn = dn.replace('basic_%s<char, std::char_traits<char>, std::allocator<char> >' % n, n)
    for n in ('ostream', 'istream', 'iostream', 'ofstream', 'ifstream', 'fstream', 'ios', 'streambuf', 'filebuf'):
        dn = dn.replace('basic_%s<char, std::char_traits<char> >' % n, n)
    return dn


class Models:
    STDBASES = {'_ZTISt9exception': [], '_ZTISt13runtime_error': ['_ZTISt9exception'],
                '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
                '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
                '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
                '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
                '_ZTISt14overflow_error': ['_ZTISt13runtime_error'], '_ZTISt15underflow_error': ['_ZTISt13runtime_error'],
                '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt12system_error': ['_ZTISt13runtime_error'],
                '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt12system_error'],
                '_ZTIi': [], '_ZTIPKc': [], '_ZTId': [], '_ZTIPc': []}
    VBASE = {'std::ostream': 8, 'std::istream': 16, 'std::ofstream': 248, 'std::ifstream': 256,
             'std::ostringstream': 112, 'std::istringstream': 120, 'std::stringstream': 128, 'std::fstream': 264,
             'std::iostream': 24}

    def __init__(self, M):
        self.M = M
        self.vt = {}
        self.cursors = {}
        self.optind = 1
        self.optpos = 0
        self.lastwhat = 0
        self.exitcode = 0
        self.exact = {}
        self.pats = []
        for k in dir(self):
            if k.startswith('c_'):
                self.exact[k[2:]] = getattr(self, k)
        self.reg()

    # ------------------------------------------------------------ lookup
    def find(self, nm, dn):
        f = self.exact.get(nm)
        if f is not None:
            return f
        if nm.startswith('_Z'):
            d = norm(dn)
            for rx, f in self.pats:
                m = rx.match(d)
                if m:
                    return f if not getattr(f, 'wants', False) else f(m, nm, d)
        return None

    def func(self, name, f):
        """register python function under a symbol and return its address"""
        self.M.F[name] = f
        return self.M.resolve(name)

    def extern_global(self, nm):
        M = self.M
        if nm.startswith('_ZTVSt') or nm.startswith('_ZTVNSt8ios_base'):
            ti = nm.replace('_ZTV', '_ZTI', 1)
            if ti in self.STDBASES:
                a = M.alloc(40, 'global', nm)
                M.symaddr[nm] = a
                ST(a, 8, 0)
                ST(a + 8, 8, M.resolve(ti))
                ST(a + 16, 8, self.func('__exc_D1', lambda p: None))
                ST(a + 24, 8, self.func('__exc_D0', lambda p: self.op_delete(p)))
                ST(a + 32, 8, self.func('__exc_what', lambda p: self.exc_what(p)))
                return a
        if nm in ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog', '_ZSt3cin'):
            a = M.alloc(512, 'global', nm)
            cls = 'std::istream' if nm.endswith('cin') else 'std::ostream'
            s = Stream({'_ZSt4cout': 'cout', '_ZSt4cerr': 'cerr', '_ZSt4clog': 'cerr', '_ZSt3cin': 'cin'}[nm])
            s.file = '<stdout>' if nm == '_ZSt4cout' else '<stderr>'
            s.open = True
            M.vfs.setdefault(s.file, '')
            self.attach(a, cls, s)
            return a
        if nm in ('stdout', 'stderr', 'stdin'):
            a = M.alloc(8, 'global', nm)
            ST(a, 8, M.alloc(8, 'FILE', '<%s>' % nm))
            M.vfs.setdefault('<%s>' % nm, '')
            return a
        if nm in ('optarg',):
            a = M.alloc(8, 'global', nm)
            ST(a, 8, 0)
            return a
        if nm in ('optind', 'opterr', 'optopt'):
            a = M.alloc(4, 'global', nm)
            ST(a, 4, 1)
            return a
        return None

    # ------------------------------------------------------------ exceptions
    def init_std_exc(self, a, tiname, msg):
        M = self.M
        ST(a, 8, M.resolve(tiname.replace('_ZTI', '_ZTV', 1)) + 16)
        ST(a + 8, 8, M.newcstr(msg))

    def exc_what(self, p):
        return LD(p + 8, 8)

    def c___cxa_allocate_exception(self, n):
        return self.M.alloc(self.M.concretize(n), 'exc', 'exception')

    def c___cxa_free_exception(self, p):
        pass

    def c___cxa_throw(self, p, ti, dtor):
        self.M.throw(p, ti)

    def c___cxa_begin_catch(self, p):
        self.M.caught.append(p)
        return p

    def c___cxa_get_exception_ptr(self, p):
        return p

    def c___cxa_end_catch(self):
        if self.M.caught:
            self.M.caught.pop()

    def c___cxa_rethrow(self):
        if not self.M.caught:
            self.M.crash('rethrow without exception')
        p = self.M.caught[-1]
        raise CxxExc(p, self.M.excs[p])

    def c___cxa_pure_virtual(self, *a):
        self.M.crash('pure virtual call')

    def c___cxa_atexit(self, *a):
        return 0

    def c___cxa_guard_acquire(self, p):
        b = LD(p, 1)
        return 0 if type(b) is int and b & 1 else 1

    def c___cxa_guard_release(self, p):
        ST(p, 1, 1)

    def c___cxa_guard_abort(self, p):
        pass

    def c__ZSt9terminatev(self):
        self.M.crash('std::terminate')

    def c___cxa_bad_cast(self):
        self.M.throw_std('_ZTISt8bad_cast', 'std::bad_cast')

    def c___dynamic_cast(self, p, src, dst, hint):
        M = self.M
        if p == 0:
            return 0
        vp = LD(p, 8)
        top = sgn(LD(vp - 16, 8), 64)
        ti = LD(vp - 8, 8)
        return p + top if M.ti_match(ti, dst) else 0

    def reg(self):
        P = lambda rx, f: self.pats.append((re.compile(rx), f))
        M = self.M
        # exceptions
        def exc_ctor_str(m, nm, d):
            ti = '_ZTISt' + self._len(m.group(1))
            def f(this, s):
                self.init_std_exc(this, ti, M.string_get(s))
            return f
        exc_ctor_str.wants = True
        def exc_ctor_c(m, nm, d):
            ti = '_ZTISt' + self._len(m.group(1))
            def f(this, s):
                self.init_std_exc(this, ti, M.pystr(s))
            return f
        exc_ctor_c.wants = True
        def exc_ctor_copy(m, nm, d):
            def f(this, o):
                ST(this, 8, LD(o, 8))
                ST(this + 8, 8, LD(o + 8, 8))
                return this
            return f
        exc_ctor_copy.wants = True
        X = r'(?:std::)(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|range_error|overflow_error|underflow_error)'
        P('^' + X + r'::\1\(std::string const&\)', exc_ctor_str)
        P('^' + X + r'::\1\(char const\*\)', exc_ctor_c)
        P('^' + X + r'::(?:\1|operator=)\(std::\1 (?:const&|&&)\)', exc_ctor_copy)
        P('^' + X + r'::~', lambda this: None)
        P('^' + X + r'::what\(\) const', lambda this: self.exc_what(this))
        P(r'^std::exception::what\(\) const', lambda this: M.newcstr('std::exception'))
        P(r'^std::(exception|bad_alloc|bad_cast)::~', lambda this: None)
        P(r'^std::__throw_bad_alloc', lambda *a: M.throw_std('_ZTISt9bad_alloc', 'std::bad_alloc'))
        P(r'^std::__throw_bad_array_new_length', lambda *a: M.throw_std('_ZTISt20bad_array_new_length', 'std::bad_array_new_length'))
        P(r'^std::__throw_length_error', lambda s: M.throw_std('_ZTISt12length_error', M.pystr(s)))
        P(r'^std::__throw_logic_error', lambda s: M.throw_std('_ZTISt11logic_error', M.pystr(s)))
        P(r'^std::__throw_invalid_argument', lambda s: M.throw_std('_ZTISt16invalid_argument', M.pystr(s)))
        P(r'^std::__throw_runtime_error', lambda s: M.throw_std('_ZTISt13runtime_error', M.pystr(s)))
        P(r'^std::__throw_out_of_range', lambda s, *a: M.throw_std('_ZTISt12out_of_range', M.pystr(s)))
        # allocation
        P(r'^operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)', lambda n, *a: self.op_new(n))
        P(r'^operator delete(\[\])?\(void\*', lambda p, *a: self.op_delete(p))
        P(r'^std::ios_base_library_init', lambda *a: None)
        P(r'^std::ios_base::Init::', lambda *a: None)
        # streams
        def ctor(m, nm, d):
            cls = 'std::' + m.group(1)
            args = m.group(2)
            complete = 'C1' in nm
            def f(this, *a):
                if not complete:
                    M.unsupported('base-object stream constructor')
                return self.stream_ctor(cls, args, this, a)
            return f
        ctor.wants = True
        S = r'(ostringstream|istringstream|stringstream|ofstream|ifstream|fstream)'
        P(r'^std::' + S + r'::basic_\1\((.*)\)$', ctor)
        P(r'^std::' + S + r'::\1\((.*)\)$', ctor)
        P(r'^std::' + S + r'::~', lambda this, *a: self.stream_dtor(this))
        P(r'^std::(ostringstream|istringstream|stringstream)::str\(\) const', lambda ret, this: M.string_init(ret, self.st(this).buf))
        P(r'^std::(ostringstream|istringstream|stringstream)::str\(std::string const&\)', lambda this, s: self.ss_setstr(this, s))
        P(r'^std::(ofstream|ifstream|fstream)::open\(char const\*, std::_Ios_Openmode\)', lambda this, n, mode: self.fopen(self.st(this), M.pystr(n), mode, this))
        P(r'^std::(ofstream|ifstream|fstream)::open\(std::string const&, std::_Ios_Openmode\)', lambda this, n, mode: self.fopen(self.st(this), M.string_get(n), mode, this))
        P(r'^std::(ofstream|ifstream|fstream)::close\(\)', lambda this: self.fclose(self.st(this)))
        P(r'^std::(ofstream|ifstream|fstream)::is_open\(\)', lambda this: self.st(this).open)
        P(r'^std::ios::good\(\) const', lambda this: self.st(this).state == 0)
        P(r'^std::ios::eof\(\) const', lambda this: bool(self.st(this).state & EOFB))
        P(r'^std::ios::fail\(\) const', lambda this: bool(self.st(this).state & (FAIL | BAD)))
        P(r'^std::ios::bad\(\) const', lambda this: bool(self.st(this).state & BAD))
        P(r'^std::ios::operator bool\(\) const', lambda this: not (self.st(this).state & (FAIL | BAD)))
        P(r'^std::ios::operator!\(\) const', lambda this: bool(self.st(this).state & (FAIL | BAD)))
        P(r'^std::ios::operator void\*\(\) const', lambda this: 0 if self.st(this).state & (FAIL | BAD) else this)
        P(r'^std::ios::rdstate\(\) const', lambda this: self.st(this).state)
        P(r'^std::ios::clear\(std::_Ios_Iostate\)', lambda this, x: self.setstate(this, x, True))
        P(r'^std::ios::setstate\(std::_Ios_Iostate\)', lambda this, x: self.setstate(this, x, False))
        P(r'^std::ios::exceptions\(', lambda this, *a: M.unsupported('ios::exceptions'))
        P(r'^std::ios::fill\(char\)', lambda this, c: self.setattr(this, 'fill', chr(c)))
        P(r'^std::ios_base::setf\(std::_Ios_Fmtflags\)', lambda this, f: self.setf(this, f, 0))
        P(r'^std::ios_base::setf\(std::_Ios_Fmtflags, std::_Ios_Fmtflags\)', lambda this, f, m: self.setf(this, f & m, m))
        P(r'^std::ios_base::unsetf\(', lambda this, m: self.setf(this, 0, m))
        P(r'^std::ios_base::flags\(\) const', lambda this: self.st(this).flags)
        P(r'^std::ios_base::flags\(std::_Ios_Fmtflags\)', lambda this, f: self.setattr(this, 'flags', f))
        P(r'^std::ios_base::precision\(long\)', lambda this, n: self.setattr(this, 'prec', n))
        P(r'^std::ios_base::precision\(\) const', lambda this: self.st(this).prec)
        P(r'^std::ios_base::width\(long\)', lambda this, n: self.setattr(this, 'width', n))
        P(r'^std::ios_base::width\(\) const', lambda this: self.st(this).width)
        O = r'^std::ostream& std::operator<< ?<.*>\(std::ostream&, '
        def outm(fn):
            def f(this, x):
                fn(self.st(this), x)
                return this
            return f
        P(O + r'(signed |unsigned )?char const\*\)', outm(lambda s, x: self.put(s, M.pystr(x))))
        P(O + r'(signed |unsigned )?char\)', outm(lambda s, x: self.put(s, chr(M.concretize(x)))))
        P(O + r'std::string const&\)', outm(lambda s, x: self.put(s, M.string_get(x))))
        P(O + r'std::_Setw\)', outm(lambda s, x: setattr(s, 'width', sgn(M.concretize(x) & M32, 32))))
        P(O + r'std::_Setprecision\)', outm(lambda s, x: setattr(s, 'prec', sgn(M.concretize(x) & M32, 32))))
        P(O + r'std::_Setiosflags\)', outm(lambda s, x: setattr(s, 'flags', s.flags | (x & M32))))
        P(O + r'std::_Resetiosflags\)', outm(lambda s, x: setattr(s, 'flags', s.flags & ~(x & M32))))
        P(O + r'std::_Setfill<char>\)', outm(lambda s, x: setattr(s, 'fill', chr(x & 255))))
        P(r'^std::ostream::operator<<\(std::ostream& \(\*\)\(std::ostream&\)\)', lambda this, f: ICALL(f, (this,)))
        P(r'^std::ostream::operator<<\(std::(ios_base|ios)& \(\*\)\(std::(ios_base|ios)&\)\)', lambda this, f: (ICALL(f, (self.ios_addr(this),)), this)[1])
        for ty, k in (('double', 'd'), ('float', 'f'), ('long double', 'd')):
            P(r'^std::ostream::operator<<\(%s\)' % ty, (lambda k: lambda this, x: self.outnum(this, x, k))(k))
        for ty, k in (('int', 32), ('long', 64), ('short', 16), ('long long', 64)):
            P(r'^std::ostream::operator<<\(%s\)' % ty, (lambda k: lambda this, x: self.outint(this, x, k, True))(k))
        for ty, k in (('unsigned int', 32), ('unsigned long', 64), ('unsigned short', 16), ('unsigned long long', 64), ('bool', 1)):
            P(r'^std::ostream::operator<<\(%s\)' % ty, (lambda k: lambda this, x: self.outint(this, x, k, False))(k))
        P(r'^std::ostream::operator<<\(void const\*\)', lambda this, x: (self.put(self.st(this), '0xptr'), this)[1])
        P(r'^std::ostream::write\(', lambda this, p, n: self.owrite(this, p, n))
        P(r'^std::ostream& std::__ostream_insert<.*>\(', lambda this, p, n: self.owrite(this, p, n))
        P(r'^std::ostream::put\(', lambda this, c: (self.put(self.st(this), chr(M.concretize(c))), this)[1])
        P(r'^std::ostream::flush\(\)', lambda this: this)
        P(r'^std::ostream::tellp\(\)', lambda this: M.unsupported('tellp'))
        P(r'^std::ostream& std::endl<', outm0(self, '\n'))
        P(r'^std::ostream& std::flush<', lambda this: this)
        P(r'^std::ostream& std::ends<', outm0(self, '\0'))
        I = r'^std::istream::operator>>\('
        for ty, k in (('double&', ('d', 64)), ('float&', ('f', 32)), ('int&', ('i', 32)), ('short&', ('i', 16)), ('long&', ('i', 64)),
                      ('unsigned int&', ('u', 32)), ('unsigned short&', ('u', 16)), ('unsigned long&', ('u', 64))):
            P(I + ty + r'\)', (lambda k: lambda this, p: self.innum(this, p, k))(k))
        P(r'^std::istream& std::operator>> ?<.*>\(std::istream&, std::string&\)', lambda this, p: self.instr(this, p))
        P(r'^std::istream& std::operator>> ?<.*>\(std::istream&, char&\)', lambda this, p: self.inchar(this, p))
        P(r'^std::istream::operator>>\(std::istream& \(\*\)\(std::istream&\)\)', lambda this, f: ICALL(f, (this,)))
        P(r'^std::istream& std::ws<', lambda this: (self.skipws(self.st(this)), this)[1])
        P(r'^std::istream& std::getline<.*>\(std::istream&, std::string&\)', lambda this, p: self.getline(this, p, '\n'))
        P(r'^std::istream& std::getline<.*>\(std::istream&, std::string&, char\)', lambda this, p, c: self.getline(this, p, chr(c)))
        P(r'^std::istream::ignore\(\)', lambda this: self.ignore(this, 1, -1))
        P(r'^std::istream::ignore\(long\)', lambda this, n: self.ignore(this, n, -1))
        P(r'^std::istream::ignore\(long, int\)', lambda this, n, d: self.ignore(this, n, d))
        P(r'^std::istream::peek\(\)', lambda this: self.peek(this))
        P(r'^std::istream::get\(\)', lambda this: self.get(this))
        P(r'^std::istream::get\(char&\)', lambda this, p: self.getc(this, p))
        P(r'^std::istream::seekg\(', lambda this, *a: M.unsupported('seekg'))
        P(r'^std::istream::tellg\(', lambda this, *a: M.unsupported('tellg'))
        for n in ('to_string(int)', 'to_string(double)'):
            pass
        # maths wrappers
        P(r'^std::_Rb_tree_(increment|decrement)\(', lambda p: M.unsupported('std::map iteration'))
        P(r'^__gnu_cxx::__verbose_terminate', lambda *a: M.crash('terminate'))

    def _len(self, s):
        return '%d%s' % (len(s), s)

    # ------------------------------------------------------------ allocation
    def op_new(self, n, kind='heap'):
        M = self.M
        n = M.concretize(n)
        if n > (1 << 31):
            M.throw_std('_ZTISt9bad_alloc', 'std::bad_alloc')
        a = M.alloc(n, kind, '')
        M.heaplive[a >> 32] = n
        return a

    def op_delete(self, p):
        M = self.M
        p = M.cptr(p)
        if p == 0:
            return
        o = M.objs.get(p >> 32)
        if o is None or o.kind != 'heap' or p & M32:
            M.crash('memory error: delete of invalid pointer')
        if not o.alive:
            M.crash('memory error: double free')
        o.alive = False
        o.cells = {}
        M.heaplive.pop(p >> 32, None)

    def c_malloc(self, n):
        return self.op_new(n)

    def c_calloc(self, n, m):
        n = self.M.concretize(n) * self.M.concretize(m)
        a = self.op_new(n)
        MEMSET(a, 0, n)
        return a

    def c_free(self, p):
        self.op_delete(p)

    def c_realloc(self, p, n):
        a = self.op_new(n)
        if p:
            o = self.M.objs[p >> 32]
            MEMCPY(a, p, min(o.size, n))
            self.op_delete(p)
        return a

    def c_strdup(self, p):
        bs = self.M.cstr(p)
        a = self.op_new(len(bs) + 1)
        for i, b in enumerate(bs + [0]):
            ST(a + i, 1, b)
        return a

    # ------------------------------------------------------------ libc
    def c_memcpy(self, d, s, n):
        return MEMCPY(d, s, n)

    def c_memmove(self, d, s, n):
        return MEMCPY(d, s, n)

    def c_memset(self, d, c, n):
        return MEMSET(d, c, n)

    def c_strlen(self, p):
        return len(self.M.cstr(p))

    def _cmp(self, a, b, n, fold, stop):
        M = self.M
        a = M.cptr(a)
        b = M.cptr(b)
        i = 0
        while n is None or i < n:
            x, y = LD(a + i, 1), LD(b + i, 1)
            if fold:
                x, y = self._lower(x), self._lower(y)
            e = beq(x, y)
            if not BR(e):
                lt = bcmp('ult', 8, x, y)
                return ite(lt, 0xffffffff, 1, 32)
            if stop:
                if BR(beq(x, 0)):
                    return 0
            i += 1
        return 0

    def _lower(self, x):
        if type(x) is int:
            return x + 32 if 65 <= x <= 90 else x
        up = band(bcmp('ule', 8, 65, x), bcmp('ule', 8, x, 90))
        return ite(up, bv('add', 8, x, 32), x, 8)

    def c_strcmp(self, a, b):
        return self._cmp(a, b, None, False, True)

    def c_strncmp(self, a, b, n):
        return self._cmp(a, b, self.M.concretize(n), False, True)

    def c_strcasecmp(self, a, b):
        return self._cmp(a, b, None, True, True)

    def c_strncasecmp(self, a, b, n):
        return self._cmp(a, b, self.M.concretize(n), True, True)

    def c_memcmp(self, a, b, n):
        return self._cmp(a, b, self.M.concretize(n), False, False)

    def c_bcmp(self, a, b, n):
        return self._cmp(a, b, self.M.concretize(n), False, False)

    def c_strcpy(self, d, s):
        for i, b in enumerate(self.M.cstr(s) + [0]):
            ST(d + i, 1, b)
        return d

    def c_strcat(self, d, s):
        self.c_strcpy(d + len(self.M.cstr(d)), s)
        return d

    def c_strncpy(self, d, s, n):
        n = self.M.concretize(n)
        if n >> 63:
            self.M.crash('memory error: strncpy with negative size')
        i = 0
        while i < n:
            b = LD(self.M.cptr(s) + i, 1)
            ST(d + i, 1, b)
            i += 1
            if BR(beq(b, 0)):
                while i < n:
                    ST(d + i, 1, 0)
                    i += 1
                return d
        return d

    def c_memchr(self, p, c, n):
        c = trunc(c, 8)
        for i in range(self.M.concretize(n)):
            if BR(beq(LD(p + i, 1), c)):
                return p + i
        return 0

    def c_strchr(self, p, c):
        c = trunc(c, 8)
        i = 0
        while True:
            b = LD(p + i, 1)
            if BR(beq(b, c)):
                return p + i
            if BR(beq(b, 0)):
                return 0
            i += 1

    def c_strstr(self, p, q):
        a, b = self.M.pystr(p), self.M.pystr(q)
        i = a.find(b)
        return p + i if i >= 0 else 0

    def c_toupper(self, c):
        c = self.M.concretize(c)
        return c - 32 if 97 <= c <= 122 else c

    def c_tolower(self, c):
        c = self.M.concretize(c)
        return c + 32 if 65 <= c <= 90 else c

    def c_isspace(self, c):
        return 1 if self.M.concretize(c) in (32, 9, 10, 11, 12, 13) else 0

    def c_isdigit(self, c):
        return 1 if 48 <= self.M.concretize(c) <= 57 else 0

    def c_abs(self, x):
        return ite(bcmp('slt', 32, x, 0), bv('sub', 32, 0, x), x, 32)

    def _num(self, s):
        m = re.match(r'\s*\x01(\d+)\x02', s)
        if m:
            return self.M.tokens[int(m.group(1))]['val'], m.end()
        m = re.match(r'\s*[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf(inity)?|nan)', s, re.I)
        if not m:
            return 0.0, 0
        return float(m.group(0)), m.end()

    def c_atof(self, p):
        return self._num(self.M.pystr(p))[0]

    def c_strtod(self, p, endp):
        v, n = self._num(self.M.pystr(p))
        if endp:
            ST(endp, 8, p + n)
        return v

    def c_atoi(self, p):
        s = self.M.pystr(p)
        m = re.match(r'\s*\x01(\d+)\x02', s)
        if m:
            t = self.M.tokens[int(m.group(1))]
            if t['sort'] != 'i':
                self.M.unsupported('atoi of a floating-point token')
            return t['val']
        m = re.match(r'\s*([+-]?\d+)', s)
        return int(m.group(1)) & M32 if m else 0

    def c_strtol(self, p, endp, base):
        s = self.M.pystr(p)
        m = re.match(r'\s*([+-]?\d+)', s)
        if endp:
            ST(endp, 8, p + (m.end() if m else 0))
        return int(m.group(1)) & 0xffffffffffffffff if m else 0

    def c_atol(self, p):
        return self.c_strtol(p, 0, 10)

    def c_exit(self, c):
        self.c_vs_exit(c)

    def c_abort(self):
        self.M.crash('abort')

    def c___assert_fail(self, e, f, l, fn):
        self.M.crash('assertion failed: ' + self.M.pystr(e))

    def c_time(self, p):
        return 0

    def c_ctime(self, p):
        return self.M.newcstr('Thu Jan  1 00:00:00 1970\n')

    def c_gethostname(self, p, n):
        self.M.putstr(p, 'host\0')
        return 0

    def c_getopt(self, argc, argv, spec):
        M = self.M
        argc = M.concretize(argc)
        sp = M.pystr(spec)
        oi = M.resolve('optind')
        arg = lambda i: LD(argv + 8 * i, 8)
        if not self.optpos:
            # permute non-options to the end (GNU)
            i = self.optind
            while i < argc:
                s = M.pystr(arg(i))
                if len(s) > 1 and s[0] == '-':
                    break
                i += 1
            if i >= argc:
                return 0xffffffff
            if i != self.optind:
                # rotate the option (and its argument) in front of the non-options
                s = M.pystr(arg(i))
                n = 1
                if s != '--' and len(s) == 2 and s[1] in sp and sp[sp.index(s[1]) + 1:sp.index(s[1]) + 2] == ':':
                    n = 2
                vals = [arg(k) for k in range(argc)]
                seg = vals[i:i + n]
                del vals[i:i + n]
                vals[self.optind:self.optind] = seg
                for k, v in enumerate(vals):
                    ST(argv + 8 * k, 8, v)
            if M.pystr(arg(self.optind)) == '--':
                self.optind += 1
                ST(oi, 4, self.optind)
                return 0xffffffff
            self.optpos = 1
        s = M.pystr(arg(self.optind))
        c = s[self.optpos]
        self.optpos += 1
        j = sp.find(c)
        end = self.optpos >= len(s)
        if c == ':' or j < 0:
            if end:
                self.optind += 1
                self.optpos = 0
            ST(oi, 4, self.optind)
            self.put_file('<stderr>', 'invalid option\n')
            return ord('?')
        if sp[j + 1:j + 2] == ':':
            if not end:
                ST(M.resolve('optarg'), 8, arg(self.optind) + self.optpos)
                self.optind += 1
            else:
                self.optind += 1
                if self.optind >= argc:
                    self.optpos = 0
                    ST(oi, 4, self.optind)
                    return ord('?')
                ST(M.resolve('optarg'), 8, arg(self.optind))
                self.optind += 1
            self.optpos = 0
        elif end:
            self.optind += 1
            self.optpos = 0
        ST(oi, 4, self.optind)
        return ord(c)

    # C maths
    def _fun(op):
        return lambda self, x: fun(op, 'd', x)
    for _n in ('sin', 'cos', 'tan', 'log', 'exp', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'fabs', 'atan', 'asin', 'acos', 'rint', 'log10', 'log2'):
        locals()['c_' + _n] = _fun(_n)
    del _n, _fun

    def c_pow(self, a, b):
        if type(a) is E or type(b) is E:
            if type(b) is not E and b == 2.0:
                return fbin('fmul', 'd', a, a)
            if type(a) is not E and a == 2.0 and b.op in ('sitofp', 'uitofp'):
                b = float(sgn(self.M.concretize(b.args[0]), b.args[0].sort))
                return math.pow(2.0, b)
            self.M.unsupported('pow')
        try:
            return math.pow(a, b)
        except OverflowError:
            return math.inf
        except ValueError:
            return math.nan

    def c_exp2(self, b):
        return self.c_pow(2.0, b)

    def c_ldexp(self, a, n):
        n = sgn(self.M.concretize(n) & M32, 32)
        return fbin('fmul', 'd', a, math.ldexp(1.0, n))

    def c_fmod(self, a, b):
        return fbin('frem', 'd', a, b)

    def c_lround(self, a):
        return f2i('fptosi', fun('round', 'd', a), 64)

    def c_sqrtf(self, x):
        return fun('sqrt', 'f', x)

    def c_fabsf(self, x):
        return fun('fabs', 'f', x)

    # ------------------------------------------------------------ printf
    def _format(self, fmt, args):
        M = self.M
        args = list(args)
        out = ''
        pos = 0
        for m in re.finditer(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|L)?([diouxXcsfFeEgGp%])', fmt):
            out += fmt[pos:m.start()]
            pos = m.end()
            c = m.group(5)
            if c == '%':
                out += '%'
                continue
            w = m.group(2)
            if w == '*':
                w = str(sgn(M.concretize(args.pop(0)), 32))
            pr = m.group(3)
            if pr == '*':
                pr = str(sgn(M.concretize(args.pop(0)), 32))
            a = args.pop(0)
            spec = '%' + m.group(1) + (w or '') + ('.' + pr if pr is not None else '')
            if c == 's':
                out += (spec + 's') % M.pystr(a)
            elif c == 'c':
                out += chr(M.concretize(a))
            elif c in 'diouxX':
                wd = 64 if m.group(4) in ('l', 'll', 'z') else 32
                if type(a) is E:
                    out += self.token(a, 'i', None, wd)
                else:
                    a &= (1 << wd) - 1
                    out += (spec + c) % (sgn(a, wd) if c in 'di' else a)
            elif c in 'fFeEgG':
                p = int(pr) if pr is not None else 6
                if type(a) is E:
                    st = Stream('x')
                    st.prec = p
                    st.flags = F_FIXED if c in 'fF' else F_SCI if c in 'eE' else 0
                    st.width = int(w or 0)
                    out += self.token(a, 'd', st)
                else:
                    out += (spec + c) % a
            else:
                out += '0xptr'
        return out + fmt[pos:]

    def c_printf(self, f, *a):
        s = self._format(self.M.pystr(f), a)
        self.put_file('<stdout>', s)
        return len(s)

    def c_puts(self, p):
        self.put_file('<stdout>', self.M.pystr(p) + '\n')
        return 1

    def c_putchar(self, c):
        self.put_file('<stdout>', chr(c & 255))
        return c

    def c_fprintf(self, fp, f, *a):
        o = self.M.objs[fp >> 32]
        s = self._format(self.M.pystr(f), a)
        self.put_file(o.name, s)
        return len(s)

    def c_fputs(self, p, fp):
        self.put_file(self.M.objs[fp >> 32].name, self.M.pystr(p))
        return 1

    def c_fputc(self, c, fp):
        self.put_file(self.M.objs[fp >> 32].name, chr(c & 255))
        return c

    def c_fwrite(self, p, sz, n, fp):
        self.put_file(self.M.objs[fp >> 32].name, ''.join(chr(self.M.concretize(LD(p + i, 1))) for i in range(sz * n)))
        return n

    def c_fflush(self, fp):
        return 0

    def c_sprintf(self, d, f, *a):
        s = self._format(self.M.pystr(f), a)
        self.M.putstr(d, s + '\0')
        return len(s)

    def c_snprintf(self, d, n, f, *a):
        s = self._format(self.M.pystr(f), a)
        n = self.M.concretize(n)
        if n:
            self.M.putstr(d, s[:n - 1] + '\0')
        return len(s)

    # ------------------------------------------------------------ streams
    def attach(self, this, cls, s):
        M = self.M
        vb = self.VBASE[cls]
        key = cls
        if key not in self.vt:
            def d1(p):
                self.stream_dtor(p)

            def d0(p):
                self.stream_dtor(p)
                self.op_delete(p)
            t = M.alloc(64, 'global', 'vtable ' + cls)
            ST(t, 8, vb)
            ST(t + 8, 8, 0)
            ST(t + 16, 8, 0)
            ST(t + 24, 8, self.func('__D1 ' + cls, d1))
            ST(t + 32, 8, self.func('__D0 ' + cls, d0))
            self.vt[key] = t
        ST(this, 8, self.vt[key] + 24)
        s.this = this
        s.iosaddr = this + vb
        M.streams[this] = s
        M.streams[this + vb] = s
        if cls in ('std::stringstream', 'std::fstream'):
            k2 = cls + '/o'
            if k2 not in self.vt:
                t = M.alloc(64, 'global', 'vtable ' + k2)
                ST(t, 8, vb - 16)
                ST(t + 8, 8, (-16) & ((1 << 64) - 1))
                ST(t + 16, 8, 0)
                ST(t + 24, 8, self.func('__D1o ' + cls, lambda p: self.stream_dtor(p - 16)))
                ST(t + 32, 8, self.func('__D0o ' + cls, lambda p: (self.stream_dtor(p - 16), self.op_delete(p - 16))))
                self.vt[k2] = t
            ST(this + 16, 8, self.vt[k2] + 24)
            M.streams[this + 16] = s

    def st(self, p):
        p = self.M.cptr(p)
        s = self.M.streams.get(p)
        if s is None:
            self.M.crash('memory error: operation on an object that is not a live stream')
        return s

    def ios_addr(self, p):
        return self.st(p).iosaddr

    def stream_ctor(self, cls, args, this, a):
        M = self.M
        k = cls[5:]
        s = Stream('file' if k.endswith('fstream') else 'str')
        self.attach(this, cls, s)
        if k.endswith('fstream'):
            if args.startswith('char const*'):
                nm = M.pystr(a[0])
            elif args.startswith('std::string const&'):
                nm = M.string_get(a[0])
            else:
                return
            mode = a[1]
            self.fopen(s, nm, mode, this, {'ofstream': 16, 'ifstream': 8, 'fstream': 0}[k])
        else:
            if args.startswith('std::string const&'):
                s.buf = M.string_get(a[0])
                s.wpos = 0
            elif args not in ('', 'std::_Ios_Openmode'):
                M.unsupported('stream constructor ' + args)

    def stream_dtor(self, this):
        M = self.M
        s = self.st(this)
        for k in [k for k, v in M.streams.items() if v is s]:
            del M.streams[k]

    def fopen(self, s, nm, mode, this, extra=None):
        M = self.M
        mode = M.concretize(mode) & 0xff
        # app=1 ate=2 bin=4 in=8 out=16 trunc=32
        if extra is None:
            vb = s.iosaddr - s.this
            extra = {248: 16, 256: 8}.get(vb, 0)
        mode |= extra
        if s.open:
            s.state |= FAIL
            return
        ok = True
        if mode & (16 | 1):
            if nm in M.unwritable or nm == '' or nm.endswith('/'):
                ok = False
            elif nm != '/dev/null':
                if mode & 8 and not mode & (32 | 1):
                    ok = nm in M.vfs
                elif not mode & 1:
                    M.vfs[nm] = ''
                else:
                    M.vfs.setdefault(nm, '')
        else:
            ok = nm in M.vfs or nm == '/dev/null'
        if not ok:
            s.state |= FAIL
            return
        s.open = True
        s.file = nm
        s.mode = mode
        s.pos = 0
        s.wpos = 0
        s.state = 0
        if mode & 8:
            s.buf = M.vfs.get(nm, '')

    def fclose(self, s):
        if not s.open:
            s.state |= FAIL
            return
        s.open = False

    def setstate(self, this, x, clear):
        s = self.st(this)
        x = self.M.concretize(x) & 7
        s.state = x if clear else s.state | x

    def setattr(self, this, k, v):
        s = self.st(this)
        old = getattr(s, k)
        if type(v) is not str:
            v = self.M.concretize(v)
        setattr(s, k, v)
        return old if type(old) is int else ord(old)

    def setf(self, this, f, m):
        s = self.st(this)
        old = s.flags
        s.flags = (s.flags & ~(m & M32)) | (f & M32)
        return old

    def put_file(self, name, text):
        self.M.vfs[name] = self.M.vfs.get(name, '') + text

    def put(self, s, text, raw=False):
        if not raw and s.width:
            if len(text) < s.width:
                pad = s.fill * (s.width - len(text))
                text = text + pad if s.flags & F_LEFT else pad + text
            s.width = 0
        if s.state & (BAD | FAIL):
            return
        if s.kind == 'str':
            if s.wpos is not None:
                s.buf = s.buf[:s.wpos] + text + s.buf[s.wpos + len(text):]
                s.wpos += len(text)
            else:
                s.buf += text
        elif s.kind in ('cout', 'cerr'):
            self.put_file(s.file, text)
        else:
            if not s.open or not s.mode & (16 | 1):
                s.state |= BAD
                return
            if s.file == '/dev/null':
                return
            if s.mode & 1:
                self.put_file(s.file, text)
            else:
                b = self.M.vfs.get(s.file, '')
                b = b.ljust(s.wpos, '\0')
                self.M.vfs[s.file] = b[:s.wpos] + text + b[s.wpos + len(text):]
                s.wpos += len(text)

    def token(self, val, sort, s=None, w=None):
        M = self.M
        tok = {'val': val, 'sort': sort, 'prec': s.prec if s else None, 'flags': s.flags if s else 0,
               'width': s.width if s else 0, 'w': w}
        # the same value printed the same way is the same text
        for i, o in enumerate(M.tokens):
            if (o['val'] is val or type(val) is not E and type(o['val']) is type(val) and repr(o['val']) == repr(val)) \
                    and all(o[k] == tok[k] for k in ('sort', 'prec', 'flags', 'width', 'w')):
                return '\x01%d\x02' % i
        M.tokens.append(tok)
        return '\x01%d\x02' % (len(M.tokens) - 1)

    def fmtnum(self, s, x):
        fl = s.flags & (F_FIXED | F_SCI)
        if fl == F_FIXED:
            return '%.*f' % (s.prec, x)
        if fl == F_SCI:
            return '%.*e' % (s.prec, x)
        return '%.*g' % (s.prec if s.prec else 1, x)

    def outnum(self, this, x, k):
        s = self.st(this)
        if k == 'f':
            x = fpext(x)
        if type(x) is E or s.kind in ('file', 'cout') and not (math.isnan(x) or math.isinf(x)):
            t = self.token(x, 'd', s)
            s.width = 0
            self.put(s, t, True)
        else:
            self.put(s, self.fmtnum(s, x))
        return this

    def outint(self, this, x, w, signed):
        s = self.st(this)
        if type(x) is E:
            if w == 1:
                x = tob(x, 32)
                w, signed = 32, False
            x = sext(x, w, 64) if signed else zext(x, w, 64)
            t = self.token(x, 'i', s, 64)
            s.width = 0
            self.put(s, t, True)
        else:
            x = int(x)
            self.put(s, str(sgn(x, w) if signed else x) if not s.flags & F_HEX else '%x' % x)
        return this

    def owrite(self, this, p, n):
        n = self.M.concretize(n)
        self.put(self.st(this), ''.join(chr(self.M.concretize(LD(p + i, 1))) for i in range(n)))
        return this

    def ss_setstr(self, this, p):
        s = self.st(this)
        s.buf = self.M.string_get(p)
        s.pos = 0
        s.wpos = 0

    # input
    def text(self, s):
        if s.kind == 'cin':
            return ''
        if s.kind == 'file':
            if not s.open or not s.mode & 8:
                return ''
        return s.buf

    def sentry(self, s, skip=True):
        if s.state:
            s.state |= FAIL
            return False
        t = self.text(s)
        if skip:
            while s.pos < len(t) and t[s.pos] in ' \t\n\r\v\f':
                s.pos += 1
        if s.pos >= len(t):
            s.state |= EOFB | FAIL
            return False
        return True

    def skipws(self, s):
        t = self.text(s)
        while s.pos < len(t) and t[s.pos] in ' \t\n\r\v\f':
            s.pos += 1
        if s.pos >= len(t):
            s.state |= EOFB

    def innum(self, this, p, k):
        M = self.M
        s = self.st(this)

        def store(v):
            if k[0] == 'd' or k[0] == 'f':
                STF(p, k[0], v)
            else:
                ST(p, k[1] // 8, v)
        if s.state:
            s.state |= FAIL
            return this
        if not self.sentry(s):
            if s.state & EOFB:
                pass  # sentry failed at end of file: value unchanged
            return this
        t = self.text(s)
        m = TOK.match(t, s.pos)
        if m:
            tk = M.tokens[int(m.group(1))]
            s.pos = m.end()
            v = tk['val']
            if s.pos < len(t) and t[s.pos] not in ' \t\n\r\v\f,;:':
                M.unsupported('number token glued to text')
            if s.pos >= len(t):
                s.state |= EOFB
            if tk['sort'] == 'i':
                w = tk['w']
                if k[0] in ('d', 'f'):
                    v = i2f('sitofp', k[0], v, w)
                elif w > k[1]:
                    fits = beq(sext(trunc(v, k[1]), k[1], w), v)
                    if not BR(fits):
                        s.state |= FAIL
                        neg = BR(bcmp('slt', w, v, 0))
                        store((1 << (k[1] - 1)) if neg else (1 << (k[1] - 1)) - 1)
                        return this
                    v = trunc(v, k[1])
                elif w < k[1]:
                    v = sext(v, w, k[1])
                store(v)
                return this
            if k[0] not in ('d', 'f'):
                M.unsupported('integer read of a floating-point token')
            if tk['sort'] == 'f':
                store(v if k[0] == 'f' else fpext(v))
            else:
                store(v if k[0] == 'd' else fptrunc(v))
            return this
        if k[0] in ('d', 'f'):
            m = re.compile(r'[+-]?(\d+\.?\d*|\.\d+|)([eE][+-]?\d*)?').match(t, s.pos)
        else:
            m = re.compile(r'[+-]?\d*').match(t, s.pos)
        txt = m.group(0)
        s.pos = m.end()
        if s.pos >= len(t):
            s.state |= EOFB
        try:
            v = float(txt) if k[0] in ('d', 'f') else int(txt)
        except ValueError:
            s.state |= FAIL
            store(0.0 if k[0] in ('d', 'f') else 0)
            return this
        if k[0] == 'f':
            v = f32(v)
        elif k[0] == 'i':
            lo, hi = -(1 << (k[1] - 1)), (1 << (k[1] - 1)) - 1
            if not lo <= v <= hi:
                s.state |= FAIL
                v = lo if v < lo else hi
            v &= (1 << k[1]) - 1
        elif k[0] == 'u':
            v &= (1 << k[1]) - 1
        store(v)
        return this

    def instr(self, this, p):
        s = self.st(this)
        if not self.sentry(s):
            return this
        t = self.text(s)
        a = s.pos
        while s.pos < len(t) and t[s.pos] not in ' \t\n\r\v\f':
            s.pos += 1
        if s.pos >= len(t):
            s.state |= EOFB
        s.width = 0
        self.M.string_set(p, t[a:s.pos])
        return this

    def inchar(self, this, p):
        s = self.st(this)
        if not self.sentry(s):
            return this
        t = self.text(s)
        if t[s.pos] == '\x01':
            self.M.unsupported('char read of a number token')
        ST(p, 1, ord(t[s.pos]))
        s.pos += 1
        return this

    def getline(self, this, p, d):
        s = self.st(this)
        if s.state:
            s.state |= FAIL
            return this
        t = self.text(s)
        if s.pos >= len(t):
            s.state |= EOFB | FAIL
            self.M.string_set(p, '')
            return this
        i = t.find(d, s.pos)
        if i < 0:
            self.M.string_set(p, t[s.pos:])
            s.pos = len(t)
            s.state |= EOFB
        else:
            self.M.string_set(p, t[s.pos:i])
            s.pos = i + 1
        return this

    def ignore(self, this, n, d):
        s = self.st(this)
        n = sgn(self.M.concretize(n), 64)
        d = d if type(d) is int and d < 0 else sgn(self.M.concretize(d) & M32, 32)
        if s.state:
            s.state |= FAIL
            return this
        t = self.text(s)
        while n > 0:
            if s.pos >= len(t):
                s.state |= EOFB
                break
            m = TOK.match(t, s.pos)
            if m:
                if n < 1000:
                    self.M.unsupported('ignore inside number token')
                s.pos = m.end()
                continue
            ch = t[s.pos]
            s.pos += 1
            n -= 1
            if d >= 0 and ch == chr(d):
                break
        return this

    def peek(self, this):
        s = self.st(this)
        if s.state:
            s.state |= FAIL
            return M32
        t = self.text(s)
        if s.pos >= len(t):
            s.state |= EOFB
            return M32
        if t[s.pos] == '\x01':
            return ord('1')
        return ord(t[s.pos])

    def get(self, this):
        s = self.st(this)
        if s.state:
            s.state |= FAIL
            return M32
        t = self.text(s)
        if s.pos >= len(t):
            s.state |= EOFB | FAIL
            return M32
        if t[s.pos] == '\x01':
            self.M.unsupported('get of a number token')
        s.pos += 1
        return ord(t[s.pos - 1])

    def getc(self, this, p):
        c = self.get(this)
        if c != M32:
            ST(p, 1, c)
        return this

    # ------------------------------------------------------------ vs_* inputs
    def inp(self, name, kind, e):
        self.M.inputs.append((self.M.pystr(name), kind, e))
        return e

    def _v(self, name, sort):
        M = self.M
        return var('%s#%d' % (M.pystr(name), len(M.inputs)), sort)

    def c_vs_double(self, n):
        return self.inp(n, 'd', self._v(n, 'd'))

    def c_vs_fdouble(self, n):
        v = self.c_vs_double(n)
        self.assume(band(fcmp('olt', v, math.inf), fcmp('olt', -math.inf, v)))
        return v

    def c_vs_float(self, n):
        return self.inp(n, 'f', self._v(n, 'f'))

    def c_vs_ffloat(self, n):
        v = self.c_vs_float(n)
        self.assume(band(fcmp('olt', v, math.inf), fcmp('olt', -math.inf, v)))
        return v

    def c_vs_int(self, n):
        return self.inp(n, 'i', self._v(n, 32))

    c_vs_uint = c_vs_int

    def c_vs_range(self, n, lo, hi):
        if lo == hi:
            return self.inp(n, 'i', lo)
        v = self.c_vs_int(n)
        self.assume(band(bcmp('sle', 32, lo, v), bcmp('sle', 32, v, hi)))
        return v

    def c_vs_choice(self, n, k):
        """one path per value; the variable is fresh, so every value is feasible"""
        M = self.M
        S = M.solver
        v = self._v(n, 32)
        self.inp(n, 'i', v)
        i = 0
        while i < k - 1:
            if not M.fork():
                break
            i += 1
        if S.env is not None:
            S.env = dict(S.env)
            S.env[v] = i
        S.add(beq(v, i))
        return i

    def c_vs_short(self, n):
        return self.inp(n, 'i', self._v(n, 16))

    def c_vs_bool(self, n):
        return self.inp(n, 'i', self._v(n, 'b'))

    def c_vs_flip(self, n):
        return self.c_vs_choice(n, 2) == 1

    def _uf(self, n, sort, kind, a):
        M = self.M
        nm = M.pystr(n)
        e = uf(nm, sort, *a)
        M.inputs.append((nm, kind, e))
        return e

    def c_vs_uf_d(self, n, a, b, c):
        return self._uf(n, 'd', 'd', (a, b, c))

    def c_vs_uf_u(self, n, a, b, c):
        return self._uf(n, 32, 'i', (a, b, c))

    def c_vs_uf_b(self, n, a, b, c):
        return self._uf(n, 'b', 'i', (a, b, c))

    # logic
    def c_vs_and(self, a, b):
        return band(a, b)

    def c_vs_or(self, a, b):
        return bor(a, b)

    def c_vs_not(self, a):
        return bnot(a)

    def c_vs_implies(self, a, b):
        return bor(bnot(a), b)

    def c_vs_same_d(self, a, b):
        if same(a, b):
            return True
        x, y = sx._asf32(a), sx._asf32(b)
        if x is not None and y is not None and (isE(x) or isE(y)):
            return self.c_vs_same_f(x, y)
        if fcmp('oeq', a, b) is True and not isE(a) and not isE(b):
            return same(a, b)
        return bor(beq(f2bits(a, 'd'), f2bits(b, 'd')), band(isnan(a), isnan(b)))

    def c_vs_same_f(self, a, b):
        if same(a, b):
            return True
        return bor(beq(f2bits(a, 'f'), f2bits(b, 'f')), band(isnan(a), isnan(b)))

    def c_vs_ite_d(self, c, a, b):
        return ite(c, a, b, 'd')

    def c_vs_ite_i(self, c, a, b):
        return ite(c, a, b, 32)

    c_vs_ite_u = c_vs_ite_i

    def c_vs_known(self, c):
        c = c is True or c == 1 if type(c) is not E else self.M.solver.known(c) is True
        return bool(self.inp(self.M.newcstr('known'), 'i', int(bool(c))))

    def c_vs_split(self, c):
        return BR(c)

    def c_vs_concrete(self, v):
        return self.M.concretize(v)

    # verdicts
    def assume(self, c):
        M = self.M
        M.nassume += 1
        if type(c) is not E:
            if not c:
                raise PathEnd('assume-false')
            return
        S = M.solver
        k = S.known(c)
        if k is True:
            return
        r, env = S.check(c)
        if r == 'unsat':
            raise PathEnd('assume-false')
        S.env = env
        S.add(c)

    def c_vs_assume(self, c):
        self.assume(c)

    def c_vs_assert(self, c, label):
        M = self.M
        M.asserts += 1
        if M.opts.get('twin'):
            c = False
        label = M.pystr(label)
        S = M.solver
        M.covers.add('assert:' + label)
        if type(c) is E and c.op == 'and':
            parts, stk = [], [c]
            while stk:
                x = stk.pop()
                if type(x) is E and x.op == 'and':
                    stk.extend(x.args)
                else:
                    parts.append(x)
            if len(parts) <= 16:
                for x in parts:
                    self.assert1(x, label)
                return
        self.assert1(c, label)

    def assert1(self, c, label):
        M = self.M
        S = M.solver
        nc = bnot(c)
        if type(nc) is not E:
            if not nc:
                return
            r, env = S.check(True)
            if r == 'sat':
                M.violate(label, env)
                raise PathEnd('violated')
            if r == 'unsat':
                raise PathEnd('infeasible')
            M.inconclusive.append(label + ' (path not decided)')
            raise PathEnd('violated')
        r, env = S.check(nc)
        if r in ('maybe', 'unknown'):
            import realarith
            r2, env2 = realarith.RealCheck(S).decide(lambda R: R.tr(nc))
            if r2 == 'unsat':
                S.add(c)
                return
            if r2 == 'cand' and S._holds(S.pc + [nc], env2) and S.uf_ok(env2, {}):
                r, env = 'sat', env2
        if r == 'unsat':
            S.pcset.add(c)
            return
        if r == 'sat':
            M.violate(label, env)
        else:
            M.inconclusive.append(label + ' (%s)' % r)
        # continue with the assertion assumed
        r, env = S.check(c)
        if r == 'unsat':
            raise PathEnd('violated')
        S.env = env
        S.add(c)

    def c_vs_assert_close(self, a, b, atol, rtol, label):
        """|a-b| <= atol + rtol*max(|a|,|b|), or both equal / NaN"""
        import realarith
        M = self.M
        if type(a) is not E and type(b) is not E:
            ok = a == b or math.isnan(a) and math.isnan(b) or abs(a - b) <= atol + rtol * max(abs(a), abs(b))
            return self.c_vs_assert(ok, label)
        if self.c_vs_same_d(a, b) is True:
            return self.c_vs_assert(True, label)
        lab = M.pystr(label)
        M.covers.add('assert:' + lab)
        M.asserts += 1
        S = M.solver

        def ev(env):
            memo = {}
            x, y = evalE(a, env, memo), evalE(b, env, memo)
            if x == y or math.isnan(x) and math.isnan(y):
                return False
            at = evalE(atol, env, memo)
            return not abs(x - y) <= at + rtol * max(abs(x), abs(y))
        rc = realarith.RealCheck(S)
        import z3

        def bad(R):
            x, y = R.tr(a, 'd'), R.tr(b, 'd')
            if x is None or y is None:
                return None
            ab = lambda t: z3.If(t >= 0, t, -t)
            mx = z3.If(ab(x) >= ab(y), ab(x), ab(y))
            at = R.tr(atol, 'd') if type(atol) is E else realarith.q(atol)
            if at is None:
                return None
            return ab(x - y) > at * realarith.q(0.999999) + realarith.q(rtol) * realarith.q(0.999999) * mx
        r, env = rc.decide(bad)
        if r == 'unsat':
            return
        if r == 'cand' and S._holds(S.pc, env) and S.uf_ok(env, {}) and ev(env):
            M.violate(lab, env)
            return
        # exact arithmetic
        d = fun('fabs', 'd', fbin('fsub', 'd', a, b))
        mx = fun('fabs', 'd', a)
        my = fun('fabs', 'd', b)
        m = ite(fcmp('olt', mx, my), my, mx, 'd')
        tol = fbin('fadd', 'd', atol, fbin('fmul', 'd', rtol, m)) if rtol else atol
        ok = bor(fcmp('ole', d, tol), self.c_vs_same_d(a, b))
        r, env = S.check(bnot(ok))
        if r == 'unsat':
            return
        if r == 'sat':
            M.violate(lab, env)
            return
        M.inconclusive.append(lab + ' (%s)' % r)

    def c_vs_fail(self, label):
        self.c_vs_assert(False, label)

    def c_vs_cover(self, label):
        self.M.covers.add(self.M.pystr(label))

    def c_vs_observe_d(self, n, v):
        self.M.obs.append((self.M.pystr(n), 'd', v))

    def c_vs_observe_i(self, n, v):
        self.M.obs.append((self.M.pystr(n), 'i', sext(v, 64, 64)))

    # control
    def c_vs_call(self, f, arg):
        M = self.M
        n = len(M.stack)
        nc = len(M.caught)
        try:
            ICALL(f, (arg,))
            return 0
        except CxxExc as ex:
            del M.stack[n:]
            del M.caught[nc:]
            if M.ti_match(ex.ti, M.resolve('_ZTISt9exception')):
                vp = LD(ex.ptr, 8)
                w = ICALL(LD(vp + 16, 8), (ex.ptr,))
                self.lastwhat = M.newcstr(M.pystr(w))
                return 1
            return 2
        except ExitCalled as ex:
            del M.stack[n:]
            del M.caught[nc:]
            self.exitcode = ex.code
            return 3

    def c_vs_exit_code(self):
        return self.exitcode

    def c_vs_what(self):
        return self.lastwhat

    def c_vs_exit(self, c):
        raise ExitCalled(c)

    # files
    def c_vs_path(self, n):
        return n

    def c_vs_file_text(self, n, t):
        self.put_file(self.M.pystr(n), self.M.pystr(t))

    def c_vs_file_num(self, n, v):
        self.put_file(self.M.pystr(n), self.token(v, 'd'))

    def c_vs_file_numf(self, n, v):
        self.put_file(self.M.pystr(n), self.token(v, 'f'))

    def c_vs_file_int(self, n, v):
        self.put_file(self.M.pystr(n), self.token(v, 'i', None, 32))

    def c_vs_numstr(self, v):
        return self.M.newcstr(self.token(v, 'd'))

    def c_vs_intstr(self, v):
        return self.M.newcstr(self.token(v, 'i', None, 32))

    def c_vs_file_unwritable(self, n):
        self.M.unwritable.add(self.M.pystr(n))

    def c_vs_file_exists(self, n):
        return self.M.pystr(n) in self.M.vfs

    def c_vs_out_rewind(self, n):
        self.cursors[self.M.pystr(n)] = 0

    def _cur(self, n, skipnl=False):
        n = self.M.pystr(n)
        t = self.M.vfs.get(n, '')
        p = self.cursors.get(n, 0)
        while p < len(t) and t[p] in (' \t\r\n' if skipnl else ' \t\r'):
            p += 1
        self.cursors[n] = p
        return n, t, p

    def c_vs_out_eof(self, n):
        n, t, p = self._cur(n)
        return p >= len(t)

    def c_vs_out_eol(self, n):
        n, t, p = self._cur(n)
        if p < len(t) and t[p] == '\n':
            self.cursors[n] = p + 1
            return True
        return False

    def c_vs_out_num(self, n, pv, pprec):
        n, t, p = self._cur(n)
        m = TOK.match(t, p)
        if m:
            tk = self.M.tokens[int(m.group(1))]
            self.cursors[n] = m.end()
            v = tk['val']
            if tk['sort'] == 'i':
                STF(pv, 'd', i2f('sitofp', 'd', v, tk['w']))
                ST(pprec, 4, 0)
            else:
                STF(pv, 'd', v)
                ST(pprec, 4, tk['prec'] if tk['flags'] & F_FIXED else (100 + (tk['prec'] or 0)) if tk['flags'] & F_SCI else 200 + (tk['prec'] or 0))
            return True
        m = re.compile(r'[+-]?(\d+\.?(\d*)|\.\d+)([eE][+-]?\d+)?').match(t, p)
        if not m:
            return False
        self.cursors[n] = m.end()
        STF(pv, 'd', float(m.group(0)))
        ST(pprec, 4, len(m.group(2) or '') + (100 if m.group(3) else 0))
        return True

    def c_vs_out_load(self, t):
        self.M.vfs['<mem>'] = self.M.pystr(t)
        self.cursors['<mem>'] = 0

    def c_vs_out_text(self, n, s):
        n, t, p = self._cur(n)
        s = self.M.pystr(s)
        if not t.startswith(s, p):
            return False
        self.cursors[n] = p + len(s)
        return True

    def c_vs_out_nextnum(self, n, pv, pprec):
        nm, t, p = self._cur(n)
        m = re.compile(r'\x01|(?<![A-Za-z0-9])[+-]?\.?\d').search(t, p)
        if not m:
            self.cursors[nm] = len(t)
            return False
        self.cursors[nm] = m.start()
        return self.c_vs_out_num(n, pv, pprec)

    def c_vs_out_find(self, n, s):
        return self.M.vfs.get(self.M.pystr(n), '').count(self.M.pystr(s))

    def c_vs_file_is(self, n, t):
        return self.M.vfs.get(self.M.pystr(n), '') == self.M.pystr(t)

    def c_vs_out_size(self, n):
        return len(self.M.vfs.get(self.M.pystr(n), ''))

    def c_vs_printed(self, got, want, prec):
        return self.c_vs_same_d(got, want)

    def c_vs_heap_live(self):
        return len(self.M.heaplive)


def outm0(self, ch):
    def f(this):
        self.put(self.st(this), ch, True)
        return this
    return f
