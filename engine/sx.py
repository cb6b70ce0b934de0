"""Hash-consed expressions over bit-vectors, booleans and IEEE floats, with
constant folding, a concrete evaluator and a lowering to z3 (QF_BV with lazily
refined floating-point operations, exact FP theory as a fallback)."""
import struct, ctypes, math, time, itertools, os
import z3

# sorts: 'b' bool, int width for bit-vectors, 'd' double, 'f' float32
_tab = {}
_ctr = itertools.count()


class E:
    __slots__ = ('op', 'args', 'sort', 'id')

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('symbolic value used as a Python bool')


def show(e, depth=6):
    if not isinstance(e, E):
        return repr(e)
    if e.op == 'var':
        return str(e.args[0])
    if depth == 0:
        return '..'
    return '(' + e.op + ''.join(' ' + show(a, depth - 1) for a in e.args) + ')'


def _k(a):
    t = type(a)
    if t is E:
        return a.id + 0.5 if False else ('e', a.id)
    if t is float:
        return ('F', struct.pack('<d', a))
    if t is tuple:
        return ('T',) + tuple(_k(x) for x in a)
    return (t.__name__, a)


def mk(op, sort, *args):
    key = (op, sort) + tuple([_k(a) for a in args])
    r = _tab.get(key)
    if r is None:
        r = E()
        r.op = op
        r.args = args
        r.sort = sort
        r.id = next(_ctr)
        _tab[key] = r
    return r


def var(name, sort):
    return mk('var', sort, name)


def isE(x):
    return type(x) is E


def f32(x):
    return ctypes.c_float(x).value


def fbits(x, sort):
    if sort == 'd':
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    return struct.unpack('<I', struct.pack('<f', f32(x)) if not math.isnan(x) else struct.pack('<f', x))[0]


def bitsf(b, sort):
    if sort == 'd':
        return struct.unpack('<d', struct.pack('<Q', b))[0]
    return struct.unpack('<f', struct.pack('<I', b))[0]


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


# ---------------------------------------------------------------- booleans
def bnot(a):
    if type(a) is E:
        if a.op == 'not':
            return a.args[0]
        return mk('not', 'b', a)
    return not a


def band(a, b):
    if type(a) is not E:
        return b if a else False
    if type(b) is not E:
        return a if b else False
    if a is b:
        return a
    if bnot(a) is b:
        return False
    if a.id > b.id:
        a, b = b, a
    return mk('and', 'b', a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if type(a) is not E:
        return bnot(b) if a else b
    if type(b) is not E:
        return bnot(a) if b else a
    if a is b:
        return False
    return bor(band(a, bnot(b)), band(bnot(a), b))


def same(a, b):
    if type(a) is E or type(b) is E:
        return a is b
    if type(a) is float and type(b) is float:
        return struct.pack('<d', a) == struct.pack('<d', b)
    return a == b and (type(a) is float) == (type(b) is float)


def ite(c, a, b, sort):
    if type(c) is not E:
        return a if c else b
    if same(a, b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a, sort)
    if sort == 'b':
        return bor(band(c, a), band(bnot(c), b))
    return mk('ite', sort, c, a, b)


# ---------------------------------------------------------------- bit-vectors
def tob(x, w=None):
    """bool -> BV of width w"""
    if type(x) is E:
        return ite(x, 1, 0, w)
    return 1 if x else 0


def bv(op, w, a, b):
    if type(a) is bool:
        a = int(a)
    if type(b) is bool:
        b = int(b)
    ta = type(a) is E
    tb = type(b) is E
    m = (1 << w) - 1
    if not ta and not tb:
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) & m
        if op == 'udiv':
            return a // b if b else m
        if op == 'urem':
            return a % b if b else a
        if op in ('sdiv', 'srem'):
            x, y = sgn(a, w), sgn(b, w)
            if y == 0:
                return (m if x >= 0 else 1) if op == 'sdiv' else a
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q & m if op == 'sdiv' else (x - q * y) & m
        raise NotImplementedError(op)
    if ta and a.sort == 'b':
        a = tob(a, w)
    if tb and b.sort == 'b':
        b = tob(b, w)
    # push through ite-of-constants when other side constant
    if op in ('add', 'mul', 'and', 'or', 'xor') and not ta:
        a, b = b, a
        ta, tb = tb, ta
    if not tb:
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0:
            return a
        if op == 'and':
            if b == 0:
                return 0
            if b == m:
                return a
        if op == 'mul':
            if b == 0:
                return 0
            if b == 1:
                return a
        if op in ('udiv', 'sdiv') and b == 1:
            return a
        if op == 'sub':
            return bv('add', w, a, (-b) & m)
        if op == 'add' and a.op == 'add' and type(a.args[1]) is int:
            return bv('add', w, a.args[0], (a.args[1] + b) & m)
        if a.op == 'ite' and type(a.args[1]) is not E and type(a.args[2]) is not E:
            return ite(a.args[0], bv(op, w, a.args[1], b), bv(op, w, a.args[2], b), w)
    elif not ta:
        if b.op == 'ite' and type(b.args[1]) is not E and type(b.args[2]) is not E:
            return ite(b.args[0], bv(op, w, a, b.args[1]), bv(op, w, a, b.args[2]), w)
        if a == 0 and op in ('shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            return 0
    else:
        if op in ('add', 'mul', 'and', 'or', 'xor') and a.id > b.id:
            a, b = b, a
        if a is b:
            if op in ('sub', 'xor'):
                return 0
            if op in ('and', 'or'):
                return a
    return mk(op, w, a, b)


def zext(a, w0, w):
    if type(a) is not E:
        return int(a)
    if a.sort == 'b':
        return tob(a, w)
    if w == w0:
        return a
    if a.op == 'zext':
        return mk('zext', w, a.args[0])
    if a.op == 'ite' and type(a.args[1]) is int and type(a.args[2]) is int:
        return ite(a.args[0], a.args[1], a.args[2], w)
    return mk('zext', w, a)


def sext(a, w0, w):
    if type(a) is not E:
        a = int(a)
        return sgn(a, w0) & ((1 << w) - 1)
    if a.sort == 'b':
        return ite(a, (1 << w) - 1, 0, w)
    if w == w0:
        return a
    if a.op == 'ite' and type(a.args[1]) is int and type(a.args[2]) is int:
        return ite(a.args[0], sext(a.args[1], w0, w), sext(a.args[2], w0, w), w)
    return mk('sext', w, a)


def trunc(a, w):
    """trunc to w bits; w==1 yields bool"""
    if type(a) is not E:
        a = int(a) & ((1 << w) - 1)
        return bool(a) if w == 1 else a
    if a.sort == 'b':
        return a if w == 1 else tob(a, w)
    if a.op == 'ite' and type(a.args[1]) is int and type(a.args[2]) is int:
        return ite(a.args[0], trunc(a.args[1], w), trunc(a.args[2], w), 'b' if w == 1 else w)
    if w == 1:
        return mk('eq', 'b', extract(a, 0, 0), 1)
    if w == a.sort:
        return a
    if a.op in ('zext', 'sext'):
        s = a.args[0].sort
        if s == w:
            return a.args[0]
        if s > w:
            return trunc(a.args[0], w)
        return zext(a.args[0], s, w) if a.op == 'zext' else sext(a.args[0], s, w)
    return extract(a, w - 1, 0)


def extract(a, hi, lo):
    w = hi - lo + 1
    if type(a) is not E:
        return (a >> lo) & ((1 << w) - 1)
    if lo == 0 and w == a.sort:
        return a
    if a.op == 'extract':
        return extract(a.args[0], hi + a.args[2], lo + a.args[2])
    if a.op == 'zext':
        s = a.args[0].sort
        if lo >= s:
            return 0
        if hi < s:
            return extract(a.args[0], hi, lo)
    if a.op == 'concat':
        wl = a.args[2]
        if hi < wl:
            return extract(a.args[1], hi, lo)
        if lo >= wl:
            return extract(a.args[0], hi - wl, lo - wl)
    if a.op == 'ite' and type(a.args[1]) is int and type(a.args[2]) is int:
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo), w)
    return mk('extract', w, a, hi, lo)


def concat(h, wh, l, wl):
    if type(h) is not E and type(l) is not E:
        return (h << wl) | l
    if type(h) is not E and h == 0:
        return zext(l, wl, wh + wl)
    if type(h) is E and type(l) is E and h.op == 'extract' and l.op == 'extract' \
            and h.args[0] is l.args[0] and h.args[2] == l.args[1] + 1:
        return extract(h.args[0], h.args[1], l.args[2])
    return mk('concat', wh + wl, h, l, wl)


def beq(a, b, w=None):
    ta = type(a) is E
    tb = type(b) is E
    if not ta and not tb:
        return a == b
    if a is b:
        return True
    if (ta and a.sort == 'b') or (tb and b.sort == 'b'):
        return bnot(bxor(a if ta else bool(a), b if tb else bool(b)))
    if not ta:
        a, b = b, a
        tb = True
        ta, tb = True, type(b) is E
    if not tb:
        if a.op == 'ite':
            c, x, y = a.args
            tx, ty = type(x) is E, type(y) is E
            if not tx and not ty:
                return ite(c, x == b, y == b, 'b')
            if not tx and x != b:
                return band(bnot(c), beq(y, b))
            if not ty and y != b:
                return band(c, beq(x, b))
        if a.op == 'zext':
            s = a.args[0].sort
            if b >> s:
                return False
            return beq(a.args[0], b)
        if a.op == 'add' and type(a.args[1]) is int:
            return beq(a.args[0], (b - a.args[1]) & ((1 << a.sort) - 1))
        return mk('eq', 'b', a, b)
    if a.op in ('zext', 'sext') and b.op == a.op and a.args[0].sort == b.args[0].sort:
        return beq(a.args[0], b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 'b', a, b)


def bcmp(op, w, a, b):
    """op in ult ule slt sle"""
    ta = type(a) is E
    tb = type(b) is E
    if not ta and not tb:
        if op[0] == 's':
            a, b = sgn(int(a), w), sgn(int(b), w)
        return a < b if op[1:] == 'lt' else a <= b
    if ta and a.sort == 'b':
        a = tob(a, w)
    if tb and b.sort == 'b':
        b = tob(b, w)
    if a is b:
        return op[1:] == 'le'
    if ta and not tb and a.op == 'ite' and type(a.args[1]) is int and type(a.args[2]) is int:
        return ite(a.args[0], bcmp(op, w, a.args[1], b), bcmp(op, w, a.args[2], b), 'b')
    if tb and not ta and b.op == 'ite' and type(b.args[1]) is int and type(b.args[2]) is int:
        return ite(b.args[0], bcmp(op, w, a, b.args[1]), bcmp(op, w, a, b.args[2]), 'b')
    if op == 'ult' and not tb and b == 0:
        return False
    if op == 'ule' and not ta and a == 0:
        return True
    if op.endswith('le'):  # a<=b == not(b<a)
        return bnot(bcmp(op[0] + 'lt', w, b, a))
    return mk(op, 'b', a, b)


# ---------------------------------------------------------------- floats
def _fold(op, sort, a, b):
    try:
        if op == 'fadd':
            r = a + b
        elif op == 'fsub':
            r = a - b
        elif op == 'fmul':
            r = a * b
        elif op == 'fdiv':
            if b == 0.0:
                if a == 0.0 or math.isnan(a):
                    r = math.nan
                else:
                    r = math.inf * math.copysign(1, a) * math.copysign(1, b)
            else:
                r = a / b
        elif op == 'frem':
            r = math.fmod(a, b) if b != 0 and not math.isinf(a) else math.nan
        else:
            raise NotImplementedError(op)
    except OverflowError:
        r = math.inf
    return f32(r) if sort == 'f' else r


def _pow2(c):
    if c == 0 or math.isinf(c) or math.isnan(c):
        return False
    m, e = math.frexp(c)
    return abs(m) == 0.5 and -1000 < e < 1000


def fbin(op, sort, a, b):
    ta = type(a) is E
    tb = type(b) is E
    if not ta and not tb:
        return _fold(op, sort, float(a), float(b))
    if op == 'fsub':
        if not tb:
            return fbin('fadd', sort, a, -b)
        if b.op == 'fneg':
            return fbin('fadd', sort, a, b.args[0])
    if op == 'fdiv' and not tb and _pow2(b) and (sort == 'd' or abs(math.frexp(b)[1]) < 120):
        return fbin('fmul', sort, a, 1.0 / b)
    if op == 'fadd' or op == 'fmul':
        if not ta or (tb and a.id > b.id):
            a, b = b, a
            ta, tb = tb, ta
        if op == 'fadd' and ta and a is b:
            return fbin('fmul', sort, a, 2.0)
        if op == 'fmul' and not tb and b == 1.0:
            return a
        if op == 'fmul' and not tb and b == -1.0:
            return fneg(a)
        if op == 'fmul' and not tb and b == 0.5 and a.op == 'fmul' and type(a.args[1]) is float and a.args[1] == 2.0:
            x = a.args[0]
            big = 2.0 ** 1023 if sort == 'd' else 2.0 ** 127
            return ite(fcmp('olt', fun('fabs', sort, x), big), x, a, sort)
        if op == 'fadd' and not tb and b == 0.0 and math.copysign(1, b) < 0:
            return a
    if op == 'fdiv' and not tb and b == 1.0:
        return a
    if op == 'fdiv' and not ta and sort == 'd' and a != 1.0 and _pow2(a) and b.op == 'fpext' and abs(math.frexp(a)[1]) < 800:
        # exact: 1/x of a binary32 value is far from the binary64 extremes
        return fbin('fmul', sort, fbin('fdiv', sort, 1.0, b), a)
    return mk(op, sort, a, b)


def fneg(a):
    if type(a) is not E:
        return -a
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', a.sort, a)


def fun(op, sort, a):
    if type(a) is not E:
        a = float(a)
        if op == 'fabs':
            return math.fabs(a)
        if op == 'sqrt':
            r = math.sqrt(a) if a >= 0 else (a if a == 0 else math.nan)
            return f32(r) if sort == 'f' else r
        if op in ('floor', 'ceil', 'trunc', 'round', 'rint'):
            if math.isnan(a) or math.isinf(a) or abs(a) >= 2 ** 53:
                return a
            if op == 'floor':
                r = float(math.floor(a))
            elif op == 'ceil':
                r = float(math.ceil(a))
            elif op == 'trunc':
                r = float(math.trunc(a))
            elif op == 'rint':
                r = float(round(a))
            else:
                r = float(math.floor(abs(a)))
                if abs(a) - r >= 0.5:
                    r += 1
            return math.copysign(abs(r), a)
        if op in ('sin', 'cos', 'tan', 'log', 'exp', 'atan', 'asin', 'acos', 'log10', 'log2'):
            try:
                r = getattr(math, op)(a)
            except (ValueError, OverflowError):
                if op.startswith('log') and a == 0:
                    r = -math.inf
                elif op == 'exp' and a > 0:
                    r = math.inf
                else:
                    r = math.nan
            return f32(r) if sort == 'f' else r
        raise NotImplementedError(op)
    if op == 'fabs' and a.op in ('fabs', 'fneg'):
        return fun('fabs', sort, a.args[0])
    return mk(op, sort, a)


def fpext(a):
    if type(a) is not E:
        return float(a)
    if a.op == 'ite':
        return ite(a.args[0], fpext(a.args[1]), fpext(a.args[2]), 'd')
    return mk('fpext', 'd', a)


def _isf32(c):
    return math.isnan(c) or f32(c) == c


def _asf32(x):
    """the f32 value x was extended from, or None"""
    if type(x) is E:
        return x.args[0] if x.op == 'fpext' else None
    return x if _isf32(x) else None


def fptrunc(a):
    if type(a) is not E:
        return f32(a)
    if a.op == 'fpext':
        return a.args[0]
    if a.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        x, y = _asf32(a.args[0]), _asf32(a.args[1])
        if x is not None and y is not None:
            return fbin(a.op, 'f', x, y)
    if a.op == 'fneg':
        return fneg(fptrunc(a.args[0]))
    if a.op == 'ite':
        return ite(a.args[0], fptrunc(a.args[1]), fptrunc(a.args[2]), 'f')
    return mk('fptrunc', 'f', a)


def i2f(op, sort, a, w):
    """op sitofp/uitofp"""
    if type(a) is not E:
        a = int(a)
        v = sgn(a, w) if op == 'sitofp' else a
        r = float(v) if sort == 'd' else _int_f32(v)
        return r
    if a.sort == 'b':
        t = i2f(op, sort, (1 << w) - 1 if op == 'sitofp' else 1, w)
        return ite(a, t, 0.0, sort)
    if a.op == 'sext' and op == 'sitofp':
        return i2f(op, sort, a.args[0], a.args[0].sort)
    if a.op == 'zext':
        return i2f('uitofp', sort, a.args[0], a.args[0].sort)
    if a.op == 'ite':
        return ite(a.args[0], i2f(op, sort, a.args[1], w), i2f(op, sort, a.args[2], w), sort)
    return mk(op, sort, a)


def _int_f32(v):
    return float(__import__('numpy').float32(v))


def f2i(op, a, w):
    """op fptosi/fptoui; out of range -> 'indefinite' of x86 / flagged by caller"""
    if type(a) is not E:
        if math.isnan(a) or math.isinf(a):
            return 1 << (w - 1)
        v = math.trunc(a)
        if op == 'fptosi':
            if not (-(1 << (w - 1)) <= v < (1 << (w - 1))):
                return 1 << (w - 1)
        else:
            if v < 0 or v >= (1 << w):
                return v & ((1 << w) - 1) if abs(v) < (1 << 63) else (1 << (w - 1))
        return v & ((1 << w) - 1)
    if a.op == 'ite':
        return ite(a.args[0], f2i(op, a.args[1], w), f2i(op, a.args[2], w), w)
    x = a
    if x.op == 'fpext':
        x = x.args[0]
        if type(x) is not E:
            return f2i(op, x, w)
    if x.op in ('sitofp', 'uitofp'):
        s = x.args[0].sort
        if s <= (53 if x.sort == 'd' else 24) or True and x.sort == 'd' and s <= 53:
            if op == 'fptosi' and s <= w and (x.op == 'sitofp' or s < w):
                return sext(x.args[0], s, w) if x.op == 'sitofp' else zext(x.args[0], s, w)
            if op == 'fptoui' and x.op == 'uitofp' and s <= w:
                return zext(x.args[0], s, w)
    return mk(op, w, x)


def fcmp(op, a, b):
    """op in oeq olt ole uno"""
    ta = type(a) is E
    tb = type(b) is E
    if not ta and not tb:
        if op == 'uno':
            return math.isnan(a) or math.isnan(b)
        if op == 'oeq':
            return a == b
        return a < b if op == 'olt' else a <= b
    if not ta and math.isnan(a) or not tb and math.isnan(b):
        return op == 'uno'
    if op == 'uno':
        r = False
        if ta:
            r = isnan(a)
        if tb and a is not b:
            r = bor(r, isnan(b))
        return r
    if ta and tb and a.op in ('sitofp', 'uitofp') and a.op == b.op and a.args[0].sort == b.args[0].sort \
            and a.args[0].sort <= (53 if a.sort == 'd' else 24):
        if op == 'oeq':
            return beq(a.args[0], b.args[0], a.args[0].sort)
        return bcmp(('s' if a.op[0] == 's' else 'u') + op[1:], a.args[0].sort, a.args[0], b.args[0])
    x, y = _asf32(a), _asf32(b)
    if (type(a) is E and a.sort == 'd' or type(b) is E and b.sort == 'd') and x is not None and y is not None:
        return fcmp(op, x, y)
    for (p, q, sw) in ((a, b, 0), (b, a, 1)):
        if type(p) is E and p.op == 'ite' and (type(q) is not E) and type(p.args[1]) is not E or \
                type(p) is E and p.op == 'ite' and type(q) is not E and type(p.args[2]) is not E:
            c, u, v = p.args
            if sw:
                return ite(c, fcmp(op, q, u), fcmp(op, q, v), 'b')
            return ite(c, fcmp(op, u, q), fcmp(op, v, q), 'b')
        # integer-valued comparisons
        if type(p) is E and p.op in ('sitofp', 'uitofp') and type(q) is not E and \
                p.args[0].sort <= (53 if p.sort == 'd' else 24):
            w = p.args[0].sort
            s = 's' if p.op == 'sitofp' else 'u'
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s == 's' else (0, (1 << w) - 1)
            m = (1 << w) - 1
            if op == 'oeq':
                if q != math.floor(q) if not math.isinf(q) else True:
                    return False
                return beq(p.args[0], int(q) & m) if lo <= q <= hi else False
            # p < q etc.
            if math.isinf(q):
                return (q > 0) if not sw else (q < 0)
            if not sw:
                k = math.ceil(q) - 1 if op == 'olt' else math.floor(q)  # p <= k
                if k < lo:
                    return False
                if k >= hi:
                    return True
                return bcmp(s + 'le', w, p.args[0], k & m)
            else:
                k = math.floor(q) + 1 if op == 'olt' else math.ceil(q)  # p >= k
                if k > hi:
                    return False
                if k <= lo:
                    return True
                return bcmp(s + 'le', w, k & m, p.args[0])
    if a is b:
        if op == 'olt':
            return False
        return bnot(isnan(a))
    if ta and tb and a.op == 'fneg' and b.op == 'fneg':
        a, b = b.args[0], a.args[0]
    elif ta and a.op == 'fneg' and not tb:
        a, b = -b, a.args[0]
    elif tb and b.op == 'fneg' and not ta:
        a, b = b.args[0], -a
    ta = type(a) is E
    tb = type(b) is E
    if op == 'oeq':
        if not ta or (tb and a.id > b.id):
            a, b = b, a
    return mk(op, 'b', a, b)


def isnan(a):
    if type(a) is not E:
        return math.isnan(a)
    if a.op in ('fpext', 'fneg', 'fabs'):
        return isnan(a.args[0])
    if a.op in ('sitofp', 'uitofp'):
        return False
    if a.op == 'ite':
        return ite(a.args[0], isnan(a.args[1]), isnan(a.args[2]), 'b')
    return mk('isnan', 'b', a)


def f2bits(a, sort):
    if type(a) is not E:
        return fbits(a, sort)
    if a.op == 'frombits':
        return a.args[0]
    return mk('tobits', 64 if sort == 'd' else 32, a)


def bits2f(a, sort):
    if type(a) is not E:
        return bitsf(a, sort)
    if a.op == 'tobits':
        return a.args[0]
    return mk('frombits', sort, a)


def uf(name, sort, *args):
    return mk('uf', sort, name, tuple(args))


# ---------------------------------------------------------------- evaluation
BV2 = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
HEAVY2 = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
HEAVY1 = {'sqrt', 'floor', 'ceil', 'trunc', 'round', 'rint', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'}
TRANS = {'sin', 'cos', 'tan', 'log', 'exp', 'atan', 'asin', 'acos', 'log10', 'log2'}
HEAVY = HEAVY2 | HEAVY1 | TRANS


def rebuild(e, vals):
    op, s = e.op, e.sort
    if op == 'and' and s == 'b':
        return band(vals[0], vals[1])
    if op in BV2:
        return bv(op, s, vals[0], vals[1])
    if op in HEAVY2:
        return fbin(op, s, vals[0], vals[1])
    if op == 'not':
        return bnot(vals[0])
    if op == 'ite':
        return ite(vals[0], vals[1], vals[2], s)
    if op == 'eq':
        return beq(vals[0], vals[1])
    if op in ('ult', 'slt'):
        w = [a.sort for a in e.args if type(a) is E][0]
        return bcmp(op, w, vals[0], vals[1])
    if op == 'zext':
        return zext(vals[0], e.args[0].sort, s)
    if op == 'sext':
        return sext(vals[0], e.args[0].sort, s)
    if op == 'extract':
        return extract(vals[0], vals[1], vals[2])
    if op == 'concat':
        return concat(vals[0], s - vals[2], vals[1], vals[2])
    if op in ('oeq', 'olt', 'ole', 'uno'):
        return fcmp(op, vals[0], vals[1])
    if op == 'isnan':
        return isnan(vals[0])
    if op == 'fneg':
        return fneg(vals[0])
    if op == 'fpext':
        return fpext(vals[0])
    if op == 'fptrunc':
        return fptrunc(vals[0])
    if op in ('sitofp', 'uitofp'):
        return i2f(op, s, vals[0], e.args[0].sort)
    if op in ('fptosi', 'fptoui'):
        return f2i(op, vals[0], s)
    if op == 'tobits':
        return f2bits(vals[0], e.args[0].sort)
    if op == 'frombits':
        return bits2f(vals[0], s)
    return fun(op, s, vals[0])


def children(e):
    if e.op == 'var':
        return ()
    if e.op == 'uf':
        return [a for a in e.args[1] if type(a) is E]
    return [a for a in e.args if type(a) is E]


def evalE(e, env, memo=None):
    """concrete value; env: E(var)/E(uf) -> value (default 0)"""
    if type(e) is not E:
        return e
    if memo is None:
        memo = {}
    st = [e]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        if x.op == 'uf':
            v = env.get(x)
            if v is None:
                need = [a for a in x.args[1] if type(a) is E and a not in memo]
                if need:
                    st.extend(need)
                    continue
                v = env.get(('uf', x.args[0]) + tuple(_k(memo[a] if type(a) is E else a) for a in x.args[1]))
                if v is None:
                    v = {'b': False, 'd': 0.0, 'f': 0.0}.get(x.sort, 0)
            memo[x] = v
            st.pop()
            continue
        if x.op == 'var':
            v = env.get(x)
            if v is None:
                v = {'b': False, 'd': 0.0, 'f': 0.0}.get(x.sort, 0)
            memo[x] = v
            st.pop()
            continue
        need = [a for a in x.args if type(a) is E and a not in memo]
        if need:
            st.extend(need)
            continue
        memo[x] = rebuild(x, [memo[a] if type(a) is E else a for a in x.args])
        st.pop()
    return memo[e]


# ---------------------------------------------------------------- z3 lowering
class Inconclusive(Exception):
    pass


def _w(sort):
    return {'d': 64, 'f': 32}.get(sort, sort)


class Low:
    """lowering of E to z3 with doubles as BV64; heavy ops are fresh variables
    listed in self.heavy for refinement"""

    def __init__(self):
        self.memo = {}
        self.heavy = []
        self.heavyset = set()
        self.ufs = {}
        self.side = []  # extra constraints to be asserted
        self.vars = []

    def const(self, a, sort):
        if sort == 'b':
            return z3.BoolVal(bool(a))
        if sort in ('d', 'f'):
            return z3.BitVecVal(fbits(float(a), sort), _w(sort))
        return z3.BitVecVal(int(a), sort)

    def asort(self, e, i):
        """sort of arg i of e"""
        a = e.args[i]
        if type(a) is E:
            return a.sort
        op = e.op
        if op in ('eq', 'ult', 'slt', 'oeq', 'olt', 'ole'):
            return e.args[1 - i].sort
        if op == 'ite':
            return 'b' if i == 0 else e.sort
        return e.sort

    def lo(self, a, sort):
        if type(a) is not E:
            return self.const(a, sort)
        memo = self.memo
        st = [a]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            need = [c for c in children(x) if c not in memo]
            if need:
                st.extend(need)
                continue
            memo[x] = self.node(x)
            st.pop()
        return memo[a]

    def node(self, e):
        op = e.op
        s = e.sort
        if op == 'var':
            v = z3.Bool(e.args[0]) if s == 'b' else z3.BitVec(e.args[0], _w(s))
            self.vars.append(e)
            return v
        if op == 'uf':
            v = z3.Bool('uf!%d' % e.id) if s == 'b' else z3.BitVec('uf!%d' % e.id, _w(s))
            lst = self.ufs.setdefault((e.args[0], len(e.args[1])), [])
            for o, ov in lst:
                conds = []
                for x, y in zip(e.args[1], o.args[1]):
                    if same(x, y):
                        continue
                    srt = x.sort if type(x) is E else y.sort if type(y) is E else None
                    if srt is None:
                        conds.append(z3.BoolVal(False))
                    else:
                        conds.append(self.lo(x, srt) == self.lo(y, srt))
                self.side.append(z3.Or([z3.Not(c) for c in conds] + [v == ov]))
            lst.append((e, v))
            return v
        if op in HEAVY:
            v = z3.BitVec('h!%d' % e.id, _w(s))
            self.heavy.append(e)
            self.heavyset.add(e)
            self.heavy_axioms(e, v)
            return v
        A = [self.memo[a] if type(a) is E else self.const(a, self.asort(e, i)) if op not in ('extract', 'concat') else a
             for i, a in enumerate(e.args)]
        if op == 'not':
            return z3.Not(A[0])
        if op == 'and' and s == 'b':
            return z3.And(A[0], A[1])
        if op == 'ite':
            return z3.If(A[0], A[1], A[2])
        if op == 'eq':
            return A[0] == A[1]
        if op == 'ult':
            return z3.ULT(A[0], A[1])
        if op == 'slt':
            return A[0] < A[1]
        if op == 'zext':
            return z3.ZeroExt(s - e.args[0].sort, A[0])
        if op == 'sext':
            return z3.SignExt(s - e.args[0].sort, A[0])
        if op == 'extract':
            return z3.Extract(e.args[1], e.args[2], A[0])
        if op == 'concat':
            wl = e.args[2]
            h = A[0] if type(e.args[0]) is E else z3.BitVecVal(e.args[0], s - wl)
            l = A[1] if type(e.args[1]) is E else z3.BitVecVal(e.args[1], wl)
            return z3.Concat(h, l)
        if op in BV2:
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y,
                 'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem,
                 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
                 'shl': lambda x, y: x << y, 'lshr': z3.LShR, 'ashr': lambda x, y: x >> y}[op]
            return f(A[0], A[1])
        if op == 'isnan':
            return self.znan(A[0])
        if op == 'oeq':
            return self.zfeq(A[0], A[1])
        if op == 'olt':
            return self.zflt(A[0], A[1])
        if op == 'ole':
            return z3.Or(self.zflt(A[0], A[1]), self.zfeq(A[0], A[1]))
        if op == 'fneg':
            w = _w(s)
            return A[0] ^ z3.BitVecVal(1 << (w - 1), w)
        if op == 'fabs':
            w = _w(s)
            return A[0] & z3.BitVecVal((1 << (w - 1)) - 1, w)
        if op in ('tobits', 'frombits'):
            return A[0]
        if op == 'fpext':
            return self.zfpext(A[0])
        raise NotImplementedError(op)

    def znan(self, x):
        w = x.size()
        m = z3.BitVecVal((1 << (w - 1)) - 1, w)
        inf = z3.BitVecVal(0x7ff << 52 if w == 64 else 0xff << 23, w)
        return z3.UGT(x & m, inf)

    def zzero2(self, x, y):
        w = x.size()
        m = z3.BitVecVal((1 << (w - 1)) - 1, w)
        return ((x | y) & m) == 0

    def zfeq(self, x, y):
        return z3.And(z3.Not(self.znan(x)), z3.Not(self.znan(y)), z3.Or(x == y, self.zzero2(x, y)))

    def zflt(self, x, y):
        w = x.size()
        sx = z3.Extract(w - 1, w - 1, x) == 1
        sy = z3.Extract(w - 1, w - 1, y) == 1
        return z3.And(z3.Not(self.znan(x)), z3.Not(self.znan(y)), z3.Not(self.zzero2(x, y)),
                      z3.If(sx, z3.Or(z3.Not(sy), z3.UGT(x, y)), z3.And(z3.Not(sy), z3.ULT(x, y))))

    def zfpext(self, x):
        s = z3.Extract(31, 31, x)
        ex = z3.Extract(30, 23, x)
        m = z3.Extract(22, 0, x)
        z29 = z3.BitVecVal(0, 29)
        normal = z3.Concat(s, z3.ZeroExt(3, ex) + z3.BitVecVal(896, 11), m, z29)
        special = z3.Concat(s, z3.BitVecVal(2047, 11), m, z29)
        zero = z3.Concat(s, z3.BitVecVal(0, 63))
        den = zero
        # value = m * 2^-149 ; if top set bit index k: exp = k-149+1023
        for k in range(23):
            frac = z3.Extract(51, 0, z3.ZeroExt(29, m) << (52 - k))
            den = z3.If(z3.Extract(k, k, m) == 1,
                        z3.Concat(s, z3.BitVecVal(k - 149 + 1023, 11), frac), den)
        return z3.If(ex == 255, special, z3.If(ex == 0, den, normal))

    def heavy_axioms(self, e, v):
        """cheap sound facts about a heavy op"""
        op = e.op
        S = self.side
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            ss = e.sort
            x = self.lo(e.args[0], ss)
            y = self.lo(e.args[1], ss)
            w = _w(ss)
            # NaN operand -> NaN
            S.append(z3.Implies(z3.Or(self.znan(x), self.znan(y)), self.znan(v)))
            if op in ('fmul', 'fdiv'):
                sg = lambda t: z3.Extract(w - 1, w - 1, t)
                S.append(z3.Or(self.znan(v), sg(v) == sg(x) ^ sg(y)))
            if op == 'fmul':
                S.append(z3.Implies(z3.And(z3.Not(self.znan(v)), z3.Or(self.zzero2(x, x), self.zzero2(y, y))),
                                    self.zzero2(v, v)))
            if op == 'fmul' and type(e.args[1]) is float and _pow2(e.args[1]):
                # multiplication by a power of two only moves the exponent (normal range)
                fb, eb = (52, 11) if w == 64 else (23, 8)
                k = math.frexp(abs(e.args[1]))[1] - 1
                mx = (1 << eb) - 2
                if -mx // 2 < k < mx // 2:
                    ex = z3.Extract(w - 2, fb, x)
                    lo_, hi_ = max(1, 1 - k), min(mx, mx - k)
                    mag = (x & z3.BitVecVal((1 << (w - 1)) - 1, w)) + z3.BitVecVal((k << fb) & ((1 << w) - 1), w)
                    S.append(z3.Implies(z3.And(z3.UGE(ex, lo_), z3.ULE(ex, hi_)),
                                        (v & z3.BitVecVal((1 << (w - 1)) - 1, w)) == mag))
            if op in ('fmul', 'fdiv') and not (op == 'fmul' and type(e.args[1]) is float and _pow2(e.args[1])):
                # exponents add up / subtract, up to one
                fb, eb = (52, 11) if w == 64 else (23, 8)
                X = lambda t: z3.ZeroExt(3, z3.Extract(w - 2, fb, t))
                n = eb + 3
                B = lambda k: z3.BitVecVal(k & ((1 << n) - 1), n)
                bias, mx = (1 << (eb - 1)) - 1, (1 << eb) - 2
                ex, ey, ev = X(x), X(y), X(v)
                nrm = z3.And(ex != 0, ey != 0, ex <= mx, ey <= mx)
                t = ex + ey - B(bias) if op == 'fmul' else ex - ey + B(bias - 1)
                S.append(z3.Implies(z3.And(nrm, t >= 1, t <= mx - 1), z3.Or(ev == t, ev == t + 1)))
                S.append(z3.Implies(z3.And(nrm, t >= mx), ev >= B(mx)))
                S.append(z3.Implies(z3.And(nrm, t <= 0), ev <= 1))
            inf = z3.BitVecVal(0x7ff << 52 if w == 64 else 0xff << 23, w)
            m = z3.BitVecVal((1 << (w - 1)) - 1, w)
            fin = lambda t: z3.ULT(t & m, inf)
            if op in ('fadd', 'fsub', 'fmul'):
                S.append(z3.Implies(z3.And(fin(x), fin(y)), z3.Not(self.znan(v))))
            elif op == 'fdiv':
                S.append(z3.Implies(z3.And(fin(x), fin(y), z3.Not(self.zzero2(y, y))), z3.Not(self.znan(v))))
            if op in ('fadd', 'fsub'):
                # exponents: at most one more than the larger; near it when the operands are apart
                fb, eb = (52, 11) if w == 64 else (23, 8)
                X = lambda t: z3.ZeroExt(2, z3.Extract(w - 2, fb, t))
                ex, ey, ev = X(x), X(y), X(v)
                mx_ = z3.If(z3.UGT(ex, ey), ex, ey)
                mn_ = z3.If(z3.UGT(ex, ey), ey, ex)
                S.append(z3.Implies(z3.ULT(mx_, (1 << eb) - 1), z3.ULE(ev, mx_ + 1)))
                S.append(z3.Implies(z3.UGT(mx_, mn_ + 1), z3.UGE(ev + 1, mx_)))
                # comparison facts: x+y > x iff-ish (monotone rounding): y>=0 -> v>=x ; y<=0 -> v<=x
                yy = y if op == 'fadd' else y ^ z3.BitVecVal(1 << (w - 1), w)
                neg = lambda t: z3.Extract(w - 1, w - 1, t) == 1
                le = lambda p, q: z3.Or(self.zflt(p, q), self.zfeq(p, q))
                ok = z3.Not(self.znan(v))
                S.append(z3.Implies(z3.And(ok, z3.Not(neg(yy))), le(x, v)))
                S.append(z3.Implies(z3.And(ok, neg(yy)), le(v, x)))
                S.append(z3.Implies(z3.And(ok, z3.Not(neg(x))), le(yy, v)))
                S.append(z3.Implies(z3.And(ok, neg(x)), le(v, yy)))
                if op == 'fsub' :
                    # x-y==0 iff x==y (gradual underflow); sign follows order
                    z = z3.BitVecVal(0, w)
                    S.append(z3.Implies(z3.And(ok, fin(x), fin(y)), z3.And(
                        self.zfeq(x, y) == self.zfeq(v, z), self.zflt(x, y) == self.zflt(v, z))))
        elif op in ('sitofp', 'uitofp'):
            S.append(z3.Not(self.znan(v)))
        elif op == 'fptrunc':
            x = self.lo(e.args[0], 'd')
            S.append(self.znan(x) == self.znan(v))
            S.append(z3.Or(self.znan(v), z3.Extract(31, 31, v) == z3.Extract(63, 63, x)))


def _refine_lemma(L, e, av, rv):
    """lemmas at a point: args concrete values av -> result rv (concrete)"""
    out = []
    s = e.sort
    v = L.memo[e]
    args = e.args
    asort = [a.sort if type(a) is E else (e.sort if e.op in HEAVY2 else None) for a in args]
    zs = [L.lo(a, srt) for a, srt in zip(args, asort)]
    zc = [L.const(c, srt) for c, srt in zip(av, asort)]
    rc = L.const(rv, s)
    if s in ('d', 'f') and math.isnan(rv):
        out.append(z3.Implies(z3.And([a == c for a, c in zip(zs, zc)]), L.znan(v)))
        return out
    out.append(z3.Implies(z3.And([a == c for a, c in zip(zs, zc)]), v == rc))
    if s not in ('d', 'f') and e.op not in ('fptosi', 'fptoui'):
        return out
    le = lambda p, q: z3.Or(L.zflt(p, q), L.zfeq(p, q))

    def lev(p, q):
        if s in ('d', 'f'):
            return le(p, q)
        return p <= q if e.op == 'fptosi' else z3.ULE(p, q)

    op = e.op
    okv = z3.Not(L.znan(v)) if s in ('d', 'f') else z3.BoolVal(True)
    if any(srt in ('d', 'f') and math.isnan(c) for c, srt in zip(av, asort)):
        return out
    if op in ('fadd', 'fsub'):
        a, b = zs
        ca, cb = zc
        up = (lambda p, c: le(c, p))
        dn = (lambda p, c: le(p, c))
        if op == 'fadd':
            out.append(z3.Implies(z3.And(up(a, ca), up(b, cb), okv), le(rc, v)))
            out.append(z3.Implies(z3.And(dn(a, ca), dn(b, cb), okv), le(v, rc)))
        else:
            out.append(z3.Implies(z3.And(up(a, ca), dn(b, cb), okv), le(rc, v)))
            out.append(z3.Implies(z3.And(dn(a, ca), up(b, cb), okv), le(v, rc)))
    elif op == 'fmul' or op == 'fdiv':
        # magnitudes: |a|,|b| : fmul monotone in both; fdiv monotone in |a|, antitone in |b|
        w = _w(s)
        m = z3.BitVecVal((1 << (w - 1)) - 1, w)
        A, B, R = zs[0] & m, zs[1] & m, v & m
        cA, cB, cR = [L.const(abs(c), s) for c in (av[0], av[1], rv)]
        if op == 'fmul':
            out.append(z3.Implies(z3.And(okv, z3.UGE(A, cA), z3.UGE(B, cB)), z3.UGE(R, cR)))
            out.append(z3.Implies(z3.And(okv, z3.ULE(A, cA), z3.ULE(B, cB)), z3.ULE(R, cR)))
        else:
            out.append(z3.Implies(z3.And(okv, z3.UGE(A, cA), z3.ULE(B, cB)), z3.UGE(R, cR)))
            out.append(z3.Implies(z3.And(okv, z3.ULE(A, cA), z3.UGE(B, cB)), z3.ULE(R, cR)))
    elif op in ('log', 'log2', 'log10', 'exp'):
        # monotone up to two units in the last place (accuracy of the C library)
        u = lambda x, d: math.nextafter(math.nextafter(x, d), d)
        if av[0] > 0 or op == 'exp':
            out.append(z3.Implies(z3.And(okv, le(zs[0], zc[0])), le(v, L.const(u(rv, math.inf), s))))
            out.append(z3.Implies(z3.And(okv, le(zc[0], zs[0])), le(L.const(u(rv, -math.inf), s), v)))
            if op != 'exp':
                out.append(z3.Implies(z3.And(z3.Not(L.znan(zs[0])), le(L.const(0.0, s), zs[0])), okv))
    elif op in ('sqrt', 'floor', 'ceil', 'trunc', 'round', 'rint', 'fptrunc'):
        out.append(z3.Implies(z3.And(okv, le(zs[0], zc[0])), le(v, rc)))
        out.append(z3.Implies(z3.And(okv, le(zc[0], zs[0])), le(rc, v)))
    elif op in ('fptosi', 'fptoui'):
        w = s
        if op == 'fptosi':
            lo, hi = -float(1 << (w - 1)), float(1 << (w - 1))
        else:
            lo, hi = -1.0, float(1 << w)
        fs = asort[0]
        if lo < av[0] < hi:
            inr = z3.And(L.zflt(L.const(lo, fs), zs[0]), L.zflt(zs[0], L.const(hi, fs)))
            out.append(z3.Implies(z3.And(inr, le(zs[0], zc[0])), lev(v, rc)))
            out.append(z3.Implies(z3.And(inr, le(zc[0], zs[0])), lev(rc, v)))
    elif op in ('sitofp', 'uitofp'):
        c = (lambda p, q: p <= q) if op == 'sitofp' else z3.ULE
        out.append(z3.Implies(c(zs[0], zc[0]), le(v, rc)))
        out.append(z3.Implies(c(zc[0], zs[0]), le(rc, v)))
    return out


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.refine = 0
        self.exact = 0
        self.unknown = 0
        self.time = 0.0


class Solver:
    """incremental path-condition solver"""

    def __init__(self, timeout=20000, max_refine=25, exact_timeout=20000, real_timeout=5000):
        self.L = Low()
        self.s = z3.SolverFor('QF_BV')
        self.timeout = timeout
        self.max_refine = max_refine
        self.exact_timeout = exact_timeout
        self.real_timeout = real_timeout
        self.inreal = False
        self.seeded = set()
        self.s.set('timeout', timeout)
        self.pc = []
        self.pcset = set()
        self.pending = []
        self.env = {}  # last validated model of pc (or None)
        self.stats = Stats()

    def _flush(self):
        while self.L.side:
            side, self.L.side = self.L.side, []
            for c in side:
                self.s.add(c)

    def lower(self, e):
        r = self.L.lo(e, 'b')
        self._flush()
        return r

    def add(self, e):
        if type(e) is not E:
            if not e:
                raise Inconclusive('adding false')
            return
        st = [e]
        while st:
            x = st.pop()
            if x.op == 'and' and x.sort == 'b':
                st.extend(x.args)
                continue
            if x in self.pcset:
                continue
            self.pc.append(x)
            self.pcset.add(x)
            self.pending.append(x)
            if self.env is not None and not self._holds([x], self.env):
                self.env = None

    def _holds(self, es, env):
        memo = {}
        for e in es:
            if not evalE(e, env, memo):
                return False
        return True

    def known(self, e):
        """True/False if syntactically implied by pc, else None"""
        if e in self.pcset:
            return True
        if bnot(e) in self.pcset:
            return False
        return None

    def check(self, e=True, need_model=False):
        """('unsat'|'sat'|'maybe'|'unknown', env)  for pc and e"""
        if type(e) is not E:
            if not e:
                return 'unsat', None
            if self.env is not None:
                return 'sat', self.env
        else:
            k = self.known(e)
            if k is False:
                return 'unsat', None
            if k is True and self.env is not None:
                return 'sat', self.env
            if self.env is not None and evalE(e, self.env):
                return 'sat', self.env
        t0 = time.time()
        st = self.stats
        st.queries += 1
        try:
            return self._check(e)
        finally:
            st.time += time.time() - t0

    def _model_env(self, m):
        env = {}
        for v in self.L.vars:
            z = self.L.memo[v]
            r = m.eval(z, model_completion=True)
            if v.sort == 'b':
                env[v] = z3.is_true(r)
            else:
                x = r.as_long()
                env[v] = bitsf(x, v.sort) if v.sort in ('d', 'f') else x
        for lst in self.L.ufs.values():
            for u, z in lst:
                r = m.eval(z, model_completion=True)
                if u.sort == 'b':
                    env[u] = z3.is_true(r)
                else:
                    x = r.as_long()
                    env[u] = bitsf(x, u.sort) if u.sort in ('d', 'f') else x
        return env

    def uf_ok(self, env, memo):
        """user UFs must be functional under concrete evaluation of args"""
        for lst in self.L.ufs.values():
            seen = {}
            for u, z in lst:
                k = tuple(_k(evalE(a, env, memo)) for a in u.args[1])
                v = _k(env[u])
                if seen.setdefault(k, v) != v:
                    return False
        for lst in self.L.ufs.values():
            for u, z in lst:
                env[('uf', u.args[0]) + tuple(_k(evalE(a, env, memo)) for a in u.args[1])] = env[u]
        return True

    def _check(self, e):
        st = self.stats
        for x in self.pending:
            self.s.add(self.lower(x))
        self.pending = []
        lits = []
        if type(e) is E:
            lits = [self.lower(e)]
        goal = self.pc + ([e] if type(e) is E else [])
        triedreal = False
        if not self.inreal and type(e) is E and self.metric(e):
            r, env = self.realdecide(e, goal)
            if r:
                return r, env
            triedreal = True
        for it in range(self.max_refine + 1):
            r = self.s.check(*lits)
            if r == z3.unsat:
                st.unsat += 1
                return 'unsat', None
            if r != z3.sat:
                break
            m = self.s.model()
            env = self._model_env(m)
            memo = {}
            ok = True
            for g in goal:
                if not evalE(g, env, memo):
                    ok = False
                    break
            if ok and self.uf_ok(env, memo):
                st.sat += 1
                return 'sat', env
            if it == 0:
                ienv = self.inverted(goal, lits)
                if ienv is None and not self.inreal:
                    ienv = self.realcand(goal)
                if ienv is not None:
                    st.sat += 1
                    return 'sat', ienv
                self.add_thresholds(goal)
            # refine
            st.refine += 1
            n = 0
            cone = self.cone(goal + [u for lst in self.L.ufs.values() for u, _ in lst])
            hs = [h for h in self.L.heavy if h in cone]
            for h in hs:
                av = []
                for i, a in enumerate(h.args):
                    if type(a) is E:
                        z = m.eval(self.L.memo[a], model_completion=True)
                        if a.sort == 'b':
                            av.append(z3.is_true(z))
                        else:
                            x = z.as_long()
                            av.append(bitsf(x, a.sort) if a.sort in ('d', 'f') else x)
                    else:
                        av.append(a)
                rv = rebuild(h, av)
                mv = m.eval(self.L.memo[h], model_completion=True).as_long()
                if h.sort in ('d', 'f'):
                    mvf = bitsf(mv, h.sort)
                    bad = fbits(rv, h.sort) != mv and not (math.isnan(rv) and math.isnan(mvf))
                else:
                    bad = rv != mv
                if bad:
                    for l in _refine_lemma(self.L, h, av, rv):
                        self.s.add(l)
                    n += 1
                    # also lemma at true concrete args
                    cv = [evalE(a, env, memo) if type(a) is E else a for a in h.args]
                    if not all(same(p, q) for p, q in zip(cv, av)):
                        for l in _refine_lemma(self.L, h, cv, rebuild(h, cv)):
                            self.s.add(l)
            self._flush()
            if n == 0:
                break
            if it % 3 == 0:
                penv = self.pinned(goal, lits, hs, env)
                if penv is not None:
                    st.sat += 1
                    return 'sat', penv
        if not self.inreal and not triedreal:
            r, env = self.realdecide(e, goal)
            if r:
                return r, env
        r, env = self.exact(goal)
        if r == 'unsat':
            st.unsat += 1
        elif r == 'sat':
            st.sat += 1
        else:
            st.unknown += 1
        return r, env

    def quick_unsat(self, e):
        """one query of the abstraction, no refinement"""
        for x in self.pending:
            self.s.add(self.lower(x))
        self.pending = []
        if type(e) is not E:
            return not e
        self.s.set('timeout', 3000)
        try:
            return self.s.check(self.lower(e)) == z3.unsat
        finally:
            self.s.set('timeout', self.timeout)

    def metric(self, e):
        """a comparison of rounded quantities"""
        while type(e) is E and e.op == 'not':
            e = e.args[0]
        return type(e) is E and e.op in ('olt', 'ole', 'and') and sum(h in self.L.heavyset for h in self.cone([e])) >= 6

    def realdecide(self, e, goal):
        import realarith
        self.inreal = True
        try:
            R = realarith.RealCheck(self, self.real_timeout)
            R.goal = e
            r, env = R.decide(lambda R: R.tr(e) if type(e) is E else z3.BoolVal(True))
            if r == 'unsat':
                return r, None
            if r == 'cand' and self._holds(goal, env) and self.uf_ok(env, {}):
                self.stats.sat += 1
                return 'sat', env
        finally:
            self.inreal = False
        return None, None

    def s_unsat(self, e):
        lits = [self.lower(x) for x in self.pc] + [self.lower(e)]
        return self.s.check(*lits) == z3.unsat

    def realcand(self, goal):
        """guess a model from real arithmetic without rounding, comparisons met by a margin"""
        import realarith
        fl = [h for h in self.L.heavy if h.sort == 'd' and h.op in ('fadd', 'fsub', 'fmul', 'fdiv')]
        if not fl:
            return None
        self.inreal = True
        try:
            for margin in (1e-3, 0.0):
                R = realarith.RealCheck(self, 2000)
                env = R.candidate(goal, margin)
                if env is not None:
                    self.uf_fill(env)
                    if self._holds(goal, env) and self.uf_ok(env, {}):
                        self.stats.realcand = getattr(self.stats, 'realcand', 0) + 1
                        return env
        finally:
            self.inreal = False
        return None

    def uf_fill(self, env):
        for v in self.L.vars:
            env.setdefault(v, False if v.sort == 'b' else 0.0 if v.sort in ('d', 'f') else 0)
        for lst in self.L.ufs.values():
            for u, z in lst:
                env.setdefault(u, False if u.sort == 'b' else 0.0 if u.sort in ('d', 'f') else 0)

    def thresholds(self, goal):
        """constants that double values are compared with, carried through operations with constants"""
        th = {}
        cone = self.cone(goal)
        for x in cone:
            if x.op in ('olt', 'ole', 'oeq'):
                for a, c in (x.args, x.args[::-1]):
                    if type(a) is E and a.sort == 'd' and type(c) is not E and math.isfinite(c):
                        th.setdefault(a, set()).update((c, math.nextafter(c, -math.inf), math.nextafter(c, math.inf)))
        for h in sorted((h for h in cone if h in self.L.heavyset), key=lambda h: h.id):
            ar = [a for a in h.args if type(a) is E]
            if len(ar) != 1 or ar[0] not in th or h.op not in ('fadd', 'fsub', 'fmul', 'fdiv', 'floor', 'ceil', 'trunc', 'log'):
                continue
            for c in list(th[ar[0]])[:12]:
                r = rebuild(h, [c if type(a) is E else a for a in h.args])
                if type(r) is float and math.isfinite(r):
                    th.setdefault(h, set()).update((r, math.nextafter(math.nextafter(r, 9e999), 9e999), math.nextafter(math.nextafter(r, -9e999), -9e999)) if h.op == 'log' else (r,))
        return th

    def add_thresholds(self, goal):
        th = self.thresholds(goal)
        for h in list(self.L.heavy):
            ar = [a for a in h.args if type(a) is E]
            if len(ar) != 1 or ar[0] not in th or h.op not in ('fadd', 'fsub', 'fmul', 'fdiv', 'floor', 'ceil', 'trunc', 'fptosi', 'fptoui', 'log'):
                continue
            for c in list(th[ar[0]])[:12]:
                if (h, c) in self.seeded:
                    continue
                self.seeded.add((h, c))
                av = [c if type(a) is E else a for a in h.args]
                for l in _refine_lemma(self.L, h, av, rebuild(h, av)):
                    self.s.add(l)
        self._flush()

    def inverted(self, goal, lits):
        """guess a model: results of heavy operations from the abstraction (with
        comparisons satisfied by a margin), inputs by inverting the operations"""
        cone = self.cone(goal)
        hs = [h for h in self.L.heavy if h in cone]
        extra = []
        margin = []
        pow2 = []
        for h in hs:
            if h.sort == 'd' and h.op in ('fdiv', 'fmul') and any(type(a) is not E for a in h.args):
                z = self.L.memo[h] & z3.BitVecVal((1 << 63) - 1, 64)
                extra.append(z3.And(z3.ULT(z, 0x43c0 << 48), z3.UGE(z, 0x3c30 << 48)))
                pow2.append(z3.Extract(51, 0, z) == 0)
        seen = set()
        stk = [(g, True) for g in goal]
        while stk:
            x, pos = stk.pop()
            if type(x) is not E or (x, pos) in seen:
                continue
            seen.add((x, pos))
            if x.op == 'not':
                stk.append((x.args[0], not pos))
            elif x.op == 'and' and pos or x.op == 'or' and not pos:
                stk.extend((y, pos) for y in x.args)
            elif x.op in ('olt', 'ole'):
                a, b = x.args
                if not pos:
                    a, b = b, a
                so = [y.sort for y in (a, b) if type(y) is E][0]
                if so != 'd' or not any(type(y) is E and y.op != 'var' for y in (a, b)):
                    continue
                la, lb = self.L.lo(a, so), self.L.lo(b, so)
                key = lambda z: z ^ (z3.BitVecVal((1 << 63) - 1, 64) & (z >> 63))
                mag = lambda z: z3.ULT(z & z3.BitVecVal((1 << 63) - 1, 64), 0x43c0 << 48)
                margin.append(z3.And(mag(la), mag(lb), key(lb) - key(la) >= 1 << 34))
        self._flush()
        env = None
        mod = []
        for x in cone:
            if x.sort == 'd' and (x.op in ('var', 'uf') or x.op in ('fadd', 'fsub') and x in self.L.heavyset) and x in self.L.memo:
                z = self.L.memo[x] & z3.BitVecVal((1 << 63) - 1, 64)
                mod.append(z3.And(z3.ULT(z, 0x4180 << 48), z3.UGE(z, 0x3fe0 << 48)))
        zero = []
        for h in hs:
            if h.op in ('fadd', 'fsub') and h.sort == 'd' and all(type(a) is E for a in h.args):
                c = [i for i in (0, 1) if h.args[i].op in ('var', 'uf', 'fpext') and (i == 1 or h.op == 'fadd')]
                if c:
                    z, y = self.L.memo[h.args[c[0]]], self.L.memo[h.args[1 - c[0]]]
                    zero.append(z3.And(z == 0, self.L.memo[h] == y))
        for ex in ([extra + margin, pow2, extra] if pow2 else [margin + mod, margin + zero, margin, zero, []] if zero else
                   [margin + mod, margin, []]):
            if env is None:
                env = self._inverted(goal, lits + ex, hs)
        return env

    def _inverted(self, goal, lits, hs):
        self.s.set('timeout', 3000)
        try:
            if self.s.check(*lits) != z3.sat:
                return None
            m = self.s.model()
        finally:
            self.s.set('timeout', self.timeout)
        env = self._model_env(m)
        val = {}

        def mv(x):
            if type(x) is not E:
                return x
            if x in val:
                return val[x]
            z = self.L.memo.get(x)
            if z is None:
                return 0.0
            return bitsf(m.eval(z, model_completion=True).as_long(), x.sort)
        for h in sorted(hs, key=lambda h: -h.id):
            if h.op not in ('fdiv', 'fmul', 'fadd', 'fsub'):
                continue
            a, b = h.args
            r = mv(h)
            prs = ((b, a), (a, b))
            if h.op in ('fadd', 'fsub') and abs(mv(a)) > abs(mv(b)):
                prs = ((a, b), (b, a))
            for x, y in prs:
                if type(x) is not E:
                    continue
                t = x.args[0] if x.op == 'fpext' else x
                if type(t) is not E or t.op not in ('var', 'uf') and t not in self.L.heavyset:
                    continue
                if t in val or x in val:
                    continue
                c = mv(y)
                try:
                    if x is b:
                        v = c / r if h.op == 'fdiv' else r / c if h.op == 'fmul' else r - c if h.op == 'fadd' else c - r
                    else:
                        v = r * c if h.op == 'fdiv' else r / c if h.op == 'fmul' else r - c if h.op == 'fadd' else r + c
                    if x is not t:
                        v = f32(v)
                except (ZeroDivisionError, OverflowError):
                    continue
                if v != v:
                    continue
                val[t] = val[x] = v
                if t.op in ('var', 'uf'):
                    env[t] = v
                break
        if self._holds(goal, env) and self.uf_ok(env, {}):
            self.stats.inverted = getattr(self.stats, 'inverted', 0) + 1
            return env
        return None

    def pinned(self, goal, lits, hs, env):
        """look for a real model by fixing operands of the heavy operations one after another"""
        pins = []
        self.s.set('timeout', 3000)
        try:
            for h in hs:
                memo = {}
                cv = [evalE(a, env, memo) if type(a) is E else a for a in h.args]
                rv = rebuild(h, cv)
                for l in _refine_lemma(self.L, h, cv, rv):
                    self.s.add(l)
                self._flush()
                new = []
                for a, c in zip(h.args, cv):
                    if type(a) is E and not (a.sort in ('d', 'f') and math.isnan(c)):
                        new.append(self.L.lo(a, a.sort) == self.L.const(c, a.sort))
                if self.s.check(*(lits + pins + new)) != z3.sat:
                    # keep what can be kept: one operand at a time
                    kept = []
                    for p in new:
                        if self.s.check(*(lits + pins + kept + [p])) == z3.sat:
                            kept.append(p)
                    new = kept
                pins += new
                if self.s.check(*(lits + pins)) != z3.sat:
                    return None
                env = self._model_env(self.s.model())
                if self._holds(goal, env) and self.uf_ok(env, {}):
                    return env
        finally:
            self.s.set('timeout', self.timeout)
        return None

    def cone(self, es):
        seen = set()
        stk = [e for e in es if type(e) is E]
        while stk:
            x = stk.pop()
            if x in seen:
                continue
            seen.add(x)
            stk.extend(children(x))
        return seen

    def exact(self, goal):
        """exact FP theory for arithmetic ops in the cone"""
        st = self.stats
        st.exact += 1
        cone = self.cone(goal)
        L = self.L
        s = z3.SolverFor('QF_FPBV') if False else z3.Then('simplify', 'fpa2bv', 'simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat').solver()
        s = z3.Solver()
        s.set('timeout', self.exact_timeout)
        for g in goal:
            s.add(L.lo(g, 'b'))
        self._flush()
        for c in self.s.assertions():
            s.add(c)
        inexact = False
        F = {'d': z3.Float64(), 'f': z3.Float32()}
        R = z3.RNE()

        def fp(a, sort):
            return z3.fpBVToFP(L.lo(a, sort), F[sort])
        for h in L.heavy:
            if h not in cone:
                continue
            op = h.op
            v = L.memo[h]
            if op in HEAVY2 and op != 'frem':
                f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
                s.add(z3.fpBVToFP(v, F[h.sort]) == f(R, fp(h.args[0], h.sort), fp(h.args[1], h.sort)))
            elif op == 'sqrt':
                s.add(z3.fpBVToFP(v, F[h.sort]) == z3.fpSqrt(R, fp(h.args[0], h.sort)))
            elif op in ('floor', 'ceil', 'trunc', 'round', 'rint'):
                rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': z3.RNE()}[op]
                s.add(z3.fpBVToFP(v, F[h.sort]) == z3.fpRoundToIntegral(rm, fp(h.args[0], h.sort)))
            elif op == 'fptrunc':
                s.add(z3.fpBVToFP(v, F['f']) == z3.fpFPToFP(R, fp(h.args[0], 'd'), F['f']))
            elif op == 'sitofp':
                s.add(z3.fpBVToFP(v, F[h.sort]) == z3.fpSignedToFP(R, L.memo[h.args[0]], F[h.sort]))
            elif op == 'uitofp':
                s.add(z3.fpBVToFP(v, F[h.sort]) == z3.fpUnsignedToFP(R, L.memo[h.args[0]], F[h.sort]))
            elif op == 'fptosi':
                s.add(v == z3.fpToSBV(z3.RTZ(), fp(h.args[0], h.args[0].sort), z3.BitVecSort(h.sort)))
            elif op == 'fptoui':
                s.add(v == z3.fpToUBV(z3.RTZ(), fp(h.args[0], h.args[0].sort), z3.BitVecSort(h.sort)))
            else:
                inexact = True
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            env = self._model_env(s.model())
            memo = {}
            if all(evalE(g, env, memo) for g in goal) and self.uf_ok(env, memo):
                return 'sat', env
            return 'maybe', None
        return 'unknown', None
