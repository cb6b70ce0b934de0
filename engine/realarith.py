"""Decision of numeric assertions over the reals with rounding-error terms: an
IEEE operation is its exact real result times (1+d), |d| <= unit roundoff (an
over-approximation of every rounding), so 'unsat' holds for the floating-point
code; 'sat' is only a candidate and is re-evaluated in exact IEEE arithmetic."""
import math, time
from fractions import Fraction
import z3
from sx import *
import sx


def q(x):
    f = Fraction(x)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


U = {'d': Fraction(1, 2 ** 53), 'f': Fraction(1, 2 ** 24)}
SLACK = {'d': Fraction(1, 10 ** 300), 'f': Fraction(1, 10 ** 44)}
BIG = {'d': Fraction(10 ** 300), 'f': Fraction(10 ** 38)}


class RealCheck:
    def __init__(self, solver, timeout=30000):
        self.S = solver
        self.timeout = timeout
        self.memo = {}
        self.side = []
        self.fpvars = []
        self.heavy = []
        self.n = 0
        self.ufs = {}
        self.ok = True
        self.noround = False
        self.th = None
        self.goal = None
        self.linear = False
        self.iv = {}
        self.vb = None

    # ---- interval bounds from the path condition
    def varbounds(self):
        vb = {}

        def lit(g, pos):
            while type(g) is E and g.op == 'not':
                g, pos = g.args[0], not pos
            if type(g) is not E:
                return
            if g.op == 'and' and pos or g.op == 'or' and not pos:
                for x in g.args:
                    lit(x, pos)
                return
            if g.op in ('olt', 'ole'):
                a, b = g.args
                # not (a < b) gives b <= a because every variable is finite
                if not pos:
                    a, b = b, a
                if type(b) is float and type(a) is E and a.op in ('var', 'uf', 'fpext') and math.isfinite(b):
                    v = a.args[0] if a.op == 'fpext' else a
                    l, h = vb.get(v, (None, None))
                    vb[v] = (l, Fraction(b) if h is None else min(h, Fraction(b)))
                if type(a) is float and type(b) is E and b.op in ('var', 'uf', 'fpext') and math.isfinite(a):
                    v = b.args[0] if b.op == 'fpext' else b
                    l, h = vb.get(v, (None, None))
                    vb[v] = (Fraction(a) if l is None else max(l, Fraction(a)), h)
        for p in self.S.pc:
            lit(p, True)
        return {v: b for v, b in vb.items() if b[0] is not None and b[1] is not None}

    def interval(self, e):
        """(lo, hi) that every value of e under the path condition lies in, or None"""
        if type(e) is not E:
            return (Fraction(e), Fraction(e)) if type(e) in (int, float) and math.isfinite(e) else None
        if e in self.iv:
            return self.iv[e]
        if self.vb is None:
            self.vb = self.varbounds()
        st = [e]
        while st:
            x = st[-1]
            if x in self.iv:
                st.pop()
                continue
            need = [c for c in (x.args if x.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'fpext', 'fptrunc', 'sitofp', 'uitofp') else
                                x.args[1:] if x.op == 'ite' else ()) if type(c) is E and c not in self.iv]
            if need:
                st.extend(need)
                continue
            self.iv[x] = self.iv1(x)
            st.pop()
        return self.iv[e]

    def iv1(self, e):
        op, s = e.op, e.sort
        if op in ('var', 'uf'):
            return self.vb.get(e)
        if op in ('sitofp', 'uitofp'):
            w = e.args[0].sort
            return (Fraction(-(1 << (w - 1))), Fraction(1 << (w - 1))) if op == 'sitofp' else (Fraction(0), Fraction(1 << w))
        if op == 'ite':
            a, b = self.interval(e.args[1]), self.interval(e.args[2])
            return (min(a[0], b[0]), max(a[1], b[1])) if a and b else None
        if op not in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'fpext', 'fptrunc'):
            return None
        A = [self.interval(a) for a in e.args]
        if None in A:
            return None
        a = A[0]
        if op == 'fpext':
            return a
        if op == 'fneg':
            return (-a[1], -a[0])
        if op == 'fabs':
            m = max(abs(a[0]), abs(a[1]))
            return (Fraction(0), m)
        if op == 'fptrunc':
            l, h = a
        else:
            b = A[1]
            if op == 'fadd':
                l, h = a[0] + b[0], a[1] + b[1]
            elif op == 'fsub':
                l, h = a[0] - b[1], a[1] - b[0]
            else:
                if op == 'fdiv':
                    if b[0] <= 0 <= b[1]:
                        return None
                    b = (1 / b[1], 1 / b[0])
                P = [x * y for x in a for y in b]
                l, h = min(P), max(P)
        m = max(abs(l), abs(h)) * U[s] + SLACK[s]
        return (l - m, h + m)

    def fresh(self, k, nm='t'):
        self.n += 1
        return {'r': z3.Real, 'i': z3.Int, 'b': z3.Bool}[k]('%s!%d' % (nm, self.n))

    # ---- iterative translation
    def tr(self, e, sort=None):
        if type(e) is not E:
            if sort == 'b' or type(e) is bool:
                return z3.BoolVal(bool(e))
            if type(e) is float or sort in ('d', 'f'):
                return q(float(e)) if math.isfinite(float(e)) else None
            return z3.IntVal(int(e))
        st = [e]
        memo = self.memo
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            need = [c for c in children(x) if c not in memo] if not self.opaque(x) else []
            if need:
                st.extend(need)
                continue
            memo[x] = self.node(x)
            st.pop()
        return memo[e]

    def opaque(self, e):
        return e.op in ('frombits', 'tobits', 'frem') or e.op in sx.TRANS

    def arg(self, e, i):
        a = e.args[i]
        if type(a) is E:
            return self.memo[a]
        op = e.op
        if op in ('eq', 'ult', 'slt', 'oeq', 'olt', 'ole'):
            s = e.args[1 - i].sort
        elif op == 'ite':
            s = 'b' if i == 0 else e.sort
        else:
            s = e.sort
        return self.tr(a, s)

    def rnd(self, t, s, exact=False, e=None):
        if self.noround:
            return t
        r = self.fresh('r')
        if self.linear and e is not None:
            b = self.interval(e)
            if b:
                m = max(abs(b[0]), abs(b[1]))
                if m < BIG[s]:
                    er = q(SLACK[s] if exact else m * U[s] + SLACK[s])
                    self.side.append(z3.And(r <= t + er, r >= t - er, r <= q(b[1]), r >= q(b[0])))
                    self.heavy.append((None, s))
                    return r
        u = q(0) if exact else q(U[s])
        sl = q(SLACK[s])
        self.side.append(z3.If(t >= 0, z3.And(r >= t * (1 - u) - sl, r <= t * (1 + u) + sl),
                               z3.And(r <= t * (1 - u) + sl, r >= t * (1 + u) - sl)))
        self.heavy.append((r, s))
        return r

    def leaf(self, e):
        s = e.sort
        if s == 'b':
            return self.fresh('b')
        if s in ('d', 'f'):
            self.fpvars.append(e)
            return self.fresh('r')
        v = self.fresh('i')
        self.side.append(z3.And(v >= 0, v < 1 << s))
        return v

    def signed(self, v, w):
        return z3.If(v >= 1 << (w - 1), v - (1 << w), v)

    def mod(self, v, w, lo_wrap=True):
        k = self.fresh('i')
        r = self.fresh('i')
        self.side.append(z3.And(r == v - k * (1 << w), r >= 0, r < 1 << w))
        return r

    def node(self, e):
        op, s = e.op, e.sort
        if op == 'var' or self.opaque(e):
            return self.leaf(e)
        if op == 'uf':
            v = self.leaf(e)
            A = [self.tr(a) if type(a) is E else a for a in e.args[1]]
            for o, oa, ov in self.ufs.setdefault((e.args[0], s), []):
                cs = []
                for x, y, ex, ey in zip(A, oa, e.args[1], o.args[1]):
                    if same(ex, ey):
                        continue
                    if type(ex) is not E:
                        x = self.tr(ex)
                    if type(ey) is not E:
                        y = self.tr(ey)
                    cs.append(x == y if x is not None and y is not None else z3.BoolVal(False))
                self.side.append(z3.Or([z3.Not(c) for c in cs] + [v == ov]))
            self.ufs[(e.args[0], s)].append((e, A, v))
            return v
        if s in ('d', 'f'):
            if op == 'ite':
                a, b = self.arg(e, 1), self.arg(e, 2)
                if a is None or b is None:
                    return self.leaf(e)
                return z3.If(self.arg(e, 0), a, b)
            if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                x, y = self.arg(e, 0), self.arg(e, 1)
                if x is None or y is None:
                    self.ok = False
                    return self.leaf(e)
                p2 = op == 'fmul' and type(e.args[1]) is float and sx._pow2(e.args[1])
                t = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                r = self.rnd(t, s, p2, e)
                c = e.args[1]
                if type(c) is float and (op == 'fmul' and abs(c) <= 1.0 or op == 'fdiv' and abs(c) >= 1.0) and not self.noround:
                    self.heavy.pop()        # never larger than its operand
                if self.th and s == 'd' and not self.noround:
                    self.monotone(e, x, y, r)
                return r
            if op == 'fneg':
                return -self.arg(e, 0)
            if op == 'fabs':
                x = self.arg(e, 0)
                return z3.If(x >= 0, x, -x)
            if op == 'fpext':
                return self.memo[e.args[0]]
            if op == 'fptrunc':
                return self.rnd(self.memo[e.args[0]], 'f', False, e)
            if op in ('sitofp', 'uitofp'):
                w = e.args[0].sort
                v = self.memo[e.args[0]]
                v = z3.ToReal(self.signed(v, w) if op == 'sitofp' else v)
                return v if w <= (53 if s == 'd' else 24) else self.rnd(v, s)
            if op in ('floor', 'ceil', 'trunc', 'round', 'rint'):
                x = self.memo[e.args[0]]
                i = self.fresh('i')
                r = z3.ToReal(i)
                if op == 'floor':
                    self.side.append(z3.And(r <= x, x < r + 1))
                elif op == 'ceil':
                    self.side.append(z3.And(r - 1 < x, x <= r))
                elif op == 'trunc':
                    self.side.append(z3.If(x >= 0, z3.And(r <= x, x < r + 1), z3.And(r - 1 < x, x <= r)))
                else:
                    self.side.append(z3.And(r - x <= q(0.5), x - r <= q(0.5)))
                return r
            if op == 'sqrt':
                x = self.memo[e.args[0]]
                r = self.fresh('r')
                self.side.append(z3.And(r >= 0, r * r <= x * q(1 + 4 * U[s]) + q(SLACK[s]), r * r >= x * q(1 - 4 * U[s]) - q(SLACK[s])))
                return r
            return self.leaf(e)
        if s == 'b':
            if op == 'not':
                return z3.Not(self.arg(e, 0))
            if op == 'and':
                return z3.And(self.arg(e, 0), self.arg(e, 1))
            if op == 'ite':
                return z3.If(self.arg(e, 0), self.arg(e, 1), self.arg(e, 2))
            if op in ('isnan', 'uno'):
                return z3.BoolVal(False)
            if op in ('olt', 'ole', 'oeq'):
                a, b = e.args
                x, y = self.arg(e, 0), self.arg(e, 1)
                if x is None or y is None:
                    # comparison of a finite value with an infinity
                    if type(a) is float and math.isinf(a):
                        return z3.BoolVal(op != 'oeq' and a < 0)
                    if type(b) is float and math.isinf(b):
                        return z3.BoolVal(op != 'oeq' and b > 0)
                    return z3.BoolVal(False)
                return x < y if op == 'olt' else x <= y if op == 'ole' else x == y
            if op == 'eq':
                return self.arg(e, 0) == self.arg(e, 1)
            if op == 'ult':
                return self.arg(e, 0) < self.arg(e, 1)
            if op == 'slt':
                w = [a.sort for a in e.args if type(a) is E][0]
                return self.signed(self.arg(e, 0), w) < self.signed(self.arg(e, 1), w)
            return self.leaf(e)
        # bit-vectors as unsigned integers
        if op == 'ite':
            return z3.If(self.arg(e, 0), self.arg(e, 1), self.arg(e, 2))
        if op == 'add':
            return self.mod(self.arg(e, 0) + self.arg(e, 1), s)
        if op == 'sub':
            return self.mod(self.arg(e, 0) - self.arg(e, 1), s)
        if op == 'mul' and type(e.args[1]) is int:
            c = e.args[1]
            return self.mod(self.arg(e, 0) * (c if c < 1 << (s - 1) else c - (1 << s)), s)
        if op == 'shl' and type(e.args[1]) is int:
            return self.mod(self.arg(e, 0) * (1 << e.args[1]), s)
        if op == 'lshr' and type(e.args[1]) is int:
            return self.arg(e, 0) / (1 << e.args[1])
        if op == 'zext':
            return self.memo[e.args[0]]
        if op == 'sext':
            w = e.args[0].sort
            v = self.memo[e.args[0]]
            return z3.If(v >= 1 << (w - 1), v + ((1 << s) - (1 << w)), v)
        if op == 'extract' and e.args[2] == 0:
            return self.mod(self.memo[e.args[0]], s)
        if op in ('fptosi', 'fptoui'):
            x = self.memo[e.args[0]]
            i = self.fresh('i')
            r = z3.ToReal(i)
            lo, hi = (-(1 << (s - 1)), 1 << (s - 1)) if op == 'fptosi' else (0, 1 << s)
            res = self.fresh('i')
            self.side.append(z3.And(res >= 0, res < 1 << s))
            inr = z3.And(x > lo - 1, x < hi)
            self.side.append(z3.Implies(inr, z3.And(
                z3.If(x >= 0, z3.And(r <= x, x < r + 1), z3.And(r - 1 < x, x <= r)),
                res == z3.If(i >= 0, i, i + (1 << s)))))
            return res
        return self.leaf(e)

    def monotone(self, e, x, y, r):
        """rounding is monotone: exact results at the doubles next to compared constants"""
        ar = [a for a in e.args if type(a) is E]
        if len(ar) != 1 or ar[0] not in self.th:
            return
        i = 0 if type(e.args[0]) is E else 1
        c, a = e.args[1 - i], (x, y)[i]
        if e.op == 'fadd':
            up = True
        elif e.op == 'fsub':
            up = i == 0
        elif e.op == 'fmul' and c != 0:
            up = c > 0
        elif e.op == 'fdiv' and i == 0 and c != 0:
            up = c > 0
        else:
            return
        for t in list(self.th[ar[0]])[:12]:
            for k in (t, math.nextafter(t, -math.inf), math.nextafter(t, math.inf)):
                v = rebuild(e, [k if type(z) is E else z for z in e.args])
                if type(v) is not float or not math.isfinite(v):
                    continue
                n = math.nextafter(k, math.inf)
                # doubles below n are <= k; doubles above the one before k are >= k
                m = math.nextafter(k, -math.inf)
                self.side.append(z3.Implies(a < q(n), (r <= q(v)) if up else (r >= q(v))))
                self.side.append(z3.Implies(a > q(m), (r >= q(v)) if up else (r <= q(v))))

    def lit(self, g, margin):
        pos = True
        while type(g) is E and g.op == 'not':
            g, pos = g.args[0], not pos
        if type(g) is E and (g.op == 'and') == pos and g.op in ('and', 'or'):
            f = z3.And if pos else z3.And
            return f([self.lit(x if pos else bnot(x), margin) for x in g.args])
        if type(g) is E and g.op in ('olt', 'ole') and margin:
            a, b = g.args
            x, y = self.tr(a, 'd'), self.tr(b, 'd')
            if x is not None and y is not None:
                return x + q(margin) <= y if pos else y + q(margin) <= x
        t = self.tr(g, 'b')
        return t if pos else z3.Not(t)

    def candidate(self, goal, margin):
        self.noround = True
        s = z3.Solver()
        s.set('timeout', self.timeout)
        for g in goal:
            s.add(self.lit(g, margin))
        for c in self.side:
            s.add(c)
        if s.check() != z3.sat:
            return None
        return self.env(s.model())

    def isfinite(self, v):
        """do the path constraints on this variable alone make it finite?"""
        lits = [p for p in self.S.pc if self.only(p, v)]
        if not lits:
            return False
        T = sx.Solver(timeout=2000, max_refine=0)
        T.inreal = True
        for p in lits:
            T.add(p)
        return T.s_unsat(bor(isnan(v), bor(fcmp('oeq', v, math.inf), fcmp('oeq', v, -math.inf))))

    def only(self, p, v):
        st, seen, hit = [p], set(), False
        while st:
            x = st.pop()
            if x is v:
                hit = True
                continue
            if type(x) is not E or x in seen:
                continue
            seen.add(x)
            if x.op in ('var', 'uf') or x.op in sx.HEAVY2 or x.op in ('sqrt', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc') or len(seen) > 20:
                return False
            st.extend(x.args)
        return hit

    # ---- query
    def decide(self, bad):
        if not self.noround and not self.linear:
            # first with rounding errors bounded by constants (linear)
            R = RealCheck(self.S, max(1000, self.timeout // 3))
            R.linear = True
            R.goal = self.goal
            R.vb = R.varbounds()
            if R.vb:
                r, env = R.decide1(bad)
                if r == 'unsat':
                    return r, env
        return self.decide1(bad)

    def decide1(self, bad):
        """is 'bad' (a function of this object returning a z3 Bool) possible under the path condition?"""
        t0 = time.time()
        S = self.S
        S.stats.queries += 1
        try:
            self.th = S.thresholds(S.pc + ([self.goal] if type(self.goal) is E else []))
            goal = bad(self)
            if goal is None:
                return 'unknown', None
            s = z3.Solver()
            s.set('timeout', self.timeout)
            pcs = [self.tr(p) for p in S.pc]
            for p in pcs:
                s.add(p)
            for c in self.side:
                s.add(c)
            for v in self.fpvars:
                if self.isfinite(v):
                    continue
                if not S.quick_unsat(bor(isnan(v), bor(fcmp('oeq', v, math.inf), fcmp('oeq', v, -math.inf)))):
                    return 'unknown', None
            hv = [(r, k) for r, k in self.heavy if r is not None]
            if hv:
                s.push()
                s.add(z3.Or([z3.Or(r > q(BIG[k]), r < q(-BIG[k])) for r, k in hv]))
                if s.check() != z3.unsat:
                    return 'unknown', None
                s.pop()
            s.add(goal)
            r = s.check()
            if r == z3.unsat:
                S.stats.unsat += 1
                return 'unsat', None
            if r == z3.sat:
                return 'cand', self.env(s.model())
            return 'unknown', None
        finally:
            S.stats.time += time.time() - t0

    def env(self, m):
        env = dict(self.S.env or {})
        for e, z in self.memo.items():
            if e.op not in ('var', 'uf'):
                continue
            v = m.eval(z, model_completion=True)
            try:
                if e.sort == 'b':
                    env[e] = z3.is_true(v)
                elif e.sort in ('d', 'f'):
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    x = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
                    env[e] = f32(x) if e.sort == 'f' else x
                else:
                    env[e] = v.as_long()
            except Exception:
                pass
        return env
