"""Translation of symbolic expressions to Z3 and the solver interface.

Bit-vectors are exact.  A double with a known finite interval is a Real: exact operations are
exact, every rounding operation becomes a fresh Real within the IEEE rounding error of the exact
result (|r - exact| <= 2^-53 * max|interval| + 2^-1074), which over-approximates binary64.  A double
that may be NaN or infinite is a Z3 Float64 (exact)."""
import math
import time
from fractions import Fraction

import z3

import expr as X
from expr import E, F, isc, isf

FP = z3.Float64()
RNE = z3.RNE()
U = Fraction(1, 2 ** 53)
ETA = Fraction(1, 2 ** 1074)


class Tr:
    def __init__(self):
        self.c = {}
        self.fp = {}
        self.defs = []          # definitional constraints, in creation order
        self.n = 0
        self.nonlinear = False
        self.has_fp = False
        self.has_real = False
        self.exact = False
        self.abst = {}          # integer inputs seen as reals

    def fresh(self, sort, p):
        self.n += 1
        return z3.Const('%s!%d' % (p, self.n), sort)

    def q(self, x):
        """exact rational constant"""
        f = x if isinstance(x, Fraction) else Fraction(x)
        return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)

    # ---- bit-vectors ------------------------------------------------------------------------
    def bv(self, x, w):
        if isc(x):
            return z3.BitVecVal(int(x), w)
        if x.w == 1:
            return z3.If(self.b(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        r = self.c.get(x.uid)
        if r is None:
            r = self.c[x.uid] = self._bv(x)
        return r

    def _bv(self, x):
        op, a, w = x.op, x.a, x.w
        if op == 'var':
            return z3.BitVec(a[0], w)
        if op in BVOP:
            return BVOP[op](self.bv(a[0], w), self.bv(a[1], w))
        if op == 'zext':
            iw = a[0].w
            if iw == 1:
                return z3.If(self.b(a[0]), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return z3.ZeroExt(w - iw, self.bv(a[0], iw))
        if op == 'sext':
            iw = a[0].w
            if iw == 1:
                return z3.If(self.b(a[0]), z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
            return z3.SignExt(w - iw, self.bv(a[0], iw))
        if op == 'extract':
            return z3.Extract(a[1] + w - 1, a[1], self.bv(a[0], a[0].w))
        if op == 'concat':
            return z3.Concat(*[self.bv(a[i], a[i + 1]) for i in range(len(a) - 2, -1, -2)])
        if op == 'ite':
            return z3.If(self.b(a[0]), self.bv(a[1], w), self.bv(a[2], w))
        if op == 'fbits':
            f = a[0]
            if f.op == 'var' and f.iv is None:
                return z3.BitVec(f.a[0], 64)
            if f.iv is not None:
                return self.fresh(z3.BitVecSort(64), 'bits')
            v = self.fresh(z3.BitVecSort(64), 'bits')
            self.defs.append(z3.fpBVToFP(v, FP) == self.f(f))
            return v
        if op in ('f2s', 'f2u'):
            f = a[0]
            v = self.fresh(z3.BitVecSort(w), 'f2i')
            if f.iv is None:
                raise Unknown('float to int of possibly non-finite value')
            self.has_real = True
            lo, hi = (0, 2 ** w - 1) if op == 'f2u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            i = z3.BV2Int(v, op == 'f2s')
            r = self.r(f)
            self.defs.append(z3.If(r <= lo, i == lo, z3.If(r >= hi, i == hi, z3.If(
                r >= 0, z3.And(z3.ToReal(i) <= r, r < z3.ToReal(i) + 1),
                z3.And(z3.ToReal(i) >= r, r > z3.ToReal(i) - 1)))))
            return v
        raise Unknown('bv op ' + op)

    # ---- booleans ---------------------------------------------------------------------------
    def b(self, x):
        if isc(x):
            return z3.BoolVal(bool(x))
        r = self.c.get(x.uid)
        if r is None:
            if x.w != 1:
                raise Unknown('width')
            r = self.c[x.uid] = self._b(x)
        return r

    def _b(self, x):
        op, a = x.op, x.a
        if op == 'var':
            return z3.Bool(a[0])
        if op == 'not':
            return z3.Not(self.b(a[0]))
        if op == 'and':
            return z3.And(self.b(a[0]), self.b(a[1]))
        if op == 'or':
            return z3.Or(self.b(a[0]), self.b(a[1]))
        if op == 'xor':
            return z3.Xor(self.b(a[0]), self.b(a[1]))
        if op == 'eq':
            w = a[0].w if not isc(a[0]) else a[1].w
            return self.bv(a[0], w) == self.bv(a[1], w)
        if op == 'ult':
            w = a[0].w if not isc(a[0]) else a[1].w
            return z3.ULT(self.bv(a[0], w), self.bv(a[1], w))
        if op == 'slt':
            w = a[0].w if not isc(a[0]) else a[1].w
            return self.bv(a[0], w) < self.bv(a[1], w)
        if op == 'extract':
            return self.bvbit(a[0], a[1])
        if op in ('folt', 'fole', 'foeq'):
            if X.iv(a[0]) and X.iv(a[1]):
                p, q = self.r(a[0]), self.r(a[1])
                return {'folt': lambda: p < q, 'fole': lambda: p <= q, 'foeq': lambda: p == q}[op]()
            p, q = self.f(a[0]), self.f(a[1])
            return {'folt': lambda: z3.fpLT(p, q), 'fole': lambda: z3.fpLEQ(p, q), 'foeq': lambda: z3.fpEQ(p, q)}[op]()
        if op == 'fnan':
            return z3.fpIsNaN(self.f(a[0]))
        if op == 'fsign':
            f = a[0]
            if f.iv is not None:
                r = self.r(f)
                if f.op == 'var':
                    # inputs given as reals do not include -0.0
                    return r < 0
                v = self.fresh(z3.BoolSort(), 'sign')
                self.defs.append(z3.Implies(r < 0, v))
                self.defs.append(z3.Implies(r > 0, z3.Not(v)))
                return v
            if f.op in ('var', 'frombits'):
                return self.bvbit(X.fbits(f), 63)
            return z3.And(z3.Not(z3.fpIsNaN(self.f(f))), z3.fpIsNegative(self.f(f)))
        if op == 'feqbits':
            if X.iv(a[0]) and X.iv(a[1]):
                v = self.fresh(z3.BoolSort(), 'same')
                p, q = self.r(a[0]), self.r(a[1])
                self.defs.append(z3.Implies(v, p == q))
                self.defs.append(z3.Implies(z3.And(p == q, p != 0), v))
                return v
            return self.bv(X.fbits(a[0]), 64) == self.bv(X.fbits(a[1]), 64)
        if op == 'ite':
            return z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        raise Unknown('bool op ' + op)

    def bvbit(self, x, i):
        return z3.Extract(i, i, self.bv(x, x.w)) == z3.BitVecVal(1, 1)

    # ---- doubles as reals -------------------------------------------------------------------
    def r(self, x):
        if isf(x):
            return self.q(x)
        r = self.c.get(x.uid)
        if r is None:
            if x.iv is None:
                raise Unknown('real view of a possibly non-finite value')
            self.has_real = True
            r = self._r(x)
            self.c[x.uid] = r
        return r

    def rounded(self, x, exact, extra=0):
        if self.exact:
            return exact
        v = self.fresh(z3.RealSort(), 'r')
        m = Fraction(max(abs(x.iv[0]), abs(x.iv[1])))
        e = self.q(U * m * (1 + extra) + ETA)
        self.defs.append(z3.And(v - exact <= e, exact - v <= e))
        return v

    def _r(self, x):
        op, a = x.op, x.a
        if op == 'var':
            v = z3.Real(a[0])
            self.defs.append(z3.And(v >= self.q(x.iv[0]), v <= self.q(x.iv[1])))
            return v
        if op == 'add':
            return self.rounded(x, self.r(a[0]) + self.r(a[1]))
        if op == 'sub':
            return self.rounded(x, self.r(a[0]) - self.r(a[1]))
        if op == 'mul':
            if isf(a[1]):
                e = self.r(a[0]) * self.q(a[1])
                if a[1] != 0 and abs(math.frexp(a[1])[0]) == 0.5 and abs(a[1]) >= 1:
                    return e
                return self.rounded(x, e)
            self.nonlinear = True
            return self.rounded(x, self.r(a[0]) * self.r(a[1]))
        if op == 'div':
            if isf(a[1]):
                return self.rounded(x, self.r(a[0]) * self.q(1 / Fraction(a[1])))
            self.nonlinear = True
            e = self.fresh(z3.RealSort(), 'quot')
            if x.iv[0] > 0:
                self.defs.append(e > 0)
            self.defs.append(e * self.r(a[1]) == self.r(a[0]))
            return self.rounded(x, e)
        if op == 'neg':
            return -self.r(a[0])
        if op == 'abs':
            v = self.r(a[0])
            return z3.If(v >= 0, v, -v)
        if op == 'min':
            p, q = self.r(a[0]), self.r(a[1])
            return z3.If(p <= q, p, q)
        if op == 'max':
            p, q = self.r(a[0]), self.r(a[1])
            return z3.If(p >= q, p, q)
        if op == 'ite':
            return z3.If(self.b(a[0]), self.r(a[1]), self.r(a[2]))
        if op == 'sqrt':
            self.nonlinear = True
            e = self.fresh(z3.RealSort(), 'sqrt')
            self.defs.append(z3.And(e >= 0, e * e == self.r(a[0])))
            return self.rounded(x, e)
        if op == 'powc':
            self.nonlinear = True
            p = self.r(a[0])
            e = p
            for _ in range(int(a[1]) - 1):
                e = e * p
            return self.rounded(x, e, 3)
        if op == 'u2f' and self.exact and low(a[0]) is not None:
            # any real instead of any integer: an over-approximation that keeps the query in the reals
            v = low(a[0])
            i = z3.Real('re!' + v.a[0])
            self.abst[v.a[0]] = i
            self.defs.append(z3.And(i >= self.q(x.iv[0]), i <= self.q(x.iv[1])))
            return i
        if op in ('s2f', 'u2f'):
            i = z3.ToReal(z3.BV2Int(self.bv(a[0], a[0].w), op == 's2f'))
            if max(abs(x.iv[0]), abs(x.iv[1])) <= 2 ** 53:
                return i
            return self.rounded(x, i)
        if op == 'floor':
            v = z3.ToReal(z3.ToInt(self.r(a[0])))
            return v
        if op.startswith('uf:') or op in ('round',):
            v = self.fresh(z3.RealSort(), op.replace(':', '_'))
            self.defs.append(z3.And(v >= self.q(x.iv[0]), v <= self.q(x.iv[1])))
            if op == 'round':
                d = v - self.r(a[0])
                self.defs.append(z3.And(d <= self.q(0.5), d >= self.q(-0.5), z3.ToReal(z3.ToInt(v)) == v))
            return v
        raise Unknown('real op ' + op)

    # ---- doubles as Float64 -----------------------------------------------------------------
    def f(self, x):
        if isf(x):
            if x != x:
                return z3.fpNaN(FP)
            return z3.FPVal(x, FP)
        r = self.fp.get(x.uid)
        if r is None:
            self.has_fp = True
            r = self.fp[x.uid] = self._f(x)
        return r

    def structural(self, x):
        """built from constants by selections only: has the same value in both views"""
        if isf(x):
            return True
        if x.op == 'ite':
            return self.structural(x.a[1]) and self.structural(x.a[2])
        return x.op in ('neg', 'abs') and self.structural(x.a[0])

    def _f(self, x):
        op, a = x.op, x.a
        if x.iv is not None and not self.structural(x):
            # boundary from the real view: some finite double in the interval
            v = self.fresh(FP, 'fin')
            self.defs.append(z3.And(z3.fpLEQ(z3.FPVal(x.iv[0], FP), v), z3.fpLEQ(v, z3.FPVal(x.iv[1], FP))))
            return v
        if op == 'var':
            return z3.fpBVToFP(z3.BitVec(a[0], 64), FP)
        if op == 'frombits':
            return z3.fpBVToFP(self.bv(a[0], 64), FP)
        if op == 'add':
            return z3.fpAdd(RNE, self.f(a[0]), self.f(a[1]))
        if op == 'sub':
            return z3.fpSub(RNE, self.f(a[0]), self.f(a[1]))
        if op == 'mul':
            return z3.fpMul(RNE, self.f(a[0]), self.f(a[1]))
        if op == 'div':
            return z3.fpDiv(RNE, self.f(a[0]), self.f(a[1]))
        if op == 'neg':
            return z3.fpNeg(self.f(a[0]))
        if op == 'abs':
            return z3.fpAbs(self.f(a[0]))
        if op == 'sqrt':
            return z3.fpSqrt(RNE, self.f(a[0]))
        if op in ('min', 'max'):
            p, q = self.f(a[0]), self.f(a[1])
            c = z3.fpLT(p, q) if op == 'min' else z3.fpGT(p, q)
            return z3.If(z3.fpIsNaN(p), q, z3.If(z3.fpIsNaN(q), p, z3.If(c, p, q)))
        if op == 'ite':
            return z3.If(self.b(a[0]), self.f(a[1]), self.f(a[2]))
        if op in ('floor', 'round') or op.startswith('uf:') or op == 'powc':
            return self.fresh(FP, 'uf')
        raise Unknown('fp op ' + op)


def low(e):
    """the input variable that an expression zero-extends"""
    while e.op == 'zext':
        e = e.a[0]
    return e if e.op == 'var' else None


class Unknown(Exception):
    pass


BVOP = {
    'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q,
    'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem,
    'band': lambda p, q: p & q, 'bor': lambda p, q: p | q, 'bxor': lambda p, q: p ^ q,
    'shl': lambda p, q: p << q, 'lshr': z3.LShR, 'ashr': lambda p, q: p >> q,
}


LOG = None
_vars = {}
EMPTY = frozenset()


def fv(x):
    """names of the input variables an expression mentions"""
    if not isinstance(x, (E, F)):
        return EMPTY
    r = _vars.get(x.uid)
    if r is not None:
        return r
    stack = [x]
    while stack:
        y = stack[-1]
        if y.uid in _vars:
            stack.pop()
            continue
        if y.op == 'var':
            _vars[y.uid] = frozenset([y.a[0] if isinstance(y, E) else '@' + y.a[0]])
            stack.pop()
            continue
        todo = [c for c in y.a if isinstance(c, (E, F)) and c.uid not in _vars]
        if todo:
            stack.extend(todo)
            continue
        r = EMPTY
        for c in y.a:
            if isinstance(c, (E, F)):
                v = _vars[c.uid]
                if not v <= r:
                    r = v if r <= v else r | v
        _vars[y.uid] = r
        stack.pop()
    return _vars[x.uid]


_float = {}


def hasf(x):
    """does an expression contain a double anywhere?"""
    if isinstance(x, F):
        return True
    if not isinstance(x, E):
        return False
    r = _float.get(x.uid)
    if r is not None:
        return r
    stack = [x]
    while stack:
        y = stack[-1]
        if y.uid in _float:
            stack.pop()
            continue
        todo = [c for c in y.a if isinstance(c, E) and c.uid not in _float]
        if todo:
            stack.extend(todo)
            continue
        _float[y.uid] = any(isinstance(c, (F, float)) or isinstance(c, E) and _float[c.uid] for c in y.a)
        stack.pop()
    return _float[x.uid]


class Group:
    """constraints connected through shared variables"""
    __slots__ = ('names', 'cons', 'uncovered', 'fl')

    def __init__(self):
        self.fl = False
        self.names = set()
        self.cons = []
        self.uncovered = False


class Model:
    """values of z3 constants, by declaration"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    def merged(self, m):
        d = dict(self.d)
        for c in m.decls():
            if c.arity() == 0:
                v = m[c]
                if v is not None:
                    d[c.name()] = (c(), v)
        return Model(d)

    def eval(self, b, model_completion=True):
        m = BASE()
        for c, v in self.d.values():
            m.update_value(c, v)
        return m.eval(b, model_completion=True)


def BASE():
    s = z3.Solver()
    s.check()
    return s.model()


class Solver:
    """path condition + queries; the path condition is kept in independent groups"""

    def __init__(self, feas_ms=4000, assert_ms=60000):
        self.tr = Tr()
        self.feas_ms = feas_ms
        self.assert_ms = assert_ms
        self.ndefs = 0
        self.queries = 0
        self.time = 0.0
        self.unknowns = 0
        self.log = LOG
        self.of = {}            # name -> Group
        self.groups = []
        self.false = False

    def group(self, names):
        """the group of these names, joining groups as necessary (None: no names)"""
        gs = []
        for n in names:
            g = self.of.get(n)
            if g is not None and g not in gs:
                gs.append(g)
        if not gs:
            g = Group()
            self.groups.append(g)
        else:
            g = gs[0]
            for h in gs[1:]:
                if len(h.names) > len(g.names):
                    g, h = h, g
                g.names |= h.names
                g.cons += h.cons
                g.uncovered |= h.uncovered
                g.fl |= h.fl
                self.groups.remove(h)
                for n in h.names:
                    self.of[n] = g
        for n in names:
            if self.of.get(n) is not g:
                self.of[n] = g
                g.names.add(n)
        return g

    def sync(self, names):
        """file the definitions made while translating an expression over these names"""
        d = self.tr.defs
        if self.ndefs < len(d):
            g = self.group(names)
            g.cons += d[self.ndefs:]
            g.uncovered = True
            g.fl = True
            self.ndefs = len(d)

    def tb(self, e):
        try:
            return self.tr.b(e)
        finally:
            self.sync(fv(e))

    def tbv(self, e):
        try:
            return self.tr.bv(e, e.w)
        finally:
            self.sync(fv(e))

    def covered(self, e):
        """does a model of the path say everything about e?"""
        for n in fv(e):
            g = self.of.get(n)
            if g is not None and g.uncovered:
                return False
        return True

    def assume(self, e):
        b = self.tb(e)
        names = fv(e)
        if not names:
            if not e:
                self.false = True
            return
        g = self.group(names)
        g.cons.append(b)
        g.fl = g.fl or hasf(e)

    def relevant(self, names):
        gs = []
        for n in names:
            g = self.of.get(n)
            if g is not None and g not in gs:
                gs.append(g)
        return gs

    def solve(self, cons, fl, ms):
        if fl:
            s = z3.Solver()
        else:
            s = z3.SolverFor('QF_BV')
        s.set('timeout', ms)
        s.add(cons)
        t = time.time()
        self.queries += 1
        r = s.check()
        m = s.model() if r == z3.sat else None
        if r == z3.unknown:
            self.unknowns += 1
        dt = time.time() - t
        self.time += dt
        if self.log and dt > 0.5:
            self.log(s, r, dt)
        return str(r), m

    def query(self, b, names, ms, model, fl):
        """sat / unsat / unknown of the relevant part of the path condition and b, and a model of the
        whole path condition when one is known for the rest"""
        gs = self.relevant(names)
        cons = [c for g in gs for c in g.cons]
        if self.false:
            return 'unsat', None
        r, m = self.solve(cons + [b], fl or any(g.fl for g in gs), ms)
        if r != 'sat':
            return r, None
        if model is None:
            model = self.full(skip=gs)
            if model is None:
                return 'sat', None
            if model is False:
                return 'unsat', None
        for g in gs:
            g.uncovered = False
        return r, model.merged(m)

    def full(self, skip=()):
        """model of all groups but skip; None: unknown, False: none exists"""
        if self.false:
            return False
        model = Model()
        for g in list(self.groups):
            if g in skip:
                continue
            r, m = self.solve(g.cons, g.fl, self.feas_ms)
            if r == 'unsat':
                self.false = True
                return False
            if r != 'sat':
                return None
            model = model.merged(m)
        for g in self.groups:
            if g not in skip:
                g.uncovered = False
        return model

    def check(self, e=None, model=None):
        """sat / unsat / unknown of pc and e; model when sat (None: not known)"""
        if e is None:
            m = self.full()
            return ('unknown', None) if m is None else ('unsat', None) if m is False else ('sat', m)
        b = self.tb(e)
        return self.query(b, fv(e), self.feas_ms, model, hasf(e))

    def prove(self, e, model=None, ms=None):
        """decide pc and not e"""
        n = X.lnot(e)
        b = self.tb(n)
        if any(g.uncovered for g in self.groups):
            model = None
        return self.query(b, fv(n), ms or self.assert_ms, model, hasf(n))

    # ---- concrete values --------------------------------------------------------------------
    def values(self, m, vs):
        base = BASE()
        for c, v in m.d.values():
            base.update_value(c, v)
        return [self.value(base, v) for v in vs]

    def value(self, m, v):
        """concrete 64-bit pattern of an input variable node in model m"""
        if isinstance(v, E):
            if v.w == 1:
                return 1 if z3.is_true(m.eval(self.tr.b(v), model_completion=True)) else 0
            if v.op == 'var' and v.a[0] in self.tr.abst:
                x = m.eval(self.tr.abst[v.a[0]], model_completion=True)
                return min(max(int(tofloat(x)), 0), (1 << v.w) - 1)
            return m.eval(self.tr.bv(v, v.w), model_completion=True).as_long()
        if v.iv is None:
            return m.eval(z3.BitVec(v.a[0], 64), model_completion=True).as_long()
        x = m.eval(z3.Real(v.a[0]), model_completion=True)
        f = tofloat(x)
        f = min(max(f, v.iv[0]), v.iv[1])
        return X.f2b(f)


def tofloat(x):
    if z3.is_rational_value(x):
        fr = Fraction(x.numerator_as_long(), x.denominator_as_long())
        try:
            return float(fr)
        except OverflowError:
            return math.inf
    if z3.is_algebraic_value(x):
        return tofloat(x.approx(30))
    return 0.0
