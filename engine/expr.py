"""Hash-consed symbolic expressions.

E : bit-vectors (w bits; w == 1 is a Boolean)      F : IEEE binary64 values
Concrete bit-vectors are Python ints (unsigned) or bools, concrete doubles are Python floats.
Using an E as a Python truth value is a branch of the program under test: it asks the path
engine (hook `decide`)."""
import math
import struct

_tab = {}
_n = [0]
hooks = {}          # 'decide': E -> bool
INF = math.inf


def nodes():
    return _n[0]


def f2b(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def b2f(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def key(x):
    return x.uid if isinstance(x, (E, F)) else (x.__class__ is float and ('f', f2b(x)) or ('c', int(x)) if not isinstance(x, str) else x)


class E:
    __slots__ = ('op', 'a', 'w', 'uid', 'r')

    def __hash__(self):
        return self.uid

    def __bool__(self):
        if self.w != 1:
            return hooks['decide'](eq(self, 0, self.w) ^ 1)
        return hooks['decide'](self)

    def __add__(self, o): return add(self, o, self.w)
    __radd__ = __add__
    def __sub__(self, o): return sub(self, o, self.w)
    def __rsub__(self, o): return sub(o, self, self.w)
    def __mul__(self, o): return mul(self, o, self.w)
    __rmul__ = __mul__
    def __and__(self, o): return band(self, o, self.w)
    __rand__ = __and__
    def __or__(self, o): return bor(self, o, self.w)
    __ror__ = __or__
    def __xor__(self, o): return bxor(self, o, self.w)
    __rxor__ = __xor__
    def __lshift__(self, o): return shl(self, o, self.w)
    def __rlshift__(self, o): return shl(o, self, self.w)
    def __rshift__(self, o): return lshr(self, o, self.w)
    def __rrshift__(self, o): return lshr(o, self, self.w)
    def __floordiv__(self, o): return udiv(self, o, self.w)
    def __rfloordiv__(self, o): return udiv(o, self, self.w)
    def __mod__(self, o): return urem(self, o, self.w)
    def __rmod__(self, o): return urem(o, self, self.w)
    def __eq__(self, o): return eq(self, o, self.w)
    def __ne__(self, o): return lnot(eq(self, o, self.w))
    def __lt__(self, o): return ult(self, o, self.w)
    def __gt__(self, o): return ult(o, self, self.w)
    def __le__(self, o): return lnot(ult(o, self, self.w))
    def __ge__(self, o): return lnot(ult(self, o, self.w))
    def __repr__(self): return show(self, 4)


class F:
    __slots__ = ('op', 'a', 'uid', 'iv')

    def __hash__(self):
        return self.uid

    def __add__(self, o): return fadd(self, o)
    def __radd__(self, o): return fadd(o, self)
    def __sub__(self, o): return fsub(self, o)
    def __rsub__(self, o): return fsub(o, self)
    def __mul__(self, o): return fmul(self, o)
    def __rmul__(self, o): return fmul(o, self)
    def __neg__(self): return fneg(self)
    def __eq__(self, o): return fcmp('oeq', self, o)
    def __ne__(self, o): return fcmp('une', self, o)
    def __lt__(self, o): return fcmp('olt', self, o)
    def __le__(self, o): return fcmp('ole', self, o)
    def __gt__(self, o): return fcmp('olt', o, self)
    def __ge__(self, o): return fcmp('ole', o, self)
    def __bool__(self): raise TypeError('F used as bool')
    def __repr__(self): return show(self, 4)


def show(x, d):
    if not isinstance(x, (E, F)):
        return repr(x)
    if x.op == 'var':
        return '%s' % (x.a[0],)
    if d == 0:
        return '..'
    return '(%s%s %s)' % (x.op, '' if isinstance(x, F) else ':%d' % x.w, ' '.join(show(y, d - 1) for y in x.a))


def mkE(op, w, *a):
    k = (op, w) + tuple([key(x) for x in a])
    e = _tab.get(k)
    if e is None:
        e = E.__new__(E)
        e.op = op
        e.a = a
        e.w = w
        _n[0] += 1
        e.uid = _n[0]
        e.r = None
        _tab[k] = e
    return e


def mkF(op, iv, *a):
    k = ('F', op) + tuple([key(x) for x in a])
    e = _tab.get(k)
    if e is None:
        e = F.__new__(F)
        e.op = op
        e.a = a
        e.iv = iv
        _n[0] += 1
        e.uid = _n[0]
        _tab[k] = e
    return e


def var(name, w):
    return mkE('var', w, name)


def fvar(name, iv=None):
    return mkF('var', iv, name)


def isc(x):
    return x.__class__ is int or x.__class__ is bool


# ---- unsigned ranges -------------------------------------------------------------------------
def rng(x):
    if isc(x):
        return (int(x), int(x))
    r = x.r
    if r is None:
        r = x.r = _rng(x)
    return r


def _rng(x):
    op, a, w = x.op, x.a, x.w
    M = (1 << w) - 1
    if op == 'zext':
        return rng(a[0])
    if op == 'band':
        return (0, min(rng(a[0])[1], rng(a[1])[1]))
    if op == 'add':
        l, h = rng(a[0])
        l2, h2 = rng(a[1])
        if h + h2 <= M:
            return (l + l2, h + h2)
        if l + l2 > M and h + h2 - (M + 1) <= M:
            return (l + l2 - M - 1, h + h2 - M - 1)
    elif op == 'sub':
        l, h = rng(a[0])
        l2, h2 = rng(a[1])
        if l >= h2:
            return (l - h2, h - l2)
    elif op == 'mul':
        l, h = rng(a[0])
        l2, h2 = rng(a[1])
        if h * h2 <= M:
            return (l * l2, h * h2)
    elif op == 'ite':
        l, h = rng(a[1])
        l2, h2 = rng(a[2])
        return (min(l, l2), max(h, h2))
    elif op == 'lshr' and isc(a[1]):
        l, h = rng(a[0])
        return (l >> a[1], h >> a[1])
    elif op == 'udiv' and isc(a[1]) and a[1]:
        l, h = rng(a[0])
        return (l // a[1], h // a[1])
    elif op == 'urem' and isc(a[1]) and a[1]:
        return (0, min(a[1] - 1, rng(a[0])[1]))
    elif op == 'shl' and isc(a[1]):
        l, h = rng(a[0])
        if h << a[1] <= M:
            return (l << a[1], h << a[1])
    elif op == 'concat':
        # pieces low .. high: a = (piece0, w0, piece1, w1, ...)
        lo = hi = s = 0
        for i in range(0, len(a), 2):
            l, h = rng(a[i])
            lo |= l << s
            hi |= h << s
            s += a[i + 1]
        return (lo, hi)
    elif op == 'extract':
        l, h = rng(a[0])
        if a[1] == 0 and h <= M:
            return (l, h)
    elif op == 'bor':
        l, h = rng(a[0])
        l2, h2 = rng(a[1])
        return (max(l, l2), (1 << max(h.bit_length(), h2.bit_length())) - 1)
    return (0, M)


# ---- booleans --------------------------------------------------------------------------------
def lnot(x):
    if isc(x):
        return not x
    if x.op == 'not':
        return x.a[0]
    return mkE('not', 1, x)


def land(x, y):
    if isc(x):
        return y if x else False
    if isc(y):
        return x if y else False
    if x is y:
        return x
    if x is lnot(y):
        return False
    return mkE('and', 1, x, y)


def lor(x, y):
    if isc(x):
        return True if x else y
    if isc(y):
        return True if y else x
    if x is y:
        return x
    if x is lnot(y):
        return True
    return mkE('or', 1, x, y)


def lxor(x, y):
    if isc(x):
        return lnot(y) if x else y
    if isc(y):
        return lnot(x) if y else x
    if x is y:
        return False
    return mkE('xor', 1, x, y)


# ---- bit-vector operations -------------------------------------------------------------------
def msk(w):
    return (1 << w) - 1


def add(a, b, w):
    if isc(a):
        a, b = b, a
    if isc(b):
        b = int(b) & msk(w)
        if b == 0:
            return a
        if isc(a):
            return (a + b) & msk(w)
        if a.op == 'add' and isc(a.a[1]):
            return add(a.a[0], (a.a[1] + b) & msk(w), w)
    if w == 1:
        return lxor(a, b)
    return mkE('add', w, a, b)


def sub(a, b, w):
    if isc(b):
        if isc(a):
            return (a - b) & msk(w)
        return add(a, (-int(b)) & msk(w), w)
    if a is b:
        return 0
    if w == 1:
        return lxor(a, b)
    if not isc(a) and a.op == 'add' and a.a[0] is b:
        return a.a[1]
    return mkE('sub', w, a, b)


def mul(a, b, w):
    if isc(a):
        a, b = b, a
    if isc(b):
        b = int(b)
        if b == 0:
            return 0
        if b == 1:
            return a
        if isc(a):
            return (a * b) & msk(w)
        if b & (b - 1) == 0:
            return shl(a, b.bit_length() - 1, w)
    return mkE('mul', w, a, b)


def _smallq(a, b, w, h):
    r = 0
    for q in range(1, h // b + 1):
        r = ite(ult(a, q * b, w), r, q, w)
    return r


def _scaled(x):
    """(y, c): x == y * c without overflow"""
    if not isc(x) and x.op == 'mul' and isc(x.a[1]) and x.a[1]:
        if rng(x.a[0])[1] * x.a[1] <= msk(x.w):
            return x.a[0], x.a[1]
    return None, None


def udiv(a, b, w):
    if isc(b):
        if isc(a):
            return a // b
        if b == 1:
            return a
        if b & (b - 1) == 0 and b:
            return lshr(a, b.bit_length() - 1, w)
        h = rng(a)[1]
        if h < b:
            return 0
        n = h.bit_length()
        if n < w:
            return zext(udiv(trunc(a, n), b, n), n, w)
        if h // b <= 8:
            return _smallq(a, b, w, h)
    return mkE('udiv', w, a, b)


def urem(a, b, w):
    if isc(b):
        if isc(a):
            return a % b
        if b & (b - 1) == 0 and b:
            return band(a, b - 1, w)
        h = rng(a)[1]
        if h < b:
            return a
        n = h.bit_length()
        if n < w:
            return zext(urem(trunc(a, n), b, n), n, w)
        if h // b <= 8:
            return sub(a, mul(_smallq(a, b, w, h), b, w), w)
    return mkE('urem', w, a, b)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def sdiv(a, b, w):
    if isc(a) and isc(b):
        x, y = sgn(int(a), w), sgn(int(b), w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & msk(w)
    return mkE('sdiv', w, a, b)


def srem(a, b, w):
    if isc(a) and isc(b):
        x, y = sgn(int(a), w), sgn(int(b), w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & msk(w)
    return mkE('srem', w, a, b)


def band(a, b, w):
    if w == 1:
        return land(a, b)
    if isc(a):
        a, b = b, a
    if isc(b):
        b = int(b) & msk(w)
        if isc(a):
            return a & b
        if b == 0:
            return 0
        if b == msk(w):
            return a
        if b & (b + 1) == 0:          # low mask
            k = b.bit_length()
            if rng(a)[1] <= b:
                return a
            return zext(extract(a, 0, k), k, w)
        if a.op == 'fbits' and b == 0x7fffffffffffffff:
            return fbits(fabs_(a.a[0]))
    elif a is b:
        return a
    return mkE('band', w, a, b)


def bor(a, b, w):
    if w == 1:
        return lor(a, b)
    if isc(a):
        a, b = b, a
    if isc(b):
        b = int(b) & msk(w)
        if b == 0:
            return a
        if isc(a):
            return a | b
        if b == msk(w):
            return b
    elif a is b:
        return a
    # disjoint pieces -> concat
    p, q = pieces(a, w), pieces(b, w)
    if p is not None and q is not None:
        m = merge(p, q, w)
        if m is not None:
            return m
    return mkE('bor', w, a, b)


def pieces(x, w):
    """list of (lo, width, value) covering the non-zero bits, or None"""
    if isc(x):
        return [(0, w, int(x))] if x else []
    if x.op == 'zext':
        p = pieces(x.a[0], x.a[0].w)
        return p if p is not None else [(0, x.a[0].w, x.a[0])]
    if x.op == 'concat':
        r = []
        s = 0
        for i in range(0, len(x.a), 2):
            v, ww = x.a[i], x.a[i + 1]
            if not (isc(v) and v == 0):
                r.append((s, ww, v))
            s += ww
        return r
    if x.op == 'shl' and isc(x.a[1]):
        return None
    return [(0, w, x)] if x.w == w else None


def merge(p, q, w):
    used = sorted(p + q, key=lambda t: t[0])
    pos = 0
    parts = []
    for lo, ww, v in used:
        if lo < pos:
            return None
        if lo > pos:
            parts.append((0, lo - pos))
        parts.append((v, ww))
        pos = lo + ww
    if pos < w:
        parts.append((0, w - pos))
    if pos > w:
        return None
    return concat(parts)


def bxor(a, b, w):
    if w == 1:
        return lxor(a, b)
    if isc(a):
        a, b = b, a
    if isc(b):
        b = int(b) & msk(w)
        if b == 0:
            return a
        if isc(a):
            return a ^ b
        if a.op == 'bxor' and isc(a.a[1]):
            return bxor(a.a[0], a.a[1] ^ b, w)
        if a.op == 'fbits' and b == 1 << 63:
            return fbits(fneg(a.a[0]))
    elif a is b:
        return 0
    return mkE('bxor', w, a, b)


def shl(a, b, w):
    if isc(b):
        b = int(b)
        if b >= w:
            return 0
        if b == 0:
            return a
        if isc(a):
            return (a << b) & msk(w)
        return concat([(0, b), (extract(a, 0, w - b), w - b)])
    if isc(a) and a == 0:
        return 0
    return mkE('shl', w, a, b)


def lshr(a, b, w):
    if isc(b):
        b = int(b)
        if b >= w:
            return 0
        if b == 0:
            return a
        if isc(a):
            return a >> b
        return zext(extract(a, b, w - b), w - b, w)
    if isc(a) and a == 0:
        return 0
    return mkE('lshr', w, a, b)


def ashr(a, b, w):
    if isc(b):
        b = int(b)
        if b >= w:
            b = w - 1
        if b == 0:
            return a
        if isc(a):
            return (sgn(int(a), w) >> b) & msk(w)
        return sext(extract(a, b, w - b), w - b, w)
    return mkE('ashr', w, a, b)


def extract(x, lo, w):
    if isc(x):
        return (int(x) >> lo) & msk(w)
    if lo == 0 and w == x.w:
        return x
    op = x.op
    if op == 'extract':
        return extract(x.a[0], x.a[1] + lo, w)
    if op == 'zext':
        iw = x.a[0].w
        if lo >= iw:
            return 0
        if lo + w <= iw:
            return extract(x.a[0], lo, w)
        return zext(extract(x.a[0], lo, iw - lo), iw - lo, w)
    if op == 'sext':
        iw = x.a[0].w
        if lo + w <= iw:
            return extract(x.a[0], lo, w)
        if lo < iw:
            return sext(extract(x.a[0], lo, iw - lo), iw - lo, w)
    if op == 'concat':
        parts = []
        s = 0
        for i in range(0, len(x.a), 2):
            v, ww = x.a[i], x.a[i + 1]
            l, h = max(lo, s), min(lo + w, s + ww)
            if l < h:
                parts.append((extract(v, l - s, h - l), h - l))
            s += ww
        return concat(parts)
    if op == 'ite':
        if isc(x.a[1]) or isc(x.a[2]):
            return ite(x.a[0], extract(x.a[1], lo, w), extract(x.a[2], lo, w), w)
    if op in ('band', 'bor', 'bxor') and (lo == 0 or isc(x.a[1])):
        f = {'band': band, 'bor': bor, 'bxor': bxor}[op]
        return f(extract(x.a[0], lo, w), extract(x.a[1], lo, w), w)
    if op in ('add', 'sub', 'mul') and lo == 0:
        f = {'add': add, 'sub': sub, 'mul': mul}[op]
        return f(extract(x.a[0], 0, w), extract(x.a[1], 0, w), w)
    if w == 1 and rng(x)[1] < (1 << lo):
        return False
    if op == 'fbits' and lo == 63 and w == 1:
        return fsign(x.a[0])
    return mkE('extract', w, x, lo)


def concat(parts):
    """parts low..high: [(value, width)]"""
    out = []
    for v, w in parts:
        if w == 0:
            continue
        if not isc(v) and v.op == 'concat':
            for i in range(0, len(v.a), 2):
                _cat(out, v.a[i], v.a[i + 1])
        elif not isc(v) and v.op == 'zext':
            iw = v.a[0].w
            _cat(out, v.a[0], iw)
            _cat(out, 0, w - iw)
        else:
            _cat(out, v, w)
    if len(out) == 1:
        return out[0][0]
    if isc(out[-1][0]) and out[-1][0] == 0:
        tw = sum(w for _, w in out)
        rest = out[:-1]
        rw = tw - out[-1][1]
        if len(rest) == 1:
            return zext(rest[0][0], rw, tw)
    fl = []
    for v, w in out:
        fl += [v, w]
    return mkE('concat', sum(w for _, w in out), *fl)


def _cat(out, v, w):
    if out:
        pv, pw = out[-1]
        if isc(pv) and isc(v):
            out[-1] = (int(pv) | (int(v) << pw), pw + w)
            return
        if not isc(pv) and not isc(v):
            # adjacent extracts of one value
            if pv.op == 'extract' and v.op == 'extract' and pv.a[0] is v.a[0] and pv.a[1] + pw == v.a[1]:
                out[-1] = (extract(pv.a[0], pv.a[1], pw + w), pw + w)
                return
            if pv.op == 'extract' and pv.a[0].op == 'fbits' and v.op == 'fsign' and v.a[0] is pv.a[0].a[0] \
                    and pv.a[1] + pw == 63:
                out[-1] = (extract(pv.a[0], pv.a[1], pw + 1), pw + 1)
                return
    out.append((int(v) if isc(v) else v, w))


def zext(x, fw, tw):
    if isc(x):
        return int(x)
    if tw == x.w:
        return x
    if x.op == 'zext':
        x = x.a[0]
    return mkE('zext', tw, x)


def sext(x, fw, tw):
    if isc(x):
        return sgn(int(x), fw) & msk(tw)
    if tw == x.w:
        return x
    if x.op == 'zext' and x.a[0].w < x.w:
        return zext(x.a[0], x.a[0].w, tw)
    return mkE('sext', tw, x)


def trunc(x, tw):
    if isc(x):
        return int(x) & msk(tw)
    return extract(x, 0, tw)


def ite(c, x, y, w):
    if isc(c):
        return x if c else y
    if x is y:
        return x
    if isc(x) and isc(y) and int(x) == int(y):
        return x
    if w == 1:
        if isc(x):
            return lor(c, y) if x else land(lnot(c), y)
        if isc(y):
            return lor(lnot(c), x) if y else land(c, x)
        return lor(land(c, x), land(lnot(c), y))
    if c.op == 'not':
        return ite(c.a[0], y, x, w)
    return mkE('ite', w, c, x, y)


def eq(a, b, w):
    if isc(a):
        a, b = b, a
    if isc(a):
        return int(a) == int(b)
    if a is b:
        return True
    if w == 1:
        if isc(b):
            return a if b else lnot(a)
        return lnot(lxor(a, b))
    if isc(b):
        b = int(b)
        l, h = rng(a)
        if b < l or b > h:
            return False
        if a.op == 'zext':
            return eq(a.a[0], b, a.a[0].w)
        if a.op == 'add' and isc(a.a[1]):
            return eq(a.a[0], (b - a.a[1]) & msk(w), w)
        if a.op == 'sub' and b == 0:
            return eq(a.a[0], a.a[1], w)
        y, c = _scaled(a)
        if y is not None:
            return eq(y, b // c, w) if b % c == 0 else False
        if a.op == 'bxor' and isc(a.a[1]):
            return eq(a.a[0], b ^ a.a[1], w)
        if a.op == 'concat':
            r = True
            s = 0
            for i in range(0, len(a.a), 2):
                v, ww = a.a[i], a.a[i + 1]
                r = land(r, eq(v, (b >> s) & msk(ww), ww))
                s += ww
                if r is False:
                    return False
            return r
        if a.op == 'ite' and isc(a.a[1]) and isc(a.a[2]):
            t, f = int(a.a[1]) == b, int(a.a[2]) == b
            return ite(a.a[0], t, f, 1)
        if a.op == 'ite' and (isc(a.a[1]) or isc(a.a[2])):
            return ite(a.a[0], eq(a.a[1], b, w), eq(a.a[2], b, w), 1)
    else:
        if a.op == 'fbits' and b.op == 'fbits':
            if a.uid > b.uid:
                a, b = b, a
            return mkE('feqbits', 1, a.a[0], b.a[0])
        if a.op == 'concat' and b.op == 'concat' and a.a[1::2] == b.a[1::2]:
            r = True
            for i in range(0, len(a.a), 2):
                r = land(r, eq(a.a[i], b.a[i], a.a[i + 1]))
            return r
        if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
            return eq(a.a[0], b.a[0], a.a[0].w)
        y, c = _scaled(a)
        z, d = _scaled(b)
        if y is not None and z is not None and c == d:
            return eq(y, z, w)
        if a.uid > b.uid:
            a, b = b, a
    return mkE('eq', 1, a, b)


def ult(a, b, w):
    if isc(a) and isc(b):
        return int(a) < int(b)
    if a is b:
        return False
    l, h = rng(a)
    l2, h2 = rng(b)
    if h < l2:
        return True
    if l >= h2:
        return False
    if w == 1:
        return land(lnot(a), b)
    # signed comparison comes as (a ^ S) < (b ^ S)
    S = 1 << (w - 1)
    if isc(a) and a == S - 1 and b.op == 'fbits':
        return fsign(b.a[0])
    if isc(b) and b == S and a.op == 'fbits':
        return lnot(fsign(a.a[0]))
    xa = _unbias(a, S)
    xb = _unbias(b, S)
    if xa is not None and xb is not None:
        return slt(xa, xb, w)
    if not isc(a) and a.op == 'zext' and not isc(b) and b.op == 'zext' and a.a[0].w == b.a[0].w:
        return ult(a.a[0], b.a[0], a.a[0].w)
    if isc(b) and not isc(a) and a.op == 'zext' and b <= msk(a.a[0].w):
        return ult(a.a[0], b, a.a[0].w)
    if isc(a) and not isc(b) and b.op == 'zext' and a <= msk(b.a[0].w):
        return ult(a, b.a[0], b.a[0].w)
    if isc(b) and b == 1:
        return eq(a, 0, w)
    y, c = _scaled(a)
    z, d = _scaled(b)
    if y is not None and z is not None and c == d:
        return ult(y, z, w)
    if y is not None and isc(b):
        return ult(y, (b + c - 1) // c, w)
    if z is not None and isc(a):
        return ult(a // d, z, w)
    return mkE('ult', 1, a, b)


def _unbias(x, S):
    if isc(x):
        return int(x) ^ S
    if x.op == 'bxor' and isc(x.a[1]) and x.a[1] & S:
        return bxor(x, S, x.w)
    return None


def srng(x, w):
    if isc(x):
        s = sgn(int(x), w)
        return (s, s)
    l, h = rng(x)
    if h < 1 << (w - 1):
        return (l, h)
    if x.op == 'sext':
        iw = x.a[0].w
        return (-(1 << (iw - 1)), (1 << (iw - 1)) - 1)
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def slt(a, b, w):
    if isc(a) and isc(b):
        return sgn(int(a), w) < sgn(int(b), w)
    if a is b:
        return False
    if isc(b) and not isc(a) and a.op == 'fbits' and int(b) == 0:
        return fsign(a.a[0])
    if isc(a) and not isc(b) and b.op == 'fbits' and int(a) == msk(w):
        return lnot(fsign(b.a[0]))
    l, h = srng(a, w)
    l2, h2 = srng(b, w)
    if h < l2:
        return True
    if l >= h2:
        return False
    if isc(b) and b == 0 and not isc(a):
        t = extract(a, w - 1, 1)
        return t
    if isc(a) and a == msk(w):
        return lnot(extract(b, w - 1, 1))
    if l >= 0 and l2 >= 0:
        return ult(a, b, w)
    return mkE('slt', 1, a, b)


# ---- floats ----------------------------------------------------------------------------------
def isf(x):
    return x.__class__ is float


def iv(x):
    """finite interval (lo, hi) or None when the value may be NaN or infinite"""
    if isf(x):
        return (x, x) if math.isfinite(x) else None
    return x.iv


def _out(lo, hi):
    if math.isnan(lo) or math.isnan(hi):
        return None
    lo = math.nextafter(lo, -INF)
    hi = math.nextafter(hi, INF)
    if lo == -INF or hi == INF:
        return None
    return (lo, hi)


# ---- polynomials: canonical form of reals when rounding errors are left out (MODE_EXACT) ------
exact = [False]
_poly = {}
_atom = {}
_sos = {}


def poly(x):
    """{monomial (sorted tuple of atom uids): coefficient}"""
    if isf(x):
        return {(): x} if x else {}
    d = _poly.get(x.uid)
    if d is None:
        _atom[x.uid] = x
        d = _poly[x.uid] = {(x.uid,): 1.0}
    return d


def _ivmul(p, q):
    c = [x * y for x in p for y in q]
    if any(x != x for x in c):
        return -INF, INF
    return min(c), max(c)


def _ivmono(m):
    r = (1.0, 1.0)
    i = 0
    while i < len(m):
        p = _atom[m[i]].iv
        if i + 1 < len(m) and m[i + 1] == m[i]:
            c = sorted((p[0] * p[0], p[1] * p[1]))
            r = _ivmul(r, (0.0 if p[0] <= 0 <= p[1] else c[0], c[1]))
            i += 2
        else:
            r = _ivmul(r, p)
            i += 1
    return r


def frompoly(d, bound=None):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return 0.0
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return c
        if len(m) == 1 and c == 1.0:
            return _atom[m[0]]
    lo = hi = 0.0
    e = None
    for m in sorted(d, key=lambda m: (len(m), m)):
        c = d[m]
        if not m:
            lo, hi = lo + c, hi + c
            e = c
            continue
        p = _ivmul(_ivmono(m), (c, c))
        lo, hi = lo + p[0], hi + p[1]
        t = None
        for u in m:
            a = _atom[u]
            t = a if t is None else mkF('mul', _ivmono(m), t, a)
        if c != 1.0:
            t = mkF('mul', p, t, c)
        if isf(e) or e is None:
            e = t if e is None else mkF('add', (lo, hi), t, e)
        else:
            e = mkF('add', (lo, hi), e, t)
    if not (lo > -INF and hi < INF):
        if not bound:
            return None
        lo, hi = bound
    w = 1e-15 * max(abs(lo), abs(hi))
    lo, hi = (lo - w if lo < 0 or w > lo else lo * (1 - 1e-15)), hi + w
    if all(c >= 0 and len(m) in (0, 2) and (not m or m[0] == m[1]) for m, c in d.items()):
        lo = max(lo, 0.0)
    if bound:
        lo, hi = max(lo, bound[0]), min(hi, bound[1])
    e.iv = (lo, hi) if e.iv is None else (max(lo, e.iv[0]), min(hi, e.iv[1]))
    _poly[e.uid] = d
    return e


def _padd(a, b, k):
    d = dict(poly(a))
    for m, c in poly(b).items():
        c *= k
        o = d.get(m, 0.0)
        n = o + c
        # what cancels up to rounding is zero
        d[m] = 0.0 if abs(n) <= 1e-11 * max(abs(o), abs(c)) else n
    p, q = iv(a), iv(b)
    sa, sb = _squares(a), _squares(b)
    q = q if k > 0 else (-q[1], -q[0])
    e = frompoly(d, _out(p[0] + q[0], p[1] + q[1]))
    if k > 0 and sa is not None and sb is not None and not isf(e):
        _sos[e.uid] = _sos.get(e.uid, frozenset()) | sa | sb
        e.iv = (max(e.iv[0], 0.0), e.iv[1])
    return e


def _squares(x):
    """the values whose squares are known to be part of the sum of squares x"""
    if isf(x):
        return frozenset() if x >= 0 else None
    return _sos.get(x.uid)


def _pscale(a, k):
    return frompoly({m: c * k for m, c in poly(a).items()})


def _pmul(a, b):
    p, q = poly(a), poly(b)
    if len(p) * len(q) > 40:
        return None
    d = {}
    rest = 0.0
    for m, c in p.items():
        for n, e in q.items():
            z = tuple(sorted(m + n))
            s = _fold(z)
            if s is None and len(z) > (4 if len(p) * len(q) > 8 else 9):
                return None
            if s is None:
                d[z] = d.get(z, 0.0) + c * e
            else:
                rest = rest + s * (c * e)
    x, y = iv(a), iv(b)
    bound = _ivmul(x, y)
    if a is b:
        bound = (0.0 if x[0] <= 0 <= x[1] else min(x[0] * x[0], x[1] * x[1]), bound[1])
    if not (bound[0] > -INF and bound[1] < INF):
        bound = None
    e = frompoly(d, bound)
    if e is None:
        return None
    e = e + rest
    if a is b and not isf(e):
        _sos[e.uid] = _sos.get(e.uid, frozenset()) | {a.uid, (-a).uid}
        e.iv = (max(e.iv[0], 0.0), e.iv[1])
    return e


def _fold(z):
    """sqrt(s)*sqrt(s) = s and (x/y)*y = x"""
    for i in range(len(z)):
        a = _atom[z[i]]
        for j in range(len(z)):
            if i == j:
                continue
            b = _atom[z[j]]
            r = None
            if i < j and a is b and a.op == 'sqrt':
                r = a.a[0]
            elif a.op == 'div' and a.a[1] is b:
                r = a.a[0]
            if r is not None:
                for k in range(len(z)):
                    if k not in (i, j):
                        r = r * _atom[z[k]]
                return r
    return None


def _pdiv(a, b, bound):
    q = iv(b)
    d = poly(b)
    if len(d) == 1 and (q[0] > 0 or q[1] < 0):
        # a single monomial: divide by its factors
        (m, c), = d.items()
        if (len(m) > 1 or c != 1.0) and all(_atom[u].iv[0] > 0 for u in m):
            e = a / c if isf(a) else _pscale(a, 1 / c)
            for u in m:
                e = 0.0 if isf(e) and e == 0.0 else fdiv(e, _atom[u])
            if bound and not isf(e):
                e.iv = (max(e.iv[0], bound[0]), min(e.iv[1], bound[1]))
            return e
    i = mkF('div', (1 / q[1], 1 / q[0] if q[0] > 1e-100 else 1e100) if q[1] > 0 else None, 1.0, b)
    if i.iv is None:
        return mkF('div', bound, a, b)
    poly(i)
    d = {}
    rest = 0.0
    for m, c in poly(a).items():
        z = tuple(sorted(m + (i.uid,)))
        f = _fold(z)
        if f is None:
            d[z] = c
        else:
            rest = rest + f * c
    if isf(rest) and rest == 0.0:
        return frompoly(d, bound)
    e = frompoly(d)
    return mkF('div', bound, a, b) if e is None else e + rest


def _ratio(a, b):
    p, q = poly(a), poly(b)
    if set(p) != set(q):
        return None
    k = None
    for m, c in p.items():
        x = c / q[m]
        if k is None:
            k = x
        elif abs(x - k) > 1e-13 * abs(k):
            return None
    return k


def fadd(a, b):
    if isf(a) and isf(b):
        return a + b
    if isf(b) and b == 0.0 and f2b(b) != 0:      # x + -0.0 == x
        return a
    if isf(a) and a == 0.0 and f2b(a) != 0:
        return b
    p, q = iv(a), iv(b)
    if exact[0] and p and q:
        return _padd(a, b, 1.0)
    if not isf(a) and not isf(b) and a.uid > b.uid:
        a, b = b, a
    elif isf(a):
        a, b = b, a
    if isf(b) and b == 0.0 and a.iv:            # real view: the sign of zero does not matter
        return a
    return mkF('add', _out(p[0] + q[0], p[1] + q[1]) if p and q else None, a, b)


def fsub(a, b):
    if isf(a) and isf(b):
        return a - b
    if isf(b) and b == 0.0 and f2b(b) == 0:
        return a
    p, q = iv(a), iv(b)
    if a is b and p:
        return 0.0
    if exact[0] and p and q:
        return _padd(a, b, -1.0)
    if isf(a) and a == 0.0 and q:
        return fneg(b)
    return mkF('sub', _out(p[0] - q[1], p[1] - q[0]) if p and q else None, a, b)


def fmul(a, b):
    if isf(a) and isf(b):
        return a * b
    if isf(a):
        a, b = b, a
    if isf(b):
        if b == 1.0:
            return a
        if b == -1.0:
            return fneg(a)
    elif a.uid > b.uid:
        a, b = b, a
    p, q = iv(a), iv(b)
    r = None
    if exact[0] and p and q:
        e = _pmul(a, b)
        if e is not None:
            return e
    if p and q:
        c = [x * y for x in p for y in q]
        lo, hi = min(c), max(c)
        if a is b:
            lo = 0.0 if p[0] <= 0 <= p[1] else min(p[0] * p[0], p[1] * p[1])
            r = _out(lo, hi)
            if r:
                r = (max(r[0], 0.0), r[1])
        else:
            r = _out(lo, hi)
            if r and lo >= 0:
                r = (max(r[0], 0.0), r[1])
            if r and hi <= 0:
                r = (r[0], min(r[1], 0.0))
        if isf(b) and b == 0.0:
            return 0.0
        if a is b and a.op in ('neg', 'abs'):
            return fmul(a.a[0], a.a[0])
    return mkF('mul', r, a, b)


def fdiv(a, b):
    if isf(a) and isf(b):
        if b == 0.0:
            if a == 0.0 or a != a:
                return math.nan
            return math.copysign(INF, a) * math.copysign(1.0, b)
        return a / b
    if isf(b) and b == 1.0:
        return a
    if isf(b) and b != 0 and math.isfinite(b) and abs(math.frexp(b)[0]) == 0.5 and 1e-300 < abs(1 / b) < 1e300:
        return fmul(a, 1.0 / b)         # exact: power of two
    p, q = iv(a), iv(b)
    r = None
    if exact[0] and p and q and isf(b) and b != 0:
        return _pscale(a, 1 / b)
    if p and q and isf(a) and a == 0.0 and (q[0] > 0 or q[1] < 0):
        return 0.0
    if p and q and q[0] <= 0 <= q[1] and not isf(b):
        # a denominator that may be zero: two cases
        if hooks['decide'](fcmp('oeq', b, 0.0)):
            if isf(a) and a == 0.0 or not isf(a) and hooks['decide'](fcmp('oeq', a, 0.0)):
                return math.nan
            neg = a < 0 if isf(a) else hooks['decide'](fcmp('olt', a, 0.0))
            return -INF if neg else INF
        if isf(a) and a == 0.0:
            return 0.0
        if exact[0]:
            k = _ratio(a, b)
            if k is not None:
                return k
        if b.op == 'abs' and b.a[0] is a:
            return 1.0 if hooks['decide'](fcmp('olt', 0.0, a)) else -1.0
        if b.op == 'abs' and not isf(a) and a.op == 'neg' and a.a[0] is b.a[0]:
            return -1.0 if hooks['decide'](fcmp('olt', 0.0, a.a[0])) else 1.0
        if b.op == 'sqrt' and not isf(a) and _square_in(a, b.a[0]):
            r = _out(-1.0, 1.0)
            if exact[0]:
                return _pdiv(a, b, r)
    elif p and q:
        if exact[0] and not isf(b):
            k = _ratio(a, b)
            if k is not None:
                return k
        c = [x / y for x in p for y in q]
        r = _out(min(c), max(c))
        if r and min(c) >= 0:
            r = (max(r[0], 0.0), r[1])
        if not isf(b) and b.op == 'sqrt' and not isf(a) and _square_in(a, b.a[0]):
            r = max(r[0], -1.0 - 1e-15), min(r[1], 1.0 + 1e-15)
        if exact[0] and not isf(b):
            return _pdiv(a, b, r)
    return mkF('div', r, a, b)


def _square_in(a, s):
    """s is a sum of squares, one of them that of a"""
    if exact[0]:
        return a.uid in (_squares(s) or ())
    found = False
    todo = [s]
    while todo:
        x = todo.pop()
        if isf(x):
            if x < 0:
                return False
        elif x.op == 'add':
            todo += x.a
        elif x.op == 'mul' and x.a[0] is x.a[1]:
            found = found or x.a[0] is a or a.op == 'neg' and a.a[0] is x.a[0]
        else:
            return False
    return found


def fneg(a):
    if isf(a):
        return -a
    if a.op == 'neg':
        return a.a[0]
    if exact[0] and a.iv:
        return _pscale(a, -1.0)
    return mkF('neg', (-a.iv[1], -a.iv[0]) if a.iv else None, a)


def fabs_(a):
    if isf(a):
        return abs(a)
    if a.op == 'abs':
        return a
    if a.op == 'neg':
        return fabs_(a.a[0])
    p = a.iv
    if p:
        if p[1] < 0:
            return fneg(a)
        if p[0] > 0 or (p[0] == 0 and a.op in ('mul',) and a.a[0] is a.a[1]):
            return a
        lo = 0.0 if p[0] <= 0 <= p[1] else min(abs(p[0]), abs(p[1]))
        p = (lo, max(abs(p[0]), abs(p[1])))
    return mkF('abs', p, a)


def fsqrt(a):
    if isf(a):
        return math.sqrt(a) if a >= 0 else (a if a == 0 else math.nan)
    p = a.iv
    r = None
    if exact[0] and p:
        d = poly(a)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 2 and m[0] == m[1] and c > 0:
                t = _atom[m[0]]
                t = t if t.iv[0] >= 0 else -t if t.iv[1] <= 0 or hooks['decide'](fcmp('olt', t, 0.0)) else t
                return t * math.sqrt(c)
    if p and a.op == 'mul' and a.a[0] is a.a[1]:
        return fabs_(a.a[0])            # real view: no underflow
    if p and p[0] >= 0:
        r = _out(math.sqrt(p[0]), math.sqrt(p[1]))
        r = (max(r[0], 0.0), r[1])
    return mkF('sqrt', r, a)


def fmin(a, b):
    if isf(a) and isf(b):
        if a != a:
            return b
        if b != b:
            return a
        if a == b == 0.0:
            return a if f2b(a) else b
        return min(a, b)
    if isf(a):
        a, b = b, a
    if isf(b) and b != b:
        return a
    if a is b:
        return a
    p, q = iv(a), iv(b)
    r = None
    if p and q:
        r = (min(p[0], q[0]), min(p[1], q[1]))
        if p[1] < q[0]:
            return a
        if q[1] < p[0]:
            return b
        if exact[0]:
            return a if hooks['decide'](fcmp('olt', a, b)) else b
    return mkF('min', r, a, b)


def fmax(a, b):
    if isf(a) and isf(b):
        if a != a:
            return b
        if b != b:
            return a
        if a == b == 0.0:
            return b if f2b(a) else a
        return max(a, b)
    if isf(a):
        a, b = b, a
    if isf(b) and b != b:
        return a
    if a is b:
        return a
    p, q = iv(a), iv(b)
    r = None
    if p and q:
        r = (max(p[0], q[0]), max(p[1], q[1]))
        if p[0] > q[1]:
            return a
        if q[0] > p[1]:
            return b
        if exact[0]:
            return b if hooks['decide'](fcmp('olt', a, b)) else a
    return mkF('max', r, a, b)


def fite(c, a, b):
    if isc(c):
        return a if c else b
    if a is b or (isf(a) and isf(b) and f2b(a) == f2b(b)):
        return a
    p, q = iv(a), iv(b)
    return mkF('ite', (min(p[0], q[0]), max(p[1], q[1])) if p and q else None, c, a, b)


def fsign(a):
    if isf(a):
        return f2b(a) >> 63 == 1
    if a.op == 'abs':
        return False
    if a.op == 'neg':
        return lnot(fsign(a.a[0]))
    p = a.iv
    if p:
        if p[0] > 0:
            return False
        if p[1] < 0:
            return True
    return mkE('fsign', 1, a)


def fcopysign(a, b):
    if isf(a) and isf(b):
        return math.copysign(a, b)
    m = fabs_(a)
    s = fsign(b)
    return fite(s, fneg(m), m)


def ffloor(a):
    if isf(a):
        return float(math.floor(a)) if math.isfinite(a) else a
    return mkF('floor', (math.floor(a.iv[0]) * 1.0, math.floor(a.iv[1]) * 1.0) if a.iv else None, a)


def fround(a):
    if isf(a):
        if not math.isfinite(a):
            return a
        r = math.floor(abs(a))
        if abs(a) - r >= 0.5:
            r += 1
        return math.copysign(float(r), a)
    return mkF('round', (a.iv[0] - 1.0, a.iv[1] + 1.0) if a.iv else None, a)


FPRED = {'ogt': ('olt', 1), 'oge': ('ole', 1), 'ugt': ('ult', 1), 'uge': ('ule', 1)}


def fcmp(p, a, b):
    if p in FPRED:
        p, sw = FPRED[p]
        a, b = b, a
    if isf(a) and isf(b):
        un = a != a or b != b
        if p == 'ord':
            return not un
        if p == 'uno':
            return un
        if un:
            return p[0] == 'u'
        q = p[1:]
        return {'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[q]
    # canonical: olt, ole, oeq and their negations
    if p == 'ult':
        return lnot(fcmp('ole', b, a))
    if p == 'ule':
        return lnot(fcmp('olt', b, a))
    if p == 'une':
        return lnot(fcmp('oeq', a, b))
    if p == 'ord':
        return lnot(fcmp('uno', a, b))
    if p == 'uno':
        return lor(fnan(a), fnan(b))
    if p == 'one':
        return land(lnot(fcmp('oeq', a, b)), fcmp('ord', a, b))
    if p == 'ueq':
        return lor(fcmp('oeq', a, b), fcmp('uno', a, b))
    x, y = iv(a), iv(b)
    if isf(a) and a != a or isf(b) and b != b:
        return False
    if x and y:
        if p == 'olt':
            if x[1] < y[0]:
                return True
            if x[0] >= y[1]:
                return False
        elif p == 'ole':
            if x[1] <= y[0]:
                return True
            if x[0] > y[1]:
                return False
        else:
            if x[1] < y[0] or y[1] < x[0]:
                return False
    elif y is None and isf(b) and x:       # against infinity
        if p == 'oeq':
            return False
        return b > 0
    elif x is None and isf(a) and y:
        if p == 'oeq':
            return False
        return a < 0
    if a is b:
        if p == 'olt':
            return False
        return lnot(fnan(a))
    if p == 'oeq':
        if isf(a) or (not isf(b) and a.uid > b.uid):
            a, b = b, a
    return mkE('f' + p, 1, a, b)


def fnan(a):
    if isf(a):
        return a != a
    if a.iv:
        return False
    if a.op in ('neg', 'abs'):
        return fnan(a.a[0])
    return mkE('fnan', 1, a)


def fbits(a):
    if isf(a):
        return f2b(a)
    if a.op == 'frombits':
        return a.a[0]
    return mkE('fbits', 64, a)


def frombits(e):
    if isc(e):
        return b2f(int(e))
    if e.op == 'fbits':
        return e.a[0]
    if e.op == 'ite' and all(isc(t) or t.op in ('fbits', 'ite') for t in e.a[1:]):
        return fite(e.a[0], frombits(e.a[1]), frombits(e.a[2]))
    return mkF('frombits', None, e)


def fuf(name, ivl, *a):
    return mkF('uf:' + name, ivl, *a)


def fromint(e, w, signed):
    if isc(e):
        return float(sgn(int(e), w) if signed else int(e))
    if signed:
        l, h = srng(e, w)
    else:
        l, h = rng(e)
    return mkF('s2f' if signed else 'u2f', (math.nextafter(float(l), -INF) if abs(l) > 2 ** 53 else float(l),
                                           math.nextafter(float(h), INF) if abs(h) > 2 ** 53 else float(h)), e)
