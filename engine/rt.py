"""Run-time of the translated program: memory, intrinsics, C library primitives."""
import math
import struct
import sys

import expr as X
from expr import (E, F, isc, isf, add, sub, mul, udiv, urem, sdiv, srem, shl, lshr, ashr, extract, concat, zext, sext,
                  trunc, ite, eq, ult, slt, lnot, land, lor, fcmp, fbits, frombits, fdiv, fite, fromint, rng, msk)
import ir


class PathEnd(Exception):
    def __init__(self, kind, info=''):
        self.kind = kind
        self.info = info


class EngineError(Exception):
    pass


SIZE = 192 << 20
M = bytearray(SIZE)
SY = bytearray(SIZE)
SD = {}
SP = [0x1000000]            # stack 16 MB .. 64 MB
HEAP = [0x4000000]          # heap from 64 MB
GLOB = 0x400000             # globals 4 MB .. 16 MB
SIZES = {}
LOW = 0x400000

upQ = struct.Struct('<Q').unpack_from
upD = struct.Struct('<d').unpack_from
upI = struct.Struct('<I').unpack_from
upH = struct.Struct('<H').unpack_from
pkQ = struct.Struct('<Q').pack_into
pkD = struct.Struct('<d').pack_into
pkI = struct.Struct('<I').pack_into
pkH = struct.Struct('<H').pack_into
find = SY.find
Z8 = bytes(8)
Z4 = bytes(4)
Z2 = bytes(2)

mod = None
ns = {}
hooks = {}      # 'conc': E -> int


def conc(e):
    if isc(e):
        return int(e)
    return hooks['conc'](e)


def ckaddr(a):
    if a.__class__ is not int:
        a = conc(a)
    if a < LOW or a >= SIZE - 16:
        raise PathEnd('segv', hex(a))
    return a


def sload(a, n):
    parts = []
    i = 0
    while i < n:
        if SY[a + i]:
            e, k = SD[a + i]
            j = i + 1
            while j < n and SY[a + j]:
                e2, k2 = SD[a + j]
                if e2 is not e or k2 != k + j - i:
                    break
                j += 1
            if isc(e):
                raise EngineError('concrete overlay')
            parts.append((extract(e, 8 * k, 8 * (j - i)), 8 * (j - i)))
            i = j
        else:
            j = i + 1
            while j < n and not SY[a + j]:
                j += 1
            parts.append((int.from_bytes(M[a + i:a + j], 'little'), 8 * (j - i)))
            i = j
    return concat(parts)


def sstore(a, e, n):
    for i in range(n):
        SD[a + i] = (e, i)
    SY[a:a + n] = b'\1' * n


def ld8(a):
    if a.__class__ is not int or a < LOW:
        a = ckaddr(a)
    if find(1, a, a + 8) < 0:
        try:
            return upQ(M, a)[0]
        except struct.error:
            raise PathEnd('segv', hex(a))
    return sload(a, 8)


def ld4(a):
    if a.__class__ is not int or a < LOW:
        a = ckaddr(a)
    if find(1, a, a + 4) < 0:
        try:
            return upI(M, a)[0]
        except struct.error:
            raise PathEnd('segv', hex(a))
    return sload(a, 4)


def ld2(a):
    if a.__class__ is not int or a < LOW:
        a = ckaddr(a)
    if find(1, a, a + 2) < 0:
        return upH(M, a)[0]
    return sload(a, 2)


def ld1(a):
    if a.__class__ is not int or a < LOW:
        a = ckaddr(a)
    try:
        if SY[a]:
            return sload(a, 1)
        return M[a]
    except IndexError:
        raise PathEnd('segv', hex(a))


def ldn(a, n, w):
    a = ckaddr(a)
    if find(1, a, a + n) < 0:
        v = int.from_bytes(M[a:a + n], 'little')
        return v & msk(w)
    return trunc(sload(a, n), w)


def ldf(a):
    if a.__class__ is not int or a < LOW:
        a = ckaddr(a)
    if find(1, a, a + 8) < 0:
        try:
            return upD(M, a)[0]
        except struct.error:
            raise PathEnd('segv', hex(a))
    return frombits(sload(a, 8))


def ldf32(a):
    a = ckaddr(a)
    if find(1, a, a + 4) >= 0:
        raise EngineError('symbolic f32')
    return struct.unpack_from('<f', M, a)[0]


def st8(a, v):
    if a.__class__ is not int or a < LOW:
        a = ckaddr(a)
    if v.__class__ is int:
        try:
            pkQ(M, a, v)
        except struct.error:
            raise PathEnd('segv', hex(a))
        if find(1, a, a + 8) >= 0:
            SY[a:a + 8] = Z8
    elif v.__class__ is E:
        sstore(a, v, 8)
    else:
        st8(a, int(v))


def st4(a, v):
    if a.__class__ is not int or a < LOW:
        a = ckaddr(a)
    if v.__class__ is int:
        pkI(M, a, v)
        if find(1, a, a + 4) >= 0:
            SY[a:a + 4] = Z4
    elif v.__class__ is E:
        sstore(a, v, 4)
    else:
        st4(a, int(v))


def st2(a, v):
    if a.__class__ is not int or a < LOW:
        a = ckaddr(a)
    if v.__class__ is int:
        pkH(M, a, v)
        SY[a:a + 2] = Z2
    elif v.__class__ is E:
        sstore(a, v, 2)
    else:
        st2(a, int(v))


def st1(a, v):
    if a.__class__ is not int or a < LOW:
        a = ckaddr(a)
    if v.__class__ is E:
        SD[a] = (v, 0)
        SY[a] = 1
    else:
        M[a] = v
        SY[a] = 0


def stn(a, v, n, w):
    a = ckaddr(a)
    if v.__class__ is E:
        v = zext(v, w, 8 * n) if w != 8 * n else v
        if v.w == 1:
            v = mkbyte(v)
        sstore(a, v, n)
        return
    M[a:a + n] = int(v).to_bytes(n, 'little')
    SY[a:a + n] = bytes(n)


def mkbyte(b):
    return zext(b, 1, 8)


def stf(a, v):
    if a.__class__ is not int or a < LOW:
        a = ckaddr(a)
    if v.__class__ is float:
        try:
            pkD(M, a, v)
        except struct.error:
            raise PathEnd('segv', hex(a))
        if find(1, a, a + 8) >= 0:
            SY[a:a + 8] = Z8
    else:
        e = fbits(v)
        if isc(e):
            st8(a, int(e))
        else:
            sstore(a, e, 8)


def stf32(a, v):
    a = ckaddr(a)
    if not isf(v):
        raise EngineError('symbolic f32')
    struct.pack_into('<f', M, a, v)
    SY[a:a + 4] = Z4


def ldty(a, t):
    if t == 'ptr':
        return ld8(a)
    if t[0] == 'i':
        return ldn(a, (t[1] + 7) // 8, t[1])
    if t == ('f', 64):
        return ldf(a)
    if t == ('f', 32):
        return ldf32(a)
    return ldagg(a, t)


def stty(a, v, t):
    if t == 'ptr':
        st8(a, v)
    elif t[0] == 'i':
        stn(a, v, (t[1] + 7) // 8, t[1])
    elif t == ('f', 64):
        stf(a, v)
    elif t == ('f', 32):
        stf32(a, v)
    else:
        stagg(a, v, t)


def ldagg(a, t):
    a = ckaddr(a)
    if t[0] in 'av':
        if t[0] == 'v' and t[2] == ('i', 1):
            v = ldn(a, (t[1] + 7) // 8, t[1])
            return tuple([extract(v, i, 1) for i in range(t[1])])
        s = mod.size(t[2])
        return tuple([ldty(a + i * s, t[2]) for i in range(t[1])])
    off, _ = mod.slayout(t)
    return tuple([ldty(a + o, x) for o, x in zip(off, t[1])])


def stagg(a, v, t):
    a = ckaddr(a)
    if t[0] in 'av':
        s = mod.size(t[2])
        for i in range(t[1]):
            stty(a + i * s, v[i], t[2])
        return
    off, _ = mod.slayout(t)
    for o, x, y in zip(off, t[1], v):
        stty(a + o, y, x)


def alloca(n, al):
    p = SP[0]
    if al > 16:
        p = (p + al - 1) // al * al
    n = conc(n)
    SP[0] = p + ((n + 15) & ~15)
    if SP[0] > 0x4000000:
        raise PathEnd('segv', 'stack overflow')
    return p


def byval(a, n):
    p = alloca(n, 16)
    memcpy(p, a, n)
    return p


def memcpy(d, s, n):
    n = conc(n)
    if n == 0:
        return
    d = ckaddr(d)
    s = ckaddr(s)
    M[d:d + n] = M[s:s + n]
    if find(1, s, s + n) >= 0:
        fl = SY[s:s + n]
        items = []
        i = fl.find(1)
        while i >= 0:
            items.append((i, SD[s + i]))
            i = fl.find(1, i + 1)
        for i, x in items:
            SD[d + i] = x
        SY[d:d + n] = fl
    elif find(1, d, d + n) >= 0:
        SY[d:d + n] = bytes(n)


def memset(d, v, n):
    n = conc(n)
    if n == 0:
        return
    d = ckaddr(d)
    if isc(v):
        M[d:d + n] = bytes([int(v)]) * n
        SY[d:d + n] = bytes(n)
    else:
        for i in range(n):
            st1(d + i, v)


def malloc(n, al=16):
    n = conc(n)
    if n > SIZE // 2:
        return 0
    p = (HEAP[0] + al - 1) // al * al
    HEAP[0] = p + ((n + 15) & ~15) + 16
    if HEAP[0] > SIZE - 4096:
        raise EngineError('heap exhausted')
    SIZES[p] = n
    return p


def calloc(n, m):
    return malloc(conc(n) * conc(m))


def realloc(p, n):
    if p == 0:
        return malloc(n)
    n = conc(n)
    old = SIZES[p]
    if n <= old:
        return p
    q = malloc(n)
    memcpy(q, p, old)
    return q


def free(p):
    return None


def posix_memalign(pp, al, n):
    st8(pp, malloc(n, max(conc(al), 16)))
    return 0


def cmp_eq(a, b, n):
    """symbolic equality of two memory ranges, in 8-byte chunks"""
    r = True
    i = 0
    while i < n:
        k = min(8, n - i)
        x = sload(a + i, k)
        y = sload(b + i, k)
        r = land(r, eq(x, y, 8 * k))
        if r is False:
            return False
        i += k
    return r


def bcmp(a, b, n):
    n = conc(n)
    if n == 0:
        return 0
    a = ckaddr(a)
    b = ckaddr(b)
    if find(1, a, a + n) < 0 and find(1, b, b + n) < 0:
        return 0 if M[a:a + n] == M[b:b + n] else 1
    return ite(cmp_eq(a, b, n), 0, 1, 32)


def memcmp(a, b, n):
    n = conc(n)
    if n == 0:
        return 0
    a = ckaddr(a)
    b = ckaddr(b)
    if find(1, a, a + n) < 0 and find(1, b, b + n) < 0:
        x, y = M[a:a + n], M[b:b + n]
        return 0 if x == y else (1 if x > y else 0xffffffff)
    r = 0
    for i in range(n - 1, -1, -1):
        x, y = ld1(a + i), ld1(b + i)
        r = ite(eq(x, y, 8), r, ite(ult(x, y, 8), 0xffffffff, 1, 32), 32)
    return r


def strlen(a):
    a = ckaddr(a)
    i = 0
    while True:
        c = ld1(a + i)
        if conc(c) == 0:
            return i
        i += 1


def memchr(a, c, n):
    n = conc(n)
    c = conc(c) & 255
    for i in range(n):
        if conc(ld1(a + i)) == c:
            return a + i
    return 0


def insval(v, x, idx):
    if len(idx) == 1:
        l = list(v)
        l[conc(idx[0])] = x
        return tuple(l)
    l = list(v)
    l[idx[0]] = insval(v[idx[0]], x, idx[1:])
    return tuple(l)


def shuffle(a, b, m):
    c = a + b
    return tuple([c[i] for i in m])


def sel(c, a, b, w, k):
    if isc(c):
        return a if c else b
    if k == 'f':
        return fite(c, a, b)
    return ite(c, a, b, w)


def selagg(c, a, b, t):
    return a if c else b


def tobits(v, t):
    if t == 'ptr':
        return v, 64
    if t[0] == 'i':
        return v, t[1]
    if t == ('f', 64):
        return fbits(v), 64
    if t[0] == 'v':
        parts = []
        for x in v:
            parts.append(tobits(x, t[2]))
        return concat([(int(x) if isc(x) else x, w) for x, w in parts]), sum(w for _, w in parts)
    raise EngineError('tobits %r' % (t,))


def ofbits(v, t):
    if t == 'ptr' or t[0] == 'i':
        return v
    if t == ('f', 64):
        return frombits(v)
    if t[0] == 'v':
        w = ir.tw(t[2])
        return tuple([ofbits(extract(v, i * w, w), t[2]) for i in range(t[1])])
    raise EngineError('ofbits %r' % (t,))


def bitcast(v, t, t2):
    b, w = tobits(v, t)
    return ofbits(b, t2)


def atomicrmw(op, a, v, w):
    n = w // 8
    o = ldn(a, n, w)
    r = {'xchg': lambda: v, 'add': lambda: add(o, v, w), 'sub': lambda: sub(o, v, w),
         'or': lambda: o | v, 'and': lambda: o & v, 'xor': lambda: o ^ v,
         'umax': lambda: x_umax(o, v, w), 'umin': lambda: x_umin(o, v, w)}[op]()
    stn(a, r, n, w)
    return o


def cmpxchg(a, c, n, w):
    o = ldn(a, w // 8, w)
    if o == c:
        stn(a, n, w // 8, w)
        return (o, 1)
    return (o, 0)


def swsel(v, mp, w, default):
    if v.__class__ is int or v.__class__ is bool:
        return mp.get(int(v), default)
    # group by target: one decision per distinct target
    groups = {}
    for c, g in mp.items():
        groups.setdefault(g, []).append(c)
    for g, cs in groups.items():
        cond = False
        for c in cs:
            cond = lor(cond, eq(v, c, w))
        if cond:
            return g
    return default


# ---- intrinsics ------------------------------------------------------------------------------
def x_umax(a, b, w): return ite(ult(a, b, w), b, a, w)
def x_umin(a, b, w): return ite(ult(a, b, w), a, b, w)
def x_smax(a, b, w): return ite(slt(a, b, w), b, a, w)
def x_smin(a, b, w): return ite(slt(a, b, w), a, b, w)


def x_uadd_with_overflow(a, b, w):
    r = add(a, b, w)
    if isc(a) and isc(b):
        return (r, 1 if int(a) + int(b) > msk(w) else 0)
    if rng(a)[1] + rng(b)[1] <= msk(w):
        return (r, 0)
    return (r, ult(r, a, w))


def x_usub_with_overflow(a, b, w):
    return (sub(a, b, w), ult(a, b, w))


def x_umul_with_overflow(a, b, w):
    r = mul(a, b, w)
    if isc(a) and isc(b):
        return (r, 1 if int(a) * int(b) > msk(w) else 0)
    if rng(a)[1] * rng(b)[1] <= msk(w):
        return (r, 0)
    wide = mul(zext(a, w, 2 * w), zext(b, w, 2 * w), 2 * w)
    return (r, ult(msk(w), wide, 2 * w))


def x_sadd_with_overflow(a, b, w):
    r = add(a, b, w)
    sa, sb, sr = slt(a, 0, w), slt(b, 0, w), slt(r, 0, w)
    return (r, land(eq(sa, sb, 1), lnot(eq(sa, sr, 1))))


def x_ssub_with_overflow(a, b, w):
    r = sub(a, b, w)
    sa, sb, sr = slt(a, 0, w), slt(b, 0, w), slt(r, 0, w)
    return (r, land(lnot(eq(sa, sb, 1)), lnot(eq(sa, sr, 1))))


def x_smul_with_overflow(a, b, w):
    r = mul(a, b, w)
    if isc(a) and isc(b):
        p = X.sgn(int(a), w) * X.sgn(int(b), w)
        return (r, 0 if -(1 << (w - 1)) <= p < 1 << (w - 1) else 1)
    wide = mul(sext(a, w, 2 * w), sext(b, w, 2 * w), 2 * w)
    return (r, lnot(eq(wide, sext(r, w, 2 * w), 2 * w)))


def x_uadd_sat(a, b, w):
    r, o = x_uadd_with_overflow(a, b, w)
    return ite(o, msk(w), r, w)


def x_usub_sat(a, b, w):
    return ite(ult(a, b, w), 0, sub(a, b, w), w)


def x_fshl(a, b, c, w):
    c = conc(c) % w
    if c == 0:
        return a
    return shl(a, c, w) | lshr(b, w - c, w)


def x_fshr(a, b, c, w):
    c = conc(c) % w
    if c == 0:
        return b
    return shl(a, w - c, w) | lshr(b, c, w)


def x_bswap(a, w):
    return concat([(extract(a, w - 8 - i, 8), 8) for i in range(0, w, 8)]) if not isc(a) else \
        int.from_bytes(int(a).to_bytes(w // 8, 'little'), 'big')


def x_bitreverse(a, w):
    a = conc(a)
    return int(bin(a)[2:].rjust(w, '0')[::-1], 2)


def x_ctpop(a, w):
    if isc(a):
        return bin(int(a)).count('1')
    r = 0
    for i in range(w):
        r = add(r, zext(extract(a, i, 1), 1, w), w)
    return r


def x_cttz(a, z, w):
    if isc(a):
        a = int(a)
        return w if a == 0 else (a & -a).bit_length() - 1
    r = w
    for i in range(w - 1, -1, -1):
        r = ite(extract(a, i, 1), i, r, w)
    return r


def x_ctlz(a, z, w):
    if isc(a):
        return w - int(a).bit_length()
    r = w
    for i in range(w):
        r = ite(extract(a, i, 1), w - 1 - i, r, w)
    return r


def x_abs(a, p, w):
    return ite(slt(a, 0, w), sub(0, a, w), a, w)


def x_ucmp(a, b, w, rw):
    return ite(ult(a, b, w), msk(rw), ite(eq(a, b, w), 0, 1, rw), rw)


def x_scmp(a, b, w, rw):
    return ite(slt(a, b, w), msk(rw), ite(eq(a, b, w), 0, 1, rw), rw)


def x_load_relative(p, off, w):
    a = (p + off) & msk(64)
    d = ld4(a)
    return (p + sext(d, 32, 64)) & msk(64)


def x_x86_sse2_pmovmskb_128(v, w):
    return concat([(extract(x, 7, 1), 1) for x in v] + [(0, 16)])


def x_vector_reduce_or(v, w):
    r = v[0]
    for x in v[1:]:
        r = r | x
    return r


def x_vector_reduce_and(v, w):
    r = v[0]
    for x in v[1:]:
        r = r & x
    return r


def x_vector_reduce_add(v, w):
    n = w // len(v)
    r = v[0]
    for x in v[1:]:
        r = add(r, x, n)
    return r


def x_fabs(a, w): return X.fabs_(a)
def x_sqrt(a, w): return X.fsqrt(a)
def x_minimumnum(a, b, w): return X.fmin(a, b)
def x_maximumnum(a, b, w): return X.fmax(a, b)
x_minnum, x_maxnum = x_minimumnum, x_maximumnum
def x_copysign(a, b, w): return X.fcopysign(a, b)
def x_floor(a, w): return X.ffloor(a)
def x_ceil(a, w): return -X.ffloor(-a)


def x_trunc(a, w):
    if isf(a):
        return float(math.trunc(a)) if math.isfinite(a) else a
    return X.fite(X.fsign(a), -X.ffloor(-a), X.ffloor(a))


def x_round(a, w): return X.fround(a)


def x_fma(a, b, c, w):
    if isf(a) and isf(b) and isf(c):
        from fractions import Fraction
        if all(map(math.isfinite, (a, b, c))):
            return float(Fraction(a) * Fraction(b) + Fraction(c))
        return a * b + c
    return X.mkF('uf:fma', None, a, b, c)


def x_fmuladd(a, b, c, w): return a * b + c


def x_is_fpclass(a, mask, w):
    mask = conc(mask)
    if isf(a):
        neg = X.f2b(a) >> 63
        if a != a:
            return 1 if mask & 3 else 0
        if math.isinf(a):
            bit = 4 if neg else 512
        elif a == 0:
            bit = 32 if neg else 64
        elif abs(a) < 2.2250738585072014e-308:
            bit = 16 if neg else 128
        else:
            bit = 8 if neg else 256
        return 1 if mask & bit else 0
    r = False
    nan = X.fnan(a)
    neg = X.fsign(a)
    ab = X.fabs_(a)
    inf = fcmp('oeq', ab, math.inf)
    zero = fcmp('oeq', a, 0.0)
    sub_ = land(fcmp('olt', ab, 2.2250738585072014e-308), lnot(zero))
    norm = land(fcmp('ole', 2.2250738585072014e-308, ab), fcmp('olt', ab, math.inf))
    if mask & 3:
        r = lor(r, nan)
    for cond, bp, bn in ((inf, 512, 4), (zero, 64, 32), (sub_, 128, 16), (norm, 256, 8)):
        if mask & bp and mask & bn:
            r = lor(r, cond)
        elif mask & bp:
            r = lor(r, land(cond, lnot(neg)))
        elif mask & bn:
            r = lor(r, land(cond, neg))
    return r


def fptoint(a, w, signed):
    if isf(a):
        if a != a:
            return 0
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if a <= lo:
            return lo & msk(w)
        if a >= hi:
            return hi
        return int(a) & msk(w)
    return X.mkE('f2s' if signed else 'f2u', w, a)


def x_fptosi_sat(a, w, rw): return fptoint(a, rw, True)
def x_fptoui_sat(a, w, rw): return fptoint(a, rw, False)


def f32(x):
    if not isf(x):
        raise EngineError('symbolic f32')
    return struct.unpack('<f', struct.pack('<f', x))[0]


def f32op(op, a, b):
    return f32({'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: fdiv(a, b)}[op]())


def frem(a, b):
    if isf(a) and isf(b):
        return math.fmod(a, b)
    raise EngineError('symbolic frem')


TWO = {'sin': (-1.0, 1.0), 'cos': (-1.0, 1.0), 'acos': (0.0, 3.2), 'asin': (-1.6, 1.6), 'atan': (-1.6, 1.6)}


def unary(name, fn):
    def f(a, w=64):
        if isf(a):
            try:
                return fn(a)
            except (ValueError, OverflowError):
                return math.nan
        p = a.iv
        if name in ('acos', 'asin') and not (p and p[0] >= -1 and p[1] <= 1):
            return X.fuf(name, None, a)
        return X.fuf(name, TWO.get(name) if p else None, a)
    return f


def atan2(a, b, w=64):
    if isf(a) and isf(b):
        return math.atan2(a, b)
    return X.fuf('atan2', (-3.2, 3.2) if X.iv(a) and X.iv(b) else None, a, b)


def powf(a, b, w=64):
    if isf(a) and isf(b):
        try:
            return math.pow(a, b)
        except (ValueError, OverflowError):
            return math.nan
    if isf(b) and b in (2.0, 3.0, 4.0, 5.0):
        # correctly rounded power is within the rounding of repeated products; keep it symbolic
        p = X.iv(a)
        r = None
        if p:
            c = [x ** int(b) for x in p]
            lo, hi = min(c), max(c)
            if b in (2.0, 4.0) and p[0] <= 0 <= p[1]:
                lo = 0.0
            r = X._out(lo, hi)
        return X.mkF('powc', r, a, b)
    return X.fuf('pow', None, a, b)


def x_powi(a, n, w=64):
    n = conc(n)
    n = X.sgn(n, 32)
    if isf(a):
        try:
            return a ** n
        except (ZeroDivisionError, OverflowError):
            return math.nan
    if n < 0:
        return fdiv(1.0, x_powi(a, -n & 0xffffffff))
    r = 1.0
    for _ in range(n):
        r = r * a
    return r


def sincos(a, ps, pc):
    stf(ps, unary('sin', math.sin)(a))
    stf(pc, unary('cos', math.cos)(a))


def fail(kind):
    def f(*a):
        raise PathEnd(kind)
    return f


def unsupported(m):
    raise EngineError('unsupported: ' + m)


def unreachable():
    raise PathEnd('unreachable')


def do_abort(m='abort'):
    raise PathEnd('panic', m)


def inline_asm(m):
    if 'syscall' in m:
        raise EngineError('asm syscall')
    return 0


def icall(a):
    if a.__class__ is not int:
        a = conc(a)
    i = (a - ir.Module.FBASE) >> 4
    if a < ir.Module.FBASE or i >= len(mod.names):
        raise PathEnd('segv', 'call %x' % a)
    return ns['G%d' % i]


EXT = {
    'malloc': malloc, 'calloc': calloc, 'realloc': realloc, 'free': free, 'posix_memalign': posix_memalign,
    'bcmp': bcmp, 'memcmp': memcmp, 'strlen': strlen, 'memcpy': lambda d, s, n: (memcpy(d, s, n), d)[1],
    'memmove': lambda d, s, n: (memcpy(d, s, n), d)[1], 'memset': lambda d, v, n: (memset(d, v & 255, n), d)[1],
    'memchr': memchr, 'sqrt': X.fsqrt, 'fabs': X.fabs_,
    'sin': unary('sin', math.sin), 'cos': unary('cos', math.cos), 'acos': unary('acos', math.acos),
    'asin': unary('asin', math.asin), 'tan': unary('tan', math.tan), 'atan': unary('atan', math.atan),
    'exp': unary('exp', math.exp), 'log': unary('log', math.log), 'atan2': atan2, 'pow': powf, 'sincos': sincos,
    'abort': fail('panic'), 'pthread_self': lambda: 7, 'getenv': lambda a: 0, 'sysconf': lambda a: 4096,
    '__xpg_strerror_r': lambda e, b, n: (memset(b, 0, 1), 0)[1], 'getpid': lambda: 77,
    '__cxa_thread_atexit_impl': lambda a, b, c: 0, 'gnu_get_libc_version': lambda: 0,
    'pthread_key_create': lambda a, b: (st4(a, 1), 0)[1], 'pthread_setspecific': lambda a, b: 0,
    'pthread_getspecific': lambda a: 0,
}
for _n, _f in (('sin', math.sin), ('cos', math.cos), ('exp', math.exp), ('log', math.log), ('acos', math.acos),
               ('asin', math.asin), ('tan', math.tan), ('atan', math.atan)):
    globals()['x_' + _n] = unary(_n, _f)
x_pow = powf
x_atan2 = atan2


def syscall(n, *a):
    n = conc(n)
    if n == 318:       # getrandom
        memset(a[0], 5, a[1])
        return a[1]
    if n == 202:       # futex
        return 0
    if n == 186:
        return 77
    raise EngineError('syscall %d' % n)


EXT['syscall'] = syscall

import re as _re
PANIC = _re.compile(r'4core9panicking|3std9panicking(?!.*panic_count)|rust_begin_unwind|rust_panic|handle_alloc_error|'
                    r'5alloc7raw_vec.*capacity_overflow|__rust_start_panic|4core.*13unwrap_failed|4core.*13expect_failed')
NAN = math.nan
INF = math.inf


def load_module(path, extra):
    """read the IR and set up the address space; returns the name space of translated functions"""
    global mod
    import codegen_stats as cs
    text = open(path, encoding='utf8', errors='surrogateescape').read()
    mod = ir.Module(text)
    ext = dict(EXT)
    ext.update(extra)
    mod.have_ext = lambda g: g[1:] in ext
    end, parsed = mod.layout_globals(GLOB)
    if end > 0x1000000:
        raise EngineError('globals too large')
    for a, t, p in parsed:
        if p.peek() is None or p.peek() == ',':
            continue
        v = p.const(t)
        mod.initial(t, v, M, a)
    for k, v in globals().items():
        if not k.startswith('__'):
            ns.setdefault(k, v)
    for f, i in mod.fidx.items():
        nm = f[1:].strip('"')
        g = 'G%d' % i
        if PANIC.search(nm):
            ns[g] = panic_fn(nm)
        elif f in mod.funcs and nm not in ext:
            ns[g] = lazy(f, g, cs)
        elif nm in ext:
            ns[g] = ext[nm]
        else:
            ns[g] = missing(nm)
    return ns


def panic_fn(nm):
    def f(*a):
        raise PathEnd('panic', nm)
    return f


def missing(nm):
    def f(*a):
        raise EngineError('external function ' + nm)
    return f


def lazy(f, g, cs):
    def stub(*a):
        gen = mod.function(f)
        src = gen.python(g)
        cs.functions.append(f[1:])
        cs.blocks += len(gen.order)
        cs.instrs += sum(len(b) for b in gen.blocks.values())
        np_ = len(gen.params)
        code = compile(src, '<%s>' % f, 'exec')
        exec(code, ns)
        real = ns[g]
        if len(a) != np_ or f[1:] in ('fcntl', 'open', 'open64', 'ioctl', 'prctl'):
            ns[g] = stub2 = pad(real, np_)
            return stub2(*a)
        return real(*a)
    stub.fname = f
    return stub


def pad(real, n):
    def f(*a):
        a = list(a[:n])
        while len(a) < n:
            a.append(0)
        return real(*a)
    return f
