"""Parser for textual LLVM IR and translation of functions to Python code (one Python function per
LLVM function, compiled on first call).  Operators on concrete values are plain Python; symbolic
operands (expr.E / expr.F) take over through operator overloading."""
import re
import struct

TOK = re.compile(r'''
  \s+ | ;[^\n]* | /\*.*?\*/ |
  (?P<str>c?"[^"]*") |
  (?P<loc>%(?:"[^"]*"|[-\w.$]+)) |
  (?P<glob>@(?:"[^"]*"|[-\w.$]+)) |
  (?P<md>!(?:"[^"]*"|[-\w.$]*)) |
  (?P<num>f?0x[0-9A-Fa-f]+|-?\d+\.\d*(?:e[+-]?\d+)?|-?\d+(?![\w.])|[+-](?:inf|q?nan|snan)(?:\(0x[0-9a-fA-F]+\))?) |
  (?P<word>[A-Za-z_$][\w.$-]*|\#\d+) |
  (?P<p>\.\.\.|[\[\]{}()<>,=*:|])
''', re.X)


class Unsupported(Exception):
    pass


def tokenize(s):
    out = []
    i, n = 0, len(s)
    m = TOK.match
    while i < n:
        k = m(s, i)
        if not k:
            raise Unsupported('token %r' % s[i:i + 40])
        i = k.end()
        if k.lastgroup:
            out.append(k.group(k.lastgroup))
    return out


# types: ('i',n) ('f',64) ('f',32) 'ptr' 'void' ('a',n,T) ('v',n,T) ('s',[T],packed) 'label' 'metadata'
class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %r got %r in %s' % (x, y, ' '.join(self.t)[:200]))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            t = 'ptr'
        elif x == 'void':
            t = 'void'
        elif x == 'double':
            t = ('f', 64)
        elif x == 'float':
            t = ('f', 32)
        elif x in ('label', 'metadata', 'token', 'opaque'):
            t = x
        elif x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif x == '<' and self.peek() == '{':
            self.next()
            t = self.struct(True)
            self.expect('>')
        elif x == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = ('v', n, e)
        elif x == '{':
            t = self.struct(False)
        elif x[0] == '%':
            t = self.m.types[x]
        elif x in ('half', 'bfloat', 'x86_fp80', 'fp128'):
            raise Unsupported('type ' + x)
        else:
            raise Unsupported('type %r in %s' % (x, ' '.join(self.t)[:200]))
        if self.peek() == '(' and t in ('void',) or (self.peek() == '(' and self.peek(1) in ('...', 'ptr', ')') and False):
            pass
        return t

    def struct(self, packed):
        fs = []
        if self.eat('}'):
            return ('s', tuple(fs), packed)
        while True:
            fs.append(self.type())
            if self.eat('}'):
                break
            self.expect(',')
        return ('s', tuple(fs), packed)

    VAL = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none', 'getelementptr', 'inttoptr',
           'ptrtoint', 'bitcast', 'trunc', 'add', 'sub', 'xor', 'splat', 'blockaddress', 'ptrtoaddr', 'mul',
           'addrspacecast', 'dso_local_equivalent', 'no_cfi'}

    def attrs(self):
        """skip parameter attributes; returns byval type if any"""
        bv = None
        while True:
            x = self.peek()
            if x is None or x in self.VAL or x in (',', ')') or x[0] in '%@<[{!c"' and not (x[0] == 'c' and x[1:2] != '"') \
                    and not (x[0] == '"' and True) or x[0] in '-+' or x[0].isdigit():
                if x is not None and x[0] == '"':
                    self.next()
                    if self.eat('='):
                        self.next()
                    continue
                return bv
            if re.match(r'f0x', x):
                return bv
            self.next()
            if x == 'align' and self.peek() != '(':
                self.next()
                continue
            if self.peek() == '(':
                if x == 'byval':
                    j = self.i
                    self.next()
                    bv = self.type()
                    self.i = j
                self.skip_parens()

    # ---- values -----------------------------------------------------------------------------
    def const(self, t):
        """python value of a constant of type t"""
        x = self.next()
        if x in ('undef', 'poison', 'zeroinitializer', 'null', 'none'):
            return zero(t)
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        if x[0] == '@':
            return self.m.addr(x)
        if x.startswith('c"'):
            return tuple(unescape(x[2:-1]))
        if isinstance(t, tuple) and t[0] == 'f':
            return parse_float(x, t)
        if x[0] in '-0123456789':
            return int(x) & ((1 << t[1]) - 1)
        if x == 'splat':
            self.expect('(')
            et = self.type()
            v = self.const(et)
            self.expect(')')
            return tuple([v] * t[1])
        if x in '{[<':
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                v = self.elems('}')
                self.expect('>')
                return v
            return self.elems(close)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                if self.next() == 'inrange':
                    self.skip_parens()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.const('ptr')
            off = 0
            cur = bt
            first = True
            while self.eat(','):
                it = self.type()
                k = self.const(it)
                k = k - (1 << it[1]) if k >> (it[1] - 1) else k
                if first:
                    off += k * self.m.size(bt)
                    first = False
                else:
                    o, cur = self.m.field(cur, k)
                    off += o
            self.expect(')')
            return (base + off) & (2 ** 64 - 1)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'ptrtoaddr', 'addrspacecast'):
            self.expect('(')
            ft = self.type()
            v = self.const(ft)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            if tt != 'ptr' and tt[0] == 'i':
                v &= (1 << tt[1]) - 1
            return v
        if x in ('sub', 'add', 'xor', 'mul'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            ft = self.type()
            a = self.const(ft)
            self.expect(',')
            self.type()
            b = self.const(ft)
            self.expect(')')
            M = (1 << ft[1]) - 1
            return {'sub': a - b, 'add': a + b, 'xor': a ^ b, 'mul': a * b}[x] & M
        raise Unsupported('const %r in %s' % (x, ' '.join(self.t)[:200]))

    def elems(self, close):
        r = []
        if self.eat(close):
            return ()
        while True:
            t = self.type()
            r.append(self.const(t))
            if self.eat(close):
                return tuple(r)
            self.expect(',')

    def val(self, t, F):
        """python expression (string) of an operand"""
        x = self.peek()
        if x[0] == '%':
            self.next()
            return F.reg(x)
        v = self.const(t)
        return lit(v)


def lit(v):
    if v.__class__ is float:
        if v != v:
            return 'NAN'
        if v in (float('inf'), float('-inf')):
            return 'INF' if v > 0 else '(-INF)'
        return repr(v) if v >= 0 and not repr(v).startswith('-') else '(%r)' % v
    if v.__class__ is tuple:
        return '(' + ''.join(lit(e) + ',' for e in v) + ')'
    return str(int(v))


def zero(t):
    if t == 'ptr' or t[0] == 'i':
        return 0
    if t[0] == 'f':
        return 0.0
    if t[0] in 'av':
        return tuple([zero(t[2])] * t[1])
    if t[0] == 's':
        return tuple([zero(x) for x in t[1]])
    raise Unsupported('zero %r' % (t,))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf8')
            i += 1
    return bytes(out)


def parse_float(x, t):
    if x.startswith('f0x'):
        h = int(x[3:], 16)
        return struct.unpack('<d', struct.pack('<Q', h))[0] if t[1] == 64 else struct.unpack('<f', struct.pack('<I', h))[0]
    if x.startswith('0x'):
        return struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]
    if 'inf' in x:
        return float('-inf') if x[0] == '-' else float('inf')
    if 'nan' in x:
        return float('nan')
    return float(x)


class Module:
    def __init__(self, text):
        self.text = text
        self.types = {}
        self.funcs = {}       # name -> (start, end) offsets
        self.decls = set()
        self.globs = {}       # name -> (line text)
        self.gaddr = {}
        self.fidx = {}
        self.names = []
        self.weak = set()
        self.tls = set()
        self.alias = {}
        self._scan()

    def _scan(self):
        t = self.text
        for m in re.finditer(r'^(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', t, re.M):
            self.types[m.group(1)] = m.group(2)
        for m in re.finditer(r'^define [^\n]*?(@(?:"[^"]*"|[-\w.$]+))\(', t, re.M):
            end = t.index('\n}', m.start())
            self.funcs[m.group(1)] = (m.start(), end)
        for m in re.finditer(r'^declare ([^\n]*?)(@(?:"[^"]*"|[-\w.$]+))\(', t, re.M):
            self.decls.add(m.group(2))
            if 'extern_weak' in m.group(1):
                self.weak.add(m.group(2))
        for m in re.finditer(r'^(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', t, re.M):
            rest = m.group(2)
            if ' alias ' in ' ' + rest:
                a = re.findall(r'@(?:"[^"]*"|[-\w.$]+)', rest)
                self.alias[m.group(1)] = a[-1]
                continue
            self.globs[m.group(1)] = rest
        tn = dict(self.types)
        self.types = _TypeMap(self, tn)
        for i, f in enumerate(list(self.funcs) + sorted(self.decls)):
            self.fidx[f] = i
            self.names.append(f)

    FBASE = 0x10000

    def faddr(self, f):
        return self.FBASE + 16 * self.fidx[f]

    def addr(self, g):
        while g in self.alias:
            g = self.alias[g]
        if g in self.weak and not self.have_ext(g):
            return 0
        if g in self.fidx:
            return self.faddr(g)
        return self.gaddr[g]

    def have_ext(self, g):
        return False

    # ---- layout -----------------------------------------------------------------------------
    def size(self, t):
        if t == 'ptr':
            return 8
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            if n in (1, 2, 4, 8, 16):
                return n
            p = 1
            while p < n:
                p *= 2
            return p if n <= 8 else (n + 15) // 16 * 16
        if k == 'f':
            return t[1] // 8
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 'v':
            if t[2][0] == 'i' and t[2][1] == 1:
                return (t[1] + 7) // 8
            return t[1] * self.size(t[2])
        if k == 's':
            return self.slayout(t)[1]
        raise Unsupported('size %r' % (t,))

    def align(self, t):
        if t == 'ptr':
            return 8
        k = t[0]
        if k == 'i':
            return min(self.size(t), 16)
        if k == 'f':
            return t[1] // 8
        if k == 'a':
            return self.align(t[2])
        if k == 'v':
            return self.size(t)
        if k == 's':
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])

    def slayout(self, t):
        off = []
        o = 0
        for x in t[1]:
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            off.append(o)
            o += self.size(x)
        a = self.align(t)
        return off, (o + a - 1) // a * a

    def field(self, t, k):
        if t[0] in 'av':
            return k * self.size(t[2]), t[2]
        if t[0] == 's':
            return self.slayout(t)[0][k], t[1][k]
        raise Unsupported('field of %r' % (t,))

    GLOB = re.compile(r'\b(global|constant)\b')

    def layout_globals(self, base):
        """assign addresses; returns (end, [(addr, type, const tokens parser)])"""
        inits = []
        a = base
        parsed = []
        for g, rest in self.globs.items():
            m = self.GLOB.search(rest)
            if not m:
                continue
            ext = re.search(r'\b(external|extern_weak)\b', rest[:m.start()])
            body = rest[m.end():]
            p = P(self, tokenize(body))
            t = p.type()
            sz = self.size(t)
            al = re.search(r', align (\d+)', rest)
            al = max(int(al.group(1)) if al else 16, 8)
            a = (a + al - 1) // al * al
            self.gaddr[g] = a
            a += max(sz, 1)
            if not ext:
                parsed.append((self.gaddr[g], t, p))
        return a, parsed

    def initial(self, t, v, mem, a):
        if t == 'ptr' or t[0] == 'i':
            if v:
                n = self.size(t)
                mem[a:a + n] = v.to_bytes(n, 'little')
        elif t[0] == 'f':
            mem[a:a + t[1] // 8] = struct.pack('<d' if t[1] == 64 else '<f', v)
        elif t[0] in 'av':
            if t[2] == ('i', 8):
                mem[a:a + t[1]] = bytes(v)
            else:
                s = self.size(t[2])
                for i, x in enumerate(v):
                    self.initial(t[2], x, mem, a + i * s)
        elif t[0] == 's':
            off, _ = self.slayout(t)
            for o, x, y in zip(off, t[1], v):
                self.initial(x, y, mem, a + o)

    def function(self, name):
        s, e = self.funcs[name]
        return FuncGen(self, name, self.text[s:e])


class _TypeMap:
    def __init__(self, mod, d):
        self.mod, self.d, self.c = mod, d, {}

    def __getitem__(self, k):
        if k not in self.c:
            self.c[k] = P(self.mod, tokenize(self.d[k])).type()
        return self.c[k]


S63 = 1 << 63


class FuncGen:
    def __init__(self, mod, name, text):
        self.m = mod
        self.name = name
        self.regs = {}
        self.uses_stack = 'alloca ' in text
        lines = text.split('\n')
        self.parse_header(lines[0])
        self.blocks = {}
        self.order = []
        cur = None
        inst = None
        for ln in lines[1:]:
            if not ln.strip() or ln.lstrip().startswith((';', '#dbg')):
                continue
            if ln[0] not in ' ':
                m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
                lab = '%' + m.group(1)
                cur = self.blocks[lab] = []
                self.order.append(lab)
                continue
            if cur is None:
                lab = '%entry!'
                cur = self.blocks[lab] = []
                self.order.append(lab)
            if ln.startswith('  ') and not ln.startswith('   ') and ln[2:3] != ']':
                cur.append(ln)
            else:
                cur[-1] += '\n' + ln

    def parse_header(self, h):
        i = h.index(self.name + '(')
        toks = tokenize(h[i + len(self.name):])
        p = P(self.m, toks)
        p.expect('(')
        self.params = []
        self.byval = []
        if not p.eat(')'):
            while True:
                if p.peek() == '...':
                    p.next()
                    p.expect(')')
                    break
                t = p.type()
                bv = p.attrs()
                x = p.peek()
                if x and x[0] == '%':
                    p.next()
                else:
                    x = '%' + str(len(self.params))
                self.params.append(self.reg(x))
                if bv is not None:
                    self.byval.append((self.reg(x), self.m.size(bv)))
                if p.eat(')'):
                    break
                p.expect(',')

    def reg(self, x):
        r = self.regs.get(x)
        if r is None:
            r = self.regs[x] = 'v%d' % len(self.regs)
        return r

    # ---- control-flow -----------------------------------------------------------------------
    def python(self, fname):
        self.preds = {}
        self.phis = {}
        self.term = {}
        self.idx = {}
        for lab in self.order:
            body = self.blocks[lab]
            ph = []
            for ins in body:
                m = re.match(r'\s+(\S+|%"[^"]*") = phi ', ins)
                if not m:
                    break
                ph.append(self.parse_phi(ins))
            self.phis[lab] = ph
            self.term[lab] = self.parse_term(body[-1])
            for tgt in self.targets(self.term[lab]):
                self.preds.setdefault(tgt, []).append(lab)
        self.out = []
        self.emitted = set()
        self.pending = []
        # entry block inline before the loop
        entry = self.order[0]
        self.entrypoints = []
        chunks = []
        work = [entry]
        seen = {entry}
        self.idx[entry] = 0
        self.worklist = work
        self.seen = seen
        while work:
            lab = work.pop(0)
            self.out = []
            self.emit_block(lab, 0, 0)
            chunks.append((self.idx[lab], self.out))
        chunks.sort(key=lambda c: c[0])
        src = ['def %s(%s):' % (fname, ', '.join(self.params))]
        if self.uses_stack:
            src.append(' sp0 = SP[0]')
        for r, n in self.byval:
            src.append(' %s = byval(%s, %d)' % (r, r, n))
        if len(chunks) == 1 and not self.loops:
            src += [' ' + l for l in chunks[0][1]]
        else:
            src.append(' b = 0')
            src.append(' while 1:')
            self.tree(src, chunks, 2)
        return '\n'.join(src) + '\n'

    loops = False

    def tree(self, src, ch, ind):
        if len(ch) == 1:
            src += [' ' * ind + l for l in ch[0][1]]
            return
        mid = len(ch) // 2
        src.append(' ' * ind + 'if b < %d:' % ch[mid][0])
        self.tree(src, ch[:mid], ind + 1)
        src.append(' ' * ind + 'else:')
        self.tree(src, ch[mid:], ind + 1)

    def goto(self, frm, to, ind, depth):
        pad = ' ' * ind
        dst, srcs = [], []
        for r, t, inc in self.phis[to]:
            v = inc[frm]
            if v != r:
                dst.append(r)
                srcs.append(v)
        if dst:
            self.out.append('%s%s = %s' % (pad, ', '.join(dst), ', '.join(srcs)))
        if len(self.preds.get(to, [])) == 1 and depth < 14 and to not in self.seen and to not in self.emitted:
            self.emit_block(to, ind, depth + 1)
            return
        if to not in self.seen:
            self.seen.add(to)
            self.idx[to] = len(self.idx)
            self.worklist.append(to)
        self.loops = True
        self.out.append('%sb = %d' % (pad, self.idx[to]))
        self.out.append('%scontinue' % pad)

    def emit_block(self, lab, ind, depth):
        self.emitted.add(lab)
        body = self.blocks[lab]
        n = len(self.phis[lab])
        for ins in body[n:-1]:
            self.instr(ins, ind)
        kind = self.term[lab]
        pad = ' ' * ind
        k = kind[0]
        if k == 'ret':
            if self.uses_stack:
                self.out.append(pad + 'SP[0] = sp0')
            self.out.append(pad + 'return ' + kind[1])
        elif k == 'br':
            self.goto(lab, kind[1], ind, depth)
        elif k == 'cbr':
            self.out.append('%sif %s:' % (pad, kind[1]))
            self.goto(lab, kind[2], ind + 1, depth + 1)
            self.out.append('%selse:' % pad)
            self.goto(lab, kind[3], ind + 1, depth + 1)
        elif k == 'switch':
            v = kind[1]
            if len(kind[3]) > 6:
                # concrete fast path through a dict of group numbers
                groups = {}
                for c, t in kind[3]:
                    groups.setdefault(t, []).append(c)
                gl = list(groups.items())
                mp = {c: gi for gi, (t, cs) in enumerate(gl) for c in cs}
                self.out.append('%ssw = swsel(%s, %r, %d, %d)' % (pad, v, mp, kind[4], -1))
                first = True
                for gi, (t, cs) in enumerate(gl):
                    self.out.append('%s%s sw == %d:' % (pad, 'if' if first else 'elif', gi))
                    first = False
                    self.goto(lab, t, ind + 1, depth + 3)
                self.out.append('%selse:' % pad)
                self.goto(lab, kind[2], ind + 1, depth + 3)
            else:
                first = True
                for c, t in kind[3]:
                    self.out.append('%s%s %s == %d:' % (pad, 'if' if first else 'elif', v, c))
                    first = False
                    self.goto(lab, t, ind + 1, depth + 2)
                if first:
                    self.goto(lab, kind[2], ind, depth)
                else:
                    self.out.append('%selse:' % pad)
                    self.goto(lab, kind[2], ind + 1, depth + 2)
        elif k == 'invoke':
            self.instr(kind[1], ind)
            self.goto(lab, kind[2], ind, depth)
        elif k == 'unreachable':
            self.out.append(pad + 'unreachable()')
        else:
            self.out.append(pad + 'unsupported(%r)' % (kind[1],))

    def targets(self, t):
        k = t[0]
        if k == 'br':
            return [t[1]]
        if k == 'cbr':
            return [t[2], t[3]]
        if k == 'switch':
            return [t[2]] + [x for _, x in t[3]]
        if k == 'invoke':
            return [t[2]]
        return []

    def parse_phi(self, ins):
        p = P(self.m, tokenize(cutmd(ins)))
        r = self.reg(p.next())
        p.expect('=')
        p.expect('phi')
        while p.peek() in FMF:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.val(t, self)
            p.expect(',')
            lab = p.next()
            p.expect(']')
            if lab.startswith('%"'):
                pass
            inc[lab] = v
            if lab == '%' + str(0) or lab not in self.blocks:
                inc['%entry!'] = v
            if not p.eat(','):
                break
        return r, t, inc

    def parse_term(self, ins):
        s = cutmd(ins).strip()
        w = s.split(None, 1)[0]
        if w == 'ret':
            p = P(self.m, tokenize(s))
            p.next()
            t = p.type()
            return ('ret', 'None' if t == 'void' else p.val(t, self))
        if w == 'br':
            p = P(self.m, tokenize(s))
            p.next()
            t = p.type()
            if t == 'label':
                return ('br', p.next())
            c = p.val(t, self)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            if a == b:
                return ('br', a)
            return ('cbr', c, a, b)
        if w == 'switch':
            p = P(self.m, tokenize(s))
            p.next()
            t = p.type()
            v = p.val(t, self)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while not p.eat(']'):
                tt = p.type()
                c = p.const(tt)
                p.expect(',')
                p.expect('label')
                cs.append((c, p.next()))
            cs = [(c, l) for c, l in cs if l != d] if len(cs) <= 6 else cs
            return ('switch', v, d, cs, t[1])
        if w == 'unreachable':
            return ('unreachable',)
        if ' invoke ' in ' ' + s:
            m = re.search(r'\n\s+to label (%(?:"[^"]*"|[-\w.$]+)) unwind', s)
            return ('invoke', '  ' + s[:m.start()].replace('invoke ', 'call ', 1), m.group(1))
        return ('unsupported', s[:100])

    # ---- instructions -----------------------------------------------------------------------
    def instr(self, ins, ind):
        pad = ' ' * ind
        try:
            r = self.instr1(cutmd(ins))
        except Unsupported as ex:
            r = 'unsupported(%r)' % (str(ex)[:200],)
        except (IndexError, KeyError, ValueError) as ex:
            r = 'unsupported(%r)' % ('parse %s: %r' % (ins.strip()[:150], ex),)
        if r:
            for l in r.split('\n'):
                self.out.append(pad + l)

    def instr1(self, ins):
        s = ins.strip()
        if 'call ' in s and ('@llvm.lifetime' in s or '@llvm.experimental.noalias' in s or '@llvm.dbg' in s
                             or '@llvm.assume' in s):
            return None
        p = P(self.m, tokenize(s))
        d = None
        if p.peek(1) == '=':
            d = self.reg(p.next())
            p.next()
        op = p.next()
        f = getattr(self, 'i_' + op, None)
        if op in BIN:
            return self.binop(op, d, p)
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
            f = self.i_call
        if f is None:
            raise Unsupported('instr ' + op)
        return f(d, p)

    def two(self, p):
        t = p.type()
        a = p.val(t, self)
        p.expect(',')
        b = p.val(t, self)
        return t, a, b

    def binop(self, op, d, p):
        while p.peek() in FLAGS or p.peek() in FMF:
            p.next()
        t, a, b = self.two(p)
        if t[0] == 'v':
            return '%s = tuple([%s for x, y in zip(%s, %s)])' % (d, self.bexpr(op, t[2], 'x', 'y'), a, b)
        return '%s = %s' % (d, self.bexpr(op, t, a, b))

    def bexpr(self, op, t, a, b):
        if op[0] == 'f':
            if t[1] == 32:
                return 'f32op(%r, %s, %s)' % (op, a, b)
            if op == 'fdiv':
                return 'fdiv(%s, %s)' % (a, b)
            if op == 'frem':
                return 'frem(%s, %s)' % (a, b)
            return '%s %s %s' % (a, {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op], b)
        w = t[1]
        M = (1 << w) - 1
        if op in ('add', 'sub', 'mul'):
            o = {'add': '+', 'sub': '-', 'mul': '*'}[op]
            if w == 1:
                return '(%s ^ %s) & 1' % (a, b) if op != 'mul' else '%s & %s' % (a, b)
            return '(%s %s %s) & %d' % (a, o, b, M)
        if op in ('and', 'or', 'xor'):
            return '%s %s %s' % (a, {'and': '&', 'or': '|', 'xor': '^'}[op], b)
        if op == 'udiv':
            return '%s // %s' % (a, b)
        if op == 'urem':
            return '%s %% %s' % (a, b)
        if op == 'lshr':
            if b.isdigit():
                return '%s >> %s' % (a, b)
            return 'lshr(%s, %s, %d)' % (a, b, w)
        if op == 'shl':
            if b.isdigit():
                return '(%s << %s) & %d' % (a, b, M) if int(b) < w else '0'
            return 'shl(%s, %s, %d)' % (a, b, w)
        return '%s(%s, %s, %d)' % (op, a, b, w)

    def i_fneg(self, d, p):
        while p.peek() in FMF:
            p.next()
        t = p.type()
        return '%s = -%s' % (d, p.val(t, self))

    def i_icmp(self, d, p):
        if p.peek() == 'samesign':
            p.next()
        pr = p.next()
        if pr == 'samesign':
            pr = p.next()
        t, a, b = self.two(p)
        if t[0] == 'v':
            return '%s = tuple([%s for x, y in zip(%s, %s)])' % (d, self.icmp(pr, t[2], 'x', 'y'), a, b)
        return '%s = %s' % (d, self.icmp(pr, t, a, b))

    def icmp(self, pr, t, a, b):
        w = 64 if t == 'ptr' else t[1]
        o = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>=',
             'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pr]
        if pr[0] == 's':
            S = 1 << (w - 1)

            def bias(x):
                return str(int(x) ^ S) if x.isdigit() else '(%s ^ %d)' % (x, S)
            return '%s %s %s' % (bias(a), o, bias(b))
        return '%s %s %s' % (a, o, b)

    def i_fcmp(self, d, p):
        while p.peek() in FMF:
            p.next()
        pr = p.next()
        t, a, b = self.two(p)
        if t[0] == 'v':
            return '%s = tuple([fcmp(%r, x, y) for x, y in zip(%s, %s)])' % (d, pr, a, b)
        if pr == 'true':
            return '%s = 1' % d
        if pr == 'false':
            return '%s = 0' % d
        o = {'oeq': '==', 'olt': '<', 'ole': '<=', 'ogt': '>', 'oge': '>=', 'une': '!='}.get(pr)
        if o:
            return '%s = %s %s %s' % (d, a, o, b)
        return '%s = fcmp(%r, %s, %s)' % (d, pr, a, b)

    def cast(self, p):
        while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in FMF:
            p.next()
        t = p.type()
        v = p.val(t, self)
        p.expect('to')
        return t, v, p.type()

    def vcast(self, d, t, v, t2, fn):
        if t[0] == 'v':
            return '%s = tuple([%s for x in %s])' % (d, fn('x', t[2], t2[2]), v)
        return '%s = %s' % (d, fn(v, t, t2))

    def i_trunc(self, d, p):
        t, v, t2 = self.cast(p)
        return self.vcast(d, t, v, t2, lambda x, a, b: '%s & %d if %s.__class__ is int else trunc(%s, %d)' % (
            x, (1 << b[1]) - 1, x, x, b[1]) if not x.isdigit() else str(int(x) & ((1 << b[1]) - 1)))

    def i_zext(self, d, p):
        t, v, t2 = self.cast(p)
        return self.vcast(d, t, v, t2, lambda x, a, b: '%s if %s.__class__ is int else zext(%s, %d, %d)' % (
            x, x, x, a[1], b[1]) if not x.isdigit() else x)

    def i_sext(self, d, p):
        t, v, t2 = self.cast(p)
        return self.vcast(d, t, v, t2, lambda x, a, b: 'sext(%s, %d, %d)' % (x, a[1], b[1]))

    def i_ptrtoint(self, d, p):
        t, v, t2 = self.cast(p)
        return '%s = %s' % (d, v if t2[1] == 64 else 'trunc(%s, %d)' % (v, t2[1]))

    i_ptrtoaddr = i_ptrtoint

    def i_inttoptr(self, d, p):
        t, v, t2 = self.cast(p)
        return '%s = %s' % (d, v if t[1] == 64 else 'zext(%s, %d, 64)' % (v, t[1]))

    def i_bitcast(self, d, p):
        t, v, t2 = self.cast(p)
        if t == t2 or (t == 'ptr' and t2 == 'ptr'):
            return '%s = %s' % (d, v)
        if t == ('f', 64) and t2 == ('i', 64):
            return '%s = fbits(%s)' % (d, v)
        if t == ('i', 64) and t2 == ('f', 64):
            return '%s = frombits(%s)' % (d, v)
        return '%s = bitcast(%s, %r, %r)' % (d, v, t, t2)

    def i_freeze(self, d, p):
        t = p.type()
        return '%s = %s' % (d, p.val(t, self))

    def i_sitofp(self, d, p):
        t, v, t2 = self.cast(p)
        return '%s = fromint(%s, %d, True)' % (d, v, t[1]) if t2[1] == 64 else '%s = f32(fromint(%s, %d, True))' % (d, v, t[1])

    def i_uitofp(self, d, p):
        t, v, t2 = self.cast(p)
        return '%s = fromint(%s, %d, False)' % (d, v, t[1]) if t2[1] == 64 else '%s = f32(fromint(%s, %d, False))' % (d, v, t[1])

    def i_fptosi(self, d, p):
        t, v, t2 = self.cast(p)
        return '%s = fptoint(%s, %d, True)' % (d, v, t2[1])

    def i_fptoui(self, d, p):
        t, v, t2 = self.cast(p)
        return '%s = fptoint(%s, %d, False)' % (d, v, t2[1])

    def i_fpext(self, d, p):
        t, v, t2 = self.cast(p)
        return '%s = %s' % (d, v)

    def i_fptrunc(self, d, p):
        t, v, t2 = self.cast(p)
        return '%s = f32(%s)' % (d, v)

    def i_select(self, d, p):
        while p.peek() in FMF:
            p.next()
        ct = p.type()
        c = p.val(ct, self)
        p.expect(',')
        t = p.type()
        a = p.val(t, self)
        p.expect(',')
        p.type()
        b = p.val(t, self)
        if ct[0] == 'v':
            return '%s = tuple([sel(z, x, y, %d, %r) for z, x, y in zip(%s, %s, %s)])' % (
                d, tw(t[2]), kind(t[2]), c, a, b)
        if t != 'ptr' and t[0] in 'vas':
            return '%s = selagg(%s, %s, %s, %r)' % (d, c, a, b, t)
        return '%s = (%s if %s else %s) if %s.__class__ is not E else sel(%s, %s, %s, %d, %r)' % (
            d, a, c, b, c, c, a, b, tw(t), kind(t))

    def i_alloca(self, d, p):
        if p.peek() == 'inalloca':
            p.next()
        t = p.type()
        n = '1'
        al = 16
        while p.eat(','):
            if p.peek() == 'align':
                p.next()
                al = max(16, int(p.next()))
            elif p.peek() == 'addrspace':
                p.next()
                p.skip_parens()
            else:
                it = p.type()
                n = p.val(it, self)
        return '%s = alloca(%d * %s, %d)' % (d, self.m.size(t), n, al)

    def i_load(self, d, p):
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        t = p.type()
        p.expect(',')
        p.type()
        a = p.val('ptr', self)
        return '%s = %s' % (d, self.load(t, a))

    def load(self, t, a):
        if t == 'ptr' or t == ('i', 64):
            return 'ld8(%s)' % a
        if t[0] == 'i':
            n = {8: 1, 16: 2, 32: 4}.get(t[1])
            if n:
                return 'ld%d(%s)' % (n, a)
            return 'ldn(%s, %d, %d)' % (a, (t[1] + 7) // 8, t[1])
        if t == ('f', 64):
            return 'ldf(%s)' % a
        if t == ('f', 32):
            return 'ldf32(%s)' % a
        return 'ldagg(%s, %r)' % (a, t)

    def i_store(self, d, p):
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        t = p.type()
        v = p.val(t, self)
        p.expect(',')
        p.type()
        a = p.val('ptr', self)
        if t == 'ptr' or t == ('i', 64):
            return 'st8(%s, %s)' % (a, v)
        if t[0] == 'i':
            n = {8: 1, 16: 2, 32: 4}.get(t[1])
            if n:
                return 'st%d(%s, %s)' % (n, a, v)
            return 'stn(%s, %s, %d, %d)' % (a, v, (t[1] + 7) // 8, t[1])
        if t == ('f', 64):
            return 'stf(%s, %s)' % (a, v)
        if t == ('f', 32):
            return 'stf32(%s, %s)' % (a, v)
        return 'stagg(%s, %s, %r)' % (a, v, t)

    def i_getelementptr(self, d, p):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = p.type()
        p.expect(',')
        pt = p.type()
        if pt != 'ptr':
            raise Unsupported('vector gep')
        base = p.val('ptr', self)
        const = 0
        dyn = []
        cur = t
        first = True
        while p.eat(','):
            it = p.type()
            x = p.val(it, self)
            if x.isdigit():
                k = int(x)
                k = k - (1 << it[1]) if k >> (it[1] - 1) else k
                if first:
                    const += k * self.m.size(t)
                else:
                    o, cur = self.m.field(cur, k)
                    const += o
            else:
                if first:
                    sz = self.m.size(t)
                else:
                    sz = self.m.size(cur[2])
                    cur = cur[2]
                if it[1] < 64:
                    x = 'sext(%s, %d, 64)' % (x, it[1])
                dyn.append('%s * %d' % (x, sz) if sz != 1 else x)
            first = False
        const &= (1 << 64) - 1
        e = base
        for q in dyn:
            e += ' + ' + q
        if const and const < 1 << 62:
            e += ' + %d' % const
            if not dyn:
                return '%s = %s' % (d, e)
        elif const:
            e += ' + %d' % const
        if e == base:
            return '%s = %s' % (d, base)
        return '%s = (%s) & 18446744073709551615' % (d, e)

    def i_extractvalue(self, d, p):
        t = p.type()
        v = p.val(t, self)
        s = v
        while p.eat(','):
            s += '[%s]' % p.next()
        return '%s = %s' % (d, s)

    def i_insertvalue(self, d, p):
        t = p.type()
        v = p.val(t, self)
        p.expect(',')
        t2 = p.type()
        x = p.val(t2, self)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return '%s = insval(%s, %s, %r)' % (d, v, x, tuple(idx))

    def i_extractelement(self, d, p):
        t = p.type()
        v = p.val(t, self)
        p.expect(',')
        it = p.type()
        return '%s = %s[%s]' % (d, v, p.val(it, self))

    def i_insertelement(self, d, p):
        t = p.type()
        v = p.val(t, self)
        p.expect(',')
        t2 = p.type()
        x = p.val(t2, self)
        p.expect(',')
        it = p.type()
        return '%s = insval(%s, %s, (%s,))' % (d, v, x, p.val(it, self))

    def i_shufflevector(self, d, p):
        t = p.type()
        a = p.val(t, self)
        p.expect(',')
        p.type()
        b = p.val(t, self)
        p.expect(',')
        mt = p.type()
        m = p.const(mt)
        return '%s = shuffle(%s, %s, %r)' % (d, a, b, m)

    def i_fence(self, d, p):
        return None

    def i_atomicrmw(self, d, p):
        if p.peek() == 'volatile':
            p.next()
        op = p.next()
        p.type()
        a = p.val('ptr', self)
        p.expect(',')
        t = p.type()
        v = p.val(t, self)
        return '%s = atomicrmw(%r, %s, %s, %d)' % (d, op, a, v, tw(t))

    def i_cmpxchg(self, d, p):
        while p.peek() in ('weak', 'volatile'):
            p.next()
        p.type()
        a = p.val('ptr', self)
        p.expect(',')
        t = p.type()
        c = p.val(t, self)
        p.expect(',')
        p.type()
        n = p.val(t, self)
        return '%s = cmpxchg(%s, %s, %s, %d)' % (d, a, c, n, tw(t))

    def i_landingpad(self, d, p):
        return 'unsupported("landingpad")'

    def i_call(self, d, p):
        # attributes of the return value, calling convention
        while True:
            x = p.peek()
            if x in FMF or x in ('fastcc', 'coldcc', 'ccc', 'cold', 'tailcc', 'preserve_mostcc'):
                p.next()
            elif re.match(r'(noundef|zeroext|signext|nonnull|noalias|align|dereferenceable|dereferenceable_or_null|range|'
                          r'inreg|nofpclass)$', x):
                p.next()
                if x == 'align' and p.peek() != '(':
                    p.next()
                elif p.peek() == '(':
                    p.skip_parens()
            else:
                break
        t = p.type()
        if p.peek() == '(':      # function type
            p.skip_parens()
        callee = p.next()
        if callee in ('asm',):
            return ('%s = ' % d if d else '') + 'inline_asm(%r)' % (' '.join(p.t)[:200],)
        if callee[0] not in '@%':
            raise Unsupported('callee %r' % callee)
        p.expect('(')
        args, types = [], []
        if not p.eat(')'):
            while True:
                at = p.type()
                if at == 'metadata':
                    p.next()
                    args.append('0')
                    types.append(at)
                else:
                    p.attrs()
                    args.append(p.val(at, self))
                    types.append(at)
                if p.eat(')'):
                    break
                p.expect(',')
        pre = '%s = ' % d if d else ''
        if callee[0] == '%':
            return '%sicall(%s)(%s)' % (pre, self.reg(callee), ', '.join(args))
        while callee in self.m.alias:
            callee = self.m.alias[callee]
        if callee.startswith('@llvm.'):
            return self.intrinsic(callee[1:], pre, args, types, t)
        if callee not in self.m.fidx:
            raise Unsupported('callee %r' % callee)
        return '%sG%d(%s)' % (pre, self.m.fidx[callee], ', '.join(args))

    def intrinsic(self, n, pre, args, types, t):
        b = n[5:]
        for k in INTR0:
            if b.startswith(k):
                return None
        if b.startswith('memcpy') or b.startswith('memmove'):
            return 'memcpy(%s, %s, %s)' % tuple(args[:3])
        if b.startswith('memset'):
            return 'memset(%s, %s, %s)' % tuple(args[:3])
        if b.startswith('is.constant'):
            return pre + '0'
        if b.startswith('expect'):
            return pre + args[0]
        if b.startswith('threadlocal.address') or b.startswith('launder') or b.startswith('strip.invariant'):
            return pre + args[0]
        if b.startswith('trap') or b.startswith('ubsantrap'):
            return 'do_abort("trap")'
        if b.startswith('stacksave'):
            return pre + 'SP[0]'
        if b.startswith('stackrestore'):
            return 'SP[0] = ' + args[0]
        base = re.sub(r'\.(?:v\d+)?(?:[ip]\d+|f64|f32)(?=\.|$)', '', b)
        name = 'x_' + base.replace('.', '_')
        if types and types[0] != 'ptr' and types[0][0] == 'v' and not base.startswith('vector.') and not base.startswith('x86'):
            zargs = [a for a, ty in zip(args, types) if ty[0] == 'v']
            rest = [a for a, ty in zip(args, types) if ty[0] != 'v']
            vs = ['x%d' % i for i in range(len(zargs))]
            return '%stuple([%s(%s) for %s in zip(%s)])' % (
                pre, name, ', '.join(vs + rest + [str(tw(types[0][2]))]), ', '.join(vs) + ',', ', '.join(zargs))
        w = tw(types[0]) if types and types[0] != 'metadata' else 0
        if isinstance(t, tuple) and t[0] == 'i' and base in ('ucmp', 'scmp', 'fptosi.sat', 'fptoui.sat', 'lround', 'llround'):
            return '%s%s(%s, %d, %d)' % (pre, name, ', '.join(args), w, t[1])
        return '%s%s(%s)' % (pre, name, ', '.join(args + [str(w)]))


def tw(t):
    if t == 'ptr':
        return 64
    if t[0] in 'if':
        return t[1]
    if t[0] == 'v':
        return t[1] * tw(t[2])
    return 0


def kind(t):
    return 'f' if t != 'ptr' and t[0] == 'f' else 'i'


def cutmd(s):
    """cut instruction metadata (', !name !n' and '#n' attributes stay harmless)"""
    i = s.find(', !')
    if i >= 0:
        rest = s[i:]
        j = rest.find('\n')
        s = s[:i] + (rest[j:] if j >= 0 else '')
    return s


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
INTR0 = ('lifetime', 'experimental.noalias', 'dbg', 'assume', 'prefetch', 'invariant.end', 'donothing', 'x86.sse2.pause', 'sideeffect', 'fake.use')
