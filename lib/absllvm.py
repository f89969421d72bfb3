"""Abstract interpretation of LLVM IR (clang -O0, textual) over lib/absdom.py values (nothing is executed). Integers are kept
as unsigned residues of their width; memory is byte addressed, one object per alloca, global and heap allocation."""
import re
import struct
import absdom as D
from absdom import Lost, Cond
from abspy import Raise, Opaque, Float, convert

TOK = re.compile(r'''%"[^"]*"|%[\w.$-]+|@"[^"]*"|@[\w.$-]+|c"[^"]*"|"[^"]*"|\.\.\.|-?0x[0-9A-Fa-f]+|-?\d+\.\d+e[+-]\d+|-?\d+|[\w.$]+|[^\s\w]''')
UNDEF = Opaque('undefined value')


class Toks:
    def __init__(self, s):
        self.t, self.i = TOK.findall(s), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def next(self):
        self.i += 1
        return self.t[self.i - 1] if self.i <= len(self.t) else ''

    def take(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.take(x):
            raise Lost('LLVM: expected %s before %s in %s' % (x, self.peek(), ' '.join(self.t[:40])))


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return '&%s+%s' % (self.o, self.off)

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.o is self.o and x.off == self.off

    def __hash__(self):
        return hash((id(self.o), self.off))


class Fn:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'function ' + self.name


class Mem:
    n = 0

    def __init__(self, size, what=''):
        Mem.n += 1
        self.size, self.c, self.what, self.id = size, {}, what, Mem.n
        self.freed = False

    def __repr__(self):
        return '%s#%d' % (self.what, self.id)


NULL = Ptr(None, 0)


class Unit:
    """A parsed module: shared by all runs."""

    def __init__(self, text):
        self.types, self.gl, self.fn, self.parsed, self.decl, self.alias = {}, {}, {}, {}, set(), {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                n, t = l.split(' = type ', 1)
                self.types[n] = t
            elif l.startswith('@'):
                n, r = l.split(' = ', 1)
                if ' alias ' in ' ' + r:
                    m = re.search(r'(@"[^"]*"|@[\w.$-]+)\s*$', r)
                    self.alias[n] = m.group(1)
                else:
                    self.gl[n] = r
            elif l.startswith('define '):
                m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l)
                body = [l]
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                self.fn[m.group(1)] = body
            i += 1
        self.tcache, self.lay = {}, {}

    # types: ('i', n) ('p',) ('f', 32|64) ('a', n, T) ('s', [T..], packed) ('v',)
    def named(self, n):
        if n not in self.tcache:
            t = self.types.get(n, 'opaque')
            self.tcache[n] = ('s', [], False) if t == 'opaque' else self.ty(Toks(t))
        return self.tcache[n]

    def ty(self, t):
        x = t.next()
        if x[0] == 'i' and x[1:].isdigit():
            r = ('i', int(x[1:]))
        elif x == 'ptr':
            r = ('p',)
        elif x == 'void':
            r = ('v',)
        elif x == 'float':
            r = ('f', 32)
        elif x == 'double':
            r = ('f', 64)
        elif x in ('x86_fp80', 'metadata', 'label', 'half'):
            r = ('x',)
        elif x == '[':
            n = int(t.next())
            t.need('x')
            r = ('a', n, self.ty(t))
            t.need(']')
        elif x == '{' or x == '<' and t.peek() == '{':
            pk = x == '<'
            if pk:
                t.next()
            e = []
            while not t.take('}'):
                e.append(self.ty(t))
                t.take(',')
            if pk:
                t.need('>')
            r = ('s', e, pk)
        elif x[0] == '%':
            r = ('n', x)
        elif x == '<':
            n = int(t.next())
            t.need('x')
            r = ('a', n, self.ty(t))
            t.need('>')
        else:
            raise Lost('LLVM type %s' % x)
        if t.peek() == '(':
            # function type
            d = 0
            while True:
                y = t.next()
                d += y == '('
                d -= y == ')'
                if d == 0:
                    break
            r = ('fn', r)
        return r

    def res(self, t):
        return self.named(t[1]) if t[0] == 'n' else t

    def align(self, t):
        t = self.res(t)
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            return 1 if n == 1 else 2 if n == 2 else 4 if n <= 4 else 8 if n <= 8 else 16
        if t[0] == 'f':
            return t[1] // 8
        if t[0] == 'p':
            return 8
        if t[0] == 'a':
            return self.align(t[2])
        if t[0] == 's':
            return 1 if t[2] or not t[1] else max(self.align(x) for x in t[1])
        return 1

    def size(self, t):
        t = self.res(t)
        if t[0] == 'i':
            a = self.align(t)
            return max(a, (t[1] + 7) // 8)
        if t[0] == 'f':
            return t[1] // 8
        if t[0] == 'p':
            return 8
        if t[0] == 'a':
            return t[1] * self.size(t[2])
        if t[0] == 's':
            return self.offsets(t)[1]
        if t[0] == 'v':
            return 0
        raise Lost('LLVM size of %s' % (t,))

    def offsets(self, t):
        k = id(t)
        if k not in self.lay:
            o, out = 0, []
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                out.append(o)
                o += self.size(x)
            if not t[2] and t[1]:
                a = self.align(t)
                o = (o + a - 1) // a * a
            self.lay[k] = (out, o, t)
        return self.lay[k]

    # -- functions
    def func(self, n):
        n = self.alias.get(n, n)
        if n in self.parsed:
            return self.parsed[n]
        if n not in self.fn:
            return None
        body = self.fn[n]
        head = body[0]
        t = Toks(head[head.index(n) + len(n):])
        t.need('(')
        params = []
        while not t.take(')'):
            if t.take('...'):
                continue
            ty = self.ty(t)
            sret = None
            while t.peek() and t.peek()[0] != '%' and t.peek() not in (',', ')'):
                x = t.next()
                if x in ('sret', 'byval', 'dereferenceable', 'align', 'dereferenceable_or_null') and t.take('('):
                    d = 1
                    while d:
                        y = t.next()
                        d += (y == '(') - (y == ')')
            params.append((t.next() if t.peek()[:1] == '%' else None, ty))
            t.take(',')
        blocks, cur, order = {}, None, []
        for l in body[1:]:
            if not l.strip():
                continue
            if not l.startswith(' '):
                m = re.match(r'("[^"]*"|[\w.$-]+):', l)
                cur = []
                nm = '%' + m.group(1)
                blocks[nm] = cur
                order.append(nm)
                continue
            if cur is None:
                cur = []
                blocks['%entry'] = cur
                order.append('%entry')
            l = l.strip()
            if cur and (cur[-1].count('[') > cur[-1].count(']') and cur[-1].startswith('switch')):
                cur[-1] += ' ' + l
                continue
            if cur and l.startswith(('to label', 'catch ', 'cleanup', 'filter ')):
                cur[-1] += ' ' + l
                continue
            m = re.search(r', !(?:\w|\.)+ !', l)
            if m:
                l = l[:m.start()]
            cur.append(l)
        # implicit first label: phi refers to it by number
        f = {'name': n, 'params': params, 'blocks': blocks, 'first': order[0], 'order': order, 'ins': {}}
        if order[0] == '%entry' and body[1].startswith(' '):
            f['implicit'] = '%' + str(len(params))
        self.parsed[n] = f
        return f


VALUES = ('null', 'undef', 'poison', 'true', 'false', 'zeroinitializer', 'none', 'getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext',
          'select', 'icmp', 'add', 'sub', 'mul', 'xor', 'shl', 'c')


class Interp:
    def __init__(self, unit, limit=4000000):
        self.u, self.g, self.hooks, self.steps, self.limit, self.depth = unit, {}, {}, 0, limit, 0
        self.undef_ok = True

    # -- memory
    def store(self, p, size, v):
        if p.o is None:
            raise Raise('null dereference')
        off = D.known(p.off, 'address')
        m = p.o
        if isinstance(m, Fn) or off < 0 or off + size > m.size:
            raise Raise('access outside of %s: offset %s, %d bytes of %s' % (m, off, size, getattr(m, 'size', 0)))
        if m.freed:
            raise Raise('use after free')
        c = m.c
        if off in c and c[off][0] == size:
            c[off] = (size, v)
            return
        self.carve(m, off, size)
        c[off] = (size, v)

    def carve(self, m, off, size):
        """Makes [off, off+size) free of cells, keeping the bytes of cells that reach out of it."""
        c = m.c
        for o in [o for o in range(off - 15, off + size) if o in c and o + c[o][0] > off]:
            n, v = c.pop(o)
            if o < off or o + n > off + size:
                for i, b in enumerate(self.bytes_of(v, n)):
                    if not off <= o + i < off + size:
                        c[o + i] = (1, b)

    def bytes_of(self, v, n):
        if n == 1:
            return [v]
        if isinstance(v, Float):
            v = v.bits
        if isinstance(v, (Ptr, Fn)):
            return [Part(v, i) for i in range(n)]
        if isinstance(v, Opaque):
            return [v] * n
        if isinstance(v, Cond):
            v = D.boolval(v)
        x = D.vec(v, 8 * n)
        return [D.mk(x[i:i + 8]) for i in range(0, 8 * n, 8)]

    def load(self, p, size, t=None):
        if not isinstance(p, Ptr):
            raise Lost('load from %r' % (p,))
        if p.o is None:
            raise Raise('null dereference')
        off = D.known(p.off, 'address')
        m = p.o
        if isinstance(m, Fn) or off < 0 or off + size > m.size:
            raise Raise('access outside of %s: offset %s, %d bytes of %s' % (m, off, size, getattr(m, 'size', 0)))
        if m.freed:
            raise Raise('use after free')
        x = m.c.get(off)
        if x is not None and x[0] == size:
            return x[1]
        bs = []
        i = off
        while i < off + size:
            y = None
            for o in range(i, i - 16, -1):
                if o in m.c and o + m.c[o][0] > i:
                    y = (o,) + m.c[o]
                    break
            if y is None:
                bs.append(getattr(m, 'fill', UNDEF))
                i += 1
                continue
            part = self.bytes_of(y[2], y[1])
            while i < y[0] + y[1] and i < off + size:
                bs.append(part[i - y[0]])
                i += 1
        if all(isinstance(b, Part) for b in bs) and all(b.v == bs[0].v and b.i == i for i, b in enumerate(bs)):
            return bs[0].v
        if any(isinstance(b, (Opaque, Part)) for b in bs):
            return UNDEF
        bits = []
        for b in bs:
            bits += D.vec(b, 8)
        return D.mk(bits)

    def glob(self, n):
        n = self.u.alias.get(n, n)
        if n in self.u.fn:
            return Ptr(self.fnobj(n), 0)
        if n not in self.g:
            if n not in self.u.gl:
                if n in self.hooks or True:
                    return Ptr(self.fnobj(n), 0)
            r = self.u.gl[n]
            m = re.match(r'(?:(?:private|internal|external|linkonce_odr|linkonce|weak|weak_odr|available_externally|dso_local|local_unnamed_addr|'
                         r'unnamed_addr|hidden|protected|thread_local|common|appending|comdat)\s+|addrspace\(\d+\)\s+)*(constant|global)\s+', r)
            t = Toks(re.sub(r', (comdat|align).*$', '', r[m.end():]))
            ty = self.u.ty(t)
            o = self.g[n] = Mem(self.u.size(ty) if not r.startswith('external') or t.peek() else 1 << 16, n)
            if t.peek():
                self.fill(o, 0, ty, t)
        return Ptr(self.g[n], 0)

    def fnobj(self, n):
        k = ('fn', n)
        if k not in self.g:
            self.g[k] = Fn(n)
        return self.g[k]

    def fill(self, o, off, ty, t):
        ty = self.u.res(ty)
        x = t.peek()
        if x == 'zeroinitializer':
            t.next()
            self.zero(o, off, ty)
            return
        if x == 'undef' or x == 'poison':
            t.next()
            return
        if ty[0] == 'a':
            if x.startswith('c"'):
                s = t.next()[2:-1]
                b = []
                i = 0
                while i < len(s):
                    if s[i] == '\\':
                        b.append(int(s[i + 1:i + 3], 16))
                        i += 3
                    else:
                        b.append(ord(s[i]))
                        i += 1
                for i, v in enumerate(b):
                    o.c[off + i] = (1, v)
                return
            t.need('[')
            n = self.u.size(ty[2])
            for i in range(ty[1]):
                et = self.u.ty(t)
                self.fill(o, off + i * n, et, t)
                t.take(',')
            t.need(']')
            return
        if ty[0] == 's':
            pk = t.take('<')
            t.need('{')
            offs = self.u.offsets(ty)[0]
            for i, e in enumerate(ty[1]):
                et = self.u.ty(t)
                self.fill(o, off + offs[i], et, t)
                t.take(',')
            t.need('}')
            if pk:
                t.need('>')
            return
        o.c[off] = (self.u.size(ty), self.operand(ty, t, None))

    def zero(self, o, off, ty):
        ty = self.u.res(ty)
        if ty[0] == 'a':
            n = self.u.size(ty[2])
            for i in range(ty[1]):
                self.zero(o, off + i * n, ty[2])
        elif ty[0] == 's':
            for e, f in zip(ty[1], self.u.offsets(ty)[0]):
                self.zero(o, off + f, e)
        else:
            o.c[off] = (self.u.size(ty), NULL if ty[0] == 'p' else Float(0, ty[1]) if ty[0] == 'f' else 0)

    # -- operands
    def operand(self, ty, t, env):
        x = t.next()
        if x[0] == '%':
            return env[x]
        if x[0] == '@':
            return self.glob(x)
        if x == 'null':
            return NULL
        if x in ('undef', 'poison'):
            return UNDEF
        if x in ('true', 'false'):
            return int(x == 'true')
        if x == 'zeroinitializer':
            r = self.u.res(ty)
            if r[0] == 's':
                return Agg([self.zval(e) for e in r[1]])
            if r[0] == 'a':
                return Agg([self.zval(r[2])] * r[1])
            return 0
        if x == 'getelementptr':
            t.take('inbounds')
            while t.peek() in ('inrange', 'nuw', 'nusw'):
                t.next()
            t.need('(')
            bt = self.u.ty(t)
            t.need(',')
            self.u.ty(t)
            p = self.operand(('p',), t, env)
            idx = []
            while t.take(','):
                t.take('inrange')
                it = self.u.ty(t)
                idx.append((it, self.operand(it, t, env)))
            t.need(')')
            return self.gep(bt, p, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            t.need('(')
            a = self.u.ty(t)
            v = self.operand(a, t, env)
            t.need('to')
            self.u.ty(t)
            t.need(')')
            return v
        if x in ('sub', 'add'):
            while t.peek() in ('nuw', 'nsw'):
                t.next()
            t.need('(')
            a = self.u.ty(t)
            v = self.operand(a, t, env)
            t.need(',')
            self.u.ty(t)
            w = self.operand(a, t, env)
            t.need(')')
            return self.arith(x, v, w, a[1])
        if ty[0] == 'f':
            if x.startswith('0x'):
                b = int(x, 16)
                d = struct.unpack('>d', b.to_bytes(8, 'big'))[0]
            else:
                d = float(x)
            return Float(struct.unpack('>I', struct.pack('>f', d))[0], 32) if ty[1] == 32 else \
                Float(struct.unpack('>Q', struct.pack('>d', d))[0], 64)
        if x == '{' or x == '[' or x == '<':
            t.i -= 1
            m = Mem(self.u.size(ty), 'constant')
            self.fill(m, 0, ty, t)
            return self.agg(m, ty)
        return D.wrap(int(x, 0), ty[1], False)

    def agg(self, m, ty):
        r = self.u.res(ty)
        if r[0] == 's':
            return Agg([self.load(Ptr(m, o), self.u.size(e)) for e, o in zip(r[1], self.u.offsets(r)[0])])
        return Agg([self.load(Ptr(m, i * self.u.size(r[2])), self.u.size(r[2])) for i in range(r[1])])

    def zval(self, t):
        t = self.u.res(t)
        return NULL if t[0] == 'p' else Float(0, t[1]) if t[0] == 'f' else 0

    def gep(self, bt, p, idx):
        if not isinstance(p, Ptr):
            if isinstance(p, int) and p == 0:
                p = NULL
            else:
                raise Lost('address computed from %r' % (p,))
        off, ty = p.off, bt
        for i, (it, v) in enumerate(idx):
            w = it[1]
            if isinstance(v, int):
                v = v - (1 << w) if v >> (w - 1) else v
            else:
                v = D.known(v, 'index')
                v = v - (1 << w) if v >> (w - 1) else v
            if i == 0:
                off = off + v * self.u.size(ty)
                continue
            r = self.u.res(ty)
            if r[0] == 's':
                off += self.u.offsets(r)[0][v]
                ty = r[1][v]
            else:
                off += v * self.u.size(r[2])
                ty = r[2]
        return Ptr(p.o, off)

    def unknown(self, x, w):
        """Single bits of memory that was not written may be set by masking; the others are arbitrary."""
        if x is UNDEF:
            self.fresh = getattr(self, 'fresh', 0) + 1
            return D.sym('undefined%d' % self.fresh, w)
        return x

    def arith(self, op, a, b, w):
        if isinstance(a, Cond):
            a = D.boolval(a)
        if isinstance(b, Cond):
            b = D.boolval(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub':
            if a.o is not b.o:
                raise Lost('difference of unrelated addresses')
            return D.wrap(a.off - b.off, w, False)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'add':
                p, n = (a, b) if isinstance(a, Ptr) else (b, a)
                n = D.wrap(D.known(n, 'address'), w, True)
                return Ptr(p.o, p.off + n)
            if op == 'sub' and isinstance(a, Ptr):
                return Ptr(a.o, a.off - D.wrap(D.known(b, 'address'), w, True))
            if op == 'and':
                p, n = (a, b) if isinstance(a, Ptr) else (b, a)
                if p.o is None:
                    return D.band(p.off, n)
                if isinstance(n, int) and n < 16:
                    return D.band(p.off, n)
                if isinstance(n, int):
                    return Ptr(p.o, p.off & n)
            if op in ('urem',) and isinstance(b, int):
                return a.off % b
            raise Lost('%s on addresses' % op)
        if op in ('and', 'or', 'xor'):
            a, b = self.unknown(a, w), self.unknown(b, w)
        for x in (a, b):
            if isinstance(x, Opaque):
                raise Raise('use of an undefined value') if x is UNDEF and op in ('shl', 'lshr', 'ashr', 'udiv', 'sdiv') else Lost('%s on %r' % (op, x))
        if op in ('shl', 'lshr', 'ashr'):
            n = D.known(b, 'shift by')
            if n >= w:
                raise Raise('shift by %d of %d bits' % (n, w))
            if op == 'shl':
                r = D.shl(a, n)
            elif op == 'lshr':
                r = D.shr(a, n)
            else:
                r = D.shr(D.wrap(a, w, True), n)
            return D.wrap(r, w, False)
        if op in ('sdiv', 'srem'):
            a, b = D.wrap(a, w, True), D.wrap(b, w, True)
            if b == 0:
                raise Raise('division by zero')
            return D.wrap((D.truncdiv if op == 'sdiv' else D.truncmod)(a, b), w, False)
        if op in ('udiv', 'urem'):
            if b == 0:
                raise Raise('division by zero')
            return D.wrap((D.floordiv if op == 'udiv' else D.floormod)(a, b), w, False)
        f = {'add': D.add, 'sub': D.sub, 'mul': D.mul, 'and': D.band, 'or': D.bor, 'xor': D.bxor}[op]
        if op in ('add', 'sub') and isinstance(b, int) and b >> (w - 1):
            b -= 1 << w      # small negative constants keep sums in range
        return D.wrap(f(a, b), w, False)

    def icmp(self, p, a, b, t):
        if t[0] == 'p':
            if isinstance(a, int) and a == 0:
                a = NULL
            if isinstance(b, int) and b == 0:
                b = NULL
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                raise Lost('comparison of %r and %r' % (a, b))
            if a.o is not b.o:
                if p in ('eq', 'ne'):
                    return int(p == 'ne')
                if a.o is None or b.o is None:
                    a = Ptr(None, 0 if a.o is None else 1 << 40)
                    b = Ptr(None, 0 if b.o is None else 1 << 40)
                else:
                    a, b = Ptr(None, a.o.id << 40), Ptr(None, b.o.id << 40)
            a, b = a.off, b.off
            p = p.replace('u', 's') if p[0] == 'u' else p
            w = None
        else:
            w = t[1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.icmp(p, a, b, ('p',))
        for x in (a, b):
            if isinstance(x, Opaque):
                raise Lost('comparison of %r' % (x,))
        if isinstance(a, Cond) or isinstance(b, Cond):
            a = D.boolval(a) if isinstance(a, Cond) else a
            b = D.boolval(b) if isinstance(b, Cond) else b
        if p in ('eq', 'ne'):
            r = D.eq(a, b)
            if isinstance(r, Cond):
                return Not(r) if p == 'ne' else r
            return int(r == (p == 'eq'))
        if p[0] == 's' and w:
            a, b = D.wrap(a, w, True), D.wrap(b, w, True)
        if p[1:] in ('gt', 'le'):
            r = D.lt(b, a)
            inv = p[1:] == 'le'
        else:
            r = D.lt(a, b)
            inv = p[1:] == 'ge'
        if isinstance(r, Cond):
            return Not(r) if inv else r
        return int(r != inv)

    # -- running
    def call(self, name, args):
        name = self.u.alias.get(name, name)
        h = self.hooks.get(name)
        if h:
            return h(args)
        f = self.u.func(name)
        if f is None:
            return self.extern(name, args)
        self.depth += 1
        if self.depth > 150:
            raise Lost('recursion')
        try:
            return self.run(f, args)
        finally:
            self.depth -= 1

    def run(self, f, args):
        env = {}
        for i, ((n, t), v) in enumerate(zip(f['params'], args)):
            env[n or '%' + str(i)] = v
        prev, cur = None, f['first']
        while True:
            ins = f['ins'].get(cur)
            if ins is None:
                ins = f['ins'][cur] = [self.parse(l) for l in f['blocks'][cur]]
            nxt = None
            for dst, op, t in ins:
                self.steps += 1
                if self.steps > self.limit:
                    raise Lost('no end of %s' % f['name'])
                if op == 'ret':
                    t.i = 1
                    ty = self.u.ty(t)
                    return None if ty[0] == 'v' else self.operand(ty, t, env)
                if op == 'br':
                    t.i = 1
                    if t.take('label'):
                        nxt = t.next()
                    else:
                        t.next()
                        c = self.operand(('i', 1), t, env)
                        t.need(',')
                        t.need('label')
                        a = t.next()
                        t.need(',')
                        t.need('label')
                        nxt = a if self.truth(c) else t.next()
                    break
                if op == 'switch':
                    t.i = 1
                    ty = self.u.ty(t)
                    v = self.operand(ty, t, env)
                    if isinstance(v, Cond):
                        v = D.boolval(v)
                    t.need(',')
                    t.need('label')
                    nxt = t.next()
                    t.need('[')
                    while not t.take(']'):
                        ct = self.u.ty(t)
                        k = self.operand(ct, t, env)
                        t.need(',')
                        t.need('label')
                        l = t.next()
                        if self.truth(self.icmp('eq', v, k, ct)):
                            nxt = l
                    break
                if op == 'unreachable':
                    raise Raise('unreachable code')
                if op == 'resume':
                    raise Raise('resumed')
                t.i = 1 if dst is None else 3
                if op == 'phi':
                    ty = self.u.ty(t)
                    val = None
                    while t.take('['):
                        k = t.i
                        lab = None
                        save = t.i
                        # operand , label ]
                        d = 0
                        while not (t.peek() == ']' and d == 0):
                            d += (t.peek() in '([{') - (t.peek() in ')}]') if t.peek() in '([{)}]' else 0
                            t.next()
                        lab = t.t[t.i - 1]
                        end = t.i
                        if lab == prev or prev == f['first'] and lab == f.get('implicit'):
                            t.i = save
                            val = self.operand(ty, t, env)
                        t.i = end
                        t.need(']')
                        t.take(',')
                    env[dst] = val
                    continue
                if op == 'invoke':
                    r = self.callins(t, env)
                    if dst is not None:
                        env[dst] = r
                    t.need('to')
                    t.need('label')
                    nxt = t.next()
                    break
                r = self.ins(op, t, env)
                if dst is not None:
                    env[dst] = r
            if nxt is None:
                raise Lost('block without end in %s' % f['name'])
            prev, cur = cur, nxt

    def parse(self, l):
        t = Toks(l)
        if t.peek(1) == '=':
            dst = t.peek()
            op = t.peek(2)
        else:
            dst, op = None, t.peek()
        if op in ('tail', 'musttail', 'notail'):
            t.t.pop(0 if dst is None else 2)
            op = 'call'
        return dst, op, t

    def truth(self, c):
        if isinstance(c, Opaque):
            raise Lost('branch on %r' % (c,))
        if isinstance(c, Cond):
            raise D.Split(c.bit)
        return D.decide(c)

    def callins(self, t, env):
        while t.peek() in ('noundef', 'signext', 'zeroext', 'nonnull', 'fastcc', 'ccc', 'nsz', 'nnan', 'noalias', 'inreg') or t.peek() in ('align', 'dereferenceable', 'range', 'dereferenceable_or_null'):
            x = t.next()
            if x == 'align':
                t.next()
            elif x.startswith('deref') or x == 'range':
                while t.next() != ')':
                    pass
        self.u.ty(t)
        x = t.next()
        fn = env[x] if x[0] == '%' else self.glob(x) if x[0] == '@' else None
        if fn is None:
            raise Lost('call of %s' % x)
        t.need('(')
        args = []
        while not t.take(')'):
            if t.take('...'):
                continue
            ty = self.u.ty(t)
            while re.match(r'[a-z_]+$', t.peek()) and t.peek() not in VALUES:
                a = t.next()
                if a == 'align':
                    t.next()
                elif t.peek() == '(':
                    d = 0
                    while True:
                        y = t.next()
                        d += (y == '(') - (y == ')')
                        if d == 0:
                            break
            if ty[0] == 'x':
                t.next()
                while t.peek() not in (',', ')'):
                    t.next()
                args.append(None)
            else:
                args.append(self.operand(ty, t, env))
            t.take(',')
        while t.peek() == '#' or t.peek().isdigit():
            t.next()
        if t.peek() == '[':
            while t.next() != ']':
                pass
        if not isinstance(fn, Ptr) or not isinstance(fn.o, Fn):
            raise Lost('call through %r' % (fn,)) if not (isinstance(fn, Ptr) and fn.o is None) else Raise('call through null')
        i = t.i
        r = self.call(fn.o.name, args)
        t.i = i
        return r

    def ins(self, op, t, env):
        if op == 'call':
            # instruction objects are shared: recursion may move the cursor
            return self.callins(t, env)
        if op == 'alloca':
            ty = self.u.ty(t)
            n = 1
            if t.take(',') and t.peek() != 'align':
                it = self.u.ty(t)
                n = D.known(self.operand(it, t, env), 'size')
            return Ptr(Mem(self.u.size(ty) * n, 'local'), 0)
        if op == 'load':
            t.take('volatile')
            ty = self.u.ty(t)
            t.need(',')
            self.u.ty(t)
            p = self.operand(('p',), t, env)
            r = self.u.res(ty)
            if r[0] in 'sa':
                return self.loadagg(p, r)
            v = self.load(p, self.u.size(ty))
            if r[0] == 'f' and not isinstance(v, (Float, Opaque)):
                v = Float(v, r[1])
            elif r[0] == 'i' and isinstance(v, Float):
                v = v.bits
            elif r[0] == 'i' and r[1] == 1 and isinstance(v, D.Val):
                v = D.wrap(v, 1, False)
            elif r[0] == 'p' and isinstance(v, int) and v == 0:
                v = NULL
            elif r[0] == 'i' and v is NULL:
                v = 0
            return v
        if op == 'store':
            t.take('volatile')
            ty = self.u.ty(t)
            v = self.operand(ty, t, env)
            t.need(',')
            self.u.ty(t)
            p = self.operand(('p',), t, env)
            if isinstance(v, Cond):
                v = D.boolval(v)
            if isinstance(v, Agg):
                self.storeagg(p, self.u.res(ty), v)
                return None
            self.store(p, self.u.size(ty), v)
            return None
        if op == 'getelementptr':
            while t.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                t.next()
            bt = self.u.ty(t)
            t.need(',')
            self.u.ty(t)
            p = self.operand(('p',), t, env)
            idx = []
            while t.take(','):
                it = self.u.ty(t)
                idx.append((it, self.operand(it, t, env)))
            return self.gep(bt, p, idx)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            while t.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                t.next()
            ty = self.u.ty(t)
            a = self.operand(ty, t, env)
            t.need(',')
            b = self.operand(ty, t, env)
            if ty[1] == 1 and op == 'xor' and isinstance(a, Cond) and b == 1:
                return Not(a)
            return self.arith(op, a, b, ty[1])
        if op == 'icmp':
            p = t.next()
            ty = self.u.ty(t)
            a = self.operand(ty, t, env)
            t.need(',')
            b = self.operand(ty, t, env)
            return self.icmp(p, a, b, ty)
        if op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'addrspacecast'):
            while t.peek() in ('nneg', 'nuw', 'nsw'):
                t.next()
            a = self.u.ty(t)
            v = self.operand(a, t, env)
            t.need('to')
            b = self.u.ty(t)
            if isinstance(v, Opaque):
                return v
            if isinstance(v, Cond):
                v = D.boolval(v)
            if op == 'trunc':
                return D.wrap(v, b[1], False) if not isinstance(v, Ptr) else UNDEF
            if op == 'zext':
                return v
            if op == 'sext':
                return D.wrap(D.wrap(v, a[1], True), b[1], False)
            if op == 'fpext' or op == 'fptrunc':
                return Float(convert(v, b[1]), b[1])
            if op == 'bitcast':
                if b[0] == 'f' and not isinstance(v, Float):
                    return Float(v, b[1])
                if b[0] == 'i' and isinstance(v, Float):
                    return v.bits
                return v
            if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
                if op == 'ptrtoint' and isinstance(v, Ptr) and v.o is None:
                    return v.off
                if op == 'inttoptr' and isinstance(v, int):
                    return Ptr(None, v)
                return v
            return Opaque('float arithmetic')
        if op == 'select':
            ct = self.u.ty(t)
            c = self.operand(ct, t, env)
            t.need(',')
            ty = self.u.ty(t)
            a = self.operand(ty, t, env)
            t.need(',')
            self.u.ty(t)
            b = self.operand(ty, t, env)
            return a if self.truth(c) else b
        if op == 'extractvalue':
            ty = self.u.ty(t)
            v = self.operand(ty, t, env)
            while t.take(','):
                k = int(t.next())
                v = v.items[k] if isinstance(v, Agg) else UNDEF
            return v
        if op == 'insertvalue':
            ty = self.u.ty(t)
            v = self.operand(ty, t, env)
            t.need(',')
            et = self.u.ty(t)
            e = self.operand(et, t, env)
            ks = []
            while t.take(','):
                ks.append(int(t.next()))
            r = self.u.res(ty)
            n = len(r[1]) if r[0] == 's' else r[1]
            items = list(v.items) if isinstance(v, Agg) else [UNDEF] * n
            if len(ks) != 1:
                raise Lost('nested insertvalue')
            items[ks[0]] = e
            return Agg(items)
        if op == 'freeze':
            ty = self.u.ty(t)
            return self.operand(ty, t, env)
        if op in ('fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            return Opaque('float arithmetic')
        if op == 'landingpad':
            return UNDEF
        if op == 'fence':
            return None
        raise Lost('LLVM instruction %s' % op)

    def loadagg(self, p, r):
        if r[0] == 's':
            return Agg([self.load(Ptr(p.o, p.off + o), self.u.size(e)) if self.u.res(e)[0] not in 'sa' else
                        self.loadagg(Ptr(p.o, p.off + o), self.u.res(e)) for e, o in zip(r[1], self.u.offsets(r)[0])])
        n = self.u.size(r[2])
        return Agg([self.load(Ptr(p.o, p.off + i * n), n) for i in range(r[1])])

    def storeagg(self, p, r, v):
        parts = zip(r[1], self.u.offsets(r)[0]) if r[0] == 's' else [(r[2], i * self.u.size(r[2])) for i in range(r[1])]
        for (e, o), x in zip(parts, v.items):
            q = Ptr(p.o, p.off + o)
            if isinstance(x, Agg):
                self.storeagg(q, self.u.res(e), x)
            else:
                self.store(q, self.u.size(e), x)

    def alloc(self, size, what='heap'):
        return Ptr(Mem(D.known(size, 'allocation of'), what), 0)

    def copy(self, d, s, n):
        n = D.known(n, 'copy of')
        if n == 0:
            return
        for p in (d, s):
            if p.o is None:
                raise Raise('null dereference')
            off = D.known(p.off, 'address')
            if off < 0 or off + n > p.o.size:
                raise Raise('access outside of %s: offset %d, %d bytes of %d' % (p.o, off, n, p.o.size))
        cells = []
        self.split(s.o, s.off)
        self.split(s.o, s.off + n)
        for o, (k, v) in s.o.c.items():
            if s.off <= o < s.off + n:
                cells.append((o - s.off, k, v))
        self.carve(d.o, d.off, n)
        for o in [o for o in d.o.c if d.off <= o < d.off + n]:
            del d.o.c[o]
        for o, k, v in cells:
            d.o.c[d.off + o] = (k, v)
        if hasattr(s.o, 'fill'):
            have = set()
            for o, k, v in cells:
                have.update(range(o, o + k))
            for i in range(n):
                if i not in have:
                    d.o.c[d.off + i] = (1, s.o.fill)

    def split(self, m, at):
        for o in range(at - 15, at):
            if o in m.c and o + m.c[o][0] > at:
                k, v = m.c.pop(o)
                for i, b in enumerate(self.bytes_of(v, k)):
                    m.c[o + i] = (1, b)

    def extern(self, n, a):
        n = n[1:].strip('"')
        if n in ('__cxa_allocate_exception',):
            raise Raise('exception')
        if '__glibcxx_assert' in n:
            raise Raise('failed assertion of the standard library')
        if n.startswith('_ZSt') and '__throw' in n:
            raise Raise('exception')
        if n in ('_Znwm', '_Znam', 'malloc'):
            return self.alloc(a[0])
        if n in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm'):
            if isinstance(a[0], Ptr) and a[0].o is not None:
                a[0].o.freed = True
            return None
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            self.copy(a[0], a[1], a[2])
            return a[0]
        if n.startswith('llvm.memset') or n == 'memset':
            k = D.known(a[2], 'size')
            for i in range(k):
                self.store(Ptr(a[0].o, a[0].off + i), 1, a[1])
            return a[0]
        if n in ('memcmp', 'bcmp'):
            for i in range(D.known(a[2], 'size')):
                x, y = self.load(Ptr(a[0].o, a[0].off + i), 1), self.load(Ptr(a[1].o, a[1].off + i), 1)
                if not self.truth(self.icmp('eq', x, y, ('i', 8))):
                    return 1 if self.truth(self.icmp('ugt', x, y, ('i', 8))) else (1 << 32) - 1
            return 0
        if n == 'strlen':
            k = 0
            while not self.truth(self.icmp('eq', self.load(Ptr(a[0].o, a[0].off + k), 1), 0, ('i', 8))):
                k += 1
            return k
        if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume') or n.startswith('llvm.stack') or \
                n.startswith('llvm.experimental.noalias'):
            return None
        if n.startswith('llvm.is.constant'):
            return 0
        m = re.match(r'llvm\.(\w+)\.i(\d+)$', n)
        if m:
            w = int(m.group(2))
            k = m.group(1)
            if k == 'bswap':
                v = D.vec(a[0], w)
                return D.mk([b for i in range(w - 8, -8, -8) for b in v[i:i + 8]])
            if k == 'abs':
                s = D.wrap(a[0], w, True)
                return D.wrap(D.neg(s), w, False) if self.truth(D.lt(s, 0)) else a[0]
            if k in ('umax', 'umin'):
                return a[0] if self.truth(D.lt(a[1], a[0])) == (k == 'umax') else a[1]
            if k in ('smax', 'smin'):
                return a[0] if self.truth(D.lt(D.wrap(a[1], w, True), D.wrap(a[0], w, True))) == (k == 'smax') else a[1]
            if k in ('ctlz', 'cttz', 'ctpop'):
                v = [b if b in (0, 1) else D.boolval(Cond(b)) for b in D.vec(a[0], w)]
                if k == 'ctpop':
                    return sum(v)
                for i, b in enumerate(reversed(v) if k == 'ctlz' else v):
                    if b:
                        return i
                return w
            if k == 'expect':
                return a[0]
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)$', n)
        if m:
            w, sg = int(m.group(3)), m.group(1) == 's'
            f = {'add': D.add, 'sub': D.sub, 'mul': D.mul}[m.group(2)]
            r = f(D.wrap(a[0], w, sg), D.wrap(a[1], w, sg))
            l, h = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return Agg([D.wrap(r, w, False), int(self.truth(D.lt(r, l)) or self.truth(D.lt(h, r)))])
        if n in ('abs', 'labs', 'llabs'):
            w = 32 if n == 'abs' else 64
            s = D.wrap(a[0], w, True)
            return D.wrap(D.neg(s), w, False) if self.truth(D.lt(s, 0)) else a[0]
        if n == '__cxa_guard_acquire':
            return 1
        if n in ('__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort'):
            return 0
        if n == '__dynamic_cast':
            raise Lost('dynamic_cast')
        raise Lost('call of external function %s' % n)


class Agg:
    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.items))


class Part:
    def __init__(self, v, i):
        self.v, self.i = v, i


class Not(Cond):
    def __init__(self, c):
        self.bit = c.bit
