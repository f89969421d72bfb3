"""Abstract integers for the runtime analyses: bit vectors in two's complement whose bits are 0, 1 or a literal that says
which input bit (or which boolean combination of input bits) they are; differences from a constant; linear forms. A branch
that such a value does not decide asks for a finer partition of the inputs (Split)."""


class Split(Exception):
    def __init__(self, bit):
        self.bit = abs(bit)


class Lost(Exception):
    """The abstraction is too coarse for what the code does here."""


class Space:
    """Literals of one analysis run: positive ids, negated by sign. Fixed literals are replaced by their value."""

    def __init__(self, fixed=None):
        self.n, self.names, self.memo, self.fixed = 1, {}, {}, fixed or {}

    def var(self, name):
        k = ('v', name)
        if k not in self.memo:
            self.n += 1
            self.memo[k] = self.n
            self.names[self.n] = name
        i = self.memo[k]
        return self.fixed.get(i, i)

    def op(self, o, a, b):
        if a > b:
            a, b = b, a
        k = (o, a, b)
        if k not in self.memo:
            self.n += 1
            self.memo[k] = self.n
            self.names[self.n] = k
        i = self.memo[k]
        return self.fixed.get(i, i)


SP = Space()
# bits: 0, 1 are constants; literals are ints >= 2 or <= -2; the complement of literal l is -l


def b_not(a):
    return 1 - a if a in (0, 1) else -a


def b_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    if a == -b:
        return 0
    return SP.op('&', a, b)


def b_or(a, b):
    return b_not(b_and(b_not(a), b_not(b)))


def b_xor(a, b):
    if a in (0, 1):
        return b_not(b) if a else b
    if b in (0, 1):
        return b_not(a) if b else a
    if a == b:
        return 0
    if a == -b:
        return 1
    s = (a < 0) != (b < 0)
    r = SP.op('^', abs(a), abs(b))
    return b_not(r) if s else r


def b_maj(a, b, c):
    for x, y, z in ((a, b, c), (a, c, b), (b, c, a)):
        if x == y:
            return x
        if x == b_not(y):
            return z
    return b_or(b_or(b_and(a, b), b_and(a, c)), b_and(b, c))


class Val:
    def __repr__(self):
        return str(self)


class Sym(Val):
    """sum bits[i] 2^i - ext 2^n"""

    __slots__ = ('bits', 'ext')

    def __init__(self, bits, ext=0):
        self.bits, self.ext = tuple(bits), ext

    def __eq__(self, o):
        return isinstance(o, Sym) and (self.bits, self.ext) == (o.bits, o.ext)

    def __hash__(self):
        return hash((self.bits, self.ext))

    def bit(self, i):
        return self.bits[i] if i < len(self.bits) else self.ext

    def __str__(self):
        def s(b):
            return str(b) if b in (0, 1) else ('~' if b < 0 else '') + name(abs(b))
        return '<%s|%s>' % (s(self.ext), ' '.join(s(b) for b in reversed(self.bits)))


def name(i):
    n = SP.names.get(i, i)
    if isinstance(n, tuple) and len(n) == 3 and n[0] in ('&', '^'):
        return '?'
    return ''.join(map(str, n)) if isinstance(n, tuple) else str(n)


class Aff(Val):
    """base - m for a non-negative Sym m"""

    __slots__ = ('base', 'm')

    def __init__(self, base, m):
        self.base, self.m = base, m

    def __eq__(self, o):
        return isinstance(o, Aff) and (self.base, self.m) == (o.base, o.m)

    def __hash__(self):
        return hash((self.base, self.m))

    def __str__(self):
        return '(%d - %s)' % (self.base, self.m)


class Lin(Val):
    """c + sum k*atom, taken modulo 2^w when w is set; atoms are Syms (or opaque tuples)."""

    __slots__ = ('c', 't', 'w', 's')

    def __init__(self, c, t, w=None, s=False):
        if w:
            c %= 1 << w
            t = {a: k % (1 << w) for a, k in t.items()}
        self.c, self.t, self.w, self.s = c, {a: k for a, k in t.items() if k}, w, s

    def key(self):
        return (self.c, frozenset(self.t.items()), self.w, self.s)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __str__(self):
        return '(%s%s)' % (' + '.join(['%d*%s' % (k, a) for a, k in self.t.items()] + [str(self.c)]), ' mod 2^%d' % self.w if self.w else '')


def mk(bits, ext=0):
    """Smallest form; a plain int when nothing is unknown."""
    bits = list(bits)
    while bits and bits[-1] == ext:
        bits.pop()
    if ext in (0, 1) and all(b in (0, 1) for b in bits):
        v = sum(b << i for i, b in enumerate(bits))
        return v - (ext << len(bits))
    return Sym(bits, ext)


def sym(nm, width, signed=False):
    bits = [SP.var((nm, i)) for i in range(width)]
    return mk(bits[:-1], bits[-1]) if signed else mk(bits)


def vec(v, n):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return [(v >> i) & 1 for i in range(n)]
    if isinstance(v, Sym):
        return [v.bit(i) for i in range(n)]
    if isinstance(v, Aff) or isinstance(v, Lin) and v.w is None:
        return vec(settle(v), n)
    if isinstance(v, Lin):
        if n <= v.w:
            return vec(settle(whole(v)), n)
        return vec(wrap(settle(whole(v)), v.w, v.s), n)
    raise Lost('bits of %s' % (v,))


def whole(v):
    """The sum a residue is of, with coefficients around zero."""
    return Lin(v.c, {a: k - (1 << v.w) if k >> (v.w - 1) else k for a, k in v.t.items()})


def settle(v):
    """A sum of few terms as a bit vector, carries included."""
    if isinstance(v, Lin) and v.w is not None:
        return wrap(settle(whole(v)), v.w, v.s)
    c, t = terms(v)
    if sum(bin(k % (1 << 64)).count('1') if k > 0 else bin(-k).count('1') for k in t.values()) > 4 or not all(isinstance(a, (Sym, Lin)) for a in t):
        raise Lost('bits of %s' % (v,))
    r = c
    for a, k in t.items():
        if isinstance(a, Lin):
            a = settle(a)
        for i in range(abs(k).bit_length()):
            if abs(k) >> i & 1:
                x = shl(a, i)
                r = ripple(r, x) if k > 0 else minus(r, x)
    return r


def minus(r, x):
    n = Sym([b_not(b) for b in x.bits], b_not(x.ext)) if isinstance(x, Sym) else ~x
    return ripple(r + 1, n) if isinstance(r, int) else ripple(ripple(r, 1), n)


def width(v):
    if isinstance(v, int):
        return v.bit_length() + 1
    if isinstance(v, Sym):
        return len(v.bits) + 1
    if isinstance(v, Aff):
        return max(width(v.base), width(v.m)) + 1
    if isinstance(v, Lin):
        return v.w + 1 if v.w is not None else width(settle(v))
    raise Lost('width of %s' % (v,))


def ext(v):
    return vec(v, width(v) + 1)[-1]


def lo(v):
    if isinstance(v, int):
        return v
    if isinstance(v, Sym):
        return sum(1 << i for i, b in enumerate(v.bits) if b == 1) - (0 if v.ext == 0 else 1 << len(v.bits))
    if isinstance(v, Aff):
        return v.base - hi(v.m)
    if isinstance(v, Lin):
        return lo(settle(v) if v.w is None else wrap(settle(whole(v)), v.w, v.s))
    raise Lost('range of %s' % (v,))


def hi(v):
    if isinstance(v, int):
        return v
    if isinstance(v, Sym):
        return sum(1 << i for i, b in enumerate(v.bits) if b != 0) - (1 << len(v.bits) if v.ext == 1 else 0)
    if isinstance(v, Aff):
        return v.base - lo(v.m)
    if isinstance(v, Lin):
        return hi(settle(v) if v.w is None else wrap(settle(whole(v)), v.w, v.s))
    raise Lost('range of %s' % (v,))


def opaque(v):
    return not isinstance(v, (int, Sym, Aff, Lin))


def bitwise(f, a, b):
    n = max(width(a), width(b))
    x, y = vec(a, n), vec(b, n)
    return mk([f(p, q) for p, q in zip(x[:-1], y[:-1])], f(x[-1], y[-1]))


def band(a, b):
    if isinstance(a, Lin) and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
        return wrap(a, b.bit_length(), False)
    if isinstance(b, Lin):
        return band(b, a) if not isinstance(a, Lin) else bitwise(b_and, a, b)
    return bitwise(b_and, a, b)


def bor(a, b):
    return bitwise(b_or, a, b)


def bxor(a, b):
    return bitwise(b_xor, a, b)


def bnot(a):
    if isinstance(a, int):
        return ~a
    if isinstance(a, Sym):
        return mk([b_not(b) for b in a.bits], b_not(a.ext))
    return sub(neg(a), 1)


def shl(a, n):
    n = known(n, 'shift by')
    if n < 0 or n > 4096:
        raise Lost('shift by %d' % n)
    if isinstance(a, int):
        return a << n
    if isinstance(a, Sym):
        return mk((0,) * n + a.bits, a.ext)
    return mul(a, 1 << n)


def shr(a, n):
    """Arithmetic shift of the infinite two's complement form (floor division by 2^n)."""
    n = known(n, 'shift by')
    if n < 0:
        raise Lost('shift by %d' % n)
    if isinstance(a, int):
        return a >> n
    if isinstance(a, Sym):
        return mk(a.bits[n:], a.ext)
    if isinstance(a, Aff) and hi(a) < 0 and n >= width(a):
        return -1
    v = vec(a, max(width(a), n) + 1)
    return mk(v[n:-1], v[-1])


def known(v, what):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Sym):
        raise Split(next(b for b in reversed(v.bits + (v.ext,)) if b not in (0, 1)))
    if isinstance(v, Aff):
        known(v.m, what)
    if isinstance(v, Lin):
        s = settle(v)
        if isinstance(s, int):
            return s
        for a in v.t:
            if isinstance(a, Sym):
                known(a, what)
        known(s, what)
    raise Lost('%s %s' % (what, v))


def terms(v):
    if isinstance(v, bool):
        return int(v), {}
    if isinstance(v, int):
        return v, {}
    if isinstance(v, Lin):
        if v.w:
            return 0, {v: 1}
        return v.c, v.t
    if isinstance(v, Aff):
        return v.base, {v.m: -1}
    return 0, {v: 1}


def lin(c, t):
    t = {a: k for a, k in t.items() if k}
    if not t:
        return c
    if len(t) == 1:
        a, k = next(iter(t.items()))
        if k == 1 and c == 0:
            return a
        if k == -1 and isinstance(a, Sym) and a.ext == 0:
            return Aff(c, a)
    return Lin(c, t)


def ripple(a, b):
    n = max(width(a), width(b)) + 1
    x, y, c, out = vec(a, n), vec(b, n), 0, []
    for p, q in zip(x, y):
        out.append(b_xor(b_xor(p, q), c))
        c = b_maj(p, q, c)
    return mk(out[:-1], out[-1])


def plain(b):
    return b in (0, 1) or not isinstance(SP.names.get(abs(b)), tuple) or SP.names[abs(b)][0] not in ('&', '^')


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if a == 0:
        return b
    if b == 0:
        return a
    if isinstance(a, Sym) and isinstance(b, (Sym, int)) or isinstance(b, Sym) and isinstance(a, int):
        n = max(width(a), width(b)) + 1
        if all(p == 0 or q == 0 for p, q in zip(vec(a, n), vec(b, n))):
            return bor(a, b)
        if isinstance(a, int) or isinstance(b, int):
            s, k = (a, b) if isinstance(a, Sym) else (b, a)
            if k and not (k & (k - 1) if k > 0 else ~k & (~k + 1) and False):
                r = ripple(a, b)
                if all(plain(x) for x in (r.bits + (r.ext,) if isinstance(r, Sym) else ())):
                    return r
            r = ripple(a, b)
            if isinstance(r, int) or all(plain(x) for x in r.bits + (r.ext,)):
                return r
    if isinstance(a, Aff) and isinstance(b, int):
        return Aff(a.base + b, a.m)
    if isinstance(b, Aff) and isinstance(a, int):
        return Aff(b.base + a, b.m)
    c1, t1 = terms(a)
    c2, t2 = terms(b)
    t = dict(t1)
    for x, k in t2.items():
        t[x] = t.get(x, 0) + k
    return lin(c1 + c2, t)


def neg(a):
    if isinstance(a, int):
        return -a
    if isinstance(a, Aff) and a.base == 0:
        return a.m
    if isinstance(a, Sym) and a.ext == 0:
        return Aff(0, a)
    c, t = terms(a)
    return lin(-c, {x: -k for x, k in t.items()})


def sub(a, b):
    if isinstance(a, Sym) and isinstance(b, int):
        return add(a, -b)
    if isinstance(a, int) and isinstance(b, Sym) and b.ext == 0:
        n = b.bits
        if a == (1 << len(n)) - 1:
            return mk([b_not(x) for x in n])
        return Aff(a, b)
    return add(a, neg(b))


def mul(a, b):
    if isinstance(b, int) and not isinstance(a, int):
        a, b = b, a
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int):
        if a == 0:
            return 0
        if a == 1:
            return b
        if a > 0 and a & (a - 1) == 0 and isinstance(b, Sym):
            return shl(b, a.bit_length() - 1)
        if a == -1:
            return neg(b)
        c, t = terms(b)
        return lin(c * a, {x: k * a for x, k in t.items()})
    return Lin(0, {('*',) + tuple(sorted((a, b), key=repr)): 1})


def floordiv(a, b):
    b = known(b, 'division by')
    if isinstance(a, int):
        if b == 0:
            raise ZeroDivisionError
        return a // b
    if b > 0 and b & (b - 1) == 0:
        return shr(a, b.bit_length() - 1)
    raise Lost('division of %s by %d' % (a, b))


def floormod(a, b):
    b = known(b, 'division by')
    if isinstance(a, int):
        return a % b
    if b > 0 and b & (b - 1) == 0:
        return band(a, b - 1)
    raise Lost('remainder of %s by %d' % (a, b))


def truncdiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    if decide(lt(a, 0)):
        return neg(floordiv(neg(a), b))
    return floordiv(a, b)


def truncmod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return abs(a) % abs(b) * (1 if a >= 0 else -1)
    if decide(lt(a, 0)):
        return neg(floormod(neg(a), b))
    return floormod(a, b)


def wrap(v, w, signed):
    """v modulo 2^w, as a signed or unsigned number."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        v &= (1 << w) - 1
        return v - (1 << w) if signed and v >> (w - 1) else v
    if isinstance(v, Sym):
        x = vec(v, w)
        return mk(x[:-1], x[-1]) if signed else mk(x)
    if isinstance(v, Aff):
        l, h = lo(v), hi(v)
        a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        k = (l - a) >> w
        if (h - a) >> w == k:
            return Aff(v.base - (k << w), v.m) if k else v
        return wrap(Sym(vec(v, w)), w, signed)
    if isinstance(v, Lin):
        if v.w is not None and v.w < w and (signed or not v.s):
            return v
        c, t = (0, {v: 1}) if v.w is not None and v.w < w else (v.c, dict(v.t))
        # a residue inside a residue of the same or a larger power dissolves
        again = True
        while again:
            again = False
            for a, k in list(t.items()):
                if isinstance(a, Lin) and (a.w is None or a.w >= w):
                    t.pop(a)
                    c += a.c * k
                    for x, j in a.t.items():
                        t[x] = t.get(x, 0) + j * k
                    again = True
                elif isinstance(a, Sym) and len(a.bits) < w and a.ext not in (0, 1):
                    n = mk(vec(a, w))
                    t.pop(a)
                    t[n] = t.get(n, 0) + k
                    again = True
        m = 1 << w
        t = {a: k % m for a, k in t.items() if k % m}
        c %= m
        if len(t) == 1 and c == 0 and next(iter(t.values())) == 1 and isinstance(next(iter(t)), Sym):
            return wrap(next(iter(t)), w, signed)
        if not t:
            return wrap(c, w, signed)
        return Lin(c, t, w, signed)
    raise Lost('conversion of %s' % (v,))


class Cond:
    """A comparison that is not decided yet."""

    def __init__(self, bit):
        self.bit = bit


def split_bit(*vs):
    best = None
    for v in vs:
        s = v.m if isinstance(v, Aff) else v
        if isinstance(s, Lin):
            s = settle(s)
        if isinstance(s, Sym):
            for i, b in [(len(s.bits) + 1, s.ext)] + list(reversed(list(enumerate(s.bits)))):
                if b not in (0, 1):
                    if best is None or i > best[0]:
                        best = (i, b)
                    break
    return best[1]


def lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    if a == b:
        return False
    try:
        if hi(a) < lo(b):
            return True
        if lo(a) >= hi(b):
            return False
    except Lost:
        d = sub(a, b)
        if isinstance(d, int):
            return d < 0
        raise
    return Cond(split_bit(a, b))


def eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a == b:
        return True
    if isinstance(a, Lin):
        a = settle(a)
    if isinstance(b, Lin):
        b = settle(b)
    if hi(a) < lo(b) or lo(a) > hi(b):
        return False
    if isinstance(a, (Sym, int)) and isinstance(b, (Sym, int)):
        n = max(width(a), width(b))
        for x, y in zip(vec(a, n), vec(b, n)):
            if x == b_not(y):
                return False
        for x, y in zip(vec(a, n), vec(b, n)):
            if x != y and x not in (0, 1):
                return Cond(x)
            if x != y and y not in (0, 1):
                return Cond(y)
    return Cond(split_bit(a, b))


def decide(c):
    if isinstance(c, Cond):
        raise Split(c.bit)
    if isinstance(c, bool):
        return c
    if isinstance(c, int):
        return c != 0
    if isinstance(c, Sym):
        if c.ext == 1 or 1 in c.bits:
            return True
        raise Split(next(b for b in reversed(c.bits + (c.ext,)) if b not in (0, 1)))
    if isinstance(c, Aff):
        return decide(eq(c, 0)) is False
    raise Lost('branch on %s' % (c,))


def boolval(c):
    """0/1 value of a comparison, kept as a bit when it is one."""
    if isinstance(c, Cond):
        raise Split(c.bit)
    return int(c)


def partitions(run, limit=4096):
    """Runs the analysis on the whole input space and, where a branch is not decided, on both halves of it.
    run() is called with a fresh literal space; yields (fixed bits by name, result of run)."""
    global SP
    todo, n = [{}], 0
    while todo:
        fixed = todo.pop()
        n += 1
        if n > limit:
            raise Lost('more than %d input classes' % limit)
        SP = Space()
        SP.want = fixed
        SP.fixed = Fixed(fixed)
        try:
            r = run()
        except Split as s:
            nm = SP.names.get(s.bit)
            if nm is None:
                raise Lost('branch on an unknown bit')
            nm = base_var(s.bit)
            if nm in fixed:
                raise Lost('branch on a value that the input class does not decide')
            todo += [dict(fixed, **{nm: 1}), dict(fixed, **{nm: 0})] if isinstance(nm, str) else [{**fixed, nm: 1}, {**fixed, nm: 0}]
            continue
        yield fixed, r


def base_var(i):
    """Name of an input bit the literal depends on."""
    while True:
        nm = SP.names[abs(i)]
        if isinstance(nm, tuple) and len(nm) == 3 and nm[0] in ('&', '^'):
            i = nm[1]
            continue
        return nm


class Fixed:
    def __init__(self, by_name):
        self.by = by_name

    def get(self, i, default):
        nm = SP.names.get(i)
        return self.by.get(nm, default)
