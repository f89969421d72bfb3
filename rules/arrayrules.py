"""Arrays of the three runtime libraries: abstract interpretation of the array classes, their traits and the delta packing,
compared with the array encodings of the Zserio Encoding Guide."""
import absdom as D
import arrays as A
import runtimes as R
from rtrules import ERR, attempt, bits_differ, differ, fold, mine, ob, octet, show, varint_bits, word

HALVES = {0x3f800000: 0x3c00, 0xc0200000: 0xc100, 0x7f800000: 0x7c00}  # rule R04 decides the conversion itself


def element(kind, spec, i):
    """A value of the element type; together with the splits of its bits every value (the longest forms only once)."""
    e, n, signed = spec
    nm = 'e%d' % i
    if e == 'bits':
        if n < 64 or signed:
            return D.sym(nm, n, signed)
        return D.mk([D.SP.var((nm, k)) if k in (0, 1, 7, 8, 40, 63) else k & 1 for k in range(64)])
    if e == 'bool':
        return D.sym(nm, 1)
    if e == 'float16':
        return list(HALVES)[i % 3]
    if e == 'float32':
        return D.sym(nm, 32)
    if e == 'float64':
        return D.sym(nm, 64)
    if e in ('bytes', 'string'):
        return [D.mk([D.SP.var(('%s.%d' % (nm, j), k)) for k in range(7)] + [0]) for j in range((2, 0, 1)[i % 3])]
    if e == 'bitbuffer':
        k = (11, 8, 0)[i % 3]
        bits = [D.SP.var((nm, j)) for j in range(k)]
        return R.to_bytes(bits), k
    w = {'varint16': 15, 'varint32': 29, 'varint64': 57, 'varint': 63, 'varuint16': 15, 'varuint32': 29, 'varuint64': 57, 'varuint': 20, 'varsize': 31}[e]
    w = w - 1 if e in ('varint16', 'varint32', 'varint64') else w
    if i == 1:
        return D.sym(nm, w)
    return -70 - i if signed else 70 + i


def encode(spec, v):
    e, n, _ = spec
    if e == 'bits':
        return R.msb(v, n)
    if e == 'bool':
        return R.msb(v, 1)
    if e == 'float16':
        return R.msb(HALVES[v], 16)
    if e in ('float32', 'float64'):
        return R.msb(v, int(e[5:]))
    if e in ('bytes', 'string'):
        return varint_bits('varsize', len(v)) + R.from_bytes(v)
    if e == 'bitbuffer':
        return varint_bits('varsize', v[1]) + R.from_bytes(v[0])[:v[1]]
    b = varint_bits(e, v)
    if b == ERR:
        raise D.Lost('element out of range')
    return b


def length(d):
    """Number of bits of the magnitude."""
    m = D.neg(d) if D.decide(D.lt(d, 0)) else d
    k = 0
    while not D.decide(D.lt(m, 1 << k)):
        k += 1
    return k


def packing(spec, elems):
    """(is packed, number of bits) a writer has to choose."""
    sizes = [len(encode(spec, v)) for v in elems]
    if len(elems) < 2:
        return False, 0
    m = max(length(D.sub(b, a)) for a, b in zip(elems, elems[1:]))
    if m > 62:
        return False, 0
    cost = 7 + sizes[0] + (len(elems) - 1) * (m + 1 if m else 0)
    return cost < 1 + sum(sizes), m


def layout(spec, mode, elems, start, packed=None, pad=lambda i: 0):
    """Bits of the array from bit `start` on and the byte offsets of the elements; packed: None or (is packed, number of bits)."""
    out, log = [], []
    if mode.endswith('auto'):
        out += varint_bits('varsize', len(elems))
    for i, v in enumerate(elems):
        if mode.startswith('aligned'):
            while (start + len(out)) % 8:
                out.append(pad(len(out)))
            log.append((i, (start + len(out)) // 8))
        if packed and i == 0:
            out += [1] + R.msb(packed[1], 6) if packed[0] else [0]
        if packed and packed[0] and i:
            if packed[1]:
                out += R.msb(D.sub(v, elems[i - 1]), packed[1] + 1)
        else:
            out += encode(spec, v)
    return out, log


def equal_elems(spec, got, want):
    if len(got) != len(want):
        return '%d elements, must be %d' % (len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if spec[0] == 'bitbuffer':
            n = b[1]
            if a[1] != n:
                return 'element %d has %s bits, must have %d' % (i, a[1], n)
            a, b = D.mk(R.from_bytes(a[0])[:n][::-1]), D.mk(R.from_bytes(b[0])[:n][::-1])
        d = differ(a, b)
        if d:
            return 'element %d: %s' % (i, d)
    return None


def failed(got):
    return got == ERR or isinstance(got, tuple) and got and got[0] == 'fault'


def write_check(l, kind, spec, mode, packed, make, pre):
    elems = make()
    p = R.pre_bits(pre)
    bits, log = layout(spec, mode, elems, pre, packing(spec, elems) if packed else None)
    got = attempt(l, lambda: A.LANGS[l]().arr_write(kind, mode, packed, elems, p))
    if failed(got):
        return 'got %s' % show(got)
    return bits_differ(got[:2], (p + bits, pre + len(bits))) or (None if got[2] == log else 'offsets checked %s, must be %s' % (got[2], log))


def size_check(l, kind, spec, mode, packed, make, pre):
    elems = make()
    bits, _ = layout(spec, mode, elems, pre, packing(spec, elems) if packed else None)
    got = attempt(l, lambda: A.LANGS[l]().arr_size(kind, mode, packed, elems, pre))
    return 'got %s' % show(got) if failed(got) else differ(got, len(bits))


def offsets_check(l, kind, spec, mode, packed, make, pre):
    elems = make()
    bits, log = layout(spec, mode, elems, pre, packing(spec, elems) if packed else None)
    got = attempt(l, lambda: A.LANGS[l]().arr_offsets(kind, mode, packed, elems, pre))
    if failed(got):
        return 'got %s' % show(got)
    return differ(got[0], pre + len(bits)) or (None if got[1] == log else 'offsets set %s, must be %s' % (got[1], log))


def read_check(l, kind, spec, mode, packed, make, pre, form=None, tail=5, cut=0):
    elems = make()
    bits, log = layout(spec, mode, elems, pre, (form or packing(spec, elems)) if packed else None, lambda i: D.SP.var(('pad', i)))
    if mode == 'implicit':
        tail = min(tail, len(encode(spec, element(kind, spec, 0))) - 1)
    stream = [D.SP.var(('before', i)) for i in range(pre)] + bits
    end = len(stream)
    stream += [D.SP.var(('after', i)) for i in range(tail)]
    if cut:
        stream = stream[:end - cut]
    got = attempt(l, lambda: A.LANGS[l]().arr_read(kind, mode, packed, len(elems), stream, pre))
    if cut:
        return None if got == ERR else 'a stream that ends %d bits too early is read without an error: %s' % (cut, show(got))
    if failed(got):
        return 'got %s' % show(got)
    return equal_elems(spec, got[0], elems) or differ(got[1], end) or (None if got[2] == log else 'offsets checked %s, must be %s' % (got[2], log))


def plain(c):
    """Arrays that are not packed, of every element kind in every mode."""
    job = 0
    for l in c.langs:
        for kind, spec in A.kinds(l).items():
            for mode in A.MODES:
                if mode == 'implicit' and kind not in A.FIXED:
                    continue
                job += 1
                if not mine(c, job):
                    continue
                for n in (0, 1, 2, 3):
                    for pre in (0, 5) if n == 2 else (5,):
                        def make(n=n):
                            return [element(kind, spec, i) for i in range(n)]
                        site = '%s %s array of %d %s at bit %d' % (l, mode, n, kind, pre)
                        for rule, check in (('array-write', write_check), ('array-read', read_check), ('array-size', size_check), ('array-offsets', offsets_check)):
                            ob(c, rule, site, lambda: check(l, kind, spec, mode, False, make, pre), 4000)
                        if n and pre and mode != 'implicit' and not kind.startswith('var'):
                            ob(c, 'array-truncated', site, lambda: read_check(l, kind, spec, mode, False, make, pre, cut=1), 4000)


def some(nm, n):
    """A value of n bits of which a few are symbolic."""
    return D.mk([D.SP.var((nm, k)) if k in (0, 1, n // 2, n - 2, n - 1) else k & 1 for k in range(n)])


def packed_inputs(spec):
    """[(name, make)]: arrays for which writers have to choose each form."""
    e, n, signed = spec
    var = e != 'bits'
    w = n or {'varint16': 14, 'varint32': 28, 'varint64': 56, 'varint': 63, 'varuint16': 15, 'varuint32': 29, 'varuint64': 57, 'varuint': 64, 'varsize': 31}[e]
    if var:
        signed = e.startswith('varint')
    top = (1 << (w - 1 if signed and not var else w)) - 1
    low = -top if var else -top - 1
    u = w - 1 if signed and not var else w  # bits of the non-negative values
    if e == 'varuint':
        u = 20

    def k(*vs):
        return lambda: list(vs)
    out = [('0 elements', k()), ('1 element', lambda: [D.sym('e0', u)]), ('equal elements', lambda: [D.sym('e0', u)] * 3),
           ('equal elements, 2', lambda: [D.sym('e0', u)] * 2),
           ('0 and a value', lambda: [0, D.sym('e1', u)]), ('0 and values up to 3', lambda: [0] + [D.sym('e%d' % i, 2) for i in (1, 2)] + [3, 3]),
           ('the largest value and small steps back', k(top, top - 1, top - 2, top - 3, top - 1)),
           ('zeros and a value', k(0, 0, 0, 0, 9, 0)), ('far apart', k(0, top, 0, top))]
    if signed:
        out += [('a negative value and 0', lambda: [D.neg(D.sym('e0', min(u, 7))), 0, 0]),
                ('0 and a negative value', lambda: [0, 0, D.neg(some('e0', u))]),
                ('both ends', k(low, top)), ('both ends, long', k(top, low, low, low, low, low)), ('-1 and 0', k(-1, 0, -1, 0, -1, -1, -1, -1)),
                ('low end', k(low, low + 1, low + 3, low))]
    for d in (1, 2, 3, 4, 7, 8, 15, 16, 31):  # steps on the limits of the delta widths
        if 3 * d <= top:
            out.append(('steps of %d' % d, k(*[i % 4 * d for i in range(7)])))
    for m in sorted({w - 1, w - 2, w // 2, 61, 62, 63}):
        if 0 < m and (1 << m) <= top:
            out.append(('deltas of %d and %d bits' % (m, m + 1), k(*([0, (1 << m) - 1, 0, (1 << m) - 1] * 3))))
            if signed:
                out.append(('deltas of -2^%d' % m, k(*([1, 1 - (1 << m), 1] * 3))))
            out.append(('a delta of 2^%d' % m, k(*([0, 1 << m, 0] * 3))))
    return out


def forced(spec):
    """[(name, form, make)]: streams a reader has to take, also those no writer chooses."""
    e, n, signed = spec
    w = n or 14
    out = [('descriptor 0', (False, 0), lambda: [D.sym('e%d' % i, min(w, 13) - 1) if n or i == 1 else 9 + i for i in range(3)]),
           ('deltas of 0 bits', (True, 0), lambda: [D.sym('e0', min(w, 14) - 1)] * 3)]
    for m in (1, 2, 3, 7, 8, 15, 16, 24, 31, 32, 40, 47, 48, 55, 56, 61, 62):
        if m < (w if not signed else w - 1):
            def make(m=m, s=1):
                mid = 0 if signed else 1 << m
                d = D.sym('d1', m)
                return [mid, D.add(mid, d)]

            def back(m=m):
                return [1 << m, D.sub(1 << m, some('d1', m))]

            def steps(m=m):
                return [1, 2, (1 << m), (1 << m), 1, 0, 1]
            out += [('a delta of %d bits' % m, (True, m), make), ('a negative delta of %d bits' % m, (True, m), back), ('steps with %d bits' % m, (True, m), steps)]
    return out


SHORT = ('0 elements', '1 element', 'equal elements', 'steps of 1', 'steps of 2', 'both ends', 'far apart')

FEW = ('u5', 'i13', 'u32', 'i64', 'u64', 'varuint', 'varint32', 'varsize', 'di41')  # kinds the other modes are looked at with


def delta(c):
    """Packed arrays of every integer kind."""
    job = 0
    for l in c.langs:
        for kind, spec in A.KINDS.items():
            if kind not in A.kinds(l):
                continue
            for mode in A.MODES[:4]:
                if mode != 'auto' and kind not in FEW and c.tier == 'quick':
                    continue
                job += 1
                if not mine(c, job):
                    continue
                cases = packed_inputs(spec)
                if kind not in FEW and c.tier == 'quick':
                    cases = [x for x in cases if x[0] not in ('0 and a value', '0 and a negative value', '0 and values up to 3')]
                if mode != 'auto':
                    cases = [x for x in cases if x[0] in SHORT]
                for what, make in cases:
                    for pre in (0, 3) if mode == 'aligned_auto' else (0,) if mode == 'auto' else (3,):
                        site = '%s %s packed array of %s, %s, at bit %d' % (l, mode, kind, what, pre)
                        for rule, check in (('packed-write', write_check), ('packed-read', read_check), ('packed-size', size_check), ('packed-offsets', offsets_check)):
                            if rule == 'packed-offsets' and mode == 'normal' or l != 'cpp' and rule == 'packed-size' and mode == 'normal':
                                continue
                            ob(c, rule, site, lambda: check(l, kind, spec, mode, True, make, pre), 4000)
                if mode != 'auto':
                    continue
                for what, form, make in forced(spec):
                    ob(c, 'packed-read', '%s stream with %s of %s' % (l, what, kind), lambda: read_check(l, kind, spec, mode, True, make, 0, form), 4000)


def sample(spec, i):
    e, n, signed = spec
    if e in ('bytes', 'string'):
        return [65 + i, 66]
    if e == 'bitbuffer':
        return [65 + i, 0xe0], 11
    if e == 'bool':
        return i % 2
    if e.startswith('float'):
        return (0x4048f5c3 + i) << (32 if e == 'float64' else 0)
    return -3 - i if signed else 3 + i


def content(c):
    """Arrays are equal exactly when they have the same elements, and their hash codes are those of the elements."""
    for l in c.langs if c.shard[0] == 0 else ():
        if not hasattr(A.LANGS[l], 'arr_same'):
            continue
        for kind, spec in A.kinds(l).items():
            a, b = sample(spec, 0), sample(spec, 1)
            for xs, ys in (([], []), ([a, b], [a, b]), ([a, b], [a, a]), ([a, b], [b, b]), ([a, b], [a]), ([a], [a, b]), ([a, b], [b, a]), ([], [a])):
                def run():
                    got = attempt(l, lambda: A.LANGS[l]().arr_same(kind, xs, ys))
                    if failed(got):
                        return 'got %s' % show(got)
                    if got[0] != (xs == ys):
                        return '%s and %s are taken as %sequal' % (xs, ys, '' if got[0] else 'not ')
                    h = 23
                    for v in xs:
                        h = hash_of(l, A.LANGS[l], spec, h, v)
                    return differ(got[1], h)
                ob(c, 'array-equality', '%s %s, %d and %d elements' % (l, kind, len(xs), len(ys)), run)


def hash_of(l, lang, spec, h, v):
    e, n, signed = spec
    if e in ('bytes', 'string'):
        for x in v:
            h = fold(h, x)
        return h
    if e == 'bitbuffer':
        b = R.from_bytes(v[0])[:v[1]]
        full = 23
        for i in range(0, v[1] // 8 * 8, 8):
            full = fold(full, D.mk(b[i:i + 8][::-1]))
        full = fold(full, octet(l, 'bytes', D.mk(([0] * (8 - v[1] % 8)) + b[v[1] // 8 * 8:][::-1])))
        return fold(h, full)
    if e.startswith('float'):
        return fold(h, word('double', v) if e == 'float64' else v)
    if l == 'java' and lang().store([k for k, s in A.kinds(l).items() if s == spec][0]) in ('Long', 'BigInteger'):
        return fold(h, word('int64', D.wrap(v, 64, False)))
    return fold(h, v)


def arrays(c):
    content(c)
    plain(c)
    delta(c)
