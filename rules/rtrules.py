"""Runtime libraries: abstract interpretation of the Python sources, the Java class files and the C++ LLVM IR over bit
vectors, compared with the encoding the Zserio Encoding Guide prescribes."""
import os
import traceback
import absdom as D
import build
import report
import runtimes as R
from runtimes import Raise

VARINTS = {  # bits of value per byte (the first byte of signed ones also carries the sign)
    'varint16': (6, 8), 'varint32': (6, 7, 7, 8), 'varint64': (6,) + (7,) * 6 + (8,), 'varint': (6,) + (7,) * 7 + (8,),
    'varuint16': (7, 8), 'varuint32': (7, 7, 7, 8), 'varuint64': (7,) * 7 + (8,), 'varuint': (7,) * 8 + (8,), 'varsize': (7, 7, 7, 7, 8)}
SIGNED = ('varint16', 'varint32', 'varint64', 'varint')
ERRORS = {'cpp': ('exception',)}
ERR = ('error',)


def maxbits(kind):
    return 31 if kind == 'varsize' else sum(VARINTS[kind])


def attempt(lang, f):
    """Result of f, or ERR when the analysed code reports an error; any other failure of it is described."""
    try:
        return f()
    except Raise as e:
        if lang in ERRORS and e.what not in ERRORS[lang]:
            return ('fault', e.what)
        return ERR


def differ(got, want):
    """None when equal for every input of the class; asks for smaller classes when that is not decided."""
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return 'got %s, must be %s' % (show(got), show(want))
        for i, (a, b) in enumerate(zip(got, want)):
            d = differ(a, b)
            if d:
                return '%s at position %d' % (d, i) if len(want) > 2 else d
        return None
    if isinstance(got, (list, tuple)):
        return 'got %s, must be %s' % (show(got), show(want))
    if isinstance(got, bool):
        got = int(got)
    if isinstance(want, str) or isinstance(got, str) or got is None or want is None:
        return None if got == want else 'got %s, must be %s' % (show(got), show(want))
    if isinstance(got, D.Cond):
        got = D.boolval(got)
    if got == want:
        return None
    if isinstance(got, int) and isinstance(want, int):
        return 'got %d, must be %d' % (got, want)
    a, b = got, want
    if isinstance(a, D.Lin) or isinstance(b, D.Lin):
        for x in (a, b):
            for t in (x.t if isinstance(x, D.Lin) else [x]):
                split_any(t)
        raise D.Lost('comparison of %s and %s' % (a, b))
    n = max(D.width(a), D.width(b))
    for x, y in zip(D.vec(a, n), D.vec(b, n)):
        if x != y and D.b_xor(x, y) == 1:
            return 'got %s, must be %s' % (show(got), show(want))
    for x, y in zip(D.vec(a, n), D.vec(b, n)):
        if x != y:
            raise D.Split(D.b_xor(x, y))
    return None


def split_any(t):
    if isinstance(t, D.Aff):
        t = t.m
    if isinstance(t, D.Sym):
        for b in t.bits + (t.ext,):
            if b not in (0, 1):
                raise D.Split(b)
    if isinstance(t, tuple):
        for x in t:
            split_any(x)
    if isinstance(t, D.Lin):
        for x in t.t:
            split_any(x)


def bits_differ(got, want):
    if got in (ERR,) or isinstance(got, tuple) and got and got[0] == 'fault' or want == ERR:
        return None if got == want else 'got %s, must be %s' % (show(got), show(want))
    gb, gp = got
    wb, wp = want
    if not isinstance(gp, int):
        gp = D.known(gp, 'position')
    if gp != wp:
        return 'position %s afterwards, must be %s' % (gp, wp)
    if len(gb) < wp:
        return 'only %d bits are there' % len(gb)
    for i in range(wp):
        x, y = gb[i], wb[i]
        if x != y:
            d = D.b_xor(x, y)
            if d == 1:
                return 'bit %d of the stream is %s, must be %s' % (i, lit(x), lit(y))
            raise D.Split(d)
    return None


def lit(x):
    return str(x) if x in (0, 1) else ('not ' if x < 0 else '') + D.name(abs(x))


def show(v):
    if v == ERR:
        return 'an error'
    if isinstance(v, tuple) and v and v[0] == 'fault':
        return 'a fault (%s)' % v[1]
    return str(v)[:300]


def cls(fixed):
    """Input class in readable form."""
    by = {}
    for k, v in fixed.items():
        nm, i = k if isinstance(k, tuple) else (k, 0)
        by.setdefault(str(nm), {})[i] = v
    out = []
    for nm, d in sorted(by.items()):
        if all(isinstance(i, int) for i in d):
            out.append('%s=%s' % (nm, ''.join(str(d.get(i, '?')) for i in range(max(d), -1, -1))))
        else:
            out.append('%s=%s' % (nm, d))
    return ', '.join(out) or 'all values'


def ob(c, rule, site, run, limit=1500):
    n = 0
    try:
        for fixed, d in D.partitions(run, limit):
            n += 1
            if d is not None:
                c.ob(rule, site, '%s (inputs %s)' % (d, cls(fixed)))
                return
    except D.Lost as e:
        c.undecided.append('%s %s: %s' % (rule, site, str(e)[:160]))
        return
    except build.BuildFailure:
        raise
    except Exception:
        c.undecided.append('%s %s: %s' % (rule, site, traceback.format_exc().strip().splitlines()[-1][:160]))
        return
    c.classes += n
    c.ob(rule, site, None, '%d input classes' % n)


# ---------------------------------------------------------------- varints

def varint_bits(kind, v):
    """The bits of v, most significant first, or ERR when it is out of range."""
    form = VARINTS[kind]
    signed = kind in SIGNED
    sign, m = 0, v
    total = maxbits(kind)
    if signed:
        if D.decide(D.lt(v, 0)):
            sign, m = 1, D.neg(v)
        if kind == 'varint' and sign and not D.decide(D.lt(m, 1 << 63)):
            return [1] + [0] * 7 if D.decide(D.eq(m, 1 << 63)) else ERR
    elif D.decide(D.lt(v, 0)):
        return ERR
    if not D.decide(D.lt(m, 1 << total)):
        return ERR
    k, acc = 1, form[0]
    while k < len(form) and not D.decide(D.lt(m, 1 << (acc if k < len(form) else total))):
        acc += form[k] if k < len(form) - 1 else 0
        k += 1
    # k bytes; the last one of the longest form has 8 bits of value
    widths = [form[0]] + [7] * (k - 1)
    if k == len(form):
        widths[-1] = 8
    n = sum(widths)
    b = D.vec(m, n)[::-1]
    out = []
    for i, w in enumerate(widths):
        if i == 0 and signed:
            out.append(sign)
        if not (i == len(form) - 1):
            out.append(1 if i < k - 1 else 0)
        out += b[:w]
        b = b[w:]
    return out


def inputs(kind):
    """[(name, make)]: together every value of the type the functions take."""
    if kind in SIGNED:
        w = {'varint16': 16, 'varint32': 32, 'varint64': 64, 'varint': 64}[kind] - 1
        return [('values 0 to 2^%d - 1' % w, lambda: D.sym('v', w)), ('values -1 to -2^%d + 1' % w, lambda: D.neg(D.sym('v', w))),
                ('-2^%d' % w, lambda: -(1 << w))]
    w = {'varuint16': 16, 'varuint32': 32, 'varuint64': 64, 'varuint': 64, 'varsize': 32}[kind]
    return [('values 0 to 2^%d - 1' % w, lambda: D.sym('v', w))]


def java_inputs(kind):
    """Java types are wider or signed."""
    if kind == 'varuint16':
        return [('short >= 0', lambda: D.sym('v', 15)), ('short < 0', lambda: D.sub(-1, D.sym('v', 15)))]
    if kind in ('varuint32', 'varsize'):
        return [('int >= 0', lambda: D.sym('v', 31)), ('int < 0', lambda: D.sub(-1, D.sym('v', 31)))]
    if kind == 'varuint64':
        return [('long >= 0', lambda: D.sym('v', 63)), ('long < 0', lambda: D.sub(-1, D.sym('v', 63)))]
    if kind == 'varuint':
        return inputs(kind) + [('below 0', lambda: D.sub(-1, D.sym('v', 8))), ('2^64 and above', lambda: D.add(1 << 64, D.sym('v', 8)))]
    return inputs(kind)


def py_inputs(kind):
    """Python integers are unbounded."""
    w = {'varint16': 16, 'varint32': 32, 'varint64': 64, 'varint': 64, 'varuint16': 17, 'varuint32': 33, 'varuint64': 65, 'varuint': 65, 'varsize': 33}[kind]
    return [('non-negative, %d bits' % w, lambda: D.sym('v', w)), ('negative, %d bits' % w, lambda: D.neg(D.sym('v', w)) if kind in SIGNED else D.sub(-1, D.sym('v', w)))]


IN = {'python': py_inputs, 'java': java_inputs, 'cpp': inputs}


def stream(n):
    return [D.SP.var(('b', i)) for i in range(n)]


def varints(c):
    """Writers, readers and size functions of the variable length integers."""
    for l in c.langs:
        for k, kind in enumerate(VARINTS):
            if not mine(c, k):
                continue
            for pre in (0, 3):
                for what, mk in IN[l](kind):
                    def run(kind=kind, pre=pre, mk=mk):
                        v = mk()
                        p = R.pre_bits(pre)
                        want = varint_bits(kind, v)
                        got = attempt(l, lambda: R.LANGS[l]().write(kind, v, None, p))
                        return bits_differ(got, want if want == ERR else (p + want, pre + len(want)))
                    ob(c, 'varint-write', '%s %s, %s, at bit %d' % (l, kind, what, pre), run)
                n = 8 * len(VARINTS[kind])  # the longest encoding

                def run(kind=kind, pre=pre, n=n):
                    b = stream(pre + n)
                    got = attempt(l, lambda: R.LANGS[l]().read(kind, None, b, pre))
                    return read_differ(l, kind, got, b, pre)
                ob(c, 'varint-read', '%s %s at bit %d' % (l, kind, pre), run)
            for what, mk in IN[l](kind):
                def run(kind=kind, mk=mk):
                    v = mk()
                    want = varint_bits(kind, v)
                    got = attempt(l, lambda: R.LANGS[l]().size(kind, v))
                    return differ(got, want if want == ERR else len(want))
                ob(c, 'varint-size', '%s %s, %s' % (l, kind, what), run)


def read_differ(l, kind, got, b, pre):
    form = VARINTS[kind]
    b = b[pre:]
    i, sign, val, k = 0, None, [], 0
    while True:
        if k == 0 and kind in SIGNED:
            sign = b[0]
            i = 1
        more = 0
        if k < len(form) - 1:
            more = b[i]
            i += 1
        w = form[k] if k < len(form) - 1 else 8
        val += b[i:i + w]
        i += w
        k += 1
        if k == len(form) or not bit(more):
            break
    m = D.mk(val[::-1])
    if kind == 'varsize' and not D.decide(D.lt(m, 1 << 31)):
        want = ERR
    elif sign is not None and bit(sign):
        zero = kind == 'varint' and D.decide(D.eq(m, 0))
        if zero and k > 1:
            return None  # no writer produces this
        want = (-(1 << 63) if zero else D.neg(m), pre + i)
    else:
        want = (m, pre + i)
    if want == ERR or got == ERR or got[0] == 'fault':
        return None if got == want else 'got %s, must be %s' % (show(got), show(want))
    return differ(got[0], want[0]) or differ(got[1], want[1])


def bit(b):
    if b in (0, 1):
        return b
    raise D.Split(b)


# ---------------------------------------------------------------- fixed width

def mine(c, k):
    return k % c.shard[1] == c.shard[0]


def fixed(c):
    """Writers and readers of integers of every width at every position, on the boundaries of the range as well."""
    job = 0
    for l in c.langs:
        for signed in (False, True):
            for n in range(1, 65):
                for kind in R.LANGS[l]().kinds(n, signed):
                    job += 1
                    if not mine(c, job):
                        continue
                    big = kind in ('big', 'sbig')  # one class of inputs per length
                    if big and n not in (1, 2, 7, 8, 9, 16, 17, 33, 63, 64) and c.tier == 'quick':
                        continue
                    for pre in range(8) if not big or c.tier != 'quick' else (0, 3):
                        def run(kind=kind, n=n, pre=pre, signed=signed):
                            v = D.sym('v', n, signed)
                            p = R.pre_bits(pre)
                            got = attempt(l, lambda: R.LANGS[l]().write(kind, v, n, p))
                            return bits_differ(got, (p + R.msb(v, n), pre + n))
                        ob(c, 'bits-write', '%s %s, %d bits at bit %d' % (l, kind, n, pre), run)

                        def run(kind=kind, n=n, pre=pre, signed=signed):
                            b = stream(pre + n)
                            got = attempt(l, lambda: R.LANGS[l]().read(kind, n, b, pre))
                            if got == ERR or got[0] == 'fault':
                                return 'got %s' % show(got)
                            x = b[pre:][::-1]
                            want = D.mk(x[:-1], x[-1]) if signed else D.mk(x)
                            return differ(got[0], want) or differ(got[1], pre + n)
                        ob(c, 'bits-read', '%s %s, %d bits at bit %d' % (l, kind, n, pre), run)


WIDTH = {'bits': 32, 'signed': 32, 'bits64': 64, 'signed64': 64}
JWIDTH = {'bits': 64, 'signed': 64, 'big': 70, 'sbig': 70, 's8': 8, 's16': 16, 's32': 32, 's64': 64, 'u8': 16, 'u16': 32, 'u32': 64}


def ranges(c):
    """A value that does not fit its width is refused by the writers, and never written in part."""
    job = 0
    for l in c.langs:
        for signed in (False, True):
            for n in range(1, 65):
                for kind in R.LANGS[l]().kinds(n, signed):
                    if kind.endswith('_u') or kind == 'sbig' or kind == 'big' or kind in ('s8', 's16', 's32', 's64'):
                        continue
                    w = {'cpp': WIDTH, 'java': JWIDTH}.get(l, {}).get(kind, 66)
                    if n >= w:
                        continue
                    job += 1
                    if not mine(c, job):
                        continue
                    for side, mk in ((('below', lambda w=w: D.sub(-1, D.sym('v', w - 1))),) if signed or l != 'cpp' else ()) + (
                            ('above', lambda w=w: D.sym('v', w - 1 if signed or l == 'java' and w in (16, 32, 64) else w)),):
                        def run(kind=kind, n=n, signed=signed, mk=mk):
                            v = mk()
                            lo, hi = (-(1 << (n - 1)), 1 << (n - 1)) if signed else (0, 1 << n)
                            ok = not D.decide(D.lt(v, lo)) and D.decide(D.lt(v, hi))
                            got = attempt(l, lambda: R.LANGS[l]().write(kind, v, n, []))
                            if ok:
                                return bits_differ(got, (R.msb(v, n), n))
                            return None if got == ERR else 'a value out of range is written: %s' % show(got)
                        ob(c, 'range-check', '%s %s, %d bits, %s' % (l, kind, n, side), run)


def others(c):
    """Booleans, floating point, byte sequences and alignment."""
    for l in c.langs:
        lang = R.LANGS[l]
        for pre in range(8):
            if not mine(c, pre):
                continue

            def run(pre=pre):
                p = R.pre_bits(pre)
                v = D.sym('v', 1)
                got = attempt(l, lambda: lang().write('bool', bool(D.decide(v)) if l == 'python' else v, None, p))
                return bits_differ(got, (p + D.vec(v, 1), pre + 1))
            ob(c, 'bool-write', '%s at bit %d' % (l, pre), run)

            def run(pre=pre):
                b = stream(pre + 1)
                return read_is(attempt(l, lambda: lang().read('bool', None, b, pre)), D.mk([b[pre]]), pre + 1)
            ob(c, 'bool-read', '%s at bit %d' % (l, pre), run)
            for w in (32, 64):
                def run(pre=pre, w=w):
                    p, v = R.pre_bits(pre), D.sym('v', w)
                    got = attempt(l, lambda: lang().write('float%d' % w, v, None, p))
                    return bits_differ(got, (p + R.msb(v, w), pre + w))
                ob(c, 'float-write', '%s float%d at bit %d' % (l, w, pre), run)

                def run(pre=pre, w=w):
                    b = stream(pre + w)
                    return read_is(attempt(l, lambda: lang().read('float%d' % w, None, b, pre)), D.mk(b[pre:][::-1]), pre + w)
                ob(c, 'float-read', '%s float%d at bit %d' % (l, w, pre), run)
            for n in (0, 1, 2, 3):
                for kind in ('bytes', 'string'):
                    def run(pre=pre, n=n, kind=kind):
                        p, v = R.pre_bits(pre), [char(i, kind) for i in range(n)]
                        got = attempt(l, lambda: lang().write(kind, v, None, p))
                        return bits_differ(got, (p + D.vec(n, 8)[::-1] + R.from_bytes(v), pre + 8 + 8 * n))
                    ob(c, 'bytes-write', '%s %s of %d bytes at bit %d' % (l, kind, n, pre), run)

                    def run(pre=pre, n=n, kind=kind):
                        v = [char(i, kind) for i in range(n)]
                        b = R.pre_bits(pre) + D.vec(n, 8)[::-1] + R.from_bytes(v)
                        return read_is(attempt(l, lambda: lang().read(kind, None, b, pre)), v, pre + 8 + 8 * n)
                    ob(c, 'bytes-read', '%s %s of %d bytes at bit %d' % (l, kind, n, pre), run)
            for n in (0, 1, 5, 7, 8, 9, 13, 16, 17, 24):
                def run(pre=pre, n=n):
                    p, v = R.pre_bits(pre), stream(n)
                    got = attempt(l, lambda: lang().write('bitbuffer', (R.to_bytes(v + padded(n, 'a')[n:]), n), None, p))
                    return bits_differ(got, (p + D.vec(n, 8)[::-1] + v, pre + 8 + n))
                ob(c, 'bitbuffer-write', '%s %d bits at bit %d' % (l, n, pre), run)

                def run(pre=pre, n=n):
                    v = stream(n)
                    b = R.pre_bits(pre) + D.vec(n, 8)[::-1] + v
                    got = attempt(l, lambda: lang().read('bitbuffer', None, b, pre))
                    if got == ERR or got[0] == 'fault':
                        return 'got %s' % show(got)
                    (bs, k), pos = got
                    d = differ(k, n) or differ(pos, pre + 8 + n) or differ(len(bs), (n + 7) // 8)
                    return d or bits_differ((R.from_bytes(bs[:n // 8]) + last_bits(bs, n), n), (v, n))
                ob(c, 'bitbuffer-read', '%s %d bits at bit %d' % (l, n, pre), run)
        for k, a in enumerate((1, 2, 3, 5, 7, 8, 12, 16, 32, 64)):
            if not mine(c, k):
                continue
            for pre in sorted({0, 1, 3, 7, 8, 13, a - 1, a, a + 1} - {-1}):
                end = (pre + a - 1) // a * a

                def run(pre=pre, a=a, end=end):
                    p = R.pre_bits(pre)
                    got = attempt(l, lambda: lang().write('align', a, None, p))
                    return bits_differ(got, (p + [0] * (end - pre), end))
                ob(c, 'align-write', '%s to %d bits at bit %d' % (l, a, pre), run)

                def run(pre=pre, a=a, end=end):
                    b = stream(128 + 8)
                    got = attempt(l, lambda: lang().read('align', None, b, pre, a))
                    if got == ERR or got[0] == 'fault':
                        return 'got %s' % show(got)
                    return differ(got[1], end)
                ob(c, 'align-read', '%s to %d bits at bit %d' % (l, a, pre), run)


def char(i, kind):
    return D.sym('c%d' % i, 7 if kind == 'string' else 8)


def last_bits(bs, n):
    return R.from_bytes(bs[n // 8:])[:n % 8] if n % 8 else []


def read_is(got, want, pos):
    if got == ERR or got[0] == 'fault':
        return 'got %s' % show(got)
    return differ(got[0], want) or differ(got[1], pos)


# ---------------------------------------------------------------- sizes

def sizes(c):
    """Size functions of the types of dynamic size."""
    for l in c.langs:
        lang = R.LANGS[l]
        for n in (0, 1, 2, 5, 126, 127, 128, 129, 300):
            for kind in ('bytes', 'string'):
                def run(n=n, kind=kind):
                    got = attempt(l, lambda: lang().size(kind, [char(i, kind) for i in range(n)]))
                    return differ(got, 8 * n + (8 if n < 128 else 16))
                ob(c, 'bytes-size', '%s %s of %d bytes' % (l, kind, n), run)
        for n in (0, 1, 7, 8, 9, 15, 16, 17, 126, 127, 128, 129, 300):
            def run(n=n):
                got = attempt(l, lambda: lang().size('bitbuffer', (R.to_bytes(stream(n)), n)))
                return differ(got, n + (8 if n < 128 else 16))
            ob(c, 'bitbuffer-size', '%s bitbuffer of %d bits' % (l, n), run)


# ---------------------------------------------------------------- bounds

FIXED = {'bool': 1, 'float16': 16, 'float32': 32, 'float64': 64}


def truncated(c):
    """Reading beyond the end of the stream is an error."""
    job = 0
    for l in c.langs:
        lang = R.LANGS[l]
        for signed in (False, True):
            for n in range(1, 65):
                for kind in lang().kinds(n, signed):
                    job += 1
                    if not mine(c, job):
                        continue
                    for pre in (0, 5):
                        for short in sorted({1, n // 2, n} - {0}):
                            def run(kind=kind, n=n, pre=pre, short=short):
                                got = attempt(l, lambda: lang().read(kind, n, stream(pre + n - short), pre))
                                return None if got == ERR else 'got %s' % show(got)
                            ob(c, 'bits-truncated', '%s %s, %d bits at bit %d of a stream %d bits too short' % (l, kind, n, pre, short), run)
                        def run(kind=kind, n=n, pre=pre):
                            got = attempt(l, lambda: lang().read(kind, n, stream(pre + n - 1), pre, extra=2))
                            return None if got == ERR else 'got %s' % show(got)
                        ob(c, 'bits-truncated', '%s %s, %d bits at bit %d of a stream 1 bit too short, with bytes behind it' % (l, kind, n, pre), run)
        if c.shard[0]:
            continue
        for kind, n in FIXED.items():
            for pre in (0, 3):
                for short in sorted({1, n // 2, n} - {0}):
                    def run(kind=kind, n=n, pre=pre, short=short):
                        got = attempt(l, lambda: lang().read(kind, None, stream(pre + n - short), pre))
                        return None if got == ERR else 'got %s' % show(got)
                    ob(c, 'value-truncated', '%s %s at bit %d of a stream %d bits too short' % (l, kind, pre, short), run)
        for kind, form in VARINTS.items():
            for pre in (0, 3):
                for have in range(len(form)):
                    for cut in (0, 1, 4):
                        def run(kind=kind, have=have, cut=cut, pre=pre):
                            b = stream(pre)
                            for i in range(have):
                                x = [D.SP.var(('b%d' % i, j)) for j in range(8)]
                                x[1 if i == 0 and kind in SIGNED else 0] = 1
                                b += x
                            b += [D.SP.var(('t', j)) for j in range(cut)]
                            got = attempt(l, lambda: lang().read(kind, None, b, pre))
                            return None if got == ERR else 'got %s' % show(got)
                        ob(c, 'varint-truncated', '%s %s at bit %d, the stream ends %d bits after byte %d' % (l, kind, pre, cut, have), run)
        for kind in ('bytes', 'string', 'bitbuffer'):
            unit = 1 if kind == 'bitbuffer' else 8
            for pre in (0, 3):
                for n in (1, 2, 9, 17) if unit == 1 else (1, 2, 3):
                    for short in sorted({1, 8, n * unit} - {x for x in (1, 8) if x > n * unit}):
                        def run(kind=kind, n=n, pre=pre, short=short, unit=unit):
                            b = R.pre_bits(pre) + D.vec(n, 8)[::-1]
                            b += [0 if kind == 'string' and i % 8 == 0 else D.SP.var(('b', i)) for i in range(n * unit - short)]
                            got = attempt(l, lambda: lang().read(kind, None, b, pre))
                            return None if got == ERR else 'got %s' % show(got)
                        ob(c, 'bytes-truncated', '%s %s of %d units at bit %d of a stream %d bits too short' % (l, kind, n, pre, short), run)


def capacity(c):
    """The C++ writer never writes beyond its buffer, and does not write at all without one."""
    lang = R.Cpp
    kinds = [(k, n) for n in (1, 7, 8, 9, 31, 32) for k in ('bits', 'signed')] + [(k, n) for n in (1, 8, 33, 63, 64) for k in ('bits64', 'signed64')]
    for pre in (0, 5):
        todo = []
        for kind, n in kinds:
            todo.append((kind, n, lambda n=n, kind=kind: D.sym('v', n, 'signed' in kind), n))
        for kind, n in FIXED.items():
            if kind != 'float16':
                todo.append((kind, None, lambda n=n: D.sym('v', n), n))
        for kind, form in VARINTS.items():
            for k in range(1, len(form) + 1):
                lo = sum(form[:k - 1])
                todo.append((kind, None, lambda lo=lo: 1 << lo if lo else 0, 8 * k))
        for n in (0, 1, 3):
            todo.append(('bytes', None, lambda n=n: [char(i, 'bytes') for i in range(n)], 8 + 8 * n))
            todo.append(('string', None, lambda n=n: [char(i, 'string') for i in range(n)], 8 + 8 * n))
        for n in (0, 3, 8, 13):
            todo.append(('bitbuffer', None, lambda n=n: (R.to_bytes(stream(n)), n), 8 + n))
        for kind, n, mk, size in todo:
            for room in sorted({0, size // 2, size - 1, size, size + 1}):
                def run(kind=kind, n=n, mk=mk, size=size, room=room, pre=pre):
                    got = attempt('cpp', lambda: lang().write_into(kind, mk(), n, pre, pre + room))
                    return differ(got, ERR if room < size else pre + size) if not (got == ERR and room < size) else None
                ob(c, 'capacity', '%s of %d bits at bit %d with room for %d' % (kind, size, pre, room), run)

            def run(kind=kind, n=n, mk=mk, size=size, pre=pre):
                return differ(attempt('cpp', lambda: lang().write_dummy(kind, mk(), n, pre)), pre + size)
            ob(c, 'no-buffer', '%s of %d bits at bit %d' % (kind, size, pre), run)


# ---------------------------------------------------------------- floating point

def half_from_single(v):
    """IEEE 754 conversion to half precision, ties away from zero; NaN stays NaN (the payload is not prescribed)."""
    b = D.vec(v, 32)
    sign, exp, sig = b[31], D.mk(b[23:31]), D.mk(b[:23])
    e = D.known(exp, 'exponent')
    if e == 255:
        return sign, 31, None if not D.decide(D.eq(sig, 0)) else 0
    e -= 127
    if e > 15:
        return sign, 31, 0
    if e < -24:  # below half of the smallest subnormal number, or rounded towards it
        return sign, 0, 0
    full = D.mk(b[:23] + [1])
    drop = 13 if e >= -14 else 13 + (-14 - e)
    q = D.shr(full, drop)
    up = bool(bit(D.vec(full, drop)[drop - 1]))
    if up:
        q = D.add(q, 1)
    base = (e + 14) << 10 if e >= -14 else 0  # the hidden bit adds one to the exponent
    return sign, None, D.add(q, base)


def single_from_half(v):
    b = D.vec(v, 16)
    sign, e, sig = b[15], D.known(D.mk(b[10:15]), 'exponent'), b[:10]
    if e == 31:
        return sign, 255, sig
    if e:
        return sign, e - 15 + 127, sig
    for i in range(9, -1, -1):
        if bit(sig[i]):
            return sign, i - 24 + 127, [0] * (10 - i) + sig[:i]
    return sign, 0, [0] * 10


def floats(c):
    """Half precision conversion."""
    for l in c.langs:
        lang = R.LANGS[l]

        def from_differ(got, v):
            if got == ERR or isinstance(got, tuple):
                return 'got %s' % show(got)
            s, e, q = half_from_single(v)
            g = D.vec(got, 17)
            if e == 31 and q is None:
                return (differ(D.mk(g[10:15]), 31) or differ(D.mk([g[15]]), D.mk([s])) or
                        ('a NaN becomes infinity' if D.decide(D.eq(D.mk(g[:10]), 0)) else None))
            want = D.bor(D.mk([0] * 15 + [s]), (e << 10) + q if e is not None else q)
            return differ(got, want)

        def run():
            v = D.sym('v', 32)
            return from_differ(attempt(l, lambda: lang().f16_from(v)), v)
        ob(c, 'float16-from-float', l, run, 6000)

        def run():
            v = D.sym('v', 16)
            s, e, sig = single_from_half(v)
            got = attempt(l, lambda: lang().f16_to(v))
            if got == ERR or isinstance(got, tuple):
                return 'got %s' % show(got)
            want = D.mk([0] * 13 + list(sig) + D.vec(e, 8) + [s])
            if e == 255 and D.decide(D.eq(D.mk(sig), 0)) is False:
                g = D.vec(got, 32)
                return differ(D.mk(g[23:]), D.mk(D.vec(e, 8) + [s])) or ('a NaN becomes infinity' if D.decide(D.eq(D.mk(g[:23]), 0)) else None)
            return differ(got, want)
        ob(c, 'float16-to-float', l, run, 6000)
        for pre in (0, 3):
            if not mine(c, pre):
                continue

            def run(pre=pre):
                p, v = R.pre_bits(pre), D.sym('v', 32)
                got = attempt(l, lambda: lang().write('float16', v, None, p))
                if got == ERR or got[0] == 'fault':
                    return 'got %s' % show(got)
                return bits_differ((got[0][:pre], got[1]), (p, pre + 16)) if (D.known(got[1], 'position'), tuple(got[0][:pre])) != (pre + 16, tuple(p)) else \
                    from_differ(D.mk(got[0][pre:pre + 16][::-1]), v)
            ob(c, 'float16-write', '%s at bit %d' % (l, pre), run, 6000)

            def run(pre=pre):
                b = stream(pre + 16)
                s, e, sig = single_from_half(D.mk(b[pre:][::-1]))
                got = attempt(l, lambda: lang().read('float16', None, b, pre))
                if got == ERR or got[0] == 'fault':
                    return 'got %s' % show(got)
                if e == 255 and D.decide(D.eq(D.mk(sig), 0)) is False:
                    g = D.vec(got[0], 32)
                    return differ(D.mk(g[23:]), D.mk(D.vec(e, 8) + [s])) or ('a NaN becomes infinity' if D.decide(D.eq(D.mk(g[:23]), 0)) else None)
                return differ(got[0], D.mk([0] * 13 + list(sig) + D.vec(e, 8) + [s])) or differ(got[1], pre + 16)
            ob(c, 'float16-read', '%s at bit %d' % (l, pre), run, 6000)


def bounds(c):
    truncated(c)
    ranges(c)
    if 'cpp' in c.langs and c.shard[0] == c.shard[1] - 1:
        capacity(c)


def io(c):
    fixed(c)
    others(c)


def content(c):
    hashes(c)
    bitbuffers(c)


def helpers(c):
    limits(c)
    sizes(c)


# ---------------------------------------------------------------- hash codes

def fold(seed, x):
    return D.wrap(D.add(D.mul(37, seed), x), 32, False)


HASHED = {'bool': 1, 'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64, 'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64, 'float': 32, 'double': 64}


def word(kind, v):
    """What a value contributes: itself, or both halves of a value of 64 bits combined."""
    if HASHED[kind] == 64:
        return D.bxor(D.mk(D.vec(v, 32)), D.mk(D.vec(v, 64)[32:]))
    return v


def octet(l, kind, x):
    """Java bytes are signed."""
    return D.wrap(x, 8, True) if l == 'java' and kind == 'bytes' else x


def hashes(c):
    """Hash functions of the three languages compute the same value."""
    for l in c.langs if c.shard[0] == 0 else ():
        lang = R.LANGS[l]
        for kind, w in HASHED.items():
            def run(kind=kind, w=w):
                v = D.sym('v', w, kind.startswith('int'))
                seed = D.sym('seed', 32)
                got = attempt(l, lambda: lang().hash(kind, seed, v))
                return differ(got, fold(seed, word(kind, v)))
            ob(c, 'hash-value', '%s %s' % (l, kind), run)

            def run(kind=kind, w=w):
                vs = [D.sym('v%d' % i, w, kind.startswith('int')) for i in range(2)]
                seed = D.sym('seed', 32)
                got = attempt(l, lambda: lang().hash_array(kind, seed, vs))
                want = seed
                for v in vs:
                    want = fold(want, v if l == 'python' and 'int' in kind else word(kind, v))
                return differ(got, want)
            ob(c, 'hash-array', '%s %s' % (l, kind), run)
        if hasattr(lang, 'absent'):
            for k in lang().absent():
                def run(k=k):
                    seed = D.sym('seed', 32)
                    return differ(attempt(l, lambda: lang().absent()[k](seed)), fold(seed, 0))
                ob(c, 'hash-absent', '%s %s' % (l, k), run)
        if hasattr(lang, 'hash_boxed'):
            for kind in ('bool', 'int8', 'int16', 'int32', 'int64', 'float', 'double'):
                def run(kind=kind):
                    v = D.sym('v', HASHED[kind], kind.startswith('int'))
                    seed = D.sym('seed', 32)
                    return differ(attempt(l, lambda: lang().hash_boxed(kind, seed, v)), fold(seed, word(kind, v)))
                ob(c, 'hash-boxed', '%s %s' % (l, kind), run)
        if hasattr(lang, 'hash_sequence'):
            for kind in ('string', 'bytes', 'bitbuffer'):
                def run(kind=kind):
                    seed = D.sym('seed', 32)
                    vs = [[D.sym('c%d%d' % (i, j), 7) for j in range(i + 1)] for i in range(2)]
                    want = seed
                    for v in vs:
                        e = 23 if kind == 'bitbuffer' else want
                        for x in v:
                            e = fold(e, x)
                        want = fold(want, e) if kind == 'bitbuffer' else e
                    if kind == 'bitbuffer':
                        vs = [(v, 8 * len(v)) for v in vs]
                    return differ(attempt(l, lambda: lang().hash_sequence(kind, seed, vs)), want)
                ob(c, 'hash-sequence', '%s %s' % (l, kind), run)
        for n in (0, 1, 2, 3):
            for kind in ('string', 'bytes'):
                def run(n=n, kind=kind):
                    v = [char(i, kind) for i in range(n)]
                    seed = D.sym('seed', 32)
                    want = seed
                    for x in v:
                        want = fold(want, octet(l, kind, x))
                    return differ(attempt(l, lambda: lang().hash(kind, seed, v)), want)
                ob(c, 'hash-bytes', '%s %s of %d bytes' % (l, kind, n), run)
        for n in (0, 1, 5, 7, 8, 9, 16, 19):
            def run(n=n):
                seed = D.sym('seed', 32)
                b = stream(n)
                want = 23
                for i in range(0, n // 8 * 8, 8):
                    want = fold(want, octet(l, 'bytes', D.mk(b[i:i + 8][::-1])))
                if n % 8:
                    want = fold(want, octet(l, 'bytes', D.mk(([0] * (8 - n % 8)) + b[n // 8 * 8:][::-1])))
                got = attempt(l, lambda: lang().hash('bitbuffer', seed, (R.to_bytes(b + padded(n, 'a')[n:]), n)))
                return differ(got, fold(seed, want))
            ob(c, 'hash-bitbuffer', '%s %d bits' % (l, n), run)


def bitbuffers(c):
    """Bit buffers are equal exactly when they have the same number of bits and the same bits; what lies behind them in the
    last byte does not count."""
    for l in c.langs:
        lang = R.LANGS[l]
        def pair(n, m, a, b, want, site):
            ob(c, 'bitbuffer-equality', '%s %d and %d bits%s' % (l, n, m, site), lambda: differ(int(attempt(
                l, lambda: lang().bitbuffer_eq((R.to_bytes(a()), n), (R.to_bytes(b()), m)))), want), 3000)
        for k, n in enumerate((0, 1, 3, 7, 8, 9, 11, 16, 17, 24, 27)):
            if not mine(c, k):
                continue
            for m in sorted({n + 1, max(0, n - 1), n + 8} - {n}):
                pair(n, m, lambda: padded(n, 'a'), lambda: padded(m, 'b'), 0, '')
            pair(n, n, lambda: padded(n, 'x'), lambda: padded(n, 'y'), 1, ' with the same content')
            if hasattr(lang, 'bitbuffer_less'):
                def order(site, a, b, want):
                    ob(c, 'bitbuffer-order', '%s %d bits%s' % (l, n, site), lambda: differ(int(attempt(
                        l, lambda: lang().bitbuffer_less((R.to_bytes(a()), n), (R.to_bytes(b()), n)))), want()), 3000)
                order(' with the same content', lambda: padded(n, 'x'), lambda: padded(n, 'y'), lambda: 0)
                for j in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
                    def second(n=n, j=j):
                        b = padded(n, 'y')
                        return b[:j] + [D.b_not(b[j])] + [D.SP.var(('z', i)) for i in range(len(b) - j - 1)]
                    order(' that differ in bit %d first' % j, lambda: padded(n, 'x'), second, lambda j=j: int(D.decide(D.eq(D.mk([D.SP.var(('bit', j))]), 0))))
            for j in range(n):
                def other(n=n, j=j):
                    b = padded(n, 'y')
                    b[j] = D.b_not(b[j])
                    return b
                pair(n, n, lambda: padded(n, 'x'), other, 0, ' that differ in bit %d' % j)


def padded(n, tag):
    """n bits and, up to the next byte, others that do not belong to the buffer."""
    return [D.SP.var(('bit', i)) for i in range(n)] + [D.SP.var((tag, i)) for i in range(-n % 8)]


def limits(c):
    """Bounds of bit fields, numbits, alignment."""
    for l in c.langs:
        lang = R.LANGS[l]
        for signed in (False, True):
            for n in range(1, 65 if signed or l != 'java' else 64):
                ob(c, 'bitfield-bounds', '%s lower bound, %s %d bits' % (l, 'signed' if signed else 'unsigned', n), lambda n=n, signed=signed:
                   differ(attempt(l, lambda: lang().lower(n, signed)), -(1 << (n - 1)) if signed else 0))
                ob(c, 'bitfield-bounds', '%s upper bound, %s %d bits' % (l, 'signed' if signed else 'unsigned', n), lambda n=n, signed=signed:
                   differ(attempt(l, lambda: lang().upper(n, signed)), (1 << (n - 1)) - 1 if signed else (1 << n) - 1))

        for a in (1, 2, 3, 5, 7, 8, 12, 16, 32, 64):
            for pos in sorted({0, 1, 3, 7, 8, 13, a - 1, a, a + 1, 1000, (1 << 31) - 1} - {-1}):
                ob(c, 'align-position', '%s to %d bits at bit %d' % (l, a, pos), lambda a=a, pos=pos:
                   differ(attempt(l, lambda: lang().align_to(a, pos)), (pos + a - 1) // a * a))

        def run():
            v = D.sym('v', 64)
            want = 0
            if D.decide(D.lt(v, 2)):
                want = D.known(v, 'value') and 1
            else:
                x = D.sub(v, 1)
                while D.decide(D.lt(0, x)):
                    x = D.shr(x, 1)
                    want += 1
            return differ(attempt(l, lambda: lang().numbits(v)), want)
        ob(c, 'numbits', l, run, 5000)
        if hasattr(lang, 'numbits_long'):
            def run():
                v = D.sym('v', 63)
                want = 0
                if D.decide(D.lt(v, 2)):
                    want = D.known(v, 'value') and 1
                else:
                    x = D.sub(v, 1)
                    while D.decide(D.lt(0, x)):
                        x = D.shr(x, 1)
                        want += 1
                return differ(attempt(l, lambda: lang().numbits_long(v)), want)
            ob(c, 'numbits', l + ' (integral argument)', run, 5000)
        converted(c, l, lang)


def converted(c, l, lang):
    """Conversions between bits and bytes, sizes, isset and lengthof."""
    def to_bytes(v):
        return ERR if v % 8 else v // 8
    want = {'to-bytes': to_bytes, 'to-bits': lambda v: v * 8, 'round-bytes': lambda v: (v + 7) // 8,
            'size-int': lambda v: v if v < 1 << 31 else ERR, 'size-32': lambda v: v if v < 1 << 32 else ERR}
    for k in lang().helpers():
        for v in (0, 1, 7, 8, 9, 15, 16, 100, 4096, 65535, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 33) + 8, (1 << 60) - 8):
            ob(c, 'size-conversion', '%s %s of %d' % (l, k, v), lambda k=k, v=v: differ(attempt(l, lambda: lang().helpers()[k](v)), want[k](v)))
    if hasattr(lang, 'isset'):
        for w in (8, 16, 32, 64):
            def run(w=w):
                full = (1 << w) - 1
                for i in range(w):
                    for v, m in ((full ^ 1 << i, 1 << i), (full ^ 1 << i, full), (1 << i, 1 << i), (full, full), (0, 1 << i), (0, 0), (1 << i, 0),
                                 (1 << i, 3 << i & full | 1)):
                        if attempt(l, lambda: lang().isset(v, m, w)) != (v & m == m):
                            return 'wrong for value %#x and mask %#x' % (v, m)
            ob(c, 'isset', '%s %d bits' % (l, w), run)
    if hasattr(lang, 'lengthof'):
        for n in (0, 1, 3, 200):
            ob(c, 'lengthof', '%s string of %d bytes' % (l, n), lambda n=n: differ(attempt(l, lambda: lang().lengthof([char(i, 'string') for i in range(n)])), n))


def per_runtime(func, floors=(), langs=("cpp", "java", "python"), shards=1, unit=R.cpp_unit):
    """func for one language (and shard) per process."""
    def whole(c):
        def only(l, s):
            def f(k):
                k.langs, k.shard = (l,), (s, shards)
                func(k)
            return f

        if 'java' in langs:
            build.runtime_classes()
        if 'cpp' in langs:
            unit()
        report.jobs(c, [only(l, s) for s in range(shards) for l in langs])
        for r, n in floors:
            c.floor(r, n)
    return whole
