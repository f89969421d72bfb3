"""The arrays of the three runtime libraries for abstract interpretation: sizes, offsets, writing and reading."""
import functools
import os
import absdom as D
import absjvm
import absllvm
import abspy
import build
import runtimes as R
from abspy import Float, Lost, Seq, Text

# name of an element kind: (kind of encoding, width, signed)
KINDS = {'%s%d' % (k, n): ('bits', n, k == 'i') for n in (5, 13, 27, 41, 8, 16, 32, 64) for k in 'ui'}
KINDS.update({'du5': ('bits', 5, False), 'di41': ('bits', 41, True)})
KINDS.update({k: (k, None, k.startswith('varint')) for k in ('varint16', 'varint32', 'varint64', 'varint', 'varuint16', 'varuint32', 'varuint64', 'varuint', 'varsize')})
PLAIN = {k: (k, None, False) for k in ('float16', 'float32', 'float64', 'bool', 'bytes', 'string', 'bitbuffer')}
FIXED = [k for k in KINDS if KINDS[k][0] == 'bits' and k[0] != 'd'] + ['float16', 'float32', 'float64', 'bool']
MODES = ('normal', 'auto', 'aligned', 'aligned_auto', 'implicit')


def kinds(lang):
    """Element kinds that exist in the language."""
    return {k: v for k, v in {**KINDS, **PLAIN}.items() if lang == 'cpp' or k not in ('du5', 'di41')}


class Python(R.Python):
    TRAITS = {'varint16': 'VarInt16', 'varint32': 'VarInt32', 'varint64': 'VarInt64', 'varint': 'VarInt', 'varuint16': 'VarUInt16', 'varuint32': 'VarUInt32',
              'varuint64': 'VarUInt64', 'varuint': 'VarUInt', 'varsize': 'VarSize', 'float16': 'Float16', 'float32': 'Float32', 'float64': 'Float64',
              'bool': 'Bool', 'bytes': 'Bytes', 'string': 'String', 'bitbuffer': 'BitBuffer'}

    def array(self, kind, mode, log, elems=None, check=True, init=True):
        e, n, signed = kinds('python')[kind]
        if e == 'bits':
            traits = self.call('array', 'SignedBitFieldArrayTraits' if signed else 'BitFieldArrayTraits', n)
        else:
            traits = self.call('array', self.TRAITS[e] + 'ArrayTraits')
        kw = {'is_auto': mode.endswith('auto'), 'is_implicit': mode == 'implicit'}

        def note(i, pos):
            pos = D.known(pos, 'position')
            log.append((i, pos // 8 if pos % 8 == 0 else 'bit %d' % pos))
        if mode.startswith('aligned'):
            kw.update(set_offset_method=note, check_offset_method=note)
        raw = None if elems is None else Seq('list', [self.value(e, v) for v in elems])
        return self.call('array', 'Array', traits, raw, **kw)

    def arr_size(self, kind, mode, packed, elems, pos):
        return self.meth(self.array(kind, mode, [], elems), 'bitsizeof' + '_packed' * packed, pos)

    def arr_offsets(self, kind, mode, packed, elems, pos):
        log = []
        return self.meth(self.array(kind, mode, log, elems), 'initialize_offsets' + '_packed' * packed, pos), log

    def arr_write(self, kind, mode, packed, elems, pre):
        log = []
        w = self.call('bitwriter', 'BitStreamWriter')
        if pre:
            self.meth(w, 'write_bits', D.mk(pre[::-1]), len(pre))
        self.meth(self.array(kind, mode, log, elems), 'write' + '_packed' * packed, w)
        return R.from_bytes(self.it.iter(self.it.attr(w, 'byte_array'))), self.it.attr(w, 'bitposition'), log

    def arr_read(self, kind, mode, packed, n, bits, pre):
        log = []
        r = self.call('bitreader', 'BitStreamReader', Seq('bytes', R.to_bytes(bits)), len(bits))
        self.it.assign_attr(r, 'bitposition', pre)
        a = self.array(kind, mode, log)
        self.meth(a, 'read' + '_packed' * packed, r, n)
        return [self.back(kind, v) for v in self.it.iter(self.it.attr(a, 'raw_array'))], self.it.attr(r, 'bitposition'), log

    def arr_same(self, kind, a, b):
        x, y = self.array(kind, 'normal', [], a), self.array(kind, 'normal', [], b)
        return bool(self.it.equal(x, y)), self.meth(x, '__hash__')

    def back(self, kind, v):
        if isinstance(v, Seq):
            return list(v.items)
        if isinstance(v, Text):
            return list(v.data)
        if isinstance(v, abspy.Obj):
            return (list(self.it.iter(self.it.attr(v, 'buffer'))), self.it.attr(v, 'bitsize'))
        if isinstance(v, Float):
            return abspy.convert(v, 64 if kind == 'float64' else 32)
        return int(v) if isinstance(v, bool) else v


JA = 'zserio/runtime/array/'


class Java(R.Java):
    RAW = {'Byte': ('B', 8), 'Short': ('S', 16), 'Int': ('I', 32), 'Long': ('J', 64), 'BigInteger': ('Ljava/math/BigInteger;', None), 'Float': ('F', None),
           'Double': ('D', None), 'Boolean': ('Z', None), 'Bytes': ('[B', None), 'String': ('Ljava/lang/String;', None), 'BitBuffer': ('L%sBitBuffer;' % R.IO, None)}
    STORE = {'varint16': 'Short', 'varint32': 'Int', 'varint64': 'Long', 'varint': 'Long', 'varuint16': 'Short', 'varuint32': 'Int', 'varuint64': 'Long',
             'varuint': 'BigInteger', 'varsize': 'Int', 'float16': 'Float', 'float32': 'Float', 'float64': 'Double', 'bool': 'Boolean', 'bytes': 'Bytes',
             'string': 'String', 'bitbuffer': 'BitBuffer'}

    def store(self, kind):
        e, n, signed = kinds('java')[kind]
        if e != 'bits':
            return self.STORE[e]
        for w, s in ((8, 'Byte'), (16, 'Short'), (32, 'Int'), (64, 'Long')):
            if n <= w - (not signed):
                return s
        return 'BigInteger'

    def array(self, kind, mode, log, elems=None):
        e, n, signed = kinds('java')[kind]
        st = self.store(kind)
        desc, width = self.RAW[st]
        if e == 'bits':
            traits = self.it.new('%sArrayTraits$%sBitField%sArrayTraits' % (JA, 'Signed' * signed, st), '(I)V', [n])
        else:
            traits = self.it.new('%sArrayTraits$%sArrayTraits' % (JA, self.traits(e)), '()V', [])
        cls = '%sRawArray$%sRawArray' % (JA, st)
        if elems is None:
            raw = self.it.new(cls, '()V', [])
        else:
            raw = self.it.new(cls, '([%s)V' % desc, [absjvm.Arr(desc, [self.elem(e, st, v) for v in elems])])
        self.it.init(JA + 'ArrayType')
        t = self.it.statics[(JA + 'ArrayType', {'implicit': 'IMPLICIT'}.get(mode, 'AUTO' if mode.endswith('auto') else 'NORMAL'))]
        checker = initializer = None
        if mode.startswith('aligned'):
            checker, initializer = absjvm.Obj('OffsetLog'), absjvm.Obj('OffsetLog')
            for h in ('checkOffset', 'setOffset'):
                self.it.hooks[('OffsetLog', h)] = lambda a: log.append((a[1], D.known(a[2], 'position')))
        return self.it.new(JA + 'Array', '(L%sRawArray;L%sArrayTraits;L%sArrayType;L%sOffsetChecker;L%sOffsetInitializer;)V' % (
            JA, JA, JA, self.where('OffsetChecker'), self.where('OffsetInitializer')), [raw, traits, t, checker, initializer])

    def where(self, name):
        """Package of the interface."""
        k = self.it.cls(JA + 'Array')
        for (m, d), x in k.methods.items():
            if m == '<init>':
                for t in absjvm.arg_types(d):
                    if t.endswith('/%s;' % name):
                        return t[1:-len(name) - 1]
        raise Lost('constructor of Array')

    def traits(self, e):
        return {**Python.TRAITS}[e]

    def elem(self, e, st, v):
        if st == 'BigInteger':
            return absjvm.Big(v)
        return self.value(e, v)

    def arr_size(self, kind, mode, packed, elems, pos):
        return self.meth(self.array(kind, mode, [], elems), 'bitSizeOf' + 'Packed' * packed, pos)

    def arr_offsets(self, kind, mode, packed, elems, pos):
        log = []
        return self.meth(self.array(kind, mode, log, elems), 'initializeOffsets' + 'Packed' * packed, pos), log

    def arr_write(self, kind, mode, packed, elems, pre):
        log = []
        w = self.it.new(R.IO + 'ByteArrayBitStreamWriter', '(I)V', [128])
        if pre:
            self.meth(w, 'writeBits', D.mk(pre[::-1]), len(pre))
        self.meth(self.array(kind, mode, log, elems), 'write' + 'Packed' * packed, w)
        pos = self.meth(w, 'getBitPosition')
        out = self.meth(w, 'toByteArray')
        return R.from_bytes([D.wrap(x, 8, False) for x in out.items]), pos, log

    def arr_same(self, kind, a, b):
        """Whether arrays are equal and the hash code of the first."""
        x, y = self.array(kind, 'normal', [], a), self.array(kind, 'normal', [], b)
        r = self.meth(x, 'equals', y)
        return (bool(r) if isinstance(r, int) else bool(D.decide(r))), D.wrap(self.meth(x, 'hashCode'), 32, False)

    def arr_read(self, kind, mode, packed, n, bits, pre):
        log = []
        if n > 2:  # arrays that are longer than the readers allocate in advance
            self.it.hooks[('ByteArrayBitStreamReader', 'getMaxPreallocatedArraySize')] = lambda a: 1
        r = self.it.new(R.IO + 'ByteArrayBitStreamReader', '([BJ)V', [absjvm.Arr('B', [D.wrap(x, 8, True) for x in R.to_bytes(bits)]), len(bits)])
        if pre:
            self.meth(r, 'setBitPosition', pre)
        a = self.array(kind, mode, log)
        if mode in ('normal', 'aligned'):
            self.meth(a, 'read' + 'Packed' * packed, r, n)
        else:
            self.meth(a, 'read' + 'Packed' * packed, r)
        raw = self.meth(a, 'getRawArray')
        return [self.back(kind, v) for v in raw.items], self.meth(r, 'getBitPosition'), log

    def back(self, kind, v):
        if isinstance(v, absjvm.Big):
            return v.v
        if isinstance(v, absjvm.Arr):
            return [D.wrap(x, 8, False) for x in v.items]
        if isinstance(v, absjvm.Obj) and v.cls.endswith('BitBuffer'):
            return ([D.wrap(x, 8, False) for x in self.meth(v, 'getBuffer').items], self.meth(v, 'getBitSize'))
        if isinstance(v, absjvm.Obj) and 'text' in v.f:
            return [D.wrap(x, 8, False) for x in v.f['text']]
        return v.bits if isinstance(v, Float) else v


FLAGS = ('-D_GLIBCXX_ASSERTIONS', '-O1', '-fno-vectorize', '-fno-slp-vectorize')


@functools.lru_cache(None)
def cpp_unit():
    return absllvm.Unit(build.cpp_ll(os.path.join(build.VERIF, 'corpus/rt/arrays.cpp'), 'arrays', FLAGS))


class Cpp(R.Cpp):
    SIZE, OFFSETS, WRITE, READ = range(4)

    def __init__(self):
        self.it = absllvm.Interp(cpp_unit())

    def run(self, op, kind, mode, packed, elems, pre, buf, bits, n):
        e, w, signed = kinds('cpp')[kind]
        result, log, count = self.out(), self.out(256), self.out()
        self.it.store(count, 8, 0)
        a = [op, buf, bits, pre, n, result, w or 0, log, count]
        if e in ('bytes', 'string', 'bitbuffer'):
            data, sizes = self.out(256), self.out(256)
            for i, v in enumerate(elems or []):
                bs, k = v if e == 'bitbuffer' else (v, len(v))
                for j, x in enumerate(bs):
                    self.it.store(absllvm.Ptr(data.o, 8 * i + j), 1, x)
                self.it.store(absllvm.Ptr(sizes.o, 8 * i), 8, k)
            a += [data, sizes]
        else:
            size = self.width(e, w) // 8 or 1
            values = self.out(256)
            for i, v in enumerate(elems or []):
                x = Float(v, size * 8) if e.startswith('float') else D.wrap(v, size * 8, False)
                self.it.store(absllvm.Ptr(values.o, size * i), size, x)
            a += [values]
        end = self.it.call('@%s_%s%s' % (kind, mode, '_packed' * packed), a)
        k = D.known(self.it.load(count, 8), 'count')
        seen = []
        for i in range(k):
            seen.append((self.it.load(absllvm.Ptr(log.o, 16 * i), 8), D.known(self.it.load(absllvm.Ptr(log.o, 16 * i + 8), 8), 'offset')))
        out = None
        if op == self.READ:
            out = []
            for i in range(D.known(self.it.load(result, 8), 'count')):
                if e in ('bytes', 'string', 'bitbuffer'):
                    n = D.known(self.it.load(absllvm.Ptr(sizes.o, 8 * i), 8), 'size')
                    bs = [self.it.load(absllvm.Ptr(data.o, 8 * i + j), 1) for j in range((n + 7) // 8 if e == 'bitbuffer' else n)]
                    out.append((bs, n) if e == 'bitbuffer' else bs)
                else:
                    x = self.it.load(absllvm.Ptr(values.o, size * i), size)
                    out.append(x.bits if isinstance(x, Float) else D.wrap(x, size * 8, signed))
        return end, seen, out

    def width(self, e, w):
        if e == 'bits':
            return next(x for x in (8, 16, 32, 64) if w <= x)
        return {'float16': 32, 'float32': 32, 'float64': 64, 'bool': 8}.get(e) or self.TYPES[e]

    def arr_size(self, kind, mode, packed, elems, pos):
        return self.run(self.SIZE, kind, mode, packed, elems, pos, absllvm.NULL, 0, len(elems))[0]

    def arr_offsets(self, kind, mode, packed, elems, pos):
        return self.run(self.OFFSETS, kind, mode, packed, elems, pos, absllvm.NULL, 0, len(elems))[:2]

    def arr_write(self, kind, mode, packed, elems, pre):
        buf = self.mem([D.mk((pre[i:i + 8] + [0] * 8)[:8][::-1]) for i in range(0, 128 * 8, 8)])
        end, log, _ = self.run(self.WRITE, kind, mode, packed, elems, len(pre), buf, 128 * 8, len(elems))
        return R.from_bytes(self.bytes(buf, 128)), end, log

    def arr_read(self, kind, mode, packed, n, bits, pre):
        end, log, out = self.run(self.READ, kind, mode, packed, None, pre, self.mem(R.to_bytes(bits) or [0]), len(bits), n)
        return out, end, log


LANGS = {'python': Python, 'java': Java, 'cpp': Cpp}
