"""One interface to the three runtime libraries for abstract interpretation: Python sources, JVM class files, LLVM IR."""
import functools
import os
import absdom as D
import absjvm
import absllvm
import abspy
import build
from abspy import Float, Lost, Raise, Seq, Text

PYROOT = os.path.join(build.REPO, 'compiler/extensions/python/runtime/src')
CPPSRC = os.path.join(build.REPO, 'compiler/extensions/cpp/runtime/src')
PRE = 'pre'


def to_bytes(bits):
    """List of 8-bit values (most significant bit first) of a bit list; the last byte is filled with zeros."""
    bits = list(bits) + [0] * (-len(bits) % 8)
    return [D.mk(bits[i:i + 8][::-1]) for i in range(0, len(bits), 8)]


def surplus(n):
    """Bytes of the buffer that do not belong to the stream."""
    return [D.sym('surplus%d' % i, 8) for i in range(n)]


def from_bytes(bs):
    out = []
    for b in bs:
        out += D.vec(b, 8)[::-1]
    return out


def msb(v, n):
    return D.vec(v, n)[::-1]


def pre_bits(n):
    return [D.SP.var((PRE, i)) for i in range(n)]


class Python:
    name = 'python'

    def __init__(self):
        self.it = fresh_py()

    def mod(self, m):
        return self.it.module('zserio.' + m)

    def call(self, m, f, *a, **k):
        ns = self.mod(m).ns
        if f not in ns:
            raise Lost('%s.%s is not there' % (m, f))
        return self.it.apply(ns[f], list(a), k)

    def meth(self, o, n, *a):
        return self.it.apply(self.it.attr(o, n), list(a), {})

    W = {'bits': 'write_bits', 'signed': 'write_signed_bits', 'bits_u': 'write_bits_unchecked', 'signed_u': 'write_signed_bits_unchecked',
         'align': 'alignto'}
    R = {'bits': 'read_bits', 'signed': 'read_signed_bits', 'bits_u': 'read_bits_unchecked', 'signed_u': 'read_signed_bits_unchecked',
         'align': 'alignto'}

    def value(self, kind, v):
        if kind in ('bytes', 'string'):
            return Seq('bytearray', v) if kind == 'bytes' else Text(v)
        if kind == 'bitbuffer':
            return self.bitbuffer(*v)
        if kind == 'bool':
            return v
        if kind == 'float64':
            return Float(v, 64)
        if kind in ('float16', 'float32'):
            return Float(v, 32)
        return v

    def bitbuffer(self, bs, n):
        return self.call('bitbuffer', 'BitBuffer', Seq('bytes', bs), n)

    def kinds(self, n, signed):
        return ['signed', 'signed_u'] if signed else ['bits', 'bits_u']

    def write(self, kind, v, n, pre):
        w = self.call('bitwriter', 'BitStreamWriter')
        for i in range(0, len(pre), 8):
            p = pre[i:i + 8]
            self.meth(w, 'write_bits', D.mk(p[::-1]), len(p))
        args = [self.value(kind, v)] + ([n] if n is not None else [])
        self.meth(w, self.W.get(kind, 'write_' + kind), *args)
        pos = self.it.attr(w, 'bitposition')
        return from_bytes(self.it.iter(self.it.attr(w, 'byte_array'))), pos

    def read(self, kind, n, bits, pre, arg=None, extra=0):
        r = self.call('bitreader', 'BitStreamReader', Seq('bytes', to_bytes(bits) + surplus(extra)), len(bits))
        self.it.assign_attr(r, 'bitposition', pre)
        a = [n] if n is not None else [] if arg is None else [arg]
        v = self.meth(r, self.R.get(kind, 'read_' + kind), *a)
        if isinstance(v, Seq):
            v = list(v.items)
        elif isinstance(v, Text):
            v = list(v.data)
        elif isinstance(v, abspy.Obj):
            v = (list(self.it.iter(self.it.attr(v, 'buffer'))), self.it.attr(v, 'bitsize'))
        elif isinstance(v, Float):
            v = abspy.convert(v, 64 if kind == 'float64' else 32)
        elif isinstance(v, bool):
            v = int(v)
        return v, self.it.attr(r, 'bitposition')

    def size(self, kind, v):
        return self.call('bitsizeof', 'bitsizeof_' + kind, self.value(kind, v))

    def hash(self, kind, seed, v):
        k = {'int8': 'int32', 'int16': 'int32', 'uint8': 'int32', 'uint16': 'int32', 'uint32': 'int32', 'uint64': 'int64',
             'float': 'float32', 'double': 'float64'}.get(kind, kind)
        if kind == 'float':
            v = Float(v, 32)
        elif kind == 'double':
            v = Float(v, 64)
        elif kind == 'bool':
            v = bool(D.decide(v))
        else:
            v = self.value(kind, v)
        if kind == 'bitbuffer':
            k = 'object'
        return self.call('hashcode', 'calc_hashcode_' + k, seed, v)

    def hash_array(self, kind, seed, vs):
        k = {'int8': 'int', 'int16': 'int', 'int32': 'int', 'uint8': 'int', 'uint16': 'int', 'uint32': 'int', 'uint64': 'int',
             'int64': 'int', 'float': 'float32', 'double': 'float64'}.get(kind, kind)
        conv = {'float': lambda v: Float(v, 32), 'double': lambda v: Float(v, 64), 'bool': lambda v: bool(D.decide(v))}.get(kind, lambda v: v)
        return self.call('hashcode', 'calc_hashcode_%s_array' % k, seed, Seq('list', [conv(v) for v in vs]))

    def f16_to(self, v):
        return abspy.convert(self.call('float', 'uint16_to_float', v), 32)

    def f16_from(self, v):
        return self.call('float', 'float_to_uint16', Float(v, 32))

    def lower(self, n, signed):
        return self.call('bitfield', 'signed_bitfield_lowerbound' if signed else 'bitfield_lowerbound', n)

    def upper(self, n, signed):
        return self.call('bitfield', 'signed_bitfield_upperbound' if signed else 'bitfield_upperbound', n)

    def numbits(self, v):
        return self.call('builtin', 'numbits', v)

    def helpers(self):
        return {'to-bytes': lambda v: self.call('bitposition', 'bits_to_bytes', v), 'to-bits': lambda v: self.call('bitposition', 'bytes_to_bits', v),
                'round-bytes': lambda v: self.call('bitposition', 'bitsize_to_bytesize', v)}

    def isset(self, a, b, w):
        return bool(self.call('builtin', 'isset', a, b))

    def lengthof(self, v):
        return self.call('builtin', 'lengthof_string', Text(v))

    def absent(self):
        return {k: (lambda seed, k=k: self.call('hashcode', 'calc_hashcode_' + k, seed, None)) for k in
                ('int32', 'int64', 'float32', 'float64', 'bytes', 'string', 'object', 'bool', 'bool_array', 'int_array', 'float32_array',
                 'float64_array', 'bytes_array', 'string_array', 'object_array')}

    def hash_sequence(self, kind, seed, vs):
        return self.call('hashcode', 'calc_hashcode_%s_array' % {'bitbuffer': 'object'}.get(kind, kind), seed, Seq('list', [self.value(kind, v) for v in vs]))

    def align_to(self, a, p):
        return self.call('bitposition', 'alignto', a, p)

    def bitbuffer_eq(self, a, b):
        return self.it.equal(self.bitbuffer(*a), self.bitbuffer(*b))


def fresh_py():
    it = PyInterp(PYROOT)
    return it


class PyInterp(abspy.Interp):
    def assign_attr(self, o, n, v):
        f = o.cls.find(n + '=')
        if f is not None:
            self.invoke(f, [o, v], {})
        else:
            o.f[n] = v


IO = 'zserio/runtime/io/'
RTJ = 'zserio/runtime/'


class Java:
    name = 'java'

    def __init__(self):
        self.it = absjvm.Interp([build.runtime_classes()])

    def sel(self, cls, n, nargs, first=None):
        """Descriptor of the method (the overload whose first argument type is `first`)."""
        c = cls
        while c:
            k = self.it.cls(c)
            if k is None:
                break
            ds = [d for (m, d), x in k.methods.items() if m == n and len(absjvm.arg_types(d)) == nargs and not x[0] & 0x1000]
            if first:
                ds = [d for d in ds if absjvm.arg_types(d)[-1] == first] or [d for d in ds if absjvm.arg_types(d)[0] == first]
            if ds:
                return c, sorted(ds)[0]
            c = k.super
        raise Lost('%s.%s is not there' % (cls, n))

    def meth(self, o, n, *a, first=None):
        c, d = self.sel(o.cls, n, len(a), first)
        return self.it.virtual(n, d, [o] + list(a), o.cls)

    def static(self, c, n, *a, first=None):
        c, d = self.sel(RTJ + c, n, len(a), first)
        return self.it.call(c, n, d, list(a))

    W = {'signed': 'writeSignedBits', 'bits': 'writeBits', 'big': 'writeBigInteger', 'align': 'alignTo', 's8': 'writeByte', 'u8': 'writeUnsignedByte',
         's16': 'writeShort', 'u16': 'writeUnsignedShort', 's32': 'writeInt', 'u32': 'writeUnsignedInt', 's64': 'writeLong',
         'varint16': 'writeVarInt16', 'varint32': 'writeVarInt32', 'varint64': 'writeVarInt64', 'varint': 'writeVarInt',
         'varuint16': 'writeVarUInt16', 'varuint32': 'writeVarUInt32', 'varuint64': 'writeVarUInt64', 'varuint': 'writeVarUInt',
         'varsize': 'writeVarSize', 'float16': 'writeFloat16', 'float32': 'writeFloat32', 'float64': 'writeFloat64', 'bool': 'writeBool',
         'bytes': 'writeBytes', 'string': 'writeString', 'bitbuffer': 'writeBitBuffer'}

    def kinds(self, n, signed):
        out = []
        if signed:
            out = ['signed'] + (['s%d' % n] if n in (8, 16, 32, 64) else [])
            return out + (['sbig'] if n > 1 else [])
        return (['bits'] if n < 64 else []) + (['u%d' % n] if n in (8, 16, 32) else []) + ['big']

    def value(self, kind, v):
        if kind in ('big', 'sbig', 'varuint'):
            return absjvm.Big(v)
        if kind == 'bytes':
            return absjvm.Arr('B', [D.wrap(x, 8, True) for x in v])
        if kind == 'string':
            return Text(v)
        if kind == 'bitbuffer':
            return self.bitbuffer(*v)
        if kind in ('float16', 'float32'):
            return Float(v, 32)
        if kind == 'float64':
            return Float(v, 64)
        return v

    def bitbuffer(self, bs, n):
        return self.it.new(IO + 'BitBuffer', '([BJ)V', [absjvm.Arr('B', [D.wrap(x, 8, True) for x in bs]), n])

    def write(self, kind, v, n, pre):
        if kind == 'sbig':
            kind = 'big'
        w = self.it.new(IO + 'ByteArrayBitStreamWriter', '(I)V', [64])
        for i in range(0, len(pre), 8):
            p = pre[i:i + 8]
            self.meth(w, 'writeBits', D.mk(p[::-1]), len(p))
        fixed = kind[0] in 'su' and kind[1:].isdigit()
        args = [self.value(kind, v)] + ([n] if n is not None and not fixed else [])
        self.meth(w, self.W[kind], *args)
        pos = self.meth(w, 'getBitPosition')
        out = self.meth(w, 'toByteArray')
        return from_bytes([D.wrap(x, 8, False) for x in out.items]), pos

    def read(self, kind, n, bits, pre, arg=None, extra=0):
        r = self.it.new(IO + 'ByteArrayBitStreamReader', '([BJ)V', [absjvm.Arr('B', [D.wrap(x, 8, True) for x in to_bytes(bits) + surplus(extra)]), len(bits)])
        if pre:
            self.meth(r, 'setBitPosition', pre)
        fixed = kind[0] in 'su' and kind[1:].isdigit()
        name = {'sbig': 'readSignedBigInteger'}.get(kind) or self.W[kind].replace('write', 'read')
        a = [n] if n is not None and not fixed else [] if arg is None else [arg]
        v = self.meth(r, name, *a)
        if isinstance(v, absjvm.Big):
            v = v.v
        elif isinstance(v, absjvm.Arr):
            v = [D.wrap(x, 8, False) for x in v.items]
        elif isinstance(v, absjvm.Obj) and v.cls.endswith('BitBuffer'):
            v = ([D.wrap(x, 8, False) for x in self.meth(v, 'getBuffer').items], self.meth(v, 'getBitSize'))
        elif isinstance(v, absjvm.Obj) and 'text' in v.f:
            v = [D.wrap(x, 8, False) for x in v.f['text']]
        elif isinstance(v, Float):
            v = v.bits
        return v, self.meth(r, 'getBitPosition')

    J = {'varint16': 'VarInt16', 'varint32': 'VarInt32', 'varint64': 'VarInt64', 'varint': 'VarInt', 'varuint16': 'VarUInt16',
         'varuint32': 'VarUInt32', 'varuint64': 'VarUInt64', 'varuint': 'VarUInt', 'varsize': 'VarSize', 'bytes': 'Bytes', 'string': 'String',
         'bitbuffer': 'BitBuffer'}

    def size(self, kind, v):
        return self.static('BitSizeOfCalculator', 'getBitSizeOf' + self.J[kind], self.value(kind, v))

    H = {'bool': 'Z', 'int8': 'Ljava/lang/Byte;', 'uint8': 'I', 'int16': 'Ljava/lang/Short;', 'uint16': 'I', 'int32': 'I', 'uint32': 'J', 'int64': 'J',
         'uint64': 'Ljava/math/BigInteger;', 'float': 'F', 'double': 'D', 'string': 'Ljava/lang/String;',
         'bitbuffer': 'Lzserio/runtime/io/BitBuffer;', 'bytes': '[B'}

    def hash_value(self, kind, v):
        return absjvm.Box('Byte', v) if kind == 'int8' else absjvm.Box('Short', v) if kind == 'int16' else absjvm.Big(v) if kind == 'uint64' else \
            Float(v, 32) if kind == 'float' else Float(v, 64) if kind == 'double' else self.value(kind, v)

    def hash(self, kind, seed, v):
        r = self.static('HashCodeUtil', 'calcHashCode', D.wrap(seed, 32, True), self.hash_value(kind, v), first=self.H[kind])
        return D.wrap(r, 32, False)

    def hash_array(self, kind, seed, vs):
        k = {'bool': 'Z', 'int8': 'B', 'uint8': 'S', 'int16': 'S', 'uint16': 'I', 'int32': 'I', 'uint32': 'J', 'int64': 'J',
             'uint64': 'Ljava/math/BigInteger;', 'float': 'F', 'double': 'D'}[kind]
        conv = {'uint64': absjvm.Big, 'float': lambda v: Float(v, 32), 'double': lambda v: Float(v, 64)}.get(kind, lambda v: v)
        r = self.static('HashCodeUtil', 'calcHashCode', D.wrap(seed, 32, True), absjvm.Arr(k, [conv(v) for v in vs]), first='[' + k)
        return D.wrap(r, 32, False)

    def f16_to(self, v):
        return self.static('FloatUtil', 'convertShortToFloat', D.wrap(v, 16, True)).bits

    def f16_from(self, v):
        return D.wrap(self.static('FloatUtil', 'convertFloatToShort', Float(v, 32)), 16, False)

    def lower(self, n, signed):
        return self.static('BitFieldUtil', 'getBitFieldLowerBound', n, int(signed))

    def upper(self, n, signed):
        return self.static('BitFieldUtil', 'getBitFieldUpperBound', n, int(signed))

    def numbits(self, v):
        return self.static('BuiltInOperators', 'numBits', absjvm.Big(v), first='Ljava/math/BigInteger;')

    def numbits_long(self, v):
        return self.static('BuiltInOperators', 'numBits', v, first='J')

    def helpers(self):
        return {'to-bytes': lambda v: self.static('BitPositionUtil', 'bitsToBytes', v), 'to-bits': lambda v: self.static('BitPositionUtil', 'bytesToBits', v),
                'size-int': lambda v: self.static('VarSizeUtil', 'convertBitBufferSizeToInt', v)}

    def lengthof(self, v):
        return self.static('BuiltInOperators', 'lengthOf', Text(v))

    def absent(self):
        return {t: (lambda seed, t=t: D.wrap(self.static('HashCodeUtil', 'calcHashCode', D.wrap(seed, 32, True), None, first=t), 32, False)) for t in
                ['Ljava/lang/%s;' % x for x in ('Boolean', 'Byte', 'Short', 'Integer', 'Long', 'Float', 'Double', 'String')] +
                ['Ljava/math/BigInteger;', 'Lzserio/runtime/io/BitBuffer;', '[Z', '[B', '[S', '[I', '[J', '[F', '[D', '[Ljava/math/BigInteger;',
                 '[[B', '[Ljava/lang/String;', '[Lzserio/runtime/io/BitBuffer;']}

    def hash_sequence(self, kind, seed, vs):
        k = {'bytes': '[B', 'string': 'Ljava/lang/String;', 'bitbuffer': 'Lzserio/runtime/io/BitBuffer;'}[kind]
        r = self.static('HashCodeUtil', 'calcHashCode', D.wrap(seed, 32, True), absjvm.Arr(k, [self.value(kind, v) for v in vs]), first='[' + k)
        return D.wrap(r, 32, False)

    def hash_boxed(self, kind, seed, v):
        b = {'bool': 'Boolean', 'int8': 'Byte', 'int16': 'Short', 'int32': 'Integer', 'int64': 'Long', 'float': 'Float', 'double': 'Double'}[kind]
        w = {'float': 32, 'double': 64}.get(kind)
        r = self.static('HashCodeUtil', 'calcHashCode', D.wrap(seed, 32, True), absjvm.Box(b, Float(v, w) if w else v), first='Ljava/lang/%s;' % b)
        return D.wrap(r, 32, False)

    def align_to(self, a, p):
        return self.static('BitPositionUtil', 'alignTo', a, p)

    def bitbuffer_eq(self, a, b):
        r = self.meth(self.bitbuffer(*a), 'equals', self.bitbuffer(*b))
        return bool(D.decide(r))


@functools.lru_cache(None)
def cpp_unit():
    return absllvm.Unit(build.cpp_ll(os.path.join(build.VERIF, 'corpus/rt/rt.cpp'), 'rt'))


class Cpp:
    name = 'cpp'

    def __init__(self):
        self.it = absllvm.Interp(cpp_unit())

    def mem(self, bs, fill=None):
        m = absllvm.Mem(len(bs), 'buffer')
        for i, b in enumerate(bs):
            m.c[i] = (1, b)
        return absllvm.Ptr(m, 0)

    def out(self, size=8):
        return absllvm.Ptr(absllvm.Mem(size, 'result'), 0)

    def bytes(self, p, n):
        return [self.it.load(absllvm.Ptr(p.o, p.off + i), 1) for i in range(n)]

    TYPES = {'varint16': 16, 'varint32': 32, 'varint64': 64, 'varint': 64, 'varuint16': 16, 'varuint32': 32, 'varuint64': 64, 'varuint': 64,
             'varsize': 32, 'bool': 1, 'align': 64, 'bits': 32, 'bits64': 64, 'signed': 32, 'signed64': 64, 'int8': 8, 'uint8': 8, 'int16': 16, 'uint16': 16, 'int32': 32,
             'uint32': 32, 'int64': 64, 'uint64': 64}

    def kinds(self, n, signed):
        return (['signed'] if n <= 32 else []) + ['signed64'] if signed else (['bits'] if n <= 32 else []) + ['bits64']

    def args(self, kind, v):
        if kind in ('bytes', 'string'):
            return [self.mem(v), len(v)]
        if kind == 'bitbuffer':
            return [self.mem(v[0]), v[1]]
        if kind in ('float16', 'float32', 'float'):
            return [Float(v, 32)]
        if kind in ('float64', 'double'):
            return [Float(v, 64)]
        return [D.wrap(v, self.TYPES[kind], False)]

    def write(self, kind, v, n, pre):
        size = 64
        buf = self.mem([D.sym(('old', i), 8) for i in range(size)])
        pos = self.out()
        a = [buf, size * 8, self.mem([D.mk(pre[i:i + 8][::-1]) for i in range(0, len(pre), 8)] or [0]), len(pre)] + self.args(kind, v)
        if n is not None:
            a.append(n)
        self.it.call('@w_' + kind, a + [pos])
        return from_bytes(self.bytes(buf, size)), self.it.load(pos, 8)

    def write_dummy(self, kind, v, n, pre):
        """With a writer that has no buffer: the position only."""
        pos = self.out()
        a = [absllvm.NULL, 0, self.mem([0] * 8), pre] + self.args(kind, v) + ([n] if n is not None else [])
        self.it.call('@w_' + kind, a + [pos])
        return self.it.load(pos, 8)

    def write_into(self, kind, v, n, pre, bits):
        """With a buffer of the given size in bits."""
        pos = self.out()
        a = [self.mem([0] * ((bits + 7) // 8)), bits, self.mem([0] * 8), pre] + self.args(kind, v) + ([n] if n is not None else [])
        self.it.call('@w_' + kind, a + [pos])
        return self.it.load(pos, 8)

    def read(self, kind, n, bits, pre, arg=None, extra=0):
        buf = self.mem(to_bytes(bits) + surplus(extra))
        pos = self.out()
        a = [buf, len(bits), pre]
        if kind in ('bytes', 'string', 'bitbuffer'):
            o, k = self.out(64), self.out()
            self.it.call('@r_' + kind, a + [o, k, pos])
            k = D.known(self.it.load(k, 8), 'size')
            v = self.bytes(o, (k + 7) // 8 if kind == 'bitbuffer' else k)
            return ((v, k) if kind == 'bitbuffer' else v), self.it.load(pos, 8)
        r = self.it.call('@r_' + kind, a + ([n] if n is not None else [] if arg is None else [arg]) + [pos])
        if isinstance(r, Float):
            r = r.bits
        elif kind in ('varint16', 'varint32', 'varint64', 'varint', 'signed', 'signed64'):
            r = D.wrap(r, self.TYPES[kind], True)
        elif isinstance(r, D.Cond):
            r = D.boolval(r)
        return r, self.it.load(pos, 8)

    def size(self, kind, v):
        return self.it.call('@s_' + kind, self.args(kind, v))

    def hash(self, kind, seed, v):
        return self.it.call('@h_' + kind, [seed] + self.args(kind, v))

    def hash_array(self, kind, seed, vs):
        return self.it.call('@ha_' + kind, [seed] + [x for v in vs for x in self.args(kind, v)])

    def f16_to(self, v):
        return self.it.call('@f16_to', [v]).bits

    def f16_from(self, v):
        return self.it.call('@f16_from', [Float(v, 32)])

    def lower(self, n, signed):
        return D.wrap(self.it.call('@lower', [n, int(signed)]), 64, True)

    def upper(self, n, signed):
        return self.it.call('@upper', [n, int(signed)])

    def numbits(self, v):
        return self.it.call('@numbits', [v])

    def helpers(self):
        return {'size-32': lambda v: self.it.call('@size32', [v])}

    def isset(self, a, b, w):
        r = self.it.call('@isset%d' % w, [a, b])
        return bool(D.decide(r)) if not isinstance(r, D.Cond) else D.boolval(r)

    def align_to(self, a, p):
        return self.it.call('@align_to', [a, p])

    def bitbuffer_less(self, a, b):
        r = self.it.call('@l_bitbuffer', [self.mem(a[0] or [0]), a[1], self.mem(b[0] or [0]), b[1]])
        return bool(D.decide(r)) if not isinstance(r, D.Cond) else D.boolval(r)

    def bitbuffer_eq(self, a, b):
        r = self.it.call('@e_bitbuffer', [self.mem(a[0] or [0]), a[1], self.mem(b[0] or [0]), b[1]])
        return bool(D.decide(r)) if not isinstance(r, D.Cond) else D.boolval(r)


LANGS = {'python': Python, 'java': Java, 'cpp': Cpp}
