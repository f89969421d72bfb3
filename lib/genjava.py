"""Meaning of generated Java code (attributed by javac): calls on streams, contexts and the runtime become events."""
import os
import re
from canon import *
from interp import Interp
import build

RW = {'Bits': 'bits', 'SignedBits': 'sbits', 'BigInteger': 'bits', 'SignedBigInteger': 'sbits', 'Bool': 'bool',
      'VarInt16': 'varint16', 'VarInt32': 'varint32', 'VarInt64': 'varint64', 'VarInt': 'varint', 'VarUInt16': 'varuint16',
      'VarUInt32': 'varuint32', 'VarUInt64': 'varuint64', 'VarUInt': 'varuint', 'VarSize': 'varsize', 'Float16': 'float16',
      'Float32': 'float32', 'Float64': 'float64', 'String': 'string', 'Bytes': 'bytes', 'BitBuffer': 'bitbuffer'}
FIXEDRW = {'Byte': ('sbits', 8), 'Short': ('sbits', 16), 'Int': ('sbits', 32), 'Long': ('sbits', 64),
           'UnsignedByte': ('bits', 8), 'UnsignedShort': ('bits', 16), 'UnsignedInt': ('bits', 32)}
SIZES = {'java.lang.Byte': 8, 'java.lang.Short': 16, 'java.lang.Integer': 32, 'java.lang.Long': 64}
BIG = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'remainder': '%', 'mod': '%', 'shiftLeft': '<<',
       'shiftRight': '>>', 'and': '&', 'or': '|', 'xor': '^'}
READER, WRITER = 'zserio.runtime.io.BitStreamReader', 'zserio.runtime.io.BitStreamWriter'
TRANSPARENT = {'longValue', 'intValue', 'getRawArray', 'get', 'cast', 'booleanValue', 'shortValue', 'byteValue',
               'doubleValue', 'floatValue'}


def traits_of(cls):
    m = re.search(r'ArrayTraits\.(\w+?)ArrayTraits', cls)
    if not m:
        return None
    n = m.group(1)
    b = re.match(r'(Signed)?BitField(Byte|Short|Int|Long|BigInteger)$', n)
    if b:
        return 'sbits' if b.group(1) else 'bits'
    if n in RW:
        return RW[n]
    if n.endswith('Object'):
        return 'object'
    return '?' + n


class JavaClass(Interp):
    lang = 'java'

    def __init__(self, unit, sym, decl=None, outer=None):
        super().__init__(unit, sym, decl, outer)
        self.q = unit['q']
        self.bysym = {m['sym']: m for m in unit['methods']}
        self.sub = {c['q']: JavaClass(c, sym, decl, self) for c in unit['classes']}

    def root(self):
        return self.outer.root() if self.outer else self

    def find(self, sym):
        c = self
        while c is not None:
            if sym in c.bysym:
                return c.bysym[sym]
            c = c.outer
        for c in self.root().sub.values():
            if sym in c.bysym:
                return c.bysym[sym]
        return None

    def own(self, owner):
        c = self
        while c is not None:
            if c.q == owner:
                return True
            c = c.outer
        return False

    # names
    def name(self, e, env):
        n = e[1]
        s = e[2] if len(e) > 2 else 'local'
        if n == 'this':
            return ('self',)
        if s == 'local' or (not s and n in env):
            return env.get(n, ('local', n))
        if s.startswith('f:'):
            owner, f = s[2:].split('#')
            return self.field(owner, f, ('self',))
        if s.startswith('type:'):
            return self.typ(s[5:])
        if s.startswith('pkg:'):
            return ('pkg', s[4:])
        return ('name', n, s)

    def typ(self, q):
        n = key(q.split('.')[-1])
        if n in self.sym.types and q.split('.')[0] != 'zserio' and q.split('.')[0] != 'java':
            return ('type', key(self.sym.types[n]))
        return ('jtype', q)

    def field(self, owner, f, b):
        o = owner.split('<')[0]
        last = key(o.split('.')[-1])
        if last not in self.sym.types and o.count('.') > 1 and key(o.split('.')[-2]) in self.sym.enum_items:
            last = key(o.split('.')[-2])
        if o in SIZES and f == 'SIZE':
            return ('num', SIZES[o])
        if f == 'length' or f == 'length_':
            if o == 'Array' or not o or b[0] != 'self':
                return ('len', b)
        if last in self.sym.enum_items and key(f) in self.sym.enum_items[last] and f != 'value':
            return ('enumc', last, key(f))
        if last in self.sym.consts and f.isupper():
            return ('const', last)
        if o == 'java.math.BigInteger' and f in ('ZERO', 'ONE', 'TEN'):
            return ('num', {'ZERO': 0, 'ONE': 1, 'TEN': 10}[f])
        if self.own(o) and b == ('self',):
            if f == 'objectChoice':
                return ('choice',)
            if f == 'choiceTag':
                return ('tag',)
            if f == 'numExtendedFields':
                return ('numext',)
            if f == 'value' and self.decl is not None and self.decl['kind'] in ('enum', 'bitmask'):
                return ('value',)
            if f.startswith('CHOICE_') or f == 'UNDEFINED_CHOICE':
                c = self
                while c is not None:
                    for x in c.c['fields']:
                        if x['name'] == f and x.get('init') is not None:
                            return self.ex(x['init'], {})
                    c = c.outer
            for x in self.c['fields']:
                if x['name'] == f and 'static' in x['mods'] and 'final' in x['mods'] and x.get('init') is not None:
                    return self.ex(x['init'], {})
            return ('f', key(f))
        if b[0] == 'other' or b[0] in ('dot', 'f', 'choice', 'cast', 'p'):
            k = {'objectChoice': 'choice', 'choiceTag': 'choicetag', 'numExtendedFields': 'numextendedfields'}.get(f, key(f))
            return ('dot', b, k)
        if f.startswith('CHOICE_') or f == 'UNDEFINED_CHOICE':
            return ('tagconst', last, f)
        return ('jfield', o, f)

    def attr(self, e, env):
        s = e[3] if len(e) > 3 else ''
        if s.startswith('pkg:'):
            return ('pkg', s[4:])
        if s.startswith('type:'):
            return self.typ(s[5:])
        b = self.ex(e[1], env)
        if e[2] == 'this':
            return ('self',)
        if e[2] == 'length' and not s.startswith('f:wire'):
            return ('len', b)
        if s.startswith('f:'):
            return self.field(s[2:].split('#')[0], e[2], b)
        return ('dot', b, key(e[2]))

    def new(self, e, env):
        t = e[1].split('<')[0]
        args = [self.ex(a, env) for a in e[2]]
        tr = traits_of(e[1])
        if tr is not None:
            if tr == 'object':
                return ('traits', 'object', tuple(args), 'Packable' in e[1])
            return ('traits', tr, tuple(args))
        if '.ArrayElement.' in t:
            return args[0] if args else ('defval', t)
        if '.RawArray.' in t:
            vals = [a for a in args if not (a[0] == 'jfield' and a[2] == 'class')]
            return ('raw', t.split('.')[-1], vals[0] if vals else NULL)
        if t == 'zserio.runtime.array.Array':
            kind = {'AUTO': 'auto', 'NORMAL': 'normal', 'IMPLICIT': 'implicit', 'ALIGNED_AUTO': 'auto'}.get(
                args[2][-1] if len(args) > 2 else '', '?')
            return ('arrv', ('arrdesc', kind, None, args[1], tuple(args[3:])), args[0])
        if t == 'java.math.BigInteger' and args and args[0][0] == 'str':
            return ('num', int(args[0][1].rstrip('lL'), *[x[1] for x in args[1:2] if x[0] == 'num']))
        n = self.typ(t)
        if n[0] == 'type' and ('reader',) in args:
            v = self.val()
            i = args.index(('reader',))
            mode = 'plain' if i == 0 else self.ctxmode(args[0])
            self.emit(('x', v, mode, n[1], tuple(args[i + 1:])))
            return v
        if n[0] == 'type':
            return ('make', n) + tuple(args)
        return ('new', t) + tuple(args)

    def cast(self, e, env):
        return self.ex(e[2], env)

    def ctxmode(self, c):
        if c[0] == 'ctx':
            return ('ctx', c[1])
        if c == ('ctxroot',):
            return ('ctx', '')
        return ('ctx', '?' + se(c))

    # calls
    def call(self, e, env):
        f = e[1]
        if f[0] == 'name':
            sym, owner_expr, n = f[2], ('self',), f[1]
        elif f[0] == 'attr':
            sym, n = f[3] if len(f) > 3 else '', f[2]
            if f[1] == ['name', 'super'] or f[1][:2] == ['name', 'super']:
                owner_expr = ('super',)
            else:
                owner_expr = self.ex(f[1], env)
        else:
            return ('callv', self.ex(f, env)) + tuple(self.ex(a, env) for a in e[2])
        args = [self.ex(a, env) for a in e[2]]
        owner = sym[2:].split('#')[0].split('<')[0] if sym.startswith('m:') else ''
        return self.method(owner, owner_expr, n, sym, args)

    def is_pos(self, a):
        return a in (('pos',), ('pos0',))

    def method(self, owner, b, n, sym, args):
        if b == ('reader',) or b == ('writer',):
            return self.stream(b[0], n, args)
        if owner == 'zserio.runtime.BitPositionUtil':
            if n == 'alignTo':
                return ('alignto', args[0][1] if args[0][0] == 'num' else args[0], args[1])
            if n == 'bitsToBytes':
                return ('bytepos',) if args[0] == ('pos',) else ('b2bytes', args[0])
            if n == 'bytesToBits':
                return ('b2bits', args[0])
        if owner == 'zserio.runtime.BitSizeOfCalculator':
            m = re.match(r'getBitSizeOf(\w+)', n)
            return ('size', ('w', RW.get(m.group(1), m.group(1)), (), args[0]))
        if owner == 'zserio.runtime.BuiltInOperators':
            return {'isSet': lambda: ('bmset', args[0], args[1]), 'numBits': lambda: ('numbits', args[0]),
                    'lengthOf': lambda: ('len', args[0])}.get(
                n, lambda: ('rt', n) + tuple(args))()
        if owner == 'zserio.runtime.HashCodeUtil':
            return self.hashed(args)
        if owner in ('java.math.BigInteger', 'java.math.BigDecimal'):
            if n in BIG:
                return mk_bin(BIG[n], b, args[0])
            if n == 'negate':
                return mk_un('-', b)
            if n == 'not':
                return mk_un('~', b)
            if n == 'valueOf':
                return args[0]
            if n == 'compareTo':
                return ('cmp', b, args[0])
        if n in ('or', 'and', 'xor', 'not') and key(owner.split('.')[-1]) in self.sym.enum_items and b != ('self',):
            return mk_un('~', b) if n == 'not' else mk_bin({'or': '|', 'and': '&', 'xor': '^'}[n], b, args[0])
        if n == 'deepEquals' and owner == 'java.util.Objects':
            return ('bin', '==') + tuple(sorted(args, key=repr))
        if n == 'equals' and owner == 'java.util.Objects' and len(args) == 2:
            return ('objeq',) + tuple(sorted(args, key=repr))
        if n == 'equals' and len(args) == 1 and owner == 'java.lang.Object':
            if self.arrayref(b):
                return ('refeq', b, args[0])
            return ('objeq',) + tuple(sorted((b, args[0]), key=repr))
        if n == 'equals' and len(args) == 1 and b != ('self',):
            return ('bin', '==') + tuple(sorted((b, args[0]), key=repr))
        if owner.startswith('java.lang.') and n == 'valueOf' and len(args) == 1:
            return args[0]
        if b[0] == 'ctx' or b == ('ctxroot',):
            c = b[1] if b[0] == 'ctx' else ''
            if n in ('init', 'bitSizeOf', 'read', 'write') and args and args[0][0] == 'traits':
                prim, params = args[0][1], args[0][2]
                if n == 'init':
                    self.emit(('pk', c, prim, params, args[1]))
                    return ('void',)
                if n == 'bitSizeOf':
                    return ('size', ('pk', c, prim, params, args[1]))
                if n == 'read':
                    v = self.val()
                    self.emit(('pk', c, prim, params, v))
                    return v
                self.emit(('pk', c, prim, params, args[2]))
                return ('void',)
            if n == 'cast' or n == 'getContext':
                return b
            if not args:
                return ('ctx', (c + '.' if c else '') + key(n[3:] if n.startswith('get') else n))
        if n in TRANSPARENT and not args and not (b == ('self',)):
            return b
        if b == ('self',) or b[0] == 'super':
            m = self.find(sym)
            if m is not None and not ('func' + 'x' != n and n.startswith('func') and key(n[4:]) in self.user):
                return self.inline(m, dict(zip(m['params'], args)))
            if n.startswith('func'):
                return ('call', ('self',), key(n[4:]))
            return ('call', b, key(n)) + tuple(args)
        if b[0] == 'type':
            if n == 'readEnum' and ('reader',) in args:
                v = self.val()
                i = args.index(('reader',))
                self.emit(('x', v, 'plain' if i == 0 else self.ctxmode(args[0]), b[1], tuple(args[i + 1:])))
                return v
            m = self.find(sym)
            if m is not None and b == ('type', key(self.c['name'])):
                return self.inline(m, dict(zip(m['params'], args)))
            return ('call', b, n) + tuple(args)
        # serialization of members
        if n in ('bitSizeOf', 'bitSizeOfPacked') and args and self.is_pos(args[-1]):
            return ('size', ('x', b, self.mode(n, args)))
        if n in ('initializeOffsets', 'initializeOffsetsPacked') and args and self.is_pos(args[-1]):
            return ('bin', '+', ('pos',), ('size', ('x', b, self.mode(n, args))))
        if n in ('write', 'writePacked') and args and args[-1] == ('writer',):
            self.emit(('x', b, self.mode(n, args)))
            return ('void',)
        if n in ('read', 'readPacked') and args and args[0] == ('reader',):
            self.emit(('x', b, self.mode(n, args[:1]), ('length', args[1] if len(args) > 1 else None)))
            return ('void',)
        if n == 'initPackingContext' and len(args) == 1:
            self.emit(('x', b, self.ctxmode(args[0])))
            return ('void',)
        if n == 'size' and not args:
            return ('len', b)
        if n in ('getValue', 'getGenericValue') and key(owner.split('.')[-1]) in self.sym.enum_items:
            return ('valueof', b)
        if n.startswith('func') and not args:
            return ('call', b, key(n[4:]))
        if n.startswith('set') and len(args) == 1 and key(owner.split('.')[-1]) in self.sym.types:
            self.emit(('set', ('dot', b, key(n[3:])), args[0]))
            return ('void',)
        if n.startswith('get') and not args and key(owner.split('.')[-1]) in self.sym.types:
            return ('dot', b, key(n[3:]))
        return ('call', b, key(n)) + tuple(args)

    def argtype(self, sym):
        m = re.search(r'\((.*)\)', sym)
        return m.group(1) if m else ''

    def mode(self, n, args):
        if len(args) == 2:
            return self.ctxmode(args[0])
        return 'packed' if n.endswith('Packed') else 'plain'

    def stream(self, s, n, args):
        if n == 'alignTo':
            self.emit(('align', args[0][1] if args[0][0] == 'num' else args[0]))
            return ('void',)
        if n == 'getBitPosition':
            return ('pos',)
        if n == 'getBytePosition':
            return ('bytepos',)
        if n == 'getBufferBitSize':
            return ('bufsize',)
        if n.startswith('read'):
            p = n[4:]
            if p in FIXEDRW:
                v = self.val()
                self.emit(('w', FIXEDRW[p][0], (('num', FIXEDRW[p][1]),), v))
                return v
            if p in RW:
                v = self.val()
                self.emit(('w', RW[p], tuple(args), v))
                return v
        if n.startswith('write'):
            p = n[5:]
            if p in FIXEDRW:
                self.emit(('w', FIXEDRW[p][0], (('num', FIXEDRW[p][1]),), args[0]))
                return ('void',)
            if p in RW:
                self.emit(('w', RW[p], tuple(args[1:]), args[0]))
                return ('void',)
        self.emit(('stream', n) + tuple(args))
        return ('void',)

    def is_local(self, target, env):
        return len(target) < 3 or target[2] == 'local' or not target[2]

    def ex(self, e, env):
        if e is not None and e[0] == 'bin' and e[1] in ('<', '<=', '>', '>=', '==', '!='):
            l = self.ex(e[2], env)
            r = self.ex(e[3], env)
            if l[0] == 'cmp' and r == ('num', 0):
                return mk_bin(e[1], l[1], l[2])
            if e[1] in ('==', '!=') and self.refeq(l, r):
                v = ('refeq', l, r)
                return v if e[1] == '==' else mk_not(v)
            return mk_bin(e[1], l, r)
        return super().ex(e, env)

    def arrayref(self, l):
        """Is the location a Java array, whose equals compares references?"""
        return l[0] == 'f' and any(key(f['name']) == l[1] and f['qtype'].endswith('[]') for f in self.c['fields'])

    def refeq(self, l, r):
        """Java == on two object references (enumerations excepted: their items are unique)."""
        if NULL in (l, r) or l[0] not in ('f', 'choice') or r[0] != 'dot' or r[1] != ('other',):
            return False
        if l == ('choice',):
            return True
        for f in self.c['fields']:
            if key(f['name']) == l[1]:
                q = f['qtype'].split('<')[0]
                return '.' in q and key(q.split('.')[-1]) not in self.sym.enum_items
        return False

    def label(self, l, sel, env):
        if l[0] == 'name' and (len(l) < 3 or not l[2] or l[2] == 'local'):
            for t, items in self.sym.enum_items.items():
                if key(l[1]) in items and sel_type(self, sel) == t:
                    return ('enumc', t, key(l[1]))
        return self.ex(l, env)

    # running
    def entry_env(self, m):
        env = {}
        for p, t in zip(m['params'], m['ptypes']):
            t = t.split('<')[0]
            if t == READER:
                env[p] = ('reader',)
            elif t == WRITER:
                env[p] = ('writer',)
            elif 'Context' in t:
                env[p] = ('ctxroot',)
            elif t == 'long' and 'osition' in p:
                env[p] = ('pos0',)
            elif t == 'long' and 'ffset' in p:
                env[p] = ('pos',)
            elif t == 'int' and 'ndex' in p:
                env[p] = ('index',)
            elif p == 'obj' or t == self.q:
                env[p] = ('other',)
            else:
                env[p] = ('p', key(p))
        return env

    def select(self, name, *ptypes):
        for m in self.c['methods']:
            if m['name'] == name and len(m['ptypes'] or ()) == len(ptypes) and all(
                    a == b or b in a for a, b in zip(m['ptypes'] or (), ptypes)):
                return m
        return None

    def run(self, m, extra=None):
        self.reset()
        env = self.entry_env(m)
        env.update(extra or {})
        return self.block(m['body'], env)


def sel_type(c, sel):
    return None


def load(units, pkg, sym):
    out = {}
    for u in units:
        for c in u['classes']:
            if not c['q'].startswith(tuple(p + '.' for p in sym.pks)):
                continue
            n = sym.types.get(key(c['name']))
            jc = JavaClass(c, sym, sym.concrete.get(n) if n else None)
            jc.file = u['file']
            out[key(c['name'])] = jc
    return out


def constants(classes, sym):
    """{constant: (evaluation context, initial value, type, file, line)} of the generated packages."""
    out = {}
    for k, c in classes.items():
        fs = [f for f in c.c['fields'] if f['init'] is not None]
        if k in sym.consts and len(fs) == 1:
            out[k] = (c, fs[0]['init'], fs[0]['qtype'], c.file, fs[0]['line'])
    return out
