"""Meaning of generated C++ code (as clang resolved it): calls on streams, contexts and the runtime become events."""
import re
from canon import *
from interp import Interp
import build

RW = {'Bits': 'bits', 'Bits64': 'bits', 'SignedBits': 'sbits', 'SignedBits64': 'sbits', 'Bool': 'bool',
      'VarInt16': 'varint16', 'VarInt32': 'varint32', 'VarInt64': 'varint64', 'VarInt': 'varint', 'VarUInt16': 'varuint16',
      'VarUInt32': 'varuint32', 'VarUInt64': 'varuint64', 'VarUInt': 'varuint', 'VarSize': 'varsize', 'Float16': 'float16',
      'Float32': 'float32', 'Float64': 'float64', 'String': 'string', 'Bytes': 'bytes', 'BitBuffer': 'bitbuffer'}
INT = {'unsigned char': ('bits', 8), 'unsigned short': ('bits', 16), 'unsigned int': ('bits', 32), 'unsigned long': ('bits', 64),
       'unsigned long long': ('bits', 64), 'signed char': ('sbits', 8), 'char': ('sbits', 8), 'short': ('sbits', 16),
       'int': ('sbits', 32), 'long': ('sbits', 64), 'long long': ('sbits', 64)}
for _w in (8, 16, 32, 64):
    INT['uint%d_t' % _w] = ('bits', _w)
    INT['int%d_t' % _w] = ('sbits', _w)
READER, WRITER = 'zserio::BitStreamReader', 'zserio::BitStreamWriter'
NOINIT = ('name', 'NoInit', 'zserio::NoInit')
INPLACE = ('name', 'InPlace', 'zserio::InPlace')
KINDS = {'AUTO': 'auto', 'ALIGNED_AUTO': 'auto', 'NORMAL': 'normal', 'ALIGNED': 'normal', 'IMPLICIT': 'implicit'}


def split(s):
    """'A<B, C<D>>' -> ('A', ['B', 'C<D>'])"""
    s = s.strip()
    i = s.find('<')
    if i < 0 or not s.endswith('>'):
        return s, []
    args, depth, cur = [], 0, ''
    for ch in s[i + 1:-1]:
        if ch == ',' and depth == 0:
            args.append(cur.strip())
            cur = ''
            continue
        depth += ch in '<({'
        depth -= ch in '>)}'
        cur += ch
    if cur.strip():
        args.append(cur.strip())
    return s[:i], args


QUOTED = re.compile(r"'(\\x[0-9a-fA-F]+|\\.|[^'])'")
ESC = {'n': 10, 't': 9, 'v': 11, 'f': 12, 'r': 13, 'a': 7, 'b': 8, '0': 0}


def chars(t):
    """Character literals in template arguments become numbers ('<' would confuse the splitting)."""
    def num(m):
        x = m.group(1)
        if x.startswith('\\x'):
            return str(int(x[2:], 16))
        if x.startswith('\\'):
            return str(ESC.get(x[1], ord(x[1])))
        return str(ord(x))
    return QUOTED.sub(num, t) if "'" in t else t


def bare(t):
    t = chars(t)
    t = re.sub(r'\b(const|class|struct|enum|typename|volatile)\b', '', t)
    t = t.replace('&', '').replace('*', '').strip()
    return re.sub(r'^::', '', re.sub(r'\s+', ' ', t))


class CppClass(Interp):
    lang = 'cpp'

    def __init__(self, unit, sym, decl=None, outer=None, funcs=()):
        super().__init__(unit, sym, decl, outer)
        self.q = unit['q']
        self.funcs = list(funcs)
        self.byname = {}
        for m in unit['methods']:
            self.byname.setdefault(m['name'], []).append(m)
        self.sub = {c['name']: CppClass(c, sym, decl, self) for c in unit['classes']}

    def root(self):
        return self.outer.root() if self.outer else self

    # names
    def typ(self, q):
        b, a = split(bare(q))
        n = key(b.split('::')[-1])
        if not b.startswith('zserio') and not b.startswith('std') and n in self.sym.types:
            return ('type', key(self.sym.types[n]))
        return ('ctype', bare(q))

    def constant(self, q):
        parts = q.split('::')
        n = key(parts[-1])
        for p in reversed(parts[:-1]):
            if p in ('Values',):
                continue
            k = key(p)
            if k in self.sym.enum_items and n in self.sym.enum_items[k]:
                return ('enumc', k, n)
            break
        if n in self.sym.consts and len(parts) >= 2 and parts[0] not in ('zserio', 'std'):
            return ('const', n)
        return None

    def name(self, e, env):
        n = e[1]
        s = e[2] if len(e) > 2 else ''
        if n == 'this':
            return ('self',)
        if s == 'local' or (not s and n in env):
            return env.get(n, ('local', n))
        if s.endswith('::CHOICE_' + n[7:]) and n.startswith('CHOICE_') or n == 'UNDEFINED_CHOICE':
            v = self.tagvalue(n)
            if v is not None:
                return ('num', v)
        c = self.constant(s)
        if c is not None:
            return c
        for x in self.root().c['fields']:
            if x['name'] == n and x.get('static') and x.get('init') is not None:
                return self.ex(x['init'], {})
        return ('name', n, s)

    def tagvalue(self, n):
        for en in self.root().c['enums']:
            for a, b in en['items']:
                if a == n:
                    return b
        return None

    def attr(self, e, env):
        b = self.ex(e[1], env)
        s = e[3] if len(e) > 3 else ''
        n = e[2]
        return self.member(b, n, s)

    def member(self, b, n, s):
        k = key(n[2:]) if n.startswith('m_') else key(n)
        if b == ('self',):
            if n == 'm_objectChoice':
                return ('choice',)
            if n == 'm_choiceTag':
                return ('tag',)
            if n == 'm_numExtendedFields':
                return ('numext',)
            if n in ('m_isInitialized', 'm_areChildrenInitialized'):
                return ('inited',)
            if n == 'm_value' and self.decl is not None and self.decl['kind'] == 'bitmask':
                return ('value',)
            if not n.startswith('m_'):
                c = self.constant(s)
                return c if c is not None else ('f', k)
            return ('f', k)
        if n in ('m_isInitialized', 'm_areChildrenInitialized'):
            return ('inited', b)
        return ('dot', b, {'objectchoice': 'choice'}.get(k, k))

    def own(self, q):
        return q == self.q or q == self.root().q

    # construction
    def traits(self, t):
        """Canonical traits type -> ('traits', prim, params)"""
        b, a = split(bare(t))
        n = b.split('::')[-1]
        if n in ('StdIntArrayTraits',):
            p = INT.get(bare(a[0]))
            return ('traits', p[0], (('num', p[1]),)) if p else ('traits', '?' + t, ())
        if n == 'BitFieldArrayTraits':
            p = INT.get(bare(a[0]), ('?', 0))
            w = re.sub(r'[^0-9]', '', a[1]) or '0'
            return ('traits', p[0], (('num', int(w)),))
        if n == 'DynamicBitFieldArrayTraits':
            p = INT.get(bare(a[0]), ('?', 0))
            return ('traits', p[0], (self.bitsize(a[1]),))
        if n == 'VarIntNNArrayTraits':
            p = INT.get(bare(a[0]), ('?', 0))
            return ('traits', 'var%sint%d' % ('u' if p[0] == 'bits' else '', p[1]), ())
        if n == 'VarIntArrayTraits':
            p = INT.get(bare(a[0]), ('?', 0))
            return ('traits', 'var%sint' % ('u' if p[0] == 'bits' else ''), ()) if p[1] == 64 else ('traits', '?' + t, ())
        m = re.match(r'(?:Basic)?(\w+)ArrayTraits$', n)
        if m and m.group(1) in RW:
            return ('traits', RW[m.group(1)], ())
        if n in ('EnumArrayTraits', 'BitmaskArrayTraits'):
            return ('traits', 'object', self.typ(a[0])[1])
        if n == 'ObjectArrayTraits':
            return ('traits', 'object', self.typ(a[0])[1], a[1].split('::')[-1])
        return ('traits', '?' + t, ())

    def bitsize(self, q):
        c = self.root().sub.get(q.split('::')[-1])
        if c is None:
            return ('?', q)
        m = c.byname['get'][0]
        v = c.value_of(c.block(m['body'], {p: ('self',) for p in m['params']}))
        c.reset()
        return v

    def array_desc(self, t):
        """zserio::Array<RAW, TRAITS, KIND[, EXPR]> -> descriptor"""
        b, a = split(bare(t))
        if b != 'zserio::Array':
            return None
        kind = KINDS.get(a[2].split('::')[-1], '?')
        return ('arrdesc', kind, None, self.traits(a[1]), (a[2].split('::')[-1].startswith('ALIGNED'),
                                                          a[3].split('::')[-1] if len(a) > 3 else None))

    def vecelem(self, t):
        b, a = split(bare(t))
        return bare(a[0]) if b == 'std::vector' and a else None

    def new(self, e, env):
        args = [self.ex(a, env) for a in e[2]]
        ct = bare(e[4] if len(e) > 4 else e[1])
        b, ta = split(ct)
        last = b.split('::')[-1]
        args = [a for a in args if not self.is_alloc(a)]
        if b.startswith('zserio::') and last in ('AnyHolder', 'inplace_optional_holder', 'heap_optional_holder', 'HeapOptionalHolder',
                                                 'InplaceOptionalHolder', 'optional_holder_base'):
            args = [a for a in args if a[0] not in ('noinit',) and a not in (NOINIT, INPLACE)]
            if not args:
                return NULL
            if args[0] == ('name', 'NullOpt', 'zserio::NullOpt'):
                return NULL
            return args[0]
        if b.startswith('std::') or b in ('zserio::Span', 'zserio::StringView', 'zserio::BasicStringView', 'zserio::BasicBitBuffer'):
            if last == 'allocator':
                return ('alloc',)
            if len(args) >= 1:
                return args[0]
            return ('defval', self.kind(ct))
        d = self.array_desc(self.root().c['usings'].get(ct, ct))
        if d is not None:
            args = [a for a in args if a != ('name', 'NoInit', 'zserio::NoInit')]
            if len(args) == 1 and args[0][0] in ('dot', 'f') and self.is_copy:
                return args[0]
            return ('arrv', d, args[0] if args else ('defval', 'vector'))
        n = self.typ(ct)
        if n[0] == 'type':
            if ('reader',) in args:
                v = self.val()
                i = args.index(('reader',))
                self.emit(('x', v, 'plain' if i == 0 else self.ctxmode(args[0]), n[1], tuple(args[i + 1:])))
                return v
            if len(args) == 1 and (self.items_of(args[0], n[1]) or self.is_copy and args[0][0] == 'dot'):
                return args[0]
            return ('make', n) + tuple(args)
        if len(args) == 1 and self.typ_prim(ct):
            return args[0]
        if not args and self.typ_prim(ct):
            return ('defval', self.kind(ct))
        if last.endswith('Exception'):
            return ('exc', last)
        return ('new', ct) + tuple(args)

    is_copy = False

    def items_of(self, v, t):
        """Is v made of items of the enumeration or bitmask t only?"""
        if v[0] == 'enumc':
            return v[1] == t
        return v[0] == 'bin' and v[1] in '|&^' and self.items_of(v[2], t) and self.items_of(v[3], t)

    def kind(self, t):
        b = bare(t)
        if b in INT:
            return 'int'
        if b == 'bool':
            return 'bool'
        if b in ('float', 'double'):
            return 'float'
        if 'basic_string' in b:
            return 'string'
        return b

    def typ_prim(self, t):
        b = bare(t)
        return b in INT or b in ('bool', 'float', 'double') or b.startswith('std::') or b.endswith('::Values')

    def is_alloc(self, a):
        return a[0] == 'alloc' or a in (('local', 'allocator'), ('p', 'allocator'))

    def cast(self, e, env):
        t = e[3] if len(e) > 3 else e[1]
        if bare(t).endswith('Exception'):
            return ('exc', bare(t).split('::')[-1])
        b = split(bare(t))[0]
        if b.split('::')[-1] in {x['name'] for x in self.root().c['enums']}:
            return self.ex(e[2], env)
        n = self.typ(t)
        if n[0] == 'type' and n[1] in self.sym.enum_items:
            v = self.ex(e[2], env)
            if v[0] in ('f', 'dot', 'idx', 'choice', 'enumc') or v[:2] in (('bin', '|'), ('bin', '&'), ('bin', '^'), ('un', '~')):
                return v  # the value has that type already
            if v[0] == 'num':
                return ('make', n, v)
        if '::' in b and (not b.startswith('std::') or b.startswith('std::vector')):
            return self.new(['new', e[1], [e[2]], 0, t], env)
        v = self.ex(e[2], env)
        n = self.typ(t)
        if n[0] == 'type' and v[0] == 'num' and n[1] in self.sym.enum_items:
            return ('make', n, v)
        return v

    def ctxmode(self, c):
        if c[0] == 'ctx':
            return ('ctx', c[1])
        if c == ('ctxroot',):
            return ('ctx', '')
        return ('ctx', '?' + se(c))

    # calls
    def call(self, e, env):
        f = e[1]
        if f[0] == 'name':
            sym = f[2] if len(f) > 2 else ''
            targs = f[3] if len(f) > 3 else ''
            args = [self.ex(a, env) for a in e[2]]
            if f[1] in env and sym == 'local':
                return ('callv', env[f[1]]) + tuple(args)
            return self.func(f[1], sym, targs, [a for a in args if not self.is_alloc(a)])
        if f[0] == 'attr':
            b = self.ex(f[1], env)
            sym = f[3] if len(f) > 3 else ''
            targs = f[4] if len(f) > 4 else ''
            args = [self.ex(a, env) for a in e[2]]
            return self.method(b, f[2], sym, targs, [a for a in args if not self.is_alloc(a)])
        return ('callv', self.ex(f, env)) + tuple(self.ex(a, env) for a in e[2])

    def func(self, n, sym, targs, args):
        sym = sym.lstrip(':')
        if sym.startswith('std::') and n in ('move', 'forward', 'addressof', 'ref'):
            return args[0]
        if sym.startswith('zserio::'):
            if args and self.decl is not None and self.decl['kind'] == 'enum' and ('self',) in args:
                for m in self.funcs:
                    if m['name'] == n and len(m['params']) == len(args) and self.fits(m, args) and m.get('body') is not None:
                        return self.inline(dict(m, sym='%s(%s)' % (m['q'], ','.join(m['cptypes']))), dict(zip(m['params'], args)))
            if n == 'alignTo' and len(args) == 2:
                return ('alignto', args[0][1] if args[0][0] == 'num' else args[0], args[1])
            if n == 'bitsToBytes':
                return ('bytepos',) if args[0] == ('pos',) else ('b2bytes', args[0])
            if n == 'bytesToBits':
                return ('b2bits', args[0])
            m = re.match(r'bitSizeOf(\w+)$', n)
            if m and m.group(1) in RW:
                return ('size', ('w', RW[m.group(1)], (), args[0]))
            if n == 'isSet':
                return ('bmset', args[0], args[1])
            if n == 'numBits':
                return ('numbits', args[0])
            if n == 'enumToValue':
                return ('value',) if args[0] == ('self',) else ('valueof', args[0])
            if n == 'valueToEnum':
                return ('make', self.typ(split('x' + targs)[1][0])) + tuple(args)
            if n == 'calcHashCode':
                return self.hashed(args)
            if n in ('makeStringView', 'stringViewToString', 'stringToStringView') and len(args) == 1:
                return args[0]
            if n == 'createOptionalArray' and targs:
                t = split('x' + targs)[1][0]
                d = self.array_desc(self.root().c['usings'].get(t.split('::')[-1], t))
                if d is not None:
                    return ('arrv', d, args[0])
            if n == 'allocatorPropagatingCopy':
                return [a for a in args if a != NOINIT][0]
            if n == 'bitSizeOf':
                return ('size', ('x', args[-1], 'plain' if len(args) == 1 else self.ctxmode(args[0])))
            if n == 'initializeOffsets':
                return ('bin', '+', ('pos',), ('size', ('x', args[-1], 'plain' if len(args) == 2 else self.ctxmode(args[0]))))
            if n == 'initPackingContext':
                self.emit(('x', args[1], self.ctxmode(args[0])))
                return ('void',)
            if n == 'write' and ('writer',) in args:
                self.emit(('x', args[-1], 'plain' if len(args) == 2 else self.ctxmode(args[0])))
                return ('void',)
            if n == 'read' and ('reader',) in args:
                v = self.val()
                self.emit(('x', v, 'plain' if len(args) == 1 else self.ctxmode(args[0]), self.typ(split('x' + targs)[1][0])[1], ()))
                return v
            return ('rt', n) + tuple(args)
        owner = sym.rsplit('::', 1)[0]
        if self.own(owner):
            return self.own_call(n, args)
        return ('call', ('fn', sym)) + tuple(args)

    def own_call(self, n, args):
        if key(n[4:]) in self.user and n.startswith('func'):
            return ('call', ('self',), key(n[4:]))
        r = self.root()
        cands = self.byname.get(n) or r.byname.get(n) or []
        c2 = [m for m in cands if len([p for p in self.real(m)]) == len(args) and m.get('body') is not None]
        best = c2 or [m for m in cands if m.get('body') is not None]
        if len(best) > 1:
            b3 = [m for m in best if self.fits(m, args)]
            best = b3 or best
        if best:
            m = best[0]
            a = dict(zip(self.real(m), args))
            for p, t in zip(m['params'], m['cptypes']):
                if 'allocator' in t:
                    a[p] = ('alloc',)
            return self.inline(dict(m, sym='%s(%s)' % (m['q'], ','.join(m['cptypes'])) + ('c' if m['const'] else '')), a)
        return ('call', ('self',), key(n)) + tuple(args)

    def real(self, m):
        return [p for p, t in zip(m['params'], m['cptypes']) if 'allocator' not in t]

    def fits(self, m, args):
        ts = [t for t in m['cptypes'] if 'allocator' not in t]
        for t, a in zip(ts, args):
            if ('BitStreamReader' in t) != (a == ('reader',)) or ('BitStreamWriter' in t) != (a == ('writer',)):
                return False
            if ('Context' in t) != (a == ('ctxroot',) or a[0] == 'ctx'):
                return False
        return True

    def is_pos(self, a):
        return a in (('pos',), ('pos0',))

    def method(self, b, n, sym, targs, args):
        if b == ('reader',) or b == ('writer',):
            return self.stream(b[0], n, args)
        sym, targs = chars(sym), chars(targs)
        owner = sym.rsplit('::', 1)[0] if '<' not in sym else self.owner(sym)
        ob = split(owner)[0]
        if b[0] == 'ctx' or b == ('ctxroot',):
            c = b[1] if b[0] == 'ctx' else ''
            if n in ('init', 'bitSizeOf', 'read', 'write') and targs:
                tr = self.traits(split('x' + targs)[1][0])
                prim, params = tr[1], tr[2]
                if prim == 'object':
                    params = ()
                # owner argument comes first for dynamic bit fields
                if args and args[0] == ('self',):
                    args = args[1:]
                if n == 'init':
                    self.emit(('pk', c, prim, params, args[0]))
                    return ('void',)
                if n == 'bitSizeOf':
                    return ('size', ('pk', c, prim, params, args[0]))
                if n == 'read':
                    v = self.val()
                    self.emit(('pk', c, prim, params, v))
                    return v
                self.emit(('pk', c, prim, params, args[1]))
                return ('void',)
            if not args:
                k = key(n[3:] if n.startswith('get') else n)
                return ('ctx', (c + '.' if c else '') + k)
        if ob.startswith('zserio::AnyHolder') or 'ptional_holder' in ob or 'OptionalHolder' in ob or ob in (
                'zserio::HeapOptionalHolder', 'zserio::InplaceOptionalHolder'):
            if n == 'hasValue':
                return mk_present(b)
            if n in ('value', 'get', 'operator*', 'operator->'):
                return b
            if n == 'reset':
                self.emit(('set', b, NULL))
                self.assigned[b] = NULL
                return ('void',)
            if n in ('set', 'assign'):
                self.emit(('set', b, [a for a in args if a != NOINIT][0]))
                return ('void',)
        if n == 'assign' and len(args) == 2 and args[0] == NOINIT:
            self.emit(('set', b, args[1]))
            return ('void',)
        if ob == 'zserio::Array':
            d = self.array_desc(owner)
            if n == 'getRawArray':
                return b
            a = [x for x in args if x != ('self',)]
            if n in ('read', 'readPacked'):
                if b[0] == 'arrv':
                    pass
                v = b
                self.emit(('x', v, 'packed' if n.endswith('Packed') else 'plain', d, ('length', a[1] if len(a) > 1 else None)))
                return ('void',)
            if n in ('write', 'writePacked'):
                self.emit(('x', b, 'packed' if n.endswith('Packed') else 'plain', d))
                return ('void',)
            if n in ('bitSizeOf', 'bitSizeOfPacked'):
                return ('size', ('x', b, 'packed' if n.endswith('Packed') else 'plain', d))
            if n in ('initializeOffsets', 'initializeOffsetsPacked'):
                return ('bin', '+', ('pos',), ('size', ('x', b, 'packed' if n.endswith('Packed') else 'plain', d)))
            if n == 'initializeElements':
                self.emit(('initelems', b))
                return ('void',)
            if n == 'assign' or n == 'operator=':
                self.emit(('set', b, args[0]))
                return ('void',)
        if (ob.startswith('std::') or ob in ('zserio::Span', 'zserio::BasicStringView', 'zserio::BasicBitBuffer')):
            if n == 'size' and not args:
                return ('len', b)
            if n == 'at':
                return ('idx', b, args[0])
            if n == 'get_allocator':
                return ('alloc',)
            if n == 'emplace_back':
                t = self.typ(self.vecelem(ob if '<' in ob else owner) or '')
                if t[0] == 'type' and ('reader',) in args:
                    i = args.index(('reader',))
                    self.emit(('x', ('elem',), 'plain' if i == 0 else self.ctxmode(args[0]), t[1], tuple(args[i + 1:])))
                    return ('void',)
        if n == 'get_allocator_ref' or n == 'get_allocator':
            return ('alloc',)
        if b == ('self',):
            return self.own_call(n, args)
        if n in ('bitSizeOf',) and args and self.is_pos(args[-1]) or n == 'bitSizeOf' and ob.split('::')[-1] and key(
                ob.split('::')[-1]) in self.sym.enum_items:
            return ('size', ('x', b, self.mode(args)))
        if n == 'initializeOffsets' and args and self.is_pos(args[-1]):
            return ('bin', '+', ('pos',), ('size', ('x', b, self.mode(args))))
        if n == 'write' and args and args[-1] == ('writer',):
            self.emit(('x', b, self.mode(args)))
            return ('void',)
        if n == 'initPackingContext' and len(args) == 1:
            self.emit(('x', b, self.ctxmode(args[0])))
            return ('void',)
        if n == 'getValue' and key(ob.split('::')[-1]) in self.sym.enum_items:
            return ('valueof', b)
        if n == 'initialize':
            self.emit(('initialize', b) + tuple(args))
            return ('void',)
        if n == 'initializeChildren':
            self.emit(('initchildren', b))
            return ('void',)
        if key(ob.split('::')[-1]) in self.sym.types:
            if n.startswith('func') and not args:
                return ('call', b, key(n[4:]))
            if n.startswith('get') and not args:
                return ('dot', b, key(n[3:]))
            if n.startswith('set') and len(args) == 1:
                self.emit(('set', ('dot', b, key(n[3:])), args[0]))
                return ('void',)
        return ('call', b, key(n)) + tuple(args)

    def owner(self, sym):
        """'A<..>::m' or 'a::B<..>::m' -> owner with its template arguments"""
        depth = 0
        for i in range(len(sym) - 1, 0, -1):
            ch = sym[i]
            depth += ch == '>'
            depth -= ch == '<'
            if depth == 0 and sym[i - 1:i + 1] == '::':
                return sym[:i - 1]
        return sym

    def mode(self, args):
        return self.ctxmode(args[0]) if len(args) == 2 else 'plain'

    def stream(self, s, n, args):
        if n == 'alignTo':
            self.emit(('align', args[0][1] if args[0][0] == 'num' else args[0]))
            return ('void',)
        if n == 'getBitPosition':
            return ('pos',)
        if n == 'getBufferBitSize':
            return ('bufsize',)
        if n.startswith('read') and n[4:] in RW:
            v = self.val()
            self.emit(('w', RW[n[4:]], tuple(args), v))
            return v
        if n.startswith('write') and n[5:] in RW:
            self.emit(('w', RW[n[5:]], tuple(args[1:]), args[0]))
            return ('void',)
        self.emit(('stream', n) + tuple(args))
        return ('void',)

    def stmt(self, s, env):
        # a local array object that is read and returned stands for the field it becomes
        if s[0] == 'decl' and s[3] is not None and s[3][0] == 'new':
            v = self.ex(s[3], env)
            if v[0] == 'arrv' and v[2] == ('defval', 'vector'):
                v = self.val()
            env[s[1]] = self.cursor(v)
            return
        super().stmt(s, env)

    def throw_kind(self, e, env):
        return 'error'

    def is_local(self, target, env):
        return len(target) > 2 and target[2] == 'local'

    def ex(self, e, env):
        if e is not None and e[0] == 'list':
            xs = [self.ex(x, env) for x in e[1]]
            return xs[0] if len(xs) == 1 else ('list',) + tuple(xs)
        if e is not None and e[0] in ('none',):
            return ('defval', '')
        return super().ex(e, env)

    # running
    def entry_env(self, m):
        env = {}
        for i, (p, t) in enumerate(zip(m['params'], m['cptypes'])):
            b = bare(t)
            if b == READER:
                env[p] = ('reader',)
            elif b == WRITER:
                env[p] = ('writer',)
            elif 'Context' in b:
                env[p] = ('ctxroot',)
            elif 'allocator' in b:
                env[p] = ('alloc',)
            elif b == 'unsigned long' and 'osition' in p:
                env[p] = ('pos0',)
            elif b == 'unsigned long' and 'ffset' in p:
                env[p] = ('pos',)
            elif b == 'unsigned long' and 'ndex' in p:
                env[p] = ('index',)
            elif b == self.q:
                env[p] = ('self',) if self.decl is not None and self.decl['kind'] == 'enum' else ('other',)
            elif b == self.root().q:
                env[p] = ('self',)
            elif 'PropagateAllocator' in b or 'NoInit' in b:
                env[p] = ('tagarg',)
            else:
                env[p] = ('p', key(p))
        return env

    def select(self, name, *ptypes):
        for m in self.c['methods']:
            ts = [t for t in m['cptypes'] if 'allocator' not in t]
            if m['name'] == name and len(ts) == len(ptypes) and all(p in t for p, t in zip(ptypes, ts)) and m.get('body') is not None \
                    and not m['deleted']:
                return m
        return None

    def free(self, name, *ptypes):
        """A specialization of a runtime function for this enumeration."""
        for m in self.funcs:
            if m['name'] == name and len(m['cptypes']) == len(ptypes) and all(p in t for p, t in zip(ptypes, m['cptypes'])):
                return m
        return None

    def free_read(self, ctx):
        for m in self.funcs:
            if m['name'] == 'read' and m['q'] == 'zserio::read' and bare(m['cret']) == self.q and \
                    len(m['cptypes']) == (2 if ctx else 1):
                return m
        return None

    def ctor_read(self, ctx):
        """The constructor that reads from a stream."""
        for m in self.c['methods']:
            if m['name'] == self.c['name'] and m.get('body') is not None and not m['deleted']:
                if any(bare(t) == READER for t in m['cptypes']) and any('Context' in t for t in m['cptypes']) == ctx:
                    return m
        return None

    def run(self, m, extra=None):
        self.reset()
        env = self.entry_env(m)
        env.update(extra or {})
        out = []
        self.out = out
        for i in m.get('inits') or []:
            if i[0] == '<delegate>' or i[0] == '<base>':
                v = self.ex(i[1], env)
                self.emit(('init', i[0], v))
                continue
            loc = self.member(('self',), i[0], '')
            v = self.ex(i[1], env)
            self.emit(('set', loc, v))
        rest = self.block(m['body'], env)
        return out + rest


def load(ir, pkg, sym):
    out = {}
    ns = tuple(p.replace('.', '::') + '::' for p in sym.pks)
    by_type = {}
    for f in ir['functions']:
        for q in {bare(t) for t in list(f['cptypes']) + [f['cret']] + list(f.get('targs', ()))}:
            by_type.setdefault(q, []).append(f)
    for c in ir['classes']:
        if not c['q'].startswith(ns):
            continue
        n = sym.types.get(key(c['name']))
        jc = CppClass(c, sym, sym.concrete.get(n) if n else None,
                      funcs=[f for f in by_type.get(c['q'], ()) if any(bare(t) == c['q'] for t in f['cptypes'])])
        jc.file = c['file']
        out[key(c['name'])] = jc
    for en in ir['enums']:
        q = en['name']
        if not q.startswith(ns):
            continue
        n = sym.types.get(key(q.split('::')[-1]))
        fs = by_type.get(q, [])
        c = {'name': q.split('::')[-1], 'q': q, 'methods': [], 'fields': [], 'classes': [], 'enums': [], 'usings': {}, 'file': ''}
        jc = CppClass(c, sym, sym.concrete.get(n) if n else None, funcs=fs)
        jc.file = fs[0]['file'] if fs else ''
        jc.enum = en
        out[key(q.split('::')[-1])] = jc
    return out


def constants(ir, sym):
    """{constant: (evaluation context, initial value, type, file, line)} of the generated packages."""
    out = {}
    ns = tuple(p.replace('.', '::') + '::' for p in sym.pks)
    for v in ir['vars']:
        n = v['name'].split('::')[-1]
        if v['name'].startswith(ns) and key(n) in sym.consts and v['init'] is not None:
            c = CppClass({'name': n, 'q': v['name'], 'methods': [], 'fields': [], 'classes': [], 'enums': [], 'usings': {}, 'file': v['file']}, sym, None, funcs=[])
            out[key(n)] = (c, v['init'], v['type'], v['file'], v['line'])
    return out
