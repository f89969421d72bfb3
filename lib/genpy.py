"""Meaning of generated Python code: calls on streams, contexts and the runtime become events."""
import os
import re
from canon import *
from interp import Interp, resolve_sets
import pyir

ATTR = re.compile(r'^_(.+)_$')
RW = {'bits': 'bits', 'signed_bits': 'sbits', 'bool': 'bool', 'varint16': 'varint16', 'varint32': 'varint32',
      'varint64': 'varint64', 'varint': 'varint', 'varuint16': 'varuint16', 'varuint32': 'varuint32',
      'varuint64': 'varuint64', 'varuint': 'varuint', 'varsize': 'varsize', 'float16': 'float16', 'float32': 'float32',
      'float64': 'float64', 'string': 'string', 'bytes': 'bytes', 'bitbuffer': 'bitbuffer',
      # unchecked variants and older spellings of the stream classes
      'bits_unchecked': 'bits', 'signed_bits_unchecked': 'sbits'}
TRAITS = {'BitFieldArrayTraits': 'bits', 'SignedBitFieldArrayTraits': 'sbits', 'VarInt16ArrayTraits': 'varint16',
          'VarInt32ArrayTraits': 'varint32', 'VarInt64ArrayTraits': 'varint64', 'VarIntArrayTraits': 'varint',
          'VarUInt16ArrayTraits': 'varuint16', 'VarUInt32ArrayTraits': 'varuint32', 'VarUInt64ArrayTraits': 'varuint64',
          'VarUIntArrayTraits': 'varuint', 'VarSizeArrayTraits': 'varsize', 'BoolArrayTraits': 'bool',
          'Float16ArrayTraits': 'float16', 'Float32ArrayTraits': 'float32', 'Float64ArrayTraits': 'float64',
          'StringArrayTraits': 'string', 'BytesArrayTraits': 'bytes', 'BitBufferArrayTraits': 'bitbuffer'}
SIZEPOS = {'bitsizeof', 'bitsizeof_packed'}
INITPOS = {'initialize_offsets', 'initialize_offsets_packed'}


class PyClass(Interp):
    lang = 'python'

    def __init__(self, unit, sym, decl=None, outer=None, modfields=(), pkg=None):
        super().__init__(unit, sym, decl, outer)
        self.pkg = pkg or (outer.pkg if outer is not None else None)
        self.methods, self.props = {}, {}
        for m in unit['methods']:
            if any(d[0] == 'attr' and d[2] == 'setter' for d in m['decorators']):
                self.methods.setdefault(m['name'] + '=', m)
            else:
                self.methods[m['name']] = m
                if any(d == ['name', 'property'] for d in m['decorators']):
                    self.props[m['name']] = m
        self.consts = {f['name']: f['init'] for f in unit['fields']}
        self.sub = {c['name']: c for c in unit['classes']}

    def helper(self, name):
        """A nested helper class; its owner is the object itself."""
        c = PyClass(self.sub[name], self.sym, self.decl, self)
        for k, v in self.methods.items():
            c.methods.setdefault(k, v)
        for k, v in self.props.items():
            if k not in c.methods or c.methods[k] is v:
                c.props[k] = v
        return c

    # names
    def name(self, e, env):
        n = e[1]
        if n in env:
            return env[n]
        if n in ('self', 'cls'):
            return (n,)
        k = key(self.sym.internal(self.pkg, n))
        if k in self.sym.types:
            return ('type', key(self.sym.types[k]))
        return ('mod', n)

    def attr(self, e, env):
        b = self.ex(e[1], env)
        n = e[2]
        return self.member(b, n, env)

    def member(self, b, n, env):
        if b == ('self',) or b == ('cls',):
            m = ATTR.match(n)
            if n == '_choice':
                return ('choice',)
            if n == '_choice_tag':
                return ('tag',)
            if n == '_num_extended_fields':
                return ('numext',)
            if n in ('_value', 'value') and self.is_flags():
                return ('value',)
            if n == '_owner':
                return ('self',)
            if n in self.sub:
                return ('sub', n)
            if n in self.props:
                return self.inline(self.props[n], {'self': ('self',)})
            if n in self.methods:
                return ('meth', n)
            if m and (n not in self.consts):
                return ('f', key(m.group(1)))
            if n in self.consts:
                return self.ex(self.consts[n], {})
            return ('f', key(n))
        if b[0] == 'ctx' or b == ('ctxroot',):
            m = ATTR.match(n)
            k = key(m.group(1) if m else n)
            return ('ctx', k) if b == ('ctxroot',) else ('ctx', b[1] + '.' + k)
        if b[0] == 'mod':
            k = key(self.sym.internal('.'.join(b[1:-1]), n))
            if k in self.sym.types and self.is_type(b, n):
                return ('type', key(self.sym.types[k]))
            if k in self.sym.consts and n.isupper():
                return ('const', k)
            return ('mod',) + b[1:] + (n,)
        if b[0] == 'type':
            if n == 'Values':
                return b
            if b[1] in self.sym.enum_items and key(n) in self.sym.enum_items[b[1]]:
                return ('enumc', b[1], key(n))
            if n == 'ZserioPackingContext':
                return ('ctxtype', b[1])
            return ('tmember', b[1], n)
        if b == ('reader',) or b == ('writer',):
            if n == 'bitposition':
                return ('pos',)
            if n == 'buffer_bitsize':
                return ('bufsize',)
            return ('smember', b[0], n)
        if n == 'raw_array':
            return b
        if n == 'value' and b[0] != 'new':
            return ('valueof', b)
        if b[0] == 'other' and n in ('_choice', '_choice_tag', '_value', '_num_extended_fields'):
            return ('dot', b, n[1:].replace('_', ''))
        m = ATTR.match(n)
        return ('dot', b, key(m.group(1) if m else n))

    def is_type(self, b, n):
        return b[1] != 'zserio' and not n.islower() or n in ()

    def is_flags(self):
        return self.decl is not None and self.decl['kind'] in ('enum', 'bitmask')

    # calls
    def call(self, e, env):
        f, kw = e[1], e[3]
        if f[0] == 'attr':
            b = self.ex(f[1], env)
            return self.method(b, f[2], e[2], kw, env)
        fn = self.ex(f, env)
        args = [self.ex(a, env) for a in e[2]]
        if fn == ('mod', 'len'):
            return ('len', args[0])
        if fn == ('mod', 'isinstance'):
            return ('inst', args[0], args[1])
        if fn[0] == 'mod' and len(fn) == 2:
            if fn[1] in ('int', 'str', 'float', 'bool', 'bytearray', 'bytes') and not args:
                return ('defval', fn[1])
            return ('call', None, fn[1]) + tuple(args)
        if fn[0] == 'cls' or fn[0] == 'type':
            return ('make', fn) + tuple(args)
        if fn[0] == 'sub':
            return ('factory', fn[1])
        return ('callv', fn) + tuple(args)

    def traits(self, e, env):
        """(prim, params) or ('object', factory) of an array traits expression."""
        v = self.ex(e, env) if isinstance(e, list) else e
        return v

    def method(self, b, n, rawargs, kw, env):
        args = [self.ex(a, env) for a in rawargs]
        kws = {k: self.ex(v, env) for k, v in kw.items()}
        if b == ('reader',) or b == ('writer',):
            return self.stream(b[0], n, args)
        if b[0] == 'mod':
            return self.runtime(b[1:] + (n,), args, kws, env)
        if b[0] == 'ctx' or b == ('ctxroot',):
            c = b[1] if b[0] == 'ctx' else ''
            if n in ('init', 'bitsizeof', 'read', 'write') and args and args[0][0] == 'traits':
                prim, params = args[0][1], args[0][2]
                if n == 'init':
                    self.emit(('pk', c, prim, params, args[1]))
                    return ('void',)
                if n == 'bitsizeof':
                    return ('size', ('pk', c, prim, params, args[1]))
                if n == 'read':
                    v = self.val()
                    self.emit(('pk', c, prim, params, v))
                    return v
                self.emit(('pk', c, prim, params, args[2]))
                return ('void',)
            return ('call', b, key(n)) + tuple(args)
        if b == ('type', key(self.c['name'])) and n in self.methods and not self.dispatch(n):
            b = ('self',)
        if b[0] == 'type' or b == ('cls',):
            if n in ('from_reader', 'from_reader_packed') and args and (args[0] == ('reader',) or
                                                                         len(args) > 1 and args[1] == ('reader',)):
                v = self.val()
                if n == 'from_reader':
                    self.emit(('x', v, 'plain', b[1], tuple(args[1:])))
                else:
                    self.emit(('x', v, self.ctxmode(args[0]), b[1], tuple(args[2:])))
                return v
            if n == 'ZserioPackingContext':
                return ('newctx', b[1])
            if n == 'type_info':
                return ('typeinfo', b[1])
            if b == ('cls',) and n in self.methods:
                return self.inline_call(n, args, kws)
            return ('call', b, n) + tuple(args)
        if b[0] == 'tmember' and n == 'from_reader':
            return ('call', b, n) + tuple(args)
        if b == ('self',):
            if n in self.sub:
                return ('factory', n)
            if n in self.methods and not (key(n) in self.user and not n.startswith('_')):
                return self.inline_call(n, args, kws)
            return ('call', b, key(n)) + tuple(args)
        if n in SIZEPOS and args and self.is_pos(args[-1]):
            return ('size', ('x', b, self.mode(n, args)))
        if n in INITPOS and args and self.is_pos(args[-1]):
            return ('bin', '+', ('pos',), ('size', ('x', b, self.mode(n, args))))
        if n in ('write', 'write_packed') and args and args[-1] == ('writer',):
            self.emit(('x', b, self.mode(n, args)))
            return ('void',)
        if n == 'init_packing_context' and len(args) == 1:
            self.emit(('x', b, self.ctxmode(args[0])))
            return ('void',)
        return ('call', b, key(n)) + tuple(args)

    def dispatch(self, n):
        return n in ('from_reader', 'from_reader_packed', 'type_info')

    def inline_call(self, n, args, kws):
        m = self.methods[n]
        static = any(d == ['name', 'staticmethod'] for d in m['decorators'])
        params = m['params'] if static else m['params'][1:]
        a = dict(zip(params, args))
        a.update(kws)
        for p in params:
            if p not in a and m['defaults'].get(p) is not None:
                a[p] = self.ex(m['defaults'][p], {})
        if not static:
            a[m['params'][0]] = ('self',)
        return self.inline(m, a)

    def is_pos(self, a):
        return a in (('pos',), ('pos0',))

    def mode(self, n, args):
        if n.endswith('_packed'):
            if len(args) == 2:
                return self.ctxmode(args[0])
            return 'packed'
        return 'plain'

    def ctxmode(self, c):
        if c[0] == 'ctx':
            return ('ctx', c[1])
        if c == ('ctxroot',):
            return ('ctx', '')
        return ('ctx', '?' + se(c))

    def stream(self, s, n, args):
        if n == 'alignto':
            self.emit(('align', args[0][1] if args[0][0] == 'num' else args[0]))
            return ('void',)
        if n.startswith('read_') and n[5:] in RW:
            v = self.val()
            self.emit(('w', RW[n[5:]], tuple(args), v))
            return v
        if n.startswith('write_') and n[6:] in RW:
            self.emit(('w', RW[n[6:]], tuple(args[1:]), args[0]))
            return ('void',)
        self.emit(('stream', n) + tuple(args))
        return ('void',)

    def runtime(self, p, args, kws, env):
        if p[0] == 'zserio' or p[0] == 'typing':
            q = p[-1]
            sub = p[1] if len(p) > 2 else ''
            if q == 'alignto' and len(args) == 2:
                return ('alignto', args[0][1] if args[0][0] == 'num' else args[0], args[1])
            if q == 'bits_to_bytes':
                return ('bytepos',) if args[0] == ('pos',) else ('b2bytes', args[0])
            if q == 'bytes_to_bits':
                return ('b2bits', args[0])
            if sub == 'bitsizeof' and q.startswith('bitsizeof_'):
                return ('size', ('w', RW.get(q[10:], q[10:]), (), args[0]))
            if q == 'isset':
                return ('bmset', args[0], args[1])
            if q == 'numbits':
                return ('numbits', args[0])
            if q in TRAITS:
                return ('traits', TRAITS[q], tuple(args))
            if q == 'ObjectArrayTraits':
                return ('traits', 'object', tuple(args))
            if q == 'DeltaContext':
                return ('newdelta',)
            if q == 'Array':
                return ('arrv', self.desc(args[0], args[2:], kws), args[1] if len(args) > 1 else NULL)
            if p[-2:] in (('Array', 'from_reader'), ('Array', 'from_reader_packed')):
                v = self.val()
                packed = q.endswith('packed')
                self.emit(('x', v, 'packed' if packed else 'plain', self.desc(args[0], args[2:], kws)))
                return v
            if q.startswith('calc_hashcode_'):
                return self.hashed(args)
            if q == 'lengthof_string' and len(args) == 1:
                return ('len', args[0])
            return ('rt', '.'.join(p[1:])) + tuple(args) + tuple(sorted(kws.items()))
        return ('call', ('mod',) + p[:-1], p[-1]) + tuple(args)

    def desc(self, traits, rest, kws):
        length = rest[0] if rest else kws.get('size')
        kind = 'auto' if kws.get('is_auto') == TRUE else 'implicit' if kws.get('is_implicit') == TRUE else 'normal'
        off = []
        for k in ('set_offset_method', 'check_offset_method'):
            v = kws.get(k)
            off.append(None if v is None or v == NULL else v)
        return ('arrdesc', kind, length, traits, tuple(off))

    def throw_kind(self, e, env):
        return 'error'

    # assignment to own attributes (through a property setter when there is one)
    def assign(self, target, v, env):
        if target[0] == 'attr':
            b = self.ex(target[1], env)
            n = target[2]
            if b == ('self',) and n in self.props and n + '=' in self.methods:
                m = self.methods[n + '=']
                self.inline(m, {m['params'][0]: ('self',), m['params'][1]: v})
                return
        super().assign(target, v, env)

    def is_local(self, target, env):
        return True

    # running methods
    def entry_env(self, m, extra=None):
        env = {}
        for p in m['params']:
            t = m['ptypes'].get(p, '')
            if p in ('self', 'cls'):
                env[p] = (p,)
            elif 'BitStreamReader' in t:
                env[p] = ('reader',)
            elif 'BitStreamWriter' in t:
                env[p] = ('writer',)
            elif 'PackingContext' in t or 'DeltaContext' in t:
                env[p] = ('ctxroot',)
            elif 'bitposition' in p.lower():
                env[p] = ('pos0',)
            elif p == 'other':
                env[p] = ('other',)
            elif 'index' in p.lower():
                env[p] = ('index',)
            elif 'offset' in p.lower():
                env[p] = ('pos',)
            else:
                env[p] = ('p', key(p))
        env.update(extra or {})
        return env

    def run(self, name, extra=None):
        self.reset()
        m = self.methods[name]
        t = self.block(m['body'], self.entry_env(m, extra))
        return t

    def has(self, name):
        return name in self.methods


def load(root, pkg, sym):
    """{TypeName: PyClass} of the generated packages."""
    out = {}
    for q in sorted(sym.pks):
        d = os.path.join(root, *q.split('.'))
        for f in sorted(os.listdir(d)):
            if not f.endswith('.py'):
                continue
            m = pyir.module(os.path.join(d, f))
            for c in m['classes']:
                k = key(sym.internal(q, c['name']))
                n = sym.types.get(k)
                pc = PyClass(c, sym, sym.concrete.get(n) if n else None, pkg=q)
                pc.file, pc.module = os.path.join(d, f), m
                out[k] = pc
    return out


def constants(root, sym):
    """{constant: (evaluation context, initial value, type, file, line)} of the generated packages."""
    out = {}
    for q in sorted(sym.pks):
        d = os.path.join(root, *q.split('.'))
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                m = pyir.module(os.path.join(d, f))
                for v in m['fields']:
                    k = key(sym.internal(q, v['name']))
                    if k in sym.consts:
                        pc = PyClass({'name': v['name'], 'methods': [], 'fields': [], 'classes': []}, sym, None, pkg=q)
                        out[k] = (pc, v['init'], None, os.path.join(d, f), v['line'])
    return out
