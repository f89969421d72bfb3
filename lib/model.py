"""Reference side: what a schema means on the wire, derived from the independent parse (zsparse), never from the compiler
under analysis. Layouts are event trees in the vocabulary of canon.py."""
import os
from canon import *
import zsparse

FIXED = {'bool': 1, 'float16': 16, 'float32': 32, 'float64': 64}
for _n in (8, 16, 32, 64):
    FIXED['uint%d' % _n] = FIXED['int%d' % _n] = _n
VARINTS = {'varint16', 'varint32', 'varint64', 'varint', 'varuint16', 'varuint32', 'varuint64', 'varuint', 'varsize'}
SIGNED_VAR = {'varint16', 'varint32', 'varint64', 'varint'}
OTHER = {'string': 'string', 'bytes': 'bytes', 'extern': 'bitbuffer'}
OFFSET_BITS = 8


class Type:
    """Resolved type of a field: kind prim/enum/bitmask/compound."""

    def __init__(self, kind, name=None, prim=None, params=(), decl=None, args=(), zs=None):
        self.kind, self.name, self.prim, self.params, self.decl, self.args, self.zs = kind, name, prim, params, decl, args, zs

    def simple_packable(self):
        if self.kind in ('enum', 'bitmask'):
            return True
        return self.kind == 'prim' and (self.prim in ('bits', 'sbits') or self.prim in VARINTS)


class Schema:
    def __init__(self, path):
        self.pk = zsparse.parse_file(path)
        self.pkg = self.pk['name']
        self.packages(path)
        self.concrete = {}
        self._foreign = None
        inst = {}
        for d in list(self.decls.values()):
            if d['kind'] == 'instantiate':
                inst[self.tkey(d['type'])] = d['name']
        self.inst = inst
        for d in list(self.decls.values()):
            if d['kind'] in ('struct', 'choice', 'union') and not d['tparams']:
                self.concrete[d['name']] = d
            elif d['kind'] in ('enum', 'bitmask'):
                self.concrete[d['name']] = d
            elif d['kind'] == 'instantiate':
                self.resolve(d['type'], None)
        todo = [d for d in self.concrete.values()]
        seen = set()
        while todo:
            d = todo.pop()
            if d['name'] in seen:
                continue
            seen.add(d['name'])
            if d['kind'] in ('struct', 'choice', 'union'):
                n = set(self.concrete)
                for f in d['fields']:
                    self.resolve(f['type'], d)
                for p in d['params']:
                    self.resolve(p[0], d)
                todo += [self.concrete[x] for x in set(self.concrete) - n]
        self.types = {key(n): n for n in self.concrete}
        for n, d in self.decls.items():
            if d['kind'] == 'subtype':
                r = self.resolve({'name': n, 'targs': [], 'args': []}, None)
                if r.name:
                    self.types[key(n)] = r.name
        self.consts = {key(n): n for n, d in self.decls.items() if d['kind'] == 'const'}
        self.enum_items = {}
        for d in self.concrete.values():
            if d['kind'] in ('enum', 'bitmask'):
                self.enum_items[key(d['name'])] = {key(i['name']) for i in d['items']}

    def packages(self, path):
        """Reads the imported packages too and gives every type a name of its own: names used in several packages get the last
        part of their package in front."""
        base = path[:-len('.zs')]
        for part in reversed(self.pkg.split('.')):
            base = os.path.dirname(base)
        pks, todo = {self.pkg: self.pk}, [self.pk]
        while todo:
            for q, _ in todo.pop()['imports']:
                if q not in pks:
                    pks[q] = zsparse.parse_file(os.path.join(base, *q.split('.')) + '.zs')
                    todo.append(pks[q])
        self.pks = pks
        count = {}
        for q in pks.values():
            for n in q['types']:
                count[n] = count.get(n, 0) + 1
        self.alias, self.origin = {}, {}
        for q in sorted(pks):
            for n in pks[q]['types']:
                a = n if count[n] == 1 else q.split('.')[-1].upper()[:1] + q.split('.')[-1][1:] + n
                if count[n] > 1 and n.isupper():
                    a = q.split('.')[-1].upper() + n
                self.alias[q, n] = a
                self.origin[a] = (q, n)
        self.clashes = {(q, n): a for (q, n), a in self.alias.items() if a != n}
        self.decls = {}
        for q in sorted(pks):
            scope = {}
            for i, n in pks[q]['imports']:
                if n is None:
                    for x in pks[i]['types']:
                        scope[x] = self.alias[i, x]
            for i, n in pks[q]['imports']:
                if n is not None:
                    scope[n] = self.alias[i, n]
            for x in pks[q]['types']:
                scope[x] = self.alias[q, x]
            for n, d in pks[q]['types'].items():
                d = self.globalise(d, scope) if len(pks) > 1 else d
                d['orig'], d['pkg'] = n, q
                d['name'] = self.alias[q, n]
                self.decls[d['name']] = d

    def internal(self, pkg, name):
        """Name used here for a generated class of a package."""
        return self.clashes.get((pkg, name), name)

    def globalise(self, d, scope):
        local = {f['name'] for f in d.get('fields', ())} | {p[1] for p in d.get('params', ())} | set(d.get('tparams', ())) | \
            {f['name'] for f in d.get('functions', ())}

        def dotted(e):
            if e[0] == 'id':
                return e[1]
            if e[0] == 'dot':
                b = dotted(e[1])
                return b and b + '.' + e[2]
            return None

        def glob(n):
            if '.' in n:
                p, _, x = n.rpartition('.')
                return self.alias.get((p, x))
            return scope.get(n) if n not in local else None

        def walk(x):
            if isinstance(x, dict):
                x = {a: walk(b) for a, b in x.items()}
                if 'targs' in x:
                    x['name'] = glob(x['name']) or x['name']
                return x
            if isinstance(x, (list, tuple)):
                if len(x) >= 2 and x[0] in ('id', 'dot'):
                    n = dotted(x)
                    g = glob(n) if n else None
                    if g is not None:
                        return ['id', g]
                return type(x)(walk(y) for y in x)
            return x
        return walk(d)

    def tkey(self, t):
        return (t['name'], tuple(self.tkey(self.base(a)) for a in t['targs']), repr(t.get('width')))

    def base(self, t):
        """The type a chain of subtypes stands for."""
        while not t['targs'] and t['name'] in self.decls and self.decls[t['name']]['kind'] == 'subtype':
            t = self.decls[t['name']]['type']
        return t

    # ---------------------------------------------------------------- types
    def instantiate(self, t):
        d = self.decls[t['name']]
        k = self.tkey(t)
        name = self.inst.get(k)
        if name is None:
            def part(a):
                a = self.base(a)
                if a['targs'] and self.tkey(a) in self.inst:
                    return self.inst[self.tkey(a)]
                s = self.origin.get(a['name'], ('', a['name']))[1].replace('.', '_')
                return s + ''.join('_' + part(x) for x in a['targs'])
            name = self.origin.get(t['name'], ('', t['name']))[1] + ''.join('_' + part(a) for a in t['targs'])
        if name not in self.concrete:
            m = dict(zip(d['tparams'], [self.base(a) for a in t['targs']]))

            def sub(x):
                if isinstance(x, dict):
                    if 'targs' in x and x['name'] in m and not x['targs']:
                        r = dict(m[x['name']])
                        r['args'] = [sub(a) for a in x.get('args', [])] or r.get('args', [])
                        return r
                    return {a: sub(b) for a, b in x.items()}
                if isinstance(x, list):
                    if len(x) == 2 and x[0] == 'id' and x[1] in m:
                        return ['id', m[x[1]]['name']]
                    return [sub(y) for y in x]
                if isinstance(x, tuple):
                    return tuple(sub(y) for y in x)
                return x
            c = sub({k2: v for k2, v in d.items() if k2 not in ('name', 'tparams')})
            c['name'], c['tparams'], c['template'], c['targs'] = name, [], d['name'], [self.base(a) for a in t['targs']]
            self.concrete[name] = c
        return name

    def resolve(self, t, decl):
        """Type of a type reference in the scope of decl."""
        n = t['name']
        if n in FIXED:
            if n.startswith('uint') or n.startswith('int'):
                return Type('prim', prim='sbits' if n[0] == 'i' else 'bits', params=(('num', FIXED[n]),), zs=n)
            return Type('prim', prim=n, zs=n)
        if n in ('bit', 'int'):
            w = self.cex(t['width'], decl)
            return Type('prim', prim='bits' if n == 'bit' else 'sbits', params=(w,),
                        zs='%s:%s' % (n, w[1]) if not t.get('dyn') else n)
        if n in VARINTS:
            return Type('prim', prim=n, zs=n)
        if n in OTHER:
            return Type('prim', prim=OTHER[n], zs=n)
        n = n.split('.')[-1]
        if t['targs']:
            name = self.instantiate(dict(t, name=n))
            d = self.concrete[name]
        else:
            d = self.decls.get(n) or self.concrete.get(n)
            if d is None:
                raise KeyError('type ' + n)
            if d['kind'] == 'subtype':
                r = self.resolve(d['type'], decl)
                return r
            if d['kind'] == 'instantiate':
                name = self.instantiate(d['type'])
                d = self.concrete[name]
        if d['kind'] in ('enum', 'bitmask'):
            return Type(d['kind'], name=d['name'], decl=d)
        args = tuple(self.cex(a, decl) if a[0] != 'explicit' else ('explicit', a[1]) for a in t.get('args', ()))
        return Type('compound', name=d['name'], decl=d, args=args)

    def subtype_of(self, name):
        """The elementary type that the subtype of the name stands for."""
        for n, d in self.decls.items():
            if d['kind'] == 'subtype' and key(n) == key(name):
                r = self.resolve({'name': n, 'targs': [], 'args': []}, None)
                if r.kind == 'prim':
                    return ('prim', r.zs)
        return None

    def underlying(self, d):
        t = d['type']
        r = self.resolve(t, None)
        if r.prim == 'bits' and r.params[0][0] == 'const':
            pass
        return r

    # ---------------------------------------------------------------- values
    def const_value(self, e, decl=None):
        """Numeric value of a constant schema expression (enum item values, widths)."""
        t = e[0]
        if t == 'num':
            return e[1]
        if t == 'bool':
            return e[1]
        if t == 'str':
            return e[1]
        if t == 'id' and e[1] in self.decls and self.decls[e[1]]['kind'] == 'const':
            return self.const_value(self.decls[e[1]]['expr'])
        if t == 'un':
            v = self.const_value(e[2])
            return {'-': lambda: -v, '+': lambda: v, '~': lambda: ~v, '!': lambda: not v}[e[1]]()
        if t == 'bin':
            a, b = self.const_value(e[2]), self.const_value(e[3])
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<<': lambda: a << b, '>>': lambda: a >> b,
                    '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b,
                    '/': lambda: int(a / b) if isinstance(a, int) else a / b, '%': lambda: a - b * int(a / b)}[e[1]]()
        if t == 'dot' and e[1][0] == 'id':
            d = self.decls.get(e[1][1])
            if d and d['kind'] in ('enum', 'bitmask'):
                return dict(self.items(d))[e[2]]
        if t == 'valueof':
            return self.const_value(e[1])
        raise ValueError('not a constant: %r' % (e,))

    def items(self, d):
        """(name, value) of enum/bitmask items, defaults filled in by the language rules."""
        out, prev = [], None
        for i in d['items']:
            if i['expr'] is not None:
                v = self.const_value(i['expr'])
            elif d['kind'] == 'enum':
                v = 0 if prev is None else prev + 1
            else:
                v = 1 if prev is None else (1 << prev.bit_length() if prev else 1)
            out.append((i['name'], v))
            prev = v
        return out

    # ---------------------------------------------------------------- expressions
    def cex(self, e, decl, enum=None):
        t = e[0]
        if t == 'num':
            return ('num', e[1])
        if t in ('str', 'bool'):
            return (t, e[1])
        if t == 'index':
            return ('index',)
        if t == 'id':
            n = e[1]
            if decl is not None:
                if enum is not None and any(i['name'] == n for i in enum['items']):
                    return ('enumc', key(enum['name']), key(n))
                for f in decl.get('fields', ()):
                    if f['name'] == n:
                        return ('f', key(n)) if decl['kind'] in ('struct', 'sql_table') else ('choice',)
                for p in decl.get('params', ()):
                    if p[1] == n:
                        return ('f', key(n))
            if n in self.decls:
                d = self.decls[n]
                if d['kind'] == 'const':
                    return ('const', key(n))
                if d['kind'] == 'subtype':
                    return ('type', key(self.resolve({'name': n, 'targs': [], 'args': []}, decl).name))
                return ('type', key(n))
            if decl is not None and decl['kind'] in ('enum', 'bitmask'):
                return ('num', dict(self.items(decl))[n])
            raise KeyError('name %s' % n)
        if t == 'dot':
            b = self.cex(e[1], decl, enum)
            if b[0] == 'type':
                return ('enumc', b[1], key(e[2]))
            return ('dot', b, key(e[2]))
        if t == 'call':
            f = e[1]
            if f[0] == 'id':
                return ('call', ('self',), key(f[1]))
            return ('call', self.cex(f[1], decl, enum), key(f[2]))
        if t == 'idx':
            return ('idx', self.cex(e[1], decl, enum), self.cex(e[2], decl, enum))
        if t == 'lengthof':
            return ('len', self.cex(e[1], decl, enum))
        if t == 'valueof':
            return ('valueof', self.cex(e[1], decl, enum))
        if t == 'numbits':
            return ('numbits', self.cex(e[1], decl, enum))
        if t == 'isset':
            return ('bmset', self.cex(e[1], decl, enum), self.cex(e[2], decl, enum))
        if t == 'un':
            return mk_un(e[1], self.cex(e[2], decl, enum))
        if t == 'bin':
            return mk_bin(e[1], self.cex(e[2], decl, enum), self.cex(e[3], decl, enum))
        if t == 'cond':
            return mk_cond(self.cex(e[1], decl, enum), self.cex(e[2], decl, enum), self.cex(e[3], decl, enum))
        raise ValueError('expression %r' % (e,))

    # ---------------------------------------------------------------- packing
    def packable_type(self, T, stack=()):
        if T.kind == 'compound':
            return self.packable_decl(T.decl, stack)
        return T.simple_packable()

    def packable_decl(self, d, stack=()):
        if d['kind'] == 'union':
            return True
        if d['name'] in stack:
            return False
        return any(self.packable_field(f, d, stack + (d['name'],)) for f in d['fields'])

    def packable_field(self, f, d, stack=()):
        if f['name'] in self.offset_fields(d) or (d['name'], f['name']) in self.foreign_offsets():
            return False
        if f['implicit']:
            return False
        return self.packable_type(self.resolve(f['type'], d), stack)

    def offset_fields(self, d):
        """Names of d's own fields that hold offsets."""
        r = set()
        for f in d['fields']:
            o = f.get('offset')
            if o:
                while o[0] == 'idx':
                    o = o[1]
                if o[0] == 'id':
                    r.add(o[1])
        return r

    def foreign_offsets(self):
        """(type, field) pairs used as offsets from other types (holder.off)."""
        if self._foreign is not None:
            return self._foreign
        r = self._foreign = set()
        for d in self.concrete.values():
            for f in d.get('fields', ()):
                o = f.get('offset')
                while o and o[0] == 'idx':
                    o = o[1]
                if o and o[0] == 'dot' and o[1][0] == 'id':
                    h = [g for g in d['fields'] if g['name'] == o[1][1]]
                    if h:
                        r.add((self.resolve(h[0]['type'], d).name, o[2]))
        return r

    def field_packable(self, f, d):
        return self.packable_field(f, d)

    def packed_types(self):
        """Names of types that occur as (transitive) members of packed array elements."""
        r, todo = set(), []
        for d in self.concrete.values():
            for f in d.get('fields', ()):
                if f['packed']:
                    T = self.resolve(f['type'], d)
                    if self.packable_type(T):
                        todo.append(T)
        while todo:
            T = todo.pop()
            if T.kind == 'prim' or T.name in r:
                continue
            r.add(T.name)
            if T.kind == 'compound':
                todo += [self.resolve(f['type'], T.decl) for f in T.decl['fields'] if self.packable_field(f, T.decl)]
        return r

    # ---------------------------------------------------------------- layout
    def loc(self, d, f):
        return ('f', key(f['name'])) if d['kind'] == 'struct' else ('choice',)

    def has_ext(self, d):
        return any(f['ext'] for f in d['fields'])

    def arr_packed(self, f, d, ctx):
        if f['array'] is None or f['implicit']:
            return False
        if f['name'] in self.offset_fields(d) or (d['name'], f['name']) in self.foreign_offsets():
            return False
        el = self.resolve(f['type'], d)
        return (f['packed'] or ctx) and self.packable_type(el)

    def value_event(self, f, d, ctx, detail=None):
        """The event by which the field's value crosses the stream."""
        loc = self.loc(d, f)
        T = self.resolve(f['type'], d)
        if f['array'] is not None:
            ev = ('x', loc, 'packed' if self.arr_packed(f, d, ctx) else 'plain')
            if detail is not None:
                a = self.array_desc(f, d)
                ev += (('arr', a['kind'], a['length'] if detail == 'read' else None, a['elem'], a['offset']),)
            return ev
        if T.kind == 'prim':
            if ctx and self.field_packable(f, d):
                return ('pk', key(f['name']), T.prim, T.params, loc)
            return ('w', T.prim, T.params, loc)
        made = (('type', key(T.name), T.args),) if detail == 'read' else ()
        if ctx and self.field_packable(f, d):
            return ('x', loc, ('ctx', key(f['name']))) + made
        return ('x', loc, 'plain') + made

    def used(self, f, d):
        if f['optional'] is None:
            return None
        if f['optional'] == 'auto':
            return ('present', self.loc(d, f))
        return self.cex(f['optional'], d)

    def layout(self, d, ctx=False, mode='write', detail=None):
        """Event tree of write (or, with offsets, of initialize_offsets) of a declaration."""
        if d['kind'] in ('enum', 'bitmask'):
            u = self.underlying(d)
            if ctx:
                return [('pk', '', u.prim, u.params, ('value',))]
            return [('w', u.prim, u.params, ('value',))]
        if d['kind'] == 'struct':
            out = []
            ext = 0
            for f in d['fields']:
                ev = self.field_events(f, d, ctx, mode, detail)
                if f['ext']:
                    out.append(('if', ('bin', '<', ('num', ext), ('numext',)), [('align', 8)] + ev, []))
                    ext += 1
                else:
                    out += ev
            return out
        if d['kind'] == 'union':
            out = []
            tag = ('pk', 'choicetag', 'varsize', (), ('tag',)) if ctx else ('w', 'varsize', (), ('tag',))
            node = [('throw', 'error')]
            for i, f in reversed(list(enumerate(d['fields']))):
                node = [('if', mk_bin('==', ('tag',), ('num', i)), self.field_events(f, d, ctx, mode, detail), node)]
            return [tag] + node
        if d['kind'] == 'choice':
            return self.choice_tree(d, lambda f: self.field_events(f, d, ctx, mode, detail))

    def choice_tree(self, d, leaf, nomatch='error'):
        sel = self.cex(d['selector'], d)
        enum = self.selector_enum(d)
        node = [('throw', nomatch)]
        if d['default'] is not None:
            node = leaf(self.fld(d, d['default']['field'])) if d['default']['field'] else []
        for c in reversed(d['cases']):
            cond = None
            for l in c['labels']:
                x = mk_bin('==', sel, self.cex(l, d, enum))
                cond = x if cond is None else ('bin', '||', cond, x)
            node = [('if', cond, leaf(self.fld(d, c['field'])) if c['field'] else [], node)]
        return node

    def fld(self, d, name):
        return [f for f in d['fields'] if f['name'] == name][0]

    def selector_enum(self, d):
        s = d['selector']
        if s[0] == 'id':
            for p in d['params']:
                if p[1] == s[1]:
                    T = self.resolve(p[0], d)
                    if T.kind in ('enum', 'bitmask'):
                        return T.decl
        return None

    def field_events(self, f, d, ctx, mode, detail=None):
        body = []
        if f.get('align') is not None:
            body.append(('align', self.const_value(f['align'])))
        simple_off = f.get('offset') is not None and not self.indexed_offset(f)
        if simple_off:
            body.append(('align', OFFSET_BITS))
            if mode == 'offsets':
                body.append(('setoff', self.cex(f['offset'], d)))
        body.append(self.value_event(f, d, ctx, detail))
        used = self.used(f, d)
        if used is None:
            return body
        if f['optional'] == 'auto':
            return [('w', 'bool', (), used), ('if', used, body, [])]
        return [('if', used, body, [])]

    def indexed_offset(self, f):
        o = f.get('offset')
        return bool(o) and o[0] == 'idx' and o[2] == ['index']

    # ---------------------------------------------------------------- construction of values
    def array_desc(self, f, d):
        """What an array object of this field must be made of, wherever it is made."""
        T = self.resolve(f['type'], d)
        a = f['array']
        kind = {'auto': 'auto', 'implicit': 'implicit', 'len': 'normal'}[a[0]]
        length = self.cex(a[1], d) if a[0] == 'len' else None
        elem = self.elem_desc(T)
        off = self.cex(f['offset'], d) if f.get('offset') is not None and self.indexed_offset(f) else None
        return {'kind': kind, 'length': length, 'elem': elem, 'offset': off}

    def elem_desc(self, T):
        if T.kind == 'prim':
            return ('prim', T.prim, T.params)
        return ('object', key(T.name), T.args)


def size_tree(t):
    """Layout tree -> tree of sizes: primitives of known width become advances."""
    out = []
    for s in t:
        if s[0] == 'w':
            out.append(size_event(s))
        elif s[0] == 'if':
            out.append(('if', s[1], size_tree(s[2]), size_tree(s[3])))
        else:
            out.append(s)
    return out


def size_event(s):
    if s[1] in ('bits', 'sbits'):
        return ('adv', s[2][0])
    if s[1] in FIXED:
        return ('adv', ('num', FIXED[s[1]]))
    return s


def load(name):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return Schema(os.path.join(here, 'corpus', name))
