"""Type information in generated code: the expression trees that describe a type at run time, against the schema."""
import re
import gen
import wirerules
import exprrules
from canon import *

REMOVED = 'zserioremoved'
SELF, INDEX = ('self',), ('index',)


class Described(Exception):
    pass


class Info:
    """The value of one generated typeInfo function; locals stand for what they were initialised with."""

    def __init__(self, lang, cls, m):
        self.lang, self.cls, self.m = lang, cls, m
        self.env, self.classes, self.ret = {}, {}, None
        for s in m['body']:
            if s[0] == 'decl':
                self.env[s[1]] = s[3]
            elif s[0] == 'expr' and s[1][0] == 'assign' and s[1][1] == '=' and s[1][2][0] == 'name':
                self.env[s[1][2][1]] = s[1][3]
            elif s[0] == 'other' and s[1] == 'class':
                if len(s) > 3:
                    self.classes[s[3]['name']] = s[3]
            elif s[0] == 'return':
                self.ret = s[1]

    def see(self, e):
        """An expression behind locals, casts and wrappers of the C++ types."""
        for _ in range(20):
            if e is None:
                return None
            if e[0] == 'name' and e[1] in self.env and (self.lang != 'cpp' or e[-1] == 'local' or len(e) == 2):
                e = self.env[e[1]]
            elif e[0] == 'cast':
                e = e[2]
            elif e[0] == 'new' and 'Span<' in str(e[1]) and len(e[2]) == 1:
                e = e[2][0]
            elif e[0] == 'new' and str(e[1]).split('<')[0].split('::')[-1] in ('StringView', 'BasicStringView') and len(e[2]) == 1:
                e = e[2][0]
            else:
                return e
        return e

    def items(self, e):
        """The elements of a list, None for something that is no list."""
        e = self.see(e)
        if e is None or e[0] == 'null':
            return None
        if e[0] == 'list':
            return e[1]
        if e[0] == 'new' and ('ArrayList' in str(e[1]) or 'Span<' in str(e[1]) or 'array<' in str(e[1])) and not e[2]:
            return []
        if e[0] == 'call' and last(e[1]) == 'asList':
            return e[2]
        if e[0] == 'call' and last(e[1]) in ('emptyList', 'of') and not e[2]:
            return []
        raise Described('a list was expected, found %s' % (e[:2],))

    def flag(self, e):
        e = self.see(e)
        if e[0] != 'bool':
            raise Described('a literal flag was expected, found %s' % (e[:2],))
        return e[1]

    def text(self, e):
        """Text of a string literal; '' for an empty string view."""
        e = self.see(e)
        if e[0] == 'str':
            return e[1]
        if e[0] == 'call' and last(e[1]) == 'makeStringView':
            return self.text(e[2][0])
        if e[0] == 'new' and 'StringView' in str(e[1]) and not e[2]:
            return ''
        if e[0] == 'list' and not e[1]:
            return ''
        raise Described('a text was expected, found %s' % (e[:2],))

    def term(self, e):
        """Meaning of an expression given as a function (Java, Python) or as text (C++); None when there is none."""
        e = self.see(e)
        if e is None or e[0] == 'null':
            return None
        if self.lang == 'cpp':
            t = self.text(e)
            return ('text', t) if t else None
        if e[0] != 'lambda':
            raise Described('a function was expected, found %s' % (e[:2],))
        env = {}
        for p, v in zip(e[1], (SELF, INDEX)):
            env[p] = v
        b = e[2]
        if b and b[0] == 'lbody':
            raise Described('a function with statements')
        self.cls.reset()
        return self.cls.ex(self.plain(b), env)

    def plain(self, b):
        """Objects are passed as Object and cast: the cast adds nothing here."""
        if isinstance(b, list):
            if b and b[0] == 'cast' and self.lang == 'java' and b[2][0] == 'name' and len(b[2]) > 2 and b[2][2] == 'local':
                return ['name', b[2][1], 'local', self.cls.q]
            return [self.plain(x) for x in b]
        return b

    def type(self, e):
        """('prim', schema name, Python type) or ('type', key)."""
        t = self.type_of(e)
        return ('type', key(self.cls.sym.types.get(t[1], t[1]))) if t[0] == 'type' else t

    def type_of(self, e):
        e = self.see(e)
        if self.lang == 'python':
            if e[0] == 'call' and last(e[1]) == 'RecursiveTypeInfo':
                return self.owner(e[2][0])
            if e[0] == 'call' and last(e[1]) == 'type_info':
                return self.owner(e[1])
            if e[0] == 'call' and last(e[1]) == 'TypeInfo' and e[2][0][0] == 'str':
                n = e[2][0][1]
                if n in ('bit', 'int'):
                    return ('prim', n, last(e[2][1]))
                return ('prim', n, last(e[2][1]))
        if self.lang == 'java':
            if e[0] == 'new' and e[1].endswith('RecursiveTypeInfo'):
                a = self.see(e[2][0])
                if a[0] == 'new' and a[1].split('.')[-1] in self.classes:
                    c = self.classes[a[1].split('.')[-1]]
                    g = [m for m in c['methods'] if m['name'] == 'get'][0]
                    r = [s[1] for s in g['body'] if s[0] == 'return']
                    return self.type(r[0])
                if a[0] in ('lambda', 'mref'):
                    return self.type(a[2])
            if e[0] == 'call' and last(e[1]) == 'typeInfo':
                sym = e[1][3] if len(e[1]) > 3 else ''
                m = re.match(r'm:([\w.$]+)#typeInfo', sym)
                if m:
                    return ('type', self.key(m.group(1)))
            if e[0] == 'call' and len(e[1]) > 3 and 'BuiltinTypeInfo#get' in e[1][3]:
                return self.builtin(last(e[1])[3:], e[2])
        if self.lang == 'cpp':
            if e[0] in ('new',) and 'RecursiveTypeInfo' in str(e[1]):
                a = self.see(e[2][0])
                if a[0] == 'un':
                    a = a[2]
                return self.cpptype(a)
            if e[0] == 'call' and last(e[1]) in ('typeInfo', 'enumTypeInfo'):
                return self.cpptype(e[1])
            if e[0] == 'call' and last(e[1]).startswith('get'):
                return self.builtin(last(e[1])[3:], e[2])
        raise Described('a type information was expected, found %s' % (str(e)[:120],))

    def cpptype(self, f):
        q = f[-1] if isinstance(f[-1], str) else ''
        m = re.match(r'([\w:]+)::typeInfo$', q)
        if m:
            return ('type', self.key(m.group(1).replace('::', '.')))
        m = re.search(r'<\s*(?:::)?([\w:]+)', str(f))
        if m:
            return ('type', self.key(m.group(1).replace('::', '.')))
        raise Described('unknown type %s' % (f,))

    def key(self, q):
        return key(q.split('.')[-1])

    def owner(self, e):
        """wire.leaf.Leaf.type_info"""
        if e[0] == 'attr' and e[2] == 'type_info':
            b = e[1]
            if b[0] == 'attr' and b[1][0] == 'attr':
                q = '.'.join(path(b))
                n = self.cls.sym.clashes.get(('.'.join(q.split('.')[:-2]), q.split('.')[-1]))
                return ('type', key(n or q.split('.')[-1]))
            return ('type', key(last(b)))
        raise Described('unknown type')

    BUILTIN = {'String': 'string', 'BitBuffer': 'extern', 'Bytes': 'bytes', 'VarSize': 'varsize'}

    def builtin(self, n, args):
        def num(e):
            e = self.see(e)
            if e[0] == 'call' and len(e[2]) == 1:
                e = self.see(e[2][0])
            if e[0] != 'num':
                raise Described('a width was expected')
            return e[1]
        m = re.match(r'(Fixed|Dynamic)(Signed|Unsigned)BitField$', n)
        if m:
            k = 'int' if m.group(2) == 'Signed' else 'bit'
            return ('prim', '%s:%d' % (k, num(args[0])) if m.group(1) == 'Fixed' else k, None)
        return ('prim', self.BUILTIN.get(n, n.lower()), None)


def last(e):
    return e[2] if e[0] == 'attr' else e[1] if e[0] == 'name' else str(e[1]).split('.')[-1].split('<')[0]


def path(e):
    return path(e[1]) + [e[2]] if e[0] == 'attr' else [e[1]]


# ---------------------------------------------------------------- per language

def attributes(info, e):
    """{attribute: expression} of a Python dictionary."""
    e = info.see(e)
    if e is None:
        return {}
    if e[0] != 'dict':
        raise Described('a dictionary was expected')
    return {last(k): v for k, v in e[1]}


def kwarg(e, i, n):
    return e[2][i] if len(e[2]) > i else e[3].get(n)


def py_member(info, e):
    e = info.see(e)
    a = attributes(info, kwarg(e, 2, 'attributes'))

    def has(n):
        return n in a

    def term(n):
        return info.term(a[n]) if n in a else None
    return dict(name=info.text(kwarg(e, 0, 'schema_name')), type=info.type(kwarg(e, 1, 'type_info')),
                args=[info.term(x) for x in info.items(a['TYPE_ARGUMENTS'])] if has('TYPE_ARGUMENTS') else [],
                extended=has('EXTENDED'), align=term('ALIGN'), offset=term('OFFSET'), init=term('INITIALIZER'), optional=has('OPTIONAL'),
                cond=term('OPTIONAL'), constraint=term('CONSTRAINT'), array=has('ARRAY_LENGTH'), length=term('ARRAY_LENGTH'),
                packed=has('PACKED'), implicit=has('IMPLICIT'), prop=info.text(a['PROPERTY_NAME']) if has('PROPERTY_NAME') else None,
                used=info.text(a['IS_USED_INDICATOR_NAME']) if has('IS_USED_INDICATOR_NAME') else '',
                set=info.text(a['IS_SET_INDICATOR_NAME']) if has('IS_SET_INDICATOR_NAME') else '',
                result=term('FUNCTION_RESULT'), function=info.text(a['FUNCTION_NAME']) if has('FUNCTION_NAME') else None)


def py_info(info):
    r = info.see(info.ret)
    a = attributes(info, kwarg(r, 2, 'attributes'))
    out = dict(name=info.text(r[2][0]), cls=last(r[2][1]), fields=[], params=[], functions=[], cases=None, selector=None, template='', targs=[])
    fields = info.items(a['FIELDS']) if 'FIELDS' in a else []
    out['fields'] = [py_member(info, f) for f in fields]
    if 'PARAMETERS' in a:
        out['params'] = [(m['name'], m['type'], m['prop']) for m in (py_member(info, f) for f in info.items(a['PARAMETERS']))]
    if 'FUNCTIONS' in a:
        out['functions'] = [(m['name'], m['type'], m['result'], m['function']) for m in (py_member(info, f) for f in info.items(a['FUNCTIONS']))]
    if 'CASES' in a:
        out['cases'] = [([info.term(x) for x in info.items(c[2][0])], py_field(info, c[2][1])) for c in map(info.see, info.items(a['CASES']))]
    out['choice'], out['union'] = 'CASES' in a, 'SELECTOR' in a and 'CASES' not in a
    if 'SELECTOR' in a:
        out['selector'] = info.term(a['SELECTOR'])
    if 'TEMPLATE_NAME' in a:
        out['template'] = info.text(a['TEMPLATE_NAME'])
        out['targs'] = [info.type(x) for x in info.items(a['TEMPLATE_ARGUMENTS'])]
    if 'UNDERLYING_TYPE' in a:
        out['underlying'] = info.type(a['UNDERLYING_TYPE'])
    if 'UNDERLYING_TYPE_ARGUMENTS' in a:
        out['uargs'] = [info.term(x) for x in info.items(a['UNDERLYING_TYPE_ARGUMENTS'])]
    for n in ('ENUM_ITEMS', 'BITMASK_VALUES'):
        if n in a:
            out['items'] = []
            for i in info.items(a[n]):
                i = info.see(i)
                v = kwarg(i, 1, 'py_item')
                out['items'].append((info.text(kwarg(i, 0, 'schema_name')), last(v), info.flag(kwarg(i, 2, 'is_deprecated')), info.flag(kwarg(i, 3, 'is_removed'))))
    return out


def py_field(info, e):
    e = info.see(e)
    if e[0] == 'null':
        return None
    if e[0] == 'idx' and e[2][0] == 'num':
        return e[2][1]
    raise Described('a case must name one of the fields')


def position(info, e):
    e = info.see(e)
    if e is None or e[0] == 'null':
        return None
    if e[0] == 'un':
        e = e[2]
    if e[0] == 'idx' and e[2][0] == 'num':
        return e[2][1]
    if e[0] == 'call' and last(e[1]) == 'get' and e[2][0][0] == 'num':
        return e[2][0][1]
    raise Described('a case must name one of the fields')


def parts(info, e):
    e = info.see(e)
    return e[1] if e[0] == 'list' else e[2]


def java_member(info, e):
    p = parts(info, e)
    if len(p) != 18:
        raise Described('a field has %d attributes' % len(p))
    return dict(name=info.text(p[0]), getter=info.text(p[1]), setter=info.text(p[2]), type=info.type(p[3]),
                args=[info.term(x) for x in info.items(p[4])], extended=info.flag(p[5]), align=info.term(p[6]), offset=info.term(p[7]),
                init=info.term(p[8]), optional=info.flag(p[9]), cond=info.term(p[10]), used=info.text(p[11]), set=info.text(p[12]),
                constraint=info.term(p[13]), array=info.flag(p[14]), length=info.term(p[15]), packed=info.flag(p[16]), implicit=info.flag(p[17]))


def cpp_member(info, e):
    p = parts(info, e)
    if len(p) != 14:
        raise Described('a field has %d attributes' % len(p))
    return dict(name=info.text(p[0]), type=info.type(p[1]), args=[info.term(x) for x in info.items(p[2])], extended=info.flag(p[3]),
                align=info.term(p[4]), offset=info.term(p[5]), init=info.term(p[6]), optional=info.flag(p[7]), cond=info.term(p[8]),
                constraint=info.term(p[9]), array=info.flag(p[10]), length=info.term(p[11]), packed=info.flag(p[12]), implicit=info.flag(p[13]))


def oo_info(info):
    """Java and C++."""
    java = info.lang == 'java'
    r = info.see(info.ret)
    k = str(r[1] if r[0] == 'new' else r[2]).split('<')[0].split('.')[-1].split('::')[-1]
    p = parts(info, r)
    kinds = {'StructTypeInfo': 7, 'UnionTypeInfo': 7, 'ChoiceTypeInfo': 9, 'EnumTypeInfo': 5, 'BitmaskTypeInfo': 5}
    out = dict(name=info.text(p[0]), fields=[], params=[], functions=[], cases=None, selector=None, template='', targs=[])
    if k not in kinds:
        k = {4: 'ItemTypeInfo', 9: 'ChoiceTypeInfo'}.get(len(p), 'Struct/Union')
    out['choice'], out['union'], out['struct'] = k == 'ChoiceTypeInfo', k == 'UnionTypeInfo', k == 'StructTypeInfo'
    if 'Enum' in k or 'Bitmask' in k or 'Item' in k:
        q = p if not java else [p[0]] + p[2:]
        out['underlying'] = info.type(q[1])
        out['uargs'] = [info.term(x) for x in info.items(q[2])] if not java else [info.term(x) for x in info.items(q[2])]
        out['items'] = []
        for i in info.items(q[3]):
            x = parts(info, i)
            v = info.see(x[1])
            n = number(info, v)
            out['items'].append((info.text(x[0]), n, info.flag(x[2]), info.flag(x[3])))
        return out
    out['template'] = info.text(p[2])
    if java:
        out['cls'] = last(info.see(p[1])[1]) if info.see(p[1])[0] == 'attr' else None
        out['targs'] = [info.type(x) for x in info.items(p[3])]
        # elements added to the list one by one
        for s in info.m['body']:
            if s[0] == 'expr' and s[1][0] == 'call' and last(s[1][1]) == 'add' and s[1][1][1][1] == p[3][1]:
                out['targs'].append(info.type(s[1][2][0]))
    else:
        out['targs'] = [info.type(parts(info, x)[0] if info.see(x)[0] in ('list', 'new') and 'TypeInfo' not in str(info.see(x)[1])[:30] else x) for x in info.items(p[3])]
    member = java_member if java else cpp_member
    out['fields'] = [member(info, f) for f in info.items(p[4])]
    out['params'] = [(info.text(parts(info, x)[0]), info.type(parts(info, x)[1]), None) for x in info.items(p[5])]
    out['functions'] = [(info.text(parts(info, x)[0]), info.type(parts(info, x)[1]), info.term(parts(info, x)[2]), None) for x in info.items(p[6])]
    if k == 'ChoiceTypeInfo':
        out['selector'] = ('text', info.text(p[7]))
        out['cases'] = [([info.term(y) for y in info.items(parts(info, x)[0])], position(info, parts(info, x)[1])) for x in info.items(p[8])]
    return out


def number(info, e):
    """Integer value of a literal expression."""
    e = info.see(e)
    if e[0] == 'num':
        return e[1]
    if e[0] == 'un' and e[1] == '-':
        n = number(info, e[2])
        return None if n is None else -n
    if e[0] in ('call', 'new') and len(e[2]) == 1:
        a = info.see(e[2][0])
        if a[0] == 'str':
            return int(a[1])
        return number(info, a)
    if e[0] == 'bin' and e[1] in ('-', '+'):
        a, b = number(info, e[2]), number(info, e[3])
        return None if a is None or b is None else a - b if e[1] == '-' else a + b
    return None


# ---------------------------------------------------------------- reference

def want_type(sch, T, lang):
    if T.kind == 'prim':
        return ('prim', T.zs)
    return ('type', key(T.name))


PYTYPES = {'bool': 'bool', 'string': 'str', 'bytes': 'bytearray', 'extern': 'BitBuffer', 'float16': 'float', 'float32': 'float', 'float64': 'float'}


def reference(sch, d, lang):
    def member(f):
        T = sch.resolve(f['type'], d)
        args = []
        if T.kind == 'compound':
            args = list(T.args)
        elif T.kind == 'prim' and f['type'].get('dyn') or T.kind == 'prim' and T.zs in ('bit', 'int'):
            args = [T.params[0]]
        enum = T.decl if T.kind in ('enum', 'bitmask') else None
        return dict(name=f['name'], type=want_type(sch, T, lang), args=args, extended=bool(f['ext']),
                    align=('num', sch.const_value(f['align'])) if f['align'] is not None else None,
                    offset=sch.cex(f['offset'], d) if f['offset'] is not None else None,
                    init=sch.cex(f['init'], d, enum) if f['init'] is not None else None,
                    optional=f['optional'] is not None, cond=sch.cex(f['optional'], d) if f['optional'] not in (None, 'auto') else None,
                    constraint=sch.cex(f['constraint'], d) if f['constraint'] is not None else None,
                    array=f['array'] is not None, length=sch.cex(f['array'][1], d) if f['array'] is not None and f['array'][0] == 'len' else None,
                    packed=bool(f['packed']), implicit=bool(f['implicit']))
    return [member(f) for f in d['fields']]


def mentioned(e, names, out):
    """Names of fields, parameters, functions and members an expression of the schema looks at."""
    if isinstance(e, (list, tuple)):
        if len(e) == 2 and e[0] == 'id' and e[1] in names:
            out.add(key(e[1]))
        if len(e) == 3 and e[0] == 'dot' and isinstance(e[2], str):
            out.add(key(e[2]))
        for x in e:
            mentioned(x, names, out)
    return out


def agree(lang, got, want):
    """Whether an expression of the type information is the one of the schema. C++ keeps texts, judged by presence only."""
    if got is None or want is None:
        return got is None and want is None
    if got[0] == 'text':
        return True
    if want[0] == 'explicit':
        return True
    return exprrules.same(lang, got, want)


def getters(text):
    return {key(x) for x in re.findall(r'\b(?:get|is)([A-Z]\w*)\(\)', text)}


def compare(c, corp, lang, name, d, cls, m):
    sch = corp.schema
    site = '%s %s' % (lang, name)
    w = gen.where(lang, cls, m, corp)
    info = Info(lang, cls, m)
    got = py_info(info) if lang == 'python' else oo_info(info)
    full = '%s.%s' % (d.get('pkg', sch.pkg), d.get('orig', name))
    if not d.get('template'):
        c.ob('type-name', site, None if got['name'] in (full, '%s.%s' % (d.get('pkg', sch.pkg), name)) else '%s: the type information is called %s, the type %s' % (w, got['name'], full), full)
    else:
        ok = got['name'].split('.')[-1] == sch.origin.get(name, ('', name))[1] and got['template'].split('.')[-1] == sch.origin.get(d['template'], ('', d['template']))[1]
        c.ob('type-name', site, None if ok else '%s: the type information is called %s of template %s' % (w, got['name'], got['template']), name)
        targs = [want_type(sch, sch.resolve(a, None), lang) for a in d['targs']]
        c.ob('template-arguments', site, None if [x[:2] for x in got['targs']] == targs else '%s: template arguments are %s, must be %s' % (w, got['targs'], targs), str(targs))
    if d['kind'] in ('enum', 'bitmask'):
        items(c, corp, lang, name, d, got, w)
        return
    kind = {'choice': got['choice'], 'union': got['union'], 'struct': not got['choice'] and not got['union']}[d['kind']]
    c.ob('type-kind', site, None if kind else '%s: described as another kind of type' % w, d['kind'])
    want = reference(sch, d, lang)
    bad = None
    if [f['name'] for f in got['fields']] != [f['name'] for f in want]:
        bad = '%s: lists the fields %s, the schema has %s' % (w, [f['name'] for f in got['fields']], [f['name'] for f in want])
    c.ob('field-list', site, bad, ' '.join(f['name'] for f in want))
    if bad:
        return
    for g, f, fd in zip(got['fields'], want, d['fields']):
        fs = '%s.%s' % (site, f['name'])
        gt, wt = g['type'], f['type']
        ok = gt[:2] == wt[:2]
        if ok and lang == 'python' and gt[0] == 'prim':
            py = sch.subtype_of(gt[2])
            ok = py == wt if py else gt[2] == PYTYPES.get(gt[1], 'int')
        c.ob('field-type', fs, None if ok else '%s: field %s has the type %s, must be %s' % (w, f['name'], gt, wt), str(wt))
        for a in ('extended', 'optional', 'array', 'packed', 'implicit'):
            c.ob('field-flag', '%s %s' % (fs, a), None if g[a] == f[a] else '%s: field %s is described as %s%s' % (w, f['name'], '' if g[a] else 'not ', a), '%s=%s' % (a, f[a]))
        for a in ('align', 'offset', 'init', 'cond', 'constraint', 'length'):
            c.ob('field-expression', '%s %s' % (fs, a), None if agree(lang, g[a], f[a]) else '%s: %s of field %s is %s, the schema says %s' % (
                w, a, f['name'], se(g[a]) if g[a] else None, se(f[a]) if f[a] else None), se(f[a]) if f[a] else 'none')
        ok = len(g['args']) == len(f['args']) and all(agree(lang, x, y) for x, y in zip(g['args'], f['args']))
        c.ob('field-expression', fs + ' arguments', None if ok else '%s: arguments of field %s are %s, the schema says %s' % (
            w, f['name'], [se(x) for x in g['args']], [se(x) for x in f['args']]), str([se(x) for x in f['args']]))
        if lang == 'cpp':
            names = {x['name'] for x in d['fields']} | {p[1] for p in d['params']} | {x['name'] for x in d.get('functions', ())}
            raw = {'offset': fd['offset'], 'cond': fd['optional'] if fd['optional'] != 'auto' else None, 'constraint': fd['constraint'],
                   'length': fd['array'][1] if fd['array'] is not None and fd['array'][0] == 'len' else None}
            for a, e in raw.items():
                if e is not None and g[a] is not None:
                    seen, must = getters(g[a][1]), mentioned(e, names, set())
                    need = {x for x in must if x in {key(n) for n in names} and x not in {key(fn['name']) for fn in d.get('functions', ())}}
                    c.ob('field-expression', '%s %s text' % (fs, a), None if need <= seen and seen <= must else
                         '%s: %s of field %s is "%s", the schema looks at %s' % (w, a, f['name'], g[a][1], sorted(must)), g[a][1])
        else:
            accessors(c, corp, lang, name, cls, f, g, w, fs)
    ps = [(p[1], want_type(sch, sch.resolve(p[0], d), lang)) for p in d['params']]
    c.ob('parameters', site, None if [(p[0], p[1][:2]) for p in got['params']] == ps else '%s: parameters are %s, the schema has %s' % (w, got['params'], ps), str(ps))
    functions(c, corp, lang, name, d, got, w)
    if d['kind'] == 'choice':
        cases(c, corp, lang, name, d, got, w)


def accessors(c, corp, lang, name, cls, f, g, w, fs):
    """Names by which reflective code finds the accessors of a field."""
    if lang == 'java':
        have = {m['name'] for m in cls.c['methods']}
        ok = g['getter'] in have and key(g['getter']) == 'get' + key(f['name']) and g['setter'] in have and key(g['setter']) == 'set' + key(f['name'])
        if f['optional']:
            ok = ok and g['used'] in have and g['set'] in have and key(g['used']) == 'is' + key(f['name']) + 'used' and key(g['set']) == 'is' + key(f['name']) + 'set'
        c.ob('accessor-names', fs, None if ok else '%s: the accessors of field %s are called %s %s %s %s' % (w, f['name'], g['getter'], g['setter'], g['used'], g['set']), g['getter'])
    else:
        have = set(cls.methods) | {p for p in getattr(cls, 'props', ())}
        ok = g['prop'] is not None and key(g['prop']) == key(f['name'])
        if f['optional']:
            ok = ok and g['used'] in cls.methods and g['set'] in cls.methods and key(g['used']) == 'is' + key(f['name']) + 'used' and key(g['set']) == 'is' + key(f['name']) + 'set'
        c.ob('accessor-names', fs, None if ok else '%s: the accessors of field %s are called %s %s %s' % (w, f['name'], g['prop'], g['used'], g['set']), str(g['prop']))


def functions(c, corp, lang, name, d, got, w):
    fs = d.get('functions', ())
    site = '%s %s' % (lang, name)
    bad = None
    if [g[0] for g in got['functions']] != [f['name'] for f in fs]:
        bad = '%s: lists the functions %s' % (w, [g[0] for g in got['functions']])
    c.ob('function-list', site, bad, str(len(fs)))
    if bad:
        return
    for g, f in zip(got['functions'], fs):
        want = corp.schema.cex(f['expr'], d)
        t = want_type(corp.schema, corp.schema.resolve(f['type'], d), lang)
        bad = None
        if g[1][:2] != t:
            bad = '%s: function %s returns %s, must be %s' % (w, f['name'], g[1], t)
        elif not agree(lang, g[2], want):
            bad = '%s: function %s is %s, the schema says %s' % (w, f['name'], se(g[2]) if g[2] else None, se(want))
        c.ob('function-info', '%s.%s' % (site, f['name']), bad, se(want))


def cases(c, corp, lang, name, d, got, w):
    sch = corp.schema
    site = '%s %s' % (lang, name)
    sel = sch.cex(d['selector'], d)
    g = got['selector']
    if g is not None and g[0] == 'text':
        need = mentioned(d['selector'], {x['name'] for x in d['fields']} | {p[1] for p in d['params']}, set())
        ok = need & {key(p[1]) for p in d['params']} <= getters(g[1]) and getters(g[1]) <= need | {key(fn['name']) for fn in d.get('functions', ())}
    else:
        ok = agree(lang, g, sel)
    c.ob('selector', site, None if ok else '%s: the selector is %s, the schema says %s' % (w, g and se(g), se(sel)), se(sel))
    want, n = [], 0
    index = {f['name']: i for i, f in enumerate(d['fields'])}
    for labels, f in choice_cases(sch, d):
        want.append((labels, index[f['name']] if f is not None else None))
    gc = got['cases'] or []
    bad = None
    if len(gc) != len(want):
        bad = '%s: has %d cases, the schema %d' % (w, len(gc), len(want))
    else:
        for (gl, gf), (wl, wf) in zip(gc, want):
            if gf != wf or len(gl) != len(wl) or not all(agree(lang, x, y) for x, y in zip(gl, wl)):
                bad = '%s: case %s selects field %s, the schema says case %s selects %s' % (w, [se(x) for x in gl if x], gf, [se(x) for x in wl], wf)
                break
    c.ob('cases', site, bad, str(len(want)))


def choice_cases(sch, d):
    enum = sch.selector_enum(d)
    out = [([sch.cex(l, d, enum) for l in c['labels']], sch.fld(d, c['field']) if c['field'] else None) for c in d['cases']]
    if d['default'] is not None:
        out.append(([], sch.fld(d, d['default']['field']) if d['default']['field'] else None))
    return out


def items(c, corp, lang, name, d, got, w):
    sch = corp.schema
    site = '%s %s' % (lang, name)
    T = sch.underlying(d)
    wt = want_type(sch, T, lang)
    g = got.get('underlying', (None, None))
    c.ob('underlying-type', site, None if g[:2] == wt else '%s: the underlying type is %s, must be %s' % (w, g, wt), str(wt))
    want = []
    vals = dict(sch.items(d))
    for i in d['items']:
        want.append((i['name'], vals[i['name']], i.get('flag') == '@deprecated', i.get('flag') == '@removed'))
    have = got.get('items', [])
    bad = None
    if [(x[0], x[2], x[3]) for x in have] != [(x[0], x[2], x[3]) for x in want]:
        bad = '%s: the items are %s, must be %s' % (w, have, want)
    else:
        for x, y in zip(have, want):
            v = x[1]
            if isinstance(v, str) and key(v) not in (key(y[0]), REMOVED + key(y[0])) or isinstance(v, int) and v % (1 << 64) != y[1] % (1 << 64):
                bad = '%s: item %s is described with the value %s, must be %s' % (w, y[0], v, y[1])
    c.ob('item-info', site, bad, str(len(want)))


def described(c):
    for cn in wirerules.corpora(c) + ('expr', 'enums'):
        corp = gen.corpus(cn)
        for lang in c.langs:
            for name, d in wirerules.types(corp):
                if d['kind'] not in ('struct', 'choice', 'union', 'enum', 'bitmask'):
                    continue
                cls = corp.lang(lang).get(key(name))
                site = '%s %s' % (lang, name)
                m = method(corp, lang, cls, d) if cls else None
                if m is None:
                    c.ob('type-name', site, 'the generated code has no type information for this type')
                    continue
                c.programs.add(name)
                try:
                    compare(c, corp, lang, name, d, cls, m)
                except Described as e:
                    c.undecided.append('type-name %s: %s: %s' % (site, gen.where(lang, cls, m, corp), e))


def method(corp, lang, cls, d):
    if lang == 'python':
        return cls.methods.get('type_info')
    ms = [m for m in cls.c.get('methods', ()) if m['name'] == 'typeInfo' and not m['params']]
    if not ms and lang == 'cpp':
        ms = corp.cpp_functions.get(d['name'], {}).get('enumTypeInfo', [])
    ms = [m for m in ms if m.get('body')]
    return ms[0] if ms else None
