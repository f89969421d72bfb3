"""Enumerations and bitmasks: the generated tables against the items of the schema, by case analysis over the finite item set."""
import gen
import wirerules
import exprrules
from canon import *
from interp import resolve_sets

REMOVED = 'zserioremoved'


def corpora(c):
    return ('enums', 'expr', 'grid', 'wire', 'multi')


def ik(n):
    """The key of an item, whatever prefix the generators give removed ones."""
    k = key(n)
    return k[len(REMOVED):] if k.startswith(REMOVED) else k


class Lost(Exception):
    pass


def ev(schema, d, t, env):
    """The value of a term when the enumeration (self), its value and the parameters are known."""
    if t in env:
        return env[t]
    items = {ik(n): v for n, v in schema.items(d)}
    h = t[0]
    if h == 'p' and ('p',) in env:
        return env['p',]
    if h in ('num', 'str', 'bool'):
        return t[1]
    if h in ('enumc', 'tmember') and t[1] == key(d['name']) and ik(t[2]) in items:
        return items[ik(t[2])]
    if h == 'name' and ik(t[1]) in items:
        return items[ik(t[1])]
    if h == 'not':
        return not ev(schema, d, t[1], env)
    if h in ('valueof', 'value') and len(t) == 2:
        return ev(schema, d, t[1], env)
    if h == 'make':
        return ev(schema, d, t[2], env)
    if h == 'cond':
        return ev(schema, d, t[2] if ev(schema, d, t[1], env) else t[3], env)
    if h == 'bin':
        a = ev(schema, d, t[2], env)
        if t[1] == '&&' and not a or t[1] == '||' and a:
            return a
        b = ev(schema, d, t[3], env)
        ops = {'==': lambda: a == b, '&&': lambda: b, '||': lambda: b, '<': lambda: a < b, '&': lambda: a & b, '|': lambda: a | b}
        if t[1] in ops:
            return ops[t[1]]()
        arith = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<<': lambda: a << b}
        if t[1] in arith and type(a) is int and type(b) is int:
            return arith[t[1]]()
    raise Lost(se(t) if len(str(t)) < 200 else t[0])


def outcome(schema, d, t, env):
    """What a statement list does for known inputs: ('ret', value), 'error', or 'end'."""
    for s in t:
        if s[0] == 'if':
            r = outcome(schema, d, s[2] if ev(schema, d, s[1], env) else s[3], env)
            if r != 'end':
                return r
        elif s[0] == 'guard':
            if not ev(schema, d, s[1], env):
                return 'error'
        elif s[0] in ('throw', 'error'):
            return 'error'
        elif s[0] == 'ret':
            return ('ret', ev(schema, d, s[1], env))
    return 'end'


def declared(lang, cls, schema, d, corp):
    """[(item, value)] of the generated type."""
    if lang == 'python':
        out = []
        if d['kind'] == 'enum':
            for n, e in cls.consts.items():
                if e[0] == 'tuple' and len(e[1]) == 2 and e[1][1][0] in ('attr', 'name') and 'DeprecatedItem' in e[1][1]:
                    e = e[1][0]  # zserio.Enum takes a marker behind the value
                out.append((n, exprrules.evaluate(schema, exprrules.fold(lang, cls.ex(e, {})))))
            return out
        for s in cls.module['body']:
            # Name.Values.ITEM = Name.from_value(v)
            if s[0] == 'expr' and s[1][0] == 'assign' and s[1][2][0] == 'attr' and s[1][3][0] == 'call' and s[1][3][1][0] == 'attr' and \
                    s[1][3][1][2] == 'from_value' and len(s[1][3][2]) == 1:
                out.append((s[1][2][2], exprrules.evaluate(schema, exprrules.fold(lang, cls.ex(s[1][3][2][0], {})))))
        return out
    if lang == 'cpp':
        if d['kind'] == 'enum':
            return [tuple(x) for x in cls.enum['items']]
        return [tuple(x) for e in cls.c['enums'] if e['name'] == 'Values' for x in e['items']]
    out = []
    fs = cls.c['fields'] if d['kind'] == 'enum' else [f for x in cls.c['classes'] if x['name'] == 'Values' for f in x['fields']]
    for f in fs:
        i = f['init']
        if 'static' in f['mods'] and i and i[0] == 'new' and i[1].split('.')[-1] == cls.c['name'] and i[2]:
            out.append((f['name'], exprrules.evaluate(schema, exprrules.fold(lang, number(cls.ex(i[2][0], {})))))
                       )
    return out


def number(t):
    """A BigInteger literal is its number."""
    if isinstance(t, tuple) and t and t[0] == 'str':
        return ('num', int(t[1]))
    return t


def tables(c):
    for cn in corpora(c):
        corp = gen.corpus(cn)
        for name, d in wirerules.types(corp):
            if d['kind'] not in ('enum', 'bitmask'):
                continue
            sch = corp.schema
            want = [(ik(n), v) for n, v in sch.items(d)]
            for lang in c.langs:
                site = '%s %s' % (lang, name)
                cls = corp.lang(lang).get(key(name))
                if cls is None:
                    c.ob('item-value', site, 'no class is generated')
                    continue
                c.programs.add(name)
                got = [(ik(n), v) for n, v in declared(lang, cls, sch, d, corp)]
                diff = sorted(set(got) ^ set(want), key=str)
                c.ob('item-value', site, '%s: generated and schema items differ in %s' % (gen.where(lang, cls, name, corp), diff) if diff or len(got) != len(want) else None,
                     '%d items' % len(want))
                if d['kind'] == 'enum':
                    conversions(c, corp, lang, cls, name, d, want)
                    removed(c, corp, lang, cls, name, d)


def runs(cls, m):
    return norm(resolve_sets(cls.run(m)))


def case(c, rule, site, sch, d, t, env, want, where):
    try:
        got = outcome(sch, d, t, env)
    except Lost as e:
        got = 'something that is not decided by the cases: %s' % e
    c.ob(rule, site, None if got == want else '%s: %s, expected %s' % (where, got, want))


def conversions(c, corp, lang, cls, name, d, want):
    sch = corp.schema
    vals = [v for _, v in want]
    other = next(v for v in range(len(vals) + 1) if v not in vals)
    site = '%s %s' % (lang, name)
    fs = corp.cpp_functions.get(name) or {} if lang == 'cpp' else {}
    if lang == 'java':
        ms = [m for m in cls.c['methods'] if m['name'] == 'toEnum' and len(m['ptypes']) == 1]
        byname = [m for m in ms if m['ptypes'][0].endswith('String')]
        byval = [m for m in ms if m not in byname]
    elif lang == 'cpp':
        byname, byval = [], fs.get('valueToEnum', [])
    else:
        byname, byval = [n for n in ('from_name',) if cls.has(n)], []
    for kind, ms, miss in (('item-of-value', byval, lang != 'python'), ('item-of-name', byname, lang != 'cpp')):
        if miss and not ms:
            c.ob(kind, site, 'the conversion is missing')
        for m in ms:
            t = runs(cls, m)
            at = gen.where(lang, cls, m, corp)
            if kind == 'item-of-value':
                for i, v in want:
                    case(c, kind, '%s.%s' % (site, i), sch, d, t, {('p',): v}, ('ret', v), at)
                case(c, kind, '%s unknown' % site, sch, d, t, {('p',): other}, 'error', at)
            else:
                for i, (n, v) in zip(d['items'], sch.items(d)):
                    names = {n} if i['flag'] != '@removed' else {n, 'ZSERIO_REMOVED_' + n}
                    res = []
                    for x in sorted(names):
                        try:
                            res.append(outcome(sch, d, t, {('p',): x}))
                        except Lost as e:
                            res.append(str(e))
                    c.ob(kind, '%s.%s' % (site, n), None if ('ret', v) in res and set(res) <= {('ret', v), 'error'} else '%s: %s, expected item %s' % (at, res, n))
                case(c, kind, '%s unknown' % site, sch, d, t, {('p',): '?'}, 'error', at)
    if lang == 'cpp':
        tr = corp.cpp_traits.get(name, {})
        values = [sch and dict(want).get(ik(x)) for x in tr.get('values', ())]
        names = [ik(x) for x in tr.get('names', ())]
        c.ob('traits', site, None if values == vals and names == [i for i, _ in want] else 'EnumTraits: values %s, names %s' % (values, names))
        for m in fs.get('enumToOrdinal', []):
            t = runs(cls, m)
            for n, (i, v) in enumerate(want):
                case(c, 'ordinal', '%s.%s' % (site, i), sch, d, t, {('self',): v, ('p',): v}, ('ret', n), gen.where(lang, cls, m, corp))
        if not fs.get('enumToOrdinal'):
            c.ob('ordinal', site, 'the conversion is missing')


def removed(c, corp, lang, cls, name, d):
    """Writing a removed item is an error, writing any other is not."""
    for ctx in (False, True):
        m = gen.entry(lang, cls, d, 'write', ctx)
        if m is None:
            continue
        t = [s for s in runs(cls, m) if s[0] in ('guard', 'if', 'throw', 'error')]
        for i, (n, v) in zip(d['items'], corp.schema.items(d)):
            case(c, 'removed-item', '%s %s.%s%s' % (lang, name, n, ' packed' if ctx else ''), corp.schema, d, t,
                 {('self',): v, ('value',): v}, 'error' if i['flag'] == '@removed' else 'end', gen.where(lang, cls, m, corp))
