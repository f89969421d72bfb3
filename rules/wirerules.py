"""Layout of generated code: every serialization method of every type, in every language, against the schema."""
import gen
import layout
import descs
from canon import *

LANGS = ('python', 'java', 'cpp')
TITLE = {'write': 'write', 'read': 'read', 'size': 'bitsizeof', 'end': 'initialize-offsets', 'init': 'init-packing-context'}


def types(corp):
    return sorted(corp.schema.concrete.items())


def step(c, corp, lang, name, d, what, ctx):
    rule = TITLE[what] + ('-packed' if ctx and what != 'init' else '')
    cls = corp.lang(lang).get(key(name))
    site = '%s %s.%s' % (lang, name, rule)
    if cls is None:
        c.ob(rule, site, 'no class is generated for this type')
        return
    m = gen.entry(lang, cls, d, what, ctx)
    if m is None:
        c.ob(rule, site, 'the generated class has no method for this step')
        return
    flags = d['kind'] in ('enum', 'bitmask')
    detail = None if flags else 'read' if what == 'read' else 'type' if lang == 'cpp' and what != 'init' else None
    want = what if what in ('size', 'end') else 'none'
    try:
        t = cls.run(m)
        if flags and what == 'read':
            t = value_read(t, cls)
        v = layout.view(t, want, read=what == 'read', cls=cls if detail else None, lang=lang)
    except RecursionError:
        raise
    r = layout.reference(corp.schema, d, what, ctx, detail)
    df = first_diff(v, r)
    c.programs.add(name)
    c.ob(rule, site, None if df is None else '%s: under [%s] the code has  %s,  the schema demands  %s' % (
        gen.where(lang, cls, m, corp), ' & '.join(df[0]), brief(df[1]), brief(df[2])),
        '; '.join(x.strip() for x in show(r))[:300])


def value_read(t, cls):
    """Reads of enums and bitmasks: what was read is the value of the object that is returned."""
    from interp import resolve_sets
    t = resolve_sets(t)
    vals = [s[-1] for s in t if s[0] in ('w', 'pk')]
    out = []
    for s in t:
        if s[0] == 'ret' and vals and occurs(s[1], vals[0]):
            continue
        if s[0] == 'ret' and s[1][0] == 'make' and len(s[1]) == 2:
            continue
        if s[0] == 'set' and s[1] == vals[:1]:
            continue
        if s[0] in ('w', 'pk') and s[-1] in (vals[0], ('value',)) or s[0] in ('w', 'pk') and s[-1][0] == 'dot' and s[-1][2] == 'value':
            out.append(s[:-1] + (('value',),))
            continue
        out.append(s)
    return out


def run(c, corpora, steps):
    for cn in corpora:
        corp = gen.corpus(cn)
        pk = corp.schema.packed_types()
        for lang in c.langs:
            for name, d in types(corp):
                if d['kind'] not in ('struct', 'choice', 'union', 'enum', 'bitmask'):
                    continue
                for what, ctx in steps:
                    if ctx and name not in pk:
                        continue
                    step(c, corp, lang, name, d, what, ctx)


def writer(c):
    run(c, corpora(c), [('write', False), ('write', True)])


def reader(c):
    run(c, corpora(c), [('read', False), ('read', True)])


def sizes(c):
    run(c, corpora(c), [('size', False), ('size', True), ('end', False), ('end', True)])


def contexts(c):
    run(c, corpora(c), [('init', True)])


def corpora(c):
    return ('wire', 'grid', 'widths', 'packs', 'multi', 'shapes')
