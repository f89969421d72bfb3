"""Checks in generated code: constraints, array lengths, offsets and instantiation parameters, under exactly the conditions
under which the field exists."""
import gen
import layout
import model
import wirerules
from canon import *
from interp import resolve_sets

LANGS = wirerules.LANGS


def reference(sch, d, what):
    """{(path, condition)} the schema demands."""
    def field(f):
        loc = sch.loc(d, f)
        out = []
        T = sch.resolve(f['type'], d)
        if f.get('offset') is not None and not sch.indexed_offset(f):
            off = sch.cex(f['offset'], d)
            out.append(('guard', mk_bin('==', ('bytepos',), off), 'error'))
        if what == 'write':
            if f['array'] is not None and f['array'][0] == 'len':
                out.append(('guard', mk_bin('==', ('len', loc), sch.cex(f['array'][1], d)), 'error'))
            if f['array'] is None and T.kind == 'compound' and T.args:
                for p, a in zip(T.decl['params'], T.args):
                    if a[0] != 'explicit':
                        out.append(('guard', mk_bin('==', ('dot', loc, key(p[1])), a), 'error'))
        if f['constraint'] is not None:
            out.append(('guard', sch.cex(f['constraint'], d), 'error'))
        used = sch.used(f, d)
        return [('if', used, out, [])] if used is not None else out

    if d['kind'] == 'struct':
        t, ext = [], 0
        for f in d['fields']:
            ev = field(f)
            if f['ext']:
                ev = [('if', ('bin', '<', ('num', ext), ('numext',)), ev, [])]
                ext += 1
            t += ev
    elif d['kind'] == 'union':
        t = []
        for i, f in reversed(list(enumerate(d['fields']))):
            t = [('if', mk_bin('==', ('tag',), ('num', i)), field(f), t)]
    else:
        t = sch.choice_tree(d, field)
    return flatten(multiway(norm(t)), sel=selector(sch, d))


def flatten(t, path=frozenset(), sel=None):
    out = set()
    for s in t:
        if s[0] == 'guard':
            if sel is not None and selector_of(s[1]) == sel:
                path = path | {('case', sel, l) for l in labels_of(s[1])[:1]}  # no other case exists
            elif s[1] != ('inited',):
                out.add((path, s[1]))
        elif s[0] == 'if':
            x = selector_of(s[1])
            if x is not None and x == sel:
                for l in labels_of(s[1]):
                    out |= flatten(s[2], path | {('case', x, l)}, sel)
                out |= flatten(s[3], path, sel)
            else:
                out |= flatten(s[2], path | {s[1]}, sel)
                out |= flatten(s[3], path | {mk_not(s[1])}, sel)
        elif s[0] == 'case':
            hit = s[1] == sel
            for l, x in s[2]:
                out |= flatten(x, path | {('case', s[1], l) if hit else mk_bin('==', s[1], l)}, sel)
            out |= flatten(s[3], path | {('default', s[1])}, sel)
        elif s[0] in ('loop', 'foreach', 'try'):
            for x in s[1:]:
                if isinstance(x, list):
                    out |= flatten(x, path | {('in', s[0])}, sel)
    return out


def selector(sch, d):
    return ('tag',) if d['kind'] == 'union' else sch.cex(d['selector'], d) if d['kind'] == 'choice' else None


def order(t, sch, d):
    """Guards of a read must come after everything they look at has been read: returns the first that does not."""
    seen = set()
    fields = {sch.loc(d, f) for f in d['fields']}
    late = {}

    def go(ts, done):
        done = set(done)
        for s in ts:
            if s[0] in ('w', 'pk'):
                done.add(s[-1])
            elif s[0] == 'x':
                done.add(s[1])
            elif s[0] == 'set':
                done.add(s[1])
            elif s[0] == 'guard':
                for l in fields:
                    if occurs(s[1], l) and l not in done:
                        late.setdefault(s[1], l)
            elif s[0] == 'if':
                a, b = go(s[2], done), go(s[3], done)
                done |= a | b
            elif s[0] == 'case':
                for _, x in s[2]:
                    done |= go(x, done)
                done |= go(s[3], done)
        return done
    go(t, seen)
    return late


def explain(g):
    path, c = g
    p = ' & '.join(sorted(se(x) if x[0] not in ('case', 'default') else ('%s is %s' % (se(x[1]), se(x[2])) if x[0] == 'case' else
                                                                         '%s has no case' % se(x[1])) for x in path))
    return '%s%s' % (se(c), ' when ' + p if p else '')


def drop_inited(t):
    out = []
    for s in t:
        if s[0] == 'guard' and occurs(s[1], ('inited',)):
            continue
        out.append(tuple(drop_inited(x) if isinstance(x, list) and all(isinstance(y, tuple) for y in x) else x for x in s))
    return out


FLOATBITS = ('floattointbits', 'doubletolongbits', 'floattorawintbits', 'doubletorawlongbits')


def unbits(x):
    """Java compares floating point numbers by their bits."""
    if isinstance(x, list):
        return [unbits(y) for y in x]
    if not isinstance(x, tuple):
        return x
    x = tuple(unbits(y) for y in x)
    if x[:1] == ('bin',) and x[1] in ('==', '!=') and all(len(y) == 4 and y[0] == 'call' and y[2] in FLOATBITS for y in x[2:]) and x[2][2] == x[3][2]:
        return mk_bin(x[1], x[2][3], x[3][3])
    return x


def view(t, what):
    t = norm(drop_inited(resolve_sets(t)))
    if what == 'read':
        t = norm(layout.presence(t))
    return multiway(norm(t))


def checks(c):
    for cn in wirerules.corpora(c):
        corp = gen.corpus(cn)
        sch = corp.schema
        pk = sch.packed_types()
        for lang in c.langs:
            for name, d in wirerules.types(corp):
                if d['kind'] not in ('struct', 'choice', 'union'):
                    continue
                cls = corp.lang(lang)[key(name)]
                for what, ctx in (('write', False), ('write', True), ('read', False), ('read', True)):
                    if ctx and name not in pk:
                        continue
                    m = gen.entry(lang, cls, d, what, ctx)
                    site = '%s %s.%s%s' % (lang, name, what, '-packed' if ctx else '')
                    if m is None:
                        c.ob('checks-' + what, site, 'the generated class has no method for this step')
                        continue
                    t = view(unbits(cls.run(m)), what)
                    got, want = flatten(t, sel=selector(sch, d)), reference(sch, d, what)
                    w = gen.where(lang, cls, m, corp)
                    for g in want:
                        c.ob('checks-' + what, site + ' ' + se(g[1]), None if g in got else '%s: there is no check of %s' % (w, explain(g)),
                             explain(g))
                    for g in got - want:
                        c.ob('checks-' + what, site + ' ' + se(g[1]), '%s: checks %s, which the schema does not say' % (w, explain(g)))
                    if what == 'read':
                        late = order(t, sch, d)
                        c.ob('check-order', site, None if not late else '%s: %s is checked before %s is read' % (
                            (w,) + tuple(se(x) for x in list(late.items())[0])))
                    c.programs.add(name)
