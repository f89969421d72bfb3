"""State of generated objects: constructors, accessors, presence and choice tags; C++ copies and child initialization."""
import descs
import gen
import wirerules
from canon import *
from gencpp import NOINIT, bare
from interp import resolve_sets


def corpora(c):
    return ('wire', 'grid', 'multi', 'shapes')


def events(t, path=()):
    """[(path, event)] of a tree in order; path is the tuple of conditions taken."""
    out = []
    for s in t:
        if s[0] == 'if':
            out += events(s[2], path + (s[1],))
            out += events(s[3], path + (mk_not(s[1]),))
        elif s[0] == 'case':
            prev = ()
            for l, x in s[2]:
                out += events(x, path + (mk_bin('==', s[1], l),))
                prev += (mk_not(mk_bin('==', s[1], l)),)
            out += events(s[3], path + prev)
        elif s[0] in ('loop', 'foreach', 'try'):
            for x in s[1:]:
                if isinstance(x, list):
                    out += events(x, path + (('in', s[0]),))
        else:
            out.append((path, s))
    return out


def methods(lang, cls):
    """[(key of the method's name, is a Python property setter, handle, number of real parameters, IR)]"""
    if lang == 'python':
        return [(key(n.rstrip('=')), n.endswith('='), n, len(m['params']) - 1, m) for n, m in cls.methods.items()]
    out = []
    for m in cls.c['methods']:
        if m.get('body') is None:
            continue
        ts = m.get('cptypes') or m.get('ptypes') or []
        out.append((key(m['name']), False, m, len([t for t in ts if 'allocator' not in t]), m))
    return out


class Class:
    def __init__(self, lang, cls):
        self.lang, self.cls = lang, cls
        self.ms = methods(lang, cls)

    def find(self, role, name):
        py = self.lang == 'python'
        if role in ('get', 'set'):
            k = key(name) if py else role + key(name)
            n = 0 if role == 'get' else 1
            return [m for m in self.ms if m[0] == k and m[3] == n and (not py or m[1] == (role == 'set'))]
        k = {'present': 'is%spresent', 'used': 'is%sused', 'isset': 'is%sset', 'reset': 'reset%s'}[role] % key(name)
        return [m for m in self.ms if m[0] == k and m[3] == 0]

    def run(self, m, role=None):
        own = {}
        if role == 'set' and self.lang != 'python':
            own = {p: ('p', key(p)) for p, v in self.cls.entry_env(m[2]).items() if v == ('other',)}
        t = norm(resolve_sets(self.cls.run(m[2], own) if own else self.cls.run(m[2])))
        return [(tuple(c for c in p if not inited(c)), e) for p, e in events(t)]

    def where(self, m, corp):
        return gen.where(self.lang, self.cls, m[2], corp)


def inited(c):
    return c == ('inited',) or c == ('not', ('inited',))


def plainval(v):
    """What a stored value is made from, without the array and holder objects around it."""
    while True:
        if v[0] == 'arrv':
            v = v[2]
        elif v[0] == 'raw':
            v = v[2]
        elif v[0] == 'make' and any(a == NOINIT for a in v[2:]):
            v = [a for a in v[2:] if a not in (NOINIT, ('name', 'PropagateAllocator', 'zserio::PropagateAllocator'), ('alloc',))][0]
        elif v[0] == 'cond' and v[1][0] in ('present', 'not') and NULL in (v[2], v[3]):
            v = v[2] if v[3] == NULL else v[3]
        else:
            return v


def arrays(v):
    if v[0] == 'arrv':
        return [v[1]]
    if v[0] == 'cond':
        return arrays(v[2]) + arrays(v[3])
    return []


def stores(evs, loc, cls, lang, sch, f, d, what=None):
    """Problem with how a parameter gets into loc, or None. what is the parameter that must end up there."""
    sets = [(p, e) for p, e in evs if e[0] == 'set' and e[1] == loc]
    if not sets:
        return 'does not store the value'
    good = False
    for p, e in sets:
        v = e[2]
        absent = any(x[0] == 'not' and x[1][0] == 'present' for x in p)
        if v == NULL:
            if not absent and what != NULL:
                if any(y[0] == 'set' and y[1] == loc and y[2] != NULL for _, y in evs):
                    continue
                return 'stores null'
            continue
        for a in arrays(v):
            if f is None or f['array'] is None:
                return 'stores an array'
            got = descs.finish(descs.normal(a, cls, lang))
            got = got[:2] + (None,) + got[3:]
            want = descs.reference(sch, f, d, with_length=False)
            if got != want:
                return 'stores an array described as %s, must be %s' % (brief(got), brief(want))
        if f is not None and f['array'] is not None and lang != 'cpp' and not arrays(v):
            return 'stores the bare value instead of an array'
        if plainval(v)[0] != 'p' or what is not None and plainval(v) != what:
            return 'stores %s' % se(v)
        good = True
    return None if good or what == NULL else 'does not store the value'


def extension(evs, i, n):
    """After setting the extended field number i of n, all of them must be present."""
    sets = [(p, e) for p, e in evs if e[0] == 'set' and e[1] == ('numext',)]
    ok = [1 for p, e in sets if e[2][0] == 'num' and e[2][1] >= n and all(x in (('not', mk_bin('<', ('num', i), ('numext',))),) or
          x[0] == 'not' and occurs(x, ('numext',)) for x in p)]
    return None if ok else 'does not make the extended fields present'


def rest(evs, locs):
    """First effect on anything but locs."""
    for p, e in evs:
        if e[0] == 'set' and e[1] not in locs and e[1][0] in ('f', 'choice', 'tag', 'numext'):
            return 'also stores to %s' % se(e[1])
        if e[0] in ('w', 'pk', 'x', 'throw', 'inc', 'align'):
            return 'also does %s' % brief(e)
    return None


def returns(evs, v):
    r = [(p, e) for p, e in evs if e[0] == 'ret']
    if not r:
        return 'returns nothing'
    for p, e in r:
        got = e[1]
        if got[0] == 'cond' and NULL in got[2:]:
            got = plainval(got)
        if got == NULL and any(occurs(x, v) for x in p):
            continue
        if got != v:
            return 'returns %s, must be %s' % (se(e[1]), se(v))
    return rest(evs, ())


def accessors(c):
    for cn in corpora(c):
        corp = gen.corpus(cn)
        for lang in c.langs:
            for name, d in wirerules.types(corp):
                if d['kind'] in ('struct', 'choice', 'union'):
                    type_accessors(c, corp, lang, name, d)


def type_accessors(c, corp, lang, name, d):
    sch = corp.schema
    cls = corp.lang(lang).get(key(name))
    if cls is None:
        c.ob('getter', '%s %s' % (lang, name), 'no class is generated for this type')
        return
    k = Class(lang, cls)
    next_ = sum(1 for f in d['fields'] if f['ext'])
    c.programs.add(name)

    def each(rule, role, fname, judge, need=True):
        ms = k.find(role, fname)
        site = '%s %s.%s %s' % (lang, name, fname, role)
        if not ms:
            if need:
                c.ob(rule, site, 'the generated class has no such method')
            return
        for m in ms:
            p = judge(k.run(m, role))
            c.ob(rule, site, None if p is None else '%s: %s' % (k.where(m, corp), p))

    for t, p in [x[:2] for x in d['params']]:
        each('getter', 'get', p, lambda e: returns(e, ('f', key(p))))
    ext = 0
    for i, f in enumerate(d['fields']):
        fn = f['name']
        loc = sch.loc(d, f)
        each('getter', 'get', fn, lambda e: returns(e, loc))

        def setter(e, f=f, loc=loc, i=i, x=ext):
            r = stores(e, loc, cls, lang, sch, f, d)
            locs = {loc}
            if r is None and f['ext']:
                r = extension(e, x, next_)
                locs.add(('numext',))
            if d['kind'] == 'union':
                locs.add(('tag',))
                if r is None and ((), ('set', ('tag',), ('num', i))) not in e:
                    r = 'does not select member %d' % i
            return r or rest(e, locs)
        each('setter', 'set', fn, setter)
        if f['ext']:
            each('presence', 'present', fn, lambda e: returns(e, mk_bin('<', ('num', ext), ('numext',))))
        if f['optional'] is not None:
            each('presence', 'used', fn, lambda e: returns(e, sch.used(f, d)))
            each('presence', 'isset', fn, lambda e: returns(e, ('present', loc)))

            def reset(e, f=f, loc=loc, x=ext):
                r = None if ((), ('set', loc, NULL)) in e else 'does not clear the field'
                locs = {loc}
                if f['ext']:
                    r = r or extension(e, x, next_)
                    locs.add(('numext',))
                return r or rest(e, locs)
            each('presence', 'reset', fn, reset)
        if f['ext']:
            ext += 1
    if d['kind'] in ('choice', 'union'):
        tag(c, corp, k, name, d)
    constructors(c, corp, k, name, d)


def tag(c, corp, k, name, d):
    ms = [m for m in k.ms if m[0] == 'choicetag' and m[3] == 0]
    site = '%s %s choice tag' % (k.lang, name)
    if not ms:
        c.ob('choice-tag', site, 'the generated class has no choice tag')
        return
    for m in ms:
        t = [s for s in norm(resolve_sets(k.cls.run(m[2]))) if not (s[0] == 'guard' and s[1] == ('inited',))]
        if d['kind'] == 'union':
            ok = t == [('ret', ('tag',))]
            c.ob('choice-tag', site, None if ok else '%s: %s' % (k.where(m, corp), '; '.join(show(t))[:300]))
            continue
        idx = {f['name']: i for i, f in enumerate(d['fields'])}
        want = corp.schema.choice_tree(d, lambda f: [('ret', ('num', idx[f['name']]))], 'error')
        want = fill(want)
        got = multiway(norm(t))
        df = first_diff(multiway(norm(want)), got)
        c.ob('choice-tag', site, None if df is None else '%s: under [%s] schema: %s, code: %s' % (
            k.where(m, corp), ' & '.join(df[0]), brief(df[1]), brief(df[2])))


def fill(t):
    """Cases without a field, and selectors without a case, have no tag."""
    none = [('ret', ('num', -1))]
    if not t or t[0][0] == 'throw':
        return none
    if t[0][0] == 'if':
        return [('if', t[0][1], fill(t[0][2]), fill(t[0][3]))]
    return t


def constructors(c, corp, k, name, d):
    """Every constructor that takes values stores each into its own field; defaults of the schema are the initial values."""
    sch, lang, cls = corp.schema, k.lang, k.cls
    next_ = sum(1 for f in d['fields'] if f['ext'])
    fields = [(key(f['name']), f) for f in d['fields']]
    params = [key(p[1]) for p in d['params']]
    cn = {'python': '__init__', 'java': '<init>'}.get(lang, cls.c['name'] if lang != 'python' else '')
    for m in k.ms:
        mn = m[2] if lang == 'python' else m[2]['name']
        if mn != cn:
            continue
        ir = m[4]
        names = [p for p in ir['params'] if p not in ('self',)]
        types = ir.get('cptypes') or ir.get('ptypes') or []
        if lang != 'python' and any('BitStream' in t or bare(t) == getattr(cls, 'q', None) for t in types):
            continue
        if lang == 'cpp':
            names = [p for p, t in zip(names, types) if 'allocator' not in t and 'NoInit' not in t and 'Propagate' not in t]
        site = '%s %s(%s)' % (lang, name, ', '.join(names)[:60])
        keys = [key(n) for n in names]
        evs = k.run(m)
        want = params + [x for x, _ in fields] if lang == 'python' else None
        if want is not None or len(keys) not in (0, len(params)) or keys and keys != params:
            want = [x for x, _ in fields] if lang == 'cpp' else params + [x for x, _ in fields]
            c.ob('constructor', site, None if keys == want else '%s: takes %s, must take %s' % (k.where(m, corp), keys, want))
            for x, f in fields:
                loc = sch.loc(d, f)
                mine = evs if d['kind'] == 'struct' else [(p, e) for p, e in evs if e[0] != 'set' or e[1] != loc or
                                                          plainval(e[2]) == ('p', x)]
                r = stores(mine, loc, cls, lang, sch, f, d, ('p', x))
                c.ob('constructor', site + ' ' + x, None if r is None else '%s: for field %s %s' % (k.where(m, corp), x, r))
                if d['kind'] == 'union':
                    i = [y for y, _ in fields].index(x)
                    ok = any(e == ('set', ('tag',), ('num', i)) and any(occurs(q, ('p', x)) for q in p) for p, e in evs)
                    c.ob('constructor', site + ' ' + x + ' tag', None if ok else '%s: does not select %s' % (k.where(m, corp), x))
        if lang != 'cpp':
            for x in params:
                r = stores(evs, ('f', x), cls, lang, sch, None, d, ('p', x)) if x in keys else None
                c.ob('constructor', site + ' ' + x, None if r is None else '%s: for parameter %s %s' % (k.where(m, corp), x, r))
        if next_ and (lang == 'python' or any(e[0] == 'set' for p, e in evs)):
            ok = any(e[0] == 'set' and e[1] == ('numext',) and e[2][0] == 'num' and e[2][1] >= next_ for p, e in evs)
            ok = ok or any(e[0] == 'init' and e[1] == '<delegate>' for p, e in evs)  # to the default constructor, which is checked too
            c.ob('constructor', site + ' extended', None if ok else '%s: extended fields are not present in a new object' % k.where(m, corp))
        elif next_ and lang == 'java' and not names:
            c.ob('constructor', site + ' extended', '%s: extended fields are not present in a new object' % k.where(m, corp))
        for x, f in fields:
            if f['init'] is None or keys and lang != 'python':
                continue
            want = sch.cex(f['init'], d)
            if lang == 'python':
                e = ir['defaults'].get(names[keys.index(x)]) if x in keys else None
                got = k.cls.ex(e, {}) if e is not None else None
                k.cls.reset()
            else:
                got = [e[2] for p, e in evs if e[0] == 'set' and e[1] == sch.loc(d, f) and p == ()]
                got = got[-1] if got else None
                if lang == 'java' and got is None:
                    fi = [y for y in cls.c['fields'] if key(y['name']) == x and y.get('init')]
                    got = cls.ex(fi[0]['init'], {}) if fi else None
                    cls.reset()
                if lang == 'cpp' and any(p == () and e[0] == 'init' and e[1] == '<delegate>' for p, e in evs):
                    continue
            c.ob('initial-value', site + ' ' + x, None if got == want else '%s: field %s starts as %s, must be %s' % (
                k.where(m, corp), x, se(got) if got else 'its type default', se(want)))


# ---------------------------------------------------------------------- C++ copies
def other_of(loc):
    return ('dot', ('other',), {('choice',): 'choice', ('tag',): 'choicetag', ('numext',): 'numextendedfields'}.get(loc) or loc[1])


def needs_init(sch, T, seen=()):
    """Does a C++ object of this type have parameters, or members that do?"""
    if T.kind != 'compound' or T.name in seen:
        return False
    d = T.decl
    return bool(d['params']) or any(needs_init(sch, sch.resolve(f['type'], d), seen + (T.name,)) for f in d['fields'])


def child_events(sch, d):
    """{(conditions, event)} of handing parameters on to the members of d."""
    def one(f):
        T = sch.resolve(f['type'], d)
        loc = sch.loc(d, f)
        if not needs_init(sch, T):
            return []
        if f['array'] is not None:
            ev = [('initelems', loc)]
        elif T.decl['params']:
            ev = [('initialize', loc) + tuple(T.args)]
        else:
            ev = [('initchildren', loc)]
        used = sch.used(f, d)
        return [('if', used, ev, [])] if used is not None else ev
    if d['kind'] == 'struct':
        t = [e for f in d['fields'] for e in one(f)]
    elif d['kind'] == 'union':
        t = []
        for i, f in reversed(list(enumerate(d['fields']))):
            t = [('if', mk_bin('==', ('tag',), ('num', i)), one(f), t)]
        if len(d['fields']) == 1:
            t = one(d['fields'][0])  # any other tag is an error
    else:
        t = sch.choice_tree(d, one)
    return handed(t)


def handed(t):
    return {(frozenset(p for p in slim(path) if p not in (('inited',), ('inited', ('other',)))), e)
            for path, e in events(unify(t)) if e[0] in ('initelems', 'initialize', 'initchildren')}


def slim(path):
    """A selector that equals one constant need not be said to differ from the others."""
    sel = {selector_of(p) for p in path if p[0] == 'bin' and p[1] == '=='} - {None}
    return [p for p in path if not (p[0] == 'not' and selector_of(p[1]) in sel)]


def unify(t):
    return layout_unway(multiway(norm(t)))


def layout_unway(t):
    import layout
    return layout.unway(t)


def copies(c):
    for cn in corpora(c):
        corp = gen.corpus(cn)
        sch = corp.schema
        for name, d in wirerules.types(corp):
            if d['kind'] not in ('struct', 'choice', 'union'):
                continue
            cls = corp.lang('cpp').get(key(name))
            if cls is None:
                c.ob('copy', 'cpp ' + name, 'no class is generated for this type')
                continue
            c.programs.add(name)
            cls.is_copy = True
            try:
                type_copies(c, corp, sch, name, d, cls)
            finally:
                cls.is_copy = False


def type_copies(c, corp, sch, name, d, cls):
    locs = [sch.loc(d, f) for f in d['fields']] if d['kind'] == 'struct' else [('choice',)]
    if d['kind'] == 'union':
        locs.append(('tag',))
    if any(f['ext'] for f in d['fields']):
        locs.append(('numext',))
    params = [('f', key(p[1])) for p in d['params']]
    n = 0
    for m in cls.c['methods']:
        ctor = m['name'] == cls.c['name']
        if not ctor and m['name'] != 'operator=' or not any(bare(t) == cls.q for t in m['cptypes']):
            continue
        kinds = [w for w in ('PropagateAllocator', 'NoInit') if any(w in t for t in m['cptypes'])]
        kinds.append('move' if any('&&' in t for t in m['cptypes']) else 'copy')
        site = 'cpp %s %s %s' % (name, ' '.join(kinds), 'construction' if ctor else 'assignment')
        n += 1
        w = gen.where('cpp', cls, m, corp)
        if m['deleted']:
            c.ob('copy', site, '%s is deleted' % w)
            continue
        if m['defaulted'] or m.get('body') is None:
            c.ob('copy', site, None if m['defaulted'] else '%s is not defined' % w)
            continue
        i = [j for j, t in enumerate(m['cptypes']) if bare(t) == cls.q][0]
        t = norm(resolve_sets(cls.run(m, {m['params'][i]: ('other',)})))
        evs = events(t)
        bad = None
        noinit = 'NoInit' in kinds
        for loc in locs + ([] if noinit else params):
            mine = [(p, e) for p, e in evs if e[0] == 'set' and e[1] == loc]
            ok = False
            for p, e in mine:
                v = plainval(e[2])
                if v[0] == 'defval' or v[0] == 'make' and len(v) == 2:
                    continue
                same = v == other_of(loc) or loc == ('choice',) and v == ('call', ('other',), 'copyobject')
                if not same:
                    bad = bad or '%s gets %s' % (se(loc), se(e[2]))
                if p == () or loc in params and p == (('inited', ('other',)),):
                    ok = ok or same
            if not ok:
                bad = bad or '%s is not taken over' % se(loc)
        for p, e in evs:
            if e[0] == 'set' and e[1] not in locs + params + [('inited',)] and e[1][0] in ('f', 'choice', 'tag', 'numext'):
                bad = bad or 'also stores to %s' % se(e[1])
        if not ctor and not any(e == ('ret', ('self',)) for p, e in evs):
            bad = bad or 'does not return the object itself'
        c.ob('copy', site, None if bad is None else '%s: %s' % (w, bad))
        if params:
            on = [p for p, e in evs if e == ('set', ('inited',), TRUE)]
            if noinit:
                c.ob('copy-initialized', site, None if not on else '%s: becomes initialized although its parameters are not copied' % w)
            else:
                c.ob('copy-initialized', site, None if on and all(p == (('inited', ('other',)),) for p in on) else
                     '%s: is not marked as initialized exactly when the other object is' % w)
        want = child_events(sch, d)
        if want and not noinit and d['kind'] == 'struct':
            # children without parameters, copied by their own copy operations, need nothing more
            soft = {sch.loc(d, f) for f in d['fields'] if not (sch.resolve(f['type'], d).decl or {}).get('params')}
            got = {x for x in handed(t) if x in want or x[1][1] not in soft}
            want = {x for x in want if x in got or x[1][1] not in soft}
            c.ob('copy-children', site, None if got == want else '%s: %s' % (w, differ(got, want)))
    c.ob('copy-complete', 'cpp ' + name, None if n >= 4 else 'only %d copying members are declared' % n)
    for m in cls.c['methods']:
        if m['name'] == 'copyObject' and m.get('body') is not None:
            fs = d['fields']
            t = [s for s in norm(resolve_sets(cls.run(m))) if not (s[0] == 'guard' and s[1] == ('inited',))]
            if d['kind'] == 'union':
                want = [('ret', NULL)]
                for i in reversed(range(len(fs))):
                    want = [('if', mk_bin('==', ('tag',), ('num', i)), [('ret', ('choice',))], want)]
            else:
                want = null_default(sch.choice_tree(d, lambda f: [('ret', ('choice',))]))
            df = first_diff(multiway(norm(want)), multiway(norm(t)))
            c.ob('copy', 'cpp %s copyObject' % name, None if df is None else '%s: under [%s] schema: %s, code: %s' % (
                gen.where('cpp', cls, m, corp), ' & '.join(df[0]), brief(df[1]), brief(df[2])))
        elif m['name'] == 'initializeChildren' and m.get('body') is not None:
            t = norm(resolve_sets(cls.run(m)))
            want, got = child_events(sch, d), handed(t)
            c.ob('children', 'cpp %s initializeChildren' % name, None if got == want else '%s: %s' % (
                gen.where('cpp', cls, m, corp), differ(got, want)))
        elif m['name'] == 'initialize' and m.get('body') is not None and params:
            evs = events(norm(resolve_sets(cls.run(m))))
            bad = None
            for p in params:
                if ((), ('set', p, ('p', p[1]))) not in evs:
                    bad = bad or 'parameter %s is not stored' % p[1]
            if ((), ('set', ('inited',), TRUE)) not in evs:
                bad = bad or 'the object is not marked as initialized'
            if [key(x) for x in m['params']] != [p[1] for p in params]:
                bad = bad or 'takes %s' % m['params']
            got = handed([s for s in norm(resolve_sets(cls.run(m)))])
            want = child_events(sch, d)
            c.ob('children', 'cpp %s initialize' % name, None if not bad and got == want else '%s: %s' % (
                gen.where('cpp', cls, m, corp), bad or differ(got, want)))
    if child_events(sch, d) and not any(m['name'] == 'initializeChildren' for m in cls.c['methods']):
        c.ob('children', 'cpp %s initializeChildren' % name, 'there is no initializeChildren')
    if params and not any(m['name'] == 'initialize' for m in cls.c['methods']):
        c.ob('children', 'cpp %s initialize' % name, 'there is no initialize')


def null_default(t):
    if not t:
        return [('ret', NULL)]
    if t[0][0] == 'if':
        return [('if', t[0][1], null_default(t[0][2]), null_default(t[0][3]))]
    return t


def differ(got, want):
    for p, e in sorted(want - got, key=repr):
        return 'does not do  %s%s' % (brief(e), ' when ' + ' & '.join(sorted(se(x) for x in p)) if p else '')
    for p, e in sorted(got - want, key=repr):
        return 'does  %s%s' % (brief(e), ' when ' + ' & '.join(sorted(se(x) for x in p)) if p else '')
