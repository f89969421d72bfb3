"""Array descriptors of the three languages reduced to one form: ('arr', kind, length, element, offset).

element: ('prim', prim, params) or ('object', type, args); offset: the array element's offset expression (in terms of
('index',)) or None. What the helper classes (element factories, offset setters and checkers, C++ array expressions) do is
read off their own code."""
from canon import *
from interp import resolve_sets


def env_for(m, lang):
    """Parameters of a helper method by what they are: streams and contexts by type, the remaining integers in order."""
    env, ints = {}, []
    types = [m['ptypes'].get(p, '') for p in m['params']] if lang == 'python' else m.get('cptypes') or m.get('ptypes') or []
    for p, t in zip(m['params'], types):
        if p in ('self', 'cls'):
            env[p] = (p,)
        elif 'BitStreamReader' in t:
            env[p] = ('reader',)
        elif 'BitStreamWriter' in t:
            env[p] = ('writer',)
        elif 'Context' in t:
            env[p] = ('ctxroot',)
        elif 'alloc' in t:
            env[p] = ('alloc',)
        elif t in ('int', 'long', 'unsigned long'):
            ints.append(p)
        else:
            env[p] = ('p', key(p)) if p else ('p', '')
    return env, ints


def run_helper(sub, m, lang, outer):
    env, ints = env_for(m, lang)
    roles = [('index',), ('pos',)]
    if lang == 'cpp':
        ts = m['cptypes']
        for p, t in zip(m['params'], ts):
            b = t.replace('&', '').replace('const', '').strip()
            if b == outer.q:
                env[p] = ('self',)
            elif p in env and env[p][0] == 'p':
                env[p] = ('elem',)
    for p, r in zip(ints, roles):
        env[p] = r
    sub.reset()
    t = sub.block(m['body'] or [], env)
    return norm([s for s in resolve_sets(t) if not (s[0] == 'guard' and s[1] == ('inited',))])


def created(t):
    """(type, args, mode) of the object a factory method makes, or None."""
    xs = [s for s in t if s[0] == 'x']
    if len(xs) != 1 or len(xs[0]) < 5:
        return None
    x = xs[0]
    if x[1] != ('elem',) and ('ret', x[1]) not in t:
        return None
    return x[3], x[4], x[2]


def factory(sub, lang, outer):
    ms = sub.methods.values() if lang == 'python' else sub.c['methods']
    plain = packed = None
    ctxtype = None
    for m in ms:
        n = m['name']
        if n == 'create' and not any('Context' in t for t in types(m, lang)):
            plain = created(run_helper(sub, m, lang, outer))
        elif n in ('create', 'create_packed'):
            packed = created(run_helper(sub, m, lang, outer))
        elif n in ('createPackingContext', 'create_packing_context'):
            t = run_helper(sub, m, lang, outer)
            v = t[0][1] if len(t) == 1 and t[0][0] == 'ret' else None
            ctxtype = context_type(v)
    if plain is None:
        return ('?', 'the element factory does not create an element from the stream')
    if plain[2] != 'plain':
        return ('?', 'create uses %s' % (plain[2],))
    flag = True
    if lang == 'python':
        flag = sub.consts.get('IS_OBJECT_PACKABLE')
        flag = flag[1] if flag is not None else None
        if flag != (packed is not None):
            return ('?', 'IS_OBJECT_PACKABLE is %s but create_packed %s' % (flag, 'exists' if packed else 'does not exist'))
    if packed is not None:
        if packed[:2] != plain[:2]:
            return ('?', 'create makes %s%s, its packed variant %s%s' % (plain[0], se(plain[1]), packed[0], se(packed[1])))
        if packed[2] != ('ctx', ''):
            return ('?', 'packed creation uses the context %s' % (packed[2],))
        want = 'delta' if plain[0] in outer.sym.enum_items else plain[0]
        if lang != 'cpp' and ctxtype != want:
            return ('?', 'packing context of %s for elements of %s' % (ctxtype, plain[0]))
    return ('object', plain[0], plain[1], packed is not None)


def context_type(v):
    if v is None:
        return None
    if v[0] == 'newctx':
        return v[1]
    if v[0] == 'newdelta':
        return 'delta'
    if v[0] == 'call' and v[1][0] == 'type':
        return v[1][1]
    if v[0] == 'new':
        p = v[1].split('.')
        return 'delta' if p[-1] == 'DeltaContext' else key(p[-2])
    return None


def types(m, lang):
    if lang == 'python':
        return [m['ptypes'].get(p, '') for p in m['params']]
    return m.get('cptypes') or m.get('ptypes') or []


def set_expr(t):
    """offset expression assigned by an offset setter"""
    sets = [s for s in t if s[0] == 'set']
    if len(t) >= 1 and len(sets) == 1 and sets[0][2] in (('pos',), ('bytepos',)):
        return sets[0][1], sets[0][2][0]
    return ('?', 'offset setter does %s' % '; '.join(show(t))), None


def check_expr(t):
    g = [s for s in t if s[0] == 'guard']
    if len(g) == 1 and g[0][1][0] == 'bin' and g[0][1][1] == '==':
        a, b = g[0][1][2], g[0][1][3]
        for x, y in ((a, b), (b, a)):
            if x in (('pos',), ('bytepos',)):
                return y, x[0]
    return ('?', 'offset checker does %s' % '; '.join(show(t))), None


def offsets(pair, lang, unit):
    (s, su), (c, cu) = pair
    if s != c:
        return ('?', 'offset setter stores to %s, the checker compares with %s' % (se(s), se(c)))
    if su != unit or cu != unit:
        return ('?', 'offset unit %s/%s' % (su, cu))
    return s


def normal(desc, cls, lang, length=None):
    """Canonical descriptor of an ('arrdesc', ...) value found in cls."""
    kind, tr, rest = desc[1], desc[3], desc[4]
    if lang == 'python':
        length = desc[2]
    if lang == 'python':
        elem = ('prim', tr[1], tr[2])
        if tr[0] != 'traits':
            elem = ('?', se(tr))
        elif tr[1] == 'object':
            f = tr[2][0] if tr[2] else None
            elem = factory(cls.helper(f[1]), lang, cls) if f is not None and f[0] == 'factory' else ('?', 'no element factory')
        off = None
        if rest != (None, None):
            ms = []
            for r, fn in zip(rest, (set_expr, check_expr)):
                if r is None or r[0] != 'meth':
                    ms.append((('?', 'offset method ' + str(r)), None))
                else:
                    ms.append(fn(run_helper(cls, cls.methods[r[1]], lang, cls)))
            off = offsets(ms, lang, 'bytepos')
    elif lang == 'java':
        elem = ('prim', tr[1], tr[2])
        if tr[1] == 'object':
            f = tr[2][0] if tr[2] else None
            elem = factory(cls.root().sub[f[1]], lang, cls) if f is not None and f[0] == 'new' and f[1] in cls.root().sub else \
                ('?', 'no element factory: %s' % se(f))
            if elem[0] == 'object' and elem[3] and not tr[3]:
                elem = elem[:3] + (False,)
        off = None
        s = c = None
        for r in rest:
            if r == NULL:
                continue
            sub = cls.root().sub.get(r[1]) if r[0] == 'new' else None
            if sub is None:
                off = ('?', se(r))
                continue
            for m in sub.c['methods']:
                if m['name'] == 'setOffset':
                    s = set_expr(run_helper(sub, m, lang, cls))
                elif m['name'] == 'checkOffset':
                    c = check_expr(run_helper(sub, m, lang, cls))
        if s or c:
            off = offsets((s or (('?', 'no offset setter'), None), c or (('?', 'no offset checker'), None)), lang, 'pos')
    else:
        aligned, exprs = rest
        off = s = c = init = None
        if exprs is not None:
            sub = cls.root().sub.get(exprs)
            if sub is None:
                return ('?', 'array expressions %s' % exprs)
            for m in sub.c['methods']:
                if m.get('body') is None:
                    continue
                t = run_helper(sub, m, lang, cls.root())
                if m['name'] == 'initializeOffset':
                    s = set_expr(t)
                elif m['name'] == 'checkOffset':
                    c = check_expr(t)
                elif m['name'] == 'initializeElement':
                    init = t
        if s or c:
            off = offsets((s or (('?', 'no initializeOffset'), None), c or (('?', 'no checkOffset'), None)), lang, 'pos')
        if aligned != (off is not None):
            off = ('?', 'array type is %saligned, offsets %s' % ('' if aligned else 'not ', se(off) if off else 'absent'))
        if tr[1] == 'object':
            if len(tr) > 3:
                sub = cls.root().sub.get(tr[3])
                elem = factory(sub, lang, cls.root()) if sub is not None else ('?', 'no element factory')
                if elem[0] == 'object' and elem[1] != tr[2]:
                    elem = ('?', 'array of %s with a factory of %s' % (tr[2], elem[1]))
                if elem[0] == 'object' and elem[2]:
                    i = [x for x in init or [] if x[0] == 'initialize']
                    if len(i) != 1 or i[0][1] != ('elem',):
                        elem = ('?', 'elements are not initialized with their parameters')
                    elif i[0][2:] != elem[2]:
                        elem = ('?', 'elements are created with %s but initialized with %s' % (se(elem[2]), se(i[0][2:])))
            else:
                elem = ('object', tr[2], (), True)
        else:
            elem = ('prim', tr[1], tr[2])
    return ('arr', kind, length, elem, off)


def reference(sch, f, d, with_length=True):
    a = sch.array_desc(f, d)
    return ('arr', a['kind'], a['length'] if with_length else None, a['elem'], a['offset'])


def finish(desc, mode=None):
    """Packed element creation must be possible where the array is packed; elsewhere it does not matter."""
    e = desc[3]
    if e[0] == 'object':
        if mode == 'packed' and not e[3]:
            e = ('?', 'packed array whose elements cannot be created packed')
        else:
            e = e[:3]
    return desc[:3] + (e,) + desc[4:]


def attach(t, cls, lang, read):
    """Event tree with ('x', loc, mode, detail): the array descriptor, or for objects that are read their type and arguments."""
    def go(ts, m):
        m = dict(m)
        out = []
        for s in ts:
            if s[0] == 'set' and s[2][0] == 'arrv':
                m[s[1]] = s[2][1]
                out.append(s)
            elif s[0] == 'x' and len(s) > 3:
                d = s[3]
                if d[0] == 'arrdesc':
                    n = s[4][1] if len(s) > 4 else None
                    out.append(s[:3] + (finish(normal(d, cls, lang, n), s[2]),))
                elif d[0] == 'length':
                    a = m.get(s[1])
                    out.append(s[:3] + ((finish(normal(a, cls, lang, d[1]), s[2]) if a else ('?', 'no array object')),))
                else:
                    out.append(s[:3] + (('type', s[3], s[4]),))
            else:
                out.append(tuple(go(x, m) if isinstance(x, list) and all(isinstance(y, tuple) for y in x) else x for x in s))
        return out
    return go(t, {})
