"""Equality and hash codes of generated objects: which fields take part, and under which conditions.

The equality method is a boolean function of finitely many facts (field f of both objects is equal, f is present in one, the
condition c of f holds, ...). For every field all combinations of the facts about that field are laid out and the extracted
function must give what the schema says; the facts themselves stay abstract."""
import itertools
import gen
import wirerules
from canon import *
from interp import resolve_sets

LANGS = wirerules.LANGS
EQ = {'python': '__eq__', 'java': 'equals', 'cpp': 'operator=='}
HASH = {'python': '__hash__', 'java': 'hashCode', 'cpp': 'hashCode'}
OTHER = ('other',)
FLOATBITS = ('floattointbits', 'doubletolongbits', 'floattorawintbits', 'doubletorawlongbits')


class Cannot(Exception):
    pass


def method(cls, lang, what):
    n = (EQ if what == 'eq' else HASH)[lang]
    if lang == 'python':
        return n if n in cls.methods else None
    for m in cls.c['methods']:
        k = len(m.get('cptypes') or m.get('ptypes') or ()) if lang == 'cpp' else len(m.get('ptypes') or ())
        if m['name'] == n and k == (1 if what == 'eq' else 0) and m.get('body') is not None:
            return m
    if lang == 'cpp' and what == 'eq':
        for m in cls.funcs:
            if m['name'] == n and len(m['params']) == 2 and m.get('body') is not None:
                return m
    return None


class NullAccess(Exception):
    pass


class Facts:
    """One abstract situation: truth of atoms about the two objects."""

    def __init__(self):
        self.eq, self.pres, self.used, self.ext, self.atom = {}, {}, {}, {}, {}
        self.tag_eq = True
        self.bytes = False   # the selected field is a byte array
        self.case = None     # repr of the selected label, or 'default'
        self.sel = None
        self.numext = {}
        self.lt = None       # where values differ, is the first object's smaller?

    def ordered(self, lt, swap=False):
        """The same situation with an order of the values that differ, possibly seen from the other object."""
        F = Facts()
        F.__dict__.update(self.__dict__)
        F.lt = lt != swap
        if swap:
            for n in ('pres', 'used', 'ext'):
                setattr(F, n, {(1 - k[0],) + k[1:]: v for k, v in getattr(self, n).items()})
        return F

    def loc(self, e):
        """(side, field key) of a location, or None."""
        e = strip_float(e)
        if e[0] == 'f':
            return 0, e[1]
        if e == ('choice',):
            return 0, '#choice'
        if e == ('tag',):
            return 0, '#tag'
        if e == ('value',):
            return 0, '#value'
        if e == OTHER:
            return 1, '#value'
        if e == ('numext',):
            return 0, '#numext'
        if e[0] == 'dot' and e[1] == OTHER:
            return 1, {'choice': '#choice', 'choicetag': '#tag', 'value': '#value', 'numextendedfields': '#numext'}.get(e[2], e[2])
        if e[0] == 'jfield' and e[2] == 'value':
            return 1, '#value'
        return None

    def truth(self, e):
        if e[0] == 'bool':
            return e[1]
        if e[0] == 'not':
            return not self.truth(e[1])
        if e[0] == 'cond':
            return self.truth(e[2] if self.truth(e[1]) else e[3])
        if e[0] == 'bin' and e[1] == '&&':
            return self.truth(e[2]) and self.truth(e[3])
        if e[0] == 'bin' and e[1] == '||':
            return self.truth(e[2]) or self.truth(e[3])
        if repr(e) in self.atom:
            return self.atom[repr(e)]
        if e[0] == 'present':
            l = self.loc(e[1])
            if l is not None:
                return self.pres.get(l, True)
        if e[0] == 'inst':
            return True
        if e[0] == 'refeq':
            raise Cannot('compares the references %s and %s instead of the objects' % (se(e[1]), se(e[2])))
        if e[0] == 'call' and len(e) == 5 and e[1][-1] == 'java.util.Arrays' and e[2] == 'equals':
            e = ('bin', '==', e[3], e[4])
        if e[0] == 'objeq':
            if self.bytes:
                raise Cannot('compares the byte arrays by reference')
            e = ('bin', '==') + e[1:]
        if e[0] == 'bin' and e[1] == '==':
            if OTHER in e and ('self',) in e:
                return False
            if self.sel is not None and selector_of(e) == self.sel:
                return any(repr(l) == self.case for l in labels_of(e))
            a, b = e[2], e[3]
            la, lb = self.loc(a), self.loc(b)
            for x, l in ((a, la), (b, lb)):
                if x[0] == 'valueof' and l and not self.pres.get(l, True):
                    raise NullAccess()
            if la and lb:
                if la[1] != lb[1]:
                    raise Cannot('compares %s with %s' % (se(a), se(b)))
                if la[0] == lb[0]:
                    raise Cannot('compares %s with itself' % se(a))
                pa, pb = self.pres.get((0, la[1]), True), self.pres.get((1, la[1]), True)
                if not pa or not pb:
                    return pa == pb
                return self.eq.get(la[1], True)
            # two presence flags and the like compared with each other
            try:
                return self.truth(a) == self.truth(b)
            except Cannot:
                pass
        if e[0] == 'bin' and e[1] == '<' and self.lt is not None:
            la, lb = self.loc(e[2]), self.loc(e[3])
            if la and lb:
                if la[1] != lb[1] or la[0] == lb[0]:
                    raise Cannot('orders %s and %s' % (se(e[2]), se(e[3])))
                pa, pb = self.pres.get(la, True), self.pres.get(lb, True)
                if not pa or not pb:
                    return pb and not pa
                return False if self.eq.get(la[1], True) else self.lt == (la[0] == 0)
        if e[0] == 'bin' and e[1] == '<' and is_num(e[2]) and e[3] == ('numext',):
            return self.ext.get((0, e[2][1]), True)
        if e[0] == 'bin' and e[1] == '<' and is_num(e[2]) and e[3] == ('dot', OTHER, 'numextendedfields'):
            return self.ext.get((1, e[2][1]), True)
        if e[0] == 'call' and e[1] == OTHER and len(e) == 3:
            n = e[2]
            if n.startswith('is') and n.endswith('used'):
                return self.used.get((1, n[2:-4]), True)
            if n.startswith('is') and n.endswith('set'):
                return self.pres.get((1, n[2:-3]), True)
            if n.startswith('is') and n.endswith('present'):
                return self.ext.get((1, n[2:-7]), True)
        if e[0] == 'f':
            if e[1] in self.atom:
                return self.atom[e[1]]
        raise Cannot('depends on %s' % se(e))

    def run(self, t):
        for s in t:
            if s[0] == 'ret':
                return self.truth(s[1])
            if s[0] == 'if':
                r = self.run(s[2] if self.truth(s[1]) else s[3])
                if r is not None:
                    return r
            elif s[0] == 'case':
                if s[1] != self.sel and self.sel is not None:
                    raise Cannot('branches on %s' % se(s[1]))
                for l, x in s[2]:
                    if repr(l) == self.case:
                        r = self.run(x)
                        break
                else:
                    r = self.run(s[3])
                if r is not None:
                    return r
            elif s[0] == 'guard':
                if s[1] != ('inited',) and not self.truth(s[1]):
                    return 'throws'
            elif s[0] == 'throw':
                return 'throws'
            elif s[0] in ('set', 'val'):
                continue
            else:
                raise Cannot('has a step %s' % show([s])[0])
        return None


def strip_float(e):
    while e[0] == 'call' and len(e) == 4 and e[2] in FLOATBITS or e[0] == 'valueof':
        e = e[-1]
    return e


def atoms_of(c):
    """Boolean leaves of a condition."""
    if c[0] == 'not':
        return atoms_of(c[1])
    if c[0] == 'bin' and c[1] in ('&&', '||'):
        return atoms_of(c[2]) | atoms_of(c[3])
    if c[0] == 'cond':
        return atoms_of(c[1]) | atoms_of(c[2]) | atoms_of(c[3])
    if c[0] == 'bool':
        return set()
    return {c}


def ev(c, A):
    if c[0] == 'not':
        return not ev(c[1], A)
    if c[0] == 'bool':
        return c[1]
    if c[0] == 'bin' and c[1] == '&&':
        return ev(c[2], A) and ev(c[3], A)
    if c[0] == 'bin' and c[1] == '||':
        return ev(c[2], A) or ev(c[3], A)
    if c[0] == 'cond':
        return ev(c[2] if ev(c[1], A) else c[3], A)
    return A[repr(c)]


def struct_cases(sch, d, lang):
    """(description, facts, wanted result) for every field and parameter of a struct."""
    conds = {}
    ext = {}
    n = 0
    leaves = set()
    for f in d['fields']:
        if f['optional'] not in (None, 'auto'):
            conds[key(f['name'])] = sch.cex(f['optional'], d)
            leaves |= atoms_of(conds[key(f['name'])])
        if f['ext']:
            ext[key(f['name'])] = n
            n += 1
    leaves = sorted(leaves, key=repr)

    def base(A):
        F = Facts()
        F.atom = dict(A)
        for l in leaves:
            if l[0] == 'f':
                F.atom[l[1]] = A[repr(l)]
        for k, c in conds.items():
            u = ev(c, A)
            for side in (0, 1):
                F.used[side, k] = u
                F.pres[side, k] = u
        for k, i in ext.items():
            for side in (0, 1):
                F.ext[side, i] = F.ext[side, k] = True
        return F

    rows = []
    patterns = [{repr(l): v for l in leaves} for v in (True, False)] if leaves else [{}]
    for A in patterns:
        rows.append(('objects that agree in everything', base(A), True))
    for p in d.get('params', ()):
        F = base(patterns[0])
        F.eq[key(p[1])] = False
        rows.append(('parameter %s differs' % p[1], F, False))
    for f in d['fields']:
        k = key(f['name'])
        own = sorted(atoms_of(conds[k]), key=repr) if k in conds else []
        for pat in patterns:
            for vals in itertools.product((True, False), repeat=len(own)):
                A = dict(pat)
                A.update({repr(a): v for a, v in zip(own, vals)})
                u = ev(conds[k], A) if k in conds else True
                F = base(A)
                F.eq[k] = False
                if k in conds and not u:
                    rows.append(('%s is unused in both and its stale values differ' % f['name'], F, True))
                    F.pres[0, k] = F.pres[1, k] = True
                    continue
                rows.append(('%s differs' % f['name'], F, False))
                if f['optional'] == 'auto':
                    for a, b in ((True, False), (False, True), (False, False)):
                        G = base(A)
                        G.pres[0, k], G.pres[1, k] = a, b
                        G.used[0, k], G.used[1, k] = a, b
                        rows.append(('%s is present in %s' % (f['name'], 'the first only' if a else 'the second only' if b else 'neither'),
                                     G, a == b))
            if not own:
                break
        if f['ext'] and lang != 'java':
            for a, b in ((True, False), (False, True)):
                F = base(patterns[0])
                F.ext[0, ext[k]] = F.ext[0, k] = a
                F.ext[1, ext[k]] = F.ext[1, k] = b
                rows.append(('extended field %s is present in one object only' % f['name'], F, False))
            F = base(patterns[0])
            for side in (0, 1):
                F.ext[side, ext[k]] = F.ext[side, k] = False
            rows.append(('extended field %s is absent in both' % f['name'], F, True))
    return rows


def choice_cases(sch, d):
    rows = []
    if d['kind'] == 'union':
        sel = ('tag',)
        cases = [(repr(('num', i)), f, f['name']) for i, f in enumerate(d['fields'])]
    else:
        sel = sch.cex(d['selector'], d)
        enum = sch.selector_enum(d)
        cases = []
        for c in d['cases']:
            for l in c['labels']:
                cases.append((repr(case_label(sel, sch.cex(l, d, enum))), sch.fld(d, c['field']) if c['field'] else None, c['field']))
        if d['default'] is not None:
            cases.append(('default', sch.fld(d, d['default']['field']) if d['default'] and d['default']['field'] else None, 'default'))
    for r, f, n in cases:
        def base():
            F = Facts()
            F.sel, F.case = sel, r
            F.bytes = f is not None and f['array'] is None and sch.resolve(f['type'], d).prim == 'bytes'
            for side in (0, 1):
                F.pres[side, '#choice'] = f is not None
            if sel[0] == 'f':
                F.atom[sel[1]] = r == repr(TRUE)
            return F
        rows.append(('case %s, everything agrees' % n, base(), True))
        if f is not None:
            F = base()
            F.eq['#choice'] = False
            rows.append(('case %s, the values differ' % n, F, False))
            for a, b in ((True, False), (False, True)):
                F = base()
                F.pres[0, '#choice'], F.pres[1, '#choice'] = a, b
                rows.append(('case %s, only one object has a value' % n, F, False))
            F = base()
            F.pres[0, '#choice'] = F.pres[1, '#choice'] = False
            rows.append(('case %s, neither object has a value' % n, F, True))
        if d['kind'] == 'union':
            F = base()
            F.eq['#tag'] = False
            rows.append(('tags differ', F, False))
        for p in d.get('params', ()):
            F = base()
            F.eq[key(p[1])] = False
            rows.append(('parameter %s differs' % p[1], F, False))
    return rows


def case_label(sel, l):
    return l


def bool_label(t, sel):
    """if (sel) A else B  over a boolean selector is a two-way case."""
    out = []
    for s in t:
        if s[0] == 'if' and s[1] == sel:
            out.append(('case', sel, ((TRUE, bool_label(s[2], sel)), (FALSE, bool_label(s[3], sel))), [('throw', 'error')]))
        else:
            out.append(tuple(bool_label(x, sel) if isinstance(x, list) and all(isinstance(y, tuple) for y in x) else x for x in s))
    return out


def prune(t):
    """A self comparison short-cut has no effect on the result."""
    return [tuple(prune(x) if isinstance(x, list) and all(isinstance(y, tuple) for y in x) else x for x in s) for s in t]


def equality(c):
    for cn in wirerules.corpora(c):
        corp = gen.corpus(cn)
        sch = corp.schema
        for lang in c.langs:
            for name, d in wirerules.types(corp):
                if d['kind'] == 'enum' and lang != 'python':
                    continue
                cls = corp.lang(lang)[key(name)]
                m = method(cls, lang, 'eq')
                site = '%s %s equality' % (lang, name)
                if m is None:
                    if d['kind'] != 'enum':
                        c.ob('equality', site, 'the class has no equality')
                    continue
                p = [x for x in m['params'] if x] if lang != 'python' else cls.methods[m]['params'][1:]
                bind = {x: OTHER for x in p}
                if lang == 'cpp' and len(p) == 2:
                    bind = {p[0]: ('self',), p[1]: OTHER}
                t = cls.run(m, bind)
                t = multiway(norm(resolve_sets(t)))
                w = gen.where(lang, cls, m, corp)
                inst = [e for e in walk(t) if isinstance(e, tuple) and e[:1] == ('inst',)]
                for e in inst:
                    own = key(e[2][1] if isinstance(e[2], tuple) else e[2].split('.')[-1]) if len(e) > 2 else ''
                    c.ob('equality-type', site, None if own == key(name) and e[1] == OTHER else '%s: tests for type %s' % (w, own))
                if lang != 'cpp':
                    c.ob('equality-type', site, None if inst else '%s: objects of other types are not told apart' % w)
                if d['kind'] == 'struct':
                    rows = struct_cases(sch, d, lang)
                elif d['kind'] in ('choice', 'union'):
                    rows = choice_cases(sch, d)
                else:
                    F = Facts()
                    G = Facts()
                    G.eq['#value'] = False
                    rows = [('same value', F, True), ('values differ', G, False)]
                bad = None
                for what, F, want in rows:
                    try:
                        try:
                            got = F.run(t)
                        except NullAccess:
                            got = 'a null dereference'
                    except Cannot as e:
                        bad = '%s: %s' % (w, e)
                        break
                    if got != want:
                        bad = '%s: when %s, equality is %s, must be %s' % (w, what, got, want)
                        break
                c.programs.add(name)
                c.ob('equality', site, bad, '%d situations' % len(rows))
        if 'cpp' in c.langs:
            order(c, corp)
    hashes(c)


def order(c, corp):
    """C++ operator<: of two unequal objects exactly one is less than the other, of equal objects none."""
    sch = corp.schema
    for name, d in wirerules.types(corp):
        if d['kind'] not in ('struct', 'choice', 'union'):
            continue
        cls = corp.lang('cpp')[key(name)]
        site = 'cpp %s order' % name
        ms = [m for m in cls.c['methods'] if m['name'] == 'operator<' and m.get('body') is not None and len(m['params']) == 1]
        if not ms:
            c.ob('order', site, 'the class has no operator<')
            continue
        m = ms[0]
        t = multiway(norm(resolve_sets(cls.run(m, {m['params'][0]: OTHER}))))
        w = gen.where('cpp', cls, m, corp)
        bad = None
        for what, F, equal in struct_cases(sch, d, 'cpp') if d['kind'] == 'struct' else choice_cases(sch, d):
            try:
                for lt in (True, False):
                    a = F.ordered(lt).run(t)
                    b = F.ordered(lt, swap=True).run(t)
                    if equal and (a or b):
                        bad = '%s: when %s, an object is less than its equal' % (w, what)
                    elif not equal and a == b:
                        bad = '%s: when %s, %s of the objects is less than the other' % (w, what, 'each' if a else 'neither')
            except (Cannot, NullAccess) as e:
                bad = '%s: when %s: %s' % (w, what, e)
            if bad:
                break
        c.ob('order', site, bad)


# ---------------------------------------------------------------- hash codes
def accumulator(e, used):
    if e[0] == 'cond':
        return accumulator(e[2], used) or accumulator(e[3], used)
    return e == ('acc',) or 'HASH_SEED' in repr(e) and not used


def hash_tree(t):
    """Fold steps of a hash code, or None when it is something else than a fold over the object's fields."""
    out = []
    for s in t:
        if s[0] == 'ret':
            return out if accumulator(s[1], bool(out)) else None
        if s[0] == 'guard' and s[1] == ('inited',):
            continue
        if s[0] == 'h':
            out.append(('h', strip_float(s[1])))
        elif s[0] == 'if':
            a, b = hash_tree(s[2]), hash_tree(s[3])
            if a is None or b is None:
                return None
            out.append(('if', s[1], a, b))
        elif s[0] == 'set' and s[1][0] == 'val':
            continue
        else:
            return None
    return out


def hash_reference(sch, d):
    def field(f):
        used = sch.used(f, d)
        ev = [('h', sch.loc(d, f))]
        return [('if', used, ev, [])] if used is not None else ev
    out = [('h', ('f', key(p[1]))) for p in d.get('params', ())]
    if d['kind'] == 'struct':
        n = 0
        for f in d['fields']:
            e = field(f)
            if f['ext']:
                e = [('if', ('bin', '<', ('num', n), ('numext',)), e, [])]
                n += 1
            out += e
        return out
    if d['kind'] == 'union':
        node = []
        for i, f in reversed(list(enumerate(d['fields']))):
            node = [('if', mk_bin('==', ('tag',), ('num', i)), field(f), node)]
        return out + [('h', ('tag',))] + node
    if d['kind'] == 'choice':
        return out + drop_throw(sch.choice_tree(d, field))
    return [('h', ('value',))]


def drop_throw(t):
    return [tuple(drop_throw(x) if isinstance(x, list) else x for x in s) for s in t if s[0] != 'throw']


def drop_presence(t):
    """A choice without a value contributes nothing, whichever way that is written."""
    out = []
    for s in t:
        if s[0] == 'if':
            T, E = drop_presence(s[2]), drop_presence(s[3])
            if s[1] == ('present', ('choice',)) and not E:
                out += T
            else:
                out += norm_if(s[1], T, E)
        else:
            out.append(s)
    return out


def same_cases(t):
    """Cases that do what the default does are the default."""
    out = []
    for s in t:
        if s[0] == 'case':
            dflt = same_cases(s[3])
            ls = tuple((l, x) for l, x in ((l, same_cases(x)) for l, x in s[2]) if x != dflt)
            out += [('case', s[1], ls, dflt)] if ls else dflt
        elif s[0] == 'if':
            out.append(('if', s[1], same_cases(s[2]), same_cases(s[3])))
        else:
            out.append(s)
    return out


def no_ext(t):
    """Java hashes extended fields whether they came from the stream or not."""
    out = []
    for s in t:
        if s[0] == 'if' and s[1][0] == 'bin' and s[1][1] == '<' and s[1][3] == ('numext',):
            out += no_ext(s[2])
        else:
            out.append(tuple(no_ext(x) if isinstance(x, list) and all(isinstance(y, tuple) for y in x) else x for x in s))
    return out


def hashes(c):
    for cn in wirerules.corpora(c):
        corp = gen.corpus(cn)
        sch = corp.schema
        for lang in c.langs:
            for name, d in wirerules.types(corp):
                if d['kind'] == 'enum':
                    continue
                cls = corp.lang(lang)[key(name)]
                m = method(cls, lang, 'hash')
                site = '%s %s hash code' % (lang, name)
                if m is None:
                    c.ob('hash', site, 'the class has no hash code')
                    continue
                t = hash_tree(norm(resolve_sets(cls.run(m))))
                w = gen.where(lang, cls, m, corp)
                if t is None:
                    c.ob('hash', site, '%s: the hash code is not a fold over the fields' % w)
                    continue
                r = hash_reference(sch, d)
                if lang == 'java':
                    r = no_ext(r)
                t, r = same_cases(multiway(drop_presence(norm(t)))), same_cases(multiway(drop_presence(norm(r))))
                df = first_diff(t, r)
                c.ob('hash', site, None if df is None else '%s: under [%s] the code hashes  %s,  equality looks at  %s' % (
                    w, ' & '.join(df[0]), brief(df[1]), brief(df[2])))
