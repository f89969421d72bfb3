"""Layout view of a method's event tree: what crosses the stream, in which order, under which conditions."""
from canon import *
from interp import resolve_sets
import descs
import model

VALUE = ('w', 'pk', 'x')


def presence(t):
    """Reads: the tested presence bit is named after the field it decides about; the k-th test for left-over bytes is the
    presence of the k-th extended field."""
    state = {'ext': 0}

    def go(ts, m):
        out = []
        i = 0
        while i < len(ts):
            s = subst(ts[i], m) if m else ts[i]
            if s[0] == 'w' and s[1] == 'bool' and s[3][0] == 'val':
                loc = find_null(ts[i + 1:], s[3])
                if loc is not None:
                    m = dict(m)
                    m[s[3]] = ('present', loc)
                    s = ('w', 'bool', (), ('present', loc))
            if s[0] == 'if':
                c = s[1]
                k = ext_test(c)
                if k is not None:
                    n = state['ext']
                    state['ext'] += 1
                    c2 = ('bin', '<', ('num', n), ('numext',))
                    T, E = (s[2], s[3]) if k else (s[3], s[2])
                    counted = bool(T) and T[0] == ('inc', ('numext',))
                    if not counted:
                        T = [('not-counted',)] + T
                    else:
                        T = T[1:]
                    if any(x[0] in VALUE + ('align',) for x in E):
                        c2 = c
                    out.append(('if', c2, go(T, m), go(E, m)))
                else:
                    out.append(('if', c, go(s[2], m), go(s[3], m)))
            else:
                out.append(s)
            i += 1
        return out
    return go(t, {})


def ext_test(c):
    a = ('bin', '<', ('alignto', 8, ('pos',)), ('bufsize',))
    if c == a:
        return True
    if c == ('not', a):
        return False
    return None


def find_null(rest, v):
    """The field a presence bit v decides about: null on the false branch, assigned or read on the true one."""
    for s in rest:
        if s[0] == 'if' and s[1] in (v, ('not', v)):
            T, E = (s[2], s[3]) if s[1] == v else (s[3], s[2])
            locs = [x[1] for x in E if x[0] == 'set' and x[2] == NULL]
            if locs:
                return locs[-1]
            for x in T:
                if x[0] in ('w', 'pk'):
                    return x[-1]
                if x[0] == 'x':
                    return x[1]
        if s[0] == 'set' and s[2][0] == 'cond' and s[2][1] == v:
            return s[1]
    return None


def rets(t, want):
    """Size methods: the returned position/size becomes an advance; a wrong kind of result stays visible."""
    out = []
    for i, s in enumerate(t):
        if s[0] == 'ret':
            v = s[1]
            if want == 'size' and v == ('bin', '-', ('pos',), ('pos0',)):
                continue
            if want == 'end' and v in (('pos',), ('pos0',)):
                continue
            if want == 'none' and v == ('void',):
                continue
            if want == 'size':
                ev = adv(v)
                if ev is not None:
                    out += ev
                    continue
            out.append(s)
        elif s[0] == 'if':
            out.append(('if', s[1], rets(s[2], want), rets(s[3], want)))
        else:
            out.append(s)
    return out


def adv(v):
    if v[0] == 'size':
        return [v[1]]
    if v[0] == 'num' or v[0] in ('f', 'dot', 'const', 'call', 'idx', 'len', 'valueof', 'numbits', 'un'):
        return [('adv', v)]
    if v[0] == 'bin' and v[1] == '+':
        a, b = adv(v[2]), adv(v[3])
        return None if a is None or b is None else a + b
    if v[0] == 'cond':
        a, b = adv(v[2]), adv(v[3])
        return None if a is None or b is None else [('if', v[1], a, b)]
    if v[0] == 'bin' and not occurs(v, ('pos',)) and not occurs(v, ('pos0',)):
        return [('adv', v)]
    return None


def strip(t, keep_guards=False):
    out = []
    for s in t:
        if s[0] == 'if':
            out.append(('if', s[1], strip(s[2], keep_guards), strip(s[3], keep_guards)))
        elif s[0] == 'case':
            out.append(('case', s[1], tuple((l, strip(x, keep_guards)) for l, x in s[2]), strip(s[3], keep_guards)))
        elif s[0] == 'guard':
            off = offset_check(s[1])
            if off is not None:
                out.append(('offchk', off))
            elif keep_guards:
                out.append(s)
        elif s[0] == 'set':
            if s[2] == ('bytepos',):
                out.append(('setoff', s[1]))
        elif s[0] == 'x':
            out.append(s[:4])
        elif s[0] == 'w' and s[2] and not s[2][0]:
            out.append(s)
        elif s[0] in ('inc',):
            continue
        else:
            out.append(s)
    return out


def offset_check(c):
    if c[0] == 'bin' and c[1] == '==' and ('bytepos',) in (c[2], c[3]):
        return c[3] if c[2] == ('bytepos',) else c[2]
    return None


def refine(t):
    """Sizes of fixed-width primitives are advances, whichever way they are written."""
    out = []
    for s in t:
        if s[0] == 'w':
            out.append(model.size_event(s))
        elif s[0] == 'if':
            out.append(('if', s[1], refine(s[2]), refine(s[3])))
        else:
            out.append(s)
    return out


def view(tree, want, read=False, cls=None, lang=None):
    """want: 'none' (read/write), 'size' (bitsizeof), 'end' (initialize_offsets). With cls the construction of arrays and
    objects is part of the view."""
    t = resolve_sets(tree)
    if cls is not None:
        t = descs.attach(t, cls, lang, read)
    else:
        t = cut(t)
    t = norm(t)
    if read:
        t = norm(presence(t))
    t = rets(t, want)
    if want in ('size', 'end'):
        t = refine(t)
    t = strip(multiway(norm(t)))
    return multiway(norm(unway(t)))


def cut(t):
    return [tuple(cut(x) if isinstance(x, list) and all(isinstance(y, tuple) for y in x) else x for x in (
        s[:3] if s[0] == 'x' else s)) for s in t]


def unway(t):
    """case -> chain of ifs (so that norm can be applied again)."""
    out = []
    for s in t:
        if s[0] == 'case':
            node = unway(s[3])
            for l, x in reversed(s[2]):
                node = [('if', mk_bin('==', s[1], l), unway(x), node)]
            out += node
        elif s[0] == 'if':
            out.append(('if', s[1], unway(s[2]), unway(s[3])))
        else:
            out.append(s)
    return out


def reference(sch, d, what, ctx, detail=None):
    """Reference view for write/read/size/end/init."""
    if what == 'init':
        t = only_packed(sch.layout(d, ctx=True, detail=detail))
    elif what == 'size':
        t = model.size_tree(sch.layout(d, ctx=ctx, detail=detail))
    elif what == 'end':
        t = model.size_tree(sch.layout(d, ctx=ctx, mode='offsets', detail=detail))
    else:
        t = offchecks(sch.layout(d, ctx=ctx, mode='offsets', detail=detail))
    return multiway(norm(unway(strip(multiway(norm(t))))))


def offchecks(t):
    return [('offchk', s[1]) if s[0] == 'setoff' else ('if', s[1], offchecks(s[2]), offchecks(s[3])) if s[0] == 'if' else s
            for s in t]


def only_packed(t):
    out = []
    for s in t:
        if s[0] == 'pk' or s[0] == 'x' and isinstance(s[2], tuple):
            out.append(s)
        elif s[0] == 'if':
            T, E = only_packed(s[2]), only_packed(s[3])
            out.append(('if', s[1], T, E))
        elif s[0] == 'throw':
            out.append(s)
    return out
