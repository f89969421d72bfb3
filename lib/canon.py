"""Canonical expressions and event trees: the language-neutral form in which generated code of the three targets and the
reference layout derived from a schema are compared.

Expressions are tuples:
  ('num',v) ('str',s) ('bool',b) ('null',) ('self',)
  ('f',key)              field or parameter of the object itself          ('dot',e,key)   ... of another object
  ('choice',)            the value held by a choice or union              ('tag',)        a union's tag
  ('numext',)            count of extended fields that are present        ('index',)      index of an array element
  ('idx',e,i) ('len',e) ('valueof',e) ('numbits',e) ('bmset',a,b) ('present',e) ('call',obj,key)
  ('enumc',Type,ITEM) ('const',Name) ('bin',op,l,r) ('un',op,x) ('not',x) ('cond',c,a,b)
  ('pos',) ('pos0',) ('bytepos',) ('bufsize',) ('alignto',n,e) ('val',k) ...
Events (tree nodes):
  ('w',prim,params,loc)  a primitive crosses the stream     ('pk',ctx,prim,params,loc)  ... through a delta context
  ('obj',type,args,loc,ctx)   a compound/enum/bitmask crosses        ('arr',desc,len,packed,loc)
  ('align',n) ('adv',e) ('guard',cond,kind) ('if',cond,then,else) ('throw',kind) ('set',loc,e) ('ret',e) ('inc',loc)
"""


def key(n):
    return n.replace('_', '').lower()


NUM = ('num',)
TRUE, FALSE, NULL = ('bool', True), ('bool', False), ('null',)


def is_num(e):
    return e[0] == 'num'


def mk_not(x):
    if x[0] == 'not':
        return x[1]
    if x[0] == 'bool':
        return ('bool', not x[1])
    return ('not', x)


def mk_bin(op, l, r):
    if op in ('==', 'is', '!=', 'is not'):
        neg = op in ('!=', 'is not')
        if l == NULL:
            l, r = r, l
        if r == NULL:
            e = mk_not(mk_present(l))
        elif r == TRUE:
            e = l
        elif r == FALSE:
            e = mk_not(l)
        elif l == TRUE:
            e = r
        elif l == FALSE:
            e = mk_not(r)
        else:
            a, b = sorted((l, r), key=repr)
            e = offset_eq(a, b) or ('bin', '==', a, b)
        return mk_not(e) if neg else e
    if op == '>':
        return ('bin', '<', r, l)
    if op == '>=':
        return mk_not(('bin', '<', l, r))
    if op == '<=':
        return mk_not(('bin', '<', r, l))
    if op == '//':
        op = '/'
    if op == '&&':
        if l == TRUE:
            return r
        if l == FALSE:
            return FALSE
        if r == TRUE:
            return l
    if op == '||':
        if l == FALSE:
            return r
        if r == FALSE:
            return l
        if l == TRUE:
            return TRUE
    if op == '+' and l[0] == 'str' and r[0] == 'str':
        return ('str', l[1] + r[1])
    if op == '*' and r[0] == 'bin' and r[1] == '<<' and r[2] == ('num', 1):
        return ('bin', '<<', l, r[3])  # C++ generator: a * (1 << b)
    if op == '/' and l == ('pos',) and r == ('num', 8):
        return ('bytepos',)
    return ('bin', op, l, r)


def offset_eq(a, b):
    """bit position == bytes_to_bits(x)  is the same test as  byte position == x (positions are byte aligned there)."""
    for x, y in ((a, b), (b, a)):
        if x == ('pos',) and y[0] == 'b2bits':
            l, r = sorted((('bytepos',), y[1]), key=repr)
            return ('bin', '==', l, r)
    return None


def mk_present(x):
    if x == NULL:
        return FALSE
    if x[0] in ('arrv', 'some'):
        return TRUE
    return ('present', x)


def mk_un(op, x):
    if op == '!':
        return mk_not(x)
    if op == '+':
        return x
    if op == '-' and is_num(x):
        return ('num', -x[1])
    return ('un', op, x)


def mk_cond(c, a, b):
    if c[0] == 'bool':
        return a if c[1] else b
    if c[0] == 'not':
        return mk_cond(c[1], b, a)
    if a == b:
        return a
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return mk_not(c)
    # (x present) ? x : null  is x
    if c == ('present', a) and b == NULL:
        return a
    return ('cond', c, a, b)


def subst(e, m):
    """Replace sub-expressions (exact tuples) by m."""
    if not isinstance(e, tuple):
        if isinstance(e, list):
            return [subst(x, m) for x in e]
        return e
    try:
        if e in m:
            return m[e]
    except TypeError:
        pass
    return tuple(subst(x, m) if isinstance(x, (tuple, list)) else x for x in e)


def occurs(e, p):
    if e == p:
        return True
    return isinstance(e, (tuple, list)) and any(occurs(x, p) for x in e)


def walk(e):
    yield e
    if isinstance(e, (tuple, list)):
        for x in e:
            if isinstance(x, (tuple, list)):
                yield from walk(x)


def rebuild(e):
    """Re-apply the simplifying constructors bottom-up (after a substitution)."""
    if isinstance(e, list):
        return [rebuild(x) for x in e]
    if not isinstance(e, tuple):
        return e
    e = tuple(rebuild(x) if isinstance(x, (tuple, list)) else x for x in e)
    if e and e[0] == 'bin':
        return mk_bin(e[1], e[2], e[3])
    if e and e[0] == 'not':
        return mk_not(e[1])
    if e and e[0] == 'un':
        return mk_un(e[1], e[2])
    if e and e[0] == 'cond':
        return mk_cond(e[1], e[2], e[3])
    if e and e[0] == 'present':
        return mk_present(e[1])
    return e


def terminated(t):
    if not t:
        return False
    s = t[-1]
    if s[0] in ('ret', 'throw', 'break', 'continue'):
        return True
    return s[0] == 'if' and terminated(s[2]) and terminated(s[3])


def norm(t):
    """Canonical form of a statement list."""
    out = []
    for s in t:
        if s[0] == 'if':
            out += norm_if(rebuild(s[1]), norm(s[2]), norm(s[3]))
        elif s[0] in ('loop', 'foreach'):
            out.append(tuple(norm(x) if isinstance(x, list) else rebuild(x) if isinstance(x, tuple) else x for x in s))
        elif s[0] == 'guard':
            out += norm_guard(rebuild(s[1]), s[2])
        elif s[0] == 'adv':
            out += [('adv', x) for x in terms(rebuild(s[1]))]
        else:
            out.append(tuple(rebuild(x) if isinstance(x, (tuple, list)) else x for x in s))
        if out and terminated(out):
            break
    # merge
    res = []
    for s in out:
        if res:
            p = res[-1]
            if s[0] == 'if' and p[0] == 'if' and s[1] == p[1] and stable(s[1], p) and not terminated(p[2]) and not terminated(p[3]):
                res[-1:] = norm_if(s[1], norm(p[2] + s[2]), norm(p[3] + s[3]))
                continue
        res.append(s)
    return merge_adv(res)


def stable(c, stmt):
    """Executing stmt does not change the value of c."""
    if occurs(c, ('pos',)) or occurs(c, ('bufsize',)):
        return False

    def touched(t):
        for s in t:
            if s[0] in ('w', 'pk') and s[-1][0] != 'val' and occurs(c, s[-1]) and s[-1][0] != 'present':
                yield True
            elif s[0] in ('x', 'set', 'inc') and occurs(c, s[1]):
                yield True
            elif s[0] == 'if':
                yield from touched(s[2])
                yield from touched(s[3])
    return not any(touched(stmt[2])) and not any(touched(stmt[3]))


def terms(e):
    if e[0] == 'bin' and e[1] == '+':
        return terms(e[2]) + terms(e[3])
    return [e] if e != ('num', 0) else []


def merge_adv(t):
    """Runs of advances: constants summed, the rest in a fixed order (sums commute)."""
    out, i = [], 0
    while i < len(t):
        if t[i][0] != 'adv':
            out.append(t[i])
            i += 1
            continue
        n, xs = 0, []
        while i < len(t) and t[i][0] == 'adv':
            if is_num(t[i][1]):
                n += t[i][1][1]
            else:
                xs.append(t[i])
            i += 1
        if n:
            out.append(('adv', ('num', n)))
        out += sorted(xs, key=repr)
    return out


def norm_guard(c, kind):
    """A guard passes when c holds; otherwise it throws."""
    if c == TRUE:
        return []
    if c == FALSE:
        return [('throw', kind)]
    if c[0] == 'not' and c[1][0] == 'bin' and c[1][1] == '&&':
        # not (a && b) must hold:  if a { guard not b }
        return norm_if(c[1][2], norm_guard(mk_not(c[1][3]), kind), [])
    if c[0] == 'bin' and c[1] == '||' and selector_of(c) is None:
        return norm_if(c[2], [], norm_guard(c[3], kind))
    if c[0] == 'bin' and c[1] == '&&':
        return norm_guard(c[2], kind) + norm_guard(c[3], kind)
    if c[0] == 'not' and c[1][0] == 'bin' and c[1][1] == '||':
        return norm_guard(mk_not(c[1][2]), kind) + norm_guard(mk_not(c[1][3]), kind)
    return [('guard', c, kind)]


def known(c, v, t):
    """t, given that c is v when it starts."""
    if t and t[0][0] in ('if', 'guard') and (t[0][1] == c or t[0][1] == ('not', c)):
        truth = v if t[0][1] == c else not v
        if t[0][0] == 'guard':
            return t[1:] if truth else [('throw', t[0][2])]
        return (t[0][2] if truth else t[0][3]) + t[1:]
    return t


def norm_if(c, T, E):
    if c[0] == 'bool':
        return T if c[1] else E
    if c[0] == 'not':
        return norm_if(c[1], E, T)
    if c[0] == 'cond':
        return norm_if(c[1], norm_if(c[2], T, E), norm_if(c[3], T, E))
    T, E = known(c, True, T), known(c, False, E)
    if c[0] == 'bin' and c[1] == '||' and c[2][0] == 'bin' and c[2][1] == '==' and E and selector_of(c) is not None:
        return norm_if(c[2], T, norm_if(c[3], T, E))
    if T == E and (not E or selector_of(c) is None):
        return list(T)
    if not T and not E:
        return []
    # if (c) throw  /  if (c) {} else throw
    if len(T) == 1 and T[0][0] == 'throw':
        return norm_guard(mk_not(c), T[0][1]) + E
    if len(E) == 1 and E[0][0] == 'throw':
        return norm_guard(c, E[0][1]) + T
    if c[0] == 'bin' and c[1] == '&&' and not E:
        return norm_if(c[2], norm_if(c[3], T, []), [])
    if c[0] == 'bin' and c[1] == '||' and not T:
        return norm_if(c[2], [], norm_if(c[3], [], E))
    # presence bit:  if c { bool(true) A } else { bool(false) B }  is  bool(c) if c A else B
    if T and E and T[0][:2] == ('w', 'bool') and E[0][:2] == ('w', 'bool') and T[0][3] == TRUE and E[0][3] == FALSE:
        return [('w', 'bool', (), c)] + norm_if(c, T[1:], E[1:])
    if T and E and T[0] == E[0] and T[0][0] in ('w', 'align', 'adv', 'x', 'pk') and selector_of(c) is None:
        return [T[0]] + norm_if(c, T[1:], E[1:])
    return [('if', c, list(T), list(E))]


CONST = ('num', 'enumc', 'const', 'str')


def selector_of(c):
    """The selector when c is 'selector == constant' (or a disjunction of such tests), else None."""
    if c[0] == 'bin' and c[1] == '==':
        a, b = c[2], c[3]
        if is_const(a) and not is_const(b):
            return b
        if is_const(b) and not is_const(a):
            return a
    if c[0] == 'bin' and c[1] == '||':
        a, b = selector_of(c[2]), selector_of(c[3])
        return a if a is not None and a == b else None
    return None


def is_const(e):
    return e[0] in CONST or (e[0] == 'un' and is_const(e[2]))


def labels_of(c):
    if c[1] == '||':
        return labels_of(c[2]) + labels_of(c[3])
    return [c[2] if is_const(c[2]) else c[3]]


def multiway(t):
    """Chains of tests of one selector against constants become one ('case', selector, ((label, tree)...), default)."""
    out = []
    for s in t:
        if s[0] == 'if':
            sel = selector_of(s[1])
            if sel is not None and s[3]:
                ent, cur, dflt = {}, [s], None
                while True:
                    x = cur[0] if cur else None
                    if x is not None and x[0] == 'if' and len(cur) == 1 and selector_of(x[1]) == sel:
                        for l in labels_of(x[1]):
                            ent.setdefault(repr(l), (l, multiway(x[2])))
                        cur = x[3]
                    elif x is not None and x[0] == 'guard' and selector_of(x[1]) == sel:
                        for l in labels_of(x[1]):
                            ent.setdefault(repr(l), (l, multiway(cur[1:])))
                        dflt = [('throw', x[2])]
                        break
                    else:
                        dflt = multiway(cur)
                        break
                out.append(('case', sel, tuple(ent[k] for k in sorted(ent)), dflt))
                continue
            out.append(('if', s[1], multiway(s[2]), multiway(s[3])))
        elif s[0] in ('loop', 'foreach'):
            out.append(tuple(multiway(x) if isinstance(x, list) else x for x in s))
        else:
            out.append(s)
    return out


def final(t):
    return multiway(norm(t))


def show(t, ind=0):
    out = []
    p = '  ' * ind
    for s in t:
        if s[0] == 'if':
            out.append(p + 'if ' + se(s[1]))
            out += show(s[2], ind + 1)
            if s[3]:
                out.append(p + 'else')
                out += show(s[3], ind + 1)
        elif s[0] == 'case':
            out.append(p + 'case ' + se(s[1]))
            for l, x in s[2]:
                out.append(p + '  ' + se(l) + ':')
                out += show(x, ind + 2)
            out.append(p + '  default:')
            out += show(s[3], ind + 2)
        elif s[0] in ('loop', 'foreach'):
            out.append(p + s[0] + ' ' + ', '.join(se(x) for x in s[1:] if not isinstance(x, list)))
            for x in s[1:]:
                if isinstance(x, list):
                    out += show(x, ind + 1)
        else:
            out.append(p + s[0] + ' ' + ', '.join(se(x) if isinstance(x, tuple) else str(x) for x in s[1:]))
    return out


def se(e):
    """Readable rendering of a canonical expression."""
    if not isinstance(e, tuple):
        return str(e)
    if not e:
        return '()'
    k = e[0]
    if k == 'num' or k == 'bool':
        return str(e[1])
    if k == 'str':
        return repr(e[1])
    if k == 'f':
        return str(e[1])
    if k == 'dot':
        return '%s.%s' % (se(e[1]), e[2])
    if k == 'bin':
        return '(%s %s %s)' % (se(e[2]), e[1], se(e[3]))
    if k == 'not':
        return '!' + se(e[1])
    if k == 'un':
        return e[1] + se(e[2])
    if k == 'idx':
        return '%s[%s]' % (se(e[1]), se(e[2]))
    if k == 'cond':
        return '(%s ? %s : %s)' % (se(e[1]), se(e[2]), se(e[3]))
    if k == 'enumc':
        return '%s.%s' % (e[1], e[2])
    if isinstance(k, str):
        return k + ('(' + ', '.join(se(x) for x in e[1:]) + ')' if len(e) > 1 else '')
    return '(' + ', '.join(se(x) for x in e) + ')'


def first_diff(a, b, path=()):
    """(path, left, right) of the first difference between two trees, or None."""
    for i in range(max(len(a), len(b))):
        if i >= len(a):
            return path, None, b[i]
        if i >= len(b):
            return path, a[i], None
        x, y = a[i], b[i]
        if x == y:
            continue
        if x[0] == 'if' and y[0] == 'if' and x[1] == y[1]:
            return (first_diff(x[2], y[2], path + (se(x[1]),)) or
                    first_diff(x[3], y[3], path + ('!' + se(x[1]),)) or (path, x, y))
        if x[0] == 'case' and y[0] == 'case' and x[1] == y[1]:
            dx, dy = {repr(l): (l, z) for l, z in x[2]}, {repr(l): (l, z) for l, z in y[2]}
            for k in sorted(set(dx) | set(dy)):
                if k not in dx or k not in dy:
                    l = (dx.get(k) or dy.get(k))[0]
                    return path + ('%s == %s' % (se(x[1]), se(l)),), ('case',) if k in dx else None, ('case',) if k in dy else None
                d = first_diff(dx[k][1], dy[k][1], path + ('%s == %s' % (se(x[1]), se(dx[k][0])),))
                if d:
                    return d
            return first_diff(x[3], y[3], path + ('%s: default' % se(x[1]),)) or (path, x, y)
        return path, x, y
    return None


def brief(s):
    if s is None:
        return 'nothing'
    if s[0] == 'if':
        return 'if %s {%s}%s' % (se(s[1]), '; '.join(x.strip() for x in show(s[2])), (' else {%s}' % '; '.join(
            x.strip() for x in show(s[3]))) if s[3] else '')
    if s == ('case',):
        return 'a branch'
    return show([s])[0]
