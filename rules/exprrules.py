"""Expressions and constants: what generated functions return and constants hold, against the schema."""
import os
import re
import struct
import gen
import wirerules
from canon import *
from interp import resolve_sets


def corpora(c):
    return ('expr', 'multi')


def methods_of(lang, cls, name):
    """The generated methods for a schema function."""
    want = ('func' + key(name), key(name))
    if lang == 'python':
        return [n for n in cls.methods if key(n) in want]
    return [m for m in cls.c['methods'] if key(m['name']) == want[0] and m.get('body') is not None]


def fold(lang, t):
    """Sums and products of literals have their value; in C++ enums and bitmasks are their values."""
    if isinstance(t, list):
        return [fold(lang, x) for x in t]
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'num':
        return t
    t = tuple(fold(lang, x) for x in t)
    if t[0] == 'bin' and len(t) == 4:
        a, b = t[2], t[3]
        if t[1] in FOLD and all(is_num(x) and type(x[1]) is int for x in (a, b)):
            return ('num', FOLD[t[1]](a[1], b[1]))
        return mk_bin(*t[1:])
    if lang == 'cpp':
        if t[0] == 'valueof' and len(t) == 2:
            return t[1]
        if t[0] == 'make' and len(t) == 3:
            return t[2]
    return t


FOLD = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}


def same(lang, got, want):
    """Equality of two terms; C++ has literals as bytes and as single precision floats."""
    return alike(lang, fold(lang, got), fold(lang, want))


def alike(lang, got, want):
    if isinstance(want, (tuple, list)) and isinstance(got, (tuple, list)):
        return len(got) == len(want) and all(alike(lang, g, w) for g, w in zip(got, want))
    if got == want:
        return type(got) is type(want) or isinstance(got, (int, float)) and isinstance(want, (int, float))
    if isinstance(want, float) and isinstance(got, float):
        return abs(want) < 3e38 and got == struct.unpack('f', struct.pack('f', want))[0]
    if isinstance(want, str) and isinstance(got, str) and lang == 'cpp':
        try:
            return got.encode('latin1').decode('utf8') == want
        except UnicodeError:
            return False
    return False


def returned(cls, m):
    t = norm(resolve_sets(cls.run(m)))
    while t and t[0][0] == 'guard':
        t = t[1:]  # C++ refuses calls before the parameters are set
    return t[0][1] if len(t) == 1 and t[0][0] == 'ret' else None, t


def functions(c):
    for cn in corpora(c):
        corp = gen.corpus(cn)
        for name, d in wirerules.types(corp):
            if d['kind'] not in ('struct', 'choice', 'union'):
                continue
            for lang in c.langs:
                cls = corp.lang(lang).get(key(name))
                for f in d.get('functions', ()):
                    site = '%s %s.%s' % (lang, name, f['name'])
                    ms = methods_of(lang, cls, f['name']) if cls else []
                    if not ms:
                        c.ob('function', site, 'the generated class has no such function')
                        continue
                    c.programs.add(name)
                    want = corp.schema.cex(f['expr'], d)
                    bad = None
                    for m in ms:
                        got, t = returned(cls, m)
                        if got is None or not same(lang, got, want):
                            bad = '%s: returns %s, the schema says %s' % (gen.where(lang, cls, m, corp), se(got) if got is not None else t, se(want))
                    c.ob('function', site, bad, se(want))


CPP_INT = re.compile(r'\bu?int(8|16|32|64)_t\b')
JAVA_INT = {'byte': 8, 'short': 16, 'int': 32, 'long': 64}


def holds(lang, typ, v):
    """Whether a variable of a generated type can hold the integer."""
    if lang == 'java' and typ in JAVA_INT:
        n = JAVA_INT[typ]
        return -1 << n - 1 <= v < 1 << n - 1
    m = CPP_INT.search(typ) if lang == 'cpp' else None
    if m:
        n = int(m.group(1))
        return 0 <= v < 1 << n if m.group().startswith('u') else -1 << n - 1 <= v < 1 << n - 1
    return True


def evaluate(schema, t):
    """The value of a constant term, None if it is not one."""
    if t[0] in ('num', 'str', 'bool'):
        return t[1]
    if t[0] == 'const':
        return schema.const_value(('id', schema.consts[t[1]]))
    if t[0] == 'enumc':
        d = schema.concrete.get(schema.types.get(t[1]))
        vals = {key(n): v for n, v in schema.items(d)} if d else {}
        return vals.get(t[2])
    if t[0] in ('valueof', 'make', 'not', 'un', 'bin', 'cond'):
        a = [evaluate(schema, x) for x in t[1:] if isinstance(x, tuple) and x[0] != 'type']
        if any(x is None for x in a):
            return None
        if t[0] in ('valueof', 'make'):
            return a[0]
        if t[0] == 'not':
            return not a[0]
        if t[0] == 'cond':
            return a[1] if a[0] else a[2]
        if t[0] == 'un':
            return {'-': lambda x: -x, '+': lambda x: x, '~': lambda x: ~x}[t[1]](*a) if t[1] in '-+~' else None
        x, y = a
        ops = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '<<': lambda: x << y, '>>': lambda: x >> y, '|': lambda: x | y,
               '&': lambda: x & y, '^': lambda: x ^ y, '<': lambda: x < y, '==': lambda: x == y, '&&': lambda: x and y, '||': lambda: x or y,
               '%': lambda: x % y if x >= 0 and y > 0 else None, '/': lambda: x // y if type(x) is int and x >= 0 and y > 0 else None}
        return ops[t[1]]() if t[1] in ops else None
    return None


def constants(c):
    for cn in corpora(c):
        corp = gen.corpus(cn)
        for lang in c.langs:
            got = corp.constants(lang)
            for k, n in sorted(corp.schema.consts.items()):
                d = corp.schema.decls[n]
                site = '%s %s' % (lang, n)
                c.programs.add(n)
                if k not in got:
                    c.ob('constant', site, 'the constant is not generated')
                    continue
                cls, init, typ, file, line = got[k]
                at = '%s:%d' % (os.path.relpath(file, corp.root(lang)), line)
                w = corp.schema.cex(d['expr'], None)
                g = cls.ex(init, {})
                v, u = evaluate(corp.schema, w), evaluate(corp.schema, g)
                bad = None
                if not same(lang, g, w) and (v is None or u is None or not alike(lang, u, v)):
                    bad = '%s: holds %s, the schema says %s' % (at, se(g), se(w))
                elif type(v) is int and typ and not holds(lang, typ, v):
                    bad = '%s: the type %s cannot hold %d' % (at, typ, v)
                c.ob('constant', site, bad, se(w))


def both(c):
    functions(c)
    constants(c)
