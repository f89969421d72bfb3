"""Constant propagation over the common IR of generated code: statements are followed with every known value folded, own
methods inlined, and what is not known kept as a term. Conditions on terms are decided by the caller, so one run follows
exactly one path; calls on anything outside the class are recorded in the order they happen."""
import re


class Lost(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Thrown(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Buf:
    """A text under construction: known characters and terms."""

    def __init__(self, parts=()):
        self.parts = []
        for p in parts:
            self.add(p)

    def add(self, v):
        if isinstance(v, Buf):
            for p in v.parts:
                self.add(p)
            return
        if isinstance(v, bool) or v is None:
            v = ('v', str(v))
        if isinstance(v, (int, float)):
            v = str(v)
        if v == '':
            return
        if isinstance(v, str) and self.parts and isinstance(self.parts[-1], str):
            self.parts[-1] += v
        else:
            self.parts.append(v)

    def value(self):
        return self.parts[0] if len(self.parts) == 1 and isinstance(self.parts[0], str) else '' if not self.parts else ('cat',) + tuple(self.parts)


def text(v):
    return v.value() if isinstance(v, Buf) else v


def freeze(v):
    """A value as a term that does not change any more."""
    if isinstance(v, Buf):
        return v.value()
    if isinstance(v, list):
        return ('list',) + tuple(freeze(x) for x in v)
    return v


def known(v):
    return v is None or isinstance(v, (bool, int, float, str, list)) or (isinstance(v, Buf) and not isinstance(v.value(), tuple))


class Fold:
    """cls: the class IR, statics: values of its fields, decide(term) -> bool for conditions on terms."""

    def __init__(self, lang, cls, statics=(), decide=None, inline=True, others=()):
        self.lang, self.cls = lang, cls
        self.statics = dict(statics)
        self.decide = decide or (lambda t: self.lost(t))
        self.inline = inline
        self.methods = {}
        for m in cls.get('methods', ()):
            self.methods.setdefault(m['name'], []).append(m)
        self.events = []
        self.conds = []
        self.depth = 0
        self.steps = 0

    def lost(self, t):
        raise Lost('no rule decides the condition %s' % (t,))

    # -- running

    def run(self, name, args, params=None):
        ms = self.methods.get(name, [])
        ms = [m for m in ms if m.get('body') is not None and (params is None or len(m['params']) == params)]
        if not ms:
            raise Lost('there is no method %s' % name)
        return self.invoke(ms[0], args)

    def names(self, m):
        ps = [p['name'] if isinstance(p, dict) else p for p in m['params']]
        if self.lang == 'python' and ps and ps[0] in ('self', 'cls'):
            ps = ps[1:]
        return ps

    def invoke(self, m, args):
        self.depth += 1
        if self.depth > 12:
            raise Lost('calls nest too deeply at %s' % m['name'])
        env = {}
        for p, a in zip(self.names(m), args):
            env[p] = a
        for p in self.names(m)[len(args):]:
            env[p] = ('v', p)
        try:
            self.block(m['body'], env)
            return None
        except Return as r:
            return r.v
        finally:
            self.depth -= 1

    def block(self, b, env):
        for s in b:
            self.stmt(s, env)

    def truth(self, v):
        v = text(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, list):
            return bool(v)
        if isinstance(v, tuple) and v[:2] == ('op', '!'):
            return not self.truth(v[2])
        if isinstance(v, tuple) and v[0] == 'op' and v[1] == '&&':
            return self.truth(v[2]) and self.truth(v[3])
        if isinstance(v, tuple) and v[0] == 'op' and v[1] == '||':
            return self.truth(v[2]) or self.truth(v[3])
        r = self.decide(v)
        self.conds.append((v, r))
        return r

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 200000:
            raise Lost('too many steps')
        t = s[0]
        if t == 'expr':
            self.ev(s[1], env)
        elif t == 'decl':
            v = self.ev(s[3], env)
            if isinstance(v, Buf) and not self.reference(s[2]):
                v = Buf(v.parts)
            m = re.search(r'array<(?:bool|_Bool), (\d+)', str(s[2])) if self.lang == 'cpp' and not self.reference(s[2]) else None
            if m and isinstance(v, list):
                v = (v + [False] * int(m.group(1)))[:int(m.group(1))]
            env[s[1]] = v
        elif t == 'if':
            self.block(s[2] if self.truth(self.ev(s[1], env)) else (s[3] or []), env)
        elif t == 'return':
            raise Return(self.ev(s[1], env) if s[1] is not None else None)
        elif t == 'throw':
            raise Thrown(self.ev(s[1], env) if s[1] is not None else None)
        elif t == 'for':
            for x in s[1]:
                self.stmt(x, env)
            self.loop(lambda: s[2] is None or self.truth(self.ev(s[2], env)), s[4], env, lambda: [self.stmt(x, env) if x[0] in ('expr', 'decl') else self.ev(x, env) for x in s[3]])
        elif t == 'while':
            self.loop(lambda: self.truth(self.ev(s[1], env)), s[2], env, lambda: None)
        elif t == 'foreach':
            it = self.ev(s[2], env)
            if not isinstance(it, list):
                it = [('each', freeze(it))]
            for x in it:
                self.assign(s[1], x, env)
                try:
                    self.block(s[3], env)
                except Break:
                    break
                except Continue:
                    continue
        elif t == 'switch':
            self.switch(s, env)
        elif t == 'break':
            raise Break()
        elif t == 'continue':
            raise Continue()
        elif t == 'try':
            try:
                self.block(s[1], env)
            finally:
                if s[3]:
                    self.block(s[3], env)
        elif t == 'with':
            for item in s[1]:
                v = self.ev(item[0], env)
                if len(item) > 1 and item[1]:
                    self.assign(item[1], v, env)
            self.block(s[2], env)
        elif t == 'block':
            self.block(s[1], env)
        elif t in ('localdef', 'localclass'):
            env[s[1]['name']] = (t, s[1]['name'])
            self.local_definitions[s[1]['name']] = s[1]
        elif t == 'pass':
            pass
        elif t == 'yield':
            self.events.append(('yield', '', freeze(self.ev(s[1], env))))
        elif t == 'return_':
            pass
        elif t == 'other':
            pass
        else:
            raise Lost('statement %s' % t)

    local_definitions = {}

    def reference(self, ty):
        return '&' in str(ty) or self.lang != 'cpp'

    def loop(self, cond, body, env, step):
        n = 0
        while cond():
            n += 1
            if n > 500:
                raise Lost('a loop does not end')
            try:
                self.block(body, env)
            except Break:
                break
            except Continue:
                pass
            step()

    def switch(self, s, env):
        v = freeze(self.ev(s[1], env))
        hit = False
        try:
            for labels, body in [(c[0], c[1]) for c in s[2]]:
                if not hit:
                    for l in labels:
                        if l in ('default', ['default']) or (isinstance(l, list) and l and l[0] == 'default'):
                            continue
                        if self.item(freeze(self.ev(l, env))) == self.item(v):
                            hit = True
                if hit:
                    self.block(body, env)
            if not hit:
                for c in s[2]:
                    if hit or any(l == 'default' or (isinstance(l, list) and l and l[0] == 'default') for l in c[0]) or not c[0]:
                        hit = True
                        self.block(c[1], env)
        except Break:
            pass

    @staticmethod
    def item(v):
        """The last part of a qualified constant."""
        if isinstance(v, tuple) and v and v[0] in ('v', 'attr'):
            return str(v[-1]).replace('::', '.').split('.')[-1]
        return v

    # -- values

    def assign(self, t, v, env):
        if t[0] == 'name':
            if t[1] in env or not self.is_field(t):
                env[t[1]] = v
            else:
                self.statics[t[1]] = v
        elif t[0] == 'tuple':
            for i, x in enumerate(t[1]):
                self.assign(x, v[i] if isinstance(v, (list,)) else ('idx', freeze(v), i), env)
        elif t[0] == 'idx':
            b, i = self.ev(t[1], env), self.ev(t[2], env)
            if isinstance(b, list) and isinstance(i, int):
                b[i] = v
            else:
                self.events.append(('set', freeze(b), freeze(i), freeze(v)))
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'at' and len(t[2]) == 1:
            self.assign(('idx', t[1][1], t[2][0]), v, env)
        elif t[0] == 'attr':
            r = self.ev(t[1], env)
            if self.is_self(r):
                self.statics[t[2]] = v
                self.events.append(('set', 'self', t[2], freeze(v)))
            else:
                self.events.append(('set', freeze(r), t[2], freeze(v)))

    def is_field(self, t):
        return len(t) > 2 and str(t[2]).startswith('f:')

    @staticmethod
    def is_self(v):
        return v in (('v', 'self'), ('v', 'this'))

    def ev(self, e, env):
        if e is None:
            return None
        t = e[0]
        f = getattr(self, 'e_' + t, None)
        if f is None:
            return ('x', t)
        return f(e, env)

    def e_num(self, e, env):
        return e[1]
    e_bool = e_num
    e_val = e_num

    def e_str(self, e, env):
        return e[1]

    def e_char(self, e, env):
        return e[1] if isinstance(e[1], str) else chr(e[1])

    def e_null(self, e, env):
        return None

    def e_name(self, e, env):
        if e[1] in env:
            return env[e[1]]
        if e[1] in ('self', 'this'):
            return ('v', 'self')
        if e[1] in self.statics:
            return self.statics[e[1]]
        return ('v', e[1])

    def e_attr(self, e, env):
        r = self.ev(e[1], env)
        if e[2] in ('length',) and isinstance(r, list):
            return len(r)
        if self.is_self(r) or r == ('v', self.cls.get('name')):
            if e[2] in self.statics:
                return self.statics[e[2]]
        return ('attr', freeze(r), e[2])

    def e_idx(self, e, env):
        b, i = self.ev(e[1], env), self.ev(e[2], env)
        if isinstance(b, list) and isinstance(i, int) and not isinstance(i, bool):
            if not -len(b) <= i < len(b):
                raise Lost('index %d of %d elements' % (i, len(b)))
            return b[i]
        return ('idx', freeze(b), freeze(i))

    def e_un(self, e, env):
        op = e[1]
        if '++' in op or '--' in op:
            old = self.ev(e[2], env)
            new = old + (1 if '+' in op else -1) if isinstance(old, int) else ('op', '+', freeze(old), 1 if '+' in op else -1)
            self.assign(e[2], new, env)
            return old if 'post' in op else new
        v = self.ev(e[2], env)
        if op == '!':
            return (not v) if isinstance(v, (bool, int)) or v is None else ('op', '!', freeze(v))
        if op == '-' and isinstance(v, (int, float)):
            return -v
        if op == '~' and isinstance(v, int):
            return ~v
        if op in ('*deref', '&addr', '*', '&', '+', 'deref', 'addr'):
            return v
        return ('op', op, freeze(v))

    def e_bin(self, e, env):
        op = e[1]
        a = self.ev(e[2], env)
        if op in ('&&', '||', 'and', 'or'):
            if isinstance(a, (bool, int)) or a is None:
                if bool(a) == (op in ('||', 'or')):
                    return bool(a)
                return self.ev(e[3], env)
            return ('op', '&&' if op in ('&&', 'and') else '||', freeze(a), freeze(self.ev(e[3], env)))
        b = self.ev(e[3], env)
        if op == '+' and (isinstance(text(a), str) or isinstance(text(b), str) or (isinstance(text(a), tuple) and text(a)[0] == 'cat') or
                          (isinstance(text(b), tuple) and text(b)[0] == 'cat')):
            return Buf([text(a) if not isinstance(text(a), tuple) or text(a)[0] != 'cat' else Buf(text(a)[1:]),
                        text(b) if not isinstance(text(b), tuple) or text(b)[0] != 'cat' else Buf(text(b)[1:])])
        a, b = (a if isinstance(a, list) else text(a)), (b if isinstance(b, list) else text(b))
        if op == '*' and isinstance(a, list) and isinstance(b, int):
            return a * b
        num = lambda v: isinstance(v, (int, float))
        if op in ('==', '!=') and (isinstance(a, int) and b == ('end',) or a == ('end',) and isinstance(b, int) or a == b == ('end',)):
            return (a == b) == (op == '==')
        if op == '-' and isinstance(a, int) and isinstance(b, list):
            return a
        if op in ('==', 'is', '!=', 'is not'):
            yes = op in ('==', 'is')
            x, y = self.item(a), self.item(b)
            if (known(a) and known(b)) or (isinstance(a, tuple) and isinstance(b, tuple) and a[0] in ('v', 'attr') and b[0] in ('v', 'attr') and self.constant(a) and self.constant(b)):
                return (x == y) == yes
            return ('op', '==' if yes else '!=', freeze(a), freeze(b))
        if num(a) and num(b):
            try:
                r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
                     '>=': lambda: a >= b, '|': lambda: a | b, '&': lambda: a & b, '<<': lambda: a << b, '>>': lambda: a >> b}.get(op)
                if r:
                    return r()
            except TypeError:
                pass
        if op == '<<' and self.lang == 'cpp':
            return ('op', '<<', freeze(a), freeze(b))
        return ('op', op, freeze(a), freeze(b))

    @staticmethod
    def constant(v):
        return str(v[-1]).split('::')[-1].isupper()

    def e_cond(self, e, env):
        return self.ev(e[2] if self.truth(self.ev(e[1], env)) else e[3], env)

    def e_cast(self, e, env):
        v = self.ev(e[2], env)
        return v if known(v) or isinstance(v, Buf) else ('cast', e[1], freeze(v))

    def e_list(self, e, env):
        return [self.ev(x, env) for x in e[1]]

    def e_tuple(self, e, env):
        return [self.ev(x, env) for x in e[1]]

    def e_dict(self, e, env):
        return ('dict',) + tuple((freeze(self.ev(k, env)), freeze(self.ev(v, env))) for k, v in e[1])

    def e_fstr(self, e, env):
        return Buf([self.ev(x, env) for x in e[1]])

    def e_lambda(self, e, env):
        return ('lambda', tuple(e[1]), repr(e[2])) if self.lang == 'x' else ('lambda', e)

    def e_newarr(self, e, env):
        n = self.ev(e[2][0], env) if e[2] else None
        if e[3]:
            return [self.ev(x, env) for x in e[3][1]] if e[3][0] == 'list' else [self.ev(x, env) for x in e[3]]
        return [False] * n if isinstance(n, int) else ('newarr', freeze(n))

    def e_assign(self, e, env):
        op, target = e[1], e[2]
        v = self.ev(e[3], env)
        if op == '=':
            self.assign(target, Buf(v.parts) if isinstance(v, Buf) and self.lang == 'python' else v, env)
            return v
        old = self.ev(target, env)
        if op == '+=':
            if isinstance(old, Buf) and self.lang != 'python':
                old.add(text(v) if not isinstance(text(v), tuple) or text(v)[0] != 'cat' else Buf(text(v)[1:]))
                return old
            if isinstance(old, list) and isinstance(v, list):
                old.extend(v)
                return old
            if isinstance(old, (int, float)) and isinstance(v, (int, float)):
                v = old + v
            else:
                b = Buf([Buf(text(old)[1:]) if isinstance(text(old), tuple) and text(old)[0] == 'cat' else text(old)])
                b.add(Buf(text(v)[1:]) if isinstance(text(v), tuple) and text(v)[0] == 'cat' else text(v))
                v = b
            self.assign(target, v, env)
            return v
        r = ('op', op[:-1], freeze(old), freeze(v))
        self.assign(target, r, env)
        return r

    def e_new(self, e, env):
        args = [self.ev(a, env) for a in e[2]]
        ty = str(e[1])
        if 'StringBuilder' in ty:
            return Buf(args)
        if self.lang == 'cpp':
            if 'StringView' in ty:
                return args[0] if args else ''
            if 'string<' in ty:
                a = [x for x in args if isinstance(text(x), str) or (isinstance(text(x), tuple) and text(x)[0] in ('cat',))]
                return Buf(a[:1]) if a or not args or all(isinstance(x, tuple) for x in args[:1]) and len(args) == 1 and 'alloc' in repr(args[0]).lower() else \
                    (Buf([args[0]]) if args else Buf())
            if len(args) == 1 and known(args[0]):
                return args[0]
        r = ('new', ty) + tuple(freeze(a) for a in args)
        if len(e) > 4 and isinstance(e[4], dict):
            r = ('new', ty, ('class', e[4].get('q'))) + r[2:]
            self.local_definitions[e[4].get('q')] = e[4]
        return r

    def e_call(self, e, env):
        f = e[1]
        args = [self.ev(a, env) for a in e[2]]
        kw = {k: self.ev(v, env) for k, v in (e[3] or {}).items()} if len(e) > 3 and isinstance(e[3], dict) else {}
        if f[0] == 'attr':
            recv, name = self.ev(f[1], env), f[2]
        elif f[0] == 'name':
            recv, name = None, f[1]
            if name in env and isinstance(env[name], tuple) and env[name][0] == 'localdef':
                return ('call', name) + tuple(freeze(a) for a in args)
        else:
            recv, name = self.ev(f, env), '()'
        own = self.is_self(recv) or (recv is None and name in self.methods) or recv == ('v', self.cls.get('name'))
        if own and self.inline and name in self.methods:
            ms = [m for m in self.methods[name] if m.get('body') is not None and len(self.names(m)) == len(args) + len(kw)] or \
                 [m for m in self.methods[name] if m.get('body') is not None]
            if ms:
                ps = self.names(ms[0])
                full = args + [kw.get(p) for p in ps[len(args):] if p in kw]
                return self.invoke(ms[0], full)
        r = self.known_call(recv, name, args, kw)
        if r is not self.UNKNOWN:
            return r
        term = ('call', name, freeze(recv)) + tuple(freeze(a) for a in args) + tuple((k, freeze(v)) for k, v in sorted(kw.items()))
        self.events.append(term)
        return term

    UNKNOWN = object()

    def known_call(self, recv, name, args, kw):
        if isinstance(recv, Buf):
            if name in ('append', 'push_back') and args:
                a = text(args[0])
                recv.add(Buf(a[1:]) if isinstance(a, tuple) and a[0] == 'cat' else a)
                return recv
            if name in ('toString', 'c_str', 'to_string', 'data'):
                return recv
        if isinstance(text(recv), str):
            if name == 'join' and args and isinstance(args[0], list):
                b = Buf()
                for i, x in enumerate(args[0]):
                    if i:
                        b.add(text(recv))
                    b.add(text(x))
                return b
            if name in ('equals', 'compareTo') and args and isinstance(text(args[0]), str):
                return text(recv) == text(args[0])
            if name in ('data', 'c_str', 'toString', 'to_string'):
                return recv
            if name in ('empty', 'isEmpty'):
                return not text(recv)
            if name == 'size':
                return len(text(recv))
        if isinstance(recv, list):
            if name == 'append' and args:
                recv.append(args[0])
                return None
            if name == 'fill' and args:
                recv[:] = [args[0]] * len(recv)
                return None
            if name == 'size' and not args:
                return len(recv)
            if name == 'index' and args and text(args[0]) in recv:
                return recv.index(text(args[0]))
            if name in ('begin', 'cbegin', 'data'):
                return recv
            if name in ('end', 'cend'):
                return ('end',)
            if name == 'at' and args and isinstance(args[0], int):
                return self.e_idx(('idx', ('val', recv), ('val', args[0])), {})
            if name in ('empty', 'isEmpty'):
                return not recv
        if name == 'fill' and len(args) == 2 and isinstance(args[0], list):
            args[0][:] = [args[1]] * len(args[0])
            return None
        if name == 'find' and len(args) == 3 and isinstance(args[0], list) and args[1] == ('end',):
            return args[0].index(text(args[2])) if text(args[2]) in args[0] else ('end',)
        if name in ('makeStringView', 'move', 'string', 'forward') and args:
            return args[0]
        if name == 'asList':
            return list(args)
        if name == 'len' and args and isinstance(args[0], list):
            return len(args[0])
        if name == 'range' and args and all(isinstance(a, int) for a in args):
            return list(range(*args))
        if name == 'enumerate' and args and isinstance(args[0], list):
            return [[i, x] for i, x in enumerate(args[0])]
        return self.UNKNOWN
