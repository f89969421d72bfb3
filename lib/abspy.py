"""Abstract interpretation of Python sources over lib/absdom.py values (nothing is imported or executed)."""
import ast
import collections.abc
import os
import absdom as D
from absdom import Lost


class Raise(Exception):
    """The analysed code raises."""

    def __init__(self, what):
        self.what = what


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Opaque:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'opaque %s' % self.what


class Float:
    """A float known by its bit pattern (of a 32 or 64 bit float)."""

    def __init__(self, bits, width):
        self.bits, self.width = bits, width

    def __eq__(self, o):
        return isinstance(o, Float) and (self.bits, self.width) == (o.bits, o.width)

    def __hash__(self):
        return hash((self.bits, self.width))

    def __repr__(self):
        return 'float%d(%s)' % (self.width, self.bits)


class Text:
    """A string known by its UTF-8 bytes."""

    def __init__(self, data):
        self.data = list(data)

    def __eq__(self, o):
        return isinstance(o, Text) and self.data == o.data

    def __repr__(self):
        return 'text%r' % (self.data,)


class Seq:
    def __init__(self, kind, items):
        self.kind, self.items = kind, list(items)

    def __repr__(self):
        return '%s%r' % (self.kind, self.items)


class Obj:
    def __init__(self, cls):
        self.cls, self.f = cls, {}

    def __repr__(self):
        return '<%s>' % getattr(self.cls, 'name', self.cls)


class Func:
    def __init__(self, node, mod, cls=None, env=None):
        self.node, self.mod, self.cls, self.env = node, mod, cls, env
        self.decs = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Class:
    def __init__(self, name, mod):
        self.name, self.mod, self.bases, self.ns = name, mod, [], {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                out += [x for x in b.mro() if x not in out]
        return out

    def find(self, n):
        for k in self.mro():
            if n in k.ns:
                return k.ns[n]
        return None

    def isa(self, other):
        return other in self.mro()


class Module:
    def __init__(self, name):
        self.name, self.ns = name, {}


EXC = {'ValueError', 'IndexError', 'KeyError', 'TypeError', 'Exception', 'RuntimeError', 'OverflowError', 'StopIteration',
       'AttributeError', 'NotImplementedError', 'AssertionError', 'ZeroDivisionError', 'StopAsyncIteration', 'BaseException'}


TREES = {}  # syntax trees by file; never changed


class Interp:
    def __init__(self, root, limit=400000):
        """root: directory that holds the package sources."""
        self.root, self.mods, self.steps, self.limit = root, {}, 0, limit
        self.hooks = {'import_cpp_class': lambda a, k: None}
        self.depth = 0

    # -- modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        base = os.path.join(self.root, *name.split('.'))
        p = base + '.py' if os.path.isfile(base + '.py') else os.path.join(base, '__init__.py')
        if not os.path.isfile(p):
            m = self.mods[name] = Module(name)
            m.external = True
            return m
        m = self.mods[name] = Module(name)
        m.external = False
        tree = TREES.get(p)
        if tree is None:
            with open(p) as f:
                tree = TREES[p] = ast.parse(f.read())
        m.ns['__name__'] = name
        if name.endswith('__init__') or p.endswith('__init__.py'):
            return m
        self.body(tree.body, m.ns, m)
        return m

    # -- statements
    def body(self, stmts, env, mod):
        for s in stmts:
            self.st(s, env, mod)

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Lost('no end of the analysed code in %d steps' % self.limit)

    def st(self, s, env, mod):
        self.tick()
        t = type(s)
        if t is ast.Expr:
            self.ex(s.value, env, mod)
        elif t is ast.Assign:
            v = self.ex(s.value, env, mod)
            for x in s.targets:
                self.assign(x, v, env, mod)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ex(s.value, env, mod), env, mod)
        elif t is ast.AugAssign:
            old = self.ex(s.target, env, mod)
            v = self.ex(s.value, env, mod)
            if isinstance(old, Seq) and isinstance(s.op, ast.Add):
                if old.kind in ('list', 'bytearray'):
                    old.items.extend(self.iter(v))
                    self.assign(s.target, old, env, mod)
                    return
            self.assign(s.target, self.binop(s.op, old, v), env, mod)
        elif t is ast.If:
            self.body(s.body if self.truth(self.ex(s.test, env, mod)) else s.orelse, env, mod)
        elif t is ast.While:
            while self.truth(self.ex(s.test, env, mod)):
                self.tick()
                try:
                    self.body(s.body, env, mod)
                except Break:
                    return
                except Continue:
                    pass
            self.body(s.orelse, env, mod)
        elif t is ast.For:
            for x in self.iter(self.ex(s.iter, env, mod)):
                self.assign(s.target, x, env, mod)
                try:
                    self.body(s.body, env, mod)
                except Break:
                    return
                except Continue:
                    pass
            self.body(s.orelse, env, mod)
        elif t is ast.Return:
            raise Return(self.ex(s.value, env, mod) if s.value is not None else None)
        elif t is ast.Raise:
            raise Raise(self.exc_name(s.exc, env, mod))
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise Break()
        elif t is ast.Continue:
            raise Continue()
        elif t in (ast.FunctionDef,):
            env[s.name] = Func(s, mod, None, env if env is not mod.ns else None)
        elif t is ast.ClassDef:
            c = Class(s.name, mod)
            c.bases = [self.ex(b, env, mod) for b in s.bases]
            for x in s.body:
                if isinstance(x, ast.FunctionDef):
                    f = Func(x, mod, c)
                    n = x.name
                    if any(d.endswith('.setter') for d in f.decs):
                        n += '='
                    c.ns[n] = f
                elif isinstance(x, ast.ClassDef):
                    self.st(x, c.ns, mod)
                elif isinstance(x, (ast.Assign, ast.AnnAssign)):
                    e = dict(c.ns)
                    self.st(x, e, mod) if not (isinstance(x, ast.AnnAssign) and x.value is None) else None
                    for k, v in e.items():
                        c.ns[k] = v
            env[s.name] = c
        elif t is ast.ImportFrom:
            m = self.module(s.module or '')
            for a in s.names:
                if getattr(m, 'external', True):
                    env[a.asname or a.name] = Opaque('%s.%s' % (s.module, a.name))
                elif a.name in m.ns:
                    env[a.asname or a.name] = m.ns[a.name]
                else:
                    env[a.asname or a.name] = self.module(s.module + '.' + a.name)
        elif t is ast.Import:
            for a in s.names:
                m = self.module(a.name)
                if a.asname:
                    env[a.asname] = m
                else:
                    top = self.module(a.name.split('.')[0])
                    cur = top
                    for p in a.name.split('.')[1:]:
                        nxt = self.module(cur.name + '.' + p)
                        cur.ns[p] = nxt
                        cur = nxt
                    env[a.name.split('.')[0]] = top
        elif t is ast.Try:
            try:
                self.body(s.body, env, mod)
            except Raise as r:
                for h in s.handlers:
                    if h.type is None or self.catches(h.type, r.what, env, mod):
                        if h.name:
                            env[h.name] = Opaque('exception')
                        self.body(h.body, env, mod)
                        break
                else:
                    self.body(s.finalbody, env, mod)
                    raise
            else:
                self.body(s.orelse, env, mod)
            self.body(s.finalbody, env, mod)
        elif t is ast.Assert:
            pass
        elif t in (ast.Global, ast.Nonlocal):
            env.setdefault('__nonlocal__', set()).update(s.names)
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    o, i = self.ex(x.value, env, mod), self.ex(x.slice, env, mod)
                    if isinstance(o, dict):
                        o.pop(self.hashable(i))
                        continue
                    if isinstance(o, Seq):
                        del o.items[self.index(o, i)]
                        continue
                raise Lost('del')
        elif t is ast.With:
            for i in s.items:
                v = self.ex(i.context_expr, env, mod)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, mod)
            self.body(s.body, env, mod)
        else:
            raise Lost('statement %s' % t.__name__)

    def exc_name(self, e, env, mod):
        if e is None:
            return 'error'
        if isinstance(e, ast.Call):
            e = e.func
        return ast.unparse(e).split('.')[-1]

    def catches(self, e, what, env, mod):
        names = [ast.unparse(x).split('.')[-1] for x in (e.elts if isinstance(e, ast.Tuple) else [e])]
        if what in names or 'Exception' in names or 'BaseException' in names:
            return True
        for n in names:
            k = env.get(n) or mod.ns.get(n)
            w = mod.ns.get(what)
            if isinstance(k, Class) and isinstance(w, Class) and w.isa(k):
                return True
        return False

    def assign(self, x, v, env, mod):
        t = type(x)
        if t is ast.Name:
            if x.id in env.get('__nonlocal__', ()):
                e = env.get('__outer__')
                while e is not None and x.id not in e:
                    e = e.get('__outer__')
                (e if e is not None else mod.ns)[x.id] = v
            else:
                env[x.id] = v
        elif t is ast.Attribute:
            o = self.ex(x.value, env, mod)
            if isinstance(o, Obj):
                f = o.cls.find(x.attr + '=') if isinstance(o.cls, Class) else None
                if f is not None:
                    self.invoke(f, [o, v], {})
                    return
                o.f[x.attr] = v
            elif isinstance(o, (Class, Module)):
                o.ns[x.attr] = v
            elif isinstance(o, Opaque):
                pass
            else:
                raise Lost('assignment to attribute of %r' % (o,))
        elif t in (ast.Tuple, ast.List):
            vs = list(self.iter(v))
            if len(vs) != len(x.elts):
                raise Raise('ValueError')
            for a, b in zip(x.elts, vs):
                self.assign(a, b, env, mod)
        elif t is ast.Subscript:
            o = self.ex(x.value, env, mod)
            if isinstance(o, dict):
                o[self.hashable(self.ex(x.slice, env, mod))] = v
            elif isinstance(o, Seq):
                if isinstance(x.slice, ast.Slice):
                    sl = self.slice(x.slice, env, mod)
                    o.items[sl] = list(self.iter(v))
                else:
                    if o.kind in ('bytearray',):
                        v = self.byte(v)
                    o.items[self.index(o, self.ex(x.slice, env, mod))] = v
            else:
                raise Lost('assignment to element of %r' % (o,))
        elif t is ast.Starred:
            raise Lost('starred assignment')
        else:
            raise Lost('assignment to %s' % t.__name__)

    def byte(self, v):
        if self.truth(D.lt(v, 0)) or self.truth(D.lt(255, v)):
            raise Raise('ValueError')
        return v

    def index(self, o, i):
        i = D.known(i, 'index')
        if i < -len(o.items) or i >= len(o.items):
            raise Raise('IndexError')
        return i

    def slice(self, n, env, mod):
        def k(e):
            if e is None:
                return None
            v = self.ex(e, env, mod)
            return None if v is None else D.known(v, 'slice')
        return slice(k(n.lower), k(n.upper), k(n.step))

    def hashable(self, v):
        if isinstance(v, (str, bool, int, type(None))):
            return v
        if isinstance(v, Seq) and v.kind in ('tuple', 'bytes'):
            return (v.kind,) + tuple(self.hashable(x) for x in v.items)
        return v

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, str, dict)):
            return bool(v)
        if isinstance(v, Seq):
            return bool(v.items)
        if isinstance(v, Text):
            return bool(v.data)
        if isinstance(v, Obj):
            f = v.cls.find('__len__') if isinstance(v.cls, Class) else None
            return True if f is None else self.truth(self.invoke(f, [v], {}))
        if isinstance(v, (Func, Class, Bound, Module)):
            return True
        if isinstance(v, (Opaque, Float)):
            raise Lost('branch on %r' % (v,))
        return D.decide(v)

    def iter(self, v):
        if isinstance(v, Seq):
            return list(v.items) if v.kind != 'list' else v.items
        if isinstance(v, (list, range)):
            return v
        if isinstance(v, collections.abc.Iterator):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Text) and all(D.hi(x) < 128 for x in v.data):
            return [Text([x]) for x in v.data]
        raise Lost('iteration over %r' % (v,))

    # -- expressions
    def ex(self, e, env, mod):
        self.tick()
        t = type(e)
        if t is ast.Constant:
            if isinstance(e.value, bytes):
                return Seq('bytes', e.value)
            if isinstance(e.value, float):
                import struct
                return Float(struct.unpack('>Q', struct.pack('>d', e.value))[0], 64)
            return e.value
        if t is ast.Name:
            return self.name(e.id, env, mod)
        if t is ast.Attribute:
            return self.attr(self.ex(e.value, env, mod), e.attr)
        if t is ast.BinOp:
            return self.binop(e.op, self.ex(e.left, env, mod), self.ex(e.right, env, mod))
        if t is ast.BoolOp:
            v = None
            for x in e.values:
                v = self.ex(x, env, mod)
                if self.truth(v) == isinstance(e.op, ast.Or):
                    return v
            return v
        if t is ast.UnaryOp:
            v = self.ex(e.operand, env, mod)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(v, Float) and isinstance(e.op, ast.USub):
                return Float(D.bxor(v.bits, 1 << (v.width - 1)), v.width)
            return {ast.USub: D.neg, ast.Invert: D.bnot, ast.UAdd: lambda x: x}[type(e.op)](v)
        if t is ast.Compare:
            l = self.ex(e.left, env, mod)
            for o, r in zip(e.ops, e.comparators):
                r = self.ex(r, env, mod)
                if not self.compare(o, l, r):
                    return False
                l = r
            return True
        if t is ast.IfExp:
            return self.ex(e.body if self.truth(self.ex(e.test, env, mod)) else e.orelse, env, mod)
        if t is ast.Call:
            f = self.ex(e.func, env, mod)
            args = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    args += list(self.iter(self.ex(a.value, env, mod)))
                else:
                    args.append(self.ex(a, env, mod))
            kw = {}
            for k in e.keywords:
                if k.arg is None:
                    kw.update(self.ex(k.value, env, mod))
                else:
                    kw[k.arg] = self.ex(k.value, env, mod)
            return self.apply(f, args, kw)
        if t is ast.Subscript:
            o = self.ex(e.value, env, mod)
            if isinstance(o, Opaque):
                return Opaque('element')
            if isinstance(o, Class) or callable(o):
                return o
            if isinstance(e.slice, ast.Slice):
                s = self.slice(e.slice, env, mod)
                if isinstance(o, Seq):
                    return Seq(o.kind, o.items[s])
                if isinstance(o, str):
                    return o[s]
                raise Lost('slice of %r' % (o,))
            i = self.ex(e.slice, env, mod)
            if isinstance(o, dict):
                k = self.hashable(i)
                if k not in o:
                    raise Raise('KeyError')
                return o[k]
            if isinstance(o, Seq):
                return o.items[self.index(o, i)]
            if isinstance(o, str):
                return o[D.known(i, 'index')]
            raise Lost('element of %r' % (o,))
        if t is ast.List:
            return Seq('list', [self.ex(x, env, mod) for x in e.elts])
        if t is ast.Tuple:
            return Seq('tuple', [self.ex(x, env, mod) for x in e.elts])
        if t is ast.Dict:
            return {self.hashable(self.ex(k, env, mod)): self.ex(v, env, mod) for k, v in zip(e.keys, e.values)}
        if t is ast.Set:
            return Seq('set', [self.ex(x, env, mod) for x in e.elts])
        if t is ast.JoinedStr:
            return 'formatted'
        if t is ast.GeneratorExp:
            return self.generate(e, env, mod)
        if t in (ast.ListComp, ast.SetComp):
            return Seq('list', self.generate(e, env, mod))
        if t is ast.Lambda:
            return Func(e, mod, None, env)
        if t is ast.NamedExpr:
            v = self.ex(e.value, env, mod)
            self.assign(e.target, v, env, mod)
            return v
        raise Lost('expression %s' % t.__name__)

    def generate(self, e, env, mod):
        def go(gens, en):
            if not gens:
                yield self.ex(e.elt, en, mod)
                return
            g = gens[0]
            for x in list(self.iter(self.ex(g.iter, en, mod))):
                self.assign(g.target, x, en, mod)
                if all(self.truth(self.ex(c, en, mod)) for c in g.ifs):
                    yield from go(gens[1:], en)
        return go(e.generators, {'__outer__': env})

    def name(self, n, env, mod):
        e = env
        while e is not None:
            if n in e:
                return e[n]
            e = e.get('__outer__')
        if n in mod.ns:
            return mod.ns[n]
        f = getattr(self, 'bi_' + n, None)
        if f is not None:
            return f
        if n in EXC:
            return Opaque('exception ' + n)
        if n in ('object', 'property', 'classmethod', 'staticmethod', 'str', 'float', 'set', 'super', 'NotImplemented', '__name__', 'type', 'dict'):
            return Opaque(n)
        raise Lost('name %s' % n)

    def attr(self, o, n):
        if isinstance(o, Obj):
            if n in o.f:
                return o.f[n]
            f = o.cls.find(n) if isinstance(o.cls, Class) else None
            if f is None:
                raise Raise('AttributeError') if isinstance(o.cls, Class) else Lost('attribute %s of %r' % (n, o))
            if isinstance(f, Func):
                if 'property' in f.decs:
                    return self.invoke(f, [o], {})
                if 'staticmethod' in f.decs:
                    return f
                return Bound(f, o.cls if 'classmethod' in f.decs else o)
            return f
        if isinstance(o, Class):
            f = o.find(n)
            if f is None:
                raise Lost('attribute %s of class %s' % (n, o.name))
            if isinstance(f, Func) and 'classmethod' in f.decs:
                return Bound(f, o)
            return f
        if isinstance(o, Module):
            if n in o.ns:
                return o.ns[n]
            if getattr(o, 'external', False):
                return Opaque('%s.%s' % (o.name, n))
            raise Lost('name %s of module %s' % (n, o.name))
        if isinstance(o, Opaque):
            return Opaque('%s.%s' % (o.what, n))
        return ('method', o, n)

    def compare(self, op, a, b):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = a is b or (isinstance(a, (bool, int, str)) and type(a) is type(b) and a == b)
            return r == (t is ast.Is)
        if t in (ast.In, ast.NotIn):
            if isinstance(b, dict):
                r = self.hashable(a) in b
            else:
                r = any(self.equal(a, x) for x in self.iter(b))
            return r == (t is ast.In)
        if t in (ast.Eq, ast.NotEq):
            return self.equal(a, b) == (t is ast.Eq)
        for x in (a, b):
            if isinstance(x, (Opaque, Float)) or x is None:
                raise Lost('comparison of %r and %r' % (a, b))
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
        if t is ast.Lt:
            return self.truth(D.lt(a, b))
        if t is ast.Gt:
            return self.truth(D.lt(b, a))
        if t is ast.LtE:
            return not self.truth(D.lt(b, a))
        return not self.truth(D.lt(a, b))

    def equal(self, a, b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b if a is None or b is None else isinstance(a, str) and isinstance(b, str) and a == b
        if isinstance(a, Seq) and isinstance(b, Seq):
            return len(a.items) == len(b.items) and all(self.equal(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (Obj, Class)) or isinstance(b, (Obj, Class)):
            f = a.cls.find('__eq__') if isinstance(a, Obj) and isinstance(a.cls, Class) else None
            return a is b if f is None else self.truth(self.invoke(f, [a, b], {}))
        if isinstance(a, Text) and isinstance(b, Text):
            return len(a.data) == len(b.data) and all(self.equal(x, y) for x, y in zip(a.data, b.data))
        if isinstance(a, Float) and isinstance(b, Float) and a.width == b.width and all(
                isinstance(x.bits, int) and 0 < x.bits < 0x7f << (x.width - 8) for x in (a, b)):
            return a.bits == b.bits
        if isinstance(a, (Opaque, Float)) or isinstance(b, (Opaque, Float)):
            raise Lost('comparison of %r and %r' % (a, b))
        return self.truth(D.eq(int(a) if isinstance(a, bool) else a, int(b) if isinstance(b, bool) else b))

    def binop(self, op, a, b):
        t = type(op)
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, str) and isinstance(b, str) and t is ast.Add:
                return a + b
            if isinstance(a, str) and t is ast.Mod:
                return 'formatted'
            return Opaque('value')
        if isinstance(a, Seq):
            if t is ast.Add:
                return Seq(a.kind, list(a.items) + list(self.iter(b)))
            if t is ast.Mult:
                return Seq(a.kind, a.items * D.known(b, 'repetition'))
        if isinstance(a, Float) or isinstance(b, Float):
            return Opaque('float arithmetic')
        if a is None or b is None:
            raise Raise('TypeError')
        f = {ast.Add: D.add, ast.Sub: D.sub, ast.Mult: D.mul, ast.FloorDiv: D.floordiv, ast.Mod: D.floormod, ast.LShift: D.shl,
             ast.RShift: D.shr, ast.BitAnd: D.band, ast.BitOr: D.bor, ast.BitXor: D.bxor}.get(t)
        if f is None:
            if t is ast.Pow:
                a, b = D.known(a, 'power'), D.known(b, 'power')
                return a ** b
            raise Lost('operator %s' % t.__name__)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        return f(a, b)

    # -- calls
    def apply(self, f, args, kw):
        if isinstance(f, Bound):
            return self.apply_func(f.f, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.apply_func(f, args, kw)
        if isinstance(f, Class):
            if f.name in self.hooks:
                return self.hooks[f.name](args, kw)
            if any(isinstance(b, Opaque) and b.what.startswith('exception') for k in f.mro() for b in k.bases):
                return Opaque('exception ' + f.name)
            o = Obj(f)
            i = f.find('__init__')
            if i is not None:
                self.invoke(i, [o] + args, kw)
            return o
        if isinstance(f, tuple) and f[0] == 'method':
            return self.method(f[1], f[2], args, kw)
        if isinstance(f, Opaque):
            return self.external(f.what, args, kw)
        if callable(f):
            return f(*args, **kw)
        raise Lost('call of %r' % (f,))

    def apply_func(self, f, args, kw):
        n = getattr(f.node, 'name', None)
        q = '%s.%s' % (f.cls.name, n) if f.cls else n
        if q in self.hooks:
            return self.hooks[q](args, kw)
        return self.invoke(f, args, kw)

    def invoke(self, f, args, kw):
        a = f.node.args
        env = {'__outer__': f.env} if f.env is not None else {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and a.vararg is None:
            raise Raise('TypeError')
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Seq('tuple', args[len(names):])
        kw = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.ex(d, f.mod.ns, f.mod)
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg not in env and d is not None:
                env[n.arg] = self.ex(d, f.mod.ns, f.mod)
        if a.kwarg is not None:
            env[a.kwarg.arg] = kw
        elif kw:
            raise Raise('TypeError')
        for n in names:
            if n not in env:
                raise Raise('TypeError')
        self.depth += 1
        if self.depth > 80:
            raise Lost('recursion')
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ex(f.node.body, env, f.mod)
            self.body(f.node.body, env, f.mod)
        except Return as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def method(self, o, n, args, kw):
        if isinstance(o, Seq):
            if n == 'append':
                o.items.append(self.byte(args[0]) if o.kind == 'bytearray' else args[0])
                return None
            if n == 'extend':
                o.items.extend(list(self.iter(args[0])))
                return None
            if n == 'pop':
                return o.items.pop(*[D.known(x, 'index') for x in args])
            if n == 'clear':
                o.items.clear()
                return None
            if n == 'insert':
                o.items.insert(D.known(args[0], 'index'), args[1])
                return None
            if n == 'decode':
                return Text(o.items)
            if n in ('tobytes', 'copy'):
                return Seq('bytes' if n == 'tobytes' else o.kind, o.items)
            if n == 'reverse':
                o.items.reverse()
                return None
        if isinstance(o, Text) and n == 'encode':
            return Seq('bytes', o.data)
        if isinstance(o, dict):
            if n == 'get':
                return o.get(self.hashable(args[0]), args[1] if len(args) > 1 else None)
            if n == 'items':
                return [Seq('tuple', kv) for kv in o.items()]
            if n == 'keys':
                return list(o.keys())
            if n == 'values':
                return list(o.values())
        if isinstance(o, str):
            if n in ('format', 'join'):
                return 'formatted'
            if n == 'encode':
                return Seq('bytes', o.encode())
            if n in ('startswith', 'endswith', 'lower', 'upper', 'strip', 'isdigit', 'split', 'find', 'rfind', 'replace'):
                r = getattr(o, n)(*args)
                return Seq('list', r) if isinstance(r, list) else r
        if n == 'to_bytes' and not isinstance(o, (Seq, Obj)):
            length = D.known(args[0] if args else kw['length'], 'number of bytes')
            order = args[1] if len(args) > 1 else kw['byteorder']
            signed = self.truth(kw.get('signed', False))
            b = 8 * length
            l, h = (-(1 << (b - 1)) if b else 0, (1 << (b - 1)) - 1 if b else 0) if signed else (0, (1 << b) - 1)
            if self.truth(D.lt(o, l)) or self.truth(D.lt(h, o)):
                raise Raise('OverflowError')
            v = D.vec(o, b)
            out = [D.mk(v[i:i + 8]) for i in range(0, b, 8)]
            return Seq('bytes', out[::-1] if order == 'big' else out)
        if n == 'bit_length' and not isinstance(o, (Seq, Obj)):
            k = 0
            m = D.neg(o) if self.truth(D.lt(o, 0)) else o
            while not self.truth(D.lt(m, 1 << k)):
                k += 1
            return k
        if n == 'from_bytes':
            data = list(self.iter(args[0]))
            order = args[1] if len(args) > 1 else kw['byteorder']
            if order == 'big':
                data = data[::-1]
            bits = []
            for x in data:
                bits += D.vec(x, 8)
            if self.truth(kw.get('signed', False)) and bits:
                return D.mk(bits[:-1], bits[-1])
            return D.mk(bits)
        raise Lost('method %s of %r' % (n, o))

    def external(self, what, args, kw):
        if what == 'staticmethod':
            return lambda *a, **k: self.apply(args[0], list(a), k)
        if what == 'typing.cast':
            return args[1]
        if what == 'functools.reduce':
            it = self.lazily(args[1])
            r = args[2] if len(args) > 2 else self.bi_next(it)
            for x in it:
                r = self.apply(args[0], [r, x], {})
            return r
        if what in ('struct.pack', 'struct.unpack'):
            f = args[0]
            w = {'f': 32, 'd': 64, 'I': 32, 'Q': 64, 'L': 32, 'i': 32, 'q': 64, 'H': 16, 'h': 16}.get(f.lstrip('<>=!'))
            if not isinstance(f, str) or w is None:
                raise Lost('struct format %r' % (f,))
            big = f[0] in '>!'
            if what == 'struct.pack':
                x = args[1]
                if f[-1] in 'fd':
                    if not isinstance(x, Float):
                        raise Lost('float conversion')
                    x = convert(x, w)
                v = D.vec(x, w)
                out = [D.mk(v[i:i + 8]) for i in range(0, w, 8)]
                return Seq('bytes', out[::-1] if big else out)
            data = list(self.iter(args[1]))
            if len(data) * 8 != w:
                raise Raise('error')
            if big:
                data = data[::-1]
            bits = []
            for x in data:
                bits += D.vec(x, 8)
            if f[-1] in 'fd':
                return Seq('tuple', [Float(D.mk(bits), w)])
            return Seq('tuple', [D.mk(bits[:-1], bits[-1]) if f[-1] in 'iqh' else D.mk(bits)])
        if what == 'enum.Enum' or what.startswith('typing.') or what == 'property':
            return Opaque(what)
        if what == 'str':
            return 'formatted'
        if what == 'float':
            return args[0] if isinstance(args[0], Float) else Opaque('float')
        if what == 'dict':
            return {}
        return Opaque('result of ' + what)

    # -- builtins
    def bi_len(self, v):
        if isinstance(v, Text):
            return Opaque('number of characters')
        if isinstance(v, Obj):
            return self.invoke(v.cls.find('__len__'), [v], {})
        return len(v) if isinstance(v, (str, dict)) else len(self.iter(v))

    def bi_range(self, *a):
        return range(*[D.known(x, 'range') for x in a])

    class bi_int:
        def __new__(cls, v=0, *a):
            return int(v) if isinstance(v, bool) else v
        from_bytes = None

    def bi_bool(self, v=False):
        return self.truth(v)

    def bi_abs(self, v):
        return D.neg(v) if self.truth(D.lt(v, 0)) else v

    def bi_min(self, *a, **k):
        a = list(self.iter(a[0])) if len(a) == 1 else list(a)
        r = a[0]
        for x in a[1:]:
            if self.truth(D.lt(x, r)):
                r = x
        return r

    def bi_max(self, *a, **k):
        a = list(self.iter(a[0])) if len(a) == 1 else list(a)
        r = a[0]
        for x in a[1:]:
            if self.truth(D.lt(r, x)):
                r = x
        return r

    def bi_sum(self, a, start=0):
        for x in self.iter(a):
            start = D.add(start, x)
        return start

    def bi_isinstance(self, v, k):
        ks = k.items if isinstance(k, Seq) else [k]
        for c in ks:
            if isinstance(c, Class) and isinstance(v, Obj) and isinstance(v.cls, Class) and v.cls.isa(c):
                return True
            if c is Interp.bi_int and (isinstance(v, int) or isinstance(v, D.Val)):
                return True
            if isinstance(c, Opaque) and c.what == 'str' and isinstance(v, (str, Text)):
                return True
            if isinstance(c, Opaque) and c.what == 'float' and isinstance(v, Float):
                return True
        return False

    def bi_bytes(self, *a):
        return Seq('bytes', self.raw(a))

    def bi_bytearray(self, *a):
        return Seq('bytearray', self.raw(a))

    def bi_memoryview(self, v):
        return v

    def raw(self, a):
        if not a:
            return []
        if isinstance(a[0], Seq):
            return a[0].items
        return [0] * D.known(a[0], 'length')

    def bi_list(self, v=None):
        return Seq('list', [] if v is None else self.iter(v))

    def bi_tuple(self, v=None):
        return Seq('tuple', [] if v is None else self.iter(v))

    def bi_enumerate(self, v, start=0):
        return [Seq('tuple', (i + start, x)) for i, x in enumerate(self.iter(v))]

    def bi_zip(self, *a):
        return [Seq('tuple', x) for x in zip(*[self.iter(v) for v in a])]

    def bi_reversed(self, v):
        return list(self.iter(v))[::-1]

    def lazily(self, v):
        return v if isinstance(v, collections.abc.Iterator) else iter(self.iter(v))

    def bi_all(self, v):
        return all(self.truth(x) for x in self.lazily(v))

    def bi_any(self, v):
        return any(self.truth(x) for x in self.lazily(v))

    def bi_iter(self, v):
        return self.lazily(v)

    def bi_next(self, v, *d):
        for x in v:
            return x
        if d:
            return d[0]
        raise Raise('StopIteration')

    def bi_map(self, f, *a):
        return (self.apply(f, list(x), {}) for x in zip(*[self.lazily(v) for v in a]))

    def bi_filter(self, f, v):
        return (x for x in self.lazily(v) if self.truth(x if f is None else self.apply(f, [x], {})))

    def bi_pow(self, a, b, *m):
        a, b = D.known(a, 'base'), D.known(b, 'exponent')
        return pow(a, b, *[D.known(x, 'modulus') for x in m])

    def bi_sorted(self, v, **k):
        return Seq('list', sorted((D.known(x, 'order') for x in self.iter(v)), reverse=bool(k.get('reverse', False))))

    def bi_bin(self, v):
        return bin(D.known(v, 'digits'))

    def bi_ord(self, v):
        if isinstance(v, Text) and len(v.data) == 1 and D.hi(v.data[0]) < 128:
            return v.data[0]
        return ord(v)

    def bi_chr(self, v):
        return chr(D.known(v, 'character'))

    def bi_divmod(self, a, b):
        return Seq('tuple', (D.floordiv(a, b), D.floormod(a, b)))

    def bi_getattr(self, o, n, *d):
        return self.attr(o, n)

    def bi_id(self, o):
        return Opaque('identity')

    def bi_print(self, *a, **k):
        return None


def convert(x, w):
    """Bits of float x as a float of w bits."""
    if x.width == w:
        return x.bits
    if isinstance(x.bits, int):
        import struct
        d = struct.unpack('>d' if x.width == 64 else '>f', x.bits.to_bytes(x.width // 8, 'big'))[0]
        return int.from_bytes(struct.pack('>f' if w == 32 else '>d', d), 'big')
    if x.width == 32 and w == 64:
        return Wide(x.bits)
    if isinstance(x.bits, Wide) and w == 32:
        return x.bits.f32
    raise Lost('conversion of %r to %d bits' % (x, w))


class Wide:
    """64-bit pattern of a float that came from 32 bits."""

    def __init__(self, f32):
        self.f32 = f32

