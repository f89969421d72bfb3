"""Name resolution of generated Python modules: scopes, dotted names, attributes of self, call signatures, import order."""
import ast
import builtins
import functools
import os
import sys

BUILTINS = set(dir(builtins)) | {'__name__', '__file__', '__doc__', '__spec__', '__package__', '__annotations__'}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


class Module:
    def __init__(self, name, path, generated):
        self.name, self.path, self.generated = name, path, generated
        with open(path, encoding='utf8') as f:
            self.tree = ast.parse(f.read(), path)
        self.future = any(isinstance(s, ast.ImportFrom) and s.module == '__future__' and any(a.name == 'annotations' for a in s.names)
                          for s in self.tree.body)
        self.names = {}
        self.imports = []
        self.star = []
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                self.imports += [a.name for a in n.names]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                self.imports += [n.module] + ['%s.%s' % (n.module, a.name) for a in n.names]
        bind(self.tree.body, self.names)


class Ext:
    """Something outside the analysed sources."""


EXT = Ext()


def targets(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name):
            yield n.id


def bind(body, names):
    """What a block binds: name -> defining statement (or ('module', dotted) / ('from', module, name) for imports)."""
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.setdefault(s.name, []).append(s)
        elif isinstance(s, ast.Import):
            for a in s.names:
                names.setdefault(a.asname or a.name.split('.')[0], []).append(('module', a.name if a.asname else a.name.split('.')[0]))
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                names.setdefault(a.asname or a.name, []).append(('from', s.module, a.name))
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                for i in targets(t):
                    names.setdefault(i, []).append(s)
        elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
            if not isinstance(s, ast.AnnAssign) or s.value is not None:
                for i in targets(s.target):
                    names.setdefault(i, []).append(s)
        elif isinstance(s, ast.For):
            for i in targets(s.target):
                names.setdefault(i, []).append(s)
        elif isinstance(s, ast.With):
            for i in s.items:
                if i.optional_vars is not None:
                    for k in targets(i.optional_vars):
                        names.setdefault(k, []).append(s)
        elif isinstance(s, ast.Try):
            for h in s.handlers:
                if h.name:
                    names.setdefault(h.name, []).append(s)
                bind(h.body, names)
            bind(s.finalbody, names)
        for part in ('body', 'orelse'):
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and getattr(s, part, None):
                bind(getattr(s, part), names)
        for n in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else ():
            if isinstance(n, ast.NamedExpr):
                names.setdefault(n.target.id, []).append(s)


class World:
    """The generated modules and the runtime they use."""

    def __init__(self, roots):
        """roots: [(directory, generated)]"""
        self.mods = {}
        self.dirs = set()
        for root, generated in roots:
            for d, _, fs in os.walk(root):
                for f in sorted(fs):
                    if not f.endswith('.py'):
                        continue
                    rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.mods[rel] = Module(rel, os.path.join(d, f), generated)
                    p = rel
                    while '.' in p:
                        p = p.rsplit('.', 1)[0]
                        self.dirs.add(p)
        self.stdlib = set(sys.stdlib_module_names)
        self.closure_cache = {}
        self.uses_cache = {}
        self.member_cache = {}

    def known(self, name):
        return name in self.mods or name in self.dirs

    def closure(self, m):
        """All modules that are loaded once m is."""
        if m.name in self.closure_cache:
            return self.closure_cache[m.name]
        seen, todo = set(), [m.name]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            parts = x.split('.')
            todo += ['.'.join(parts[:i]) for i in range(1, len(parts))]
            if x in self.mods:
                todo += [i for i in self.mods[x].imports if self.known(i)]
        self.closure_cache[m.name] = seen
        return seen

    # -- what a name means

    def member(self, m, name, depth=0):
        """The binding of a name at the top of a module: ('def', module, node), ('value', module, node), ('module', name), EXT or None."""
        k = (m.name, name)
        if k not in self.member_cache:
            self.member_cache[k] = self.find_member(m, name, depth)
        return self.member_cache[k]

    def find_member(self, m, name, depth):
        if depth > 12:
            return EXT
        bs = m.names.get(name)
        if bs:
            b = bs[-1]
            if isinstance(b, tuple):
                if b[0] == 'module':
                    return ('module', b[1]) if self.known(b[1]) else EXT
                src = b[1]
                if src in self.mods:
                    if b[2] == '*':
                        return EXT
                    r = self.member(self.mods[src], b[2], depth + 1)
                    return r if r is not None else (('module', src + '.' + b[2]) if self.known(src + '.' + b[2]) else None)
                return ('module', src + '.' + b[2]) if src and self.known(src + '.' + b[2]) else EXT
            return ('def', m, b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else ('value', m, b)
        if '*' in m.names:
            for b in m.names['*']:
                if b[1] in self.mods:
                    r = self.member(self.mods[b[1]], name, depth + 1)
                    if r is not None:
                        return r
                else:
                    return EXT
        return None

    def attribute(self, r, name, m):
        """The attribute `name` of what r denotes, as code of module m sees it; None when it does not exist."""
        if r is EXT or r is None or r[0] == 'value':
            return EXT
        if r[0] == 'module':
            sub = r[1] + '.' + name
            if r[1] in self.mods:
                x = self.member(self.mods[r[1]], name)
                if x is not None:
                    return x
            if self.known(sub):
                return ('module', sub) if sub in self.closure(m) else None
            return None
        node = r[2]
        if isinstance(node, ast.ClassDef):
            return self.class_attribute(r[1], node, name)
        return EXT

    def bases(self, m, cls):
        out = []
        for b in cls.bases:
            d = dotted(b)
            r = self.lookup(m, d[0]) if d else EXT
            for x in (d or [None])[1:]:
                r = self.attribute(r, x, m) if r is not None else None
            out.append(r if r is not None else EXT)
        return out

    def lookup(self, m, name):
        r = self.member(m, name)
        if r is None and name in BUILTINS:
            return EXT
        return r

    def class_attribute(self, m, cls, name, depth=0):
        names = class_names(cls)
        if name in names:
            b = names[name][-1]
            return ('def', m, b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else ('value', m, b)
        if name in instance_attributes(cls):
            return ('value', m, cls)
        if name.startswith('__') and name.endswith('__'):
            return EXT
        for r in self.bases(m, cls):
            if r is EXT or r[0] != 'def' or not isinstance(r[2], ast.ClassDef):
                return EXT
            x = self.class_attribute(r[1], r[2], name, depth + 1)
            if x is not None:
                return x
        return None


def dotted(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return [e.id] + out[::-1]
    return None


def is_static(f):
    return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)


def is_classmethod(f):
    return any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in f.decorator_list)


def is_property(f):
    return any((isinstance(d, ast.Name) and d.id == 'property') or isinstance(d, ast.Attribute) for d in f.decorator_list)


@functools.lru_cache(None)
def class_names(cls):
    names = {}
    bind(cls.body, names)
    return names


@functools.lru_cache(None)
def instance_attributes(cls):
    """The attributes that the methods of a class assign to their instance (self, or the instance a class method makes)."""
    out = set()
    for f in cls.body:
        if not isinstance(f, ast.FunctionDef):
            continue
        own = set()
        if f.args.args and not is_static(f):
            own.add(f.args.args[0].arg)
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                d = dotted(n.value.func)
                if d and d[-1] in ('__new__', 'cls', cls.name):
                    own.add(n.targets[0].id)
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in own:
                out.add(n.attr)
    return out


def local_names(f):
    """The names a function binds itself."""
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    out |= {x.arg for x in (a.vararg, a.kwarg) if x}
    if isinstance(f, ast.Lambda):
        return out
    names = {}
    bind(f.body, names)
    out |= set(names)
    glob = {n for s in ast.walk(f) if isinstance(s, ast.Global) for n in s.names}
    return out - glob


class Uses(ast.NodeVisitor):
    """Calls found(node, scopes, selfs) for every name, dotted name and call of a module; scopes is the list of enclosing binders."""

    def __init__(self, world, m, found):
        self.w, self.m, self.found = world, m, found
        self.scopes = []
        self.classes = []
        self.ann = 0

    def local(self, name):
        """The innermost binder of a name, None when it is global."""
        for i in range(len(self.scopes) - 1, -1, -1):
            kind, names = self.scopes[i]
            if name in names and (kind != 'class' or i == len(self.scopes) - 1):
                return kind
        return None

    def visit_ClassDef(self, n):
        for x in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(x)
        names = {}
        bind(n.body, names)
        self.scopes.append(('class', set(names)))
        self.classes.append((n, None))
        for s in n.body:
            self.visit(s)
        self.classes.pop()
        self.scopes.pop()

    def annotation(self, x):
        if x is None:
            return
        self.ann += 1
        for y in ast.walk(x):
            if isinstance(y, ast.Constant) and isinstance(y.value, str) and not isinstance(x, ast.Constant):
                pass
        self.visit(x)
        self.ann -= 1

    def visit_FunctionDef(self, n):
        for x in n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(x)
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            self.annotation(a.annotation)
        self.annotation(n.returns)
        self.scopes.append(('function', local_names(n)))
        top = self.classes[-1] if self.classes else None
        if top and top[1] is None and self.scopes[-2][0] == 'class' and not is_static(n) and n.args.args:
            self.classes.append((top[0], (n.args.args[0].arg, is_classmethod(n))))
        elif top and top[1] is not None and top[1][0] in local_names(n):
            self.classes.append((top[0], ('', False)))
        else:
            self.classes.append(top or (None, ('', False)))
        for s in n.body:
            self.visit(s)
        self.classes.pop()
        self.scopes.pop()

    def visit_Lambda(self, n):
        for x in n.args.defaults:
            self.visit(x)
        names = local_names(n)
        self.scopes.append(('function', names))
        top = self.classes[-1] if self.classes else (None, ('', False))
        self.classes.append((top[0], ('', False)) if top[1] and top[1][0] in names else top)
        self.visit(n.body)
        self.classes.pop()
        self.scopes.pop()

    def comp(self, n):
        names = {i for g in n.generators for i in targets(g.target)}
        self.scopes.append(('function', names))
        self.generic_visit(n)
        self.scopes.pop()
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_AnnAssign(self, n):
        self.annotation(n.annotation)
        self.visit(n.target)
        if n.value is not None:
            self.visit(n.value)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.found(self, n, [n.id])

    def visit_Attribute(self, n):
        d = dotted(n)
        if d:
            self.found(self, n, d)
        else:
            self.visit(n.value)

    def visit_Call(self, n):
        for x in [n.func] + n.args + [k.value for k in n.keywords]:
            self.visit(x.value if isinstance(x, ast.Starred) else x)
        d = dotted(n.func)
        if d:
            self.found(self, n, d)

    def owner(self):
        return self.classes[-1] if self.classes else (None, ('', False))

    def denotes(self, d):
        """(what the dotted name denotes, how many parts were resolved); None when a part does not exist."""
        cls, first = self.owner()
        kind = self.local(d[0])
        start = 1
        if kind is not None:
            if cls is None or first is None or not first[0] or d[0] != first[0]:
                return EXT, len(d)
            if len(d) == 1:
                return ('def', self.m, cls), 1
            r = ('def', self.m, cls)
        else:
            r = self.w.lookup(self.m, d[0])
            if r is None:
                return None, 0
        for i in range(start, len(d)):
            r = self.w.attribute(r, d[i], self.m)
            if r is None:
                return None, i
        return r, len(d)


def signature_problem(call, f, skip):
    """Why the arguments of a call do not fit the function, None when they do."""
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if len(call.args) > len(pos) and not a.vararg:
        return '%d positional arguments for %d parameters' % (len(call.args), len(pos))
    given = set(pos[:len(call.args)])
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return 'two values for the parameter %s' % k.arg
        if k.arg not in pos and k.arg not in kwonly and not a.kwarg:
            return 'no parameter %s' % k.arg
        given.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    need = need + [x for x, d in zip(kwonly, a.kw_defaults) if d is None]
    missing = [x for x in need if x not in given]
    return 'no value for the parameter%s %s' % ('s' if len(missing) > 1 else '', ', '.join(missing)) if missing else None


# ---------------------------------------------------------------- import order

class Importing:
    """Executes the import time code of the modules in the order Python does, noting what is bound when a name is used."""

    def __init__(self, world, problem, use):
        self.w, self.problem, self.use = world, problem, use
        self.state = {}

    def load(self, name):
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            p = '.'.join(parts[:i])
            if p in self.state or not self.w.known(p):
                continue
            self.state[p] = {}
            if p in self.w.mods and self.w.mods[p].generated:
                self.body(self.w.mods[p], self.w.mods[p].tree.body, self.state[p])
            if i > 1:
                self.state.setdefault('.'.join(parts[:i - 1]), {})[parts[i - 1]] = True

    def body(self, m, body, names):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.load(a.name)
                    names[a.asname or a.name.split('.')[0]] = True
            elif isinstance(s, ast.ImportFrom):
                if s.module and self.w.known(s.module):
                    self.load(s.module)
                for a in s.names:
                    if s.module in self.w.mods and self.w.mods[s.module].generated:
                        self.use(m, s)
                        if a.name not in self.state[s.module]:
                            if self.w.known(s.module + '.' + a.name):
                                self.load(s.module + '.' + a.name)
                            else:
                                self.problem(m, s, '%s.%s is not bound yet when it is imported' % (s.module, a.name))
                    names[a.asname or a.name] = True
            elif isinstance(s, ast.FunctionDef):
                for e in s.decorator_list + s.args.defaults + [d for d in s.args.kw_defaults if d]:
                    self.uses(m, e)
                if not m.future:
                    for a in s.args.args + s.args.kwonlyargs:
                        if a.annotation is not None:
                            self.uses(m, a.annotation)
                    if s.returns is not None:
                        self.uses(m, s.returns)
                names[s.name] = True
            elif isinstance(s, ast.ClassDef):
                for e in s.decorator_list + s.bases:
                    self.uses(m, e)
                self.body(m, s.body, {})
                names[s.name] = True
            elif isinstance(s, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                self.body(m, s.body, names)
            elif isinstance(s, ast.AnnAssign):
                if not m.future:
                    self.uses(m, s.annotation)
                if s.value is not None:
                    self.uses(m, s.value)
                    names.update({i: True for i in targets(s.target)})
            else:
                self.uses(m, s)
                for t in getattr(s, 'targets', ()):
                    names.update({i: True for i in targets(t)})

    def uses(self, m, e):
        evs = self.w.uses_cache.get(id(e))
        if evs is None:
            evs = self.w.uses_cache[id(e)] = self.chains(m, e)
        for d, mod, n in evs:
            self.use(m, n)
            for i in range(1, mod + 1):
                p = '.'.join(d[:i])
                if i < mod:
                    if d[i] not in self.state.get(p, {}) and not (p in self.w.mods and not self.w.mods[p].generated):
                        self.problem(m, n, '%s is used while the import of %s is not finished' % ('.'.join(d), '.'.join(d[:i + 1])))
                        return
                elif i < len(d) and p in self.w.mods and self.w.mods[p].generated and d[i] not in self.state[p]:
                    self.problem(m, n, '%s is used before the module %s binds it' % ('.'.join(d), p))
                    return

    def chains(self, m, e):
        """The dotted names below e that start at a known module and are evaluated with e."""
        out = []
        inner = {id(x) for l in ast.walk(e) if isinstance(l, ast.Lambda) for x in ast.walk(l.body)}
        seen = set()
        for n in ast.walk(e):
            if id(n) in inner or id(n) in seen:
                continue
            d = dotted(n) if isinstance(n, ast.Attribute) else None
            if not d:
                continue
            seen |= {id(x) for x in ast.walk(n)}
            mod = None
            for i in range(len(d), 0, -1):
                if self.w.known('.'.join(d[:i])):
                    mod = i
                    break
            if mod is None or self.w.member(m, d[0]) != ('module', d[0]):
                continue
            out.append((d, mod, n))
        return out


# ---------------------------------------------------------------- definite assignment

class Assigned:
    """unassigned(f): (name, line) of the local names of a function that some path reads before it assigns them."""

    def __init__(self, f):
        self.f = f
        self.out = []
        a = f.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.locals = local_names(f) - self.params
        self.block(f.body, set())

    def expr(self, e, have):
        if e is None:
            return
        if isinstance(e, FUNC):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = {i for g in e.generators for i in targets(g.target)}
            for x in ast.iter_child_nodes(e):
                self.expr(x, have | own)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in have:
                self.out.append((e.id, e.lineno))
            return
        for x in ast.iter_child_nodes(e):
            self.expr(x, have)

    def block(self, body, have):
        """The names assigned after the block; None when control does not get there."""
        for s in body:
            if have is None:
                return None
            have = self.stmt(s, have)
        return have

    @staticmethod
    def meet(xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        r = set(xs[0])
        for x in xs[1:]:
            r &= x
        return r

    def stmt(self, s, have):
        have = set(have)
        if isinstance(s, (ast.Return, ast.Raise)):
            self.expr(s, have)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.If):
            self.expr(s.test, have)
            t = ast.dump(s.test)
            yes = self.block(s.body, have | {x[1] for x in have if isinstance(x, tuple) and x[0] == t})
            no = self.block(s.orelse, have)
            out = self.meet([yes, no])
            if out is not None and yes is not None:      # what is assigned whenever the same condition holds again
                out |= {(t, x) for x in yes - out if not isinstance(x, tuple)}
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, have)
            self.block(s.body, have | set(targets(s.target)))
            self.block(s.orelse, have)
            return have
        if isinstance(s, ast.While):
            self.expr(s.test, have)
            self.block(s.body, have)
            endless = isinstance(s.test, ast.Constant) and bool(s.test.value)
            if endless and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                return None
            return have
        if isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, have)
                if i.optional_vars is not None:
                    have |= set(targets(i.optional_vars))
            return self.block(s.body, have)
        if isinstance(s, ast.Try):
            ends = [self.block(s.body + s.orelse, have)]
            tried = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for h in s.handlers:
                ends.append(self.block(h.body, have | tried | ({h.name} if h.name else set())))
            r = self.meet(ends)
            return self.block(s.finalbody, have if r is None else r) if r is not None or not s.finalbody else self.block(s.finalbody, have)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return have | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return have | {a.asname or a.name.split('.')[0] for a in s.names}
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, have)
            return have | (set(targets(s.target)) if s.value is not None and isinstance(s.target, ast.Name) else set())
        if isinstance(s, ast.Assign):
            self.expr(s.value, have)
            for t in s.targets:
                self.expr(t, have)
            return have | {i for t in s.targets if isinstance(t, (ast.Name, ast.Tuple, ast.List)) for i in targets(t)}
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, have)
            if isinstance(s.target, ast.Name) and s.target.id in self.locals and s.target.id not in have:
                self.out.append((s.target.id, s.lineno))
            elif not isinstance(s.target, ast.Name):
                self.expr(s.target, have)
            return have
        self.expr(s, have)
        return have | {n.target.id for n in ast.walk(s) if isinstance(n, ast.NamedExpr)}
