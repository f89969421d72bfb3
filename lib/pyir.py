"""Front end: Python source -> the common IR (see lib/ir.py for the node shapes)."""
import ast

BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.LShift: '<<',
       ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.Pow: '**'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
       ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
UN = {ast.Not: '!', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}


def expr(n):
    if n is None:
        return ['null']
    t = type(n)
    if t is ast.Constant:
        v = n.value
        if v is None:
            return ['null']
        if isinstance(v, bool):
            return ['bool', v]
        if isinstance(v, (int, float)):
            return ['num', v]
        if isinstance(v, str):
            return ['str', v]
        if isinstance(v, bytes):
            return ['bytes', v.hex()]
        return ['other', 'Constant']
    if t is ast.Name:
        return ['name', n.id]
    if t is ast.Attribute:
        return ['attr', expr(n.value), n.attr]
    if t is ast.Subscript:
        return ['idx', expr(n.value), expr(n.slice)]
    if t is ast.Slice:
        return ['slice', expr(n.lower), expr(n.upper), expr(n.step)]
    if t is ast.Call:
        return ['call', expr(n.func), [expr(a) for a in n.args],
                {(k.arg or '**'): expr(k.value) for k in n.keywords}, n.lineno]
    if t is ast.BinOp:
        return ['bin', BIN.get(type(n.op), '?'), expr(n.left), expr(n.right)]
    if t is ast.BoolOp:
        op = '&&' if isinstance(n.op, ast.And) else '||'
        e = expr(n.values[0])
        for v in n.values[1:]:
            e = ['bin', op, e, expr(v)]
        return e
    if t is ast.Compare:
        if len(n.ops) == 1:
            return ['bin', CMP[type(n.ops[0])], expr(n.left), expr(n.comparators[0])]
        # a chained comparison means (a op b) && (b op c)
        parts, left = [], n.left
        for o, r in zip(n.ops, n.comparators):
            parts.append(['bin', CMP[type(o)], expr(left), expr(r)])
            left = r
        e = parts[0]
        for p in parts[1:]:
            e = ['bin', '&&', e, p]
        return e
    if t is ast.UnaryOp:
        return ['un', UN[type(n.op)], expr(n.operand)]
    if t is ast.IfExp:
        return ['cond', expr(n.test), expr(n.body), expr(n.orelse)]
    if t is ast.Lambda:
        return ['lambda', [a.arg for a in n.args.args], expr(n.body)]
    if t in (ast.List, ast.Set):
        return ['list', [expr(e) for e in n.elts]]
    if t is ast.Tuple:
        return ['tuple', [expr(e) for e in n.elts]]
    if t is ast.Dict:
        return ['dict', [[expr(k), expr(v)] for k, v in zip(n.keys, n.values)]]
    if t is ast.JoinedStr:
        return ['fstr', [expr(v.value) if isinstance(v, ast.FormattedValue) else expr(v) for v in n.values]]
    if t is ast.FormattedValue:
        return expr(n.value)
    if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp):
        return ['comp', expr(n.elt), [[expr(g.target), expr(g.iter), [expr(i) for i in g.ifs]]
                                      for g in n.generators]]
    if t is ast.DictComp:
        return ['comp', ['tuple', [expr(n.key), expr(n.value)]],
                [[expr(g.target), expr(g.iter), [expr(i) for i in g.ifs]] for g in n.generators]]
    if t is ast.Starred:
        return ['star', expr(n.value)]
    if t is ast.NamedExpr:
        return ['assign', '=', expr(n.target), expr(n.value)]
    return ['other', t.__name__]


def stmts(body):
    out = []
    for s in body:
        r = stmt(s)
        if r is not None:
            out.append(r)
    return out


def stmt(s):
    t = type(s)
    ln = getattr(s, 'lineno', 0)
    if t is ast.Expr:
        if isinstance(s.value, ast.Constant):
            return None  # docstring / ellipsis
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return ['yield', expr(s.value.value), ln]
        return ['expr', expr(s.value), ln]
    if t is ast.Assign:
        v = expr(s.value)
        if len(s.targets) == 1:
            return ['expr', ['assign', '=', expr(s.targets[0]), v], ln]
        return ['block', [['expr', ['assign', '=', expr(x), v], ln] for x in s.targets], ln]
    if t is ast.AnnAssign:
        if s.value is None:
            return None
        return ['expr', ['assign', '=', expr(s.target), expr(s.value)], ln]
    if t is ast.AugAssign:
        return ['expr', ['assign', BIN.get(type(s.op), '?') + '=', expr(s.target), expr(s.value)], ln]
    if t is ast.Return:
        return ['return', expr(s.value) if s.value is not None else None, ln]
    if t is ast.Raise:
        return ['throw', expr(s.exc) if s.exc is not None else None, ln]
    if t is ast.If:
        return ['if', expr(s.test), stmts(s.body), stmts(s.orelse), ln]
    if t is ast.While:
        return ['while', expr(s.test), stmts(s.body), ln]
    if t in (ast.For, ast.AsyncFor):
        return ['foreach', expr(s.target), expr(s.iter), stmts(s.body), ln]
    if t is ast.Try:
        return ['try', stmts(s.body),
                [[expr(h.type) if h.type is not None else None, h.name, stmts(h.body)] for h in s.handlers],
                stmts(s.finalbody), ln, stmts(s.orelse)]
    if t is ast.With:
        return ['with', [[expr(i.context_expr), expr(i.optional_vars) if i.optional_vars else None]
                         for i in s.items], stmts(s.body), ln]
    if t is ast.Break:
        return ['break', ln]
    if t is ast.Continue:
        return ['continue', ln]
    if t is ast.Pass:
        return None
    if t is ast.Delete:
        return ['delete', [expr(x) for x in s.targets], ln]
    if t is ast.Assert:
        return ['expr', ['call', ['name', 'assert'], [expr(s.test)], {}, ln], ln]
    if t in (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal):
        return ['other', t.__name__, ln]
    if t is ast.FunctionDef:
        return ['localdef', func(s), ln]
    if t is ast.ClassDef:
        return ['other', t.__name__, ln]
    return ['other', t.__name__, ln]


def func(f):
    a = f.args
    params = [x.arg for x in a.posonlyargs + a.args]
    kwonly = [x.arg for x in a.kwonlyargs]
    pos_defaults = [None] * (len(params) - len(a.defaults)) + [expr(d) for d in a.defaults]
    defaults = dict(zip(params, pos_defaults))
    defaults.update({p: (expr(d) if d is not None else None) for p, d in zip(kwonly, a.kw_defaults)})
    return {'name': f.name, 'params': params + kwonly, 'defaults': defaults, 'line': f.lineno,
            'vararg': a.vararg.arg if a.vararg else None, 'kwarg': a.kwarg.arg if a.kwarg else None,
            'npos': len(params),
            'decorators': [expr(d) for d in f.decorator_list], 'body': stmts(f.body),
            'ret': ast.unparse(f.returns) if f.returns is not None else None,
            'ptypes': {x.arg: ast.unparse(x.annotation) for x in a.posonlyargs + a.args + a.kwonlyargs
                       if x.annotation is not None}}


def klass(c, outer=''):
    d = {'name': c.name, 'line': c.lineno, 'methods': [], 'classes': [], 'fields': [],
         'bases': [expr(b) for b in c.bases], 'decorators': [expr(x) for x in c.decorator_list]}
    for s in c.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            d['methods'].append(func(s))
        elif isinstance(s, ast.ClassDef):
            d['classes'].append(klass(s, outer + c.name + '.'))
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                d['fields'].append({'name': t.id if isinstance(t, ast.Name) else ast.unparse(t),
                                    'init': expr(s.value), 'line': s.lineno})
        elif isinstance(s, ast.AnnAssign):
            d['fields'].append({'name': ast.unparse(s.target),
                                'init': expr(s.value) if s.value is not None else None, 'line': s.lineno})
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            pass
        else:
            d.setdefault('extra', []).append(stmt(s))
    return d


def module(path):
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read(), path)
    m = {'file': path, 'lang': 'py', 'classes': [], 'functions': [], 'fields': [], 'imports': [], 'body': []}
    for s in tree.body:
        if isinstance(s, ast.ClassDef):
            m['classes'].append(klass(s))
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m['functions'].append(func(s))
        elif isinstance(s, ast.Import):
            m['imports'] += [[a.name, a.asname] for a in s.names]
        elif isinstance(s, ast.ImportFrom):
            m['imports'] += [[(s.module or '') + '.' + a.name, a.asname] for a in s.names]
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            m['fields'].append({'name': s.targets[0].id, 'init': expr(s.value), 'line': s.lineno})
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            m['fields'].append({'name': s.target.id, 'init': expr(s.value), 'line': s.lineno})
        else:
            r = stmt(s)
            if r is not None:
                m['body'].append(r)
    return m
