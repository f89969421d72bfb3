"""An independent parser for the subset of the Zserio language that the corpus uses. It is the reference side of the
generated-code rules: what a schema means on the wire is derived from this parse, not from the compiler under test."""
import re

TOK = re.compile(r'''
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<str>"(?:\\.|[^"\\])*")
  | (?P<float>\d+\.\d*(?:[eE][-+]?\d+)?f?|\d+[eE][-+]?\d+f?|\.\d+f?)
  | (?P<bin>[01]+[bB])(?![0-9A-Za-z_])
  | (?P<hex>0[xX][0-9a-fA-F]+)
  | (?P<num>\d+)
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<at>@index|@deprecated|@removed)
  | (?P<op><<|<=|>=|==|!=|&&|\|\||[-+*/%<>!~&|^?:;,.(){}\[\]=])
''', re.X | re.S)


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise SyntaxError('bad token at %r' % text[pos:pos + 20])
        pos = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group(k)))
    out.append(('eof', ''))
    return out


# binary operator -> precedence (higher binds tighter), from the grammar's alternatives
PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '<=': 7, '>': 7, '>=': 7, '==': 6, '!=': 6,
        '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}


class Parser:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self, n=0):
        return self.t[min(self.i + n, len(self.t) - 1)]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] in ('op', 'id', 'at')

    def acc(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise SyntaxError('expected %r, got %r (near %r)' % (v, self.peek(), [x[1] for x in self.t[self.i - 8:self.i]]))

    def ident(self):
        k, v = self.next()
        if k != 'id':
            raise SyntaxError('identifier expected, got %r' % (v,))
        return v

    # expressions -> ['num',v] ['str',s] ['bool',b] ['id',name] ['dot',e,name] ['idx',e,e] ['call',e] ['bin',op,l,r]
    #                ['un',op,e] ['cond',c,a,b] ['lengthof',e] ['valueof',e] ['numbits',e] ['isset',e,e] ['index']
    def expr(self, noshift=False, nogt=False):
        e = self.binary(1, nogt)
        if self.acc('?'):
            a = self.expr()
            self.exp(':')
            b = self.expr(nogt=nogt)
            return ['cond', e, a, b]
        return e

    def binop(self, nogt):
        k, v = self.peek()
        if k != 'op':
            return None
        if v == '>' and not nogt and self.peek(1) == ('op', '>'):
            return '>>'
        if v == '>' and nogt:
            return None
        return v if v in PREC else None

    def binary(self, minp, nogt=False):
        l = self.unary(nogt)
        while True:
            o = self.binop(nogt)
            if o is None or PREC[o] < minp:
                return l
            self.i += 2 if o == '>>' else 1
            r = self.binary(PREC[o] + 1, nogt)
            l = ['bin', o, l, r]

    def unary(self, nogt=False):
        k, v = self.peek()
        if k == 'op' and v in '+-!~':
            self.next()
            return ['un', v, self.unary(nogt)]
        return self.postfix()

    def postfix(self):
        k, v = self.next()
        if k == 'op' and v == '(':
            e = self.expr()
            self.exp(')')
        elif k == 'num':
            e = ['num', int(v, 8) if len(v) > 1 and v[0] == '0' else int(v)]
        elif k == 'hex':
            e = ['num', int(v, 16)]
        elif k == 'bin':
            e = ['num', int(v[:-1], 2)]
        elif k == 'float':
            e = ['num', float(v.rstrip('f'))]
        elif k == 'str':
            e = ['str', v[1:-1].encode('utf-8').decode('unicode_escape')]
        elif k == 'at' and v == '@index':
            e = ['index']
        elif k == 'id' and v in ('true', 'false'):
            e = ['bool', v == 'true']
        elif k == 'id' and v in ('lengthof', 'valueof', 'numbits'):
            self.exp('(')
            e = [v, self.expr()]
            self.exp(')')
        elif k == 'id' and v == 'isset':
            self.exp('(')
            a = self.expr()
            self.exp(',')
            b = self.expr()
            self.exp(')')
            e = ['isset', a, b]
        elif k == 'id':
            e = ['id', v]
        else:
            raise SyntaxError('expression expected at %r' % (v,))
        while True:
            if self.acc('.'):
                e = ['dot', e, self.ident()]
            elif self.acc('['):
                x = self.expr()
                self.exp(']')
                e = ['idx', e, x]
            elif self.at('(') and self.peek(1) == ('op', ')'):
                self.i += 2
                e = ['call', e]
            else:
                return e

    def typeref(self, targs=True):
        """-> {'name':..., 'width': expr|int|None, 'targs':[...]}; arguments in () are parsed by typeinst."""
        name = self.ident()
        while self.at('.') and self.peek(1)[0] == 'id':
            self.next()
            name += '.' + self.ident()
        t = {'name': name, 'width': None, 'targs': [], 'args': []}
        if name in ('bit', 'int') and self.acc(':'):
            t['width'] = ['num', int(self.next()[1])]
        elif name in ('bit', 'int') and self.at('<'):
            self.next()
            t['width'] = self.expr(nogt=True)
            t['dyn'] = True
            self.exp('>')
        elif self.at('<') and targs:
            self.next()
            t['targs'].append(self.typeref())
            while self.acc(','):
                t['targs'].append(self.typeref())
            self.exp('>')
        return t

    def typeinst(self):
        t = self.typeref()
        if self.acc('('):
            while True:
                if self.acc('explicit'):
                    t['args'].append(['explicit', self.ident()])
                else:
                    t['args'].append(self.expr())
                if not self.acc(','):
                    break
            self.exp(')')
        return t

    def params(self):
        ps = []
        if self.acc('('):
            while True:
                t = self.typeref()
                ps.append((t, self.ident()))
                if not self.acc(','):
                    break
            self.exp(')')
        return ps

    def tparams(self):
        ps = []
        if self.acc('<'):
            ps.append(self.ident())
            while self.acc(','):
                ps.append(self.ident())
            self.exp('>')
        return ps

    def function(self):
        self.exp('function')
        t = self.typeref()
        n = self.ident()
        self.exp('(')
        self.exp(')')
        self.exp('{')
        self.exp('return')
        e = self.expr()
        self.exp(';')
        self.exp('}')
        return {'name': n, 'type': t, 'expr': e}

    def field(self, struct=True):
        f = {'align': None, 'offset': None, 'ext': False, 'optional': None, 'packed': False, 'implicit': False,
             'array': None, 'init': None, 'constraint': None}
        if struct:
            if self.at('align') and self.peek(1) == ('op', '('):
                self.next()
                self.exp('(')
                f['align'] = self.expr()
                self.exp(')')
                self.exp(':')
            mark = self.i
            # an offset is an expression followed by ':' in front of the field itself
            try:
                e = self.expr()
                if self.acc(':') and e[0] in ('id', 'dot', 'idx', 'call'):
                    nxt = self.peek()
                    # bit:N / int:N is a type, not an offset
                    if e in (['id', 'bit'], ['id', 'int']) and nxt[0] == 'num':
                        self.i = mark
                    else:
                        f['offset'] = e
                else:
                    self.i = mark
            except SyntaxError:
                self.i = mark
            f['ext'] = self.acc('extend')
            if self.acc('optional'):
                f['optional'] = 'auto'
        f['packed'] = self.acc('packed')
        f['implicit'] = self.acc('implicit')
        f['type'] = self.typeinst()
        f['name'] = self.ident()
        if self.acc('['):
            f['array'] = ['auto'] if self.at(']') else ['len', self.expr()]
            self.exp(']')
            if f['implicit']:
                f['array'] = ['implicit']
        if struct and self.acc('='):
            f['init'] = self.expr()
        if struct and self.acc('if'):
            f['optional'] = self.expr()
        if self.acc(':'):
            f['constraint'] = self.expr()
        return f

    def parse(self):
        pk = {'name': '', 'types': {}, 'consts': {}, 'order': [], 'imports': []}
        if self.acc('package'):
            pk['name'] = self.ident()
            while self.acc('.'):
                pk['name'] += '.' + self.ident()
            self.exp(';')
        self.imports = pk['imports']
        while self.peek()[0] != 'eof':
            d = self.decl()
            if d is None:
                continue
            pk['order'].append(d['name'])
            pk['types'][d['name']] = d
        return pk

    def decl(self):
        k = self.ident()
        if k == 'import':
            parts = []
            while not self.acc(';'):
                t = self.next()[1]
                if t != '.':
                    parts.append(t)
            self.imports.append(('.'.join(parts[:-1]), None if parts[-1] == '*' else parts[-1]))
            return None
        if k == 'const':
            t = self.typeinst()
            n = self.ident()
            self.exp('=')
            e = self.expr()
            self.exp(';')
            return {'kind': 'const', 'name': n, 'type': t, 'expr': e}
        if k == 'subtype':
            t = self.typeref()
            n = self.ident()
            self.exp(';')
            return {'kind': 'subtype', 'name': n, 'type': t}
        if k == 'instantiate':
            t = self.typeref()
            n = self.ident()
            self.exp(';')
            return {'kind': 'instantiate', 'name': n, 'type': t}
        if k in ('enum', 'bitmask'):
            t = self.typeinst()
            n = self.ident()
            self.exp('{')
            items = []
            while not self.at('}'):
                flag = None
                if self.peek()[0] == 'at':
                    flag = self.next()[1]
                i = self.ident()
                e = self.expr() if self.acc('=') else None
                items.append({'name': i, 'expr': e, 'flag': flag})
                if not self.acc(','):
                    break
            self.exp('}')
            self.exp(';')
            return {'kind': k, 'name': n, 'type': t, 'items': items}
        if k == 'struct':
            n = self.ident()
            tp = self.tparams()
            ps = self.params()
            self.exp('{')
            d = {'kind': k, 'name': n, 'tparams': tp, 'params': ps, 'fields': [], 'functions': []}
            while not self.at('}'):
                if self.at('function'):
                    d['functions'].append(self.function())
                else:
                    d['fields'].append(self.field())
                    self.exp(';')
            self.exp('}')
            self.exp(';')
            return d
        if k == 'union':
            n = self.ident()
            tp = self.tparams()
            ps = self.params()
            self.exp('{')
            d = {'kind': k, 'name': n, 'tparams': tp, 'params': ps, 'fields': [], 'functions': []}
            while not self.at('}'):
                if self.at('function'):
                    d['functions'].append(self.function())
                else:
                    d['fields'].append(self.field(False))
                    self.exp(';')
            self.exp('}')
            self.exp(';')
            return d
        if k == 'choice':
            n = self.ident()
            tp = self.tparams()
            ps = self.params()
            self.exp('on')
            sel = self.expr()
            self.exp('{')
            d = {'kind': k, 'name': n, 'tparams': tp, 'params': ps, 'fields': [], 'functions': [], 'selector': sel,
                 'cases': [], 'default': None}
            while not self.at('}'):
                if self.at('function'):
                    d['functions'].append(self.function())
                    continue
                labels = []
                isdef = False
                while True:
                    if self.acc('case'):
                        labels.append(self.expr())
                        self.exp(':')
                    elif self.acc('default'):
                        isdef = True
                        self.exp(':')
                    else:
                        break
                f = None
                if not self.at(';'):
                    f = self.field(False)
                    d['fields'].append(f)
                self.exp(';')
                if isdef:
                    d['default'] = {'field': f['name'] if f else None}
                else:
                    d['cases'].append({'labels': labels, 'field': f['name'] if f else None})
            self.exp('}')
            self.exp(';')
            return d
        if k == 'service':
            n = self.ident()
            self.exp('{')
            ms = []
            while not self.acc('}'):
                r = self.typeref()
                m = self.ident()
                self.exp('(')
                q = self.typeref()
                self.exp(')')
                self.exp(';')
                ms.append({'name': m, 'resp': r, 'req': q})
            self.exp(';')
            return {'kind': k, 'name': n, 'methods': ms}
        if k == 'pubsub':
            n = self.ident()
            self.exp('{')
            ms = []
            while not self.acc('}'):
                pub = sub = True
                if self.acc('publish'):
                    sub = False
                elif self.acc('subscribe'):
                    pub = False
                self.exp('topic')
                self.exp('(')
                e = self.expr()
                self.exp(')')
                t = self.typeref()
                m = self.ident()
                self.exp(';')
                ms.append({'name': m, 'topic': e, 'type': t, 'pub': pub, 'sub': sub})
            self.exp(';')
            return {'kind': k, 'name': n, 'messages': ms}
        if k == 'sql_table':
            n = self.ident()
            tp = self.tparams()
            using = self.ident() if self.acc('using') else None
            self.exp('{')
            d = {'kind': k, 'name': n, 'tparams': tp, 'using': using, 'fields': [], 'sql': None, 'norowid': False}
            while not self.acc('}'):
                if self.acc('sql'):
                    d['sql'] = self.expr()
                elif self.acc('sql_without_rowid'):
                    d['norowid'] = True
                else:
                    virt = self.acc('sql_virtual')
                    t = self.typeinst()
                    f = {'name': self.ident(), 'type': t, 'virtual': virt, 'sql': None}
                    if self.acc('sql'):
                        f['sql'] = self.expr()
                    d['fields'].append(f)
                self.exp(';')
            self.exp(';')
            return d
        if k == 'sql_database':
            n = self.ident()
            self.exp('{')
            fs = []
            while not self.acc('}'):
                t = self.typeinst()
                fs.append({'name': self.ident(), 'type': t})
                self.exp(';')
            self.exp(';')
            return {'kind': k, 'name': n, 'fields': fs}
        raise SyntaxError('unknown declaration %r' % k)


def parse_file(path):
    with open(path, encoding='utf-8') as f:
        return Parser(f.read()).parse()
