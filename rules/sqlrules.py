"""SQL tables and databases of the generated code: the queries, and which column every value is read from and written to."""
import re
import gen
import pyir
import build
import cfold
from canon import key

CORPUS = 'serv'
VARBITS = {'varint16': 15, 'varint32': 29, 'varint64': 57, 'varint': 64, 'varuint16': 16, 'varuint32': 30, 'varuint64': 58,
           'varuint': 65, 'varsize': 32}
HOLDS = {'getByte': 8, 'getShort': 16, 'getInt': 32, 'getLong': 64, 'sqlite3_column_int': 32, 'sqlite3_column_int64': 64,
         'setByte': 8, 'setShort': 16, 'setInt': 32, 'setLong': 64, 'sqlite3_bind_int': 32, 'sqlite3_bind_int64': 64}
CLASS = {'getFloat': 'float', 'getDouble': 'double', 'getBoolean': 'int', 'getString': 'text', 'getBytes': 'blob', 'getBlob': 'blob',
         'sqlite3_column_double': 'double', 'sqlite3_column_text': 'text', 'sqlite3_column_blob': 'blob', 'sqlite3_column_bytes': 'blob',
         'setFloat': 'float', 'setDouble': 'double', 'setBoolean': 'int', 'setString': 'text', 'setBytes': 'blob', 'setBlob': 'blob',
         'sqlite3_bind_double': 'double', 'sqlite3_bind_text': 'text', 'sqlite3_bind_blob': 'blob', 'setNull': 'null',
         'sqlite3_bind_null': 'null', 'sqlite3_bind_blob64': 'blob', 'sqlite3_bind_text64': 'text'}
CLASS.update({n: 'int' for n in HOLDS})
NOTYPE = {'fts5'}


class Column:
    def __init__(self, schema, d, f, i):
        self.name, self.i, self.virtual = f['name'], i, f['virtual']
        self.cap = f['name'][0].upper() + f['name'][1:]
        self.constraint = schema.const_value(f['sql']) if f['sql'] else None
        t = schema.resolve(f['type'], d)
        self.type = t
        self.args = [(a[0], a[1]) if a[0] in ('id', 'explicit') else ('expr',) for a in f['type'].get('args') or
                     self.declared(schema, f['type'])]
        base = schema.underlying(t.decl) if t.kind in ('enum', 'bitmask') else t
        self.bits = None
        if t.kind == 'compound':
            self.cls = 'blob'
        elif base.prim == 'string':
            self.cls = 'text'
        elif base.prim in ('float16', 'float32', 'float64'):
            self.cls = 'double' if base.prim == 'float64' else 'float'
        else:
            self.cls = 'int'
            n = base.params[0][1] if base.prim in ('bits', 'sbits') else VARBITS.get(base.prim, 1)
            self.bits = n + 1 if base.prim == 'bits' else n
        self.bool = t.kind == 'prim' and t.prim == 'bool'
        self.sqltype = {'blob': 'BLOB', 'text': 'TEXT', 'int': 'INTEGER', 'float': 'REAL', 'double': 'REAL'}[self.cls]

    @staticmethod
    def declared(schema, t):
        while t['name'] in schema.decls and schema.decls[t['name']]['kind'] == 'subtype':
            t = schema.decls[t['name']]['type']
        return t.get('args') or ()


class Table:
    def __init__(self, schema, name, d):
        self.name, self.decl = name, d
        self.columns = [Column(schema, d, f, i) for i, f in enumerate(d['fields'])]
        self.using = d['using']
        self.constraint = schema.const_value(d['sql']) if d['sql'] else None
        self.norowid = d['norowid']
        self.explicit = []
        for c in self.columns:
            for a in c.args:
                if a[0] == 'explicit' and a[1] not in self.explicit:
                    self.explicit.append(a[1])

    def create(self, where):
        cols = []
        for c in self.columns:
            if not c.virtual:
                cols.append(' '.join([c.name] + ([c.sqltype] if self.using not in NOTYPE else []) + ([c.constraint] if c.constraint else [])))
        if self.constraint:
            cols.append(self.constraint)
        s = 'CREATE %sTABLE @%s' % ('VIRTUAL ' if self.using else '', ' USING ' + self.using if self.using else '')
        if cols:
            s += '(' + ','.join(cols) + ')'
        return s + (' WITHOUT ROWID' if self.norowid else '')


def tables(schema):
    out = {}
    for d in list(schema.decls.values()):
        if d['kind'] == 'sql_table' and not d['tparams']:
            out[d['name']] = Table(schema, d['name'], d)
        if d['kind'] == 'sql_database':
            for f in d['fields']:
                if f['type']['targs']:
                    n = schema.instantiate(f['type'])
                    out.setdefault(n, Table(schema, n, schema.concrete[n]))
    return out


def squeeze(q):
    """A query with the spaces and separators that mean nothing taken out."""
    q = re.sub(r'\s+', ' ', q)
    q = re.sub(r' ?([(),=]) ?', r'\1', q)
    return re.sub(r',\)', ')', q).rstrip('; ')


def query(t):
    """Text of a query term with @ for the table, ~ for the condition."""
    if isinstance(t, cfold.Buf):
        t = t.value()
    if isinstance(t, str):
        return t
    if isinstance(t, tuple) and t[0] == 'cat':
        return ''.join(query(x) for x in t[1:])
    if isinstance(t, tuple) and t[0] in ('v', 'attr'):
        n = str(t[-1]).lower()
        if 'condition' in n:
            return '~'
        if 'attached' in n:
            return '@'
        return '@' if 'table' in n or n == 'm_name' else '{%s}' % t[-1]
    if isinstance(t, tuple) and t[0] in ('cast', 'call', 'new') and len(t) > 2:
        return query(t[2])
    return '{%s}' % (t,)


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def dotted(t):
    if isinstance(t, tuple) and t[0] == 'v':
        return str(t[1]).strip(':').replace('::', '.')
    if isinstance(t, tuple) and t[0] == 'attr':
        return dotted(t[1]) + '.' + str(t[2])
    return '?'


class Facts:
    """What a value term is made of."""

    def __init__(self, t):
        self.acc, self.getters, self.types, self.explicit, self.names, self.attrs = set(), [], [], [], [], set()
        self.columns = []
        for x in walk(t if isinstance(t, tuple) else ('x', t)):
            if x[0] == 'call':
                n = x[1]
                self.names.append(n)
                args = [a for a in x[3:]]
                if n in CLASS and args and isinstance(args[-1], int) and not isinstance(args[-1], bool):
                    self.acc.add((n, args[-1]))
                elif n in CLASS and args and isinstance(args[0], int) and not isinstance(args[0], bool):
                    self.acc.add((n, args[0]))
                elif re.match(r'(get|is)[A-Z]', n) and len(x) == 3 and isinstance(x[2], tuple):
                    self.getters.append(n)
                if n in ('toEnum', 'from_value', 'from_reader') or (x[2] and isinstance(x[2], tuple) and n[:1].isupper()):
                    self.types.append(dotted(x[2]) + ('.' + n if n[:1].isupper() else ''))
            elif x[0] in ('new', 'cast'):
                self.types.append(str(x[1]).strip(':').replace('::', '.'))
            elif x[0] == 'idx' and isinstance(x[2], int):
                self.columns.append(x[2])
            elif x[0] == 'attr':
                self.attrs.add(x[2])


def last(t):
    return t.split('<')[0].split('.')[-1]


class Lang:
    """Runs the operations of one table."""

    def __init__(self, lang, corpus, table):
        self.lang, self.corpus, self.table = lang, corpus, table
        self.schema = corpus.schema
        self.classes = CLASSES(lang, corpus)
        self.cls = self.classes[table.name]
        self.st = statics(lang, self.cls, self.classes.get(table.name + '.Column'))

    def decide(self, null, f):
        """Conditions of one run: null is the set of columns (names) that hold NULL."""
        cap = {c.cap: c.name for c in self.table.columns}
        once = {}

        def loops(t):
            k = repr(t)
            once[k] = once.get(k, 0) + 1
            return once[k] == 1

        def yes(t):
            s = repr(t)
            if t[0] == 'call':
                n = t[1]
                m = re.match(r'isNull(\w+)$', n)
                if m and m.group(1) in cap:
                    return cap[m.group(1)] in null
                m = re.match(r'is(\w+)Set$', n)
                if m and m.group(1) in cap:
                    return cap[m.group(1)] not in null
                if n == 'wasNull':
                    for e in reversed(f[0].events):
                        if e[0] == 'call' and e[1] in CLASS and len(e) == 4:
                            return e[3] - 1 in null
                if n in ('next', 'hasNext'):
                    return loops(t)
                if n == 'isinstance':
                    return t[3] is not None
                if n in ('empty', 'isEmpty'):
                    return False
                return False
            if t[0] == 'op' and t[1] in ('==', '!='):
                a, b = t[2], t[3]
                if 'sqlite3_column_type' in s:
                    p = [x[-1] for x in walk(t) if x[0] == 'call' and x[1] == 'sqlite3_column_type'][0]
                    return (p in null) == (t[1] == '==')
                if b is None or a is None:
                    x = a if b is None else b
                    if 'ttached' in repr(x):
                        return t[1] == '=='
                    return t[1] == '!='
                if isinstance(a, tuple) and a[0] == 'call':
                    return t[1] == '=='
                return t[1] == '=='
            if t[0] in ('v', 'attr') and 'ttached' in str(t[-1]):
                return False
            if 'm_lastResult' in s:
                return True
            return True
        return yes

    def fold(self, null=(), cls=None, statics=None, inline=True):
        h = []
        f = cfold.Fold(self.lang, cls or self.cls, self.st if statics is None else statics, self.decide(set(null), h), inline)
        h.append(f)
        return f

    def method(self, *names):
        for n in names:
            ms = [m for m in self.cls['methods'] if m['name'] == n and m.get('body') is not None]
            if ms:
                return n, max(len(cfold.Fold.names(self, m)) for m in ms)
        raise cfold.Lost('there is no method ' + names[0])

    def call(self, f, names, values):
        """Runs the longest overload with arguments chosen by parameter name."""
        n, k = self.method(*names)
        for m in f.methods[n]:
            ps = f.names(m)
            if m.get('body') is not None and len(ps) == k:
                return f.invoke(m, [next((v for w, v in values.items() if re.search(w, p, re.I)), ('v', p)) for p in ps])

    def execute(self, names):
        """Queries that an operation without columns executes."""
        f = self.fold()
        self.call(f, names, {})
        return [squeeze(query(e[3]).replace('@.@', '@')) for e in f.events if e[0] == 'call' and e[1] in ('executeUpdate', 'execute', 'executeQuery')
                and len(e) > 3]

    def queries(self, f):
        return [squeeze(query(e[3]).replace('@.@', '@')) for e in f.events if e[0] == 'call' and e[1] in ('prepareStatement', 'execute') and len(e) > 3]

    def read(self, cols, null):
        """(query, {column: value term})"""
        sel = None if cols is None else list(cols)
        out = {}
        if self.lang == 'java':
            f = self.fold(null)
            self.call(f, ('read',), {'colNames|columns': sel, 'condition': ('v', 'condition')})
            q = self.queries(f)
            ev = f.events
        elif self.lang == 'cpp':
            f = self.fold(())
            r = self.call(f, ('createReader',), {'columns': [] if sel is None else sel, 'condition': ('v', 'condition')})
            maps = [x for x in walk(r) if x[0] == 'list'] if isinstance(r, tuple) else []
            text = [x for x in (r or ())[2:] if isinstance(x, str) or isinstance(x, tuple) and x[0] == 'cat']
            q = [squeeze(query(x).replace('@.@', '@')) for x in text]
            if not maps:
                raise cfold.Lost('no column mapping is passed to the reader')
            k = self.classes[self.table.name + '.Reader']
            g = self.fold(null, k, {'m_columnsMapping': list(maps[0][1:])}, False)
            g.run('next', [])
            ev = g.events
        else:
            f = self.fold(())
            r = self.call(f, ('read_columns',) if self.has('read_columns') else ('read',), {'columns': sel, 'condition': ('v', 'condition')})
            q = self.queries(f)
            maps = [x for x in r if isinstance(x, tuple) and x[0] == 'list']
            k = self.classes[self.table.name + '.Rows']
            if not any(m['name'] == '_read_row' for m in k['methods']):
                # nothing is converted: rows are handed over as the database returns them
                return q, {c.name: ('idx', ('v', 'row'), i) for i, c in enumerate(self.chosen(cols)) if i not in null}, 0
            g = self.fold((), k, {'_column_map': list(maps[-1][1:])} if maps else {})
            n = sum(1 for x in (maps[-1][1:] if maps else [1] * len(self.table.columns)) if x)
            row = [None if i in null else ('idx', ('v', 'row'), i) for i in range(n)]
            v = g.run('_read_row', [row])
            if not isinstance(v, list):
                raise cfold.Lost('a row is not read as a tuple')
            return q, {c.name: x for c, x in zip(self.table.columns, v) if x is not None}, len(v)
        names = {'set' + c.cap: c.name for c in self.table.columns}
        for e in ev:
            if e[0] == 'call' and e[1] in names and len(e) == 4:
                out[names[e[1]]] = e[3]
        return q, out, len(self.table.columns)

    def has(self, n):
        return any(m['name'] == n for m in self.cls['methods'])

    def chosen(self, cols):
        return [c for c in self.table.columns if cols is None or c.name in cols]

    def write(self, op, cols, null):
        """(query, [(position, class, column, term)], other events)"""
        sel = None if cols is None else list(cols)
        f = self.fold(null)
        if self.lang == 'java':
            self.call(f, (op,), {'colNames|columns': sel, 'condition': ('v', 'condition')})
        elif self.lang == 'cpp':
            self.call(f, (op,), {'columns': [] if sel is None else sel, 'condition': ('v', 'condition')})
        else:
            rows = [None if c.name in null else ('idx', ('v', 'row'), c.i) for c in self.table.columns]
            # without columns of the class the row is written as it is
            n = op if op == 'write' else 'update_columns'
            self.call(f, (n,), {'columns': sel, 'condition': ('v', 'condition'), '^rows$': [rows], '^row$': rows})
            q, binds = [], []
            for e in f.events:
                if e[0] == 'call' and e[1] == 'execute' and len(e) > 4:
                    q.append(squeeze(query(e[3]).replace('@.@', '@')))
                    v = e[4]
                    if not self.has('_write_row') and cols is not None:
                        binds = None
                    elif isinstance(v, tuple) and v and v[0] == 'list':
                        binds = [(i + 1, None, x) for i, x in enumerate(v[1:])]
                    else:
                        binds = None
            return q, binds, f.events
        binds = []
        for e in f.events:
            if e[0] == 'call' and e[1] in CLASS and (e[1].startswith('set') or 'bind' in e[1]):
                a = e[3:]
                if e[1].startswith('set'):
                    binds.append((a[0], e[1], a[1] if len(a) > 1 else None))
                else:
                    binds.append((a[1], e[1], a[2] if len(a) > 2 else None))
        return self.queries(f), binds, f.events


_classes = {}


def CLASSES(lang, c):
    if lang in _classes:
        return _classes[lang]
    out = {}

    def add(q, cl):
        out[q] = cl
        for k in cl.get('classes', ()):
            add(q + '.' + k['name'], k)
    if lang == 'java':
        for u in c.java_units:
            for cl in u['classes']:
                if cl['q'].startswith(c.schema.pkg + '.'):
                    add(cl['name'], cl)
    elif lang == 'cpp':
        for cl in c.cpp_ir['classes']:
            if cl['q'].startswith(c.schema.pkg + '::') and '(' not in cl['q']:
                add('.'.join(cl['q'].split('::')[1:]), cl)
    else:
        for f in build.files(c.root('python'), ext='.py'):
            for cl in pyir.module(f)['classes']:
                add(cl['name'], cl)
    _classes[lang] = out
    return out


def statics(lang, cl, columns=None):
    out = {}
    f = cfold.Fold(lang, cl)
    for x in cl.get('fields', ()):
        if (lang == 'python' or x.get('static') or 'static' in x.get('mods', ())) and x.get('init') is not None:
            v = f.ev(x['init'], {})
            while isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
                v = v[0]
            out[x['name']] = v
    return out


def same(schema, a, b):
    """Do two names of the schema stand for the same type?"""
    return schema.types.get(key(last(a))) == schema.types.get(key(last(b))) or last(a) == last(b)


def value_problem(lang, schema, col, t, pos, table, cols):
    """What is wrong with a value read for col from position pos, or None."""
    f = Facts(t)
    acc = f.acc if lang != 'python' else None
    if lang == 'python':
        if not f.columns or f.columns[0 if col.type.kind == 'prim' else 0] is None:
            return 'does not come from the row: %s' % (t,)
        src = t
        if col.type.kind == 'compound':
            readers = [x for x in walk(t) if x[0] == 'call' and x[1] == 'BitStreamReader']
            src = readers[0] if readers else t
        fp = Facts(src).columns
        if set(fp) != {pos}:
            return 'comes from position %s of the row' % sorted(set(fp))
    else:
        src = t
        if col.type.kind == 'compound':
            readers = [x for x in walk(t) if x[0] == 'new' and 'BitStreamReader' in str(x[1])]
            if readers:
                acc = Facts(readers[0]).acc
        want = pos + 1 if lang == 'java' else pos
        if {p for n, p in acc} != {want}:
            return 'comes from position %s of the result, not %d' % (sorted(p for n, p in acc), want)
        for n, p in acc:
            k = CLASS[n]
            if k != col.cls and not (col.cls == 'float' and k == 'double'):
                return 'is read with %s' % n
            if n in HOLDS and col.bits is not None and HOLDS[n] < min(col.bits, 64):
                return 'is read with %s, which does not hold it' % n
        if lang == 'java' and col.bits == 65 and 'toUnsignedString' not in f.names and 'valueOf' in f.names:
            return 'is read as a signed number: values above 2^63 - 1 come out negative'
        if lang == 'cpp':
            for x in walk(t):
                if x[0] == 'cast':
                    m = re.match(r'(?:const )?(u?)int(8|16|32|64)_t$', str(x[1]).replace('std::', '').strip(':'))
                    if m and col.bits and int(m.group(2)) + (1 if m.group(1) else 0) < min(col.bits, 65) and 'sqlite3_column' in repr(x):
                        return 'is narrowed to %s' % x[1]
    if col.type.kind != 'prim':
        own = [n for n in f.types if not re.search(r'BitStreamReader|BigInteger|BitBuffer|Row$', n)]
        if lang != 'cpp' or col.type.kind != 'enum':
            if not any(same(schema, n, col.type.name) for n in own):
                return 'is not made of %s but of %s' % (col.type.name, own)
    if col.type.kind == 'compound':
        inner = arguments(lang, t, col, schema)
        if inner is not None:
            for a, got in zip(col.args, inner):
                g = Facts(got) if isinstance(got, tuple) else Facts(('x',))
                if a[0] == 'explicit':
                    names = {key(re.sub('^get', '', n)) for n in g.names}
                    if key(a[1]) not in names:
                        return 'gets %s for the explicit parameter %s' % (cfold.freeze(got), a[1])
                elif a[0] == 'id':
                    c = [x for x in table.columns if x.name == a[1]]
                    if not c or cols is not None and a[1] not in cols:
                        continue
                    if lang == 'python':
                        want = [x for x in table.columns if cols is None or x.name in cols].index(c[0])
                        if want not in g.columns:
                            return 'gets %s for the column %s' % (cfold.freeze(got), a[1])
                    elif 'get' + c[0].cap not in g.getters:
                        return 'gets %s for the column %s' % (cfold.freeze(got), a[1])
            if len(inner) < len(col.args):
                return 'gets %d parameters of %d' % (len(inner), len(col.args))
    return None


def arguments(lang, t, col, schema):
    """The arguments behind the reader, in order."""
    for x in walk(t):
        if x[0] == 'new' and same(schema, str(x[1]).replace('::', '.'), col.type.name):
            a = [y for y in x[2:]]
        elif x[0] == 'call' and x[1] == 'from_reader':
            a = list(x[3:])
        else:
            continue
        i = [k for k, y in enumerate(a) if isinstance(y, tuple) and 'BitStreamReader' in repr(y)[:60]]
        if i:
            return [y for y in a[i[0] + 1:] if not (isinstance(y, tuple) and 'alloc' in repr(y).lower())]
    return None


def selections(t, tier):
    n = [c.name for c in t.columns]
    out = [None] + [[x] for x in n]
    if len(n) > 1:
        out += [n[::-1], n[1:], n[:-1], n[::2]]
    seen = []
    return [x for x in out if not (x in seen or seen.append(x))]


def expected(op, cols):
    names = [c.name for c in cols]
    if op == 'read':
        return 'SELECT %s FROM @ WHERE ~' % ','.join(names)
    if op == 'write':
        return 'INSERT INTO @(%s)VALUES(%s)' % (','.join(names), ','.join('?' for n in names))
    return 'UPDATE @ SET %s WHERE ~' % ','.join(n + '=?' for n in names)


def do(c, rule, where, f):
    try:
        f()
    except cfold.Lost as e:
        c.undecided.append('%s %s: %s' % (rule, where, e))
    except cfold.Thrown as e:
        c.ob(rule, where, 'ends with the error %r' % (cfold.freeze(e.v),))


def table_rules(c, lang, corpus, t):
    L = Lang(lang, corpus, t)
    site = '%s %s' % (lang, t.name)

    do(c, 'create-table', site, lambda: c.eq('create-table', site + ' createTable', L.execute(('createTable', 'create_table')), [squeeze(t.create('@'))]))
    do(c, 'create-table', site, lambda: c.eq('create-table', site + ' deleteTable', L.execute(('deleteTable', 'delete_table')), ['DROP TABLE @']))
    for sel in selections(t, c.tier):
        cols = L.chosen(sel)
        w = '%s, columns %s' % (site, 'all' if sel is None else ', '.join(sel))

        def reading():
            q, vals, n = L.read(sel, ())
            c.ob('select', w, None if expected('read', cols) in q else 'the query is %s, must be %s' % (q, expected('read', cols)), q[:1])
            c.eq('read-columns', w, sorted(vals), sorted(x.name for x in cols))
            for pos, col in enumerate(cols):
                if col.name in vals:
                    c.ob('read-value', '%s: %s' % (w, col.name), value_problem(lang, corpus.schema, col, vals[col.name], pos, t, sel))
        do(c, 'read-value', w, reading)
        if sel is None or len(sel) == len(t.columns) - 1 and len(sel) > 1:
            for k, col in enumerate(cols):
                def nulls():
                    q, vals, n = L.read(sel, (k,))
                    c.eq('read-null', '%s: %s is NULL' % (w, col.name), sorted(vals), sorted(x.name for x in cols if x.name != col.name))
                do(c, 'read-null', w, nulls)
        for op in ('write', 'update'):
            def writing(null=()):
                q, binds, ev = L.write(op, sel, null)
                if not null:
                    c.ob('insert' if op == 'write' else 'update', w, None if expected(op, cols) in q else 'the query is %s, must be %s' %
                         (q, expected(op, cols)), q[:1])
                if binds is None:
                    c.ob('write-value', w + ' ' + op, None)
                    return
                rule = 'write-null' if null else 'write-value'
                c.eq(rule, '%s: positions %s%s' % (w, op, ' with %s NULL' % null[0] if null else ''), [b[0] for b in binds], list(range(1, len(cols) + 1)))
                for b, col in zip(binds, cols):
                    c.ob(rule, '%s: %s %s%s' % (w, op, col.name, ' with %s NULL' % null[0] if null else ''), bind_problem(lang, col, b, ev, null))
            do(c, 'write-value', w, writing)
            if sel is None or len(sel) == len(t.columns) - 1 and len(sel) > 1:
                for col in cols:
                    do(c, 'write-null', w, lambda: writing((col.name,)))


def bind_problem(lang, col, b, ev, null):
    pos, how, v = b
    if lang == 'python':
        if col.name in null:
            return None if v is None else 'writes %s for NULL' % (v,)
        if col.type.kind == 'compound':
            ws = [e for e in ev if e[0] == 'call' and e[1] == 'write' and Facts(e[2]).columns == [col.i]]
            if not ws:
                return 'is not serialized'
            return None if 'byte_array' in Facts(v).attrs else 'writes %s' % (v,)
        if Facts(v).columns != [col.i]:
            return 'writes %s' % (v,)
        if col.type.kind in ('enum', 'bitmask') and 'value' not in Facts(v).attrs:
            return 'writes %s instead of its value' % (v,)
        return None
    if col.name in null:
        return None if CLASS[how] == 'null' else 'is written with %s although it is NULL' % how
    k = CLASS[how]
    if k != col.cls and not (col.cls == 'float' and k == 'double'):
        return 'is written with %s' % how
    if how in HOLDS and col.bits is not None and HOLDS[how] < min(col.bits, 64):
        return 'is written with %s, which does not hold it' % how
    f = Facts(v)
    if set(f.getters) - {'getValue' if col.type.kind != 'prim' and col.cap != 'Value' else '', 'getBuffer', 'getByteSize', 'getBitSize'} != {'get' + col.cap}:
        return 'writes %s' % (v,)
    if col.type.kind == 'compound' and lang == 'cpp':
        ws = [e for e in ev if e[0] == 'call' and e[1] == 'write' and e[2] and isinstance(e[2], tuple) and e[2][:2] == ('call', 'get' + col.cap)]
        if not ws:
            return 'is not serialized'
    if col.type.kind == 'compound' and lang == 'java' and not {'serializeToBytes', 'write'} & set(f.names):
        return 'is not serialized'
    if lang == 'cpp':
        for x in walk(v):
            if x[0] == 'cast':
                m = re.match(r'(?:const )?(u?)int(8|16|32|64)_t$', str(x[1]).replace('std::', '').strip(':'))
                if m and col.bits and int(m.group(2)) < min(col.bits, 64):
                    return 'is narrowed to %s' % x[1]
    return None


def sql(c):
    corpus = gen.corpus(CORPUS)
    ts = tables(corpus.schema)
    for lang in c.langs:
        for t in ts.values():
            table_rules(c, lang, corpus, t)
        c.programs.add('%s %s' % (CORPUS, lang))
