"""Services and pubsubs of the generated code: which method a name calls, what is decoded and encoded, which topic is used."""
import gen
import cfold
import sqlrules
from canon import key
from sqlrules import CLASSES, CORPUS, Facts, statics, walk, same, do

IMPL = {'python': '_%s_impl', 'java': '%sImpl', 'cpp': '%sImpl'}


def typename(schema, t):
    return None if t['name'] == 'bytes' else schema.resolve(t, None).name


class Lang:
    def __init__(self, lang, corpus):
        self.lang, self.schema = lang, corpus.schema
        self.classes = CLASSES(lang, corpus)

    def cls(self, *names):
        for n in names:
            if n in self.classes:
                return self.classes[n]
        raise cfold.Lost('there is no class ' + names[0])

    def fold(self, cl, owner=None):
        st = statics(self.lang, cl)
        for o in (owner,) if owner else ():
            st.update(statics(self.lang, o))
        f = cfold.Fold(self.lang, cl, st, lambda t: False)
        for n in [n for n in f.methods if key(n).endswith('impl')]:
            del f.methods[n]
        return f

    def pick(self, f, name):
        """The longest overload of the method whose name is the given one but for case and underscores."""
        ms = [m for n in f.methods for m in f.methods[n] if key(n) == key(name) and m.get('body') is not None]
        return max(ms, key=lambda m: len(f.names(m))) if ms else None

    # -- services

    def service(self, d):
        n = d['name']
        return self.cls(n + '.Service', '%s.%sService' % (n, n)), self.classes.get(n)

    def table(self, d):
        """{method name: what runs}"""
        cl, owner = self.service(d)
        f = self.fold(cl, owner)
        if self.lang == 'cpp':
            return f, None
        if self.lang == 'python':
            f.run('__init__', [])
            maps = [v for v in f.statics.values() if isinstance(v, tuple) and v and v[0] == 'dict']
            if not maps:
                raise cfold.Lost('no map of methods is made')
            return f, {k: v for k, v in maps[-1][1:]}
        f.run('<init>', [])
        return f, {e[3]: e[4] for e in f.events if e[0] == 'call' and e[1] == 'put' and len(e) == 5}

    def serve(self, d, name):
        """(return value, events) of a call of the service by name."""
        f, t = self.table(d)
        f.events.clear()
        a = [('v', 'data'), ('v', 'context')]
        if t is None:
            m = self.pick(f, 'callMethod')
            if m is None:
                raise cfold.Lost('there is no method callMethod')
            return f.invoke(m, [name] + a), f.events
        if name not in t:
            raise cfold.Thrown('no method of this name is known')
        v = t[name]
        if self.lang == 'python':
            if not (isinstance(v, tuple) and v[0] == 'attr' and v[2] in f.methods):
                raise cfold.Lost('the map holds %s' % (v,))
            return f.run(v[2], a), f.events
        q = [x[1] for x in walk(v) if x[0] == 'class']
        k = cfold.Fold.local_definitions.get(q[0]) if q else None
        if k is None:
            raise cfold.Lost('the map holds %s' % (v,))
        ms = [m for m in k['methods'] if m['name'] != '<init>' and m.get('body') is not None]
        return f.invoke(ms[0], a), f.events

    def names(self, d):
        cl, owner = self.service(d)
        f = self.fold(cl, owner)
        m = self.pick(f, 'methodNames')
        if m is None:
            raise cfold.Lost('there is no method methodNames')
        v = f.invoke(m, [])
        while isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
            v = v[0]
        return v

    def full_name(self, d):
        cl, owner = self.service(d)
        f = self.fold(cl, owner)
        m = self.pick(f, 'serviceFullName')
        if m is None:
            raise cfold.Lost('there is no method serviceFullName')
        return cfold.text(f.invoke(m, []))

    def decoded(self, t, want, data):
        """Is the term a want decoded from data (or data itself for bytes)?"""
        if want is None:
            types = [n for n in Facts(t).types if 'zserio' not in n and 'Span' not in n]
            return not types and data(t)
        for x in walk(t if isinstance(t, tuple) else ('x',)):
            ty = None
            if x[0] == 'new' and 'BitStreamReader' in repr(x[2:3])[:70]:
                ty = str(x[1]).replace('const ', '').replace('::', '.').strip('.')
            elif x[0] == 'call' and x[1] == 'from_reader':
                ty = sqlrules.dotted(x[2])
            if ty:
                return same(self.schema, ty, want) and data(x)
        return False

    def encoded(self, t, want, has, events):
        """Is the term service data that holds an object of want (None: raw bytes)?"""
        kinds = [str(x[1]) for x in walk(t if isinstance(t, tuple) else ('x',)) if x[0] == 'new' or (x[0] == 'call' and 'ServiceData' in str(x[1]))]
        kinds = [k for k in kinds if 'ServiceData' in k and 'Ptr' not in k]
        if not has(t):
            return False
        if not kinds:
            return self.lang == 'cpp'
        return ('RawServiceData' in kinds[0]) == (want is None)


def only(term):
    return lambda t: any(x == term for x in walk(t))


def services(c, lang, corpus, d):
    L = Lang(lang, corpus)
    S = corpus.schema
    site = '%s %s' % (lang, d['name'])
    names = [m['name'] for m in d['methods']]
    do(c, 'service-names', site, lambda: c.eq('service-names', site + ' method names', L.names(d), names))
    do(c, 'service-names', site, lambda: c.eq('service-names', site + ' full name', L.full_name(d), '%s.%s' % (S.pkg, d['name'])))
    for n in names + ['noSuchMethod']:
        if n != 'noSuchMethod':
            continue

        def unknown():
            try:
                r = L.serve(d, n)
            except cfold.Thrown:
                c.ob('service-unknown', site, None, 'an unknown name is refused')
                return
            c.ob('service-unknown', site, 'an unknown name is answered with %s' % (r[0],))
        do(c, 'service-unknown', site, unknown)
    for m in d['methods']:
        req, resp = typename(S, m['req']), typename(S, m['resp'])
        w = '%s.%s' % (site, m['name'])

        def serving():
            r, ev = L.serve(d, m['name'])
            calls = [e for e in ev if e[0] == 'call' and key(e[1]).endswith('impl')]
            c.eq('service-dispatch', w, [key(e[1]) for e in calls], [key(IMPL[lang] % m['name'])])
            if len(calls) == 1:
                a = calls[0][3:]
                c.ob('service-request', w, None if a and L.decoded(a[0], req, only(('v', 'data'))) else
                     'the request is %s, must be %s' % (a[:1], req or 'the data'), req)
                c.ob('service-response', w, None if L.encoded(cfold.freeze(r), resp, only(calls[0]), ev) else
                     'the answer is %s, must hold the response %s' % (cfold.freeze(r), resp or 'bytes'), resp)
                c.eq('service-context', w, a[1] if len(a) > 1 else None, ('v', 'context'))
        do(c, 'service-dispatch', w, serving)

        def client():
            cl = L.cls(d['name'] + '.Client', '%s.%sClient' % (d['name'], d['name']))
            f = L.fold(cl, L.classes.get(d['name']))
            k = L.pick(f, m['name']) or L.pick(f, m['name'] + 'Method')
            if k is None:
                c.ob('client-call', w, 'the client has no method for it')
                return
            r = cfold.freeze(f.invoke(k, [('v', 'request'), ('v', 'context')]))
            calls = [e for e in f.events if e[0] == 'call' and key(e[1]) == 'callmethod']
            c.eq('client-call', w, [e[3] for e in calls], [m['name']])
            if len(calls) == 1:
                c.ob('client-request', w, None if L.encoded(calls[0][4], req, only(('v', 'request')), f.events) else
                     'sends %s for a request of type %s' % (calls[0][4], req or 'bytes'), req)
                c.ob('client-response', w, None if L.decoded(r, resp, only(calls[0])) else
                     'returns %s, must be %s' % (r, resp or 'the data'), resp)
                c.eq('service-context', w + ' client', calls[0][5] if len(calls[0]) > 5 else None, ('v', 'context'))
        do(c, 'client-call', w, client)


def pubsubs(c, lang, corpus, d):
    L = Lang(lang, corpus)
    S = corpus.schema
    cl = L.cls(d['name'])
    for m in d['messages']:
        want = typename(S, m['type'])
        topic = S.const_value(m['topic'])
        w = '%s %s.%s' % (lang, d['name'], m['name'])

        def publishing():
            f = L.fold(cl)
            k = L.pick(f, 'publish' + m['name'])
            c.ob('publish-exists', w, None if (k is not None) == m['pub'] else 'it can%s be published' % ('not' if m['pub'] else ''))
            if k is None or not m['pub']:
                return
            f.invoke(k, [('v', 'message'), ('v', 'context')])
            out = [e for e in f.events if e[0] == 'call' and e[1] == 'publish']
            c.eq('publish-topic', w, [cfold.text(e[3]) for e in out], [topic])
            if len(out) == 1:
                e = out[0]
                if want is None:
                    c.ob('publish-data', w, None if only(('v', 'message'))(e[4]) else 'publishes %s' % (e[4],))
                else:
                    ws = [x for x in f.events if x[0] == 'call' and x[1] == 'write' and x[2] == ('v', 'message')]
                    sink = [x for x in f.events if x[0] == 'call' and x[1] in ('toByteArray', 'getBytes', 'getWriteBuffer')] or \
                        [x for x in walk(e[4]) if x[0] == 'attr']
                    ok = len(ws) == 1 and sink and not only(('v', 'message'))(ws[0][3] if lang != 'cpp' else ('x',)) and \
                        (lang != 'python' or 'byte_array' in Facts(e[4]).attrs)
                    c.ob('publish-data', w, None if ok else 'publishes %s' % (e[4],))
                c.eq('pubsub-context', w + ' publish', e[5] if len(e) > 5 else None, ('v', 'context'))
        do(c, 'publish-topic', w, publishing)

        def subscribing():
            f = L.fold(cl)
            k = L.pick(f, 'subscribe' + m['name'])
            c.ob('subscribe-exists', w, None if (k is not None) == m['sub'] else 'it can%s be subscribed' % ('not' if m['sub'] else ''))
            if k is None or not m['sub']:
                return
            r = f.invoke(k, [('v', 'callback'), ('v', 'context')])
            out = [e for e in f.events if e[0] == 'call' and e[1] == 'subscribe']
            c.eq('subscribe-topic', w, [cfold.text(e[3]) for e in out], [topic])
            if len(out) != 1:
                return
            c.eq('pubsub-context', w + ' subscribe', out[0][5] if len(out[0]) > 5 else None, ('v', 'context'))
            c.ob('subscribe-id', w, None if r == out[0] else 'returns %s' % (cfold.freeze(r),))
            if lang == 'cpp':
                return
            cb = out[0][4]
            name = cb[1] if cb[0] == 'localdef' else next((x[1] for x in walk(cb) if x[0] == 'class'), None)
            k2 = cfold.Fold.local_definitions.get(name)
            if k2 is None:
                raise cfold.Lost('the callback is %s' % (cb,))
            body = k2 if 'body' in k2 else [x for x in k2['methods'] if x['name'] != '<init>' and x.get('body') is not None][0]
            g = L.fold(cl)
            env = {p: a for p, a in zip(g.names(body), [('v', 'topic'), ('v', 'data')])}
            for p in f.names(k):
                env.setdefault(p, ('v', p))
            env[f.names(k)[0]] = ('v', 'callback')
            try:
                g.block(body['body'], env)
            except cfold.Return:
                pass
            calls = [e for e in g.events if e[0] == 'call' and (e[1] in ('callback', '()') or e[2] == ('v', 'callback')) and
                     e[1] not in ('BitStreamReader',)]
            if len(calls) != 1:
                c.ob('subscribe-data', w, 'the callback is called %d times' % len(calls))
                return
            a = calls[0][3:]
            ok = len(a) == 2 and a[0] == ('v', 'topic') and L.decoded(a[1], want, only(('v', 'data')))
            c.ob('subscribe-data', w, None if ok else 'hands %s to the callback, must be the topic and %s' % (a, want or 'the data'))
        do(c, 'subscribe-topic', w, subscribing)


def databases(c, lang, corpus, d):
    """Every table of a database is made, created and deleted under its own name."""
    S = corpus.schema
    L = Lang(lang, corpus)
    cl = L.cls(d['name'])
    names = [f['name'] for f in d['fields']]
    site = '%s %s' % (lang, d['name'])
    types = {f['name']: S.instantiate(f['type']) if f['type']['targs'] else f['type']['name'] for f in d['fields']}
    for op in ('createSchema', 'deleteSchema'):
        def run():
            f = L.fold(cl)
            ms = [m for n in f.methods for m in f.methods[n] if key(n) == key(op) and m.get('body') is not None]
            m = min(ms, key=lambda m: len(f.names(m)))
            f.invoke(m, [])
            what = 'createtable' if op == 'createSchema' else 'deletetable'
            got = [next((str(y[-1]) for y in walk(e[2]) if y[0] in ('attr', 'v')), '?') for e in f.events if e[0] == 'call' and
                   key(e[1]) == what and isinstance(e[2], tuple)]
            c.eq('database-' + op, site, [key(g.replace('m_', '', 1) if lang == 'cpp' else g) for g in got], [key(n) for n in names])
        do(c, 'database-' + op, site, run)

    def getters():
        f = L.fold(cl)
        for n in names:
            k = L.pick(f, 'get' + n) or L.pick(f, n)
            if k is None:
                c.ob('database-table', '%s.%s' % (site, n), 'there is no access to the table')
                continue
            r = cfold.freeze(f.invoke(k, []))
            got = next((str(y[-1]) for y in walk(r if isinstance(r, tuple) else ('x',)) if y[0] in ('attr', 'v')), '?')
            c.eq('database-table', '%s.%s' % (site, n), key(got.replace('m_', '', 1) if lang == 'cpp' else got), key(n))
    do(c, 'database-table', site, getters)

    def made():
        f = L.fold(cl)
        ms = [m for n in f.methods for m in f.methods[n] if key(n) in ('inittables', 'init') and m.get('body') is not None]
        if not ms:
            raise cfold.Lost('no method makes the tables')
        f.invoke(ms[0], [])
        got = {}
        if lang == 'cpp':
            for e in f.events:
                if e[0] in ('set', 'call'):
                    for x in walk(e):
                        pass
        for n, v in f.statics.items():
            for x in walk(v if isinstance(v, tuple) else ('x',)):
                ty = str(x[1]) if x[0] == 'new' else x[1] if x[0] == 'call' else None
                if ty:
                    texts = [y for y in x[2:] if isinstance(y, str)]
                    attr = [sqlrules.query(y) for y in x[2:]]
                    got[key(n)] = (ty.split('.')[-1].split('::')[-1], texts)
                    break
        if not got:
            raise cfold.Lost('no tables are made')
        for n in names:
            g = got.get(key(n)) or got.get(key('_' + n)) or got.get(key(n + '_'))
            c.eq('database-made', '%s.%s' % (site, n), g, (types[n], [n]))
    if lang != 'cpp':
        do(c, 'database-made', site, made)

    def tnames():
        f = L.fold(cl)
        m = L.pick(f, 'tableNames')
        if m is None:
            raise cfold.Lost('there is no method tableNames')
        v = f.invoke(m, [])
        while isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
            v = v[0]
        c.eq('database-names', site, v, names)
    if lang != 'python':
        do(c, 'database-names', site, tnames)


def net(c):
    corpus = gen.corpus(CORPUS)
    for lang in c.langs:
        for d in corpus.schema.decls.values():
            if d['kind'] == 'service':
                services(c, lang, corpus, d)
            elif d['kind'] == 'pubsub':
                pubsubs(c, lang, corpus, d)
        c.programs.add('%s %s' % (CORPUS, lang))


def dbs(c):
    corpus = gen.corpus(CORPUS)
    for lang in c.langs:
        for d in corpus.schema.decls.values():
            if d['kind'] == 'sql_database':
                databases(c, lang, corpus, d)
