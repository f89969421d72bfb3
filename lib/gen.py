"""One corpus schema: generated by the compiler built from the current tree, parsed by the front ends of the three
languages, and modelled independently from the schema text."""
import functools
import os
import re
import shutil
import build
import model
import genpy
import genjava
import gencpp
from canon import *

OPTS = ['-withTypeInfoCode', '-withReflectionCode', '-withValidationCode', '-allowImplicitArrays',
        '-withoutSourcesAmalgamation']
CORPORA = {'wire': 'wire.zs', 'grid': 'grid.zs', 'widths': 'widths.zs', 'packs': 'packs.zs', 'multi': 'multi/top.zs', 'expr': 'expr.zs', 'enums': 'enums.zs', 'shapes': 'shapes.zs',
           'serv': 'serv.zs'}


class Corpus:
    def __init__(self, name):
        self.name = name
        self.top = CORPORA[name]
        self.zs = os.path.join(build.VERIF, 'corpus', self.top)

    @functools.cached_property
    def schema(self):
        return model.load(self.top)

    @functools.lru_cache(None)
    def root(self, lang):
        """Directory with what is generated for python, java, cpp, xml or doc."""
        comp = build.compiler_classes()

        def make(tmp):
            build.zserio(['-' + lang, tmp, '-src', os.path.join(build.VERIF, 'corpus')] + OPTS + [self.top])
        return build.cached('gen-%s-%s' % (self.name, lang), build.digest(build.files(os.path.join(build.VERIF, 'corpus')), comp), make)

    @functools.cached_property
    def py(self):
        return genpy.load(self.root('python'), self.schema.pkg, self.schema)

    @functools.cached_property
    def java_units(self):
        rt = build.files(os.path.join(build.REPO, 'compiler/extensions/java/runtime/src'), ext='.java')
        return build.java_ir(build.files(self.root('java'), ext='.java') + rt, cp=build.jars(), tag=self.name)

    def unique(self, ir, sep):
        """The IR with the names that several packages use replaced by those the model uses; only resolved, qualified names change."""
        names = {q.replace('.', sep) + sep + n: (q.replace('.', sep) + sep + a, n, a) for (q, n), a in self.schema.clashes.items()}
        if not names:
            return ir
        pat = re.compile(r'(?<![\w.])(?<!\w::)(%s)(?!\w)' % '|'.join(re.escape(n) for n in sorted(names, key=len, reverse=True)))

        def walk(x):
            if isinstance(x, str):
                return pat.sub(lambda m: names[m.group(1)][0], x) if sep in x else x
            if isinstance(x, list):
                return [walk(y) for y in x]
            if isinstance(x, dict):
                y = {a: walk(b) for a, b in x.items()}
                if 'q' in y and y['q'] != x['q'] and x.get('name') == x['q'].split(sep)[-1]:
                    y['name'] = y['q'].split(sep)[-1]
                    for m in y.get('methods', ()):
                        if m['name'].lstrip('~') == x['name']:
                            m['name'] = m['name'].replace(x['name'], y['name'])
                return y
            return x
        return walk(ir)

    @functools.cached_property
    def java(self):
        return genjava.load(self.unique(self.java_units, '.'), self.schema.pkg, self.schema)

    @functools.cached_property
    def cpp_ir(self):
        """IR of the generated C++, from a few translation units that each include a share of the sources."""
        root = self.root('cpp')
        srcs = build.files(root, ext='.cpp')
        rt = os.path.join(build.REPO, 'compiler/extensions/cpp/runtime/src')
        parts = max(1, min(build.JOBS, len(srcs) // 20))
        groups = [[] for _ in range(parts)]
        load = [0] * parts
        for f in sorted(srcs, key=lambda f: (-os.path.getsize(f), f)):
            i = load.index(min(load))
            groups[i].append(f)
            load[i] += os.path.getsize(f) + 2000

        stems = {f[:-4] for f in srcs}
        lone = [h for h in build.files(root, ext='.h') if h[:-2] not in stems]

        def make(tmp):
            for i, g in enumerate(groups):
                with open(tmp + '/%d.cpp' % i, 'w') as f:
                    f.write(''.join('#include "%s"\n' % s for s in (lone if not i else []) + g))
        deps = srcs + build.files(root, ext='.h') + build.files(rt, ext='.h')
        u = build.cached('unity-' + self.name, build.digest(deps), make)
        out = None
        roots = [[f[:-3] for f in g] + ([h[:-1] for h in lone] if not i else []) for i, g in enumerate(groups)]
        for ir in build.cpp_ir([u + '/%d.cpp' % i for i in range(parts)], roots, [rt, root], 'unity-' + self.name, deps):
            if out is None:
                out = ir
            else:
                for k in out:
                    if isinstance(out[k], list):
                        out[k] += ir[k]
        return out

    @functools.cached_property
    def cpp(self):
        return gencpp.load(self.cpp_unique, self.schema.pkg, self.schema)

    @functools.cached_property
    def cpp_functions(self):
        """{enumeration: {function name: [functions]}} of the specializations for enumerations."""
        out = {}
        types = {e['name']: self.schema.types.get(key(e['name'].split('::')[-1])) for e in self.cpp_unique['enums']}
        for f in self.cpp_unique['functions']:
            for q in {gencpp.bare(t) for t in list(f['cptypes']) + [f['cret']] + list(f.get('targs') or ())}:
                n = types.get(q)
                if n:
                    out.setdefault(n, {}).setdefault(f['name'], []).append(f)
        return out

    @functools.cached_property
    def cpp_traits(self):
        """{enumeration: {'names': [...], 'values': [...]}}"""
        out = {}
        for v in self.cpp_unique['vars']:
            m = re.match(r'zserio::EnumTraits<(?:::)?([\w:]+)>::(names|values)$', v['name'].replace('< ::', '<'))
            n = m and self.schema.types.get(key(m.group(1).split('::')[-1]))
            if n and v['init']:
                out.setdefault(n, {})[m.group(2)] = [x[1] for x in leaves(v['init'])]
        return out

    @functools.cached_property
    def cpp_unique(self):
        return self.unique(self.cpp_ir, '::')

    def constants(self, l):
        if l == 'python':
            return genpy.constants(self.root('python'), self.schema)
        if l == 'java':
            return genjava.constants(self.java, self.schema)
        return gencpp.constants(self.cpp_unique, self.schema)

    def lang(self, l):
        return {'python': lambda: self.py, 'java': lambda: self.java, 'cpp': lambda: self.cpp}[l]()


def leaves(e):
    """The names and literals of an initializer list."""
    if isinstance(e, list) and e and e[0] in ('str', 'name'):
        return [e]
    return [x for y in e if isinstance(y, list) for x in leaves(y)] if isinstance(e, list) else []


@functools.lru_cache(None)
def corpus(name):
    return Corpus(name)


R, W, P = 'BitStreamReader', 'BitStreamWriter', 'Context'
PY = {('write', False): 'write', ('write', True): 'write_packed', ('read', False): 'read', ('read', True): 'read_packed',
      ('size', False): 'bitsizeof', ('size', True): 'bitsizeof_packed', ('end', False): 'initialize_offsets',
      ('end', True): 'initialize_offsets_packed', ('init', True): 'init_packing_context'}
OO = {('write', False): ('write', (W,)), ('write', True): ('write', (P, W)), ('read', False): ('read', (R,)),
      ('read', True): ('read', (P, R)), ('size', False): ('bitSizeOf', ('long',)), ('size', True): ('bitSizeOf', (P, 'long')),
      ('end', False): ('initializeOffsets', ('long',)), ('end', True): ('initializeOffsets', (P, 'long')),
      ('init', True): ('initPackingContext', (P,))}


def entry(lang, cls, decl, what, ctx):
    """The generated method that implements one serialization step of a type, or None. In C++ reading is construction."""
    flags = decl['kind'] in ('enum', 'bitmask') and what == 'read'
    if lang == 'python':
        n = PY[what, ctx]
        if flags:
            n = 'from_reader_packed' if ctx else 'from_reader'
        return n if cls.has(n) else None
    name, pt = OO[what, ctx]
    if lang == 'java':
        if flags:
            name = 'readEnum' if decl['kind'] == 'enum' else '<init>'
        return cls.select(name, *pt)
    if decl['kind'] == 'enum':
        if what == 'size':
            return cls.free(name, *(pt[:-1] + (cls.q,)))
        if what == 'read':
            return cls.free_read(ctx)
        return cls.free(name, *(pt + (cls.q,)))
    if what == 'read':
        return cls.ctor_read(ctx)
    return cls.select(name, *pt)


def where(lang, cls, m, corpus):
    n = m if isinstance(m, str) else m['name']
    f = cls.file
    for p in (corpus.root(lang) + '/',):
        f = f.replace(p, '')
    line = ''
    if not isinstance(m, str) and m.get('line'):
        line = ':%s' % m['line']
        if m.get('file'):
            f = m['file'].replace(corpus.root(lang) + '/', '')
    return '%s%s %s' % (f, line, n)
