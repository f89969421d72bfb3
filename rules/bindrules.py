"""Generated code binds: every name, member, call and include of it resolves in every language and option set."""
import ast
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
import build
import gen
import pybind

OPTIONS = {
    'default': gen.OPTS,
    'plain': [],
    'lean': ['-withoutWriterCode', '-withoutSourcesAmalgamation'],
    'lists': ['-withTypeInfoCode', '-withoutSourcesAmalgamation', '-withoutValidationCode', '-withoutReflectionCode'],
}
SERV = 'serv.zs'


def emit(lang, corpus, opts, extra=()):
    """Directory with what the current tree generates."""
    top = dict(gen.CORPORA, serv=SERV)[corpus]
    comp = build.compiler_classes()
    args = [o for o in OPTIONS[opts]] + list(extra)

    def make(tmp):
        build.zserio(['-' + lang, tmp, '-src', os.path.join(build.VERIF, 'corpus'), '-allowImplicitArrays'] +
                     [o for o in args if o != '-allowImplicitArrays'] + [top])
    return build.cached('gen-%s-%s-%s' % (corpus, lang, opts) if opts != 'default' else 'gen-%s-%s' % (corpus, lang),
                        build.digest(build.files(os.path.join(build.VERIF, 'corpus')), comp if opts == 'default' else comp + repr(args)), make)


def python(c, corpus, opts):
    root = emit('python', corpus, opts)
    rt = os.path.join(build.REPO, 'compiler/extensions/python/runtime/src')
    w = pybind.World([(root, True), (rt, False)])

    def where(m, n):
        return 'python %s (options %s) %s:%d' % (corpus, opts, os.path.relpath(m.path, root), n.lineno)
    for m in sorted(w.mods.values(), key=lambda m: m.name):
        if not m.generated:
            continue
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    bad = w.known(a.name.split('.')[0]) and not w.known(a.name)
                    c.ob('python-import', where(m, s), 'imports %s, which no generated or runtime module provides' % a.name if bad else None,
                         a.name)

        for f in ast.walk(m.tree):
            if isinstance(f, ast.FunctionDef):
                bad = pybind.Assigned(f).out
                c.ob('python-assigned', '%s %s' % (where(m, f), f.name), '; '.join('line %d reads %s, which some path has not assigned' % (n, x)
                                                                                for x, n in bad[:3]) or None, 'every local is assigned before it is read')

        def found(u, n, d):
            call = isinstance(n, ast.Call)
            r, i = u.denotes(d)
            if not call:
                if u.ann and m.future:
                    kind = 'python-annotation'
                else:
                    kind = 'python-name' if len(d) == 1 else 'python-member'
                bad = None
                if r is None:
                    bad = ('the name %s is bound nowhere' % d[0]) if i == 0 else '%s has no %s' % ('.'.join(d[:i]), d[i])
                c.ob(kind, where(m, n), bad, '.'.join(d))
                return
            if r is None or r is pybind.EXT or r[0] != 'def':
                return
            f, skip = r[2], 0
            if isinstance(f, ast.ClassDef):
                f = w.class_attribute(r[1], f, '__init__')
                if not isinstance(f, tuple) or not isinstance(f[2], ast.FunctionDef):
                    return
                f, skip = f[2], 1
            elif pybind.is_classmethod(f):
                skip = 1
            elif pybind.is_property(f):
                return
            elif not pybind.is_static(f):
                cls, first = u.owner()
                if cls is not None and first and first[0] == d[0] and not first[1]:
                    skip = 1
                elif len(d) == 2 and d[0] == 'self':
                    skip = 1
            c.ob('python-call', where(m, n), (lambda p: 'the call of %s does not fit its definition: %s' % ('.'.join(d), p) if p else None)(
                pybind.signature_problem(n, f, skip)), '.'.join(d))
        pybind.Uses(w, m, found).visit(m.tree)
    count = [0]

    for m in sorted(w.mods):
        if not w.mods[m].generated:
            continue
        bad = []

        def problem(x, n, what):
            bad.append('%s: %s' % (where(x, n), what))

        def use(x, n):
            count[0] += 1
        imp = pybind.Importing(w, problem, use)
        imp.load(m)
        c.ob('python-import-order', 'python %s (options %s) import of %s' % (corpus, opts, m), '; '.join(bad[:3]) or None,
             '%d import time uses' % count[0])


def javac(c, corpus, opts):
    root = emit('java', corpus, opts)
    rt = build.files(os.path.join(build.REPO, 'compiler/extensions/java/runtime/src'), ext='.java')
    srcs = build.files(root, ext='.java')
    out = build.cached('jcls-%s-%s' % (corpus, opts), build.digest(srcs + rt), lambda tmp: compile_java(tmp, srcs, rt))
    with open(out + '/errors') as f:
        errs = f.read().splitlines()
    bad = {}
    for l in errs:
        p = l.split(':', 2)
        bad.setdefault(p[0], []).append(':'.join(p[1:])[:300])
    for s in srcs:
        c.ob('java-unit', 'java %s (options %s) %s' % (corpus, opts, os.path.relpath(s, root)),
             'the compiler rejects it: ' + '; '.join(bad[s][:3]) if s in bad else None, 'attributed without an error')
    rest = [k for k in bad if k not in srcs]
    if rest:
        c.ob('java-unit', 'java %s (options %s)' % (corpus, opts), 'the compiler rejects it: %s %s' % (rest[0], bad[rest[0]][0]))


def compile_java(tmp, srcs, rt):
    with open(tmp + '/files', 'w') as f:
        f.write('\n'.join(srcs + rt))
    p = subprocess.run(['javac', '-nowarn', '-proc:none', '-Xmaxerrs', '1000', '-encoding', 'UTF-8', '-d', tmp + '/out', '@' + tmp + '/files'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    errs = [l for l in p.stdout.splitlines() if ': error:' in l or l.startswith('error:')]
    if p.returncode and not errs:
        raise build.BuildFailure('javac failed without an error message:\n' + p.stdout[-3000:])
    with open(tmp + '/errors', 'w') as f:
        f.write('\n'.join(errs))
    subprocess.run(['find', tmp + '/out', '-name', '*.class', '-delete'])


WARN = ['-Wreturn-type', '-Wreorder-ctor', '-Wuninitialized', '-Wdelete-non-virtual-dtor', '-Wnon-virtual-dtor']


def clang(c, corpus, opts):
    root = emit('cpp', corpus, opts)
    rt = os.path.join(build.REPO, 'compiler/extensions/cpp/runtime/src')
    files = build.files(root, ext='.cpp') + build.files(root, ext='.h')
    deps = files + build.files(rt, ext='.h')

    def make(tmp):
        def one(f):
            p = subprocess.run(['clang++', '-std=c++11', '-fsyntax-only', '-ferror-limit=3', '-w', '-x', 'c++', '-I', rt, '-I', root, f],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            errs = [l for l in p.stdout.splitlines() if 'error:' in l]
            return f, (errs or [p.stdout[-500:]]) if p.returncode else []
        with ThreadPoolExecutor(build.JOBS) as ex:
            res = list(ex.map(one, files))
        with open(tmp + '/errors', 'w') as o:
            for f, errs in res:
                for e in errs:
                    o.write('%s\t%s\n' % (f, e.replace('\n', ' ')[:300]))
    out = build.cached('ccls-%s-%s' % (corpus, opts), build.digest(deps), make)
    bad = {}
    with open(out + '/errors') as f:
        for l in f:
            p, e = l.rstrip('\n').split('\t', 1)
            bad.setdefault(p, []).append(e.replace(root + '/', ''))
    for f in files:
        c.ob('cpp-unit', 'cpp %s (options %s) %s' % (corpus, opts, os.path.relpath(f, root)),
             'it does not compile on its own: ' + '; '.join(bad[f][:2]) if f in bad else None, 'resolved without an error')


PLAN = {
    'python': [(k, 'default') for k in ('wire', 'multi', 'expr', 'enums', 'shapes', 'serv')] + [(k, o) for k in ('serv', 'multi') for o in ('plain', 'lean', 'lists')],
    'java': [(k, 'default') for k in ('wire', 'multi', 'expr', 'enums', 'serv')] + [(k, o) for k in ('serv', 'multi') for o in ('plain', 'lean', 'lists')],
    'cpp': [(k, 'default') for k in ('wire', 'multi', 'serv', 'expr')] + [('serv', 'plain'), ('serv', 'lean'), ('multi', 'lists')],
}


def binds(c):
    for lang in c.langs:
        for corpus, opts in PLAN[lang]:
            {'python': python, 'java': javac, 'cpp': clang}[lang](c, corpus, opts)
            c.programs.add('%s/%s' % (corpus, opts))
