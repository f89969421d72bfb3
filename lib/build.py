"""Builds what the analyses read, always from /repo's current working tree: the Zserio compiler (ANTLR parser, core and
all five generator extensions), the code it generates for the corpus, and the IR of generated and hand-written sources.
Everything is cached by the digest of the sources that go in, under a git-ignored directory."""
import concurrent.futures as cf
import fcntl
import functools
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
JOBS = 8
EXTS = ('cpp', 'java', 'python', 'xml', 'doc')


class Broken(Exception):
    """The analysis could not be carried out (not a verdict)."""


class BuildFailure(Exception):
    """/repo's current tree does not build, or the generator does not accept the corpus."""


def run(cmd, cwd=None, what=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if p.returncode:
        raise BuildFailure('%s failed (%s):\n%s' % (what or cmd[0], p.returncode, p.stdout.decode('utf8', 'replace')[-6000:]))
    return p.stdout.decode('utf8', 'replace')


def files(*roots, ext=None):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
            continue
        for d, ds, fs in os.walk(r):
            ds.sort()
            ds[:] = [x for x in ds if x != '__pycache__']
            for f in sorted(fs):
                if ext is None or f.endswith(ext):
                    out.append(os.path.join(d, f))
    return out


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def cached(kind, key, make):
    """Directory CACHE/kind-key, made by make(tmpdir) under a lock when it is not there."""
    os.makedirs(CACHE, exist_ok=True)
    dst = os.path.join(CACHE, '%s-%s' % (kind, key))
    with open(os.path.join(CACHE, kind + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.isdir(dst):
            tmp = dst + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            make(tmp)
            os.rename(tmp, dst)
            old = sorted((d for d in glob.glob(os.path.join(CACHE, kind + '-*'))
                          if d != dst and '-' not in os.path.basename(d)[len(kind) + 1:] and not d.endswith(('.lock', '.tmp'))),
                         key=os.path.getmtime)
            for d in old[:-3]:
                shutil.rmtree(d, ignore_errors=True)
    return dst


def jars():
    return sorted(glob.glob(os.path.join(REPO, '3rdparty/java/*.jar')))


# ---------------------------------------------------------------- the compiler under analysis

def compiler_sources():
    core = os.path.join(REPO, 'compiler/core')
    src = files(core + '/src', ext='.java')
    for e in EXTS:
        src += files(os.path.join(REPO, 'compiler/extensions', e, 'src'), ext='.java')
    return src


def antlr_dir():
    g4 = files(os.path.join(REPO, 'compiler/core/antlr'), ext='.g4')
    if len(g4) < 3:
        raise Broken('anchor vanished: compiler/core/antlr grammars')

    def make(tmp):
        out = os.path.join(tmp, 'zserio/antlr')
        os.makedirs(out)
        antlr = [j for j in jars() if 'antlr' in os.path.basename(j)][0]
        for g in ('ZserioLexer.g4', 'ZserioParser.g4', 'DocComment.g4'):
            run(['java', '-cp', antlr, 'org.antlr.v4.Tool', os.path.join(REPO, 'compiler/core/antlr', g), '-o', out,
                 '-lib', out, '-no-listener', '-visitor', '-package', 'zserio.antlr', '-Werror'], what='antlr ' + g)
    return cached('antlr', digest(g4), make)


@functools.lru_cache(None)
def compiler_classes():
    """Class path of the compiler built from the current tree (templates are read through a symlinked copy)."""
    gen = antlr_dir()
    src = compiler_sources()
    tpl = []
    for e in EXTS:
        tpl += files(os.path.join(REPO, 'compiler/extensions', e, 'freemarker'))
        tpl += files(os.path.join(REPO, 'compiler/extensions', e, 'metainf'))
    tpl += files(os.path.join(REPO, 'compiler/extensions/doc/runtime'))

    def make(tmp):
        with open(tmp + '/files', 'w') as f:
            f.write('\n'.join(src + files(gen, ext='.java')))
        run(['javac', '-nowarn', '-proc:none', '-g', '-encoding', 'utf8', '-d', tmp, '-cp', ':'.join(jars()), '@' + tmp + '/files'],
            what='javac of the compiler')
        os.makedirs(tmp + '/META-INF/services')
        os.makedirs(tmp + '/freemarker')
        names = []
        for e in EXTS:
            base = os.path.join(REPO, 'compiler/extensions', e)
            if os.path.isdir(base + '/freemarker'):
                shutil.copytree(base + '/freemarker', tmp + '/freemarker/' + e)
            for s in files(base + '/metainf/services'):
                names.append(open(s).read().strip())
        rt = os.path.join(REPO, 'compiler/extensions/doc/runtime')
        if os.path.isdir(rt):
            shutil.copytree(rt, tmp + '/zserio/extension/doc/runtime', dirs_exist_ok=True)
        with open(tmp + '/META-INF/services/zserio.tools.Extension', 'w') as f:
            f.write('\n'.join(names) + '\n')
        # the documentation generator unpacks its runtime from the jar it is loaded from
        run(['jar', '-c', '-0', '-f', tmp + '.jar', '-C', tmp, '.'], what='jar')
        os.rename(tmp + '.jar', tmp + '/zserio.jar')
    return cached('compiler', digest(src + tpl, os.path.basename(gen)), make)


def zserio(args, cwd=None):
    cp = ':'.join([compiler_classes() + '/zserio.jar'] + jars())
    return run(['java', '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC', '-cp', cp, 'zserio.tools.ZserioTool'] + args, cwd=cwd,
               what='zserio ' + ' '.join(args))


# ---------------------------------------------------------------- front ends

def java_tool():
    src = os.path.join(VERIF, 'tools/JavaIR.java')
    return cached('javair', digest([src]), lambda tmp: run(['javac', '-nowarn', '-d', tmp] + EXPORTS + [src], what='JavaIR'))


def runtime_classes():
    """Class files of the Java runtime of the current tree."""
    src = files(os.path.join(REPO, 'compiler/extensions/java/runtime/src'), ext='.java')

    def make(tmp):
        with open(tmp + '/files', 'w') as f:
            f.write('\n'.join(src))
        run(['javac', '-nowarn', '-proc:none', '-g', '-encoding', 'utf8', '-d', tmp, '-cp', ':'.join(jars()), '@' + tmp + '/files'],
            what='javac of the Java runtime')
    return cached('jrt', digest(src), make)


EXPORTS = []
for _p in ('tree', 'code', 'util', 'api'):
    EXPORTS += ['--add-exports', 'jdk.compiler/com.sun.tools.javac.%s=ALL-UNNAMED' % _p]


def cpp_tool():
    src = os.path.join(VERIF, 'tools/cppir.cpp')
    return os.path.join(cached('cppir', digest([src]), lambda tmp: run(
        ['g++', '-O0', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp + '/cppir',
         '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM.so.18.1'], what='cppir')), 'cppir')


def java_ir(paths, cp=(), attr=True, tag='any'):
    """[{unit}...] for Java files."""
    tool = java_tool()

    def make(tmp):
        with open(tmp + '/files', 'w') as f:
            f.write('\n'.join(paths))
        run(['java'] + EXPORTS + ['-cp', tool, 'JavaIR'] + (['-attr'] if attr else []) +
            ['-cp', ':'.join(cp) or '.', '-o', tmp + '/ir.jsonl', '@' + tmp + '/files'], what='JavaIR')
    d = cached('jir-' + tag, digest(paths, tool + repr(attr) + ':'.join(cp)), make)
    with open(d + '/ir.jsonl') as f:
        return [json.loads(x) for x in f]


def cpp_ll(driver, tag, flags=('-D_GLIBCXX_ASSERTIONS', '-O0')):
    """Textual LLVM IR (-O0) of a driver linked with all sources of the C++ runtime of the current tree."""
    rt = os.path.join(REPO, 'compiler/extensions/cpp/runtime/src')
    srcs = [f for f in files(rt + '/zserio', ext='.cpp')]
    deps = srcs + files(rt, ext='.h') + [driver]

    def make(tmp):
        procs = []
        for i, f in enumerate([driver] + srcs):
            procs.append(subprocess.Popen(['clang++-18', '-std=c++11', *flags, '-S', '-emit-llvm', '-I' + rt, f, '-o', '%s/%d.ll' % (tmp, i)],
                                          stderr=subprocess.PIPE, text=True))
        errs = [(p.communicate()[1], p.returncode) for p in procs]
        bad = [e for e, rc in errs if rc]
        if bad:
            raise BuildFailure('clang of the C++ runtime: ' + bad[0][-2000:])
        run(['llvm-link-18', '-S'] + ['%s/%d.ll' % (tmp, i) for i in range(len(procs))] + ['-o', tmp + '/all.ll'], what='llvm-link')
    with open(cached('ll-' + tag, digest(deps, repr(flags)), make) + '/all.ll') as f:
        return f.read()


def clang_resource():
    return run(['clang-18', '-print-resource-dir']).strip()


def cpp_ir(tus, roots, includes, tag, deps):
    """IR of the translation units, restricted to files below roots: list of dicts as cppir prints them."""
    tool = cpp_tool()
    res = clang_resource()

    def make(tmp):
        def one(i):
            cmd = [tool, tus[i]]
            for r in (roots[i] if isinstance(roots[0], list) else roots):
                cmd += ['-root', r]
            cmd += ['--', '-std=c++11', '-w', '-x', 'c++', '-resource-dir', res] + ['-I' + x for x in includes]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode:
                raise BuildFailure('C++ front end on %s:\n%s' % (tus[i], p.stderr.decode('utf8', 'replace')[:3000]))
            with open('%s/%d.json' % (tmp, i), 'wb') as f:
                f.write(p.stdout)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, range(len(tus))))
    d = cached('cir-' + tag, digest(deps, tool + tag + repr(roots)), make)
    return [json.load(open('%s/%d.json' % (d, i))) for i in range(len(tus))]
