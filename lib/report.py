"""Obligations, violations, known findings, evidence and exit codes of one check run."""
import json
import os
import pickle
import subprocess
import sys
import time
import traceback
import build

REPLAY = os.path.join(build.VERIF, 'evidence', 'replay')


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.n = 0
        self.rules = {}
        self.viol = []
        self.samples = {}
        self.notes = []
        self.assumptions = []
        self.programs = set()
        self.undecided = []
        self.classes = 0
        self.shard = (0, 1)
        self.langs = ('python', 'java', 'cpp')
        self.timing = {}

    def ob(self, rule, site, diff=None, sample=None):
        """One obligation: diff is None when it is discharged, otherwise what is wrong with the construct at site."""
        self.n += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if diff is not None:
            self.viol.append({'rule': rule, 'site': site, 'what': diff})
        elif sample is not None and len(self.samples) < 12 and rule not in self.samples:
            self.samples[rule] = {'rule': rule, 'site': site, 'holds': sample}
        return diff is None

    def eq(self, rule, site, got, want, sample=None):
        return self.ob(rule, site, None if got == want else 'got %s, must be %s' % (short(got), short(want)),
                       sample or short(want))

    def floor(self, rule, n):
        """A rule that found fewer instances than it must has lost its anchor: that is reported, not passed over."""
        have = self.rules.get(rule, 0) + sum(1 for u in self.undecided if u.split(' ', 1)[0] == rule)
        if have < n:
            self.viol.append({'rule': rule, 'site': 'whole tree', 'what': 'only %d instances of this rule were looked at, at least '
                              '%d are expected' % (have, n)})


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def known_findings():
    p = os.path.join(build.VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return out


def guarded(c, func):
    try:
        func(c)
    except build.BuildFailure as e:
        c.viol.append({'rule': 'build', 'site': 'current tree', 'what': 'the sources under analysis could not be obtained: ' +
                       str(e)[-3000:]})
    except Exception:
        c.viol.append({'rule': 'analysis', 'site': 'current tree', 'what': 'the analysis could not follow the code: ' +
                       traceback.format_exc()[-3000:]})


def jobs(c, funcs):
    """Runs the functions in processes of their own and merges what they found into c, in order."""
    pids = []
    sys.stdout.flush()
    for f in funcs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                k = Check(c.prop, c.tier)
                k.langs = c.langs
                guarded(k, f)
                with os.fdopen(w, 'wb') as o:
                    pickle.dump((k.n, k.rules, k.viol, k.samples, k.notes, k.assumptions, k.programs, k.undecided, k.classes), o)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        pids.append((pid, r))
    for pid, r in pids:
        with os.fdopen(r, 'rb') as i:
            data = i.read()
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError('an analysis process ended without a result')
        n, rules, viol, samples, notes, assumptions, programs, undecided, classes = pickle.loads(data)
        c.n += n
        for k, v in rules.items():
            c.rules[k] = c.rules.get(k, 0) + v
        c.viol += viol
        for k, v in samples.items():
            c.samples.setdefault(k, v)
        c.notes += [x for x in notes if x not in c.notes]
        c.assumptions += [x for x in assumptions if x not in c.assumptions]
        c.programs |= programs
        c.undecided += undecided
        c.classes += classes


def per_language(func, floors=(), langs=('cpp', 'java', 'python')):
    """The rule func, run for one language per process, with floors on the merged instance counts."""
    def all_languages(c):
        side = subprocess.Popen([sys.executable, '-c', 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r); import build; '
                                 'build.java_tool(); build.cpp_tool()' % os.path.dirname(os.path.abspath(__file__))],
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            build.compiler_classes()
        except Exception:
            side.wait()
            raise

        def only(l):
            def f(k):
                k.langs = (l,)
                func(k)
            return f
        jobs(c, [only(l) for l in langs])
        side.wait()
        for r, n in floors:
            c.floor(r, n)
    return all_languages


def run(prop, tier, func, level, explain):
    c = Check(prop, tier)
    guarded(c, func)
    known = [k for k in known_findings() if k['property'] == prop and k.get('status', 'open') == 'open']
    new, hit = [], {}
    for v in c.viol:
        for k in known:
            if k['rule'] == v['rule'] and k['site'] == v['site']:
                hit.setdefault(k['id'], (k, []))[1].append(v)
                break
        else:
            new.append(v)
    for k in known:
        if k['id'] in hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    os.makedirs(REPLAY, exist_ok=True)
    total, bad = c.n, len({(v['rule'], v['site']) for v in c.viol})
    cov = {'obligations': total, 'discharged': max(0, total - bad), 'rules': dict(sorted(c.rules.items())),
           'checker_cmd': 'cd /verif && ./check %s %s' % (prop, tier),
           'trusted_base': ['javac 17 attribution / clang 18 / CPython ast front ends', 'lib/zsparse.py + lib/model.py (independent '
                            'reading of the schema)'],
           'samples': list(c.samples.values()), 'explanation': explain}
    if c.programs:
        cov['programs'] = len(c.programs)
        cov['disagreements_checked'] = total
    if c.classes:
        cov['input_classes'] = c.classes
    if c.undecided:
        cov['undecided'] = c.undecided[:200]
    if c.notes:
        cov['notes'] = c.notes
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
          'assumptions': c.assumptions, 'wall_s': round(time.time() - c.t0, 2), 'violations': len(new)}
    with open(os.path.join(build.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    path = os.path.join(REPLAY, prop + '.txt')
    with open(path, 'w') as f:
        f.write('property %s, %s tier, %d obligations\n' % (prop, tier, total))
        for v in new:
            f.write('\n[%s] %s\n%s\n' % (v['rule'], v['site'], v['what']))
    if new:
        for v in new[:8]:
            print('[%s] %s: %s' % (v['rule'], v['site'], short(v['what'], 600)))
        if len(new) > 8:
            print('... and %d more, see %s' % (len(new) - 8, path))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s: %d obligations hold (%s), %.1f s' % (prop, total, ', '.join('%s %d' % x for x in sorted(c.rules.items())),
                                                  time.time() - c.t0))
    return 0
