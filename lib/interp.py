"""Structured dataflow over the IR of one generated class: locals are forward-substituted, the class's own helper methods
are inlined, calls on streams / contexts / runtime helpers become events. The result of a method is an event tree
(see canon.py). Language front ends subclass Interp and say what a call means."""
from canon import *

MAX_DEPTH = 14


class Unsupported(Exception):
    pass


class Interp:
    """One generated class (IR dict), its schema declaration and the corpus symbol table."""

    def __init__(self, unit, sym, decl=None, outer=None):
        self.c, self.sym, self.decl, self.outer = unit, sym, decl, outer
        self.user = set()
        if decl is not None:
            self.user = {key(f['name']) for f in decl.get('functions', ())}
        self.reset()

    def reset(self):
        self.out, self.k, self.depth, self.assigned, self.stack = [], 0, 0, {}, []

    # -- to be provided by the language
    def call(self, e, env):
        raise NotImplementedError

    def attr(self, e, env):
        raise NotImplementedError

    def name(self, e, env):
        raise NotImplementedError

    def new(self, e, env):
        return ('new', str(e[1]), tuple(self.ex(a, env) for a in e[2]))

    def throw_kind(self, e, env):
        return 'error'

    def label(self, l, sel, env):
        return self.ex(l, env)

    # -- machinery
    def emit(self, ev):
        self.out.append(ev)

    def val(self):
        self.k += 1
        return ('val', self.k)

    def ex(self, e, env):
        if e is None:
            return NULL
        t = e[0]
        if t == 'canon':
            return e[1]
        if t == 'num':
            return ('num', e[1])
        if t == 'str':
            return ('str', e[1])
        if t == 'bool':
            return ('bool', e[1])
        if t == 'char':
            return ('num', e[1] if isinstance(e[1], int) else ord(e[1]))
        if t == 'null':
            return NULL
        if t == 'name':
            return self.name(e, env)
        if t == 'attr':
            return self.attr(e, env)
        if t == 'call':
            return self.call(e, env)
        if t == 'new':
            return self.new(e, env)
        if t == 'bin':
            l = self.ex(e[2], env)
            if e[1] in ('in', 'not in') and e[3][0] in ('tuple', 'list'):
                r = None
                for x in e[3][1]:
                    c = mk_bin('==', l, self.ex(x, env))
                    r = c if r is None else mk_bin('||', r, c)
                r = FALSE if r is None else r
                return mk_not(r) if e[1] == 'not in' else r
            r = self.ex(e[3], env)
            return mk_bin(e[1], l, r)
        if t == 'un':
            if e[1] in ('++pre', 'post++', '--pre', 'post--', '++', '--'):
                x = self.ex(e[2], env)
                op = '+' if '+' in e[1] else '-'
                self.assign(e[2], mk_bin(op, x, ('num', 1)), env)
                return x
            x = self.ex(e[2], env)
            if e[1] in ('*deref', '&addr'):
                return x
            return mk_un(e[1], x)
        if t == 'cond':
            c = self.ex(e[1], env)
            save, self.out = self.out, []
            a = self.ex(e[2], env)
            A, self.out = self.out, []
            b = self.ex(e[3], env)
            B, self.out = self.out, save
            if A or B:
                self.emit(('if', c, A, B))
            return mk_cond(c, a, b)
        if t == 'cast':
            return self.cast(e, env)
        if t == 'idx':
            return ('idx', self.ex(e[1], env), self.ex(e[2], env))
        if t == 'assign':
            v = self.ex(e[3], env)
            if e[1] != '=':
                v = mk_bin(e[1][:-1], self.ex(e[2], env), v)
            self.assign(e[2], v, env)
            return v
        if t == 'inst':
            return ('inst', self.ex(e[1], env), self.type_name(e[2]))
        if t in ('list', 'tuple'):
            return (t,) + tuple(self.ex(x, env) for x in e[1])
        if t == 'dict':
            return ('dict',) + tuple((self.ex(a, env), self.ex(b, env)) for a, b in e[1])
        if t == 'lambda':
            return self.lam(e, env)
        return ('opaque', t) + tuple(str(x) for x in e[1:2])

    def type_name(self, t):
        return str(t)

    def cast(self, e, env):
        return self.ex(e[2], env)

    def lam(self, e, env):
        env2 = dict(env)
        for i, p in enumerate(e[1]):
            env2[p] = ('lparam', i)
        b = e[2]
        if b and b[0] == 'lbody':
            save = self.out
            t = self.block(b[1], env2)
            self.out = save
            return ('lambda', len(e[1]), self.value_of(t))
        save, self.out = self.out, []
        v = self.ex(b, env2)
        self.out = save
        return ('lambda', len(e[1]), v)

    def hashed(self, args):
        """One step of a hash code: folding a term into an accumulator."""
        if len(args) == 2 and (args[0] == ('acc',) or 'HASH_SEED' in repr(args[0])):
            self.emit(('h', args[1]))
            return ('acc',)
        return ('hash',) + tuple(args)

    # assignment
    def assign(self, target, v, env):
        t = target[0]
        if t == 'name' and self.is_local(target, env):
            env[target[1]] = self.cursor(v)
            return
        loc = self.ex(target, env)
        if loc == ('numext',) and v == mk_bin('+', ('numext',), ('num', 1)):
            self.emit(('inc', loc))
            return
        self.emit(('set', loc, v))
        self.assigned[loc] = v

    def is_local(self, target, env):
        return target[1] in env

    def cursor(self, v):
        """Position bookkeeping: growing a position emits what it was grown by."""
        if v == ('pos0',):
            return ('pos',)
        if v[0] == 'bin' and v[1] == '+' and v[2] in (('pos',), ('pos0',)):
            self.advance(v[3])
            return ('pos',)
        if v[0] == 'bin' and v[1] == '+' and v[3] in (('pos',), ('pos0',)):
            self.advance(v[2])
            return ('pos',)
        if v[0] == 'alignto' and v[2] in (('pos',), ('pos0',)):
            self.emit(('align', v[1]))
            return ('pos',)
        return v

    def advance(self, e):
        if e[0] == 'size':
            self.emit(e[1])
        elif e[0] == 'cond':
            save = self.out
            self.out = []
            self.advance(e[2])
            a, self.out = self.out, []
            self.advance(e[3])
            b, self.out = self.out, save
            self.emit(('if', e[1], a, b))
        elif e[0] == 'bin' and e[1] == '+':
            self.advance(e[2])
            self.advance(e[3])
        else:
            self.emit(('adv', e))

    # statements
    def block(self, stmts, env):
        save, self.out = self.out, []
        out = self.out
        n = len(stmts)
        i = 0
        while i < n:
            s = stmts[i]
            t = s[0]
            if t == 'switch':
                s = self.switch(s, env)
                t = s[0]
            if t == 'if':
                c = self.ex(s[1], env)
                eT, eE = dict(env), dict(env)
                T, E = self.block(s[2], eT), self.block(s[3] or [], eE)
                tT, tE = terminated(T), terminated(E)
                rest = stmts[i + 1:]
                if tT and tE:
                    out.append(('if', c, T, E))
                    break
                if tT and len(T) == 1 and T[0][0] == 'throw':
                    out.append(('guard', mk_not(c), T[0][1]))
                    out += E
                    env.update(eE)
                elif tE and len(E) == 1 and E[0][0] == 'throw':
                    out.append(('guard', c, E[0][1]))
                    out += T
                    env.update(eT)
                elif tT:
                    E = E + self.block(rest, eE)
                    out.append(('if', c, T, E))
                    break
                elif tE:
                    T = T + self.block(rest, eT)
                    out.append(('if', c, T, E))
                    break
                else:
                    out.append(('if', c, T, E))
                    for k in set(eT) | set(eE):
                        a, b = eT.get(k), eE.get(k)
                        if a == b:
                            if a is not None:
                                env[k] = a
                        elif a is None or b is None:
                            env[k] = a or b
                        else:
                            env[k] = mk_cond(c, a, b)
            elif t == 'canonstmts':
                out += s[1]
            else:
                self.stmt(s, env)
            if terminated(out):
                break
            i += 1
        self.out = save
        return out

    def stmt(self, s, env):
        t = s[0]
        if t == 'expr':
            v = self.ex(s[1], env)
            self.effect(v)
        elif t == 'decl':
            v = NULL if s[3] is None else self.ex(s[3], env)
            env[s[1]] = self.cursor(v)
        elif t == 'return':
            v = ('void',) if s[1] is None else self.ex(s[1], env)
            self.ret(v)
        elif t == 'throw':
            self.emit(('throw', self.throw_kind(s[1], env)))
        elif t == 'block':
            self.out += self.block(s[1], env)
        elif t == 'break':
            self.emit(('break',))
        elif t == 'continue':
            self.emit(('continue',))
        elif t in ('delete', 'empty'):
            pass
        elif t == 'foreach':
            it = self.ex(s[2], env)
            e2 = dict(env)
            self.bind_loop(s[1], it, e2)
            self.emit(('foreach', it, self.block(s[3], e2)))
            self.havoc(s[3], env)
        elif t in ('while', 'for', 'do'):
            e2 = dict(env)
            if t == 'for':
                for x in s[1] or []:
                    self.stmt(x, e2)
                b = self.block(s[4], e2)
                self.emit(('loop', self.ex(s[2], e2) if s[2] else TRUE, b))
            elif t == 'while':
                c = self.ex(s[1], e2)
                self.emit(('loop', c, self.block(s[2], e2)))
            else:
                self.emit(('loop', self.ex(s[2], e2), self.block(s[1], e2)))
        elif t == 'try':
            self.emit(('try', self.block(s[1], env), [self.block(h[2], dict(env)) for h in s[2] or []],
                       self.block(s[3] or [], env)))
        elif t == 'with':
            for x, y in s[1]:
                v = self.ex(x, env)
                if y is not None and y[0] == 'name':
                    env[y[1]] = v
            self.out += self.block(s[2], env)
        else:
            self.emit(('stmt', t))

    def havoc(self, body, env):
        pass

    def bind_loop(self, var, it, env):
        env[var[1] if isinstance(var, list) else var] = ('elem', it)

    def effect(self, v):
        """Value of an expression statement: sizes that are thrown away and the like are no events."""

    def ret(self, v):
        self.emit(('ret', self.cursor(v)))

    def switch(self, s, env):
        sel = self.ex(s[1], env)
        cases = s[2]
        chain, default = [], None
        labels, isdef = [], False
        for i, (ls, body) in enumerate(cases):
            for l in ls:
                if l == ['default'] or l == 'default':
                    isdef = True
                else:
                    labels.append(l)
            b = list(body)
            if not b:
                continue
            j = i
            while not self.ends(b) and j + 1 < len(cases):
                j += 1
                b += cases[j][1]
            b = self.strip_break(b)
            if isdef:
                default = b
            else:
                c = None
                for l in labels:
                    x = mk_bin('==', sel, self.label(l, sel, env))
                    c = x if c is None else ('bin', '||', c, x)
                chain.append((c, b))
            labels, isdef = [], False
        node = default or []
        for c, b in reversed(chain):
            node = [['if', ['canon', c], b, node, s[3]]]
        if not chain:
            return ['block', node, s[3]]
        return node[0]

    def ends(self, b):
        if not b:
            return False
        x = b[-1]
        if x[0] in ('break', 'return', 'throw', 'continue'):
            return True
        if x[0] == 'block':
            return self.ends(x[1])
        if x[0] == 'if':
            return bool(x[3]) and self.ends(x[2]) and self.ends(x[3])
        return False

    def strip_break(self, b):
        if b and b[-1][0] == 'break':
            return b[:-1]
        if b and b[-1][0] == 'block':
            return b[:-1] + [['block', self.strip_break(b[-1][1])] + list(b[-1][2:])]
        return b

    # inlining
    def inline(self, m, args, env=None, expr=True):
        """Run method IR m with canonical args bound to its parameters; its events go to the current list and the value
        it returns is the result."""
        sig = m.get('sym') or m['name'] + '/%d' % len(m.get('params', ()))
        if self.depth >= MAX_DEPTH or sig in self.stack:
            return ('recursion', m['name'])
        self.depth += 1
        self.stack.append(sig)
        env2 = dict(env or {})
        env2.update(args)
        t = self.block(m['body'] or [], env2)
        self.stack.pop()
        self.depth -= 1
        return self.splice(t)

    def splice(self, t):
        v = self.value_of(t)
        if v is not None:
            pre = [s for s in t if s[0] == 'guard']
            self.out += pre
            return v
        if t and t[-1][0] == 'ret' and not any(self.has_ret(s) for s in t[:-1]):
            self.out += t[:-1]
            return t[-1][1]
        if not any(self.has_ret(s) for s in t):
            self.out += t
            return ('void',)
        tmp = self.val()
        self.out += self.rets_to_sets(t, tmp)
        return tmp

    def has_ret(self, s):
        if s[0] == 'ret':
            return True
        return any(isinstance(x, list) and any(isinstance(y, tuple) and self.has_ret(y) for y in x) for x in s[1:])

    def rets_to_sets(self, t, tmp):
        out = []
        for s in t:
            if s[0] == 'ret':
                out.append(('set', tmp, s[1]))
            elif s[0] == 'if':
                out.append(('if', s[1], self.rets_to_sets(s[2], tmp), self.rets_to_sets(s[3], tmp)))
            else:
                out.append(s)
        return out

    def value_of(self, t):
        """The value of a tree without effects as one expression, or None."""
        t = [s for s in t if s[0] != 'guard']
        if len(t) != 1:
            return None
        s = t[0]
        if s[0] == 'ret':
            return s[1]
        if s[0] == 'throw':
            return ('throws', s[1])
        if s[0] == 'if':
            a, b = self.value_of(s[2]), self.value_of(s[3])
            if a is None or b is None:
                return None
            return mk_cond(s[1], a, b)
        return None


def resolve_sets(t):
    """Merge 'x crosses the stream into val k' with 'field := val k' and drop bookkeeping assignments."""
    m = {}

    def collect(ts):
        for s in ts:
            if s[0] == 'set' and isinstance(s[2], tuple) and s[2] and s[2][0] == 'val' and s[1][0] != 'val':
                m.setdefault(s[2], s[1])
            if s[0] == 'set' and s[1][0] == 'val' and s[2][0] == 'val':
                m.setdefault(s[2], s[1])
            for x in s[1:]:
                if isinstance(x, list):
                    collect([y for y in x if isinstance(y, tuple)])
    collect(t)
    # chains tmp -> tmp -> field
    def root(v):
        seen = set()
        while v in m and v not in seen:
            seen.add(v)
            v = m[v]
        return v
    mm = {k: root(k) for k in m}

    def go(ts):
        out = []
        for s in ts:
            if s[0] == 'set' and isinstance(s[2], tuple) and s[2] in mm and mm[s[2]] == mm.get(s[1], s[1]):
                continue
            out.append(tuple(go(x) if isinstance(x, list) and all(isinstance(y, tuple) for y in x) else
                             subst(x, mm) if isinstance(x, (tuple, list)) else x for x in s))
        return out
    t = go(t)
    # number what remains in order of appearance
    seen = {}

    def ren(e):
        if isinstance(e, list):
            return [ren(x) for x in e]
        if isinstance(e, tuple):
            if len(e) == 2 and e[0] == 'val':
                return ('val', seen.setdefault(e[1], len(seen) + 1))
            return tuple(ren(x) if isinstance(x, (tuple, list)) else x for x in e)
        return e
    return [ren(s) for s in t]
