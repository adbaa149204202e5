"""Teams and identity of PEs: which PEs a team consists of, how they are numbered, and what the handle stands for."""
import re
from collections import defaultdict
from .. import q, terms, ir
from ..ir import const
from ..core import sim
from ..mem import Mem
from ..paths import DEAD
from . import c11

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'direct', 'fast']
EXPLAIN = ('Who writes the identity of the PE and the predefined teams is collected over the whole library and compared with what MPI reports for the communicators kept. '
           'Every team routine is simulated on all paths: which team object each handle stands for, the communicators, groups, sizes and ranks of the objects made, and the '
           'conditions and colours of splits as terms that are evaluated for all small instances and extreme values of the arguments.')
ASSUME = ['MPI_Comm_split, MPI_Comm_group, MPI_Comm_size, MPI_Comm_rank and MPI_Group_translate_ranks do what the MPI standard says', 'memory is not exhausted',
          'the conditions of a split are made of linear terms and remainders of its arguments, so that small instances and extremes show every deviation']
UNDEF = -32766
IMAX, IMIN = (1 << 31) - 1, -(1 << 31)


def strided_instances():
    out = []
    big = (IMAX, IMIN, 1 << 30, 1 << 29)
    for n in range(1, 6):
        for me in range(n):
            for start in tuple(range(-1, n + 1)) + (IMAX, IMIN):
                for stride in (-2, -1, 0, 1, 2, 3, 4, 5) + big:
                    for size in (-1, 0, 1, 2, 3, 4, 5, 6) + (IMAX, IMIN, 1 << 30, (1 << 30) + 1, 9, 17):
                        out.append((n, me, start, stride, size))
    return out


class Team(Mem):
    """Facts: ('h', argument, predicate, constant), ('fact', term, truth), ('fld', object, offset, value),
    ('split', call), ('out', argument, value), ('nn', value, truth): a communicator is (not) MPI_COMM_NULL."""
    deep = True

    def __init__(self, m, R, f, name, handles, leafmap=None, space=None):
        self.m, self.R, self.f, self.name = m, R, f, name
        self.W = c11.world(m)
        self.handles = handles
        self.leafmap, self.space = leafmap or {}, space
        M = q.model(m)
        G = lambda p: ('*',) + M.gfield('OSHMPI_global', p)
        self.alias = {}
        F = {x[0]: x[1] for x in m.types[m.byname['OSHMPI_team']]['m']}
        self.F = F
        for cls, pre in (('world', 'team_world'), ('shared', 'team_shared')):
            for fld, g in (('comm', '_comm'), ('group', '_group'), ('my_pe', '_my_pe'), ('n_pes', '_n_pes')):
                try:
                    self.alias[G(pre + g)] = (cls, fld)
                except Exception:
                    pass
        self.splits = {}

    def bad(self, rule, key, what, n):
        self.R.bad(rule, '%s:%s' % (self.name, key), '%s: %s' % (self.name, what), self.f, n, self, [self.name])

    # -- memory
    def step(self, f, mem, n, env):
        if n.op == 'call' and n.fn:
            for fn, role in (('MPI_Comm_split', 'pcomm'), ('MPI_Comm_group', 'pgroup'), ('MPI_Comm_size', 'psize'), ('MPI_Comm_rank', 'prank')):
                if n.fn == fn:
                    k = self.cell(f, n.ops[-1], env)
                    v = self.result(f, n, env)
                    mem = Mem.step(self, f, mem, n, env)
                    if k is not None and not k[2]:
                        mem = self.kill(mem, k[0], k[1], 8) | {((k[0], k[1]), v, 4 if 'group' not in role and 'comm' not in role else 8)}
                    return mem
            if n.fn == 'MPI_Group_translate_ranks':
                k = self.cell(f, n.ops[4], env)
                mem = Mem.step(self, f, mem, n, env)
                if k is not None and not k[2]:
                    mem = self.kill(mem, k[0], k[1], 4) | {((k[0], k[1]), ('tr', n.v), 4)}
                return mem
        return Mem.step(self, f, mem, n, env)

    def result(self, f, n, env):
        if n.fn == 'MPI_Comm_split':
            return ('split', n.v)
        return ({'MPI_Comm_group': 'grp', 'MPI_Comm_size': 'size', 'MPI_Comm_rank': 'rank'}[n.fn], self.deref(q.vkey(f, n.ops[0], env)))

    def deref(self, k):
        """Look through the fields of objects made on the path."""
        if isinstance(k, tuple) and k[0] == '*' and not k[3]:
            r = self.deref(k[1])
            for t in self.S:
                if t[0] == 'fld' and t[1] == r and t[2] == k[2]:
                    return t[3]
            if r != k[1]:
                return ('*', r, k[2], k[3])
        return k

    def mstart(self, f):
        return frozenset()

    # -- teams
    def cls(self, s, arg):
        """Which team the handle argument is on the path: 'inv', 'world', 'shared', 'obj' or a set of possibilities."""
        W = self.W
        C = {W.invalid: 'inv', W.W: 'world', W.S: 'shared'}
        pos = {'inv', 'world', 'shared', 'obj'}
        for t in s:
            if t[0] == 'h' and t[1] == arg and t[3] in C:
                pos &= {C[t[3]]} if t[2] == 'eq' else pos - {C[t[3]]}
        return pos

    def field(self, s, k, arg, fld):
        """Is the value the field fld of the team the handle argument stands for (on the path)?"""
        pos = self.cls(s, arg)
        if len(pos) == 1 and self.alias.get(k) == (list(pos)[0], fld):
            return True
        return k[0] == '*' and k[2] == self.F[fld] and not k[3] and self.teamroot(s, k[1], arg)

    def teamroot(self, s, root, arg):
        pos = self.cls(s, arg)
        if len(pos) != 1:
            return False
        return root == {'world': self.W.team, 'shared': self.W.shared, 'obj': ('v', 'a%d' % arg)}.get(list(pos)[0])

    def whose(self, s, k):
        """(argument, field) a value belongs to on the path."""
        for a in self.handles:
            for fld in ('comm', 'group', 'my_pe', 'n_pes'):
                if self.field(s, k, a, fld):
                    return (a, fld)
        return None

    # -- terms
    def leaf(self, s):
        def g(f, n, env):
            if n.op != 'load':
                return None
            k = self.deref(q.vkey(f, n.v, env))
            if k[0] == 'tr':
                return k
            w = self.whose(s, k)
            if w and w in self.leafmap:
                return self.leafmap[w]
            if k in self.leafmap:
                return self.leafmap[k]
            if k[0] == 'v' and re.match(r'a\d+$', k[1]):
                return ('val', k[1])
            if k[0] == 'c':
                return ('val', 'i32:%d' % k[1])
            return None
        return g

    def facts(self, s):
        return [(t[1], t[2]) for t in s if t[0] == 'fact']

    def medge(self, f, s, blk, nxt, atoms, env):
        self.S = s
        for p, a, b in atoms:
            x, y = self.deref(q.vkey(f, a, env)), self.deref(q.vkey(f, b, env))
            if p not in ('eq', 'ne'):
                continue
            for u, v in ((x, y), (y, x)):
                c = v[1] if v[0] == 'c' else 0 if v == ('v', 'null') else None
                for h in self.handles:
                    if u == ('v', 'a%d' % h) and c is not None:
                        s = s | {('h', h, p, c)}
                        if not self.cls(s, h):
                            return DEAD
                if c == 0 and u[0] == 'v' and re.match(r'a\d+$', u[1]) and int(u[1][1:]) not in self.handles:
                    if ('zero', u[1], p != 'eq') in s:
                        return DEAD
                    s = s | {('zero', u[1], p == 'eq')}
                if v == ('v', 'g:ompi_mpi_comm_null') and u[0] == 'split':
                    if ('nn', u, p == 'eq') in s:
                        return DEAD
                    s = s | {('nn', u, p == 'ne')}
                    col = [t[2] for t in s if t[0] == 'split' and ('split', t[1]) == u]
                    if col and self.space is not None:
                        s = s | {('fact', ('icmp', 'eq', col[0], ('c', UNDEF, 32), 1), p == 'eq')}
                        if not self.space.of(self.facts(s)):
                            return DEAD
                if c == 0 and u[0] == 'v' and u[1] in f.insts:
                    d = f.insts[u[1]]
                    if d.op == 'call' and d.fn in ('malloc', 'calloc') and p == 'eq':
                        return DEAD             # memory is not exhausted
        if self.space is not None:
            for t, truth in terms.branch(f, blk, nxt, env, self.leaf(s)):
                if self.space.relevant(t):
                    s = s | {('fact', t, truth)}
                    if not self.space.of(self.facts(s)):
                        return DEAD
        return s

    def event(self, f, s, n, env):
        self.S = s
        K = lambda v: self.deref(q.vkey(f, v, env))
        if n.op == 'store':
            k = q.akey(f, n.ops[1], env)
            r = self.deref(k[0])
            v = K(n.ops[0])
            self.modifies(s, r, n)
            if r[0] == 'v' and r[1] in f.insts and f.insts[r[1]].op == 'call' and not k[2]:
                return frozenset(t for t in s if t[:3] != ('fld', r, k[1])) | {('fld', r, k[1], v)}
            if r[0] == 'v' and re.match(r'a\d+$', r[1]):
                return frozenset(t for t in s if t[:2] != ('out', r[1])) | {('out', r[1], v)}
            return s
        if n.op in ('sdiv', 'srem', 'udiv', 'urem') and self.space is not None:
            d = terms.make(f, n.ops[1], env, self.leaf(s))
            if self.space.relevant(d):
                self.R.ob('arith', '%s %s' % (self.name, f.where(n)))
                for b in self.space.of(self.facts(s)):
                    if terms.ev(d, b) == 0:
                        self.bad('arith', 'zero', 'divides by zero for %s' % self.show(b), n)
                        break
            return s
        if n.op != 'call' or not n.fn:
            return s
        if n.fn in q.MEMCPY:
            k = q.akey(f, n.ops[0], env)
            r = self.deref(k[0])
            self.modifies(s, r, n)
            if r[0] == 'v' and r[1] in f.insts and f.insts[r[1]].op == 'call' and not k[2]:
                return frozenset(t for t in s if t[:3] != ('fld', r, k[1])) | {('fld', r, k[1], ('*',) + q.akey(f, n.ops[1], env))}
            if r[0] == 'v' and re.match(r'a\d+$', r[1]):
                return frozenset(t for t in s if t[:2] != ('out', r[1])) | {('out', r[1], self.deref(('*',) + q.akey(f, n.ops[1], env)))}
        if n.fn in ('MPI_Comm_group', 'MPI_Comm_size', 'MPI_Comm_rank'):
            k = q.akey(f, n.ops[-1], env)
            r = self.deref(k[0])
            if r[0] == 'v' and not k[2]:
                return frozenset(t for t in s if t[:3] != ('fld', r, k[1])) | {('fld', r, k[1], self.result(f, n, env))}
        return self.call(f, s, n, env, K)

    def modifies(self, s, r, n):
        if r in (self.W.team, self.W.shared) or r[0] == 'v' and re.match(r'a\d+$', r[1]) and int(r[1][1:]) in self.handles:
            self.bad('handle', 'modify', 'the team given is modified', n)

    def call(self, f, s, n, env, K):
        return s

    def show(self, b):
        return ', '.join('%s=%d' % (x[1][0] if x[0] == 'leaf' else self.args[x[1]], v) for x, v in sorted(b.items(), key=str))

    def mret(self, f, s, n, env):
        self.S = s
        self.final(f, s, n, env, self.deref(q.vkey(f, n.ops[0], env)) if n.ops else None)


# -- queries of a team
class Query(Team):
    def __init__(self, m, R, f, name, fld):
        Team.__init__(self, m, R, f, name, (0,))
        self.fld = fld

    def final(self, f, s, n, env, v):
        pos = self.cls(s, 0)
        self.R.ob('handle', '%s %s %s' % (self.name, '/'.join(sorted(pos)), f.where(n)))
        if self.fld == 'config':
            ret, v = v, next((t[2] for t in s if t[0] == 'out'), None)
            if 'inv' in pos:
                if pos != {'inv'} or ret[0] != 'c' or ret[1] == 0:
                    self.bad('handle', 'invalid', 'does not report an invalid team', n)
                return
            if ret != ('c', 0):
                self.bad('handle', 'result', 'reports an error for a valid team', n)
            if v is None or not self.cfgfield(s, v):
                self.bad('handle', 'config', 'does not return the configuration of the team given', n)
            return
        if 'inv' in pos:
            if pos != {'inv'} or v != ('c', -1):
                self.bad('handle', 'invalid', 'does not return -1 for an invalid team', n)
            return
        if not self.field(s, v, 0, self.fld):
            self.bad('handle', 'value', 'does not return the %s of the team given (which may be %s)' % (self.fld, '/'.join(sorted(pos))), n)

    def cfgfield(self, s, v):
        return v[0] == '*' and v[2] == self.F['config'] and not v[3] and self.teamroot(s, v[1], 0)


# -- translation of PE numbers
class Translate(Team):
    def __init__(self, m, R, f, name):
        vals = [{('leaf', ('tr',)): v} for v in (0, 1, 5, UNDEF)]
        Team.__init__(self, m, R, f, name, (0, 2), {}, terms.Space(vals))
        self.args = {1: 'src_pe'}

    def leaf(self, s):
        g = Team.leaf(self, s)

        def h(f, n, env):
            r = g(f, n, env)
            return ('tr',) if r is not None and r[0] == 'tr' else r
        return h

    def call(self, f, s, n, env, K):
        if n.fn != 'MPI_Group_translate_ranks':
            return s
        self.R.ob('translate', '%s %s' % (self.name, f.where(n)))
        if not self.field(s, K(n.ops[0]), 0, 'group') or not self.field(s, K(n.ops[3]), 2, 'group'):
            self.bad('translate', 'groups', 'the ranks are not translated from the group of the first team to that of the second', n)
        k = q.akey(f, n.ops[2], env)
        v = env.mem.get((k[0], k[1])) if env.mem else None
        if const(env.resolve(n.ops[1])) != 1 or not (v == ('v', 'a1') or self.argspill(f, k)):
            self.bad('translate', 'pe', 'the PE translated is not the one given', n)
        return s | {('done', n.v)}

    def argspill(self, f, k):
        """The address of the argument itself: the only store to the cell is of the argument."""
        st = [n for n in f.all() if n.op == 'store' and q.akey(f, n.ops[1])[:2] == k[:2]]
        return len(st) == 1 and st[0].ops[0] == 'a1'

    def final(self, f, s, n, env, v):
        a, b = self.cls(s, 0), self.cls(s, 2)
        self.R.ob('translate', '%s return %s' % (self.name, f.where(n)))
        if not any(t[0] == 'done' for t in s):
            if v != ('c', -1) or a != {'inv'} and b != {'inv'}:
                self.bad('translate', 'invalid', 'a path returns without translating although both teams may be valid, or not -1', n)
            return
        if 'inv' in a or 'inv' in b:
            return      # reported at the call
        t = terms.make(f, n.ops[0], env, self.leaf(s))
        for bd in self.space.of(self.facts(s)):
            x = bd['leaf', ('tr',)]
            got = terms.ev(t, bd)
            got = None if got is None else terms.sg(got, 32)
            if got != (-1 if x == UNDEF else x):
                self.bad('translate', 'result', 'returns %s when MPI reports %s' % (got, 'no such rank' if x == UNDEF else x), n)
                return


# -- splits
class Split(Team):
    """want(binding) -> list of expected partitions: a key per split (None: not a member), or 'invalid', or 'any'."""

    def __init__(self, m, R, f, name, nsplit, space, args, outs, cfgs):
        leafmap = {(0, 'my_pe'): ('me',), (0, 'n_pes'): ('n',)}
        Team.__init__(self, m, R, f, name, (0,), leafmap, space)
        self.nsplit, self.args, self.outs, self.cfgs = nsplit, args, outs, cfgs

    def call(self, f, s, n, env, K):
        if n.fn == 'MPI_Comm_split':
            self.R.ob('split', '%s %s' % (self.name, f.where(n)))
            if not self.field(s, K(n.ops[0]), 0, 'comm'):
                self.bad('split', 'parent', 'the communicator split is not that of the parent team', n)
            i = len([t for t in s if t[0] == 'split'])
            if i >= self.nsplit:
                self.bad('split', 'many', 'more splits than teams are made', n)
                return s
            color, key = (terms.make(f, o, env, self.leaf(s)) for o in n.ops[1:3])
            self.checksplit(f, s, n, color, key)
            return s | {('split', n.v, color)}
        if re.match('MPI_Comm_(create|dup)', n.fn):
            self.bad('split', n.fn, 'a team is made by %s' % n.fn, n)
        return s

    def me(self, b):
        return b['leaf', ('me',)]

    def rest(self, b):
        return tuple(sorted(((k, v) for k, v in b.items() if k != ('leaf', ('me',))), key=str))

    def checksplit(self, f, s, n, color, key):
        bs = self.space.of(self.facts(s))
        for b in bs:
            w = self.want(b)
            if w == 'invalid':
                self.bad('valid', 'accept', 'a team is split off although the arguments do not describe PEs of the parent team: %s' % self.show(b), n)
                return
        # the order of the new team is that of the parent
        groups = defaultdict(list)
        for b in bs:
            c, k = terms.ev(color, b), terms.ev(key, b)
            if c is None:
                self.bad('split', 'color', 'the colour of the split cannot be determined from the arguments', n)
                return
            if k is None:
                self.bad('order', 'key', 'the order of the split cannot be determined from the arguments', n)
                return
            groups[self.rest(b), terms.sg(c, 32)].append((self.me(b), terms.sg(k, 32), b))
        for (r, c), l in groups.items():
            l.sort(key=lambda x: x[0])
            if c != UNDEF and any(x[1] > y[1] for x, y in zip(l, l[1:])):
                self.bad('order', 'key', 'the PEs of the new team are not numbered in the order of the parent: %s' % self.show(l[0][2]), n)
                return

    def final(self, f, s, n, env, v):
        self.R.ob('result', '%s %s' % (self.name, f.where(n)))
        sp = [t for t in s if t[0] == 'split']
        bs = self.space.of(self.facts(s))
        pos = self.cls(s, 0)
        out = {t[1]: t[2] for t in s if t[0] == 'out'}
        if not sp:
            if 'inv' not in pos or pos != {'inv'}:
                for b in bs:
                    if self.want(b) not in ('invalid', 'any'):
                        self.bad('valid', 'reject', 'no team is made although the arguments describe PEs of the parent team: %s' % self.show(b), n)
                        break
            if v[0] != 'c' or v[1] == 0:
                self.bad('result', 'success', 'reports success although no team was made', n)
            for o in self.outs:
                if out.get(o) not in (('v', 'null'), ('c', 0)):
                    self.bad('result', 'handle:' + o, 'the new team is not SHMEM_TEAM_INVALID although no team was made', n)
            return
        if 'inv' in pos:
            self.bad('valid', 'invalid', 'an invalid parent team is split', n)
            return
        if len(sp) != self.nsplit:
            self.bad('result', 'few', 'not every team is made', n)
            return
        used = set()
        for i, o in enumerate(self.outs):
            h = out.get(o)
            if h is None:
                self.bad('result', 'unset:' + o, 'the new team is not returned', n)
                continue
            if h in (('v', 'null'), ('c', 0)):
                for b in bs:
                    w = self.want(b)
                    if isinstance(w, list) and w[i] is not None:
                        self.bad('result', 'dropped', 'SHMEM_TEAM_INVALID is returned to a PE of the new team: %s' % self.show(b), n)
                        break
                continue
            fl = {t[2]: t[3] for t in s if t[0] == 'fld' and t[1] == h}
            c = fl.get(self.F['comm'])
            call = [t for t in sp if c == ('split', t[1])]
            if not call:
                self.bad('result', 'comm', 'the team returned does not have the communicator of the split', n)
                continue
            if call[0] in used:
                self.bad('result', 'same', 'two teams share a communicator', n)
            used.add(call[0])
            for fld, want in (('group', 'grp'), ('n_pes', 'size'), ('my_pe', 'rank')):
                self.R.ob('object', '%s %s' % (self.name, fld))
                if fl.get(self.F[fld]) != (want, c):
                    self.bad('object', fld, 'the %s of the team returned is not that of its communicator' % fld, n)
            self.config(f, s, n, i, fl)
            for b in bs:
                if (terms.ev(call[0][2], b) or 0) == UNDEF % (1 << 32):
                    self.bad('result', 'nonmember', 'a team is returned to a PE outside it: %s' % self.show(b), n)
                    break
            self.partition(f, s, n, i, call[0], bs)
        if v != ('c', 0):
            self.bad('result', 'failure', 'reports an error although the team was made', n)

    def config(self, f, s, n, i, fl):
        a, mk = self.cfgs[i]
        v = fl.get(self.F['config'])
        self.R.ob('object', '%s config' % self.name)
        given = ('*', ('v', 'a%d' % a), 0, ())
        zero = {t[1]: t[2] for t in s if t[0] == 'zero'}
        z = [zero.get('a%d' % x) for x in (a, mk)]
        if z == [False, False] and v != given:
            self.bad('object', 'config', 'the configuration given is not that of the new team', n)
        elif True in z and v != ('c', 0) or v not in (given, ('c', 0)):
            self.bad('object', 'config', 'the configuration of the new team is neither the one given nor the default', n)

    def partition(self, f, s, n, i, call, bs):
        """Colour against the wanted partition: same colour iff same part."""
        self.R.ob('members', '%s %d' % (self.name, i))
        part, col = defaultdict(set), defaultdict(set)
        for b in bs:
            w = self.want(b)
            if w in ('invalid', 'any'):
                continue
            c = terms.ev(call[2], b)
            if c is None:
                continue
            c = terms.sg(c, 32)
            if (c == UNDEF) != (w[i] is None):
                self.bad('members', 'member%d' % i, 'PE %d is %s the new team: %s' % (self.me(b), 'left out of' if c == UNDEF else 'included in', self.show(b)), n)
                return
            if c == UNDEF:
                continue
            if c < 0:
                self.bad('members', 'negative', 'the colour of the split is negative: %s' % self.show(b), n)
                return
            part[self.rest(b), w[i]].add(c)
            col[self.rest(b), c].add(w[i])
        for k, v in part.items():
            if len(v) > 1:
                self.bad('members', 'apart%d' % i, 'PEs of one team are split apart: %s' % self.show(dict(k[0])), n)
                return
        for k, v in col.items():
            if len(v) > 1:
                self.bad('members', 'joined%d' % i, 'PEs of different teams are joined: %s' % self.show(dict(k[0])), n)
                return


class Strided(Split):
    def want(self, b):
        n, me, start, stride, size = b['leaf', ('n',)], self.me(b), b['arg', 1], b['arg', 2], b['arg', 3]
        if not 0 <= start < n or size < 1 or size > 1 and stride == 0:
            return 'invalid'
        if not 0 <= start + stride * (size - 1) < n:
            return 'any' if stride < 0 and size == 1 else 'invalid'
        if stride < 0:
            return 'any'
        return [0 if any(start + stride * i == me for i in range(size)) else None]


class TwoD(Split):
    def want(self, b):
        x = b['arg', 1]
        if x < 1:
            return 'invalid'
        return [self.me(b) // x, self.me(b) % x]


# -- destroy
class Destroy(Team):
    def call(self, f, s, n, env, K):
        if n.fn in ('MPI_Comm_free', 'MPI_Group_free', 'free'):
            self.R.ob('destroy', '%s %s' % (self.name, f.where(n)))
            pos = self.cls(s, 0)
            if n.fn == 'free':
                ok, what = K(n.ops[0]) == ('v', 'a0'), 'obj'
            else:
                what = 'comm' if 'Comm' in n.fn else 'group'
                k = q.akey(f, n.ops[0], env)
                ok = self.deref(k[0]) == ('v', 'a0') and k[1] == self.F[what]
            if pos != {'obj'}:
                self.bad('destroy', 'predefined', 'a predefined or invalid team is destroyed', n)
            if not ok:
                self.bad('destroy', 'other', '%s of something else than the team given' % n.fn, n)
            if ('freed', what) in s or ('freed', 'obj') in s:
                self.bad('destroy', 'twice', 'part of the team is released twice or used after its release', n)
            return s | {('freed', what)}
        return s

    def final(self, f, s, n, env, v):
        pos = self.cls(s, 0)
        self.R.ob('destroy', '%s return %s' % (self.name, f.where(n)))
        if 'obj' in pos:
            for w in ('comm', 'group', 'obj'):
                if ('freed', w) not in s:
                    self.bad('destroy', 'leak:' + w, 'the %s of the team is not released' % w, n)


# -- results of queries without a team
class Plain(Team):
    def __init__(self, m, R, f, name, space, args, want, leafmap):
        Team.__init__(self, m, R, f, name, (), leafmap, space)
        self.args, self.want = args, want

    def final(self, f, s, n, env, v):
        self.R.ob('identity', '%s %s' % (self.name, f.where(n)))
        t = terms.make(f, n.ops[0], env, self.leaf(s))
        for b in self.space.of(self.facts(s)):
            got = terms.ev(t, b)
            w = self.want(b)
            g = None if got is None else terms.sg(got, t[-1])
            if got is None or not (g in w if isinstance(w, tuple) else g == w):
                self.bad('identity', 'value', 'returns %s for %s' % (g, self.show(b)), n)
                return


def writers(m):
    """Every write of the library to the cells that identify the PE and the predefined teams: {(root key): [(f, n, value)]}."""
    W = c11.world(m)
    out = defaultdict(list)
    M = q.model(m)
    g = M.gfield('OSHMPI_global', 'team_world_comm')[0]
    for f, ms in m.reps('^shmem|^start_pes$'):
        objs = {}
        for n in f.all():
            if n.op == 'store':
                k = q.akey(f, n.ops[1])
                if not k[2]:
                    out[k[0], k[1]].append((f, n, q.vkey(f, n.ops[0])))
            elif n.op == 'call' and n.fn and n.fn.startswith('MPI_'):
                for i, o in enumerate(n.ops):
                    if o[0] in '%g' and not o.startswith('g:ompi') and not (o[0] == '%' and f.insts.get(o) is not None and f.insts[o].op == 'load'):
                        k = q.akey(f, o)
                        if not k[2] and k[0][0] in '*v':
                            out[k[0], k[1]].append((f, n, (n.fn, i)))
    return out


def identity(m, R):
    W = c11.world(m)
    M = q.model(m)
    wr = writers(m)
    G = lambda p: M.gfield('OSHMPI_global', p)
    nullish = lambda v: v in (('v', 'null'), ('c', 0), ('c', -1), ('v', 'g:ompi_mpi_comm_null'), ('v', 'g:ompi_mpi_group_null'), ('c', None))

    def made(cell, root=None):
        """The writes that give the cell a value (not the ones that reset it or release it)."""
        out = []
        for f, n, v in wr.get((cell[0], cell[1]), []):
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith('MPI_'):
                if re.search('_free$', v[0]) or re.match('MPI_(Ibarrier|Barrier|Test|Wait)', v[0]):
                    continue
            elif nullish(v):
                continue
            out.append((f, n, v))
        return out

    def expect(rule, what, cell, ok, where=None):
        ws = made(cell)
        R.ob(rule, what)
        if not ws:
            R.bad(rule, 'unset:' + what, '%s is never set' % what, m.fn('shmem_init'), m.fn('shmem_init').blocks[0][0])
        for f, n, v in ws:
            R.ob(rule, '%s %s' % (what, f.where(n)))
            if not re.match(r'shmem_init|shmem_init_thread|start_pes', f.name):
                R.bad(rule, 'late:' + what, '%s is changed outside initialisation' % what, f, n)
            elif not ok(f, n, v):
                R.bad(rule, what, '%s is not what MPI reports for the communicator' % what, f, n)
    comms = {}
    for cls in ('world', 'shared'):
        c = G('team_%s_comm' % cls)
        ck = ('*',) + c

        def commok(f, n, v, cls=cls):
            if cls == 'world':
                return v == ('v', 'g:ompi_mpi_comm_world') or v == ('MPI_Comm_dup', 1) and n.ops[0].startswith('g:ompi_mpi_comm_world')
            if v != ('MPI_Comm_split_type', 4):
                return False
            o = q.vkey(f, n.ops[0])
            return o in (W.comm, ('v', 'g:ompi_mpi_comm_world')) and const(n.ops[1]) == 0 and (q.vkey(f, n.ops[2]) in (W.mype,) or const(n.ops[2]) is not None)
        expect('identity', 'team_%s_comm' % cls, c, commok)

        def of(fn):
            return lambda f, n, v: isinstance(v, tuple) and v == (fn, 1) and (q.vkey(f, n.ops[0]) == ck)
        for fld, fn in (('n_pes', 'MPI_Comm_size'), ('my_pe', 'MPI_Comm_rank'), ('group', 'MPI_Comm_group')):
            expect('identity', 'team_%s_%s' % (cls, fld), G('team_%s_%s' % (cls, fld)), of(fn))
        # the team object of the predefined handle
        obj = ('*',) + G('team_' + cls)
        T = {x[0]: x[1] for x in m.types[m.byname['OSHMPI_team']]['m']}
        made_by = made(G('team_' + cls))
        R.ob('identity', 'team_' + cls)
        roots = {obj} | {v for f, n, v in made_by if isinstance(v, tuple) and v[0] == 'v'}
        for fld, fn in (('comm', None), ('n_pes', 'MPI_Comm_size'), ('my_pe', 'MPI_Comm_rank'), ('group', 'MPI_Comm_group')):
            ws = [x for r in (obj,) for x in made((r, T[fld]))]
            # several values may reach the field: the default of the constructor and the real one
            good = [x for x in ws if x[2] == ('*',) + G('team_%s_%s' % (cls, fld)) or fn and x[2] == (fn, 1) and q.vkey(x[0], x[1].ops[0]) in (ck, ('*', obj, T['comm'], ()))]
            R.ob('identity', 'team_%s->%s' % (cls, fld))
            for f, n, v in ws:
                if (f, n, v) not in good:
                    R.bad('identity', 'team_%s->%s' % (cls, fld), 'the %s of the predefined team object is not that of its communicator' % fld, f, n)
            if not good:
                f = m.fn('shmem_init')
                R.bad('identity', 'unset:team_%s->%s' % (cls, fld), 'the %s of the predefined team object is never set' % fld, f, f.blocks[0][0])


def run(m, R):
    R.rule('handle', 'a handle stands for its team: the predefined ones for the world and shared team, others for their object; invalid ones are reported')
    R.rule('translate', 'a PE number is translated from the group of the first team to that of the second, and -1 is returned when there is none')
    R.rule('valid', 'a split is refused exactly when its arguments do not describe PEs of the parent, and on every PE alike')
    R.rule('split', 'a team is made by splitting the communicator of the parent')
    R.rule('members', 'the members of a new team are exactly the PEs named')
    R.rule('order', 'the PEs of a new team are numbered in the order of the parent')
    R.rule('object', 'a new team records the group, size, rank and configuration that belong to its communicator')
    R.rule('result', 'a handle is returned to the members of a new team, SHMEM_TEAM_INVALID to all others, and failure is reported')
    R.rule('arith', 'no division by zero')
    R.rule('destroy', 'a team that is destroyed is released completely and once; predefined and invalid teams are left alone')
    R.rule('identity', 'the PE number and count are those of the world communicator, which nothing changes after initialisation')
    R.guard(identity, m, R)
    W = c11.world(m)

    def go(cls, name, *a):
        if name not in m.decl or not m.has(name):
            f = m.fn('shmem_init')
            raise ir.AnalysisError('%s not found' % name)
        f = m.fn(name)
        r = sim(R, f, cls(m, R, f, name, *a))
        if not r.rets:
            R.bad('result', name + ':return', '%s: no path returns' % name, f, f.blocks[0][0], None, [name])
    for name, fld in (('shmem_team_my_pe', 'my_pe'), ('shmem_team_n_pes', 'n_pes'), ('shmem_team_get_config', 'config')):
        R.guard(go, Query, name, fld)
    R.guard(go, Translate, 'shmem_team_translate_pe')
    inst = [{('leaf', ('n',)): n, ('leaf', ('me',)): me, ('arg', 1): a, ('arg', 2): b, ('arg', 3): c} for n, me, a, b, c in strided_instances()]
    R.guard(go, Strided, 'shmem_team_split_strided', 1, terms.Space(inst), {1: 'start', 2: 'stride', 3: 'size'}, ('a6',), ((4, 5),))
    inst = [{('leaf', ('n',)): n, ('leaf', ('me',)): me, ('arg', 1): x} for n in range(1, 9) for me in range(n) for x in list(range(-2, n + 3)) + [IMAX, IMIN]]
    R.guard(go, TwoD, 'shmem_team_split_2d', 2, terms.Space(inst), {1: 'xrange'}, ('a4', 'a7'), ((2, 3), (5, 6)))
    R.guard(go, Destroy, 'shmem_team_destroy', (0,))
    npes, me = ('npes',), ('mype',)
    lm = {W.npes: npes, W.mype: me}
    base = [{('leaf', npes): n, ('leaf', me): p} for n in (1, 2, 7, 300) for p in (0, 1, 6, 299) if p < n]
    for name in [x for x in ('shmem_my_pe', '_my_pe', 'shmem_n_pes', '_num_pes') if m.has(x)]:
        R.guard(go, Plain, name, terms.Space(base), {}, (lambda b: b['leaf', me]) if 'my_pe' in name else lambda b: b['leaf', npes], lm)
    pe = [dict(b, **{}) for b in base]
    pes = [{('leaf', npes): b['leaf', npes], ('leaf', me): b['leaf', me], ('arg', 0): x} for b in base for x in (IMIN, -1, 0, 1, b['leaf', npes] - 1, b['leaf', npes], IMAX)]
    R.guard(go, Plain, 'shmem_pe_accessible', terms.Space(pes), {0: 'pe'}, lambda b: int(0 <= b['arg', 0] < b['leaf', npes]), lm)
    ptr = [{('leaf', npes): b['leaf', npes], ('leaf', me): b['leaf', me], ('arg', 0): 4096, ('arg', 1): x} for b in base for x in (-1, 0, 1, b['leaf', me], b['leaf', npes])]
    R.guard(go, Plain, 'shmem_ptr', terms.Space(ptr), {0: 'dest', 1: 'pe'}, lambda b: 4096 if b['arg', 1] == b['leaf', me] else 0, lm)
    R.need('identity', 20)
    R.need('members', 3)
