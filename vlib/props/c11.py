"""Collectives: every routine runs the collective its name says on the PEs it names, with the data its arguments describe."""
import os, re
from .. import q, amtab, layout, build
from ..ir import const, AnalysisError
from ..core import sim
from ..paths import DEAD
from ..q import Poly
from ..layout import Typed, clean, scale, q_has
from .c08 import lin, diff

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'fast']
EXPLAIN = ('Every collective routine (broadcast, collect, fcollect, alltoall, alltoalls, reductions, barrier and sync; team-based, active-set and sized) is simulated on all paths. The one data-moving MPI collective '
           'it issues must be the one its name says, with the caller\'s buffers, root, operation and a count and datatype that describe the caller\'s data as linear forms over the arguments; it must '
           'run on the communicator of the team given, or, for an active set, on the world communicator when the path has tested that the set is the world, on a cached communicator whose '
           'start, stride and size the path has compared, or on one made from the group of exactly the ranks start + i * 2^log. The arrays of counts and displacements of a collect are followed through the loops that fill them.')
ASSUME = ['MPI collectives behave as specified', 'element counts fit MPI\'s int count arguments', 'all PEs of a collective call it with matching arguments (required of the program)']

NAME = re.compile(r'^shmem_(?:(?P<T>[a-z0-9]+)_)?(?:(?P<op>sum|prod|min|max|and|or|xor)_(?P<r>reduce|to_all)|(?P<k>broadcast|collect|fcollect|alltoalls|alltoall)(?P<z>32|64|mem)?)$')
SYNC = {'shmem_barrier_all': ('world', ()), 'shmem_sync_all': ('world', ()), 'shmem_team_sync': ('team', ('team',)),
        'shmem_barrier': ('aset', ('start', 'log', 'size', 'psync')), 'shmem_sync_aset': ('aset', ('start', 'log', 'size', 'psync'))}
OPS = {'sum': 'sum', 'prod': 'prod', 'min': 'min', 'max': 'max', 'and': 'band', 'or': 'bor', 'xor': 'bxor'}
COLL = re.compile(r'^MPI_I?(bcast|Bcast|allreduce|Allreduce|allgatherv|Allgatherv|allgather|Allgather|alltoall|Alltoall|barrier|Barrier)$')


def header(name):
    """Value of an object-like macro of the public header."""
    p = os.path.join(build.REPO, 'include')
    for fn in sorted(os.listdir(p)):
        if fn.startswith('shmem.h') or fn.startswith('shmemx.h'):
            g = re.search(r'#define\s+%s\s+\(*(?:\(\s*\w+\s*\*?\s*\))?\s*\(*(0x[0-9a-fA-F]+|\d+)' % name, open(os.path.join(p, fn)).read())
            if g:
                return int(g.group(1), 0)
    return None


def kpoly(k):
    """Polynomial of a key; shifts by a variable amount are products with a power of two."""
    t = k[0]
    if t == 'c':
        return Poly.c(k[1])
    if t == 'add':
        return kpoly(k[1]) + kpoly(k[2])
    if t == 'sub':
        return kpoly(k[1]) - kpoly(k[2])
    if t == 'mul':
        return kpoly(k[1]) * kpoly(k[2])
    if t == 'shl':
        if k[2][0] == 'c':
            return kpoly(k[1]) * Poly.c(1 << k[2][1])
        return kpoly(k[1]) * Poly.a(('pow2', k[2]))
    return Poly.a(k)


class Spec:
    def __init__(self, m, name):
        self.op = None
        self.size = self.kind = None
        if name in SYNC:
            self.scope, names = SYNC[name]
            self.what = 'barrier'
            self.args = {a: ('v', 'a%d' % i) for i, a in enumerate(names)}
            self.n = len(names)
            self.sig = m.decl[name][2]
            return
        g = NAME.match(name)
        z = g.group('z')
        self.what = 'reduce' if g.group('r') else g.group('k')
        self.scope = 'aset' if g.group('r') == 'to_all' or z in ('32', '64') else 'team'
        names = ['dest', 'source'] + (['dst', 'sst'] if self.what == 'alltoalls' else []) + ['nelems']
        if self.scope == 'team':
            names = ['team'] + names + (['root'] if self.what == 'broadcast' else [])
        else:
            names += (['root'] if self.what == 'broadcast' else []) + ['start', 'log', 'size'] + (['pwrk'] if g.group('r') else []) + ['psync']
        self.args = {a: ('v', 'a%d' % i) for i, a in enumerate(names)}
        self.n = len(names)
        self.sig = m.decl[name][2]
        if z:
            self.size = 1 if z == 'mem' else int(z) // 8
        else:
            t = m.pointee(self.sig[1 + int(self.args['source'][1][1:])])
            self.size = m.size(t) if t is not None and t >= 0 else None
            self.kind = amtab.ckind(m, t)
        if g.group('op'):
            self.op = 'g:ompi_mpi_op_' + OPS[g.group('op')]


class World:
    """Where the library keeps the world communicator, group, team objects."""
    def __init__(self, m):
        M = q.model(m)
        G = lambda p: ('*',) + M.gfield('OSHMPI_global', p)
        self.comm, self.group = G('team_world_comm'), G('team_world_group')
        self.npes, self.mype = G('team_world_n_pes'), G('team_world_my_pe')
        self.team, self.shared = G('team_world'), G('team_shared')
        t = m.byname.get('OSHMPI_team')
        if t is None:
            raise AnalysisError('no team structure found')
        F = {x[0]: x[1] for x in m.types[t]['m']}
        self.tcomm, self.tme, self.tn = F['comm'], F['my_pe'], F['n_pes']
        self.W, self.S = header('SHMEM_TEAM_WORLD'), header('SHMEM_TEAM_SHARED')
        self.invalid = header('SHMEM_TEAM_INVALID') or 0
        if self.W is None or self.S is None:
            raise AnalysisError('team constants not found in the public header')


def world(m):
    if not hasattr(m, '_world'):
        m._world = World(m)
    return m._world


class Coll(Typed):
    def __init__(self, m, R, name, spec, insert=None):
        self.m, self.R, self.name, self.sp, self.W = m, R, name, spec, world(m)
        self.schema = layout.schema(m) if spec is not None and spec.what == 'alltoalls' else None
        self.cschema = None if insert is not None else commschema(m) if spec.scope == 'aset' else None
        self.found = insert

    # -- memory: communicators, groups and sizes written through pointers
    def step(self, f, mem, n, env):
        if n.op == 'call':
            for fn, role, tag in (('MPI_Comm_create_group', 'pcomm', 'cm'), ('MPI_Group_incl', 'pgroup', 'grp'), ('MPI_Comm_size', 'psize', 'cs')):
                if n.fn == fn:
                    mem = Typed.step(self, f, mem, n, env)
                    k = self.cell(f, q.arg(n, role), env)
                    if k is not None and not k[2]:
                        v = (tag, n.v) if tag != 'cs' else ('cs', q.vkey(f, q.arg(n, 'comm'), env))
                        mem = self.kill(mem, k[0], k[1], 8) | {((k[0], k[1]), v, 4 if tag == 'cs' else 8)}
                    return mem
            if n.fn in ('MPI_Type_get_extent', 'MPI_Type_size'):
                z = self.tsize(None, q.vkey(f, q.arg(n, 'type'), env))
                mem = Typed.step(self, f, mem, n, env)
                for role, val in (('lb', 0), ('extent', z), ('size', z)):
                    a = q.arg(n, role)
                    k = self.cell(f, a, env) if a is not None else None
                    if k is not None and not k[2] and z is not None:
                        mem = self.kill(mem, k[0], k[1], 4) | {((k[0], k[1]), ('c', val), 8 if role != 'size' else 4)}
                return mem
        return Typed.step(self, f, mem, n, env)

    def live_extra(self):
        return ('cm', 'grp')

    def bad(self, rule, f, n, key, what):
        sp = self.sp
        self.R.bad(rule, '%s:%s:%s' % (sp.scope, sp.what, key), '%s: %s' % (self.name, what), f, n, self, [self.name])

    def keep(self, k, d=4):
        if k in (self.W.npes, self.W.mype):
            return True
        return Typed.keep(self, k, d)

    def rootatom(self, f, p, a, b, env):
        """Does the comparison decide whether the caller is the root? True, False or None."""
        sp, W = self.sp, self.W
        if sp is None or 'root' not in sp.args or p not in ('eq', 'ne'):
            return None
        d = kpoly(q.vkey(f, a, env)) - kpoly(q.vkey(f, b, env))
        if sp.scope == 'aset':
            r = kpoly(sp.args['start']) + kpoly(sp.args['root']) * Poly.a(('pow2', sp.args['log']))
            mes = [kpoly(W.mype)]
        else:
            r = kpoly(sp.args['root'])
            mes = [Poly.a(x) for x in d.atoms() if x[0] == '*' and x[2] == W.tme and not x[3] and x[1] in (('v', 'a0'), W.team, W.shared)]
        for me in mes:
            if d == r - me or d == me - r:
                return p == 'eq'
        return None

    def medge(self, f, s, blk, nxt, atoms, env):
        sp = self.sp
        if sp is not None:
            for p, a, b in atoms:
                x, y = q.vkey(f, a, env), q.vkey(f, b, env)
                if sp.scope == 'team' and ('v', 'a0') in (x, y):
                    o = y if x == ('v', 'a0') else x
                    c = 0 if o == ('v', 'null') else o[1] if o[0] == 'c' else None
                    if c is not None and p in ('eq', 'ne'):
                        s = s | {('team', p, c)}
                r = self.rootatom(f, p, a, b, env)
                if r is not None:
                    if ('root', not r) in s:
                        return DEAD
                    s = s | {('root', r)}
        return self.equalities(f, s, nxt, atoms, env)

    def event(self, f, s, n, env):
        r = self.typeevent(f, s, n, env)
        if r is not None:
            return r
        if n.op == 'store':
            return self.store(f, s, n, env)
        if n.op != 'call' or not n.fn:
            return s
        K = lambda x: q.vkey(f, q.arg(n, x), env)
        if n.fn == 'MPI_Group_incl':
            return s | {('grp', n.v, K('group'), K('n'), q.arg(n, 'ranks'))}
        if n.fn == 'MPI_Comm_create_group':
            return s | {('cm', n.v, K('comm'), K('group'))}
        if n.fn in q.MEMCPY and self.sp is not None and 'dest' in self.sp.args and q.vkey(f, q.arg(n, 'dst'), env) == self.sp.args['dest']:
            return s | {('copy', n.v, K('src'), K('size'))}
        g = COLL.match(n.fn)
        if g and self.sp is not None:
            return self.coll(f, s, n, env, g.group(1).lower())
        return s

    def store(self, f, s, n, env):
        k = q.akey(f, n.ops[1], env)
        v = q.vkey(f, n.ops[0], env)
        if k[0][0] == 'v' and k[0][1][0] == '%' and not k[2]:
            d = f.insts[k[0][1]]
            if d.op == 'call' and d.fn in ('malloc', 'calloc') and not self.isarray(f, d):
                s = frozenset(t for t in s if t[:3] != ('st', d.v, k[1]))
                return s | {('st', d.v, k[1], v)}
        if v[0] == 'v' and v[1][0] == '%' and f.insts[v[1]].op == 'call' and f.insts[v[1]].fn in ('malloc', 'calloc'):
            fl = {t[2]: t[3] for t in s if t[0] == 'st' and t[1] == v[1]}
            if self.found is not None and any(x[0] == 'cm' for x in fl.values()):
                self.found.append((f, n, fl, s))
            s = frozenset(t for t in s if not (t[0] == 'st' and t[1] == v[1]))
        return s

    def isarray(self, f, d):
        return const(d.ops[0]) is None

    # -- the communicator
    def members(self, f, s, g):
        """(start, log, size) of the ranks of a group made on the path, or a reason."""
        for t in s:
            if t[0] == 'grp' and t[1] == g[1]:
                if t[2] != self.W.group:
                    return 'the group is not made from the world group'
                c = f.insts[t[1]]
                r = ranks(f, c, t[4])
                if isinstance(r, str):
                    return r
                return r + (t[3],)
        return 'the group is not known'

    def comm(self, f, s, n, k):
        sp, W = self.sp, self.W
        self.R.ob('comm', '%s %s' % (self.name, f.where(n)))
        if sp.scope == 'world':
            if k != W.comm and not (k == ('*', W.team, W.tcomm, ())):
                self.bad('comm', f, n, 'world', 'the collective does not run on the world communicator')
            return
        if sp.scope == 'team':
            fa = {t[1:] for t in s if t[0] == 'team'}
            if k[0] != '*' or k[2] != W.tcomm or k[3]:
                if k == W.comm and ('eq', W.W) in fa:
                    return
                self.bad('comm', f, n, 'team', 'the collective does not run on the communicator of a team')
                return
            o = k[1]
            if o == ('v', 'a0'):
                if ('ne', W.W) not in fa or ('ne', W.S) not in fa:
                    self.bad('comm', f, n, 'handle', 'the handle of a predefined team is used as a team object')
            elif o == W.team and ('eq', W.W) in fa or o == W.shared and ('eq', W.S) in fa:
                pass
            else:
                self.bad('comm', f, n, 'other', 'the collective runs on another team than the one given')
            return
        A = sp.args
        if k == W.comm:
            E = lambda x, y: self.equal(s, lin(x), lin(y))
            if not (E(A['start'], ('c', 0)) and E(A['size'], W.npes) and (E(A['log'], ('c', 0)) or E(A['size'], ('c', 1)))):
                self.bad('comm', f, n, 'world', 'the collective runs on the world communicator although the active set may be another one')
            return
        if k[0] == 'cm':
            for t in s:
                if t[0] == 'cm' and t[1] == k[1]:
                    r = self.members(f, s, t[3]) if t[3][0] == 'grp' else 'the group is not known'
                    if isinstance(r, str):
                        self.bad('comm', f, n, 'group', 'the communicator of the active set: %s' % r)
                    elif r != (A['start'], A['log'], A['size']):
                        self.bad('comm', f, n, 'members', 'the communicator made is not that of the ranks start + i * 2^log, i < size')
                    return
            self.bad('comm', f, n, 'unknown', 'the communicator is not known')
            return
        S = self.cschema
        if k[0] == '*' and S and k[2] == S['comm'] and not k[3]:
            for role in ('start', 'log', 'size'):
                fld = ('*', k[1], S.get(role), ())
                if not any(t[0] == 'eq' and fld in t[1:] and A[role] in t[1:] for t in s):
                    self.bad('comm', f, n, 'cached:' + role, 'a cached communicator is used whose %s has not been compared with the one of the active set' % role)
            return
        self.bad('comm', f, n, 'unknown', 'the collective does not run on a communicator of the active set')

    # -- the call
    def coll(self, f, s, n, env, kind):
        sp = self.sp
        K = lambda x: q.vkey(f, q.arg(n, x), env)
        if kind == 'allgather' and sp.what == 'collect' and not self.isdata(f, n, env):
            # exchange of the counts
            self.R.ob('counts', '%s %s' % (self.name, f.where(n)))
            self.comm(f, s, n, K('comm'))
            c = self.content(f, q.arg(n, 'sbuf'), env)
            if c != sp.args['nelems']:
                self.bad('counts', f, n, 'value', 'the count told to the others is not the one of the caller')
            for r in ('scount', 'rcount'):
                L = self.layout(f, s, K(r), K(r[0] + 'type'), env)
                if L is None or L.step is not None or clean(L.n) != {None: 1} or L.size not in (4, 8):
                    self.bad('counts', f, n, 'layout', 'the exchange of the counts does not move one integer per PE')
            return s | {('counts', K('rbuf'))}
        if kind == 'barrier' and sp.what != 'barrier':
            return s
        self.R.ob('call', '%s %s' % (self.name, f.where(n)))
        if any(t[0] == 'done' for t in s):
            self.bad('call', f, n, 'second', 'a second collective is issued')
        ok = {'broadcast': ('bcast',), 'collect': ('allgather', 'allgatherv'), 'fcollect': ('allgather',), 'alltoall': ('alltoall',),
              'alltoalls': ('alltoall',), 'reduce': ('allreduce',), 'barrier': ('barrier',)}[sp.what]
        s2 = s | {('done', n.v)}
        if kind not in ok:
            self.bad('call', f, n, 'kind', 'a %s is performed with %s' % (sp.what, n.fn))
            return s2
        self.comm(f, s, n, K('comm'))
        if sp.what == 'barrier':
            return s2
        A = sp.args
        N = scale(lin(A['nelems']), sp.size)
        self.R.ob('data', '%s %s' % (self.name, f.where(n)))
        if kind == 'bcast':
            if K('root') != A['root']:
                self.bad('data', f, n, 'root', 'the root is not the one of the caller')
            self.total(f, s, n, K('count'), K('type'), env, N, 'broadcast')
            self.bcastbuf(f, s, n, env)
        elif kind == 'allreduce':
            self.same(f, s, n, env)
            if K('rbuf') != A['dest']:
                self.bad('data', f, n, 'dest', 'the result is not delivered to the caller\'s array')
            if not self.equal(s, lin(K('count')), lin(A['nelems'])):
                self.bad('data', f, n, 'count', 'the number of elements reduced is not the one of the caller')
            t = env.resolve(q.arg(n, 'type'))
            k, w = amtab.kind(t), sp.kind
            if sp.op.rsplit('_', 1)[1] not in ('min', 'max') and k and w and k[0] in 'su' and w[0] in 'su':
                k, w = k[1], w[1]
            if k is None or k != w:
                self.bad('data', f, n, 'type', 'the reduction works on %s, the routine on %s' % (t, sp.kind))
            op = env.resolve(q.arg(n, 'op')).split('+')[0]
            if op != sp.op:
                self.bad('data', f, n, 'op', 'the operation is %s, not %s' % (op[2:], sp.op[2:]))
        else:
            if K('sbuf') != A['source']:
                self.bad('data', f, n, 'source', 'the data sent are not the caller\'s')
            if K('rbuf') != A['dest']:
                self.bad('data', f, n, 'dest', 'the data received are not delivered to the caller\'s array')
            if sp.what == 'alltoalls':
                self.strided(f, s, n, K('scount'), K('stype'), env, A['sst'], 'send')
                self.strided(f, s, n, K('rcount'), K('rtype'), env, A['dst'], 'receive')
            elif kind == 'allgatherv':
                self.total(f, s, n, K('scount'), K('stype'), env, N, 'send')
                self.gatherv(f, s, n, env)
            else:
                self.total(f, s, n, K('scount'), K('stype'), env, N, 'send')
                self.total(f, s, n, K('rcount'), K('rtype'), env, N, 'receive')
                if sp.what == 'collect':
                    self.equalcounts(f, s, n, env)
        return s2

    def isdata(self, f, n, env):
        return q.vkey(f, q.arg(n, 'sbuf'), env) == self.sp.args['source'] or q.vkey(f, q.arg(n, 'rbuf'), env) == self.sp.args['dest']

    def total(self, f, s, n, c, t, env, N, what):
        L = self.layout(f, s, c, t, env)
        if L is None or isinstance(L.size, tuple) or L.step is not None or not self.equal(s, scale(L.n, L.size), N):
            self.bad('data', f, n, what, 'the %s count and datatype of the %s do not describe nelems elements of %d bytes' % (what, n.fn, self.sp.size))

    def same(self, f, s, n, env):
        A = self.sp.args
        v = q.arg(n, 'sbuf')
        k = q.vkey(f, v, env)
        d = f.insts.get(f.strip(q.res(f, v, env)))
        if d is not None and d.op == 'select':
            for tr, o in ((True, d.ops[1]), (False, d.ops[2])):
                e = set()
                for p, a, b in f.atoms(d.ops[0], tr, env):
                    x, y = q.vkey(f, a, env), q.vkey(f, b, env)
                    if p == 'eq' and {x, y} == {A['source'], A['dest']}:
                        e.add('same')
                self.inplace(f, s, n, q.vkey(f, o, env), bool(e))
            return
        self.inplace(f, s, n, k, any(t[0] == 'eq' and set(t[1:]) == {A['source'], A['dest']} for t in s))

    def inplace(self, f, s, n, k, same):
        A = self.sp.args
        if k == ('c', 1):
            if not same:
                self.bad('data', f, n, 'inplace', 'the reduction works in place although source and destination may differ')
        elif k != A['source']:
            self.bad('data', f, n, 'source', 'the data reduced are not the caller\'s')
        elif same:
            self.bad('data', f, n, 'alias', 'source and destination are passed as different buffers although they are the same')

    def bcastbuf(self, f, s, n, env):
        A = self.sp.args
        v = q.arg(n, 'buf')
        d = f.insts.get(f.strip(q.res(f, v, env)))
        alts = []
        if d is not None and d.op == 'select':
            for tr, o in ((True, d.ops[1]), (False, d.ops[2])):
                r = [self.rootatom(f, p, a, b, env) for p, a, b in f.atoms(d.ops[0], tr, env)]
                r = [x for x in r if x is not None]
                alts.append((q.vkey(f, o, env), r[0] if r else None))
        else:
            r = [t[1] for t in s if t[0] == 'root']
            alts.append((q.vkey(f, v, env), r[0] if r else None))
        for k, r in alts:
            if r is None:
                self.bad('data', f, n, 'buffer', 'the buffer of the broadcast is not chosen by whether the caller is the root')
            elif k != A['source' if r else 'dest']:
                self.bad('data', f, n, 'buffer', 'the buffer of the broadcast is the wrong one on the %s' % ('root' if r else 'other PEs'))

    def strided(self, f, s, n, c, t, env, st, what):
        sp = self.sp
        A = sp.args
        self.R.ob('layout', '%s %s %s' % (self.name, what, f.where(n)))
        self.uncompared = None
        L = self.layout(f, s, c, t, env)
        bad = lambda w: self.bad('layout', f, n, '%s:%s' % (what, w.split()[0]), 'the %s data of the alltoalls: %s' % (what, w))
        if L is None or isinstance(L.size, tuple):
            return bad('type not recognised%s' % (' (cached, %s not compared)' % self.uncompared if self.uncompared else ''))
        N, S = lin(A['nelems']), lin(st)
        if L.step is None:
            if not self.equal(s, scale(L.n, L.size), scale(N, sp.size)):
                return bad('amount is not nelems elements of %d bytes' % sp.size)
            if not self.equal(s, S, {None: 1}):
                return bad('contiguous although the stride may not be 1')
            return
        if L.size != sp.size or not self.equal(s, L.n, N):
            return bad('amount is not nelems elements of %d bytes' % sp.size)
        if not self.equal(s, L.step, scale(S, sp.size)):
            return bad('stride is not the one of the caller for this side')
        # consecutive blocks are nelems * stride elements apart
        want = kpoly(A['nelems']) * kpoly(st) * Poly.c(sp.size)
        subst = self.subst(s)
        if L.extent is None:
            if not any(x[0] == 'eq' and ('c', 0) in x[1:] and any(subst(kpoly(y)) == subst(kpoly(A['nelems']) * kpoly(st)) for y in x[1:]) for x in s) and not self.equal(s, N, {}):
                bad('extent is not set, so that blocks overlap')
            return
        e = L.extent
        e = Poly({(): e.get(None, 0)}) + sum_([kpoly(k) * Poly.c(v) for k, v in e.items() if k is not None]) if isinstance(e, dict) else kpoly(e) * Poly.c(sp.size)
        if subst(e) != subst(want):
            bad('extent is not nelems * stride elements')

    def subst(self, s):
        rep = {}
        for t in sorted(s, key=str):
            if t[0] == 'eq' and t[1][0] == 'v' and t[2][0] == 'v' and t[1][1][0] == 'a' and t[2][1][0] == 'a':
                a, b = sorted(t[1:])
                rep[b] = a

        def one(x):
            while x in rep:
                x = rep[x]
            return x

        def sub(p):
            r = Poly()
            for k, c in p.t.items():
                y = Poly.c(c)
                for a in k:
                    y = y * Poly.a(one(a))
                r = r + y
            return r
        return sub

    # -- collect: arrays of counts and displacements
    def nranks(self, f, s, v, env):
        """Is the value the number of PEs of the collective?"""
        W = self.W
        k = v if isinstance(v, tuple) else cellval(f, v, env)
        if k[0] == 'cs':
            return True
        if self.sp.scope == 'aset':
            return k == self.sp.args['size']
        return k[0] == '*' and k[2] == W.tn and k[1] in (('v', 'a0'), W.team, W.shared)

    def gatherv(self, f, s, n, env):
        self.R.ob('counts', '%s %s' % (self.name, f.where(n)))
        K = lambda x: q.vkey(f, q.arg(n, x), env)
        cnt = [t[1] for t in s if t[0] == 'counts']
        if K('rcounts') not in cnt:
            self.bad('counts', f, n, 'rcounts', 'the counts received are not those exchanged')
        z = self.tsize(s, K('rtype'))
        if z != self.sp.size:
            self.bad('counts', f, n, 'rtype', 'the datatype received is not that of the elements')
        why = displs(f, n, q.arg(n, 'rcounts'), q.arg(n, 'displs'), lambda v: self.nranks(f, s, v, env), env)
        if why:
            self.bad('counts', f, n, 'displs:' + why.split()[0], 'the displacements of the collect: %s' % why)
        for r in ('rcounts', 'displs'):
            d = f.insts.get(f.strip(q.res(f, q.arg(n, r), env)))
            if d is None or d.op != 'call' or d.fn not in ('malloc', 'calloc'):
                continue
            p = q.poly(f, d.ops[0], None, lambda g, v: Poly.a(cellval(g, v, env)) if v[0] == '%' and g.insts[v].op == 'load' else None)
            if len(p.t) != 1 or list(p.t.values()) != [4] or len(list(p.t)[0]) != 1 or not self.nranks(f, s, list(p.t)[0][0], env):
                self.bad('counts', f, n, 'alloc', 'the array of %s does not hold one int per PE' % ('counts' if r == 'rcounts' else 'displacements'))

    def equalcounts(self, f, s, n, env):
        self.R.ob('counts', '%s %s' % (self.name, f.where(n)))
        why = allequal(f, n, self.sp.args['nelems'], lambda v: self.nranks(f, s, v, env), env)
        if why:
            self.bad('counts', f, n, 'equal:' + why.split()[0], 'the fixed-size gather of a collect: %s' % why)

    def mret(self, f, s, n, env):
        sp = self.sp
        if sp is None:
            return
        self.R.ob('call', self.name)
        done = [t for t in s if t[0] == 'done']
        if not done:
            if sp.scope == 'team' and ('team', 'eq', self.W.invalid) in s and n.ops and const(env.resolve(n.ops[0])) != 0:
                return
            if sp.what != 'barrier' and sp.what != 'reduce' and self.equal(s, lin(sp.args['nelems']), {}) and sp.what != 'collect':
                return
            self.bad('call', f, n, 'none', 'no collective is performed on a path')
            return
        if sp.what == 'broadcast':
            self.R.ob('root', self.name)
            root = [t[1] for t in s if t[0] == 'root']
            cp = [t for t in s if t[0] == 'copy']
            A = sp.args
            N = kpoly(A['nelems']) * Poly.c(sp.size)
            good = [t for t in cp if t[2] == A['source'] and kpoly(t[3]) == N]
            if sp.scope == 'team':
                if (not root or True in root) and not good and not any(t[0] == 'eq' and set(t[1:]) == {A['source'], A['dest']} for t in s) \
                        and not self.equal(s, lin(A['nelems']), {}):
                    self.bad('root', f, n, 'copy', 'the root of a team broadcast does not receive the data in its destination')
            if cp and (True not in root or sp.scope == 'aset'):
                self.bad('root', f, n, 'overwrite', 'the destination is overwritten by a copy on a PE that must not')
            if sp.scope == 'team' and len(good) != len(cp):
                self.bad('root', f, n, 'copy', 'the copy at the root of a team broadcast is not that of nelems elements')


def sum_(l):
    r = Poly()
    for x in l:
        r = r + x
    return r


# ---------------------------------------------------------------------------------------------- loops over arrays
def name2(f):
    """Naming of values for polynomials: powers of two."""
    def nm(g, v):
        n = f.insts.get(v)
        if n is not None and n.op == 'shl' and const(n.ops[1]) is None:
            return q.poly(f, n.ops[0], None, nm) * Poly.a(('pow2', q.vkey(f, n.ops[1])))
        return None
    return nm


def cellval(f, v, env=None):
    """Key of a value; a load of a local variable that has one last writer is that writer's value."""
    k = q.vkey(f, v, env)
    n = f.insts.get(f.strip(v))
    if n is None or n.op != 'load' or k[0] in ('cs', 'c'):
        return k
    r, off, var, h = f.addr(n.ops[0])
    if var or r not in f.insts or f.insts[r].op != 'alloca':
        return k
    wr = []
    for x in f.all():
        if x.op == 'store' and f.addr(x.ops[1])[0] == r:
            wr.append(x)
        elif x.op == 'store' and f.addr(x.ops[0])[0] == r:
            return k
        elif x.op == 'call' and not (x.fn or '').startswith('llvm.lifetime'):
            for i, o in enumerate(x.ops):
                if o[0] == '%' and f.addr(o)[0] == r and {a: b for b, a in q.POS.get(x.fn, {}).items()}.get(i) not in ('sbuf', 'buf', 'obuf', 'cbuf'):
                    wr.append(x)
    for w in wr:
        if f.dominates(w, n) and all(x is w or f.dominates(x, w) and not reaches(f, w.blk, x.blk, None) or x is not w and x.blk == w.blk and f.dominates(x, w) and f.innermost(w.blk) is None for x in wr):
            if w.op == 'store' and f.addr(w.ops[1])[1:3] == (off, var):
                return q.vkey(f, w.ops[0], env)
            if w.op == 'call' and w.fn == 'MPI_Comm_size':
                return ('cs', q.vkey(f, q.arg(w, 'comm'), env))
    return k


def stores_to(f, base):
    """[(inst, index polynomial in elements of 4 bytes)] of the stores into the array at base."""
    out = []
    b = f.strip(base)
    for n in f.all():
        if n.op == 'store':
            r, off, var, h = f.addr(n.ops[1])
            if r == b and off % 4 == 0:
                p = Poly.c(off // 4)
                ok = True
                for x, s in var:
                    if s % 4:
                        ok = False
                        break
                    p = p + q.poly(f, x, None, name2(f)) * Poly.c(s // 4)
                out.append((n, p if ok else None))
    return out


def loopof(f, n, idx):
    """(counted loop, offset) when the index is the induction variable plus a constant."""
    for c in q.counts(f):
        if n.blk in f.loops()[c.head]:
            d = idx - Poly.a(('v', c.phi.v))
            if d.const() is not None:
                return c, d.const()
    return None, None


def span(c, off):
    """First index and (bound value, offset) of the indexes visited by loop c shifted by off."""
    lo = c.lo if isinstance(c.lo, tuple) else (c.lo, 0)
    l = q.poly(c.f, lo[0]) + Poly.c(lo[1] + off)
    return l.const(), (c.hi[0], c.hi[1] + off)


def leaves_early(f, c):
    """Does the loop have an exit other than its counter that does not abort?"""
    body = f.loops()[c.head]
    from .c08 import Translate
    for b in body:
        for x in f.succ[b]:
            if x not in body and b != c_exit(f, c) and Translate.returns(f, x):
                return True
    return False


def c_exit(f, c):
    for b in f.loops()[c.head]:
        if c.exitblk in f.succ[b]:
            t = f.blocks[b][-1]
            for p, x, y in f.atoms(t.ops[0], t.x['to'][0] in f.loops()[c.head]) if t.op == 'br' and len(t.x['to']) == 2 else []:
                return b
    return c.head


def ranks(f, call, base):
    """(start, log) when the list of ranks is start + i * 2^log for i below the number given, else a reason."""
    st = stores_to(f, base)
    if len(st) != 1:
        return 'its list of ranks is not filled by one loop'
    n, idx = st[0]
    c, off = loopof(f, n, idx) if idx is not None else (None, None)
    if c is None:
        return 'its list of ranks is not filled by a counted loop'
    lo, hi = span(c, off)
    if lo != 0 or hi[1] != 0 or q.vkey(f, hi[0]) != q.vkey(f, q.arg(call, 'n')):
        return 'its list of ranks is not filled for every member'
    if not (f.dominates(f.blocks[n.blk][0], f.blocks[n.blk][-1])) or leaves_early(f, c):
        return 'its list of ranks may be filled partly'
    nm = name2(f)
    i = Poly.a(('v', c.phi.v))
    v = q.poly(f, n.ops[0], None, nm)
    # a running value is its first value plus the step times the number of steps
    for a in list(v.atoms()):
        if a[0] == 'v' and a[1][0] == '%' and a != ('v', c.phi.v):
            ph = f.insts.get(a[1])
            if ph is not None and ph.op == 'phi' and ph.blk == c.head:
                body = f.loops()[c.head]
                init = [o for o, fr in zip(ph.ops, ph.x['from']) if fr not in body]
                nxt = [o for o, fr in zip(ph.ops, ph.x['from']) if fr in body]
                if len(init) == 1 and len(nxt) == 1:
                    step = q.poly(f, nxt[0], None, nm) - Poly.a(a)
                    if a in step.atoms() or ('v', c.phi.v) in step.atoms():
                        return 'its ranks are not evenly spaced'
                    clo = c.lo if isinstance(c.lo, tuple) else (c.lo, 0)
                    l = q.poly(f, clo[0]) + Poly.c(clo[1])
                    v = v - Poly.a(a) + q.poly(f, init[0], None, nm) + step * (i - l)
    i = i + Poly.c(off)
    start = log = None
    for k, cf in v.t.items():
        if cf != 1:
            continue
        if len(k) == 1 and k[0] != ('v', c.phi.v) and k[0][0] != 'pow2':
            start = k[0]
        elif len(k) == 2 and ('v', c.phi.v) in k and any(x[0] == 'pow2' for x in k):
            log = [x for x in k if x[0] == 'pow2'][0][1]
    if start is None or log is None or v != Poly.a(start) + i * Poly.a(('pow2', log)):
        return 'its ranks are not start + i * 2^log'
    return start, log


def loadidx(f, v, base):
    """Index polynomial when v is a load from the array at base."""
    n = f.insts.get(f.strip(v))
    if n is None or n.op != 'load':
        return None
    r, off, var, h = f.addr(n.ops[0])
    if r != f.strip(base) or off % 4:
        return None
    p = Poly.c(off // 4)
    for x, s in var:
        if s % 4:
            return None
        p = p + q.poly(f, x) * Poly.c(s // 4)
    return p


def displs(f, call, R, D, isn, env):
    """Reason why D is not the running sum of R, None when it is."""
    R, D = f.strip(q.res(f, R, env)), f.strip(q.res(f, D, env))
    st = stores_to(f, D)
    first = [(n, i) for n, i in st if i is not None and i.const() == 0 and const(n.ops[0]) == 0]
    rest = [x for x in st if x not in first]
    if len(rest) != 1:
        return 'not filled by one loop'
    n, idx = rest[0]
    c, off = loopof(f, n, idx) if idx is not None else (None, None)
    if c is None:
        return 'not filled by a counted loop'
    lo, hi = span(c, off)
    if hi[1] != 0 or not isn(hi[0]):
        return 'not filled for every PE'
    if leaves_early(f, c):
        return 'not filled completely'
    body = f.loops()[c.head]
    v = f.strip(n.ops[0])
    d = f.insts.get(v)

    def running(ph, want):
        """phi that starts at 0 and is stepped by R[want]"""
        p = f.insts.get(f.strip(ph))
        if p is None or p.op != 'phi' or p.blk != c.head:
            return False
        for o, fr in zip(p.ops, p.x['from']):
            if fr in body:
                a = f.insts.get(f.strip(o))
                if a is None or a.op != 'add':
                    return False
                xs = [f.strip(x) for x in a.ops]
                if p.v not in xs:
                    return False
                o2 = xs[1] if xs[0] == p.v else xs[0]
                if loadidx(f, o2, R) != want:
                    return False
            elif const(o) != 0 and not (loadidx(f, o, D) is not None and loadidx(f, o, D).const() == 0):
                return False
        return True
    if lo == 1:
        if not first:
            return 'first one is not set to 0'
        if d is None or d.op != 'add':
            return 'value is not a running sum of the counts'
        for x, y in ((d.ops[0], d.ops[1]), (d.ops[1], d.ops[0])):
            if loadidx(f, y, R) == idx - Poly.c(1):
                if loadidx(f, x, D) == idx - Poly.c(1):
                    return None
                p = f.insts.get(f.strip(x))
                if running(x, idx - Poly.c(1)):
                    return None
                if p is not None and p.op == 'phi' and p.blk == c.head and all(
                        (f.strip(o) == v) if fr in body else const(o) == 0 for o, fr in zip(p.ops, p.x['from'])):
                    return None
        return 'value is not the sum of the counts before'
    if lo == 0:
        if running(n.ops[0], idx):
            return None
        return 'value is not the sum of the counts before'
    return 'first ones are not set'


def allequal(f, call, nelems, isn, env):
    """Reason why the fixed-size gather is not confined to equal counts, None when it is: a condition that controls the
    call is a conjunction of comparisons of nelems with the count of every PE."""
    conds = []
    for bi, b in enumerate(f.blocks):
        t = b[-1]
        if t.op == 'br' and len(t.x['to']) == 2:
            for k, tr in ((0, True), (1, False)):
                o = t.x['to'][1 - k]
                if reaches(f, t.x['to'][k], call.blk) and not reaches(f, o, call.blk, bi):
                    conds.append((t.ops[0], tr))
    best = 'not confined to equal counts'
    J = Implied(f, nelems)
    for c, tr in conds:
        got = J.of(c, tr)
        if not got:
            continue
        cov = set()
        for idx, n in got.values():
            if idx == '':
                continue
            if idx.const() is not None:
                cov.add(idx.const())
                continue
            lp, off = loopof(f, n, idx)
            if lp is None:
                continue
            lo, hi = span(lp, off)
            if hi[1] != 0 or not isn(hi[0]):
                best = 'comparison does not reach every PE'
                continue
            cov.add(('from', lo))
        start = [x[1] for x in cov if isinstance(x, tuple) and x[1] is not None]
        if start and all(i in cov for i in range(min(start))):
            return None
        best = 'comparison does not reach every PE'
    return best


def reaches(f, a, b, stop=None):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen or x == stop:
            continue
        seen.add(x)
        st += f.succ[x]
    return False


class Implied:
    """What the truth of a value implies: comparisons of nelems with elements of an array that held, in the last
    iteration or, for a flag carried around a loop, in every one. Facts are {repr: (index, inst)}; None: impossible."""
    def __init__(self, f, nelems):
        self.f, self.nelems = f, nelems
        self.busy = set()

    @staticmethod
    def both(a, b):
        if a is None or b is None:
            return None
        return dict(a, **b)

    @staticmethod
    def either(l):
        l = [x for x in l if x is not None]
        if not l:
            return None
        return {k: v for k, v in l[0].items() if all(k in x for x in l[1:])}

    def cmp(self, n, tr):
        f = self.f
        p = n.x['pred']
        for x, y in ((n.ops[0], n.ops[1]), (n.ops[1], n.ops[0])):
            if cellval(f, x) == self.nelems and p in ('eq', 'ne') and (p == 'eq') == tr:
                d = f.insts.get(f.strip(y))
                if d is not None and d.op == 'load':
                    r, off, var, h = f.addr(d.ops[0])
                    if off % 4 == 0 and all(s % 4 == 0 for _, s in var):
                        p2 = Poly.c(off // 4)
                        for z, s in var:
                            p2 = p2 + q.poly(f, z) * Poly.c(s // 4)
                        return {str(sorted(map(str, p2.t.items()))) + str(f.innermost(n.blk)): (p2, n)}
        return None

    def of(self, v, tr):
        f = self.f
        c = const(v)
        if c is not None:
            return {} if (c != 0) == tr else None
        v = f.strip(v)
        n = f.insts.get(v)
        if n is None:
            return {}
        if n.op == 'icmp':
            r = self.cmp(n, tr)
            if r is not None:
                return r
            p, k = n.x['pred'], const(n.ops[1])
            if k in (0, 1) and p in ('eq', 'ne') and (k == 0 or self.isbool(n.ops[0])):
                return self.of(n.ops[0], tr == ((p == 'ne') == (k == 0)))
            return {}
        if n.op in ('and', 'or'):
            a, b = self.of(n.ops[0], tr), self.of(n.ops[1], tr)
            if n.op == 'and' and tr or n.op == 'or' and not tr:
                return self.both(a, b)
            if n.op == 'and' and not (self.isbool(n.ops[0]) and self.isbool(n.ops[1])):
                return {}
            return self.either([a, b])
        if n.op == 'select':
            return self.either([self.both(self.of(n.ops[0], True), self.of(n.ops[1], tr)), self.both(self.of(n.ops[0], False), self.of(n.ops[2], tr))])
        if n.op == 'xor' and const(n.ops[1]) in (1, -1) and self.isbool(n.ops[0]):
            return self.of(n.ops[0], not tr)
        if n.op == 'phi':
            body = f.loops().get(n.blk)
            mark = 'phi:%s:%s' % (v, tr)
            if body is None:
                return self.either([self.both(self.of(o, tr), self.edge(fr, n.blk)) for o, fr in zip(n.ops, n.x['from'])])
            if v in self.busy:
                return {mark: ('', n)}
            self.busy.add(v)
            first = self.either([self.both(self.of(o, tr), self.edge(fr, n.blk)) for o, fr in zip(n.ops, n.x['from']) if fr not in body])
            nxt = self.either([self.both(self.of(o, tr), self.edge(fr, n.blk)) for o, fr in zip(n.ops, n.x['from']) if fr in body])
            self.busy.discard(v)
            if nxt is None:
                return first
            if mark in nxt:
                return self.both(first, {k: x for k, x in nxt.items() if k != mark})
            return self.either([first, {k: x for k, x in nxt.items() if not k.startswith('phi:')}])
        return {}

    def edge(self, a, b):
        """Facts of taking the edge a -> b, and of the iterations completed before when it leaves a loop."""
        f = self.f
        out = {}
        seen = set()
        x, y = a, b
        while x not in seen:
            seen.add(x)
            t = f.blocks[x][-1]
            if t.op == 'br' and len(t.x['to']) == 2 and t.x['to'][0] != t.x['to'][1]:
                out = self.both(out, self.of(t.ops[0], t.x['to'][0] == y))
                if out is None:
                    return None
            if len(f.pred[x]) != 1:
                break
            x, y = f.pred[x][0], x
        for h, body in f.loops().items():
            if a in body and b not in body:
                lat = [p for p in f.pred[h] if p in body]
                for blk in body:
                    t = f.blocks[blk][-1]
                    if t.op == 'br' and len(t.x['to']) == 2 and blk != a and all(f.dominates(t, f.blocks[l][-1]) for l in lat):
                        ins = [z for z in t.x['to'] if z in body]
                        if len(ins) == 1:
                            r = self.of(t.ops[0], t.x['to'][0] == ins[0])
                            out = dict(out, **(r or {}))
        return out

    def isbool(self, v, seen=()):
        f = self.f
        if const(v) in (0, 1):
            return True
        v = f.strip(v)
        n = f.insts.get(v)
        if n is None or v in seen:
            return n is not None
        if n.op == 'icmp' or n.ty == 'i1':
            return True
        if n.op in ('and', 'or', 'xor', 'phi'):
            return all(self.isbool(o, seen + (v,)) for o in n.ops)
        if n.op == 'select':
            return all(self.isbool(o, seen + (v,)) for o in n.ops[1:])
        return False


# ---------------------------------------------------------------------------------------------- cache of communicators
def commroles(rules, rec):
    f, n, fl, s = rec
    cm = [(o, v) for o, v in fl.items() if v[0] == 'cm']
    for t in s:
        if t[0] == 'cm' and t[1] == cm[0][1][1]:
            r = rules.members(f, s, t[3]) if t[3][0] == 'grp' else None
            if r is None or isinstance(r, str):
                return None
            out = {'comm': cm[0][0]}
            for role, v in zip(('start', 'log', 'size'), r):
                for o, x in fl.items():
                    if x == v and o not in out.values():
                        out[role] = o
            return out
    return None


def commschema(m):
    if not hasattr(m, '_commschema'):
        m._commschema = None
        from .. import paths
        for f, ms in sorted(m.reps('^shmem'), key=lambda x: sum(map(len, x[0].blocks))):
            if any(True for _ in f.calls('^MPI_Comm_create_group$')) and any(True for _ in f.calls('^malloc$')):
                found = []
                r = Coll(m, None, f.name, None, found)
                paths.explore(f, r, 200000)
                got = [x for x in (commroles(r, x) for x in found) if x]
                if got:
                    m._commschema = max(got, key=len)
                    break
    return m._commschema


class CommInsert(Coll):
    def medge(self, f, s, blk, nxt, atoms, env):
        return s


def cache(m, R, f, ms):
    found = []
    r = CommInsert(m, R, f.name, None, found)
    sim(R, f, r, 400000)
    S = commschema(m) or {}
    for rec in found:
        f, n, fl, s = rec
        R.ob('cache', '%s %s' % (f.name, f.where(n)))
        g = commroles(r, rec)
        if g is None:
            R.bad('cache', 'type', '%s: a cache entry holds a communicator of unknown members' % f.name, f, n, r, ms)
            continue
        for role in ('comm', 'start', 'log', 'size'):
            if role not in g or g[role] != S.get(role):
                R.bad('cache', role, '%s: the %s kept in a cache entry is not that of its communicator' % (f.name, role), f, n, r, ms)


def run(m, R):
    R.rule('call', 'Every path that returns performs exactly one data-moving collective, of the kind the name says')
    R.rule('comm', 'The collective runs on the communicator of the team or active set given')
    R.rule('data', 'Buffers, counts, datatypes, root and operation are those of the caller')
    R.rule('layout', 'The datatypes of a strided all-to-all describe the caller\'s blocks')
    R.rule('counts', 'The counts and displacements of a collect are those of all its PEs')
    R.rule('root', 'The root of a broadcast is treated as the routine specifies')
    R.rule('cache', 'The fields of a communicator cache entry describe its communicator')
    for name in sorted(m.cls):
        if NAME.match(name) or name in SYNC:
            R.guard(one, m, R, name)
    R.need('call', 250)
    for f, ms in m.reps('^shmem'):
        if any(True for _ in f.calls('^MPI_Comm_create_group$')) and any(True for _ in f.calls('^malloc$')) and re.match('shmem_(barrier|sync_aset|broadcast|collect|fcollect|alltoall)', f.name):
            R.guard(cache, m, R, f, ms)
    R.need('cache', 1)


def one(m, R, name):
    f = m.fn(name)
    sp = Spec(m, name)
    if len(sp.sig) - 1 != sp.n or sp.what != 'barrier' and not sp.size:
        R.bad('data', '%s:signature' % name, '%s: unexpected signature' % name, f, f.blocks[0][0])
        return
    r = sim(R, f, Coll(m, R, name, sp), 400000)
    if not r.rets:
        R.bad('call', '%s:return' % name, '%s never returns' % name, f, f.blocks[0][0])
