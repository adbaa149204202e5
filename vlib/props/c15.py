"""Resources: what a routine acquires it releases or keeps for a later release; initialisation and finalisation are paired, ordered and happen once."""
import re
from .. import q, finite
from ..ir import const
from ..core import sim
from ..paths import Rule, DEAD
from .c06 import Proto
from .c07 import asyncflag

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'direct', 'fast']
EXPLAIN = ('Every entry point and callback is simulated on all paths with the handles and memory it acquires (communicators, groups, datatypes, info objects, windows, heap memory) as '
           'objects with the places that hold them: at every return each is released or kept in memory that outlives the call, none is released twice or released although it was kept. Kinds '
           'of object kept in a field of a structure have a release of that field, which accompanies every release of the structure. Windows are locked before a routine that makes them returns and '
           'unlocked before they are freed. The initialisation and the finalisation are simulated from every entry state: what one acquires into global state the other releases exactly once, '
           'after a barrier, in an order in which nothing is used after its release, and a repeated call changes nothing.')
ASSUME = ['a failing MPI or allocation call aborts the program', 'spaces and teams the program does not destroy are not released']
ACQ = {'MPI_Comm_dup': ('comm', 1), 'MPI_Comm_split': ('comm', 3), 'MPI_Comm_split_type': ('comm', 4), 'MPI_Comm_create': ('comm', 2), 'MPI_Comm_create_group': ('comm', 3),
       'MPI_Comm_group': ('group', 1), 'MPI_Group_incl': ('group', 3), 'MPI_Group_excl': ('group', 3), 'MPI_Group_range_incl': ('group', 3), 'MPI_Group_union': ('group', 2),
       'MPI_Group_difference': ('group', 2), 'MPI_Group_intersection': ('group', 2), 'MPI_Win_get_group': ('group', 1),
       'MPI_Type_vector': ('type', 4), 'MPI_Type_create_hvector': ('type', 4), 'MPI_Type_contiguous': ('type', 2), 'MPI_Type_create_resized': ('type', 3), 'MPI_Type_dup': ('type', 1),
       'MPI_Type_indexed': ('type', 4), 'MPI_Type_create_indexed_block': ('type', 4),
       'MPI_Info_create': ('info', 0), 'MPI_Info_dup': ('info', 1), 'MPI_Op_create': ('op', 2),
       'MPI_Win_create': ('win', 5), 'MPI_Win_allocate': ('win', 5), 'MPI_Win_create_dynamic': ('win', 2), 'MPI_Win_allocate_shared': ('win', 5)}
REL = {'MPI_Comm_free': 'comm', 'MPI_Comm_disconnect': 'comm', 'MPI_Group_free': 'group', 'MPI_Type_free': 'type', 'MPI_Info_free': 'info', 'MPI_Op_free': 'op', 'MPI_Win_free': 'win'}
ALLOC = ('malloc', 'calloc', 'realloc', 'aligned_alloc', 'posix_memalign', 'strdup')
NAMES = {'comm': 'communicator', 'group': 'group', 'type': 'datatype', 'info': 'info object', 'op': 'operation', 'win': 'window', 'mem': 'memory'}
NULLH = re.compile(r'^g:ompi_mpi_\w+_null$|^null$')


def isnull(c):
    return const(c) == 0 or bool(NULLH.match(c))


def source(f, a):
    """The place a handle was copied from into a local variable, or the place itself."""
    k = q.akey(f, a)
    if k[0][0] != 'a':
        return a
    st = [n for n in f.all() if n.op == 'store' and q.akey(f, n.ops[1]) == k]
    ad = [q.loadaddr(f, n.ops[0]) for n in st if not isnull(n.ops[0])]
    if len(ad) == 1 and ad[0] is not None and q.akey(f, ad[0])[0][0] != 'a':
        return ad[0]
    return a


class Own(Rule):
    """Tokens: ('res', id, kind) owned; ('at', id, cell) a local cell that holds it; ('val', id, v) a value that is it;
    ('kept', id); ('gone', cell) released and not filled again; ('win', cell) a window not locked yet; ('unl', cell)."""
    track_phis = False

    def __init__(self, m, R, f, members, own):
        self.m, self.R, self.f, self.members, self.own = m, R, f, members, own
        self.rel, self.glob, self.temp = set(), {}, set()

    def start(self, f):
        return frozenset()

    def bad(self, rule, key, what, n):
        self.R.bad(rule, '%s:%s' % (self.f.name, key), '%s: %s' % (self.f.name, what), self.f, n, self, self.members)

    @staticmethod
    def cell(f, a, env):
        k = q.akey(f, a, env)
        return k

    @staticmethod
    def local(k):
        return k[0][0] == 'a'

    def holders(self, f, s, v, env):
        """Ids of the objects the value is."""
        v0, v = v, f.strip(env.resolve(v))
        ids = {t[1] for t in s if t[0] == 'val' and t[2] in (v, v0, f.strip(v0))}
        d = f.insts.get(v)
        if d is not None and d.op == 'load' and not ids:
            k = self.cell(f, d.ops[0], env)
            ids |= {t[1] for t in s if t[0] == 'at' and t[2] == k}
        return ids

    def clear(self, s, k):
        """The cell gets a new content."""
        return frozenset(t for t in s if not (t[0] in ('at', 'gone', 'win', 'unl', 'dang') and t[-1] == k))

    def keep(self, s, ids):
        return s | {('kept', i) for i in ids}

    def field(self, f, a):
        l = f.loc(a)
        return l.fields[-1] if l.fields else None

    def slot(self, f, kind, a, k):
        fld = self.field(f, a)
        return (kind, fld) if fld else (kind, None, k[1])

    def inst(self, f, s, n, env):
        if n.op == 'load':
            k = self.cell(f, n.ops[0], env)
            if ('dang', k) in s:
                self.bad('release', 'handle:stale', 'a handle is used although what it names was released', n)
            ids = {t[1] for t in s if t[0] == 'at' and t[2] == k}
            s = frozenset(t for t in s if not (t[0] == 'val' and t[2] == n.v)) | {('val', i, n.v) for i in ids}
        elif n.op == 'store':
            ids = self.holders(f, s, n.ops[0], env)
            k = self.cell(f, n.ops[1], env)
            s = stale(s, ('*',) + k)
            if any(t[0] in ('at', 'gone', 'win', 'unl', 'dang') and t[-1] == k for t in s):
                s = self.clear(s, k)
            if ids:
                if self.local(k):
                    s = s | {('at', i, k) for i in ids}
                else:
                    kinds = {t[1]: t[2] for t in s if t[0] == 'res'}
                    for i in ids:
                        self.own.setdefault(self.slot(f, kinds.get(i), n.ops[1], k), (f, n, k[1]))
                        self.glob.setdefault((kinds.get(i), k), n)
                    s = self.keep(s, ids)
        elif n.op == 'call' and n.fn:
            s = self.call(f, s, n, env)
        return s

    def call(self, f, s, n, env):
        if n.fn in ('MPI_Abort', 'abort', 'exit', '_exit'):
            return []
        if n.fn in ACQ:
            kind, i = ACQ[n.fn]
            k = self.cell(f, n.ops[i], env)
            self.R.ob('release', '%s %s' % (f.name, f.where(n)))
            if any(t[:2] == ('res', n.v) for t in s) and ('kept', n.v) not in s:
                self.bad('release', '%s:again' % kind, 'the %s made before is lost when another is made' % NAMES[kind], n)
            s = frozenset(t for t in self.clear(s, k) if not (t[0] in ('res', 'at', 'val', 'kept') and t[1] == n.v))
            if kind == 'win':
                s = s | {('win', k)}
            if self.local(k):
                return s | {('res', n.v, kind), ('at', n.v, k)}
            self.own.setdefault(self.slot(f, kind, n.ops[i], k), (f, n, k[1]))
            self.glob.setdefault((kind, k), n)
            return s
        if n.fn in ALLOC and n.fn != 'posix_memalign':
            self.R.ob('release', '%s %s' % (f.name, f.where(n)))
            if any(t[:2] == ('res', n.v) for t in s) and ('kept', n.v) not in s:
                self.bad('release', 'mem:again', 'memory allocated before is lost when more is allocated', n)
            if n.fn == 'realloc':
                s = self.drop(s, self.holders(f, s, n.ops[0], env))
            s = frozenset(t for t in s if not (t[0] in ('res', 'at', 'val', 'kept') and t[1] == n.v))
            return s | {('res', n.v, 'mem'), ('val', n.v, n.v)}
        if n.fn in REL:
            return self.release(f, s, n, env, REL[n.fn])
        if n.fn == 'free':
            ids = self.holders(f, s, n.ops[0], env)
            self.R.ob('release', '%s %s' % (f.name, f.where(n)))
            self.rel |= {('mem', x) for x in origins(f, n.ops[0])}
            v = f.strip(n.ops[0])
            if re.match(r'a\d+$', v):
                # an object behind an opaque handle: the lists it is taken off
                for x in f.all():
                    if x.op == 'store' and f.loc(x.ops[1]).fields:
                        self.rel.add(('mem', f.loc(x.ops[1]).fields[-1]))
            d = f.insts.get(v)
            if d is not None and d.op == 'load' and not f.loc(d.ops[0]).fields:
                self.rel.add(('off', 'mem', q.akey(f, d.ops[0], env)[1]))
            for i in ids:
                if ('kept', i) in s and not self.selfkept(f, i):
                    self.bad('release', 'mem:kept', 'memory is released although a pointer to it was kept', n)
            if ids:
                self.temp |= ids
                return self.drop(s, ids)
            v = q.vkey(f, n.ops[0], env)
            g = ('freed', v)
            if g in s and v[0] != 'c':
                self.bad('release', 'mem:twice', 'memory is released twice', n)
            return s | {g} if v[0] == '*' else s
        if n.fn == 'MPI_Win_lock_all':
            d = f.insts.get(f.strip(n.ops[1]))
            self.R.ob('lock', '%s %s' % (f.name, f.where(n)))
            if d is not None and d.op == 'load':
                k = self.cell(f, d.ops[0], env)
                return frozenset(t for t in s if t != ('win', k))
            return s
        if n.fn == 'MPI_Win_unlock_all':
            d = f.insts.get(f.strip(n.ops[0]))
            if d is not None and d.op == 'load':
                return s | {('unl', self.cell(f, d.ops[0], env))}
            return s
        if n.fn in q.MEMCPY:
            return self.copy(f, s, n, env)
        return s

    def selfkept(self, f, i):
        return False

    def drop(self, s, ids):
        return frozenset(t for t in s if not (t[0] in ('res', 'at', 'val', 'kept') and t[1] in ids))

    def copy(self, f, s, n, env):
        """Structures copied as a whole."""
        src, dst = self.cell(f, n.ops[1], env), self.cell(f, n.ops[0], env)
        sz = const(env.resolve(n.ops[2]))
        add = set()
        if sz is None:
            return s
        for t in s:
            if t[0] in ('at', 'win') and t[-1][0] == src[0] and t[-1][2] == src[2] and src[1] <= t[-1][1] < src[1] + sz:
                k = (dst[0], dst[1] + t[-1][1] - src[1], dst[2])
                if t[0] == 'win':
                    continue
                if self.local(k):
                    add.add(('at', t[1], k))
                else:
                    add.add(('kept', t[1]))
        return s | add

    def release(self, f, s, n, env, kind):
        k0, a = self.cell(f, n.ops[0], env), source(f, n.ops[0])
        k = self.cell(f, a, env)
        self.R.ob('release', '%s %s' % (f.name, f.where(n)))
        if ('gone', k) in s:
            self.bad('release', '%s:twice' % kind, 'a %s is released twice' % NAMES[kind], n)
        self.rel |= {(kind, self.field(f, a)), ('off', kind, k[1])}
        ids = {t[1] for t in s if t[0] == 'at' and t[2] in (k, k0)}
        for i in ids:
            if ('kept', i) in s:
                self.bad('release', '%s:kept' % kind, 'a %s is released although it was kept' % NAMES[kind], n)
        if kind == 'win':
            self.R.ob('lock', '%s %s' % (f.name, f.where(n)))
            if ('unl', k) not in s and ('unl', k0) not in s:
                self.bad('lock', 'unlock', 'a window is freed while it is locked', n)
        dang = {('dang', t[2]) for t in s if t[0] == 'at' and t[1] in ids and t[2] != k}
        s = self.drop(self.clear(s, k), ids)
        return s | {('gone', k)} | dang

    def edge(self, f, s, blk, nxt, atoms, env):
        drop = set()
        for p, a, c in atoms:
            if p not in ('eq', 'ne'):
                continue
            for x, y in ((a, c), (c, a)):
                if isnull(y):
                    ids = self.holders(f, s, x, env)
                    if ids and p == 'eq':
                        if any(t[0] == 'kept' and t[1] in ids for t in s):
                            pass
                        drop |= ids
                elif p == 'eq':
                    # a new handle is none of those there were before
                    for i in self.holders(f, s, x, env):
                        if ('res', i, 'mem') not in s and ('kept', i) not in s and self.older(f, y, i, env):
                            return DEAD
        if drop:
            s = self.drop(s, drop)
        add = set()
        for n in f.blocks[nxt]:
            if n.op != 'phi':
                break
            if n.ty != 'ptr':
                continue
            for o, fr in zip(n.ops, n.x['from']):
                if fr == blk:
                    add |= {('val', i, n.v) for i in self.holders(f, s, o, env)}
            s = frozenset(t for t in s if not (t[0] == 'val' and t[2] == n.v))
        s = s | add
        if nxt in f.loops():
            # what is named by the position of a walk names something else in the next round
            for n in f.blocks[nxt]:
                if n.op != 'phi':
                    break
                s = frozenset(t for t in s if not (t[0] in ('gone', 'freed', 'unl', 'win') and q.mentions(t[1], n.v)))
        dead = [t for t in s if t[0] == 'val' and nxt not in reach(f, t[2])]
        return s - frozenset(dead) if dead else s

    @staticmethod
    def older(f, y, i, env):
        y = f.strip(y)
        d, at = f.insts.get(y), f.insts[i]
        if d is not None and d.op == 'load' and not Own.local(q.akey(f, d.ops[0], env)):
            return True   # nor one kept elsewhere
        return d is None and not re.match(r'-?\d', y) or d is not None and d is not at and d.op != 'phi' and f.dominates(d, at)

    def ret(self, f, s, n, env):
        kinds = {t[1]: t[2] for t in s if t[0] == 'res'}
        back = self.holders(f, s, n.ops[0], env) if n.ops else set()
        for i, kind in kinds.items():
            if ('kept', i) not in s and i not in back:
                self.bad('release', '%s:lost' % kind, 'the %s made at %s is neither released nor kept' % (NAMES[kind], f.where(f.insts[i])), f.insts[i])
        for t in s:
            if t[0] == 'win':
                self.bad('lock', 'lock', 'a window is not locked before the routine returns', n)


def stale(s, k):
    """Tokens of places reached through a pointer that changes."""
    def inside(x):
        return isinstance(x, tuple) and (x == k or any(inside(y) for y in x))
    d = [t for t in s if t[0] in ('gone', 'freed', 'unl') and inside(t[1])]
    return s - frozenset(d) if d else s


def reach(f, v):
    return finite.reach(f, v)


def origins(f, v, seen=None):
    """Fields a pointer was loaded from, through the rounds of a walk."""
    seen = set() if seen is None else seen
    v = f.strip(v)
    if v in seen or v not in f.insts:
        return set()
    seen.add(v)
    n = f.insts[v]
    if n.op == 'load':
        l = f.loc(n.ops[0])
        return {l.fields[-1]} if l.fields else set()
    if n.op in ('phi', 'select'):
        return set().union(*[origins(f, o, seen) for o in (n.ops if n.op == 'phi' else n.ops[1:])])
    return set()


def gkey(m, path):
    k = q.model(m).gfield('OSHMPI_global', path)
    return (k[0], k[1], ())


class Phase(Rule):
    """Common to initialisation and finalisation: whether the path is one of a library that is already (not) running."""

    def __init__(self, m, R, f, key):
        self.m, self.R, self.f, self.flags = m, R, f, key

    def start(self, f):
        return frozenset()

    def bad(self, rule, key, what, n):
        self.R.bad(rule, '%s:%s' % (self.f.name, key), '%s: %s' % (self.f.name, what), self.f, n, self)

    def edge(self, f, s, blk, nxt, atoms, env):
        for p, a, c in atoms:
            if const(c) != 0:
                continue
            ad = q.loadaddr(f, a)
            if ad is None:
                continue
            k = q.akey(f, ad, env)
            if k in self.flags and not any(t[:2] == ('flag', k) for t in s) and not any(t[0] == 'set' for t in s):
                if p in ('eq', 'ne', 'sgt', 'ugt'):
                    s = s | {('flag', k, p != 'eq')}
            elif k in self.flags and p in ('eq', 'ne') and not any(t[0] == 'set' for t in s) and self.flag(s, k) != (p != 'eq'):
                return DEAD
        return self.pedge(f, s, blk, nxt, atoms, env)

    def pedge(self, f, s, blk, nxt, atoms, env):
        return s

    def flag(self, s, k):
        return next((t[2] for t in s if t[:2] == ('flag', k)), None)

    def inst(self, f, s, n, env):
        if n.op == 'store':
            k = q.akey(f, n.ops[1], env)
            if k == self.flags[0]:
                v = const(env.resolve(n.ops[0]))
                s = frozenset(t for t in s if t[0] != 'set') | {('set', bool(v) if v is not None else None)}
        if n.op == 'call' and n.fn:
            if n.fn in ('MPI_Abort', 'abort', 'exit', '_exit'):
                return []
            if n.fn in ('MPI_Ibarrier', 'MPI_Barrier'):
                s = self.barrier(f, s, n)
        return self.pinst(f, s, n, env)

    def world(self, f, c):
        a = q.loadaddr(f, c)
        return c.startswith('g:ompi_mpi_comm_world') or a is not None and q.akey(f, a) == gkey(self.m, 'team_world_comm')

    def barrier(self, f, s, n):
        if self.world(f, q.arg(n, 'comm')):
            return frozenset(t for t in s if t != ('open',)) | {('met',)}
        return s


class Init(Phase):
    """('open',): something others access was made since the PEs last met."""

    def pinst(self, f, s, n, env):
        if n.op != 'call' or not n.fn:
            return s
        listen = n.fn in ('MPI_Irecv', 'MPI_Recv_init') and const(env.resolve(q.arg(n, 'pe'))) == -1 and not any(t == ('met',) for t in s)
        if n.fn in ACQ or n.fn in ('MPI_Init_thread', 'MPI_Init', 'MPI_Win_lock_all', 'MPI_Win_attach') or listen:
            self.R.ob('once', '%s %s' % (f.name, f.where(n)))
            if self.flag(s, self.flags[0]) is not False:
                self.bad('once', 'again', 'the library is initialised again although it is initialised', n)
            if ACQ.get(n.fn, ('',))[0] == 'win' or n.fn in ('MPI_Win_lock_all', 'MPI_Win_attach') or listen:
                s = s | {('open',)}
        return s

    def ret(self, f, s, n, env):
        self.R.ob('order', '%s %s' % (f.name, f.where(n)))
        if self.flag(s, self.flags[0]):
            return
        if ('set', True) not in s:
            self.bad('once', 'flag', 'the library is initialised but not marked so', n)
        if ('open',) in s or ('met',) not in s:
            self.bad('order', 'meet', 'the initialisation returns before all PEs have made what others access', n)


class Final(Phase):
    def __init__(self, m, R, f, key, want, alias, req, comm, aflag, temp):
        Phase.__init__(self, m, R, f, key)
        self.want, self.alias, self.req, self.comm, self.aflag = want, alias, req, comm, aflag
        self.keys = set().union(*alias.values())
        self.temp, self.seen = temp, {}

    def start(self, f):
        return frozenset({('req', 'posted')}) if self.req else frozenset()

    def pedge(self, f, s, blk, nxt, atoms, env):
        for p, a, c in atoms:
            if p == 'eq' and isnull(c):
                ad = q.loadaddr(f, a)
                if ad is not None and q.akey(f, ad, env) in self.keys:
                    s = s | {('none', q.akey(f, ad, env))}
            if self.aflag is not None and const(c) == 0 and p in ('ne', 'sgt', 'ugt'):
                ad = q.loadaddr(f, a)
                if ad is not None and q.akey(f, ad, env) == self.aflag and not any(t[0] == 'set' for t in s):
                    s = s | {('async',)}
        return s

    def first(self, f, s, n, what):
        if ('met',) not in s:
            self.bad('order', 'barrier', '%s before all PEs have entered the finalisation' % what, n)
        if not all(self.flag(s, k) for k in self.flags):
            self.bad('once', 'idle', '%s although the library is not initialised' % what, n)

    def pinst(self, f, s, n, env):
        if n.op != 'call' or not n.fn:
            return s
        if n.fn in REL:
            k = q.akey(f, source(f, n.ops[0]), env)
            self.R.ob('order', '%s %s' % (f.name, f.where(n)))
            self.first(f, s, n, 'a %s is released' % NAMES[REL[n.fn]])
            if self.req and k == self.comm and ('req', 'done') not in s and ('async',) not in s:
                self.bad('order', 'listener', 'the communicator of the packets is released while the listener waits on it', n)
            if ('fin',) in s:
                self.bad('order', 'late', 'MPI is used after it was finalised', n)
            return s | {('rel', REL[n.fn], k)} if k in self.keys else s
        if n.fn in ('free', 'munmap'):
            v = q.vkey(f, n.ops[0], env)
            if v[0] == '*' and v[1:] in self.keys:
                s = s | {('rel', 'mem', v[1:])}
        elif n.fn == 'MPI_Finalize':
            self.R.ob('pair', '%s %s' % (f.name, f.where(n)))
            self.first(f, s, n, 'MPI is finalised')
            if ('fin',) in s:
                self.bad('once', 'fin', 'MPI is finalised twice', n)
            for (kind, k), at in self.want.items():
                self.R.ob('pair', '%s %s' % (f.name, at.f.where(at.n)))
                ks = self.alias.get(k, {k})
                here = any(('rel', kind, x) in s or ('none', x) in s for x in ks)
                self.seen[k] = self.seen.get(k, False) or here
                if not here and k not in self.temp:
                    self.bad('pair', '%s:%s' % (kind, q.pr(f, k)), 'the %s made at %s is not released' % (NAMES[kind], at.f.where(at.n)), n)
            return s | {('fin',)}
        elif n.fn.startswith('MPI_') and n.fn not in ('MPI_Finalized', 'MPI_Initialized'):
            if ('fin',) in s:
                self.bad('order', 'late', 'MPI is used after it was finalised', n)
            if self.req and n.fn in ('MPI_Irecv', 'MPI_Wait', 'MPI_Test', 'MPI_Start') and q.arg(n, 'req') is not None and q.akey(f, q.arg(n, 'req'), env) == self.req:
                s = frozenset(t for t in s if t[0] != 'req') | {('req', 'done' if n.fn == 'MPI_Wait' else 'posted')}
        return s

    def ret(self, f, s, n, env):
        self.R.ob('once', '%s %s' % (f.name, f.where(n)))
        if any(self.flag(s, k) is False for k in self.flags):
            return
        if ('fin',) not in s:
            self.bad('once', 'nofin', 'the library is not finalised although it is initialised', n)
        if ('set', False) not in s:
            self.bad('once', 'flag', 'the library stays marked as initialised', n)


class At:
    def __init__(self, f, n):
        self.f, self.n = f, n


class Exit(Rule):
    def __init__(self, m, R):
        self.m, self.R = m, R

    def start(self, f):
        return ()

    def inst(self, f, s, n, env):
        if n.op == 'call' and n.fn == 'MPI_Abort':
            self.R.ob('exit', f.where(n))
            a = q.loadaddr(f, n.ops[0])
            if not n.ops[0].startswith('g:ompi_mpi_comm_world') and (a is None or q.akey(f, a) != gkey(self.m, 'team_world_comm')):
                self.R.bad('exit', 'comm', 'shmem_global_exit ends the PEs of another communicator than the world', f, n, self)
            if q.vkey(f, n.ops[1], env) != ('v', 'a0'):
                self.R.bad('exit', 'status', 'shmem_global_exit ends with another status than the one given', f, n, self)
            return []
        return s

    def edge(self, f, s, blk, nxt, atoms, env):
        if nxt == blk:
            self.ret(f, s, f.blocks[blk][-1], env)
        return s

    def ret(self, f, s, n, env):
        self.R.bad('exit', 'lives', 'shmem_global_exit does not end the program', f, n, self)


def aliases(f, keys):
    """Other places the initialisation copies a handle to."""
    out = {k: {k} for k in keys}
    for n in f.all():
        if n.op == 'store':
            v = q.vkey(f, n.ops[0])
            if v[0] == '*' and v[1:] in out:
                out[v[1:]].add(q.akey(f, n.ops[1]))
    return out


def phases(m, R, rules):
    init = m.fn('shmem_init_thread')
    flag = gkey(m, 'is_initialized')
    own = rules['shmem_init_thread']
    for name in ('shmem_init', 'shmem_init_thread', 'start_pes'):
        f = m.fn(name)
        sim(R, f, Init(m, R, f, [flag]), 300000)
    want = {}
    for (kind, k), n in own.glob.items():
        if kind == 'win' or kind == 'mem' or kind is not None:
            want[(kind, k)] = At(init, n)
    al = aliases(init, [k for _, k in want])
    P = Proto(m) if q.has_am(m) else None
    # memory the initialisation itself releases in some cases
    temp = {k for (kind, k), n in own.glob.items() if n.op == 'store' and init.strip(n.ops[0]) in own.temp | {init.strip(x) for x in own.temp}}
    args = (want, al, P.req if P else None, P.comm if P else None, asyncflag(m), temp)

    def final(f, flags):
        r = Final(m, R, f, flags, *args)
        sim(R, f, r, 300000)
        for k, ok in r.seen.items():
            if not ok and k in temp:
                at = next(a for (_, x), a in want.items() if x == k)
                r.bad('pair', 'mem:%s' % q.pr(f, k), 'the memory made at %s is never released' % at.f.where(at.n), f.blocks[0][0])
    final(m.fn('shmem_finalize'), [flag])
    # programs started by start_pes
    f = m.fn('start_pes')
    ex = [n for n in f.calls('^atexit$')]
    R.ob('once', 'start_pes')
    if not ex:
        R.bad('once', 'start_pes:atexit', 'start_pes arranges no implicit finalisation', f, f.blocks[0][0])
    for n in ex:
        g = n.ops[0].lstrip('@')
        if g in m.addrtaken:
            g = m.fn(g)
            final(g, [flag, gkey(m, 'is_start_pes_initialized')])
    f = m.fn('shmem_global_exit')
    sim(R, f, Exit(m, R))


def run(m, R):
    R.rule('release', 'what a routine acquires is released exactly once or kept for a later release on every path')
    R.rule('lock', 'a window is locked for access when the routine that makes it returns, and unlocked before it is freed')
    R.rule('field', 'what is kept in a field of a structure is released from that field somewhere')
    R.rule('once', 'a library that is (not) initialised is not initialised (finalised) again')
    R.rule('order', 'nothing is used by others before it is made or after it is released')
    R.rule('pair', 'what the initialisation acquires the finalisation releases')
    R.rule('exit', 'shmem_global_exit ends all PEs with the status given')
    own, rel, rules = {}, set(), {}
    fs = list(m.reps('^(shmem|start_pes)')) + [(m.fn(x), [x]) for x in m.names() if x in m.addrtaken and not x.startswith('shmem')]
    for f, members in fs:
        if not any(n.op == 'call' and n.fn and (n.fn in ACQ or n.fn in REL or n.fn in ALLOC or n.fn == 'free') for n in f.all()):
            continue
        r = Own(m, R, f, members, own)
        for x in members:
            rules[x] = r
        R.guard(sim, R, f, r, 300000)
        rel |= r.rel
    R.need('release', 40)
    # fields
    ialias = {}
    f = m.fn('shmem_init_thread')
    for n in f.all():
        if n.op == 'store':
            ad = q.loadaddr(f, n.ops[0])
            a, b = f.loc(ad).fields[-1:] if ad is not None else [], f.loc(n.ops[1]).fields[-1:]
            if a and b:
                ialias.setdefault(a[0], set()).add(b[0])
    for (kind, fld, *_), (f, n, off) in own.items():
        if fld is None:
            # a field of an opaque object: by its place
            R.ob('field', '+%d' % off)
            if off and ('off', kind, off) not in rel:
                R.bad('field', '%s:+%d' % (kind, off), 'the %s kept at offset %d of an object is never released' % (NAMES.get(kind, kind), off), f, n)
            continue
        R.ob('field', '%s.%s' % fld)
        if not any((kind, x) in rel for x in {fld} | ialias.get(fld, set())) and not (kind == 'mem' and ('off', kind, off) in rel):
            R.bad('field', '%s:%s.%s' % ((kind,) + tuple(fld)), 'the %s kept in %s.%s is never released' % (NAMES.get(kind, kind), fld[0], fld[1]), f, n)
    R.guard(phases, m, R, rules)
    R.need('pair', 5)
