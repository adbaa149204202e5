"""Thread safety under SHMEM_THREAD_MULTIPLE: lock discipline over the shared state of the library."""
import re
from collections import defaultdict
from .. import q, ir
from ..ir import const
from ..core import sim
from ..paths import Rule, DEAD
from ..complete import Complete

CONFIGS = ['mt']
THOROUGH = ['mtdyn', 'mtam']
EXPLAIN = ('Lockset simulation of every entry point of the thread-multiple build: along every path the set of critical sections held and '
           'what the path knows about the thread level are tracked; every access to shared library state (global variables, elements of '
           'global lists, objects behind handles) is collected with the locks held, and every conflicting pair of accesses must share a '
           'critical section or be atomic; critical sections are balanced, ordered, initialised, and never held while waiting for another PE; '
           'no path that may run threaded forgets the outstanding operations of other threads.')
ASSUME = ['the MPI library provides MPI_THREAD_MULTIPLE when it says so', 'OPA_* operations are atomic',
          'the program orders the creation, attachment, detachment and destruction of one space against its other uses of the same space '
          '(OpenSHMEM leaves concurrent use and destruction of an object undefined)',
          'collective calls on the world team are not issued by two threads at the same time (OpenSHMEM)']
INITFIN = '^shmem_(init|init_thread|finalize)$|^start_pes$'
NOCB = ('OSHMPI_implicit_finalize',)
LIFE = re.compile(r'^shmemx_space_(create|destroy|attach|detach)$|^shmem_(team|ctx)_destroy$')
BLOCKING = re.compile(r'^P?MPI_(Recv|Probe|Ssend|Wait.*|Barrier|Bcast|Reduce|Allreduce|Allgather.*|Gather.*|Scatter.*|Alltoall.*|Scan|Exscan|Sendrecv|'
                      r'Comm_(dup|split|create|free|split_type).*|Win_(create.*|allocate.*|free|fence|start|complete|post|wait|lock.*)|Intercomm_.*)$')
HOLDS = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b}
OUTPTR = {'MPI_Test': (0, 1, 2), 'MPI_Irecv': (0, 6), 'MPI_Recv': (0,), 'MPI_Isend': (6,), 'MPI_Wait': (0, 1), 'MPI_Win_create': (5,), 'MPI_Comm_free': (0,),
          'MPI_Win_free': (0,), 'MPI_Group_free': (0,), 'MPI_Type_free': (0,), 'MPI_Type_commit': (0,), 'MPI_Cancel': (0,), 'memcpy': (0,), 'memset': (0,),
          'memmove': (0,), 'MPI_Comm_dup': (1,), 'MPI_Comm_split': (3,), 'MPI_Comm_create_group': (3,), 'MPI_Comm_group': (1,), 'MPI_Type_vector': (4,),
          'MPI_Win_create_dynamic': (2,), 'MPI_Comm_split_type': (4,)}


def heads(m):
    """{(global, offset): offset of the link} of the global lists."""
    out = {}
    for f, ms in m.reps('^shmem'):
        for h, body in f.loops().items():
            for n in f.blocks[h]:
                if n.op != 'phi' or n.ty != 'ptr':
                    continue
                ini = [f.strip(o) for o, fr in zip(n.ops, n.x['from']) if fr not in body]
                nxt = [f.strip(o) for o, fr in zip(n.ops, n.x['from']) if fr in body]
                for i in ini:
                    a = q.loadaddr(f, i)
                    if a is None:
                        continue
                    k = q.akey(f, a)
                    if k[0][0] == 'v' and k[0][1].startswith('g:') and not k[2]:
                        for s in nxt:
                            b = q.loadaddr(f, s)
                            if b:
                                r, o, v, _ = f.addr(b)
                                if r == n.v and not v:
                                    out.setdefault((k[0][1], k[1]), set()).add(o)
    return {(('v', g), o, ()): min(x) for (g, o), x in out.items()}


def levelleaf(m):
    """Location of the thread level: what guards the locking."""
    out = defaultdict(int)
    for f, ms in m.reps('^shmem'):
        for n in f.calls('^pthread_mutex_lock$'):
            for k in controlling(f, n, lambda p, c: p in ('eq', 'ge') and c == 3 or p == 'gt' and c == 2):
                out[k] += 1
    if not out:
        raise ir.AnalysisError('no critical section is guarded by the thread level')
    return max(out, key=lambda k: out[k])


class Threads(Rule):
    def __init__(self, A, R, f, members):
        self.A, self.R, self.f, self.members = A, R, f, members
        self.quiet = A.initfin(f)                   # only one thread runs: no accesses are collected
        self.cb = f.name in A.callbacks or f.name in A.threads
        self.cur = {}
        for h, o in A.heads.items():
            for hd, phi in q.listwalks(f, h, o).items():
                self.cur[phi.v] = h
        # public interface: the first argument of these routines is the handle (all handles are void pointers)
        sig = f.m.decl.get(f.name)
        self.handles = {}
        if sig and len(sig[2]) > 1:
            t = f.m.types[sig[2][1]] if sig[2][1] >= 0 else {}
            mm = re.match(r'shmemx?_(space|ctx|team)_', f.name)
            if mm and t.get('k') == 'ptr' and t.get('of') == -1:
                self.handles['a0'] = mm.group(1)

    # state: (held locks, mode, published roots, named cursors)
    def start(self, f):
        return (frozenset(), '?', frozenset(), frozenset())    # held, mode, facts, named

    def canon(self, f, k, depth=8):
        """(class, how) of the object a location root stands for; how is 'g' global, 'w' reached by walking a list,
        'h' through a handle of the caller, None when the object is private."""
        if depth == 0:
            return None
        if k[0] == 'v':
            v = k[1]
            if v.startswith('g:'):
                return (v[2:], 'g', v) if not v.startswith('g:ompi') else None
            if v in self.cur:
                return (self.A.name(self.cur[v]), 'w', v)
            if v in self.handles:
                h = self.handles[v]
                return (self.A.spacecls if h == 'space' and self.A.spacecls else h, 'h', v)
            n = f.insts.get(v)
            if n is not None and n.op == 'call' and n.fn and re.search('alloc', n.fn):
                return ('new', 'n', v)
            return None
        if k[0] == '*':
            h = (k[1], k[2], k[3])
            if h in self.A.heads:
                return (self.A.name(h), 'w', str(h))
            g = self.canon(f, k[1], depth - 1)
            if g is None:
                return None
            if g[1] == 'n':
                return None
            for hh, o in self.A.heads.items():
                if self.A.name(hh) == g[0] and o == k[2]:
                    return (g[0], 'w', g[2])
            return (g[0] + '->%d' % k[2], g[1], g[2])
        return None

    def lock(self, f, v, env):
        k = q.akey(f, v, env)
        g = self.canon(f, k[0])
        if g is None:
            return ('?' + str(k), k[1], str(k[0]))
        return (g[0], k[1], g[2])

    def held(self, locks):
        h = frozenset((c, o) for c, o, _ in locks)
        return h | {('callbacks', 0)} if self.cb or h & self.A.cblock else h

    def inst(self, f, s, n, env):
        held, mode, facts, named = s
        A, R = self.A, self.R
        if n.op == 'call' and n.fn == 'pthread_mutex_lock':
            l = self.lock(f, n.ops[0], env)
            R.ob('balance', '%s %s' % (f.name, f.where(n)))
            A.locks.setdefault((l[0], l[1]), []).append((f, n))
            if any((c, o, i) == l for c, o, i in held):
                R.bad('balance', 'lock', 'a critical section is entered while the same thread is already inside it', f, n, None, self.members)
            for h in held:
                A.order[((h[0], h[1]), (l[0], l[1]))].append((f, n, self.members))
            return (held | {l}, mode, facts, named)
        if n.op == 'call' and n.fn == 'pthread_mutex_unlock':
            l = self.lock(f, n.ops[0], env)
            R.ob('balance', '%s %s' % (f.name, f.where(n)))
            if l not in held:
                if mode == 'single':
                    return s
                R.bad('balance', 'unlock', 'a critical section is left that this path has not entered', f, n, None, self.members)
            return (held - {l}, mode, facts, named)
        if n.op == 'call' and n.fn == 'pthread_mutex_init':
            k = q.akey(f, n.ops[0], env)
            g = self.canon(f, k[0])
            A.inits.add((g[0] if g else '?', k[1], g[1] if g else None))
            return s
        if n.op == 'call' and n.fn == 'pthread_mutex_destroy':
            k = q.akey(f, n.ops[0], env)
            g = self.canon(f, k[0])
            A.destroys.add((g[0] if g else '?', k[1]))
            return s
        if n.op == 'call' and n.fn and n.fn.startswith('pthread_cond_') and self.cb:
            R.ob('handover', '%s %s' % (f.name, f.where(n)))
            if not held:
                R.bad('handover', n.fn, 'the progress thread uses the condition variable outside the critical section in which it announces its '
                      'end: the thread that waits for the announcement may have destroyed it', f, n, None, self.members)
        if mode == 'single' or self.quiet:
            return s
        if n.op == 'call' and n.fn is None and not n.x.get('asm') and self.callback(f, n, env):
            if f.name in A.threads:
                R.ob('progress', '%s %s' % (f.name, f.where(n)))
            else:
                h = frozenset((c, o) for c, o, _ in held)
                R.ob('progress', '%s %s' % (f.name, f.where(n)))
                if A.cbcount is None or not A.cblock:
                    A.cblock = h if A.cbcount is None else A.cblock & h
                    A.cbcount = 1
                if not h & A.cblock:
                    R.bad('progress', 'lock', 'an active-message callback is run outside the critical section that makes callbacks exclusive', f, n, None, self.members)
                if A.threads and not any(x[1] == 0 for x in facts):
                    R.bad('progress', 'thread', 'an active-message callback is run by a user thread although the progress thread may be running too', f, n, None, self.members)
        if n.op == 'call' and n.fn and held:
            if f.name not in A.threads and BLOCKING.match(n.fn) or n.fn in ('MPI_Test', 'MPI_Testall', 'MPI_Testany', 'MPI_Testsome') and not self.shared(f, n, env):
                R.ob('blocking', '%s %s %s' % (f.name, n.fn, f.where(n)))
                R.bad('blocking', n.fn, '%s waits for another PE while a critical section is held: every other thread of this PE stops at it'
                      % n.fn, f, n, None, self.members)
        ad = []
        if n.op == 'load' and self.cb:
            k = q.akey(f, n.ops[0], env)
            A.threadreads.add((k[0], k[1]))
        if n.op == 'load':
            ad = [(n.ops[0], 'r')]
        elif n.op == 'store':
            ad = [(n.ops[1], 'w')]
        elif n.op in ('atomicrmw', 'cmpxchg'):
            ad = [(n.ops[0], 'a')]
        elif n.op == 'call' and n.fn:
            if n.fn.startswith('OPA_'):
                ad = [(n.ops[0], 'a')]
            elif re.match('(create_|destroy_)?mspace_', n.fn):
                v = n.ops[0]
                k = q.vkey(f, v, env)
                g = self.canon(f, k) if k[0] == '*' else None
                if g:
                    self.access(f, n, ('mspace ' + g[0], 0, False), 'w', g, held)
            elif not re.match(r'llvm\.(dbg|lifetime|assume|expect)|pthread|__assert', n.fn):
                outs = OUTPTR.get(n.fn.replace('llvm.', '').split('.')[0], ())
                for i, o in enumerate(n.ops):
                    if o[0] in '%g' and not o.startswith('g:ompi'):
                        ad.append((o, 'w' if i in outs else 'r'))
        for a, rw in ad:
            k = q.akey(f, a, env)
            if k[0][0] == 'a':
                continue
            g = self.canon(f, k[0])
            if rw == 'a' and n.fn == 'OPA_store_int' and const(n.ops[1]) == 0 and not (g and g[1] == 'n'):
                self.clears(f, n, a, k)
            if g is None:
                continue
            if g[1] == 'n':                         # allocated by this call, shared once it is published in a list
                pub = [x[2] for x in facts if x[0] == 'pub' and x[1] == g[2]]
                if pub:
                    self.access(f, n, (pub[0], k[1], bool(k[2])), rw, (pub[0], 'h', g[2]), held)
                continue
            if ('taken', k[0]) in facts:            # unhooked under the critical section by this path
                continue
            if k[0][0] == '*' and A.usermem(f, k[0]):
                continue
            if rw == 'w' and n.op == 'store':
                if k in A.heads:
                    v = q.vkey(f, n.ops[0], env)
                    w = self.canon(f, v)
                    if w and w[1] == 'n':
                        s = (held, mode, facts | {('pub', w[2], A.name(k))}, named)
                        facts = s[2]
                if g[1] == 'g' and (k, n.ops[0]) in A.initstores:
                    continue                        # the value initialisation stored already
                if held and n.ops[0] == 'null':
                    s = (held, mode, facts | {('taken', ('*',) + k)}, named)
                    facts = s[2]
            self.access(f, n, (g[0], k[1], bool(k[2])), rw, (g[0], 'N' if g[1] == 'w' and g[2] in named else g[1], g[2]), held)
        return s

    def callback(self, f, n, env):
        """An indirect call of a function from the table of callbacks."""
        v = n.x.get('fn')
        a = q.loadaddr(f, v) if v and v[0] == '%' else None
        if a is None:
            return False
        k = q.akey(f, a, env)
        return k[0][0] == 'v' and k[0][1].startswith('g:')

    def shared(self, f, n, env):
        g = self.canon(f, q.akey(f, n.ops[0] if n.fn == 'MPI_Test' else n.ops[1], env)[0])
        return g is not None and g[1] == 'g'

    def clears(self, f, n, a, k):
        """A store of 0 to a flag that quiet consults."""
        A, R = self.A, self.R
        t = A.tracking(f, a, k)
        if not t:
            return
        R.ob('forget', '%s %s' % (f.name, f.where(n)))
        R.bad('forget', t, 'with several threads the flag of outstanding operations is cleared although another thread may have started an '
              'operation since the flush: the quiet of that thread does not complete its operation', f, n, None, self.members)

    def access(self, f, n, loc, rw, g, held):
        self.A.acc[loc].setdefault((rw, self.held(held), g[1], f.name if self.A.life(f) else 'op'), (f, n, self.members))
        self.R.ob('lockset', '%s %s %s' % (f.name, loc[0], f.where(n)))

    def edge(self, f, s, blk, nxt, atoms, env):
        held, mode, facts, named = s
        lo, hi = set(), set()
        for p, a, b in atoms:
            for x, y, pp in ((a, b, p), (b, a, {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p))):
                ad = q.loadaddr(f, x)
                if ad is not None:
                    k = q.akey(f, ad, env)
                    if k in self.A.threadcond and x == a and const(y) == 0 and pp in ('eq', 'ne'):
                        facts = facts | {(k, 0 if pp == 'eq' else 1)}
                    if k == self.A.level and const(y) is not None and x == a:
                        vals = [x for x in range(4) if HOLDS[pp.replace('s', '').replace('u', '')](x, const(y))]
                        new = 'single' if 3 not in vals else 'multi' if vals == [3] else None
                        if new:
                            if mode != '?' and mode != new:
                                return DEAD
                            mode = new
                    if k[0] and k[0][0] == 'v' and k[0][1] in self.cur and pp == 'eq' and not q.mentions(q.vkey(f, y, env), k[0][1]) and const(y) is None and y != 'null':
                        named = named | {k[0][1]}
                v = q.vkey(f, x, env)
                for c in self.cur:
                    if q.mentions(v, c) and not q.mentions(q.vkey(f, y, env), c):
                        # base <= addr  /  addr < base + size
                        if pp in ('ule', 'sle', 'ult', 'slt'):
                            lo.add(c)
                        if pp in ('ugt', 'sgt', 'uge', 'sge'):
                            hi.add(c)
        for c in lo | hi:
            other = ('half', c, 'lo' if c in hi else 'hi')
            this = ('half', c, 'lo' if c in lo else 'hi')
            if other in named or c in lo and c in hi:
                named = named | {c}
            else:
                named = named | {this}
        # a new iteration forgets what the previous one established
        for c in self.cur:
            if f.insts[c].blk == nxt:
                named = frozenset(x for x in named if x != c and not (isinstance(x, tuple) and x[1] == c))
        return (held, mode, facts, named)

    def ret(self, f, s, n, env):
        held, mode, facts, named = s
        self.R.ob('balance', '%s return %s' % (f.name, f.where(n)))
        if held and mode != 'single':
            self.R.bad('balance', 'return', 'the routine returns inside a critical section', f, n, None, self.members)


class Analysis:
    def __init__(self, m, R):
        self.m, self.M = m, q.model(m)
        self.heads = heads(m)
        self.level = levelleaf(m)
        self.acc = defaultdict(dict)
        self.order = defaultdict(list)
        self.cblock, self.cbcount = frozenset(), None
        self.callbacks = set(x for x in m.addrtaken if m.has(x))
        self.threads, self.threadcond, self.threadreads = set(), set(), set()
        for f, ms in m.reps(INITFIN):
            for n in f.calls('^pthread_create$'):
                t = n.ops[2]
                if t[0] == '@':
                    self.threads.add(t[1:])
                self.threadcond |= controlling(f, n)
        self.callbacks -= self.threads
        self.initstores = set()
        for f, ms in m.reps(INITFIN):
            for n in f.all():
                if n.op == 'store' and const(n.ops[0]) is not None and n.ops[0] != 'null':
                    k = q.akey(f, n.ops[1])
                    if k[0][0] == 'v' and k[0][1].startswith('g:'):
                        self.initstores.add((k, n.ops[0]))
        self.locks, self.inits, self.destroys = {}, set(), set()
        self.spacecls = None
        self.C = Complete(m, R, None, lambda *a: a[2])
        # the list the space handles are elements of: the one the create routine publishes its object in
        for f, ms in m.reps('^shmemx_space_create$'):
            for h in self.heads:
                for n in f.all():
                    if n.op == 'store' and q.akey(f, n.ops[1]) == h:
                        self.spacecls = self.name(h)
        for h in self.heads:
            if self.name(h).endswith('space_list.head'):
                self.spacecls = self.spacecls or self.name(h)

    def name(self, h):
        return self.M.locname(h)

    def life(self, f):
        return bool(LIFE.match(f.name))

    def initfin(self, f):
        return bool(re.match(INITFIN, f.name))

    def usermem(self, f, root):
        """Does the root point to memory of the program (a void or char pointer kept in a library object)?"""
        h = root[1]
        ty = None
        if h[0] == 'v' and h[1].startswith('g:') and h[1][2:] in self.m.globals:
            ty = self.m.globals[h[1][2:]][1]
        elif self.canonspace(f, h):
            ty = self.M.space
        if ty is None:
            return False
        for o, p, t in self.M.leaves(ty):
            if o == root[2]:
                t = self.m.types[t]
                return t['k'] == 'ptr' and (t['of'] < 0 or self.m.types[t['of']].get('sz') == 1)
        return False

    def canonspace(self, f, h):
        T = Threads(self, None, f, ())
        g = T.canon(f, h)
        return g is not None and g[0] == self.spacecls

    def tracking(self, f, a, k):
        """The tracking flag at address a: of active messages to a PE, or of a context record."""
        if q.isflag(self.m, k) is not None:
            return 'am'
        C = self.C
        C.f = f
        return 'rma' if C.isflagloc(a) else None


def controlling(f, n, want=lambda p, c: p == 'ne' and c == 0):
    """Global leaves whose value (being non-zero) guards the instruction."""
    out = set()
    for b in range(len(f.blocks)):
        t = f.blocks[b][-1]
        if t.op != 'br' or not t.ops or len(f.succ[b]) != 2:
            continue
        for i, x in enumerate(f.succ[b]):
            if len(f.pred[x]) == 1 and f.dominates(f.blocks[x][0], n):
                for p, a, c in f.atoms(t.ops[0], i == 0):
                    ad = q.loadaddr(f, a)
                    if ad is not None and const(c) is not None and want(p.replace('s', '').replace('u', ''), const(c)):
                        k = q.akey(f, ad)
                        if k[0][0] == 'v' and k[0][1].startswith('g:'):
                            out.add(k)
    return out


def waited(f, n):
    """Global cells the loop around a condition wait looks at."""
    out = set()
    for h, body in f.loops().items():
        if n.blk in body:
            for b in body:
                t = f.blocks[b][-1]
                if t.op == 'br' and t.ops and any(x not in body for x in f.succ[b]):
                    for p, a, c in f.atoms(t.ops[0], True):
                        ad = q.loadaddr(f, a)
                        k = q.akey(f, ad) if ad is not None else None
                        if k and k[0][0] == 'v' and k[0][1].startswith('g:'):
                            out.add(k)
    return out


def after(f, n, x):
    """Can x run after n?"""
    if n.blk == x.blk and f.blocks[n.blk].index(n) < f.blocks[n.blk].index(x):
        return True
    seen, todo = set(), list(f.succ[n.blk])
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == x.blk:
            return True
        todo += f.succ[b]
    return False


def conflicts(a, b):
    (rw1, h1, how1, fn1), (rw2, h2, how2, fn2) = a, b
    if rw1 == rw2 == 'r' or rw1 == rw2 == 'a':
        return False
    if h1 & h2:
        return False
    for (hx, fx), (hy, fy) in (((how1, fn1), (how2, fn2)), ((how2, fn2), (how1, fn1))):
        if fx != 'op' and hx == 'h' and hy in 'hN':
            return False    # ordered by the program: life cycle of the object the other access names
        if fx != 'op' and fy != 'op' and hx == hy == 'g':
            return False    # collective on the world team
    return True


def run(m, R):
    R.rule('balance', 'a critical section that is entered is left on every path, is not entered again inside, and only left after it was entered')
    R.rule('lockset', 'two accesses to shared library state of which one writes share a critical section or are both atomic')
    R.rule('order', 'critical sections are nested in one global order')
    R.rule('blocking', 'no critical section is held while waiting for another PE')
    R.rule('progress', 'active-message callbacks run one at a time: by the progress thread when there is one, else in one critical section')
    R.rule('handover', 'the progress thread announces its end as its last use of what its creator destroys')
    R.rule('init', 'every critical section that is used is initialised, and destroyed')
    R.rule('start', 'what the progress thread reads is set before the thread is started')
    R.rule('forget', 'the record of outstanding operations is not cleared while other threads may have added to it')
    A = Analysis(m, R)
    # the routine that makes manual progress first: it shows which critical section makes callbacks exclusive
    todo = list(m.reps('^shmem', INITFIN))
    pre = [x for x in todo if x[0].name in ('shmem_quiet', 'shmem_fence')]
    for f, ms in pre:
        R.guard(one, A, m, Null(R), f, ms)
    A.acc.clear(), A.order.clear()
    for f, ms in todo + [(m.fn(x), [x]) for x in sorted(A.callbacks | A.threads) if x not in NOCB]:
        R.guard(one, A, m, R, f, ms)
    for f, ms in m.reps(INITFIN):
        R.guard(one, A, m, R, f, ms)
    for loc, d in sorted(A.acc.items(), key=str):
        es = sorted(d, key=str)
        for i, a in enumerate(es):
            for b in es[i:]:
                if a is b and (a[0] != 'w' or a[1]):
                    continue
                if conflicts(a, b):
                    w, o = (a, b) if a[0] != 'r' else (b, a)
                    f, n, ms = d[w]
                    g, k, _ = d[o]
                    R.bad('lockset', '%s+%d' % (loc[0], loc[1]), '%s (offset %d) is %s under %s here and %s under %s in %s (%s): the two accesses race'
                          % (loc[0], loc[1], {'r': 'read', 'w': 'written', 'a': 'accessed atomically'}[w[0]], lk(w[1]),
                             {'r': 'read', 'w': 'written', 'a': 'accessed atomically'}[o[0]], lk(o[1]), g.name, g.where(k)), f, n, None, ms)
    for f, ms in m.reps(INITFIN):
        for n in f.calls('^pthread_cond_wait$'):
            R.ob('handover', '%s %s' % (f.name, f.where(n)))
            for k in waited(f, n):
                for (rw, h, how, fn), (g, w, _) in sorted(A.acc.get((k[0][1][2:], k[1], False), {}).items(), key=str):
                    mk = q.akey(f, n.ops[1])
                    if rw != 'r' and g.name in A.threads and (mk[0][1][2:], mk[1]) not in h:
                        R.bad('handover', 'done', 'the progress thread announces its end outside the critical section in which its creator looks at the announcement: '
                              'the creator may destroy what the thread still uses', g, w)
    for (c, o), sites in sorted(A.locks.items()):
        R.ob('init', '%s+%d' % (c, o))
        f, n = sites[0]
        same = lambda x: x[0] == c and x[1] == o or x[0] == 'new' and x[1] == o and c in {A.name(h) for h in A.heads}
        if not any(same(x) for x in A.inits):
            R.bad('init', 'init %s+%d' % (c, o), 'the critical section %s+%d is entered but nothing initialises it' % (c, o), f, n)
        if not any(same(x) for x in A.destroys):
            R.bad('init', 'destroy %s+%d' % (c, o), 'the critical section %s+%d is entered but nothing destroys it' % (c, o), f, n)
    for f, ms in m.reps(INITFIN):
        for n in f.calls('^pthread_create$'):
            R.ob('start', '%s %s' % (f.name, f.where(n)))
            for x in f.all():
                if x.op == 'store' and after(f, n, x):
                    k = q.akey(f, x.ops[1])
                    if (k[0], k[1]) in A.threadreads and k[0][0] == 'v' and k[0][1].startswith('g:') and k[0][1] != 'g:OSHMPI_env':
                        R.bad('start', '%s+%d' % (k[0][1], k[1]), 'what the progress thread reads is set after the thread is started', f, x, None, ms)
    for (a, b), sites in A.order.items():
        R.ob('order', '%s -> %s' % (a, b))
        if a == b or (b, a) in A.order:
            f, n, ms = sites[0]
            R.bad('order', '%s %s' % (a, b), 'critical sections are nested in both orders (or one inside another of the same kind): two threads can deadlock', f, n, None, ms)
    return A


class Null:
    """Report of a preparatory pass."""
    def __init__(self, R):
        self.states = 0

    def ob(self, *a, **k):
        pass
    bad = ob


def lk(h):
    return '{%s}' % ', '.join('%s+%d' % x for x in sorted(h)) if h else 'no critical section'


def one(A, m, R, f, ms):
    sim(R, f, Threads(A, R, f, ms), 300000)
