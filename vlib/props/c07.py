"""Progress: a PE that waits keeps handling the packets of the others."""
import re
from .. import q
from ..ir import const, AnalysisError
from ..core import sim
from ..paths import Rule, DEAD
from .c06 import Proto

CONFIGS = ['base', 'mt']
THOROUGH = ['dyn', 'am', 'fast']
EXPLAIN = ('Every loop of every entry point that is neither a counted loop nor a list traversal and whose body talks to MPI is a waiting loop: on every path '
           'around it the packet listener is polled, unless the asynchronous thread does so. MPI calls that block until other PEs act are used only under the '
           'asynchronous thread or after the PEs concerned have met in an operation that makes progress. Polling routines that answer "not yet" have polled the listener. '
           'The callbacks themselves never poll the listener or wait in a loop.')
ASSUME = ['MPI makes progress on one-sided operations and messages inside its own calls', 'MPI_Win_flush and MPI_Win_unlock_all need no action of the target program (passive target)']
BLOCK = {'MPI_Barrier', 'MPI_Bcast', 'MPI_Allreduce', 'MPI_Reduce', 'MPI_Allgather', 'MPI_Allgatherv', 'MPI_Alltoall', 'MPI_Alltoallv', 'MPI_Gather', 'MPI_Scatter',
         'MPI_Send', 'MPI_Ssend', 'MPI_Recv', 'MPI_Sendrecv', 'MPI_Probe', 'MPI_Wait', 'MPI_Waitall', 'MPI_Waitany', 'MPI_Comm_split', 'MPI_Comm_dup', 'MPI_Comm_create',
         'MPI_Comm_create_group', 'MPI_Comm_split_type', 'MPI_Comm_free', 'MPI_Win_create', 'MPI_Win_allocate', 'MPI_Win_create_dynamic', 'MPI_Win_free', 'MPI_Win_fence'}
LOCAL = {'MPI_Send', 'MPI_Ssend', 'MPI_Recv', 'MPI_Wait', 'MPI_Waitall', 'MPI_Probe', 'MPI_Sendrecv', 'MPI_Waitany'}
EXCL = r'^(shmem_init(_thread)?|shmem_finalize|start_pes|shmem_global_exit)$'
POLL = re.compile(r'^shmem_(\w+_)?test(_lock|_all|_any|_some)?(_vector)?$')


def asyncflag(m):
    """Location of the run-time switch the asynchronous progress thread is created under; None without such a thread."""
    f = m.fn('shmem_init')
    for n in f.calls('^pthread_create$'):
        best = None
        for bi, b in enumerate(f.blocks):
            t = b[-1]
            if t.op != 'br' or len(t.x['to']) != 2 or not f.dominates(t, n):
                continue
            for k in (0, 1):
                if f.dominates(f.blocks[t.x["to"][k]][0], n) and not f.dominates(f.blocks[t.x["to"][1 - k]][0], n):
                    for p, a, c in f.atoms(t.ops[0], k == 0):
                        ad = q.loadaddr(f, a)
                        if ad is not None and const(c) == 0 and p in ('ne', 'sgt', 'ugt') and ad.startswith('g:'):
                            if best is None or f.dominates(f.blocks[best[0]][-1], t):
                                best = (bi, q.akey(f, ad))
        if best is None:
            raise AnalysisError('the progress thread is created unconditionally')
        return best[1]
    return None


def waits(f):
    """Headers of the loops that wait for something."""
    if getattr(f, '_waits', None) is None:
        cnt = {c.head for c in q.counts(f)}
        out = {}
        for h, body in f.loops().items():
            if h in cnt or islist(f, h, body):
                continue
            own = {b for b in body if f.innermost(b) == h}
            for b in sorted(own):
                for n in f.blocks[b]:
                    if n.op == 'call' and n.fn and (n.fn.startswith('MPI_') and n.fn != 'MPI_Abort' or n.fn in ('sched_yield', 'usleep', 'pthread_yield')):
                        out.setdefault(h, n)
                    if n.op == 'load' and n.x.get('vol'):
                        out.setdefault(h, n)
        f._waits = out
    return f._waits


def islist(f, h, body):
    """A traversal: the loop stops at the end of a chain of pointers."""
    for n in f.blocks[h]:
        if n.op != 'phi':
            break
        if n.ty != 'ptr':
            continue
        for o, fr in zip(n.ops, n.x['from']):
            if fr in body:
                d = f.insts.get(f.strip(o))
                if d is not None and d.op == 'load' and d.ty == 'ptr':
                    return True
                if d is not None and d.op == 'phi':
                    ds = [f.insts.get(f.strip(x)) for x in d.ops]
                    if all(x is not None and (x.op == 'load' or x.v == n.v) for x in ds):
                        return True
    return False


class Progress(Rule):
    def __init__(self, m, R, P, flag, f, members):
        self.m, self.R, self.P, self.flag, self.members = m, R, P, flag, members
        self.waits = waits(f)
        self.poll = POLL.match(f.name) is not None
        self.counted = {c.head for c in q.counts(f)}

    # state: (asynchronous thread?, waiting loops not yet polled in this round, met with the others, polled at all)
    def start(self, f):
        return (False, frozenset(), False, False)

    def inst(self, f, s, n, env):
        if n.op != 'call' or not n.fn:
            return s
        a, w, met, pol = s
        if n.fn == 'MPI_Test' and q.akey(f, q.arg(n, 'req'), env) == self.P.req:
            return (a, frozenset(), met, True)
        if n.fn in BLOCK and not a:
            self.R.ob('blocking', '%s %s' % (f.name, f.where(n)))
            if n.fn in LOCAL or not met:
                self.R.bad('blocking', '%s:%s' % (f.name, n.fn), '%s: %s blocks without handling the packets of other PEs%s' % (
                    f.name, n.fn, '' if n.fn in LOCAL else ', and the PEs have not met before'), f, n, self, self.members)
            met = True
        elif n.fn in ('MPI_Ibarrier', 'MPI_Iallreduce', 'MPI_Iallgather', 'MPI_Ialltoall') or n.fn == 'MPI_Irecv' and q.arg(n, 'req')[0] != 'g':
            # completed by a loop that makes progress (rules awaited of C03 and waiting)
            met = True
        return (a, w, met, pol)

    def edge(self, f, s, blk, nxt, atoms, env):
        a, w, met, pol = s
        for p, x, c in atoms:
            if self.flag is None or const(c) != 0:
                continue
            ad = q.loadaddr(f, x)
            if ad is not None and ad.startswith('g:') and q.akey(f, ad, env) == self.flag:
                a = p in ('ne', 'sgt', 'ugt')
                if a:
                    w = frozenset()
        L = f.loops()
        for h in self.waits:
            if blk in L[h] and nxt not in L[h]:
                w = w - {h}
        if nxt in self.waits:
            n = self.waits[nxt]
            if blk in L[nxt]:
                self.R.ob('waiting', '%s %s' % (f.name, f.where(n)))
                if nxt in w and not a:
                    self.R.bad('waiting', '%s:%s' % (f.name, n.fn or 'load'), '%s: the loop waits without handling the packets of other PEs' % f.name, f, n, self, self.members)
            if not a:
                w = w | {nxt}
        elif nxt not in L or blk in L.get(nxt, ()):
            pass
        for h in self.counted:
            if blk in L[h] and nxt not in L[h] and not met and any(n.fn == 'MPI_Irecv' for b in L[h] for n in f.blocks[b] if n.op == 'call'):
                met = True                   # has heard from each of the others
        return (a, w, met, pol)

    def ret(self, f, s, n, env):
        if self.poll and not s[0]:
            self.R.ob('polling', f.name)
            if not s[3] and not self.yes(f, n, env):
                self.R.bad('polling', re.sub(r'^shmem_(\w+_)?(?=test)', '', f.name), '%s answers "not yet" without having handled the packets of other PEs' % f.name, f, n, self, self.members)

    def yes(self, f, n, env):
        """Does the routine report success on this path?"""
        if not n.ops:
            return False
        v = env.resolve(n.ops[0])
        c = const(v)
        if f.name.endswith('_lock'):
            return c == 0
        if c is not None:
            return c != 0
        return env.count(v) == 'pos' or env.truth(v) is True


def run(m, R):
    R.rule('waiting', 'On every path around a loop that waits for MPI the packet listener is polled, unless the asynchronous thread does it')
    R.rule('blocking', 'MPI calls that wait for other PEs are made only under the asynchronous thread or after the PEs have met while making progress')
    R.rule('polling', 'A test routine that answers "not yet" has polled the listener')
    R.rule('callback', 'Packet callbacks neither poll the listener nor wait in a loop')
    P = Proto(m)
    flag = asyncflag(m)
    for f, ms in m.reps('^shmem', EXCL):
        R.guard(one, m, R, P, flag, f, ms)
    for t, fns in sorted(P.handlers.items()):
        for fn in sorted(fns):
            callback(m, R, P, m.fn(fn))
    R.need('waiting', 100)
    R.need('polling', 10)
    if flag is not None:
        R.need('blocking', 1)


def one(m, R, P, flag, f, ms):
    if waits(f) or POLL.match(f.name) or any(n.op == 'call' and n.fn in BLOCK for n in f.all()):
        sim(R, f, Progress(m, R, P, flag, f, ms))


def callback(m, R, P, f):
    R.ob('callback', f.name)
    for n in f.all():
        if n.op != 'call':
            continue
        if n.fn is None or n.fn in ('MPI_Test', 'MPI_Testall') and q.arg(n, 'req') and q.akey(f, q.arg(n, 'req')) == P.req:
            R.bad('callback', '%s:progress' % f.name, '%s polls the packet listener from within a callback (re-entry)' % f.name, f, n)
        if n.fn in ('pthread_mutex_lock',) and n.ops[0].startswith('g:') and n.ops[0].split('+')[0] == P.req[0][1].split('+')[0]:
            R.bad('callback', '%s:lock' % f.name, '%s takes a lock of the progress engine it runs under' % f.name, f, n)
    for h, n in waits(f).items():
        R.bad('callback', '%s:wait' % f.name, '%s waits in a loop' % f.name, f, n)
