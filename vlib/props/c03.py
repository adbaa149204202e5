"""Local completion: a buffer is handed back, reused or read only when the operation on it has finished locally."""
import re
from .. import q
from ..ir import const
from ..core import sim
from ..paths import Rule
from ..complete import Complete

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'direct', 'fast']
EXPLAIN = ('Path-sensitive simulation of every entry point that starts an MPI operation (one-sided, nonblocking point-to-point or '
           'nonblocking collective): on every path, before the entry point returns, every nonblocking request it started in local or heap '
           'storage is waited for, and every one-sided operation of a blocking routine, or on a buffer in the stack frame of any routine, '
           'is completed locally by a flush of its window and target; local buffers are not read, overwritten or freed before that.')
ASSUME = ['MPI_Win_flush_local / MPI_Win_flush and a completed wait or test make the local buffers of the operation reusable']
NB = re.compile('_nbi$')
RECV = {'MPI_Irecv': ('buf',), 'MPI_Get': ('obuf',), 'MPI_Get_accumulate': ('rbuf',), 'MPI_Fetch_and_op': ('rbuf',),
        'MPI_Compare_and_swap': ('rbuf',), 'MPI_Iallreduce': ('rbuf',), 'MPI_Iallgather': ('rbuf',), 'MPI_Iallgatherv': ('rbuf',), 'MPI_Ialltoall': ('rbuf',)}
SEND = {'MPI_Isend': ('buf',), 'MPI_Put': ('obuf',), 'MPI_Accumulate': ('obuf',), 'MPI_Get_accumulate': ('obuf',), 'MPI_Fetch_and_op': ('obuf',),
        'MPI_Compare_and_swap': ('obuf', 'cbuf'), 'MPI_Iallreduce': ('sbuf',), 'MPI_Iallgather': ('sbuf',), 'MPI_Iallgatherv': ('sbuf', 'rcounts', 'displs'), 'MPI_Ialltoall': ('sbuf',),
        'MPI_Ibcast': ('buf',)}
REQS = set(RECV) | set(SEND) | {'MPI_Ibarrier'}


class Local(Rule):
    def __init__(self, m, R, f, members):
        self.m, self.R, self.members, self.f = m, R, members, f
        self.C = Complete(m, R, None, lambda *a: a[2])
        self.C.f = f
        self.nb = bool(NB.search(f.name))

    def start(self, f):
        return frozenset()

    def roots(self, f, n, table, env):
        out = []
        for r in table.get(n.fn, ()):
            v = q.arg(n, r)
            if v is not None and v[0] in '%ag':
                out.append(q.akey(f, v, env)[0])
        return tuple(out)

    def local(self, f, k):
        """Storage that ends with the call."""
        return k[0] == 'a'

    def inst(self, f, s, n, env):
        if n.op == 'load' and s:
            self.touch(f, s, n, q.akey(f, n.ops[0], env)[0], 'read', env)
            return s
        if n.op == 'store':
            if s:
                self.touch(f, s, n, q.akey(f, n.ops[1], env)[0], 'write', env)
            return s
        if n.op != 'call' or not n.fn:
            return s
        fn = n.fn
        if fn in q.RMA_OPS:
            w = self.C.winkey(n, env)
            self.R.ob('reusable', '%s %s' % (f.name, f.where(n)))
            return s | {('P', w, q.vkey(f, q.arg(n, 'pe'), env), n.v, self.roots(f, n, RECV, env), self.roots(f, n, SEND, env))}
        if fn in REQS:
            r = q.arg(n, 'req')
            if r.startswith('g:'):
                return s
            k = q.akey(f, r, env)
            self.R.ob('awaited', '%s %s' % (f.name, f.where(n)))
            return s | {('Q', k, n.v, self.roots(f, n, RECV, env), self.roots(f, n, SEND, env))}
        if not s:
            return s
        if fn in ('MPI_Win_flush_all', 'MPI_Win_flush_local_all', 'MPI_Win_unlock_all'):
            w = self.C.winkey(n, env)
            return frozenset(t for t in s if not (t[0] == 'P' and t[1] == w))
        if fn in ('MPI_Win_flush', 'MPI_Win_flush_local'):
            w, pe = self.C.winkey(n, env), q.vkey(f, q.arg(n, 'pe'), env)
            return frozenset(t for t in s if not (t[0] == 'P' and t[1] == w and t[2] == pe))
        if fn == 'MPI_Wait':
            return self.wait(f, s, n, env)
        if fn == 'MPI_Waitall':
            return self.wait(f, s, n, env)
        if fn in q.MEMCPY:
            self.touch(f, s, n, q.akey(f, q.arg(n, 'src'), env)[0], 'read', env)
            self.touch(f, s, n, q.akey(f, q.arg(n, 'dst'), env)[0], 'write', env)
        elif fn == 'free':
            k = q.vkey(f, n.ops[0], env)
            for t in s:
                if t[0] == 'Q' and t[1][0] == k or k in (t[-1] + t[-2]):
                    o = f.insts[t[3] if t[0] == 'P' else t[2]]
                    self.R.bad('early', '%s:%s:free' % (f.name, o.fn), '%s: memory of the pending %s is freed' % (f.name, o.fn), f, n, self, self.members)
        return s

    def touch(self, f, s, n, k, how, env):
        if k[0] != 'a':
            return
        for t in s:
            if k in t[-2] or how == 'write' and k in t[-1]:
                o = f.insts[t[3] if t[0] == 'P' else t[2]]
                self.R.bad('early', '%s:%s:%s' % (f.name, o.fn, how), '%s: the buffer of the pending %s is %s before it completes' % (
                    f.name, o.fn, 'read' if how == 'read' else 'overwritten'), f, n, self, self.members)

    def wait(self, f, s, n, env):
        out = set()
        if 'all' in n.fn:
            k, c = q.akey(f, q.arg(n, 'reqs'), env), const(q.res(f, q.arg(n, 'n'), env))
            for t in s:
                if t[0] == 'Q' and t[1][0] == k[0]:
                    if c is None or t[1][2] or k[2] or k[1] <= t[1][1] < k[1] + 8 * c:
                        continue
                out.add(t)
        else:
            k = q.akey(f, q.arg(n, 'req'), env)
            out = {t for t in s if not (t[0] == 'Q' and t[1] == k)}
        return frozenset(out)

    def edge(self, f, s, blk, nxt, atoms, env):
        if not s:
            return s
        for p, a, b in atoms:
            ad = q.loadaddr(f, a)
            if ad is None or const(b) != 0 or p not in ('ne', 'sgt', 'ugt'):
                continue
            r = f.addr(ad)[0]
            d = f.insts.get(r)
            if d is None or d.op != 'alloca':
                continue
            for u in f.uses[r]:
                if u.op == 'call' and u.fn in ('MPI_Testall', 'MPI_Test') and q.arg(u, 'flag') == r:
                    s = self.wait(f, s, u, env)
        return s

    def ret(self, f, s, n, env):
        for t in sorted(s, key=str):
            if t[0] == 'Q':
                o = f.insts[t[2]]
                self.R.bad('awaited', '%s:%s' % (f.name, o.fn), '%s: the request of %s is not completed before return' % (f.name, o.fn), f, o, self, self.members)
            else:
                o = f.insts[t[3]]
                loc = [k for k in t[4] + t[5] if self.local(f, k)]
                if loc or not self.nb:
                    self.R.bad('reusable', '%s:%s' % (f.name, o.fn), '%s: %s is not completed locally before return%s' % (
                        f.name, o.fn, ' although it uses a buffer in the stack frame' if loc else ''), f, o, self, self.members)


def run(m, R):
    R.rule('reusable', 'A blocking one-sided routine completes its operation locally before it returns; an operation on a local buffer always')
    R.rule('awaited', 'Every nonblocking request kept in local or heap storage is completed before the entry point returns')
    R.rule('early', 'A local buffer is not read, overwritten or freed while an operation on it is pending')
    for f, ms in m.reps('^shmem'):
        R.guard(one, m, R, f, ms)
    R.need('reusable', 100 if m.cfg != 'am' else 1)
    R.need('awaited', 50 if q.has_am(m) else 1)


def one(m, R, f, ms):
    for n in f.all():
        if n.op == 'call' and (n.fn in q.RMA_OPS or n.fn in REQS):
            R.ob('early', f.name)
            sim(R, f, Local(m, R, f, ms))
            return
