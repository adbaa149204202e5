"""Tracking: no operation is forgotten before it is complete."""
from .. import q
from ..ir import const, SWAP
from ..core import sim
from ..paths import Rule
from ..complete import Complete

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'direct']
EXPLAIN = ('Path-sensitive simulation of every entry point that issues a one-sided MPI operation or an active message: at every '
           'return each operation is either complete (at the target for updates, locally for reads) or the tracking flag that makes the '
           'next quiet complete it is set; a tracking flag is cleared only when what it stands for is complete.')
ASSUME = ['MPI_Win_flush_local completes a pure read; updates need MPI_Win_flush or a later flush_all',
          'a reply to an active message implies that earlier active messages to the same PE were handled (FIFO matching)']
STRONG = ('MPI_Put', 'MPI_Accumulate', 'MPI_Compare_and_swap')
NOOP = 'g:ompi_mpi_op_no_op'


def strong(n):
    if n.fn in STRONG:
        return True
    if n.fn in ('MPI_Fetch_and_op', 'MPI_Get_accumulate'):
        return not q.arg(n, 'op').startswith(NOOP)
    return False


def amcomm(m):
    """Location of the communicator the packet listener receives on."""
    if getattr(m, '_amcomm', False) is False:
        m._amcomm = None
        for f, ms in m.reps('^shmem'):
            for n in f.calls('^MPI_Irecv$'):
                if const(q.arg(n, 'pe')) == -1:
                    a = q.loadaddr(f, q.arg(n, 'comm'))
                    if a:
                        m._amcomm = q.akey(f, a)
                        return m._amcomm
    return m._amcomm


class Track(Rule):
    def __init__(self, m, R, members):
        self.m, self.R, self.members = m, R, members
        self.M = q.model(m)
        self.C = Complete(m, R, None, lambda *a: a[2])
        self.am = q.has_am(m)
        self.amcomm = amcomm(m)
        self.loops, self.direct = None, set()

    def start(self, f):
        self.C.start(f)
        return frozenset()
        return frozenset()

    def inst(self, f, s, n, env):
        M = self.M
        if n.op == 'call' and n.fn:
            if n.fn in q.RMA_OPS:
                w = self.C.winkey(n, env)
                st = strong(n)
                self.R.ob('tracked', '%s %s' % (f.name, f.where(n)))
                if st and ('S', w) in s:
                    return s
                return s | {('P', w, st, n.v)}
            if n.fn in ('MPI_Win_flush_all', 'MPI_Win_flush', 'MPI_Win_unlock_all'):
                w = self.C.winkey(n, env)
                return frozenset(t for t in s if not (t[0] == 'P' and t[1] == w))
            if n.fn in ('MPI_Win_flush_local', 'MPI_Win_flush_local_all'):
                w = self.C.winkey(n, env)
                return frozenset(t for t in s if not (t[0] == 'P' and t[1] == w and not t[2]))
            if n.fn in ('MPI_Isend', 'MPI_Send') and self.am and self.comm(f, n, env) == self.amcomm:
                pe = q.vkey(f, q.arg(n, 'pe'), env)
                self.R.ob('am-tracked', '%s %s' % (f.name, f.where(n)))
                if ('SA', pe) in s:
                    return s
                return s | {('A', pe, n.v)}
            if n.fn in ('MPI_Irecv', 'MPI_Recv') and self.am:
                pe = q.vkey(f, q.arg(n, 'pe'), env)
                if const(q.arg(n, 'pe')) == -1:
                    return s
                if n.fn == 'MPI_Recv':
                    return frozenset(t for t in s if not (t[0] == 'A' and t[1] == pe)) | {('D', pe)}
                return s | {('R', pe)}
            if n.fn in ('MPI_Waitall', 'MPI_Wait'):
                return self.replied(s)
        st = q.storeof(n)
        if st is not None:
            v, a = st
            k = q.akey(f, a, env)
            c = const(v) if env is None else const(env.resolve(v))
            if self.C.isflagloc(a):
                w = q.shift(k, M.win_off - M.flag_off)
                if c == 0:
                    return frozenset(t for t in s if t != ('S', w))
                if c is not None:
                    return frozenset(t for t in s if not (t[0] == 'P' and t[1] == w)) | {('S', w)}
            elif self.am:
                i = q.isflag(self.m, k)
                if i is not None and c is not None:
                    if c == 0:
                        if not self.looped(f, i):
                            self.direct.add(n.v)
                            self.R.ob('reset', '%s %s' % (f.name, f.where(n)))
                            if ('D', i) not in s:
                                self.R.bad('reset', '%s:am' % f.name, '%s: the active-message flag of a PE is cleared without a reply from that PE' % f.name, f, n, self, self.members)
                        return frozenset(t for t in s if t != ('SA', i))
                    return frozenset(t for t in s if not (t[0] == 'A' and t[1] == i) and t != ('D', i)) | {('SA', i)}
        return s

    def comm(self, f, n, env):
        a = q.loadaddr(f, q.arg(n, 'comm'))
        return q.akey(f, a, env) if a else None

    def replied(self, s):
        done = {t[1] for t in s if t[0] == 'R'}
        if not done:
            return s
        return frozenset(t for t in s if not (t[0] == 'A' and t[1] in done)) | {('D', p) for p in done}

    def edge(self, f, s, blk, nxt, atoms, env):
        for p, a, b in atoms:
            ad = q.loadaddr(f, a)
            if ad is None or const(b) != 0:
                continue
            k = q.akey(f, ad, env)
            if p == 'eq' and self.C.isflagloc(ad):
                # idle window: nothing outstanding
                w = q.shift(k, self.M.win_off - self.M.flag_off)
                s = frozenset(t for t in s if t != ('S', w))
            if p in ('ne', 'sgt', 'ugt') and self.am:
                r = f.addr(ad)[0]
                d = f.insts.get(r)
                if d is not None and d.op == 'alloca' and any(u.op == 'call' and u.fn in ('MPI_Testall', 'MPI_Test') and q.arg(u, 'flag') == r for u in f.uses[r]):
                    ts = [u for u in f.uses[r] if u.op == 'call' and u.fn in ('MPI_Testall', 'MPI_Test') and q.arg(u, 'flag') == r]
                    if not any(q.arg(u, 'req').startswith('g:') for u in ts if u.fn == 'MPI_Test'):
                        s = self.replied(s)
        # a loop that requested and awaited a reply from every PE with outstanding messages
        ph = [n.v for n in f.blocks[nxt] if n.op == 'phi']
        if ph:
            s = frozenset(t for t in s if not any(q.mentions(t, v) for v in ph))
        return s

    def looped(self, f, i):
        """The index runs over the PEs in a loop: decided by the completion analysis of the whole loop (one())."""
        if self.loops is None:
            self.loops = {n.v for h in f.loops() for n in f.blocks[h] if n.op == 'phi'}
        if any(q.mentions(i, v) for v in self.loops):
            return True
        return False

    def ret(self, f, s, n, env):
        for t in sorted(s, key=str):
            if t[0] == 'P':
                o = f.insts[t[3]]
                self.R.bad('tracked', '%s:%s' % (f.name, o.fn), '%s: %s may still be outstanding at return and is not recorded' % (f.name, o.fn), f, o, self, self.members)
            elif t[0] == 'A':
                o = f.insts[t[2]]
                self.R.bad('am-tracked', '%s:%s' % (f.name, o.fn), '%s: the active message sent here is neither answered nor recorded as outstanding at return' % f.name, f, o, self, self.members)


def run(m, R):
    R.rule('tracked', 'At every return a one-sided operation is complete or its window is marked as having outstanding operations')
    R.rule('am-tracked', 'At every return an active message is answered or its target PE is marked as having outstanding messages')
    R.rule('reset', 'The mark of a window or of a PE is cleared only after its operations are complete')
    for f, ms in m.reps('^shmem', '^shmem_(finalize|init|init_thread)$'):
        R.guard(one, m, R, f, ms)
    R.need('tracked', 100 if m.cfg not in ('am',) else 1)
    if q.has_am(m):
        R.need('am-tracked', 50)


def resets(m, C, f):
    """Statements of f that clear a mark."""
    out = []
    for n in f.all():
        st = q.storeof(n)
        if st is None or const(st[0]) != 0:
            continue
        if C.isflagloc(st[1]) or C.am and q.isflag(m, q.akey(f, st[1])) is not None:
            r = f.insts.get(f.addr(st[1])[0])
            if r is not None and r.op == 'call':
                continue                     # a record that is being created
            k = q.shift(q.akey(f, st[1]), C.M.win_off - C.M.flag_off)
            if any(q.akey(f, q.arg(c, 'pwin')) == k for c in f.calls('^MPI_Win_(create|allocate|create_dynamic)$')):
                continue                     # its window is created here
            out.append(n)
    return out


def one(m, R, f, ms):
    t = Track(m, R, ms)
    if any(n.fn in q.RMA_OPS or n.fn in ('MPI_Isend', 'MPI_Send') and t.comm(f, n, None) in (None, t.amcomm) for n in f.all() if n.op == 'call'):
        sim(R, f, t)
    c = Complete(m, R, None, lambda *a: a[2])
    c.start(f)
    rs = [n for n in resets(m, c, f) if n.v not in t.direct]
    if not rs:
        return
    def early(f_, n, what):
        if n not in rs:
            return
        R.bad('reset', f.name, '%s: %s is cleared while operations may be outstanding' % (f.name, what), f, n, c, ms)
    c.early = early
    sim(R, f, c, 400000)
    for n in rs:
        R.ob('reset', '%s %s' % (f.name, f.where(n)))

