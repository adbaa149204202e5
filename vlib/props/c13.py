"""Distributed locks: the queue protocol of set, test and clear."""
from .. import q
from ..ir import const, AnalysisError
from ..core import sim
from ..mem import Mem
from . import c11
from .c08 import lin, diff

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'direct', 'fast']
EXPLAIN = ('The three lock routines are simulated on all paths with the contents of the local operands and results of every atomic operation. The word and the PE an operation '
           'acts on, its operands, its flush and the conditions under which the path goes on are compared with the queue protocol (swap in, announce to the predecessor, '
           'wait for the signal; compare-and-swap out or hand over to the announced successor). Conditions on a result are evaluated on representatives of the values the '
           'protocol distinguishes. The constants found (root PE, word offsets, free value, identity of a PE, signal bit) must agree in all three routines.')
ASSUME = ['MPI atomics on one location with the same datatype are atomic with respect to each other', 'a lock variable is 0 before its first use and is used by lock routines only',
          'clear is called by the holder only (required of the program)', 'the plain store that resets the own word is visible to later atomics after MPI_Win_sync',
          'fewer than 2^24 PEs']
LOCK = ('v', 'a0')
W32 = 1 << 32
TYPES = ('g:ompi_mpi_int', 'g:ompi_mpi_unsigned', 'g:ompi_mpi_int32_t', 'g:ompi_mpi_uint32_t')


def sg(x):
    return x - W32 if x >= W32 // 2 else x


def has(k, x):
    return k == x or isinstance(k, tuple) and any(has(y, x) for y in k)


def ev(k, b):
    """Value of a key (32-bit) under a binding of leaves, None when not known."""
    if k in b:
        return b[k] % W32
    t = k[0]
    if t == 'c':
        return k[1] % W32
    if t == 'cmp':
        x, y = ev(k[2], b), ev(k[3], b)
        if x is None or y is None:
            return None
        return int(rel(k[1], x, y))
    if t == '?':
        c = ev(k[1], b)
        return None if c is None else ev(k[2 if c else 3], b)
    if t == '&' and not k[3]:
        x = ev(k[1], b)
        return None if x is None else (x + k[2]) % W32
    if t in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'lshr', 'shl'):
        x, y = ev(k[1], b), ev(k[2], b)
        if x is None or y is None:
            return None
        return {'add': x + y, 'sub': x - y, 'and': x & y, 'or': x | y, 'xor': x ^ y, 'mul': x * y, 'lshr': x >> min(y, 32), 'shl': x << min(y, 32)}[t] % W32
    return None


def rel(p, x, y):
    sx, sy = sg(x), sg(y)
    return {'eq': x == y, 'ne': x != y, 'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[p]


class Lock(Mem):
    """States: tokens about the operations of this call.  ('pend', inst, pe, win, strong), ('fact', pred, key, key), ('did', what, inst), ('reset',), ('sync',)"""

    def __init__(self, m, R, f, K):
        self.m, self.R, self.f, self.K = m, R, f, K
        self.w = c11.world(m)
        self.name = f.name
        self.ops = {}

    def bad(self, rule, key, what, n):
        self.R.bad(rule, '%s:%s' % (self.name, key), '%s: %s' % (self.name, what), self.f, n, self)

    # -------------------------------------------------------------------------- what an operation is
    def describe(self, f, n, env):
        """(word, operation, value, compare) of a one-sided operation on the lock."""
        a = lambda r: q.arg(n, r)
        D = lin(q.vkey(f, a('disp'), env))
        if D.get(LOCK) != 1:
            return None
        off = D.get(None, 0)
        opn = a('op')
        opn = opn[len('g:ompi_mpi_op_'):] if opn and opn.startswith('g:ompi_mpi_op_') else None
        val = self.content(f, a('obuf'), env) if a('obuf') and a('obuf') != 'null' else None
        cmp_ = None
        if n.fn == 'MPI_Compare_and_swap':
            kind, cmp_ = 'cas', self.content(f, a('cbuf'), env)
        elif n.fn in ('MPI_Fetch_and_op', 'MPI_Get_accumulate', 'MPI_Accumulate'):
            kind = {'replace': 'swap', 'no_op': 'read', 'bor': 'or'}.get(opn, opn)
            if n.fn == 'MPI_Accumulate' and kind in ('swap', 'read'):
                kind = 'plain ' + kind
        else:
            kind = 'non-atomic ' + n.fn
        ty = a('type') or a('ttype')
        return off, kind, val, cmp_, ty

    def event(self, f, s, n, env):
        st = q.storeof(n)
        if st is not None:
            k = q.akey(f, st[1], env)
            if k[0] == LOCK:
                z = self.size(f, st[0])
                self.R.ob('reset', '%s %s' % (self.name, f.where(n)))
                if k[2] or z != 4 or const(env.resolve(st[0])) != 0:
                    self.bad('reset', 'store', 'a plain store to the lock other than a reset of the own word', n)
                self.K.setdefault('next', {}).setdefault(k[1], (self, n))
                return frozenset(t for t in s if t[0] not in ('reset', 'sync')) | {('reset',)}
            return s
        if n.op != 'call' or not n.fn:
            return s
        if n.fn in ('llvm.memset.p0.i64', 'memset'):
            k = q.akey(f, q.arg(n, 'dst'), env)
            if k[0] == LOCK:
                self.R.ob('reset', '%s %s' % (self.name, f.where(n)))
                if k[2] or const(q.arg(n, 'size')) != 4 or const(q.arg(n, 'value')) != 0:
                    self.bad('reset', 'store', 'a plain store to the lock other than a reset of the own word', n)
                self.K.setdefault('next', {}).setdefault(k[1], (self, n))
                return frozenset(t for t in s if t[0] not in ('reset', 'sync')) | {('reset',)}
        if n.fn == 'MPI_Win_sync':
            if ('reset',) in s:
                return frozenset(t for t in s if t != ('reset',)) | {('sync',)}
            return s
        if n.fn in ('MPI_Win_flush', 'MPI_Win_flush_local', 'MPI_Win_flush_all', 'MPI_Win_flush_local_all'):
            w = q.vkey(f, q.arg(n, 'win'), env)
            pe = q.vkey(f, q.arg(n, 'pe'), env) if q.arg(n, 'pe') else None
            loc = 'local' in n.fn
            return frozenset(t for t in s if not (t[0] == 'pend' and t[3] == w and (pe is None or t[2] == pe) and not (loc and t[4])))
        if n.fn in q.RMA_OPS:
            d = self.describe(f, n, env)
            if d is None:
                return s
            return self.op(f, s, n, env, *d)
        return s

    def pending(self, s, k, n, what):
        for t in s:
            if t[0] == 'pend' and has(k, ('recv', t[1])):
                self.bad('flushed', what, 'the result of the %s is used before the operation is complete' % f_(self.f, t[1]), n)

    def op(self, f, s, n, env, off, kind, val, cmp_, ty):
        R, K = self.R, self.K
        R.ob('atomic', '%s %s' % (self.name, f.where(n)))
        pe = q.vkey(f, q.arg(n, 'pe'), env)
        w = q.vkey(f, q.arg(n, 'win'), env)
        word = 'last' if kind in ('swap', 'cas') else 'next'
        K.setdefault(word, {}).setdefault(off, (self, n))
        K.setdefault('type ' + word, {}).setdefault(ty, (self, n))
        if kind not in ('swap', 'cas', 'read', 'or'):
            self.bad('atomic', n.fn, 'a lock word is accessed with %s' % kind, n)
            return s
        if ty not in TYPES:
            self.bad('atomic', 'type', 'a lock word is accessed with a datatype that is not a 4-byte integer', n)
        self.pending(s, (pe, val, cmp_), n, n.fn)
        me = self.w.mype
        did = {t[1]: t[2] for t in s if t[0] == 'did'}
        rules = getattr(self, 'op_' + kind)
        what = rules(f, s, n, pe, val, cmp_, did)
        s = frozenset(t for t in s if not (t[0] == 'fact' and has(t, ('recv', n.v)) or t[0] == 'pend' and t[1] == n.v or t[0] == 'did' and t[1] == what))
        return s | {('pend', n.v, pe, w, kind == 'or'), ('did', what, n.v)}

    def myid(self, k):
        """Offset d when the value is my PE + d."""
        if k is None:
            return None
        d = diff(lin(k), {self.w.mype: 1})
        return d.get(None, 0) if not set(d) - {None} else None

    def rootpe(self, n, pe):
        if pe[0] != 'c':
            self.bad('claim', 'root', 'the queue word is not kept at one fixed PE', n)
        self.K.setdefault('root', {}).setdefault(pe, (self, n))

    def identity(self, n, k, what):
        d = self.myid(k)
        if d is None:
            self.bad('claim', what, 'the %s of the claim is not the identity of this PE' % what, n)
        else:
            self.K.setdefault('id', {}).setdefault(d, (self, n))

    def free(self, n, k, what):
        if k is None or k[0] != 'c':
            self.bad('claim', what, 'the %s is not the constant for a free lock' % what, n)
        else:
            self.K.setdefault('free', {}).setdefault(k[1], (self, n))

    def op_swap(self, f, s, n, pe, val, cmp_, did):
        self.R.ob('claim', '%s %s' % (self.name, f.where(n)))
        if self.name != 'shmem_set_lock':
            self.bad('claim', 'swap', 'the queue word is replaced unconditionally', n)
        if 'claim' in did:
            self.bad('claim', 'twice', 'one call claims the lock twice', n)
        if ('sync',) not in s:
            self.bad('reset', 'before', 'the lock is claimed before the own word is reset and synchronised', n)
        self.rootpe(n, pe)
        self.identity(n, val, 'new value')
        return 'claim'

    def op_cas(self, f, s, n, pe, val, cmp_, did):
        self.R.ob('claim', '%s %s' % (self.name, f.where(n)))
        if 'claim' in did:
            self.bad('claim', 'twice', 'one call claims or releases the lock twice', n)
        self.rootpe(n, pe)
        if self.name == 'shmem_clear_lock':
            self.identity(n, cmp_, 'compare value')
            self.free(n, val, 'value stored when the lock is released')
        elif self.name == 'shmem_test_lock':
            self.identity(n, val, 'new value')
            self.free(n, cmp_, 'value compared when the lock is tried')
        else:
            self.bad('claim', 'cas', 'a blocking lock is claimed without joining the queue', n)
        return 'claim'

    def op_read(self, f, s, n, pe, val, cmp_, did):
        self.R.ob('wait', '%s %s' % (self.name, f.where(n)))
        if pe != self.w.mype:
            self.bad('wait', 'own', 'the wait does not read the word of this PE', n)
        if 'claim' not in did or self.name == 'shmem_set_lock' and 'or' not in did:
            self.bad('wait', 'order', 'the wait begins before the predecessor is told', n)
        return 'read'

    def op_or(self, f, s, n, pe, val, cmp_, did):
        self.R.ob('notify', '%s %s' % (self.name, f.where(n)))
        if 'or' in did:
            self.bad('notify', 'twice', 'one call notifies twice', n)
        if self.name == 'shmem_set_lock':
            if 'claim' not in did:
                self.bad('notify', 'order', 'a predecessor is told before the lock is claimed', n)
                return 'or'
            r = ('recv', did['claim'])
            d = diff(lin(pe), {r: 1})
            if set(d) - {None}:
                self.bad('notify', 'target', 'the announcement does not go to the previous last PE of the queue', n)
            else:
                self.K.setdefault('id', {}).setdefault(-d.get(None, 0), (self, n))
            if self.myid(val) is None:
                self.bad('notify', 'value', 'the predecessor is not told the identity of this PE', n)
            else:
                self.K.setdefault('id', {}).setdefault(self.myid(val), (self, n))
            if any(rv == 0 for _, rv in self.feasible(s, r)):
                self.bad('notify', 'free', 'a predecessor is told although the lock was free', n)
        elif self.name == 'shmem_clear_lock':
            if 'read' not in did:
                self.bad('notify', 'order', 'the lock is handed over before the successor is known', n)
                return 'or'
            r = ('recv', did['read'])
            if ('sync',) not in s:
                self.bad('reset', 'handover', 'the lock is handed over before the own word is reset and synchronised', n)
            if val is None or val[0] != 'c' or val[1] % W32 == 0:
                self.bad('notify', 'value', 'the successor is not given a signal', n)
            else:
                self.K.setdefault('signal', {}).setdefault(val[1] % W32, (self, n))
            self.K.setdefault('handover', []).append((self, n, pe, r, frozenset(t for t in s if t[0] == 'fact' and has(t, r)), f.where(n)))
        else:
            self.bad('notify', 'test', 'a failed attempt to take the lock changes a lock word', n)
        return 'or'

    def samples(self):
        S = [x for x in (self.K.get('signal') or {0x80000000: 0})]
        out = {0, 1, 2, 3, 5, 0x7fffffff}
        for x in S:
            out |= {x, x | 1, x | 2, x | 0x00abcdef}
        return sorted(out)

    def feasible(self, s, r, facts=None):
        """(my PE, result) pairs that the conditions tested on this path allow."""
        facts = [t for t in (s if facts is None else facts) if t[0] == 'fact']
        out = []
        for p in (0, 1, 2):
            for rv in self.samples():
                b = {self.w.mype: p, r: rv}
                ok = True
                for _, pr, x, y in facts:
                    a, c = ev(x, b), ev(y, b)
                    if a is not None and c is not None and not rel(pr, a, c):
                        ok = False
                        break
                if ok:
                    out.append((p, rv))
        return out

    def medge(self, f, s, blk, nxt, atoms, env):
        new = set()
        for p, a, b in atoms:
            x, y = q.vkey(f, a, env), q.vkey(f, b, env)
            if any(has((x, y), ('recv', t[2])) for t in s if t[0] == 'did'):
                self.pending(s, (x, y), f.blocks[blk][-1], 'test')
                new.add(('fact', p, x, y))
        ph = [n.v for n in f.blocks[nxt] if n.op == 'phi']
        if ph:
            s = frozenset(t for t in s if not any(q.mentions(t, v) for v in ph))
        return s | new if new else s

    def mret(self, f, s, n, env):
        did = {t[1]: t[2] for t in s if t[0] == 'did'}
        last = f.blocks[n.blk][-1]
        self.R.ob('return', self.name)
        if 'claim' not in did:
            self.bad('claim', 'none', 'a path returns without an operation on the queue', last)
            return
        for t in s:
            if t[0] == 'pend':
                self.bad('flushed', 'ret', 'returns before the %s is complete' % f_(f, t[1]), last)
        if ('reset',) in s:
            self.bad('reset', 'unsynced', 'returns before the reset of the own word is synchronised', last)
        r = ('recv', did['claim'])
        if self.name == 'shmem_set_lock':
            if 'or' not in did:
                if any(rv != 0 for _, rv in self.feasible(s, r)):
                    self.bad('return', 'queued', 'returns although another PE is in the queue', last)
            elif 'read' not in did:
                self.bad('wait', 'none', 'returns without waiting for the lock', last)
            else:
                self.K.setdefault('waits', []).append((self, last, ('recv', did['read']), frozenset(t for t in s if t[0] == 'fact'), f.where(last)))
        elif self.name == 'shmem_clear_lock':
            if 'or' not in did:
                d = self.K.get('id') or {1: 0}
                if any(rv != (p + min(d)) for p, rv in self.feasible(s, r)):
                    self.bad('return', 'handover', 'returns without handing the lock over although another PE is in the queue', last)
            elif any(rv == p + min(self.K.get('id') or {1: 0}) for p, rv in self.feasible(s, r)):
                self.bad('return', 'last', 'hands the lock over although no other PE is in the queue', last)
        else:
            k = q.vkey(f, n.ops[0], env)
            for p, rv in self.feasible(s, r):
                v = ev(k, {self.w.mype: p, r: rv})
                if v is None:
                    self.bad('return', 'value', 'the result is not decided by the outcome of the attempt', last)
                    return
                if (v == 0) != (rv == 0):
                    self.bad('return', 'value', 'the result does not tell whether the lock was taken', last)
                    return


def f_(f, v):
    return f.insts[v].fn


def run(m, R):
    R.rule('atomic', 'The lock words are accessed by 4-byte MPI atomics only')
    R.rule('claim', 'One atomic claim or release of the queue word at one fixed PE, with the identity of this PE and the value of a free lock')
    R.rule('reset', 'The own word is reset and synchronised before it can be written by others')
    R.rule('notify', 'A queued PE tells its predecessor its identity; a holder with a successor signals it')
    R.rule('wait', 'A wait reads the own word atomically and ends exactly on the signal or the announcement')
    R.rule('return', 'Returns exactly when the lock is held, released or handed over; test tells which')
    R.rule('flushed', 'No result is used and no call returns before its operations are complete')
    R.rule('agree', 'The three routines agree on the constants of the protocol')
    K = {}
    # the hand-over fixes the signal bit the wait is compared with
    for name in ('shmem_clear_lock', 'shmem_set_lock', 'shmem_test_lock'):
        R.guard(one, m, R, name, K)
    R.guard(agree, m, R, K)
    R.need('claim', 3)
    R.need('notify', 2)
    R.need('wait', 2)
    R.need('reset', 2)
    R.need('agree', 8)


def one(m, R, name, K):
    f = m.fn(name)
    r = Lock(m, R, f, K)
    res = sim(R, f, r, 400000)
    if not res.rets:
        R.bad('return', '%s:never' % name, '%s: no path returns' % name, f, f.blocks[0][0], r)


def agree(m, R, K):
    words = {'last': 'offset of the queue word', 'next': 'offset of the own word', 'root': 'PE that keeps the queue word', 'id': 'identity of a PE', 'free': 'value of a free lock',
             'signal': 'signal bit', 'type last': 'datatype of the queue word', 'type next': 'datatype of the own word'}
    for k, w in words.items():
        d = K.get(k) or {}
        R.ob('agree', w)
        if not d:
            R.bad('agree', k, 'no operation fixes the %s' % w)
        elif len(d) > 1:
            r, n = list(d.values())[-1]
            R.bad('agree', k, 'the lock routines do not agree on the %s' % w, r.f, n, r)
    if any(len(K.get(k) or ()) != 1 for k in words):
        return
    one = lambda k: next(iter(K[k].items()))
    S, (r, n) = one('signal')
    d = one('id')
    if one('free')[0] != 0:
        R.bad('agree', 'zero', 'a lock that is 0 is not free', one('free')[1][0].f, one('free')[1][1])
    if d[0] < 1:
        R.bad('agree', 'id', 'the identity of PE 0 is the value of a free lock', d[1][0].f, d[1][1])
    a, b = one('last')[0], one('next')[0]
    if not (0 <= a <= 4 and 0 <= b <= 4 and abs(a - b) >= 4):
        R.bad('agree', 'words', 'the two words of a lock overlap or do not fit in a long', one('last')[1][0].f, one('last')[1][1])
    if S < 1 << 24:
        R.bad('agree', 'mask', 'the signal can be mistaken for the identity of a PE', r.f, n)
    # the wait of set ends exactly on the signal, the target of the hand-over is the announced PE
    ends, sees = set(), set()
    for r, n, rk, facts, wh in K.get('waits', []):
        R.ob('wait', 'end %s' % wh)
        got = r.feasible(None, rk, [t for t in facts if has(t, rk)])
        ends |= {rv for _, rv in got}
        if any(not rv & S for _, rv in got):
            R.bad('wait', 'shmem_set_lock:signal', 'shmem_set_lock: the wait ends without the signal', r.f, n)
    if K.get('waits') and [rv for rv in r.samples() if rv & S and rv not in ends]:
        R.bad('wait', 'shmem_set_lock:stuck', 'shmem_set_lock: the wait does not end on a signal', r.f, n)
    for r, n, pe, rk, facts, wh in K.get('handover', []):
        R.ob('notify', 'target %s' % wh)
        got = r.feasible(None, rk, facts)
        sees |= {rv for _, rv in got}
        for p, rv in got:
            who = rv & ~S % W32
            if not who:
                R.bad('wait', 'shmem_clear_lock:announcement', 'shmem_clear_lock: the lock is handed over before a successor is announced', r.f, n)
                break
            if ev(pe, {rk: rv, r.w.mype: p}) != (who - d[0]) % W32:
                R.bad('notify', 'shmem_clear_lock:target', 'shmem_clear_lock: the signal does not go to the announced successor', r.f, n)
                break
    if K.get('handover') and [rv for rv in r.samples() if rv & ~S % W32 and rv not in sees]:
        R.bad('wait', 'shmem_clear_lock:stuck', 'shmem_clear_lock: the wait does not end on an announcement', r.f, n)
    if not K.get('waits'):
        R.bad('wait', 'shmem_set_lock:none', 'shmem_set_lock: a queued PE never waits for the signal')
    if not K.get('handover'):
        R.bad('notify', 'shmem_clear_lock:none', 'shmem_clear_lock: the lock is never handed over')
