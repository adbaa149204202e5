"""Point-to-point synchronisation: wait and test decide by the comparison named, on a fresh atomic read of the own copy of the variable."""
import re
from .. import q, amtab, terms
from ..ir import const
from ..core import sim
from ..mem import Mem
from ..paths import DEAD
from . import c11

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'direct', 'fast']
EXPLAIN = ('Every wait and test routine of every type is simulated on all paths. Its variable may be inspected only by a one-element atomic read of the own PE with the '
           'datatype of the variable, repeated before every new decision. The branch conditions of every path to a return (and of every path that reads again) are '
           'kept as terms with their widths and signedness and are evaluated for every comparison code and for representatives of the values of the type '
           '(limits, zero, neighbours): a wait may return only if the comparison holds and may go on only if it does not; a test returns exactly the outcome.')
ASSUME = ['comparison codes are those of shmem.h; other codes are undefined', 'the path conditions compare the value read with the operand of the caller, so that '
          'representatives around the limits of the type and around each other distinguish all order relations']
RX = re.compile(r'^shmem_(?:(\w+?)_)?(wait_until|wait|test)$')
CMP = {0x100001: 'eq', 0x100002: 'ne', 0x100003: 'gt', 0x100004: 'ge', 0x100005: 'lt', 0x100006: 'le'}
OPS = terms.OPS
READS = ('MPI_Fetch_and_op', 'MPI_Get_accumulate')


class Sync(Mem):
    """State: tokens ('read', buffer root), ('fact', term, truth), ('back', header): the loop was re-entered since the last read."""
    counters, deep = False, True

    def __init__(self, m, R, f, name, kind):
        self.m, self.R, self.f, self.name, self.kind = m, R, f, name, kind
        self.w = c11.world(m)
        sig = m.decl[name][2]
        t = m.pointee(sig[1])
        self.ty = amtab.ckind(m, t)
        self.bits = 8 * m.size(t)
        self.signed = self.ty[0] == 's'
        self.backs = {(b, h): body for h, body in f.loops().items() for b in f.pred[h] if b in body}
        self.loops = f.loops()
        lo, hi = (-(1 << self.bits - 1), (1 << self.bits - 1) - 1) if self.signed else (0, (1 << self.bits) - 1)
        mid = 1 << (self.bits - 1)
        vals = sorted({x for x in (lo, lo + 1, -1, 0, 1, 2, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, mid - 1, mid, mid + 1, hi - 1, hi) if lo <= x <= hi})
        self.pairs = [(x, y) for x in vals for y in vals]
        self.val = 2 if kind != 'wait' else 1
        self.cache = {}

    def bad(self, rule, key, what, n):
        self.R.bad(rule, '%s:%s' % (self.kind, key), '%s: %s' % (self.name, what), self.f, n, self, [self.name])

    def mstart(self, f):
        return frozenset()

    def event(self, f, s, n, env):
        if n.op == 'load' and q.akey(f, n.ops[0], env)[0] == ('v', 'a0'):
            self.R.ob('read', '%s %s' % (self.name, f.where(n)))
            self.bad('read', 'plain', 'the variable is inspected by a plain load, which neither completes nor is atomic with remote updates', n)
            return s
        if n.op == 'call' and n.fn and n.fn in q.RMA_OPS:
            self.R.ob('read', '%s %s' % (self.name, f.where(n)))
            op = env.resolve(q.arg(n, 'op')) if q.arg(n, 'op') else ''
            if n.fn not in READS or 'no_op' not in op:
                self.bad('read', n.fn, 'the variable is inspected with %s %s, which is not an atomic read' % (n.fn, op), n)
                return s
            if q.vkey(f, q.arg(n, 'pe'), env) != self.w.mype:
                self.bad('read', 'pe', 'the variable of another PE is inspected', n)
            for r in ('ttype', 'type', 'rtype'):
                if q.arg(n, r) is not None and amtab.kind(env.resolve(q.arg(n, r))) != self.ty:
                    self.bad('read', 'type', 'the variable is read as %s, it is %s' % (env.resolve(q.arg(n, r)), self.ty), n)
            for r in ('tcount', 'rcount'):
                if q.arg(n, r) is not None and const(env.resolve(q.arg(n, r))) != 1:
                    self.bad('read', 'count', 'other than one element is read', n)
            self.decide(f, s, n, False)
            buf = q.akey(f, q.arg(n, 'rbuf'), env)
            return frozenset(t for t in s if not (t[0] == 'fact' and terms.has(t[1], 'leaf') or t[0] in ('read', 'back'))) | {('read', buf[0])}
        return s

    @staticmethod
    def leaf(bufs):
        def g(f, n, env):
            if n.op == 'load':
                k = q.akey(f, n.ops[0], env)
                if k[0] in bufs and not k[2]:
                    return ('read', k[1])
        return g

    def facts(self, s):
        return [(t[1], t[2]) for t in s if t[0] == 'fact']

    def bindings(self, s):
        """Bindings of the comparison, the operand and the value read with which the path conditions hold."""
        F = tuple(sorted(self.facts(s), key=str))
        if F not in self.cache:
            out = []
            for code in (CMP if self.kind != 'wait' else (None,)):
                # values read are only consulted when they differ in outcome: all pairs
                for x, y in self.pairs:
                    b = {('leaf', ('read', 0)): x, ('arg', self.val): y}
                    if code is not None:
                        b[('arg', 1)] = code
                    for t, truth in F:
                        r = terms.ev(t, b)
                        if r is not None and bool(r) != truth:
                            break
                    else:
                        out.append((code, x, y))
            self.cache[F] = out
        return self.cache[F]

    def outcome(self, code, x, y):
        return OPS[CMP[code] if code is not None else 'ne'](x, y)

    def decide(self, f, s, n, done, ret=None):
        if not any(t[0] == 'read' for t in s):
            if done:
                self.R.ob('decide', '%s %s' % (self.name, f.where(n)))
                self.bad('decide', 'unread', 'a path %s without reading the variable' % ('returns' if self.kind != 'test' else 'decides'), n)
            return
        self.R.ob('decide', '%s %s' % (self.name, f.where(n)))
        for code, x, y in self.bindings(s):
            want = self.outcome(code, x, y)
            nm = CMP[code] if code is not None else 'ne'
            if self.kind == 'test':
                if not done:
                    continue
                got = terms.ev(ret, {('leaf', ('read', 0)): x, ('arg', self.val): y, ('arg', 1): code})
                if got is None or bool(got) != want or got not in (0, 1):
                    self.bad('decide', 'result:' + nm, 'the test returns %s when the variable is %d and the comparison is "%s %d"' % (got, x, nm, y), n)
                    return
            elif done != want:
                self.bad('decide', '%s:%s' % ('early' if done else 'late', nm), 'the wait %s when the variable is %d and the condition is "%s %d"'
                         % ('returns' if done else 'goes on', x, nm, y), n)
                return

    def medge(self, f, s, blk, nxt, atoms, env):
        t = f.blocks[blk][-1]
        bufs = [x[1] for x in s if x[0] == 'read']
        term, truth = None, None
        if t.op == 'br' and t.ops and len(set(f.succ[blk])) == 2:
            term, truth = terms.make(f, t.ops[0], env, self.leaf(bufs)), nxt == f.succ[blk][0]
            if term[0] == 'u':
                term = None
        elif t.op == 'switch':
            v = terms.make(f, t.ops[0], env, self.leaf(bufs))
            cases = [(c, b) for c, b in self.cases(t, f, blk)]
            here = [c for c, b in cases if b == nxt]
            if here and not self.default(t, f, blk) == nxt:
                term = None
                eqs = [('icmp', 'eq', v, ('c', c, v[-1]), 1) for c in here]
                term = eqs[0]
                for e in eqs[1:]:
                    term = ('bin', 'or', term, e, 1)
                truth = True
            if terms.has(v, 'leaf'):
                self.stale(f, s, blk, t)
            if not here or self.default(t, f, blk) == nxt:
                add = [('fact', ('icmp', 'eq', v, ('c', c, v[-1]), 1), False) for c, b in cases if b != nxt]
                if terms.has(v, 'arg') or terms.has(v, 'leaf'):
                    s = s | set(add)
                    if not self.bindings(s):
                        return DEAD
        if term is not None and (terms.has(term, 'leaf') or terms.has(term, 'arg') and not self.ptrarg(term)):
            s = s | {('fact', term, truth)}
            if not self.bindings(s):
                return DEAD
            if terms.has(term, 'leaf'):
                self.stale(f, s, blk, t)
        if (blk, nxt) in self.backs and any(t[0] == 'read' for t in s):
            s = s | {('back', nxt)}
        return s

    def stale(self, f, s, blk, t):
        self.R.ob('fresh', '%s %s' % (self.name, f.where(t)))
        if any(x[0] == 'back' and blk in self.loops[x[1]] for x in s):
            self.bad('fresh', 'loop', 'a further round of the loop decides on a value that was not read again', t)

    def ptrarg(self, t):
        return t[0] == 'arg' and t[1] == 0 or isinstance(t, tuple) and any(self.ptrarg(x) for x in t[1:] if isinstance(x, tuple))

    def cases(self, t, f, blk):
        return [(int(c), b) for c, b in t.x.get('cases', [])]

    def default(self, t, f, blk):
        return t.x['def']

    def mret(self, f, s, n, env):
        bufs = [x[1] for x in s if x[0] == 'read']
        ret = terms.make(f, n.ops[0], env, self.leaf(bufs)) if n.ops else None
        self.decide(f, s, n, True, ret)


def run(m, R):
    R.rule('read', 'the variable is inspected only by a one-element atomic read of the own copy with its datatype')
    R.rule('decide', 'a wait returns exactly when, and a test returns whether, the comparison named holds for the value read')
    R.rule('fresh', 'every further round of a wait reads the variable again')
    n = 0
    for name in m.names('^shmem_'):
        g = RX.match(name)
        if not g or g.group(1) == 'signal':
            continue
        d = m.decl[name]
        if g.group(2) == 'wait' and len(d[2]) != 3:
            continue
        n += 1
        R.guard(one, m, R, name, g.group(2))
    R.need('read', 30)
    R.need('decide', 60)
    R.need('fresh', 10)


def one(m, R, name, kind):
    f = m.fn(name)
    r = sim(R, f, Sync(m, R, f, name, kind))
    if not r.rets:
        R.ob('decide', name)
        R.bad('decide', '%s:return' % kind, '%s: no path returns' % name, f, f.blocks[0][0], None, [name])
