"""Completion: quiet, fence and everything that implies quiet complete every outstanding operation they cover."""
import re
from .. import q
from ..core import sim
from ..complete import Complete

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'direct', 'fast']
EXPLAIN = ('Path-sensitive simulation of every entry point that promises completion: on every path to the promised point, '
           'every window of the library (the two global windows, and for each element of the list of memory spaces its default '
           'window and the window of each of its contexts) is flushed or known idle by its tracking flag, and every PE with an '
           'outstanding active message was sent a flush and acknowledged it. Loops over spaces, contexts and PEs must cover '
           'the whole collection. A tracking flag is reset only after the completion it stands for.')
ASSUME = ['MPI_Win_flush_all completes every operation on the window at origin and target',
          'an acknowledged FLUSH packet completes earlier packets to the same PE (FIFO matching, rule set C06)',
          'window handles are not replaced while an operation runs']

BARRIERS = ('MPI_Barrier', 'MPI_Ibarrier')
# entry point -> where completion must hold
AT_RET = r'^shmem_(quiet|fence)$'
AT_RET_CTX = r'^shmem_ctx_(quiet|fence)$'
AT_BARRIER = (r'^shmem_(barrier|barrier_all|malloc|calloc|align|realloc|free|finalize)$|^shmemx_space_(malloc|calloc|align|free)$')
NAMES = {'completion': 'On every path every covered window is flushed or idle and every active message is acknowledged',
         'reset': 'A tracking flag is cleared only after the operations it stands for are complete',
         'scope': 'A context operation acts on the given context, the default one on everything'}


def run(m, R):
    for k, d in NAMES.items():
        R.rule(k, d)
    jobs = []
    for name in sorted(m.cls):
        if re.match(AT_RET, name):
            jobs.append((name, 'ret'))
        elif re.match(AT_RET_CTX, name):
            jobs.append((name, 'ctx'))
        elif re.match(AT_BARRIER, name):
            jobs.append((name, 'barrier'))
        elif name == 'shmem_clear_lock':
            jobs.append((name, 'lock'))
        elif name == 'shmem_ctx_destroy':
            jobs.append((name, 'own'))
    for name, kind in jobs:
        R.guard(one, m, R, name, kind)
    R.need('completion', 8)


def one(m, R, name, kind):
    f = m.fn(name)
    state = {'bar': 0}

    def bad(rule, s, n, what, msg):
        R.bad(rule, '%s:%s' % (name, what), msg, f, n, r)

    def demand(s, n, scope, at):
        miss = r.missing(s, scope)
        R.ob('completion', '%s at %s' % (name, f.where(n)))
        for w in miss:
            bad('completion', s, n, w.split(' (')[0], '%s: %s not complete %s' % (name, w, at))

    def check(rule, f, s, n, env):
        if n.op != 'call':
            return s
        if kind == 'barrier' and n.fn in BARRIERS:
            state['bar'] += 1
            demand(s, n, 'all', 'before the barrier')
            return []
        if kind == 'lock' and (n.fn in q.RMA_OPS + ('MPI_Send', 'MPI_Isend')) and not r.in_flush(n):
            demand(s, n, 'all', 'before the lock is released')
            return []
        return s

    r = Complete(m, R, 'completion', check)
    flushes = set()
    r.in_flush = lambda n: any(n in v for v in r.send.values()) and f.innermost(n.blk) in r.scan
    r.early = lambda f_, n, what: bad('reset', None, n, what, '%s: %s is cleared before the operations are complete' % (name, what))

    def ret(f_, s, n, env):
        if kind == 'ret':
            demand(s, n, 'all', 'at return')
        elif kind == 'own':
            # an invalid handle has nothing to complete
            if ('CTXNULL',) in s or ('CTX', 'default') in s:
                return
            demand(s, n, (('v', 'a0'), r.M.win_off, ()), 'when the context is destroyed')
        elif kind == 'ctx':
            c = [t[1] for t in s if t[0] == 'CTX']
            R.ob('scope', name)
            if 'own' in c or not c:
                demand(s, n, (('v', 'a0'), r.M.win_off, ()), 'at return')
            if 'default' in c or not c:
                demand(s, n, 'all', 'at return')
    r.ret = ret

    res = sim(R, f, r)
    for n, ok, w in r.resets:
        R.ob('reset', '%s %s' % (name, f.where(n)))
    if kind == 'barrier' and not state['bar']:
        R.bad('completion', '%s:barrier' % name, '%s: no barrier is reached' % name, f, f.blocks[-1][-1])

