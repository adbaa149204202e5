"""The active-message protocol: packets, payloads, replies, tags and the packet listener fit together."""
from .. import q, amtab
from ..ir import const, AnalysisError
from ..core import sim
from ..paths import Rule, DEAD
from ..mem import Mem
from .c02 import amcomm

CONFIGS = ['base', 'mt']
THOROUGH = ['dyn', 'am', 'fast']
EXPLAIN = ('The callbacks registered for each packet type are simulated on all paths and summarised: which packet fields they read and which message they '
           'exchange with the origin. Every path of every entry point that sends a packet is then simulated with a copy '
           'propagation through the packet: every field its handler reads has been written, and the counterpart of the message its handler '
           'sends or receives is posted (same PE, same tag as in the packet, same communicator), and nothing else. The tags are bounded arithmetically '
           'and the listener is followed through receive, dispatch and repost on all paths.')
ASSUME = ['MPI messages between two PEs on one communicator with the same tag do not overtake', 'the initialisation check that the upper bound of tags exceeds the first payload tag holds']
SEND, RECV = ('MPI_Isend', 'MPI_Send', 'MPI_Issend', 'MPI_Ssend'), ('MPI_Irecv', 'MPI_Recv')
DATA = ('value', 'cond')


class Proto:
    """What the set-up code and the callbacks say about the protocol."""
    def __init__(self, m):
        self.m, self.T = m, amtab.tables(m)
        self.comm = amcomm(m)
        if self.comm is None:
            raise AnalysisError('no packet listener found')
        self.req = self.buf = None
        self.posts = []
        for f, ms in m.reps('^(shmem|start_pes)'):
            for n in f.calls('^MPI_Irecv$'):
                if const(q.arg(n, 'pe')) == -1 and q.arg(n, 'req').startswith('g:'):
                    self.req = q.akey(f, q.arg(n, 'req'))
                    self.buf = q.akey(f, q.arg(n, 'buf'))
                    break
            if self.req:
                break
        if self.req is None:
            raise AnalysisError('no packet listener found')
        self.handlers = {}
        self.stride = None
        for g, cells in self.T.cbs.items():
            ty = m.globals[g[2:]][1]
            T = m.types[ty]
            if T['k'] == 'arr':
                self.table, self.stride = g, m.size(T['of'])
                for off, fns in cells.items():
                    self.handlers.setdefault(off // self.stride, set()).update(fns)
        if not self.handlers:
            raise AnalysisError('no table of packet callbacks found')
        self.tag = None
        self.summary = {}

    def kind(self, t):
        return {v: x for x, v in self.T.pkt.items()}.get(t, str(t))


class Handler(Mem):
    """Messages exchanged by a callback, fields it reads."""
    def __init__(self, m, R, P, t):
        self.m, self.R, self.P, self.t = m, R, P, t
        self.outcomes, self.fields = {}, {}

    def mstart(self, f):
        return ()

    def event(self, f, s, n, env):
        if n.op == 'load':
            k = q.akey(f, n.ops[0], env)
            if k[0] == ('v', 'a1'):
                self.fields.setdefault(k[1], n)
        elif n.op == 'call' and n.fn in q.MEMCPY:
            k = q.akey(f, q.arg(n, 'src'), env)
            if k[0] == ('v', 'a1'):
                self.fields.setdefault(k[1], n)
        elif n.op == 'call' and (n.fn in SEND or n.fn in RECV):
            r = 'send' if n.fn in SEND else 'recv'
            K = lambda x: q.vkey(f, q.arg(n, x), env)
            return s + ((r, K('pe'), K('tag'), K('comm'), n.v),)
        return s

    def mret(self, f, s, n, env):
        self.outcomes.setdefault(tuple(x[:4] for x in s), (s, n))


def handlers(m, R, P):
    for t, fns in sorted(P.handlers.items()):
        kind = P.kind(t)
        for fn in sorted(fns):
            f = m.fn(fn)
            h = Handler(m, R, P, t)
            r = sim(R, f, h)
            R.ob('handler', '%s %s' % (kind, fn))
            if not r.rets:
                R.bad('handler', '%s:return' % kind, '%s never returns' % fn, f, f.blocks[0][0])
                continue
            if len(h.outcomes) != 1:
                R.bad('handler', '%s:paths' % kind, '%s exchanges different messages on different paths: %s' % (
                    fn, '; '.join(str([x[0] for x in o]) for o in h.outcomes)), f, list(h.outcomes.values())[0][1], h)
            out = max(h.outcomes, key=len)
            s, n = h.outcomes[out]
            if len(out) > 1:
                R.bad('handler', '%s:count' % kind, '%s exchanges %d messages' % (fn, len(out)), f, n, h)
            need = None
            if out:
                r, pe, tag, comm = out[0]
                i = f.insts[s[0][4]]
                if pe != ('v', 'a0'):
                    R.bad('handler', '%s:peer' % kind, '%s: the peer of the message is not the origin of the packet' % fn, f, i, h)
                if tag[0] != '*' or tag[1] != ('v', 'a1') or tag[3]:
                    R.bad('handler', '%s:tag' % kind, '%s: the tag of the message is not the one in the packet' % fn, f, i, h)
                    continue
                need = ('recv' if r == 'send' else 'send', tag[2], comm)
            P.summary.setdefault(t, []).append((need, h.fields, fn))


class Sender(Mem):
    def __init__(self, m, R, P, members):
        self.m, self.R, self.P, self.members = m, R, P, members
        self.seen = set()

    def mstart(self, f):
        return frozenset()

    def bad(self, rule, key, what, f, n):
        self.R.bad(rule, key, '%s: %s' % (f.name, what), f, n, self, self.members)

    def event(self, f, s, n, env):
        P, T = self.P, self.P.T
        if n.op == 'call' and n.fn == 'MPI_Test' and s and q.akey(f, q.arg(n, 'req'), env) == P.req:
            self.R.ob('posted', '%s %s' % (f.name, f.where(n)))
            for t in s:
                if t[0] == 'need':
                    self.bad('posted', '%s:%s' % (f.name, t[1]), 'packets of other PEs are handled before the %s for the packet just sent is posted: two PEs can block in each other\'s handlers' % (
                        'receive' if t[1] == 'recv' else 'send'), f, f.insts[t[5]])
        if n.op != 'call' or n.fn not in SEND and n.fn not in RECV:
            return s
        K = lambda x: q.vkey(f, q.arg(n, x), env)
        r = 'send' if n.fn in SEND else 'recv'
        comm, pe, tag = K('comm'), K('pe'), K('tag')
        typ = None
        if r == 'send' and comm == ('*',) + P.comm:
            b = q.akey(f, q.arg(n, 'buf'), env)
            typ = (env.mem or {}).get((b[0], b[1] + T.type_off)) if const(q.res(f, q.arg(n, 'count'), env)) == T.size else None
            if typ is None and (tag[0] == 'c'):
                self.bad('filled', '%s:type' % f.name, 'a packet is sent whose type is not known to be set', f, n)
                return s
        if typ is not None:
            return self.packet(f, s, n, env, typ, b, pe, tag)
        if const(q.res(f, q.arg(n, 'pe'), env)) == -1:
            return s
        if r == 'recv' and q.arg(n, 'req') is not None and q.akey(f, q.arg(n, 'req'), env) == P.req:
            return s
        # payload or reply; messages on other communicators are not part of the protocol
        if comm != ('*',) + P.comm and not any(nd and nd[2] == comm for x in P.summary.values() for nd, fl, fn in x):
            return s
        self.R.ob('match', '%s %s' % (f.name, f.where(n)))
        x = ('need', r, pe, tag, comm)
        for t in s:
            if t[:5] == x:
                return s - {t}
        return s | {('msg', r, pe, tag, comm, n.v)}

    def packet(self, f, s, n, env, typ, b, pe, tag):
        P, T = self.P, self.P.T
        where = '%s %s' % (f.name, f.where(n))
        if typ[0] != 'c':
            self.bad('filled', '%s:type' % f.name, 'the type of the packet sent is not a constant', f, n)
            return s
        kind = P.kind(typ[1])
        self.R.ob('listen', where)
        if tag[0] != 'c' or P.tag is not None and tag[1] != P.tag:
            self.bad('listen', '%s:tag' % kind, 'the packet is sent with a tag the listener does not receive', f, n)
        if not q.arg(n, 'type').startswith('g:ompi_mpi_byte'):
            self.bad('listen', '%s:size' % kind, 'the packet is not sent as bytes', f, n)
        if kind == 'terminate':
            return s
        self.R.ob('registered', where)
        if typ[1] not in P.handlers:
            self.bad('registered', kind, 'a packet of type %s (%s) is sent, for which no callback is registered' % (typ[1], kind), f, n)
            return s
        for need, fields, fn in P.summary.get(typ[1], ()):
            self.R.ob('filled', where)
            names = {o: x for x, (o, z) in T.fields.get(kind, {}).items()}
            for off in fields:
                x = names.get(off, str(off))
                if off != T.type_off and x not in DATA and not self.written(env.mem, b, off):
                    self.bad('filled', '%s:%s' % (kind, x), 'a %s packet is sent without its field %s, which %s reads' % (kind, x, fn), f, n)
            if need is None:
                continue
            r, toff, comm = need
            tg = (env.mem or {}).get((b[0], b[1] + toff))
            if tg is None:
                self.bad('filled', '%s:ptag' % kind, 'a %s packet is sent without the tag of its message' % kind, f, n)
                continue
            self.tagrule(f, n, env, kind, tg)
            self.R.ob('match', where)
            y = ('msg', r, pe, tg, comm)
            for t in s:
                if t[:5] == y:
                    return s - {t}
            return s | {('need', r, pe, tg, comm, n.v)}
        return s

    def written(self, mem, b, off):
        return any(isinstance(c, tuple) and c[0] == b[0] and c[1] == b[1] + off for c in (mem or {}))

    def tagrule(self, f, n, env, kind, tg):
        P = self.P
        if (n.v, tg) in self.seen:
            return
        self.seen.add((n.v, tg))
        self.R.ob('tag', '%s %s' % (f.name, f.where(n)))
        lo, hi = self.bounds(f, tg)
        fixed = max([x for x in (P.tag, self.m.enums.get('x')) if x is not None] + [0])
        if lo is None or lo <= fixed:
            self.bad('tag', '%s:low' % kind, 'the tag of the message of a %s packet may collide with the tag of packets' % kind, f, n)
        if hi is None or not self.guarded(hi):
            self.bad('tag', '%s:high' % kind, 'the tag of the message of a %s packet may exceed the upper bound of tags' % kind, f, n)
        if self.m.cfg == 'mt':
            self.R.ob('fresh', '%s %s' % (f.name, f.where(n)))
            calls = [v for v in values(tg) if v[0] == '%' and f.insts[v].op == 'call' and (f.insts[v].fn or '').startswith('OPA_fetch_and_')]
            if not calls:
                self.bad('fresh', kind, 'the tag of the message of a %s packet is not drawn atomically from a counter' % kind, f, n)

    def guarded(self, hi):
        """Upper bound (exclusive): ('ub', k) is k above the attribute's value, an int is absolute."""
        return hi[1] <= 1 if hi[0] == 'ub' else hi[1] <= 32768

    def bounds(self, f, k):
        """(lowest value, exclusive upper bound) of a key; upper bound ('ub', d) or ('c', n)."""
        if k[0] == 'c':
            return k[1], ('c', k[1] + 1)
        if k[0] == 'urem':
            m = k[2]
            if m[0] == 'c':
                return 0, ('c', m[1])
            d, base = 0, m
            if m[0] == 'sub' and m[2][0] == 'c':
                d, base = -m[2][1], m[1]
            elif m[0] == 'add' and ('c' in (m[1][0], m[2][0])):
                c, base = (m[1], m[2]) if m[1][0] == 'c' else (m[2], m[1])
                d = c[1]
            if base[0] == '*' and base[1][0] == 'v' and base[1][1].startswith('g:') and self.isub(base[1:]):
                return 0, ('ub', d)
            return 0, None
        if k[0] == 'and':
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if x[0] == 'c' and x[1] >= 0:
                    return 0, ('c', x[1] + 1)
        if k[0] == 'add':
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if x[0] == 'c':
                    lo, hi = self.bounds(f, y)
                    return (None if lo is None else lo + x[1]), (None if hi is None else (hi[0], hi[1] + x[1]))
        return None, None

    def isub(self, k):
        """Is the location the one the TAG_UB attribute is kept in?"""
        P = self.P
        if not hasattr(P, 'ub'):
            P.ub = set()
            f = self.m.fn('shmem_init')
            for n in f.all():
                if n.op == 'store':
                    d = f.insts.get(f.strip(n.ops[0]))
                    if d is None or d.op != 'load':
                        continue
                    e = f.insts.get(f.strip(d.ops[0]))
                    if e is None or e.op != 'load':
                        continue
                    r = f.addr(e.ops[0])[0]
                    for u in f.uses.get(r, []):
                        if u.op == 'call' and u.fn == 'MPI_Comm_get_attr' and q.arg(u, 'val') == r:
                            P.ub.add(q.akey(f, n.ops[1]))
        return (k[0], k[1], k[2]) in P.ub

    def medge(self, f, s, blk, nxt, atoms, env):
        if s and nxt in f.loops():
            ph = [n.v for n in f.blocks[nxt] if n.op == 'phi']
            for t in s:
                if any(q.mentions(t, v) for v in ph):
                    if blk in f.loops()[nxt]:
                        self.unmatched(f, t)
            s = frozenset(t for t in s if not any(q.mentions(t, v) for v in ph))
        return s

    def unmatched(self, f, t):
        i = f.insts[t[5]]
        if t[0] == 'need':
            self.bad('match', '%s:%s' % (f.where(i).split()[0] if False else f.name, t[1]),
                     'the packet makes its handler %s a message for which no matching %s is posted (PE, tag and communicator of the packet)' % (
                         'send' if t[1] == 'recv' else 'receive', 'receive' if t[1] == 'recv' else 'send'), f, i)
        else:
            self.bad('match', '%s:%s' % (f.name, t[1]), 'a %s is posted that no packet handler matches (PE, tag or communicator)' % (
                'receive' if t[1] == 'recv' else 'send'), f, i)

    def mret(self, f, s, n, env):
        for t in s:
            self.unmatched(f, t)


def values(k):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == 'v':
            yield k[1]
        else:
            for x in k:
                yield from values(x)


class Listen(Rule):
    """idle -> (test) tested -> (flag) full -> (dispatch) handled -> (repost) idle."""
    def __init__(self, m, R, P, members):
        self.m, self.R, self.P, self.members = m, R, P, members

    def start(self, f):
        return ('idle', None)

    def bad(self, key, what, f, n):
        self.R.bad('dispatch', key, '%s: %s' % (f.name, what), f, n, self, self.members)

    def isreq(self, f, n, env, role='req'):
        v = q.arg(n, role)
        return v is not None and v[0] in 'g%' and q.akey(f, v, env) == self.P.req

    def inst(self, f, s, n, env):
        if n.op != 'call':
            return s
        P = self.P
        if n.fn is None:
            if s[0] == 'idle':
                return s
            v = f.insts.get(f.strip(n.x['fn']))
            k = q.akey(f, v.ops[0], env) if v is not None and v.op == 'load' else None
            if k is None or k[0] != ('v', P.table):
                return s
            self.R.ob('dispatch', '%s %s' % (f.name, f.where(n)))
            if s[0] != 'full':
                self.bad('twice', 'the callback is called %s' % ('twice for one packet' if s[0] == 'handled' else 'before a packet has been received'), f, n)
            tk = ('*', P.buf[0], P.buf[1] + P.T.type_off, P.buf[2])
            if [(x, y) for x, y in k[2]] != [(tk, P.stride)] or k[1] % P.stride:
                self.bad('index', 'the callback is not selected by the type of the received packet', f, n)
            if len(n.ops) < 2 or q.vkey(f, n.ops[0], env) != ('*', ('a', s[1]), 0, ()):
                self.bad('origin', 'the callback does not get the source of the received packet', f, n)
            if len(n.ops) < 2 or q.akey(f, n.ops[1], env) != P.buf:
                self.bad('packet', 'the callback does not get the received packet', f, n)
            return ('handled', s[1])
        if n.fn in ('MPI_Test', 'MPI_Wait') and self.isreq(f, n, env):
            self.R.ob('dispatch', '%s %s' % (f.name, f.where(n)))
            self.left(f, s, n, 'before the listener is polled again')
            if n.fn == 'MPI_Wait':
                return s                     # end of the library
            st = f.addr(q.arg(n, 'status'))[0]
            return ('tested', st, f.addr(q.arg(n, 'flag'))[0])
        if n.fn == 'MPI_Irecv' and self.isreq(f, n, env):
            self.R.ob('dispatch', '%s %s' % (f.name, f.where(n)))
            if s[0] == 'full':
                self.bad('lost', 'the packet buffer is posted again before the packet in it has been handled', f, n)
            elif s[0] == 'tested':
                self.bad('lost', 'the listener is posted again although the previous receive may not have completed', f, n)
            return ('idle', None)
        return s

    def left(self, f, s, n, when):
        if s[0] == 'full':
            self.bad('lost', 'a received packet is not handled %s' % when, f, n)
        elif s[0] == 'handled':
            self.bad('repost', 'the listener is not posted again %s' % when, f, n)

    def edge(self, f, s, blk, nxt, atoms, env):
        if s[0] == 'tested':
            for p, a, b in atoms:
                ad = q.loadaddr(f, a)
                if ad is not None and const(b) == 0 and f.addr(ad)[0] == s[2] and p in ('eq', 'ne', 'sgt', 'sle', 'ugt'):
                    return ('full', s[1]) if p in ('ne', 'sgt', 'ugt') else ('idle', None)
        elif s[0] == 'full':
            for p, a, b in atoms:
                n = f.insts.get(a)
                if n is not None and n.op == 'load' and p == 'eq' and q.akey(f, n.ops[0], env) == (self.P.buf[0], self.P.buf[1] + self.P.T.type_off, self.P.buf[2]):
                    if const(b) == self.P.T.pkt.get('terminate'):
                        return ('term', s[1])
        return s

    def ret(self, f, s, n, env):
        self.left(f, s, n, 'before return')


def run(m, R):
    R.rule('handler', 'A packet callback exchanges at most one message, the same on every path, with the origin of the packet and the tag in the packet')
    R.rule('registered', 'A callback is registered for every type of packet that is sent')
    R.rule('filled', 'Every packet field its handler reads has been written when the packet is sent')
    R.rule('match', 'The message a handler sends or receives has exactly one counterpart at the origin: same PE, tag and communicator')
    R.rule('posted', 'The counterpart is posted before the origin handles packets of other PEs')
    R.rule('tag', 'Tags of payloads and replies stay below the upper bound of MPI tags and apart from the tag of packets')
    R.rule('fresh', 'In multithreaded use the tag of an exchange is drawn atomically from a counter')
    R.rule('listen', 'Packets are sent with the size, datatype and tag the listener receives')
    R.rule('dispatch', 'Every received packet is given once to the callback of its type with its source, and the listener is posted again')
    P = Proto(m)
    handlers(m, R, P)
    R.guard(posts, m, R, P)
    for f, ms in m.reps('^(shmem|start_pes)'):
        R.guard(one, m, R, P, f, ms)
    for name in m.names():
        if name in m.addrtaken and not name.startswith('shmem') and any(True for n in m.fn(name).calls('^MPI_(Test|Irecv)$')):
            f = m.fn(name)
            sim(R, f, Listen(m, R, P, [name]))
    R.need('filled', 50)
    R.need('match', 50)
    R.need('dispatch', 20)


def posts(m, R, P):
    """All receives posted on the listener's request agree."""
    tags = set()
    fs = list(m.reps('^(shmem|start_pes)')) + [(m.fn(x), [x]) for x in m.names() if x in m.addrtaken and not x.startswith('shmem')]
    for f, ms in fs:
        for n in f.calls('^MPI_Irecv$'):
            r = q.arg(n, 'req')
            if r[0] not in 'g%' or q.akey(f, r) != P.req:
                continue
            R.ob('listen', '%s %s' % (f.name, f.where(n)))
            K = lambda x: q.vkey(f, q.arg(n, x))
            if q.akey(f, q.arg(n, 'buf')) != P.buf:
                R.bad('listen', 'post:buf', '%s: the listener receives into another buffer than the dispatcher reads' % f.name, f, n, None, ms)
            if K('count') != ('c', P.T.size) or not q.arg(n, 'type').startswith('g:ompi_mpi_byte'):
                R.bad('listen', 'post:size', '%s: the listener does not receive a whole packet' % f.name, f, n, None, ms)
            if K('pe') != ('c', -1):
                R.bad('listen', 'post:source', '%s: the listener does not receive from every PE' % f.name, f, n, None, ms)
            if K('comm') != ('*',) + P.comm:
                R.bad('listen', 'post:comm', '%s: the listener receives on another communicator than packets are sent on' % f.name, f, n, None, ms)
            t = K('tag')
            if t == ('c', -1):
                pass
            elif t[0] != 'c':
                R.bad('listen', 'post:tag', '%s: the tag of the listener is not fixed' % f.name, f, n, None, ms)
            else:
                tags.add(t[1])
    if len(tags) > 1:
        R.bad('listen', 'post:tags', 'the listener is posted with different tags: %s' % sorted(tags))
    P.tag = min(tags) if tags else None


def one(m, R, P, f, ms):
    send = test = False
    for n in f.all():
        if n.op == 'call' and n.fn in SEND:
            send = True
        if n.op == 'call' and n.fn in ('MPI_Test', 'MPI_Wait') and q.arg(n, 'req').startswith('g:'):
            test = True
    if send:
        sim(R, f, Sender(m, R, P, ms))
    if test:
        sim(R, f, Listen(m, R, P, ms))
