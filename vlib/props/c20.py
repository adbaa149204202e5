"""One path for all atomics: whether atomics go directly to MPI or as active messages is one decision for the whole run, the same in every routine,
and direct only when the operations declared allow MPI to perform them atomically with each other."""
import itertools
import re
from .. import q, terms, build, finite
from ..ir import const
from ..core import sim
from ..finite import Finite, FSpace, Binding
from ..paths import DEAD
from . import c18
from .c02 import amcomm
from .c04 import RX, AMO

CONFIGS = ['base', 'drma']
THOROUGH = ['mt', 'dyn', 'am', 'direct', 'fast']
EXPLAIN = ('Every atomic routine and every routine that sends packets is simulated on all paths with the settings that choose the path of atomics as inputs; '
           'the path taken is collected for every combination of them and must be the same function of them in every routine: one debug mode sends all atomics as messages, one none, the '
           'automatic one follows the decision made when the windows were made. That decision and the info values given to MPI are compared with the operations declared, for '
           'sets of declared operations on every path of the routines that set them. The engine that handles messages is started under every combination under which a routine sends any, '
           'and nothing changes the settings after the initialisation.')
ASSUME = ['MPI performs accumulate-class operations of one kind (or one kind and MPI_NO_OP) atomically under same_op (same_op_no_op)',
          'atomics on one location are only compared among themselves; puts, gets and local accesses are ordered by the program']
CLASS = {'cswap': 'cswap', 'finc': 'sum', 'inc': 'sum', 'fadd': 'sum', 'add': 'sum', 'fetch': 'no_op', 'set': 'replace', 'swap': 'replace',
         'fand': 'band', 'and': 'band', 'for': 'bor', 'or': 'bor', 'fxor': 'bxor', 'xor': 'bxor'}


def cells(m):
    out = {}
    for name, get in (('amo_dbg_mode', c18.env_field), ('amo_direct', c18.glob)):
        try:
            out[name] = get(m, name)
        except Exception:
            pass
    return out


def inputs(C):
    dom = []
    for name, k in C.items():
        dom.append([(('leaf', ('cell', k)), v) for v in ((0, 1, 2) if name == 'amo_dbg_mode' else (0, 1))])
    return [Binding(dict(c)) for c in itertools.product(*dom)]


def show(C, b):
    return ', '.join('%s=%s' % (n, b.get(('leaf', ('cell', k)))) for n, k in C.items()) or 'every setting'


class Settings(Finite):
    """The settings that choose the path as inputs."""

    def __init__(self, m, C):
        self.m, self.C = m, C
        ks = set(C.values())
        Finite.__init__(self, FSpace(inputs(C), lambda x: x[0] == 'leaf' and x[1][0] == 'cell' and x[1][1] in ks), ks)

        self.num = {id(b): i for i, b in enumerate(self.space.of(()))}

    def seeds(self, f):
        return [], [n.blk for n in f.all() if self.want(f, n)]

    def want(self, f, n):
        return False

    def start(self, f):
        s = Finite.start(self, f)
        # of the values that decide, those that depend on the settings
        self.slice &= dependent(f, [n for n in f.all() if n.op == 'load' and q.akey(f, n.ops[0])[:2] in self.cells])
        self.phis = {v for v in self.slice if f.insts[v].op == 'phi'}
        self.locals = {q.akey(f, f.insts[v].ops[0])[0] for v in self.slice if f.insts[v].op == 'load'}
        return s

    def symbolic(self, f, h):
        return True

    def of(self, s):
        L = Finite.of(self, s)
        for t in s:
            if t[0] == 'in':
                L = [b for b in L if self.num[id(b)] in t[1]]
        return L

    def onedge(self, f, s, blk, nxt, env):
        if any(t[0] == 'fact' for t in s):
            x = frozenset(self.num[id(b)] for b in self.of(s))
            s = frozenset(t for t in s if t[0] not in ('fact', 'in'))
            if len(x) < len(self.num):
                s = s | {('in', x)}
        return s


def dependent(f, seeds):
    """Values computed from the seeds, or selected by a branch on such values."""
    seen, st = set(), [n.v for n in seeds]
    objs = set()
    ctl = {}
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        for u in f.uses.get(v, []):
            if u.op == 'store':
                k = q.akey(f, u.ops[1])[0]
                if u.ops[0] == v and k[0] == 'a' and k not in objs:
                    objs.add(k)
                    st += [x.v for x in f.all() if x.op == 'load' and q.akey(f, x.ops[0])[0] == k]
            elif u.op in ('br', 'switch'):
                for n in f.all():
                    if n.op != 'phi':
                        continue
                    for fr in n.x['from']:
                        if fr not in ctl:
                            ctl[fr] = set(finite.controls(f, fr)) | {fr}
                    if any(u.blk in ctl[fr] for fr in n.x['from']):
                        st.append(n.v)
            elif u.op not in ('call', 'ret'):
                st.append(u.v)
    return seen


def key(b):
    return tuple(sorted(b.items(), key=repr))


class Path(Settings):
    """Which path each operation takes."""

    def __init__(self, m, R, C, name, comm):
        Settings.__init__(self, m, C)
        self.R, self.name, self.comm = R, name, comm
        self.took = {}

    def kind(self, f, n, env=None):
        if n.op != 'call' or not n.fn:
            return None
        if n.fn in AMO:
            return 'direct'
        if n.fn in ('MPI_Isend', 'MPI_Send') and self.comm:
            a = q.loadaddr(f, q.arg(n, 'comm'))
            if a is not None and q.akey(f, a, env) == self.comm:
                return 'am'
        return None

    def want(self, f, n):
        return self.kind(f, n) is not None

    def event(self, f, s, n, env):
        k = self.kind(f, n, env)
        if k:
            self.R.ob('path', '%s %s' % (self.name, f.where(n)))
            for b in self.of(s):
                self.took.setdefault(key(b), {}).setdefault(k, n)
        return s


def meaning(m, C, b):
    """The path the settings stand for."""
    v = {n: b.get(('leaf', ('cell', k))) for n, k in C.items()}
    mode = v.get('amo_dbg_mode')
    if mode is not None and mode == m.enums.get('OSHMPI_DBG_AM'):
        return 'am'
    if mode is not None and mode == m.enums.get('OSHMPI_DBG_DIRECT'):
        return 'direct'
    return 'direct' if v['amo_direct'] else 'am'


def paths(m, R, C, D):
    comm = amcomm(m) if q.has_am(m) else None
    amo = []
    sends = []
    for f, members in m.reps('^shmem', INIT):
        g = RX.match(f.name) and 'signal' not in f.name
        p = Path(m, R, C, f.name, comm)
        if not any(p.want(f, n) for n in f.all()):
            if g:
                R.bad('path', '%s:none' % f.name, '%s issues no operation' % f.name, f, f.blocks[0][0], None, members)
            continue
        sim(R, f, p, 200000)
        if g:
            amo.append((f, p, members))
        sends.append((f, p, members))
    one = 'direct' if 'OSHMPI_ENABLE_DIRECT_AMO' in D else 'am' if 'OSHMPI_ENABLE_AM_AMO' in D else None
    W = {'am': 'as a message', 'direct': 'directly'}
    for f, p, members in amo:
        for b in inputs(C):
            t = p.took.get(key(b), {})
            R.ob('path', '%s %s' % (f.name, show(C, b)))
            want = one or meaning(m, C, b)
            n = f.blocks[0][0]
            if want not in t:
                R.bad('path', '%s:%s' % (f.name, want), '%s issues nothing %s when %s' % (f.name, W[want], show(C, b)), f, n, p, members)
            for k, n in t.items():
                if k != want:
                    R.bad('path', '%s:%s' % (f.name, k), '%s goes %s when %s, where other atomics go %s' % (f.name, W[k], show(C, b), W[want]), f, n, p, members)
    return sends


class Decl(Finite):
    """The decision and the info values as functions of the operations declared."""

    def __init__(self, m, R, C, opskey, f, members):
        self.m, self.R, self.ops, self.members = m, R, opskey, members
        self.direct = C['amo_direct']
        self.bit = {w: 1 << m.enums['OSHMPI_AMO_' + w.upper()] for w in CLASS}
        sp = []
        W = sorted(CLASS)
        for r in (0, 1, 2, 3):
            for c in itertools.combinations(W, r):
                sp.append(c)
        sp.append(tuple(W))
        self.space_ = sp
        sp = [Binding({('leaf', ('ops',)): sum(self.bit[w] for w in c), ('cls',): frozenset(CLASS[w] for w in c), ('words',): c}) for c in sp]
        Finite.__init__(self, FSpace(sp, lambda x: x == ('leaf', ('ops',))), {self.direct})
        self.dec = {}
        self.seen = 0

    def seeds(self, f):
        return [], [n.blk for n in f.all() if self.info(n)]

    def info(self, n):
        return n.op == 'call' and n.fn == 'MPI_Info_set'

    def leafcall(self, f, s, n, env):
        if n.op == 'load':
            k = q.akey(f, n.ops[0], env)
            if (k[0], k[1]) == self.ops and not k[2]:
                return ('ops',)
        return None

    def event(self, f, s, n, env):
        if n.op == 'call' and n.fn == 'MPI_Info_create':
            # a new window: decided afresh
            s = self.close(f, s, n)
            return frozenset(t for t in s if t[0] not in ('fact', 'acc', 'open') and t[:2] != ('cell', self.direct)) | {('open',)}
        if n.op == 'call' and n.fn == 'MPI_Info_set':
            e = self.wrap(env, s)
            k, v = (e.resolve(x) for x in n.ops[1:3])
            if k == 's:accumulate_ops':
                d = f.insts.get(v)
                if d is not None and d.op == 'select':
                    # either text, with what its choice says
                    c = self.make(f, s, d.ops[0], env)
                    out = []
                    for o, truth in ((d.ops[1], True), (d.ops[2], False)):
                        x = e.resolve(o)
                        y = frozenset(t for t in s if t[0] != 'acc') | {('acc', x[2:] if x.startswith('s:') else '?', n.v)}
                        if self.space.relevant(c):
                            y = y | {('fact', c, truth)}
                        if self.of(y):
                            out.append(y)
                    return out
                s = frozenset(t for t in s if t[0] != 'acc') | {('acc', v[2:] if v.startswith('s:') else '?', n.v)}
        if n.op == 'call' and n.fn in WIN:
            s = self.close(f, s, n)
        return s

    def close(self, f, s, n):
        if ('open',) not in s:
            return s
        t = self.cellterm(s, self.direct)
        acc = next((x for x in s if x[0] == 'acc'), None)
        d = terms.ev(t, {}) if t is not None else None
        if t is None and acc is None:
            return s
        at = f.insts.get(acc[2], n) if acc else n
        for b in self.of(s):
            cls, words = dict.get(b, ('cls',)), ','.join(dict.get(b, ('words',)))
            self.R.ob('declared', '%s %s' % (f.name, f.where(n)))
            v = acc[1] if acc else 'same_op_no_op'
            self.dec.setdefault(words, set()).add(d if t is not None else 0)
            if acc and v == 'same_op' and len(cls) > 1:
                self.bad(f, at, 'info', 'MPI is told that one operation is used where %s are declared' % words)
                break
            if acc and v not in ('same_op', 'same_op_no_op'):
                self.bad(f, at, 'info', 'the value %r is not one MPI knows' % v)
                break
            if t is not None and d != 0 and len(cls - {'no_op'}) > 1:
                self.bad(f, at, 'direct', 'atomics go directly to MPI although the operations declared (%s) are not atomic with each other there' % words)
                break
        return frozenset(x for x in s if x[0] not in ('fact', 'acc', 'open') and x[:2] != ('cell', self.direct))

    def bad(self, f, n, key, what):
        self.R.bad('declared', key, '%s: %s' % (f.name, what), f, n, self, self.members)

    def final(self, f, s, n, env):
        self.close(f, s, n)


WIN = ('MPI_Win_create', 'MPI_Win_allocate', 'MPI_Win_create_dynamic', 'MPI_Win_allocate_shared')
INIT = r'^(shmem_init(_thread)?|start_pes|shmem_finalize)$'


def stores(f, k):
    return [n for n in f.all() if n.op == 'store' and q.akey(f, n.ops[1])[:2] == k]


def declared(m, R, C):
    ops = c18.env_field(m, 'amo_ops')
    first = None
    fs = list(m.reps('^(shmem|start_pes)'))
    fs.sort(key=lambda x: not re.match(INIT, x[0].name))
    for f, members in fs:
        own = [n for n in f.all() if n.op == 'call' and n.fn == 'MPI_Info_set']
        if not own and not stores(f, C['amo_direct']):
            continue
        r = Decl(m, R, C, ops, f, members)
        sim(R, f, r, 400000)
        if not r.dec:
            if stores(f, C['amo_direct']):
                R.bad('declared', '%s:store' % f.name, '%s changes the decision without making a window' % f.name, f, stores(f, C['amo_direct'])[0], r, members)
            continue
        if first is None:
            first = (f, r)
        elif stores(f, C['amo_direct']):
            for w, v in r.dec.items():
                R.ob('fixed', '%s %s' % (f.name, w))
                if v != first[1].dec.get(w):
                    R.bad('fixed', '%s:decision' % f.name, '%s may change the path of atomics after the initialisation (operations declared: %s)' % (f.name, w or 'none'),
                          f, stores(f, C['amo_direct'])[0], r, members)
                    break
        mode = C.get('amo_dbg_mode')
        if mode and not re.match(INIT, f.name):
            for n in stores(f, mode):
                R.bad('fixed', '%s:mode' % f.name, '%s changes the mode of atomics after the initialisation' % f.name, f, n, None, members)
    # a store in a routine that makes no window
    for f, members in fs:
        R.ob('fixed', f.name)
        for n in stores(f, C['amo_dbg_mode']) if 'amo_dbg_mode' in C and not re.match(INIT, f.name) else []:
            R.bad('fixed', '%s:mode' % f.name, '%s changes the mode of atomics after the initialisation' % f.name, f, n, None, members)


class Engine(Settings):
    """Settings at the end of the initialisation with which no packet is listened for."""

    def __init__(self, m, R, C, comm):
        Settings.__init__(self, m, C)
        self.R, self.comm = R, comm
        self.off = {}

    def want(self, f, n):
        return n.op == 'call' and n.fn in ('MPI_Irecv', 'MPI_Recv_init', 'MPI_Start')

    def event(self, f, s, n, env):
        if n.op == 'call' and n.fn in ('MPI_Irecv', 'MPI_Recv_init') and const(env.resolve(q.arg(n, 'pe'))) == -1:
            a = q.loadaddr(f, q.arg(n, 'comm'))
            if a is not None and q.akey(f, a, env) == self.comm:
                return s | {('up',)}
        if n.op == 'call' and n.fn in WIN:
            return s | {('init',)}
        return s

    def final(self, f, s, n, env):
        if ('init',) not in s:
            return
        self.R.ob('engine', f.where(n))
        if ('up',) in s:
            return
        for b in self.of(s):
            v = {}
            for name, k in self.C.items():
                t = self.cellterm(s, k)
                v[('leaf', ('cell', k))] = terms.ev(t, b) if t is not None else b.get(('leaf', ('cell', k)))
            self.off.setdefault(key(v), n)


def engine(m, R, C, sends):
    f = m.fn('shmem_init_thread')
    e = Engine(m, R, C, amcomm(m))
    sim(R, f, e, 400000)
    for g, p, members in sends:
        for b in inputs(C):
            n = p.took.get(key(b), {}).get('am')
            if n is None:
                continue
            R.ob('engine', '%s %s' % (g.name, show(C, b)))
            if key(b) in e.off or any(v is None for _, v in e.off):
                R.bad('engine', g.name, '%s sends packets when %s, where the initialisation leaves nobody listening' % (g.name, show(C, b)), g, n, p, members)


def run(m, R):
    D = build.CONFIGS[R.cfg]
    C = cells(m)
    R.rule('path', 'an atomic operation is issued directly or as a message as the settings say, in every routine alike')
    R.rule('declared', 'atomics are direct, and MPI is told same_op, only when the operations declared are one operation (and reads)')
    R.rule('fixed', 'no routine changes the path of atomics after the initialisation')
    R.rule('engine', 'a routine sends packets only with settings with which the initialisation starts the listener')
    sends = R.guard(paths, m, R, C, D)
    R.guard(declared, m, R, C)
    if q.has_am(m) and sends:
        R.guard(engine, m, R, C, sends)
    R.need('path', 50)
    R.need('declared', 20)
