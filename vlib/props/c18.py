"""Configuration: every documented environment variable has the documented default and effect, and the thread level is negotiated correctly."""
import math
from .. import q, terms, finite, build
from ..ir import const, AnalysisError
from ..core import sim
from ..finite import Finite, FSpace, Binding
from ..paths import DEAD

CONFIGS = ['base']
THOROUGH = ['mt', 'mtam', 'dyn', 'am', 'direct', 'fast']
EXPLAIN = ('The initialisation routine is simulated on all paths once per environment variable with the value of the variable abstracted to a finite set of inputs '
           '(unset, empty, every documented word, lists of them, numbers); the final content of the field the variable controls is compared with the documented '
           'default and meaning for every input that can take the path. Size suffixes are decided on the floating-point expression of each path. The negotiated '
           'thread level is compared with the minimum of the request, the configured maximum and what MPI provides for all their combinations.')
ASSUME = ['words of a list are separated by strtok; each word is compared on its own', 'getenv, atoi, strtod, strncmp and ceil behave as in the C standard']
WORDS = ['cswap', 'finc', 'inc', 'fadd', 'add', 'fetch', 'set', 'swap', 'fand', 'and', 'for', 'or', 'fxor', 'xor']
GPU = ['pt2pt', 'put', 'get', 'acc']
LEVELS = {'THREAD_SINGLE': 0, 'THREAD_FUNNELED': 1, 'THREAD_SERIALIZED': 2, 'THREAD_MULTIPLE': 3}


def env_field(m, name):
    k = q.model(m).gfield('OSHMPI_env', name)
    return (k[0], k[1])


def glob(m, name):
    k = q.model(m).gfield('OSHMPI_global', name)
    return (k[0], k[1])


def getenv(f, v, env):
    """Name of the environment variable a pointer is the value of."""
    v = env.resolve(v)
    n = f.insts.get(v)
    if n is not None and n.op == 'call' and n.fn in ('getenv', 'secure_getenv'):
        return finite.lit(env.resolve(n.ops[0]))
    return None


class Var(Finite):
    """One environment variable. Inputs: set (0: unset, 1: empty, 2: non-empty), num (what atoi yields), str (the text)."""
    TOK = 'tok'

    def __init__(self, m, R, f, var, field, space, spec, more=()):
        self.m, self.R, self.f, self.var, self.field, self.spec = m, R, f, var, field, spec
        Finite.__init__(self, FSpace(space, self.known), {field})
        self.seen = False
        self.bodies = f.loops()

    def known(self, x):
        return x[0] == 'leaf' and (x[1] in (('set',), ('num',)) or x[1][0] in ('cmp', 'chr', 'len'))

    def bad(self, rule, key, what, n):
        self.R.bad(rule, '%s:%s' % (self.var, key), '%s: %s' % (self.var, what), self.f, n, self)

    def whose(self, f, v, env):
        """'val' for the text of the variable, 'tok' for a word of it."""
        v = env.resolve(v)
        if getenv(f, v, env) == self.var:
            return 'val'
        n = f.insts.get(v)
        if n is not None and (n.op == 'call' and n.fn in ('strtok_r', 'strtok', 'strsep')):
            return 'tok' if self.tokens(f, n, env) else None
        if n is not None and n.op == 'phi':
            src = [f.insts.get(f.strip(o)) for o in n.ops]
            if src and all(x is not None and x.op == 'call' and x.fn in ('strtok_r', 'strtok', 'strsep') for x in src) and any(self.tokens(f, x, env) for x in src):
                return 'tok'
        return None

    def tokens(self, f, n, env):
        """A call that splits the text of the variable: directly, or with the save pointer of one that does."""
        if n.fn == 'strtok_r':
            if getenv(f, n.ops[0], env) == self.var:
                return True
            k = q.akey(f, n.ops[2])
            return any(x.op == 'call' and x.fn == 'strtok_r' and q.akey(f, x.ops[2]) == k and getenv(f, x.ops[0], env) == self.var for x in f.all() if x.op == 'call')
        return getenv(f, n.ops[0], env) == self.var

    def leafcall(self, f, s, n, env):
        if n.op == 'load':
            w = self.whose(f, n.ops[0], env)
            return ('chr', w) if w else None
        if n.fn in ('getenv', 'secure_getenv'):
            return ('set',) if finite.lit(env.resolve(n.ops[0])) == self.var else None
        if n.fn in finite.CMPS:
            a, b = env.resolve(n.ops[0]), env.resolve(n.ops[1])
            la, lb = finite.lit(a), finite.lit(b)
            k = finite.CMPS[n.fn]
            cnt = const(env.resolve(n.ops[k])) if k is not None else None
            if k is not None and cnt is None:
                return None
            if la is not None and lb is not None:
                return ('val', 'i32:%d' % (1 if finite.cmp(la, lb, cnt, 'case' in n.fn) else 0))
            w = self.whose(f, a if lb is not None else b, env)
            if w and (la is not None or lb is not None):
                return ('cmp', w, lb if lb is not None else la, cnt, 'case' in n.fn)
            return None
        if n.fn == 'strlen':
            w = self.whose(f, n.ops[0], env)
            return ('len', w) if w else None
        if n.fn in ('atoi', 'atol', 'strtol') and getenv(f, n.ops[0], env) == self.var:
            return ('num',)
        return None

    def event(self, f, s, n, env):
        if n.op == 'call' and n.fn in ('getenv', 'secure_getenv') and finite.lit(env.resolve(n.ops[0])) == self.var:
            self.seen = True
            return s | {('got', True)}
        return s

    def final(self, f, s, n, env):
        if not any(t[0] == 'got' for t in s):
            return      # initialised before
        t = self.cellterm(s, self.field)
        self.R.ob('value', '%s %s' % (self.var, f.where(n)))
        for b in self.of(s):
            want = self.spec(b)
            if want is None:
                continue
            got = terms.ev(t, b) if t is not None else None
            if t is None:
                self.bad('value', 'unset', 'no value is stored for %s' % self.show(b), n)
                return
            if terms.has(t, 'u') or any(x[1][0] in ('phi', 'cell') for x in terms.leaves(t) if x[0] == 'leaf'):
                return self.loopval(f, s, n, t, b, want)
            if got is None:
                continue
            if self.stale(f, s, n, got, b):
                return
            if not want(got):
                self.bad('value', 'value', 'is taken as %d for %s' % (terms.sg(got, t[-1]), self.show(b)), n)
                return

    def loopval(self, f, s, n, t, b, want):
        pass

    def stale(self, f, s, n, got, b):
        return False

    def show(self, b):
        if b.get(('leaf', ('set',))) == 0:
            return 'the variable unset'
        if ('str', 'val') in b:
            return repr(dict.get(b, ('str', 'val')))
        return 'the number %s' % b.get(('leaf', ('num',)))


class Words(Var):
    """A list of words, each of which turns on a bit."""

    def __init__(self, m, R, f, var, field, space, spec, words):
        Var.__init__(self, m, R, f, var, field, space, spec)
        self.words = words
        self.bits = {}
        self.lists = set()

    def symbolic(self, f, h):
        return any(n.op == 'call' and n.fn in ('strtok_r', 'strtok', 'strsep') for b in f.loops()[h] for n in f.blocks[b])

    def onedge(self, f, s, blk, nxt, env):
        # a new word: what is known of the previous one no longer counts
        if nxt in self.bodies and blk in self.bodies[nxt]:
            toks = [t for t in s if t[0] == 'fact' and any(x[0] == 'leaf' and x[1][0] == 'cmp' and x[1][1] == 'tok' for x in terms.leaves(t[1]))]
            if toks:
                self.word(f, s, blk, nxt, env)
                s = s - frozenset(toks)
        return s

    def word(self, f, s, blk, nxt, env):
        """The effect of one word: the accumulating phi gains the bit of the word."""
        lf = self.leaf(frozenset(t for t in self.before if not (t[0] == 'ph' and f.insts[t[1]].blk == nxt)))
        for n in f.blocks[nxt]:
            if n.op != 'phi' or not n.ty.startswith('i'):
                continue
            o = [a for a, fr in zip(n.ops, n.x['from']) if fr == blk]
            e = finite.make(f, o[0], self.wrap(env, s), lf)
            lv = terms.leaves(e)
            if terms.has(e, 'u') or not lv <= {('leaf', ('phi', n.v))} | {x for x in lv if self.known(x)}:
                continue
            self.R.ob('words', '%s %s' % (self.var, f.where(f.blocks[blk][-1])))
            for b in self.of(s):
                w = dict.get(b, ('str', 'tok'))
                if w is None:
                    continue
                bb = Binding(b)
                bb[('leaf', ('phi', n.v))] = 0
                v0 = terms.ev(e, bb)
                bb[('leaf', ('phi', n.v))] = 0xffffffff
                v1 = terms.ev(e, bb)
                if v0 is None or v1 is None:
                    continue
                if v1 != 0xffffffff:
                    self.bad('words', 'clear', 'the word %r discards words before it' % w, f.blocks[blk][-1])
                if w in self.words:
                    self.bits.setdefault(w, set()).add((v0, f.blocks[blk][-1]))
                elif v0:
                    self.bad('words', 'other', 'the unknown word %r turns on %#x' % (w, v0), f.blocks[blk][-1])
            self.lists.add(n.v)

    def loopval(self, f, s, n, t, b, want):
        """The list of words: the accumulated bits are what is stored."""
        v = dict.get(b, ('str', 'val'))
        if v is None or ',' not in v:
            return
        if not any(x[0] == 'leaf' and x[1][0] == 'phi' and x[1][1] in self.lists for x in terms.leaves(t)):
            return
        ph = [x[1] for x in terms.leaves(t) if x[1][0] == 'phi']
        for val in (1, 5, 0x2a):
            bb = Binding(b)
            for p in ph:
                bb[('leaf', p)] = val
            r = terms.ev(t, bb)
            if r is not None and r != val:
                self.bad('words', 'store', 'a list is taken as %#x instead of the bits %#x of its words' % (r, val), n)
                return

    def phis_of(self, t):
        return any(x[0] == 'leaf' and x[1][0] == 'phi' for x in terms.leaves(t))

    def known(self, x):
        return Var.known(self, x) or x[0] == 'leaf' and x[1][0] == 'phi' and x[1][1] in self.lists

    def accept(self, s, t):
        # what is found out about the words after they are stored does not matter here
        return not self.phis_of(t) or not any(x[0] == 'cell' and x[1] in self.cells and self.phis_of(x[2]) for x in s)

    def stale(self, f, s, n, got, b):
        """A list whose words are not stored although they may have turned bits on."""
        v = dict.get(b, ('str', 'val'))
        F = [(t, x) for t, x in self.facts(s) if any(l[1][0] == 'phi' for l in terms.leaves(t))]
        if v is None or ',' not in v or not F:
            return False
        for val in (1, 2, 5, 0x2a, 3):
            bb = Binding(b)
            for p in self.lists:
                bb[('leaf', ('phi', p))] = val
            if got != val and all(terms.Space.ok(t, x, bb) for t, x in F):
                self.bad('words', 'lost', 'a list is taken as %#x instead of the bits %#x of its words' % (got, val), n)
                return True
        return False

    def check(self):
        """After the simulation: one bit per word, each its own."""
        own = {}
        for w in self.words:
            for v, n in self.bits.get(w, ()):
                self.R.ob('words', '%s %s' % (self.var, w))
                if bin(v).count('1') != 1:
                    self.bad('words', w, 'the word %r turns on %#x' % (w, v), n)
                elif own.setdefault(v, w) != w:
                    self.bad('words', w, 'the words %r and %r are the same' % (own[v], w), n)
            if len({v for v, _ in self.bits.get(w, ())}) > 1:
                self.bad('words', w, 'the word %r has different effects' % w, list(self.bits[w])[0][1])
        return {w: v for v, w in own.items()}


def B(**k):
    b = Binding()
    for x, v in k.items():
        if x in ('set', 'num'):
            b[('leaf', (x,))] = v
        else:
            b[('str', x)] = v
    return b


def unset():
    return [B(set=0), B(set=1, val='')]


def numbers():
    return unset() + [B(set=1, val='x', num=v) for v in (0, 1, 2, -1, 7, 256)]


def flag(default):
    def spec(b):
        x = b.get(('leaf', ('num',)))
        w = default if x is None else int(x != 0)
        return lambda v: v == w or w is None and v in (0, 1)
    return spec


class Size(Var):
    """SHMEM_SYMMETRIC_SIZE: inputs num (the number), sfx (the character after it)."""

    def known(self, x):
        return Var.known(self, x) or x[0] == 'leaf' and x[1] in (('sfx',), ('endp',))

    def leafcall(self, f, s, n, env):
        if n.op == 'call' and n.fn in ('strtod', 'strtold', 'strtof', 'atof', 'strtol', 'strtoll', 'strtoul', 'strtoull') and getenv(f, n.ops[0], env) == self.var:
            return ('num',)
        if n.op == 'load':
            for x in self.ends(f):
                if n.ty == 'ptr' and q.akey(f, n.ops[0]) == x:
                    return ('endp',)
                if n.ty == 'i8' and q.vkey(f, n.ops[0], env) == ('*',) + x:
                    return ('sfx',)
        return Var.leafcall(self, f, s, n, env)

    def ends(self, f):
        """Where the pointer to the suffix is stored."""
        if getattr(self, '_ends', None) is None:
            self._ends = [q.akey(f, n.ops[1]) for n in f.all() if n.op == 'call' and n.fn and n.fn.startswith('strto') and len(n.ops) > 1
                          and n.ops[1] != 'null' and self.of_var(f, n.ops[0])]
        return self._ends

    def of_var(self, f, v):
        n = f.insts.get(f.strip(v))
        return n is not None and n.op == 'call' and n.fn in ('getenv', 'secure_getenv') and finite.lit(n.ops[0]) == self.var

    def show(self, b):
        x = b.get(('leaf', ('num',)))
        return Var.show(self, b) if x is None else '"%g%s"' % (x, chr(b[('leaf', ('sfx',))]).strip('\0'))


SCALE = {'\0': 1, 'k': 1 << 10, 'm': 1 << 20, 'g': 1 << 30, 't': 1 << 40}


def sizes():
    out = unset()
    for num, sfx in ((4096.0, '\0'), (0.0, '\0'), (1e9, '\0'), (-1.0, '\0'), (-3.0, 'K'), (1.5, 'K'), (0.3, 'k'), (3.1, 'M'), (3.1, 'm'), (7.0, 'M'), (2.0, 'G'), (1.25, 'g'), (1.0, 'T'), (0.7, 't')):
        b = B(set=1, val='x', num=num)
        b[('leaf', ('sfx',))] = ord(sfx)
        b[('leaf', ('endp',))] = 1
        out.append(b)
    return out


def sizespec(b):
    x = b.get(('leaf', ('num',)))
    if x is None:
        return lambda v: v == 128 << 20
    if x < 0:
        return lambda v: False
    w = math.ceil(x * SCALE[chr(b[('leaf', ('sfx',))]).lower()])
    return lambda v: v == w


class Heap(Finite):
    """The size of the symmetric heap against the number of bytes requested."""

    def __init__(self, m, R, f):
        self.m, self.R, self.f = m, R, f
        self.S, self.P = env_field(m, 'symm_heap_size'), glob(m, 'page_sz')
        self.size = glob(m, 'symm_heap_attr.size')
        sp = []
        for p in (4096, 65536):
            for v in (0, 1, p - 1, p, p + 1, 100000, 1 << 27, (1 << 31) - 1, (1 << 31) + 1, 1 << 32, (1 << 33) + 5):
                b = Binding()
                b[('leaf', ('S',))], b[('leaf', ('P',))] = v, p
                sp.append(b)
        Finite.__init__(self, FSpace(sp, lambda x: x in (('leaf', ('S',)), ('leaf', ('P',)))), {self.size})

    def seeds(self, f):
        w = [n for n in f.all() if n.op == 'call' and n.fn in ('MPI_Win_allocate', 'MPI_Win_attach')]
        return [q.arg(n, 'size') or n.ops[0] for n in w], [n.blk for n in w]

    def leafcall(self, f, s, n, env):
        if n.op == 'load':
            k = q.akey(f, n.ops[0], env)
            if not k[2] and (k[0], k[1]) == self.S:
                return ('S',)
            if not k[2] and (k[0], k[1]) == self.P:
                return ('P',)

    def event(self, f, s, n, env):
        if n.op == 'call' and n.fn == 'MPI_Win_allocate':
            return s | {('win', self.make(f, s, n.ops[0], env))}
        return s

    def final(self, f, s, n, env):
        t = self.cellterm(s, self.size)
        if t is None:
            return
        self.R.ob('heap', f.where(n))
        for b in self.of(s):
            v = terms.ev(t, b)
            if v is None:
                self.R.bad('heap', 'unknown', 'the size of the symmetric heap does not follow from SHMEM_SYMMETRIC_SIZE', f, n, self)
                return
            if v < b[('leaf', ('S',))]:
                self.R.bad('heap', 'small', 'the symmetric heap has %d bytes when %d are requested' % (v, b[('leaf', ('S',))]), f, n, self)
                return
            for x in s:
                if x[0] == 'win':
                    wv = terms.ev(x[1], b)
                    if wv is not None and wv < v:
                        self.R.bad('heap', 'window', 'the memory allocated for the symmetric heap has %d of %d bytes' % (wv, v), f, n, self)
                        return


class Level(Finite):
    """Inputs: the request (argument 0 or fixed), P (what MPI provides), I (MPI was initialised before), async, done (initialised before), old (level then)."""

    def __init__(self, m, R, f, name, req, cap, async_):
        self.m, self.R, self.f, self.name, self.req, self.cap = m, R, f, name, req, cap
        self.level, self.done = glob(m, 'thread_level'), glob(m, 'is_initialized')
        try:
            self.A = env_field(m, 'enable_async_thread')
        except AnalysisError:
            self.A = None
        self.fixed = async_
        self.out = (('v', 'a1'), 0)
        sp = []
        for r in (range(4) if req is None else (req,)):
            for a in ((0, 1) if async_ is None else (async_,)):
                for p in range(4):
                    for i in (0, 1):
                        sp.append(self.bind(r, a, p, i, 0, 0))
                sp += [self.bind(r, a, None, None, 1, o) for o in range(4)]
        Finite.__init__(self, FSpace(sp, self.known), {self.level, self.out} if req is None else {self.level})

    def bind(self, r, a, p, i, d, o):
        b = Binding()
        for k, v in ((('arg', 0), r), (('arg', 1), 1), (('leaf', ('async',)), a), (('leaf', ('P',)), p), (('leaf', ('I',)), i), (('leaf', ('done',)), d),
                     (('leaf', ('cell', self.level)), o)):
            if v is not None:
                b[k] = v
        return b

    def known(self, x):
        return x[0] == 'arg' and self.req is None and x[1] < 2 or x[0] == 'leaf' and x[1] in (('async',), ('P',), ('I',), ('done',), ('cell', self.level))

    def seeds(self, f):
        w = [n for n in f.all() if n.op == 'call' and n.fn == 'MPI_Init_thread']
        r = [n for n in f.all() if n.op == 'ret' and n.ops]
        return [n.ops[2] for n in w] + [n.ops[0] for n in r], [n.blk for n in w]

    def leafcall(self, f, s, n, env):
        if n.op == 'load':
            k = q.akey(f, n.ops[0], env)
            if not k[2] and (k[0], k[1]) == self.A:
                return ('async',)
            if not k[2] and (k[0], k[1]) == self.done:
                return ('done',)

    def outs(self, f, s, n, env):
        r = {'MPI_Init_thread': (3, ('P',)), 'MPI_Query_thread': (0, ('P',)), 'MPI_Initialized': (0, ('I',))}.get(n.fn)
        if r:
            k = self.key(f, n.ops[r[0]], env)
            if k:
                return {k: ('leaf', r[1], 32)}
        return {}

    def want(self, b):
        """Level negotiated below MPI, and with it."""
        r = b.get(('arg', 0))
        a = b.get(('leaf', ('async',)))
        s = min(3 if a else r, self.cap)
        return s, min(s, b.get(('leaf', ('P',)), 3))

    def bad(self, key, what, n, rule='level'):
        self.R.bad(rule, '%s:%s' % (self.name, key), '%s: %s' % (self.name, what), self.f, n, self)

    def show(self, b):
        r = b.get(('arg', 0))
        o = 'a request of %d, a configured maximum of %d' % (r, self.cap)
        if b.get(('leaf', ('P',))) is not None:
            o += ', MPI providing %d' % b[('leaf', ('P',))]
        if b.get(('leaf', ('async',))):
            o += ', the asynchronous thread'
        return o

    def event(self, f, s, n, env):
        if n.op == 'call' and n.fn in ('MPI_Init_thread', 'MPI_Init', 'MPI_Query_thread'):
            self.R.ob('level', '%s %s' % (self.name, f.where(n)))
            if n.fn == 'MPI_Init_thread':
                t = self.make(f, s, n.ops[2], env, 32)
                for b in self.of(s):
                    v = terms.ev(t, b)
                    if v is not None and v < self.want(b)[0]:
                        self.bad('ask', 'MPI is asked for level %d for %s' % (v, self.show(b)), n)
                        break
            if n.fn != 'MPI_Query_thread' and any(b.get(('leaf', ('I',))) for b in self.of(s)):
                self.bad('twice', 'MPI may be initialised twice', n)
            return s | {('mpi', n.fn)}
        return s

    def final(self, f, s, n, env):
        lv, out = self.cellterm(s, self.level), self.cellterm(s, self.out)
        mpi = any(t[0] == 'mpi' for t in s)
        self.R.ob('level', '%s %s' % (self.name, f.where(n)))
        ret = self.make(f, s, n.ops[0], env, 32) if n.ops and self.req is None else None
        for b in self.of(s):
            d = b[('leaf', ('done',))]
            if not d:
                if not mpi:
                    self.bad('mpi', 'MPI is neither initialised nor queried for %s' % self.show(b), n)
                    return
                w = self.want(b)[1]
                got = terms.ev(lv, b) if lv is not None else None
                if lv is None or got is not None and got != w:
                    self.bad('level', 'the thread level becomes %s for %s' % (got, self.show(b)), n)
                    return
                if b.get(('leaf', ('async',))) and w < 3:
                    self.bad('async', 'the asynchronous thread is started without thread safety for %s' % self.show(b), n)
                    return
            else:
                if mpi:
                    self.bad('again', 'MPI is initialised again when OpenSHMEM is initialised already', n)
                    return
                w = b[('leaf', ('cell', self.level))]
                if lv is not None and terms.ev(lv, b) not in (None, w):
                    self.bad('changed', 'the thread level is changed when OpenSHMEM is initialised already', n)
                    return
            if self.req is None:
                o = terms.ev(out, b) if out is not None else None
                if out is None or o is not None and o != w:
                    self.bad('provided', 'provided is set to %s instead of %d for %s' % (o, w, self.show(b)), n)
                    return
                r = terms.ev(ret, b)
                if r is not None and (r == 0) != (b[('arg', 0)] <= w):
                    self.bad('result', 'returns %s when level %d is provided for %s' % (r, w, self.show(b)), n)
                    return


class QueryThread(Finite):
    def __init__(self, m, R, f):
        self.R, self.f = R, f
        self.level = glob(m, 'thread_level')
        self.out = (('v', 'a0'), 0)
        sp = [Binding({('leaf', ('cell', self.level)): v, ('arg', 0): 4096}) for v in range(4)]
        Finite.__init__(self, FSpace(sp, lambda x: x[1] == ('cell', self.level) or x[0] == 'arg'), {self.level, self.out})

    def final(self, f, s, n, env):
        t = self.cellterm(s, self.out)
        self.R.ob('query', f.where(n))
        for b in self.of(s):
            v = terms.ev(t, b) if t is not None else None
            if v != b[('leaf', ('cell', self.level))]:
                self.R.bad('query', 'value', 'shmem_query_thread reports %s when the level is %d' % (v, b[('leaf', ('cell', self.level))]), f, n, self)
                return


def run(m, R):
    R.rule('value', 'the field an environment variable controls gets the documented default when the variable is unset or empty, and its value otherwise')
    R.rule('words', 'every documented word of a list has its own effect, in addition to the words before it')
    R.rule('size', 'SHMEM_SYMMETRIC_SIZE is scaled by its suffix, rounded up, and rejected when negative')
    R.rule('heap', 'the symmetric heap offers at least the number of bytes requested')
    R.rule('level', 'the thread level is the minimum of the request, the configured maximum and what MPI provides, and is reported to the caller')
    R.rule('query', 'shmem_query_thread reports the level of initialisation')
    f = m.fn('shmem_init_thread')
    D = build.CONFIGS[R.cfg]
    R.guard(variables, m, R, f, D)
    R.guard(heap, m, R, f)
    R.guard(level, m, R, D)


def variables(m, R, f, D):
    def var(cls, name, field, space, spec, *more):
        r = cls(m, R, f, name, env_field(m, field), space, spec, *more)
        sim(R, f, r, 400000)
        if not r.seen:
            R.ob('value', name)
            R.bad('value', '%s:read' % name, 'the environment variable %s is not consulted' % name, f, f.blocks[0][0], r)
        elif isinstance(r, Words):
            r.check()
        return r
    for name, field, default in (('SHMEM_DEBUG', 'debug', 0), ('SHMEM_VERSION', 'version', 0), ('SHMEM_INFO', 'info', 0), ('OSHMPI_VERBOSE', 'verbose', 0),
                                 ('OSHMPI_ENABLE_MPI_T', 'enable_mpit', 1)):
        R.guard(var, Var, name, field, numbers(), flag(default))
    if 'OSHMPI_DISABLE_AM_ASYNC_THREAD' not in D and 'OSHMPI_ENABLE_AM_ASYNC_THREAD' not in D:
        R.guard(var, Var, 'OSHMPI_ENABLE_ASYNC_THREAD', 'enable_async_thread', numbers(), flag(None))
    R.guard(var, Size, 'SHMEM_SYMMETRIC_SIZE', 'symm_heap_size', sizes(), sizespec)
    for name, field, words, alls in (('OSHMPI_AMO_OPS', 'amo_ops', WORDS, ('any_op', 'all')), ('OSHMPI_MPI_GPU_FEATURES', 'mpi_gpu_features', GPU, ('all',))):
        R.guard(words_, m, R, f, var, name, field, words, alls)
    if 'OSHMPI_DISABLE_DEBUG' not in D:
        for name, field in (('OSHMPI_AMO_DBG_MODE', 'amo_dbg_mode'), ('OSHMPI_RMA_DBG_MODE', 'rma_dbg_mode')):
            R.guard(modes, m, R, f, var, name, field)


def words_(m, R, f, var, name, field, words, alls):
    n = len(words)
    space = unset() + [B(set=1, val=x) for x in ('none',) + alls]
    for i, w in enumerate(words):
        space += [B(set=1, val=w + ',' + words[i - 1], tok=w)]
    space += [B(set=1, val='zzz,' + words[0], tok='zzz')]

    def spec(b):
        v = dict.get(b, ('str', 'val'))
        if not v or v in alls:
            return lambda x: bin(x).count('1') == n
        if v == 'none':
            return lambda x: x == 0
        return lambda x: True
    r = var(Words, name, field, space, spec, words)
    return r


def modes(m, R, f, var, name, field):
    """The three modes are different, and the default is the automatic one."""
    got = {}

    class Mode(Var):
        def final(self, f, s, n, env):
            if not any(t[0] == 'got' for t in s):
                return
            t = self.cellterm(s, self.field)
            self.R.ob('value', '%s %s' % (self.var, f.where(n)))
            for b in self.of(s):
                v = terms.ev(t, b) if t is not None else None
                if v is not None:
                    got.setdefault(dict.get(b, ('str', 'val')) or 'auto', set()).add(v)
    r = var(Mode, name, field, unset() + [B(set=1, val=x) for x in ('am', 'direct', 'auto')], lambda b: None)
    if r.seen:
        n = f.blocks[0][0]
        for w in ('am', 'direct', 'auto'):
            if len(got.get(w, ())) != 1:
                R.bad('value', '%s:%s' % (name, w), '%s: the mode %s %s' % (name, w, 'depends on more than the variable' if got.get(w) else 'is not set'), f, n, r)
            want = m.enums.get('OSHMPI_DBG_' + w.upper())
            if want is not None and got.get(w) and want not in got[w]:
                R.bad('value', '%s:%s' % (name, w), '%s: the mode %s is taken as another' % (name, w), f, n, r)
        vals = [tuple(got.get(w, ())) for w in ('am', 'direct', 'auto')]
        if len(set(vals)) < 3:
            R.bad('value', '%s:same' % name, '%s: two of the modes am, direct and auto are the same' % name, f, n, r)


def heap(m, R, f):
    sim(R, f, Heap(m, R, f), 400000)
    R.need('heap', 1)


def level(m, R, D):
    cap = next((v for k, v in LEVELS.items() if 'OSHMPI_ENABLE_' + k in D), 3)
    a = 1 if 'OSHMPI_ENABLE_AM_ASYNC_THREAD' in D else 0 if 'OSHMPI_DISABLE_AM_ASYNC_THREAD' in D else None
    for name, req in (('shmem_init_thread', None), ('shmem_init', 0), ('start_pes', 0)):
        f = m.fn(name)
        sim(R, f, Level(m, R, f, name, req, cap, a), 400000)
    f = m.fn('shmem_query_thread')
    sim(R, f, QueryThread(m, R, f), 1000)
    R.need('query', 1)
    R.need('level', 6)
