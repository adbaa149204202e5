"""Simulation of set-up code over a finite domain of inputs: scalar cells (globals of interest and local scalars) hold
terms over named inputs; branch facts narrow the set of inputs considered."""
from . import q, terms
from .ir import const
from .mem import Mem
from .paths import Rule, DEAD

CMPS = {'strcmp': None, 'strcasecmp': None, 'strncmp': 2, 'strncasecmp': 2}


def lit(v):
    return v[2:] if v.startswith('s:') else None


def cmp(x, y, n=None, fold=False):
    if n is not None:
        x, y = x[:n], y[:n]
    if fold:
        x, y = x.lower(), y.lower()
    return 0 if x == y else (1 if x > y else 0xffffffff)


class Binding(dict):
    """An input; comparisons with literals are evaluated for the string it stands for."""

    def get(self, k, d=None):
        if k[0] == 'leaf' and k[1][0] == 'cmp':
            s = dict.get(self, ('str', k[1][1]))
            if s is None:
                return d
            return cmp(s, k[1][2], k[1][3], k[1][4])
        if k[0] == 'leaf' and k[1][0] == 'chr':
            s = dict.get(self, ('str', k[1][1]))
            return d if s is None else ord((s + '\0')[0])
        if k[0] == 'leaf' and k[1][0] == 'len':
            s = dict.get(self, ('str', k[1][1]))
            return d if s is None else len(s)
        return dict.get(self, k, d)


class PhiEnv:
    """The environment without the phis the rule keeps track of itself."""

    def __init__(self, env, vs, ptr):
        self.env, self.vs, self.ptr = env, vs, ptr

    def get(self, v, d=None):
        v = self.ptr.get(v, v)
        return v if v in self.vs else self.env.get(v)

    def resolve(self, v):
        v = self.env.resolve(v)
        return self.ptr.get(v, v)

    def __getattr__(self, x):
        return getattr(self.env, x)


class FSpace(terms.Space):
    def __init__(self, all_, known):
        terms.Space.__init__(self, all_)
        self.known = known

    def relevant(self, t):
        l = terms.leaves(t)
        return bool(l) and all(self.known(x) for x in l)


class Finite(Rule):
    """Tokens: ('cell', key, term), ('ld', load, term), ('fact', term, truth), ('ph', phi, term)."""
    counters, track_phis = False, False
    MAXITER = 64
    _mem = Mem()

    def __init__(self, space, cells=()):
        self.space, self.cells = space, set(cells)

    # -- to override
    def leafcall(self, f, s, n, env):
        """Name of the input a call (or load) yields, or None."""

    def accept(self, s, t):
        """Whether a fact about t is worth recording in this state."""
        return True

    def outs(self, f, s, n, env):
        """{cell key: term} a call stores."""
        return {}

    def event(self, f, s, n, env):
        return s

    def final(self, f, s, n, env):
        pass

    def init(self, f):
        return frozenset()

    def seeds(self, f):
        """Further values (and the blocks they matter in) the rule looks at."""
        return [], []

    def symbolic(self, f, h):
        """Values of a round of the loop are not followed as constants."""
        return False

    # -- machinery
    def start(self, f):
        vals, blks = self.seeds(f)
        vals, blks = list(vals), list(blks)
        for n in f.all():
            if n.op == 'store':
                k = q.akey(f, n.ops[1])
                if (k[0], k[1]) in self.cells:
                    vals.append(n.ops[0])
                    blks.append(n.blk)
        self.slice = slice_(f, vals, blks)
        self.phis = {v for v in self.slice if f.insts[v].op == 'phi'}
        self.locals = {q.akey(f, f.insts[v].ops[0])[0] for v in self.slice if f.insts[v].op == 'load'}
        return self.init(f)

    def key(self, f, a, env):
        k = q.akey(f, a, env)
        if k[2]:
            return None
        k = (k[0], k[1])
        if k in self.cells or k[0] in self.locals and k[0][0] == 'a':
            return k
        return None

    def leaf(self, s):
        D = {t[1]: t[2] for t in s if t[0] in ('ld', 'ph')}

        def g(f, n, env):
            if n.v in D:
                t = D[n.v]
                return ('term', t) if t is not None else None
            if n.op == 'call' or n.op == 'load':
                r = self.leafcall(f, s, n, env)
                if r is not None:
                    return r
            if n.op == 'load':
                k = self.key(f, n.ops[0], env)
                if k in self.cells:
                    return ('cell', k)
            if n.op == 'phi' and n.blk in f.loops():
                return ('phi', n.v)
            return None
        return g

    def make(self, f, s, v, env, w=None):
        return make(f, v, self.wrap(env, s), self.leaf(s), w)

    def wrap(self, env, s):
        return env if isinstance(env, PhiEnv) else PhiEnv(env, self.phis, {t[1]: t[2] for t in s if t[0] == 'pp'})

    def facts(self, s):
        return [(t[1], t[2]) for t in s if t[0] == 'fact']

    def of(self, s):
        return self.space.of(self.facts(s))

    def cellterm(self, s, k):
        for t in s:
            if t[0] == 'cell' and t[1] == k:
                return t[2]
        return None

    def put(self, s, k, t):
        s = frozenset(x for x in s if x[:2] != ('cell', k))
        return s | {('cell', k, t)} if t is not None else s

    def interesting(self, t):
        """Terms over inputs and constants only."""
        return t is not None and not terms.has(t, 'u') and all(x[0] == 'leaf' and x[1][0] in ('phi', 'cell') or self.space.relevant(('leaf', x[1], 64) if x[0] == 'leaf' else ('arg', x[1], 64))
                                                               for x in terms.leaves(t))

    def inst(self, f, s, n, env):
        s = self.event(f, s, n, env)
        if isinstance(s, list):
            return s
        if n.op == 'store':
            k = self.key(f, n.ops[1], env)
            if k is not None:
                t = self.make(f, s, n.ops[0], env, 8 * self._mem.size(f, n.ops[0]))
                s = self.put(s, k, t if self.interesting(t) else (None if k not in self.cells else ('u', '?', 64)))
        elif n.op == 'load':
            k = self.key(f, n.ops[0], env)
            t = self.cellterm(s, k) if k is not None else None
            if t is not None or any(x[:2] == ('ld', n.v) for x in s):
                s = frozenset(x for x in s if x[:2] != ('ld', n.v))
                if t is not None:
                    s = s | {('ld', n.v, t)}
        elif n.op == 'call' and n.fn:
            o = self.outs(f, s, n, env)
            if n.fn not in q.MEMCPY and not n.fn.startswith('llvm.lifetime') and not n.fn.startswith('llvm.dbg'):
                for a in n.ops:
                    if a[0] == '%':
                        k = self.key(f, a, env)
                        if k is not None and k[0][0] == 'a':
                            s = frozenset(x for x in s if not (x[0] == 'cell' and x[1][0] == k[0]))
            for k, t in o.items():
                s = self.put(s, k, t)
        return s

    def edge(self, f, s, blk, nxt, atoms, env):
        lf, env = self.leaf(s), self.wrap(env, s)
        for t, truth in branch(f, blk, nxt, env, lf):
            if self.space.relevant(t) and self.accept(s, t):
                s = s | {('fact', t, truth)}
                if not self.of(s):
                    return DEAD
            elif not terms.leaves(t):
                v = terms.ev(t, {})
                if v is not None and bool(v) != truth:
                    return DEAD
        self.before = s
        ph = [n for n in f.blocks[nxt] if n.op == 'phi' and n.v in self.slice]
        if ph:
            add = set()
            for n in ph:
                o = [a for a, fr in zip(n.ops, n.x['from']) if fr == blk]
                t = make(f, o[0], env, lf) if o else None
                if t is not None and nxt in f.loops() and self.symbolic(f, nxt):
                    t = None
                elif t is not None and nxt in f.loops():
                    # constants are followed through the rounds of a loop, other values are named by the phi
                    if not terms.leaves(t):
                        v = terms.ev(t, {})
                        t = ('c', v, t[-1]) if v is not None else None
                    else:
                        t = None
                    if t is not None and v > self.MAXITER and not (v & (v + 1)) == 0:
                        t = None
                elif t is not None and not self.interesting(t):
                    t = None
                if t is not None and t[0] not in ('c',) and not terms.leaves(t):
                    v = terms.ev(t, {})
                    t = ('c', v, t[-1]) if v is not None else t
                if t is not None:
                    add.add(('ph', n.v, t))
            vs = {n.v for n in ph}
            s = frozenset(x for x in s if not (x[0] == 'ph' and x[1] in vs)) | add
        for n in f.blocks[nxt]:
            if n.op != 'phi':
                break
            if n.ty == 'ptr' and nxt not in f.loops():
                if any(x[:2] == ('pp', n.v) for x in s):
                    s = frozenset(x for x in s if x[:2] != ('pp', n.v))
                for o, fr in zip(n.ops, n.x['from']):
                    if fr == blk:
                        o = env.resolve(o)
                        d = f.insts.get(o)
                        if o.startswith('s:') or d is not None and d.op == 'call' and d.fn in ('getenv', 'secure_getenv'):
                            s = s | {('pp', n.v, o)}
        drop = [x for x in s if x[0] in ('ld', 'ph', 'pp') and nxt not in reach(f, x[1])
                or x[0] == 'cell' and x[1][0][0] == 'a' and nxt not in self._mem.objreach(f, x[1][0])]
        if drop:
            s = s - frozenset(drop)
        return self.onedge(f, s, blk, nxt, env)

    def onedge(self, f, s, blk, nxt, env):
        return s

    def ret(self, f, s, n, env):
        self.final(f, s, n, env)


def reach(f, v):
    """Blocks at whose entry the value can still be used; what a phi takes is recorded with the phi."""
    c = f.__dict__.setdefault('_fr', {})
    if v not in c:
        seen, st, blks = {v}, [v], set()
        while st:
            for u in f.uses.get(st.pop(), []):
                if u.op == 'phi':
                    blks |= {fr for o, fr in zip(u.ops, u.x['from']) if o in seen}
                    continue
                blks.add(u.blk)
                if u.v not in seen and u.op not in ('load', 'call', 'store', 'br', 'switch', 'ret'):
                    seen.add(u.v)
                    st.append(u.v)
        d = f.insts[v].blk
        out, st = set(blks), list(blks)
        while st:
            b = st.pop()
            if b == d:
                continue
            for p in f.pred[b]:
                if p not in out:
                    out.add(p)
                    st.append(p)
        if f.insts[v].op == 'phi':
            out.add(d)
        c[v] = out
    return c[v]


def make(f, v, env, leaf, w=None):
    """terms.make with leaves that stand for terms."""
    t = terms.make(f, v, env, leaf, w)
    return expand(t)


def expand(t):
    if not isinstance(t, tuple):
        return t
    if t[0] == 'leaf' and t[1][0] == 'term':
        x = t[1][1]
        return x if x[-1] == t[2] else ('trunc' if x[-1] > t[2] else 'zext', x, t[2])
    if t[0] in ('c', 'arg', 'leaf', 'u'):
        return t
    return tuple(expand(x) if isinstance(x, tuple) else x for x in t)


def branch(f, blk, nxt, env, leaf):
    return [(expand(t), truth) for t, truth in terms.branch(f, blk, nxt, env, leaf)]


def postdom(f):
    """Blocks that lie on every path from a block to a return (bit sets); blocks that abort are on no such path."""
    if getattr(f, '_pdom', None) is None:
        n = len(f.blocks)
        full = (1 << n) - 1
        pd = [full] * n
        for b in range(n):
            if f.blocks[b][-1].op == 'ret':
                pd[b] = 1 << b
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                if f.blocks[b][-1].op == 'ret':
                    continue
                x = full
                for s in f.succ[b]:
                    x &= pd[s]
                x |= 1 << b
                if x != pd[b] and f.succ[b]:
                    pd[b] = x
                    ch = True
        f._pdom = pd
    return f._pdom


def controls(f, blk):
    """Blocks whose branch decides whether blk is executed."""
    pd = postdom(f)
    return [p for p in range(len(f.blocks)) if len(set(f.succ[p])) > 1 and any(pd[s] >> blk & 1 for s in f.succ[p]) and not (pd[p] >> blk & 1 and p != blk)]


def slice_(f, seeds, ctrl):
    """Values the seeds are computed from (through local memory, phis and, for ctrl, the branches that select them)."""
    seen, st, blks = set(), list(seeds), []
    doneb = set()

    def addblk(b):
        for p in controls(f, b):
            if p not in doneb:
                doneb.add(p)
                st.extend(f.blocks[p][-1].ops[:1])
    for b in ctrl:
        addblk(b)
    while st:
        v = st.pop()
        if v in seen or v not in f.insts:
            continue
        seen.add(v)
        n = f.insts[v]
        if n.op == 'load':
            k = q.akey(f, n.ops[0])
            if k[0][0] == 'a':
                for x in f.all():
                    if x.op == 'store' and q.akey(f, x.ops[1])[0] == k[0]:
                        st.append(x.ops[0])
                        addblk(x.blk)
            continue
        if n.op == 'call' and not (n.fn and terms.ROUND.match(n.fn)):
            continue
        if n.op == 'phi':
            for o, fr in zip(n.ops, n.x['from']):
                st.append(o)
                addblk(fr)
            if n.blk in f.loops():
                # the rounds of the loop
                body = f.loops()[n.blk]
                for b in body:
                    if any(x not in body for x in f.succ[b]):
                        st.extend(f.blocks[b][-1].ops[:1])
                        doneb.add(b)
            else:
                addblk(n.blk)
            continue
        st.extend(n.ops)
    return seen
