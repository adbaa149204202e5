"""Path-sensitive property simulation over an inlined function (after ESP: the automaton state is tracked together
with the branch facts that can still decide a later branch; states that agree are merged, so the analysis terminates
and is linear in the number of distinct states)."""
import re
from collections import deque
from .ir import const, AnalysisError, CAST


class Env:
    """What is known on the current path: values of phis and truth of branch atoms."""
    __slots__ = ('f', 'phi', 'facts', 'mem')

    def __init__(self, f, phi, facts):
        self.f, self.phi, self.facts, self.mem = f, phi, facts, None

    def get(self, v, d=None):
        """Resolve a phi to the value it took on this path."""
        seen = 0
        while v in self.phi and seen < 20:
            nv = self.phi[v]
            if nv == v:
                break
            v = nv
            seen += 1
        return v

    def resolve(self, v):
        """Resolve phis, casts and selects with a known condition."""
        for _ in range(20):
            w = self.f.strip(self.get(v))
            n = self.f.insts.get(w)
            if n is not None and n.op == 'select':
                t = self.truth(n.ops[0])
                if t is not None:
                    w = n.ops[1] if t else n.ops[2]
            if w == v:
                return w
            v = w
        return v

    def count(self, v, depth=6):
        """0, 'pos' or None for a non-negative counter expression."""
        v = self.resolve(v)
        if v == 'pos':
            return 'pos'
        c = const(v)
        if c is not None:
            return 0 if c == 0 else ('pos' if c > 0 else None)
        n = self.f.insts.get(v)
        if n is None or depth == 0:
            return None
        if n.op in ('add', 'or'):
            a, b = self.count(n.ops[0], depth - 1), self.count(n.ops[1], depth - 1)
            if a is None or b is None:
                return None
            return 'pos' if 'pos' in (a, b) else 0
        if n.op == 'icmp' and n.ty == 'i1':
            t = self.truth(v)
            return None if t is None else ('pos' if t else 0)
        if n.op == 'select':
            t = self.truth(n.ops[0])
            if t is not None:
                return self.count(n.ops[1 if t else 2], depth - 1)
        return None

    def truth(self, v):
        v = self.get(v)
        c = const(v)
        if c is not None:
            return bool(c)
        if v[:2] == 'c:':
            m = re.match(r'c:i1 icmp (eq|ne) \(ptr (@[\w.]+), ptr (@[\w.]+)\)$', v)
            if m:
                return (m.group(2) == m.group(3)) == (m.group(1) == 'eq')
            return None
        n = self.f.insts.get(v)
        if n is None:
            return None
        if n.op in ('trunc', 'freeze'):
            return self.truth(n.ops[0])
        if n.op == 'xor' and const(n.ops[1]) in (1, -1) and n.ty == 'i1':
            t = self.truth(n.ops[0])
            return None if t is None else not t
        if n.op == 'select' and n.ty == 'i1':
            c = self.truth(n.ops[0])
            if c is not None:
                return self.truth(n.ops[1] if c else n.ops[2])
            return None
        if n.op == 'icmp':
            return self.decide(n)
        return None

    def decide(self, n):
        f = self.f
        p, a, b = n.x['pred'], self.resolve(n.ops[0]), self.resolve(n.ops[1])
        na = f.insts.get(a)
        if na is not None and na.ty == 'i1' and const(b) == 0 and p in ('eq', 'ne'):
            t = self.truth(a)
            if t is not None:
                return t == (p == 'ne')
        ca, cb = const(a), const(b)
        if a == 'pos' and cb == 0:
            return {'eq': False, 'ne': True, 'sgt': True, 'ugt': True, 'sge': True, 'uge': True, 'slt': False, 'ult': False, 'sle': False, 'ule': False}.get(p)
        if a == 'pos' and cb is not None and cb == 1:
            return {'sge': True, 'uge': True, 'slt': False, 'ult': False}.get(p)
        if a == 'pos' or b == 'pos':
            return None
        if ca is not None and cb is not None:
            w = 1 << 64
            ua, ub = ca % w, cb % w
            return {'eq': ca == cb, 'ne': ca != cb, 'slt': ca < cb, 'sle': ca <= cb, 'sgt': ca > cb, 'sge': ca >= cb,
                    'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub}.get(p)
        # address of an object is never NULL
        if p in ('eq', 'ne') and (b == 'null' or a == 'null'):
            x = a if b == 'null' else b
            if isobj(f, x):
                return p == 'ne'
        if p in ('eq', 'ne') and a == b:
            return p == 'eq'
        if p in ('eq', 'ne') and a[:2] == 'g:' and b[:2] == 'g:' and a.split('+')[0] != b.split('+')[0]:
            return p == 'ne'
        k = fkey(f, a, b)
        val = self.facts.get(k)
        if val is not None:
            t = implied(val[0], p, cb == 0)
            if t is not None:
                return t
        # value known equal to another constant
        if cb is not None:
            e = self.facts.get(('=', skey(f, a)))
            if e is not None and p in ('eq', 'ne'):
                return (e == cb) == (p == 'eq')
            if e is not None:
                return {'slt': e < cb, 'sle': e <= cb, 'sgt': e > cb, 'sge': e >= cb}.get(p)
        return None


ORDER = {'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {1, 0}}


def implied(k, p, zero):
    """Truth of a comparison p when k is known of the same two values (the second 0)."""
    sign = next((x[0] for x in (k, p) if x[0] in 'us'), 'u')

    def outs(x):
        if x == 'eq':
            return {0}
        if x == 'ne':
            return {1} if zero and sign == 'u' else {-1, 1}
        return (ORDER[x[1:]] - ({-1} if zero and x[0] == 'u' else set())) if x[0] == sign else None
    a, b = outs(k), outs(p)
    if a is None or b is None:
        return None
    if a <= b:
        return True
    return None if a & b else False


def isobj(f, v):
    if v.startswith('g:') and not v.startswith('g:ompi'):
        return True
    if v.startswith('@'):
        return True
    n = f.insts.get(v)
    if n is not None and n.op == 'alloca':
        return True
    if n is not None and n.op == 'getelementptr':
        r, off, var, h = f.addr(v)
        return off != 0 or r.startswith('g:') or (f.insts.get(r) is not None and f.insts[r].op == 'alloca')
    return False


SETUP = {'shmemx_space_attach', 'shmemx_space_detach'}
INIT = {'shmem_init', 'shmem_init_thread', 'start_pes', 'shmem_finalize', 'OSHMPI_implicit_finalize'}


def skey(f, v):
    """Stable key of a value: loads of locations that are constant after initialisation compare by location."""
    n = f.insts.get(v)
    if n is not None and n.op == 'load':
        L = f.loc(n.ops[0])
        if L.is_global and L.path in f.m.stable and '*' not in L.path and f.name not in f.m.stable[L.path]:
            return 'L:' + L.path
    return v


def fkey(f, a, b):
    return (skey(f, a), skey(f, b))


def compute_stable(m):
    """Global locations written only by set-up and tear-down entry points: equal in every load of one call of any
    other function.  {location: functions that write it}"""
    written, read, many = {}, set(), set()
    for f, ms in m.reps():
        for n in f.all():
            if n.op == 'store':
                L = f.loc(n.ops[1])
                if L.is_global:
                    written.setdefault(L.path, set()).update(ms)
            elif n.op == 'load':
                L = f.loc(n.ops[0])
                if L.is_global:
                    read.add(L.path)
            elif n.op == 'call':
                for o in n.ops:
                    if o[0] in '%g':
                        r = f.addr(o)[0]
                        if r.startswith('g:') and not r.startswith('g:ompi'):
                            written.setdefault(f.loc(o).path, set()).update(ms)
    m.stable = {p: written.get(p, set()) for p in read if written.get(p, set()) <= INIT | SETUP}
    return m.stable


class Rule:
    """Override. Automaton states must be hashable."""
    track_phis = True

    def start(self, f):
        return None

    def inst(self, f, s, n, env):
        return s

    def edge(self, f, s, blk, nxt, atoms, env):
        return s

    def ret(self, f, s, n, env):
        pass


def zero_counters(f):
    """Loop phis (and the phis feeding them) counting from 0 that are compared with zero after the loop."""
    if getattr(f, '_zc', None) is None:
        f._zc = set()
        for n in f.all():
            if n.op == 'icmp' and const(n.ops[1]) in (0, 1) and n.x['pred'] in ('eq', 'ne', 'sgt', 'sle', 'ugt', 'slt', 'sge', 'ule', 'ult', 'uge'):
                work, seen, good = [f.strip(n.ops[0])], set(), True
                while work:
                    v = work.pop()
                    if v in seen:
                        continue
                    seen.add(v)
                    d = f.insts.get(v)
                    if d is None:
                        c = const(v)
                        if c is None or c < 0:
                            good = False
                    elif d.op == 'phi':
                        work += [f.strip(o) for o in d.ops]
                    elif d.op == 'select':
                        work += [f.strip(o) for o in d.ops[1:]]
                    elif d.op in ('add', 'or'):
                        work += [f.strip(o) for o in d.ops]
                    elif d.op == 'icmp' and d.ty == 'i1':
                        pass
                    else:
                        good = False
                ph = [v for v in seen if v[0] == '%' and f.insts[v].op == 'phi']
                if good and any(v for v in ph if f.insts[v].blk in f.loops()):
                    # not the induction variable of a loop bounded by something else
                    f._zc |= set(ph)
    return f._zc


class liveness:
    """Blocks at whose entry a branch fact or the value taken by a phi can still matter."""
    DERIV = ('getelementptr', 'select', 'icmp', 'add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'load', 'sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr') + tuple(CAST)

    def __new__(cls, f):
        if getattr(f, '_liveness', None) is None:
            f._liveness = object.__new__(cls)
            f._liveness.setup(f)
        return f._liveness

    def setup(self, f):
        self.f = f
        self.cblk = {}                       # value key -> blocks whose conditions compare it
        self.pblk = {}
        self._c, self._p, self._pp = {}, {}, {}

        def leaves(v):
            """Values a tracked condition operand may resolve to."""
            out, st = set(), [v]
            while st:
                x = f.strip(st.pop())
                if x in out:
                    continue
                out.add(x)
                n = f.insts.get(x)
                if n is not None and n.op == 'select':
                    st += n.ops[1:]
                elif n is not None and n.op == 'phi':
                    st += n.ops
            return out
        for bi, b in enumerate(f.blocks):
            for n in b:
                if n.op == 'icmp':
                    A, B = leaves(n.ops[0]), leaves(n.ops[1])
                    us = self.useblocks(n)
                    for a in A:
                        self.cblk.setdefault(skey(f, a), set()).update(us)
                        for c in B:
                            self.pblk.setdefault(fkey(f, a, c), set()).update(us)
                            self.pblk.setdefault(fkey(f, c, a), set()).update(us)
                elif n.op == 'switch':
                    for a in leaves(n.ops[0]):
                        self.cblk.setdefault(skey(f, a), set()).add(bi)

    def useblocks(self, n):
        f, seen, st, out = self.f, {n.v}, [n.v], set()
        while st:
            v = st.pop()
            for u in f.uses.get(v, []):
                if u.op == 'phi':
                    for o, fr in zip(u.ops, u.x['from']):
                        if o == v:
                            out.add(fr)
                else:
                    out.add(u.blk)
                if u.op in ('phi', 'select', 'xor', 'zext', 'icmp', 'trunc', 'freeze', 'and', 'or') and u.v not in seen:
                    seen.add(u.v)
                    st.append(u.v)
        return out

    def back(self, uses, stop):
        f, seen, st = self.f, set(uses), list(uses)
        while st:
            b = st.pop()
            if b == stop:
                continue
            for p in f.pred[b]:
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        return seen

    def defblk(self, k):
        n = self.f.insts.get(k)
        return n.blk if n is not None else None

    def cond(self, k):
        if k not in self._c:
            d = self.defblk(k)
            self._c[k] = self.back(self.cblk.get(k, ()), d) - {d}
            n = self.f.insts.get(k)
            if n is not None and n.op == 'phi' and d in self.cblk.get(k, ()):
                pass
        return self._c[k]

    def pair(self, k):
        if k not in self._p:
            u = set(self.pblk.get(k, ()))
            if const(k[1]) is not None:      # x == c decides other comparisons of x only through '='
                pass
            r = self.back(u, None)
            for x in k:
                d = self.defblk(x)
                if d is not None:
                    r &= self.back(u, d) - {d}
            self._p[k] = r
        return self._p[k]

    def phi(self, k, deep=False):
        """deep: follow the value into the phis it is passed on to."""
        if (k, deep) not in self._pp:
            f, seen, st, out = self.f, {k}, [k], set()
            while st:
                v = st.pop()
                for u in f.uses.get(v, []):
                    if u.op == 'phi':
                        for o, fr in zip(u.ops, u.x['from']):
                            if o == v:
                                out.add(fr)
                        if deep and u.v not in seen:
                            seen.add(u.v)
                            st.append(u.v)
                    else:
                        out.add(u.blk)
                        if u.v not in seen and u.op in self.DERIV:
                            seen.add(u.v)
                            st.append(u.v)
            self._pp[k, deep] = self.back(out, self.defblk(k))
        return self._pp[k, deep]


class Result:
    def __init__(self):
        self.states = 0
        self.rets = 0


def explore(f, rule, limit=60000):
    """Run rule over every path of f. Returns Result; the rule collects its reports itself."""
    if not hasattr(f.m, 'stable'):
        compute_stable(f.m)
    live = liveness(f)
    deep = getattr(rule, 'deep', False)
    loops = f.loops()
    counters = zero_counters(f) if getattr(rule, 'counters', True) else ()
    res = Result()
    start = (0, rule.start(f), (), ())
    seen = {start: None}
    work = deque([start])

    def prune(b, phi, facts):
        fp = {}
        for k, v in facts.items():
            if k[0] == '=':
                if b in live.cond(k[1]):
                    fp[k] = v
            elif b in live.pair(k):
                fp[k] = v
        pp = {}
        for k, v in phi.items():
            if b in live.phi(k, deep):
                pp[k] = v
        return pp, fp

    while work:
        st = work.popleft()
        res.states += 1
        if res.states > limit:
            f._dbg = seen
            raise AnalysisError('%s: state limit exceeded' % f.name)
        b, s, phi_t, facts_t = st
        phi, facts = dict(phi_t), dict(facts_t)
        env = Env(f, phi, facts)
        rule.path = (seen, st)
        states = [s]
        term = f.blocks[b][-1]
        for n in f.blocks[b]:
            if n.op == 'phi':
                continue
            # a re-executed definition invalidates facts about its previous value
            if facts and n.ty != 'void':
                kk = n.v
                for k in [k for k in facts if kk in k]:
                    del facts[k]
            nxt = []
            for x in states:
                r = rule.inst(f, x, n, env)
                if isinstance(r, list):
                    nxt += r
                else:
                    nxt.append(r)
            states = nxt
        if term.op == 'ret':
            res.rets += 1
            for x in states:
                rule.ret(f, x, term, env)
            continue
        outs = []
        if term.op == 'br':
            to = term.x['to']
            if len(to) == 1 or to[0] == to[1]:
                outs.append((to[0], []))
            else:
                t = env.truth(term.ops[0])
                for k, tr in ((0, True), (1, False)):
                    if t is None or t == tr:
                        outs.append((to[k], f.atoms(term.ops[0], tr, env)))
        elif term.op == 'switch':
            v = env.resolve(term.ops[0])
            cv = const(v)
            if cv is None:
                cv = facts.get(('=', skey(f, v)))
            cases = term.x['cases']
            if cv is not None:
                hit = [t for c, t in cases if c == cv]
                outs.append(((hit or [term.x['def']])[0], []))
            else:
                for c, t in cases:
                    outs.append((t, [('eq', v, 'i64:%d' % c)]))
                outs.append((term.x['def'], [('ne', v, 'i64:%d' % c) for c, _ in cases]))
        for t, atoms in outs:
            nf = dict(facts)
            atoms = [(p, env.resolve(a), env.resolve(bb)) for p, a, bb in atoms]
            for p, a, bb in atoms:
                if const(a) is not None and const(bb) is not None:
                    continue
                nf[fkey(f, a, bb)] = (p,)
                if p == 'eq' and const(bb) is not None:
                    nf[('=', skey(f, a))] = const(bb)
            np = dict(phi)
            newphi = {}
            for n in f.blocks[t]:
                if n.op != 'phi':
                    break
                for o, fr in zip(n.ops, n.x['from']):
                    if fr == b:
                        header_back = t in loops and b in loops[t]
                        v = env.get(o)
                        if n.v in counters:
                            c = Env(f, phi, nf).count(o)
                            newphi[n.v] = None if c is None else ('i32:0' if c == 0 else 'pos')
                            break
                        if const(v) is not None or v in ('null',):
                            if n.ty in ('i1', 'ptr', 'i32', 'i8', 'i64') and not (t in loops and n.ty not in ('i1',) and not (v == 'null')):
                                newphi[n.v] = v
                            elif t in loops and n.ty in ('i32', 'i64') and const(v) is not None and not header_back:
                                newphi[n.v] = v
                            else:
                                newphi[n.v] = None
                        elif rule.track_phis and not (t in loops):
                            newphi[n.v] = v
                        elif rule.track_phis and t in loops and not header_back and n.ty in ('ptr', 'i1'):
                            newphi[n.v] = None
                        else:
                            newphi[n.v] = None
                        break
                # a redefined phi invalidates facts about its old value
                for k in [k for k in nf if n.v in k]:
                    del nf[k]
            for k, v in newphi.items():
                if v is None:
                    np.pop(k, None)
                else:
                    np[k] = v
            # values recorded in terms of a phi that has just been redefined are stale
            for k in [k for k, v in np.items() if v in newphi and k not in newphi]:
                del np[k]
            e2 = Env(f, phi, nf)
            pp, fp = prune(t, np, nf)
            for x in states:
                r = rule.edge(f, x, b, t, atoms, e2)
                for y in (r if isinstance(r, list) else [r]):
                    if y is DEAD:
                        continue
                    ns = (t, y, tuple(sorted(pp.items())), tuple(sorted(fp.items(), key=str)))
                    if ns not in seen:
                        seen[ns] = st
                        work.append(ns)
    f._dbg = seen
    return res


DEAD = object()


def trace(rule, f, maxlen=60):
    """Blocks (as source positions) of the path that led to the state being processed."""
    seen, st = rule.path
    out = []
    while st is not None:
        b = st[0]
        last = f.blocks[b][-1]
        p = f.pos(last)
        if not out or out[-1] != p:
            out.append(p)
        st = seen[st]
    out.reverse()
    if len(out) > maxlen:
        out = out[:maxlen // 2] + ['…'] + out[-maxlen // 2:]
    return out
