"""Completion analysis: which windows and active messages are known to be complete at a program point.

Path-sensitive simulation.  A state is the set of facts established on the path:
  ('F', w)     window at location w flushed (or unlocked, or freed)
  ('Z', k)     location k was read and is zero / NULL
  ('LIST',)    every element of the list of spaces was visited and its windows were complete
  ('ALL', base, off, stride, n)  the windows of all n elements of an array are complete
  ('AM',)      no active message to any PE is outstanding
"""
from .ir import const, AnalysisError, SWAP
from . import q
from .paths import Rule, DEAD

WINNULL = 'g:ompi_mpi_win_null'
DEFAULT_CTX = 0x80000


class Complete(Rule):
    def __init__(self, m, R, rname, check, onbad=None):
        self.m, self.R, self.rname, self.check = m, R, rname, check
        self.M = q.model(m)
        self.am = q.has_am(m)
        self.tracking = True
        self.resets = []
        self.notes = {}

    # ------------------------------------------------------------------ set-up per function
    def start(self, f):
        self.f = f
        M = self.M
        loops = f.loops()
        self.head = M.gfield('OSHMPI_global', 'space_list.head') if 'OSHMPI_global' in self.m.globals else None
        # loops over the list of spaces
        self.lists = {}
        for h, body in loops.items():
            for n in f.blocks[h]:
                if n.op != 'phi' or n.ty != 'ptr':
                    continue
                ini, step = [], []
                for o, fr in zip(n.ops, n.x['from']):
                    (step if fr in body else ini).append(f.strip(o))
                if not ini or not step:
                    continue
                if all(self.is_load_of(i, self.head) for i in ini) and all(self.steps(s, n.v, body) for s in step):
                    self.lists[h] = n
        # counted loops
        self.cl = {}
        for c in q.counts(f):
            self.cl.setdefault(c.head, []).append(c)
        self.backs = {(b, h) for h, body in loops.items() for b in f.pred[h] if b in body}
        # arrays of windows completed by a loop, flag scans, active-message sends
        self.arr, self.scan, self.send = {}, {}, {}
        for h, body in loops.items():
            if f.innermost(h) != h:
                continue
            phis = [n.v for n in f.blocks[h] if n.op == 'phi']
            for b in body:
                if f.innermost(b) != h:
                    continue
                for n in f.blocks[b]:
                    if n.op == 'call' and n.fn in ('MPI_Win_flush_all', 'MPI_Win_unlock_all'):
                        k = self.winkey(n)
                        if k and len(k[2]) == 1 and self.M.ictx_size <= k[2][0][1]:
                            ph = [p for p in phis if q.mentions(k[2][0][0], p)]
                            if ph:
                                self.arr.setdefault(h, {})[(k[0], k[1], k[2][0][1])] = k
                    a = q.loadaddr(f, n.v) if n.op in ('load', 'call') else None
                    if a and self.am:
                        i = q.isflag(self.m, q.akey(f, a))
                        if i and any(q.mentions(i, p) for p in phis):
                            self.scan.setdefault(h, set()).add(i)
                    if n.op == 'call' and n.fn in ('MPI_Isend', 'MPI_Send') and self.am:
                        self.send.setdefault(h, []).append(n)
        return frozenset()

    def is_load_of(self, v, k):
        a = q.loadaddr(self.f, v)
        return a is not None and q.akey(self.f, a) == k

    def steps(self, v, phi, body, d=4):
        """v is the next pointer of the element phi (possibly saved in a temporary)."""
        f = self.f
        a = q.loadaddr(f, v)
        if a is not None:
            r, off, var, _ = f.addr(a)
            return not var and off == self.M.space_next and (r == phi)
        n = f.insts.get(v)
        if n is not None and n.op == 'phi' and d:
            # a saved next pointer: values taken on paths where the loop ends do not matter
            ok = False
            for o, fr in zip(n.ops, n.x['from']):
                if fr not in body:
                    continue
                o = f.strip(o)
                if self.steps(o, phi, body, 0):
                    ok = True
                elif f.insts.get(o) is not None and f.insts[o].op == 'phi':
                    continue
                elif o in ('undef', 'null'):
                    continue
                else:
                    return False
            return ok
        return False

    def winkey(self, n, env=None):
        """Location key of the window handle a call completes."""
        v = q.arg(n, 'win')
        if v is None:
            p = q.arg(n, 'pwin')
            return q.akey(self.f, p, env) if p else None
        if env is not None:
            v = env.resolve(v)
        a = q.loadaddr(self.f, v)
        return q.akey(self.f, a, env) if a is not None else ('win', v)

    # ------------------------------------------------------------------ transfer
    def inst(self, f, s, n, env):
        if n.op == 'call':
            if n.fn in ('MPI_Win_flush_all', 'MPI_Win_unlock_all'):
                k = self.winkey(n, env)
                s = s | {('F', k)}
            elif n.fn in ('MPI_Isend', 'MPI_Irecv') and self.am:
                pe = q.vkey(f, q.arg(n, 'pe'), None)
                s = s | {('IO', n.fn, pe)}
            elif n.fn == 'MPI_Waitall' and self.am:
                s = self.awaited(s, n, env)
        st = q.storeof(n)
        if st is not None:
            v, a = st
            if const(v) == 0:
                k = q.akey(f, a, env)
                w = q.shift(k, self.M.win_off - self.M.flag_off)
                if self.isflagloc(a):
                    self.resets.append((n, ('F', w) in s, self.M.locname(w)))
                    if ('F', w) not in s:
                        self.early(f, n, 'the tracking flag of %s' % self.M.locname(w))
                elif self.am and q.isflag(self.m, k) is not None:
                    ok = ('AM',) in s or ('ACK', q.isflag(self.m, k)) in s
                    self.resets.append((n, ok, 'am'))
                    if not ok:
                        self.early(f, n, 'an outstanding active-message flag')
        return self.check(self, f, s, n, env)

    def early(self, f, n, what):
        pass

    def isflagloc(self, a):
        """Is a the address of the tracking flag of a context record?"""
        k = q.akey(self.f, a)
        if k[2] == () and any(k == q.shift(w, self.M.flag_off - self.M.win_off) for w in self.M.globwins):
            return True
        L = self.f.loc(a)
        if L.ty >= 0 and self.M.iswin(L.ty):
            return False
        return any(self.isictx(s) and x == self.M.flag_name for s, x in L.fields) or self.gepictx(a)

    def isictx(self, name):
        return any(self.m.tname(i) == name for i in self.M.ictx)

    def gepictx(self, a):
        n = self.f.insts.get(self.f.strip(a))
        return n is not None and n.op == 'getelementptr' and n.x.get('off') == self.M.flag_off and any(
            self.m.tname(i) and self.m.tname(i) in str(n.x.get('src', '')) for i in self.M.ictx) and 'ictx' in str(n.x.get('src', ''))

    def awaited(self, s, n, env):
        sent = [t for t in s if t[0] == 'AMSENT']
        return (s - set(sent)) | {('AM',)} if sent else s

    def zero(self, f, a, k):
        """Facts from: location k was read and is zero or NULL."""
        M = self.M
        if k == self.head or not (k[0][0] == 'v' and k[0][1].startswith('g:')) and not k[2] and (
                k[1] == M.space_num or any(k[1] == o for o, _, _ in M.space_arr)):
            return {('Z', k)}
        if self.isflagloc(a):
            return {('F', q.shift(k, M.win_off - M.flag_off))}
        n = f.insts.get(a)
        return {('F', k)}

    def edge(self, f, s, blk, nxt, atoms, env):
        add = set()
        for p, a, b in atoms:
            for x, y, pp in ((a, b, p), (b, a, SWAP.get(p, p))):
                ad = q.loadaddr(f, x)
                cy = const(y)
                isnull = cy == 0 or y == 'null' or y.startswith(WINNULL)
                if ad is not None and isnull:
                    k = q.akey(f, ad, env)
                    if pp == 'eq' or (cy == 0 and pp in ('ule', 'sle') and not y.startswith(WINNULL)):
                        add |= self.zero(f, ad, k)
                    i = q.isflag(self.m, k) if self.am else None
                    if i is not None:
                        if pp == 'eq':
                            add.add(('CLEAN', q.vkey(f, f.idx(ad)[-1])))
                        elif pp == 'ne' and ad is not None:
                            add.add(('DIRTY', f.innermost(blk)))
                            add.add(('SEEN', q.vkey(f, f.idx(ad)[-1])))
                    if pp in ('ne', 'sgt', 'ugt') and self.am:
                        # completion flag of MPI_Testall / MPI_Test
                        r = f.addr(ad)[0]
                        d = f.insts.get(r)
                        if d is not None and d.op == 'alloca':
                            for u in f.uses[r]:
                                if u.op == 'call' and u.fn == 'MPI_Testall' and q.arg(u, 'flag') == r:
                                    sent = [t for t in s if t[0] == 'AMSENT']
                                    if sent:
                                        add.add(('AM',))
                nd = f.insts.get(x)
                if nd is not None and nd.op == 'phi' and y == 'null' and pp == 'eq':
                    add.add(('END', x))
                if y == 'null' and x == self.ctxarg(f) and pp == 'eq':
                    add.add(('CTXNULL',))
                if cy == DEFAULT_CTX and x == self.ctxarg(f):
                    add.add(('CTX', 'default' if pp == 'eq' else 'own'))
        s = self.norm(s | add)
        loops = f.loops()
        if (blk, nxt) in self.backs:
            s = self.iteration(f, s, nxt)
        # leaving loops
        for h, body in loops.items():
            if blk in body and nxt not in body:
                s = self.leave(f, s, h, blk, env)
        if nxt in loops and blk not in loops[nxt]:
            # entering a loop: per-loop tokens of an earlier visit are stale
            s = frozenset(t for t in s if not (t[0] in ('MISS', 'DIRTY') and t[1] == nxt))
        # facts about redefined phis are stale
        ph = [n.v for n in f.blocks[nxt] if n.op == 'phi']
        if ph:
            s = frozenset(t for t in s if t[0] in ('MISS', 'DIRTY', 'AMSENT', 'CTX') or not any(q.mentions(t, v) or v in t for v in ph))
        return s

    def norm(self, s):
        if ('AM',) in s:
            s = frozenset(t for t in s if t[0] not in ('DIRTY', 'AMSENT', 'CLEAN', 'SEEN', 'IO'))
        return s

    def ctxarg(self, f):
        return 'a0'

    def iteration(self, f, s, h):
        """The loop with header h starts its next iteration."""
        miss = set()
        if h in self.lists:
            p = self.lists[h].v
            for o in self.M.space_wins:
                w = (('v', p), o, ())
                if not self.done(s, w):
                    miss.add(('MISS', h, 'the default window of a space'))
            for o, sz, eo in self.M.space_arr:
                base = (('v', p), o, ())
                nk = q.Poly.a(('*', ('v', p), self.M.space_num, ()))
                ok = ('Z', base) in s or ('Z', (('v', p), self.M.space_num, ())) in s or any(
                    t[0] == 'ALL' and t[1] == ('*',) + base and t[2] == eo + self.M.win_off and t[3] == sz and t[4] == nk for t in s)
                if not ok:
                    miss.add(('MISS', h, 'the context windows of a space'))
        for ak, k in self.arr.get(h, {}).items():
            if not self.done(s, k):
                miss.add(('MISS', h, 'an element of an array of windows'))
        if h in self.scan:
            for i in self.scan[h]:
                if ('CLEAN', i) in s:
                    continue
                if ('SEEN', i) in s:
                    if h in self.send and not (('IO', 'MPI_Isend', i) in s and ('IO', 'MPI_Irecv', i) in s):
                        miss.add(('MISS', h, 'a PE whose flag is set without a flush message and its acknowledgement'))
                    continue
                miss.add(('MISS', h, 'a PE whose flag is not tested'))
        # tokens of the finished iteration
        return s | miss

    def done(self, s, w):
        return ('F', w) in s

    def leave(self, f, s, h, blk, env):
        missed = [t for t in s if t[0] == 'MISS' and t[1] == h]
        for t in missed:
            self.notes[t[2]] = 1
        if h in self.lists and not missed and ('END', self.lists[h].v) in s:
            s = frozenset(t for t in s if t[0] in ('MISS', 'DIRTY', 'CTX', 'CTXNULL', 'AM', 'AMSENT') or t[0] == 'F' and not q.mentions(t, self.lists[h].v)) | {('LIST',)}
        for ak, k in self.arr.get(h, {}).items():
            if missed:
                break
            for c in self.cl.get(h, []):
                n = self.coverage(c, k[2][0][0], blk)
                if n is not None:
                    s = s | {('ALL', ak[0], ak[1], ak[2], n)}
        if h in self.scan and not missed:
            for i in self.scan[h]:
                for c in self.cl.get(h, []):
                    n = self.coverage(c, i, blk)
                    if n is not None and self.isnpes(n):
                        if h in self.send:
                            s = s | {('AMSENT', h)}
                        if ('DIRTY', h) not in s:
                            s = s | {('AM',)}
        return frozenset(t for t in s if t[0] != 'IO')

    def coverage(self, c, ik, blk):
        """Number of indices covered when the loop is left through its test."""
        if blk != c.exitblk:
            return None
        f = c.f
        # index key -> polynomial offset
        k = 0
        if ik != ('v', c.phi.v):
            if ik[0] in ('add', 'sub') and ('v', c.phi.v) in ik[1:]:
                o = [x for x in ik[1:] if x != ('v', c.phi.v)]
                if len(o) == 1 and o[0][0] == 'c':
                    k = o[0][1] if ik[0] == 'add' else -o[0][1]
                else:
                    return None
            else:
                return None
        lo = c.lo if isinstance(c.lo, tuple) else (c.lo, 0)
        l = q.poly(f, lo[0]) + q.Poly.c(lo[1] + k)
        if l.const() != 0:
            return None
        return q.poly(f, c.hi[0]) + q.Poly.c(c.hi[1] + k)

    def isnpes(self, n):
        a = list(n.atoms())
        if len(n.t) != 1 or len(a) != 1 or n != q.Poly.a(a[0]):
            return False
        return isinstance(a[0], tuple) and a[0][0] == '*' and self.M.locname(a[0][1:]).endswith('team_world_n_pes')

    # ------------------------------------------------------------------ verdict
    def missing(self, s, scope):
        """Descriptions of what is not known complete."""
        out = []
        if scope in ('all', 'mem'):
            for w in self.M.globwins:
                if not self.done(s, w):
                    out.append(self.M.locname(w))
            if ('LIST',) not in s and not ('Z', self.head) in s:
                d = '; '.join(sorted(self.notes)) or 'not every space is visited'
                out.append('memory spaces (%s)' % d)
        if isinstance(scope, tuple):
            if not self.done(s, scope):
                out.append('the window of the context')
        if self.am and ('AM',) not in s:
            out.append('active messages')
        return out
