"""Contents of local memory along a path: a copy and constant propagation over the fields of stack objects, for rules
that need to know what a packet, a value buffer or a displacement holds when it is handed to MPI."""
from . import q
from .ir import const
from .paths import Rule, DEAD

TYSZ = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'float': 4, 'double': 8, 'x86_fp80': 16}
# pointer arguments a call only reads
INPUT = ('obuf', 'cbuf', 'sbuf', 'rcounts', 'displs', 'addr')
READS = {'MPI_Isend': ('buf',), 'MPI_Send': ('buf',)}
PURE = {'fprintf', 'printf', 'snprintf', 'fflush', 'strlen', 'free', 'strcmp', 'strncmp', 'malloc', 'MPI_Abort'}
RESULT = {'MPI_Irecv': ('buf', 'count'), 'MPI_Recv': ('buf', 'count'), 'MPI_Fetch_and_op': ('rbuf', None), 'MPI_Compare_and_swap': ('rbuf', None),
          'MPI_Get_accumulate': ('rbuf', 'rcount'), 'MPI_Get': ('obuf', 'ocount')}


def holds(p, x, y):
    w = 1 << 64
    return {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y, 'ult': x % w < y % w,
            'ule': x % w <= y % w, 'ugt': x % w > y % w, 'uge': x % w >= y % w}.get(p)


class Mem(Rule):
    """States are pairs (memory, rest): memory is a frozenset of (cell, value) where cell is (root, offset) or the
    name of a load."""

    def mstart(self, f):
        return frozenset()

    def start(self, f):
        return (frozenset(), self.mstart(f))

    def enter(self, s, env):
        env.mem = dict((c, v) for c, v, _ in s[0]) if s[0] else None
        return env

    def size(self, f, v):
        c = const(v)
        if v[0] == 'i' and ':' in v:
            return TYSZ.get(v.split(':')[0], 8)
        n = f.insts.get(v)
        if n is not None:
            return TYSZ.get(n.ty, 8)
        if v[0] == 'a' and v[1:].isdigit():
            k = int(v[1:]) + 1
            if k < len(f.sig) and f.sig[k] >= 0:
                return f.m.size(f.sig[k]) or 8
        return 8

    def cell(self, f, a, env):
        k = q.akey(f, a, env)
        return k if k[0][0] == 'a' else None

    @staticmethod
    def kill(mem, root, off=None, size=None):
        return frozenset(t for t in mem if not (isinstance(t[0], tuple) and t[0][0] == root and (
            off is None or t[0][1] < off + size and off < t[0][1] + t[2])))

    def inst(self, f, s, n, env):
        self.enter(s, env)
        mem, rest = s
        out = self.event(f, rest, n, env)
        mem = self.step(f, mem, n, env)
        if isinstance(out, list):
            return [(mem, o) for o in out]
        return (mem, out)

    def step(self, f, mem, n, env):
        if n.op == 'load':
            mem = frozenset(t for t in mem if t[0] != n.v) if any(t[0] == n.v for t in mem) else mem
            k = self.cell(f, n.ops[0], env)
            if k is not None and not k[2]:
                for c, v, z in mem:
                    if c == (k[0], k[1]):
                        return mem | {(n.v, v, 0)}
            return mem
        if n.op == 'store':
            k = self.cell(f, n.ops[1], env)
            if k is None:
                return mem
            if k[2]:
                return self.kill(mem, k[0])
            z = self.size(f, n.ops[0])
            return self.kill(mem, k[0], k[1], z) | {((k[0], k[1]), q.vkey(f, n.ops[0], env), z)}
        if n.op != 'call':
            return mem
        fn = n.fn
        if fn in q.MEMCPY:
            d = self.cell(f, q.arg(n, 'dst'), env)
            if d is None:
                return mem
            z = const(q.res(f, q.arg(n, 'size'), env))
            if d[2] or z is None:
                return self.kill(mem, d[0])
            src = q.akey(f, q.arg(n, 'src'), env)
            new = set()
            if src[0][0] == 'a' and not src[2]:
                for c, v, cz in mem:
                    if isinstance(c, tuple) and c[0] == src[0] and src[1] <= c[1] and c[1] + cz <= src[1] + z:
                        new.add(((d[0], c[1] - src[1] + d[1]), v, cz))
            else:
                new.add(((d[0], d[1]), ('*',) + src, z))
            return self.kill(mem, d[0], d[1], z) | new
        if fn in ('llvm.memset.p0.i64', 'memset'):
            d = self.cell(f, q.arg(n, 'dst'), env)
            return mem if d is None else self.kill(mem, d[0])
        if fn in PURE or fn is not None and fn.startswith('llvm.'):
            return mem
        pos = q.POS.get(fn, {})
        role = {i: r for r, i in pos.items()}
        for i, o in enumerate(n.ops):
            if o[0] != '%':
                continue
            k = self.cell(f, o, env)
            if k is None:
                continue
            r = role.get(i)
            if r in READS.get(fn, ()) or r in INPUT and RESULT.get(fn, (None,))[0] != r:
                continue
            if fn == 'MPI_Get_address' and r == 'paddr':
                mem = self.kill(mem, k[0], k[1], 8) | {((k[0], k[1]), q.vkey(f, q.arg(n, 'addr'), env), 8)}
                continue
            mem = self.kill(mem, k[0])
            res = RESULT.get(fn)
            if res and res[0] == r:
                mem = mem | {((k[0], k[1]), ('recv', n.v), 16)}
        return mem

    def event(self, f, rest, n, env):
        return rest

    def medge(self, f, rest, blk, nxt, atoms, env):
        return rest

    def edge(self, f, s, blk, nxt, atoms, env):
        self.enter(s, env)
        if env.mem:
            for p, a, b in atoms:
                x, y = env.mem.get(a), const(b)
                if x is not None and x[0] == 'c' and y is not None and holds(p, x[1], y) is False:
                    return DEAD
        r = self.medge(f, s[1], blk, nxt, atoms, env)
        mem = s[0]
        ph = [n.v for n in f.blocks[nxt] if n.op == 'phi']
        if ph:
            mem = frozenset(t for t in mem if not any(q.mentions(t, v) for v in ph))
        mem = self.live(f, mem, nxt)
        if isinstance(r, list):
            return [(mem, x) for x in r]
        return r if r is DEAD else (mem, r)

    def live(self, f, mem, blk):
        """Drop what is remembered of loads and of stack objects that are not used from here on."""
        out = [t for t in mem if blk not in (self.usereach(f, t[0]) if isinstance(t[0], str) else self.objreach(f, t[0][0]))]
        return mem - frozenset(out) if out else mem

    def objreach(self, f, root):
        """Blocks from which an access to the stack object may follow."""
        if root[0] != 'a' or root[1] not in f.insts:
            return range(len(f.blocks))
        c = f.__dict__.setdefault('_or', {})
        if root not in c:
            v = root[1]
            seen, st, esc = {v}, [v], False
            while st:
                x = st.pop()
                for u in f.uses.get(x, []):
                    if u.op == 'store' and u.ops[0] == x:
                        esc = True
                    if u.v not in seen and u.op in ('getelementptr', 'phi', 'select', 'bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr', 'freeze'):
                        seen.add(u.v)
                        st.append(u.v)
            c[root] = range(len(f.blocks)) if esc else self.usereach(f, v)
        return c[root]

    def usereach(self, f, v):
        c = f.__dict__.setdefault('_ur', {})
        if v not in c:
            seen, st, blks = {v}, [v], set()
            while st:
                x = st.pop()
                for u in f.uses.get(x, []):
                    if u.op == 'phi':
                        blks |= {fr for o, fr in zip(u.ops, u.x['from']) if o == x}
                    blks.add(u.blk)
                    if u.v not in seen and u.op not in ('load', 'call', 'store', 'br', 'switch', 'ret'):
                        seen.add(u.v)
                        st.append(u.v)
            d = f.insts[v].blk
            reach, st = set(blks), list(blks)
            while st:
                b = st.pop()
                if b == d:
                    continue
                for p in f.pred[b]:
                    if p not in reach:
                        reach.add(p)
                        st.append(p)
            c[v] = reach
        return c[v]

    def ret(self, f, s, n, env):
        self.enter(s, env)
        self.mret(f, s[1], n, env)

    def mret(self, f, rest, n, env):
        pass

    def content(self, f, v, env, off=0):
        """Value held by the cell at address v (+off), None when not known or not local."""
        k = q.akey(f, v, env)
        if k[0][0] == 'a' and not k[2]:
            return (env.mem or {}).get((k[0], k[1] + off))
        return ('*', k[0], k[1] + off, k[2])
