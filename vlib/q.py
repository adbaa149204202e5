"""Queries shared by the rules: keys of values and memory locations, polynomial normal form of integer and address
arithmetic, argument roles of the MPI calls, loop shapes."""
import re
from .ir import const, CAST, AnalysisError, NEG, SWAP

# argument roles of the MPI functions the library uses
ARGS = {
    'MPI_Put': 'obuf ocount otype pe disp tcount ttype win',
    'MPI_Get': 'obuf ocount otype pe disp tcount ttype win',
    'MPI_Accumulate': 'obuf ocount otype pe disp tcount ttype op win',
    'MPI_Get_accumulate': 'obuf ocount otype rbuf rcount rtype pe disp tcount ttype op win',
    'MPI_Fetch_and_op': 'obuf rbuf type pe disp op win',
    'MPI_Compare_and_swap': 'obuf cbuf rbuf type pe disp win',
    'MPI_Win_flush_all': 'win', 'MPI_Win_flush_local_all': 'win', 'MPI_Win_flush': 'pe win',
    'MPI_Win_flush_local': 'pe win', 'MPI_Win_sync': 'win', 'MPI_Win_lock_all': 'assert win',
    'MPI_Win_unlock_all': 'win', 'MPI_Win_free': 'pwin', 'MPI_Win_create': 'base size unit info comm pwin',
    'MPI_Win_allocate': 'size unit info comm baseptr pwin', 'MPI_Win_create_dynamic': 'info comm pwin',
    'MPI_Win_attach': 'win base size', 'MPI_Win_detach': 'win base',
    'MPI_Isend': 'buf count type pe tag comm req', 'MPI_Irecv': 'buf count type pe tag comm req',
    'MPI_Send': 'buf count type pe tag comm', 'MPI_Recv': 'buf count type pe tag comm status',
    'MPI_Test': 'req flag status', 'MPI_Wait': 'req status', 'MPI_Testall': 'n reqs flag statuses',
    'MPI_Waitall': 'n reqs statuses', 'MPI_Cancel': 'req', 'MPI_Request_free': 'req',
    'MPI_Iprobe': 'pe tag comm flag status',
    'MPI_Barrier': 'comm', 'MPI_Ibarrier': 'comm req',
    'MPI_Bcast': 'buf count type root comm', 'MPI_Ibcast': 'buf count type root comm req',
    'MPI_Allreduce': 'sbuf rbuf count type op comm', 'MPI_Iallreduce': 'sbuf rbuf count type op comm req',
    'MPI_Allgather': 'sbuf scount stype rbuf rcount rtype comm',
    'MPI_Iallgather': 'sbuf scount stype rbuf rcount rtype comm req',
    'MPI_Allgatherv': 'sbuf scount stype rbuf rcounts displs rtype comm',
    'MPI_Iallgatherv': 'sbuf scount stype rbuf rcounts displs rtype comm req',
    'MPI_Alltoall': 'sbuf scount stype rbuf rcount rtype comm',
    'MPI_Ialltoall': 'sbuf scount stype rbuf rcount rtype comm req',
    'MPI_Type_vector': 'count blen stride otype ptype', 'MPI_Type_create_resized': 'otype lb extent ptype',
    'MPI_Type_contiguous': 'count otype ptype', 'MPI_Type_create_hvector': 'count blen stride otype ptype',
    'MPI_Type_commit': 'ptype', 'MPI_Type_free': 'ptype', 'MPI_Type_get_extent': 'type lb extent',
    'MPI_Type_size': 'type size', 'MPI_Get_address': 'addr paddr',
    'MPI_Comm_dup': 'comm pcomm', 'MPI_Comm_split': 'comm color key pcomm',
    'MPI_Comm_split_type': 'comm type key info pcomm', 'MPI_Comm_create_group': 'comm group tag pcomm',
    'MPI_Comm_free': 'pcomm', 'MPI_Comm_group': 'comm pgroup', 'MPI_Comm_rank': 'comm prank',
    'MPI_Comm_size': 'comm psize', 'MPI_Comm_get_attr': 'comm key val flag',
    'MPI_Group_incl': 'group n ranks pgroup', 'MPI_Group_free': 'pgroup', 'MPI_Group_range_incl': 'group n ranges pgroup',
    'MPI_Group_translate_ranks': 'group1 n ranks1 group2 ranks2',
    'MPI_Info_create': 'pinfo', 'MPI_Info_free': 'pinfo', 'MPI_Info_set': 'info key value',
    'llvm.memcpy.p0.p0.i64': 'dst src size volatile', 'llvm.memmove.p0.p0.i64': 'dst src size volatile',
    'llvm.memset.p0.i64': 'dst value size volatile', 'memcpy': 'dst src size', 'memset': 'dst value size',
}
POS = {f: {a: i for i, a in enumerate(s.split())} for f, s in ARGS.items()}
RMA_OPS = ('MPI_Put', 'MPI_Get', 'MPI_Accumulate', 'MPI_Get_accumulate', 'MPI_Fetch_and_op', 'MPI_Compare_and_swap',
           'MPI_Rput', 'MPI_Rget')
MEMCPY = ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove')


def arg(n, role):
    """Operand of the call n in the given role, None if the call has no such argument."""
    p = POS.get(n.fn)
    if p is None or role not in p or p[role] >= len(n.ops):
        return None
    return n.ops[p[role]]


# ---------------------------------------------------------------------------------------------- keys
def res(f, v, env):
    """Value of v on the current path; induction variables stay symbolic."""
    if env is None:
        return v
    n = f.insts.get(f.strip(v))
    if n is not None and n.op == 'phi' and n.blk in f.loops():
        return f.strip(v)
    for _ in range(20):
        w = f.strip(v)
        n = f.insts.get(w)
        if n is not None and n.op == 'phi':
            if n.blk in f.loops():
                return w
            x = env.phi.get(w, w)
        elif n is not None and n.op == 'select':
            t = env.truth(n.ops[0])
            x = w if t is None else n.ops[1 if t else 2]
        else:
            x = w
        if x == v:
            return x
        v = x
    return v


def vkey(f, v, env=None, d=14):
    """Structural key of a value; two values with the same key are equal when the locations they read are not
    written in between."""
    v = f.strip(res(f, v, env))
    n = f.insts.get(v)
    if n is None:
        c = const(v)
        return ('c', c) if c is not None and v != 'null' else ('v', v)
    if d == 0:
        return ('v', v)
    if n.op == 'load':
        if env is not None and env.mem and v in env.mem:
            return env.mem[v]
        return ('*',) + akey(f, n.ops[0], env, d - 1)
    if n.op == 'getelementptr':
        return ('&',) + akey(f, v, env, d - 1)
    if n.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr'):
        a, b = vkey(f, n.ops[0], env, d - 1), vkey(f, n.ops[1], env, d - 1)
        if n.op in ('add', 'mul', 'and', 'or', 'xor') and str(b) < str(a):
            a, b = b, a
        if n.op == 'or':
            # a wide value put together from its two halves
            for x, y in ((a, b), (b, a)):
                if x[0] == '*' and y[0] == 'shl' and y[1][0] == '*' and y[2] in (('c', 32), ('c', 16), ('c', 8)) and y[1] == ('*',) + shift(x[1:], y[2][1] // 8):
                    return x
        if n.op == 'lshr' and n.ty == 'i64' and a[0] == '*' and b == ('c', 32):
            return ('*',) + shift(a[1:], 4)
        return (n.op, a, b)
    if n.op == 'select':
        return ('?',) + tuple(vkey(f, o, env, d - 1) for o in n.ops)
    if n.op == 'icmp':
        return ('cmp', n.x['pred'], vkey(f, n.ops[0], env, d - 1), vkey(f, n.ops[1], env, d - 1))
    return ('v', v)


def akey(f, v, env=None, d=14):
    """Key of the memory location at address v: (root key, byte offset, ((index key, stride), ...))."""
    off, var = 0, ()
    for _ in range(20):
        v = res(f, v, env)
        r, o, vr, h = f.addr(v)
        off += o
        var = tuple((vkey(f, x, env, d - 1) if d else ('v', x), s) for x, s in vr) + var
        if r == v or env is None:
            v = r
            break
        r2 = res(f, r, env)
        if r2 == r:
            v = r
            break
        v = r2
    if v[0] == '%':
        n = f.insts[v]
        root = ('a', v) if n.op == 'alloca' else vkey(f, v, env, d - 1 if d else 0) if d else ('v', v)
        if root[0] == '&':
            root, off, var = root[1], root[2] + off, root[3] + var
        elif root[0] == 'v' and root[1][0] == '%' and f.insts[root[1]].op == 'alloca':
            root = ('a', root[1])
    else:
        root = ('v', v)
    return (root, off, var)


def shift(k, d):
    """Location key d bytes further."""
    return (k[0], k[1] + d, k[2])


def mentions(k, v):
    """Does the key involve the SSA value v?"""
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] in ('v', 'a') and k[1] == v:
            return True
        return any(mentions(x, v) for x in k)
    return False


def pr(f, k):
    """Readable form of a key."""
    if isinstance(k, tuple) and k and k[0] == 'v':
        v = k[1]
        n = f.insts.get(v) if v[0] == '%' else None
        return f.expr(v) if n is not None and n.op == 'phi' else v
    if isinstance(k, tuple) and len(k) == 3 and isinstance(k[1], int):
        return '%s+%d%s' % (pr(f, k[0]), k[1], ''.join('[%s]' % pr(f, i) for i, _ in k[2]))
    if isinstance(k, tuple):
        if k and k[0] == '*':
            return '*(%s)' % pr(f, k[1:])
        if k and k[0] == '&':
            return '&(%s)' % pr(f, k[1:])
        return '(%s)' % ' '.join(pr(f, x) if isinstance(x, tuple) else str(x) for x in k)
    return str(k)


# ---------------------------------------------------------------------------------------------- polynomials
class Poly:
    """Sum of integer multiples of products of atoms: {sorted tuple of atoms: coefficient}."""
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = {k: c for k, c in (t or {}).items() if c}

    @staticmethod
    def c(n):
        return Poly({(): n})

    @staticmethod
    def a(x):
        return Poly({(x,): 1})

    def __add__(self, o):
        r = dict(self.t)
        for k, c in o.t.items():
            r[k] = r.get(k, 0) + c
        return Poly(r)

    def __sub__(self, o):
        return self + o * Poly.c(-1)

    def __mul__(self, o):
        r = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                k = tuple(sorted(a + b, key=str))
                r[k] = r.get(k, 0) + x * y
        return Poly(r)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def const(self):
        if not self.t:
            return 0
        if set(self.t) == {()}:
            return self.t[()]
        return None

    def atoms(self):
        return {a for k in self.t for a in k}

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for k, c in sorted(self.t.items(), key=str):
            s = '*'.join(str(a) for a in k)
            out.append(str(c) if not k else (s if c == 1 else '%d*%s' % (c, s)))
        return ' + '.join(out)


def poly(f, v, env=None, name=None, d=24):
    """Polynomial of an integer or address value. Casts are ignored; name(f, v) may give an atom for a value."""
    v = f.strip(res(f, v, env))
    if name is not None:
        a = name(f, v)
        if a is not None:
            return a if isinstance(a, Poly) else Poly.a(a)
    c = const(v)
    if c is not None:
        return Poly.c(c)
    n = f.insts.get(v)
    if n is None:
        m = re.match(r'(g:.+)\+(\d+)$', v)
        if m:
            return Poly.a(('v', m.group(1) + '+0')) + Poly.c(int(m.group(2)))
        return Poly.a(('v', v))
    if d == 0:
        return Poly.a(('v', v))
    P = lambda x: poly(f, x, env, name, d - 1)
    if n.op == 'add':
        return P(n.ops[0]) + P(n.ops[1])
    if n.op == 'sub':
        return P(n.ops[0]) - P(n.ops[1])
    if n.op == 'mul':
        return P(n.ops[0]) * P(n.ops[1])
    if n.op == 'shl' and const(n.ops[1]) is not None:
        return P(n.ops[0]) * Poly.c(1 << const(n.ops[1]))
    if n.op == 'getelementptr':
        r = P(n.ops[0]) + Poly.c(n.x['off'])
        for o, s in n.x['var']:
            r = r + P(o) * Poly.c(s)
        return r
    return Poly.a(vkey(f, v, env))


# ---------------------------------------------------------------------------------------------- loops
class Count:
    """A counted loop: every value of the induction variable in [lo, hi) is visited unless the loop is left early."""
    def __init__(self, f, head, phi, lo, hi, exitblk, inside, outside):
        self.f, self.head, self.phi, self.lo, self.hi, self.exitblk, self.inside, self.outside = f, head, phi, lo, hi, exitblk, inside, outside


def inductions(f, head):
    """[(phi, init, step)] of the loop with this header (SSA values stepped by a constant)."""
    body = f.loops()[head]
    out = []
    for n in f.blocks[head]:
        if n.op != 'phi':
            break
        init, steps = None, set()
        ok = True
        for o, fr in zip(n.ops, n.x['from']):
            if fr in body:
                s = f.strip(o)
                d = f.insts.get(s)
                k = None
                if d is not None and d.op == 'add' and f.strip(d.ops[0]) == n.v:
                    k = const(d.ops[1])
                elif d is not None and d.op == 'sub' and f.strip(d.ops[0]) == n.v and const(d.ops[1]) is not None:
                    k = -const(d.ops[1])
                elif d is not None and d.op == 'getelementptr' and f.strip(d.ops[0]) == n.v and not d.x['var']:
                    k = ('p', d.x['off'])
                if k is None:
                    ok = False
                else:
                    steps.add(k)
            else:
                if init is not None and init != o:
                    ok = False
                init = o
        if ok and len(steps) == 1 and init is not None:
            out.append((n, init, steps.pop()))
    return out


def counts(f):
    """Counted loops of f. The test may sit in the header or at the bottom (after the step)."""
    if getattr(f, '_counts', None) is not None:
        return f._counts
    out = []
    for h, body in f.loops().items():
        for phi, init, step in inductions(f, h):
            if step not in (1, -1):
                continue
            nxt = {u.v for u in f.uses[phi.v] if u.op in ('add', 'sub') and u.blk in body and any(
                o == u.v or f.strip(o) == u.v for o in phi.ops)}
            for b in body:
                t = f.blocks[b][-1]
                if t.op != 'br' or len(t.x['to']) != 2:
                    continue
                outs = [x for x in t.x['to'] if x not in body]
                if len(outs) != 1:
                    continue
                stay = t.x['to'][0] in body
                for p, a, c in f.atoms(t.ops[0], stay):
                    a0, c0 = f.strip(a), f.strip(c)
                    if c0 == phi.v or c0 in nxt:
                        a0, c0, p = c0, a0, SWAP.get(p, p)
                    post = a0 in nxt
                    if a0 != phi.v and not post:
                        continue
                    # values of phi for which the body is entered (post: the next value)
                    if step == 1 and p in ('slt', 'ult', 'ne'):
                        out.append(Count(f, h, phi, init, (c0, 0), b, None, outs[0]))
                    elif step == 1 and p in ('sle', 'ule'):
                        out.append(Count(f, h, phi, init, (c0, 1), b, None, outs[0]))
                    elif step == -1:
                        # down-counting from init to bound
                        if p in ('sgt', 'ugt', 'ne'):
                            out.append(Count(f, h, phi, (c0, 1), (init, 1), b, None, outs[0]))
                        elif p in ('sge', 'uge'):
                            out.append(Count(f, h, phi, (c0, 0), (init, 1), b, None, outs[0]))
                    break
    f._counts = out
    return out


def covers(c, idx=None, env=None):
    """Polynomial N when the index expression idx (default: the induction variable) of the loop c visits every
    value 0..N-1, else None."""
    f = c.f
    k = Poly.c(0)
    if idx is not None:
        k = poly(f, idx, env) - Poly.a(('v', c.phi.v))
        if k.const() is None:
            return None
    lo = c.lo if isinstance(c.lo, tuple) else (c.lo, 0)
    l = poly(f, lo[0], env) + Poly.c(lo[1]) + k
    if l.const() != 0:
        return None
    return poly(f, c.hi[0], env) + Poly.c(c.hi[1]) + k


# ---------------------------------------------------------------------------------------------- the program's types
class Model:
    """Objects of the library found in its types and global variables."""
    def __init__(self, m):
        self.m = m
        T = m.types
        # a context record: a struct that holds an MPI window and its tracking flag
        self.ictx = [i for i, t in enumerate(T) if t['k'] == 'struct' and any(self.iswin(x[2]) for x in t['m']) and len(t['m']) <= 3]
        if not self.ictx:
            raise AnalysisError('no structure with an MPI window found')
        t = T[self.ictx[0]]
        self.ictx_size = t['sz']
        self.win_off = [x[1] for x in t['m'] if self.iswin(x[2])][0]
        self.flag_off = [x[1] for x in t['m'] if not self.iswin(x[2])][0]
        self.flag_name = [x[0] for x in t['m'] if not self.iswin(x[2])][0]
        self.globwins = []                       # location keys of the windows embedded in globals
        for g, (_, ty, *_r) in m.globals.items():
            for off, path in self.embedded(ty):
                self.globwins.append((('v', 'g:' + g), off + self.win_off, ()))
        self.globname = {}
        # the element type of the list of memory spaces: has a pointer to its own type, embeds or points to contexts
        self.space = None
        for i, t in enumerate(T):
            if t['k'] == 'struct' and any(self.ptrto(x[2]) == i for x in t['m']) and any(
                    self.ptrto(x[2]) >= 0 and self.embedded(self.ptrto(x[2])) for x in t['m']):
                self.space = i
        if self.space is None:
            raise AnalysisError('no list element structure with contexts found')
        st = T[self.space]
        self.space_next = [x[1] for x in st['m'] if self.ptrto(x[2]) == self.space][0]
        self.space_wins = [o + self.win_off for o, _ in self.embedded(self.space)]
        self.space_arr = [(x[1], T[self.ptrto(x[2])]['sz'], self.embedded(self.ptrto(x[2]))[0][0]) for x in st['m']
                          if self.ptrto(x[2]) >= 0 and self.ptrto(x[2]) != self.space and self.embedded(self.ptrto(x[2]))]
        self.space_num = None
        for o, path, ty in self.leaves(self.space):
            if path.endswith('num_contexts'):
                self.space_num = o

    def iswin(self, t):
        t = self.m.types[t]
        return t['k'] == 'ptr' and t['of'] >= 0 and self.m.tname(t['of']) in ('ompi_win_t',)

    def ptrto(self, t):
        t = self.m.types[t]
        return t['of'] if t['k'] == 'ptr' else -1

    def embedded(self, ty, path=''):
        """[(offset, path)] of the context records embedded by value in a type."""
        if ty is None or ty < 0:
            return []
        t = self.m.types[ty]
        if ty in self.ictx:
            return [(0, path)]
        out = []
        if t['k'] == 'struct':
            for n, o, mt in t['m']:
                out += [(o + a, b) for a, b in self.embedded(mt, path + '.' + n)]
        return out

    def leaves(self, ty, path=''):
        t = self.m.types[ty]
        if t['k'] == 'struct':
            out = []
            for n, o, mt in t['m']:
                out += [(o + a, b, c) for a, b, c in self.leaves(mt, path + '.' + n)]
            return out
        return [(0, path, ty)]

    def gfield(self, g, path):
        """Location key of a field of a global."""
        ty = self.m.globals['g:' + g if 'g:' + g in self.m.globals else g][1]
        for o, p, t in self.leaves(ty):
            if p == '.' + path:
                return (('v', 'g:' + g), o, ())
        raise AnalysisError('%s.%s not found' % (g, path))

    def locname(self, k):
        """Readable name of a location key in a global."""
        if k[0][0] == 'v' and k[0][1].startswith('g:'):
            g = k[0][1][2:]
            if g in self.m.globals:
                p, _, _ = self.m.walk(self.m.globals[g][1], k[1], [s for _, s in k[2]], set())
                return g + p
        return str(k)


def model(m):
    if getattr(m, '_model', None) is None:
        m._model = Model(m)
    return m._model


def loadaddr(f, v):
    """Address read by the value v: a load, or an atomic load call."""
    n = f.insts.get(f.strip(v))
    if n is None:
        return None
    if n.op == 'load':
        return n.ops[0]
    if n.op == 'call' and n.fn in ('OPA_load_int', 'OPA_load_ptr', 'OPA_load_acquire_int'):
        return n.ops[0]
    return None


def storeof(n):
    """(value, address) written by a store or an atomic store call."""
    if n.op == 'store':
        return n.ops[0], n.ops[1]
    if n.op == 'call' and n.fn in ('OPA_store_int', 'OPA_store_release_int'):
        return n.ops[1], n.ops[0]
    return None


def amflags(m):
    """Location key prefix (array base) of the per-PE array of outstanding active-message flags."""
    if getattr(m, '_amflags', None) is None:
        cand = {}
        for f, ms in m.reps('^shmem'):
            for n in f.all():
                s = storeof(n)
                if s and const(s[0]) not in (None, 0):
                    k = akey(f, s[1])
                    if k[0][0] == '*' and k[0][1][0] == 'v' and k[0][1][1].startswith('g:') and len(k[2]) == 1:
                        cand[k[0], k[1]] = cand.get((k[0], k[1]), 0) + 1
        if not cand:
            raise AnalysisError('no per-PE array of outstanding-operation flags found')
        m._amflags = max(cand, key=lambda x: cand[x])
    return m._amflags


def isflag(m, k):
    """Index key when the location key k is an element of the outstanding-flag array."""
    a = amflags(m)
    if (k[0], k[1]) == a and len(k[2]) == 1:
        return k[2][0][0]
    return None


def has_am(m):
    try:
        amflags(m)
        return True
    except AnalysisError:
        return False


def listwalks(f, head, nextoff):
    """{header block: cursor phi} of the loops that walk the list whose head is stored at key head from its first
    element on, following the link at offset nextoff (possibly saved in a temporary)."""
    out = {}

    def isload(v):
        a = loadaddr(f, v)
        return a is not None and akey(f, a) == head

    def steps(v, phi, body, d=4):
        a = loadaddr(f, v)
        if a is not None:
            r, off, var, _ = f.addr(a)
            return not var and off == nextoff and r == phi
        n = f.insts.get(v)
        if n is not None and n.op == 'phi' and d:
            ok = False
            for o, fr in zip(n.ops, n.x['from']):
                if fr not in body:
                    continue
                o = f.strip(o)
                if steps(o, phi, body, 0):
                    ok = True
                elif f.insts.get(o) is not None and f.insts[o].op == 'phi' or o in ('undef', 'null'):
                    continue
                else:
                    return False
            return ok
        return False
    for h, body in f.loops().items():
        for n in f.blocks[h]:
            if n.op != 'phi' or n.ty != 'ptr':
                continue
            ini = [f.strip(o) for o, fr in zip(n.ops, n.x['from']) if fr not in body]
            nxt = [f.strip(o) for o, fr in zip(n.ops, n.x['from']) if fr in body]
            if ini and nxt and all(isload(i) for i in ini) and all(steps(s, n.v, body) for s in nxt):
                out[h] = n
    return out
