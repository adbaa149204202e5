"""Address translation: window, displacement and object of every one-sided access."""
import re
from .. import q
from ..ir import const, AnalysisError
from ..core import sim
from ..mem import Mem
from ..paths import DEAD
from ..complete import DEFAULT_CTX
from .c06 import Proto, SEND

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'direct']
EXPLAIN = ('At every MPI one-sided call and every packet, on every path, the displacement is reduced to a linear form over the arguments and the fields of the '
           'object descriptors; it must be the target address minus the base of one object, the path must have established that the address lies in that object '
           '(or that the caller passed a created context), and the window must be the one created over that object. The handlers are followed from the handle in the packet '
           'to the base they add the displacement to, with a known-bits evaluation of the handle encoding. Window creation sites are paired with the descriptors they must agree with.')
ASSUME = ['fewer than 2^29 spaces are attached during a run (index bits of the handle)', 'all PEs attach spaces in the same order (collective calls)',
          'the address passed with a created context belongs to the space of the context (required of the program)']


def lin(k):
    """Linear form {leaf: coefficient, None: constant} of a key."""
    out = {}

    def add(k, c):
        t = k[0]
        if t == 'c':
            out[None] = out.get(None, 0) + c * k[1]
        elif t == 'add':
            add(k[1], c), add(k[2], c)
        elif t == 'sub':
            add(k[1], c), add(k[2], -c)
        elif t == '&':
            add(k[1], c)
            out[None] = out.get(None, 0) + c * k[2]
            for x, s in k[3]:
                if s is None:
                    out[x] = out.get(x, 0) + c
                else:
                    add(x, c * s)
        elif t == 'mul' and 'c' in (k[1][0], k[2][0]):
            x, y = (k[1], k[2]) if k[1][0] == 'c' else (k[2], k[1])
            add(y, c * x[1])
        elif t == 'shl' and k[2][0] == 'c':
            add(k[1], c << k[2][1])
        else:
            if k == ('v', 'null'):
                return
            out[k] = out.get(k, 0) + c
    add(k, 1)
    return {x: c for x, c in out.items() if c or x is None}


def diff(a, b):
    d = dict(a)
    for x, c in b.items():
        d[x] = d.get(x, 0) - c
    return {x: c for x, c in d.items() if c}


class Objects:
    """Descriptors of symmetric objects and the windows beside them, from the types of the library."""
    def __init__(self, m):
        self.m = m
        self.M = q.model(m)
        self.attr = m.byname.get('OSHMPI_sobj_attr')
        if self.attr is None:
            raise AnalysisError('no symmetric object descriptor found')
        F = {x[0]: x[1] for x in m.types[self.attr]['m']}
        self.handle, self.base, self.size = F['handle'], F['base'], F['size']
        self.offsets = F.get('base_offsets')
        self.attrsize = m.types[self.attr]['sz']
        self.inctx = self.inspace = self.ctxwin = self.spacewin = None
        for name in ('OSHMPI_ctx', 'OSHMPI_space'):
            t = m.byname.get(name)
            if t is None:
                continue
            o = [x[1] for x in m.types[t]['m'] if x[2] == self.attr]
            w = [a + self.M.win_off for a, _ in self.M.embedded(t)]
            if name == 'OSHMPI_ctx':
                self.inctx, self.ctxwin = o[0], w[0]
            else:
                self.inspace, self.spacewin = o[0], (w[0] if w else None)
        self.globs = [(('v', 'g:' + g), o, ()) for g, x in m.globals.items() for o in self.find(x[1])]

        # the displacement mode kept beside a window (dynamic windows): the constants ever stored
        t = m.types[self.M.ictx[0]]
        o = [x[1] for x in t['m'] if x[1] not in (self.M.win_off, self.M.flag_off)]
        self.modeoff, self.modes = (o[0] if o else None), {}
        if o:
            for f, ms in m.reps('^shmem'):
                for n in f.all():
                    if n.op == 'store':
                        k = q.akey(f, n.ops[1])
                        W = (k[0], k[1] - o[0] + self.M.win_off, k[2])
                        if W in self.M.globwins:
                            self.modes.setdefault(W, set()).add(const(n.ops[0]))
                        elif k[2] and f.name.endswith('attach') and k[1] == self.ctxwin - self.M.win_off + o[0]:
                            self.modes.setdefault(('ctx', 0), set()).add(const(n.ops[0]))

    def find(self, ty, base=0):
        if ty is None or ty < 0:
            return []
        t = self.m.types[ty]
        if ty == self.attr:
            return [base]
        if t['k'] == 'struct':
            return [y for x in t['m'] for y in self.find(x[2], base + x[1])]
        return []

    def name(self, A):
        if A[0][0] == 'v' and A[0][1].startswith('g:'):
            return self.M.locname(A)
        return 'the space' if A[1] == self.inspace else 'the context'


class Translate(Mem):
    def __init__(self, m, R, O, P, members, pairs):
        self.m, self.R, self.O, self.P, self.members, self.pairs = m, R, O, P, members, pairs
        self.done = set()

    def mstart(self, f):
        self.ctx = ('v', 'a0') if re.match(r'shmemx?_ctx_', f.name) else None
        return frozenset()

    def bad(self, rule, key, what, f, n):
        self.R.bad(rule, '%s:%s' % (f.name, key), '%s: %s' % (f.name, what), f, n, self, self.members)

    def medge(self, f, s, blk, nxt, atoms, env):
        ph = [n.v for n in f.blocks[nxt] if n.op == 'phi']
        if ph:
            s = frozenset(t for t in s if not any(q.mentions(t, v) for v in ph))
        if self.O.modeoff is not None:
            for p, a, b in atoms:
                ad, c = q.loadaddr(f, a), const(b)
                if ad is not None and c is not None and p in ('eq', 'ne'):
                    k = q.akey(f, ad, env)
                    W = (k[0], k[1] - self.O.modeoff + self.O.M.win_off, k[2])
                    g = ('ctx', 0) if self.ctx is not None and W[0] == self.ctx else W
                    md = self.O.modes.get(g)
                    if md is not None and len(md) == 1 and (c in md) != (p == 'eq'):
                        return DEAD
        if self.asserted(f, blk, nxt):
            return s
        for p, a, b in atoms:
            s = self.fact(f, s, p, a, b, env)
        return s

    def asserted(self, f, blk, nxt):
        """The alternative to this edge only aborts: an assertion, not a choice of the object."""
        c = f.__dict__.setdefault('_asserts', {})
        if (blk, nxt) not in c:
            c[blk, nxt] = any(not self.returns(f, x) for x in f.succ[blk] if x != nxt)
        return c[blk, nxt]

    @staticmethod
    def returns(f, b):
        c = f.__dict__.setdefault('_rets', None)
        if c is None:
            c = f._rets = set()
            st = [i for i, bl in enumerate(f.blocks) if bl[-1].op == 'ret']
            while st:
                x = st.pop()
                if x not in c:
                    c.add(x)
                    st += f.pred[x]
        return b in c

    def fact(self, f, s, p, a, b, env):
        O = self.O
        x, y = q.vkey(f, a, env), q.vkey(f, b, env)
        if self.ctx is not None:
            for u, v in ((x, y), (y, x)):
                if u == self.ctx and v == ('c', DEFAULT_CTX):
                    return s | {('ctx', p == 'eq')} if p in ('eq', 'ne') else s
        if O.offsets is not None and p in ('ne', 'eq') and y == ('c', 0) and x[0] == 'and':
            for u, v in ((x[1], x[2]), (x[2], x[1])):
                A = self.isfield(u, O.handle) if v[0] == 'c' else None
                if A is not None:
                    return s | {('symm', p == 'ne', A)}
        d = diff(lin(x), lin(y))
        k = d.pop(None, 0)
        if p in ('sle', 'ule'):
            p, k = p[0] + 'lt', k - 1
        elif p in ('sgt', 'ugt'):
            p, k, d = p[0] + 'lt', -k, {z: -c for z, c in d.items()}
        elif p in ('sge', 'uge'):
            p, k, d = p[0] + 'lt', -k - 1, {z: -c for z, c in d.items()}
        if p not in ('slt', 'ult'):
            return s
        # sum(d) + k < 0
        neg = [z for z, c in d.items() if c == -1]
        pos = [z for z, c in d.items() if c == 1]
        if len(neg) + len(pos) != len(d):
            return s
        if len(pos) == 1 and len(neg) == 1 and k == -1:
            # base <= X
            A = self.isfield(pos[0], O.base)
            if A is not None:
                return s | {('ge', neg[0], A)}
        if len(pos) == 1 and len(neg) == 2 and k == 0:
            # X < base + size, or X - base < size (unsigned)
            for u, v in ((neg[0], neg[1]), (neg[1], neg[0])):
                A, B = self.isfield(u, O.base), self.isfield(v, O.size)
                if A is not None and A == B:
                    s = s | {('lt', pos[0], A)}
                    if p == 'ult' and x[0] == 'sub' and y == ('*',) + q.shift(A, O.size):
                        s = s | {('ge', pos[0], A)}
                    return s
        return s

    def isfield(self, k, off):
        """Descriptor whose field at off the key reads."""
        if k[0] != '*' or k[3]:
            return None
        A = (k[1], k[2] - off, ())
        if A in self.O.globs:
            return A
        if A[0] in [g[0] for g in self.O.globs]:
            return None
        if A[1] in (self.O.inspace, self.O.inctx):
            return A
        return None

    def event(self, f, s, n, env):
        if n.op != 'call':
            return s
        if n.fn in q.RMA_OPS:
            self.op(f, s, n, env)
        elif n.fn in SEND and self.P is not None:
            self.packet(f, s, n, env)
        return s

    def op(self, f, s, n, env):
        O, M = self.O, self.O.M
        self.R.ob('window', '%s %s' % (f.name, f.where(n)))
        a = q.loadaddr(f, q.res(f, q.arg(n, 'win'), env))
        W = q.akey(f, a, env) if a is not None else None
        if W is None or W[2]:
            self.bad('window', n.fn, 'the window of the %s is not the window of an object' % n.fn, f, n)
            return
        A = None
        if W[0] == self.ctx:
            if W[1] != O.ctxwin:
                self.bad('window', n.fn, 'the %s does not use the window of the context' % n.fn, f, n)
                return
            A = (W[0], O.inctx, ())
        D = lin(q.vkey(f, q.arg(n, 'disp'), env))
        self.R.ob('disp', '%s %s' % (f.name, f.where(n)))
        r = self.target(f, s, n, env, D, q.arg(n, 'pe'), W)
        if r is None:
            return
        A2, X = r
        self.pairs.setdefault((self.gen(W), self.gen(A2)), (f, n))
        # created contexts are used whenever the caller gave one
        if self.ctx is not None and W[0] != self.ctx and ('ctx', True) not in s:
            self.bad('context', n.fn, 'the %s ignores the context of the caller' % n.fn, f, n)
        if self.ctx is not None:
            self.R.ob('context', '%s %s' % (f.name, f.where(n)))
        if (W[0] == self.ctx) != (A2[0] == self.ctx):
            self.bad('window', n.fn, 'the %s mixes the window and the base of different objects' % n.fn, f, n)
        if W[0] == self.ctx and ('ctx', False) not in s:
            self.bad('context', n.fn, 'the %s treats the default context as a created one' % n.fn, f, n)

    def gen(self, L):
        """Location with local pointers replaced by the kind of structure they point to."""
        if L[0][0] == 'v' and L[0][1].startswith('g:'):
            return L
        if self.ctx is not None and L[0] == self.ctx:
            return ('ctx', L[1])
        return ('space', L[1])

    def target(self, f, s, n, env, D, pe, W=None):
        """(descriptor, address) a displacement stands for."""
        O = self.O
        D = dict(D)
        c = D.pop(None, 0)
        what = n.fn if W is not None else 'packet'
        neg = [k for k, v in D.items() if v == -1]
        pos = [k for k, v in D.items() if v == 1]
        extra = [k for k, v in D.items() if v not in (1, -1)]
        if W is not None and self.dyn(W):
            return self.absolute(f, s, n, env, pos, neg, extra, c, pe)
        if extra or len(pos) != 1 or len(neg) != 1:
            self.bad('disp', what, 'the displacement of the %s is not the distance of the target address from the base of an object' % what, f, n)
            return None
        A, X = self.isfield(neg[0], O.base), pos[0]
        if A is None:
            self.bad('disp', what, 'the displacement of the %s is not relative to the base of an object' % what, f, n)
            return None
        return self.located(f, s, n, A, X, c, what)

    def located(self, f, s, n, A, X, c, what):
        if X[0] != 'v' or not re.match(r'a\d+$', X[1]) or X == self.ctx:
            self.bad('disp', what, 'the displacement of the %s is not that of an address passed by the caller' % what, f, n)
            return None
        if c and not (f.name.endswith('_lock') and 0 < c < 8):
            self.bad('disp', what, 'the displacement of the %s is off by %d bytes' % (what, c), f, n)
            return None
        self.R.ob('object', '%s %s' % (f.name, f.where(n)))
        if A[0] != self.ctx and not {('ge', X, A), ('lt', X, A)} <= s:
            self.bad('object', what, 'the %s is addressed in %s, but the address is not known to lie in it' % (what, self.O.name(A)), f, n)
        return A, X

    def dyn(self, W):
        return self.O.offsets is not None and W[0] != self.ctx

    def absolute(self, f, s, n, env, pos, neg, extra, c, pe):
        """Dynamic window: absolute address of the target at the remote PE."""
        O = self.O
        if neg or extra or len(pos) not in (1, 2):
            self.bad('disp', n.fn, 'the displacement of the %s is not an address' % n.fn, f, n)
            return None
        xs = [k for k in pos if k[0] == 'v']
        offs = [k for k in pos if k[0] == '*']
        if len(xs) != 1 or len(xs) + len(offs) != len(pos):
            self.bad('disp', n.fn, 'the displacement of the %s is not an address' % n.fn, f, n)
            return None
        X = xs[0]
        if offs:
            k = offs[0]
            pk = q.vkey(f, pe, env)
            ok = k[1][0] == '*' and lin(('&',) + k[1:]) == lin(('&', k[1], 0, ((pk, 8),)))
            A = self.isfield(k[1], O.offsets) if ok else None
            if A is None:
                self.bad('disp', n.fn, 'the displacement of the %s does not use the offset of the target PE' % n.fn, f, n)
                return None
        else:
            A = [t[2] for t in s if t[0] == 'symm' and t[1]]
            A = [a for a in A if {('ge', X, a), ('lt', X, a)} <= s]
            if not A:
                self.bad('disp', n.fn, 'the %s uses the local address although the object may be at another address at the target' % n.fn, f, n)
                return None
            A = A[0]
        return self.located(f, s, n, A, X, c, n.fn)

    def packet(self, f, s, n, env):
        P, T = self.P, self.P.T
        if q.vkey(f, q.arg(n, 'comm'), env) != ('*',) + P.comm or const(q.res(f, q.arg(n, 'count'), env)) != T.size:
            return
        b = q.akey(f, q.arg(n, 'buf'), env)
        typ = (env.mem or {}).get((b[0], b[1] + T.type_off))
        if typ is None or typ[0] != 'c':
            return
        fl = T.fields.get(P.kind(typ[1]), {})
        if 'sobj_handle' not in fl:
            return
        self.R.ob('packet', '%s %s' % (f.name, f.where(n)))
        h = (env.mem or {}).get((b[0], b[1] + fl['sobj_handle'][0]))
        d = (env.mem or {}).get((b[0], b[1] + fl['target_disp'][0]))
        if h is None or d is None:
            self.bad('packet', P.kind(typ[1]), 'a %s packet is sent without a handle or displacement' % P.kind(typ[1]), f, n)
            return
        r = self.target(f, s, n, env, lin(d), q.arg(n, 'pe'))
        if r is None:
            return
        if h[0] != '*' or (h[1], h[2] - self.O.handle, h[3]) != r[0]:
            self.bad('packet', P.kind(typ[1]), 'the handle in the %s packet is not that of the object the displacement is relative to' % P.kind(typ[1]), f, n)
        if self.ctx is not None and r[0][0] != self.ctx and ('ctx', True) not in s:
            self.bad('context', 'packet', 'the packet ignores the context of the caller', f, n)


# ------------------------------------------------------------------------------------------------ handlers
def bits(k, leaf, width=32):
    """Known bits (mask, value) of a key; leaf(k) gives them for other keys."""
    full = (1 << width) - 1
    t = k[0]
    r = leaf(k)
    if r is not None:
        return r
    if t == 'c':
        return full, k[1] & full
    if t in ('or', 'and', 'xor', 'add'):
        (m1, v1), (m2, v2) = bits(k[1], leaf, width), bits(k[2], leaf, width)
        if t == 'or':
            one = (m1 & v1) | (m2 & v2)
            return ((m1 & m2) | one) & full, (v1 | v2) & ((m1 & m2) | one)
        if t == 'and':
            zero = (m1 & ~v1) | (m2 & ~v2)
            return ((m1 & m2) | zero) & full, v1 & v2 & (m1 & m2) & full
        if t == 'xor':
            return m1 & m2, (v1 ^ v2) & m1 & m2
        z1, z2 = m1 & ~v1 & full, m2 & ~v2 & full
        if (z1 | z2) == full:          # disjoint: add is or
            return bits(('or', k[1], k[2]), leaf, width)
        if m1 == full and m2 == full:
            return full, (v1 + v2) & full
        return 0, 0
    if t in ('shl', 'lshr', 'ashr') and k[2][0] == 'c':
        m1, v1 = bits(k[1], leaf, width)
        s = k[2][1]
        if t == 'shl':
            return ((m1 << s) | ((1 << s) - 1)) & full, (v1 << s) & full
        hi = full & ~(full >> s)
        return (m1 >> s) | (hi if t == 'lshr' or m1 >> (width - 1) and not v1 >> (width - 1) else 0), v1 >> s
    if t == 'mul' and 'c' in (k[1][0], k[2][0]):
        x, y = (k[1], k[2]) if k[1][0] == 'c' else (k[2], k[1])
        c = x[1] & full
        if c and not c & (c - 1):
            return bits(('shl', y, ('c', c.bit_length() - 1)), leaf, width)
    return 0, 0


class Handler(Translate):
    def mstart(self, f):
        self.ctx = None
        return frozenset()

    def asserted(self, f, blk, nxt):
        return False

    def setup(self, H, dispoff, hoff, kind):
        self.H, self.dispoff, self.hoff, self.kind = H, dispoff, hoff, kind
        self.hk = ('*', ('v', 'a1'), hoff, ())
        self.dk = ('*', ('v', 'a1'), dispoff, ())

    def fact(self, f, s, p, a, b, env):
        x, y = q.vkey(f, a, env), q.vkey(f, b, env)
        if p in ('eq', 'ne') and (q_has(x, self.hk) or q_has(y, self.hk)):
            return s | {(p, x, y)}
        return s

    def event(self, f, s, n, env):
        a = []
        if n.op == 'load':
            a = [n.ops[0]]
        elif n.op == 'store':
            a = [n.ops[1]]
        elif n.op == 'call' and n.fn:
            a = [o for r, o in [(r, q.arg(n, r)) for r in ('buf', 'dst', 'src')] if o]
        for v in a:
            d = lin(q.vkey(f, v, env))
            if self.dk in d:
                self.access(f, s, n, env, d)
        return s

    def access(self, f, s, n, env, d):
        O = self.O
        self.R.ob('inverse', '%s %s' % (self.kind, f.where(n)))
        d = dict(d)
        c = d.pop(None, 0)
        if d.pop(self.dk) != 1 or len(d) != 1 or list(d.values()) != [1] or c:
            self.R.bad('inverse', '%s:address' % self.kind, '%s: the address accessed is not the base of an object plus the displacement in the packet' % f.name, f, n, self)
            return
        A = self.isfield(list(d)[0], O.base)
        if A is None:
            self.R.bad('inverse', '%s:base' % self.kind, '%s: the displacement is not added to the base of an object' % f.name, f, n, self)
            return
        me = A if A in O.globs else 'space'
        for g, vals in self.H.items():
            for v in vals:
                t = self.compatible(s, v, A if g == 'space' else None)
                if g == me and t is False:
                    self.R.bad('inverse', '%s:%s' % (self.kind, O.name(A)), '%s: the handle of %s does not lead to it' % (f.name, O.name(A)), f, n, self)
                if g != me and t is not False:
                    self.R.bad('inverse', '%s:%s' % (self.kind, O.name(A)), '%s: the handle of %s leads to %s' % (
                        f.name, 'an attached space' if g == 'space' else O.name(g), O.name(A)), f, n, self)
        if me == 'space':
            h = ('*',) + q.shift(A, O.handle)
            if not ({('eq', h, self.hk), ('eq', self.hk, h)} & s):
                self.R.bad('inverse', '%s:which' % self.kind, '%s: the displacement is added to the base of a space whose handle was not compared with the one in the packet' % f.name, f, n, self)

    def compatible(self, s, v, A):
        """Can a packet with a handle of value v be on this path?  False when a fact excludes it."""
        def leaf(k):
            if k == self.hk:
                return bits(v, hleaf)
            return None
        for p, x, y in s:
            (m1, v1), (m2, v2) = bits(x, leaf), bits(y, leaf)
            m = m1 & m2
            if p == 'eq' and (v1 ^ v2) & m:
                return False
            if p == 'ne' and m == (1 << 32) - 1 and v1 == v2:
                return False
        return None


def hleaf(k):
    """Bits of the parts of a handle: a symmetry flag is 0 or 1, an index fits its bits."""
    if k[0] in ('c', 'or', 'and', 'shl', 'xor', 'add', 'lshr', 'mul'):
        return None
    full = (1 << 32) - 1
    if k[0] == '*' and k[1][0] == 'v' and k[1][1].startswith('g:'):
        return full & ~((1 << 29) - 1), 0
    return full & ~1, 0


def q_has(k, x):
    if k == x:
        return True
    return isinstance(k, tuple) and any(q_has(y, x) for y in k)


# ------------------------------------------------------------------------------------------------ creation
class Creation(Mem):
    """Windows and descriptors set up by shmem_init and by attaching a space."""
    def __init__(self, m, R, O, members, pairs, H, seen):
        self.m, self.R, self.O, self.members, self.pairs, self.H, self.seen = m, R, O, members, pairs, H, seen

    def mstart(self, f):
        return frozenset()

    def gen(self, k):
        if k[0][0] == 'v' and k[0][1].startswith('g:'):
            return (k[0], k[1], ())
        if k[2]:
            return ('ctx', k[1])
        return ('space', k[1])

    def bad(self, rule, key, what, f, n):
        self.R.bad(rule, '%s:%s' % (f.name, key), '%s: %s' % (f.name, what), f, n, self, self.members)

    def step(self, f, mem, n, env):
        mem = Mem.step(self, f, mem, n, env)
        if n.op == 'call' and n.fn in ('MPI_Win_create', 'MPI_Win_allocate'):
            k = self.cell(f, q.arg(n, 'pwin'), env)
            if k is not None and not k[2]:
                mem = self.kill(mem, k[0], k[1], 8) | {((k[0], k[1]), ('win', n.v), 8)}
        return mem

    def placed(self, s, k, off, v):
        """A window created in a local record is stored where the library keeps it."""
        for t in s:
            if t[0] == 'lwin' and ('win', t[1]) == v and k[0][0] != 'a':
                W = q.shift(k, off)
                self.seen.add(self.gen(W))
                s = s | {('win', self.gen(W)) + t[2:]}
        return s

    def event(self, f, s, n, env):
        O = self.O
        if n.op == 'store' and any(t[0] == 'lwin' for t in s):
            s = self.placed(s, q.akey(f, n.ops[1], env), 0, q.vkey(f, n.ops[0], env))
        elif n.op == 'call' and n.fn in q.MEMCPY and any(t[0] == 'lwin' for t in s):
            d, c = q.akey(f, q.arg(n, 'dst'), env), q.akey(f, q.arg(n, 'src'), env)
            z = const(q.arg(n, 'size'))
            for k, v in (env.mem or {}).items():
                if isinstance(k, tuple) and k[0] == c[0] and z and c[1] <= k[1] < c[1] + z:
                    s = self.placed(s, d, k[1] - c[1], v)
        if n.op == 'store':
            k = q.akey(f, n.ops[1], env)
            for A in O.globs:
                if k == q.shift(A, O.base) and n.ops[0] != 'null':
                    return self.put(s, ('base', A, q.vkey(f, n.ops[0], env)))
                if k == q.shift(A, O.size):
                    return self.put(s, ('size', A, q.vkey(f, n.ops[0], env)))
                if k == q.shift(A, O.handle):
                    self.H.setdefault(A, {})[q.vkey(f, n.ops[0], env)] = (f, n)
            if f.name.endswith('attach') and not k[2] and k[1] == O.inspace + O.handle and self.size(f, n.ops[0]) == 4 and k[0][0] != 'a' and not str(k[0][1]).startswith('g:'):
                v = q.vkey(f, n.ops[0], env)
                self.H.setdefault('space', {})[v] = (f, n)
                return s | {('handle', k[0], v, n.v)}
            return s
        if n.op != 'call':
            return s
        if n.fn in ('MPI_Win_create', 'MPI_Win_allocate'):
            self.R.ob('create', '%s %s' % (f.name, f.where(n)))
            W = q.akey(f, q.arg(n, 'pwin'), env)
            if const(q.res(f, q.arg(n, 'unit'), env)) != 1:
                self.bad('create', 'unit', 'a window is created whose displacement unit is not one byte', f, n)
            base = q.vkey(f, q.arg(n, 'base'), env) if n.fn == 'MPI_Win_create' else ('*',) + q.akey(f, q.arg(n, 'baseptr'), env)
            if W[0][0] == 'a':
                return s | {('lwin', n.v, base, q.vkey(f, q.arg(n, 'size'), env), n.v)}
            self.seen.add(self.gen(W))
            s = s | {('win', self.gen(W), base, q.vkey(f, q.arg(n, 'size'), env), n.v)}
            if W[2]:
                t = ('copied', W[0], W[2])
                return s - {t} if t in s else s | {('copy', W[0], W[2], n.v)}
            return s
        if n.fn == 'MPI_Win_attach':
            self.R.ob('create', '%s %s' % (f.name, f.where(n)))
            a = q.loadaddr(f, q.res(f, q.arg(n, 'win'), env))
            W = q.akey(f, a, env) if a else None
            return s | {('win', W and self.gen(W), q.vkey(f, q.arg(n, 'base'), env), q.vkey(f, q.arg(n, 'size'), env), n.v)}
        if n.fn in q.MEMCPY and const(q.arg(n, 'size')) == O.attrsize:
            d, c = q.akey(f, q.arg(n, 'dst'), env), q.akey(f, q.arg(n, 'src'), env)
            if d[2] and d[1] == O.inctx:
                self.R.ob('create', '%s %s' % (f.name, f.where(n)))
                if c[2] or c[1] != O.inspace or not any(t[0] == 'handle' and t[1] == c[0] for t in s):
                    self.bad('create', 'copy', 'the descriptor of a context is not a copy of the final descriptor of its space', f, n)
                for t in s:
                    if t[:3] == ('copy', d[0], d[2]):
                        return s - {t}
                return s | {('copied', d[0], d[2])}
        return s

    def put(self, s, t):
        return frozenset(x for x in s if x[:2] != t[:2]) | {t}

    def medge(self, f, s, blk, nxt, atoms, env):
        if nxt in f.loops():
            ph = [n.v for n in f.blocks[nxt] if n.op == 'phi']
            for t in s:
                if t[0] == 'copy' and blk in f.loops()[nxt] and any(q.mentions(t, v) for v in ph):
                    self.bad('create', 'copy', 'a context is created whose descriptor is not set', f, f.insts[t[3]])
            s = frozenset(t for t in s if not any(q.mentions(t, v) for v in ph))
        return s

    def mret(self, f, s, n, env):
        O = self.O
        for t in s:
            if t[0] == 'copy':
                self.bad('create', 'copy', 'a context is created whose descriptor is not set', f, f.insts[t[3]])
        space = [t[1] for t in s if t[0] == 'handle']
        for (W, A), (uf, un) in self.pairs.items():
            if W[0] in ('space', 'ctx'):
                if not f.name.endswith('attach') or W[0] == 'ctx':
                    continue
                self.agree(f, n, s, W, [('*', r, O.inspace + O.base, ()) for r in space[:1]], [('*', r, O.inspace + O.size, ()) for r in space[:1]], 'the space')
            elif A[0] == 'space':
                if f.name.endswith('attach'):
                    self.agree(f, n, s, W, [('*', r, O.inspace + O.base, ()) for r in space[:1]], [('*', r, O.inspace + O.size, ()) for r in space[:1]], 'the space')
            elif f.name.startswith('shmem_init') and any(t[0] == 'base' for t in s):
                self.agree(f, n, s, W, [t[2] for t in s if t[:2] == ('base', A)], [t[2] for t in s if t[:2] == ('size', A)], O.name(A))

    def agree(self, f, n, s, W, bases, sizes, what):
        self.R.ob('agree', '%s %s %s' % (f.name, what, W[1]))
        ws = [t for t in s if t[0] == 'win' and t[1] == W]
        if not bases or not sizes:
            self.bad('agree', what, 'the descriptor of %s is not set' % what, f, n)
        elif not any(b == bases[0] and z == sizes[0] for _, _, b, z, _ in ws):
            self.bad('agree', what, 'the window used for %s is not created over the memory its descriptor says (base and size)' % what, f,
                     f.insts[ws[0][4]] if ws else n)


def run(m, R):
    R.rule('window', 'A one-sided operation uses the window of one symmetric object')
    R.rule('disp', 'Its displacement is the target address minus the base of that object')
    R.rule('object', 'The path has established that the target address lies in that object')
    R.rule('context', 'With a created context its window and its space are used, otherwise those of the default context')
    R.rule('packet', 'An active message carries the handle of the object its displacement is relative to')
    R.rule('inverse', 'The handler adds the displacement to the base of the object the handle in the packet denotes, and of no other')
    R.rule('create', 'Windows count displacements in bytes; the descriptor of a context is the final one of its space')
    R.rule('agree', 'Each window is created over exactly the memory the descriptor used with it describes')
    R.rule('handle', 'Handles of attached spaces are never used twice')
    O = Objects(m)
    P = Proto(m) if q.has_am(m) else None
    pairs, H, seen = {}, {}, set()
    for f, ms in m.reps('^shmem', '^shmem_(init|finalize|init_thread)'):
        if any(n.op == 'call' and (n.fn in q.RMA_OPS or n.fn in SEND) for n in f.all()):
            R.guard(translate, m, R, O, P, f, ms, pairs)
    R.guard(creation, m, R, O, pairs, H, seen)
    if P is not None:
        R.guard(handlers, m, R, O, P, H)
    if m.cfg != 'am':
        R.need('window', 100)
    if m.cfg != 'direct':
        R.need('packet', 20)


def translate(m, R, O, P, f, ms, pairs):
    sim(R, f, Translate(m, R, O, P, ms, pairs), 200000)


def creation(m, R, O, pairs, H, seen):
    got = set()
    for f, ms in m.reps('^shmem'):
        if any(n.op == 'call' and n.fn in ('MPI_Win_create', 'MPI_Win_allocate', 'MPI_Win_attach') for n in f.all()):
            got |= set(ms)
            sim(R, f, Creation(m, R, O, ms, pairs, H, seen), 400000)
    for (W, A), (f, n) in sorted(pairs.items(), key=str):
        if W[0] == 'ctx' and W not in seen:
            R.bad('create', 'ctx', 'no window is created for contexts', f, n)
    if 'space' not in H or len(H) < 3:
        raise AnalysisError('no stores of object handles found')
    # unique indexes
    for v, (f, n) in H['space'].items():
        R.ob('handle', '%s %s' % (f.name, f.where(n)))
        ls = leaves(v)
        if len(ls) != 1:
            R.bad('handle', 'index', '%s: the handle of a space does not contain an index' % f.name, f, n)
            continue
        loc = ls[0][1:]
        steps = 0
        for g, ms in m.reps('^(shmem|start_pes)'):
            for u in g.all():
                if u.op == 'store' and q.akey(g, u.ops[1]) == loc:
                    d = lin(q.vkey(g, u.ops[0]))
                    k = d.pop(None, 0)
                    if d != {ls[0]: 1} or k <= 0:
                        R.bad('handle', 'reuse', '%s: the index of attached spaces is not only counted up: two spaces can get the same handle' % g.name, g, u)
                    elif g is f:
                        steps += 1
                        if not (g.dominates(u, n) or post(g, n, u)):
                            R.bad('handle', 'step', '%s: a space is attached without a new index' % g.name, g, u)
        if not steps:
            R.bad('handle', 'step', '%s: the index is not advanced when a space is attached' % f.name, f, n)


def post(f, a, b):
    """Every path from a to a return passes b."""
    seen, st = set(), [a.blk]
    if a.blk == b.blk and a.idx < b.idx:
        return True
    st = list(f.succ[a.blk])
    while st:
        x = st.pop()
        if x in seen or x == b.blk:
            continue
        seen.add(x)
        if f.blocks[x][-1].op == 'ret':
            return False
        st += f.succ[x]
    return True


def leaves(k):
    if k[0] == '*':
        return [k] if k[1][0] == 'v' and k[1][1].startswith('g:') else []
    if k[0] in ('or', 'and', 'shl', 'add', 'xor', 'lshr'):
        return leaves(k[1]) + leaves(k[2])
    return []


def handlers(m, R, O, P, H):
    n0 = R.rules['inverse']['n']
    for t, fns in sorted(P.handlers.items()):
        kind = P.kind(t)
        fl = P.T.fields.get(kind, {})
        if 'sobj_handle' not in fl:
            continue
        for fn in sorted(fns):
            f = m.fn(fn)
            h = Handler(m, R, O, P, [fn], {})
            h.setup(H, fl['target_disp'][0], fl['sobj_handle'][0], kind)
            a = R.rules['inverse']['n']
            sim(R, f, h, 400000)
            if R.rules['inverse']['n'] == a:
                R.bad('inverse', '%s:none' % kind, '%s: the displacement in the packet is not used' % fn, f, f.blocks[0][0], h)
