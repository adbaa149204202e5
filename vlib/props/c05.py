"""Active-message atomics at the target: the callback that handles a packet performs exactly the operation the packet asks for."""
from .. import q, amtab
from ..ir import const, AnalysisError
from ..paths import DEAD
from ..core import sim
from ..mem import Mem, TYSZ
from .c04 import RX, MPIOP

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'fast']
EXPLAIN = ('For every datatype and operation index an atomic routine of the API can put in a packet, the callback registered for that packet type '
           'is simulated on all paths with the indexes fixed: the one update of the target cell, its width, its operands, the guard of compare-and-swap, the '
           'order of reading the old value and updating, and the reply message are compared with the definition of the operation.')
ASSUME = ['packets are handled one at a time by the progress engine (C06, C07)', 'displacements are translated correctly (C08)']

INTOP = {'band': 'and', 'bor': 'or', 'bxor': 'xor', 'sum': 'add'}
FPOP = {'sum': 'fadd'}


class Cb(Mem):
    def __init__(self, m, R, kind, ti, oi):
        self.m, self.R, self.kind, self.ti, self.oi = m, R, kind, ti, oi
        self.T = T = amtab.tables(m)
        self.F = T.fields[kind]
        self.ty = amtab.kind(next(iter(T.types[ti])))
        self.op = None if oi is None else next(iter(T.ops[oi]))[len('g:ompi_mpi_op_'):]
        self.what = '%s of %s%s' % (kind, next(iter(T.types[ti]))[len('g:ompi_mpi_'):], '' if oi is None else ' (%s)' % self.op)

    def pkey(self, field):
        return (('v', 'a1'), self.F[field][0], ())

    def isdest(self, f, a, env):
        """Is the address the one the packet's displacement stands for?"""
        k = q.akey(f, a, env)
        if k[0][0] == 'a' or k[0] == ('v', 'a1'):
            return None
        d = ('*',) + self.pkey('target_disp')
        return k if has(k, d) else None

    def bad(self, rule, f, n, what):
        self.R.bad(rule, '%s:%s' % (self.kind, what.split(':')[0]), '%s, %s: %s' % (f.name, self.what, what), f, n, self, [f.name])

    def mstart(self, f):
        return ('init', False, None)          # update done, reply sent, outcome of the comparison

    def step(self, f, mem, n, env):
        mem = Mem.step(self, f, mem, n, env)
        if n.op == 'load':
            k = q.akey(f, n.ops[0], env)
            if k == self.pkey('mpi_type_idx'):
                return mem | {(n.v, ('c', self.ti), 0)}
            if self.oi is not None and k == self.pkey('mpi_op_idx'):
                return mem | {(n.v, ('c', self.oi), 0)}
            if self.late and self.isdest(f, n.ops[0], env):
                return mem | {(n.v, ('new',), 0)}
        elif n.op == 'call' and n.fn in q.MEMCPY and self.late and self.isdest(f, q.arg(n, 'src'), env):
            d = self.cell(f, q.arg(n, 'dst'), env)
            if d is not None:
                return self.kill(mem, d[0])
        return mem

    def live(self, f, mem, blk):
        return Mem.live(self, f, mem, blk)

    def narrow(self, f, v, env, d=8):
        """Is some operand of the value read or cut to fewer bytes than the type has?"""
        v = env.get(v)
        n = f.insts.get(v)
        if n is None or d == 0:
            return False
        sz = TYSZ.get(n.ty, 8)
        if sz < self.ty[1] and n.ty != 'i1':
            return True
        if n.op == 'load' or q.vkey(f, v, env)[0] == '*':
            return False
        if n.op == 'phi':
            return False
        if n.op in ('zext', 'sext') or n.op not in ('call', 'icmp', 'fcmp'):
            return any(self.narrow(f, o, env, d - 1) for o in (n.ops[1:] if n.op == 'select' else n.ops))
        return False

    def expected(self, dest):
        old, val = ('*',) + dest, ('*',) + self.pkey('value')
        if self.kind == 'cswap':
            return [val]
        if self.op == 'replace':
            return [val]
        if self.op == 'no_op':
            return [old]
        o = (FPOP if self.ty[0] == 'f' else INTOP).get(self.op)
        return [(o, old, val), (o, val, old)]

    def event(self, f, s, n, env):
        upd, sent, cmp_ = s
        self.late = upd == 'done'
        if n.op in ('load', 'store') and q.akey(f, n.ops[n.op == 'store'], env)[0] == ('v', 'null'):
            return []       # the object was not found: a handle always denotes an attached object (C08)
        if n.op == 'store':
            k = self.isdest(f, n.ops[1], env)
            if k is None:
                return s
            return self.update(f, s, n, env, k, q.vkey(f, n.ops[0], env), TYSZ.get(self.sty(f, n.ops[0]), 8), self.narrow(f, n.ops[0], env))
        if n.op != 'call' or not n.fn:
            if n.op in ('atomicrmw', 'cmpxchg'):
                raise AnalysisError('%s: hardware atomic on the target, not modelled' % f.name)
            return s
        if n.fn in q.MEMCPY:
            k = self.isdest(f, q.arg(n, 'dst'), env)
            if k is None:
                return s
            src = q.akey(f, q.arg(n, 'src'), env)
            sz = q.arg(n, 'size')
            szk = q.vkey(f, sz, env)
            z = self.ty[1] if szk == ('*',) + self.pkey('bytes') else const(env.resolve(sz))
            v = (env.mem or {}).get((src[0], src[1])) if src[0][0] == 'a' else ('*',) + src
            return self.update(f, s, n, env, k, v, z, False)
        if n.fn in ('MPI_Send', 'MPI_Isend', 'MPI_Ssend', 'MPI_Rsend', 'MPI_Bsend'):
            return self.reply(f, s, n, env)
        return s

    @staticmethod
    def sty(f, v):
        n = f.insts.get(v)
        if n is not None:
            return n.ty
        return v.split(':')[0] if ':' in v else 'i64'

    def update(self, f, s, n, env, k, v, z, narrow):
        upd, sent, cmp_ = s
        R = self.R
        R.ob('update', '%s: %s' % (f.name, self.what))
        off, k = k[1], (k[0], 0, k[2])
        if z and (z < self.ty[1] or off) and v and v[0] == '*' and upd != 'done' and (self.kind == 'cswap' and cmp_ or self.op == 'replace'):
            # copied in pieces
            if v == ('*',) + q.shift(self.pkey('value'), off):
                got = (upd[1] if isinstance(upd, tuple) else frozenset()) | {(off, z)}
                if sum(x for _, x in got) >= self.ty[1]:
                    R.ob('width', '%s: %s' % (f.name, self.what))
                    self.late = True
                    return ('done', sent, cmp_)
                return (('part', got), sent, cmp_)
        if upd == 'done':
            self.bad('update', f, n, 'twice: the target is updated a second time')
        if sent and self.kind != 'post':
            self.bad('reply', f, n, 'order: the reply is sent before the update')
        R.ob('width', '%s: %s' % (f.name, self.what))
        if z != self.ty[1] or narrow:
            self.bad('width', f, n, 'width: the update is done on %s bytes, the type has %d' % (z if not narrow else 'fewer', self.ty[1]))
        if v not in self.expected(k) and not (self.kind == 'cswap' and (self.selected(f, n, env, k, v) or cmp_ is False and v == ('*',) + k)):
            self.bad('update', f, n, 'value: the target receives %s' % q.pr(f, v))
        elif self.kind == 'cswap' and v == ('*',) + self.pkey('value') and cmp_ is not True:
            self.bad('guard', f, n, 'guard: the target is updated although the comparison is not known to have succeeded')
        if self.kind == 'cswap' and v != ('*',) + self.pkey('value'):
            return ('sel', sent, cmp_)
        self.late = True
        return ('done', sent, cmp_)

    def selected(self, f, n, env, k, v):
        """cond == old ? value : old"""
        old, val, cond = ('*',) + k, ('*',) + self.pkey('value'), ('*',) + self.pkey('cond')
        if v[0] != '?' or v[1][0] != 'cmp':
            return False
        p = v[1]
        if set(p[2:]) != {old, cond}:
            return False
        return v[2:] == ((val, old) if p[1] == 'eq' else (old, val)) and p[1] in ('eq', 'ne')

    def medge(self, f, s, blk, nxt, atoms, env):
        upd, sent, cmp_ = s
        if self.kind == 'cswap':
            for p, a, b in self.all_atoms(f, blk, nxt, atoms):
                ka, kb = q.vkey(f, a, env), q.vkey(f, b, env)
                x, y = self.side(ka), self.side(kb)
                if {x, y} == {'old', 'cond'} and p in ('eq', 'ne', 'oeq', 'une'):
                    if self.narrow(f, a, env) or self.narrow(f, b, env):
                        self.bad('width', f, f.blocks[blk][-1], 'compare: the comparison is done on fewer bytes than the type has')
                    r = p in ('eq', 'oeq')
                    if cmp_ is not None and cmp_ != r:
                        return DEAD
                    self.R.ob('guard', '%s: %s' % (f.name, self.what))
                    cmp_ = r
        return (upd, sent, cmp_)

    def all_atoms(self, f, blk, nxt, atoms):
        t = f.blocks[blk][-1]
        out = list(atoms)
        if t.op == 'br' and len(t.x['to']) == 2 and t.x['to'][0] != t.x['to'][1]:
            n = f.insts.get(t.ops[0])
            if n is not None and n.op == 'fcmp':
                p = n.x['pred']
                if nxt == t.x['to'][1]:
                    p = {'oeq': 'une', 'une': 'oeq'}.get(p, p + '!')
                out.append((p, n.ops[0], n.ops[1]))
        return out

    def side(self, k):
        if k == ('*',) + self.pkey('cond'):
            return 'cond'
        if k[0] == '*' and has(k, ('*',) + self.pkey('target_disp')):
            return 'old'
        return None

    def reply(self, f, s, n, env):
        upd, sent, cmp_ = s
        R, T = self.R, self.T
        if self.kind == 'post':
            self.bad('reply', f, n, 'unwanted: a reply is sent for an operation that returns nothing')
            return s
        R.ob('reply', '%s: %s' % (f.name, self.what))
        if sent:
            self.bad('reply', f, n, 'twice: a second reply is sent')
        v = self.content(f, q.arg(n, 'buf'), env)
        if v is None or v[0] != '*' or not has(v, ('*',) + self.pkey('target_disp')):
            self.bad('old', f, n, 'old: the reply does not hold the value the target had before the update (%s)' % (q.pr(f, v) if v else 'unknown'))
        R.ob('old', '%s: %s' % (f.name, self.what))
        t = q.arg(n, 'type')
        a = q.loadaddr(f, t)
        ok = amtab.kind(env.resolve(t)) == self.ty
        if a is not None:
            k = q.akey(f, a, env)
            e = k[1] + sum(i[1] * st for i, st in k[2] if i[0] == 'c')
            ok = k[0] in T.typetab and all(i[0] == 'c' for i, _ in k[2]) and e % 8 == 0 and {amtab.kind(x) for x in T.types.get(e // 8, ())} == {self.ty}
        if not ok or const(env.resolve(q.arg(n, 'count'))) != 1:
            self.bad('reply', f, n, 'type: the reply is not one element of the type of the operation')
        if q.vkey(f, q.arg(n, 'pe'), env) != ('v', 'a0'):
            self.bad('reply', f, n, 'pe: the reply does not go to the PE the packet came from')
        if q.vkey(f, q.arg(n, 'tag'), env) != ('*',) + self.pkey('ptag'):
            self.bad('reply', f, n, 'tag: the reply does not carry the tag of the packet')
        a = q.loadaddr(f, q.arg(n, 'comm'))
        if a is None or q.akey(f, a, env) not in ackcomms(self.m):
            self.bad('reply', f, n, 'comm: the reply does not go over the communicator the origin receives it on')
        return (upd, True, cmp_)

    def mret(self, f, s, n, env):
        upd, sent, cmp_ = s
        self.R.ob('update', '%s: %s' % (f.name, self.what))
        if isinstance(upd, tuple):
            self.bad('width', f, n, 'width: only %s bytes of the target are updated' % sum(x for _, x in upd[1]))
        if upd == 'init' and self.op != 'no_op' and not (self.kind == 'cswap' and cmp_ is False):
            self.bad('update', f, n, 'missing: the target is not updated on a path')
        if not sent and self.kind != 'post':
            self.bad('reply', f, n, 'missing: no reply is sent on a path')


def has(k, x):
    if k == x:
        return True
    return isinstance(k, tuple) and any(has(y, x) for y in k)


def ackcomms(m):
    """Communicators the atomic routines of the API receive replies on."""
    if getattr(m, '_ackcomms', None) is None:
        out = set()
        for f, ms in m.reps('^shmem_.*atomic'):
            for n in f.calls('MPI_(Irecv|Recv)$'):
                if q.vkey(f, q.arg(n, 'pe'))[0] == 'c':
                    continue                      # the packet receive (any source)
                a = q.loadaddr(f, q.arg(n, 'comm'))
                if a is not None:
                    out.add(q.akey(f, a))
        m._ackcomms = out
    return m._ackcomms


def sent(m, T):
    """{packet kind: {(type index, op index)}} the API can send."""
    out = {}
    for name in sorted(m.cls):
        g = RX.match(name)
        if not g or name.startswith('shmem_signal_'):
            continue
        f = m.fn(name)
        cells = {}
        for n in f.all():
            if n.op == 'store':
                k = q.akey(f, n.ops[1])
                if k[0][0] == 'a' and not k[2]:
                    cells.setdefault(k[0], {}).setdefault(k[1], set()).add(const(n.ops[0]))
        for root, c in cells.items():
            for kind in ('cswap', 'fetch', 'post'):
                if T.pkt[kind] in c.get(T.type_off, ()):
                    F = T.fields[kind]
                    ts = c.get(F['mpi_type_idx'][0], set())
                    os = c.get(F['mpi_op_idx'][0], set()) if 'mpi_op_idx' in F else {None}
                    for t in ts:
                        for o in os:
                            if t is None or 'mpi_op_idx' in F and o is None:
                                raise AnalysisError('%s: index in the packet is not constant' % name)
                            if t in T.types and (o is None or o in T.ops):
                                out.setdefault(kind, set()).add((t, o))
    return out


def one(m, R, f, r):
    if sim(R, f, r).rets == 0:
        r.path = ({}, None)
        R.bad('update', '%s:unsupported' % r.kind, '%s: %s is not supported: every path aborts' % (f.name, r.what), f, f.blocks[0][0])


def run(m, R):
    R.rule('update', 'The target cell receives the result of the operation on its old value and the packet\'s operand, once')
    R.rule('width', 'Reads and the update have the size of the datatype')
    R.rule('guard', 'Compare-and-swap updates the target exactly when the old value equals the condition')
    R.rule('old', 'The value sent back was read before the update')
    R.rule('reply', 'One reply of the right type goes to the origin with the tag of the packet, after the update')
    if not q.has_am(m):
        return
    T = amtab.tables(m)
    S = sent(m, T)
    cbs = list(T.cbs.values())
    if len(cbs) != 1:
        raise AnalysisError('table of packet callbacks not found')
    stride = None
    offs = sorted(cbs[0])
    tab = next(iter(T.cbs))
    ety = m.types[m.globals[tab[2:]][1]]
    stride = m.size(ety['of']) if ety['k'] == 'arr' else None
    k = 0
    for kind, pairs in sorted(S.items()):
        fns = cbs[0].get(T.pkt[kind] * stride, set())
        if not fns:
            R.bad('update', kind, 'no callback is registered for %s packets' % kind, T.f, T.f.blocks[0][0])
            continue
        for fn in fns:
            f = m.fn(fn)
            for ti, oi in sorted(pairs, key=str):
                k += 1
                r = Cb(m, R, kind, ti, oi)
                r.late = False
                R.guard(one, m, R, f, r)
    if k < 60 and not R.viol:
        raise AnalysisError('only %d packet kinds found' % k)
