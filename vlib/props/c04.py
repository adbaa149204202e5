"""Atomics: every atomic routine performs the operation its name says, on the type its name says, with the caller's operands."""
import re
from .. import q, amtab
from ..ir import const
from ..core import sim
from ..mem import Mem
from ..complete import Complete
from .c02 import amcomm

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'direct', 'fast']
EXPLAIN = ('Every atomic routine of the API (each operation, type, context and nonblocking variant) is simulated on all paths with a '
           'copy propagation through the stack: exactly one operation is issued, either as an MPI accumulate-class call or as an '
           'active-message packet; its operation, datatype, size, operand buffers, target PE and result are the ones the name and signature '
           'prescribe, and the fetched value is what the routine returns. Packet type, operation and datatype indexes are resolved through the tables the '
           'initialisation fills.')
ASSUME = ['the mapping of names to operations is the one of the OpenSHMEM specification']

RX = re.compile(r'^shmem_(ctx_)?(?:(\w+?)_)?(?:atomic_(fetch|set|compare_swap|swap|fetch_inc|inc|fetch_add|add|fetch_and|and|fetch_or|or|fetch_xor|xor)(_nbi)?|(fetch|set|cswap|swap|finc|inc|fadd|add))$')
OLD = {'cswap': 'compare_swap', 'finc': 'fetch_inc', 'fadd': 'fetch_add'}
MPIOP = {'fetch': 'no_op', 'set': 'replace', 'swap': 'replace', 'inc': 'sum', 'add': 'sum', 'and': 'band', 'or': 'bor', 'xor': 'bxor'}
AMO = ('MPI_Fetch_and_op', 'MPI_Accumulate', 'MPI_Get_accumulate', 'MPI_Compare_and_swap')
PKT_TAG = None


class Spec:
    def __init__(self, m, name):
        g = RX.match(name)
        self.ctx = bool(g.group(1))
        op = g.group(3) or g.group(5)
        self.op = OLD.get(op, op)
        self.nbi = bool(g.group(4))
        b = self.op
        self.cswap = b == 'compare_swap'
        self.fetching = self.cswap or b in ('fetch', 'swap') or b.startswith('fetch_')
        self.base = b[6:] if b.startswith('fetch_') else b
        self.mpiop = None if self.cswap else 'g:ompi_mpi_op_' + MPIOP[self.base]
        names = (['ctx'] if self.ctx else []) + (['result'] if self.nbi else []) + ['dest']
        names += ['cond', 'value'] if self.cswap else ([] if self.base in ('fetch', 'inc') else ['value'])
        names += ['pe']
        self.args = {a: 'a%d' % i for i, a in enumerate(names)}
        self.n = len(names)
        d = m.decl[name]
        self.sig = d[2]
        # the C type operated on
        t = m.pointee(self.sig[1 + int(self.args['dest'][1:])])
        self.ty = amtab.ckind(m, t)

    def value(self):
        if self.base == 'inc':
            return ('c', 1)
        return ('v', self.args['value']) if 'value' in self.args else None


class Amo(Mem):
    def __init__(self, m, R, name, spec):
        self.m, self.R, self.name, self.sp = m, R, name, spec
        self.T = amtab.tables(m)
        self.amcomm = amcomm(m) if q.has_am(m) else None

    def mstart(self, f):
        return ('none',)

    def bad(self, rule, f, n, what):
        self.R.bad(rule, '%s:%s' % (self.group(), what.split(':')[0]), '%s: %s' % (self.name, what), f, n, self, [self.name])

    def group(self):
        return '%s%s' % (self.sp.op, '_nbi' if self.sp.nbi else '')

    def operand(self, f, n, buf, env, want, what):
        c = self.content(f, buf, env)
        if c != want:
            self.bad('operand', f, n, '%s: the %s handed over is not the one of the caller (%s)' % (n.fn, what, q.pr(f, c) if c else 'unknown'))

    def dtype(self, f, n, h, env, what):
        v = env.resolve(h)
        k = amtab.kind(v)
        if k != self.sp.ty:
            self.bad('type', f, n, '%s: %s is %s, the routine works on %s' % (n.fn, what, v, self.sp.ty))

    def event(self, f, s, n, env):
        if n.op != 'call' or not n.fn:
            return s
        sp = self.sp
        if n.fn in AMO or n.fn in q.RMA_OPS:
            self.R.ob('op', '%s %s' % (self.name, f.where(n)))
            if s[0] != 'none':
                self.bad('once', f, n, '%s: a second operation is issued' % n.fn)
            if n.fn not in AMO or sp.cswap != (n.fn == 'MPI_Compare_and_swap') or sp.fetching and n.fn == 'MPI_Accumulate':
                self.bad('op', f, n, '%s: not an atomic operation of this kind' % n.fn)
                return ('done', 'op', n.v)
            self.pe(f, n, env)
            for r in ('otype', 'ttype', 'type', 'rtype'):
                if q.arg(n, r) is not None:
                    self.R.ob('type', '%s %s' % (self.name, f.where(n)))
                    self.dtype(f, n, q.arg(n, r), env, 'the datatype')
            for r in ('ocount', 'tcount', 'rcount'):
                v = q.arg(n, r)
                if v is not None and const(env.resolve(v)) != 1 and not (r == 'ocount' and sp.base == 'fetch'):
                    self.bad('type', f, n, '%s: the count is not 1' % n.fn)
            if not sp.cswap:
                op = env.resolve(q.arg(n, 'op')).split('+')[0]
                if op != sp.mpiop:
                    self.bad('op', f, n, '%s: the operation is %s, not %s' % (n.fn, op[2:], sp.mpiop[2:]))
            self.R.ob('operand', '%s %s' % (self.name, f.where(n)))
            if sp.value() is not None:
                self.operand(f, n, q.arg(n, 'obuf'), env, sp.value(), 'value')
            if sp.cswap:
                self.operand(f, n, q.arg(n, 'cbuf'), env, ('v', sp.args['cond']), 'condition')
            return ('done', n.v, self.result(f, n, q.arg(n, 'rbuf'), env))
        if n.fn in ('MPI_Isend', 'MPI_Send') and self.amcomm:
            a = q.loadaddr(f, q.arg(n, 'comm'))
            if a is None or q.akey(f, a, env) != self.amcomm:
                return s
            return self.packet(f, s, n, env)
        if n.fn in ('MPI_Irecv', 'MPI_Recv') and s[0] == 'sent' and q.vkey(f, q.arg(n, 'pe'), env) == ('v', sp.args['pe']):
            # the reply
            self.R.ob('type', '%s %s' % (self.name, f.where(n)))
            self.dtype(f, n, q.arg(n, 'type'), env, 'the datatype of the reply')
            if const(env.resolve(q.arg(n, 'count'))) != 1:
                self.bad('type', f, n, '%s: the count of the reply is not 1' % n.fn)
            return ('done', n.v, self.result(f, n, q.arg(n, 'buf'), env))
        return s

    def pe(self, f, n, env):
        if q.vkey(f, q.arg(n, 'pe'), env) != ('v', self.sp.args['pe']):
            self.bad('operand', f, n, '%s: the target is not the PE of the caller' % n.fn)

    def result(self, f, n, buf, env):
        if self.sp.nbi and self.sp.fetching and buf is not None:
            if q.vkey(f, buf, env) != ('v', self.sp.args['result']):
                self.bad('result', f, n, '%s: the result is not delivered to the caller\'s variable' % n.fn)
            return 'user'
        return None

    def packet(self, f, s, n, env):
        sp, T = self.sp, self.T
        k = q.akey(f, q.arg(n, 'buf'), env)
        typ = (env.mem or {}).get((k[0], k[1] + T.type_off))
        if typ is None or typ[0] != 'c':
            return s
        name = {v: x for x, v in T.pkt.items()}.get(typ[1])
        if name not in ('cswap', 'fetch', 'post'):
            if name in ('flush', 'terminate'):
                return s
            self.bad('op', f, n, '%s: a packet of type %s is sent' % (n.fn, name))
            return ('done', 'op', None)
        F = T.fields[name]
        self.R.ob('op', '%s %s' % (self.name, f.where(n)))
        if s[0] != 'none':
            self.bad('once', f, n, '%s: a second operation is issued' % n.fn)
        if sp.cswap != (name == 'cswap') or sp.fetching and name == 'post':
            self.bad('op', f, n, '%s: a packet of type %s does not perform the operation' % (n.fn, name))
        g = lambda x: (env.mem or {}).get((k[0], k[1] + F[x][0]))
        self.pe(f, n, env)
        self.R.ob('type', '%s %s' % (self.name, f.where(n)))
        ti = g('mpi_type_idx')
        hs = T.types.get(ti[1]) if ti and ti[0] == 'c' else None
        if not hs or {amtab.kind(h) for h in hs} != {sp.ty}:
            self.bad('type', f, n, '%s: the datatype index of the packet stands for %s, the routine works on %s' % (n.fn, hs, sp.ty))
        if g('bytes') != ('c', sp.ty[1]):
            self.bad('type', f, n, '%s: the size in the packet is %s' % (n.fn, g('bytes')))
        if not sp.cswap:
            oi = g('mpi_op_idx')
            os = T.ops.get(oi[1]) if oi and oi[0] == 'c' else None
            if os != {sp.mpiop}:
                self.bad('op', f, n, '%s: the operation index of the packet stands for %s, not %s' % (n.fn, os, sp.mpiop[2:]))
        self.R.ob('operand', '%s %s' % (self.name, f.where(n)))
        for x, w in (('value', sp.value()), ('cond', ('v', sp.args['cond']) if sp.cswap else None)):
            if w is not None and g(x) != w:
                self.bad('operand', f, n, '%s: the %s in the packet is not the one of the caller (%s)' % (n.fn, x, q.pr(f, g(x)) if g(x) else 'unknown'))
        if sp.fetching or name in ('cswap', 'fetch'):
            return ('sent', n.v)
        return ('done', n.v, None)

    def mret(self, f, s, n, env):
        self.R.ob('once', self.name)
        if s[0] == 'none':
            self.bad('once', f, n, 'no operation is issued on a path')
            return
        if s[0] == 'sent':
            self.bad('once', f, n, 'the reply is not received on a path')
            return
        if self.sp.fetching and not self.sp.nbi:
            self.R.ob('result', self.name)
            v = q.vkey(f, n.ops[0], env) if n.ops else None
            if v != ('recv', s[1]):
                self.bad('result', f, n, 'the returned value is not the value the operation fetched')


def run(m, R):
    R.rule('once', 'Every path that returns issues exactly one operation and receives the reply it asked for')
    R.rule('op', 'The operation is the one the name of the routine says')
    R.rule('type', 'Datatype, count and size are those of the type of the routine')
    R.rule('operand', 'The operands and the target PE are the caller\'s')
    R.rule('result', 'A fetching routine delivers the fetched value')
    k = 0
    for name in sorted(m.cls):
        if RX.match(name) and not name.startswith('shmem_signal_'):
            k += 1
            R.guard(one, m, R, name)
    R.need('once', 400)


def one(m, R, name):
    f = m.fn(name)
    sp = Spec(m, name)
    nargs = len(sp.sig) - 1
    if nargs != sp.n or sp.ty is None:
        R.bad('type', name, '%s: unexpected signature' % name, f, f.blocks[0][0])
        return
    # the types of the scalar operands
    for a in ('value', 'cond'):
        if a in sp.args and amtab.ckind(m, sp.sig[1 + int(sp.args[a][1:])]) != sp.ty:
            R.bad('type', name, '%s: the %s is not of the type of the target' % (name, a), f, f.blocks[0][0])
    r = Amo(m, R, name, sp)
    sim(R, f, r)
