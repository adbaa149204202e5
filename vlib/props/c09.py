"""Puts and gets: every routine moves exactly the elements its arguments describe, between the buffers they name."""
import re
from .. import q, amtab, layout
from ..ir import const
from ..core import sim
from ..layout import Typed, Layout, clean, scale
from .c02 import amcomm
from .c08 import lin, diff

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'direct', 'fast']
EXPLAIN = ('Every put, get, single-element and sized routine of the API is simulated on all paths with a copy propagation through the stack. The MPI call '
           'or packet it issues must use the caller\'s local buffer, the caller\'s PE, and a count and datatype that describe, as linear forms over the arguments, exactly '
           'nelems elements of the size of the routine\'s type on both sides; a path that issues nothing must have found the count to be zero. The handlers of the '
           'packets are checked against the size the packet carries.')
ASSUME = ['element counts fit MPI\'s int count arguments', 'data are moved bitwise, so MPI types of equal size are interchangeable']
T = r'(?:(?!put|get|iput|iget)([a-z0-9]+)_)?'
RX = re.compile(r'^shmem_(ctx_)?' + T + r'(?:(p|g)|(put|get)(8|16|32|64|128|mem)?(_nbi)?)$')
RXS = re.compile(r'^shmem_(ctx_)?' + T + r'(iput|iget)(8|16|32|64|128)?$')
SEND, RECV = ('MPI_Isend', 'MPI_Send', 'MPI_Issend', 'MPI_Ssend'), ('MPI_Irecv', 'MPI_Recv')


class Spec:
    def __init__(self, m, name):
        g = RX.match(name) or RXS.match(name)
        self.ctx = bool(g.group(1))
        self.strided = RXS.match(name) is not None
        w = g.group(3) or g.group(4) if not self.strided else g.group(3)
        sized = g.group(5) if not self.strided else g.group(4)
        self.put = w in ('p', 'put', 'iput')
        self.single = w in ('p', 'g')
        if self.single:
            names = ['dest', 'value', 'pe'] if self.put else ['source', 'pe']
        else:
            names = ['dest', 'source'] + (['dst', 'sst'] if self.strided else []) + ['nelems', 'pe']
        if self.ctx:
            names = ['ctx'] + names
        self.args = {a: 'a%d' % i for i, a in enumerate(names)}
        self.n = len(names)
        self.sig = m.decl[name][2]
        if sized:
            self.size = 1 if sized == 'mem' else int(sized) // 8
        else:
            t = m.pointee(self.sig[1 + int(self.args['dest' if self.put else 'source'][1:])])
            self.size = m.size(t) if t is not None and t >= 0 else None
        a = lambda x: ('v', self.args[x])
        self.nelems = {None: 1} if self.single else lin(a('nelems'))
        self.local = None if self.single else a('source' if self.put else 'dest')
        self.remote = a('dest' if self.put or not self.single else 'source') if self.put else a('source')
        if self.strided:
            self.lst = lin(a('sst' if self.put else 'dst'))
            self.rst = lin(a('dst' if self.put else 'sst'))
        else:
            self.lst = self.rst = {None: 1}


class Rma(Typed):
    def __init__(self, m, R, name, spec):
        self.m, self.R, self.name, self.sp = m, R, name, spec
        self.T = amtab.tables(m)
        self.amcomm = amcomm(m) if q.has_am(m) else None
        self.schema = layout.schema(m) if spec.strided else None
        self.nargs = {x for x in spec.args.values()}

    def keep(self, k, d=4):
        if k[0] == 'v' and k[1][0] == 'a':
            return k[1] in self.nargs
        return Typed.keep(self, k, d)

    def group(self):
        sp = self.sp
        return '%s%s' % ('ctx_' if sp.ctx else '', RXS.match(self.name).group(3) if sp.strided else (RX.match(self.name).group(3) or RX.match(self.name).group(4)))

    def bad(self, rule, f, n, key, what):
        self.R.bad(rule, '%s:%s' % (self.group(), key), '%s: %s' % (self.name, what), f, n, self, [self.name])

    def event(self, f, s, n, env):
        r = self.typeevent(f, s, n, env)
        if r is not None:
            return r
        if n.op != 'call' or not n.fn:
            return s
        sp = self.sp
        if n.fn in q.RMA_OPS:
            self.issued(f, s, n)
            if n.fn != ('MPI_Put' if sp.put else 'MPI_Get'):
                self.bad('op', f, n, n.fn, 'the data are moved by %s' % n.fn)
                return s | {('done', n.v)}
            self.pe(f, n, env)
            self.local(f, s, n, q.arg(n, 'obuf'), q.arg(n, 'ocount'), q.arg(n, 'otype'), env, n.fn)
            self.side(f, s, n, q.arg(n, 'tcount'), q.arg(n, 'ttype'), env, sp.rst, n.fn, 'target')
            return s | {('done', n.v)}
        if n.fn in SEND and self.amcomm:
            a = q.loadaddr(f, q.arg(n, 'comm'))
            if a is None or q.akey(f, a, env) != self.amcomm:
                return s
            if const(q.res(f, q.arg(n, 'count'), env)) == self.T.size and q.akey(f, q.arg(n, 'buf'), env)[0][0] == 'a':
                return self.packet(f, s, n, env)
            pk = [t for t in s if t[0] == 'packet']
            if pk and sp.put:
                self.R.ob('payload', '%s %s' % (self.name, f.where(n)))
                self.pe(f, n, env)
                self.local(f, s, n, q.arg(n, 'buf'), q.arg(n, 'count'), q.arg(n, 'type'), env, 'payload')
                return (s - set(pk)) | {('done', n.v)}
            if sp.put and not any(t[0] == 'done' for t in s):
                # the payload may be started before the packet is
                self.pe(f, n, env)
                self.local(f, s, n, q.arg(n, 'buf'), q.arg(n, 'count'), q.arg(n, 'type'), env, 'payload')
                return s | {('early',)}
            return s
        if n.fn in RECV and not sp.put and q.vkey(f, q.arg(n, 'pe'), env) == ('v', sp.args['pe']):
            pk = [t for t in s if t[0] == 'packet']
            self.R.ob('payload', '%s %s' % (self.name, f.where(n)))
            self.local(f, s, n, q.arg(n, 'buf'), q.arg(n, 'count'), q.arg(n, 'type'), env, 'reply')
            return (s - set(pk)) | {('done', n.v)} if pk else s | {('early', n.v)}
        return s

    def issued(self, f, s, n):
        self.R.ob('once', '%s %s' % (self.name, f.where(n)))
        if any(t[0] in ('done', 'packet') for t in s):
            self.bad('once', f, n, 'second', 'a second operation is issued')

    def pe(self, f, n, env):
        self.R.ob('buffers', '%s %s' % (self.name, f.where(n)))
        if q.vkey(f, q.arg(n, 'pe'), env) != ('v', self.sp.args['pe']):
            self.bad('buffers', f, n, 'pe', 'the peer of the %s is not the PE of the caller' % n.fn)

    def local(self, f, s, n, buf, count, typ, env, what):
        sp = self.sp
        if sp.single:
            if sp.put:
                c = self.content(f, buf, env)
                if c != ('v', sp.args['value']):
                    self.bad('buffers', f, n, 'value', 'the value sent is not the one of the caller')
        elif lin(q.vkey(f, buf, env)) != lin(sp.local):
            self.bad('buffers', f, n, 'local', 'the local buffer of the %s is not the one of the caller' % what)
        self.side(f, s, n, count, typ, env, sp.lst, what, 'local')

    def side(self, f, s, n, count, typ, env, st, what, which):
        sp = self.sp
        self.R.ob('layout', '%s %s %s' % (self.name, which, f.where(n)))
        self.uncompared = None
        L = self.layout(f, s, q.vkey(f, count, env), q.vkey(f, typ, env), env)
        if L is None:
            if self.uncompared:
                self.bad('layout', f, n, '%s:cached' % which, 'the %s data of the %s are described by a cached datatype whose %s has not been compared with the one wanted' % (
                    which, what, self.uncompared))
            else:
                self.bad('layout', f, n, '%s:type' % which, 'the %s data of the %s are not described by a recognised datatype' % (which, what))
            return
        why = self.matches(s, L, st)
        if why:
            self.bad('layout', f, n, '%s:%s' % (which, why.split()[1]), 'the %s data of the %s: %s' % (which, what, why))

    def matches(self, s, L, st):
        sp = self.sp
        if isinstance(L.size, tuple):
            return 'the size is not known'
        eq = lambda a, b: self.equal(s, clean(a), clean(b))
        if L.extent is not None:
            return 'the datatype is resized'
        if L.step is None:
            if not eq(scale(L.n, L.size), scale(sp.nelems, sp.size)):
                return 'the amount is not %s elements of %d bytes' % ('one' if sp.single else 'nelems', sp.size)
            if clean(st) != {None: 1} and not eq(st, {None: 1}) and not eq(sp.nelems, {None: 1}):
                return 'the elements are taken as contiguous although the stride may not be 1'
            return None
        if L.size != sp.size:
            return 'the size of an element is %d, not %d bytes' % (L.size, sp.size)
        if not eq(L.n, sp.nelems):
            return 'the amount is not nelems elements'
        if not eq(L.step, scale(st, sp.size)):
            return 'the stride is not the one of the caller for this side'
        return None

    def packet(self, f, s, n, env):
        sp, T = self.sp, self.T
        k = q.akey(f, q.arg(n, 'buf'), env)
        typ = (env.mem or {}).get((k[0], k[1] + T.type_off))
        if typ is None or typ[0] != 'c':
            return s
        name = {v: x for x, v in T.pkt.items()}.get(typ[1])
        if name in ('flush', 'terminate'):
            return s
        self.issued(f, s, n)
        want = ('i' if sp.strided else '') + ('put' if sp.put else 'get')
        ok = {want} if sp.strided else {want, 'i' + want}
        self.R.ob('op', '%s %s' % (self.name, f.where(n)))
        if name not in ok:
            self.bad('op', f, n, 'packet', 'a packet of type %s is sent' % name)
            return s | {('done', n.v)}
        self.pe(f, n, env)
        F = T.fields[name]
        g = lambda x: (env.mem or {}).get((k[0], k[1] + F[x][0]))
        self.R.ob('layout', '%s packet %s' % (self.name, f.where(n)))
        eq = lambda a, b: self.equal(s, clean(a), clean(b))
        if name in ('put', 'get'):
            b = g('bytes')
            if b is None or not eq(lin(b), scale(sp.nelems, sp.size)):
                self.bad('layout', f, n, 'packet:bytes', 'the size in the packet is not that of nelems elements of %d bytes' % sp.size)
        else:
            c, t, x = g('nelems'), g('target_st'), g('mpi_type_idx')
            hs = T.types.get(x[1]) if x and x[0] == 'c' else None
            zs = {amtab.kind(h)[1] if amtab.kind(h) else None for h in hs or ()}
            if zs != {sp.size}:
                self.bad('layout', f, n, 'packet:type', 'the datatype index in the packet stands for %s, an element has %d bytes' % (hs, sp.size))
            if c is None or not eq(lin(c), sp.nelems):
                self.bad('layout', f, n, 'packet:nelems', 'the number of elements in the packet is not that of the caller')
            if t is None or not eq(lin(t), sp.rst):
                self.bad('layout', f, n, 'packet:stride', 'the stride in the packet is not the caller\'s stride of the remote side')
        if any(t[0] == 'early' for t in s):
            return frozenset(t for t in s if t[0] != 'early') | {('done',) + tuple(x for t in s if t[0] == 'early' for x in t[1:])}
        return s | {('packet',)}

    def mret(self, f, s, n, env):
        sp = self.sp
        self.R.ob('once', self.name)
        if any(t[0] in ('packet', 'early') for t in s):
            self.bad('once', f, n, 'unmatched', 'the data are not transferred on a path')
        done = [t for t in s if t[0] == 'done']
        if not done and not self.equal(s, sp.nelems, {}):
            self.bad('once', f, n, 'none', 'no operation is issued on a path although elements are to be moved')
        if sp.single and not sp.put and done:
            self.R.ob('buffers', '%s %s' % (self.name, f.where(n)))
            v = q.vkey(f, n.ops[0], env) if n.ops else None
            if v != ('recv', done[0][1]):
                self.bad('buffers', f, n, 'result', 'the returned value is not the one fetched')


class Handler(Typed):
    """The callback of a put, get, iput or iget packet moves what the packet says."""
    def __init__(self, m, R, kind, fields):
        self.m, self.R, self.kind, self.F = m, R, kind, fields
        self.schema = layout.schema(m) if kind[0] == 'i' else None

    def keep(self, k, d=4):
        return k[0] == '*' and k[1] == ('v', 'a1') or Typed.keep(self, k, d)

    def event(self, f, s, n, env):
        r = self.typeevent(f, s, n, env)
        if r is not None:
            return r
        if n.op == 'call' and (n.fn in SEND or n.fn in RECV):
            self.R.ob('handler', '%s %s' % (self.kind, f.where(n)))
            bad = lambda w: self.R.bad('handler', '%s:%s' % (self.kind, w.split(':')[0]), '%s: %s' % (f.name, w), f, n, self)
            if (n.fn in RECV) != self.kind.endswith('put'):
                bad('direction: the callback of a %s packet moves the data the wrong way' % self.kind)
            fld = lambda x: lin(('*', ('v', 'a1'), self.F[x][0], ()))
            self.uncompared = None
            L = self.layout(f, s, q.vkey(f, q.arg(n, 'count'), env), q.vkey(f, q.arg(n, 'type'), env), env)
            if L is None or L.extent is not None:
                bad('type: the data are not described by a recognised datatype%s' % (' (%s not compared)' % self.uncompared if self.uncompared else ''))
                return s
            if self.kind in ('put', 'get'):
                if L.step is not None or isinstance(L.size, tuple) or not self.equal(s, scale(L.n, L.size), fld('bytes')):
                    bad('bytes: the amount moved is not the one in the packet')
                return s
            idx = ('*', ('v', 'a1'), self.F['mpi_type_idx'][0], ())
            if L.size != ('size', idx):
                bad('type: the datatype is not the one in the packet')
            elif not self.equal(s, L.n, fld('nelems')):
                bad('nelems: the number of elements moved is not the one in the packet')
            elif L.step is None:
                if not self.equal(s, fld('target_st'), {None: 1}):
                    bad('stride: the elements are taken as contiguous although the stride may not be 1')
            elif not self.equal(s, L.step, fld('target_st')):
                bad('stride: the stride is not the one in the packet')
        return s


def handlers(m, R, kinds):
    from .c06 import Proto
    P = Proto(m)
    for t, fns in sorted(P.handlers.items()):
        k = P.kind(t)
        if k in kinds:
            for fn in sorted(fns):
                R.guard(handler, m, R, k, P.T.fields[k], fn)
    R.need('handler', len(kinds))


def handler(m, R, k, F, fn):
    f = m.fn(fn)
    sim(R, f, Handler(m, R, k, F))


def rules(R):
    R.rule('once', 'Every path that returns moves the data exactly once, or there are no elements to move')
    R.rule('op', 'A put routine puts, a get routine gets')
    R.rule('buffers', 'Local buffer, peer, value and result are the caller\'s')
    R.rule('layout', 'Count and datatype of either side describe the elements the arguments describe')
    R.rule('payload', 'Payload and reply of an active message describe the caller\'s local buffer')
    R.rule('handler', 'The callback moves the amount of data the packet says, in the right direction')


def run(m, R):
    rules(R)
    todo = [n for n in sorted(m.cls) if RX.match(n)]
    for name in todo:
        R.guard(one, m, R, name)
    R.need('once', 200)
    if q.has_am(m):
        R.guard(handlers, m, R, ('put', 'get'))


def one(m, R, name):
    f = m.fn(name)
    sp = Spec(m, name)
    if len(sp.sig) - 1 != sp.n or not sp.size:
        R.bad('layout', name, '%s: unexpected signature' % name, f, f.blocks[0][0])
        return
    r = sim(R, f, Rma(m, R, name, sp))
    if not r.rets:
        R.bad('once', '%s:return' % name, '%s never returns' % name, f, f.blocks[0][0])
