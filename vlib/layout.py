"""Data layouts denoted by an MPI count and datatype: basic types, vectors made on the path, and vectors found in the
cache of datatypes (described by the fields of the cache entry that the path has compared)."""
import re
from . import q, amtab
from .ir import const
from .mem import Mem
from .props.c08 import lin, diff


def scale(d, c):
    return {k: v * c for k, v in d.items() if v * c}


def clean(d):
    return {k: v for k, v in d.items() if v}


class Layout:
    """n elements of size bytes each, consecutive ones step bytes apart (None: contiguous); linear forms over keys.
    base is the MPI datatype key, extent the linear form of a resized extent."""
    def __init__(self, n, size, step=None, extent=None, base=None):
        self.n, self.size, self.step, self.extent, self.base = clean(n), size, step, extent, base


class Typed(Mem):
    """Tracks the datatypes made on the path and the equalities between arguments and cache fields. rest states are
    frozensets of tuples."""
    schema = None            # offset -> role of the fields of a datatype cache entry

    def mstart(self, f):
        return frozenset()

    def step(self, f, mem, n, env):
        if n.op == 'call' and n.fn == 'MPI_Type_commit':
            return mem
        mem = Mem.step(self, f, mem, n, env)
        if n.op == 'call' and n.fn in ('MPI_Type_vector', 'MPI_Type_contiguous', 'MPI_Type_create_hvector', 'MPI_Type_create_resized'):
            k = self.cell(f, q.arg(n, 'ptype'), env)
            if k is not None and not k[2]:
                mem = self.kill(mem, k[0], k[1], 8) | {((k[0], k[1]), ('dt', n.v), 8)}
        return mem

    def typeevent(self, f, s, n, env):
        """New rest state after a datatype constructor, else None."""
        if n.op != 'call' or n.fn not in ('MPI_Type_vector', 'MPI_Type_contiguous', 'MPI_Type_create_hvector', 'MPI_Type_create_resized'):
            return None
        K = lambda r: q.vkey(f, q.arg(n, r), env)
        s = frozenset(t for t in s if not (t[0] == 'dt' and t[1] == n.v))
        if n.fn == 'MPI_Type_vector':
            return s | {('dt', n.v, 'vec', K('count'), K('blen'), K('stride'), K('otype'))}
        if n.fn == 'MPI_Type_contiguous':
            return s | {('dt', n.v, 'contig', K('count'), ('c', 1), ('c', 1), K('otype'))}
        if n.fn == 'MPI_Type_create_hvector':
            return s | {('dt', n.v, 'hvec', K('count'), K('blen'), K('stride'), K('otype'))}
        return s | {('dt', n.v, 'resized', K('lb'), K('extent'), K('otype'))}

    def keep(self, k, d=4):
        """Values whose equality is worth remembering: arguments, constants, fields reached from arguments."""
        if k[0] == 'c':
            return True
        if k[0] == 'v':
            return k[1][:2] != 'g:' or k[1][:6] == 'g:ompi'
        if self.table(k) is not None:
            return True
        if k[0] == 'mul':
            return all(self.keep(x, d - 1) for x in k[1:])
        return k[0] == '*' and not k[3] and d > 0 and self.keep(k[1], d - 1)

    def equalities(self, f, s, nxt, atoms, env):
        ph = [n.v for n in f.blocks[nxt] if n.op == 'phi']
        for p, a, b in atoms:
            if p == 'eq' or p == 'ule' and const(b) == 0 or p == 'ult' and const(b) == 1:
                b = 'i64:0' if p != 'eq' else b
                x, y = q.vkey(f, a, env), q.vkey(f, b, env)
                if self.keep(x) and self.keep(y) and x != y and ('v', 'null') not in (x, y):
                    s = s | {('eq',) + tuple(sorted((x, y), key=str))}
        if ph:
            s = frozenset(t for t in s if not any(q.mentions(t, v) for v in ph))
        return s

    def medge(self, f, s, blk, nxt, atoms, env):
        return self.equalities(f, s, nxt, atoms, env)

    def edge(self, f, s, blk, nxt, atoms, env):
        r = Mem.edge(self, f, s, blk, nxt, atoms, env)
        if not isinstance(r, tuple):
            return r
        mem, rest = r
        if not rest:
            return r
        live = {t[1][1] for t in mem if t[1][0] == 'dt'} | {t[3][1] for t in rest if t[0] == 'st' and t[3][0] == 'dt'}
        for i in (0, 1):
            live |= {t[-1][1] for t in rest if t[0] == 'dt' and t[1] in live and t[-1][0] == 'dt'}
        out = set()
        for t in rest:
            if t[0] == 'dt' and t[1] not in live:
                out.add(t)
            elif t[0] == 'eq':
                for v in ssa(t[1:]):
                    if nxt not in self.usereach(f, v) and not any(q.mentions(x[1], v) for x in mem):
                        out.add(t)
                        break
        return (mem, rest - out) if out else r

    @staticmethod
    def equal(s, x, y):
        """Are the linear forms equal given the equalities in s?"""
        d = diff(x, y)
        if not d:
            return True
        par = {}

        def find(k):
            while k in par:
                k = par[k]
            return k
        for t in sorted(s, key=str):
            if t[0] == 'eq':
                a, b = find(t[1]), find(t[2])
                if a != b:
                    if a[0] == 'c':
                        a, b = b, a
                    if a[0] != 'c':
                        par[a] = b
        out = {}
        for k, v in d.items():
            r = find(k) if k is not None else None
            if r is not None and r[0] == 'c':
                out[None] = out.get(None, 0) + v * r[1]
            else:
                out[r] = out.get(r, 0) + v
        return not clean(out)

    def tsize(self, s, t):
        """Size in bytes of a basic datatype key; a table entry gives a symbolic size."""
        if t[0] == 'v':
            k = amtab.kind(t[1])
            return k[1] if k else None
        return None

    def layout(self, f, s, count, t, env, d=3):
        """Layout of (count, type) given as keys; None when not recognised."""
        n = lin(count)
        z = self.tsize(s, t)
        if z is not None:
            return Layout(n, z, base=t)
        tab = self.table(t)
        if tab is not None:
            return Layout(n, ('size', tab), base=t)
        if t[0] == 'dt':
            for x in s:
                if x[0] == 'dt' and x[1] == t[1]:
                    return self.made(f, s, n, x, env, d)
            return None
        if t[0] == '*' and self.schema and t[2] == self.schema.get('type'):
            return self.cached(f, s, n, t, env)
        # a type known to equal another one
        if d > 0:
            for x in s:
                if x[0] == 'eq' and t in x[1:]:
                    o = x[2] if x[1] == t else x[1]
                    if o[0] == 'v' and amtab.kind(o[1]):
                        return self.layout(f, s, count, o, env, d - 1)
        return None

    def table(self, t):
        T = amtab.tables(self.m)
        if t[0] == '*' and len(t[3]) == 1 and t[2] == 0 and t[3][0][1] == 8 and t[1] in T.typetab:
            return t[3][0][0]
        return None

    def made(self, f, s, n, x, env, d):
        if x[2] == 'resized':
            b = self.layout(f, s, ('c', 1), x[5], env, d - 1) if d else None
            if b is None or b.extent is not None or x[3] != ('c', 0) or n != {None: 1}:
                return Layout(b.n, b.size, b.step, lin(x[4]), b.base) if b is not None and x[3] == ('c', 0) else None
            return Layout(b.n, b.size, b.step, lin(x[4]), b.base)
        b = self.layout(f, s, ('c', 1), x[6], env, d - 1) if d else None
        if b is None or b.step is not None or b.n != {None: 1} or clean(n) != {None: 1}:
            return None
        if x[4][0] != 'c':
            return None
        bl = x[4][1]
        if isinstance(b.size, tuple):
            if bl != 1:
                return None
            return Layout(lin(x[3]), b.size, lin(x[5]) if x[2] != 'hvec' else None, None, b.base)
        step = lin(x[5])
        step = step if x[2] == 'hvec' else scale(step, b.size)
        return Layout(lin(x[3]), b.size * bl, step, None, b.base)

    def cached(self, f, s, n, t, env):
        """The type kept in a cache entry: the entry's other fields describe it."""
        if clean(n) != {None: 1}:
            return None
        node, got = t[1], {}
        for role, off in self.schema.items():
            if role == 'type':
                continue
            fld = ('*', node, off, ())
            for x in s:
                if x[0] == 'eq' and fld in x[1:]:
                    o = x[2] if x[1] == fld else x[1]
                    if o[0] == '*' and o[1] == node:
                        continue
                    got.setdefault(role, o)
            if role not in got:
                self.uncompared = role
                return None
        b = self.layout(f, s, ('c', 1), got['base'], env)
        if b is None:
            return None
        ext = None
        if 'ext' in got and got['ext'] != ('c', 0):
            ext = got['ext']
        if isinstance(b.size, tuple):
            return Layout(lin(got['count']), b.size, lin(got['stride']), ext, b.base)
        return Layout(lin(got['count']), b.size, scale(lin(got['stride']), b.size), ext, b.base)


def ssa(k):
    """SSA values in a key."""
    if isinstance(k, str):
        return {k} if k[:1] == '%' else set()
    out = set()
    if isinstance(k, tuple):
        for x in k:
            out |= ssa(x)
    return out


class Insert(Typed):
    """How datatype cache entries are filled: collects the schema and checks that the fields describe the type."""
    def __init__(self, m, R=None, members=None):
        self.m, self.R, self.members = m, R, members
        self.found = []

    def equalities(self, f, s, nxt, atoms, env):
        s = Typed.equalities(self, f, s, nxt, atoms, env)
        return frozenset(t for t in s if t[0] != 'eq' or ('c', 0) in t[1:])

    def keep(self, k, d=4):
        return k[0] in ('c', 'mul') or k[0] == 'v' and k[1][0] == 'a'

    def event(self, f, s, n, env):
        r = self.typeevent(f, s, n, env)
        if r is not None:
            return r
        if n.op == 'store':
            k = q.akey(f, n.ops[1], env)
            v = q.vkey(f, n.ops[0], env)
            if k[0][0] == 'v' and k[0][1][0] == '%' and not k[2]:
                d = f.insts[k[0][1]]
                if d.op == 'call' and d.fn in ('malloc', 'calloc'):
                    s = frozenset(t for t in s if t[:3] != ('st', d.v, k[1]))
                    return s | {('st', d.v, k[1], v)}
            if v[0] == 'v' and v[1][0] == '%' and f.insts[v[1]].op == 'call' and f.insts[v[1]].fn in ('malloc', 'calloc'):
                fl = {t[2]: t[3] for t in s if t[0] == 'st' and t[1] == v[1]}
                if any(x[0] == 'dt' for x in fl.values()):
                    self.found.append((f, n, fl, s, k))
                s = frozenset(t for t in s if not (t[0] == 'st' and t[1] == v[1]))
        return s


def schema(m):
    """{role: offset} of the entries of the datatype cache, None without one."""
    if not hasattr(m, '_dtschema'):
        m._dtschema = None
        from . import paths
        for f, ms in sorted(m.reps('^shmem'), key=lambda x: sum(map(len, x[0].blocks))):
            if any(True for _ in f.calls('^MPI_Type_vector$')) and any(True for _ in f.calls('^malloc$')):
                r = Insert(m)
                paths.explore(f, r, 200000)
                got = [roles(m, x) for x in r.found]
                got = [g for g in got if g]
                if got:
                    m._dtschema = max(got, key=len)
                    break
    return m._dtschema


def describe(s, t):
    """(role -> value key) of a datatype made on the path."""
    for x in s:
        if x[0] == 'dt' and x[1] == t[1]:
            if x[2] == 'resized':
                r = describe(s, x[5]) if x[5][0] == 'dt' else None
                if r is None:
                    return None
                r['extent'] = x[4]
                return r
            return {'count': x[3], 'blen': x[4], 'stride': x[5], 'base': x[6], 'kind': x[2]}
    return None


def roles(m, rec):
    f, n, fl, s, k = rec
    out = {}
    for off, v in fl.items():
        if v[0] == 'dt':
            out['type'] = off
            d = describe(s, v)
    if d is None:
        return None
    for role in ('count', 'stride', 'base'):
        for off, v in fl.items():
            if v == d[role] and off not in out.values():
                out[role] = off
    rest = [off for off, v in fl.items() if off not in out.values() and v[0] == 'c' and v[1] == 0]
    ext = [off for off, v in fl.items() if off not in out.values() and 'extent' in d and q_has(d['extent'], v)]
    if ext:
        out['ext'] = ext[0]
    elif len(rest) == 1:
        out['ext'] = rest[0]
    return out


def q_has(k, x):
    return k == x or isinstance(k, tuple) and any(q_has(y, x) for y in k)
