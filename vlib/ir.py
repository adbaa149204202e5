"""Program representation for the rules: inlined SSA functions with typed memory locations.

A Function is one API entry point (or address-taken callback) of /repo with all of its defined callees
inlined.  Values are strings: "%12" (instruction), "a0" (argument), "i32:5", "g:NAME+OFF" (address in a
global), "g:ompi_..." (an MPI handle object), "@f" (function), "null", "undef", "s:..." (string)."""
import json, re, os
from collections import defaultdict, deque


class AnalysisError(Exception):
    """The analysis cannot give an answer (missing anchor, unexpected shape): error exit."""


class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'x', 'loc', 'blk', 'idx', 'f')

    @property
    def v(self):
        return '%%%d' % self.id

    @property
    def fn(self):
        """Name of the called function, without '@'; None for an indirect call."""
        if self.op != 'call':
            return None
        c = self.x['fn']
        return c[1:] if c.startswith('@') else None

    def where(self):
        return self.f.where(self)

    def __repr__(self):
        return '%s=%s %s %s' % (self.v, self.op, self.ops, {k: v for k, v in self.x.items()})


class Loc:
    """A memory location: root value + field path walked from the root's type."""
    __slots__ = ('root', 'path', 'fields', 'ty', 'rty')

    def __init__(self, root, path, fields, ty, rty):
        self.root, self.path, self.fields, self.ty, self.rty = root, path, fields, ty, rty

    @property
    def is_global(self):
        return self.root.startswith('g:')

    @property
    def name(self):
        return self.path

    def __repr__(self):
        return self.path if self.is_global else '%s{%s}' % (self.path, self.root)


class Module:
    def __init__(self, path):
        self.file = path
        d = json.load(open(path))
        self.types, self.enums, self.decl, self.globals = d['types'], d['enums'], d['decl'], d['globals']
        self.addrtaken, self.recursive = d['addrtaken'], d['recursive']
        self.classes = d['classes']
        self.stats = {k: d[k] for k in ('inlined', 'functions', 'roots')}
        self.cls = {}
        for c in self.classes:
            for m in c['members']:
                self.cls[m] = c
        self._cache = {}
        self.byname = {}
        for i, t in enumerate(self.types):
            if t.get('n') and t['k'] in ('struct', 'union'):
                self.byname.setdefault(t['n'], i)

    def names(self, rx=None):
        return [n for n in self.cls if rx is None or re.search(rx, n)]

    def has(self, n):
        return n in self.cls

    def fn(self, name):
        if name not in self.cls:
            raise AnalysisError('entry point %s not found in the program' % name)
        if name not in self._cache:
            self._cache[name] = Function(self, name, self.cls[name])
        return self._cache[name]

    def reps(self, rx=None, exclude=None):
        """One representative per structural class of the functions matching rx; yields (Function, members)."""
        for c in self.classes:
            ms = [m for m in c['members'] if (rx is None or re.search(rx, m)) and not (exclude and re.search(exclude, m))]
            if ms:
                yield self.fn(ms[0]), ms

    def size(self, t):
        return self.types[t]['sz'] if t is not None and t >= 0 else 0

    def tname(self, t):
        n = self.types[t].get('n', '') if t is not None and t >= 0 else ''
        return n if isinstance(n, str) else ''

    def pointee(self, t):
        if t is None or t < 0:
            return -1
        t = self.types[t]
        return t['of'] if t['k'] == 'ptr' else -1

    def walk(self, t, off, var, hints):
        """(path string, [(struct, field)], leaf type) of byte offset off (+ var: list of strides) in type t."""
        path, fields = '', []
        var = list(var)
        if t is None or t < 0:
            return ('+%d' % off) + ''.join('[*%d]' % s for s in var), fields, -1
        T = self.types[t]
        sz = T['sz']
        if sz and T['k'] != 'arr':
            if sz in var:
                var.remove(sz)
                path += '[*]'
                off %= sz
            elif off >= sz and off >= 0:
                path += '[%d]' % (off // sz)
                off %= sz
        guard = 0
        while guard < 20:
            guard += 1
            T = self.types[t]
            if T['k'] == 'struct':
                pick = None
                for n, o, mt in T['m']:
                    if o <= off < o + max(1, self.size(mt)):
                        pick = (n, o, mt)
                if not pick:
                    path += '+%d' % off
                    break
                path += '.' + pick[0]
                fields.append((T.get('n', ''), pick[0]))
                off -= pick[1]
                t = pick[2]
            elif T['k'] == 'union':
                pick = None
                for n, o, mt in T['m']:
                    if mt in hints:
                        pick = (n, o, mt)
                if pick is None:
                    path += '.<u>+%d' % off
                    t = -1
                    break
                path += '.' + pick[0]
                fields.append((T.get('n', ''), pick[0]))
                off -= pick[1]
                t = pick[2]
            elif T['k'] == 'arr':
                es = max(1, self.size(T['of']))
                if es in var:
                    var.remove(es)
                    path += '[*]'
                    off %= es
                else:
                    path += '[%d]' % (off // es)
                    off %= es
                t = T['of']
            else:
                if off:
                    path += '+%d' % off
                break
        path += ''.join('[*%d]' % s for s in var)
        return path, fields, t


CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'}
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
       'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult',
        'ule': 'uge', 'uge': 'ule'}


_CONST = {}
_CRX = re.compile(r'i\d+:(-?\d+)$')


def const(v):
    """Integer value of a constant operand, else None ('null' is 0)."""
    if v[0] == '%':
        return None
    if v not in _CONST:
        m = _CRX.match(v)
        _CONST[v] = 0 if v == 'null' else int(m.group(1)) if m else None
    return _CONST[v]


class Function:
    def __init__(self, mod, name, cls):
        self.m, self.name, self.cls = mod, name, cls
        holes = cls['members'][name]
        self.locs, self.var = cls['locs'], cls['var']
        self.insts, self.blocks = {}, []
        body = cls['body']

        def R(v):
            if v[0] == 'h' and v[1:].isdigit():
                return holes[int(v[1:])]
            return v
        k = 0
        for bi, b in enumerate(body['blocks']):
            L = []
            for ii, (i, op, ty, ops, x) in enumerate(b):
                n = Inst()
                n.id, n.op, n.ty, n.x, n.blk, n.idx, n.f = i, op, ty, x, bi, ii, self
                n.ops = [R(o) for o in ops]
                if 'fn' in x:
                    n.x = dict(x, fn=R(x['fn']))
                if 'var' in x and x['var']:
                    n.x = dict(x, var=[[R(o), s] for o, s in x['var']])
                n.loc = cls['il'][k]
                k += 1
                L.append(n)
                self.insts[n.v] = n
            self.blocks.append(L)
        self.succ = [self._succ(b[-1]) for b in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for i, s in enumerate(self.succ):
            for t in dict.fromkeys(s):
                self.pred[t].append(i)
        self.uses = defaultdict(list)
        for b in self.blocks:
            for n in b:
                for o in n.ops + ([n.x['fn']] if 'fn' in n.x else []) + [o for o, _ in n.x.get('var', [])]:
                    if o[0] == '%':
                        self.uses[o].append(n)
        d = mod.decl.get(name, ['', 0, [], []])
        self.file, self.line, self.sig, self.argnames = d
        self._rt, self._reach, self._loops = {}, None, None
        self._addr, self._locc = {}, {}

    @staticmethod
    def _succ(t):
        if t.op == 'br':
            return list(t.x['to'])
        if t.op == 'switch':
            return [t.x['def']] + [b for _, b in t.x['cases']]
        return []

    # ------------------------------------------------------------------ positions
    def where(self, n):
        out, l = [], n.loc
        while l is not None and l >= 0:
            f, line, fn, up = self.locs[l]
            out.append('%s:%d(%s)' % (os.path.basename(f), line, fn))
            l = up
        return ' < '.join(out) if out else self.name

    def pos(self, n):
        l = n.loc
        if l is None or l < 0:
            return self.name
        f, line, fn, up = self.locs[l]
        return '%s:%d' % (os.path.basename(f), line)

    # ------------------------------------------------------------------ values
    def i(self, v):
        return self.insts.get(v)

    def strip(self, v):
        """Look through casts."""
        n = self.insts.get(v)
        while n is not None and n.op in CAST:
            v = n.ops[0]
            n = self.insts.get(v)
        return v

    def all(self):
        for b in self.blocks:
            for n in b:
                yield n

    def calls(self, rx):
        r = re.compile(rx)
        return [n for n in self.all() if n.op == 'call' and n.fn and r.match(n.fn)]

    def addr(self, v):
        """(root value, const offset, [(index operand, stride)], [type hints])"""
        c = self._addr.get(v)
        if c is None:
            c = self._addr[v] = self.addr0(v)
        return c

    def addr0(self, v):
        off, var, hints = 0, [], []
        while True:
            v = self.strip(v)
            n = self.insts.get(v)
            if n is not None and n.op == 'getelementptr':
                off += n.x['off']
                var = [(o, s) for o, s in n.x['var']] + var
                if n.x.get('st', -1) >= 0:
                    hints.append(n.x['st'])
                v = n.ops[0]
                continue
            break
        m = re.match(r'g:(.+)\+(\d+)$', v)
        if m:
            off += int(m.group(2))
            v = 'g:' + m.group(1)
        return v, off, var, hints

    def rootty(self, v):
        """Type (id) of the object the pointer v points to, -1 if unknown."""
        if v in self._rt:
            return self._rt[v]
        self._rt[v] = -1
        t = -1
        M = self.m
        if v.startswith('g:'):
            g = M.globals.get(v[2:].split('+')[0])
            t = g[1] if g else -1
        elif v[0] == 'a' and v[1:].isdigit():
            k = int(v[1:]) + 1
            t = M.pointee(self.sig[k]) if k < len(self.sig) else -1
        else:
            n = self.insts.get(v)
            if n is not None:
                if n.op == 'alloca':
                    t = n.x.get('dt', -1)
                elif n.op == 'load':
                    t = M.pointee(self.loc(n.ops[0]).ty)
                elif n.op in ('phi', 'select'):
                    for o in (n.ops if n.op == 'phi' else n.ops[1:]):
                        if o in ('null', 'undef') or o == v:
                            continue
                        t = self.objty(o)
                        if t >= 0:
                            break
                elif n.op in CAST:
                    t = self.rootty(n.ops[0])
        if t < 0 or M.types[t]['k'] == 'base':
            # untyped (void *, malloc): the struct the code uses it as
            h = [u.x['st'] for u in self.uses.get(v, []) if u.op == 'getelementptr' and u.ops[0] == v and u.x.get('st', -1) >= 0]
            if h:
                t = h[0]
            elif t < 0:
                # stored into a typed location (p->field = malloc(...))
                for u in self.uses.get(v, []):
                    if u.op == 'store' and u.ops[0] == v and u.ops[1] != v:
                        lt = M.pointee(self.loc(u.ops[1]).ty)
                        if lt >= 0:
                            t = lt
                            break
        self._rt[v] = t
        return t

    def objty(self, v):
        """Type of the object at address v (outermost when v is the start of a struct)."""
        root, off, var, hints = self.addr(v)
        n = self.insts.get(self.strip(v))
        rt = self.rootty(root)
        if off == 0 and not var and (n is None or n.op != 'getelementptr'):
            return rt
        # descend to the sub-object starting at off (largest struct that starts there)
        t = rt
        g = 0
        while t >= 0 and g < 20:
            g += 1
            T = self.m.types[t]
            if T['sz'] and T['k'] != 'arr':
                off %= T['sz']
            if off == 0 and T['k'] in ('struct', 'union'):
                # is there a hint to stop at?
                if t in hints or not hints or True:
                    # a GEP result at offset 0 of a nested struct: keep the outermost one reached after an offset
                    return t
            if T['k'] == 'struct':
                nx = None
                for nme, o, mt in T['m']:
                    if o <= off < o + max(1, self.m.size(mt)):
                        nx = (o, mt)
                if nx is None:
                    return -1
                off -= nx[0]
                t = nx[1]
            elif T['k'] == 'arr':
                es = max(1, self.m.size(T['of']))
                off %= es
                t = T['of']
            elif T['k'] == 'union':
                nx = [x for x in T['m'] if x[2] in hints]
                if not nx:
                    return -1
                t = nx[0][2]
            else:
                return t
        return t

    def loc(self, v):
        """Canonical location of the address v."""
        c = self._locc.get(v)
        if c is None:
            c = self._locc[v] = self.loc0(v)
        return c

    def loc0(self, v):
        root, off, var, hints = self.addr(v)
        hs = set(hints)
        for u in self.uses.get(v, []):
            if u.op == 'getelementptr' and u.x.get('st', -1) >= 0:
                hs.add(u.x['st'])
        rt = self.rootty(root)
        path, fields, ty = self.m.walk(rt, off, [s for _, s in var], hs)
        if root.startswith('g:'):
            name = root[2:] + path
        else:
            name = (self.m.tname(rt) or '?') + path
        return Loc(root, name, fields, ty, rt)

    def idx(self, v):
        """Variable index operands of the address v (outer first)."""
        return [o for o, _ in self.addr(v)[2]]

    # ------------------------------------------------------------------ expressions
    def expr(self, v, depth=12):
        """Printable canonical expression of a value."""
        if depth == 0:
            return '…'
        if v[0] != '%':
            if v[0] == 'a' and v[1:].isdigit():
                return 'arg%s' % v[1:]
            m = re.match(r'i\d+:(-?\d+)$', v)
            if m:
                return m.group(1)
            if re.match(r'g:.*\+\d+$', v):
                return '&' + self.loc(v).path
            return v
        n = self.insts[v]
        if n.op in CAST:
            return self.expr(n.ops[0], depth)
        if n.op == 'load':
            L = self.loc(n.ops[0])
            if L.is_global or L.root[0] == '%' and self.insts[L.root].op == 'alloca':
                return L.path if L.is_global else '*' + self.expr(L.root, depth - 1) + L.path[len(self.m.tname(L.rty)):]
            return '%s(%s)' % (L.path, self.expr(L.root, depth - 1))
        if n.op == 'getelementptr':
            L = self.loc(v)
            ix = ''.join('{%s}' % self.expr(o, depth - 1) for o in self.idx(v))
            return '&%s(%s)%s' % (L.path, '' if L.is_global else self.expr(L.root, depth - 1), ix)
        if n.op == 'alloca':
            return 'local:%s' % self.var.get(str(n.id), v)
        if n.op == 'phi':
            return 'phi' + v
        if n.op == 'select':
            return '(%s?%s:%s)' % tuple(self.expr(o, depth - 1) for o in n.ops)
        if n.op == 'icmp':
            return '(%s %s %s)' % (self.expr(n.ops[0], depth - 1), n.x['pred'], self.expr(n.ops[1], depth - 1))
        if n.op == 'call':
            return 'call:%s%s' % (n.fn or 'indirect', v)
        return '%s(%s)' % (n.op, ','.join(self.expr(o, depth - 1) for o in n.ops))

    def atoms(self, v, truth, env=None):
        """Atomic facts implied by the i1 value v being truth: list of (pred, a, b) with constants on the right."""
        v = env.get(v, v) if env else v
        n = self.insts.get(v)
        out = []
        if n is None:
            return out
        if n.op == 'icmp':
            p, a, b = n.x['pred'], self.strip(n.ops[0]), self.strip(n.ops[1])
            if not truth:
                p = NEG.get(p, '!' + p)
            if const(a) is not None and const(b) is None:
                a, b, p = b, a, SWAP.get(p, p)
            # (zext i1) != 0
            na = self.insts.get(a)
            if na is not None and na.ty == 'i1' and const(b) == 0 and p in ('eq', 'ne'):
                return self.atoms(a, p == 'ne', env)
            if const(b) is not None and p in ('eq', 'ne'):
                # a phi resolved on this path, or a select between two constants, compared with a constant
                r, guard = a, 0
                while guard < 8:
                    guard += 1
                    r2 = self.strip(env.get(r, r)) if env else r
                    if r2 == r:
                        break
                    r = r2
                nr = self.insts.get(r)
                if nr is not None and nr.ty == 'i1' and const(b) == 0:
                    return [(p, a, b)] * (a != r) + self.atoms(r, p == 'ne', env)
                if nr is not None and nr.op == 'select':
                    k1, k2 = const(self.strip(nr.ops[1])), const(self.strip(nr.ops[2]))
                    kb = const(b)
                    if k1 is not None and k2 is not None and (k1 == kb) != (k2 == kb):
                        return [(p, a, b)] + self.atoms(nr.ops[0], (k1 == kb) == (p == 'eq'), env)
            out.append((p, a, b))
        elif n.op == 'select' and n.ty == 'i1':
            c, t, f = n.ops
            if truth and const(f) == 0:
                out += self.atoms(c, True, env) + self.atoms(t, True, env)
            elif not truth and const(t) in (1, -1):
                out += self.atoms(c, False, env) + self.atoms(f, False, env)
        elif n.op == 'xor' and const(n.ops[1]) in (1, -1) and n.ty == 'i1':
            out += self.atoms(n.ops[0], not truth, env)
        elif n.op == 'and' and n.ty == 'i1' and truth:
            out += self.atoms(n.ops[0], True, env) + self.atoms(n.ops[1], True, env)
        elif n.op == 'or' and n.ty == 'i1' and not truth:
            out += self.atoms(n.ops[0], False, env) + self.atoms(n.ops[1], False, env)
        elif n.op == 'trunc' or n.op == 'freeze':
            out += self.atoms(n.ops[0], truth, env)
        return out

    # ------------------------------------------------------------------ graph helpers
    def reach(self):
        """reach()[b] = set of blocks reachable from b by at least one edge."""
        if self._reach is None:
            n = len(self.blocks)
            self._reach = []
            for s in range(n):
                seen, st = set(), list(self.succ[s])
                while st:
                    b = st.pop()
                    if b not in seen:
                        seen.add(b)
                        st += self.succ[b]
                self._reach.append(seen)
        return self._reach

    def before(self, a, b):
        """May instruction a execute before b on some path?"""
        return (a.blk == b.blk and a.idx < b.idx) or b.blk in self.reach()[a.blk]

    def domtree(self):
        if getattr(self, '_dom', None) is None:
            n = len(self.blocks)
            dom = [None] * n
            order, seen = [], set()

            def dfs(b):
                st = [(b, iter(self.succ[b]))]
                seen.add(b)
                while st:
                    x, it = st[-1]
                    for s in it:
                        if s not in seen:
                            seen.add(s)
                            st.append((s, iter(self.succ[s])))
                            break
                    else:
                        order.append(x)
                        st.pop()
            dfs(0)
            full = set(order)
            dom = {b: set(full) for b in full}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in reversed(order):
                    if b == 0:
                        continue
                    ps = [p for p in self.pred[b] if p in full]
                    nw = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
                    if nw != dom[b]:
                        dom[b] = nw
                        ch = True
            self._dom = dom
        return self._dom

    def dominates(self, a, b):
        """Instruction a dominates instruction b."""
        if a.blk == b.blk:
            return a.idx < b.idx
        return a.blk in self.domtree().get(b.blk, ())

    def loops(self):
        """Natural loops: {header: set of blocks}."""
        if self._loops is None:
            dom = self.domtree()
            L = {}
            for b in dom:
                for s in self.succ[b]:
                    if s in dom[b]:
                        body, st = {s, b}, [b]
                        while st:
                            x = st.pop()
                            if x == s:
                                continue
                            for p in self.pred[x]:
                                if p in dom and p not in body:
                                    body.add(p)
                                    st.append(p)
                        L[s] = L.get(s, set()) | body
            self._loops = L
        return self._loops

    def innermost(self, blk):
        c = [(len(b), h) for h, b in self.loops().items() if blk in b]
        return min(c)[1] if c else None
