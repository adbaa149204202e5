"""Terms: the conditions and results found on a path as expressions over a few named leaves, with their widths, and
their value for an assignment of the leaves."""
import math
import re
from .ir import const

OPS = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b}
ARITH = ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem')


ROUND = re.compile(r'(?:llvm\.)?(ceil|floor|round|rint|nearbyint|trunc)(?:l|f|\.f64)?$')


def width(ty):
    return int(ty[1:]) if re.match(r'i\d+$', ty or '') else 64


def sg(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


def make(f, v, env, leaf, w=None, d=14):
    """The term of a value; leaf(f, n, env) names a load (or other instruction) or returns None."""
    v = env.get(v) if env is not None else v
    c = const(v)
    if v == 'null':
        return ('c', 0, 64)
    if v.startswith('f:'):
        try:
            return ('f', float(v[2:]), 64)
        except ValueError:
            return ('u', v, 64)
    if c is not None:
        m = re.match(r'i(\d+):', v)
        return ('c', c, int(m.group(1)) if m else w or 64)
    if re.match(r'a\d+$', v):
        k = int(v[1:]) + 1
        t = f.sig[k] if k < len(f.sig) else -1
        return ('arg', int(v[1:]), 8 * (f.m.size(t) or 8) if t >= 0 else 64)
    n = f.insts.get(v)
    if n is None or d == 0:
        return ('u', v, w or 64)
    l = leaf(f, n, env)
    if l is not None:
        if l[0] == 'val':
            return make(f, l[1], env, leaf, width(n.ty), d - 1)
        return ('leaf', l, width(n.ty))
    if n.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
        return (n.op, make(f, n.ops[0], env, leaf, None, d - 1), width(n.ty))
    if n.op == 'icmp':
        return ('icmp', n.x['pred'], make(f, n.ops[0], env, leaf, None, d - 1), make(f, n.ops[1], env, leaf, None, d - 1), 1)
    if n.op == 'select':
        return ('select',) + tuple(make(f, o, env, leaf, width(n.ty), d - 1) for o in n.ops) + (width(n.ty),)
    if n.op in ('fmul', 'fadd', 'fsub', 'fdiv'):
        return ('fbin', n.op) + tuple(make(f, o, env, leaf, 64, d - 1) for o in n.ops) + (64,)
    if n.op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fneg', 'fpext', 'fptrunc'):
        return (n.op, make(f, n.ops[0], env, leaf, None, d - 1), width(n.ty))
    if n.op == 'call' and n.fn and ROUND.match(n.fn):
        return ('round', ROUND.match(n.fn).group(1), make(f, n.ops[0], env, leaf, 64, d - 1), 64)
    if n.op == 'fcmp':
        return ('fcmp', n.x['pred'], make(f, n.ops[0], env, leaf, None, d - 1), make(f, n.ops[1], env, leaf, None, d - 1), 1)
    if n.op in ARITH:
        return ('bin', n.op) + tuple(make(f, o, env, leaf, width(n.ty), d - 1) for o in n.ops) + (width(n.ty),)
    return ('u', v, width(n.ty))


def has(t, what):
    return isinstance(t, tuple) and (t[0] == what or any(has(x, what) for x in t[1:] if isinstance(x, tuple)))


def leaves(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t[0] in ('arg', 'leaf'):
            out.add((t[0], t[1]))
        else:
            for x in t[1:]:
                if isinstance(x, tuple):
                    leaves(x, out)
    return out


def ev(t, b):
    """Value as an unsigned number, or None when it is not determined. A division by zero is not determined either."""
    k = t[0]
    if k == 'c':
        return t[1] & ((1 << t[2]) - 1)
    if k in ('arg', 'leaf'):
        x = b.get((k, t[1]))
        return x if x is None or isinstance(x, float) else x & ((1 << t[2]) - 1)
    if k == 'u':
        return None
    if k == 'f':
        return t[1]
    if k == 'fbin':
        x, y = ev(t[2], b), ev(t[3], b)
        if x is None or y is None or t[1] == 'fdiv' and y == 0:
            return None
        return {'fmul': lambda: x * y, 'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fdiv': lambda: x / y}[t[1]]()
    if k in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fneg', 'fpext', 'fptrunc'):
        x = ev(t[1], b)
        if x is None:
            return None
        return {'fptoui': lambda: int(x) & ((1 << t[2]) - 1), 'fptosi': lambda: int(x) & ((1 << t[2]) - 1), 'uitofp': lambda: float(x),
                'sitofp': lambda: float(sg(x, t[1][-1])), 'fneg': lambda: -x}.get(k, lambda: x)()
    if k == 'round':
        x = ev(t[2], b)
        return None if x is None else float({'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc}.get(t[1], round)(x))
    if k == 'fcmp':
        x, y = ev(t[2], b), ev(t[3], b)
        return None if x is None or y is None or t[1][-2:] not in OPS else int(OPS[t[1][-2:]](x, y))
    if k in ('zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
        x = ev(t[1], b)
        return None if x is None else x & ((1 << t[2]) - 1)
    if k == 'sext':
        x = ev(t[1], b)
        return None if x is None else sg(x, t[1][-1]) & ((1 << t[2]) - 1)
    if k == 'icmp':
        x, y = ev(t[2], b), ev(t[3], b)
        if x is None or y is None:
            return None
        w = max(t[2][-1] if t[2][0] != 'c' else 0, t[3][-1] if t[3][0] != 'c' else 0) or 64
        x, y = x & ((1 << w) - 1), y & ((1 << w) - 1)
        if t[1][0] == 's':
            x, y = sg(x, w), sg(y, w)
        return int(OPS[t[1][-2:]](x, y))
    if k == 'select':
        c = ev(t[1], b)
        return None if c is None else ev(t[2 if c else 3], b)
    if k == 'bin':
        x, y, w, o = ev(t[2], b), ev(t[3], b), t[-1], t[1]
        if x is None or y is None:
            return 0 if o == 'and' and 0 in (x, y) else None
        M = (1 << w) - 1
        if o in ('sdiv', 'srem', 'udiv', 'urem'):
            if o[0] == 's':
                x, y = sg(x, w), sg(y, w)
            if y == 0:
                return None
            qq = abs(x) // abs(y)
            qq = -qq if (x < 0) != (y < 0) else qq
            return (qq if o[1:] == 'div' else x - qq * y) & M
        if o in ('shl', 'lshr', 'ashr'):
            if y >= w:
                return None
            return {'shl': x << y, 'lshr': x >> y, 'ashr': sg(x, w) >> y}[o] & M
        return {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x + y, 'sub': x - y, 'mul': x * y}[o] & M
    return None


def branch(f, blk, nxt, env, leaf):
    """Facts (term, truth) an edge establishes."""
    t = f.blocks[blk][-1]
    if t.op == 'br' and t.ops and len(set(f.succ[blk])) == 2:
        return [(make(f, t.ops[0], env, leaf), nxt == f.succ[blk][0])]
    if t.op == 'switch':
        v = make(f, t.ops[0], env, leaf)
        cases = [(int(c), b) for c, b in t.x.get('cases', [])]
        eq = lambda c: ('icmp', 'eq', v, ('c', c, v[-1]), 1)
        if nxt == t.x['def']:
            return [(eq(c), False) for c, b in cases if b != nxt]
        here = [c for c, b in cases if b == nxt]
        if not here:
            return []
        e = eq(here[0])
        for c in here[1:]:
            e = ('bin', 'or', e, eq(c), 1)
        return [(e, True)]
    return []


class Space:
    """The assignments of the leaves that are considered, narrowed by the facts of a path."""

    def __init__(self, all_):
        self.cache = {frozenset(): all_}
        self.lv = set()
        for b in all_[:1]:
            self.lv = set(b)

    def relevant(self, t):
        l = leaves(t)
        return bool(l) and l <= self.lv

    def of(self, facts):
        """Assignments consistent with the facts."""
        F = frozenset(facts)
        if F not in self.cache:
            # narrow from a known subset
            best = frozenset()
            for x in F:
                if F - {x} in self.cache:
                    best = F - {x}
                    break
            cur = self.cache[best]
            for t, truth in sorted(F - best, key=str):
                cur = [b for b in cur if self.ok(t, truth, b)]
            self.cache[F] = cur
        return self.cache[F]

    @staticmethod
    def ok(t, truth, b):
        r = ev(t, b)
        return r is None or bool(r) == truth
