"""Strided puts and gets: element i of one side goes to element i of the other, on the direct path and as an active message."""
from .. import q, layout
from ..ir import const
from ..core import sim
from . import c09

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'am', 'direct', 'fast']
EXPLAIN = ('Every strided routine is simulated on all paths. The datatypes made by MPI_Type_vector, and those found in the datatype cache, are reduced to '
           '(number of elements, element size, distance) as linear forms over the arguments, using the equalities the path has tested (stride 1, equal strides, the fields of the '
           'cache entry); they must describe nelems elements at the caller\'s stride of that side. The packet carries the same description of the remote side, and the handlers are '
           'checked to use it. Every entry put into the datatype cache is described by the fields later lookups compare.')
ASSUME = c09.ASSUME


def run(m, R):
    c09.rules(R)
    R.rule('cache', 'The fields of a datatype cache entry describe the datatype stored in it')
    todo = [n for n in sorted(m.cls) if c09.RXS.match(n)]
    for name in todo:
        R.guard(c09.one, m, R, name)
    R.need('once', 80)
    if q.has_am(m):
        R.guard(c09.handlers, m, R, ('iput', 'iget'))
    if layout.schema(m):
        done = set()
        for f, ms in m.reps('^shmem'):
            if any(True for _ in f.calls('^MPI_Type_vector$')):
                R.guard(cache, m, R, f, ms)
        R.need('cache', 1)


def cache(m, R, f, ms):
    r = layout.Insert(m, R, ms)
    sim(R, f, r, 400000)
    S = layout.schema(m)
    for f, n, fl, s, k in r.found:
        R.ob('cache', '%s %s' % (f.name, f.where(n)))
        d = [layout.describe(s, v) for v in fl.values() if v[0] == 'dt']
        if len(d) != 1 or d[0] is None or S.get('type') not in fl or fl[S['type']][0] != 'dt':
            R.bad('cache', '%s:type' % f.name, '%s: a cache entry holds no recognised datatype' % f.name, f, n, r, ms)
            continue
        d = d[0]
        for role in ('count', 'stride', 'base'):
            if role not in S or fl.get(S[role]) != d[role]:
                R.bad('cache', '%s:%s' % (f.name, role), '%s: the %s kept in a cache entry is not that of its datatype' % (f.name, role), f, n, r, ms)
        if d['blen'] != ('c', 1) or d['kind'] != 'vec':
            R.bad('cache', '%s:vector' % f.name, '%s: the cached datatype is not a vector of single elements' % f.name, f, n, r, ms)
        e = d.get('extent')
        x = fl.get(S.get('ext'))
        if (e is None) != (x == ('c', 0)) and not (e is None and x is not None and zero(s, x)):
            if e is None or x is None or not layout.q_has(e, x):
                R.bad('cache', '%s:extent' % f.name, '%s: the extent kept in a cache entry is not that of its datatype' % f.name, f, n, r, ms)


def zero(s, x):
    return any(t[0] == 'eq' and x in t[1:] and ('c', 0) in t[1:] for t in s)
