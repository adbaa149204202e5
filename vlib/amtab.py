"""The tables of the active-message layer, read from the initialisation code: datatype and operation indexes, packet
layouts, registered callbacks."""
from . import q
from .ir import const, AnalysisError

KIND = {'char': ('s', 1), 'signed_char': ('s', 1), 'short': ('s', 2), 'int': ('s', 4), 'long': ('s', 8), 'long_long_int': ('s', 8), 'long_long': ('s', 8),
        'unsigned_char': ('u', 1), 'unsigned_short': ('u', 2), 'unsigned': ('u', 4), 'unsigned_long': ('u', 8), 'unsigned_long_long': ('u', 8),
        'int8_t': ('s', 1), 'int16_t': ('s', 2), 'int32_t': ('s', 4), 'int64_t': ('s', 8),
        'uint8_t': ('u', 1), 'uint16_t': ('u', 2), 'uint32_t': ('u', 4), 'uint64_t': ('u', 8),
        'aint': ('s', 8), 'offset': ('s', 8), 'count': ('s', 8), 'float': ('f', 4), 'double': ('f', 8), 'long_double': ('f', 16),
        'c_double_complex': ('c', 16), 'c_complex': ('c', 8), 'c_float_complex': ('c', 8), 'byte': ('b', 1), 'cxx_cplex': ('c', 8), 'cxx_dblcplex': ('c', 16)}
BASE = {'char': 's', 'signed char': 's', 'short': 's', 'int': 's', 'long': 's', 'long long': 's', 'long int': 's',
        'unsigned char': 'u', 'unsigned short': 'u', 'unsigned int': 'u', 'unsigned long': 'u', 'unsigned long long': 'u',
        'float': 'f', 'double': 'f', 'long double': 'f', 'complex': 'c'}


def kind(h):
    """(kind, size) of an MPI datatype handle operand."""
    h = h.split('+')[0]
    if not h.startswith('g:ompi_mpi_'):
        return None
    return KIND.get(h[len('g:ompi_mpi_'):])


def ckind(m, t):
    """(kind, size) of a C type."""
    T = m.types[t] if t is not None and t >= 0 else None
    if T is None or T['k'] != 'base' or T['n'] not in BASE:
        return None
    return (BASE[T['n']], T['sz'])


class Tables:
    def __init__(self, m):
        self.m = m
        f = self.f = m.fn('shmem_init')
        E = m.enums
        self.types, self.ops, self.cbs = {}, {}, {}
        self.typetab = set()
        for n in f.all():
            if n.op != 'store':
                continue
            a, v = n.ops[1], n.ops[0]
            if v.startswith('g:ompi_mpi_op') or kind(v):
                k = q.akey(f, a)
                tab = k[0]
                if k[2] or k[1] % 8:
                    continue
                if tab[0] == '*' and tab[1][0] == 'v' and tab[1][1].startswith('g:') or self.istable(f, n):
                    d = self.ops if v.startswith('g:ompi_mpi_op') else self.types
                    d.setdefault(k[1] // 8, set()).add(v.split('+')[0])
                    if d is self.types:
                        self.typetab.add(tab)
                        if tab[0] != '*':
                            # the table was filled through the pointer malloc returned: where is it kept?
                            for u in f.uses[tab[1]] if tab[0] == 'v' else []:
                                if u.op == 'store' and u.ops[0] == tab[1]:
                                    self.typetab.add(('*',) + q.akey(f, u.ops[1]))
            elif v.startswith('@'):
                k = q.akey(f, a)
                if k[0][0] == 'v' and k[0][1].startswith('g:'):
                    self.cbs.setdefault(k[0][1], {}).setdefault(k[1], set()).add(v[1:])
        self.pkt = {k[len('OSHMPI_AM_PKT_'):].lower(): v for k, v in E.items() if k.startswith('OSHMPI_AM_PKT_') and k not in ('OSHMPI_AM_PKT_MAX',)}
        st = m.byname.get('OSHMPI_am_pkt')
        self.fields = {}
        if st is not None:
            T = m.types[st]
            self.size = T['sz']
            self.type_off = [x[1] for x in T['m'] if x[0] == 'type'][0]
            for n_, o, mt in T['m']:
                if m.types[mt]['k'] == 'union':
                    for un, uo, ut in m.types[mt]['m']:
                        if m.types[ut]['k'] == 'struct':
                            self.fields[un] = {a: (o + uo + b, m.types[c]['sz']) for a, b, c in m.types[ut]['m']}

    def istable(self, f, n):
        # the table may still be in the register it was allocated into
        r = f.addr(n.ops[1])[0]
        d = f.insts.get(r)
        return d is not None and d.op == 'call' and d.fn in ('malloc', 'calloc')


def tables(m):
    if getattr(m, '_amtab', None) is None:
        m._amtab = Tables(m)
    return m._amtab
