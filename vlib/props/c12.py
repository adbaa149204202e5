"""Symmetric heap: allocation and release are the same on all PEs and stay inside the heap."""
import os, re, shutil, subprocess, tempfile
from .. import q, build
from ..ir import const, AnalysisError
from ..core import sim
from ..paths import DEAD
from .c08 import Objects, Translate, Creation, lin, diff
from .c11 import kpoly, world
from ..q import Poly

CONFIGS = ['base']
THOROUGH = ['mt', 'dyn', 'fast']
EXPLAIN = ('Every allocation and release routine of the symmetric heap is simulated on all paths: each allocates or releases exactly once with the arguments of the caller in the one heap of '
           'the library, returns what the allocator returned, and crosses a barrier of all PEs in between the allocation and its return, or between its entry and the release; a path without an '
           'allocation is one on which the size has been found to be zero. All other routines are searched for allocator calls. The creation of the heap is followed to show that '
           'the allocator manages exactly the memory of the window and cannot grow beyond it.')
ASSUME = ['the dlmalloc allocator is correct and deterministic: equal sequences of calls give equal offsets', 'programs call the routines collectively with equal arguments']

ALLOC = {'shmem_malloc': ('size', ('a0',)), 'shmalloc': ('size', ('a0',)), 'shmem_malloc_with_hints': ('size', ('a0',)),
         'shmem_calloc': ('size', ('a0', 'a1')), 'shmem_align': ('align', ('a0', 'a1')), 'shmemalign': ('align', ('a0', 'a1')),
         'shmem_realloc': ('realloc', ('a0', 'a1')), 'shrealloc': ('realloc', ('a0', 'a1')), 'shmem_free': ('free', ('a0',)), 'shfree': ('free', ('a0',))}
HEAPFN = re.compile(r'^mspace_(malloc|calloc|memalign|realloc|realloc_in_place|free|bulk_free|independent_calloc|independent_comalloc|trim)$')
SIZES = {'mspace_malloc': (1,), 'mspace_calloc': (1, 2), 'mspace_memalign': (2,), 'mspace_realloc': (2,)}


class Alloc(Translate):
    def __init__(self, m, R, O, name):
        Translate.__init__(self, m, R, O, None, [name], {})
        self.name = name
        self.kind, a = ALLOC[name]
        self.a = [('v', x) for x in a]
        self.W = world(m)
        M = q.model(m)
        self.heap = ('*',) + M.gfield('OSHMPI_global', 'symm_heap_mspace')
        self.attr = q.shift(M.gfield('OSHMPI_global', 'symm_heap_attr.handle'), -O.handle)
        self.head = M.gfield('OSHMPI_global', 'space_list.head')
        self.next = M.space_next
        t = m.types[m.byname['OSHMPI_space']]
        self.pool = [x[1] for x in t['m'] if m.tname(x[2]) and 'mempool' in m.tname(x[2])]
        if len(self.pool) != 1:
            raise AnalysisError('no memory pool in a space')
        pt = m.types[[x[2] for x in t['m'] if x[1] == self.pool[0]][0]]
        F = {x[0]: x[1] for x in pt['m']}
        self.used, self.pbase, self.chunk = (self.pool[0] + F[x] for x in ('chunks_nused', 'base', 'chunk_size'))

    def bad(self, rule, key, what, f, n):
        self.R.bad(rule, '%s:%s' % (self.kind, key), '%s: %s' % (self.name, what), f, n, self, [self.name])

    def mstart(self, f):
        self.ctx = None
        self.walks = q.listwalks(f, self.head, self.next)
        return frozenset()

    def medge(self, f, s, blk, nxt, atoms, env):
        s = Translate.medge(self, f, s, blk, nxt, atoms, env)
        if s is DEAD:
            return s
        for p, a, b in atoms:
            x, y = q.vkey(f, a, env), q.vkey(f, b, env)
            if x in self.a or any(t[0] == 'got' and x == ('v', t[1]) for t in s):
                if p in ('eq', 'ule') and y in (('c', 0), ('v', 'null')) or p == 'ult' and y == ('c', 1):
                    if ('nonzero', x) in s:
                        return DEAD
                    s = s | {('zero', x)}
                elif p == 'ne' and y in (('c', 0), ('v', 'null')) or p == 'ugt' and y == ('c', 0):
                    if ('zero', x) in s:
                        return DEAD
                    s = s | {('nonzero', x)}
            if self.kind == 'free' and ('bar',) in s:
                for h, ph in self.walks.items():
                    if p == 'eq' and x == ('v', ph.v) and y in (('c', 0), ('v', 'null')):
                        s = s | {('end',)}
        return s

    def event(self, f, s, n, env):
        if n.op == 'store' and const(n.ops[0]) == 0:
            k = q.akey(f, n.ops[1], env)
            if k[0][0] == '*' and k[0][2] == self.used and k[2]:
                return self.poolfree(f, s, n, k)
        if n.op != 'call' or not n.fn:
            return s
        K = lambda x: q.vkey(f, q.arg(n, x), env)
        if n.fn in ('MPI_Barrier', 'MPI_Ibarrier'):
            if K('comm') == self.W.comm:
                return frozenset(t for t in s if t != ('early',)) | {('bar',)} | ({('after',)} if any(t[0] == 'got' for t in s) else frozenset())
            return s
        g = HEAPFN.match(n.fn)
        if g:
            return self.heapcall(f, s, n, env, [q.vkey(f, o, env) for o in n.ops])
        return s

    def amount(self, s, n, k):
        """Does the amount the call allocates equal the caller's?"""
        got, want = Poly.c(1), Poly.c(1)
        for i in SIZES[n.fn]:
            got = got * kpoly(k[i])
        for a in (self.a[1:] if self.kind in ('align', 'realloc') else self.a):
            want = want * kpoly(a)
        return got == want

    def heapcall(self, f, s, n, env, k):
        self.R.ob('call', '%s %s' % (self.name, f.where(n)))
        if k[0] != self.heap:
            self.bad('call', 'heap', '%s is not applied to the symmetric heap' % n.fn, f, n)
        if any(t[0] in ('got', 'freed') for t in s):
            self.bad('call', 'twice', 'the heap is changed twice', f, n)
        if n.fn == 'mspace_free':
            if self.kind not in ('free', 'realloc') or k[1] != self.a[0]:
                self.bad('call', 'free', 'memory is released that the caller did not pass', f, n)
            elif self.kind == 'free' and not {('ge', self.a[0], self.attr), ('lt', self.a[0], self.attr)} <= s:
                self.bad('object', 'free', 'a pointer is released in the symmetric heap although it may lie elsewhere', f, n)
            elif self.kind == 'realloc' and ('zero', self.a[1]) not in s:
                self.bad('call', 'realloc', 'the buffer is released although the new size may not be zero', f, n)
            self.barrier(f, s, n)
            return s | {('freed', n.v)}
        ok = {'size': ('mspace_malloc', 'mspace_calloc', 'mspace_memalign'), 'align': ('mspace_memalign',), 'realloc': ('mspace_realloc', 'mspace_malloc'), 'free': ()}[self.kind]
        if self.name == 'shmem_calloc':
            ok = ('mspace_calloc',)
        if n.fn not in ok:
            self.bad('call', 'kind', '%s is called' % n.fn, f, n)
            return s | {('got', n.v)}
        if self.kind == 'align' and k[1] != self.a[0]:
            self.bad('call', 'alignment', 'the alignment passed to the allocator is not that of the caller', f, n)
        if not self.amount(s, n, k):
            self.bad('call', 'size', 'the size passed to the allocator is not that of the caller', f, n)
        if self.kind == 'realloc':
            if n.fn == 'mspace_realloc':
                if k[1] != self.a[0]:
                    self.bad('call', 'pointer', 'the buffer passed to the allocator is not that of the caller', f, n)
                if ('zero', self.a[0]) not in s:
                    self.barrier(f, s, n)
            elif ('zero', self.a[0]) not in s:
                self.bad('call', 'kind', 'the old buffer is not passed to the allocator', f, n)
        return frozenset(t for t in s if t != ('after',)) | {('got', n.v)}

    def barrier(self, f, s, n):
        self.R.ob('before', '%s %s' % (self.name, f.where(n)))
        if ('bar',) not in s:
            self.bad('before', 'barrier', 'memory is released before all PEs have arrived', f, n)

    def poolfree(self, f, s, n, k):
        """A chunk of a space's pool is marked free."""
        self.R.ob('call', '%s %s' % (self.name, f.where(n)))
        if self.kind != 'free' or any(t[0] == 'freed' for t in s):
            self.bad('call', 'pool', 'a chunk of a space is released', f, n)
            return s
        self.barrier(f, s, n)
        node = k[0][1]
        A = (node, self.O.inspace, ())
        if not {('ge', self.a[0], A), ('lt', self.a[0], A)} <= s:
            self.bad('object', 'pool', 'a pointer is released in a space although it may not lie in it', f, n)
        i = k[2][0] if len(k[2]) == 1 else None
        want = diff(lin(self.a[0]), lin(('*', node, self.pbase, ())))
        if i is None or i[1] != 4 or i[0][0] not in ('udiv', 'sdiv') or diff(lin(i[0][1]), want) or i[0][2] != ('*', node, self.chunk, ()):
            self.bad('call', 'chunk', 'the chunk released is not the one of the pointer', f, n)
        return s | {('freed', n.v), ('pool',)}

    def mret(self, f, s, n, env):
        self.R.ob('return', self.name)
        got = [t[1] for t in s if t[0] == 'got']
        freed = [t for t in s if t[0] == 'freed']
        r = q.vkey(f, n.ops[0], env) if n.ops else None
        if self.kind == 'free':
            if not freed:
                A = [t[2] for t in s if t[0] == 'ge' and ('lt',) + t[1:] in s and t[1] == self.a[0]]
                if A:
                    self.bad('return', 'leak', 'a pointer that lies in %s is not released' % self.O.name(A[0]), f, n)
                elif ('end',) not in s and ('zero', self.a[0]) not in s:
                    self.bad('return', 'search', 'the pointer is not looked up in every space before the routine returns', f, n)
            return
        if freed:
            if r not in (('c', 0), ('v', 'null')):
                self.bad('return', 'value', 'a pointer is returned although the buffer was released', f, n)
            return
        if not got:
            z = [self.a[-1]] if self.kind != 'size' else self.a
            if not any(('zero', x) in s for x in z):
                self.bad('return', 'none', 'nothing is allocated although the size may not be zero', f, n)
            elif self.kind == 'realloc' and ('zero', self.a[0]) not in s:
                self.bad('return', 'realloc', 'the buffer is neither moved nor released', f, n)
            elif r not in (('c', 0), ('v', 'null')) and ('zero', r) not in s:
                self.bad('return', 'value', 'a pointer is returned although nothing was allocated', f, n)
            return
        if r != ('v', got[0]) and not (r in (('c', 0), ('v', 'null')) and ('zero', ('v', got[0])) in s):
            self.bad('return', 'value', 'the value returned is not the pointer allocated', f, n)
        if ('after',) not in s:
            self.bad('return', 'barrier', 'the routine returns before all PEs have allocated', f, n)


class Heap(Creation):
    """Creation of the heap."""
    def __init__(self, m, R, O, members, grows):
        Creation.__init__(self, m, Quiet(), O, members, {}, {}, set())
        self.R2, self.grows = R, grows
        M = q.model(m)
        self.attr = q.shift(M.gfield('OSHMPI_global', 'symm_heap_attr.handle'), -O.handle)
        self.slot = M.gfield('OSHMPI_global', 'symm_heap_mspace')

    def event(self, f, s, n, env):
        if n.op == 'call' and n.fn in ('create_mspace_with_base', 'create_mspace'):
            self.R2.ob('fit', '%s %s' % (f.name, f.where(n)))
            if n.fn == 'create_mspace':
                self.R2.bad('fit', 'base', '%s: the heap is not created over the memory of the window' % f.name, f, n, self, self.members)
                return s
            return s | {('ms', n.v, q.vkey(f, n.ops[0], env), q.vkey(f, n.ops[1], env))}
        if n.op == 'call' and n.fn == 'mspace_set_footprint_limit':
            return s | {('limit', q.vkey(f, n.ops[0], env), q.vkey(f, n.ops[1], env))}
        if n.op == 'store' and q.akey(f, n.ops[1], env) == self.slot:
            v = q.vkey(f, n.ops[0], env)
            return frozenset(t for t in s if t[0] != 'slot') | {('slot', v)}
        return Creation.event(self, f, s, n, env)

    def mret(self, f, s, n, env):
        ms = [t for t in s if t[0] == 'ms']
        if not ms:
            return
        bad = lambda key, what: self.R2.bad('fit', key, '%s: %s' % (f.name, what), f, f.insts[ms[0][1]], self, self.members)
        self.R2.ob('fit', f.name)
        if len(ms) > 1:
            return bad('many', 'several heaps are created')
        _, v, base, cap = ms[0]
        b = [t[2] for t in s if t[:2] == ('base', self.attr)]
        z = [t[2] for t in s if t[:2] == ('size', self.attr)]
        if b != [base]:
            bad('base', 'the heap does not start at the base of the symmetric heap object')
        if z != [cap]:
            bad('size', 'the heap is not as large as the symmetric heap object')
        if ('slot', ('v', v)) not in s:
            bad('slot', 'the heap created is not the one allocations use')
        lim = [t[2] for t in s if t[0] == 'limit' and t[1] in (('v', v), ('*',) + self.slot)]
        if self.grows and lim != [cap]:
            bad('limit', 'the allocator may map more memory when the heap is exhausted, which no window covers')


class Quiet:
    """Report of a rule that another property decides."""
    def ob(self, *a):
        pass

    bad = ob


def grows(m):
    """Is the allocator compiled with a way to get more memory from the system?"""
    src = os.path.join(build.REPO, 'src/internal/util/dlmalloc.c')
    wd = tempfile.mkdtemp(dir=build.WORK)
    try:
        r = subprocess.run([build.CLANG, '-O1', '-w', '-S', '-emit-llvm', '-o', '-', src] + build.cflags(m.cfg, wd), capture_output=True, text=True)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    if r.returncode:
        raise AnalysisError('dlmalloc.c does not compile: ' + r.stderr[:200])
    return bool(re.search(r'call .*@(mmap|mmap64|sbrk)\(', r.stdout))


def run(m, R):
    R.rule('call', 'The heap is changed once per call, with the arguments of the caller')
    R.rule('before', 'Nothing is released before a barrier of all PEs')
    R.rule('object', 'A pointer is released in the object it lies in')
    R.rule('return', 'What was allocated is returned after a barrier of all PEs')
    R.rule('only', 'No other routine allocates from or releases to the symmetric heap')
    R.rule('fit', 'The allocator manages exactly the memory of the symmetric heap object and cannot grow')
    O = Objects(m)
    for name in sorted(ALLOC):
        if name in m.cls:
            R.guard(one, m, R, O, name)
    R.need('return', 12)
    for f, ms in m.reps('^(shmem|shm|shf|shr|start_pes)'):
        for n in f.calls('^mspace_'):
            if HEAPFN.match(n.fn):
                for x in ms:
                    R.ob('only', '%s %s' % (x, n.fn))
                    if x not in ALLOC:
                        R.bad('only', x, '%s: calls %s, so that the heaps of the PEs may differ' % (x, n.fn), f, n, None, ms)
    g = grows(m)
    for f, ms in m.reps('^shmem'):
        if any(True for _ in f.calls('^create_mspace')):
            R.guard(fit, m, R, O, f, ms, g)
    R.need('fit', 2)


def fit(m, R, O, f, ms, g):
    sim(R, f, Heap(m, R, O, ms, g), 400000)


def one(m, R, O, name):
    f = m.fn(name)
    r = sim(R, f, Alloc(m, R, O, name), 100000)
    if not r.rets:
        R.bad('return', '%s:none' % name, '%s never returns' % name, f, f.blocks[0][0])
