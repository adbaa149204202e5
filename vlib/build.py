"""Regenerate the sources of /repo, compile them to bitcode and run irx, per configuration."""
import hashlib, json, os, re, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OSHMPI_REPO', '/repo')
WORK = os.environ.get('OSHMPI_WORK') or os.path.join(VERIF, '.build')
LLVM = '/usr/lib/llvm-18'
CLANG = LLVM + '/bin/clang'
MPI = '/usr/lib/x86_64-linux-gnu/openmpi/include'

COMMON = ['OSHMPI_ENABLE_SYMM_ALLOC']
TRACK = ['OSHMPI_ENABLE_OP_TRACKING', 'OSHMPI_ENABLE_STRIDED_DTYPE_CACHE']
CONFIGS = {
    # the configuration the test suite builds (AMO and RMA path chosen at run time)
    'base': COMMON + TRACK + ['OSHMPI_DISABLE_AM_ASYNC_THREAD', 'OSHMPI_ENABLE_THREAD_SERIALIZED'],
    # --enable-threads=multiple with the runtime-selected asynchronous thread
    'mt': COMMON + TRACK + ['OSHMPI_ENABLE_THREAD_MULTIPLE', 'OSHMPI_THREAD_CS_LOCK=1'],
    'mtdyn': COMMON + TRACK + ['OSHMPI_ENABLE_THREAD_MULTIPLE', 'OSHMPI_THREAD_CS_LOCK=1', 'OSHMPI_ENABLE_DYNAMIC_WIN'],
    'mtam': COMMON + TRACK + ['OSHMPI_ENABLE_THREAD_MULTIPLE', 'OSHMPI_THREAD_CS_LOCK=1', 'OSHMPI_ENABLE_AM_ASYNC_THREAD', 'OSHMPI_ENABLE_AM_AMO',
                              'OSHMPI_ENABLE_AM_RMA'],
    # --enable-win-type=dynamic_win
    'dyn': COMMON + TRACK + ['OSHMPI_DISABLE_AM_ASYNC_THREAD', 'OSHMPI_ENABLE_THREAD_SERIALIZED', 'OSHMPI_ENABLE_DYNAMIC_WIN'],
    # --enable-amo=am --enable-rma=am
    'am': COMMON + TRACK + ['OSHMPI_DISABLE_AM_ASYNC_THREAD', 'OSHMPI_ENABLE_THREAD_SERIALIZED', 'OSHMPI_ENABLE_AM_AMO', 'OSHMPI_ENABLE_AM_RMA'],
    # --enable-amo=direct --enable-rma=direct
    'direct': COMMON + TRACK + ['OSHMPI_DISABLE_AM_ASYNC_THREAD', 'OSHMPI_ENABLE_THREAD_SERIALIZED', 'OSHMPI_ENABLE_DIRECT_AMO', 'OSHMPI_ENABLE_DIRECT_RMA'],
    # --enable-rma=direct: messages are needed only if atomics are
    'drma': COMMON + TRACK + ['OSHMPI_DISABLE_AM_ASYNC_THREAD', 'OSHMPI_ENABLE_THREAD_SERIALIZED', 'OSHMPI_ENABLE_DIRECT_RMA'],
    # --enable-fast: no op tracking, no datatype cache, no debug code, no error checking
    'fast': COMMON + ['OSHMPI_DISABLE_AM_ASYNC_THREAD', 'OSHMPI_ENABLE_THREAD_SERIALIZED', 'OSHMPI_DISABLE_DEBUG', 'OSHMPI_DISABLE_ERROR_CHECKING'],
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s\n%s' % (' '.join(cmd), r.stdout[-3000:], r.stderr[-6000:]))
    return r.stdout


def tool():
    """Build irx when missing or older than its source."""
    src = os.path.join(VERIF, 'irx', 'irx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(WORK, 'irx-' + h)
    if not os.path.exists(out):
        os.makedirs(WORK, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        run(['g++', '-std=c++17', '-O0', '-g0', '-w', '-fno-rtti', '-fno-exceptions', '-I' + LLVM + '/include',
             src, '-o', tmp, '-L' + LLVM + '/lib', '-lLLVM-18'])
        os.rename(tmp, out)
    return out


def digest():
    """Hash of everything of /repo the analysis reads."""
    h = hashlib.sha256()
    files = []
    for d in ('src', 'include', 'maint'):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                if f.endswith(('.c', '.h', '.tpl', '.in', '.txt', '.pl')):
                    files.append(os.path.join(root, f))
    files.append(os.path.join(REPO, 'autogen.sh'))
    for d in ('irx', 'conf', 'stub'):
        files += glob.glob(os.path.join(VERIF, d, '*'))
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        rel = f
        # generated files are regenerated, not read
        if re.search(r'(_typed|_sized)\.[ch]$', f) or f.endswith('shmem.h.in'):
            continue
        h.update(rel.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:20]


def generate(dst):
    """What autogen.sh and configure generate from the templates, into dst (never into /repo)."""
    inc, src = os.path.join(dst, 'include'), os.path.join(dst, 'gen')
    os.makedirs(inc, exist_ok=True)
    os.makedirs(src, exist_ok=True)
    sh = open(os.path.join(REPO, 'autogen.sh')).read().replace('\\\n', ' ')
    shm = open(os.path.join(REPO, 'include/shmem.h.in.tpl')).read()
    n = 0
    for line in sh.split('\n'):
        line = line.strip()
        m = re.match(r'\./maint/(build_\w+\.pl)\s+--(type|size)file\s+(\S+)\s+--tplfile\s+(\S+)\s+--outfile\s+(\S+)', line)
        if m:
            out = os.path.join(inc if '/include/' in m.group(5) or m.group(5).startswith('include/') else src,
                               os.path.basename(m.group(5)))
            run(['perl', './maint/' + m.group(1), '--%sfile' % m.group(2), m.group(3), '--tplfile', m.group(4),
                 '--outfile', out], cwd=REPO)
            n += 1
        m = re.match(r'insert_file_by_key\s+"([^"]*)"\s+(\S+)\s+(\S+)', line)
        if m:
            body = open(os.path.join(inc, os.path.basename(m.group(2)))).read()
            res = []
            for l in shm.split('\n'):
                res.append(l)
                if m.group(1) in l:
                    res.append(body.rstrip('\n'))
            shm = '\n'.join(res)
    if n < 10:
        raise BuildError('autogen.sh: only %d generator steps recognised' % n)

    def subst(t):
        t = t.replace('@OSHMPI_NUMVERSION@', '20000001')
        return re.sub(r'@[A-Z_]+@', 'x', t)
    open(os.path.join(inc, 'shmem.h'), 'w').write(subst(shm))
    open(os.path.join(inc, 'shmemx.h'), 'w').write(subst(open(os.path.join(REPO, 'include/shmemx.h.in')).read()))


def sources():
    """The library's translation units, from the Makefile fragments (dlmalloc is a foreign allocator: its
    mspace_* entry points stay external events)."""
    out = []
    for mk in ('src/internal/Makefile.mk', 'src/internal/util/Makefile.mk', 'src/shmem/Makefile.mk', 'src/shmemx/Makefile.mk'):
        txt = open(os.path.join(REPO, mk)).read().replace('\\\n', ' ')
        names = [w for l in txt.split('\n') if l.strip().startswith('liboshmpi_la_SOURCES') for w in l.split()]
        for f in names:
            if not f.endswith('.c'):
                continue
            if f in out or f.endswith(('dlmalloc.c', 'gpu/ze.c')):
                continue
            out.append(f)
    return out


def cflags(cfg, wd):
    cd = os.path.join(wd, 'conf-' + cfg)
    os.makedirs(cd, exist_ok=True)
    with open(os.path.join(cd, 'oshmpiconf.h'), 'w') as f:
        f.write('#include "%s/conf/common.h"\n' % VERIF)
        for d in CONFIGS[cfg]:
            k, _, v = d.partition('=')
            f.write('#define %s %s\n' % (k, v or '1'))
    I = [cd, os.path.join(wd, 'include'), REPO + '/src/include', REPO + '/src/internal', REPO + '/src/internal/util',
         VERIF + '/stub', MPI, MPI + '/openmpi']
    return ['-std=gnu11', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion',
            '-Wno-error=incompatible-pointer-types', '-DONLY_MSPACES'] + ['-I' + i for i in I]


ROOTS = '^(shmem|start_pes$|_my_pe$|_num_pes$|shmalloc$|shfree$|shrealloc$)'


def ir(cfg, roots=ROOTS, tag='api', only=None):
    """JSON of the inlined API functions under a configuration, cached by content."""
    dg = digest()
    key = hashlib.sha256(('%s|%s|%s|%s' % (dg, cfg, roots, only)).encode()).hexdigest()[:16]
    cache = os.path.join(WORK, 'ir')
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, '%s-%s-%s.json' % (cfg, tag, key))
    if os.path.exists(out):
        return out
    for old in glob.glob(os.path.join(cache, '%s-%s-*.json' % (cfg, tag))):
        try:
            os.unlink(old)
        except OSError:
            pass
    wd = os.path.join(WORK, 'wd-%s-%d' % (cfg, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    try:
        generate(wd)
        fl = cflags(cfg, wd)
        srcs = sources()
        if only:
            srcs = [s for s in srcs if re.search(only, s)]

        def comp(s):
            p = os.path.join(wd, 'gen', os.path.basename(s))
            if not (re.search(r'(_typed|_sized)\.c$', s) and os.path.exists(p)):
                p = os.path.join(REPO, s)
            bc = os.path.join(wd, s.replace('/', '_') + '.bc')
            run([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-g', '-emit-llvm', '-c', p, '-o', bc] + fl, cwd=wd)
            return bc
        with ThreadPoolExecutor(9) as ex:
            t = ex.submit(tool)
            bcs = list(ex.map(comp, srcs))
            irx = t.result()
        n = 6
        with ThreadPoolExecutor(n) as ex:
            parts = [os.path.join(wd, 'part%d.json' % i) for i in range(n)]
            list(ex.map(lambda i: run([irx, parts[i], roots, '%d/%d' % (i, n)] + bcs), range(n)))
        d = None
        for p in parts:
            e = json.load(open(p))
            if d is None:
                d, keys = e, {c['key']: c for c in e['classes']}
                continue
            if d['types'] != e['types']:
                raise BuildError('type tables of the shards differ')
            for k in ('inlined', 'roots', 'functions'):
                d[k] += e[k]
            for k in ('recursive', 'addrtaken'):
                d[k] = sorted(set(d[k]) | set(e[k]))
            d['decl'].update(e['decl'])
            for c in e['classes']:
                if c['key'] in keys:
                    keys[c['key']]['members'].update(c['members'])
                else:
                    keys[c['key']] = c
                    d['classes'].append(c)
        tmp = out + '.%d' % os.getpid()
        json.dump(d, open(tmp, 'w'))
        os.rename(tmp, out)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return out


if __name__ == '__main__':
    if len(sys.argv) > 1:
        print(ir(*sys.argv[1:]))
    else:
        print(tool())
