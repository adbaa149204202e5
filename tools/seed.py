#!/usr/bin/env python3
"""Plants a bug: writes seeded/<id>/{patch.diff,demo.sh,demo.c,meta.json} and confirms it (builds, passes the stable tests, the demonstration
passes without and fails with the change).  seed.py FILE.py  with  ID, PROP, NEEDS, BREAKS, EDITS, DEMO [, ENV, NP]."""
import json, os, runpy, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SH = '''#!/bin/bash
# Exit 0 when the property holds, 1 when it is broken.
export OMPI_CC=gcc OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader OMPI_MCA_mpi_yield_when_idle=1
D=$(cd "$(dirname "$0")" && pwd)
B=$PWD/_build
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mpicc -O1 -I$B/inst/include "$D/demo.c" -o $T/demo $B/inst/lib/liboshmpi.a -lpthread -lrt -lm || exit 1
cd $T
%stimeout -k 5 %d mpirun --oversubscribe -np %d %s./demo >$T/out 2>&1
rc=$?
tail -5 $T/out
grep -q BROKEN $T/out && exit 1
exit $((rc != 0))
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(path):
    s = runpy.run_path(path)
    d = os.path.join(HERE, 'seeded', s['ID'])
    os.makedirs(d, exist_ok=True)
    assert sh('git -C /repo status --short').stdout.strip() == '', 'dirty'
    for f, old, new, *nth in s['EDITS']:
        p = os.path.join(REPO, f)
        t = open(p).read()
        if old not in t:
            sys.exit('%s: not found: %r' % (f, old))
        parts = t.split(old)
        k = nth[0] if nth else 0
        if not nth and len(parts) > 2:
            print('note: %d occurrences of %r' % (len(parts) - 1, old[:50]))
        t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, 'w').write(t)
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
    sh('git -C /repo checkout -- .')
    open(os.path.join(d, 'demo.c'), 'w').write(s['DEMO'].lstrip())
    env = ''.join('%s=%s ' % kv for kv in s.get('ENV', {}).items())
    open(os.path.join(d, 'demo.sh'), 'w').write(SH % (env, s.get('TIMEOUT', 100), s.get('NP', 2), s.get('WRAP', '')))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok = True
    b = sh('bash /opt/vp/build.sh')
    r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
    print('clean: rc %d %s' % (r0.returncode, r0.stdout.strip()[-300:]))
    ok &= r0.returncode == 0
    print(sh('git -C /repo apply %s/patch.diff' % d).stdout)
    try:
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            print('BUILD FAILED', b.stdout[-600:])
            ok = False
        else:
            r1 = sh('bash %s/demo.sh' % d, cwd=REPO)
            print('planted: rc %d %s' % (r1.returncode, r1.stdout.strip()[-300:]))
            ok &= r1.returncode != 0
            sh('bash /opt/vp/test.sh /tmp/seed_t.json')
            st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            miss = st - set(json.load(open('/tmp/seed_t.json'))['passed'])
            print('tests failing:', sorted(miss))
            ok &= not miss
            for pr in s.get('CHECKS', [s['PROP']]):
                if os.path.exists(os.path.join(HERE, 'vlib/props', pr.lower() + '.py')):
                    r = sh('OSHMPI_EVIDENCE=/tmp/seed_ev ./check %s quick' % pr, cwd=HERE)
                    print('check %s: rc %d %s' % (pr, r.returncode, '\n'.join(r.stdout.splitlines()[:3])[:600]))
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    print('CONFIRMED' if ok else 'NOT CONFIRMED')
    if not ok:
        sh('rm -rf %s' % d)


main(sys.argv[1])
