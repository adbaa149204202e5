#!/usr/bin/env python3
"""Mutation self-test of the checks: every entry of mutants.py is applied to a scratch copy of the sources and the
named check is run on it.  'bad' entries break the property and must be reported; 'ok' entries keep the behaviour and
must stay quiet.  Usage: run.py [PROPERTY|name ...]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mutants

REPO = '/repo'


def one(mu):
    d = tempfile.mkdtemp(prefix='osm-')
    try:
        r = os.path.join(d, 'repo')
        os.makedirs(r)
        for x in ('src', 'include', 'maint'):
            shutil.copytree(os.path.join(REPO, x), os.path.join(r, x), symlinks=True)
        shutil.copy(os.path.join(REPO, 'autogen.sh'), r)
        for f, old, new in mu['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if old not in s:
                return mu, 'STALE: %s: %r' % (f, old[:50]), ''
            n = mu.get('nth')
            if n is None:
                s = s.replace(old, new, 1)
            elif n == 'all':
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, 'w').write(s)
        out, res = '', []
        for prop in mu['props']:
            e = dict(os.environ, OSHMPI_REPO=r, OSHMPI_WORK=os.path.join(d, 'w'), OSHMPI_EVIDENCE=os.path.join(d, 'e'))
            p = subprocess.run([os.path.join(VERIF, 'check'), prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
            out += p.stdout
            res.append(p.returncode)
        want = 1 if mu['kind'] == 'bad' else 0
        hit = (1 in res) if want else all(x == 0 for x in res)
        return mu, 'pass' if hit else 'FAIL rc=%s' % res, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    sel = sys.argv[1:]
    ms = [m for m in mutants.M if not sel or m['name'] in sel or any(p in sel for p in m['props'])]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
        for mu, r, out in ex.map(one, ms):
            print('%-6s %-4s %-40s %s' % (','.join(mu['props']), mu['kind'], mu['name'], r))
            if r != 'pass':
                bad += 1
                print('      ' + '\n      '.join(l[:220] for l in out.split('\n')[:8]))
            elif os.environ.get('V'):
                print('      ' + '\n      '.join(l[:220] for l in out.split('\n')[:2]))
            sys.stdout.flush()
    print('%d entries, %d not as expected' % (len(ms), bad))
    return bad != 0


sys.exit(main())
