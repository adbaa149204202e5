"""Check driver: runs the rules of one property over the configurations of a tier, writes the evidence file and
turns the reports into the exit status."""
import importlib, json, os, sys, time, traceback
from collections import OrderedDict
from . import build, ir, paths

VERIF = build.VERIF
EVID = os.environ.get('OSHMPI_EVIDENCE') or os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known_findings.json')


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.cfg = None
        self.rules = OrderedDict()     # rule -> {'doc', 'n', 'samples'}
        self.viol = OrderedDict()      # key -> record
        self.errors = []
        self.mods = {}
        self.states = 0

    def rule(self, name, doc):
        self.rules.setdefault(name, {'doc': doc, 'n': 0, 'sites': set(), 'samples': [], 'bad': 0})

    def ob(self, rule, site, n=1):
        """An obligation of the rule at a site (a construct of the analysed program) was examined."""
        r = self.rules[rule]
        r['n'] += n
        k = '%s: %s' % (self.cfg, site)
        if k not in r['sites']:
            r['sites'].add(k)
            if len(r['samples']) < 4 or (len(r['sites']) & (len(r['sites']) - 1)) == 0 and len(r['samples']) < 8:
                r['samples'].append(k)

    def bad(self, rule, key, msg, f=None, n=None, sim=None, members=None):
        """A violated obligation; key identifies the construct independently of line numbers."""
        k = '%s:%s' % (rule, key)
        self.rules[rule]['bad'] += 1
        v = self.viol.get(k)
        if v is None:
            v = self.viol[k] = {'rule': rule, 'key': k, 'doc': self.rules[rule]['doc'], 'what': msg, 'config': self.cfg,
                                'entry_points': []}
            if f is not None and n is not None:
                v['construct'] = f.where(n)
            if sim is not None and f is not None:
                v['path'] = paths.trace(sim, f)
        for x in (members or ([f.name] if f is not None else [])):
            if x not in v['entry_points'] and len(v['entry_points']) < 40:
                v['entry_points'].append(x)

    def need(self, rule, n):
        """The rule must have found at least n instances, or the analysis no longer sees what it should."""
        if self.rules[rule]['n'] < n and not self.viol:
            raise ir.AnalysisError('rule %s: %d instances, at least %d expected' % (rule, self.rules[rule]['n'], n))

    def guard(self, fn, *a):
        """Run one rule; an analysis error is recorded and does not stop the other rules."""
        try:
            return fn(*a)
        except ir.AnalysisError as e:
            self.errors.append('%s [%s]: %s' % (getattr(fn, '__name__', 'rule'), self.cfg, e))


def sim(R, f, rule, limit=60000):
    r = paths.explore(f, rule, limit)
    R.states += r.states
    return r


def known():
    if not os.path.exists(FINDINGS):
        return []
    return json.load(open(FINDINGS))['findings']


def run(prop, tier):
    t0 = time.time()
    mod = importlib.import_module('vlib.props.' + prop.lower())
    cfgs = list(mod.CONFIGS)
    if tier == 'thorough':
        cfgs += [c for c in getattr(mod, 'THOROUGH', ()) if c not in cfgs]
    R = Report(prop)
    try:
        for c in cfgs:
            R.cfg = c
            m = ir.Module(build.ir(c))
            m.cfg = c
            R.mods[c] = m
            R.guard(mod.run, m, R)
        if hasattr(mod, 'finish'):
            R.guard(mod.finish, R)
    except build.BuildError as e:
        R.errors.append('build: %s' % e)
    except Exception as e:
        R.errors.append('internal: %s' % traceback.format_exc())
    kn = {k['key']: k for k in known() if k['property'] == prop and k.get('status') == 'open'}
    new = [v for k, v in R.viol.items() if k not in kn]
    old = [v for k, v in R.viol.items() if k in kn]
    nob = sum(r['n'] for r in R.rules.values())
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLAIN,
            'obligations': nob,
            'discharged': nob - sum(r['bad'] for r in R.rules.values()),
            'configurations': cfgs,
            'entry_points_analysed': {c: m.stats['roots'] for c, m in R.mods.items()},
            'internal_functions_inlined': {c: m.stats['inlined'] for c, m in R.mods.items()},
            'path_states_visited': R.states,
            'rules': {k: {'rule': r['doc'], 'obligations': r['n'], 'distinct_sites': len(r['sites']), 'violated': r['bad'],
                          'samples': r['samples']} for k, r in R.rules.items()},
            'known_findings_seen': [v['key'] for v in old],
        },
        'assumptions': getattr(mod, 'ASSUME', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    if R.errors:
        ev['coverage']['errors'] = R.errors
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
        fp.write('\n')
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[v['key']]['what']))
    rp = os.path.join(EVID, prop + '.violations.json')
    if new:
        with open(rp, 'w') as fp:
            json.dump(new, fp, indent=1)
        for v in new[:30]:
            print('%s [%s] %s' % (v['key'], v['config'], v['what']))
            if v.get('construct'):
                print('    at %s' % v['construct'])
            if v['entry_points']:
                print('    entry points: %s' % ', '.join(v['entry_points'][:6]))
            if v.get('path'):
                print('    path: %s' % ' -> '.join(v['path'][-14:]))
        for e in R.errors:
            print('analysis error: %s' % e, file=sys.stderr)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    if R.errors:
        for e in R.errors:
            print('analysis error: %s' % e, file=sys.stderr)
        return 2
    if nob == 0:
        print('analysis error: no obligations', file=sys.stderr)
        return 2
    print('%s: %d obligations over %s hold (%d path states, %.1f s)' % (prop, nob, ', '.join(cfgs), R.states, time.time() - t0))
    return 0
