"""Check one property: main.py ID [quick|thorough] [--only SCENARIO] [-v]"""
import argparse
import concurrent.futures
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
from vsym import plain  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    prop = a.prop.upper()
    t0 = time.time()
    sys.path.insert(0, os.environ.get('VSYM_SRC', '/repo/src'))
    spec = importlib.import_module('checks.spec_%s' % prop.lower()) \
        if os.path.exists(os.path.join(ROOT, 'checks', 'spec_%s.py' % prop.lower())) else None
    mod = spec or importlib.import_module('checks.%s' % prop.lower())
    scs = mod.scenarios(a.tier)
    if a.only:
        scs = [s for s in scs if a.only in s['name']]
    tmp = tempfile.mkdtemp(prefix='vsym-')
    default_budget = 60 if a.tier == 'quick' else 300
    cap = 780 if a.tier == 'quick' else 3 * 3600

    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'))

    def one(i):
        sc = scs[i]
        budget = sc.get('budget', default_budget)
        left = cap - (time.time() - t0)
        if left < 5 or a.tier == 'quick' and any(r and r.get('violations') for r in results):
            return dict(scenario=sc['name'], skipped=True)
        budget = min(budget, left)
        out = os.path.join(tmp, 'o%d.json' % i)
        worker = sc.get('worker', 'worker.py')
        try:
            r = subprocess.run(
                [PY, '-W', 'ignore', os.path.join(HERE, worker), prop, json.dumps(sc),
                 str(budget), out, tmp], env=env, timeout=budget + 150,
                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            err = r.stderr.decode(errors='replace')[-3000:]
        except subprocess.TimeoutExpired:
            err = 'worker timeout'
        if os.path.exists(out):
            with open(out) as f:
                d = json.load(f)
            d['stderr'] = err
            return d
        return dict(scenario=sc['name'], crashed=True, stderr=err)

    order = sorted(range(len(scs)), key=lambda i: -scs[i].get('weight', 1))
    results = [None] * len(scs)
    with concurrent.futures.ThreadPoolExecutor(a.j) as pool:
        futs = {pool.submit(one, i): i for i in order}
        for f in concurrent.futures.as_completed(futs):
            results[futs[f]] = f.result()
    shutil.rmtree(tmp, ignore_errors=True)

    viol = []
    crashed = []
    tot = {}
    funcs = set()
    reached = {}
    samples = []
    known = []
    notes = []
    for sc, r in zip(scs, results):
        if r.get('crashed'):
            crashed.append(r)
            continue
        if r.get('skipped'):
            notes.append('%s: not run (time)' % sc['name'])
            continue
        for k in ('paths', 'completed', 'aborted', 'branches', 'queries', 'sat',
                  'unsat', 'unknown', 'solver_s', 'diverged', 'native_ok',
                  'native_bad', 'conc_skipped', 'checks', 'concretized', 'pending',
                  'native_hash'):
            tot[k] = tot.get(k, 0) + r.get(k, 0)
        funcs.update(r['functions'])
        for k, n in r['reached'].items():
            reached[k] = reached.get(k, 0) + n
        samples.extend(dict(scenario=sc['name'], **s) for s in r['samples'][:2])
        viol.extend(r['violations'])
        known.extend(r.get('known', []))
        if not r['exhausted'] and not r['violations']:
            notes.append('%s: stopped by its time budget after %d paths, %d open'
                         % (sc['name'], r['paths'], r['pending']))
        if r['unknown']:
            notes.append('%s: %d queries not decided by the solver' % (sc['name'], r['unknown']))
        if r['conc_skipped']:
            notes.append('%s: %d further values of concretized terms' % (
                sc['name'], r['conc_skipped']))
        if r['artifacts']:
            notes.append('%s: %d failures of the model did not reproduce on the '
                         'real code (inconclusive): %s' % (
                             sc['name'], len(r['artifacts']), r['artifacts'][0]['sym']))
    missing = []
    for sc, r in zip(scs, results):
        if r.get('crashed') or r.get('skipped') or r['violations']:
            continue
        for lab in sc.get('must_reach', ()):
            if lab not in r['reached']:
                missing.append('%s: %s' % (sc['name'], lab))
        if not r['completed']:
            missing.append('%s: no completed path' % sc['name'])
    if a.v:
        for sc, r in zip(scs, results):
            if r.get('crashed') or r.get('skipped'):
                print('%-40s CRASHED/SKIPPED %s' % (sc['name'], r.get('stderr')))
                continue
            print('%-40s paths %6d (abort %5d) q %6d sat %5d unk %d solver %6.1fs wall %6.1fs '
                  'nat ok %d bad %d div %d conc %d skip %d %s' % (
                      sc['name'], r['paths'], r['aborted'], r['queries'], r['sat'],
                      r['unknown'], r['solver_s'], r['wall'], r['native_ok'],
                      r['native_bad'], r['diverged'], r['concretized'], r['conc_skipped'],
                      '' if r['exhausted'] else 'NOT EXHAUSTED %d' % r['pending']))
            for d in r['divergences'][:2]:
                print('   divergence', json.dumps(d)[:1500])
            for d in r['artifacts'][:2]:
                print('   artifact', json.dumps(d)[:2500])
            if r['stderr'].strip():
                print('   stderr', r['stderr'][-500:])
    exhaustive = not notes and not tot.get('unknown') and not tot.get('pending') \
        and not tot.get('conc_skipped') and not crashed
    cov = dict(
        states=tot.get('completed', 0), transitions=tot.get('queries', 0),
        traces_validated_against_impl=tot.get('native_ok', 0),
        exhaustive=bool(exhaustive),
        samples=samples[:6] or [dict(note='no completed path')],
        meaning='states = feasible paths explored to their end; transitions = '
                'branch negations and assertion negations decided by Z3; traces '
                '= paths replayed with equal observations on the un-instrumented code',
        paths_pruned_by_assumptions=tot.get('aborted', 0),
        assertions_decided=tot.get('checks', 0),
        queries_sat=tot.get('sat', 0), queries_unsat=tot.get('unsat', 0),
        queries_unknown=tot.get('unknown', 0),
        solver_seconds=round(tot.get('solver_s', 0), 2),
        concretized_terms=tot.get('concretized', 0),
        concretizations_not_flipped=tot.get('conc_skipped', 0),
        path_divergences=tot.get('diverged', 0),
        native_mismatches=tot.get('native_bad', 0),
        functions_encoded=sorted(funcs), reached=reached,
        bounds=getattr(mod, 'BOUNDS', {}).get(a.tier, getattr(mod, 'BOUNDS', {})),
        scenarios=[dict(name=sc['name'], paths=r.get('paths'), queries=r.get('queries'),
                        solver_s=r.get('solver_s'), wall_s=r.get('wall'),
                        exhausted=r.get('exhausted')) for sc, r in zip(scs, results)],
        notes=notes)
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')),
              level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', ())) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not a.only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
    for k in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, plain.known_findings()[k][1]))
    if viol:
        rd = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for i, v in enumerate(viol):
            if v['label'] in seen:
                continue
            seen.add(v['label'])
            p = os.path.join(rd, '%s-%d.json' % (prop, i))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1)
            print('%s: %s' % (v['scenario'], v['label']))
            print(v['output'].strip()[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if crashed:
        for r in crashed:
            print('ERROR %s: %s' % (r['scenario'], r['stderr']))
        return 2
    if missing:
        print('ERROR vacuous: %s' % '; '.join(missing))
        return 2
    print('%s %s: held on %d paths, %d queries (%.1f s solver), %s, %.1f s' % (
        prop, a.tier, cov['states'], cov['transitions'], cov['solver_seconds'],
        'exhaustive within bounds' if exhaustive else 'NOT exhaustive: ' + '; '.join(notes)[:300],
        time.time() - t0))
    return 0


COMMON_ASSUMPTIONS = [
    'CPython 3.12, plumber, zope.interface/zope.component, uuid.UUID and copy run '
    'unmodified and are trusted',
    'dict/set displays and dict()/set() in node and odict are modelled by '
    'association lists with equality lookup; every explored path is replayed on '
    'the un-instrumented code and compared',
    'uuid4 returns fresh distinct ids',
]

if __name__ == '__main__':
    sys.exit(main())
