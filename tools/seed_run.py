"""mkseed.py seeds_file [ids...]: makes /verif/seeded/<id> and reports."""
import json, os, subprocess, sys, runpy, time
S = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
R = '/repo'
PY = '/opt/venv/bin/python'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh('git -C /repo status --porcelain').stdout
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for sid, s in S.items():
    if only and sid not in only:
        continue
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/opt/venv/nocache\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(s['demo'].strip() + '\n')
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    try:
        for f, old, new in s['edits']:
            p = R + '/src/node/' + f
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        b = sh('bash /opt/vp/build.sh').returncode
        sh('bash /opt/vp/test.sh /tmp/w/sx.json')
        missing = base - set(json.load(open('/tmp/w/sx.json'))['passed'])
        dm = sh('bash %s/demo.sh' % d, cwd=R)
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        t0 = time.time()
        c = sh('%s -W ignore vsym/main.py %s quick' % (PY, s['property']), cwd='/verif')
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        el = time.time() - t0
    finally:
        sh('git -C /repo checkout -- .')
    ok = sh('bash %s/demo.sh' % d, cwd=R)
    print(sid, s['property'], 'build', b, 'missing', sorted(missing)[:3], 'demo', dm.returncode, ok.returncode,
          'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode, '%.0fs' % el, flush=True)
    rf = '/verif/tools/seed_results.json'
    res = json.load(open(rf))
    caught = 'yes' if c.returncode == 1 and v else 'no'
    res.setdefault(sid, dict(first='yes' if caught == 'yes' else 'no, strengthened'))['caught'] = caught
    json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
    if ok.returncode:
        print(ok.stderr[-600:])
    if dm.returncode == 0:
        print('   demo passes with the patch')
