#!/opt/venv/bin/python
"""plant.py SPECS.py [id...] : make and confirm seeded bugs described in SPECS (a list BUGS of dicts)
Works on /repo itself, undoing each change straight afterwards."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    sh('git -C /repo checkout -- .')


stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for b in ns['BUGS']:
    i = b['id']
    if only and i not in only:
        continue
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo not clean'
    d = '%s/seeded/%s' % (V, i)
    os.makedirs(d, exist_ok=True)
    try:
        for f, o, n in b['edits']:
            s = open(R + '/' + f).read()
            assert s.count(o) == 1, (i, f, s.count(o), o)
            open(R + '/' + f, 'w').write(s.replace(o, n))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=${OMP_NUM_THREADS:-2} MPLBACKEND=agg\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        out = '/tmp/plant_%s.json' % i
        sh('bash /opt/vp/test.sh %s' % out)
        got = json.load(open(out))
        lost = sorted(stable - set(got['passed']))
        r1 = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
        chk = []
        for p in b.get('checks', [b['prop']]):
            c = sh('cd %s && ./run %s' % (V, p), timeout=900)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            chk.append('%s rc=%d %s' % (p, c.returncode, v[:1]))
    finally:
        clean()
    os.remove(out)
    if any(f.startswith('c/') for f, _, _ in b['edits']):
        sh('bash /opt/vp/build.sh')
    r0 = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
    good = not lost and r1.returncode != 0 and r0.returncode == 0
    print(i, 'COUNTS' if good else 'BAD', 'lost=%s demo patched=%d clean=%d' % (lost[:3], r1.returncode, r0.returncode), 'checks:', chk, flush=True)
    if not good:
        print((r1.stdout + r1.stderr)[-600:], (r0.stdout + r0.stderr)[-600:])
        shutil.rmtree(d)
