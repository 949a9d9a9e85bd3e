"""Make and try a planted bug in a copy of /repo.  Usage: plant.py SPEC.py ...   (or: plant.py --try ID ...)

SPEC.py defines id, prop, edits [(file, old, new)], demo (python source), needs, breaks.
The bug is applied to a scratch copy of /repo's HEAD; the stable tests, the demo and the
property's quick check are run there (QM_REPO)."""
import json, os, shutil, subprocess, sys, tempfile, time
V = '/verif'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def demo(d, R):
    return sh(f'bash {d}/demo.sh', cwd=R, timeout=300)


def tests(R, tmp):
    s = open('/opt/vp/test.sh').read().replace('/repo', R).replace(R + '/home', '/home')
    open(f'{tmp}/test.sh', 'w').write(s)
    sh(f'bash {tmp}/test.sh {tmp}/t.json', cwd=R)
    t = json.load(open(f'{tmp}/t.json'))
    return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(t['passed']))


def one(x, retry, nocheck):
    tmp = tempfile.mkdtemp(prefix='pl', dir='/tmp/pw' if os.path.isdir('/tmp/pw') else None)
    R = f'{tmp}/repo'
    sh(f'git clone -q {os.environ.get("PLANT_BASE", "/repo")} {R}')
    try:
        if retry:
            i = x
        else:
            ns = {}
            exec(open(x).read(), ns)
            i = ns['id']
            d = f'{V}/seeded/{i}'
            for f, old, new in ns['edits']:
                s = open(f'{R}/{f}').read()
                if s.count(old) != 1:
                    print(f'{i}: {s.count(old)} matches of {old!r}')
                    return
                open(f'{R}/{f}', 'w').write(s.replace(old, new))
            for l in sh('git diff -U0', cwd=R).stdout.split('\n'):
                if l.startswith('-') and not l.startswith('---'):
                    if not any(l[1:] in sh(f'git show 61338fa:{f}', cwd=R).stdout.split('\n') for f, _, _ in ns['edits']): print(i, 'NOT AN ORIGINAL LINE:', l)
            os.makedirs(d, exist_ok=True)
            open(f'{d}/patch.diff', 'w').write(sh('git diff', cwd=R).stdout)
            sh('git checkout -- .', cwd=R)
            open(f'{d}/demo.py', 'w').write(ns['demo'].lstrip())
            open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
''')
            json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']},
                      open(f'{d}/meta.json', 'w'), indent=1)
        d = f'{V}/seeded/{i}'
        prop = json.load(open(f'{d}/meta.json'))['property']
        r = demo(d, R)
        rc0 = r.returncode
        if rc0: print(i, 'DEMO CLEAN rc', rc0, (r.stderr or r.stdout)[-600:])
        a = sh(f'git apply {d}/patch.diff', cwd=R)
        assert a.returncode == 0, a.stderr
        r = demo(d, R)
        rb = r.returncode
        broken = tests(R, tmp)
        print(i, 'demo bug rc', rb, ((r.stderr or r.stdout).strip().split('\n') or [''])[-1][:200], '| broken tests', broken[:4], len(broken), flush=True)
        if broken or rb == 0 or rc0:
            if not retry: sh(f'rm -r {d}')
            return
        if not nocheck:
            m = [c for c in json.load(open(f'{V}/MANIFEST.json'))['checks'] if c['property'] == prop]
            if m:
                t0 = time.time()
                sh('git checkout -q -- src', cwd=R) if False else None
                r = sh(m[0]['quick_cmd'], cwd=V, timeout=900, env=dict(os.environ, QM_REPO=R))
                v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
                print(i, prop, 'CHECK', 'caught' if r.returncode == 1 and v else 'MISSED rc %d' % r.returncode, f'{time.time()-t0:.0f}s', r.stdout[-300:] if not v else [l for l in r.stdout.split('\n') if l.startswith('   ')][:1], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for x in sys.argv[1:]:
    if not x.startswith('--'): one(x, '--try' in sys.argv, '--nocheck' in sys.argv)
