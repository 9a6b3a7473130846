"""plant.py mk SPEC.py : create seeded/<id> from a spec; plant.py test ID... : confirm them against /repo."""
import sys, os, subprocess, json
R, V = os.environ.get('PLANT_REPO', '/repo'), '/verif/seeded'
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    assert sh(f'git -C {R} status --porcelain').stdout.strip() == '', 'repo not clean'
def mk(id, prop, edits, needs, breaks, demo):
    clean()
    try:
        for f, old, new in edits:
            s = open(f'{R}/{f}').read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(f'{R}/{f}', 'w').write(s.replace(old, new))
        d = sh(f'git -C {R} diff').stdout
    finally:
        sh(f'git -C {R} checkout -- .')
    os.makedirs(f'{V}/{id}', exist_ok=True)
    open(f'{V}/{id}/patch.diff', 'w').write(d)
    open(f'{V}/{id}/demo.py', 'w').write(demo.lstrip('\n'))
    open(f'{V}/{id}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{V}/{id}/meta.json', 'w'), indent=1)
def test(ids):
    clean()
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for id in ids:
        D = f'{V}/{id}'
        prop = json.load(open(f'{D}/meta.json'))['property']
        out = []
        try:
            r = sh(f'git -C {R} apply {D}/patch.diff'); assert r.returncode == 0, r.stdout
            r = sh('bash /opt/vp/build.sh'); out.append('build ' + ('ok' if r.returncode == 0 else 'FAILED'))
            r = sh(f'bash {D}/demo.sh', cwd=R, timeout=300); out.append('demo ' + ('fails ok' if r.returncode else 'PASSES WITH BUG'))
            last = r.stdout.strip().splitlines()[-1:]
            if '--no-tests' not in sys.argv:
                sh('bash /opt/vp/test.sh /tmp/pt.json')
                p = set(json.load(open('/tmp/pt.json'))['passed']); bad = [t for t in base if t not in p]
                out.append('tests ok' if not bad else 'TESTS FAIL ' + ' '.join(bad[:4]))
            r = sh(f'VERIF_REPO={R} VERIF_SEED=1 bash /verif/run.sh {prop} quick', cwd='/verif')
            out.append('caught' if r.returncode == 1 and f'VIOLATION property={prop}' in r.stdout else f'MISSED rc={r.returncode}')
        finally:
            sh(f'git -C {R} checkout -- .')
        print(id, prop, '; '.join(out), '|', last, flush=True)
    sh('bash /opt/vp/build.sh')
    for id in ids:
        r = sh(f'bash {V}/{id}/demo.sh', cwd=R, timeout=300)
        if r.returncode:
            print(id, 'DEMO FAILS ON THE UNCHANGED TREE', r.stdout[-600:])
    clean()
if __name__ == '__main__':
    if sys.argv[1] == 'mk':
        exec(open(sys.argv[2]).read())
    else:
        test([a for a in sys.argv[2:] if not a.startswith('-')])
