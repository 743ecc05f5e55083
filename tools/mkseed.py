"""Write planted bugs (seeded/<id>/) from the definitions in tools/seeds_src.py and confirm
them in a scratch copy of /repo.  Usage: mkseed.py [id ...]   (env NOTEST=1: skip the test suite)"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import seeds_src
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken; cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export HOME="$scratch" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg RAY_TMPDIR="$scratch" PYTHONPATH="$PWD"
SCRATCH="$scratch" /opt/venv/bin/python "$here/demo.py"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
want = sys.argv[1:]
for sid, s in seeds_src.SEEDS.items():
    if want and sid not in want:
        continue
    d = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    base = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    wt = base + '/repo'
    sh(f'cp -a /repo {wt}')
    try:
        sh(f'git -C {wt} checkout -q -- .')
        open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(s['demo'])
        r = sh(f'bash {d}/demo.sh', cwd=wt)
        if r.returncode:
            print(sid, 'DEMO FAILS ON CLEAN', r.stdout[-1500:], r.stderr[-1500:]); continue
        for f, old, new in s['edits']:
            p = f'{wt}/pyebsdindex/{f}'
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(sid, 'EDIT MATCHES', n, f, old[:50]); break
            open(p, 'w').write(t.replace(old, new))
        diff = sh(f'git -C {wt} diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        r = sh(f'bash {d}/demo.sh', cwd=wt)
        msg = 'demo ok' if r.returncode else 'DEMO DOES NOT FAIL WITH PATCH ' + r.stdout[-500:]
        if not os.environ.get('NOTEST'):
            env = dict(os.environ, HOME=base, RAY_TMPDIR=base, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONPATH=wt)
            r = sh('timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 '
                   '--continue-on-collection-errors pyebsdindex/tests 2>&1 | tail -25', cwd=wt, env=env)
            msg += ' | ' + r.stdout.strip().splitlines()[-1]
            open(f'/tmp/seedtest.{sid}.log', 'w').write(r.stdout)
        print(sid, msg, flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
