#!/usr/bin/env python3
"""Build and confirm planted bugs: mkseed.py SPECFILE... (spec: ID, PROP, NEEDS, BREAKS, EDITS, DEMO).

Each is applied to a scratch copy of /repo; the demo must pass there without and fail with the change, and the stable tests
must pass with it (run on /repo with the patch applied, undone afterwards). Kept under /verif/seeded only when all that holds.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/w/seedrepo'
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds in the tree at the working directory, 1 when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(specs):
    notest = '--no-tests' in specs
    specs = [s for s in specs if not s.startswith('--')]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for sp in specs:
        ns = {}
        exec(open(sp).read(), ns)
        sid = ns['ID']
        shutil.rmtree(SCRATCH, ignore_errors=True)
        sh(f'cp -a /repo {SCRATCH}')
        sh(f'git -C {SCRATCH} checkout -q -- .')
        bad = None
        for f, old, new in ns['EDITS']:
            path = f'{SCRATCH}/openleadr/{f}'
            s = open(path).read()
            if s.count(old) != 1:
                bad = f'{f}: {s.count(old)} matches of {old[:50]!r}'
                break
            open(path, 'w').write(s.replace(old, new))
        if bad:
            print(sid, 'BAD', bad)
            continue
        patch = sh(f'git -C {SCRATCH} diff').stdout
        d = f'/tmp/w/seedout/{sid}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(f'{d}/patch.diff', 'w').write(patch)
        open(f'{d}/demo.sh', 'w').write(DEMO_SH)
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
        shutil.copy(f'{HERE}/tools/seedlib.py', f'{d}/h.py')
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
        r1 = sh(f'bash {d}/demo.sh', cwd=SCRATCH)
        sh(f'git -C {SCRATCH} checkout -q -- .')
        r0 = sh(f'bash {d}/demo.sh', cwd=SCRATCH)
        if r0.returncode != 0 or r1.returncode == 0:
            print(sid, 'BAD demo: clean', r0.returncode, 'patched', r1.returncode, (r0.stdout + r0.stderr)[-600:], '|||', (r1.stdout + r1.stderr)[-300:])
            continue
        if not notest:
            a = sh(f'git -C /repo apply {d}/patch.diff')
            if a.returncode:
                print(sid, 'BAD apply', a.stderr)
                continue
            try:
                sh('bash /opt/vp/test.sh /tmp/w/seedtest.json')
            finally:
                sh('git -C /repo checkout -- .')
            ok = set(json.load(open('/tmp/w/seedtest.json'))['passed'])
            if base - ok:
                print(sid, 'BAD tests:', sorted(base - ok)[:5])
                continue
        shutil.rmtree(f'{HERE}/seeded/{sid}', ignore_errors=True)
        shutil.copytree(d, f'{HERE}/seeded/{sid}')
        print(sid, 'ok', ns['PROP'], '|', (r1.stdout + r1.stderr).strip().splitlines()[-1:] )
    shutil.rmtree(SCRATCH, ignore_errors=True)


main(sys.argv[1:])
