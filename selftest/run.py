#!/usr/bin/env python3
"""Self test of the checks: apply small edits to a scratch copy of the sources and compare verdicts.

run.py [-p PROP] [-k SUBSTRING] [-j N]
Cases live in selftest/cases_*.py as lists BUGS and SAME of (name, properties, [(file, old, new), ...]).
BUGS must make each listed property exit 1; SAME must leave every listed property at exit 0.
"""
import argparse
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'cases_*.py'))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for kind in ('BUGS', 'SAME'):
            for name, props, edits in getattr(m, kind, []):
                out.append((kind, name, props.split(), edits))
    return out


def one(job):
    kind, name, props, edits, keep = job
    d = tempfile.mkdtemp(prefix='selftest.')
    try:
        shutil.copytree(os.path.join(REPO, 'openleadr'), os.path.join(d, 'openleadr'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        for fn, old, new in edits:
            p = os.path.join(d, 'openleadr', fn)
            s = open(p).read()
            if s.count(old) < 1:
                return [(kind, name, '-', 'STALE', f'{fn}: text not found: {old[:60]!r}')]
            s = s.replace(old, new, 1)
            if fn.endswith('.py'):
                compile(s, fn, 'exec')
            open(p, 'w').write(s)
        out = []
        env = dict(os.environ, VERIF_REPO=d)
        for pr in props:
            v = tempfile.mkdtemp(prefix='selfver.')
            for x in ('check.py', 'sa', 'KNOWN_FINDINGS.txt'):
                if os.path.exists(os.path.join(ROOT, x)):
                    os.symlink(os.path.join(ROOT, x), os.path.join(v, x))
            r = subprocess.run([sys.executable, '-c',
                                f'import sys; sys.argv=["check.py","{pr}"]; sys.path.insert(0,"{ROOT}"); '
                                f'import check; check.HERE="{v}"; sys.exit(check.main())'],
                               env=env, capture_output=True, text=True)
            shutil.rmtree(v)
            want = 1 if kind == 'BUGS' else 0
            ok = r.returncode == want and 'undecided: engine' not in r.stdout
            out.append((kind, name, pr, 'ok' if ok else f'FAIL rc={r.returncode}',
                        '' if ok and not keep else r.stdout[-1500:] + r.stderr[-1500:]))
        return out
    except SyntaxError as e:
        return [(kind, name, '-', 'STALE', f'edit does not compile: {e}')]
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-p', default=None)
    ap.add_argument('-k', default='')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    jobs = []
    for kind, name, props, edits in load():
        if a.k not in name:
            continue
        if a.p:
            if a.p not in props:
                continue
            props = [a.p]
        jobs.append((kind, name, props, edits, a.v))
    bad = n = 0
    with ThreadPoolExecutor(a.j) as ex:
        for res in ex.map(one, jobs):
            for kind, name, pr, st, out in res:
                n += 1
                if st != 'ok':
                    bad += 1
                if st != 'ok' or a.v:
                    print(f'{kind} {name} [{pr}]: {st}\n{out}')
    print(f'{n} verdicts, {bad} bad')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
