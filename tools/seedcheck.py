#!/usr/bin/env python3
"""Which checks catch which planted bug: seedcheck.py [-a] [ID...]; -a runs every check on every bug, otherwise the bug's own."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid, pids, evid):
    d = f'/tmp/w/sc/{sid}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(f'git -C /repo archive HEAD openleadr | tar -x -C {d}', shell=True, check=True)
    r = subprocess.run(f'git apply --directory= {HERE}/seeded/{sid}/patch.diff', shell=True, cwd=d, capture_output=True, text=True)
    if r.returncode:
        return sid, ['patch does not apply: ' + r.stderr[:200]]
    out = []
    for p in pids:
        e = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=f'{d}/ev')
        q = subprocess.run([sys.executable, f'{HERE}/check.py', p], capture_output=True, text=True, env=e, cwd=HERE)
        if q.returncode == 1 and f'VIOLATION property={p}' in q.stdout:
            out.append(p)
        elif q.returncode:
            out.append(f'{p}!{q.returncode}')
    shutil.rmtree(d, ignore_errors=True)
    return sid, out


def main():
    a = '-a' in sys.argv
    ids = [x for x in sys.argv[1:] if x != '-a'] or sorted(os.listdir(f'{HERE}/seeded'))
    allp = [c['property'] for c in json.load(open(f'{HERE}/MANIFEST.json'))['checks']]
    with ThreadPoolExecutor(8) as ex:
        fs = []
        for s in ids:
            own = json.load(open(f'{HERE}/seeded/{s}/meta.json'))['property']
            fs.append((s, own, ex.submit(one, s, allp if a else [own], a)))
        miss = 0
        for s, own, f in fs:
            _, out = f.result()
            ok = own in out
            miss += not ok
            print(f'{s:32} {own:4} {"caught" if ok else "MISSED":7} by {" ".join(out)}')
        print(len(fs), 'bugs', miss, 'missed by their own check')


main()
