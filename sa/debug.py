import sys
from sa.repo import Repo
from sa.interp import *

def dump(paths, n=5, facts=True):
    for i, p in enumerate(paths[:n]):
        print(f'--- path {i}: {p.kind} {show(p.value)}')
        for e in p.trace:
            print('   ', e.kind, e.name, [show(a) for a in e.args], {k: show(v) for k, v in e.kw}, f'L{e.loc[2]}')
        if facts:
            for a, v in p.facts.items():
                print('      fact', v, a[0], *[show(x) if isinstance(x, tuple) else x for x in a[1:]])
