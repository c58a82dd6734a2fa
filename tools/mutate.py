#!/usr/bin/env python3
"""Mutation campaign: change one thing in the sources, see which checks report it; list the mutants that none reports.

mutate.py [-f FILE ...] [-k FUNCTION] [-n COUNT] [--seed S] [-j N] [-o OUT]
"""
import argparse
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)

# checks by file, fast ones first; the slow ones only where they look
FAST = {
    'client.py': 'C40 C41 C42 C39 C38 C37 C46 C36 C33 C04 C25 C48 C10 C11 C29 C44 C53 C51 C50',
    'server.py': 'C47 C48 C15 C13 C14 C12 C44 C25 C51 C50 C46',
    'messaging.py': 'C04 C05 C25 C20 C03 C06 C01 C24 C44 C51 C50 C26',
    'utils.py': 'C28 C16 C17 C19 C24 C44 C34 C47 C01 C02 C51 C52 C18',
    'preflight.py': 'C19 C18 C51',
    'objects.py': 'C45 C19 C22 C18 C51 C21',
    'enums.py': 'C23 C29 C51 C18',
    'hooks.py': 'C39 C44 C51',
    'errors.py': 'C06 C02 C51 C50',
    'fingerprint.py': 'C01 C51 C50',
    'service/vtn_service.py': 'C06 C07 C01 C02 C03 C39 C44 C53 C51 C50',
    'service/event_service.py': 'C12 C13 C14 C15 C16 C17 C44 C53 C51 C50',
    'service/poll_service.py': 'C13 C14 C44 C53 C51 C50 C09',
    'service/report_service.py': 'C34 C44 C53 C51 C50 C49 C35',
    'service/registration_service.py': 'C44 C07 C53 C51 C50 C09 C27',
    'service/decorators.py': 'C39 C44 C07 C51',
    'service/__init__.py': 'C07 C51 C08',
}
SLOW = {
    'client.py': {'create_report': 'C30 C31', 'update_report': 'C32 C30', 'create_single_report': 'C30', '': 'C08 C43'},
    'server.py': {'': 'C08 C43'},
    'messaging.py': {'': 'C26 C43'},
    'utils.py': {'': 'C26 C18 C35 C43', },
    'preflight.py': {'': 'C18 C43'},
    'objects.py': {'': 'C26 C43 C21'},
    'enums.py': {'': 'C18'},
    'hooks.py': {'': 'C43'},
    'errors.py': {}, 'fingerprint.py': {},
    'service/vtn_service.py': {'': 'C08 C43'},
    'service/event_service.py': {'': 'C08 C43'},
    'service/poll_service.py': {'': 'C08 C43'},
    'service/report_service.py': {'register_report': 'C35', '': 'C08 C43'},
    'service/registration_service.py': {'': 'C08 C43'},
    'service/decorators.py': {'': 'C08'},
    'service/__init__.py': {'': 'C08'},
}


def mutants(src, fn):
    """(function, line, description, new source) of each mutant"""
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    data = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new):
        a, b = span(n)
        return (data[:a] + new.encode() + data[b:]).decode()

    owner = {}

    def mark(n, f):
        for c in ast.iter_child_nodes(n):
            g = f
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = c
            owner[c] = g
            mark(c, g)
    mark(tree, None)
    docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef,
            ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    inf = {id(x) for n in ast.walk(tree) if isinstance(n, ast.JoinedStr) for x in ast.walk(n)}
    logs = {id(x) for n in ast.walk(tree) if isinstance(n, ast.Call) and ast.unparse(n.func).startswith(('logger.', 'print', 'warnings.'))
            for x in ast.walk(n)}
    raises = {id(x) for n in ast.walk(tree) if isinstance(n, ast.Raise) for x in ast.walk(n)}
    out = []

    def add(n, desc, new):
        f = owner.get(n)
        s = rep(n, new)
        try:
            if ast.dump(ast.parse(s)) == ast.dump(tree):
                return
        except SyntaxError:
            return
        out.append((f.name if f else '<module>', n.lineno, desc, s))
    CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'],
           ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
    U = ast.unparse
    for n in ast.walk(tree):
        if id(n) in logs or id(n) in docs or id(n) in inf:
            continue
        f = owner.get(n)
        if f is None and not fn.endswith('enums.py'):
            if not isinstance(n, (ast.Assign, ast.Call, ast.keyword, ast.Constant)):
                continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                add(n, f'{U(n)} -> {o}', f'({U(n.left)} {o} {U(n.comparators[0])})')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, f'{U(n)} -> {o}', '(' + o.join(f'({U(v)})' for v in n.values) + ')')
            for i in range(len(n.values)):
                keep = [v for j, v in enumerate(n.values) if j != i]
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, f'{U(n)} without {U(n.values[i])}', '(' + o2.join(f'({U(v)})' for v in keep) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f'{U(n)} without not', f'({U(n.operand)})')
        elif isinstance(n, ast.If) and not isinstance(n.test, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            add(n.test, f'if {U(n.test)} negated', f'(not {U(n.test)})')
        elif isinstance(n, ast.IfExp):
            add(n, f'{U(n)} swapped', f'({U(n.orelse)} if {U(n.test)} else {U(n.body)})')
        elif isinstance(n, ast.Constant) and f is not None and id(n) not in raises:
            if n.value is True or n.value is False:
                add(n, f'{n.value} flipped', str(not n.value))
            elif isinstance(n.value, int):
                add(n, f'{n.value} + 1', str(n.value + 1))
            elif isinstance(n.value, str) and n.value:
                add(n, f'{n.value!r} changed', repr(n.value + 'X'))
            elif n.value is None and not isinstance(n, ast.Return):
                pass
        elif isinstance(n, ast.Constant) and f is None and isinstance(n.value, str):
            add(n, f'{n.value!r} changed', repr(n.value + 'X'))
        elif isinstance(n, ast.Await):
            add(n, f'{U(n)} not awaited', U(n.value))
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and f is not None:
                    c = copy.deepcopy(n)
                    c.keywords = [x for x in c.keywords if x.arg != k.arg]
                    add(n, f'{U(n)[:60]} without {k.arg}', U(c))
            if len(n.args) >= 2 and f is not None and not any(isinstance(x, ast.Starred) for x in n.args):
                c = copy.deepcopy(n)
                c.args[0], c.args[1] = c.args[1], c.args[0]
                add(n, f'{U(n)[:60]} args swapped', U(c))
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 1:
                add(n, f'{U(n)[:60]} -> []', f'{U(n.func.value)}[{U(n.args[0])}]')
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'pop':
                add(n, f'{U(n)[:60]} pop -> get', f'{U(n.func.value)}.get({", ".join(U(x) for x in n.args)})')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)) and f is not None:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            add(n, f'deleted: {U(n)[:80]}', 'pass')
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, f'{U(n)[:60]} -> None', 'return None')
        if isinstance(n, ast.If) and n.orelse and f is not None and False:
            pass
    # variable misuse
    rng = random.Random(1)
    for f in [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        names = sorted({n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                       | {a.arg for a in f.args.args})
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and id(n) not in logs \
                    and id(n) not in raises and id(n) not in inf and len(names) > 1:
                o = rng.choice([x for x in names if x != n.id])
                add(n, f'{n.id} -> {o}', o)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and id(n) not in logs \
                    and id(n) not in inf and isinstance(n.ctx, ast.Load):
                attrs = sorted({m.attr for m in ast.walk(f) if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name)
                                and m.value.id == 'self' and m.attr != n.attr})
                if attrs:
                    o = rng.choice(attrs)
                    add(n, f'self.{n.attr} -> self.{o}', f'self.{o}')
    return out


def relevant(fn, func):
    slow = []
    for k, v in SLOW.get(fn, {}).items():
        if k in func:
            slow += [x for x in v.split() if x not in slow]
    return FAST.get(fn, '').split() + slow


def run(job):
    import rewrite
    i, fn, func, line, desc, s = job
    d = tempfile.mkdtemp(prefix='mut.')
    t0 = time.time()
    try:
        shutil.copytree(os.path.join(REPO, 'openleadr'), os.path.join(d, 'openleadr'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(d, 'openleadr', fn), 'w').write(s)
        und = []
        for pr in relevant(fn, func):
            rc, out = rewrite.check(pr, d, 300)
            if rc == 1:
                m = re.search(r'VIOLATION.*', out)
                return i, 'caught ' + pr, time.time() - t0, ''
            if rc != 0:
                und.append(f'{pr} rc={rc}')
            elif ', 0 undecided' not in out:
                und.append(f'{pr}:{re.search("([0-9]+) undecided", out)[1]}')
        return i, 'SURVIVED', time.time() - t0, ' '.join(und)
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-f', nargs='*')
    ap.add_argument('-k', default='')
    ap.add_argument('-n', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-o', default='/tmp/w/mut.txt')
    ap.add_argument('--skip', default='/tmp/w/mut_skip.txt')
    a = ap.parse_args()
    jobs = []
    for fn in a.f or list(FAST):
        src = open(os.path.join(REPO, 'openleadr', fn)).read()
        for func, line, desc, s in mutants(src, fn):
            if a.k in func:
                jobs.append((fn, func, line, desc, s))
    skip = set()
    if os.path.exists(a.skip):
        skip = {l.rstrip('\n') for l in open(a.skip)}
    jobs = [j for j in jobs if f'{j[0]}|{j[1]}|{j[2]}|{j[3]}' not in skip]
    print(len(jobs), 'mutants')
    if a.n and a.n < len(jobs):
        random.Random(a.seed).shuffle(jobs)
        jobs = jobs[:a.n]
    n = {}
    with open(a.o, 'w') as o, open(a.skip, 'a') as sk, ThreadPoolExecutor(a.j) as ex:
        for i, res, t, und in ex.map(run, [(i,) + j for i, j in enumerate(jobs)]):
            fn, func, line, desc, _ = jobs[i]
            n[res.split()[0]] = n.get(res.split()[0], 0) + 1
            sk.write(f'{fn}|{func}|{line}|{desc}\n')
            o.write(f'{res:12} {fn}:{line} {func}: {desc}   [{t:.0f}s] {und}\n'.replace('\r', ''))
            o.flush()
    print(n)


if __name__ == '__main__':
    main()
