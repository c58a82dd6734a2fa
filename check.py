#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo from its source."""
import argparse
import glob
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.ctx import Ctx  # noqa: E402
from sa.repo import Repo, AnchorMissing  # noqa: E402
import sa.rules  # noqa: E402

KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')


def registry():
    reg = {}
    for m in pkgutil.iter_modules(sa.rules.__path__):
        mod = importlib.import_module(f'sa.rules.{m.name}')
        for pid, fn in getattr(mod, 'CHECKS', {}).items():
            reg.setdefault(pid, []).append(fn)
    return reg


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:'):
                head, _, what = line[len('finding:'):].partition(' :: ')
                head = head.strip()
                p, _, key = head.partition(' key=')
                if p == f'property={prop}':
                    out[key.strip()] = what.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--strict', action='store_true', help='exit 3 when anything stays undecided (development)')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    reg = registry()
    if a.property not in reg:
        print(f'unknown property {a.property}; have {" ".join(sorted(reg))}')
        return 2
    crashed = None
    try:
        repo = Repo()
    except SyntaxError as e:
        print(f'NO-ANSWER: the source does not parse: {e}')
        return 2
    except AnchorMissing as e:
        print(f'NO-ANSWER: {e}')
        return 2
    ctx = Ctx(repo, a.property, a.tier)
    for fn in reg[a.property]:
        try:
            fn(ctx)
        except AnchorMissing as e:
            ctx.undecided('anchor', fn.__name__, str(e))
        except RecursionError:
            ctx.undecided('engine', fn.__name__, 'recursion limit')
        except Exception as e:  # the analyser itself failed: no verdict from this rule
            crashed = traceback.format_exc()
            ctx.undecided('engine', fn.__name__, f'{type(e).__name__}: {e}')
            print(crashed, file=sys.stderr)
    n = len(ctx.obligations)
    good = sum(1 for o in ctx.obligations if o[2] == 'ok')
    und = [o for o in ctx.obligations if o[2] == 'undecided']
    known = known_findings(a.property)
    fresh = {k: v for k, v in ctx.violations.items() if k not in known}
    listed = {k: v for k, v in ctx.violations.items() if k in known}
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    for old in glob.glob(os.path.join(evdir, f'{a.property}.violation-*.txt')):
        os.remove(old)
    sampled = []
    seen = {}
    for o in ctx.obligations:
        if seen.setdefault(o[0], 0) < 12:
            seen[o[0]] += 1
            sampled.append(f'[{o[2]}] {o[0]}: {o[1]}' + (f' -- {o[3]}' if o[3] else ''))
    coverage = {
        'explanation': 'Static analysis of the current source text: ' + ' | '.join(
            f'{k}: {v}' for k, v in sorted(ctx.rules.items())),
        'obligations': n,
        'discharged': good,
        'undecided': len(und),
        'undecided_list': [f'{o[0]}: {o[1]} -- {o[3]}' for o in und][:40],
        'known_findings_reported': sorted(listed),
        'entry_points': ctx.runs,
        'paths_analysed': ctx.paths,
        'branch_decisions': ctx.branches,
        'call_sites_interpreted': ctx.calls,
        'functions_analysed': sorted(ctx.functions),
        'obligations_sample': sampled[:120],
    }
    ev = {
        'property': a.property, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other', 'coverage': coverage, 'wall_s': round(time.time() - t0, 2),
        'assumptions': ctx.assumptions, 'violations': len(fresh),
    }
    with open(os.path.join(evdir, f'{a.property}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    if a.v:
        for o in ctx.obligations:
            print(f'[{o[2]}] {o[0]}: {o[1]} -- {o[3]}')
    for k, v in sorted(listed.items()):
        print(f'KNOWN-FINDING: property={a.property} {known[k] or v["what"]}')
    for i, (k, v) in enumerate(sorted(fresh.items())):
        rp = os.path.join(evdir, f'{a.property}.violation-{i + 1}.txt')
        with open(rp, 'w', encoding='utf-8') as f:
            f.write(f'property: {a.property}\nrule: {v["rule"]}: {ctx.rules.get(v["rule"], "")}\n'
                    f'construct: {v["construct"]}\nwhere: {v["where"]}\nwhat: {v["what"]}\nkey: {v["key"]}\n\n'
                    'path through the code:\n' + '\n'.join(v['trace']) + '\n')
        print(f'  {v["rule"]}: {v["construct"]}: {v["what"]} [{v["where"]}]')
        print(f'VIOLATION property={a.property} replay={rp}')
    print(f'{a.property}: {n} obligations, {good} discharged, {len(und)} undecided, {len(fresh)} violations, '
          f'{len(listed)} known; {ctx.paths} paths, {len(ctx.functions)} functions, {time.time() - t0:.1f} s')
    for o in und[:10]:
        print(f'  undecided: {o[0]}: {o[1]} -- {o[3]}')
    if fresh:
        return 1
    if n == 0 or (good == 0 and not listed):
        # policy as for each obligation: what is not recognised is no alarm; the evidence says that nothing was decided
        print('UNDECIDED: nothing of this property could be decided on this source')
        return 3 if a.strict else 0
    if a.strict and und:
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
