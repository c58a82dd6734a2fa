"""Obligations, verdicts and evidence of one property check."""
import ast
import time

from .interp import Limit, P, show, run as _run
from .repo import AnchorMissing, Func


def locstr(loc):
    return f'{loc[0]}:{loc[2]} ({loc[1]})' if loc else '?'


class Ctx:
    def __init__(self, repo, prop, tier):
        self.repo = repo
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.violations = {}       # key -> dict
        self.obligations = []      # (rule, construct, 'ok'|'violated'|'undecided', detail)
        self.functions = set()
        self.paths = 0
        self.calls = 0
        self.branches = 0
        self.runs = []
        self.rules = {}
        self.assumptions = []
        self.t0 = time.time()

    # -- analyses ----------------------------------------------------------

    def run(self, func, selfv=None, args=None, kw=(), init=None, **cfg):
        """Interpret func; None when the analysis gives no answer.  args as a dict fixes some parameters by name."""
        if isinstance(args, dict):
            given = args
            names = [a.arg for a in func.node.args.posonlyargs + func.node.args.args]
            args = tuple(given.get(n, P(n)) for n in (names[1:] if selfv is not None and names else names))
            kw = tuple(kw) + tuple((a.arg, given.get(a.arg, P(a.arg))) for a in func.node.args.kwonlyargs)
        try:
            it, paths = _run(self.repo, func, selfv, args, kw, init, **cfg)
        except Limit as e:
            self.undecided('engine', func.qual, f'state budget: {e}')
            return None
        self.functions |= it.stats['functions']
        self.paths += len(paths)
        self.calls += it.stats['calls']
        self.branches += it.stats['branches']
        self.runs.append({'entry': func.qual, 'paths': len(paths), 'functions': len(it.stats['functions'])})
        return paths

    def probe(self, modname, src, **cfg):
        """Interpret a small driver function, written here, in the namespace of a module of the repository."""
        mod = self.repo.modules.get(modname)
        if mod is None:
            raise AnchorMissing(f'module {modname} not found')
        node = ast.parse(src).body[0]
        return self.run(Func(node.name, f'{modname}.<probe {node.name}>', node, mod), None, **cfg)

    # -- verdicts ----------------------------------------------------------

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct, detail=''):
        self.obligations.append((rule, construct, 'ok', detail))

    def undecided(self, rule, construct, detail=''):
        self.obligations.append((rule, construct, 'undecided', detail))

    def violation(self, rule, construct, what, loc=None, path=None):
        """construct: a stable name (function or class plus what is wrong), not a line number."""
        key = f'{rule}|{construct}'
        if key not in self.violations:
            self.obligations.append((rule, construct, 'violated', what))
            self.violations[key] = {'key': key, 'rule': rule, 'construct': construct, 'what': what,
                                    'where': locstr(loc), 'trace': render(path) if path is not None else []}

    def judge(self, rule, construct, ok, what, loc=None, path=None, detail=''):
        if ok is True:
            self.ok(rule, construct, detail)
        elif ok is False:
            self.violation(rule, construct, what, loc, path)
        else:
            self.undecided(rule, construct, detail or what)


def render(path, limit=80):
    out = []
    for e in path.trace[-limit:]:
        if e.kind in ('new',):
            continue
        out.append(f'{e.loc[0]}:{e.loc[2]} {e.loc[1].split(".")[-1]}: {e.kind} {e.name}'
                   f'({", ".join(show(a, 4) for a in e.args)}{"".join(f", {k}={show(v, 4)}" for k, v in e.kw)})')
    out.append('conditions on this path:')
    for a, v in path.facts.items():
        parts = [show(x, 5) if isinstance(x, tuple) and x and isinstance(x[0], str) else repr(x) for x in a[1:]]
        out.append(f'  {"" if v else "not "}{a[0]}({", ".join(parts)})')
    out.append(f'path ends: {path.kind} {show(path.value, 5)}')
    return out


__all__ = ['Ctx', 'AnchorMissing', 'locstr', 'render']
