"""C44: user callbacks may be plain functions or coroutine functions; nothing that has to be awaited is forgotten."""
import ast
import builtins

from ..interp import P, NONE, subterms

EXT_CORO = {'asyncio.sleep', 'asyncio.wait_for', 'asyncio.wait', 'asyncio.gather'}
LOOKUPS = ('ven_lookup', 'fingerprint_lookup')
HELPERS = ('await_if_required', 'gather_if_required')


def user_attr(repo, n):
    return n.startswith('on_') or n in LOOKUPS


def trailing(t):
    """Names on the way to a callable: attribute names and containers."""
    out = []
    while True:
        if t[0] == 'attr':
            out.append(t[2])
            t = t[1]
        elif t[0] in ('item', 'elem', 'key'):
            if t[0] == 'item' and t[2][0] == 'c' and isinstance(t[2][1], str):
                out.append(t[2][1])
            t = t[1]
        elif t[0] == 'call' and t[2] and t[1] in ('.get', '.pop', '.items', '.values', 'getattr'):
            t = t[2][0]
        elif t[0] == 'p':
            out.append(t[1])
            return out
        elif t[0] == 'glob':
            out.append(t[2])
            return out
        else:
            return out


def is_user(e, repo):
    """Does this call run a function that the user supplied?"""
    if e.kind == 'usercb':
        return True
    if e.kind != 'call' or e.name != '()' or not e.args:
        return False
    callee = e.args[0]
    if callee[0] in ('partial', 'fn', 'cls', 'ext'):
        return False
    names = trailing(callee)
    return any(user_attr(repo, n) or 'callback' in n or 'hook' in n.lower() or n == 'handlers' for n in names)


def direct(p, t, r, depth=4):
    """Is the object r itself in t, not something computed from it?"""
    if t == r:
        return True
    if not depth:
        return False
    if t[0] == 't':
        return any(direct(p, x, r, depth - 1) for x in t[1])
    if t[0] == 'o':
        return inside(p, t, r)
    if t[0] in ('partial', 'coro'):
        return any(direct(p, x, r, depth - 1) for x in t[2]) or any(direct(p, v, r, depth - 1) for _, v in t[3])
    return False


def uses(p, e, awaiters):
    """(awaited?, handed to something that awaits it?, returned?)"""
    r = e.res
    aw = hand = False
    for x in p.trace:
        if x is e:
            continue
        args = x.args + tuple(v for _, v in x.kw)
        if x.kind in ('await', 'awaitx', 'run'):
            aw = aw or any(r in (a, *subterms(a)) or inside(p, a, r) for a in args)
        elif x.kind in ('call', 'callx', 'task', 'coro', 'new', 'mut', 'setattr', 'setitem', 'setglobal'):
            if x.kind in ('call', 'coro') and x.name not in awaiters and not x.name.startswith('asyncio.'):
                continue
            if x.kind in ('mut', 'setitem', 'setattr') and (e.kind != 'call' or e.name == '()'):
                continue                   # results of callbacks: kept, but not awaited by that
            hand = hand or any(direct(p, a, r) for a in args)
    return aw, hand, p.kind == 'return' and direct(p, p.value, r)


def inside(p, t, r, depth=3):
    o = p.obj(t) if t[0] == 'o' else None
    if o is None or not depth:
        return False
    items = [x for kv in o[1] for x in kv] if o[0] == 'dict' else list(o[1]) if o[0] == 'list' else []
    return any(isinstance(x, tuple) and (x == r or inside(p, x, r, depth - 1)) for x in items)


def settled(p, r):
    v = p.facts.get(('iscoro', r))
    if v is False:
        return True
    for e in p.trace:
        if e.facts.get(('iscoro', r)) is False:
            return True
    return any(a[0] == 'isinst' and a[1] == r and val and not {'Coroutine', 'Awaitable'} & set(map(str, a[2])) for a, val in p.facts.items())


def scheduled(p, r):
    return any((x.kind == 'task' or x.kind == 'call' and x.name.split('.')[-1] == 'run_coroutine_threadsafe') and any(r in (a, *subterms(a)) for a in x.args) for x in p.trace)


def candidate(repo, f):
    """Can f call something of the user or an async function?"""
    if f.is_async:
        return True
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            c = n.func
            if isinstance(c, ast.Name):
                r = repo.resolve(f.module, c.id)
                if r is None and not hasattr(builtins, c.id) or r and r[0] == 'func' and r[1].is_async:
                    inner = any(isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) and m.name == c.id for m in ast.walk(f.node))
                    if not inner:
                        return True
            elif isinstance(c, ast.Attribute):
                if user_attr(repo, c.attr) or any(g.name == c.attr and g.is_async for g in repo.funcs.values()):
                    return True
            else:
                return True
    return False


def helpers_ok(ctx):
    names = ('a', 'b', 'c')
    for n in (1, 2, 3):
        args = names[:n]
        ps = ctx.probe('openleadr.utils', f'async def probe({", ".join(args)}): return await gather_if_required([{", ".join(args)}])', model_utils=False, max_iter=3)
        judge_helper(ctx, 'utils.gather_if_required', ps, [P(x) for x in args], True)
    ps = ctx.probe('openleadr.utils', 'async def probe(a): return await await_if_required(a)', model_utils=False)
    judge_helper(ctx, 'utils.await_if_required', ps, [P('a')], False)
    ps = ctx.probe('openleadr.utils', 'async def probe(): return await gather_if_required(None)', model_utils=False)
    for p in ps or ():
        ctx.judge('helpers', 'utils.gather_if_required: nothing', p.kind == 'return' and p.value == NONE, 'None is not given back as None', None, p)


def judge_helper(ctx, name, ps, args, many):
    if not ps:
        ctx.undecided('helpers', name, 'not analysed')
        return
    for p in ps:
        if p.kind != 'return':
            ctx.judge('helpers', f'{name}: raises', None, 'raises')
            continue
        got = [p.value]
        if many:
            o = p.obj(p.value) if p.value[0] == 'o' else None
            if o is None and p.value[0] != 't':
                ctx.undecided('helpers', f'{name}: order', 'the result is not a list made here')
                got = None
            else:
                got = list(o[1] if o else p.value[1])
        for a in args:
            aw = any(e.kind in ('await', 'awaitx') and any(a in (x, *subterms(x)) or inside(p, x, a) for x in e.args) for e in p.trace)
            ctx.judge('helpers', f'{name}: awaited', aw or p.facts.get(('iscoro', a)) is False, 'a result that is a coroutine is not awaited', None, p)
            ctx.judge('helpers', f'{name}: only then', not (aw and p.facts.get(('iscoro', a)) is False), 'a result that is no coroutine is awaited', None, p)
        if got is not None:
            ctx.judge('helpers', f'{name}: order', got == args or (None if any(x[0] not in ('p', 'c') for x in got) else False), 'other results, or in another order', None, p)


def awaiting(p, names):
    """Parameters that this path awaits or asks about being a coroutine."""
    for e in p.trace:
        if e.kind in ('await', 'awaitx', 'run', 'task'):
            for a in e.args:
                yield from (x[1] for x in subterms(a) if x[0] == 'p')
        for f in (e.facts, p.facts):
            for a in f:
                if a[0] == 'iscoro':
                    yield from (x[1] for x in subterms(a[1]) if x[0] == 'p')
    for a in p.facts:
        if a[0] == 'iscoro':
            yield from (x[1] for x in subterms(a[1]) if x[0] == 'p')


def C44(ctx):
    ctx.rule('callback', 'the result of a user callback is awaited when it is a coroutine, and only then')
    ctx.rule('forgotten', 'a coroutine made by calling an async function of the package is awaited, gathered, scheduled or handed on')
    ctx.rule('helpers', 'await_if_required and gather_if_required await every coroutine, and give the results in order')
    repo = ctx.repo
    helpers_ok(ctx)
    ncb = 0
    helpers = frozenset(f'openleadr.utils.{h}' for h in HELPERS)
    runs = []
    for q, f in sorted(repo.funcs.items()):
        cls = f.cls
        if not candidate(repo, f):
            continue
        selfv = P('self') if cls is not None and f.kind not in ('staticmethod', 'classmethod') else None
        ps = ctx.run(f, selfv, {}, inline_only=helpers, max_seconds=20, types={P('self'): cls} if selfv is not None else {}, forget=lambda a: a[0] not in ('iscoro', 'isinst'),
                     usercb=lambda c, n: n.startswith('on_') or n in LOOKUPS, track_coros=True)
        if ps is not None:
            runs.append((q, f, ps))
    awaiters = set(helpers)
    for q, f, ps in runs:
        names = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs} | ({f.node.args.vararg.arg} if f.node.args.vararg else set())
        if any(n in names and n != 'self' for p in ps for n in awaiting(p, names)):
            awaiters.add(q)
    for q, f, ps in runs:
        seen = {}
        for p in ps:
            for e in p.trace:
                if e.res is None:
                    continue
                user = is_user(e, repo)
                coro = e.kind == 'coro' or e.kind == 'call' and (e.name in repo.funcs and repo.funcs[e.name].is_async or e.name in EXT_CORO)
                if not user and not coro:
                    continue
                aw, hand, ret = uses(p, e, awaiters)
                if coro:
                    ok = aw or hand or ret or p.kind == 'raise'
                else:
                    ok = aw or settled(p, e.res) or f.module.name == 'openleadr.hooks' and scheduled(p, e.res) or \
                        (None if hand or p.kind == 'raise' or ret and not f.node.decorator_list else False)
                seen.setdefault((e.loc, 'callback' if user else 'forgotten', e.name if not user else callee(e)), []).append((ok, e, p, hand, ret))
        for (loc, rule, name), res in seen.items():
            ncb += rule == 'callback'
            bad = next((r for r in res if r[0] is False), None)
            und = next((r for r in res if r[0] is None), None)
            what = 'a callback that is a coroutine function is never run to completion' if rule == 'callback' else 'the coroutine is never awaited, so the function never runs'
            construct = f'{q}: {name}'
            if bad:
                ctx.violation(rule, construct, what, loc, bad[2])
            elif und:
                ctx.undecided(rule, construct, 'the result is handed on' if und[3] else 'the result is returned')
            else:
                ctx.ok(rule, construct, f'{len(res)} occurrences')
    ctx.judge('callback', 'callbacks', True if ncb else None, 'no call of a user callback found', detail=f'{ncb} call sites')


def callee(e):
    if e.kind == 'usercb':
        return e.name
    return '.'.join(trailing(e.args[0])[::-1])


CHECKS = {'C44': C44}
