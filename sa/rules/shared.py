"""C43: what one client, server, message or call does never changes another."""
import ast

from ..interp import P, show, subterms

MUT = {'append', 'add', 'pop', 'popitem', 'remove', 'clear', 'update', 'extend', 'insert', 'setdefault', 'discard', 'appendleft', 'popleft', 'sort', 'reverse', 'pop_by', 'move_to_end',
       'difference_update', 'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__', 'rotate'}
EVENTS = ('mut', 'setitem', 'setattr', 'del', 'delattr', 'delitem', 'setslice', 'augmut')
VIEWS = {'.values', '.items', '.keys', '.get', 'getattr', 'iter', 'reversed', 'enumerate', 'zip', '.setdefault', 'find_by', 'openleadr.utils.find_by', 'openleadr.utils.getmember', 'next', 'filter', 'vars'}
IMMUTABLE = {'timedelta', 'datetime.timedelta', 'frozenset', 'tuple', 'Decimal', 'timezone', 'int', 'float', 'str', 'bool', 'bytes', 'namedtuple', 'TypeVar', 're.compile', 'MappingProxyType', 'partial', 'functools.partial',
             'logging.getLogger', 'getLogger', 'property', 'staticmethod', 'classmethod', 'object'}
CHANGING = ('datetime.now', 'datetime.utcnow', 'date.today', 'datetime.today', 'time', 'time.time', 'time.monotonic', 'monotonic', 'uuid4', 'uuid.uuid4', 'uuid1', 'uuid.uuid1', 'generate_id', 'utils.generate_id', 'random.random',
            'random.randint', 'token_hex', 'secrets.token_hex')


def root(repo, t, classes=()):
    """('shared', what) | ('param', name) | None for the object a change of t changes"""
    while True:
        if t[0] == 'glob':
            return ('shared', f'{t[1]}.{t[2]}')
        if t[0] == 'cls':
            return ('shared', f'class {t[1]}')
        if t[0] == 'mod':
            return ('shared', f'module {t[1]}')
        if t[0] == 'p':
            return ('param', t[1])
        if t[0] == 'attr' and t[2] == '__class__':
            return ('shared', 'the class of ' + show(t[1]))
        if t[0] == 'attr' and t[2] == '__dict__':
            t = t[1]
            continue
        if t[0] in ('attr', 'item', 'elem', 'key'):
            if t[0] == 'attr' and t[1] == P('self'):
                for c in classes:
                    if t[2] in c[1]:
                        return ('shared', f'class attribute {c[0].qual}.{t[2]}')
            t = t[1]
            continue
        if t[0] == 'call' and t[1] == 'type' and len(t[2]) == 1:
            return ('shared', 'the class of ' + show(t[2][0]))
        if t[0] == 'call' and t[1] in VIEWS and t[2]:
            t = t[2][0]
            continue
        return None


def container(e):
    """Is the expression a mutable object made once?"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(e, ast.Call) and ast.unparse(e.func) not in IMMUTABLE and ast.unparse(e.func) not in ('field', 'dataclasses.field')


def shared_attrs(ctx, cls):
    """Names of class level mutable attributes that not every instance gets a copy of its own of."""
    out = set()
    for c in ctx.repo.mro(cls):
        for n, e in c.attrs.items():
            if container(e) and not c.is_dataclass:
                out.add(n)
    if not out:
        return out
    init = ctx.repo.find_method(cls, '__init__')
    if init is None:
        return out
    ps = ctx.run(init, P('self'), {}, inline_only=frozenset({f'{c.qual}.__init__' for c in ctx.repo.mro(cls)}), forget=lambda a: True, max_seconds=20)
    if ps is None:
        return None
    return {n for n in out if any(not any(e.kind == 'setattr' and e.name == n and e.args[0] == P('self') for e in p.trace) for p in ps if p.kind == 'return')}


def allowed(what, func):
    """The two things that are for the whole process by design."""
    return what.startswith('openleadr.hooks.') or (what.startswith('openleadr.messaging.') and 'nonce' in what.lower())


def defaults(f):
    a = f.node.args
    return list(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1])) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]


def once(e):
    """Something in e that changes from call to call, computed only once here."""
    if isinstance(e, ast.Lambda):
        return None
    if isinstance(e, ast.Call) and ast.unparse(e.func) in CHANGING:
        return ast.unparse(e)
    for ch in ast.iter_child_nodes(e):
        r = once(ch)
        if r:
            return r
    return None


def C43(ctx):
    ctx.rule('globals', 'no function changes a module level or class level object, other than the nonce cache and the hook registry')
    ctx.rule('default', 'an argument default that can be changed is never changed, kept or returned')
    ctx.rule('once', 'a value that differs per call (time, id) is not computed once, as default of an argument or field, at class or module level')
    ctx.rule('field', 'dataclass fields do not share a mutable default between the objects')
    ctx.rule('own', 'containers kept by an instance are made for that instance')
    ctx.rule('cache', 'functions whose results are cached give the same immutable result for the same arguments')
    repo = ctx.repo
    kept = {}
    for q, c in sorted(repo.classes.items()):
        if not c.is_dataclass and any(container(e) for e in c.attrs.values()):
            kept[q] = shared_attrs(ctx, c)
            if kept[q] is None:
                ctx.undecided('own', q, '__init__ not analysed')
                kept[q] = set()
    muts, runs, params = [], [], {}
    for q, f in sorted(repo.funcs.items()):
        selfv = P('self') if f.cls is not None and f.kind not in ('staticmethod', 'classmethod') else None
        if f.kind == 'classmethod':
            selfv = ('cls', f.cls.qual) if hasattr(f.cls, 'qual') else None
        ps = ctx.run(f, selfv, {}, inline_only=frozenset(), forget=lambda a: True, max_seconds=25, types={P('self'): f.cls} if f.cls is not None and selfv == P('self') else {}, literal_globals=True)
        if ps is None:
            continue
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and f.kind != 'staticmethod' and names and selfv == P('self'):
            names = names[1:]
        runs.append((f, names, ps))
    hier = {}
    for f, names, ps in runs:
        classes = []
        if f.cls is not None:
            if f.cls.qual not in hier:
                fam = [c for c in repo.classes.values() if f.cls in repo.mro(c)]
                hier[f.cls.qual] = [(c, kept.get(c.qual, set())) for c in fam if kept.get(c.qual)]
            classes = hier[f.cls.qual]
        n = 0
        seen = set()
        for p in ps:
            for e in p.trace:
                if e.kind == 'setglobal':
                    n += 1
                    muts.append((f, ('shared', e.name), e, p))
                    continue
                if not (e.kind in EVENTS and e.args):
                    continue
                k = (e.loc, e.kind, e.name, e.args[0])
                if k in seen:
                    continue
                seen.add(k)
                n += 1
                base = e.args[0]
                r = root(repo, base, classes)
                if r is None:
                    continue
                if r[0] == 'shared':
                    muts.append((f, r, e, p))
                elif r[1] in names:
                    params.setdefault(f.qual, {})[r[1]] = e
        ctx.ok('globals', f.qual, f'{n} changes on {len(ps)} paths')
    # arguments changed by the functions they are passed to
    for _ in range(4):
        grown = False
        for f, names, ps in runs:
            for p in ps:
                for e in p.trace:
                    if e.kind != 'call' or e.name not in params:
                        continue
                    g = repo.funcs[e.name]
                    gnames = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
                    bound = list(zip(gnames, e.args)) + [(k, v) for k, v in e.kw]
                    for n, v in bound:
                        if n not in params[e.name]:
                            continue
                        r = root(repo, v, hier.get(f.cls.qual, []) if f.cls is not None else [])
                        if r is None:
                            continue
                        if r[0] == 'shared' and (f, r, e.loc) not in [(m[0], m[1], m[2].loc) for m in muts]:
                            muts.append((f, r, e, p))
                        elif r[0] == 'param' and r[1] in names and r[1] not in params.get(f.qual, {}):
                            params.setdefault(f.qual, {})[r[1]] = e
                            grown = True
        if not grown:
            break
    for f, r, e, p in muts:
        if allowed(r[1], f):
            ctx.ok('globals', f'{f.qual}: {r[1]}', 'for the whole process by design')
            continue
        ctx.violation('globals', f'{f.qual}: changes {r[1]}', f'{e.kind} {e.name} of something shared by everything in this process', e.loc, p)
    check_defaults(ctx, runs, params)
    check_fields(ctx)
    check_cache(ctx, runs)
    check_own(ctx, runs)


def check_defaults(ctx, runs, params):
    for f, names, ps in runs:
        for n, d in defaults(f):
            w = once(d)
            loc = (f.file, f.qual, d.lineno)
            if w:
                ctx.violation('once', f'{f.qual}: default of {n}', f'{w} is computed once, when the function is defined', loc)
            if not container(d):
                continue
            name = f'{f.qual}: default of {n}'
            if n in params.get(f.qual, {}):
                ctx.violation('default', name, 'the default of this argument is changed, so the change is seen by all later calls', params[f.qual][n].loc)
                continue
            bad = None
            for p in ps:
                if p.kind == 'return' and p.value == P(n):
                    bad = (f.file, f.qual, f.node.lineno)
                for e in p.trace:
                    if e.kind in ('setattr', 'setitem') and e.args[-1] == P(n) or e.kind == 'mut' and P(n) in e.args[1:]:
                        bad = e.loc
            ctx.judge('default', name, bad is None, 'the default of this argument is kept or handed out, shared by all who use it', bad or loc)
    # nested functions and lambdas: their defaults are computed whenever the outer one runs


def check_fields(ctx):
    for q, c in sorted(ctx.repo.classes.items()):
        items = [(n, d) for n, d in c.fields if d is not None] if c.is_dataclass else []
        plain = [] if c.is_dataclass else list(c.attrs.items())
        for n, d in plain:
            w = once(d)
            if w:
                ctx.violation('once', f'{q}.{n}', f'{w} is computed once, when the class is defined', (c.module.relpath, q, d.lineno))
        for n, d in items:
            loc = (c.module.relpath, q, d.lineno)
            name = f'{q}.{n}'
            w = once(d)
            if w:
                ctx.violation('once', name, f'{w} is computed once, when the class is defined', loc)
                continue
            bad = False
            if isinstance(d, ast.Call) and ast.unparse(d.func) in ('field', 'dataclasses.field'):
                for kw in d.keywords:
                    if kw.arg == 'default':
                        bad = container(kw.value)
                    elif kw.arg == 'default_factory':
                        fac = kw.value
                        if isinstance(fac, ast.Lambda):
                            b = fac.body
                            bad = isinstance(b, (ast.Name, ast.Attribute, ast.Subscript))
            elif isinstance(d, ast.Name):
                ex = c.module.globals.get(d.id, [])
                bad = len(ex) == 1 and container(ex[0])
            else:
                bad = container(d)
            ctx.judge('field', name, not bad, 'all objects share this default', loc)


def check_cache(ctx, runs):
    for f, names, ps in runs:
        decs = [ast.unparse(d.func if isinstance(d, ast.Call) else d).split('.')[-1] for d in f.node.decorator_list]
        if not any(d in ('lru_cache', 'cache', 'cached_property') for d in decs):
            continue
        loc = (f.file, f.qual, f.node.lineno)
        bad = None
        for p in ps:
            if p.kind == 'return' and p.value[0] == 'o':
                bad = 'the cached result can be changed by whoever gets it'
            for e in p.trace:
                if e.kind in ('call', 'now') and (e.name in CHANGING or e.name.split('.')[-1] in ('now', 'utcnow', 'today', 'uuid4', 'time', 'monotonic')):
                    bad = f'{e.name} is only evaluated the first time'
                if e.kind in EVENTS:
                    bad = 'what the function changes only changes the first time'
            for t in [p.value] if p.kind == 'return' else []:
                if any(x[0] == 'attr' and x[1] == P('self') for x in subterms(t)) and 'cached_property' not in decs:
                    bad = 'the result depends on the state of the object'
            for e in p.trace:
                if e.kind == 'call' and e.name in ctx.repo.funcs and reads_clock(ctx, ctx.repo.funcs[e.name]):
                    bad = f'{e.name} depends on the time'
        ctx.judge('cache', f.qual, bad is None, bad or '', loc)


def reads_clock(ctx, f, depth=3):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            u = ast.unparse(n.func)
            if u in CHANGING:
                return True
            if depth and isinstance(n.func, ast.Name):
                r = ctx.repo.resolve(f.module, n.func.id)
                if r and r[0] == 'func' and r[1] is not f and reads_clock(ctx, r[1], depth - 1):
                    return True
    return False


def check_own(ctx, runs):
    """A shared container put into an attribute, which is changed through that attribute somewhere."""
    changed = {}
    for f, names, ps in runs:
        for p in ps:
            for e in p.trace:
                if e.kind in ('mut', 'setitem', 'del', 'setslice') and e.args and e.args[0][0] == 'attr':
                    changed.setdefault(e.args[0][2], e)
    n = 0
    for f, names, ps in runs:
        seen = set()
        for p in ps:
            for e in p.trace:
                if e.kind != 'setattr' or (e.loc, e.name) in seen:
                    continue
                n += 1
                v = e.args[-1]
                what = None
                if v[0] == 'glob':
                    ex = ctx.repo.modules[v[1]].globals.get(v[2], [])
                    if ex and any(container(x) for x in ex):
                        what = f'{v[1]}.{v[2]}'
                elif v[0] == 'attr' and v[1][0] == 'cls':
                    c = ctx.repo.classes[v[1][1]]
                    at = ctx.repo.find_attr(c, v[2])
                    if at and container(at[1]):
                        what = f'{c.qual}.{v[2]}'
                if what is None:
                    continue
                seen.add((e.loc, e.name))
                if e.name in changed:
                    ctx.violation('own', f'{f.qual}: {e.name} is {what}', 'all instances share the container and change it', e.loc, p)
                else:
                    ctx.ok('own', f'{f.qual}: {e.name} is {what}', 'never changed through the attribute')
    ctx.ok('own', 'attributes', f'{n} assignments looked at')


CHECKS = {'C43': C43}
