"""C28: the lookup helpers that everything else relies on (and that the other rules model) do what their names say."""
from ..interp import P, A, I, E, C, NONE, show, subterms
from ..q import has, equal

MOD = 'openleadr.utils'
L, V, W, O = P('L'), P('v'), P('w'), P('o')


def step(facts, cur, name):
    """(present?, the member) of cur, whether it is a dict or a dataclass."""
    dc = facts.get(('isdc', cur))
    if dc:
        return facts.get(('hasattr', cur, name)), A(cur, name)
    pres = facts.get(('in', C(name), cur))
    if pres is None and facts.get(('hasattr', cur, name)) is not None:
        return facts.get(('hasattr', cur, name)), A(cur, name)
    return pres, I(cur, name)


def holds(facts, el, path, val):
    """Do the facts say that el has val at path?  True / False / None"""
    cur = el
    for part in path.split('.'):
        pres, nxt = step(facts, cur, part)
        if pres is False:
            return False
        if pres is None and not any(a[0] in ('eq', 'in') and nxt in a[1:3] for a in facts) and part == path.split('.')[-1]:
            return None
        cur = nxt
    if facts.get(('isinst', val, ('tuple',))):
        v = facts.get(('in', cur, val))
        return v
    for a in (('eq', cur, val), ('eq', val, cur)):
        if a in facts:
            return facts[a]
    return None


def elements(p, n):
    key = p.facts.get(('isinst', L, ('dict',)))
    return [I(L, ('key', L, k)) if key else E(L, k) for k in range(n)]


def C28(ctx):
    ctx.rule('find', 'find_by returns the first item that has every given value at its path (nested paths included, several allowed values in a tuple), and None only '
             'when there is none')
    ctx.rule('pop', 'pop_by returns what find_by returns and removes exactly that item, nothing when there is none')
    ctx.rule('group', 'group_by puts every item into the one group of its value, in order')
    ctx.rule('members', 'getmember, setmember and hasmember act on the member at that path of a dict or dataclass, on nothing else; the default is used only when it is missing')
    ctx.rule('counter', 'increment_event_modification_number adds exactly one to the modification number of the event and returns the new one')
    ctx.rule('ids', 'generate_id gives a random UUID, as a string, each time')
    for name in ('find_by', 'pop_by', 'group_by', 'getmember', 'setmember', 'hasmember', 'increment_event_modification_number', 'generate_id'):
        if f'{MOD}.{name}' not in ctx.repo.funcs:
            ctx.undecided('find', f'utils.{name}', 'not found')
            return
    find(ctx)
    pop(ctx)
    group(ctx)
    members(ctx)
    fresh(ctx)


def find(ctx):
    for src, crit in (("def probe(L, v): return find_by(L, 'a', v)", [('a', V)]), ("def probe(L, v): return find_by(L, 'a.b', v)", [('a.b', V)]),
                      ("def probe(L, v, w): return find_by(L, 'a', v, 'b', w)", [('a', V), ('b', W)]), ("def probe(L, v, w): return find_by(L, 'a', v, 'b.c', w)", [('a', V), ('b.c', W)]),
                      ("def probe(L, v, w, x): return find_by(L, 'a', v, 'b', w, 'c', x)", [('a', V), ('b', W), ('c', P('x'))])):
        name = f'utils.find_by({", ".join(c for c, _ in crit)})'
        ps = ctx.probe(MOD, src, model_utils=False, max_iter=1 if len(crit) > 1 or '.' in src else 2, init=None)
        n = 0
        for p in ps or ():
            if p.kind == 'raise':
                ctx.judge('find', f'{name}: raises', False if p.value[1] in ('UnboundLocalError', 'IndexError') else None, 'a lookup fails', None, p)
                continue
            if p.kind != 'return':
                continue
            n += 1
            els = elements(p, p.state.counts.get(L, 0))
            if p.value == NONE:
                for el in els:
                    res = [holds(p.facts, el, c, v) for c, v in crit]
                    seen = any(has(a, el) for a in p.facts)
                    ctx.judge('find', f'{name}: nothing found', True if False in res else False if all(res) or not seen else None, 'an item that matches is not found', None, p)
            elif p.value in els:
                k = els.index(p.value)
                for c, v in crit:
                    r = holds(p.facts, p.value, c, v)
                    ctx.judge('find', f'{name}: found', True if r else False if r is False or not any(has(a, v) and has(a, p.value) for a in p.facts) else None, 'an item is returned that does not match', None, p)
                for el in els[:k]:
                    res = [holds(p.facts, el, c, v) for c, v in crit]
                    ctx.judge('find', f'{name}: first', True if False in res else False if all(res) or not any(has(a, el) for a in p.facts) else None, 'an earlier item that matches is passed over', None, p)
            else:
                ctx.judge('find', f'{name}: an item', False if p.value[0] in ('c', 't') else None, 'something else than an item is returned', None, p)
        if ps is not None:
            ctx.judge('find', f'{name}: paths', True if n else None, 'no path', detail=f'{n} paths')


def pop(ctx):
    name = 'utils.pop_by'
    f = ctx.repo.funcs[f'{MOD}.pop_by']
    loc = (f.file, f.qual, f.node.lineno)
    ps = ctx.probe(MOD, "def probe(L, v): return pop_by(L, 'a', v)", model_utils=False, max_iter=2)
    for p in ps or ():
        if p.kind != 'return':
            continue
        muts = [e for e in p.trace if e.kind in ('mut', 'del', 'setitem', 'setslice') and e.args and e.args[0] == L]
        if p.value == NONE:
            ctx.judge('pop', f'{name}: nothing', not muts, 'something is removed although nothing matched', loc, p)
            continue
        if p.facts.get(('truth', p.value)) is False:
            continue                                   # an empty dict
        if p.facts.get(('isinst', L, ('dict',))):
            continue                                   # for lists only
        ctx.judge('pop', f'{name}: removed', len(muts) == 1, f'{len(muts)} changes to the list', loc, p)
        for e in muts:
            ok = None
            if e.kind == 'mut' and e.name == 'pop':
                ok = len(e.args) > 1 and (at(e.args[1], p.value))
            elif e.kind == 'mut' and e.name == 'remove':
                ok = e.args[1] == p.value
            elif e.kind == 'del':
                ok = at(e.args[1], p.value)
            ctx.judge('pop', f'{name}: that one', ok, 'another item is removed than the one returned', e.loc, p)
        r = p.value
        if r[0] == 'elem' and r[1] == L:
            fa = muts[0].facts if muts else p.facts
            h = holds(fa, r, 'a', V)
            ctx.judge('pop', f'{name}: matches', True if h else False if h is False else None, 'the item removed does not match', loc, p)


def at(idx, item):
    """Is idx the position of item?"""
    if idx[0] == 'call' and idx[1].endswith('index') and idx[2] and idx[2][-1] == item:
        return True
    if item[0] == 'elem' and (idx == C(item[2]) or idx[0] == 'idx' and idx[2] == item[2]):
        return True
    return False if idx[0] == 'c' or idx[0] == 'call' and idx[1].endswith('index') else None


def group(ctx):
    f = ctx.repo.funcs[f'{MOD}.group_by']
    loc = (f.file, f.qual, f.node.lineno)
    for path in ('a', 'a.b'):
        name = f'utils.group_by({path})'
        ps = ctx.probe(MOD, f"def probe(L): return group_by(L, '{path}')", model_utils=False, max_iter=3)
        for p in ps or ():
            if p.kind != 'return':
                continue
            o = p.obj(p.value)
            n = p.state.counts.get(L, 0)
            if o is None or o[0] != 'dict' or o[2]:
                ctx.undecided('group', f'{name}: result', 'not a dict made here')
                continue
            got, ok = [], True
            for k, v in o[1]:
                lo = p.obj(v)
                if lo is None or lo[0] != 'list' or lo[2]:
                    ok = None
                    continue
                got.append((k, list(lo[1])))
            if ok is None:
                ctx.undecided('group', f'{name}: groups', 'not lists made here')
                continue
            flat = [x for _, g in got for x in g]
            for i, (k, g) in enumerate(got):
                for k2, g2 in got[i + 1:]:
                    differ = any(a[0] == 'eq' and not v and {a[1], a[2]} == {k, k2} for a, v in p.facts.items()) or k[0] == k2[0] == 'c' and k != k2
                    same = equal(p.facts, k, k2)
                    ctx.judge('group', f'{name}: one group', bool(differ and not same), 'items with the same value can be in different groups', loc, p)
            ctx.judge('group', f'{name}: each once', sorted(map(show, flat)) == sorted(show(E(L, k)) for k in range(n)), 'an item is in no group or in several', loc, p)
            for k, g in got:
                ctx.judge('group', f'{name}: order', g == sorted(g, key=lambda x: x[2] if x[0] == 'elem' else 0), 'the order of the items in a group is changed', loc, p)
                for x in g:
                    t = x
                    for part in path.split('.'):
                        t = I(t, part)
                    ctx.judge('group', f'{name}: right group', t == k or equal(p.facts, t, k) or any(v and a[0] == 'eq' and t in a[1:] for a, v in p.facts.items()) or False,
                              'an item is in a group of another value', loc, p)


def chain(dc, path):
    cur = O
    for part, d in zip(path, dc):
        cur = A(cur, part) if d else I(cur, part)
    return cur


def members(ctx):
    name = 'utils.getmember'
    for src, parts, default in (("def probe(o): return getmember(o, 'a')", ['a'], None), ("def probe(o, w): return getmember(o, 'a', w)", ['a'], W), ("def probe(o, w): return getmember(o, 'a.b', w)", ['a', 'b'], W),
                                ("def probe(o): return getmember(o, 'a.b')", ['a', 'b'], None)):
        ps = ctx.probe(MOD, src, model_utils=False, max_iter=3, key_errors=True)
        n = 0
        if default is not None and ps:
            for dc in (True, False):
                some = [p for p in ps if p.kind == 'return' and p.facts.get(('isdc', O)) is dc]
                if some:
                    ctx.judge('members', f'{name}: default of a {"dataclass" if dc else "dict"}', any(p.value == default for p in some), 'the default is never used', None, some[0])
        for p in ps or ():
            if p.kind != 'return':
                continue
            n += 1
            cur, present = O, True
            for part in parts:
                pres, nxt = step(p.facts, cur, part)
                if pres is False:
                    present = False
                    break
                cur = nxt
            if present:
                ok = p.value == cur or p.value[0] in ('item', 'attr') and same_path(p.value, parts)
                ctx.judge('members', f'{name}: {".".join(parts)}', ok or (False if p.value[0] in ('c', 'p', 'item', 'attr') else None), 'another value than that of the member is returned', None, p)
            elif part == parts[-1]:
                ctx.judge('members', f'{name}: default', p.value == default if default is not None else (False if p.value[0] == 'c' else None), 'a missing member does not give the default', None, p)
        if ps is not None:
            ctx.judge('members', f'{name}({len(parts)}): paths', True if n else None, 'no path', detail=f'{n} paths')
    name = 'utils.setmember'
    for parts in (['a'], ['a', 'b']):
        ps = ctx.probe(MOD, f"def probe(o, v): return setmember(o, '{'.'.join(parts)}', v)", model_utils=False, max_iter=3)
        for p in ps or ():
            if p.kind != 'return':
                continue
            sets = [e for e in p.trace if e.kind in ('setattr', 'setitem', 'mut', 'del')]
            ctx.judge('members', f'{name}: once', len(sets) == 1, f'{len(sets)} changes instead of one', None, p)
            for e in sets:
                key = e.name if e.kind == 'setattr' else (e.args[1][1] if e.kind == 'setitem' and e.args[1][0] == 'c' else None)
                val = e.args[-1]
                root = e.args[0]
                ctx.judge('members', f'{name}: {".".join(parts)}', False if key != parts[-1] or val != V else same_path(root, parts[:-1]), 'another member is set, or another value', e.loc, p)
    name = 'utils.hasmember'
    ps = ctx.probe(MOD, "def probe(o): return hasmember(o, 'a')", model_utils=False)
    for p in ps or ():
        if p.kind != 'return':
            continue
        pres, _ = step(p.facts, O, 'a')
        ctx.judge('members', f'{name}', None if pres is None or p.value[0] != 'c' else p.value[1] is pres, 'the answer is the wrong way round', None, p)
    name = 'utils.increment_event_modification_number'
    ps = ctx.probe(MOD, 'def probe(o): return increment_event_modification_number(o)')
    old = I(I(O, 'event_descriptor'), 'modification_number')
    for p in ps or ():
        if p.kind != 'return':
            ctx.undecided('counter', name, 'raises')
            continue
        sets = [e for e in p.trace if e.kind in ('setattr', 'setitem') and (e.name == 'modification_number' or e.kind == 'setitem' and e.args[1] == C('modification_number'))]
        other = [e for e in p.trace if e.kind in ('setattr', 'setitem', 'mut', 'del') and e not in sets]
        ctx.judge('counter', f'{name}: stored', len(sets) == 1 and not other, 'not exactly the modification number is changed', None, p)
        for e in sets:
            ctx.judge('counter', f'{name}: plus one', plus_one(e.args[-1], old), 'the modification number is not increased by one', e.loc, p)
            ctx.judge('counter', f'{name}: returned', p.value == e.args[-1], 'another number is returned than stored', e.loc, p)
            ctx.judge('counter', f'{name}: of the event', e.args[0] in (I(O, 'event_descriptor'), A(O, 'event_descriptor')), 'another object is changed', e.loc, p)


def plus_one(t, old):
    if t[0] == 'bin' and t[1] == '+':
        return set(t[2:4]) == {old, C(1)}
    return False if t == old or t[0] in ('c', 'bin') else None


def same_path(t, parts):
    got = []
    while t[0] in ('item', 'attr'):
        got.append(t[2][1] if t[0] == 'item' and t[2][0] == 'c' else t[2])
        t = t[1]
    if t[0] not in ('p', 'c'):
        return None
    return t == O and got[::-1] == parts


def fresh(ctx):
    ps = ctx.probe(MOD, 'def probe(): return (generate_id(), generate_id())', model_utils=False)
    for p in ps or ():
        if p.kind != 'return' or p.value[0] != 't':
            ctx.undecided('ids', 'utils.generate_id', 'not recognised')
            continue
        a, b = p.value[1]
        srcs = [[x for x in subterms(t) if x[0] == 'call' and ('uuid' in x[1] or 'token' in x[1] or 'urandom' in x[1])] for t in (a, b)]
        ctx.judge('ids', 'utils.generate_id: random', all(any(x[1].split('.')[-1] in ('uuid4', 'token_hex', 'token_urlsafe', 'urandom') for x in s) for s in srcs) or (False if not any(srcs) or any(
            x[1].split('.')[-1] in ('uuid1', 'uuid3', 'uuid5') for s in srcs for x in s) else None), 'the ids are not random', None, p)
        ctx.judge('ids', 'utils.generate_id: a string', a[0] in ('call', 'fstr') and (a[0] == 'fstr' or a[1] in ('str', '.hex') or a[1].startswith('secrets.')) or (False if a[0] == 'call' and a[1] == 'uuid.uuid4' else None), 'the id is not a string', None, p)


CHECKS = {'C28': C28}
