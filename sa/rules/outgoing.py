"""C18: what preflight lets through obeys the rules for outgoing events and report offers.  C19: targets and targets_by_type agree."""
from ..interp import P, E, I, C, NONE, show, subterms
from ..q import domain, equal, has

MOD = 'openleadr.preflight'
GROUP, UNGROUP = 'openleadr.utils.group_targets_by_type', 'openleadr.utils.ungroup_targets_by_type'
M = P('m')
SIGS = I(M, 'event_signals')
AP, ED = I(M, 'active_period'), I(M, 'event_descriptor')
DIST = "def probe(m): return preflight_message('oadrDistributeEvent', {'vtn_id': v, 'events': [m]})"
DIST2 = "def probe(m, n): return preflight_message('oadrDistributeEvent', {'events': [m, n]})"


def sig(m, k):
    return E(I(m, 'event_signals'), k)


def iv(s, j):
    return E(I(s, 'intervals'), j)


def counts(p, t):
    return p.state.counts.get(t, 0)


def final(p, base, key):
    """Value of base[key] when the path ends, and whether it was set."""
    v = p.state.store.get((base, 'i', C(key)))
    if v is not None and any(e.kind in ('setitem', 'setattr') and e.args[0] == base and key in (e.name, e.args[1][1] if len(e.args) > 2 and e.args[1][0] == 'c' else None) for e in p.trace):
        return v, True
    return I(base, key), False


def mention(*keys):
    """Forget facts about anything else."""
    def forget(a):
        r = repr(a)
        return not any(k in r for k in keys)
    return forget


def mentioning(*keys):
    """Keep the events about these keys."""
    def keep(e):
        r = repr((e.name, e.args))
        return any(k in r for k in keys)
    return keep


def only(*keys):
    return lambda b, k: k[0] != 'c' or k[1] in keys


def union(facts):
    par = {}

    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x
    for a, v in facts.items():
        if a[0] == 'eq' and v:
            x, y = find(a[1]), find(a[2])
            if x != y:
                par[x] = y
    return find


def leaves(p, t, depth=6):
    """Terms a value is computed from, looking into lists made on the path."""
    out = set()

    def walk(x, d):
        if not isinstance(x, tuple) or not x or not isinstance(x[0], str) or d < 0:
            return
        out.add(x)
        if x[0] == 'o':
            o = p.obj(x)
            if o is not None and o[0] in ('list', 'tuple', 'set'):
                for y in o[1]:
                    walk(y, d - 1)
            elif o is not None and o[0] == 'inst':
                for _, y in o[2]:
                    walk(y, d - 1)
                if len(o) > 3 and o[3] is not None:
                    walk(o[3], d - 1)
        for y in x[1:]:
            if isinstance(y, tuple) and y and isinstance(y[0], str):
                walk(y, d - 1)
            elif isinstance(y, tuple):
                for z in y:
                    walk(z, d - 1)
    walk(t, depth)
    return out


def feasible(p):
    """No two values are both equal and different."""
    find = union(p.facts)
    return not any(a[0] == 'eq' and not v and find(a[1]) == find(a[2]) for a, v in p.facts.items())


def total_of(p, t, s, m):
    """Is t the total of the durations of the m intervals of signal s (each once)?"""
    ls = leaves(p, t)
    want = [iv(s, j) for j in range(m)]
    if not all(any(has(x, w) for x in ls) for w in want):
        return False
    return not any(x[0] == 'elem' and x[1][0] == 'item' and x[1][2] == C('intervals') and x not in want for x in ls)


def C18(ctx):
    ctx.rule('dispatch', 'the messages that need it are checked, and it is the checked message that is handed back')
    ctx.rule('rule 8', 'in an event that is let through, the intervals of every signal add up to the duration of the active period')
    ctx.rule('rule 9', 'in an event that is let through, SIMPLE signals only have payloads 0, 1, 2 and 3')
    ctx.rule('rule 14', 'the current value of a SIMPLE signal in an event that is not active is made 0; otherwise it is left alone')
    ctx.rule('measurement', 'a measurement gets the XML namespace of its name; unknown names are refused')
    ctx.rule('response', 'response_required is never or always; anything else, or nothing, becomes always')
    ctx.rule('created', 'an event without creation time gets the current time, one with keeps it')
    ctx.rule('only that', 'nothing else in the message is changed')
    ctx.rule('refusals', 'an event is refused only when it breaks one of the rules')
    ctx.rule('offers', 'reports are offered as METADATA_ reports, with checked measurements')
    ctx.rule('units', 'the measurement of an offer has the description and one of the units that belong to its name, and power measurements their power attributes')
    ctx.rule('examples', 'a complete event or offer, worked out on its values: it passes unless it breaks a rule, and goes out with what the rules ask for')
    if f'{MOD}.preflight_message' not in ctx.repo.funcs:
        ctx.undecided('dispatch', MOD, 'preflight_message not found')
        return
    opaque = {GROUP, UNGROUP, 'openleadr.utils.parse_duration'}
    rule8(ctx, opaque)
    rule9(ctx, opaque)
    rule14(ctx, opaque)
    measurement(ctx, opaque)
    response(ctx, opaque)
    whole(ctx, opaque)
    register(ctx)
    units(ctx)
    examples(ctx)


def returned(ctx, rule, name, ps):
    if ps is None:
        return []
    got = [p for p in ps if p.kind == 'return']
    if not got:
        ctx.undecided(rule, name, 'no path lets an event through')
    return got


def rule8(ctx, opaque):
    name = 'oadrDistributeEvent'
    for src, ms in ((DIST, (M,)), (DIST2, (M, P('n')))):
        many = len(ms) == 1
        ps = ctx.probe(MOD, src, opaque=opaque, forget=mention('duration', 'timedelta', 'sum'), keep_event=mentioning('duration'), keep_store=only('duration'), max_iter=2 if many else 1, max_seconds=60)
        for p in returned(ctx, 'rule 8', name, ps):
            for m in ms if feasible(p) else ():
                d, was_set = final(p, I(m, 'active_period'), 'duration')
                find = union(p.facts)
                for k in range(counts(p, I(m, 'event_signals'))):
                    s = sig(m, k)
                    n = counts(p, I(s, 'intervals'))
                    if not n:
                        continue
                    d0 = I(I(m, 'active_period'), 'duration')
                    cands = {x for a, v in p.facts.items() if a[0] == 'eq' for x in a[1:3]} | {d}
                    tots = [x for x in cands if x != d0 and total_of(p, x, s, n)]
                    ok = bool(tots) and any(find(x) == find(d) for x in tots) and (was_set or True)
                    if was_set and find(d) == find(d0) and d != d0 and any(find(x) == find(d0) for x in tots):
                        ok = True
                    ctx.judge('rule 8', f'{name}: total of every signal', ok if tots or not any('duration' in repr(a) for a in p.facts) else (False if ok is False and settled8(p, s, n) else None),
                              'an event is sent whose intervals do not add up to the duration of the active period', None, p)


def settled8(p, s, n):
    """Nothing on this path looks at the durations of this signal at all."""
    return not any(has(x, iv(s, 0)) for a in p.facts for t in a[1:] if isinstance(t, tuple) for x in leaves(p, t))


def rule9(ctx, opaque):
    name = 'oadrDistributeEvent'
    for src, ms in ((DIST, (M,)), (DIST2, (M, P('n')))):
        many = len(ms) == 1
        ps = ctx.probe(MOD, src, opaque=opaque, forget=mention('signal_payload', 'signal_name'), keep_event=mentioning('signal_payload'), keep_store=only('signal_payload', 'signal_name'), max_iter=2 if many else 1, max_seconds=60)
        for p in returned(ctx, 'rule 9', name, ps):
            for m in ms:
                for k in range(counts(p, I(m, 'event_signals'))):
                    s = sig(m, k)
                    simple = is_simple(p.facts, s)
                    if simple is False:
                        continue
                    for j in range(counts(p, I(s, 'intervals'))):
                        v = I(iv(s, j), 'signal_payload')
                        al, ex = domain(p.facts, v)
                        about = any(has(t, v) for a in p.facts for t in a[1:] if isinstance(t, tuple))
                        ok = al is not None and set(al) - set(ex) <= {0, 1, 2, 3}
                        ctx.judge('rule 9', f'{name}: payloads of a SIMPLE signal', ok or (False if al is not None or not about or {0, 1, 2, 3} <= set(ex) else None), 'a SIMPLE signal is sent with another payload', None, p)
                        if final(p, iv(s, j), 'signal_payload')[1]:
                            ctx.violation('rule 9', f'{name}: payload kept', 'the payload of an interval is changed', None, p)


def is_simple(facts, s):
    n = I(s, 'signal_name')
    for a in (('eq', n, C('SIMPLE')), ('eq', C('SIMPLE'), n)):
        if a in facts:
            return facts[a]
    al, ex = domain(facts, n)
    if al is not None:
        return al - ex == {'SIMPLE'} if 'SIMPLE' in al - ex and len(al - ex) == 1 else (None if 'SIMPLE' in al - ex else False)
    return False if 'SIMPLE' in ex else None


def rule14(ctx, opaque):
    name = 'oadrDistributeEvent'
    for src, ms in ((DIST, (M,)), (DIST2, (M, P('n')))):
        many = len(ms) == 1
        ps = ctx.probe(MOD, src, opaque=opaque, forget=mention('current_value', 'signal_name', 'event_status'), keep_event=mentioning('current_value'), keep_store=only('current_value', 'event_status'), max_iter=2 if many else 1,
                       iters=lambda t: 1 if 'intervals' in repr(t) else None, max_seconds=60)
        for p in returned(ctx, 'rule 14', name, ps):
            for m in ms:
                st = I(I(m, 'event_descriptor'), 'event_status')
                active = p.facts.get(('eq', st, C('active')))
                for k in range(counts(p, I(m, 'event_signals'))):
                    s = sig(m, k)
                    v, was_set = final(p, s, 'current_value')
                    had = p.facts.get(('in', C('current_value'), s))
                    if any(e.kind == 'setitem' and e.args[0] == s for e in p.trace):
                        had = next((e.facts.get(('in', C('current_value'), s)) for e in p.trace if e.kind == 'setitem' and e.args[0] == s), had)
                    simple = is_simple(p.facts, s)
                    zero = equal(p.facts, I(s, 'current_value'), C(0)) or any(a[0] == 'truth' and a[1] == I(s, 'current_value') and not x for a, x in p.facts.items())
                    if was_set:
                        ok = v == C(0)
                        ctx.judge('rule 14', f'{name}: current value made 0', ok, 'the current value is changed to something else than 0', None, p)
                        ctx.judge('rule 14', f'{name}: only when needed', simple is True and active is not True if simple is not None and active is not None else (False if simple is False or active is True else None),
                                  'the current value of a signal is lost although it is not SIMPLE or the event is active', None, p)
                        continue
                    if simple is False or active is True or had is False or zero:
                        ctx.ok('rule 14', f'{name}: nothing to do')
                        continue
                    about = any('current_value' in repr(a) for a in p.facts)
                    ctx.judge('rule 14', f'{name}: SIMPLE and not active', False if simple is True and active is False or not about else None if about and (simple is None or active is None) and had is None else False,
                              'a SIMPLE signal of an event that is not active is sent with a current value other than 0', None, p)


def table(ctx, name):
    m = ctx.repo.modules.get('openleadr.enums')
    e = m.globals.get(name, []) if m else []
    import ast
    try:
        return ast.literal_eval(e[0]) if len(e) == 1 else None
    except ValueError:
        return None


def measurement(ctx, opaque):
    name = 'oadrDistributeEvent'
    ns = table(ctx, '_MEASUREMENT_NAMESPACES')
    for src, ms in ((DIST, (M,)), (DIST2, (M, P('n')))):
        n = 2 if len(ms) == 1 else 1
        ps = ctx.probe(MOD, src, opaque=opaque, forget=mention('measurement'), keep_event=mentioning('measurement'), keep_store=only('measurement', 'ns', 'name'), max_iter=n, iters=lambda t: 0 if 'intervals' in repr(t) else None, max_seconds=60)
        for p in returned(ctx, 'measurement', name, ps):
            for m in ms:
                for k in range(counts(p, I(m, 'event_signals'))):
                    s = sig(m, k)
                    judge_ns(ctx, name, p, s, I(s, 'measurement'), ns)


def judge_ns(ctx, name, p, owner, me, ns, rule='measurement'):
    absent = p.facts.get(('in', C('measurement'), owner)) is False or p.facts.get(('isnone', me)) is True or p.facts.get(('truth', me)) is False
    v, was_set = final(p, me, 'ns')
    if absent:
        ctx.judge(rule, f'{name}: none', not was_set, 'something is made of a measurement that is not there', None, p)
        return
    nm, renamed = final(p, me, 'name')
    al, ex = domain(p.facts, nm) if nm[0] != 'c' else ({nm[1]}, set())
    if not was_set:
        about = any(has(t, me) for a in p.facts for t in a[1:] if isinstance(t, tuple))
        ctx.judge(rule, f'{name}: namespace', False if not about or p.facts.get(('isnone', me)) is False or p.facts.get(('in', C('measurement'), owner)) else None, 'a measurement is sent without its XML namespace', None, p)
        return
    if al is None and ns is not None and set(ns) <= set(ex):
        ctx.violation(rule, f'{name}: unknown name', 'a measurement with an unknown name is sent', None, p)
        return
    if al is None or v[0] != 'c' or ns is None:
        tab = any(x[0] == 'glob' and x[2] == '_MEASUREMENT_NAMESPACES' for x in subterms(v))
        ctx.judge(rule, f'{name}: namespace', (True if tab and has(v, nm) else None) if v[0] != 'c' else None, 'the namespace is not that of the name', None, p)
        return
    ctx.judge(rule, f'{name}: namespace', all(ns.get(x) == v[1] for x in al - ex), f'the namespace {v[1]} is given to {sorted(map(str, al - ex))}', None, p)


def response(ctx, opaque):
    name = 'oadrDistributeEvent'
    for src, ms in ((DIST, (M,)), (DIST2, (M, P('n')))):
        ps = ctx.probe(MOD, src, opaque=opaque, forget=mention('response_required', 'created_date_time'), keep_event=mentioning('response_required', 'created_date_time'), keep_store=only('response_required', 'created_date_time'),
                       iters=lambda t: 0 if 'signals' in repr(t) else None, max_seconds=60)
        for p in returned(ctx, 'response', name, ps):
            for m in ms:
                v, was_set = final(p, m, 'response_required')
                al, ex = domain(p.facts, I(m, 'response_required'))
                known = al is not None and al - ex <= {'never', 'always'}
                if was_set:
                    before = next((e.facts for e in p.trace if e.kind == 'setitem' and e.args[0] == m and e.args[1] == C('response_required')), {})
                    ctx.judge('response', f'{name}: never kept', might_be(before, m, 'response_required', 'never', v), 'a valid value is changed', None, p)
                    ctx.judge('response', f'{name}: always', v == C('always') or (v == I(m, 'response_required') and known or False if v[0] in ('c', 'item') else None), 'another value is put in', None, p)
                    if known and v != I(m, 'response_required') and not (v[0] == 'c' and al == {v[1]}):
                        before = next((e.facts for e in p.trace if e.kind == 'setitem' and e.args[0] == m and e.args[1] == C('response_required')), {})
                        al2, _ = domain(before, I(m, 'response_required'))
                        ctx.judge('response', f'{name}: kept', not (al2 is not None and al2 <= {'never', 'always'}), 'a valid value is changed', None, p)
                else:
                    about = any('response_required' in repr(a) for a in p.facts)
                    ctx.judge('response', f'{name}: valid', known or (False if al is not None or not about or p.facts.get(('in', C('response_required'), m)) is False or not any(a[0] in ('eq', 'inset', 'in') and a[1] == I(m, 'response_required') for a in p.facts) else None),
                              'an event is sent without a valid response_required', None, p)
                ed = I(m, 'event_descriptor')
                v, was_set = final(p, ed, 'created_date_time')
                now = any(x[0] == 'call' and x[1].split('.')[-1] == 'now' for x in subterms(v))
                if was_set:
                    before = next((e.facts for e in p.trace if e.kind == 'setitem' and e.args[0] == ed), {})
                    there = before.get(('truth', I(ed, 'created_date_time'))) is True
                    ctx.judge('created', f'{name}: now', now or (False if not any(x[0] in ('call', 'o') for x in subterms(v)) else None), 'another time than the current one is put in', None, p)
                    ctx.judge('created', f'{name}: kept', not there, 'a creation time that is there is changed', None, p)
                else:
                    ctx.judge('created', f'{name}: present', p.facts.get(('truth', I(ed, 'created_date_time'))) is True or p.facts.get(('isnone', I(ed, 'created_date_time'))) is False or
                              (False if p.facts.get(('in', C('created_date_time'), ed)) is False or p.facts.get(('truth', I(ed, 'created_date_time'))) is False or not any(has_any(a, I(ed, 'created_date_time')) for a in p.facts) else None),
                              'an event is sent without creation time', None, p)


def might_be(facts, owner, key, value, new):
    """False when owner[key] may be this value before it is replaced by another one."""
    if new == C(value):
        return True
    v = I(owner, key)
    if new == v or facts.get(('in', C(key), owner)) is False:
        return True
    al, ex = domain(facts, v)
    if value in ex or al is not None and value not in al:
        return True
    known = ('inset', 'eq', 'in', 'truth', 'isnone')
    return False if all(a[0] in known and (a[1] == v or a[0] == 'in' and a[2] == owner) for a in facts if has_any(a, v)) and not any(a == ('truth', v) and not x or a == ('isnone', v) and x for a, x in facts.items()) else None


ALLOWED = {('active_period', 'duration'), ('signal', 'current_value'), ('measurement', 'ns'), ('event', 'response_required'), ('event_descriptor', 'created_date_time'), ('event', 'targets')}


def part(t):
    """What part of the message a term is."""
    if t in (M, P('n')):
        return 'event'
    if t[0] == 'item' and t[2][0] == 'c':
        return t[2][1]
    if t[0] == 'elem' and t[1][0] == 'item' and t[1][2][0] == 'c':
        return {'event_signals': 'signal', 'intervals': 'interval', 'reports': 'report', 'report_descriptions': 'description'}.get(t[1][2][1], t[1][2][1])
    return None


def rooted(t, roots):
    while t[0] in ('item', 'elem', 'attr', 'key'):
        t = t[1]
    return t in roots


def changes(p, roots):
    for e in p.trace:
        if e.kind in ('setitem', 'setattr', 'mut', 'del', 'delattr') and e.args and rooted(e.args[0], roots):
            key = e.name if e.kind == 'setattr' else e.args[1][1] if len(e.args) > 1 and e.args[1][0] == 'c' else e.name
            yield e, part(e.args[0]), key


def whole(ctx, opaque):
    """One event with one signal and one interval, everything at once."""
    name = 'oadrDistributeEvent'
    ps = ctx.probe(MOD, DIST, opaque=opaque, forget=lambda a: a[0] == 'isdc', literal_globals=True, max_seconds=100)
    for p in ps or ():
        if p.kind == 'return':
            o = p.obj(p.value) if p.value[0] == 'o' else None
            if o is None or o[0] != 'dict':
                ctx.undecided('dispatch', f'{name}: handed back', 'not a dict made here')
            else:
                d = dict(o[1])
                evs = d.get(C('events'))
                lo = p.obj(evs) if evs is not None and evs[0] == 'o' else None
                ok = lo is not None and list(lo[1]) == [M]
                ctx.judge('dispatch', f'{name}: handed back', ok and C('vtn_id') in d or (None if lo is None and evs is not None else False), 'another message is handed back than the one checked', None, p)
            done = {x for a in p.facts for x in subterms_of(a)}
            ctx.judge('dispatch', f'{name}: checked', True if SIGS in done or counts(p, SIGS) or SIGS in p.state.counts else False, 'the events are not looked at', None, p)
            for e, what, key in changes(p, (M,)):
                ctx.judge('only that', f'{name}: {what}.{key}', (what, key) in ALLOWED and e.kind in ('setitem', 'setattr'), f'{e.kind} {e.name}: the message is changed in a way nothing asks for', e.loc, p)
        elif p.kind == 'raise':
            exc = p.value
            if exc[0] == 'exc' and exc[1] in ('ValueError',):
                ctx.judge('refusals', f'{name}: reason', bool(reason(p)), 'an event is refused that breaks none of the rules', None, p)
            else:
                ctx.judge('refusals', f'{name}: {exc[1] if exc[0] == "exc" else "?"}', None, 'fails otherwise')
    # two signals: a difference is the reason
    ps = ctx.probe(MOD, DIST, opaque=opaque, forget=lambda a: not (any(x in repr(a) for x in ('duration', 'timedelta', 'sum')) or a[0] == 'inset' or a[0] == 'eq' and 'targets' in repr(a)), keep_event=lambda e: False, keep_store=only('duration'), max_iter=2,
                   iters=lambda t: 1 if 'intervals' in repr(t) else None, max_seconds=60)
    for p in ps or ():
        if p.kind == 'raise' and p.value[0] == 'exc' and p.value[1] == 'ValueError':
            ctx.judge('refusals', f'{name}: reason, two signals', bool(reason(p)), 'an event is refused that breaks none of the rules', None, p)


def subterms_of(atom):
    for t in atom[1:]:
        if isinstance(t, tuple) and t and isinstance(t[0], str):
            yield from subterms(t)


def differ(p, ms):
    """Two signals of one event whose durations do not add up to the same."""
    find = union(p.facts)
    terms = {x for a in p.facts if a[0] == 'eq' for x in a[1:3]}
    for m in ms:
        k = counts(p, I(m, 'event_signals'))
        tots = [[x for x in terms if total_of(p, x, sig(m, i), counts(p, I(sig(m, i), 'intervals')))] for i in range(k)]
        for a, v in p.facts.items():
            if a[0] == 'eq' and not v:
                ends = [{i for i in range(k) if any(find(t) == find(x) for t in tots[i])} for x in a[1:3]]
                if any(i != j for i in ends[0] for j in ends[1]):
                    return True
    return False


def reason(p, ms=(M,)):
    for a, v in p.facts.items():
        if v and a[0] != 'ne':
            continue
        r = repr(a)
        if a[0] in ('truth', 'isnone') and any(x[0] == 'call' and x[1].startswith('re.') for x in subterms(a[1])) and 'duration' in r:
            return 'format'
        if a[0] in ('inset', 'in', 'eq') and 'signal_payload' in r:
            return 'payload'
        if a[0] in ('inset', 'in', 'truth') and 'measurement' in r and a[1][0] == 'item' and a[1][2] == C('name'):
            return 'measurement'
        if a[0] == 'eq' and ('targets' in r):
            return 'targets'
    if differ(p, ms):
        return 'durations'
    return None


REG = "def probe(m): return preflight_message('oadrRegisterReport', {'ven_id': v, 'reports': [m]})"
VALID = 'openleadr.utils.validate_report_measurement_dict'


def register(ctx):
    name = 'oadrRegisterReport'
    names = None
    c = ctx.repo.classes.get('openleadr.enums.REPORT_NAME')
    import ast
    if c is not None:
        names = {e.value for e in c.attrs.values() if isinstance(e, ast.Constant)}
    ns = table(ctx, '_MEASUREMENT_NAMESPACES')
    rn = I(M, 'report_name')
    ps = ctx.probe(MOD, REG, opaque={VALID}, forget=mention('report_name'), keep_event=mentioning('report_name'), keep_store=only('report_name'), iters=lambda t: 0 if 'report_descriptions' in repr(t) else None)
    for p in returned(ctx, 'offers', name, ps):
        v, was_set = final(p, M, 'report_name')
        al, ex = domain(p.facts, rn)
        if al is None or names is None:
            known = p.facts.get(('in', rn, None))
            meta = next((x for a, x in p.facts.items() if a[0] == 'truth' and 'startswith' in repr(a)), None)
            del known
            if was_set:
                ctx.judge('offers', f'{name}: prefix', prefixed(v, rn), 'the name is changed otherwise', None, p)
            elif al is None:
                ctx.ok('offers', f'{name}: name', 'not a known report name' if meta is None else 'prefixed')
            continue
        for x in sorted(al - ex):
            if any(a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == '.startswith' and a[1][2][0] == rn and a[1][2][1][0] == 'c' and x.startswith(a[1][2][1][1]) != b for a, b in p.facts.items()):
                continue
            if was_set:
                ctx.judge('offers', f'{name}: prefix', (v == C('METADATA_' + x) or prefixed(v, rn)) and not x.startswith('METADATA'), f'the report {x} is offered under a wrong name', None, p)
            else:
                pre = next((b for a, b in p.facts.items() if a[0] == 'truth' and 'startswith' in repr(a)), None)
                ctx.judge('offers', f'{name}: prefix', x.startswith('METADATA') or pre is True, f'the report {x} is offered without METADATA_', None, p)
    ds = I(M, 'report_descriptions')
    ps = ctx.probe(MOD, REG, opaque={VALID}, forget=mention('measurement'), keep_event=mentioning('measurement'), keep_store=only('measurement', 'ns', 'name'), max_iter=2, max_seconds=60)
    for p in returned(ctx, 'offers', name, ps):
        for k in range(counts(p, ds)):
            d = E(ds, k)
            me = I(d, 'measurement')
            judge_ns(ctx, name, p, d, me, ns, 'offers')
            absent = p.facts.get(('in', C('measurement'), d)) is False or p.facts.get(('isnone', me)) is True or p.facts.get(('truth', me)) is False
            val = [e for e in p.trace if e.kind == 'call' and e.name == VALID and e.args and e.args[0] == me]
            if not absent:
                ctx.judge('offers', f'{name}: measurement checked', bool(val), 'the measurement of an offer is not checked', None, p)
                nss = [i for i, e in enumerate(p.trace) if e.kind == 'setitem' and e.args[0] == me and e.args[1] == C('ns')]
                if val and nss:
                    ctx.judge('offers', f'{name}: checked first', p.trace.index(val[0]) < nss[0], 'the namespace is chosen before the name is corrected', None, p)
        for e, what, key in changes(p, (M,)):
            ctx.judge('only that', f'{name}: {what}.{key}', (what, key) in {('report', 'report_name'), ('event', 'report_name'), ('measurement', 'ns')}, 'the offer is changed in a way nothing asks for', e.loc, p)
    for p in ps or ():
        if p.kind == 'raise' and p.value[0] == 'exc':
            ctx.judge('refusals', f'{name}: {p.value[1]}', bool(reason(p)) if p.value[1] == 'ValueError' else None, 'an offer is refused for no reason', None, p)


def prefixed(v, rn):
    if v[0] == 'bin' and v[1] == '+':
        return v[2] == C('METADATA_') and v[3] == rn
    if v[0] == 'fstr':
        return v[1] == (C('METADATA_'), rn)
    return False if v[0] == 'c' else None


def units(ctx):
    name = 'utils.validate_report_measurement_dict'
    if VALID not in ctx.repo.funcs:
        ctx.undecided('units', name, 'not found')
        return
    desc = table(ctx, '_MEASUREMENT_DESCRIPTIONS')
    nm, de, un = I(M, 'name'), I(M, 'description'), I(M, 'unit')
    if not desc:
        ctx.undecided('units', name, 'no table of descriptions')
        return
    reasons = set()
    for x in sorted(desc):
        power = 'power' in x
        ps = ctx.probe('openleadr.utils', f"def probe(d, u, pa): m = {{'name': {x!r}, 'description': d, 'unit': u, 'power_attributes': pa}}; validate_report_measurement_dict(m); return m")
        d, u = P('d'), P('u')
        for p in ps or ():
            if p.kind == 'return':
                o = p.obj(p.value)
                if o is None or o[0] != 'dict':
                    ctx.undecided('units', name, 'not a dict')
                    continue
                items = dict(o[1])
                fd = items.get(C('description'))
                ok = fd == C(desc[x]) or fd == d and (equal(p.facts, d, C(desc[x])) or any(v and a[0] == 'eq' and {a[1], a[2]} == {d, C(desc[x])} for a, v in p.facts.items()))
                ctx.judge('units', f'{name}: description of {x}', ok or (False if fd in (d, None) or fd[0] == 'c' else None), 'a measurement passes with a description that does not belong to its name', None, p)
                if ok and fd != d and fd != C(desc[x]) or ok and any(not v and a[0] == 'eq' and {a[1], a[2]} == {d, C(desc[x])} for a, v in p.facts.items()):
                    same = any(v and a[0] == 'eq' and has_any(a, d) for a, v in p.facts.items())
                    part = any(v and (a[0] in ('in', 'inset') and has_any(a, d) or a[0] == 'truth' and has_any(a, d)) for a, v in p.facts.items())
                    ctx.judge('units', f'{name}: case of {x}', same or (False if part or not any(has_any(a, d) and v for a, v in p.facts.items()) else None), 'another description is taken for that of the name', None, p)
                ctx.judge('units', f'{name}: name of {x}', items.get(C('name')) == C(x), 'a known name is changed', None, p)
                about = any(has(t, u) for a in p.facts for t in a[1:] if isinstance(t, tuple))
                yes = any(v and a[0] in ('in', 'inset') and a[1] == u for a, v in p.facts.items()) or domain(p.facts, u)[0] is not None
                ctx.judge('units', f'{name}: unit of {x}', yes or (None if about else False), 'a measurement passes with any unit', None, p)
                if yes:
                    cont = next((a[2] for a, v in p.facts.items() if v and a[0] == 'in' and a[1] == u), None)
                    al = domain(p.facts, u)[0]
                    ctx.judge('units', f'{name}: units of {x}', own_units(ctx, x, al, cont), 'the units of another measurement are allowed', None, p)
                if power:
                    keys = {a[1][1] for a, v in p.facts.items() if a[0] == 'in' and v and a[2] == P('pa') and a[1][0] == 'c'}
                    ctx.judge('units', f'{name}: power attributes of {x}', {'voltage', 'ac', 'hertz'} <= keys, 'a power measurement passes without its power attributes', None, p)
                ctx.judge('units', f'{name}: unit kept', items.get(C('unit')) == u, 'the unit is changed', None, p)
            elif p.kind == 'raise' and p.value[0] == 'exc':
                bad = any(not v and (a[0] in ('in', 'inset') or a[0] == 'eq' and (has_any(a, d) or has_any(a, u))) for a, v in p.facts.items())
                reasons.add(p.value[1])
                ctx.judge('units', f'{name}: refused for a reason', bad or None, 'refused', None, p)
        if power:
            ps = ctx.probe('openleadr.utils', f"def probe(d, u): m = {{'name': {x!r}, 'description': d, 'unit': u}}; validate_report_measurement_dict(m); return m")
            for p in ps or ():
                ctx.judge('units', f'{name}: {x} without power attributes', p.kind != 'return', 'a power measurement passes without its power attributes', None, p)
    ps = ctx.probe('openleadr.utils', "def probe(d, u): m = {'name': 'somethingElse', 'description': d, 'unit': u}; validate_report_measurement_dict(m); return m")
    for p in ps or ():
        if p.kind == 'return':
            o = p.obj(p.value)
            ctx.judge('units', f'{name}: unknown names', o is not None and dict(o[1]).get(C('name')) == C('customUnit'), 'a measurement with an unknown name is offered under that name', None, p)
    for keys in (('description', 'unit'), ('name', 'unit'), ('name', 'description')):
        d = ', '.join(f"'{k}': {'x' if k != 'name' else repr('voltage')}" for k in keys)
        ps = ctx.probe('openleadr.utils', f"def probe(x): m = {{{d}}}; validate_report_measurement_dict(m); return m")
        for p in ps or ():
            ctx.judge('units', f'{name}: complete', p.kind == 'raise' and (p.value[0] != 'exc' or p.value[1] == 'ValueError' or None if p.value[1] not in CRASHES else False), 'an incomplete measurement passes' if p.kind != 'raise' else f'an incomplete measurement fails with {p.value[1]}', None, p)


CRASHES = {'KeyError', 'TypeError', 'AttributeError', 'IndexError', 'UnboundLocalError', 'NameError'}
T0, HOUR = '__t', '__hour'


def an_event(**kw):
    signal = {'intervals': [{'dtstart': T0, 'duration': HOUR, 'uid': 0, 'signal_payload': kw.pop('payload', 1)}], 'signal_name': kw.pop('name', 'SIMPLE'), 'signal_type': 'level', 'signal_id': 's'}
    for k in ('current_value', 'measurement'):
        if k in kw:
            signal[k] = kw.pop(k)
    ed = {'event_id': 'e', 'modification_number': 0, 'market_context': 'm', 'event_status': kw.pop('status', 'far'), 'priority': 0, 'test_event': False, 'created_date_time': T0}
    for k in kw.pop('without', ()):
        ed.pop(k)
    return {'event_descriptor': ed, 'active_period': {'dtstart': T0, 'duration': HOUR}, 'event_signals': [signal], **({} if 'targets' in kw or 'targets_by_type' in kw else {'targets': [{'ven_id': 'v'}]}), **({'response_required': 'always'} if 'response_required' not in kw else {}), **{k: v for k, v in kw.items() if v is not None}}


def an_offer(rn, **me):
    d = {'r_id': 'r', 'report_type': 'usage', 'reading_type': 'Direct Read', 'report_subject': None, 'report_data_source': None, 'sampling_rate': None, 'measurement': me or None}
    return {'report_id': 'x', 'report_name': rn, 'report_descriptions': [d]}


def cases():
    """(what, event or offer, [(place, value)] or None when it must be refused, place None: anything)"""
    sg = ('event_signals', 0)
    pa = {'ac': True, 'hertz': 50, 'voltage': 230}
    yield 'event as it should be', an_event(current_value=0), [(sg + ('current_value',), 0), (('response_required',), 'always'), (('targets',), [{'ven_id': 'v'}])]
    yield 'event without current value', an_event(), []
    yield 'current value of a far event', an_event(current_value=2), [(sg + ('current_value',), 0)]
    yield 'current value of an active event', an_event(current_value=2, status='active'), [(sg + ('current_value',), 2)]
    yield 'current value of a near event', an_event(current_value=3, status='near'), [(sg + ('current_value',), 0)]
    yield 'current value of a price', an_event(current_value=2, name='ELECTRICITY_PRICE', payload=0.25), [(sg + ('current_value',), 2)]
    yield 'payload 4', an_event(payload=4), None
    yield 'payload 3', an_event(payload=3), []
    yield 'payload 1.5', an_event(payload=1.5), None
    yield 'no response required', an_event(response_required=None), [(('response_required',), 'always')]
    yield 'response never', an_event(response_required='never'), [(('response_required',), 'never')]
    yield 'response sometimes', an_event(response_required='sometimes'), [(('response_required',), 'always')]
    yield 'no creation time', an_event(without=['created_date_time']), [(('event_descriptor', 'created_date_time'), '__now')]
    yield 'targets by type', an_event(targets_by_type={'ven_id': ['v', 'w']}), [(('targets',), [{'ven_id': 'v'}, {'ven_id': 'w'}])]
    yield 'both targets', an_event(targets=[{'ven_id': 'v'}, {'group_id': 'g'}], targets_by_type={'ven_id': ['v'], 'group_id': ['g']}), [(('targets',), [{'ven_id': 'v'}, {'group_id': 'g'}])]
    yield 'different targets', an_event(targets=[{'ven_id': 'v'}], targets_by_type={'ven_id': ['w']}), None
    yield 'no measurement', an_event(measurement=None), []
    yield 'measurement voltage', an_event(measurement={'name': 'voltage', 'description': 'Voltage', 'unit': 'V', 'scale': 'none'}), [(sg + ('measurement', 'ns'), 'power')]
    yield 'measurement temperature', an_event(measurement={'name': 'temperature', 'description': 'temperature', 'unit': 'celsius', 'scale': 'none'}), [(sg + ('measurement', 'ns'), 'oadr')]
    yield 'measurement foo', an_event(measurement={'name': 'foo', 'description': 'foo', 'unit': 'V', 'scale': 'none'}), None
    m = ('report_descriptions', 0, 'measurement')
    yield 'offer of usage', an_offer('TELEMETRY_USAGE'), [(('report_name',), 'METADATA_TELEMETRY_USAGE')]
    yield 'offer of metadata', an_offer('METADATA_TELEMETRY_STATUS'), [(('report_name',), 'METADATA_TELEMETRY_STATUS')]
    yield 'offer of voltage', an_offer('TELEMETRY_USAGE', name='voltage', description='voltage', unit='V', scale='none'), [(m + ('ns',), 'power'), (m + ('description',), 'Voltage')]
    yield 'offer of power', an_offer('TELEMETRY_USAGE', name='powerReal', description='RealPower', unit='W', scale='k', power_attributes=pa), [(m + ('ns',), 'power'), (m + ('name',), 'powerReal')]
    yield 'offer of power without attributes', an_offer('TELEMETRY_USAGE', name='powerReal', description='RealPower', unit='W', scale='k'), None
    yield 'offer of volts in watts', an_offer('TELEMETRY_USAGE', name='voltage', description='Voltage', unit='W', scale='none'), None
    yield 'offer of volts as energy', an_offer('TELEMETRY_USAGE', name='voltage', description='RealEnergy', unit='V', scale='none'), None
    yield 'offer of something else', an_offer('TELEMETRY_USAGE', name='foo', description='bar', unit='baz', scale='none'), [(m + ('name',), 'customUnit'), (m + ('ns',), 'oadr'), (m + ('unit',), 'baz')]


    obj = ("objects.Event(event_descriptor=objects.EventDescriptor(event_id='e', modification_number=0, market_context='m', event_status=%r, created_date_time='__t'), active_period=objects.ActivePeriod(dtstart='__t', duration='__hour'), "
           "event_signals=[objects.EventSignal(intervals=[objects.Interval(dtstart='__t', duration='__hour', signal_payload=%r)], signal_name='SIMPLE', signal_type='level', signal_id='s', current_value=2)], targets=[objects.Target(ven_id='v')])")
    yield 'event object', obj % ('far', 1), [(('event_descriptor', 'event_id'), 'e'), (sg + ('intervals', 0, 'signal_payload'), 1), (('targets', 0, 'ven_id'), 'v'), (('response_required',), 'always')]
    yield 'event object with payload 4', obj % ('far', 4), None
    yield 'report object', ("objects.Report(report_specifier_id='x', report_name='TELEMETRY_USAGE', report_request_id='q', report_descriptions=[objects.ReportDescription(r_id='r', market_context='m', reading_type='Direct Read', report_subject=None, report_data_source=None, "
                            "report_type='usage', sampling_rate=None, measurement=objects.Measurement(name='voltage', description='Voltage', unit='V', scale='none'))], created_date_time='__t')"), [(('report_name',), 'METADATA_TELEMETRY_USAGE'), (m + ('ns',), 'power'), (m + ('name',), 'voltage')]


def at(v, place):
    for k in place:
        v = (v.get(C(k)) if isinstance(v, dict) else v[k] if isinstance(v, list) and isinstance(k, int) and k < len(v) else None)
        if v is None:
            return None
    return v


def raw(v):
    """Nested lists and dicts of constants as Python values (terms that are not constants stay)."""
    if isinstance(v, list):
        return [raw(x) for x in v]
    if isinstance(v, dict):
        return {raw(k): raw(x) for k, x in v.items()}
    return v[1] if v is not None and v[0] == 'c' else v


def examples(ctx):
    for what, m, want in cases():
        src = (m if isinstance(m, str) else repr(m)).replace(repr(T0), 't').replace(repr(HOUR), 'h')
        imp = 'from openleadr import objects; ' if isinstance(m, str) else ''
        mt, key = ('oadrDistributeEvent', 'events') if 'event_signals' in m else ('oadrRegisterReport', 'reports')
        ps = ctx.probe(MOD, f"def probe(t, h): {imp}return preflight_message('{mt}', {{'{key}': [{src}], 'vtn_id': 'v', 'request_id': 'r'}})", opaque={'openleadr.utils.parse_duration', 'openleadr.utils.determine_event_status'}, max_seconds=20, post_init=isinstance(m, str))
        for p in ps or ():
            if p.facts.get(('truth', P('t'))) is False or p.facts.get(('truth', P('h'))) is False or p.facts.get(('isnone', P('t'))) or p.facts.get(('isnone', P('h'))):
                continue
            if p.kind == 'raise' and p.value[0] == 'exc':
                if any(x in (P('t'), P('h')) for a in p.facts for x in subterms_of(a)) and p.value[1] not in CRASHES:
                    continue
                ctx.judge('examples', what, False if p.value[1] in CRASHES else want is None if p.value[1] == 'ValueError' else None,
                          f'it cannot be sent ({p.value[1]})', None, p)
            elif p.kind == 'return':
                if want is None:
                    ctx.judge('examples', what, False, 'it is sent, although it breaks a rule', None, p)
                    continue
                v = plain(p, p.value, 12)
                base = at(v, (key, 0)) if isinstance(v, dict) else None
                if base is None:
                    ctx.undecided('examples', what, 'not a message')
                    continue
                ctx.ok('examples', what, 'passes')
                top = raw(at(v, ('vtn_id',))), raw(at(v, ('request_id',)))
                ctx.judge('examples', f'{what}: rest', None if at(v, ('vtn_id',)) is None and ('vtn_id' in str(v)) else top == ('v', 'r'), f'vtn_id and request_id become {top}', None, p)
                for place, x in want:
                    g = at(base, place)
                    if x == '__now':
                        ctx.judge('examples', f'{what}: {place[-1]}', False if g is None or g[0] in ('c', 'p') else None if 'now' not in repr(g) else True, f'{place[-1]} is not the current time', None, p)
                        continue
                    y = raw(g)
                    ctx.judge('examples', f'{what}: {place[-1]}', None if g is not None and y != x and not known_only(g) else y == x, f'{place[-1]} is {y!r}, not {x!r}', None, p)


def has_any(a, t):
    return any(isinstance(x, tuple) and x and isinstance(x[0], str) and has(x, t) for x in a[1:])


def own_units(ctx, x, allowed, cont):
    import ast
    m = ctx.repo.modules['openleadr.enums']
    e = (m.globals.get('_ACCEPTABLE_UNITS') or [None])[0]
    if not isinstance(e, ast.Dict):
        return None
    val = next((v for k, v in zip(e.keys, e.values) if isinstance(k, ast.Constant) and k.value == x), None)
    want = None
    try:
        want = set(ast.literal_eval(val))
    except (ValueError, TypeError):
        if isinstance(val, ast.Name):
            g = m.globals.get(val.id, [])
            if len(g) == 1:
                try:
                    want = set(ast.literal_eval(g[0]))
                except (ValueError, TypeError):
                    return None
    if allowed is not None and want is not None:
        return set(allowed) <= want
    return True if cont is not None and allowed is None and show(cont) else None


UTILS = 'openleadr.utils'


def plain(p, t, depth=6):
    """A value made on the path as Python lists and dicts of terms."""
    if t[0] == 'o' and depth:
        o = p.obj(t)
        if o is not None and o[0] == 'list':
            return [plain(p, x, depth - 1) for x in o[1]]
        if o is not None and o[0] == 'dict' and not o[2]:
            return {k: plain(p, v, depth - 1) for k, v in o[1]}
        if o is not None and o[0] == 'inst':
            return {C(k): plain(p, v, depth - 1) for k, v in dict(o[2]).items()} if isinstance(o[2], tuple) else None
        return None
    if t[0] == 't':
        return [plain(p, x, depth - 1) for x in t[1]]
    return t


def known_only(v):
    if isinstance(v, list):
        return all(known_only(x) for x in v)
    if isinstance(v, dict):
        return all(known_only(x) for x in v.values()) and all(k[0] == 'c' for k in v)
    return v is not None and v[0] in ('p', 'c')


def C19(ctx):
    ctx.rule('group', 'targets_by_type lists, for every target type, the values of that type in the order of the targets; members that are None do not count')
    ctx.rule('ungroup', 'the targets made of targets_by_type are one target for every value of every type, in order')
    ctx.rule('message', 'a received target gives the same targets and targets_by_type, whether it has one or more values of a type')
    ctx.rule('event', 'an Event has targets or targets_by_type; the missing one is made of the other; both are accepted only when they agree')
    ctx.rule('preflight', 'an event that is sent has targets; both are accepted only when they agree; the targets given are kept')
    a, b, c, d = P('a'), P('b'), P('c'), P('d')
    ven, grp, par = C('ven_id'), C('group_id'), C('party_id')
    name = f'{UTILS}.group_targets_by_type'
    ps = ctx.probe(UTILS, "def probe(a, b, c, d): return group_targets_by_type([{'ven_id': a, 'group_id': b}, {'ven_id': c}, {'party_id': d}])")
    for p in ps or ():
        if p.kind != 'return':
            ctx.judge('group', f'{name}: fails', False if p.kind == 'raise' else None, 'fails on valid targets', None, p)
            continue
        got = plain(p, p.value)
        want = {}
        unsure = set()
        for k, v in ((ven, a), (grp, b), (ven, c), (par, d)):
            if p.facts.get(('isnone', v)) is True:
                continue
            if p.facts.get(('truth', v)) is False:
                unsure.add(v)
            elif p.facts.get(('isnone', v)) is None and p.facts.get(('truth', v)) is None:
                ctx.judge('group', f'{name}: None', None if any(has_any(x, v) for x in p.facts) else False, 'members of a target that are None count as targets', None, p)
            want.setdefault(k, []).append(v)
        ok = got == want
        ctx.judge('group', f'{name}: groups', ok or (None if unsure or not known_only(got) else False), 'the targets are grouped otherwise', None, p)
    ps = ctx.probe(UTILS, "def probe(): return group_targets_by_type([{'ven_id': 'a', 'group_id': None}, {'ven_id': 'b'}, {'party_id': 'c', 'ven_id': 'b'}, {'ven_id': '', 'group_id': None}])")
    for p in ps or ():
        got = plain(p, p.value) if p.kind == 'return' else None
        ctx.judge('group', f'{name}: example', got == {ven: [C('a'), C('b'), C('b'), C('')], par: [C('c')]} or (None if got is not None and not known_only(got) else False), 'the targets are grouped otherwise', None, p)
    name = f'{UTILS}.ungroup_targets_by_type'
    ps = ctx.probe(UTILS, "def probe(a, b, c): return ungroup_targets_by_type({'ven_id': [a, b], 'group_id': [c], 'party_id': 'x', 'resource_id': []})")
    for p in ps or ():
        got = plain(p, p.value) if p.kind == 'return' else None
        want = [{ven: a}, {ven: b}, {grp: c}, {par: C('x')}]
        ctx.judge('ungroup', f'{name}: targets', got == want or (None if got is not None and not known_only(got) else False), 'the targets made are not those of targets_by_type', None, p)
    message(ctx)
    event(ctx)
    pre_targets(ctx)


def message(ctx):
    name = f'{UTILS}.normalize_dict'
    ven, grp = C('ven_id'), C('group_id')
    for key in ('target', 'ei:eiTarget', 'eiTarget'):
        if ':' in key:
            continue
        for src, want, by in ((f"{{'{key}': {{'venID': ['va', 'vb'], 'groupID': 'gc'}}}}", [{ven: C('va')}, {ven: C('vb')}, {grp: C('gc')}], {ven: [C('va'), C('vb')], grp: [C('gc')]}),
                              (f"{{'{key}': {{'venID': 'va'}}}}", [{ven: C('va')}], {ven: [C('va')]})):
            ps = ctx.probe(UTILS, f'def probe(): return normalize_dict({src})')
            for p in ps or ():
                got = plain(p, p.value) if p.kind == 'return' else None
                if got is None:
                    ctx.undecided('message', f'{name}: {key}', 'not followed')
                    continue
                ok = got == {C('targets'): want, C('targets_by_type'): by}
                ctx.judge('message', f'{name}: targets', ok or (None if not known_only(got) else False), 'the targets of a message are read otherwise', None, p)


OBJECTS = (('Event', 'event_descriptor=d, event_signals=s, active_period=ap', True, True),
           ('EventSignal', "intervals=i, signal_name='SIMPLE', signal_type='level', signal_id=x", False, False),
           ('Opt', "opt_type='optIn', opt_reason='economic', event_id='e'", True, True))


def event(ctx):
    worked(ctx)
    for cname, rest, needed, both in OBJECTS:
        one_object(ctx, 'openleadr.objects.' + cname, cname, rest, needed, both)


A, B = "{'ven_id': 'a'}", "{'ven_id': 'b'}"
G, TA = "{'group_id': 'g'}", "Target(ven_id='a')"
FORMS = (      # targets, targets_by_type, refused, targets afterwards, targets_by_type afterwards
    (f"[{A}]", None, False, [{'ven_id': 'a'}], {'ven_id': ['a']}),
    (f"[{TA}]", None, False, [{'ven_id': 'a'}], {'ven_id': ['a']}),
    (f"[{A}, {B}]", None, False, [{'ven_id': 'a'}, {'ven_id': 'b'}], {'ven_id': ['a', 'b']}),
    (None, "{'ven_id': ['a', 'b']}", False, [{'ven_id': 'a'}, {'ven_id': 'b'}], {'ven_id': ['a', 'b']}),
    (f"[{A}]", "{'ven_id': ['a']}", False, [{'ven_id': 'a'}], {'ven_id': ['a']}),
    (f"[{TA}, {B}]", "{'ven_id': ['a', 'b']}", False, [{'ven_id': 'a'}, {'ven_id': 'b'}], {'ven_id': ['a', 'b']}),
    (f"[{A}]", "{'ven_id': ['b']}", True, None, None),
    (f"[{TA}]", "{'ven_id': ['a', 'b']}", True, None, None),
    (f"[{A}, {B}]", "{'ven_id': ['b', 'a', 'c']}", True, None, None),
    (f"[{A}]", "{'group_id': ['a']}", True, None, None),
    (f"[{A}, {G}]", None, 'types', [{'ven_id': 'a'}, {'group_id': 'g'}], {'ven_id': ['a'], 'group_id': ['g']}),
    (None, "{'ven_id': ['a'], 'group_id': ['g']}", 'types', [{'ven_id': 'a'}, {'group_id': 'g'}], {'ven_id': ['a'], 'group_id': ['g']}),
    (f"[{A}, {G}]", "{'ven_id': ['a'], 'group_id': ['g']}", 'types', [{'ven_id': 'a'}, {'group_id': 'g'}], {'ven_id': ['a'], 'group_id': ['g']}),
)


def given(v):
    """Lists and dicts as Python values; the members of a target that are None are left out."""
    v = raw(v)
    return [{k: y for k, y in x.items() if y != 'None' and y is not None} if isinstance(x, dict) else x for x in v] if isinstance(v, list) else v


def worked(ctx):
    for cname, rest, needed, both in OBJECTS:
        for t, b, refused, ta, ba in FORMS:
            args = ', '.join([f'targets={t}'] * (t is not None) + [f'targets_by_type={b}'] * (b is not None))
            what = f'{cname}({args})'
            no = refused is True or refused == 'types' and not both
            ps = ctx.probe('openleadr.objects', f'def probe(d, s, ap, i, x): return {cname}({rest}, {args})', post_init=True, opaque={'openleadr.utils.determine_event_status'}, max_iter=1)
            for p in ps or ():
                if p.facts.get(('isnone', P('ap'))) is True or p.kind not in ('return', 'raise'):
                    continue
                if p.kind == 'raise':
                    known = p.value[0] == 'exc'
                    ctx.judge('event', what, (p.value[1] == 'ValueError' if no else False) if known else None, f'fails with {p.value[1]}' if no else 'an object with valid targets is refused', None, p)
                    continue
                if no:
                    ctx.judge('event', what, False, 'an object with targets that do not agree is accepted' if refused is True else 'a signal with targets of several types is accepted', None, p)
                    continue
                o = p.obj(p.value)
                at = {k: plain(p, v) for k, v in dict(o[2]).items()} if o is not None and o[0] == 'inst' and isinstance(o[2], tuple) else None
                if at is None:
                    ctx.undecided('event', what, 'not an object made here')
                    continue
                g = given(at.get('targets'))
                ctx.judge('event', f'{what}: targets', g == ta or (None if not isinstance(g, list) and g is not None else False), f'targets is {str(g)[:100]}', None, p)
                if both or b is not None:
                    g = given(at.get('targets_by_type'))
                    ctx.judge('event', f'{what}: targets_by_type', g == ba or (None if not isinstance(g, dict) and g is not None else False), f'targets_by_type is {str(g)[:100]}', None, p)


def one_object(ctx, EVENT, cname, rest, needed, both):
    cls = ctx.repo.classes.get(EVENT)
    if cls is None:
        ctx.undecided('event', EVENT, 'not found')
        return
    ts, bt = P('t'), P('b')
    for args in ('', 'targets=t', 'targets_by_type=b', 'targets=t, targets_by_type=b'):
        ps = ctx.probe('openleadr.objects', f'def probe(d, s, t, b, ap, i, x): return {cname}({rest}, {args})', post_init=True,
                       opaque={GROUP, UNGROUP, 'openleadr.utils.determine_event_status'}, forget=mention("'t'", "'b'", 'targets'), max_iter=2)
        for p in ps or ():
            if p.facts.get(('isnone', P('ap'))) is True:
                continue
            tn = 'targets=t' not in args or p.facts.get(('isnone', ts)) is True
            bn = 'targets_by_type' not in args or p.facts.get(('isnone', bt)) is True
            if p.kind == 'raise':
                if p.value[0] == 'exc' and p.value[1] == 'ValueError':
                    if tn and bn:
                        ctx.judge('event', f'{EVENT}: neither', needed, 'an object without targets is refused', None, p)
                    elif not both and several_types(p, bt):
                        ctx.ok('event', f'{EVENT}: more than one type of target')
                    elif tn or bn:
                        fal = [x for x in ((ts, tn), (bt, bn)) if not x[1] and p.facts.get(('truth', x[0])) is False]
                        ctx.judge('event', f'{EVENT}: refused', None if fal else False, 'an event with valid targets is refused', None, p)
                    else:
                        cmp = [v for a, v in p.facts.items() if a[0] == 'eq' and grouped_eq(p, a, ts, bt)]
                        ctx.judge('event', f'{EVENT}: refused', None if not cmp else cmp[-1] is False, 'targets that agree are refused', None, p)
                continue
            if p.kind != 'return':
                continue
            o = p.obj(p.value)
            at = dict(o[2]) if o is not None and o[0] == 'inst' and isinstance(o[2], tuple) else None
            if at is None:
                ctx.undecided('event', EVENT, 'not an object made here')
                continue
            t, b = at.get('targets'), at.get('targets_by_type')
            if tn and bn:
                ctx.judge('event', f'{EVENT}: neither', not needed, 'an event without targets is accepted', None, p)
            elif bn:
                ctx.judge('event', f'{EVENT}: targets kept', t == ts or (None if t is None else False), 'the targets given are changed', None, p)
                ctx.judge('event', f'{EVENT}: targets_by_type', made_of(p, b, GROUP, ts) if both or b not in (None, NONE, bt) else True, 'targets_by_type is not made of the targets', None, p)
            elif tn:
                ctx.judge('event', f'{EVENT}: targets_by_type kept', b == bt or (None if b is None else False), 'the targets_by_type given is changed', None, p)
                ctx.judge('event', f'{EVENT}: targets', made_of(p, t, UNGROUP, bt), 'the targets are not made of targets_by_type', None, p)
            else:
                ctx.judge('event', f'{EVENT}: both kept', (t == ts and b == bt) or (None if t is None or b is None else False), 'the targets given are changed', None, p)
                cmp = [v for a, v in p.facts.items() if a[0] == 'eq' and grouped_eq(p, a, ts, bt)]
                ctx.judge('event', f'{EVENT}: agree', (cmp[-1] is True) if cmp else otherwise_compared(p, bt),
                          'targets and targets_by_type that do not agree are accepted', None, p)


def several_types(p, bt):
    """Whether the path has found more than one type among the targets."""
    return any(('group_targets' in repr(a) and not (a[0] == 'eq' and bt in a[1:]) or has_any(a, ('call', 'len', (bt,), (), 0))) and (a[0] in ('lt', 'gt', 'le', 'ge', 'cmp', 'eq') or 'len' in repr(a)) for a in p.facts)


def otherwise_compared(p, bt):
    """targets_by_type is accepted without comparing it to the grouped targets: None when it is compared to something unknown."""
    about = [a for a in p.facts if has_any(a, bt) and a[0] != 'isnone' and not (a[0] == 'in' and a[2] != bt and a[1] != bt)]
    for a in about:
        if a[0] == 'eq' and bt in a[1:3]:
            y = a[2] if a[1] == bt else a[1]
            if y[0] == 'call' and y[1] == GROUP:
                continue       # the wrong targets are compared
        if a[0] == 'eq' and all(x[0] == 'call' and x[1] in ('list', 'set', 'len', 'sorted', '.keys') for x in a[1:3]):
            continue           # only a part is compared
        if a[0] in ('lt', 'eq') and all(x[0] == 'c' or x == ('call', 'len', (bt,), (), 0) for x in a[1:3]):
            continue           # only their number counts
        if a[0] in ('truth', 'in', 'inset'):
            continue
        return None
    return False


def calls_in(p, t, name):
    return [x for x in leaves(p, t) if x[0] == 'call' and x[1] == name]


def made_of(p, t, fn, src):
    """Is t made by fn from src?  An empty list is fine when src has no elements on this path."""
    if t is None:
        return None
    o = p.obj(t) if t[0] == 'o' else None
    if o is not None and o[0] == 'list' and fn == UNGROUP:
        for c in p.state.counts:
            if c[0] == 'call' and c[1] == fn and c[2] and c[2][0] == src:
                n = counts(p, c)
                return len(o[1]) == n and all(E(c, i) in leaves(p, x) for i, x in enumerate(o[1]))
        if any(c[0] == 'slice' and c[1][0] == 'call' and c[1][1] == fn for c in p.state.counts):
            return False       # only a part of them
    cs = calls_in(p, t, fn)
    for c in cs:
        g = p.obj(c[2][0]) if c[2] and c[2][0][0] == 'o' else None
        if fn == GROUP and g is not None and g[0] == 'list' and src in p.state.counts:
            return len(g[1]) == counts(p, src) and all(E(src, i) in leaves(p, x) for i, x in enumerate(g[1]))
    if any(any(has(x, src) for x in leaves(p, c[2][0])) or src == c[2][0] or empty_of(p, c[2][0], src) for c in cs if c[2]):
        return True
    if t == NONE or t[0] in ('p', 'c'):
        return False
    if t[0] == 'o':
        o = p.obj(t)
        if o is not None and o[0] in ('list', 'dict') and not o[1] and any(counts(p, x) == 0 and x in p.state.counts and (x == src or x[0] == 'call' and x[1] == fn) for x in p.state.counts):
            return True
    return None


def empty_of(p, t, src):
    o = p.obj(t) if t[0] == 'o' else None
    return o is not None and not o[1] and p.state.counts.get(src) == 0


def grouped_eq(p, a, ts, bt):
    return any(x == bt and made_of(p, y, GROUP, ts) for x, y in ((a[1], a[2]), (a[2], a[1])))


def pre_targets(ctx):
    name = 'oadrDistributeEvent'
    ts, bt = I(M, 'targets'), I(M, 'targets_by_type')
    for src, ms in ((DIST, (M,)), (DIST2, (M, P('n')))):
        ps = ctx.probe(MOD, src, opaque={GROUP, UNGROUP, f'{UTILS}.parse_duration'}, forget=mention('targets'), keep_event=mentioning('targets'), keep_store=only('targets', 'targets_by_type'), iters=lambda t: 0 if 'signals' in repr(t) else None)
        for p in ps or ():
            if p.kind == 'raise':
                if p.value[0] == 'exc' and p.value[1] == 'ValueError':
                    ok = any(any(a[0] == 'eq' and not v and grouped_eq(p, a, I(m, 'targets'), I(m, 'targets_by_type')) for a, v in p.facts.items()) for m in ms)
                    ctx.judge('preflight', f'{name}: refused', ok or (None if 'targets' in repr(list(p.facts)) else True), 'an event is refused although its targets agree', None, p)
                continue
            if p.kind != 'return':
                continue
            for m in ms:
                ts, bt = I(m, 'targets'), I(m, 'targets_by_type')
                hast, hasb = p.facts.get(('in', C('targets'), m)), p.facts.get(('in', C('targets_by_type'), m))
                t, set_t = final(p, m, 'targets')
                before = next((e.facts for e in p.trace if e.kind == 'setitem' and e.args[0] == m and e.args[1] == C('targets')), p.facts)
                hast = before.get(('in', C('targets'), m))
                if set_t:
                    ctx.judge('preflight', f'{name}: targets kept', hast is False or before.get(('isnone', ts)) is True or (None if hast is None else False), 'the targets of an event are replaced', None, p)
                    ctx.judge('preflight', f'{name}: targets made', made_of(p, t, UNGROUP, bt), 'the targets are not those of targets_by_type', None, p)
                elif hast is False or hast is None:
                    ctx.judge('preflight', f'{name}: targets missing', hasb is False or (False if hasb is True and hast is False or not any('targets' in repr(a) for a in p.facts) else None), 'an event with only targets_by_type is sent without targets', None, p)
                elif hasb is not False:
                    cmp = [v for a, v in p.facts.items() if a[0] == 'eq' and grouped_eq(p, a, ts, bt)]
                    ctx.judge('preflight', f'{name}: agree', (cmp[-1] is True) if cmp else (None if hasb is None else otherwise_compared(p, bt)), 'targets and targets_by_type that do not agree are sent', None, p)
                if final(p, m, 'targets_by_type')[1]:
                    ctx.undecided('preflight', f'{name}: targets_by_type', 'changed')


CHECKS = {'C18': C18, 'C19': C19}
_ = NONE
