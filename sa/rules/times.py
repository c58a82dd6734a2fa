"""Event status by time, order of events, handling of naive datetimes."""
from ..interp import P, A, I, E, C, NONE, State, show, subterms
from ..lin import lin, add, upper, NOW, lt_forms
from ..q import has, value, truthy

STATUS = 'openleadr.utils.determine_event_status'
SERVER = 'openleadr.server.OpenADRServer'
SELF = P('self')


def entails_lt(facts, form, strict):
    """Do the facts imply form < 0 (strict) or form <= 0?"""
    if set(form) <= {1}:
        k = form.get(1, 0)
        return k < 0 or (not strict and k <= 0)
    u = upper(facts, form)
    if u is None:
        return False
    k, st = u
    return k < 0 or (k == 0 and (st or not strict))


def positive(facts, d):
    """Do the facts imply duration d > 0 / d <= 0?  (True/False/None)"""
    neg = {t: -c for t, c in lin(d).items()}
    if entails_lt(facts, neg, True):
        return True
    if entails_lt(facts, lin(d), False):
        return False
    v = truthy(facts, d)
    if v is False:
        return False
    for a, val in facts.items():
        if a[0] == 'eq' and d in a[1:3] and (C(0) in a[1:3] or any(x[0] == 'call' and x[1] == 'datetime.timedelta' and not x[2] and not x[3] for x in a[1:3])):
            return False if val else None
    return None


def C16(ctx):
    ctx.rule('status-by-time', 'on every path of determine_event_status the conditions taken imply the status returned: '
             'completed iff now >= start + duration and duration > 0; active iff now >= start and not completed; near iff '
             'now < start, a ramp-up period is given and now >= start - ramp-up; far otherwise')
    f = ctx.repo.need_func(STATUS)
    ap = P(f.node.args.args[0].arg)
    loc = (f.file, f.qual, f.node.lineno)
    S, D, R = I(ap, 'dtstart'), I(ap, 'duration'), I(ap, 'ramp_up_period')
    name = 'determine_event_status'
    seen = set()
    for p in ctx.run(f) or ():
        if p.kind != 'return':
            continue
        F = p.facts
        now, s, d, r = {NOW: 1}, lin(S), lin(D), lin(R)
        started = entails_lt(F, add(s, now, -1), False)              # S - N <= 0
        unstarted = entails_lt(F, add(now, s, -1), True)             # N - S < 0
        end = add(s, d)
        past = entails_lt(F, add(end, now, -1), False)
        before_end = entails_lt(F, add(now, end, -1), True)
        pos = positive(F, D)
        norr = F.get(('isnone', R)) is True or F.get(('in', C('ramp_up_period'), ap)) is False or F.get(('truth', R)) is False
        # a duration of zero or less says nothing about the end
        ramp = entails_lt(F, add(add(s, r, -1), now, -1), False)     # S - R <= N
        noramp = entails_lt(F, add(now, add(s, r, -1), -1), True)
        if pos is True and past:
            started = True                                           # S < S + D <= N
        if p.value[0] != 'c':
            ctx.undecided('status-by-time', name, f'returns {show(p.value)}')
            continue
        st = p.value[1]
        want = {'completed': past and pos is True,
                'active': started and (before_end or pos is False),
                'near': unstarted and not norr and ramp,
                'far': unstarted and (norr or noramp)}
        if st not in want:
            ctx.violation('status-by-time', f'{name}: value', f'returns {st!r}, which is not a status it may return', loc, p)
            continue
        seen.add(st)
        odd = [a for a in F if a[0] not in ('lt', 'isnone', 'in', 'truth', 'eq', 'isinst', 'isdc', 'hasattr')]
        ctx.judge('status-by-time', f'{name}: {st}', True if want[st] else (None if odd else False),
                  f'{st!r} is returned where the conditions checked do not imply it', loc, p)
    for st in ('completed', 'active', 'near', 'far'):
        ctx.judge('status-by-time', f'{name}: {st} reachable', st in seen or (None if not seen else False),
                  f'{st!r} is never returned', loc)
    naive(ctx, f, ap, S)
    order_status(ctx)


def naive(ctx, f, ap, S):
    ctx.rule('aware', 'a start time without time zone is made aware before it is compared with the current time')
    n = 0
    for p in ctx.run(f) or ():
        for a in p.facts:
            if a[0] != 'lt':
                continue
            for t in a[1:]:
                for x in subterms(t):
                    if x == S:
                        n += 1
                        known = p.facts.get(('isnone', A(S, 'tzinfo')))
                        wrapped = all(has_wrapped(t, S) for t in a[1:] if has(t, S))
                        ctx.judge('aware', 'determine_event_status: comparison', known is False or wrapped or
                                  (None if any(has(y, A(S, 'tzinfo')) for b in p.facts for y in b[1:] if isinstance(y, tuple) and y
                                               and isinstance(y[0], str)) else False),
                                  'the start time may be naive when it is compared', (f.file, f.qual, f.node.lineno), p)
    ctx.judge('aware', 'determine_event_status: comparisons', True if n else None, 'no comparison seen', detail=f'{n}')


def has_wrapped(t, S):
    """Every occurrence of S in t is inside an astimezone/replace(tzinfo=) call."""
    if t == S:
        return False
    if t[0] == 'call' and t[1] in ('.astimezone', '.replace'):
        return True
    from ..interp import subterms as sub  # noqa: F401
    kids = []
    if t[0] == 'bin':
        kids = [t[2], t[3]]
    elif t[0] == 'call':
        kids = list(t[2]) + [v for _, v in t[3]]
    elif t[0] == 'un':
        kids = [t[2]]
    elif t[0] in ('item', 'attr', 'elem'):
        kids = [t[1]]
    return all(has_wrapped(k, S) for k in kids if has(k, S))


def order_status(ctx):
    """order_events gives every event that is not cancelled its status of this moment."""
    ctx.rule('status-current', 'order_events stores the current status in every event that is not cancelled, leaves '
             'cancelled events alone, and changes nothing else than the status and the creation time')
    f = ctx.repo.need_func('openleadr.utils.order_events')
    evs = P(f.node.args.args[0].arg)
    loc = (f.file, f.qual, f.node.lineno)
    n = 0
    for p in run_order(ctx, f, evs, 1) or ():
        if p.kind != 'return' or p.state.counts.get(evs) != 1:
            continue
        ev = E(evs, 0)
        desc = I(ev, 'event_descriptor')
        stt = I(desc, 'event_status')
        canc = p.facts.get(('eq', stt, C('cancelled')))
        new = p.state.store.get((desc, 'i', C('event_status')))
        calls = [e for e in p.trace if e.kind == 'call' and e.name == STATUS]
        if canc:
            ctx.judge('status-current', 'order_events: cancelled event', new is None,
                      'the status of a cancelled event is overwritten', loc, p)
            continue
        if canc is None:
            ctx.judge('status-current', 'order_events: cancelled check', None if new is None else False,
                      'the status is overwritten without looking whether the event is cancelled', loc, p)
            continue
        n += 1
        res = [x for a in p.facts for t in a[1:] if isinstance(t, tuple) and t and isinstance(t[0], str) for x in subterms(t)
               if x[0] == 'call' and x[1] == STATUS]
        if new is not None:
            ctx.judge('status-current', 'order_events: status', new[0] == 'call' and new[1] == STATUS and
                      new[2] == (I(ev, 'active_period'),), f'the status becomes {show(new)}', loc, p)
        else:
            same = any(a[0] == 'eq' and v and stt in a[1:3] and any(x[0] == 'call' and x[1] == STATUS for x in a[1:3])
                       for a, v in p.facts.items())
            ctx.judge('status-current', 'order_events: status kept', same,
                      'an event keeps a status that is not known to be the current one', loc, p)
        del calls, res
    ctx.judge('status-current', 'order_events: paths', True if n else None, 'no path', detail=f'{n}')


def run_order(ctx, f, evs, k):
    st = State()
    st.fact(('isnone', evs), False)
    st.fact(('isinst', evs, ('Event',)), False)
    st.fact(('isinst', evs, ('dict',)), False)
    for i in range(k):
        st.fact(('in', C('event_descriptor'), E(evs, i)), True)
    return ctx.run(f, init=st, sort_model=True, max_iter=max(k, 1), opaque={STATUS})


def tri_and(*xs):
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True


def tri_or(*xs):
    if any(x is True for x in xs):
        return True
    return None if any(x is None for x in xs) else False


def tri_not(x):
    return None if x is None else not x


def C17(ctx):
    ctx.rule('order', 'for any two events of a list, the order of the result agrees with: active before not active; among '
             'active ones the smaller priority number first (0 or none last), then the earlier start; among the others the '
             'earlier start. Sorts are followed through their key functions; the comparisons made must imply the order. '
             'Sorts and filters treat a list pairwise, so two events suffice')
    ctx.rule('permutation', 'the result holds exactly the given events, and is not the list of the caller')
    f = ctx.repo.need_func('openleadr.utils.order_events')
    evs = P(f.node.args.args[0].arg)
    loc = (f.file, f.qual, f.node.lineno)
    name = 'order_events'
    n = 0
    for p in run_order(ctx, f, evs, 2) or ():
        if p.kind != 'return':
            continue
        k = p.state.counts.get(evs)
        if k is None:
            ctx.judge('permutation', f'{name}: copy', None if p.value != evs else False,
                      'the list of the caller itself is returned, so taking events out of it while iterating skips events', loc, p)
            continue
        if p.value == evs:
            ctx.violation('permutation', f'{name}: copy', 'the list of the caller itself is returned, so taking events out of it '
                          'while iterating skips events', loc, p)
            continue
        limit = [a for a, v in p.facts.items() if a[0] == 'truth' and v and a[1][0] == 'p' and a[1] != evs]
        if limit:
            continue
        o = p.obj(p.value)
        if o is None or o[0] != 'list' or o[2]:
            t = p.value
            while t[0] == 'call' and t[1] in ('list', 'tuple', '.copy') and t[2]:
                t = t[2][0]
            ctx.judge('permutation', f'{name}: result', True if t == evs and k < 2 else None, f'result {show(p.value)}')
            continue
        items = list(o[1])
        want = [E(evs, i) for i in range(k)]
        ctx.judge('permutation', f'{name}: same events', sorted(map(repr, items)) == sorted(map(repr, want)),
                  f'{k} given events come out as {[show(x) for x in items]}', loc, p)
        if len(items) != 2 or k != 2:
            continue
        n += 1
        x, y = items
        v = precedes(p, y, x)
        odd = None
        if v is None:
            odd = [a for a in p.facts if a[0] == 'lt' and not all(plain(t) for t in a[1:])] or \
                  [a for a in p.facts if a[0] in ('truth', 'eq', 'inset') and any(
                      isinstance(t, tuple) and t and isinstance(t[0], str) and t[0] == 'call' and t[1] not in (STATUS, 'len') for t in a[1:])]
        ctx.judge('order', f'{name}: order of two events', True if v is False else (None if odd else False),
                  'two events come out in an order that the comparisons made do not justify: '
                  + ('the second belongs before the first' if v else 'nothing that was compared says that the second does not belong before the first'),
                  loc, p)
    ctx.judge('order', f'{name}: paths', True if n else None, 'no path with two events', detail=f'{n}')
    many(ctx)
    used(ctx)


def many(ctx):
    """All events of a long list come out, in the order they have to."""
    name = 'order_events'
    for n in (2, 7, 40, 120):
        each = ', '.join("{'id': %d, 'event_descriptor': {'event_status': 'cancelled'}, 'active_period': {'dtstart': a}}" % i for i in range(n))
        for p in ctx.probe('openleadr.utils', f'def probe(a): return order_events([{each}])') or ():
            o = p.obj(p.value) if p.kind == 'return' else None
            if p.kind == 'raise' and p.value[0] == 'exc':
                ctx.judge('permutation', f'{name}: {n} events', False, f'fails with {p.value[1]} for {n} cancelled events', None, p)
                continue
            if o is None or o[0] != 'list' or o[2]:
                ctx.undecided('permutation', f'{name}: {n} events', f'result {show(p.value)}')
                continue
            ids = sorted(v[1] for v in (value(p, x, 'id') for x in o[1]) if v is not None and v[0] == 'c')
            ctx.judge('permutation', f'{name}: {n} events', ids == list(range(n)) or (None if len(ids) != len(o[1]) else False), f'{n} cancelled events come out as {len(ids)} events', None, p)


def plain(t):
    return t[0] == 'c' or t[0] == 'item'


def status_of(p, ev):
    d = I(ev, 'event_descriptor')
    return p.state.store.get((d, 'i', C('event_status')), I(d, 'event_status'))


def is_active(p, ev):
    t = status_of(p, ev)
    if t[0] == 'c':
        return t[1] == 'active'
    from ..q import domain
    al, ex = domain(p.facts, t)
    if al is not None:
        if al == {'active'}:
            return True
        if 'active' not in al:
            return False
    if 'active' in ex:
        return False
    if t[0] != 'call':
        for a, v in p.facts.items():     # equal to another term with a known value
            if a[0] == 'eq' and v and t in a[1:3]:
                o = a[2] if a[1] == t else a[1]
                al, ex = domain(p.facts, o)
                if al == {'active'}:
                    return True
                if 'active' in ex or (al is not None and 'active' not in al):
                    return False
    return None


def eff(p, ev):
    d = I(ev, 'event_descriptor')
    t = I(d, 'priority')
    inf = C(float('inf'))
    if p.facts.get(('in', C('priority'), d)) is False or p.facts.get(('isnone', t)) is True:
        return inf
    if p.facts.get(('eq', t, C(0))) is True or p.facts.get(('truth', t)) is False:
        return inf
    if p.facts.get(('eq', t, C(0))) is False or p.facts.get(('truth', t)) is True:
        return t
    return None


def less(p, a, b):
    if a is None or b is None:
        return None
    if a == b:
        return False
    if a[0] == 'c' and b[0] == 'c':
        return a[1] < b[1]
    v = p.facts.get(('lt', a, b))
    if v is not None:
        return v
    if p.facts.get(('lt', b, a)) is True:
        return False
    if p.facts.get(('eq', a, b)) or p.facts.get(('eq', b, a)):
        return False
    if b == C(float('inf')) and a[0] != 'c':
        return None
    if a == C(float('inf')):
        return False
    return None


def precedes(p, y, x):
    """Does y belong strictly before x, given the facts?"""
    ax, ay = is_active(p, x), is_active(p, y)
    sx, sy = I(I(x, 'active_period'), 'dtstart'), I(I(y, 'active_period'), 'dtstart')
    start = less(p, sy, sx)
    py, px = eff(p, y), eff(p, x)
    inf = C(float('inf'))
    lo = less(p, py, px)
    hi = less(p, px, py)
    if py is not None and px is not None:
        if px == inf and py != inf:
            lo = True if lo is None else lo
        if py == inf and px != inf:
            hi = True if hi is None else hi
            lo = False
    by_prio = tri_or(lo, tri_and(tri_not(hi), start))
    return tri_or(tri_and(ay, tri_not(ax)),
                  tri_and(ax, ay, by_prio),
                  tri_and(tri_not(ax), tri_not(ay), start))


def used(ctx):
    ctx.rule('always-ordered', 'whatever request_event hands out went through order_events')
    cls = ctx.repo.need_class('openleadr.service.event_service.EventService')
    f = ctx.repo.need_method(cls.qual, 'request_event')
    order = 'openleadr.utils.order_events'
    n = 0
    for p in ctx.run(f, SELF, self_cls=cls, opaque={order}, usercb=lambda k, m: m == 'on_request_event') or ():
        if p.kind != 'return' or p.value[0] != 't' or p.value[1][0] != C('oadrDistributeEvent'):
            continue
        ev = value(p, p.value[1][1], 'events')
        n += 1
        ok = ev is not None and any(x[0] == 'call' and x[1] == order for x in subterms(ev))
        ctx.judge('always-ordered', 'EventService.request_event', ok, 'events are handed out without being ordered',
                  (f.file, f.qual, f.node.lineno), p)
    ctx.judge('always-ordered', 'EventService.request_event: paths', True if n else None, 'no path', detail=f'{n}')


CHECKS = {'C16': C16, 'C17': C17}
