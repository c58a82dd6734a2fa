"""The VTN's event service: responses, polling, cancelling, isolation between VENs."""
from ..interp import P, A, I, E, C, NONE, show, subterms
from ..q import arg, has, truthy, equal, value, absent, notnone, reaches, deep

SERVICE = 'openleadr.service.event_service.EventService'
POLL = 'openleadr.service.poll_service.PollService'
SERVER = 'openleadr.server.OpenADRServer'
SELF = P('self')
CALLBACKS = A(SELF, 'event_callbacks')


def payload_of(f):
    return P(f.node.args.args[1].arg)


def awaited(p, res):
    """Is the value of a call awaited wherever it may be a coroutine?"""
    if res is None:
        return True
    if any(e.kind == 'await' and any(res in (a, *subterms(a)) for a in e.args) for e in p.trace):
        return True
    if p.facts.get(('iscoro', res)) is False:
        return True
    if any(a[0] == 'isinst' and a[1] == res and v and not {'Coroutine', 'Awaitable'} & set(map(str, a[2])) for a, v in p.facts.items()):
        return True
    return False


def key_of(t, cont):
    """The keys under which container `cont` is looked up inside term t."""
    out = []
    for x in subterms(t):
        if x[0] == 'item' and x[1] == cont:
            out.append(x[2])
        elif x[0] == 'call' and x[1] in ('.get', '.pop') and x[2][:1] == (cont,) and len(x[2]) > 1:
            out.append(x[2][1])
    return out


def consulted(p, cont, sub):
    """Was container `cont` looked up on this path with something mentioning every term of sub?"""
    for e in p.trace:
        if e.args and (e.args[0] == cont or has(e.args[0], cont)) and all(any(has(a, s) for a in e.args) for s in sub):
            return True
        for a in e.facts:
            ts = [t for t in a[1:] if isinstance(t, tuple) and t and isinstance(t[0], str)]
            if any(has(t, cont) for t in ts) and all(any(has(t, s) for t in ts) for s in sub):
                return True
    for a in p.facts:
        ts = [t for t in a[1:] if isinstance(t, tuple) and t and isinstance(t[0], str)]
        if any(has(t, cont) for t in ts) and all(any(has(t, s) for t in ts) for s in sub):
            return True
    return False


def all_facts(p):
    """Every (atom, value) that was known at some event of the path."""
    seen = set()
    for src in [e.facts for e in p.trace] + [p.facts]:
        for a, v in src.items():
            if (a, v) not in seen:
                seen.add((a, v))
                yield a, v


def found(facts, events, ven, item):
    """Do the facts say that the VEN has an event with this event_id? (True/False/None, lookup term)"""
    eid = I(item, 'event_id')
    lookup = None
    facts = list(facts)
    for a, v in facts:
        if a[0] == 'in' and a[1] == ven and a[2] == events and not v or \
                a[0] == 'truth' and not v and a[1] in (I(events, ven), events):
            return False, None
    for a, v in facts:
        for t in a[1:]:
            if not (isinstance(t, tuple) and t and isinstance(t[0], str)):
                continue
            for x in subterms(t):
                if x[0] == 'call' and x[1] == 'find_by' and has(x[2][0], events) and eid in x[2][1:]:
                    lookup = x
                    if a[0] == 'truth' and a[1] == x:
                        return v, x
                    if a[0] == 'isnone' and a[1] == x:
                        return (not v), x
                    if a[0] == 'eq' and v and has(a[1], x) and a[1] != x:
                        return True, x
    return None, lookup


def C12(ctx):
    ctx.rule('right-callback', 'the callback that is called (or future that is completed) is the one stored under this '
             'ven_id and the event_id of this very response, with the opt type of this response, awaited when it is a coroutine')
    ctx.rule('at-most-once', 'the callback is taken out of the table before it is called; a completed future is not set again')
    ctx.rule('every-response', 'each response in the message leads to a look-up of its callback (or of on_created_event '
             'when an own handler is installed); none is skipped on a path that reports success')
    ctx.rule('unknown-refused', 'a response for an event (id and modification number) not held for this VEN and not '
             'completed raises InvalidIdError and reaches no callback')
    cls = ctx.repo.need_class(SERVICE)
    f = ctx.repo.need_method(cls.qual, 'created_event')
    pl = payload_of(f)
    ven = I(pl, 'ven_id')
    resp = I(pl, 'event_responses')
    events = A(SELF, 'events')
    done_ids = A(SELF, 'completed_event_ids')
    ps = ctx.run(f, SELF, self_cls=cls, usercb=lambda k, n: n == 'on_created_event', max_iter=2)
    name = 'EventService.created_event'
    loc = (f.file, f.qual, f.node.lineno)
    n = ext = 0
    for p in ps or ():
        k = p.state.counts.get(resp, 0)
        cbs = [e for e in p.trace if e.kind == 'call' and e.args and has(e.args[0], CALLBACKS)
               and e.name in ('()', '.set_result')]
        others = [e for e in p.trace if e.kind == 'call' and e.name == '()' and e not in cbs]
        external = [e for e in p.trace if e.kind == 'usercb']
        for e in cbs:
            n += 1
            keys = key_of(e.args[0], CALLBACKS)
            mine = [i for i in range(k) if keys and all(has(x, I(E(resp, i), 'event_id')) for x in keys)]
            ctx.judge('right-callback', f'{name}: callback looked up', bool(mine) and all(has(x, ven) for x in keys),
                      f'a callback stored under {show(keys[0]) if keys else "?"} is called: not the (ven_id, event_id) of the response',
                      e.loc, p)
            if not mine:
                continue
            it = E(resp, mine[0])
            if e.name == '()':
                got = {x: arg(e, None, x) for x in ('ven_id', 'event_id', 'opt_type')}
                good = got == {'ven_id': ven, 'event_id': I(it, 'event_id'), 'opt_type': I(it, 'opt_type')}
                ctx.judge('right-callback', f'{name}: callback arguments', good,
                          'the callback gets ' + ', '.join(f'{x}={show(y) if y else None}' for x, y in got.items()), e.loc, p)
                ctx.judge('right-callback', f'{name}: coroutine callback', awaited(p, e.res) or p.kind != 'return',
                          'the callback is called but its coroutine is not awaited', e.loc, p)
            else:
                ctx.judge('right-callback', f'{name}: future result', e.args[1:2] == (I(it, 'opt_type'),),
                          f'the future is completed with {show(e.args[1]) if len(e.args) > 1 else None}', e.loc, p)
                und = any(a[0] == 'truth' and a[1][0] == 'call' and a[1][1] in ('.done', '.cancelled') and v is False
                          for a, v in e.facts.items())
                ctx.judge('at-most-once', f'{name}: completed future', und,
                          'set_result is reached for a future that may already be done', e.loc, p)
            i = p.trace.index(e)
            out = [x for x in p.trace[:i] if x.kind in ('mut', 'del') and x.args[0] == CALLBACKS
                   and x.name in ('pop', 'del', '')] + [x for x in p.trace if x.kind == 'del' and x.args[0] == CALLBACKS]
            ctx.judge('at-most-once', f'{name}: callback consumed', bool(out),
                      'the callback stays registered after its response, so a repeated response calls it again', e.loc, p)
            fd, lk = found(e.facts.items(), events, ven, it)
            if fd is False:
                done = any(a[0] == 'in' and v and a[1] == I(it, 'event_id') and has(a[2], done_ids) and has(a[2], ven) for a, v in e.facts.items())
                ctx.judge('unknown-refused', f'{name}: callback for an unknown event', done,
                          'a response for an event that is neither held for this VEN nor completed reaches a callback', e.loc, p)
            elif fd is None and lk is None and not consulted(p, events, [I(it, 'event_id')]):
                ctx.violation('unknown-refused', f'{name}: event not looked up',
                              'a response reaches a callback without its event being looked up', e.loc, p)
        for e in external:
            ext += 1
            got = {x: arg(e, None, x) for x in ('ven_id', 'event_id', 'opt_type')}
            mine = [i for i in range(k) if got == {'ven_id': ven, 'event_id': I(E(resp, i), 'event_id'),
                                                   'opt_type': I(E(resp, i), 'opt_type')}]
            ctx.judge('right-callback', f'{name}: on_created_event', bool(mine),
                      'on_created_event gets ' + ', '.join(f'{x}={show(y) if y else None}' for x, y in got.items()), e.loc, p)
            ctx.judge('right-callback', f'{name}: on_created_event awaited', awaited(p, e.res) or p.kind != 'return',
                      'on_created_event is called but its coroutine is not awaited', e.loc, p)
        for e in p.trace:
            if e.kind in ('mut', 'del') and e.args and has(e.args[0], events) and e.name in ('pop_by', 'pop', 'remove', 'del', ''):
                canc = any(a[0] == 'eq' and a[2] == C('cancelled') and v for a, v in e.facts.items())
                ctx.judge('unknown-refused', f'{name}: event dropped', canc and has(e.args[0], ven),
                          'a response drops an event that is not known to be cancelled, or of another VEN', e.loc, p)
        if p.kind != 'return':
            if p.kind == 'raise' and p.value[1] in ('UnboundLocalError', 'IndexError'):
                ctx.violation('right-callback', f'{name}: fails', f'handling a response fails with {p.value[1]}', p.trace[-1].loc if p.trace else loc, p)
            continue
        for i in range(k):
            it = E(resp, i)
            eid = I(it, 'event_id')
            own = any(arg(e, None, 'event_id') == eid for e in external)
            if not external and not any(a[0] == 'eq' and a[1] == A(SELF, 'polling_method') and
                                        (v is False) == (a[2] == C('internal')) for a, v in p.facts.items()):
                ctx.judge('every-response', f'{name}: response handled', consulted(p, CALLBACKS, [eid]),
                          'a response is skipped: its callback is never looked up', loc, p)
                popped = [x for x in p.trace if x.kind in ('mut', 'del') and x.args[0] == CALLBACKS and
                          any(has(a, eid) for a in x.args[1:])]
                used = any(has(e.args[0], eid) for e in cbs)
                done = any(a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == '.done' and v and has(a[1], eid) for a, v in all_facts(p))
                nocb = any(a[0] in ('isnone', 'truth') and (v == (a[0] == 'isnone')) and has(a[1], CALLBACKS) for a, v in all_facts(p))
                if popped:
                    ctx.judge('every-response', f'{name}: callback used', used or done or (None if nocb else False),
                              'a callback is taken out of the table but not called', popped[0].loc, p)
                facts = list(all_facts(p))
                fd, lk = found(facts, events, ven, it)
                if fd is False:
                    done = any(a[0] == 'in' and v and a[1] == eid and has(a[2], done_ids) and has(a[2], ven) for a, v in facts)
                    ctx.judge('unknown-refused', f'{name}: unknown event', done or (None if consulted(p, done_ids, [eid]) and
                              not any(a[0] == 'in' and a[1] == eid for a, v in facts) else False),
                              'a response for an event that is neither held for this VEN nor completed is accepted', loc, p)
                if lk is not None:
                    mod = I(it, 'modification_number')
                    ok = mod in lk[2] or any(a[0] == 'eq' and mod in a[1:] for a, v in facts)
                    ctx.judge('unknown-refused', f'{name}: modification number', ok,
                              'a response for another modification number of the event is accepted', loc, p)
                    ctx.judge('unknown-refused', f'{name}: VEN of the event', has(lk[2][0], ven),
                              'the event is looked up among the events of all VENs', loc, p)
                canc = any(a[0] == 'eq' and v and a[2] == C('cancelled') and has(a[1], eid) for a, v in facts)
                if canc:
                    drop = any(e.kind in ('mut', 'del') and e.args and has(e.args[0], events) for e in p.trace)
                    ctx.judge('every-response', f'{name}: confirmed cancellation', drop,
                              'a cancelled event stays in the list after the VEN confirmed it', loc, p)
            else:
                ctx.judge('every-response', f'{name}: response passed on', own or (None if external else False),
                          'a response is not passed to on_created_event', loc, p)
    ctx.judge('right-callback', f'{name}: paths', True if n and ext else None, 'no callback found', detail=f'{n} calls')


def is_events_of(t, ven, root):
    """Does t denote the event list of VEN `ven` below container `root`?"""
    t = unwrap(t)
    if t == I(root, ven):
        return True
    return t[0] == 'call' and t[1] in ('.get', '.setdefault') and t[2][:2] == (root, ven)


def unwrap(t):
    while t[0] == 'call' and t[1] in ('list', 'tuple', 'sorted', 'openleadr.utils.order_events', '.copy', 'copy.copy') and t[2]:
        t = t[2][0]
    return t


def false_const(t):
    return t[0] == 'c' and not t[1]


def true_const(t):
    return t[0] == 'c' and bool(t[1])


def clears(p, flags):
    """Events that switch off a flag of the table: [(event, key)]."""
    out = []
    for e in p.trace:
        if e.kind == 'setitem' and e.args[0] == flags and false_const(e.args[2]):
            out.append((e, e.args[1]))
        elif e.kind == 'mut' and e.args and e.args[0] == flags and e.name == 'pop':
            out.append((e, e.args[1]))
        elif e.kind == 'del' and e.args and e.args[0] == flags:
            out.append((e, e.args[1] if len(e.args) > 1 else None))
        elif e.kind == 'mut' and e.args and e.args[0] == flags and e.name == 'clear':
            out.append((e, None))
    return out


def C13(ctx):
    ctx.rule('flag-before-look', 'poll resets events_updated of this VEN only when it goes on to fetch the events of this '
             'VEN, and does so before anything is awaited and before the events are read, so that an update that '
             'comes in meanwhile is still signalled')
    ctx.rule('flag-honoured', 'when the flag is set the poll is answered with the result of request_event for this VEN')
    ctx.rule('flag-set', 'whatever adds an event to a list or changes its status on behalf of the user sets the flag of that VEN')
    ctx.rule('nothing-dropped', 'request_event hands out every event in the list of the VEN, and takes only completed '
             'events out, recording their ids')
    ctx.rule('delivery-callback', 'the delivery callback registered for (ven_id, event_id) runs when that event is handed out')
    cls = ctx.repo.need_class(POLL)
    f = ctx.repo.need_method(cls.qual, 'poll')
    ven = I(payload_of(f), 'ven_id')
    flags = A(SELF, 'events_updated')
    req = f'{SERVICE}.request_event'
    name = 'PollService.poll'
    loc = (f.file, f.qual, f.node.lineno)
    n = ext = 0
    ps = ctx.run(f, SELF, self_cls=cls, opaque={req}, usercb=lambda k, m: m == 'on_poll')
    for p in ps or ():
        fetch = [e for e in p.trace if e.kind == 'call' and (e.name == req or e.name.endswith('.request_event'))]
        cl = clears(p, flags)
        for e, key in cl:
            if e.kind == 'mut' and e.res is not None and truthy(p.facts, e.res) is False or \
                    p.facts.get(('truth', I(flags, ven))) is False:
                continue       # the flag was not set
            i = p.trace.index(e)
            ctx.judge('flag-before-look', f'{name}: flag of another VEN', key == ven,
                      f'the flag under {show(key) if key else "every key"} is reset', e.loc, p)
            before = [x for x in p.trace[:i] if x.kind == 'await' or x in fetch]
            ctx.judge('flag-before-look', f'{name}: order', not before,
                      'the flag is reset after something was awaited or the events were read: an update made meanwhile is lost',
                      e.loc, p)
            ctx.judge('flag-before-look', f'{name}: reset without delivery', bool(fetch) or p.kind != 'return',
                      'the flag is reset although the events are not handed out', e.loc, p)
        for e in fetch:
            d = e.args[-1] if e.args else None
            got = value(p, d, 'ven_id') if d is not None else None
            ctx.judge('flag-honoured', f'{name}: VEN of request_event', got == ven,
                      f'the events of {show(got) if got else None} are fetched', e.loc, p)
            n += 1
            if p.kind == 'return':
                ctx.judge('flag-honoured', f'{name}: answer', reaches(p, p.value, e.res) or p.facts.get(('isnone', e.res)) is True,
                          'the fetched events are not the answer to the poll', e.loc, p)
            ctx.judge('flag-honoured', f'{name}: reset', bool(cl), 'the events are handed out but the flag stays set', e.loc, p)
        if not fetch and not any(e.kind == 'usercb' for e in p.trace):
            on = any(a[0] == 'truth' and a[1] == I(flags, ven) and v for a, v in all_facts(p))
            ctx.judge('flag-honoured', f'{name}: set flag ignored', False if on else True,
                      'the flag is set but the events are not fetched', loc, p)
        for e in p.trace:
            if e.kind == 'usercb' and e.name == 'on_poll':
                ext += 1
                ctx.judge('flag-honoured', f'{name}: on_poll', arg(e, 1, 'ven_id') == ven and (awaited(p, e.res) or p.kind != 'return'),
                          'on_poll does not get the ven_id of the poll, or its coroutine is not awaited', e.loc, p)
                if p.kind == 'return' and p.value[0] == 't' and len(p.value[1]) == 2:
                    none = p.facts.get(('isnone', e.res))
                    if none:
                        ctx.judge('flag-honoured', f'{name}: on_poll returned None', p.value[1][0] == C('oadrResponse'),
                                  'nothing to deliver is not answered with an oadrResponse', e.loc, p)
                    elif p.value[1][0] == C('oadrDistributeEvent'):
                        v = value(p, p.value[1][1], 'events')
                        ctx.judge('flag-honoured', f'{name}: on_poll returned events', v is not None and
                                  (has(v, e.res) or (p.obj(v) is not None and any(has(x, e.res) for x in p.obj(v)[1]))),
                                  'the events the on_poll handler returned are not handed out', e.loc, p)
    ctx.judge('flag-honoured', f'{name}: paths', True if n and ext else None, 'not recognised', detail=f'{n} deliveries, {ext} handler calls')
    request_event(ctx)
    flag_set(ctx)


def request_event(ctx):
    cls = ctx.repo.need_class(SERVICE)
    f = ctx.repo.need_method(cls.qual, 'request_event')
    ven = I(payload_of(f), 'ven_id')
    events = A(SELF, 'events')
    dcb = A(SELF, 'event_delivery_callbacks')
    name = 'EventService.request_event'
    loc = (f.file, f.qual, f.node.lineno)
    order = 'openleadr.utils.order_events'
    n = 0
    for p in ctx.run(f, SELF, self_cls=cls, opaque={order}, usercb=lambda k, m: m == 'on_request_event') or ():
        internal = not any(e.kind == 'usercb' for e in p.trace)
        for e in p.trace:
            if e.kind in ('mut', 'del') and e.args and has(e.args[0], events) and e.name not in ('append', 'setdefault'):
                done = any(a[0] == 'eq' and v and a[2] == C('completed') for a, v in e.facts.items())
                ctx.judge('nothing-dropped', f'{name}: event taken out', done and is_events_of(e.args[0], ven, events),
                          'an event that is not completed (or of another VEN) is taken out of the list', e.loc, p)
                rec = [x for x in p.trace if x.kind in ('mut', 'setitem') and x.args and
                       (has(x.args[0], A(SELF, 'completed_event_ids')))]
                ctx.judge('nothing-dropped', f'{name}: completed id recorded', bool(rec) or p.kind != 'return',
                          'a completed event is dropped without recording its id, so its response is refused', e.loc, p)
            if e.kind == 'itermut':
                ctx.violation('nothing-dropped', f'{name}: list changed while iterated',
                              'the list is changed while it is iterated over, so an event is skipped', e.loc, p)
        if p.kind != 'return':
            if p.kind == 'raise' and p.value[1] in ('UnboundLocalError', 'IndexError'):
                ctx.violation('nothing-dropped', f'{name}: fails', f'distributing the events fails with {p.value[1]}', p.trace[-1].loc if p.trace else loc, p)
            continue
        ret = p.value[1] if p.value[0] == 't' else ()
        full = any(a[0] == 'truth' and v and is_events_of(a[1], ven, events) for a, v in all_facts(p))
        if internal and full:
            n += 1
            ev = value(p, ret[1], 'events') if len(ret) == 2 else None
            ok = ret and ret[0] == C('oadrDistributeEvent') and ev is not None and is_events_of(ev, ven, events)
            ctx.judge('nothing-dropped', f'{name}: events handed out', True if ok else
                      (None if ev is not None and has(ev, events) and has(ev, ven) and unwrap(ev)[0] != 'slice' else False),
                      f'a VEN with events is answered with {show(ret[0]) if ret else None}, '
                      f'events {show(ev) if ev else None}', loc, p)
        for e in p.trace:
            if e.kind == 'call' and e.name == '()' and e.args and has(e.args[0], dcb):
                ks = key_of(e.args[0], dcb)
                ctx.judge('delivery-callback', f'{name}: right callback', bool(ks) and all(has(x, ven) for x in ks),
                          'a delivery callback of another VEN is called', e.loc, p)
                ctx.judge('delivery-callback', f'{name}: awaited', awaited(p, e.res), 'the coroutine of a delivery callback '
                          'is not awaited', e.loc, p)
        for e in p.trace:
            if e.kind in ('mut', 'del') and e.args and (e.args[0] == dcb or e.kind == 'del' and has(e.args[0], dcb)) and e.name not in ('append', 'setdefault', 'update'):
                done = any(a[0] == 'eq' and v and C('completed') in a[1:] for a, v in e.facts.items())
                ctx.judge('delivery-callback', f'{name}: kept', done, 'a delivery callback is forgotten although its event will be handed out again', e.loc, p)
        reg = [a for a, v in all_facts(p) if a[0] == 'in' and v and a[2] == dcb]
        for a in reg:
            called = [e for e in p.trace if e.kind == 'call' and e.name == '()' and e.args and has(e.args[0], dcb)]
            ctx.judge('delivery-callback', f'{name}: called', bool(called), 'a registered delivery callback is not called', loc, p)
    ctx.judge('nothing-dropped', f'{name}: paths', True if n else None, 'no path with events', detail=f'{n}')


def flag_set(ctx):
    cls = ctx.repo.need_class(SERVER)
    services = A(SELF, 'services')
    events = A(I(services, 'event_service'), 'events')
    flags = A(I(services, 'poll_service'), 'events_updated')
    for m in ('add_raw_event', 'cancel_event'):
        f = ctx.repo.need_method(cls.qual, m)
        ven = P('ven_id')
        n = 0
        from ..interp import State
        for p in ctx.run(f, SELF, self_cls=cls, opaque={'openleadr.utils.get_active_period_from_intervals'}) or ():
            if p.kind != 'return':
                continue
            changed = []
            for e in p.trace:
                if e.kind == 'mut' and e.name in ('append', 'insert', 'extend') and P('event') in e.args[1:]:
                    changed.append(e)
                elif e.kind == 'setitem' and (has(e.args[0], events) or e.args[0][0] == 'call' and e.args[0][1] == 'find_by') and e.args[1] == C('event_status'):
                    changed.append(e)
                elif e.kind == 'setitem' and e.args[0] == events and P('event') in p_items(p, e.args[2]):
                    changed.append(e)
            if not changed:
                continue
            n += 1
            sets = [e for e in p.trace if e.kind == 'setitem' and e.args[0] == flags and e.args[1] == ven and true_const(e.args[2])]
            off = [e for e in p.trace if e.kind == 'setitem' and e.args[0] == flags and not (true_const(e.args[2]))]
            ctx.judge('flag-set', f'OpenADRServer.{m}', bool(sets) and not off,
                      'the event list of a VEN changes but its poll flag is not set, so the VEN does not get the change',
                      changed[0].loc, p)
        ctx.judge('flag-set', f'OpenADRServer.{m}: paths', True if n else None, 'no change of the event list recognised', detail=f'{n}')


def p_items(p, t):
    o = p.obj(t)
    return o[1] if o is not None and o[0] == 'list' else ()


def C15(ctx):
    ctx.rule('cancel-effect', 'cancel_event marks the event with this event_id of this VEN as cancelled and raises its '
             'modification number by exactly one')
    ctx.rule('cancel-kept', 'a cancelled event stays in the list of the VEN until the VEN confirmed it')
    ctx.rule('cancel-absent', 'cancelling an unknown event changes nothing and raises nothing')
    cls = ctx.repo.need_class(SERVER)
    f = ctx.repo.need_method(cls.qual, 'cancel_event')
    services = A(SELF, 'services')
    events = A(I(services, 'event_service'), 'events')
    ven, eid = P(f.node.args.args[1].arg), P(f.node.args.args[2].arg)
    name = 'OpenADRServer.cancel_event'
    loc = (f.file, f.qual, f.node.lineno)
    n = 0
    for p in ctx.run(f, SELF, self_cls=cls, key_errors=True) or ():
        fd = None
        for a, v in all_facts(p):
            if a[0] == 'in' and a[1] == ven and a[2] == events and not v:
                fd = False
            if a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == 'find_by':
                fd = v
                ctx.judge('cancel-effect', f'{name}: right event', has(a[1][2][0], I(events, ven)) and eid in a[1][2][1:],
                          'another event than the one of this VEN with this id is looked up', loc, p)
            if a[0] == 'isnone' and a[1][0] == 'call' and a[1][1] == 'find_by':
                fd = not v
        eff = [e for e in p.trace if e.kind in ('setitem', 'setattr') and e.args[0][0] != 'o' and
               (has(e.args[0], events) or any(x[0] == 'call' and x[1] == 'find_by' for x in subterms(e.args[0])))]
        if fd is False:
            bad = [e for e in p.trace if e.kind in ('setitem', 'mut', 'del', 'setattr')]
            ctx.judge('cancel-absent', f'{name}: unknown event', not bad and p.kind == 'return',
                      'cancelling an unknown event changes state or raises', bad[0].loc if bad else loc, p)
        elif fd is True:
            if p.kind != 'return':
                continue
            n += 1
            st = [e for e in eff if len(e.args) > 2 and e.args[1] == C('event_status') or e.name == 'event_status']
            ctx.judge('cancel-effect', f'{name}: status', bool(st) and st[-1].args[-1] == C('cancelled'),
                      'the event is not marked as cancelled', loc, p)
            md = [e for e in eff if len(e.args) > 2 and e.args[1] == C('modification_number') or e.name == 'modification_number']
            plus = [e for e in md if e.args[-1][0] == 'bin' and e.args[-1][1] == '+' and e.args[-1][3] == C(1)]
            ctx.judge('cancel-effect', f'{name}: modification number', len(md) == 1 and len(plus) == 1 or
                      (False if len(md) != 1 or not any(x[0] == 'bin' for x in subterms(md[0].args[-1])) else
                       (None if md[0].args[-1][0] == 'call' else False)),
                      'the modification number is not raised by exactly one, so the VEN does not see a new version', loc, p)
            gone = [e for e in p.trace if e.kind in ('mut', 'del') and e.args and has(e.args[0], events)]
            ctx.judge('cancel-kept', f'{name}: kept', not gone, 'the cancelled event is taken out of the list before the '
                      'VEN heard of it', gone[0].loc if gone else loc, p)
    ctx.judge('cancel-effect', f'{name}: paths', True if n else None, 'no path', detail=f'{n}')


def C14(ctx):
    """Per-VEN tables are only ever touched under the ven_id of the request."""
    ctx.rule('own-ven-only', 'every access to a table kept per VEN (events, events_updated, completed_event_ids, '
             'event_callbacks, event_delivery_callbacks) in a message handler or in the API of the server uses the ven_id '
             'of that message or call as (part of) the key')
    ctx.rule('answer-from-own-list', 'the events handed out to a VEN come from its own list')
    tables = ('events', 'events_updated', 'completed_event_ids', 'event_callbacks', 'event_delivery_callbacks')
    todo = []
    for q, ms in ((SERVICE, ('request_event', 'created_event')), (POLL, ('poll',))):
        c = ctx.repo.need_class(q)
        for m in ms:
            f = ctx.repo.need_method(c.qual, m)
            todo.append((c, f, I(payload_of(f), 'ven_id'), [A(SELF, t) for t in tables]))
    c = ctx.repo.need_class(SERVER)
    sv = A(SELF, 'services')
    conts = [A(I(sv, s), t) for s in ('event_service', 'poll_service') for t in tables] + [A(SELF, t) for t in tables]
    for m in ('add_raw_event', 'cancel_event'):
        f = ctx.repo.need_method(c.qual, m)
        todo.append((c, f, P('ven_id'), conts))
    for c, f, ven, conts in todo:
        name = f'{c.name}.{f.name}'
        n = 0
        seen = set()
        for p in ctx.run(f, SELF, self_cls=c, usercb=lambda k, m: m.startswith('on_'),
                         opaque={'openleadr.utils.order_events', 'openleadr.utils.get_active_period_from_intervals'}) or ():
            terms = []
            for e in p.trace:
                terms += [(t, e.loc) for t in e.args] + [(t, e.loc) for _, t in e.kw]
                if e.kind in ('setitem', 'del', 'mut') and e.args and e.args[0] in conts and len(e.args) > 1:
                    terms.append((I(e.args[0], e.args[1]), e.loc))
                if e.kind in ('mut', 'del') and e.args and e.args[0] in conts and e.name in ('clear', 'popitem'):
                    ctx.violation('own-ven-only', f'{name}: clear', 'a table is emptied for all VENs', e.loc, p)
            for a, v in all_facts(p):
                ts = [t for t in a[1:] if isinstance(t, tuple) and t and isinstance(t[0], str)]
                if a[0] == 'in' and len(ts) == 2:
                    terms.append((I(ts[1], ts[0]), None))
                terms += [(t, None) for t in ts]
            if p.kind == 'return':
                terms.append((p.value, None))
            for t, lc in terms:
                if (t, lc) in seen:
                    continue
                seen.add((t, lc))
                for x in deep(p, t):
                    k = None
                    if x[0] == 'item' and x[1] in conts:
                        k = x[2]
                    elif x[0] == 'call' and x[1] in ('.get', '.pop', '.setdefault') and len(x[2]) > 1 and x[2][0] in conts:
                        k = x[2][1]
                    elif x[0] == 'elem' and x[1] in conts:
                        k = x
                    elif x[0] == 'call' and x[1] == 'find_by' and x[2][0] in conts:
                        k = x
                    if k is not None:
                        n += 1
                        ctx.judge('own-ven-only', f'{name}: key {show(k)[:60]}', has(k, ven),
                                  f'a table kept per VEN is used under {show(k)}, which is not the VEN of the request', lc, p)
        ctx.judge('own-ven-only', f'{name}: accesses', True if n else None, 'no access recognised', detail=f'{n} terms')


CHECKS = {'C12': C12, 'C13': C13, 'C14': C14, 'C15': C15}
