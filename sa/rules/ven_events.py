"""The VEN's treatment of events: handler calls, opt responses, clean-up."""
from ..interp import P, A, I, E, C, State, show, subterms
from ..q import arg, has, truthy, equal, value, absent, notnone

CLIENT = 'openleadr.client.OpenADRClient'
SELF = P('self')
MSG = P('message')
EVENTS = I(MSG, 'events')
STATUS = 'openleadr.utils.determine_event_status'
RECEIVED = A(SELF, 'received_events')
RESPONDED = A(SELF, 'responded_events')
HANDLERS = ('on_event', 'on_update_event')


def ev_field(ev, name):
    return I(I(ev, 'event_descriptor'), name)


def on_event_paths(ctx):
    """[(number of events, path)]: one event with its signals, and two events without."""
    cls = ctx.repo.need_class(CLIENT)
    f = ctx.repo.need_method(cls.qual, '_on_event')
    name = f.node.args.args[1].arg
    global MSG, EVENTS
    MSG, EVENTS = P(name), I(P(name), 'events')

    def raising(n, a, t):
        return ['RuntimeError'] if n in HANDLERS else []
    common = dict(self_cls=cls, opaque={STATUS, f'{cls.qual}._perform_request', f'{cls.qual}._create_message'},
                  usercb=lambda k, n: n in HANDLERS, raising=raising, max_seconds=120)
    st = State()
    for i in (0, 1):
        sg = I(E(EVENTS, i), 'event_signals')
        st.fact(('isinst', sg, ('list',)), True)
        st.fact(('truth', sg), False)
        st.fact(('lt', C(0), ('call', 'len', (sg,), (), 0)), False)
    a = ctx.run(f, SELF, **common)
    b = ctx.run(f, SELF, init=st, max_iter=2, while_iter=1,
                iters=lambda t: 1 if 'signals' in show(t) else None, **common)
    return f, (a or []) + (b or []), a is not None and b is not None


def nevents(p):
    n = p.state.counts.get(EVENTS)
    if n is not None:
        return n
    seen = [-1]
    for e in p.trace:
        for t in e.args:
            for x in subterms(t):
                if x[0] == 'elem' and x[1] == EVENTS:
                    seen.append(x[2])
    for a in p.facts:
        for t in a[1:]:
            if isinstance(t, tuple) and t and isinstance(t[0], str):
                for x in subterms(t):
                    if x[0] == 'elem' and x[1] == EVENTS and isinstance(x[2], int):
                        seen.append(x[2])
    return max(seen) + 1


def caught(p):
    return any(e.kind == 'except' for e in p.trace)


def status_known(p, ev):
    """Facts about determine_event_status(ev['active_period']) == 'completed'."""
    for a, v in p.facts.items():
        if a[0] == 'eq' and a[2] == C('completed') and a[1][0] == 'call' and a[1][1] == STATUS \
                and has(a[1], I(ev, 'active_period')):
            return v
        if a[0] == 'inset' and a[1][0] == 'call' and a[1][1] == STATUS and has(a[1], I(ev, 'active_period')):
            ks = {x[0] for x in a[2]}
            if v and 'completed' not in ks:
                return False
            if v and ks == {'completed'}:
                return True
            if not v and 'completed' in ks:
                return False
    return None


def required(p, ev):
    rr = I(ev, 'response_required')
    for a, v in p.facts.items():
        if a[0] == 'eq' and a[1] == rr:
            if a[2] == C('always'):
                return v
            if v:
                return False
            if a[2] == C('never'):
                return not v
    return None


def sent(p):
    """(create event, whether it was sent to EiEvent) for every oadrCreatedEvent made on this path."""
    out = []
    for e in p.trace:
        if e.kind == 'call' and e.name.endswith('_create_message') and arg(e, 1) == C('oadrCreatedEvent'):
            s = [x for x in p.trace if x.kind == 'call' and x.name.endswith('_perform_request') and e.res in x.args]
            out.append((e, [arg(x, 1) for x in s]))
    return out


def entries(p, t):
    """Items of the event_responses list, None when not known."""
    o = p.obj(t) if t is not None else None
    if o is None or o[0] != 'list' or o[2]:
        return None
    return list(o[1])


def results_of(p, ev):
    """The opt results obtained for this event on this path: handler results and remembered answers."""
    out = []
    for e in p.trace:
        if e.kind == 'usercb' and e.name in HANDLERS and ev in e.args:
            out.append(e.res)
    return out


def in_opts(p, t):
    if t[0] == 'c':
        return t[1] in ('optIn', 'optOut')
    from ..q import domain
    al, ex = domain(p.facts, t)
    if al is not None:
        if al <= {'optIn', 'optOut'}:
            return True
        if not al & {'optIn', 'optOut'}:
            return False
    if {'optIn', 'optOut'} <= ex:
        return False
    return None


def C10(ctx):
    ctx.rule('answered-when-required', 'on every path, the oadrCreatedEvent that is sent holds exactly one entry for each '
             'event with response_required "always" that is not completed, none for any other event, and nothing is '
             'sent when there is no entry')
    ctx.rule('entry-content', 'each entry carries event_id and modification_number of its event, the request_id of the '
             'message, and code 200 unless one of its signals has an unknown name')
    ctx.rule('truthful-opt', 'the opt type of an entry is what the handler returned for this very event (or the answer '
             'remembered for its event_id), optOut when that is not an opt type, and optOut for all when a handler raised')
    ctx.rule('wrong-vtn', 'a message of another VTN is answered with code 452 and optOut, without calling a handler')
    ctx.rule('contained', 'an exception of a handler does not leave _on_event')
    f, ps, full = on_event_paths(ctx)
    name = 'OpenADRClient._on_event'
    loc = (f.file, f.qual, f.node.lineno)
    n = two = 0
    for p in ps:
        if p.kind == 'raise':
            ctx.judge('contained', f'{name}', False if any(e.kind in ('usercb', 'usercbx') for e in p.trace) else None,
                      'an exception raised while the event handlers run escapes, so no event is answered', loc, p)
            continue
        if p.kind != 'return':
            continue
        n += 1
        k = nevents(p)
        two += k > 1
        exc = caught(p)
        own, got = A(SELF, 'vtn_id'), I(MSG, 'vtn_id')
        wrong = p.facts.get(('eq', own, got)) is False or p.facts.get(('eq', got, own)) is False
        msgs = sent(p)
        ents = []
        bad = False
        for e, to in msgs:
            t = arg(e, None, 'event_responses')
            es = entries(p, t)
            if es is None:
                bad = True
                continue
            ents += es
            ctx.judge('answered-when-required', f'{name}: message sent', to == [C('EiEvent')],
                      'the oadrCreatedEvent is not sent to EiEvent exactly once', e.loc, p)
            ctx.judge('entry-content', f'{name}: venID', arg(e, None, 'ven_id') == A(SELF, 'ven_id'),
                      'the response does not carry the own venID', e.loc, p)
            r = arg(e, None, 'response')
            code = value(p, r, 'response_code') if r is not None else None
            rid = value(p, r, 'request_id') if r is not None else None
            ctx.judge('wrong-vtn' if wrong else 'entry-content', f'{name}: response code of the message',
                      code == C(452 if wrong else 200),
                      f'the message carries code {show(code) if code else None}', e.loc, p)
            ctx.judge('entry-content', f'{name}: request_id of the message', rid == I(MSG, 'request_id'),
                      'the response does not echo the request_id of the message', e.loc, p)
            if not es:
                ctx.violation('answered-when-required', f'{name}: empty message',
                              'an oadrCreatedEvent without any event response is sent', e.loc, p)
        if bad:
            ctx.undecided('answered-when-required', name, 'list of event responses not known')
            continue
        if wrong:
            hs = [e for e in p.trace if e.kind == 'usercb' and e.name in HANDLERS]
            ctx.judge('wrong-vtn', f'{name}: handler', not hs, 'a handler is called for an event of another VTN',
                      hs[0].loc if hs else loc, p)
        mine = {i: [] for i in range(k)}
        for x in ents:
            who = value(p, x, 'event_id')
            hit = [i for i in range(k) if who == ev_field(E(EVENTS, i), 'event_id')]
            if not hit:
                ctx.violation('entry-content', f'{name}: event_id',
                              f'an event response carries the event_id {show(who) if who else None}', loc, p)
                continue
            mine[hit[0]].append(x)
        for i in range(k):
            ev = E(EVENTS, i)
            req, done = required(p, ev), status_known(p, ev)
            xs = mine[i]
            if not xs:
                ctx.judge('answered-when-required', f'{name}: unanswered event', req is False or done is True,
                          'an event that requires a response and is not known to be completed gets no event response',
                          loc, p)
                continue
            ctx.judge('answered-when-required', f'{name}: answered event', len(xs) == 1 and req is True and done is False,
                      'an event is answered more than once, although no response is required, or although it is completed',
                      loc, p)
            x = xs[0]
            mod = value(p, x, 'modification_number')
            ctx.judge('entry-content', f'{name}: modification number', mod == ev_field(ev, 'modification_number'),
                      f'an event response carries modification number {show(mod) if mod else None}', loc, p)
            rid = value(p, x, 'request_id')
            ctx.judge('entry-content', f'{name}: request_id', rid == I(MSG, 'request_id'),
                      'an event response does not echo the request_id', loc, p)
            code = value(p, x, 'response_code')
            unknown = signal_unknown(p, ev)
            ctx.judge('entry-content', f'{name}: code', code is not None and (code == C(200)) == (not unknown) and
                      (not unknown or code == C(460)),
                      f'an event {"with" if unknown else "without"} unsupported signal is answered with code '
                      f'{show(code) if code else None}', loc, p)
            opt = value(p, x, 'opt_type')
            if exc:
                ctx.judge('truthful-opt', f'{name}: opt after an exception', opt == C('optOut'),
                          f'an event whose handling failed is answered with {show(opt) if opt else None}', loc, p)
                continue
            res = results_of(p, ev) or [I(RESPONDED, ev_field(ev, 'event_id'))]
            r = res[-1]
            ok = in_opts(p, r)
            if ok is False:
                good = opt == C('optOut')
            elif ok is True:
                good = opt == r or (opt is not None and opt[0] == 'c' and equal(p.facts, r, opt))
            else:
                good = False if opt == r else (None if opt is None or opt[0] != 'c' else False)
            ctx.judge('truthful-opt', f'{name}: opt type', good,
                      f'the event response says {show(opt) if opt else None} although the result for this event is '
                      f'{show(r)}' + ('' if ok is not None else ', not known to be an opt type'), loc, p)
    if full:
        ctx.judge('answered-when-required', f'{name}: paths', True if n and two else None, 'no path', detail=f'{n} paths, {two} with two events')
    created_event_api(ctx)
    codes(ctx)


SIGNALS = ((['SIMPLE', 'nonsense'], ['SIMPLE']), (['SIMPLE'], ['nonsense', 'SIMPLE']), (['x-own', 'SIMPLE'], ['LOAD_DISPATCH', 'x-own', 'simple']),
           (['nonsense'], ['x-own'], ['nonsense', 'nonsense']), (['SIMPLE', 'LOAD_DISPATCH'], ['xown'], ['ELECTRICITY_PRICE', 'SIMPLE']))


def codes(ctx):
    """Messages whose events have known signals: the code of every entry, and its modification number."""
    ctx.rule('codes', 'in a message of two or three events, each with one to three known signal names, every entry has the code of its own event: 460 when one of its '
             'signals is neither in enums.SIGNAL_NAME nor starts with x-, else 200')
    cls = ctx.repo.need_class(CLIENT)
    name = 'OpenADRClient._on_event'
    n = 0
    for wrapped in (False, True):
        for k, case in enumerate(SIGNALS):
            evs = []
            for i, sigs in enumerate(case):
                sg = [{'signal_name': x} for x in sigs]
                evs.append({'event_descriptor': {'event_id': f'e{i}', 'event_status': 'far', 'modification_number': i + 3}, 'response_required': 'always',
                            'active_period': {'dtstart': i}, 'event_signals': {'event_signals': sg} if wrapped else sg})
            src = ('async def probe(client):\n    client.vtn_id = "vtn"\n    client.ven_id = "ven"\n    client.received_events = []\n    client.responded_events = {}\n'
                   '    client.on_event = lambda event: "optIn"\n    client.on_update_event = lambda event: "optIn"\n'
                   f'    await client._on_event({{"vtn_id": "vtn", "request_id": "req", "events": {evs!r}}})\n')
            for p in ctx.probe('openleadr.client', src, types={P('client'): cls}, max_iter=9,
                               opaque={STATUS, f'{cls.qual}._perform_request', f'{cls.qual}._create_message'}) or ():
                if p.kind != 'return':
                    continue
                for e, to in sent(p):
                    es = entries(p, arg(e, None, 'event_responses'))
                    for x in es or ():
                        who, code, mod = (value(p, x, y) for y in ('event_id', 'response_code', 'modification_number'))
                        if who is None or code is None or who[0] != 'c' or code[0] != 'c':
                            ctx.undecided('codes', f'{name}: message {k}', 'the entry is not known')
                            continue
                        n += 1
                        i = int(who[1][1:])
                        bad = any(not (y in ('SIMPLE', 'simple', 'LOAD_DISPATCH', 'ELECTRICITY_PRICE') or y.startswith('x-')) for y in case[i])
                        ctx.judge('codes', f'{name}: code', code[1] == (460 if bad else 200), f'an event with the signals {", ".join(case[i])}, number {i + 1} of its message, is answered '
                                  f'with code {code[1]}', e.loc, p)
                        ctx.judge('codes', f'{name}: modification number', mod == C(i + 3) or (None if mod is None or mod[0] != 'c' else False),
                                  'the entry carries the modification number of another event', e.loc, p)
    ctx.judge('codes', f'{name}: entries', True if n else None, 'no entry')


def signal_unknown(p, ev):
    out = False
    for a, v in p.facts.items():
        if a[0] == 'inset' and v is False and len(a[2]) > 5 and has(a[1], I(ev, 'event_signals')):
            sw = [v2 for b, v2 in p.facts.items() if b[0] == 'truth' and b[1][0] == 'call' and b[1][1] == '.startswith'
                  and has(b[1], a[1])]
            if not any(sw):
                out = True
    return out


def created_event_api(ctx):
    cls = ctx.repo.need_class(CLIENT)
    f = ctx.repo.need_method(cls.qual, 'created_event')
    for p in ctx.run(f, SELF, self_cls=cls, opaque={f'{cls.qual}._perform_request', f'{cls.qual}._create_message'}) or ():
        if p.kind != 'return':
            continue
        for e, to in sent(p):
            t = arg(e, None, 'event_responses')
            if t is None and dict(e.kw).get('**') is not None:
                t = value(p, dict(e.kw)['**'], 'event_responses')
            es = entries(p, t) or []
            ok = len(es) == 1 and all(value(p, es[0], k) == P(k) for k in ('event_id', 'opt_type', 'modification_number',
                                                                         'request_id'))
            ctx.judge('entry-content', 'OpenADRClient.created_event', ok and to == [C('EiEvent')],
                      'created_event does not send the given event_id, opt_type, modification number and request_id', e.loc, p)


def found_fact(facts, ev):
    """True/False/None: do the facts say that an event with this event_id was received before?"""
    eid = ev_field(ev, 'event_id')
    for a, v in facts.items():
        t = a[1] if len(a) > 1 and isinstance(a[1], tuple) else None
        if a[0] in ('truth', 'isnone') and t and t[0] == 'call' and t[1] == 'find_by' and t[2][0] == RECEIVED and eid in t[2]:
            return v if a[0] == 'truth' else not v
        if a[0] == 'in' and a[1] == eid and has(a[2], RECEIVED):
            return v
        if a[0] == 'in' and a[1] == eid and a[2] == RESPONDED:
            return v
    for a, v in facts.items():
        if a[0] == 'eq' and v and eid in a[1:] and any(has(x, RECEIVED) for x in a[1:]):
            return True
    if facts.get(('truth', RECEIVED)) is False:
        return False
    return None


def same_mod(facts, ev):
    m = ev_field(ev, 'modification_number')
    for a, v in facts.items():
        if a[0] == 'eq' and m in a[1:3]:
            o = a[2] if a[1] == m else a[1]
            if has(o, RECEIVED):
                return v
    return None


def C11(ctx):
    ctx.rule('new-event', 'on_event is called exactly once for an event whose event_id is known not to have been received, '
             'and that event is remembered in received_events before anything is awaited')
    ctx.rule('same-modification', 'no handler is called for an event received before with the same modification number; '
             'the answer remembered for its event_id is repeated')
    ctx.rule('changed-modification', 'an event received before with another modification number goes to on_update_event '
             'exactly once and replaces the remembered event')
    ctx.rule('answer-remembered', 'the result of the handler is stored under the event_id of that event')
    f, ps, full = on_event_paths(ctx)
    name = 'OpenADRClient._on_event'
    loc = (f.file, f.qual, f.node.lineno)
    seen = {'new': 0, 'same': 0, 'changed': 0}
    for p in ps:
        if p.kind != 'return':
            continue
        k = nevents(p)
        exc = caught(p)
        for i in range(k):
            ev = E(EVENTS, i)
            hs = [e for e in p.trace if e.kind in ('usercb', 'usercbx') and e.name in HANDLERS and ev in e.args]
            adds = [e for e in p.trace if e.kind == 'mut' and e.name in ('append', 'insert') and e.args[0] == RECEIVED
                    and ev in e.args[1:]] + \
                   [e for e in p.trace if e.kind == 'setitem' and has(e.args[0], RECEIVED) and e.args[2] == ev]
            facts = list(dict.fromkeys(id(e.facts) for e in p.trace))
            sm = None
            for e in p.trace:
                v = same_mod(e.facts, ev)
                if v is not None:
                    sm = v
            if sm is None:
                sm = same_mod(p.facts, ev)
            if sm is True:
                seen['same'] += 1
                ctx.judge('same-modification', f'{name}: redelivered event', not hs,
                          'a handler is called again for an event that was received before with the same modification number',
                          hs[0].loc if hs else loc, p)
                continue
            if sm is False:
                if exc and not hs:
                    continue
                seen['changed'] += 1
                good = [e.name for e in hs] == ['on_update_event']
                ctx.judge('changed-modification', f'{name}: updated event', good,
                          f'an updated event goes to {[e.name for e in hs]} instead of once to on_update_event',
                          hs[0].loc if hs else loc, p)
                ctx.judge('changed-modification', f'{name}: updated event remembered', bool(adds) or
                          (None if any(x == ev and e.kind in ('mut', 'setitem') for e in p.trace for x in e.args[1:]) else False),
                          'the new version of an updated event is not remembered, so the update is delivered again', loc, p)
                if hs:
                    early(ctx, p, hs[0], adds, 'changed-modification', f'{name}: updated event remembered at once', 'on_update_event')
                drop = [e for e in p.trace if e.kind in ('mut', 'del') and e.args and (e.args[0] == RECEIVED or has(e.args[0], RECEIVED))
                        and e.name in ('pop_by', 'remove', 'pop', 'del', '')]
                repl = [e for e in adds if e.kind == 'setitem']
                ctx.judge('changed-modification', f'{name}: old version dropped', True if drop or repl else
                          (None if not adds else False), 'the old version of an updated event stays in received_events', loc, p)
                if drop and adds:
                    eid = ev_field(ev, 'event_id')
                    if all(d.name == 'pop_by' for d in drop):
                        ctx.judge('changed-modification', f'{name}: right event dropped', any(eid in d.args for d in drop),
                                  'updating an event drops another event', drop[0].loc, p)
            elif hs:
                seen['new'] += 1
                good = [e.name for e in hs] == ['on_event']
                ctx.judge('new-event', f'{name}: new event', good,
                          f'a new event goes to {[e.name for e in hs]} instead of once to on_event', hs[0].loc, p)
                ff = [found_fact(e.facts, ev) for e in [hs[0]] + adds[:1]]
                ctx.judge('new-event', f'{name}: known to be new', True if False in ff else
                          (False if True in ff or not any_lookup(p, ev) else None),
                          'on_event is called without the event being known not to have been received before', hs[0].loc, p)
                early(ctx, p, hs[0], adds, 'new-event', f'{name}: remembered at once', 'on_event')
                if not exc:
                    ctx.judge('new-event', f'{name}: remembered', bool(adds) or
                              (None if any(x == ev and e.kind in ('mut', 'setitem') for e in p.trace for x in e.args[1:]) else False),
                              'a new event is not remembered, so it is handed to on_event at every delivery', hs[0].loc, p)
            for e in hs:
                if e.kind == 'usercb' and not exc:
                    st = [x for x in p.trace if x.kind == 'setitem' and x.args[0] == RESPONDED]
                    upd = [x for x in p.trace if x.kind == 'mut' and x.args[0] == RESPONDED]
                    ok = any(x.args[1] == ev_field(ev, 'event_id') and x.args[2] == e.res for x in st)
                    if not ok:
                        other = [x for x in st if x.args[1] == ev_field(ev, 'event_id')]
                        v = other[-1].args[2] if other else None
                        if v is not None and v[0] == 'c' and (equal(p.facts, e.res, v) or in_opts(p, e.res) is False):
                            ok = True
                    ctx.judge('answer-remembered', f'{name}: {e.name}', True if ok else (None if upd else False),
                              'the answer given for an event is not remembered under its event_id', e.loc, p)
    if full:
        for kx, v in seen.items():
            ctx.judge('new-event', f'{name}: {kx} paths', True if v else None, f'no {kx} path seen', detail=f'{v}')
    cleanup(ctx)


def early(ctx, p, h, adds, rule, what, cb):
    """No other task runs between the look-up of the event and remembering it: the handler is awaited afterwards."""
    if not adds:
        return
    i = next(j for j, e in enumerate(p.trace) if e is h)
    first = next((j for j, e in enumerate(p.trace) if j >= i and e.kind in ('await', 'awaitx')), len(p.trace))
    at = min(next(j for j, e in enumerate(p.trace) if e is a) for a in adds)
    ctx.judge(rule, what, at < first, f'{cb} is awaited before the event is remembered: the same event, delivered meanwhile, '
              'goes to the handler again', h.loc, p)


def any_lookup(p, ev):
    """Was received_events consulted with this event's id in any way?"""
    eid = ev_field(ev, 'event_id')
    for e in p.trace:
        for a in e.facts:
            ts = [t for t in a[1:] if isinstance(t, tuple) and t and isinstance(t[0], str)]
            if any(has(t, RECEIVED) or has(t, RESPONDED) for t in ts) and any(has(t, eid) for t in ts):
                return True
    return False


def cleanup(ctx):
    """_event_cleanup only forgets events that are cancelled or completed, and their answers with them."""
    ctx.rule('forgotten-only-when-over', 'the periodic clean-up drops an event (and its remembered answer) only when it '
             'is known to be cancelled or completed, and drops every such event')
    cls = ctx.repo.need_class(CLIENT)
    f = cls.methods.get('_event_cleanup')
    if f is None:
        ctx.undecided('forgotten-only-when-over', '_event_cleanup', 'not found')
        return
    ps = ctx.run(f, SELF, self_cls=cls, opaque={STATUS}, max_iter=2)
    n = 0
    for p in ps or ():
        for e in p.trace:
            if e.kind == 'itermut' and e.args and e.args[0] == RECEIVED:
                ctx.violation('forgotten-only-when-over', 'OpenADRClient._event_cleanup: iteration',
                              'received_events is changed while it is iterated over, so events are skipped', e.loc, p)
            if e.kind == 'mut' and e.args and e.args[0] == RECEIVED and e.name in ('pop', 'remove', 'pop_by') or \
                    e.kind == 'del' and e.args and e.args[0] == RECEIVED:
                n += 1
                over = any((a[0] == 'eq' and v and a[2] in (C('cancelled'), C('completed'))) or
                           (a[0] == 'inset' and v and {x[0] for x in a[2]} <= {'cancelled', 'completed'})
                           for a, v in e.facts.items())
                ctx.judge('forgotten-only-when-over', 'OpenADRClient._event_cleanup: drop', over,
                          'an event that is neither cancelled nor completed is forgotten', e.loc, p)
            if e.kind == 'mut' and e.args and e.args[0] in (RECEIVED, RESPONDED) and e.name == 'clear':
                ctx.violation('forgotten-only-when-over', 'OpenADRClient._event_cleanup: clear',
                              'all remembered events are forgotten', e.loc, p)
            if e.kind == 'mut' and e.args and e.args[0] == RESPONDED and e.name == 'pop' or \
                    e.kind == 'del' and e.args and e.args[0] == RESPONDED:
                over = any((a[0] == 'eq' and v and a[2] in (C('cancelled'), C('completed'))) or
                           (a[0] == 'inset' and v and {x[0] for x in a[2]} <= {'cancelled', 'completed'})
                           for a, v in e.facts.items())
                ctx.judge('forgotten-only-when-over', 'OpenADRClient._event_cleanup: answer', over,
                          'the remembered answer of a running event is forgotten', e.loc, p)
    ctx.judge('forgotten-only-when-over', 'OpenADRClient._event_cleanup: drops', True if n else None,
              'no drop recognised', detail=f'{n}')
    forgotten(ctx, cls)


def over_facts(p, ev):
    """True when the path knows that the event is cancelled or completed, False when it knows that it is neither."""
    res = []
    for a, v in p.facts.items():
        if a[0] == 'eq' and a[2] in (C('cancelled'), C('completed')) and has(a[1], ev):
            res.append((a[2], v))
        elif a[0] == 'inset' and has(a[1], ev) and {x[0] for x in a[2]} <= {'cancelled', 'completed'} and v:
            return True
        elif a[0] == 'inset' and has(a[1], ev) and not v:
            res += [(C(x[0]), False) for x in a[2]]
    if any(v for _, v in res):
        return True
    return False if {c for c, _ in res} >= {C('cancelled'), C('completed')} else None


def forgotten(ctx, cls):
    """Every list of up to three remembered events: exactly those that are over are gone afterwards."""
    ctx.rule('forgotten-exactly-when-over', 'the periodic clean-up of one, two or three remembered events leaves exactly those that are neither cancelled nor completed')
    name = 'OpenADRClient._event_cleanup'
    for n in (1, 2, 3):
        es = ', '.join(f'e{i}' for i in range(n))
        src = f'async def probe(client, {es}):\n    client.received_events = [{es}]\n    await client._event_cleanup()\n    return client.received_events\n'
        for p in ctx.probe('openleadr.client', src, types={P('client'): cls}, opaque={STATUS}, max_iter=4) or ():
            if p.kind != 'return':
                ctx.judge('forgotten-exactly-when-over', f'{name}: fails', False if p.kind == 'raise' and p.value[1] in ('IndexError', 'RuntimeError', 'NameError', 'ValueError') else None,
                          f'the clean-up of {n} events fails', None, p)
                continue
            o = p.obj(p.value)
            if o is None or o[0] != 'list':
                ctx.undecided('forgotten-exactly-when-over', name, 'the events that remain are not known')
                continue
            for i in range(n):
                over = over_facts(p, P(f'e{i}'))
                left = P(f'e{i}') in o[1]
                if over is None and not any(has(a, P(f'e{i}')) for a in p.facts) and not any(has(x, P(f'e{i}')) for e in p.trace if e.kind in ('call', 'usercb') for x in e.args):
                    over = left          # nothing about it was looked at, so it may as well be (or not be) over
                ctx.judge('forgotten-exactly-when-over', f'{name}: event that is over', None if over is None else over != left,
                          f'event {i + 1} of {n} is {"over but stays" if left else "not over but is forgotten"}', None, p)




CHECKS = {'C10': C10, 'C11': C11}
