"""What the VTN makes of the answers of user handlers: registrations, own polling, records of reports."""
from ..interp import P, A, I, E, C, NONE, show, subterms
from ..q import arg, has, truthy, value, reaches, deep
from . import crypto, gate
from .vtn_events import awaited

REG = 'openleadr.service.registration_service.RegistrationService'
POLL = 'openleadr.service.poll_service.PollService'
EVENT = 'openleadr.service.event_service.EventService'
REPORT = 'openleadr.service.report_service.ReportService'
SELF = P('self')
TYPE = 'oadrCreatedPartyRegistration'


def service_paths(ctx, cls, method, **kw):
    c = ctx.repo.need_class(cls)
    f = ctx.repo.need_method(c.qual, method)
    kw.setdefault('usercb', lambda k, n: n.startswith('on_'))
    ps = ctx.run(f, SELF, self_cls=c, key_errors=False, **kw)
    return f, P(f.node.args.args[1].arg), (f.file, f.qual, f.node.lineno), ps or ()


def pair(p):
    """(type, payload) of a returned pair, else (None, None)"""
    v = p.value
    if v is not None and v[0] == 't' and len(v[1]) == 2:
        return v[1]
    return None, None


def user_calls(p, name):
    return [e for e in p.trace if e.kind == 'usercb' and e.name == name]


def user_args(e):
    """Arguments without the service the handler is looked up on."""
    return tuple(x for x in e.args if x != SELF) + tuple(v for _, v in e.kw)


def item(p, obj, key):
    """(known, value) of a key of a returned payload; value None when it is certainly absent."""
    if obj is None:
        return False, None
    if obj == NONE:
        return True, None
    if obj[0] == 'o':
        o = p.obj(obj)
        if o is not None and o[0] == 'dict':
            for k, v in o[1]:
                if k == C(key):
                    return True, v
            if not o[2] and o[3] is None:
                return True, None
            return False, None
        if o is not None and o[0] == 'inst':
            for k, v in o[2]:
                if k == key:
                    return True, v
    return False, None


def elements(p, t):
    """The items of a list whose items are all known, else None."""
    if t is None:
        return None
    if t[0] == 't':
        return t[1]
    if t[0] == 'o':
        o = p.obj(t)
        if o is not None and o[0] == 'list' and not o[2]:
            return o[1]
    return None


def nothing(p, v):
    """Is the value absent, None or empty?"""
    return v is None or v == NONE or (v[0] == 'c' and not v[1]) or truthy(p.facts, v) is False or p.facts.get(('isnone', v)) is True


def ask(p, cond):
    return p.facts.get(cond)


def refused(p, res):
    """Did the registration handler refuse? True, False or None: no valid pair and no refusal either."""
    f = p.facts
    if f.get(('isnone', res)) is True or f.get(('eq', res, C(False))) is True or f.get(('is', res, C(False))) is True or truthy(f, res) is False:
        return True
    ln = ('call', 'len', (res,), (), 0)
    for a, v in f.items():
        if a[0] == 'eq' and a[1] == ln and a[2] == C(2) or a[0] == 'eq' and a[1] == C(2) and a[2] == ln:
            return False if v else 'unusable'
        if a[0] == 'isinst' and a[1] == res and not v:
            return 'unusable'
    return None


def offers(p, payload, plist, profile, transport):
    """Does the profile list hold exactly this profile with exactly this transport? True/False/None"""
    its = elements(p, plist)
    if its is None:
        return None
    if len(its) != 1:
        return False
    k, name = item(p, its[0], 'profile_name')
    k2, ts = item(p, its[0], 'transports')
    if not k or not k2:
        return None
    ti = elements(p, ts)
    if ti is None:
        return None if ts is not None else False
    if len(ti) != 1:
        return False
    k3, tn = item(p, ti[0], 'transport_name')
    if not k3:
        return None
    return name == profile and tn == transport


def C09(ctx):
    ctx.rule('asked', 'each oadrCreatePartyRegistration and oadrCancelPartyRegistration is given, as it came in, to the user handler, once, and awaited when it is a coroutine')
    ctx.rule('accepted', 'when the handler returned a pair, the reply carries its first member as venID, its second as registrationID, the profile and transport '
             'asked for and the poll frequency of this VTN')
    ctx.rule('refused', 'when the handler refused or returned something that is no pair, the reply carries no registrationID and no venID of the handler')
    ctx.rule('query', 'without own handler a query is answered with profile 2.0b over simpleHttp, the poll frequency and the request id of the query; with one, by its result')
    ctx.rule('cancelled', 'a cancellation is confirmed with oadrCanceledPartyRegistration for the registrationID of the request, or by what the handler returned')
    ctx.rule('fingerprint', 'for a registration over TLS the message that is dispatched carries the fingerprint of the certificate of this connection; '
             'the fingerprint never comes from elsewhere')
    freq = A(SELF, 'poll_freq')
    # --- create
    f, pl, loc, ps = service_paths(ctx, REG, 'create_party_registration')
    name = 'RegistrationService.create_party_registration'
    n = {True: 0, False: 0, 'unusable': 0}
    for p in ps:
        if p.kind != 'return':
            continue
        cs = user_calls(p, 'on_create_party_registration')
        ctx.judge('asked', f'{name}: handler', len(cs) == 1 and user_args(cs[0]) == (pl,), f'on_create_party_registration is called {len(cs)} times'
                  + (f' with {", ".join(show(x) for x in user_args(cs[0]))}' if cs else ''), loc, p)
        if len(cs) != 1:
            continue
        res = cs[0].res
        ctx.judge('asked', f'{name}: coroutine', awaited(p, res), 'the result is used without being awaited', cs[0].loc, p)
        t, out = pair(p)
        ctx.judge('accepted', f'{name}: type', None if t is None and p.value[0] != 'c' else t == C(TYPE), f'the reply is {show(p.value)}', loc, p)
        if t is None:
            continue
        no = refused(p, res)
        if no is None:
            ctx.undecided('accepted', f'{name}: decision', 'what the handler returned is not told apart')
            continue
        n[no] += 1
        if no is not False:
            for k in ('registration_id', 'ven_id'):
                known, v = item(p, out, k)
                ok = None if not known else nothing(p, v) or (k == 'ven_id' and v == I(pl, 'ven_id'))
                ctx.judge('refused', f'{name}: {k} when refused', ok, f'a refused registration is answered with {k} {show(v) if v else None}', loc, p)
            continue
        for k, want in (('ven_id', E(res, 0)), ('registration_id', E(res, 1))):
            known, v = item(p, out, k)
            ctx.judge('accepted', f'{name}: {k}', None if not known else v == want, f'the reply carries {k} {show(v) if v else None}', loc, p)
        known, v = item(p, out, 'requested_oadr_poll_freq')
        ctx.judge('accepted', f'{name}: poll frequency', None if not known else v == freq, f'the poll frequency is {show(v) if v else None}', loc, p)
        known, v = item(p, out, 'profiles')
        ctx.judge('accepted', f'{name}: profile', None if not known else offers(p, pl, v, I(pl, 'profile_name'), I(pl, 'transport_name')),
                  'the reply does not carry the profile and transport that the VEN asked for', loc, p)
    for k, what in ((True, 'refusing'), (False, 'accepting'), ('unusable', 'unusable')):
        if k != 'unusable' or n[k]:
            ctx.judge('accepted', f'{name}: {what} paths', True if n[k] else None, 'no such path', detail=f'{n[k]} paths')
    for got in ('None', 'False', '()', '("v",)', '("v", "r", "x")', '("v", "r")', '["v", "r"]', '("r", "v")'):
        src = f'async def probe(self, payload):\n    self.on_create_party_registration = lambda p: {got}\n    return await self.create_party_registration(payload)\n'
        for p in ctx.probe('openleadr.service.registration_service', src, types={SELF: ctx.repo.need_class(REG)}) or ():
            what = f'{name}: handler returns {got}'
            if p.kind != 'return':
                ctx.judge('refused' if 'v' not in got or len(eval(got)) != 2 else 'accepted', what, False if p.kind == 'raise' and p.value[1] in ('TypeError', 'KeyError', 'IndexError', 'AttributeError', 'NameError', 'UnboundLocalError', 'ValueError') else None,
                          f'the registration is not answered: {p.value[1]}', None, p)
                continue
            t, out = pair(p)
            if t is None:
                continue
            v = eval(got)
            for i, k in enumerate(('ven_id', 'registration_id')):
                known, x = item(p, out, k)
                if v and len(v) == 2:
                    ctx.judge('accepted', what, None if not known else x == C(v[i]), f'the reply carries {k} {show(x) if x else None}', None, p)
                else:
                    ctx.judge('refused', what, None if not known else nothing(p, x) or k == 'ven_id' and x == I(P('payload'), 'ven_id'), f'the reply carries {k} {show(x) if x else None}', None, p)
    # --- query
    f, pl, loc, ps = service_paths(ctx, REG, 'query_registration')
    name = 'RegistrationService.query_registration'
    own = default = 0
    for p in ps:
        if p.kind != 'return':
            continue
        cs = user_calls(p, 'on_query_registration')
        if cs:
            own += 1
            ctx.judge('query', f'{name}: own handler', len(cs) == 1 and user_args(cs[0]) == (pl,) and p.value == cs[0].res and awaited(p, cs[0].res),
                      f'an own on_query_registration is answered with {show(p.value)}', cs[0].loc, p)
            continue
        if p.facts.get(('hasattr', SELF, 'on_query_registration')) is True:
            ctx.violation('query', f'{name}: own handler', 'an own on_query_registration is not asked', loc, p)
            continue
        default += 1
        t, out = pair(p)
        ctx.judge('query', f'{name}: type', None if t is None and p.value[0] != 'c' else t == C(TYPE), f'the reply is {show(p.value)}', loc, p)
        if t is None:
            continue
        for k, want in (('requested_oadr_poll_freq', freq), ('request_id', I(pl, 'request_id'))):
            known, v = item(p, out, k)
            ctx.judge('query', f'{name}: {k}', None if not known else v == want or k == 'request_id' and v is None, f'the reply carries {k} {show(v) if v else None}', loc, p)
        known, v = item(p, out, 'profiles')
        ctx.judge('query', f'{name}: profile', None if not known else offers(p, pl, v, C('2.0b'), C('simpleHttp')),
                  'the query is not answered with profile 2.0b over simpleHttp', loc, p)
        for k in ('ven_id', 'registration_id'):
            known, v = item(p, out, k)
            ctx.judge('query', f'{name}: no {k}', None if not known else nothing(p, v), f'a query is answered with {k} {show(v) if v else None}', loc, p)
    ctx.judge('query', f'{name}: paths', True if own and default else None, 'not both kinds of paths', detail=f'{own} own, {default} default')
    # --- cancel
    f, pl, loc, ps = service_paths(ctx, REG, 'cancel_party_registration')
    name = 'RegistrationService.cancel_party_registration'
    n = {True: 0, False: 0}
    for p in ps:
        if p.kind != 'return':
            continue
        cs = user_calls(p, 'on_cancel_party_registration')
        ctx.judge('asked', f'{name}: handler', len(cs) == 1 and user_args(cs[0]) == (pl,), f'on_cancel_party_registration is called {len(cs)} times', loc, p)
        if len(cs) != 1:
            continue
        res = cs[0].res
        ctx.judge('asked', f'{name}: coroutine', awaited(p, res), 'the result is used without being awaited', cs[0].loc, p)
        none = p.facts.get(('isnone', res))
        if none is None and truthy(p.facts, res) is not None:
            none = not truthy(p.facts, res)
        if none is None:
            ctx.undecided('cancelled', f'{name}: result', 'what the handler returned is not told apart')
            continue
        n[none] += 1
        if not none:
            ctx.judge('cancelled', f'{name}: own result', p.value == res, f'the reply is {show(p.value)}', loc, p)
            continue
        t, out = pair(p)
        ctx.judge('cancelled', f'{name}: type', None if t is None and p.value[0] != 'c' else t == C('oadrCanceledPartyRegistration'), f'the reply is {show(p.value)}', loc, p)
        if t is not None:
            known, v = item(p, out, 'registration_id')
            ctx.judge('cancelled', f'{name}: registrationID', None if not known else v == I(pl, 'registration_id'), f'the confirmed registration is {show(v) if v else None}', loc, p)
    ctx.judge('cancelled', f'{name}: paths', True if n[True] else None, 'no path', detail=f'{n}')
    # --- configuration
    ctx.rule('configured', 'the poll frequency given to OpenADRServer is the one its registration service hands out')
    n = 0
    for p in crypto.server_paths(ctx) or ():
        if p.kind != 'return':
            continue
        for s, cname in crypto.services_made(ctx, p).items():
            if cname != 'RegistrationService':
                continue
            n += 1
            made = next((e for e in p.trace if e.res == s and e.kind == 'call'), None)
            v = crypto.stored(p, s, 'poll_freq') or (arg(made, 1, 'poll_freq') if made is not None else None)
            ctx.judge('configured', 'OpenADRServer: requested_poll_freq', None if v is None else v == P('requested_poll_freq'),
                      f'the registration service hands out {show(v) if v else None}', None, p)
    if not n:
        ctx.undecided('configured', 'OpenADRServer: requested_poll_freq', 'no path')
    c = ctx.repo.need_class(REG)
    f = ctx.repo.need_method(c.qual, '__init__')
    for p in ctx.run(f, SELF, self_cls=c) or ():
        if p.kind == 'return':
            v = crypto.stored(p, SELF, 'poll_freq')
            ctx.judge('configured', 'RegistrationService.__init__: poll_freq', v == P('poll_freq'), f'the registration service keeps {show(v) if v else None}', None, p)
    # --- fingerprint
    for c, ps in gate.gate_paths(ctx):
        n = 0
        for p in ps:
            _, _, mtype, payload = gate.message_terms(p)
            if payload is None:
                continue
            for i, e in gate.dispatches(p):
                tls = truthy(e.facts, A(gate.REQUEST, 'secure'))
                sets = [x for x in p.trace[:i] if x.kind in ('setitem', 'setattr') and x.args[0] == payload and x.args[1] in (C('fingerprint'), 'fingerprint')]
                for x in sets:
                    ctx.judge('fingerprint', f'{c.name}.handler: fingerprint added', gate.is_conn_fp(x.args[2]),
                              f'the handler is told the fingerprint {show(x.args[2])}', x.loc, p)
                is_reg = is_create(e.facts, mtype)
                if is_reg and tls:
                    n += 1
                    ctx.judge('fingerprint', f'{c.name}.handler: fingerprint of a registration over TLS', bool(sets),
                              'the registration handler is not told the fingerprint of the client certificate', e.loc, p)
                if tls is False:
                    got = [x for x in p.trace[:i] if x.kind in ('call', 'callx') and x.name == gate.CONNFP]
                    ctx.judge('fingerprint', f'{c.name}.handler: plain HTTP', not got, 'a request without TLS is asked for its certificate', e.loc, p)
        ctx.judge('fingerprint', f'{c.name}: paths', True if n else None, 'no path', detail=f'{n} dispatches')


def is_create(facts, mtype):
    """Is the message certainly an oadrCreatePartyRegistration?"""
    for a, v in facts.items():
        if v and a[0] == 'eq' and mtype in a[1:] and C('oadrCreatePartyRegistration') in a[1:]:
            return True
    return False


# ---------------------------------------------------------------------------- C27

def shape(p, res):
    """What the facts say the handler returned: 'none', 'pair', 'list', 'event dict', 'event', or None."""
    f = p.facts
    if f.get(('isnone', res)) is True:
        return 'none'
    out = None
    for a, v in f.items():
        if a[0] == 'isinst' and a[1] == res and v:
            names = {str(x).rsplit('.', 1)[-1].strip("')") for x in a[2]}
            if names == {'tuple'}:
                out = out or 'pair'
            elif names == {'list'}:
                out = out or 'list'
            elif names == {'Event'}:
                out = out or 'event'
            elif names == {'dict'} and f.get(('in', C('event_descriptor'), res)) is True:
                out = out or 'event dict'
    return out


def C27(ctx):
    ctx.rule('own-poll', 'with an own on_poll handler a poll asks exactly that handler, for the venID of the poll, and nothing of the internal queue; its result is awaited when '
             'it is a coroutine')
    ctx.rule('poll-result', 'a pair that on_poll returns is the answer as it is; an event, dict or list of events goes out as oadrDistributeEvent with exactly those events, '
             'in their order; nothing is answered with an empty oadrResponse')
    ctx.rule('own-events', 'with an own on_request_event handler the events it returns for this venID, and only those, go out; None is answered with an empty oadrResponse')
    ctx.rule('internal', 'without own handler neither on_poll nor on_request_event is called')
    f, pl, loc, ps = service_paths(ctx, POLL, 'poll', opaque={'openleadr.utils.order_events'})
    ven = I(pl, 'ven_id')
    name = 'PollService.poll'
    seen = {}
    for p in ps:
        if p.kind != 'return':
            continue
        ext = next((v for a, v in p.facts.items() if a[0] == 'eq' and A(SELF, 'polling_method') in a[1:] and C('external') in a[1:]), None)
        if ext is None:
            ext = next((not v for a, v in p.facts.items() if a[0] == 'eq' and A(SELF, 'polling_method') in a[1:] and C('internal') in a[1:]), None)
        if ext is None:
            ctx.undecided('own-poll', f'{name}: method', 'the polling method is not told apart')
            continue
        cs = user_calls(p, 'on_poll')
        if not ext:
            ctx.judge('internal', f'{name}: on_poll', not cs, 'on_poll is called although the internal queue is used', loc, p)
            continue
        ctx.judge('own-poll', f'{name}: asked', len(cs) == 1 and user_args(cs[0]) == (ven,), f'on_poll is called {len(cs)} times'
                  + (f' with {", ".join(map(show, user_args(cs[0])))}' if cs else ''), loc, p)
        if len(cs) != 1:
            continue
        queue = [e for e in p.trace if any(has(a, A(SELF, 'events_updated')) or has(a, A(SELF, 'event_service')) for a in e.args)]
        ctx.judge('own-poll', f'{name}: queue', not queue, 'the internal queue is used although there is an own on_poll handler', queue[0].loc if queue else loc, p)
        res = cs[0].res
        ctx.judge('own-poll', f'{name}: coroutine', awaited(p, res), 'the result of on_poll is used without being awaited', cs[0].loc, p)
        sh = shape(p, res)
        seen[sh] = seen.get(sh, 0) + 1
        t, out = pair(p)
        what = f'a result of kind {sh} is answered with {show(p.value)}'
        if sh == 'none':
            ok = t == C('oadrResponse') and (elements_of_dict(p, out) == {} or out == NONE)
        elif sh == 'pair':
            ok = p.value == res or (p.value[0] == 't' and p.value[1] == (E(res, 0), E(res, 1)))
        elif sh == 'list':
            ok = t == C('oadrDistributeEvent') and same_list(p, item(p, out, 'events')[1], res)
        elif sh in ('event dict', 'event'):
            sent = item(p, out, 'events')[1]
            its = elements(p, sent)
            ok = out != res and t == C('oadrDistributeEvent') and ((None if sent is None or not is_event(p, sent, res) else False) if its is None else
                                                    len(its) == 1 and is_event(p, its[0], res))
        else:
            # not told apart: it may be a pair, which must not go out as a list of events
            if t == C('oadrDistributeEvent') and item(p, out, 'events')[1] == res:
                ctx.violation('poll-result', f'{name}: pair', 'what may be a (type, payload) pair is sent as a list of events', loc, p)
            continue
        ctx.judge('poll-result', f'{name}: {sh}', ok, what, loc, p)
    for k in ('none', 'pair', 'list', 'event dict', 'event'):
        ctx.judge('poll-result', f'{name}: {k} paths', True if seen.get(k) else None, 'no such path', detail=f'{seen.get(k)} paths')
    # --- on_request_event
    f, pl, loc, ps = service_paths(ctx, EVENT, 'request_event', opaque={'openleadr.utils.order_events'})
    ven = I(pl, 'ven_id')
    name = 'EventService.request_event'
    n = {'none': 0, 'events': 0}
    for p in ps:
        if p.kind != 'return':
            continue
        ints = [v if C('internal') in a[1:] else not v for a, v in p.facts.items() if a[0] == 'eq' and A(SELF, 'polling_method') in a[1:]]
        if not ints:
            ctx.undecided('own-events', f'{name}: method', 'the polling method is not told apart')
            continue
        cs = user_calls(p, 'on_request_event')
        if ints[0]:
            ctx.judge('internal', f'{name}: on_request_event', not cs, 'on_request_event is called although the internal queue is used', loc, p)
            continue
        ctx.judge('own-events', f'{name}: asked', len(cs) == 1 and user_args(cs[0]) == (ven,), f'on_request_event is called {len(cs)} times'
                  + (f' with {", ".join(map(show, user_args(cs[0])))}' if cs else ''), loc, p)
        if len(cs) != 1:
            continue
        res = cs[0].res
        ctx.judge('own-events', f'{name}: coroutine', awaited(p, res), 'the result of on_request_event is used without being awaited', cs[0].loc, p)
        t, out = pair(p)
        if p.facts.get(('isnone', res)) is True:
            n['none'] += 1
            ctx.judge('own-events', f'{name}: none', t == C('oadrResponse') and (elements_of_dict(p, out) == {} or out == NONE), f'no events are answered with {show(p.value)}', loc, p)
            continue
        if t is None:
            ctx.undecided('own-events', f'{name}: reply', show(p.value))
            continue
        if t == C('oadrResponse'):
            ordered = [x for a, v in p.facts.items() for y in a[1:] if isinstance(y, tuple) and y and isinstance(y[0], str) for x in subterms(y)
                       if x[0] == 'call' and x[1].endswith('order_events')]
            gone = any(p.facts.get(('isnone', x)) is True or truthy(p.facts, x) is False for x in ordered) or truthy(p.facts, res) is False
            ctx.judge('own-events', f'{name}: dropped', True if gone else False, 'events that on_request_event returned are not sent', loc, p)
            continue
        n['events'] += 1
        known, ev = item(p, out, 'events')
        ok = None if not known or ev is None else (ev == res or ev[0] == 'call' and ev[1].endswith('order_events') and ev[2][:1] == (res,) and len(ev[2]) == 1 and not ev[3])
        if ok is False and ev[0] == 'o':
            ok = True if reaches(p, ev, res) else None
        ctx.judge('own-events', f'{name}: events', t == C('oadrDistributeEvent') and ok, f'what on_request_event returned goes out as {show(t)} with {show(ev) if ev else None}', loc, p)
    ctx.judge('own-events', f'{name}: paths', True if all(n.values()) else None, 'not all kinds of paths', detail=f'{n}')


def elements_of_dict(p, t):
    if t is None or t[0] != 'o':
        return None
    o = p.obj(t)
    if o is None or o[0] != 'dict' or o[2] or o[3] is not None:
        return None
    return dict(o[1])


def same_list(p, v, res):
    """Is v the list `res`, or a copy with the same items in the same order?"""
    if v is None:
        return None
    if v == res or v[0] == 'call' and v[1] in ('list', 'tuple', '.copy') and v[2] == (res,):
        return True
    if v[0] == 'call' and v[1].endswith('order_events'):
        return False
    if v[0] == 'o':
        o = p.obj(v)
        if o is not None and o[0] == 'list' and not o[2]:
            cnt = p.state.counts.get(res)
            its = o[1]
            if cnt is not None:
                if len(its) != cnt:
                    return False
                return True if all(its[i] == E(res, i) or is_event(p, its[i], E(res, i)) for i in range(cnt)) else None
            return False if not any(has(x, res) for x in its) or len(its) == 1 and its[0] == res else None
        return None
    return False if not has(v, res) or v[0] in ('slice', 'elem', 'item') else None


def is_event(p, v, res):
    if v == res:
        return True
    if v[0] == 'call' and v[1].split('.')[-1] in ('asdict', 'copy', 'deepcopy', 'dict') and res in v[2]:
        return True
    if v[0] == 'o':
        return True if reaches(p, v, res) else None
    return False if not has(v, res) else None


CHECKS = {'C09': C09, 'C27': C27}
