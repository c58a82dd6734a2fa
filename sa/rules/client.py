"""The VEN client around events and reports: registration, start-up, polling, requests, hooks, shutdown."""
import ast

from ..interp import P, A, I, E, C, NONE, FALSE, show, span, subterms
from ..q import arg, has, truthy, equal, notnone, value, const_of
from . import gate
from .vtn_events import awaited

CLIENT = 'openleadr.client.OpenADRClient'
SELF = P('self')
# the methods of the client that stay opaque unless a rule looks inside; helpers that are not in this list are followed
METHODS = ('run stop add_handler add_report add_hook poll query_registration create_party_registration '
           'create_party_reregistration cancel_party_registration request_event created_event sync_events create_opt '
           'cancel_opt register_reports create_report update_report cancel_report _report_queue_worker on_event '
           'on_update_event on_cancel_party_registration send_response _perform_request _execute_hooks _on_event '
           '_event_status_log _event_cleanup _poll _ensure_client_session').split()
PERFORM = f'{CLIENT}._perform_request'


def paths(ctx, method, inline=(), **cfg):
    cls = ctx.repo.need_class(CLIENT)
    f = ctx.repo.need_method(cls.qual, method)
    op = {f'{CLIENT}.{m}' for m in METHODS if m != method and m not in inline}
    ps = ctx.run(f, SELF, self_cls=cls, opaque=op, **cfg)
    return f, (f.file, f.qual, f.node.lineno), ps or ()


def sends(p):
    """[(index, event, service, message type, message term)] of the requests made on this path."""
    out = []
    for i, e in enumerate(p.trace):
        if e.kind == 'call' and e.name == PERFORM:
            msg = arg(e, 2, 'message')
            mt = made = None
            if msg is not None and msg[0] == 'call' and msg[1].endswith('_create_message'):
                for m in p.trace[:i]:
                    if m.kind == 'call' and m.res == msg:
                        made = m
                        mt = arg(m, 1, 'message_type')
            out.append((i, e, arg(e, 1, 'service'), mt, made))
    return out


def own_sets(p, *names):
    return [(i, e) for i, e in enumerate(p.trace) if e.kind == 'setattr' and e.args[0] == SELF and e.name in names]


def final(p, name):
    """(is it set on this path, value)"""
    v = p.state.store.get((SELF, 'a', name))
    if v is None:
        for _, e in own_sets(p, name):
            v = e.args[1]
    return v


def empty_now(p, name):
    """Is self.<name> an empty container at the end of this path?"""
    v = final(p, name)
    if v is not None:
        o = p.obj(v)
        if o is not None and o[0] in ('list', 'dict'):
            return not o[1]
        return v[0] == 'call' and v[1].endswith('Queue')
    return any(e.kind == 'mut' and e.name == 'clear' and e.args and e.args[0] == A(SELF, name) for e in p.trace)


CONTAINERS = ('reports', 'report_callbacks', 'report_requests', 'incomplete_reports', 'pending_reports')


def reset_done(ctx, rule, name, p, loc):
    for c in CONTAINERS:
        ctx.judge(rule, f'{name}: {c} emptied', empty_now(p, c),
                  f'after the registration is cancelled self.{c} still holds what was there before', loc, p)
    ctx.judge(rule, f'{name}: jobs removed', any(e.kind == 'call' and e.name == '.remove_all_jobs' and e.args[0] == A(SELF, 'scheduler')
                                                  for e in p.trace),
              'scheduled jobs (polling, reports) go on after the registration is cancelled', loc, p)
    task = A(SELF, 'report_queue_task')
    if truthy(p.facts, task) is not False and p.facts.get(('isnone', task)) is not True:
        ctx.judge(rule, f'{name}: queue worker stopped', any(e.kind == 'call' and e.name == '.cancel' and e.args[0] == task for e in p.trace),
                  'the report queue worker goes on after the registration is cancelled', loc, p)


def reset_any(p):
    return [e for _, e in own_sets(p, *CONTAINERS, 'registration_id', 'vtn_id', 'ven_id')] + \
        [e for e in p.trace if e.kind == 'call' and e.name == '.remove_all_jobs' or
         e.kind == 'mut' and e.args and e.args[0] in [A(SELF, c) for c in CONTAINERS]]


# ---------------------------------------------------------------------------- C38

STATE = ('registration_id', 'vtn_id', 'ven_id', 'poll_frequency')


def C38(ctx):
    ctx.rule('registered-by-200', 'create_party_registration changes registration_id, ven_id, vtn_id or the poll frequency only '
             'after a reply with response code 200, and to values from that reply; a failed or refused request changes nothing')
    ctx.rule('registration-taken', 'after a reply with code 200 registration_id is the one of the reply, or None when there is none; '
             'ven_id the one of the reply if it has one')
    ctx.rule('cancelled-by-200', 'cancel_party_registration forgets the registration exactly when the VTN confirmed it with '
             'oadrCanceledPartyRegistration and code 200, together with reports, requests, jobs and the queue worker')
    ctx.rule('cancel-from-vtn', 'a cancellation by the VTN is carried out exactly when it names the registration this VEN has, is '
             'answered with code 200 then and with 452 otherwise')
    register(ctx)
    cancel(ctx)
    cancelled_by_vtn(ctx)


def register(ctx):
    name = 'OpenADRClient.create_party_registration'
    f, loc, ps = paths(ctx, 'create_party_registration')
    good = bad = 0
    for p in ps:
        if p.kind != 'return':
            continue
        sd = sends(p)
        R = sd[0][1].res if sd else None
        sets = own_sets(p, *STATE)
        if R is None:
            ctx.judge('registered-by-200', f'{name}: no request', not sets, 'registration data changes without a request', loc, p)
            continue
        T, M = E(R, 0), E(R, 1)
        code = I(I(M, 'response'), 'response_code')
        ok = equal(p.facts, code, C(200))
        for i, e in sets:
            g = equal(e.facts, code, C(200))
            ctx.judge('registered-by-200', f'{name}: {e.name} after success only', g,
                      f'self.{e.name} is changed although the reply was not known to carry code 200', e.loc, p)
            v = e.args[1]
            src = v == NONE or has(v, M) or v[0] == 'call' and v[1] == 'datetime.timedelta'
            ctx.judge('registered-by-200', f'{name}: {e.name} from the reply', src or (None if v[0] == 'unk' else False),
                      f'self.{e.name} is set to {show(v)}, which is not from the reply', e.loc, p)
        if not ok:
            bad += 1
            continue
        good += 1
        rid = I(M, 'registration_id')
        v = final(p, 'registration_id')
        t = truthy(p.facts, rid)
        if t is None and p.facts.get(('in', C('registration_id'), M)) is False:
            t = False
        if t is True:
            ctx.judge('registration-taken', f'{name}: registration_id', v == rid, 'the registrationID of the reply is not kept', loc, p)
            for a, key in (('vtn_id', 'vtn_id'),):
                x = final(p, a)
                ctx.judge('registration-taken', f'{name}: {a}', x is not None and (x == I(M, key) or x == NONE),
                          f'the {key} of the reply is not kept', loc, p)
            x = final(p, 'poll_frequency')
            ctx.judge('registration-taken', f'{name}: poll frequency',
                      x is not None and (x == I(M, 'requested_oadr_poll_freq') or
                                         p.facts.get(('in', C('requested_oadr_poll_freq'), M)) is False or
                                         truthy(p.facts, I(M, 'requested_oadr_poll_freq')) is False or
                                         p.facts.get(('isnone', I(M, 'requested_oadr_poll_freq'))) is True),
                      'the poll frequency the VTN asked for is not used', loc, p)
        elif t is False:
            ctx.judge('registration-taken', f'{name}: refused', v is not None and (v == NONE or v == rid or v == C('')),
                      'a reply without registrationID leaves the VEN registered', loc, p)
        else:
            ctx.judge('registration-taken', f'{name}: registration_id', v == rid or None, 'not decided', loc, p)
        vid = I(M, 'ven_id')
        if truthy(p.facts, vid) is True:
            ctx.judge('registration-taken', f'{name}: ven_id', final(p, 'ven_id') == vid, 'the venID of the reply is not kept', loc, p)
    ctx.judge('registration-taken', f'{name}: paths', True if good and bad else None, 'no path', detail=f'{good} accepted, {bad} not')


def cancel(ctx):
    name = 'OpenADRClient.cancel_party_registration'
    f, loc, ps = paths(ctx, 'cancel_party_registration')
    n = 0
    for p in ps:
        if p.kind != 'return':
            continue
        sd = sends(p)
        if not sd:
            ctx.judge('cancelled-by-200', f'{name}: nothing sent', not reset_any(p), 'the registration is forgotten without asking the VTN', loc, p)
            continue
        R = sd[0][1].res
        T, M = E(R, 0), E(R, 1)
        yes = equal(p.facts, T, C('oadrCanceledPartyRegistration')) and equal(p.facts, I(I(M, 'response'), 'response_code'), C(200))
        if yes:
            n += 1
            ctx.judge('cancelled-by-200', f'{name}: forgotten', final(p, 'registration_id') == NONE,
                      'the VTN confirmed the cancellation but the VEN keeps its registration', loc, p)
            reset_done(ctx, 'cancelled-by-200', name, p, loc)
        else:
            bad = reset_any(p)
            ctx.judge('cancelled-by-200', f'{name}: kept', not bad, 'the registration (or part of it) is dropped although the VTN did '
                      'not confirm the cancellation', bad[0].loc if bad else loc, p)
    ctx.judge('cancelled-by-200', f'{name}: paths', True if n else None, 'no confirming path')


def cancelled_by_vtn(ctx):
    name = 'OpenADRClient.on_cancel_party_registration'
    f, loc, ps = paths(ctx, 'on_cancel_party_registration')
    msg = P(f.node.args.args[1].arg)
    rid = A(SELF, 'registration_id')
    n = m = 0
    for p in ps:
        if p.kind != 'return':
            continue
        eq = p.facts.get(('eq', rid, I(msg, 'registration_id')), p.facts.get(('eq', I(msg, 'registration_id'), rid)))
        sd = [x for x in sends(p) if x[3] == C('oadrCanceledPartyRegistration')]

        def code(x):
            return value(p, arg(x[4], None, 'response'), 'response_code')
        if eq is True:
            n += 1
            ctx.judge('cancel-from-vtn', f'{name}: forgotten', final(p, 'registration_id') == NONE,
                      'the VTN cancelled this registration but the VEN keeps it', loc, p)
            reset_done(ctx, 'cancel-from-vtn', name, p, loc)
            ctx.judge('cancel-from-vtn', f'{name}: confirmed', len(sd) == 1 and code(sd[0]) == C(200),
                      'the cancellation is not confirmed with code 200', loc, p)
        else:
            bad = reset_any(p)
            ctx.judge('cancel-from-vtn', f'{name}: kept', not bad, 'a cancellation that does not name this registration is '
                      'carried out', bad[0].loc if bad else loc, p)
            if eq is False:
                m += 1
                ctx.judge('cancel-from-vtn', f'{name}: refused', len(sd) == 1 and code(sd[0]) == C(452),
                          'a cancellation of another registration is not answered with code 452', loc, p)
        for x in sd:
            r = value(p, arg(x[4], None, 'response'), 'request_id')
            ctx.judge('cancel-from-vtn', f'{name}: request_id', r == I(msg, 'request_id'),
                      'the answer does not echo the request_id', x[1].loc, p)
            ctx.judge('cancel-from-vtn', f'{name}: endpoint', x[2] == C('EiRegisterParty') and awaited_now(p, x[1]),
                      'the answer is not sent to EiRegisterParty', x[1].loc, p)
    ctx.judge('cancel-from-vtn', f'{name}: paths', True if n and m else None, 'no path', detail=f'{n}+{m}')


def awaited_now(p, e):
    return any(x.kind in ('await', 'awaitx') and x.args and e.res in (x.args[0], *subterms(x.args[0])) for x in p.trace)


# ---------------------------------------------------------------------------- C37

WORK = {f'{CLIENT}.{m}' for m in ('register_reports', 'sync_events', '_poll', 'poll', 'request_event', 'create_report')}


def last_set(p, i, name):
    v = A(SELF, name)
    for j, e in own_sets(p, name):
        if j < i:
            v = e.args[1]
    return v


def C37(ctx):
    ctx.rule('registered-first', 'run and create_party_reregistration do nothing (reports, events, polls, jobs) unless the VEN has a '
             'registration_id; without one they stop the client')
    ctx.rule('answered-by-vtn', 'run starts work only after the VTN accepted the registration request itself (code 200)')
    ctx.rule('start-order', 'reports are registered before events are synchronised, and the scheduler is started last, once, with '
             'the poll, status and clean-up jobs')
    ctx.rule('worker', 'when there are reports, exactly one report queue worker runs')
    ctx.rule('poll-interval', 'the poll job runs every poll_frequency, at most every 24 hours')
    for m in ('run', 'create_party_reregistration'):
        startup(ctx, m)


def startup(ctx, m):
    name = f'OpenADRClient.{m}'
    f, loc, ps = paths(ctx, m, inline=('query_registration', 'create_party_registration'))
    n = stopped = 0
    for p in ps:
        if p.kind != 'return':
            continue
        accepted = None
        for i, e, svc, mt, made in sends(p):
            if mt == C('oadrCreatePartyRegistration'):
                accepted = equal(p.facts, I(I(E(e.res, 1), 'response'), 'response_code'), C(200))
        work = [(i, e) for i, e in enumerate(p.trace)
                if e.kind == 'call' and (e.name in WORK or e.name in ('.add_job', '.start') and e.args[0] == A(SELF, 'scheduler')) or e.kind == 'task']
        for i, e in work:
            rid = last_set(p, i, 'registration_id')
            ctx.judge('registered-first', f'{name}: {e.name.split(".")[-1]}', truthy(e.facts, rid) is True,
                      f'{e.name.split(".")[-1]} happens although the VEN may have no registration', e.loc, p)
            if m == 'run':
                ctx.judge('answered-by-vtn', f'{name}: {e.name.split(".")[-1]}', accepted is True,
                          'the client starts to work although its registration request was not accepted', e.loc, p)
        if not work:
            stopped += 1
            st = [e for e in p.trace if e.kind == 'call' and e.name == f'{CLIENT}.stop']
            ctx.judge('registered-first', f'{name}: stopped', bool(st) and awaited_now(p, st[0]), 'a client that is not registered is not stopped', loc, p)
            continue
        n += 1
        idx = {}
        for i, e in work:
            k = e.name.split('.')[-1]
            if k in ('register_reports', 'sync_events') or k == 'start':
                idx.setdefault(k, []).append(i)
            if e.name.startswith(CLIENT):
                ctx.judge('start-order', f'{name}: {k} awaited', awaited_now(p, e), f'{k} is not awaited', e.loc, p)
        ctx.judge('start-order', f'{name}: reports registered', len(idx.get('register_reports', [])) == 1, 'the reports are not registered once', loc, p)
        ctx.judge('start-order', f'{name}: events synchronised', len(idx.get('sync_events', [])) == 1, 'the events are not synchronised once', loc, p)
        if 'register_reports' in idx and 'sync_events' in idx:
            ctx.judge('start-order', f'{name}: reports first', idx['register_reports'][0] < idx['sync_events'][0],
                      'events are handled before the reports are registered', loc, p)
        for _, e in work:
            if e.name.endswith('.register_reports'):
                ctx.judge('start-order', f'{name}: reports', arg(e, 1, 'reports') == A(SELF, 'reports'), 'other reports than the own ones are registered', e.loc, p)
        tasks = [e for _, e in work if e.kind == 'task' and has_worker(e)]
        reports = truthy(p.facts, A(SELF, 'reports'))
        old = A(SELF, 'report_queue_task')
        running = m != 'run' and notnone(p.facts, old) and \
            any(a[0] == 'truth' and a[1][0] == 'call' and a[1][1] in ('.done', '.cancelled') and not v for a, v in p.facts.items())
        free = m == 'run' or p.facts.get(('isnone', old)) is True or truthy(p.facts, old) is False or \
            any(a[0] == 'truth' and a[1][0] == 'call' and a[1][1] in ('.done', '.cancelled') and v for a, v in p.facts.items()) or \
            any(e.kind == 'call' and e.name == '.cancel' and e.args[0] == old for e in p.trace)
        if tasks:
            ctx.judge('worker', f'{name}: one worker', free and len(tasks) == 1,
                      'a second report queue worker is started while the first may still run', tasks[0].loc, p)
        if reports is not False and not running:
            ctx.judge('worker', f'{name}: worker', len(tasks) == 1,
                      'not exactly one report queue worker runs: reports are never sent, or sent by two workers', loc, p)
        for e in tasks:
            kept = final(p, 'report_queue_task')
            ctx.judge('worker', f'{name}: handle kept', kept is not None and kept == e.res or (None if kept is None else kept != NONE),
                      'the queue worker is started but cannot be stopped', e.loc, p)
        if m != 'run':
            ctx.judge('start-order', f'{name}: no second scheduler', 'start' not in idx, 'the scheduler is started a second time', loc, p)
            continue
        ctx.judge('start-order', f'{name}: scheduler started once, last', len(idx.get('start', [])) == 1 and idx['start'][0] == work[-1][0] or
                  (False if not idx.get('start') else None if len(idx['start']) == 1 else False), 'the scheduler is not started', loc, p)
        jobs = [e for _, e in work if e.name == '.add_job']
        poll = None
        for want, per in (('_poll', None), ('_event_status_log', A(SELF, 'event_status_log_period')), ('_event_cleanup', A(SELF, 'events_clean_up_period'))):
            js = [e for e in jobs if targets(arg(e, 1, 'func'), want)]
            ctx.judge('start-order', f'{name}: job {want}', len(js) == 1, f'the job {want} is not scheduled exactly once', loc, p)
            if want == '_poll' and js:
                poll = js[0]
            elif js and arg(js[0], None, 'seconds') is not None:
                ctx.judge('start-order', f'{name}: period of {want}', arg(js[0], None, 'seconds') == per,
                          f'{want} does not run at the configured period', js[0].loc, p)
        if poll is not None:
            i = next(i for i, e in work if e is poll)
            freq = last_set(p, i, 'poll_frequency')
            s = arg(poll, None, 'seconds')
            ctx.judge('poll-interval', f'{name}: interval', interval_ok(poll.facts, s, freq, p), f'the poll job runs every {show(s) if s else "?"}', poll.loc, p)
    ctx.judge('registered-first', f'{name}: paths', True if n and stopped else None, 'no path', detail=f'{n} started, {stopped} stopped')


def has_worker(e):
    return any(x[0] in ('fn', 'coro', 'call', 'attr') and any('_report_queue_worker' in str(y) for y in x[1:2] + x[2:3]) for a in e.args for x in subterms(a))


def targets(f, m):
    return f is not None and (f[0] == 'fn' and f[1].endswith('.' + m) or f == A(SELF, m) or
                              f[0] in ('partial', 'call') and any(x[0] == 'fn' and x[1].endswith('.' + m) for x in subterms(f)))


def is_day(t):
    return t[0] == 'call' and t[1] == 'datetime.timedelta' and (
        (t[2], t[3]) in (((), (('hours', C(24)),)), ((), (('days', C(1)),)), ((C(1),), ()), ((), (('seconds', C(86400)),))))


def interval_ok(facts, s, freq, p):
    if s is None:
        return None
    if s[0] == 'call' and s[1] == '.total_seconds':
        s = s[2][0]
    day = is_day(s) or s in (C(86400), C(86400.0))
    if s[0] == 'c' and not day:
        return isinstance(s[1], (int, float)) and span(freq) is not None and s[1] == min(span(freq).total_seconds(), 86400)
    if s[0] == 'call' and s[1] == 'min' and len(s[2]) == 2:
        x = [y for y in s[2] if not is_day(y)]
        return True if len(x) == 1 and x[0] == freq else None
    if day:
        # only when the wanted frequency is longer than a day
        for a, v in facts.items():
            if a[0] == 'lt' and (is_day(a[1]) and v or is_day(a[2]) and not v):
                return True
        return None if any(a[0] == 'lt' for a in facts) else False
    if s != freq:
        return False
    for a, v in facts.items():
        if a[0] == 'lt' and a[1] != a[2]:
            if is_day(a[1]) and a[2] == s and not v or is_day(a[2]) and a[1] == s and v:
                return True
    return False if s[0] in ('item', 'attr') else None


# ---------------------------------------------------------------------------- C39

def C39(ctx):
    ctx.rule('hook-contained', 'whatever a client hook raises, when called or when awaited, does not leave _execute_hooks')
    ctx.rule('every-hook', 'every hook registered for the point is called once, in order, with the arguments of the point, and awaited if a coroutine')
    ctx.rule('hook-registered', 'add_hook (register) puts the callback in the list of that point, and refuses unknown points without any effect')
    ctx.rule('hook-points', 'a request runs before_send_xml before the message is posted, after_receive_xml on the reply, and the '
             'parsing hooks around validation and parsing, each with what it is documented to get')
    f, loc, ps = paths(ctx, '_execute_hooks', args=(P('hook_name'), P('args')), max_iter=2, raising=lambda n, a, t: ['RuntimeError'] if n in ('()', 'await') else [])
    lst = I(A(SELF, 'hooks'), P('hook_name'))
    name = 'OpenADRClient._execute_hooks'
    n = 0
    for p in ps:
        ctx.judge('hook-contained', f'{name}', p.kind == 'return', 'an exception of a hook escapes and stops the request', loc, p)
        called(ctx, 'every-hook', name, p, lst, loc)
        for e in p.trace:
            if e.kind in ('mut', 'setitem', 'del') and e.args and has(e.args[0], A(SELF, 'hooks')) or e.kind == 'setattr' and e.name == 'hooks':
                ctx.violation('every-hook', f'{name}: hooks stay', 'running the hooks changes which hooks are registered', e.loc, p)
        n += 1
    ctx.judge('every-hook', f'{name}: paths', True if n > 1 else None, 'no path')
    f = ctx.repo.need_func('openleadr.hooks.call')
    loc = (f.file, f.qual, f.node.lineno)
    g = ('glob', 'openleadr.hooks', 'HOOKS')
    n = 0
    for p in ctx.run(f, args=(P('hook_point'), P('args')), max_iter=2) or ():
        if p.kind == 'return':
            n += called(ctx, 'every-hook', 'hooks.call', p, I(g, P('hook_point')), loc)
    ctx.judge('every-hook', 'hooks.call: paths', True if n else None, 'no call of a hook seen')
    points(ctx)
    registering(ctx)


def called(ctx, rule, name, p, lst, loc):
    k = p.state.counts.get(lst)
    cs = [e for e in p.trace if e.kind in ('call', 'callx') and e.name == '()' and e.args and has(e.args[0], lst)]
    absent = p.facts.get(('in', lst[2], lst[1])) is False
    if not cs and (k is None and not absent):
        k = 0 if truthy(p.facts, lst) is False else None
    if k is None and not absent:
        ctx.judge(rule, f'{name}: hooks called', None if cs else False, 'the hooks of this point are not called', loc, p)
        return len(cs)
    want = [E(lst, i) for i in range(0 if absent else k)]
    ctx.judge(rule, f'{name}: hooks called', [e.args[0] for e in cs] == want, 'a hook of this point is skipped, or called twice or out of order', loc, p)
    for e in cs:
        rest = list(e.args[1:]) + [v for _, v in e.kw]
        ctx.judge(rule, f'{name}: arguments', rest == [P('args')], 'a hook does not get the arguments of the point', e.loc, p)
        if e.kind == 'call':
            ok = awaited_now(p, e) or p.facts.get(('iscoro', e.res)) is False or \
                any(x.kind == 'task' and e.res in x.args for x in p.trace)
            ctx.judge(rule, f'{name}: awaited', ok, 'a hook that is a coroutine is never run', e.loc, p)
    return len(cs)


def points(ctx):
    cls = ctx.repo.need_class(CLIENT)
    f = ctx.repo.need_method(cls.qual, '_perform_request')
    name = 'OpenADRClient._perform_request'
    n = 0
    for p in gate.client_request_paths(ctx, cls, f) or ():
        v = p.value
        if p.kind != 'return' or v[0] != 't' or len(v[1]) != 2 or v[1][0] == NONE:
            continue
        n += 1
        content, tree, mtype, payload = gate.message_terms(p)
        at = {}
        for i, e in enumerate(p.trace):
            if e.kind == 'call' and e.name.endswith('._execute_hooks'):
                at.setdefault(arg(e, 1, 'hook_name'), []).append((i, e))
            elif e.kind == 'call' and e.name in ('.post', '.request', gate.VALIDATE, gate.PARSE):
                at.setdefault(e.name.replace('.request', '.post'), []).append((i, e))
        msg = P(f.node.args.args[2].arg)
        order = [('before_send_xml', msg), ('.post', None), ('after_receive_xml', content), ('before_schema_validation', content),
                 (gate.VALIDATE, None), ('before_parse_xml', content), (gate.PARSE, None), ('after_parse_xml', mtype)]
        prev = -1
        for k, what in order:
            got = at.get(k if not what else C(k), [])
            if what is None:
                if got:
                    prev = got[0][0]
                continue
            ok = len(got) == 1 and got[0][0] > prev
            ctx.judge('hook-points', f'{name}: {k}', ok, f'the hooks of {k} do not run exactly once at their place', got[0][1].loc if got else None, p)
            if got:
                rest = list(got[0][1].args[2:]) + [x for _, x in got[0][1].kw]
                ctx.judge('hook-points', f'{name}: {k} argument', any(has(x, what) for x in rest), f'the hooks of {k} do not get what was sent or received', got[0][1].loc, p)
                ctx.judge('hook-points', f'{name}: {k} awaited', awaited_now(p, got[0][1]), 'not awaited', got[0][1].loc, p)
                prev = max(prev, got[0][0])
    ctx.judge('hook-points', f'{name}: paths', True if n else None, 'no path')


def registering(ctx):
    f, loc, ps = paths(ctx, 'add_hook')
    f2 = ctx.repo.need_func('openleadr.hooks.register')
    g = ('glob', 'openleadr.hooks', 'HOOKS')
    a = [P(x.arg) for x in f.node.args.args]
    b = [P(x.arg) for x in f2.node.args.args]
    for name, qs, tab, key, cb in (('OpenADRClient.add_hook', ps, A(SELF, 'hooks'), a[1], a[2]),
                                   ('hooks.register', ctx.run(f2) or (), g, b[0], b[1])):
        n = 0
        for p in qs:
            eff = [e for e in p.trace if e.kind in ('mut', 'setitem', 'del', 'setattr')]
            if p.kind == 'raise':
                ctx.judge('hook-registered', f'{name}: refused', not eff, 'an unknown hook point changes the table', loc, p)
                continue
            n += 1
            ctx.judge('hook-registered', f'{name}: added', len(eff) == 1 and eff[0].kind == 'mut' and eff[0].name == 'append' and
                      eff[0].args == (I(tab, key), cb) or (None if eff else False), 'the hook is not put in the list of its point', loc, p)
        ctx.judge('hook-registered', f'{name}: paths', True if n else None, 'no path')


# ---------------------------------------------------------------------------- C40

FAILING = {'ensure_str': ['UnicodeDecodeError'], '.decode': ['UnicodeDecodeError'], '.post': ['ClientConnectorError', 'TimeoutError', 'ValueError'],
           '.request': ['ClientConnectorError', 'TimeoutError', 'ValueError'], '.read': ['TimeoutError', 'ClientPayloadError', 'RuntimeError'],
           gate.VALIDATE: ['XMLSyntaxError', 'ValueError'], gate.VERIFY: ['InvalidSignature', 'FingerprintMismatch', 'ValueError'],
           gate.PARSE: ['RuntimeError', 'KeyError'], '()': ['RuntimeError']}


def C40(ctx):
    ctx.rule('request-total', 'once the session exists, _perform_request raises nothing, whatever goes wrong in sending, receiving, '
             'validating, verifying or parsing: every failure, a status other than 200 and an empty reply give (None, {})')
    ctx.rule('request-sent', 'the message is posted once to <vtn_url>/<service>, and the reply that is returned is the reply to it')
    ctx.rule('failed-request-harmless', 'no method of the client takes anything out of a reply before it knows that there is one')
    cls = ctx.repo.need_class(CLIENT)
    f = ctx.repo.need_method(cls.qual, '_perform_request')
    loc = (f.file, f.qual, f.node.lineno)
    name = 'OpenADRClient._perform_request'
    ps = ctx.run(f, SELF, self_cls=cls, opaque=gate.OPAQUE | {f'{CLIENT}._ensure_client_session', f'{CLIENT}._execute_hooks'},
                 raising=lambda n, a, t: FAILING.get(n, []))
    service, message = (P(x.arg) for x in f.node.args.args[1:3])
    n = m = 0
    for p in ps or ():
        ctx.judge('request-total', f'{name}: no exception', p.kind == 'return',
                  f'an exception ({show(p.value)}) leaves the request and ends the task that made it', loc, p)
        if p.kind != 'return':
            continue
        v = p.value
        pair = v[0] == 't' and len(v[1]) == 2
        ctx.judge('request-total', f'{name}: pair', pair or (None if v[0] not in ('c', 't') else False), 'the result is not a (type, payload) pair', loc, p)
        if not pair:
            continue
        failed = [e for e in p.trace if e.kind in ('callx', 'awaitx')]
        status = [a for a, x in p.facts.items() if a[0] == 'eq' and any(y[0] == 'attr' and y[2] == 'status' for y in a[1:]) and not x]
        if v[1][0] == NONE:
            m += 1
            o = p.obj(v[1][1])
            ctx.judge('request-total', f'{name}: nothing', o is not None and o[0] == 'dict' and not o[1], 'a failed request does not give (None, {})', loc, p)
        else:
            n += 1
            ctx.judge('request-total', f'{name}: failure noticed', not failed and not status,
                      'a request that failed is reported as a reply', failed[0].loc if failed else loc, p)
            posts = [e for e in p.trace if e.kind == 'call' and e.name in ('.post', '.request')]
            ctx.judge('request-sent', f'{name}: posted once', len(posts) == 1, 'the message is not posted exactly once', loc, p)
            for e in posts:
                url = arg(e, 1, 'url')
                ctx.judge('request-sent', f'{name}: url', url is not None and has(url, A(SELF, 'vtn_url')) and has(url, service),
                          'the message is not posted to the endpoint of its service', e.loc, p)
                ctx.judge('request-sent', f'{name}: message', any(has(x, message) for k, x in e.kw if k == 'data') or any(has(x, message) for x in e.args[2:]),
                          'something other than the message is posted', e.loc, p)
            content = gate.message_terms(p)[0]
            ctx.judge('request-sent', f'{name}: reply', content is not None and posts and has(content, posts[0].res) or
                      (None if content is not None and content[0] == 'call' and content[1] == '.read' else False),
                      'what is returned is not the reply to the message', loc, p)
            ctx.judge('request-total', f'{name}: status checked', any(a[0] in ('eq', 'inset') and any(isinstance(y, tuple) and y and y[0] == 'attr' and y[2] == 'status' for y in a[1:]) for a in p.facts),
                      'a reply with an error status is taken for a message', loc, p)
    if ps is not None:
        ctx.judge('request-total', f'{name}: paths', True if n and m else None, 'no path', detail=f'{n} replies, {m} failures')
    harmless(ctx)


def harmless(ctx):
    """Replies (type, payload) are only looked into when the type or the presence of the key is known."""
    cls = ctx.repo.need_class(CLIENT)
    n = 0
    for m in sorted(cls.methods):
        if m in ('_perform_request', '__init__'):
            continue
        if not uses_reply(cls.methods[m].node):
            continue
        f, loc, ps = paths(ctx, m, max_states=60000, max_seconds=40, max_depth=5, key_errors=True)
        name = f'OpenADRClient.{m}'
        for p in ps:
            Rs = [e.res for e in p.trace if e.kind == 'call' and e.name in (PERFORM, f'{CLIENT}.poll', f'{CLIENT}.request_event', f'{CLIENT}.query_registration')]
            for R in Rs:
                M, T = E(R, 1), E(R, 0)
                for t in [t for e in p.trace for t in list(e.args) + [v for _, v in e.kw]] + \
                        [t for a in p.facts for t in a[1:] if isinstance(t, tuple) and t and isinstance(t[0], str)]:
                    n += sum(1 for x in subterms(t) if x[0] == 'item' and x[1] == M)
                if p.kind != 'raise' or p.value[0] != 'exc' or p.value[1] != 'KeyError' or notnone(p.facts, T):
                    continue
                last = next(reversed(p.facts), None)
                if last is not None and last[0] == 'in' and last[2] == M:
                    ctx.violation('failed-request-harmless', f'{name}: {show(last[1])}', f'{name} takes {show(last[1])} out of a reply '
                                  'without knowing that the request succeeded: a lost connection ends in a KeyError', loc, p)
            ctx.ok('failed-request-harmless', f'{name}: path')
    ctx.judge('failed-request-harmless', 'client: replies looked into', True if n else None, 'none', detail=f'{n}')


def uses_reply(fnode):
    """Does the function make a request and do something with the result?"""
    dropped = {id(x) for s in ast.walk(fnode) if isinstance(s, ast.Expr) for x in (s.value, getattr(s.value, 'value', None))}
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and id(x) not in dropped and
               x.func.attr in ('_perform_request', 'poll', 'request_event', 'query_registration') for x in ast.walk(fnode))


# ---------------------------------------------------------------------------- C41

def C41(ctx):
    ctx.rule('dispatch', 'every kind of message a poll can return is handed to its procedure with its payload, and awaited')
    ctx.rule('dispatch-only', 'no procedure runs for another kind of message, or when nothing came')
    f, loc, ps = paths(ctx, '_poll', inline=('poll',))
    name = 'OpenADRClient._poll'
    want = {'oadrDistributeEvent': '_on_event', 'oadrCreateReport': 'create_report', 'oadrCancelPartyRegistration': 'on_cancel_party_registration',
            'oadrCancelReport': 'cancel_report', 'oadrRequestReregistration': 'create_party_reregistration'}
    procs = {f'{CLIENT}.{v}' for v in want.values()}
    seen = set()
    for p in ps:
        if p.kind != 'return':
            continue
        sd = sends(p)
        R = next((e.res for e in p.trace if e.kind == 'call' and e.name in (PERFORM, f'{CLIENT}.poll')), None)
        if R is None:
            ctx.judge('dispatch', f'{name}: poll', False, 'no poll is made', loc, p)
            continue
        if sd:
            ctx.judge('dispatch', f'{name}: poll request', sd[0][2] == C('OadrPoll') and sd[0][3] == C('oadrPoll') and
                      has_kw(sd[0][4], 'ven_id', A(SELF, 'ven_id')), 'the poll is not an oadrPoll of this VEN to OadrPoll', loc, p)
        T, M = E(R, 0), E(R, 1)
        mt = const_of(p.facts, T)
        done = [e for e in p.trace if e.kind == 'call' and e.name in procs]
        for e in done:
            ctx.judge('dispatch-only', f'{name}: {e.name.split(".")[-1]}', want.get(mt) == e.name.split('.')[-1],
                      f'{e.name.split(".")[-1]} runs for a message of type {mt}', e.loc, p)
        if mt in want:
            seen.add(mt)
            key = {'oadrDistributeEvent': 'events', 'oadrCreateReport': 'report_requests'}.get(mt)
            if key and nothing(p.facts, M, key):
                continue
            ok = [e for e in done if e.name == f'{CLIENT}.{want[mt]}']
            good = len(ok) == 1 and awaited_now(p, ok[0]) and (mt == 'oadrRequestReregistration' or (len(ok[0].args) > 1 and ok[0].args[1] == M) or M in [v for _, v in ok[0].kw])
            ctx.judge('dispatch', f'{name}: {mt}', good, f'a {mt} from the VTN is not handed (once, awaited, with its payload) to {want[mt]}', loc, p)
            if mt == 'oadrRequestReregistration':
                r = [e for e in p.trace if e.kind == 'call' and e.name == f'{CLIENT}.send_response']
                other = [x for x in sd if x[3] == C('oadrResponse')]
                ctx.judge('dispatch', f'{name}: {mt} acknowledged', len(r) == 1 and awaited_now(p, r[0]) and
                          arg(r[0], 1, 'service') == C('EiRegisterParty') or bool(other),
                          'the request to register again is not acknowledged', loc, p)
                if r and ok:
                    ctx.judge('dispatch', f'{name}: {mt} acknowledged first', p.trace.index(r[0]) < p.trace.index(ok[0]),
                              'the acknowledgement comes after the registration', loc, p)
        elif mt == 'oadrRegisterReport':
            seen.add(mt)
            a = [x for x in sd if x[3] == C('oadrRegisteredReport')]
            ctx.judge('dispatch', f'{name}: {mt}', len(a) == 1 and a[0][2] == C('EiReport') and awaited_now(p, a[0][1]) and
                      value(p, arg(a[0][4], None, 'response'), 'request_id') == I(M, 'request_id'),
                      'oadrRegisterReport is not answered with oadrRegisteredReport', loc, p)
    for k in list(want) + ['oadrRegisterReport']:
        ctx.judge('dispatch', f'{name}: {k} recognised', k in seen, f'the client ignores {k} messages', loc)
    sync(ctx)


def has_kw(ev, k, v):
    return ev is not None and arg(ev, None, k) == v


def nothing(facts, M, key):
    k = I(M, key)
    if facts.get(('in', C(key), M)) is False or truthy(facts, k) is False:
        return True
    ln = ('call', 'len', (k,), (), 0)
    return facts.get(('lt', C(0), ln)) is False or facts.get(('eq', ln, C(0))) is True or truthy(facts, ln) is False


def sync(ctx):
    f, loc, ps = paths(ctx, 'sync_events', inline=('request_event',))
    name = 'OpenADRClient.sync_events'
    n = 0
    for p in ps:
        if p.kind != 'return':
            continue
        R = next((e.res for e in p.trace if e.kind == 'call' and e.name in (PERFORM, f'{CLIENT}.request_event')), None)
        if R is None:
            ctx.judge('dispatch', f'{name}: request', False, 'no events are requested', loc, p)
            continue
        M = E(R, 1)
        done = [e for e in p.trace if e.kind == 'call' and e.name == f'{CLIENT}._on_event']
        if nothing(p.facts, M, 'events') or p.facts.get(('isnone', E(R, 0))) is True:
            ctx.judge('dispatch-only', f'{name}: nothing', not done, 'events are handled although none came', loc, p)
            continue
        n += 1
        ctx.judge('dispatch', f'{name}: events', len(done) == 1 and awaited_now(p, done[0]) and arg(done[0], 1, 'message') == M,
                  'the events that were requested are not handed to _on_event', loc, p)
    ctx.judge('dispatch', f'{name}: paths', True if n else None, 'no path')


# ---------------------------------------------------------------------------- C42

def C42(ctx):
    ctx.rule('all-released', 'stop shuts the scheduler down if it runs, cancels the queue worker if there is one, and closes the '
             'session if there is one, in whatever state the client is')
    f, loc, ps = paths(ctx, 'stop')
    name = 'OpenADRClient.stop'
    n = 0
    for p in ps:
        ctx.judge('all-released', f'{name}: no exception', p.kind == 'return', 'stop raises', loc, p)
        if p.kind != 'return':
            continue
        n += 1
        for what, cond, call in (('scheduler', A(A(SELF, 'scheduler'), 'running'), '.shutdown'), ('report_queue_task', A(SELF, 'report_queue_task'), '.cancel'),
                                 ('client_session', A(SELF, 'client_session'), '.close')):
            off = truthy(p.facts, cond) is False or p.facts.get(('isnone', cond)) is True
            es = [e for e in p.trace if e.kind == 'call' and e.name == call and e.args[0] == A(SELF, what)]
            if off:
                ctx.judge('all-released', f'{name}: {what} not there', not es, f'stop uses the {what} although there is none', loc, p)
                continue
            if what == 'report_queue_task' and any(a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == '.done' and v for a, v in p.facts.items()):
                continue
            if what == 'client_session' and truthy(p.facts, A(A(SELF, what), 'closed')) is True:
                continue
            ctx.judge('all-released', f'{name}: {what}', len(es) == 1 and (what != 'client_session' or awaited_now(p, es[0])),
                      f'stop leaves the {what} alive', loc, p)
            if es and not (truthy(es[0].facts, cond) is True or notnone(es[0].facts, cond)):
                ctx.judge('all-released', f'{name}: {what} checked', False, f'stop fails when there is no {what}', es[0].loc, p)
    ctx.judge('all-released', f'{name}: paths', True if n else None, 'no path')
    # one session is reused
    f, loc, ps = paths(ctx, '_ensure_client_session')
    for p in ps:
        if truthy(p.facts, A(SELF, 'client_session')) is True:
            ctx.judge('all-released', 'OpenADRClient._ensure_client_session: reused', not own_sets(p, 'client_session'),
                      'every request opens a session that is never closed', loc, p)
        for _, e in own_sets(p, 'client_session'):
            ctx.judge('all-released', 'OpenADRClient._ensure_client_session: only when there is none',
                      truthy(e.facts, A(SELF, 'client_session')) is False or e.facts.get(('isnone', A(SELF, 'client_session'))) is True or
                      truthy(e.facts, A(A(SELF, 'client_session'), 'closed')) is True,
                      'a session is opened although there is one, which is then never closed', e.loc, p)
        if p.kind == 'return' and truthy(p.facts, A(SELF, 'client_session')) is False:
            ctx.judge('all-released', 'OpenADRClient._ensure_client_session: kept', bool(own_sets(p, 'client_session')) or None,
                      'the session that is opened is not kept', loc, p)


CHECKS = {'C37': C37, 'C38': C38, 'C39': C39, 'C40': C40, 'C41': C41, 'C42': C42}
