"""What users pass to the API of the VTN and the VEN: refused with nothing changed, or taken as it is."""
import ast

from ..interp import P, A, I, E, C, NONE, FALSE, show, subterms
from ..q import arg, has, truthy, equal, notnone, value, const_of, reaches
from . import client
from .client import CLIENT, PERFORM, sends
from .crypto import stored

SERVER = 'openleadr.server.OpenADRServer'
SELF = P('self')
RAW = f'{SERVER}.add_raw_event'
PERIOD = 'openleadr.utils.get_active_period_from_intervals'


def enum_values(ctx, name):
    """The constants of an enumeration class of openleadr.enums, from its class body."""
    c = ctx.repo.need_class(f'openleadr.enums.{name}')
    return {v.value for v in c.attrs.values() if isinstance(v, ast.Constant)}


def within(facts, t, allowed):
    """Do the facts say that t is one of the allowed constants?  True / False (it is something else) / None"""
    for a, v in facts.items():
        if a[0] == 'inset' and a[1] == t:
            s = {x[0] for x in a[2]}
            if v and s <= allowed:
                return True
            if not v and s >= allowed:
                return False
    c = const_of(facts, t)
    if c is not None:
        return c in allowed
    return None


def prefixed(facts, t, prefix):
    for a, v in facts.items():
        if a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == '.startswith' and a[1][2][:1] == (t,) and a[1][2][1:2] == (C(prefix),):
            return v
    return None


MUTATIONS = ('setattr', 'setitem', 'mut', 'del', 'setglobal')


def outside(p, e):
    """A change to something that was not made on this very path."""
    return e.kind in MUTATIONS and e.args and e.args[0][0] not in ('o',) and not (
        e.args[0][0] == 'call' and e.args[0][1] == PERIOD)


def C47(ctx):
    ctx.rule('refused', 'add_event queues an event only when facts on the path establish a supported signal type, a supported or x- signal name, a '
             'non-empty list or tuple of intervals, a known response requirement, a market context that matches the URI pattern and internal '
             'polling; any path on which one of them fails queues and changes nothing')
    ctx.rule('as-given', 'the event that is queued carries the signal, intervals, market context, response requirement, targets and period '
             'settings the caller gave, for the ven_id given, with its callbacks; its id is returned')
    ctx.rule('aware', 'no interval reaches the queue with a naive dtstart: one without tzinfo is converted with astimezone first')
    ctx.rule('raw-kept', 'add_raw_event changes the given event only to fill in a status, active period or priority that is missing')
    ctx.rule('raw-refused', 'add_raw_event refuses a callback that cannot take ven_id, event_id and opt_type before anything is changed')
    ctx.rule('accepted', 'every supported signal name, every name that starts with x- and every supported signal type is accepted, and targets given in any of the '
             'three ways are the targets of the event, in their order')
    ctx.rule('raw-queued', 'add_raw_event appends the event to the queue of that VEN alone, marks this VEN as having news, registers the callbacks given under this VEN and '
             'the id of the event, and returns this id')
    add_event(ctx)
    accepted(ctx)
    add_raw(ctx)


def add_event(ctx):
    cls = ctx.repo.need_class(SERVER)
    f = ctx.repo.need_method(cls.qual, 'add_event')
    loc = (f.file, f.qual, f.node.lineno)
    name = 'OpenADRServer.add_event'
    ps = ctx.run(f, SELF, self_cls=cls, opaque={RAW, PERIOD, 'openleadr.utils.ungroup_targets_by_type'}, max_iter=2)
    types, names = enum_values(ctx, 'SIGNAL_TYPE'), enum_values(ctx, 'SIGNAL_NAME')
    polling = [A(I(A(SELF, 'services'), C(s)), 'polling_method') for s in ('event_service', 'poll_service')]
    good = bad = 0
    for p in ps or ():
        qs = [e for e in p.trace if e.kind == 'call' and e.name == RAW]
        if not qs:
            bad += 1
            ch = [e for e in p.trace if outside(p, e)]
            ctx.judge('refused', f'{name}: nothing changed', not ch, 'an event is refused after something was changed',
                      ch[0].loc if ch else loc, p)
            # refused although everything is in order?
            continue
        if p.kind != 'return':
            continue
        good += 1
        e = qs[0]
        ctx.judge('as-given', f'{name}: queued once', len(qs) == 1, 'the event is queued more than once', e.loc, p)
        fa = e.facts
        ext = [v for x in polling for v in [equal(fa, x, C('external'))] ]
        known = any(fa.get(('eq', x, C('external'))) is False or const_of(fa, x) not in (None, 'external') for x in polling)
        ctx.judge('refused', f'{name}: own on_poll handler', False if any(ext) or not known else True,
                  'an event is queued although an own on_poll handler means that it is never delivered', e.loc, p)
        w = within(fa, P('signal_type'), types)
        ctx.judge('refused', f'{name}: signal type', w is True or bool(prefixed(fa, P('signal_type'), 'x-')),
                  'an event with an unsupported signal type is queued', e.loc, p)
        w = within(fa, P('signal_name'), names)
        ctx.judge('refused', f'{name}: signal name', w is True or bool(prefixed(fa, P('signal_name'), 'x-')),
                  'an event with an unsupported signal name is queued', e.loc, p)
        ctx.judge('refused', f'{name}: intervals', truthy(fa, P('intervals')) is True or
                  any(a[0] in ('lt', 'le', 'eq') and has(a[1], P('intervals')) for a in fa) or False,
                  'an event without intervals is queued', e.loc, p)
        ctx.judge('refused', f'{name}: response requirement', within(fa, P('response_required'), {'always', 'never'}),
                  'an event with an unknown response requirement is queued', e.loc, p)
        mc = [v for a, v in fa.items() if a[0] in ('truth', 'isnone') and a[1][0] == 'call' and has(a[1], P('market_context'))]
        ok = any(v == (a[0] == 'truth') for a, v in fa.items() if a[0] in ('truth', 'isnone') and a[1][0] == 'call'
                 and has(a[1], P('market_context')))
        ctx.judge('refused', f'{name}: market context', ok if mc else False, 'the market context of an event is not checked', e.loc, p)
        event_as_given(ctx, name, p, e)
    ctx.judge('refused', f'{name}: paths', True if good and bad else None, 'no path', detail=f'{good} queued, {bad} refused')


def every_start(ctx):
    """Both intervals of an event with two are looked at."""
    name = 'OpenADRServer.add_event'
    ps = ctx.probe('openleadr.server', "def probe(self, ven, a, b):\n    return self.add_event(ven, 'SIMPLE', 'level', [a, b])\n", types={SELF: ctx.repo.need_class(SERVER)}, opaque={RAW, PERIOD})
    for p in ps or ():
        e = next((e for e in p.trace if e.kind == 'call' and e.name == RAW), None)
        for k, x in enumerate((P('a'), P('b')) if e is not None else ()):
            tz = any(a[0] in ('isnone', 'truth') and any(y[0] == 'attr' and y[2] == 'tzinfo' and has(y, x) for y in subterms(a[1])) for a in e.facts)
            conv = any(y[0] == 'call' and y[1] == '.astimezone' and has(y, x) for s in p.trace if s.kind in ('setitem', 'setattr', 'call') for z in s.args for y in subterms(z))
            ctx.judge('aware', f'{name}: interval {k + 1} of 2', tz or conv, f'the start of interval {k + 1} of an event with two is not checked for a timezone', e.loc, p)


def accepted(ctx):
    every_start(ctx)
    cls = ctx.repo.need_class(SERVER)
    name = 'OpenADRServer.add_event'
    cfg = dict(types={SELF: cls}, opaque={RAW, PERIOD, 'openleadr.utils.ungroup_targets_by_type'})

    def probe(call):
        return ctx.probe('openleadr.server', f'def probe(self, ven, iv, t1, t2, group):\n    return self.add_event(ven, {call})\n', **cfg) or ()

    def queue(p):
        return next((e for e in p.trace if e.kind == 'call' and e.name == RAW), None)

    def excused(p):
        """Something else than the names is given as the reason on this path."""
        return any(equal(p.facts, A(I(A(SELF, 'services'), C(s)), 'polling_method'), C('external')) for s in ('event_service', 'poll_service')) or \
            any(a[0] in ('truth', 'isnone') and a[1][0] == 'call' and a[1][1].startswith('re.') and v == (a[0] == 'isnone') for a, v in p.facts.items())

    types, names = enum_values(ctx, 'SIGNAL_TYPE') or (), enum_values(ctx, 'SIGNAL_NAME') or ()
    tries = [(x, 'level') for x in sorted(names)] + [('SIMPLE', x) for x in sorted(types)] + [('x-own', 'level')]
    for sn, st in tries:
        if not isinstance(sn, str) or not isinstance(st, str):
            continue
        ps = probe(f'{sn!r}, {st!r}, [iv], targets=[t1]')
        got = [p for p in ps if queue(p) is not None]
        why = next((p for p in ps if p.kind == 'raise' and not excused(p)), None)
        ctx.judge('accepted', f'{name}: signal {sn} of type {st}', True if got and why is None else (False if why is not None and not got else None),
                  'an event with a supported signal is refused', None, why)
    for sn, st in (('NO_SIGNAL', 'level'), ('SIMPLE', 'noType'), ('', 'level')):
        got = next((p for p in probe(f'{sn!r}, {st!r}, [iv], targets=[t1]') if queue(p) is not None), None)
        ctx.judge('refused', f'{name}: signal {sn!r} of type {st!r}', got is None, 'an event with an unsupported signal is queued', None, got)
    for how, call, want in (('targets', 'targets=[t1, t2]', [P('t1'), P('t2')]), ('target', 'target=t1', [P('t1')]), ('neither', '', None),
                            ('targets_by_type', 'targets_by_type=group', P('group')), ('target as targets', 'targets={"ven_id": t1}', ['one'])):
        for p in probe(f"'SIMPLE', 'level', [iv], {call}"):
            e = queue(p)
            if e is None:
                continue
            t = value(p, arg(e, 2, 'event'), 'targets')
            o = p.obj(t) if t is not None and t[0] == 'o' else None
            what = f'targets given as {how} become {show(t) if t else None}'
            if how == 'targets_by_type':
                ok = t is not None and t[0] == 'call' and t[1].endswith('ungroup_targets_by_type') and t[2] == (P('group'),)
                if not ok and p.facts.get(('isnone', P('group'))) is True:
                    continue
                ok = ok or (None if t is None or has(t, P('group')) else False)
                if t is not None and o is not None and o[0] == 'list' and len(o[1]) == 1 and o[1][0][0] == 'call':
                    # a list around what is a list already, unless the facts say that it is none
                    was = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == o[1][0]]
                    if was and not any(was):
                        continue
                    ok = False if was else None
            elif o is None or o[0] != 'list' or o[2]:
                ok = None if t is None or t[0] == 'o' and o is not None and o[0] == 'list' else False
            elif how == 'neither':
                ok = len(o[1]) == 1 and value(p, o[1][0], 'ven_id') == P('ven')
            elif how == 'target as targets':
                ok = len(o[1]) == 1 and value(p, o[1][0], 'ven_id') == P('t1')
            elif p.facts.get(('isnone', P('t1'))) is True:
                continue
            else:
                ok = list(o[1]) == want
            ctx.judge('accepted', f'{name}: {how}', ok, what, e.loc, p)


def queued(ctx, name, p, ev, ven, cb, dcb, loc):
    def of_service(t, attr, service):
        """Is t the attribute of that service?"""
        if t == A(I(A(SELF, 'services'), C(service)), attr):
            return True
        return False if t[0] == 'attr' and t[1][0] == 'item' and t[1][1] == A(SELF, 'services') else None

    eid = None
    adds, marks, regs = [], [], {'event_callbacks': [], 'event_delivery_callbacks': []}
    for e in p.trace:
        if e.kind == 'mut' and e.name in ('append', 'insert', 'extend', '+=') and e.args[-1] in (ev,) or e.kind == 'mut' and p.obj(e.args[-1]) is not None and \
                p.obj(e.args[-1])[0] == 'list' and p.obj(e.args[-1])[1] == (ev,):
            adds.append(e)
        elif e.kind == 'setitem' and e.args[1] == ven and e.args[2] == C(True):
            marks.append(e)
        elif e.kind == 'setitem' and e.args[1][0] == 't' and e.args[0][0] == 'attr' and e.args[0][2] in regs:
            regs[e.args[0][2]].append(e)
    ctx.judge('raw-queued', f'{name}: queued once', len(adds) == 1 or (None if not adds else False), f'the event is queued {len(adds)} times', loc, p)
    for e in adds:
        t = e.args[0]
        fresh = [x for x in p.trace if x.kind == 'setitem' and x.args[2] == t]
        where = fresh[-1].args[0] if fresh else (t[1] if t[0] == 'item' else None)
        key = fresh[-1].args[1] if fresh else (t[2] if t[0] == 'item' else None)
        ctx.judge('raw-queued', f'{name}: queue of this VEN', None if key is None else key == ven, 'the event is queued for another VEN', e.loc, p)
        ctx.judge('raw-queued', f'{name}: the queue that is served', None if where is None else of_service(where, 'events', 'event_service'), f'the event is queued in {show(where) if where else "?"}', e.loc, p)
    ctx.judge('raw-queued', f'{name}: news', any(of_service(e.args[0], 'events_updated', 'poll_service') is not False for e in marks) or False,
              'the VEN is not marked as having news', loc, p)
    want = I(I(ev, 'event_descriptor'), 'event_id')
    ids = (want, I(I(ev, 'event_descriptor'), C('event_id')), A(A(ev, 'event_descriptor'), 'event_id'))
    ctx.judge('raw-queued', f'{name}: returned id', p.value in ids or (False if p.value[0] in ('c', 'p') or p.value == ev else None), f'{show(p.value)} is returned instead of the id of the event', loc, p)
    for attr, given in (('event_callbacks', cb), ('event_delivery_callbacks', dcb)):
        none = p.facts.get(('isnone', given))
        if none is None:
            none = None if truthy(p.facts, given) is None else not truthy(p.facts, given)
        es = regs[attr]
        if none is True:
            ctx.judge('raw-queued', f'{name}: {attr} without callback', not es, 'a callback is registered although none was given', loc, p)
        elif none is False:
            ctx.judge('raw-queued', f'{name}: {attr} registered', len(es) == 1 or (False if not es else None), 'a callback that was given is not registered', loc, p)
        for e in es:
            ctx.judge('raw-queued', f'{name}: {attr} of the event service', of_service(e.args[0], attr, 'event_service'), f'the callback is registered in {show(e.args[0])}', e.loc, p)
            k = e.args[1][1]
            ctx.judge('raw-queued', f'{name}: {attr} key', len(k) == 2 and k[0] == ven and (k[1] in ids or k[1] == p.value), f'the callback is registered under {show(e.args[1])}', e.loc, p)
            v = e.args[2]
            ok = v == given or attr == 'event_callbacks' and v[0] == 't' and v[1] == (ev, given)
            ctx.judge('raw-queued', f'{name}: {attr} value', ok or (None if has(v, given) and attr != 'event_callbacks' else False), f'{show(v)} is registered as the callback', e.loc, p)


def event_as_given(ctx, name, p, e):
    fa = e.facts
    ev = arg(e, 2, 'event')
    ctx.judge('as-given', f'{name}: ven', arg(e, 1, 'ven_id') == P('ven_id'), 'the event is queued for another VEN', e.loc, p)
    ctx.judge('as-given', f'{name}: callback', arg(e, 3, 'callback') == P('callback'), 'the callback is not registered with the event', e.loc, p)
    ctx.judge('as-given', f'{name}: delivery callback', arg(e, 4, 'delivery_callback') == P('delivery_callback'),
              'the delivery callback is not registered with the event', e.loc, p)
    if ev is None or p.obj(ev) is None:
        ctx.undecided('as-given', f'{name}: event', show(ev) if ev else 'none')
        return
    v = value(p, ev, 'response_required')
    ctx.judge('as-given', f'{name}: response_required', v == P('response_required'), 'the response requirement is not the one given', e.loc, p)
    d = value(p, ev, 'event_descriptor')
    if d is None:
        ctx.undecided('as-given', f'{name}: descriptor', 'not recognised')
    else:
        ctx.judge('as-given', f'{name}: market_context', value(p, d, 'market_context') == P('market_context'),
                  'the market context is not the one given', e.loc, p)
        eid = value(p, d, 'event_id')
        if truthy(fa, P('event_id')) is not False and fa.get(('isnone', P('event_id'))) is not True:
            ctx.judge('as-given', f'{name}: event_id', eid == P('event_id') or (None if eid is not None and has(eid, P('event_id')) else False), 'the event id is not the one given', e.loc, p)
        same = p.value == eid or p.value == e.res
        ctx.judge('as-given', f'{name}: returned id', same, f'the id that is returned ({show(p.value)}) is not that of the event ({show(eid)})',
                  e.loc, p)
        ctx.judge('as-given', f'{name}: first version', value(p, d, 'modification_number') in (C(0), P('modification_number')),
                  'a new event does not start at modification number 0', e.loc, p)
    sg = value(p, ev, 'event_signals')
    o = p.obj(sg) if sg is not None else None
    if o is None or o[0] != 'list' or len(o[1]) != 1:
        ctx.judge('as-given', f'{name}: one signal', None if o is None or o[0] != 'list' else False, 'the event does not have exactly one signal', e.loc, p)
    else:
        s = o[1][0]
        for k in ('intervals', 'signal_name', 'signal_type'):
            x = value(p, s, k)
            ctx.judge('as-given', f'{name}: {k}', x == P(k) or (None if x is not None and has(x, P(k)) else False), f'the {k} of the signal is not what was given', e.loc, p)
    ap = value(p, ev, 'active_period')
    if ap is not None:
        ctx.judge('as-given', f'{name}: active period', any(x == P('intervals') for x in subterms(ap)) or
                  (None if p.obj(ap) is not None else False), 'the active period is not that of the given intervals', e.loc, p)
        for k in ('ramp_up_period', 'notification_period', 'recovery_period'):
            x = value(p, ap, k)
            ctx.judge('as-given', f'{name}: {k}', x == P(k) or (True if x == NONE and truthy(fa, P(k)) is False else
                      (False if x is None or x[0] in ('p', 'c') or x == I(ap, C(k)) else None)), f'the {k} is not what was given', e.loc, p)
    # targets
    given = {k: False if fa.get(('isnone', P(k))) is True or truthy(fa, P(k)) is False else
             (True if fa.get(('isnone', P(k))) is False or truthy(fa, P(k)) else None) for k in ('target', 'targets', 'targets_by_type')}
    t = value(p, ev, 'targets')
    maybe = [k for k, v in given.items() if v is not False]
    if t is None:
        ctx.undecided('as-given', f'{name}: targets', 'not recognised')
    elif not maybe:
        ctx.judge('as-given', f'{name}: default target', reaches(p, t, P('ven_id')), 'without a target the event is not targeted at the VEN', e.loc, p)
    elif len(maybe) == 1:
        ctx.judge('as-given', f'{name}: {maybe[0]}', reaches(p, t, P(maybe[0])), f'the {maybe[0]} given is not what the event is for', e.loc, p)
    else:
        ctx.judge('as-given', f'{name}: target, targets, targets_by_type', any(reaches(p, t, P(k)) for k in maybe),
                  'the targets given are not those of the event', e.loc, p)
    # naive timestamps
    iv = P('intervals')
    n = p.state.counts.get(iv, 0)
    i = p.trace.index(e)
    for k in range(n):
        x = E(iv, k)
        tz = [v for a, v in fa.items() if a[0] == 'isnone' and a[1][0] == 'attr' and a[1][2] == 'tzinfo' and has(a[1], x)]
        if not tz:
            c = [a for a in fa if has_any(a, I(x, C('dtstart'))) or has_any(a, A(x, 'dtstart'))]
            ctx.judge('aware', f'{name}: dtstart checked', None if c else False, 'the dtstart of an interval is not checked for a timezone', e.loc, p)
            continue
        if tz[-1]:
            conv = [s for s in p.trace[:i] if s.kind in ('setitem', 'setattr') and s.args[0] == x
                    and any(y[0] == 'call' and y[1] in ('.astimezone', '.replace') for y in subterms(s.args[-1]))
                    and (C('dtstart') in s.args or s.name == 'dtstart')]
            ctx.judge('aware', f'{name}: naive dtstart converted', bool(conv), 'an interval with a naive dtstart is queued as it is', e.loc, p)
            for s in conv:
                loc_ = any(y[0] == 'call' and y[1] == '.astimezone' for y in subterms(s.args[-1]))
                ctx.judge('aware', f'{name}: naive dtstart is local time', loc_, 'a naive dtstart is not interpreted as local time', s.loc, p)


def has_any(atom, t):
    return any(has(x, t) for x in terms(atom))


def terms(atom):
    return [x for x in atom[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)]


def add_raw(ctx):
    cls = ctx.repo.need_class(SERVER)
    f = ctx.repo.need_method(cls.qual, 'add_raw_event')
    loc = (f.file, f.qual, f.node.lineno)
    name = 'OpenADRServer.add_raw_event'
    ev = P(f.node.args.args[2].arg)
    cb = P(f.node.args.args[3].arg)
    ps = ctx.run(f, SELF, self_cls=cls, opaque={PERIOD})
    n = r = 0
    may = {'event_status': I(I(ev, 'event_descriptor'), C('event_status')), 'priority': I(I(ev, 'event_descriptor'), C('priority')),
           'active_period': I(ev, C('active_period'))}
    for p in ps or ():
        ch = [e for e in p.trace if outside(p, e)]
        if p.kind == 'raise':
            r += 1
            ctx.judge('raw-refused', f'{name}: nothing changed', not ch, 'the event is refused after something was changed', ch[0].loc if ch else loc, p)
            continue
        n += 1
        queued(ctx, name, p, ev, P(f.node.args.args[1].arg), cb, P(f.node.args.args[4].arg), loc)
        for e in ch:
            if not (e.args[0] == ev or has(e.args[0], ev)):
                continue
            k = e.args[1][1] if e.kind == 'setitem' and e.args[1][0] == 'c' else e.name
            t = may.get(k)
            if t is None:
                ctx.violation('raw-kept', f'{name}: {k}', f'add_raw_event changes {k} of the event it was given', e.loc, p)
                continue
            was = truthy(e.facts, t)
            if was is None and e.facts.get(('isnone', t)) is True:
                was = False
            if was is None:
                par, key = t[1], t[2]
                was = False if e.facts.get(('in', key, par)) is False else None
            about = [a for a in e.facts if has_any(a, t) and not (a[0] == 'eq' and 'c' in (a[1][0], a[2][0])) and a[0] != 'inset']
            ctx.judge('raw-kept', f'{name}: {k}', True if was is False else (False if was is True or not about else None), f'add_raw_event overrides the {k} of the event it was given', e.loc, p)
        # a callback that is not a future has been looked at
        need = equal(p.facts, I(ev, C('response_required')), C('always'))
        if need and (p.facts.get(('isnone', cb)) is False) and ch:
            chk = [a for a in p.facts if has_any(a, cb) and a[0] != 'isnone']
            ctx.judge('raw-refused', f'{name}: callback checked', bool(chk), 'a callback is accepted without looking at what it takes', loc, p)
            sig = [a for a in p.facts if a[0] == 'in' and a[1][0] == 'c' and has(a[2], cb)]
            if sig:
                got = {a[1][1] for a in sig if p.facts[a]}
                ctx.judge('raw-refused', f'{name}: callback takes what it is given', {'ven_id', 'event_id', 'opt_type'} <= got,
                          'a callback that does not take ven_id, event_id and opt_type is accepted', loc, p)
    if ps is not None:
        ctx.judge('raw-kept', f'{name}: paths', True if n else None, 'no path', detail=f'{n} queued, {r} refused')
        ctx.judge('raw-refused', f'{name}: refusing paths', True if r else False, 'no callback is ever refused', loc, ps[0] if ps else None)


# ---------------------------------------------------------------------------- C46

def C46(ctx):
    ctx.rule('opt-valid', 'create_opt sends and remembers an opt only when its type and reason are in the standard\'s lists; otherwise nothing changes')
    ctx.rule('opt-as-given', 'the oadrCreateOpt carries what the caller gave, this VEN\'s venID and a request id')
    ctx.rule('opt-answer', 'create_opt returns the optID of the reply exactly when the reply has one, else False')
    ctx.rule('opt-cancel', 'cancel_opt asks the VTN only about an opt this VEN has, naming it; the opt is forgotten exactly when the reply '
             'acknowledges it, and then True is returned')
    name = 'OpenADRClient.create_opt'
    f, loc, ps = client.paths(ctx, 'create_opt')
    opts = A(SELF, 'opts')
    n = r = 0
    for p in ps:
        sd = sends(p)
        ch = [e for e in p.trace if outside(p, e) and has(e.args[0], SELF)]
        ft = within((sd[0][1] if sd else ch[0] if ch else p).facts, P('opt_type'), enum_values(ctx, 'OPT'))
        fr = within((sd[0][1] if sd else ch[0] if ch else p).facts, P('opt_reason'), enum_values(ctx, 'OPT_REASON'))
        if sd or ch:
            ctx.judge('opt-valid', f'{name}: type', ft is True, 'an opt of an unknown type is remembered or sent', (sd[0][1] if sd else ch[0]).loc, p)
            ctx.judge('opt-valid', f'{name}: reason', fr is True, 'an opt with an unknown reason is remembered or sent', (sd[0][1] if sd else ch[0]).loc, p)
        else:
            r += 1
        if not sd or p.kind != 'return':
            continue
        n += 1
        i, e, svc, mt, made = sd[0]
        ctx.judge('opt-as-given', f'{name}: message', mt is not None and const_of(p.facts, mt) == 'oadrCreateOpt' and len(sd) == 1,
                  'not exactly one oadrCreateOpt is sent', e.loc, p)
        if made is not None:
            ctx.judge('opt-as-given', f'{name}: ven_id', field(p, made, 'ven_id') == A(SELF, 'ven_id') or None if field(p, made, 'ven_id') is None
                      else field(p, made, 'ven_id') == A(SELF, 'ven_id'), 'the opt does not carry the venID of this VEN', e.loc, p)
            for k in ('opt_type', 'opt_reason', 'vavailability', 'event_id', 'modification_number', 'targets', 'market_context', 'signal_target_mrid'):
                v = field(p, made, k)
                given = None if v is None else has(v, P(k)) or p.facts.get(('isnone', P(k))) is True or reaches(p, v, P(k))
                if given is False and truthy(p.facts, P(k)) is False:
                    given = v[0] != 'c' or not v[1] or (k not in ('modification_number',) and None)      # no value, which is not 0
                ctx.judge('opt-as-given', f'{name}: {k}', given, f'the {k} given is not sent', e.loc, p)
            v = field(p, made, 'request_id')
            ctx.judge('opt-as-given', f'{name}: request_id', v is not None and (v == P('request_id') or v[0] == 'call'),
                      'the opt is sent without a request id', e.loc, p)
        M = E(e.res, 1)
        ack = p.facts.get(('in', C('opt_id'), M))
        if ack is None:
            t = truthy(p.facts, I(M, 'opt_id'))
            ack = t if t is not None else (False if p.facts.get(('isnone', I(M, 'opt_id'))) else None)
        if ack is True:
            ctx.judge('opt-answer', f'{name}: acknowledged', p.value == I(M, C('opt_id')), 'the optID of the VTN is not returned', loc, p)
        elif ack is False:
            ctx.judge('opt-answer', f'{name}: not acknowledged', p.value == FALSE, 'an opt the VTN did not acknowledge is reported as accepted', loc, p)
        else:
            ctx.undecided('opt-answer', name, 'acknowledgement not recognised')
    ctx.judge('opt-valid', f'{name}: paths', True if n and r else None, 'no path', detail=f'{n} sent, {r} refused')
    name = 'OpenADRClient.cancel_opt'
    f, loc, ps = client.paths(ctx, 'cancel_opt')
    oid = P(f.node.args.args[1].arg)
    n = 0
    for p in ps:
        if p.kind != 'return':
            continue
        sd = sends(p)
        gone = [e for e in p.trace if e.kind in ('mut', 'del', 'setattr') and e.args and (has(e.args[0], opts) or e.name == 'opts' and e.args[0] == SELF)]
        fd = None
        for a, v in (sd[0][1] if sd else p).facts.items():
            for t in terms(a):
                if any(x[0] == 'call' and x[1] in ('find_by', 'openleadr.utils.find_by') and has(x, opts) and has(x, oid) for x in subterms(t)):
                    fd = v if a[0] == 'truth' else (not v if a[0] == 'isnone' else fd)
        if not sd:
            ctx.judge('opt-cancel', f'{name}: unknown opt', p.value == FALSE and not gone, 'an opt this VEN does not have is reported as cancelled', loc, p)
            continue
        n += 1
        i, e, svc, mt, made = sd[0]
        looked = any(has_any(a, opts) for a in e.facts)
        ctx.judge('opt-cancel', f'{name}: known opt', fd if fd is not None else (None if looked else False),
                  'the VTN is asked to cancel an opt this VEN does not have', e.loc, p)
        if made is not None:
            for k, want in (('opt_id', oid), ('ven_id', A(SELF, 'ven_id'))):
                v = field(p, made, k)
                ctx.judge('opt-cancel', f'{name}: {k}', None if v is None else v == want, f'the cancellation does not carry the {k}', e.loc, p)
            v = field(p, made, 'request_id')
            ctx.judge('opt-cancel', f'{name}: request_id', v is not None and v != NONE, 'the cancellation carries no request id', e.loc, p)
        M = E(e.res, 1)
        ack = p.facts.get(('in', C('opt_id'), M))
        if ack is None:
            t = truthy(p.facts, I(M, 'opt_id'))
            ack = t if t is not None else (False if p.facts.get(('isnone', I(M, 'opt_id'))) else None)
        if ack is True:
            ctx.judge('opt-cancel', f'{name}: acknowledged', bool(gone) and p.value == C(True), 'the cancelled opt is kept, or its cancellation not reported', loc, p)
            for g in gone:
                if g.name in ('clear', 'pop', 'popitem', 'reverse', 'sort'):
                    named = any(has(x, oid) for x in g.args[1:]) or g.name == 'pop' and len(g.args) > 1 and g.args[1][0] not in ('c', 'p') and None
                    ctx.judge('opt-cancel', f'{name}: this opt', named, 'another opt than the one that was cancelled is forgotten', g.loc, p)
                elif g.name == 'remove':
                    ctx.judge('opt-cancel', f'{name}: this opt', any(has(x, oid) for x in g.args[1:]) or None, 'another opt than the one that was cancelled is forgotten', g.loc, p)
        elif ack is False:
            ctx.judge('opt-cancel', f'{name}: not acknowledged', not gone and p.value == FALSE,
                      'an opt whose cancellation the VTN did not acknowledge is forgotten', gone[0].loc if gone else loc, p)
        else:
            ctx.undecided('opt-cancel', name, 'acknowledgement not recognised')
    ctx.judge('opt-cancel', f'{name}: paths', True if n else None, 'no path')
    this_opt(ctx)


OPTS_HELD = """
async def probe(client):
    client.opts = [%s]
    await client.cancel_opt(%r)
    return [o.opt_id for o in client.opts]
"""


def this_opt(ctx):
    """Known opts, some alike but for their id: what is left after the cancellation of one."""
    ctx.rule('opt-this', 'of one to three opts, alike but for their id, cancel_opt forgets exactly the one that was named, and none when the VTN does not acknowledge')
    cls = ctx.repo.need_class(CLIENT)
    name = 'OpenADRClient.cancel_opt'
    for ids in (['a'], ['a', 'b'], ['a', 'b', 'c']):
        made = ', '.join(f"objects.Opt(opt_id={i!r}, opt_type='optIn', opt_reason='economic', event_id='e', modification_number=0, targets=[objects.Target(ven_id='x')])" for i in ids)
        for one in ids + ['z']:
            for p in ctx.probe('openleadr.client', OPTS_HELD % (made, one), types={P('client'): cls}, post_init=True, model_utils=False, max_iter=4,
                               opaque={f'{cls.qual}._perform_request', f'{cls.qual}._create_message'}) or ():
                if p.kind != 'return':
                    continue
                o = p.obj(p.value) if p.value[0] == 'o' else None
                left = list(o[1]) if o is not None and o[0] == 'list' else None
                if left is None or any(x[0] != 'c' for x in left):
                    ctx.undecided('opt-this', f'{name}: opts left', 'the opts that are left are not known')
                    continue
                left = [x[1] for x in left]
                ok = left == ids or one in ids and left == [x for x in ids if x != one]
                ctx.judge('opt-this', f'{name}: opts left', ok, f'of the opts {", ".join(ids)}, {", ".join(left) or "none"} are left after the cancellation of {one}', None, p)


def field(p, made, key):
    """The value a _create_message(type, key=...) call gives for a field, also through **payload."""
    v = arg(made, None, key)
    if v is not None:
        return v
    for k, x in made.kw:
        if k in ('**', None):
            y = value(p, x, key)
            if y is not None and y != I(x, C(key)):
                return y
    return None


CHECKS = {'C46': C46, 'C47': C47}
