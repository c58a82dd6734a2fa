"""Reports: what the VEN takes on, samples, sends and drops; what the VTN requests and hands to its callbacks."""
from ..interp import P, A, I, E, C, NONE, show, subterms
from ..q import arg, has, truthy, equal, notnone, value, const_of, reaches
from . import client
from .api import field, has_any, terms
from .client import CLIENT, PERFORM, SELF, sends
from .vtn_events import awaited, all_facts

UPDATE = f'{CLIENT}.update_report'
CREATE = f'{CLIENT}.create_report'
CANCEL = f'{CLIENT}.cancel_report'
REQUESTS = A(SELF, 'report_requests')
REPORTS = A(SELF, 'reports')
CALLBACKS = A(SELF, 'report_callbacks')
INCOMPLETE = A(SELF, 'incomplete_reports')
PENDING = A(SELF, 'pending_reports')
SERVICE = 'openleadr.service.report_service.ReportService'


def lookups(p, cont, key=None):
    """{lookup term: found?} for find_by(cont, ..., key) on this path."""
    out = {}
    for a, v in all_facts(p):
        for t in terms(a):
            for x in subterms(t):
                if x[0] == 'call' and x[1].split('.')[-1] == 'find_by' and x[2] and has(x[2][0], cont) and (key is None or key in x[2][1:]):
                    out.setdefault(x, None)
                    if a == ('truth', x):
                        out[x] = v
                    elif a == ('isnone', x):
                        out[x] = not v
                    elif v and a[0] in ('eq', 'in', 'le', 'lt') and t != x and out[x] is None:
                        out[x] = True
    return out


def added(p, cont):
    """[(index, event, value)] put into a list attribute on this path."""
    out = []
    for i, e in enumerate(p.trace):
        if e.kind == 'mut' and e.args and e.args[0] == cont and e.name in ('append', 'insert', 'add'):
            out.append((i, e, e.args[-1]))
        elif e.kind == 'mut' and e.args and e.args[0] == cont and e.name in ('extend', '+='):
            o = p.obj(e.args[-1])
            out += [(i, e, v) for v in (o[1] if o and o[0] == 'list' else (e.args[-1],))]
    return out


def dropped(p, cont):
    return [(i, e) for i, e in enumerate(p.trace) if e.args and (
        e.kind == 'mut' and e.args[0] == cont and e.name in ('remove', 'pop', 'clear') or
        e.kind == 'del' and e.args[0] == cont or
        e.kind == 'setattr' and A(e.args[0], e.name) == cont)]


def items(p, t):
    o = p.obj(t) if t is not None and t[0] == 'o' else None
    return list(o[1]) if o is not None and o[0] in ('list', 'set') else None


def bound(t):
    """(function, positional, keyword) of a partial or a bound method."""
    if t is None:
        return None
    if t[0] == 'partial':
        return t[1], t[2], dict(t[3])
    return None


# ---------------------------------------------------------------------------- C30, C31

def requests(p, payload):
    reqs = I(payload, 'report_requests')
    return [E(reqs, k) for k in range(p.state.counts.get(reqs, 0))]


def spec(r):
    return I(r, 'report_specifier')


def invalid(p, r):
    """Do the facts say that this is one of the VTN's ways to ask for something that does not exist ('INVALID' in an id)?"""
    res = False
    for a, v in all_facts(p):
        if a[0] == 'in' and a[1] == C('INVALID') and has(a[2], r):
            res = res or v
    return res


def jobs(p):
    """[(index, event, trigger, bound function)]"""
    out = []
    for i, e in enumerate(p.trace):
        if e.kind == 'call' and e.name == '.add_job' and e.args and e.args[0] == A(SELF, 'scheduler'):
            trig = arg(e, 2, 'trigger')
            out.append((i, e, const_of(p.facts, trig) if trig is not None else None, arg(e, 1, 'func')))
    return out


def names_request(p, t, rid):
    """Is rid what a (bound) update_report call is for?"""
    b = bound(t)
    if b is None:
        return None
    f, pos, kw = b
    if not any(x[0] in ('fn', 'attr') and 'update_report' in str(x[1:]) for x in subterms(f)):
        return None
    got = kw.get('report_request_id') or (pos[-1] if pos and pos[-1] != SELF else None)
    return got == rid


def C30(ctx):
    ctx.rule('own-entry', 'each valid report request leads to exactly one entry in report_requests, carrying its own reportRequestID, '
             'reportSpecifierID, durations and a list of rIDs that no other entry shares; an invalid one leads to none')
    ctx.rule('scheduled', 'a request with a reporting interval is sampled by one cron job bound to its own reportRequestID, kept in its entry; a '
             'one-time request is served once, at once or at the time it names; never both')
    ctx.rule('entry-first', 'the entry exists before update_report runs for it')
    ctx.rule('answered', 'the VTN gets exactly one oadrCreatedReport, after all requests, naming every request, with its request id, and code 452 when '
             'one of them was invalid, else 200')
    name = 'OpenADRClient.create_report'
    f, loc, ps = client.paths(ctx, 'create_report')
    payload = P(f.node.args.args[1].arg)
    reqs = I(payload, 'report_requests')
    n = {'cron': 0, 'date': 0, 'now': 0, 'bad': 0}
    for p in ps:
        if p.kind != 'return':
            continue
        judge_requests(ctx, name, p, payload, loc, n)
        answered(ctx, name, p, payload, loc)
    for k, v in n.items():
        ctx.judge('scheduled', f'{name}: {k} paths', True if v else None, 'no such path', detail=f'{v}')
    # two requests in one message
    ps = ctx.probe('openleadr.client', TWO, types={P('client'): ctx.repo.need_class(CLIENT)},
                   opaque={f'{CLIENT}.{m}' for m in client.METHODS if m != 'create_report'})
    two = 0
    for p in ps or ():
        if p.kind != 'return':
            continue
        req = A(P('client'), 'report_requests')
        es = [(i, e, v) for i, e, v in added(p, req)]
        ids = [value(p, v, 'report_request_id') for _, _, v in es]
        for k, rid in enumerate((P('a'), P('b'))):
            mine = [(i, e, v) for (i, e, v), x in zip(es, ids) if x == rid]
            if not mine:
                continue
            two += 1
            other = P('rb') if k == 0 else P('ra')
            v = mine[0][2]
            rl = value(p, v, 'r_ids')
            it = items(p, rl)
            ctx.judge('own-entry', f'{name}: rIDs of one request only', None if it is None else other not in it,
                      'a report request also collects the rIDs of another request in the same message', mine[0][1].loc, p)
            for key, o in (('granularity', P('gb') if k == 0 else P('ga')), ('report_specifier_id', P('sb') if k == 0 else P('sa'))):
                x = value(p, v, key)
                ctx.judge('own-entry', f'{name}: own {key}', None if x is None else x != o, f'a report request gets the {key} of another one',
                          mine[0][1].loc, p)
            j = value(p, v, 'job')
            if j == NONE and any(lookups(p, A(P('client'), 'reports'), P('sa') if k == 0 else P('sb')).values()):
                served_once(ctx, name, p, P('ga') if k == 0 else P('gb'), P('da') if k == 0 else P('db'), mine[0][1])
            for x in subterms(j) if j is not None else ():
                if x[0] == 'call' and x[1] == '.add_job':
                    fn = [y for y in x[2][1:2]] + [y for k2, y in x[3] if k2 == 'func']
                    g = names_request(p, fn[0], rid) if fn else None
                    ctx.judge('scheduled', f'{name}: own job', g, 'a report request is served by the job of another one', mine[0][1].loc, p)
        its = [(value(p, v, 'r_ids'), i) for i, _, v in es]
        shared = len({t for t, _ in its}) < len(its)
        ctx.judge('own-entry', f'{name}: r_ids lists distinct', not shared, 'two report requests share one list of rIDs', es[0][1].loc if es else loc, p)
    ctx.judge('own-entry', f'{name}: two requests', True if two else None, 'no path', detail=f'{two} entries')
    told(ctx, name)


REQUESTED = '''
async def probe(client):
    client.reports = []
    client.report_requests = []
    await client.create_report({{'request_id': 'x', 'report_requests': [
        {{'report_request_id': rr, 'report_specifier': {{'report_specifier_id': ss, 'granularity': timedelta(seconds=30), 'report_back_duration': timedelta(minutes=10),
                                                       'specifier_payloads': [{{'r_id': rid}}]}}}} for rr, ss, rid in {0}]}})
    return [x['report_request_id'] for x in client.report_requests]
'''


def told(ctx, name):
    """Concrete messages with up to three requests, valid and invalid: the code of the answer, and whom it names."""
    import itertools
    from .outgoing import plain, raw
    kinds = {'valid': ('s', 'r'), 'invalid report': ('INVALID_s', 'r'), 'invalid rID': ('s', 'xINVALIDx')}
    for n in (1, 2, 3):
        for combo in itertools.product(kinds, repeat=n):
            if n == 3 and 'invalid rID' in combo:
                continue
            reqs = [(f'rr{i}', *kinds[k]) for i, k in enumerate(combo)]
            for p in ctx.probe('openleadr.client', REQUESTED.format(reqs), types={P('client'): ctx.repo.need_class(CLIENT)}, max_iter=4, model_utils=False,
                               opaque={f'{CLIENT}.{x}' for x in client.METHODS if x != 'create_report'}) or ():
                if p.kind != 'return':
                    continue
                mine = [x for x in sends(p) if x[3] is not None and const_of(p.facts, x[3]) == 'oadrCreatedReport']
                ctx.judge('answered', f'{name}: one answer', len(mine) == 1, f'the VTN gets {len(mine)} oadrCreatedReport messages', None, p)
                if len(mine) != 1 or mine[0][4] is None:
                    continue
                made = mine[0][4]
                resp = field(p, made, 'response')
                code = value(p, resp, 'response_code') if resp is not None else None
                c = const_of(p.facts, code) if code is not None else None
                if c is None and code is not None:
                    c = code_of(ctx, code)
                want = 200 if set(combo) == {'valid'} else 452
                ctx.judge('answered', f'{name}: code', None if c is None else int(c) == want, f'the VTN is told {c} instead of {want} about these requests: {", ".join(combo)}', mine[0][1].loc, p)
                pend = field(p, made, 'pending_reports')
                got = raw(plain(p, pend)) if pend is not None else None
                ids = [x.get('report_request_id') for x in got] if isinstance(got, list) and all(isinstance(x, dict) for x in got) else None
                ctx.judge('answered', f'{name}: names every request', None if ids is None or any(not isinstance(x, str) for x in ids) else set(ids) == {x[0] for x in reqs} and len(ids) == n,
                          f'the pending reports in the answer are {ids} for {n} requests', mine[0][1].loc, p)
                got = raw(plain(p, p.value))
                ctx.judge('own-entry', f'{name}: taken on', None if not isinstance(got, list) or any(not isinstance(x, str) for x in got) else
                          got == [r[0] for r, k in zip(reqs, combo) if k == 'valid'], f'of these requests {got} are taken on: {", ".join(combo)}', None, p)


TWO = '''
async def probe(client, a, b, sa, sb, ra, rb, ga, gb, da, db):
    await client.create_report({'request_id': 'x', 'report_requests': [
        {'report_request_id': a, 'report_specifier': {'report_specifier_id': sa, 'granularity': ga, 'report_back_duration': da,
                                                      'specifier_payloads': [{'r_id': ra}]}},
        {'report_request_id': b, 'report_specifier': {'report_specifier_id': sb, 'granularity': gb, 'report_back_duration': db,
                                                      'specifier_payloads': [{'r_id': rb}]}}]})
'''


def judge_requests(ctx, name, p, payload, loc, n):
    es = added(p, REQUESTS)
    js = jobs(p)
    runs = [(i, e) for i, e in enumerate(p.trace) if e.kind == 'call' and e.name == UPDATE]
    for r in requests(p, payload):
        rid = I(r, 'report_request_id')
        mine = [(i, e, v) for i, e, v in es if value(p, v, 'report_request_id') == rid]
        cron = [j for j in js if j[2] != 'date' and names_request(p, j[3], rid)]
        date = [j for j in js if j[2] == 'date' and names_request(p, j[3], rid)]
        now = [x for x in runs if arg(x[1], 1, 'report_request_id') == rid]
        other = [j for j in js if names_request(p, j[3], rid) is not True]
        ctx.judge('scheduled', f'{name}: job for this request', not other or (False if any(names_request(p, j[3], rid) is False for j in other) else None),
                  'a job is scheduled that does not update the report that was requested', other[0][1].loc if other else loc, p)
        if invalid(p, r):
            n['bad'] += 1
            ctx.judge('own-entry', f'{name}: invalid request', not mine and not js and not runs, 'an invalid report request is taken on', loc, p)
            continue
        ctx.judge('own-entry', f'{name}: one entry', len(mine) == 1, f'a valid report request leads to {len(mine)} entries', loc, p)
        if len(mine) != 1:
            continue
        i, e, v = mine[0]
        sp = spec(r)
        ctx.judge('own-entry', f'{name}: report_specifier_id', value(p, v, 'report_specifier_id') == I(sp, 'report_specifier_id'),
                  'the entry does not name the requested report', e.loc, p)
        x = value(p, v, 'report_back_duration')
        ctx.judge('own-entry', f'{name}: report_back_duration', None if x is None else has(x, sp) or x == NONE and
                  p.facts.get(('in', C('report_back_duration'), sp)) is False,
                  'the entry does not carry the requested report-back duration', e.loc, p)
        g = I(sp, 'granularity')
        x = value(p, v, 'granularity')
        gnone = p.facts.get(('isnone', g))
        ctx.judge('own-entry', f'{name}: granularity', None if x is None else True if x == g else
                  (x[0] in ('attr', 'item') and 'max_period' in x[2:] or has(x, C('max_period')) or x == NONE if gnone else False),
                  'the entry does not carry the requested granularity', e.loc, p)
        look = lookups(p, REPORTS, I(sp, 'report_specifier_id'))
        if not any(x for x in look.values()):
            continue                     # not one of our reports: an entry, but nothing to serve
        ctx.judge('scheduled', f'{name}: served exactly once', len(cron) + len(date) + len(now) == 1,
                  f'the request leads to {len(cron)} cron jobs, {len(date)} one-time jobs and {len(now)} immediate updates', e.loc, p)
        for j in date + now:
            ctx.judge('entry-first', f'{name}: entry before update', j[0] > i, 'update_report may run before its entry exists', j[1].loc, p)
        for _, x in now:
            ctx.judge('scheduled', f'{name}: awaited', awaited(p, x.res), 'the immediate update is not awaited', x.loc, p)
        job = value(p, v, 'job')
        if cron:
            n['cron'] += 1
            ctx.judge('scheduled', f'{name}: job kept', job == cron[0][1].res, 'the entry does not carry its job, so that it cannot be cancelled', e.loc, p)
        n['date'] += len(date)
        n['now'] += len(now)
        fa = p.facts
        rb = I(sp, 'report_back_duration')
        pos = positive(fa, rb)
        single = single_shot(fa, g)
        if pos is False or single and items(p, value(p, v, 'r_ids')):
            ctx.judge('scheduled', f'{name}: one-time request', not cron, 'a one-time request is sampled again and again', e.loc, p)
        elif pos is True and single is False:
            ctx.judge('scheduled', f'{name}: periodic request', bool(cron), 'a periodic request is not sampled periodically', e.loc, p)
        elif not cron:
            served_once(ctx, name, p, g, rb, e)
        for _, x, trig, _ in cron:
            iv = [y for k, y in x.kw if k in ('second', 'minute', 'hour', 'seconds', 'minutes', 'hours', 'days', 'day')]
            if not iv:
                continue
            src = g if truthy(fa, g) is True or notnone(fa, g) and truthy(fa, g) is not False else None
            if all(y[0] == 'c' for y in iv):
                about = [a for a in fa if a[0] in ('lt', 'le') and any(t[0] == 'call' and t[1].endswith('timedelta') for t in terms(a))]
                ctx.judge('scheduled', f'{name}: at a fixed interval', any(has_any(a, src if src is not None else sp) or 'max_period' in str(a) or has_any(a, rb)
                          for a in about), 'the job runs at an interval that does not depend on the request', x.loc, p)
            elif src is not None:
                ctx.judge('scheduled', f'{name}: at the granularity', any(has(y, src) for y in iv) or (None if all(y[0] == 'unk' for y in iv) else False),
                          'the job does not run at the granularity that was requested', x.loc, p)
            else:
                ctx.judge('scheduled', f'{name}: at an interval of the report', any(has(y, rb) or has(y, C('max_period')) or 'max_period' in str(y) for y in iv) or None,
                          'the interval of the job is not recognised', x.loc, p)
        for _, x, trig, _ in date:
            rd = arg(x, None, 'run_date')
            ctx.judge('scheduled', f'{name}: at the time named', rd is not None and has(rd, sp), 'the one-time job does not run when it was asked for',
                      x.loc, p)


def positive(facts, d):
    """Is duration d > 0?"""
    for a, v in facts.items():
        if a[0] == 'lt' and a[1] == C(0) and a[2] in (d, ('call', '.total_seconds', (d,), (), 0)):
            return v
        if a[0] == 'lt' and a[2] == d and zero(a[1]):
            return v
        if a[0] == 'le' and (a[2] == C(0) or zero(a[2])) and has(a[1], d):
            return not v
        if a[0] == 'truth' and (a[1] == d or a[1] == ('call', '.total_seconds', (d,), (), 0)) or a[0] == 'eq' and d in a[1:] and any(map(zero, a[1:])):
            return v if a[0] == 'truth' else not v
    return None


def zero(t):
    return t[0] == 'call' and t[1].endswith('timedelta') and all(x == C(0) for x in (*t[2], *(v for _, v in t[3])))


def served_once(ctx, name, p, g, rb, e):
    """A request that is not sampled periodically: is there a reason for that?"""
    pos, single = positive(p.facts, rb), single_shot(p.facts, g)
    if pos is False or single is True:
        return
    odd = [a for a in p.facts if has_any(a, rb) and a[0] not in ('lt', 'le', 'truth', 'isnone', 'in')]
    ctx.judge('scheduled', f'{name}: periodic request', False if single is False and not odd else None, 'a periodic request is served once only', e.loc, p)


def single_shot(facts, g):
    for a, v in facts.items():
        if a[0] == 'eq' and g in (a[1], a[2]):
            o = a[2] if a[1] == g else a[1]
            if o[0] == 'call' and o[1].endswith('timedelta'):
                return v
        if a == ('truth', g) and v:
            return False
    if facts.get(('isnone', g)) is True:
        return False
    return None


def answered(ctx, name, p, payload, loc):
    sd = sends(p)
    mine = [s for s in sd if s[3] is not None and const_of(p.facts, s[3]) == 'oadrCreatedReport']
    ctx.judge('answered', f'{name}: one answer', len(mine) == 1, f'the VTN gets {len(mine)} oadrCreatedReport messages', loc, p)
    if len(mine) != 1:
        return
    i, e, svc, mt, made = mine[0]
    ctx.judge('answered', f'{name}: awaited', awaited(p, e.res), 'the answer is not awaited', e.loc, p)
    ctx.judge('answered', f'{name}: service', svc is not None and const_of(p.facts, svc) == 'EiReport', 'the answer goes to another service', e.loc, p)
    if made is None:
        return
    resp = field(p, made, 'response')
    code = value(p, resp, 'response_code') if resp is not None else None
    bad = any(invalid(p, r) for r in requests(p, payload))
    want = 452 if bad else 200
    c = const_of(p.facts, code) if code is not None else None
    if c is None and code is not None:
        c = code_of(ctx, code)
    ctx.judge('answered', f'{name}: code', None if c is None else int(c) == want, f'the VTN is told {c} instead of {want}', e.loc, p)
    q = value(p, resp, 'request_id') if resp is not None else None
    ctx.judge('answered', f'{name}: request id', None if q is None else q in (I(payload, 'request_id'), I(I(payload, 'response'), 'request_id')) or
              (False if not has(q, payload) else None), 'the answer does not carry the request id of the message it answers', e.loc, p)
    ctx.judge('answered', f'{name}: ven_id', field(p, made, 'ven_id') in (A(SELF, 'ven_id'), None), 'the answer carries another venID', e.loc, p)
    pend = field(p, made, 'pending_reports')
    it = items(p, pend)
    if it is None:
        ctx.undecided('answered', f'{name}: pending reports', show(pend) if pend else 'none')
        return
    got = [value(p, x, 'report_request_id') for x in it]
    for r in requests(p, payload):
        rid = I(r, 'report_request_id')
        ctx.judge('answered', f'{name}: names every request', rid in got or (None if any(g is not None and has(g, r) for g in got) else False),
                  'a report request is missing from the pending reports', e.loc, p)


def code_of(ctx, t):
    """openleadr.enums.STATUS_CODES.X -> its number"""
    import ast
    for x in subterms(t):
        n = x[2] if x[0] in ('attr', 'glob') and isinstance(x[2], str) else (x[2][1] if x[0] == 'item' and x[2][0] == 'c' else None)
        if isinstance(n, str) and 'STATUS_CODES' in str(x):
            c = ctx.repo.need_class('openleadr.enums.STATUS_CODES')
            v = c.attrs.get(n)
            if isinstance(v, ast.Constant):
                return v.value
    return None


def C31(ctx):
    ctx.rule('exists', 'an rID is taken on only when the report has a description with that rID')
    ctx.rule('matches', 'an rID whose request names a measurement is taken on only when description and unit are those on offer')
    ctx.rule('rate', 'an rID is taken on only for a one-time report or with a granularity between the offered minimum and maximum sampling period')
    ctx.rule('not-dropped', 'an rID that passes these three is taken on, once')
    name = 'OpenADRClient.create_report'
    f, loc, ps = client.paths(ctx, 'create_report', iters=lambda r: 1 if r == I(P('response_payload'), 'report_requests') else None, max_iter=2)
    payload = P(f.node.args.args[1].arg)
    yes = no = 0
    for p in ps:
        if p.kind != 'return':
            continue
        for r in requests(p, payload):
            rid = I(r, 'report_request_id')
            mine = [(e, v) for _, e, v in added(p, REQUESTS) if value(p, v, 'report_request_id') == rid]
            if len(mine) != 1 or invalid(p, r):
                continue
            e, v = mine[0]
            sp = spec(r)
            look = lookups(p, REPORTS, I(sp, 'report_specifier_id'))
            if not any(look.values()):
                it = items(p, value(p, v, 'r_ids'))
                ctx.judge('exists', f'{name}: unknown report', None if it is None else not it, 'rIDs of a report that does not exist are taken on', e.loc, p)
                continue
            it = items(p, value(p, v, 'r_ids'))
            if it is None:
                ctx.undecided('exists', f'{name}: r_ids', 'not recognised')
                continue
            pls = I(sp, 'specifier_payloads')
            k = p.state.counts.get(pls, 0)
            known = [I(E(pls, j), 'r_id') for j in range(k)]
            for x in it:
                ctx.judge('exists', f'{name}: asked for', x in known or (None if has(x, sp) else False), 'an rID is taken on that was not asked for', e.loc, p)
            for j in range(k):
                x = known[j]
                c = it.count(x)
                st = standing(p, r, E(pls, j), look)
                if c:
                    yes += 1
                    ctx.judge('not-dropped', f'{name}: once', c == 1, 'an rID is sampled more than once', e.loc, p)
                    for rule, why in (('exists', 'an rID that does not exist is taken on'),
                                      ('matches', 'an rID is taken on although description or unit of the request differ from the offer'),
                                      ('rate', 'an rID is taken on with a granularity outside the sampling period on offer')):
                        ctx.judge(rule, f'{name}: {rule}', st[rule], why, e.loc, p)
                else:
                    no += 1
                    looked = any(has_any(a, x) for a in p.facts)
                    ctx.judge('not-dropped', f'{name}: looked at', looked or any(has(a, x) for ev in p.trace for a in ev.args) or False,
                              'an rID is left out without being looked at', e.loc, p)
                    ctx.judge('not-dropped', f'{name}: dropped for a reason', not all(v is True for v in st.values()) or
                              (True if p.facts.get(('isnone', I(sp, 'granularity'))) else False),
                              'an rID that is on offer as requested is left out', e.loc, p)
    ctx.judge('exists', f'{name}: paths', True if yes and no else None, 'no path', detail=f'{yes} taken, {no} left out')
    on_offer(ctx)


OFFER = '''
async def probe(client):
    client.reports = [objects.Report(report_specifier_id='s', report_name='TELEMETRY_USAGE', report_descriptions=[
        objects.ReportDescription(r_id=x, market_context='m', reading_type='x', report_subject='', report_data_source='', report_type='usage',
            sampling_rate=objects.SamplingRate(min_period=timedelta(seconds=10), max_period=timedelta(minutes=5), on_change=False),
            measurement=objects.Measurement(name='powerReal', description='RealPower', unit='W', acceptable_units=('W', 'J/s')))
        for x in ('r1', 'r2')])]
    client.report_requests = []
    await client.create_report({{'request_id': 'x', 'report_requests': [
        {{'report_request_id': 'a', 'report_specifier': {{'report_specifier_id': 's', 'granularity': timedelta(seconds={0}), 'report_back_duration': timedelta(minutes=10),
                                                        'specifier_payloads': {1}}}}}]}})
    return [(x['report_request_id'], x['r_ids']) for x in client.report_requests]
'''


def on_offer(ctx):
    """One offer with two rIDs and concrete requests for them: which rIDs are taken on."""
    ctx.rule('offer', 'of a request for the rIDs of an offer those are taken on that exist, whose measurement (if one is named) has the description and the unit on offer, '
             'at a granularity from the minimum to the maximum sampling period, both included; judged on concrete requests')
    from .outgoing import plain, raw
    name = 'OpenADRClient.create_report'

    def m(**k):
        return dict({'name': 'powerReal', 'description': 'RealPower', 'unit': 'W', 'scale': 'none'}, **k)
    cases = [(g, [('r1', None), ('r2', None)], ['r1', 'r2'] if 10 <= g <= 300 else []) for g in (9, 10, 11, 30, 299, 300, 301, 600, 9.5, 300.5)]
    for a, ok in (('r1', True), ('r3', False), ('r', False), ('r11', False), ('R1', False)):
        cases.append((30, [(a, None), ('r2', None)], (['r1'] if ok else []) + ['r2']))
        cases.append((30, [('r2', None), (a, m())], ['r2'] + (['r1'] if ok else [])))
    for x, ok in ((m(), True), (m(unit='J/s'), False), (m(unit='w'), False), (m(description='Real'), False), (m(description='realpower'), False),
                  (m(unit='Wh', description='RealEnergy', name='energyReal'), False)):
        cases.append((30, [('r1', x), ('r2', None)], (['r1'] if ok else []) + ['r2']))
        cases.append((30, [('r2', m()), ('r1', x)], ['r2'] + (['r1'] if ok else [])))
    for g, pls, want in cases:
        body = [dict({'r_id': a}, **({'measurement': x} if x else {})) for a, x in pls]
        for p in ctx.probe('openleadr.client', OFFER.format(g, repr(body)), types={P('client'): ctx.repo.need_class(CLIENT)}, post_init=True, max_iter=4, model_utils=False,
                           opaque={f'{CLIENT}.{x}' for x in client.METHODS if x != 'create_report'}) or ():
            if p.kind != 'return':
                ctx.judge('offer', f'{name}: fails', False if p.kind == 'raise' and p.value[1] in ('KeyError', 'AttributeError', 'TypeError', 'IndexError', 'NameError') else None,
                          'a report request is not handled', None, p)
                continue
            got = raw(plain(p, p.value))
            got = got[0][1] if isinstance(got, list) and len(got) == 1 and isinstance(got[0], list) and len(got[0]) == 2 else None
            known = isinstance(got, list) and all(isinstance(x, str) for x in got)
            ctx.judge('offer', f'{name}: rIDs taken on', None if not known else got == want,
                      f'with 10 to 300 seconds and the unit W on offer, of {", ".join(a + (" (%s, %s)" % (x["description"], x["unit"]) if x else "") for a, x in pls)} every {g} seconds '
                      f'{got} is taken on instead of {want}', None, p)


def standing(p, r, pl, look):
    """What the facts say about one rID: does it exist, does it match, is the rate on offer."""
    fa = p.facts
    rid = I(pl, 'r_id')
    rds = {}
    for a, v in fa.items():
        for t in terms(a):
            for x in subterms(t):
                if x[0] == 'call' and x[1].split('.')[-1] == 'find_by' and rid in x[2][1:] and any(has(x[2][0], l) for l in look):
                    rds.setdefault(x, None)
                    if a == ('truth', x):
                        rds[x] = v
                    elif a == ('isnone', x):
                        rds[x] = not v
                    elif v and t != x and rds[x] is None:
                        rds[x] = True
    ex = True if any(v for v in rds.values()) else (None if rds or any(has_any(a, rid) and 'report_descriptions' in str(a) for a in fa) else False)
    if ex is None and any(v is False for v in rds.values()):
        ex = False
    # measurement
    m = I(pl, 'measurement')
    asked = fa.get(('in', C('measurement'), pl))
    if asked is None:
        asked = truthy(fa, m)
        if asked is None and fa.get(('isnone', m)) is not None:
            asked = not fa[('isnone', m)]
    if asked is False:
        mt = True
    else:
        mt = True
        for key in ('description', 'unit'):
            got = None
            for a, v in fa.items():
                if a[0] == 'eq' and (has(a[1], I(m, key)) and key in str(a[2]) or has(a[2], I(m, key)) and key in str(a[1])):
                    o = a[2] if has(a[1], I(m, key)) else a[1]
                    if o[0] in ('item', 'attr') and (o[2] == key or o[2] == C(key)):
                        got = v
            if got is None:
                touched = any(has_any(a, I(m, key)) or a[0] == 'eq' and (m in (a[1], a[2])) for a in fa)
                mt = (None if touched else False) if mt is not False else mt
                if asked is None and not touched:
                    mt = False
            elif got is False:
                mt = False
    # rate
    g = I(spec(r), 'granularity')
    if fa.get(('isnone', g)) is True or single_shot(fa, g) is True and fa.get(('isnone', g)) is not True:
        rate = True
    else:
        lo = hi = None
        for a, v in fa.items():
            if a[0] not in ('le', 'lt'):
                continue
            for side, key in ((0, 'min_period'), (1, 'max_period')):
                b = a[1] if side == 0 else a[2]
                o = a[2] if side == 0 else a[1]
                if o == g and is_bound(b, key, rid):            # min <= g   or   g <= max
                    val = v if a[0] == 'le' else (None if v else False)
                elif (a[2] if side == 0 else a[1]) != g and (a[1] if side == 0 else a[2]) == g and is_bound(a[2] if side == 0 else a[1], key, rid):
                    val = (not v) if a[0] == 'lt' else (None if not v else False)
                else:
                    continue
                if side == 0:
                    lo = val
                else:
                    hi = val
        seen = any(a[0] in ('le', 'lt') and g in (a[1], a[2]) for a in fa)
        if lo is True and hi is True:
            rate = True
        elif lo is False or hi is False:
            rate = False
        else:
            rate = False if not any(a[0] not in ('le', 'lt', 'isnone', 'eq', 'truth', 'in') and has_any(a, g) for a in fa) else None
            if seen and (lo is None and hi is None):
                rate = None
    return {'exists': ex, 'matches': mt, 'rate': rate}


def is_bound(t, key, rid):
    """Is t the min_period or max_period of the description that has this rID?"""
    return has(t, rid) and (t[0] == 'attr' and t[2] == key or t[0] == 'item' and t[2] == C(key))


# ---------------------------------------------------------------------------- C32

def completeness(p, q):
    """What the path knows about "as many samples as expected": (atom says complete?, expected term)"""
    want = {I(q, 'r_ids'), I(q, 'report_back_duration'), I(q, 'granularity')}
    for a, v in p.facts.items():
        if a[0] not in ('lt', 'le'):
            continue
        for exp, n, k in ((a[1], a[2], 0), (a[2], a[1], 1)):
            if all(has(exp, w) for w in want) and (n[0] == 'c' or any(x[0] == 'call' and x[1] == 'len' for x in subterms(n))) and not has(n, I(q, 'granularity')):
                # exp < n, exp <= n  /  n < exp, n <= exp
                if k == 0:
                    return ('late' if a[0] == 'lt' else 'exact'), v, exp
                return ('exact' if a[0] == 'lt' else 'late'), not v, exp
    return None


def expected_shape(t, q):
    """len(r_ids) * floor(report_back_duration / granularity), in any order: True / None"""
    def ratio(x):
        while x[0] == 'call' and x[1] in ('int', 'round', 'math.floor', 'floor') and x[2]:
            if x[1] == 'round':
                return False
            x = x[2][0]
        if x[0] == 'bin' and x[1] in ('/', '//'):
            return has(x[2], I(q, 'report_back_duration')) and has(x[3], I(q, 'granularity')) and not any(
                y[0] == 'bin' for y in (*subterms(x[2]), *subterms(x[3])))
        return False

    def count(x):
        return x == ('call', 'len', (I(q, 'r_ids'),), (), x[4] if len(x) > 4 else 0)
    if t[0] == 'bin' and t[1] == '*':
        if count(t[2]) and ratio(t[3]) or count(t[3]) and ratio(t[2]):
            return True
    return None


def C32(ctx):
    ctx.rule('every-rid', 'update_report calls, for every rID of the request, exactly the callback registered under the report\'s specifier id and that rID, awaited '
             'when it is a coroutine; with the sampling window in full mode, without arguments in incremental mode')
    ctx.rule('every-value', 'every (time, value) a callback gives becomes one interval of this report with that time, that value and that rID, and a '
             'bare number one interval')
    ctx.rule('right-report', 'the report that is queued or kept is the one for this reportRequestID and reportSpecifierID, or the one already being '
             'compiled for it')
    ctx.rule('queued-or-kept', 'at the end the report is either put on the queue, once, or kept under its reportRequestID, never both or neither; kept only '
             'in incremental mode while fewer than (number of rIDs) x (duration / granularity) samples are there')
    ctx.rule('forgotten-when-queued', 'a report that was being compiled is forgotten when it is queued, so that the next starts empty')
    name = 'OpenADRClient.update_report'
    f, loc, ps = client.paths(ctx, 'update_report', max_iter=2)
    rrid = P(f.node.args.args[1].arg)
    n = {'queued': 0, 'kept': 0, 'full': 0, 'incremental': 0}
    for p in ps:
        if p.kind != 'return':
            continue
        qs = {x for x in lookups(p, REQUESTS, rrid)} | {t for e in p.trace for a in (*e.args, *(v for _, v in e.kw)) for t in subterms(a)
                                                       if t[0] == 'call' and t[1].split('.')[-1] == 'find_by' and t[2] and t[2][0] == REQUESTS}
        if len(qs) != 1:
            ctx.undecided('every-rid', f'{name}: request', f'{len(qs)} look-ups')
            continue
        q = qs.pop()
        spid = I(q, 'report_specifier_id')
        rids = I(q, 'r_ids')
        mode = {v for a, v in p.facts.items() if a[0] == 'eq' and C('full') in a[1:] and 'data_collection_mode' in str(a)}
        full = True if mode == {True} else (False if mode == {False} else None)
        n['full' if full else 'incremental'] += 1
        calls = [(i, e) for i, e in enumerate(p.trace) if e.kind in ('call', 'callx') and e.name == '()' and e.args and has(e.args[0], CALLBACKS)]
        missing = [a[1] for a, v in all_facts(p) if a[0] == 'in' and has(a[2], CALLBACKS) and not v]
        made = []
        for k in range(p.state.counts.get(rids, 0)):
            rid = E(rids, k)
            mine = [(i, e) for i, e in calls if has(e.args[0], rid)]
            if any(has(m, rid) for m in missing):
                continue
            ctx.judge('every-rid', f'{name}: called once', len(mine) == 1, f'the callback of a requested rID is called {len(mine)} times', loc, p)
            for i, e in mine:
                key = callback_key(e.args[0])
                ctx.judge('every-rid', f'{name}: right callback', None if key is None else key[0] == 't' and len(key[1]) == 2 and key[1][1] == rid
                          and (key[1][0] == spid or right_specifier(key[1][0], spid)),
                          'the callback is looked up under another specifier id or rID', e.loc, p)
                ctx.judge('every-rid', f'{name}: awaited', e.kind == 'callx' or awaited(p, e.res) or
                          any(x.kind == 'awaitx' and has(x.args[0], e.res) for x in p.trace), 'the result of the callback is used without being awaited', e.loc, p)
                kws = {k2 for k2, _ in e.kw}
                if full:
                    ctx.judge('every-rid', f'{name}: window given', {'date_from', 'date_to', 'sampling_interval'} <= kws,
                              'the callback is not told the time window and the sampling interval', e.loc, p)
                    ctx.judge('every-rid', f'{name}: sampling interval', arg(e, None, 'sampling_interval') == I(q, 'granularity'),
                              'the callback is told another sampling interval', e.loc, p)
                    df, dt = arg(e, None, 'date_from'), arg(e, None, 'date_to')
                    ctx.judge('every-rid', f'{name}: window order', None if df is None or dt is None else
                              df[0] == 'bin' and df[1] == '-' and df[2] == dt or (False if df == dt or dt[0] == 'bin' and dt[1] == '-' and dt[2] == df else None),
                              'the time window does not end at date_to', e.loc, p)
                elif full is False:
                    ctx.judge('every-rid', f'{name}: no arguments', not e.kw and len(e.args) == 1, 'the callback is called with arguments', e.loc, p)
                if e.kind == 'call' and not any(x.kind == 'awaitx' and has(x.args[0], e.res) for x in p.trace):
                    made.append((rid, e.res, e))
        for i, e in calls:
            ctx.judge('every-rid', f'{name}: requested', any(has(e.args[0], E(rids, k)) for k in range(p.state.counts.get(rids, 0))) or None,
                      'a callback is called for an rID that was not requested', e.loc, p)
        values(ctx, name, p, made, loc)
        outcome(ctx, name, p, rrid, q, spid, full, loc, n)
    for k, v in n.items():
        ctx.judge('queued-or-kept', f'{name}: {k} paths', True if v else None, 'no such path', detail=f'{v}')
    histories(ctx)


SAMPLING = '''
async def probe(client, t1, t2):
    client.reports = [objects.Report(report_specifier_id='s', report_name='{0}', data_collection_mode='{1}')]
    client.report_requests = [
        {{'report_request_id': 'other', 'report_specifier_id': 's', 'granularity': timedelta(seconds=1), 'report_back_duration': timedelta(seconds=1), 'r_ids': ['r3'], 'job': None}},
        {{'report_request_id': 'a', 'report_specifier_id': 's', 'granularity': {2}, 'report_back_duration': {3}, 'r_ids': {4}, 'job': None}}]
    client.incomplete_reports = {{}}
    client.report_callbacks = {{{5}}}
    for i in range({6}):
        await client.update_report('a')
    return list(client.incomplete_reports)
'''


def probed(ctx, src):
    cls = ctx.repo.need_class(CLIENT)
    return ctx.probe('openleadr.client', src, types={P('client'): cls}, post_init=True, max_iter=12, model_utils=False, max_seconds=30,
                     opaque={f'{CLIENT}.{x}' for x in client.METHODS if x != 'update_report'}) or ()


def queued(p):
    """[[(rID, value, dtstart)] per report that is put on the queue], None where it is not known."""
    from .outgoing import plain
    out = []
    for e in p.trace:
        if e.kind == 'call' and e.name in ('.put', '.put_nowait') and e.args and e.args[0] == A(P('client'), 'pending_reports'):
            r = plain(p, e.args[-1])
            iv = r.get(C('intervals')) if isinstance(r, dict) else None
            try:
                out.append([(x[C('report_payload')][C('r_id')], x[C('report_payload')][C('value')], x[C('dtstart')]) for x in iv])
            except (KeyError, TypeError):
                out.append(None)
    return out


def histories(ctx):
    """Concrete requests, callbacks and numbers of runs: which reports are queued, with which samples."""
    ctx.rule('history', 'over several runs every value a callback gives (also 0) is in exactly one queued report or the one being compiled; a report is queued once it has '
             '(number of rIDs) x (whole number of granularities in the duration) samples, or at once when the duration is not longer than the granularity; judged on concrete histories')
    from .outgoing import plain, raw
    name = 'OpenADRClient.update_report'

    def td(n):
        return 'None' if n is None else f'timedelta(seconds={n})'
    cases = []
    for gran, back in ((60, 150), (60, 120), (60, 179), (60, 61), (60, 60), (60, 45), (60, 0), (60, None), (7, 30), (0, 0), (0, 90)):
        for rids in (('r1',), ('r1', 'r2')):
            for v in (('7', '0'), ('0', '0.0'), ('-1', 'False'), ('[(t1, 3)]', '[(t2, 0)]'), ('[(t1, 1), (t2, 2)]', '5')):
                cases.append((gran, back, rids, v))
    for nm in ('TELEMETRY_USAGE', 'TELEMETRY_STATUS'):
        for gran, back, rids, vs in cases if nm == 'TELEMETRY_USAGE' else cases[::4]:
            runs = 5
            cbs = ', '.join(f"('s', '{r}'): lambda: {v}" for r, v in zip(('r1', 'r2', 'r3'), (*vs, '99')))
            per = sum(1 if not v.startswith('[') else v.count('(') for v, _ in zip(vs, rids))
            done, have = [], 0
            for _ in range(runs):
                have += per
                if back is None or gran == 0 or back <= gran or have >= len(rids) * (back // gran):
                    done.append(have)
                    have = 0
            sample = [(r, x) for r, v in zip(rids, vs) for x in ([y.split(', ')[1].strip(')]') for y in v.split('(')[1:]] if v.startswith('[') else [v])]
            for p in probed(ctx, SAMPLING.format(nm, 'incremental', td(gran), td(back), list(rids), cbs, runs)):
                what = f'{name}: {nm}, granularity {gran}, duration {back}'
                if p.kind != 'return':
                    ctx.judge('history', what, False if p.kind == 'raise' and p.value[1] in ('KeyError', 'AttributeError', 'TypeError', 'IndexError', 'NameError', 'ZeroDivisionError') else None,
                              'sampling fails', None, p)
                    continue
                got = queued(p)
                if any(g is None for g in got):
                    ctx.undecided('history', what, 'the queued report is not known')
                    continue
                sizes = [len(g) for g in got]
                ctx.judge('history', what, sizes == done, f'{runs} runs that give {per} values each queue reports of {sizes} samples instead of {done}', None, p)
                if sizes == done:
                    flat = [(const_of(p.facts, a), const_of(p.facts, v)) for g in got for a, v, _ in g]
                    want = (sample * runs)[:len(flat)]
                    ctx.judge('history', what, None if any(a is None or v is None for a, v in flat) else [(a, repr(v)) for a, v in flat] == want,
                              'the queued samples are not those of the callbacks, in order', None, p)
                left = raw(plain(p, p.value))
                ctx.judge('history', what, None if not isinstance(left, list) or any(not isinstance(x, str) for x in left) else left == (['a'] if have else []),
                          f'{left} is still being compiled after {runs} runs with {have} samples not queued', None, p)
    windows(ctx, td)


def windows(ctx, td):
    ctx.rule('window', 'in full mode the callback is asked for the span of one report, which is the longer one of report-back duration and granularity, up to now, at the granularity')
    name = 'OpenADRClient.update_report'
    import datetime
    for gran, back in ((60, 150), (60, 60), (60, 30), (60, 0), (60, None), (900, 3600), (1, 86400)):
        want = max(gran, back or 0)
        cb = "('s', 'r1'): lambda date_from, date_to, sampling_interval: [(t1, (date_from, date_to, sampling_interval)), (t2, 0)]"
        for p in probed(ctx, SAMPLING.format('TELEMETRY_USAGE', 'full', td(gran), td(back), ['r1'], cb, 1)):
            what = f'{name}: granularity {gran}, duration {back}'
            if p.kind != 'return':
                ctx.judge('window', what, False if p.kind == 'raise' and p.value[1] in ('KeyError', 'AttributeError', 'TypeError', 'NameError') else None, 'sampling fails', None, p)
                continue
            got = queued(p)
            if len(got) != 1 or got[0] is None or len(got[0]) != 2:
                ctx.judge('window', what, None if None in got else False, f'{len(got)} reports are queued instead of one with the two values', None, p)
                continue
            w = got[0][0][1]
            w = w if isinstance(w, list) and len(w) == 3 else None
            if w is None:
                ctx.undecided('window', what, 'the window is not known')
                continue
            ctx.judge('window', what, seconds(p, w[2]) == gran if seconds(p, w[2]) is not None else None, 'the callback is told another sampling interval', None, p)
            ctx.judge('window', what, True if w[1][0] == 'call' and w[1][1].endswith('.now') else None, 'the window does not end now', None, p)
            span = seconds(p, w[0][3]) if w[0][0] == 'bin' and w[0][1] == '-' and w[0][2] == w[1] else None
            ctx.judge('window', what, None if span is None else span == want, f'the callback is asked for the last {span} seconds instead of {want}', None, p)
            ctx.judge('window', what, [x[2] for x in got[0]] == [P('t1'), P('t2')], 'the moments of the samples are not those the callback gave', None, p)


def seconds(p, t):
    """A constant timedelta in seconds."""
    from ..interp import span
    v = span(t)
    return None if v is None else v.total_seconds()


def right_specifier(t, spid):
    """The specifier id of the report that was looked up with the request's specifier id."""
    return t[0] in ('attr', 'item') and 'report_specifier_id' in (t[2], t[2][1] if isinstance(t[2], tuple) and t[2][0] == 'c' else None) \
        and t[1][0] == 'call' and has(t[1], REPORTS) and has(t[1], spid)


def callback_key(t):
    for x in subterms(t):
        if x[0] == 'item' and x[1] == CALLBACKS:
            return x[2]
        if x[0] == 'call' and x[1] in ('.get', '.pop') and x[2][:1] == (CALLBACKS,) and len(x[2]) > 1:
            return x[2][1]
    return None


def intervals_made(p):
    """[(event, dtstart, rID, value)] of the intervals created on this path."""
    out = []
    for e in p.trace:
        if e.kind == 'new' and e.name == 'openleadr.objects.ReportInterval':
            pl = value(p, e.res, 'report_payload')
            out.append((e, value(p, e.res, 'dtstart'), value(p, pl, 'r_id') if pl is not None else None,
                        value(p, pl, 'value') if pl is not None else None))
    return out


def values(ctx, name, p, made, loc):
    ivs = intervals_made(p)
    appended = {t for e in p.trace if e.kind == 'mut' and e.name in ('append', 'extend', 'insert', '+=') for t in
                (e.args[-1], *(items(p, e.args[-1]) or ()))}
    for t in list(appended):
        appended.discard(None)
    for rid, res, ev in made:
        n = p.state.counts.get(res)
        if n is not None:
            number = any(a[0] == 'isinst' and a[1] == res and v and {'int', 'float'} & set(map(str, a[2])) for a, v in p.facts.items())
            ctx.judge('every-value', f'{name}: a number is not a list', not number, 'a bare number is iterated over', ev.loc, p)
        if n is None:                                # not iterated: a bare number
            num = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == res]
            mine = [x for x in ivs if x[3] is not None and has(x[3], res)]
            ctx.judge('every-value', f'{name}: bare number', len(mine) == 1 if True in num else None, 'a bare number is not taken as one value', ev.loc, p)
            for e, dt, r, v in mine:
                ctx.judge('every-value', f'{name}: value of a bare number', v == res, 'the value reported is not what the callback gave', e.loc, p)
                ctx.judge('every-value', f'{name}: its rID', r == rid, 'the value is reported under another rID', e.loc, p)
                ctx.judge('every-value', f'{name}: time of a bare number', dt is not None and dt[0] == 'call' and dt[1].endswith('.now') and bool(dt[2] or dt[3]),
                          'a bare number is not given an aware current time', e.loc, p)
        else:
            for k in range(n):
                el = E(res, k)
                mine = [x for x in ivs if x[3] is not None and has(x[3], el)]
                ctx.judge('every-value', f'{name}: one interval per value', len(mine) == 1, f'a value of the callback leads to {len(mine)} intervals', ev.loc, p)
                for e, dt, r, v in mine:
                    ctx.judge('every-value', f'{name}: value', v == E(el, 1), 'the value reported is not what the callback gave', e.loc, p)
                    ctx.judge('every-value', f'{name}: time', dt == E(el, 0), 'the time reported is not what the callback gave', e.loc, p)
                    ctx.judge('every-value', f'{name}: rID', r == rid, 'a value is reported under another rID', e.loc, p)
    out = final_report(p)
    for e, dt, r, v in ivs:
        ctx.judge('every-value', f'{name}: kept', e.res in appended or out is not None and reaches(p, out, e.res) or None,
                  'an interval is made but not added to the report', e.loc, p)


def puts(p):
    return [(i, e) for i, e in enumerate(p.trace) if e.kind == 'call' and e.name in ('.put', '.put_nowait') and e.args and e.args[0] == PENDING]


def keeps(p, rrid):
    return [(i, e) for i, e in enumerate(p.trace) if e.kind == 'setitem' and e.args and e.args[0] == INCOMPLETE]


def final_report(p):
    x = [e.args[1] for _, e in puts(p)] + [e.args[2] for _, e in keeps(p, None)]
    return x[0] if x else None


def outcome(ctx, name, p, rrid, q, spid, full, loc, n):
    pu, ke = puts(p), keeps(p, rrid)
    ctx.judge('queued-or-kept', f'{name}: one outcome', len(pu) + len(ke) == 1, f'the report is queued {len(pu)} times and kept {len(ke)} times', loc, p)
    if len(pu) + len(ke) != 1:
        return
    i, e = (pu or ke)[0]
    rep = e.args[1] if pu else e.args[2]
    old = I(INCOMPLETE, rrid)
    was = next((v for a, v in all_facts(p) if a[0] == 'in' and a[1] == rrid and has(a[2], INCOMPLETE)), None)
    for x in (('truth', old), ('isnone', old), ('isnone', ('call', '.get', (INCOMPLETE, rrid), (), 0))):
        if was is None and x in p.facts:
            was = p.facts[x] if x[0] == 'truth' else not p.facts[x]
    if p.facts.get(('isnone', old)) is True or p.facts.get(('truth', old)) is False:
        was = False
    if was:
        ctx.judge('right-report', f'{name}: the one in progress', rep == old or has(rep, INCOMPLETE) and has(rep, rrid) or None if rep[0] != 'o' else False,
                  'values collected earlier for this report are dropped', e.loc, p)
    elif p.obj(rep) is not None:
        ctx.judge('right-report', f'{name}: request id', value(p, rep, 'report_request_id') == rrid or
                  value(p, rep, 'report_request_id') == I(q, 'report_request_id'), 'the report does not name the request it answers', e.loc, p)
        x = value(p, rep, 'report_specifier_id')
        ctx.judge('right-report', f'{name}: specifier id', x is not None and (x == spid or right_specifier(x, spid)), 'the report names another report', e.loc, p)
    if ke:
        n['kept'] += 1
        ctx.judge('queued-or-kept', f'{name}: kept under its id', e.args[1] == rrid, 'an incomplete report is kept under another id', e.loc, p)
        ctx.judge('queued-or-kept', f'{name}: kept in incremental mode', False if full else True, 'a report in full mode is held back', e.loc, p)
        c = completeness(p, q)
        if c is None:
            ctx.judge('queued-or-kept', f'{name}: kept while incomplete', None if any('len' in str(a) and has_any(a, I(q, 'granularity')) for a in p.facts) else False,
                      'a report is held back without looking at how many values it has', e.loc, p)
        else:
            ctx.judge('queued-or-kept', f'{name}: kept while incomplete', not c[1] if c[0] == 'exact' else False,
                      'a report is held back although it is complete', e.loc, p)
            ctx.judge('queued-or-kept', f'{name}: expected number', expected_shape(c[2], q), 'expected number not recognised', e.loc, p)
    else:
        n['queued'] += 1
        ctx.judge('queued-or-kept', f'{name}: queued for sending', e.name == '.put_nowait' or awaited(p, e.res), 'the put on the queue is not awaited', e.loc, p)
        c = completeness(p, q)
        if c is not None:
            ctx.judge('queued-or-kept', f'{name}: queued when complete', c[1] if c[0] == 'exact' else (False if c[1] is False else None),
                      'a report is sent before it is complete', e.loc, p)
            gone = [x for x in p.trace if x.args and (x.kind in ('mut', 'del') and x.args[0] == INCOMPLETE and x.name in ('pop', 'clear') or x.kind == 'del' and x.args[0] == INCOMPLETE)
                    and (len(x.args) < 2 or x.args[1] == rrid)]
            ctx.judge('forgotten-when-queued', f'{name}: forgotten', bool(gone) or was is False,
                      'a complete report stays among the incomplete ones: its values would be sent again with the next', e.loc, p)


# ---------------------------------------------------------------------------- C33

def C33(ctx):
    ctx.rule('sent-once', 'every report taken from the queue is sent in exactly one oadrUpdateReport to EiReport, carrying this VEN\'s id, a fresh request id and '
             'that report only')
    ctx.rule('goes-on', 'no exception while a report is built, sent or its reply handled ends the worker; only its cancellation does')
    ctx.rule('cancel-honoured', 'when the reply asks to cancel a report, cancel_report runs with what the reply says, awaited')
    name = 'OpenADRClient._report_queue_worker'
    f, loc, ps = client.paths(ctx, '_report_queue_worker', while_iter=3 if ctx.thorough else 2)
    n = more = 0
    for p in ps:
        gets = [(i, e) for i, e in enumerate(p.trace) if e.kind == 'call' and e.name in ('.get', '.get_nowait') and e.args and e.args[0] == PENDING]
        exc = [e for e in p.trace if e.kind == 'except']
        last = exc[-1] if exc else None
        if p.kind in ('return', 'raise'):
            fails = [e for e in p.trace if e.kind in ('callx', 'awaitx', 'usercbx')]
            own = fails and any(has(a, g.res) for a in fails[-1].args for _, g in gets if g.res is not None)
            if p.kind == 'raise':
                v = p.value
                fine = v[0] == 'exc' and (v[1] in ('CancelledError', 'KeyboardInterrupt', 'SystemExit') or v[1] == 'ANY' and
                                          {'Exception', 'BaseException'} & set(v[2]))
            else:
                fine = last is not None and 'Cancelled' in last.name or last is not None and last.name == 'BaseException'
            ctx.judge('goes-on', f'{name}: ends only when cancelled', bool(fine or own),
                      'the queue worker ends: reports that are queued later are never sent', (last or p.trace[-1]).loc if p.trace else loc, p)
        for k, (i, g) in enumerate(gets):
            end = gets[k + 1][0] if k + 1 < len(gets) else len(p.trace)
            seg = p.trace[i:end]
            if any(x.kind == 'awaitx' and has(x.args[0], g.res) for x in seg):
                continue
            ended = k + 1 < len(gets) or p.kind in ('return', 'raise')
            for x in seg:
                if x.kind == 'call' and x.name in ('.put', '.put_nowait') and x.args[:1] == (PENDING,):
                    ctx.judge('sent-once', f'{name}: put back', not any(a == g.res for a in x.args[1:]) and None,
                              'a report that was taken from the queue is put back, so that the VTN can get it more than once', x.loc, p)
            ss = [s for s in sends(p) if i < s[0] < end]
            failed = any(x.kind in ('callx', 'awaitx', 'usercbx', 'except') for x in seg)
            if not failed and ended:
                more += 1
                ctx.judge('sent-once', f'{name}: sent', len(ss) == 1, f'a report from the queue is sent {len(ss)} times', g.loc, p)
            ctx.judge('sent-once', f'{name}: at most once', len(ss) <= 1, 'a report from the queue is sent more than once', g.loc, p)
            for _, e, svc, mt, made in ss:
                n += 1
                ctx.judge('sent-once', f'{name}: service', svc is not None and const_of(p.facts, svc) == 'EiReport', 'the report goes to another service', e.loc, p)
                if mt is None:
                    ctx.undecided('sent-once', f'{name}: message', 'not recognised')
                    continue
                ctx.judge('sent-once', f'{name}: message', const_of(p.facts, mt) == 'oadrUpdateReport', 'the report is not sent as oadrUpdateReport', e.loc, p)
                reps = field(p, made, 'reports')
                it = items(p, reps)
                ctx.judge('sent-once', f'{name}: that report only', None if it is None else it == [g.res], 'the message does not carry exactly the report that was taken from the queue', e.loc, p)
                ctx.judge('sent-once', f'{name}: ven_id', field(p, made, 'ven_id') == A(SELF, 'ven_id'), 'the message carries another venID', e.loc, p)
                rq = field(p, made, 'request_id')
                earlier = {s[4] and field(p, s[4], 'request_id') for s in sends(p) if s[0] < i}
                ctx.judge('sent-once', f'{name}: request id', rq is not None and rq[0] not in ('c', 'p', 'attr') and rq not in earlier,
                          'the message has no request id of its own', e.loc, p)
                ctx.judge('sent-once', f'{name}: awaited', awaited(p, e.res) or any(x.kind == 'awaitx' for x in seg), 'the request is not awaited', e.loc, p)
                M = E(e.res, 1)
                asked = p.facts.get(('in', C('cancel_report'), M))
                if asked is None:
                    asked = truthy(p.facts, I(M, 'cancel_report'))
                run = [x for x in seg if x.kind in ('call', 'callx') and x.name == CANCEL]
                if asked:
                    ctx.judge('cancel-honoured', f'{name}: cancelled', bool(run), 'the VTN asks to cancel a report in its reply and is ignored', e.loc, p)
                    for x in run:
                        ctx.judge('cancel-honoured', f'{name}: what is cancelled', arg(x, 1, 'payload') == I(M, 'cancel_report'),
                                  'another cancellation than the one in the reply is carried out', x.loc, p)
                        ctx.judge('cancel-honoured', f'{name}: cancel awaited', x.kind == 'callx' or awaited(p, x.res) or any(y.kind == 'awaitx' for y in seg),
                                  'the cancellation is not awaited', x.loc, p)
                elif asked is False:
                    ctx.judge('cancel-honoured', f'{name}: only when asked', not run, 'a report is cancelled without being asked', e.loc, p)
                elif not failed and ended:
                    ctx.judge('cancel-honoured', f'{name}: reply looked at', bool(run) or False, 'the reply is not looked at for a cancellation', e.loc, p)
    ctx.judge('sent-once', f'{name}: paths', True if n and more else None, 'no path', detail=f'{n} sends')
    # the worker must survive every failure: there is a path that goes on after each kind
    surv = any(e.kind == 'except' and any(x.kind == 'call' and x.name == '.get' for x in p.trace[i:]) for p in ps for i, e in enumerate(p.trace))
    ctx.judge('goes-on', f'{name}: goes on after a failure', surv, 'no failure is survived', loc, ps[0] if ps else None)


# ---------------------------------------------------------------------------- C36

def C36(ctx):
    ctx.rule('cancelled', 'cancelling a report this VEN has stops its job, drops its request and tells the VTN with one oadrCanceledReport with code 200, the '
             'request id of the cancellation and, when a report is to follow, its reportRequestID as pending')
    ctx.rule('last-report', 'the final update_report runs while the request is still known, when a report is to follow or rIDs were being sampled')
    ctx.rule('unknown', 'cancelling a report this VEN does not have changes nothing')
    name = 'OpenADRClient.cancel_report'
    f, loc, ps = client.paths(ctx, 'cancel_report')
    pl = P(f.node.args.args[1].arg)
    rid = I(pl, 'report_request_id')
    yes = no = 0
    for p in ps:
        if p.kind != 'return':
            continue
        look = lookups(p, REQUESTS, rid)
        found = [x for x, v in look.items() if v]
        sd = sends(p)
        gone = dropped(p, REQUESTS)
        runs = [(i, e) for i, e in enumerate(p.trace) if e.kind == 'call' and e.name == UPDATE]
        jobs_ = [(i, e) for i, e in enumerate(p.trace) if e.name in ('remove', '.remove', 'remove_job', '.remove_job', '.pause') and e.args and e.kind in ('call', 'mut')
                 and any(has(a, C('job')) or 'scheduler' in str(a) for a in e.args) and e.args[0] != REQUESTS]
        if not found and not any(v is None for v in look.values()):
            no += 1
            ctx.judge('unknown', f'{name}: nothing happens', not sd and not gone and not runs, 'an unknown report is cancelled', loc, p)
            continue
        q = found[0] if found else next(iter(look))
        yes += 1
        ctx.judge('cancelled', f'{name}: request dropped', bool(gone), 'a cancelled report stays among the report requests', loc, p)
        for i, e in gone:
            ctx.judge('cancelled', f'{name}: this request', e.kind != 'mut' or e.name != 'clear' and (len(e.args) < 2 or has(e.args[-1], q) or None if e.name != 'pop' else None),
                      'another report request is dropped', e.loc, p)
        job = I(q, 'job')
        t = truthy(p.facts, job)
        mine = [e for i, e in jobs_ if any(has(a, job) for a in e.args)]
        if t is True:
            ctx.judge('cancelled', f'{name}: job removed', bool(mine), 'the job of a cancelled report goes on', loc, p)
        elif t is None and p.facts.get(('isnone', job)) is not True:
            ctx.judge('cancelled', f'{name}: job removed', bool(mine) or False, 'the job of a cancelled report goes on', loc, p)
        ctx.judge('cancelled', f'{name}: one message', len(sd) == 1, f'the VTN gets {len(sd)} messages', loc, p)
        follow = equal(p.facts, I(pl, 'report_to_follow'), C(True)) or truthy(p.facts, I(pl, 'report_to_follow'))
        for i, e, svc, mt, made in sd:
            ctx.judge('cancelled', f'{name}: message type', mt is not None and const_of(p.facts, mt) == 'oadrCanceledReport' and
                      const_of(p.facts, svc) == 'EiReport', 'the VTN is not told with oadrCanceledReport', e.loc, p)
            ctx.judge('cancelled', f'{name}: awaited', awaited(p, e.res), 'the message is not awaited', e.loc, p)
            if made is None:
                continue
            resp = field(p, made, 'response')
            ctx.judge('cancelled', f'{name}: code', None if resp is None else const_of(p.facts, value(p, resp, 'response_code') or NONE) in (200, '200'),
                      'the answer does not carry code 200', e.loc, p)
            ctx.judge('cancelled', f'{name}: request id', None if resp is None else value(p, resp, 'request_id') == I(pl, 'request_id'),
                      'the answer does not carry the request id of the cancellation', e.loc, p)
            ctx.judge('cancelled', f'{name}: ven_id', field(p, made, 'ven_id') == A(SELF, 'ven_id'), 'the answer carries another venID', e.loc, p)
            pend = field(p, made, 'pending_reports')
            if follow:
                it = items(p, pend)
                ctx.judge('cancelled', f'{name}: pending', None if it is None and pend is not None else bool(it) and value(p, it[0], 'report_request_id') == rid,
                          'the report that is to follow is not announced', e.loc, p)
            elif pend is not None and pend != NONE:
                it = items(p, pend)
                ctx.judge('cancelled', f'{name}: nothing pending', None if it is None else not it, 'a report is announced that does not follow', e.loc, p)
        first = min((i for i, _ in gone), default=len(p.trace))
        for i, e in runs:
            ctx.judge('last-report', f'{name}: which report', arg(e, 1, 'report_request_id') in (rid, I(q, 'report_request_id')), 'another report is updated', e.loc, p)
            ctx.judge('last-report', f'{name}: before it is dropped', i < first, 'update_report runs after its request was dropped', e.loc, p)
            ctx.judge('last-report', f'{name}: awaited', awaited(p, e.res), 'the last update is not awaited', e.loc, p)
        some = truthy(p.facts, I(q, 'r_ids'))
        if follow or some or some is None and not runs:
            about = any(has_any(a, I(q, 'r_ids')) for a in p.facts)
            ctx.judge('last-report', f'{name}: updated', bool(runs) or (None if about and some is None else False), 'the last report is not made', loc, p)
    ctx.judge('cancelled', f'{name}: paths', True if yes and no else None, 'no path', detail=f'{yes} known, {no} unknown')
    this_one(ctx, name)


HELD = '''
async def probe(client, j1, j2, j3):
    client.reports = [objects.Report(report_specifier_id='s', report_name='TELEMETRY_USAGE')]
    client.report_requests = [
        {{'report_request_id': x, 'report_specifier_id': 's', 'granularity': timedelta(seconds=60), 'report_back_duration': timedelta(seconds=600), 'r_ids': {2}, 'job': j}}
        for x, j in {0}]
    await client.cancel_report({{'request_id': 'x', 'report_request_id': {1!r}, 'report_to_follow': {3}}})
    return [x['report_request_id'] for x in client.report_requests]
'''


def this_one(ctx, name):
    """Up to three concrete requests, one of which (or an unknown one) is cancelled: the others stay, with their jobs."""
    ctx.rule('this-one', 'exactly the named report request is dropped, whichever place it has among the requests, and exactly its job is removed; judged on concrete requests')
    from .outgoing import plain, raw
    for n in (1, 2, 3):
        held = ['a', 'b', 'c'][:n]
        for which in held + ['d']:
            for r_ids in ('[]', "['r']"):
                for follow in (True, False):
                    reqs = '(' + ' '.join(f"({x!r}, j{i + 1})," for i, x in enumerate(held)) + ')'
                    for p in ctx.probe('openleadr.client', HELD.format(reqs, which, r_ids, follow), types={P('client'): ctx.repo.need_class(CLIENT)}, max_iter=5, model_utils=False,
                                       post_init=True, opaque={f'{CLIENT}.{x}' for x in client.METHODS if x != 'cancel_report'}) or ():
                        if p.kind != 'return':
                            ctx.judge('this-one', name, False if p.kind == 'raise' and p.value[1] in ('KeyError', 'AttributeError', 'TypeError', 'IndexError', 'NameError', 'ValueError') else None,
                                      'a cancellation fails', None, p)
                            continue
                        left = raw(plain(p, p.value))
                        known = isinstance(left, list) and all(isinstance(x, str) for x in left)
                        want = [x for x in held if x != which]
                        ctx.judge('this-one', f'{name}: requests', None if not known else sorted(left) == want, f'of the requests {held} {left} are left when {which} is cancelled', None, p)
                        for i, x in enumerate(held):
                            stopped = [e for e in p.trace if e.kind in ('call', 'mut') and e.name.lstrip('.') in ('remove', 'remove_job', 'pause') and any(has(y, P(f'j{i + 1}')) for y in e.args)]
                            if x != which:
                                ctx.judge('this-one', f'{name}: jobs', not stopped, f'the job of {x} is removed when {which} is cancelled', stopped[0].loc if stopped else None, p)




# ---------------------------------------------------------------------------- C34

def C34(ctx):
    ctx.rule('right-callback', 'for every (report, rID) in an oadrUpdateReport that has a callback under that reportRequestID and rID, this callback is called, once, '
             'and awaited when it is a coroutine; no other one is')
    ctx.rule('all-values', 'it gets the (dtstart, value) of every interval of that report with that rID, in their order')
    ctx.rule('fallback', 'without any callback, on_update_report gets every report, awaited')
    ctx.rule('acknowledged', 'the answer is oadrUpdatedReport')
    cls = ctx.repo.need_class(SERVICE)
    f = ctx.repo.need_method(cls.qual, 'update_report')
    loc = (f.file, f.qual, f.node.lineno)
    name = 'ReportService.update_report'
    pl = P(f.node.args.args[1].arg)
    ps = ctx.run(f, SELF, self_cls=cls, usercb=lambda k, n: n == 'on_update_report', max_iter=2)
    reports = I(pl, 'reports')
    n = fb = 0
    for p in ps or ():
        if p.kind != 'return':
            ctx.judge('acknowledged', f'{name}: raises', False if p.value[1] in ('KeyError', 'AttributeError', 'TypeError', 'IndexError', 'UnboundLocalError') else None, 'an oadrUpdateReport makes the handler fail', loc, p)
            continue
        ctx.judge('acknowledged', f'{name}: answer', p.value[0] == 't' and const_of(p.facts, p.value[1][0]) == 'oadrUpdatedReport', 'the answer is not oadrUpdatedReport', loc, p)
        calls = [(i, e) for i, e in enumerate(p.trace) if e.kind == 'call' and e.name == '()' and e.args and has(e.args[0], CALLBACKS)]
        own = [e for e in p.trace if e.kind == 'usercb']
        none = truthy(p.facts, CALLBACKS)
        for k in range(p.state.counts.get(reports, 0)):
            rep = E(reports, k)
            rid = I(rep, 'report_request_id')
            ivs = I(rep, 'intervals')
            mine = [e for e in own if rep in e.args or any(v == rep for _, v in e.kw)]
            if none is False:
                fb += 1
                ctx.judge('fallback', f'{name}: own handler', len(mine) == 1, f'on_update_report gets a report {len(mine)} times', loc, p)
                for e in mine:
                    ctx.judge('fallback', f'{name}: awaited', awaited(p, e.res), 'on_update_report is not awaited', e.loc, p)
                continue
            m = p.state.counts.get(ivs, 0)
            groups = []
            for j in range(m):
                el = E(ivs, j)
                key = I(I(el, 'report_payload'), 'r_id')
                for g in groups:
                    if equal(p.facts, g[0], key) or any(a[0] == 'in' and v and a[1] == key and a[2][0] == 'o' for a, v in all_facts(p)) and len(groups) == 1:
                        g[1].append(el)
                        break
                else:
                    groups.append((key, [el]))
            for key, els in groups:
                has_cb = None
                for a, v in all_facts(p):
                    if a[0] == 'in' and has(a[2], CALLBACKS) and has(a[1], rid) and has(a[1], key):
                        has_cb = v
                    if a[0] in ('isnone', 'truth') and has(a[1], CALLBACKS) and has(a[1], key) and has(a[1], rid) and a[1][0] in ('item', 'call'):
                        has_cb = v if a[0] == 'truth' else not v
                mine = [(i, e) for i, e in calls if has(e.args[0], rid) and has(e.args[0], key)]
                if has_cb is False:
                    ctx.judge('right-callback', f'{name}: no callback', not mine, 'a callback is called that is not registered', loc, p)
                    continue
                if has_cb is None and not mine:
                    ctx.judge('right-callback', f'{name}: looked up', False, 'values of a report are not handed to the callback registered for them', loc, p)
                    continue
                n += 1
                ctx.judge('right-callback', f'{name}: called once', len(mine) == 1, f'the callback of an rID is called {len(mine)} times', loc, p)
                for i, e in mine:
                    ctx.judge('right-callback', f'{name}: awaited', awaited(p, e.res), 'the callback is not awaited', e.loc, p)
                    k2 = callback_key(e.args[0])
                    ctx.judge('right-callback', f'{name}: key', k2 is not None and k2[0] == 't' and k2[1] == (rid, key), 'the callback is looked up under another key', e.loc, p)
                    vals = e.args[1] if len(e.args) > 1 else (e.kw[0][1] if e.kw else None)
                    it = items(p, vals) if vals is not None else None
                    want = [(I(x, 'dtstart'), I(I(x, 'report_payload'), 'value')) for x in els]
                    got = [x[1] if x[0] == 't' else None for x in it] if it is not None else None
                    ctx.judge('all-values', f'{name}: values', None if got is None or None in got else got == want,
                              'the callback does not get exactly the (time, value) pairs of its rID', e.loc, p)
        for i, e in calls:
            ctx.judge('right-callback', f'{name}: for a report of this message', any(has(e.args[0], I(E(reports, k), 'report_request_id'))
                      for k in range(p.state.counts.get(reports, 0))), 'a callback is called for a report that is not in the message', e.loc, p)
    if ps is not None:
        ctx.judge('right-callback', f'{name}: paths', True if n and fb else None, 'no path', detail=f'{n} deliveries, {fb} to the own handler')
    delivered(ctx, name)


DELIVERY = '''
async def probe(self, c0, c1, c2, c3):
    self.report_callbacks = {{{0}}}
    return await self.update_report({{'ven_id': 'v', 'request_id': 'q', 'reports': {1}}})
'''


def delivered(ctx, name):
    """Concrete reports and callbacks: which callback gets what, in which order."""
    ctx.rule('delivery', 'each callback gets the list of all (dtstart, value) of its rID in the report, in the order of the message, once per report; judged on concrete messages')
    from .outgoing import plain, raw
    keys = [('a', 'r1'), ('a', 'r2'), ('b', 'r1')]

    def rep(i, *vs):
        return {'report_request_id': i, 'report_specifier_id': 's', 'dtstart': 100, 'intervals': [{'dtstart': t, 'report_payload': {'r_id': r, 'value': v}} for t, r, v in vs]}
    cases = [[rep('a', (1, 'r1', 5))], [rep('a', (3, 'r1', 0), (1, 'r1', 7.5), (2, 'r1', 0))], [rep('a', (1, 'r1', 1), (1, 'r2', 2), (2, 'r1', 3), (2, 'r2', 4))],
             [rep('a', (1, 'r9', 1), (1, 'r1', 2))], [rep('a', (1, 'r1', 1)), rep('b', (2, 'r1', 2))], [rep('b', (1, 'r2', 1)), rep('c', (1, 'r1', 1)), rep('a', (1, 'r2', 2))],
             [rep('a', (1, 'r2', -1), (1, 'r2', -1))], [rep('a'), rep('b', (5, 'r1', 1))], []]
    for had in (keys, keys[:1], keys[1:]):
        cb = ', '.join(f'{k}: c{keys.index(k) + 1}' for k in had)
        for msg in cases:
            want = []
            for r in msg:
                order = []
                for iv in r['intervals']:
                    if iv['report_payload']['r_id'] not in order:
                        order.append(iv['report_payload']['r_id'])
                for x in order:
                    if (r['report_request_id'], x) in had:
                        want.append((f'c{keys.index((r["report_request_id"], x)) + 1}', [[iv['dtstart'], iv['report_payload']['value']] for iv in r['intervals'] if iv['report_payload']['r_id'] == x]))
            for p in ctx.probe('openleadr.service.report_service', DELIVERY.format(cb, msg), types={SELF: ctx.repo.need_class(SERVICE)}, max_iter=6, model_utils=False) or ():
                if p.kind != 'return':
                    if p.kind == 'raise' and p.value[1] in ('KeyError', 'AttributeError', 'TypeError', 'NameError', 'IndexError'):
                        ctx.judge('delivery', f'{name}: fails', False, f'a report is not delivered: {p.value[1]}', None, p)
                    continue
                got = []
                for e in p.trace:
                    if e.kind in ('call', 'callx') and e.name == '()' and e.args and e.args[0] in (P('c1'), P('c2'), P('c3')):
                        got.append((e.args[0][1], raw(plain(p, e.args[1])) if len(e.args) > 1 else None))
                known = all(isinstance(v, list) and all(isinstance(x, list) and all(not isinstance(y, tuple) for y in x) for x in v) for _, v in got)
                mine = (lambda l: {c: [v for d, v in l if d == c] for c in ('c1', 'c2', 'c3')})
                ctx.judge('delivery', f'{name}: values', False if [c for c, _ in sorted(got)] != [c for c, _ in sorted(want)] else None if not known else mine(got) == mine(want),
                          f'the callbacks get {got} instead of {want}', None, p)


# ---------------------------------------------------------------------------- C35

ONE_REPORT = '''
async def probe(self, ven, s1, r1, r2, m1, m2, sr1, sr2, t1, t2, n1, n2):
    return await self.register_report({'ven_id': ven, 'reports': [{'report_name': 'METADATA_TELEMETRY_USAGE', 'report_specifier_id': s1, 'report_descriptions': [
        {'r_id': r1, 'measurement': m1, 'sampling_rate': sr1, 'reading_type': t1, 'report_data_source': {'resource_id': n1}},
        {'r_id': r2, 'measurement': m2, 'sampling_rate': sr2, 'reading_type': t2, 'report_data_source': {'resource_id': n2}}]}]})
'''
TWO_REPORTS = '''
async def probe(self, ven, s1, s2, r1, r2, m1, m2, sr1, sr2, t1, t2, n1, n2):
    return await self.register_report({'ven_id': ven, 'reports': [{'report_name': %r, 'report_specifier_id': s1, 'report_descriptions': [
        {'r_id': r1, 'measurement': m1, 'sampling_rate': sr1, 'reading_type': t1, 'report_data_source': {'resource_id': n1}}]},
        {'report_name': 'METADATA_TELEMETRY_STATUS', 'report_specifier_id': s2, 'report_descriptions': [
        {'r_id': r2, 'measurement': m2, 'sampling_rate': sr2, 'reading_type': t2, 'report_data_source': {'resource_id': n2}}]}]})
'''
ON_REG = 'on_register_report'


def is_result(t):
    return t[0] == 'call' and t[1].split('.')[-1] == ON_REG


def C35(ctx):
    ctx.rule('offered', 'on_register_report is asked about every description of every supported report, with the resource, measurement, unit, scale and sampling '
             'period of that description (or about the whole report), and awaited')
    ctx.rule('aligned', 'every report request names the specifier id of the report its answers were about, the rIDs of the descriptions that were answered, and '
             'its callbacks are stored under its own request id and the rID they were given for')
    ctx.rule('complete', 'every valid answer leads to a requested rID and nothing else does')
    ctx.rule('fastest', 'the granularity of a request is the smallest sampling interval asked for in that report')
    ctx.rule('recorded', 'the report requests that are sent are those that are remembered for this VEN')
    cls = ctx.repo.need_class(SERVICE)
    cfg = dict(types={SELF: cls}, usercb=lambda k, n: n == ON_REG, splat=lambda t: (2, 3) if is_result(t) or t[0] in ('elem', 'item') else None)
    n = 0
    shapes = [('one report', ONE_REPORT, 's1', 's1', 'METADATA_TELEMETRY_USAGE'), ('two reports', TWO_REPORTS % 'METADATA_TELEMETRY_USAGE', 's1', 's2', 'METADATA_TELEMETRY_USAGE'),
              ('history report first', TWO_REPORTS % 'METADATA_HISTORY_USAGE', None, 's2', None), ('other report first', TWO_REPORTS % 'x-OTHER', None, 's2', None)]
    for label, src, sa, sb, first in shapes:
        name = f'ReportService.register_report ({label})'
        ps = ctx.probe('openleadr.service.report_service', src, **cfg, **(dict(iters=lambda t: 2 if is_result(t) else None) if label == 'one report' else {}))
        for p in ps or ():
            if p.kind == 'raise' and p.value[1] == 'UnboundLocalError':
                ctx.judge('complete', f'{name}: fails', False, 'a report request is made of an answer without a single usable tuple', p.trace[-1].loc if p.trace else None, p)
            if p.kind != 'return':
                continue
            n += register_path(ctx, name, p, {'r1': sa, 'r2': sb}, first)
    ctx.judge('aligned', 'ReportService.register_report: paths', True if n else None, 'no path', detail=f'{n} report requests')


def register_path(ctx, name, p, spec_of, first):
    loc = p.trace[0].loc if p.trace else None
    asks = [e for e in p.trace if e.kind == 'usercb']
    if equal(p.facts, P('r1'), P('r2')):
        return 0                                       # two descriptions with one rID
    descs = {P('r1'): ('1', first), P('r2'): ('2', 'METADATA_TELEMETRY_STATUS' if spec_of['r1'] != spec_of['r2'] else first)}
    compact = bool(asks) and all(arg(e, None, 'ven_id') is not None for e in asks)
    answers = {}                                       # rID -> the term that answers for it (compact mode)
    for e in asks:
        ctx.judge('offered', f'{name}: awaited', awaited(p, e.res) or reached_by_await(p, e.res), 'on_register_report is not awaited', e.loc, p)
    if compact:
        for r, (k, rn) in descs.items():
            if spec_of['r' + k] is None:
                mine = [e for e in asks if arg(e, None, 'resource_id') == P('n' + k)]
                ctx.judge('offered', f'{name}: unsupported', not mine, 'a report that is not supported is offered', loc, p)
                continue
            mine = [e for e in asks if arg(e, None, 'resource_id') == P('n' + k)]
            ctx.judge('offered', f'{name}: asked once', len(mine) == 1, f'on_register_report is asked {len(mine)} times about one description', loc, p)
            for e in mine:
                answers[r] = e.res
                ctx.judge('offered', f'{name}: ven_id', arg(e, None, 'ven_id') == P('ven'), 'the handler is given another venID', e.loc, p)
                for kw, t in (('min_sampling_interval', I(P('sr' + k), 'min_period')), ('max_sampling_interval', I(P('sr' + k), 'max_period'))):
                    ctx.judge('offered', f'{name}: {kw}', arg(e, None, kw) == t, f'the handler is given another {kw}', e.loc, p)
                if rn == 'METADATA_TELEMETRY_USAGE':
                    for kw, t in (('measurement', 'description'), ('unit', 'unit'), ('scale', 'scale')):
                        ctx.judge('offered', f'{name}: {kw}', arg(e, None, kw) == I(P('m' + k), t), f'the handler is given another {kw}', e.loc, p)
    else:
        seen = len(asks)
        want = len({s for s in spec_of.values() if s})
        ctx.judge('offered', f'{name}: asked per report', seen == want, f'on_register_report is asked {seen} times about {want} reports', loc, p)
    reqs = [e for e in p.trace if e.kind == 'new' and e.name == 'openleadr.objects.ReportRequest']
    sets = [e for e in p.trace if e.kind == 'setitem' and e.args[0] == CALLBACKS]
    cbs = {e.args[1]: e for e in sets}
    for e in p.trace:
        if e.args and e.args[0] == CALLBACKS and (e.kind == 'del' or e.kind == 'mut' and e.name in ('pop', 'popitem', 'clear')) or e.kind == 'setattr' and e.name == CALLBACKS[2] and e.args[0] == SELF:
            ctx.judge('aligned', f'{name}: earlier callbacks', False, 'registering reports forgets callbacks of reports that were requested before', e.loc, p)
    got = {}
    rrids = []
    for e in reqs:
        rrid = value(p, e.res, 'report_request_id')
        sp = value(p, e.res, 'report_specifier')
        ctx.judge('aligned', f'{name}: request id', rrid is not None and rrid[0] == 'call' and rrid not in rrids, 'two report requests share one reportRequestID', e.loc, p)
        rrids.append(rrid)
        sid = value(p, sp, 'report_specifier_id')
        pls = items(p, value(p, sp, 'specifier_payloads') or NONE)
        if pls is None:
            ctx.undecided('aligned', f'{name}: specifier payloads', 'not recognised')
            continue
        sources, times = [], []
        for x in pls:
            rid = value(p, x, 'r_id')
            src = None
            c = cbs.get(('t', (rrid, rid)))
            ctx.judge('aligned', f'{name}: callback stored', c is not None, 'no callback is stored under the reportRequestID and rID that are requested', e.loc, p)
            if compact:
                got[rid] = got.get(rid, 0) + 1
                ctx.judge('aligned', f'{name}: rID of this report', rid in descs and sid == P(spec_of['r' + descs[rid][0]] or '?'),
                          'an rID is requested from a report that does not have it', e.loc, p)
                src = answers.get(rid)
                if src is not None and c is not None:
                    v = c.args[2]
                    ok = v == E(src, 0) or gathered(v, asks, src)
                    ctx.judge('aligned', f'{name}: callback given for it', ok, 'the callback stored for an rID is not the one that was given for it', c.loc, p)
                rt = value(p, x, 'reading_type')
                if rid in descs and rt is not None:
                    ctx.judge('aligned', f'{name}: reading type', rt == P('t' + descs[rid][0]) or (has(rt, rid) or None if rt[0] == 'item' else False), 'the request names another reading type', e.loc, p)
            else:
                tup = rid[1] if rid is not None and rid[0] == 'elem' else None
                if tup is not None and c is not None:
                    ctx.judge('aligned', f'{name}: callback given for it', c.args[2] == E(tup, 1), 'the callback stored for an rID is not the one that was given for it', c.loc, p)
                    res = next((y for y in subterms(tup) if is_result(y)), None)
                    if res is not None:
                        about = next((y for a in res[2][1:] + tuple(v for _, v in res[3]) for y in deep_specs(p, a)), None)
                        ctx.judge('aligned', f'{name}: specifier id', None if about is None else sid == about, 'the request names another report than the one the answer was about', e.loc, p)
                    got[tup] = 1
                src = tup
            sources.append(src)
        g = value(p, sp, 'granularity')
        k = 1 if compact else 2
        want = [E(s, k) if s is not None else None for s in sources]
        if g is not None and want and None not in want:
            if g[0] == 'call' and g[1] == 'min':
                inside = [y for a in g[2] for y in ([a] if p.obj(a) is None else (items(p, a) or []))]
                ctx.judge('fastest', f'{name}: smallest', None if not all(y[0] in ('elem', 'call', 'item') for y in inside) else set(want) <= set(inside) or
                          (None if any(gathered_any(y) for y in inside) else False), 'the granularity leaves out a sampling interval that was asked for', e.loc, p)
            elif g in want:
                ctx.judge('fastest', f'{name}: smallest', len(set(want)) == 1 or known_least(p, g, want) or False, 'the granularity is not the smallest of the sampling intervals asked for', e.loc, p)
            elif g[0] == 'call' and g[1] == 'max':
                ctx.violation('fastest', f'{name}: smallest', 'the granularity is the largest of the sampling intervals', e.loc, p)
            else:
                ctx.judge('fastest', f'{name}: smallest', any(has(g, w) for w in want) or None, 'not recognised', e.loc, p)
            rb = value(p, sp, 'report_back_duration')
            ctx.judge('fastest', f'{name}: report-back duration', rb is not None and any(s is not None and rb in (E(s, k), E(s, k + 1)) for s in sources) or
                      (None if rb is not None and rb[0] in ('call', 'unk') else False), 'the report-back duration is not one that was asked for', e.loc, p)
    if compact:
        for r, a in answers.items():
            good = good_answer(p, a)
            if good is True:
                ctx.judge('complete', f'{name}: requested', got.get(r) == 1, f'a description that was answered is requested {got.get(r, 0)} times', loc, p)
            elif good is False:
                ctx.judge('complete', f'{name}: not requested', r not in got, 'a description that was not (properly) answered is requested', loc, p)
    else:
        for e in asks:
            for k in range(p.state.counts.get(e.res, 0)):
                t = E(e.res, k)
                tup = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == t]
                if p.facts.get(('isnone', t)) is True or tup and not any(tup):
                    ctx.judge('complete', f'{name}: not requested', t not in got, 'something that is no tuple is requested', loc, p)
                elif any(tup) and p.facts.get(('callable', E(t, 1))) and any(v and a[0] == 'isinst' and a[1] == E(t, 2) for a, v in p.facts.items()) \
                        and not any(a[0] == 'isinst' and a[1] == E(t, 3) and not v for a, v in p.facts.items()):
                    ctx.judge('complete', f'{name}: requested', t in got, 'a tuple in the answer of on_register_report is not requested', loc, p)
    for c in sets:
        key = c.args[1]
        ctx.judge('aligned', f'{name}: callback key', key[0] == 't' and key[1][0] in rrids, 'a callback is stored under another key than its reportRequestID and rID', c.loc, p)
    rec = [e for e in p.trace if e.kind == 'setitem' and e.args[0] == A(SELF, 'requested_reports')]
    pay = p.value[1][1] if p.value[0] == 't' and len(p.value[1]) == 2 else None
    sent = value(p, pay, 'report_requests') if pay is not None else None
    its = items(p, sent) if sent is not None else None
    ctx.judge('recorded', f'{name}: sent', None if its is None else [x for x in its] == [e.res for e in reqs], 'the answer does not carry the report requests that were made', loc, p)
    for e in rec:
        ctx.judge('recorded', f'{name}: for this VEN', e.args[1] == P('ven'), 'the report requests are remembered for another VEN', e.loc, p)
        it = items(p, e.args[2])
        ctx.judge('recorded', f'{name}: remembered', e.args[2] == sent or it is not None and it == its, 'other report requests are remembered than are sent', e.loc, p)
    if reqs:
        ctx.judge('recorded', f'{name}: remembered at all', bool(rec), 'the report requests are not remembered', loc, p)
    return len(reqs)


def deep_specs(p, t):
    """The report_specifier_id of the report a term stands for."""
    v = value(p, t, 'report_specifier_id') if t[0] == 'o' else None
    return [v] if v is not None else []


def reached_by_await(p, res):
    """Results that are gathered: the list that holds them is awaited."""
    return any(e.kind == 'await' and any(x[0] == 'o' and res in (items(p, x) or ()) for a in e.args for x in subterms(a)) for e in p.trace) or \
        any(e.kind in ('call', 'await') and 'gather' in e.name and res in e.args for e in p.trace) or \
        any(a[0] == 'iscoro' and v is False for a, v in p.facts.items())


def gathered(v, asks, src):
    """E(E(gather(results), i), 0) with results[i] the answer."""
    return None if gathered_any(v) else False


def gathered_any(t):
    return any(x[0] == 'call' and 'gather' in x[1] for x in subterms(t))


def known_least(p, g, want):
    return any(a[0] in ('lt', 'le') and g in (a[1], a[2]) for a in p.facts) or None


def good_answer(p, a):
    """Is an answer in compact mode a (callable, timedelta[, timedelta]) tuple?"""
    fa = p.facts
    if fa.get(('isnone', a)) is True:
        return False
    isinst = {}
    for x, v in fa.items():
        if x[0] == 'isinst':
            isinst[x[1]] = isinst.get(x[1], False) or v
    if isinst.get(a) is False or fa.get(('callable', E(a, 0))) is False or isinst.get(E(a, 1)) is False or isinst.get(E(a, 2)) is False:
        return False
    if isinst.get(a) and fa.get(('callable', E(a, 0))) and isinst.get(E(a, 1)):
        return True
    return None


# ---------------------------------------------------------------------------- C49

THREE_REPORTS = '''
async def probe(self, ven, s1, d1, s2, d2):
    return await self.register_report({'ven_id': ven, 'request_id': d1, 'reports': [
        {'report_name': 'METADATA_TELEMETRY_USAGE', 'report_specifier_id': s1, 'duration': d1, 'report_descriptions': []},
        {'report_name': 'METADATA_HISTORY_USAGE', 'report_specifier_id': s2, 'duration': d2, 'report_descriptions': []}]})
'''


OFFER_AFTER = '''
async def probe(self, ven, s1, d1):
    message = {'ven_id': ven, 'request_id': d1, 'reports': [
        {'report_name': 'METADATA_TELEMETRY_USAGE', 'report_specifier_id': s1, 'duration': d1, 'report_descriptions': []}]}
    await self.register_report(message)
    return message['reports']
'''


def ledger(p, cont, ven):
    """What a path adds to cont[ven]: ([values] or None when not recognised, earlier entries kept?, other VENs touched?)."""
    out, kept, other, known = [], True, False, True
    mine = set()
    for e in p.trace:
        if e.kind == 'setitem' and e.args[0] == cont:
            if e.args[1] != ven:
                other = True
                continue
            v = e.args[2]
            o = p.obj(v)
            was = e.facts.get(('in', ven, cont)) if e.facts is not None else None
            none = next((x for a, x in (e.facts or {}).items() if a[0] == 'isnone' and has(a[1], cont) and has(a[1], ven)), None)
            if o is not None and o[0] == 'list':
                if v not in mine and was is not False and none is not True:
                    kept = False
                mine.add(v)
                # what was in the list when it was stored is what is in it in the end without what is appended after this
                first = list(o[1])
                later = [x for f in p.trace[p.trace.index(e) + 1:] if f.kind == 'mut' and f.args and f.args[0] == v for x in grown(p, f)]
                if len(later) <= len(first):
                    out += first[:len(first) - len(later)]
            elif has(v, cont):
                known = False
            else:
                kept = False
        elif e.kind == 'mut' and e.args and (e.args[0] in mine or e.args[0][0] != 'o' and has(e.args[0], cont) and e.args[0] != cont):
            t = e.args[0]
            if t not in mine and not has(t, ven):
                other = True
            elif e.name in ('append', 'extend', '+=', 'insert'):
                out += grown(p, e)
            else:
                known, kept = False, kept and e.name not in ('clear', 'pop', 'remove')
        elif e.kind in ('del', 'mut') and e.args and e.args[0] == cont and e.name not in ('setdefault', 'update'):
            kept = False
    return (out if known else None), kept, other


def grown(p, e):
    if e.name in ('append', 'insert', 'add'):
        return [e.args[-1]]
    o = p.obj(e.args[-1])
    return list(o[1]) if o is not None and o[0] == 'list' else [e.args[-1]]


def C49(ctx):
    ctx.rule('offers', 'after an oadrRegisterReport, registered_reports[venID] has one more entry per report in the message, in order, which is that report with '
             'its name without METADATA_; the report that is handed on is not changed by it')
    ctx.rule('created', 'after an oadrCreatedReport, created_reports[venID] has the reportRequestID of every pending report added, in order')
    ctx.rule('kept', 'what was recorded for this VEN stays, and nothing is recorded for another VEN')
    cls = ctx.repo.need_class(SERVICE)
    n = m = 0
    name = 'ReportService.register_report'
    cont = A(SELF, 'registered_reports')
    for p in ctx.probe('openleadr.service.report_service', THREE_REPORTS, types={SELF: cls}, usercb=lambda k, nm: nm == ON_REG, max_iter=1) or ():
        if p.kind != 'return':
            ctx.judge('offers', f'{name}: fails', False if p.value[1] in ('KeyError', 'AttributeError', 'IndexError', 'NameError', 'UnboundLocalError') else None,
                      f'recording the offered reports fails with {p.value[1]}', None, p)
            continue
        n += 1
        got, kept, other = ledger(p, cont, P('ven'))
        ctx.judge('kept', f'{name}: earlier offers', kept, 'reports that the VEN registered earlier are dropped from the record', None, p)
        ctx.judge('kept', f'{name}: this VEN', not other, 'a report is recorded for another VEN', None, p)
        if got is None:
            ctx.undecided('offers', name, 'the record is not recognised')
            continue
        ctx.judge('offers', f'{name}: one per report', len(got) == 2, f'{len(got)} entries are recorded for 2 reports', None, p)
        for x, (nm, sid, dur) in zip(got, (('TELEMETRY_USAGE', 's1', 'd1'), ('HISTORY_USAGE', 's2', 'd2'))):
            for key, want in (('report_name', C(nm)), ('report_specifier_id', P(sid)), ('duration', P(dur))):
                v = value(p, x, key)
                ctx.judge('offers', f'{name}: {key}', v == want or (False if v is None or v[0] in ('c', 'p') else None),
                          f'the report is recorded with the {key} {show(v) if v else None} instead of {show(want)}', None, p)
        for e in p.trace:
            if e.kind == 'usercb':
                for a in e.args[1:]:
                    v = value(p, a, 'report_name') if p.obj(a) is not None else None
                    if v is not None and v[0] == 'c':
                        ctx.judge('offers', f'{name}: handed on as sent', v[1].startswith('METADATA_'), 'the report that is handed to the handler was changed by recording it', e.loc, p)
    for p in ctx.probe('openleadr.service.report_service', OFFER_AFTER, types={SELF: cls}, usercb=lambda k, nm: nm == ON_REG, max_iter=1) or ():
        its = items(p, p.value) if p.kind == 'return' else None
        v = value(p, its[0], 'report_name') if its else None
        if v is not None and v[0] == 'c':
            ctx.judge('offers', f'{name}: message as it came', v == C('METADATA_TELEMETRY_USAGE'),
                      f'the report in the message is called {v[1]!r} after it is recorded; it came as METADATA_TELEMETRY_USAGE', None, p)
    f = ctx.repo.need_method(cls.qual, 'on_created_report')
    pl = P(f.node.args.args[1].arg)
    g = ctx.repo.need_method(cls.qual, 'created_report')
    name = 'ReportService.created_report'
    for p in ctx.run(g, SELF, self_cls=cls, max_iter=2) or ():
        pl = P(g.node.args.args[1].arg)
        ven, pend = I(pl, 'ven_id'), I(pl, 'pending_reports')
        if p.kind != 'return':
            ctx.judge('created', f'{name}: fails', False if p.value[1] in ('KeyError', 'AttributeError', 'IndexError', 'NameError', 'UnboundLocalError') else None,
                      f'recording the created reports fails with {p.value[1]}', None, p)
            continue
        m += 1
        got, kept, other = ledger(p, A(SELF, 'created_reports'), ven)
        ctx.judge('kept', f'{name}: earlier reports', kept, 'reports that the VEN created earlier are dropped from the record', None, p)
        ctx.judge('kept', f'{name}: this VEN', not other, 'a report is recorded for another VEN', None, p)
        if got is None:
            ctx.undecided('created', name, 'the record is not recognised')
            continue
        want = [I(E(pend, k), 'report_request_id') for k in range(p.state.counts.get(pend, 0))]
        if truthy(p.facts, pend) is None and pend not in p.state.counts and p.facts.get(('in', C('pending_reports'), pl)) is not False:
            ctx.judge('created', f'{name}: pending reports', got != [] or False, 'the pending reports are not looked at', None, p)
            continue
        ctx.judge('created', f'{name}: every pending report', got == want, f'{len(got)} report request ids are recorded for {len(want)} pending reports', None, p)
    ctx.judge('created', 'ReportService: paths', True if n and m else None, 'no path', detail=f'{n} registrations, {m} confirmations')


CRON_FIELDS = (('day', 31), ('hour', 24), ('minute', 60), ('second', 60))


def cron_field(v, size):
    """The values a cron field stands for, None when it is not understood or not valid."""
    out = set()
    for part in str(v).split(','):
        rng, _, step = part.strip().partition('/')
        lo, _, hi = rng.partition('-')
        if step and (not step.isdigit() or int(step) == 0):
            return None
        if rng == '*':
            lo, hi = 0, size - 1
        elif lo.isdigit() and (not hi or hi.isdigit()):
            lo, hi = int(lo), int(hi) if hi else size - 1 if step else int(lo)
        else:
            return None
        if hi >= size or lo > hi or step and int(step) > hi - lo:
            return None            # APScheduler refuses a step beyond the range
        out |= set(range(lo, hi + 1, int(step) if step else 1))
    return out


def firing(cron):
    """The seconds of the day at which a job with these cron fields runs, None when it is not known."""
    if not isinstance(cron, dict) or any(not isinstance(v, (str, int)) or isinstance(v, bool) for v in cron.values()) or set(cron) - {'hour', 'minute', 'second', 'jitter', 'timezone'}:
        return None
    given = [k for k, _ in CRON_FIELDS if k in cron]
    if not given:
        return None
    at = []
    for k, size in CRON_FIELDS[1:]:
        later = [n for n, _ in CRON_FIELDS].index(k) > [n for n, _ in CRON_FIELDS].index(given[-1])
        vs = cron_field(cron[k] if k in cron else 0 if later else '*', size)
        if vs is None:
            return ()
        at.append(vs)
    return sorted(h * 3600 + m * 60 + s for h in at[0] for m in at[1] for s in at[2])


def C52(ctx):
    ctx.rule('even', 'a job for an interval that divides the minute, the hour or the day runs every interval, also across midnight')
    ctx.rule('other', 'a job for any other interval runs every interval')
    ctx.rule('jitter', 'the moments vary only when that is asked for, by at most a tenth of the interval and five minutes')
    from .outgoing import plain, raw
    name = 'utils.cron_config'
    if 'openleadr.utils.cron_config' not in ctx.repo.funcs:
        ctx.undecided('even', name, 'not found')
        return
    even = [f'seconds={n}' for n in range(1, 60) if 60 % n == 0] + [f'minutes={n}' for n in range(1, 60) if 60 % n == 0] + [f'hours={n}' for n in range(1, 24) if 24 % n == 0] + ['days=1']
    other = ['seconds=7', 'seconds=45', 'seconds=90', 'minutes=7', 'minutes=90', 'hours=5', 'hours=36', 'days=2']
    import datetime
    for iv in even + other:
        k, n = iv.split('=')
        want = int(datetime.timedelta(**{k: int(n)}).total_seconds())
        for asked, src in ((False, ''), (True, ', randomize_seconds=True')):
            ps = ctx.probe('openleadr.utils', f'def probe(): return cron_config(timedelta({iv}){src})')
            for p in ps or ():
                if p.kind != 'return':
                    ctx.judge('even' if iv in even else 'other', f'{name}({iv})' if iv in even else name, None if p.kind != 'raise' else False, f'{iv}: there is no schedule', None, p)
                    continue
                v = plain(p, p.value)
                got = raw(v) if isinstance(v, dict) else None
                j = got.pop('jitter', None) if got else None
                ts = firing(got)
                rule, what = ('even', f'{name}({iv})') if iv in even else ('other', f'{name}: intervals that do not divide a minute, an hour or a day')
                if ts is None:
                    ctx.undecided(rule, what, 'the schedule is not known')
                else:
                    gaps = {b - a for a, b in zip(ts, ts[1:] + [ts[0] + 86400])} if ts else set()
                    ctx.judge(rule, what, gaps == {want}, f'a report that is asked for every {n} {k} is taken every {", ".join(map(str, sorted(gaps)[:4])) or "(never)"} seconds'
                              if iv in even else 'a report is not taken at the interval that was asked for (every 90 minutes becomes every hour, every 2 days becomes every day)', None, p)
                if j is None or isinstance(j, (int, float)):
                    ctx.judge('jitter', f'{name}({iv})', (not j) if not asked else j is not None and j <= want / 10 and j <= 300, f'the moment of the report varies by {j} seconds', None, p)
                else:
                    ctx.undecided('jitter', f'{name}({iv})', 'the variation is not known')
    sampled(ctx)


ONE_REQUEST = '''
async def probe(client, a, sa, ra):
    await client.create_report({{'request_id': 'x', 'report_requests': [
        {{'report_request_id': a, 'report_specifier': {{'report_specifier_id': sa, 'granularity': timedelta({0}), 'report_back_duration': timedelta({1}),
                                                        'specifier_payloads': [{{'r_id': ra}}]}}}}]}})
'''


def sampled(ctx):
    ctx.rule('sampled', 'create_report schedules the sampling of a periodic report at the granularity that the VTN asked for')
    import datetime
    from .outgoing import plain
    name = 'OpenADRClient.create_report'
    n = 0
    for gran, back in (('minutes=5', 'minutes=30'), ('minutes=1', 'hours=1'), ('seconds=30', 'seconds=30'), ('hours=1', 'days=1'), ('minutes=15', 'minutes=5')):
        k, m = gran.split('=')
        want = int(datetime.timedelta(**{k: int(m)}).total_seconds())
        ps = ctx.probe('openleadr.client', ONE_REQUEST.format(gran, back), types={P('client'): ctx.repo.need_class(CLIENT)},
                       opaque={f'{CLIENT}.{x}' for x in client.METHODS if x != 'create_report'})
        for p in ps or ():
            for e in p.trace:
                if e.kind != 'call' or e.name != '.add_job' or not e.args or e.args[0] != A(P('client'), 'scheduler'):
                    continue
                trig = arg(e, 2, 'trigger')
                trig = const_of(p.facts, trig) if trig is not None else None
                kw = {x: y for x, y in e.kw if x not in ('func', 'trigger')}
                n += 1
                if trig == 'cron':
                    vals = {x: const_of(p.facts, y) for x, y in kw.items()}
                    ts = firing(vals) if all(v is not None for v in vals.values()) and '**' not in kw else None
                    gaps = None if ts is None else {b - a for a, b in zip(ts, ts[1:] + [ts[0] + 86400])} if ts else set()
                elif trig == 'interval':
                    vals = {x: const_of(p.facts, y) for x, y in kw.items()}
                    try:
                        gaps = {int(datetime.timedelta(**{x: v for x, v in vals.items() if x in ('days', 'hours', 'minutes', 'seconds', 'weeks')}).total_seconds())}
                    except TypeError:
                        gaps = None
                else:
                    gaps = None
                ctx.judge('sampled', f'{name}: granularity {gran}, report back duration {back}', None if gaps is None else gaps == {want},
                          f'a report that is asked for at a granularity of {gran} is sampled every {", ".join(map(str, sorted(gaps or ())[:4])) or "(never)"} seconds', e.loc, p)
    ctx.judge('sampled', f'{name}: jobs', True if n else None, 'no job', detail=f'{n}')


CHECKS = {'C34': C34, 'C35': C35, 'C30': C30, 'C31': C31, 'C32': C32, 'C33': C33, 'C36': C36, 'C49': C49, 'C52': C52}
