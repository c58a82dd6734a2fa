"""C29: what the VEN offers to report."""
from ..interp import P, A, I, E, C, NONE, FALSE
from ..q import has, truthy, equal, const_of, domain
from .client import CLIENT
from .reports import CALLBACKS, SELF, items, value
from .api import enum_values, within, prefixed, MUTATIONS

REPORTS = A(SELF, 'reports')
BASE = {'callback': P('callback'), 'resource_id': P('resource_id'), 'measurement': C('voltage'), 'data_collection_mode': C('incremental'),
        'report_name': C('TELEMETRY_USAGE'), 'reading_type': C('Direct Read'), 'report_type': C('reading'), 'report_duration': P('duration'),
        'report_dtstart': P('start'), 'sampling_rate': P('rate'), 'scale': NONE, 'unit': NONE, 'report_specifier_id': NONE, 'r_id': NONE,
        'market_context': P('market'), 'data_source': NONE, 'power_ac': C(True), 'power_hertz': C(50), 'power_voltage': C(230),
        'end_device_asset_mrid': NONE, 'report_data_source': NONE}
RUNS = [('names', {'report_name': P('report_name'), 'report_specifier_id': P('spid'), 'r_id': P('r_id'), 'sampling_rate': NONE}),
        ('measurement', {'measurement': P('measurement'), 'scale': P('scale'), 'unit': P('unit'), 'sampling_rate': NONE, 'report_duration': C(1), 'report_dtstart': C(2)}),
        ('types', {'reading_type': P('reading_type'), 'report_type': P('report_type'), 'sampling_rate': NONE, 'report_duration': C(1), 'report_dtstart': C(2)}),
        ('collection', {'data_collection_mode': P('mode'), 'sampling_rate': P('rate')})]


def changes(p):
    """Changes to what was there before: not to objects made on this path, nor the correction of the caller's own measurement dict."""
    return [e for e in p.trace if e.kind in MUTATIONS and e.args and e.args[0][0] != 'o' and e.args[0] != NONE
            and not (e.kind == 'setitem' and e.args[0] == P('measurement') and e.args[1] in (C('name'), C('description')))]


def C29(ctx):
    ctx.rule('validated', 'add_report returns only for a known report name, reading type, report type and scale (or an x- name), and for data collection mode '
             'incremental, or full with a callback that takes the interval; otherwise it raises')
    ctx.rule('refused', 'when it raises, nothing has changed')
    ctx.rule('filed', 'the description is added to one report: the one of that name (and specifier id, if given) when there is one, else a new one, '
             'which is added to the reports; the callback is stored under the specifier id and rID that are returned')
    ctx.rule('as-given', 'the description carries the rID, reading type, report type, market context, resource and sampling rate that were given')
    ctx.rule('measurement', 'it carries the measurement given, with the unit asked for if that is acceptable and the scale asked for if any; the '
             'given object or the predefined one is not changed')
    cls = ctx.repo.need_class(CLIENT)
    f = ctx.repo.need_method(cls.qual, 'add_report')
    loc = (f.file, f.qual, f.node.lineno)
    name = 'OpenADRClient.add_report'
    names = enum_values(ctx, 'REPORT_NAME')
    rtypes, types, scales = (enum_values(ctx, x) for x in ('READING_TYPE', 'REPORT_TYPE', 'SI_SCALE_CODE'))
    have = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
    n = 0
    for label, over in RUNS:
        given = {k: v for k, v in dict(BASE, **over).items() if k in have}
        ps = ctx.run(f, SELF, given, self_cls=cls, post_init=True, max_iter=2)
        for p in ps or ():
            if p.kind == 'raise':
                ch = changes(p)
                ctx.judge('refused', f'{name}: nothing changed', not ch, f'something is changed before the arguments are refused: {ch[0].kind} {ch[0].name}' if ch else '', ch[0].loc if ch else loc, p)
                if p.value[1] in ('AttributeError', 'KeyError', 'UnboundLocalError', 'IndexError'):
                    ctx.undecided('validated', f'{name}: {p.value[1]}', 'an argument of another type than documented')
                continue
            if p.kind != 'return':
                continue
            n += 1
            for what, allowed, ext in (('report_name', names, True), ('reading_type', rtypes, True), ('report_type', types, True)):
                t = given[what]
                if t[0] == 'p':
                    ok = within(p.facts, t, allowed)
                    pre = prefixed(p.facts, t, 'x-')
                    ctx.judge('validated', f'{name}: {what}', ok or pre or (False if ok is False or pre is False or not known(p, t) or beyond(p, t, allowed) else None), f'an unknown {what} is accepted', loc, p)
            if given['scale'][0] == 'p':
                t = given['scale']
                ctx.judge('validated', f'{name}: scale', p.facts.get(('isnone', t)) is True or within(p.facts, t, scales) or (None if known(p, t) else False), 'an unknown scale is accepted', loc, p)
            if given['data_collection_mode'][0] == 'p':
                t = given['data_collection_mode']
                ok = within(p.facts, t, {'incremental', 'full'})
                ctx.judge('validated', f'{name}: data_collection_mode', ok or (None if ok is None and known(p, t) else False), 'an unknown data_collection_mode is accepted', loc, p)
                if const_of(p.facts, t) == 'full':
                    for a in ('date_from', 'date_to', 'sampling_interval'):
                        ctx.judge('validated', f'{name}: callback takes {a}', any(v and x[0] == 'in' and x[1] == C(a) and has(x[2], P('callback')) for x, v in p.facts.items()) or
                                  (None if any(has(x, C(a)) for x in p.facts) else False), 'a callback that cannot take the interval is accepted in full mode', loc, p)
            filed(ctx, name, p, given, loc, label)
    ctx.judge('filed', f'{name}: paths', True if n else None, 'no path', detail=f'{n} accepted')


def known(p, t):
    """Does the path know anything at all about t?"""
    return any(has(a, t) for a in p.facts if a[0] in ('inset', 'in', 'eq', 'truth') )


def beyond(p, t, allowed):
    """Does the path let t be something that is not allowed?"""
    dom = domain(p.facts, t)[0]
    return dom is not None and not dom <= allowed


def matches(p, rep, field, want):
    """Was this report found by that field?"""
    if rep[0] == 'call' and rep[1].split('.')[-1] == 'find_by':
        a = rep[2][1:]
        return any(a[i] == C(field) and a[i + 1] == want for i in range(0, len(a) - 1, 2))
    return equal(p.facts, I(rep, field), want) or equal(p.facts, A(rep, field), want)


def filed(ctx, name, p, given, loc, label):
    if p.value[0] != 't' or len(p.value[1]) != 2:
        ctx.judge('filed', f'{name}: returns the ids', False if p.value[0] in ('c', 't') else None, 'add_report does not return (report_specifier_id, r_id)', loc, p)
        return
    spec, rid = p.value[1]
    sets = [e for e in p.trace if e.kind == 'setitem' and e.args[0] == CALLBACKS]
    ctx.judge('filed', f'{name}: one callback', len(sets) == 1, f'{len(sets)} callbacks are stored', loc, p)
    for e in sets:
        ctx.judge('filed', f'{name}: callback key', e.args[1] == ('t', (spec, rid)), 'the callback is stored under another key than the specifier id and rID that are returned', e.loc, p)
        ctx.judge('filed', f'{name}: callback', e.args[2] == P('callback'), 'another callback is stored', e.loc, p)
    descs = [e.res for e in p.trace if e.kind == 'new' and e.name.endswith('.ReportDescription')]
    new = [e.res for e in p.trace if e.kind == 'new' and e.name.endswith('.Report')]
    added = [e for e in p.trace if e.kind == 'mut' and e.name in ('append', 'insert') and e.args[0] == REPORTS]
    if len(descs) != 1:
        ctx.undecided('filed', f'{name}: description', f'{len(descs)} descriptions are made')
        return
    d = descs[0]
    homes = [(e.args[0][1] if e.args[0][0] in ('item', 'attr') else None) for e in p.trace if e.kind == 'mut' and e.name == 'append' and e.args[-1] == d and e.args[0][0] != 'o']
    homes += [r for r in new if d in (items(p, value(p, r, 'report_descriptions') or NONE) or ())]
    ctx.judge('filed', f'{name}: in one report', len(homes) == 1, f'the description is added to {len(homes)} reports', loc, p)
    for r in homes:
        if r is None:
            ctx.undecided('filed', f'{name}: report', 'not recognised')
            continue
        sid = value(p, r, 'report_specifier_id')
        if sid is None:
            sid = I(r, 'report_specifier_id')
        ctx.judge('filed', f'{name}: ids of that report', sid == spec, 'the specifier id that is returned is not that of the report', loc, p)
        if r in new:
            ctx.judge('filed', f'{name}: new report is kept', [e.args[-1] for e in added] == [r], 'a new report is not added to the reports', loc, p)
            ctx.judge('filed', f'{name}: new report has the name', value(p, r, 'report_name') == given['report_name'], 'a new report has another name', loc, p)
            finds = [(v if a[0] == 'truth' else not v) for a, v in next(e.facts for e in p.trace if e.kind == 'new' and e.res == r).items() if a[0] in ('truth', 'isnone') and a[1] != REPORTS and has(a[1], REPORTS)
                     and a[1][0] in ('call', 'elem')]
            looked = bool(finds) and not any(finds)
            ctx.judge('filed', f'{name}: existing report looked for', looked or not any(finds) and REPORTS in next(e.counts for e in p.trace if e.kind == 'new' and e.res == r), 'a second report is made where there is one already', loc, p)
            for k, a in (('dtstart', 'report_dtstart'), ('duration', 'report_duration')):
                v = given[a]
                if v[0] == 'p' and p.facts.get(('isnone', v)) is False:
                    ctx.judge('as-given', f'{name}: {a}', value(p, r, k) == v, f'the {a} given is not that of the report', loc, p)
        else:
            ctx.judge('filed', f'{name}: nothing added', not added, 'a report is added although one is used that exists', loc, p)
            ctx.judge('filed', f'{name}: report of that name', matches(p, r, 'report_name', given['report_name']) or False, 'the description is added to a report with another name', loc, p)
        s = given['report_specifier_id']
        if s[0] == 'p' and truthy(p.facts, s) is not False:
            ctx.judge('filed', f'{name}: specifier id given', spec == s or matches(p, r, 'report_specifier_id', s) or False, 'the description is added to a report with another specifier id', loc, p)
    g = given['r_id']
    if g[0] == 'p' and truthy(p.facts, g) is not False:
        ctx.judge('as-given', f'{name}: r_id', rid == g, 'the rID given is not used', loc, p)
    elif rid[0] == 'c':
        ctx.violation('as-given', f'{name}: r_id', 'an rID is used that is not unique', loc, p)
    get = lambda x, fld: value(p, x, fld) if x is not None and x[0] == 'o' else (I(x, fld) if x is not None else None)
    ctx.judge('as-given', f'{name}: r_id of the description', get(d, 'r_id') == rid, 'the description has another rID', loc, p)
    for k in ('reading_type', 'report_type', 'market_context'):
        ctx.judge('as-given', f'{name}: {k}', get(d, k) == given[k], f'the description does not have the {k} given', loc, p)
    for k in ('report_data_source', 'report_subject'):
        t = get(d, k)
        ctx.judge('as-given', f'{name}: {k}', t is not None and get(t, 'resource_id') == P('resource_id'), f'the {k} is not the resource given', loc, p)
    sr, r = get(d, 'sampling_rate'), given['sampling_rate']
    if r[0] == 'p' and p.facts.get(('isnone', r)) is False:
        td = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == r]
        if td and td[0]:
            ctx.judge('as-given', f'{name}: sampling rate', get(sr, 'min_period') == r and get(sr, 'max_period') == r, 'the sampling rate is not the one given', loc, p)
        else:
            ctx.judge('as-given', f'{name}: sampling rate', sr == r, 'the sampling rate is not the one given', loc, p)
    measured(ctx, name, p, given, get(d, 'measurement'), get, loc, label)


def measured(ctx, name, p, given, it, get, loc, label):
    m, unit, scale = given['measurement'], given['unit'], given['scale']
    if const_of(p.facts, given['report_name']) == 'TELEMETRY_STATUS':
        return
    ch = [e for e in changes(p) if e.args[0] != REPORTS and e.args[0] != CALLBACKS and not has(e.args[0], A(SELF, 'report_callbacks'))
          and not has(e.args[0], REPORTS)]
    ctx.judge('measurement', f'{name}: not shared', not ch, 'an object that others use too is changed', ch[0].loc if ch else loc, p)
    if it is None or it == NONE:
        ctx.violation('measurement', f'{name}: there', 'the description has no measurement', loc, p)
        return
    ctx.judge('measurement', f'{name}: own copy', it[0] == 'o' or not label == 'measurement' or None, 'the description shares the measurement', loc, p)
    if label != 'measurement' or it[0] != 'o':
        return
    isinst = {}
    for a, v in p.facts.items():
        if a[0] == 'isinst' and a[1] == m:
            isinst[a[2]] = v
    obj = next((v for a, v in isinst.items() if 'Measurement' in a), None)
    dic = next((v for a, v in isinst.items() if 'dict' in a), None)
    nm, ds, un, sc = (get(it, x) for x in ('name', 'description', 'unit', 'scale'))
    if obj or dic:
        src = m
    else:
        src = next((x for x in (nm[1] if nm is not None and nm[0] in ('item', 'attr') else None,) if x is not None), None)
    if src is not None:
        ctx.judge('measurement', f'{name}: name', nm == I(src, 'name') or nm == C('customUnit') and src == m, 'the measurement has another name', loc, p)
        ctx.judge('measurement', f'{name}: description', ds == I(src, 'description') or dic and ds is not None and ds[0] == 'c', 'the measurement has another description', loc, p)
        if src != m:
            ctx.judge('measurement', f'{name}: predefined', has(src, m), 'the measurement is not the predefined one of that name', loc, p)
        own = I(src, 'unit')
        ctx.judge('measurement', f'{name}: power attributes', dic or get(it, 'power_attributes') == I(src, 'power_attributes'), 'the power attributes are lost', loc, p)
        ctx.judge('measurement', f'{name}: pulse factor', get(it, 'pulse_factor') == I(src, 'pulse_factor') or None, 'the pulse factor is lost', loc, p)
        acc = next((v for a, v in p.facts.items() if a[0] == 'in' and a[1] == unit and 'acceptable_units' in repr(a[2])), None)
        same = equal(p.facts, own, unit)
        if p.facts.get(('isnone', unit)) is True:
            ctx.judge('measurement', f'{name}: own unit', un == own, 'the unit of the measurement is not kept', loc, p)
        elif acc and not dic:
            ctx.judge('measurement', f'{name}: unit asked for', un == unit, 'an acceptable unit is not used', loc, p)
        elif acc is False or dic:
            ctx.judge('measurement', f'{name}: other unit', un == own or same and un == unit, 'a unit is used that does not fit the measurement', loc, p)
        ownscale = I(src, 'scale')
    else:
        if nm != C('customUnit'):
            ctx.undecided('measurement', f'{name}: custom', 'not recognised')
            return
        ctx.judge('measurement', f'{name}: custom', ds == m and un == unit, 'a custom measurement does not have the description and unit given', loc, p)
        ownscale = NONE
    pulse = src is not None and p.facts.get(('isnone', I(src, 'pulse_factor'))) is False
    if pulse:
        return
    if p.facts.get(('isnone', scale)) is False:
        ctx.judge('measurement', f'{name}: scale asked for', sc == scale, 'the scale asked for is not used', loc, p)
    elif p.facts.get(('isnone', scale)) is True:
        ctx.judge('measurement', f'{name}: own scale', sc == ownscale or sc is not None and sc[0] == 'c' and (truthy(p.facts, ownscale) is False or p.facts.get(('isnone', ownscale)) is True or ownscale == NONE),
                  'the scale of the measurement is not kept', loc, p)


CHECKS = {'C29': C29}
