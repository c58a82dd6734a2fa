"""C45: the objects of openleadr.objects refuse values outside the standard and fill in what is missing, per object."""
from ..interp import P, C, NONE, subterms
from ..q import domain, truthy
from .api import enum_values, prefixed
from .outgoing import has_any, table

MOD = 'openleadr.objects'
T3 = "targets=[{'ven_id': v}]"
FORGET = ("'t'", 'targets', "'v'")


def C45(ctx):
    ctx.rule('values', 'an object with a value that the standard does not know is refused; one with only known values is accepted')
    ctx.rule('either', 'an Opt is for an event or for an availability schedule, not for both or neither')
    ctx.rule('defaults', 'a missing creation or modification time is the time of that call, a missing modification number 0, missing descriptions an empty list of that report; what is given is kept')
    ctx.rule('names', 'a measurement has the namespace of its name, and a name that is not known becomes customUnit')
    values(ctx)
    either(ctx)
    defaults(ctx)
    names(ctx)


def attrs(p):
    o = p.obj(p.value)
    return dict(o[2]) if o is not None and o[0] == 'inst' and isinstance(o[2], tuple) else None


def attr(ctx, p, cls, name, given):
    """The value of an attribute at the end: as set, or as given."""
    at = attrs(p)
    if at is None:
        return None
    return at.get(name, given)


def allowed(facts, t, vals, prefix=None):
    al, ex = domain(facts, t)
    if prefix and prefixed(facts, t, prefix):
        return True
    if al is not None:
        return al <= vals
    for a in facts:
        if has_any(a, t) and not (a[0] in ('isnone', 'inset', 'eq') and a[1] == t) and not (prefix and prefixed_false(facts, t, prefix) and a[0] == 'truth'):
            return None if not vals <= ex else False
    return False


def values(ctx):
    sig = "EventSignal(intervals=i, signal_name={}, signal_type={}, signal_id=s)"
    opt = "Opt(opt_type={}, opt_reason={}, event_id='e', signal_target_mrid={}, " + T3.replace('{', '{{').replace('}', '}}') + ")"
    e = {k: enum_values(ctx, k) for k in ('SIGNAL_NAME', 'SIGNAL_TYPE', 'OPT', 'OPT_REASON', 'SIGNAL_TARGET_MRID')}
    for cls, attr_, src, vals, prefix, none in (
            ('EventSignal', 'signal_name', sig.format('x', "'level'"), e['SIGNAL_NAME'], 'x-', False),
            ('EventSignal', 'signal_type', sig.format("'SIMPLE'", 'x'), e['SIGNAL_TYPE'], None, False),
            ('Opt', 'opt_type', opt.format('x', "'economic'", 'None'), e['OPT'], None, False),
            ('Opt', 'opt_reason', opt.format("'optIn'", 'x', 'None'), e['OPT_REASON'], None, False),
            ('Opt', 'signal_target_mrid', opt.format("'optIn'", "'economic'", 'x'), e['SIGNAL_TARGET_MRID'], 'x-', True)):
        name = f'{MOD}.{cls}.{attr_}'
        x = P('x')
        ps = ctx.probe(MOD, f'def probe(x, i, s, v): return {src}', post_init=True, max_iter=2)
        for p in ps or ():
            nn = none and p.facts.get(('isnone', x)) is True
            if p.kind == 'return':
                ctx.judge('values', f'{name}: accepted', True if nn else allowed(p.facts, x, vals, prefix), f'a {attr_} that the standard does not know is accepted', None, p)
                v = attr(ctx, p, cls, attr_, x)
                ctx.judge('values', f'{name}: kept', v == x or (None if v is None or v[0] not in ('c', 'p') else v[0] == 'c' and domain(p.facts, x)[0] == {v[1]}), f'the {attr_} given is changed', None, p)
            elif p.kind == 'raise' and p.value[0] == 'exc' and p.value[1] == 'ValueError':
                al, ex = domain(p.facts, x)
                ok = vals <= ex and not nn or al is not None and not al & vals
                if ok and prefix:
                    ok = (prefixed_false(p.facts, x, prefix)) or None
                ctx.judge('values', f'{name}: refused', ok or (False if nn or not any(has_any(a, x) for a in p.facts) or (vals - ex and al is None and not any(has_any(a, x) and a[0] not in ('inset', 'eq', 'isnone') for a in p.facts)) else None),
                          f'a {attr_} of the standard is refused', None, p)
            elif p.kind == 'raise':
                ctx.undecided('values', f'{name}: refused', f'{p.value[1]}')
        # every one of the values is accepted
        for c in sorted(vals):
            ps = ctx.probe(MOD, f'def probe(i, s, v): return {src.replace("=x", "=" + repr(c))}', post_init=True)
            for p in ps or ():
                ctx.judge('values', f'{name}: {c}', p.kind == 'return', f'{c} is refused', None, p)


def prefixed_false(facts, t, prefix):
    return any(not v and a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == '.startswith' and a[1][2] and a[1][2][0] == t and C(prefix) in a[1][2] for a, v in facts.items())


def either(ctx):
    name = f'{MOD}.Opt'
    for ev, va, good in (('e', 'None', None), ('None', 'w', None), ('e', 'w', None), ('None', 'None', False)):
        ps = ctx.probe(MOD, f"def probe(e, w, v): return Opt(opt_type='optIn', opt_reason='economic', event_id={ev}, vavailability={va}, {T3})", post_init=True, max_iter=2)
        for p in ps or ():
            e = False if ev == 'None' or p.facts.get(('isnone', P('e'))) is True else True if p.facts.get(('isnone', P('e'))) is False or truthy(p.facts, P('e')) else None
            w = False if va == 'None' or p.facts.get(('isnone', P('w'))) is True else True if p.facts.get(('isnone', P('w'))) is False or truthy(p.facts, P('w')) else None
            if p.kind == 'return':
                ctx.judge('either', f'{name}: accepted', (e is not w) if e is not None and w is not None else (None if any(has_any(a, P('e')) or has_any(a, P('w')) for a in p.facts) else False),
                          'an Opt for both or neither of an event and a schedule is accepted', None, p)
            elif p.kind == 'raise' and p.value[0] == 'exc' and p.value[1] == 'ValueError':
                ctx.judge('either', f'{name}: refused', (e is w) if e is not None and w is not None else None, 'a valid Opt is refused', None, p)


def now(v):
    return any(x[0] == 'call' and x[1].split('.')[-1] in ('now', 'utcnow') for x in subterms(v))


def aware(v):
    c = next((x for x in subterms(v) if x[0] == 'call' and x[1].split('.')[-1] == 'now'), None)
    return c is not None and bool(c[2] or c[3])


def defaults(ctx):
    for cls, src, times, others in (
            ('EventDescriptor', 'EventDescriptor(event_id=i, modification_number=x0, market_context=m, event_status=s, created_date_time=x1, modification_date_time=x2)', (('created_date_time', 'x1'), ('modification_date_time', 'x2')), (('modification_number', 'x0', C(0)),)),
            ('EventDescriptor', "EventDescriptor(event_id=i, modification_number=x0, market_context=m, event_status=s)", (('created_date_time', None), ('modification_date_time', None)), ()),
            ('Report', "Report(report_specifier_id=i, report_name=m, report_descriptions=x0, created_date_time=x1)", (('created_date_time', 'x1'),), (('report_descriptions', 'x0', [],),)),
            ('Opt', f"Opt(opt_type='optIn', opt_reason='economic', event_id='e', modification_number=x0, created_date_time=x1, {T3})", (('created_date_time', 'x1'),), (('modification_number', 'x0', C(0)),))):
        name = f'{MOD}.{cls}'
        ps = ctx.probe(MOD, f'def probe(i, m, s, v, x0, x1, x2): return {src}', post_init=True, max_iter=1)
        for p in ps or ():
            if p.kind != 'return':
                ctx.judge('defaults', f'{name}: accepted', None, 'refused')
                continue
            for a, par in times:
                x = P(par) if par else NONE
                v = attr(ctx, p, cls, a, x)
                missing = par is None or p.facts.get(('isnone', x)) is True
                if v is None:
                    ctx.undecided('defaults', f'{name}.{a}', 'not followed')
                elif missing:
                    ctx.judge('defaults', f'{name}.{a}: now', now(v) or (False if v[0] in ('c', 'p', 'glob', 'attr') else None), f'a missing {a} is not the time of the call', None, p)
                    if now(v):
                        ctx.judge('defaults', f'{name}.{a}: with timezone', aware(v), f'a missing {a} becomes a time without timezone', None, p)
                else:
                    falsy = truthy(p.facts, x) is False
                    unasked = p.facts.get(('isnone', x)) is None and truthy(p.facts, x) is None
                    ctx.judge('defaults', f'{name}.{a}: kept', (v == x and not (unasked)) or (None if falsy and now(v) else False), f'the {a} given is changed, or a missing one is left missing', None, p)
            for a, par, want in others:
                x = P(par)
                v = attr(ctx, p, cls, a, x)
                missing = p.facts.get(('isnone', x)) is True
                if v is None:
                    ctx.undecided('defaults', f'{name}.{a}', 'not followed')
                elif missing:
                    if want == []:
                        o = p.obj(v) if v[0] == 'o' else None
                        ok = o is not None and o[0] == 'list' and not o[1]
                        ctx.judge('defaults', f'{name}.{a}: empty list', ok or (False if o is not None or v[0] in ('c', 'p', 'glob') else None), f'a missing {a} is not an empty list of this object', None, p)
                    else:
                        ctx.judge('defaults', f'{name}.{a}: default', v == want or (False if v[0] in ('c', 'p') else None), f'a missing {a} gets another value', None, p)
                else:
                    falsy = truthy(p.facts, x) is False
                    ctx.judge('defaults', f'{name}.{a}: kept', v == x or (True if falsy and v == want else None if falsy and v[0] != 'c' else False), f'the {a} given is changed', None, p)


def names(ctx):
    name = f'{MOD}.Measurement'
    ns = table(ctx, '_MEASUREMENT_NAMESPACES')
    if not ns:
        ctx.undecided('names', name, 'no table of namespaces')
        return
    for x in sorted(ns) + ['somethingElse']:
        ps = ctx.probe(MOD, f'def probe(d, u, n): return Measurement(name={x!r}, description=d, unit=u, ns=n)', post_init=True)
        for p in ps or ():
            at = attrs(p) if p.kind == 'return' else None
            if at is None:
                ctx.judge('names', f'{name}: {x}', False if p.kind == 'raise' else None, 'a measurement is refused', None, p)
                continue
            n, s = at.get('name', C(x)), at.get('ns', P('n'))
            want = x if x in ns else 'customUnit'
            ctx.judge('names', f'{name}: name {x}', n == C(want) or (False if n[0] == 'c' else None), 'the name is changed', None, p)
            ctx.judge('names', f'{name}: namespace of {x}', s == C(ns[want]) or (False if s[0] in ('c', 'p') else None), 'the namespace is not that of the name', None, p)


CHECKS = {'C45': C45}
