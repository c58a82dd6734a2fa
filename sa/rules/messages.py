"""C20-C24, C26: the message templates, the constants and the conversions against the OpenADR schema."""
import ast
import re
from fractions import Fraction

from ..const import Unknown, evaluate, members
from ..interp import show, subterms
from ..jinja import Bad, El, showexpr
from ..q import find_calls, has, has_call
from ..wire import Case, Doc, Unk, Walk, as_dict, atoms, load, measurements, resolve

OADR = 'http://openadr.org/oadr-2.0b/2012/07'
EI = 'http://docs.oasis-open.org/ns/energyinterop/201110'

# the library always fills these in before it builds a message
GIVEN = (('report_specifier', 'report_back_duration'), ('events', '[]', 'targets'))   # the latter: C19


def top(templates):
    return [n for n in templates.names() if '/' not in n and n.endswith('.xml') and n != 'oadrPayload.xml']


def C21(ctx):
    ctx.rule('xml', 'every template is well-formed XML in every state of its conditions, with declared namespace prefixes')
    ctx.rule('root', 'the root element is the one that is put into the envelope')
    ctx.rule('structure', 'whatever is given or not given, the sequence of elements that a template produces is allowed by the content model of the schema')
    ctx.rule('attributes', 'the attributes of an element are those of the schema, and the required ones are there')
    ctx.rule('text', 'no text stands where the schema has only elements')
    schema, templates = load(ctx)
    ms, _ = measurements(ctx)
    inst = [m for _, m in ms]
    for name in top(templates):
        walk(ctx, schema, templates, name, inst)


def walk(ctx, schema, templates, name, inst):
    def report(kind, construct, ok, what, loc):
        if kind == 'unknown':
            ctx.undecided('structure', construct, what)
        else:
            ctx.judge(kind, construct, ok, what, (f'openleadr/templates/{loc[0]}', name[:-4], loc[1]) if loc else None)
    w = Walk(schema, templates, name, inst, report, GIVEN)
    r = w.go()
    if r is None:
        return w
    tree, roots, sc = r
    for k in roots:
        q = w.qname(k.name, w.inner(k, sc), 'element', k.loc)
        ctx.judge('root', f'{name}: root', q == (OADR, 'oadrSignedObject'), f'the root element is {q[1]}', None)
        if q in schema.elements:
            w.element(k, schema.elements[q], sc, q, name)
    return w


# -- C26: what one side writes, the other side reads ---------------------------------

SAMPLES = {           # type -> texts that are written and the value that has to come back
    'dateTime': [(f'2020-01-02T03:{{m:02d}}:{{s:02d}}{f}Z', ('datetime', 2020, 1, 2, 3, '{m}', '{s}', us)) for f, us in (('.000000', 0), ('.250000', 250000), ('', 0), ('.000001', 1))],
    'duration': [('PT{m}M{s}S', ('duration', '60*{m}+{s}')), ('P{m}DT{s}H', ('duration', '86400*{m}+3600*{s}')), ('PT{m}H{s}M', ('duration', '3600*{m}+60*{s}')), ('P', ('duration', '0'))],
    'boolean': [('true', True), ('false', False)],
    'integer': [('{n}', '{n}'), ('0', '0')],
    'number': [('{n}.5', '{n}.5'), ('-{n}.25', '-{n}.25'), ('{n}', '{n}'), ('0.0', '0.0'), ('-{n}', '-{n}')],
}
STRINGS = ['v{n}', '{n}-a', 'a.{n}', 'true {n}', '-{n}x']
BOOLEANS = {'test_event'}       # a string in the schema, a yes or no in the library
NUMBERS = {'float', 'double', 'decimal'}
INTEGERS = {'int', 'integer', 'unsignedInt', 'long', 'short', 'nonNegativeInteger', 'positiveInteger', 'unsignedLong'}


def kind_of(schema, type_):
    """What the values of a simple type are."""
    alts = schema.simple(type_)
    kinds = set()
    for base, enum, pats in alts:
        if enum:
            kinds.add('text')
        elif base == 'dateTime':
            kinds.add('dateTime')
        elif base == 'duration' or any('P(' in p for p in pats):
            kinds.add('duration')
        elif base == 'boolean':
            kinds.add('boolean')
        elif base in INTEGERS:
            kinds.add('integer')
        elif base in NUMBERS:
            kinds.add('number')
        else:
            kinds.add('text')
    return kinds.pop() if len(kinds) == 1 else 'text'


class Texts:
    """Texts for the values of a document: all different, and what each of them means."""

    def __init__(self, schema, variant):
        self.schema, self.variant, self.n, self.want = schema, variant, 0, {}

    def __call__(self, path, type_):
        self.n += 1
        k = 'boolean' if path[-1] in BOOLEANS else kind_of(self.schema, type_)
        if k == 'text':
            alts = self.schema.simple(type_)
            enum = sorted(v for a in alts for v in (a[1] or ()))
            free = any(a[1] is None for a in alts)
            text = STRINGS[self.variant % len(STRINGS)].format(n=self.n) if free else enum[(self.n + self.variant) % len(enum)]
            self.want[path] = text
            return text
        sample, want = SAMPLES[k][self.variant % len(SAMPLES[k])]
        m, s = divmod(self.n, 20)
        f = {'n': self.n, 'm': m + 1, 's': s + 1}
        text = sample.format(**f)
        if k == 'dateTime':
            want = tuple(int(x.format(**f)) if isinstance(x, str) and '{' in x else x for x in want)
        elif k == 'duration':
            want = ('duration', sum_of(want[1].format(**f)))
        elif k == 'integer':
            want = int(want.format(**f))
        elif k == 'number':
            want = float(want.format(**f))
        self.want[path] = want
        return text


def sum_of(s):
    out = 0
    for part in s.split('+'):
        x = 1
        for y in part.split('*'):
            x *= int(y)
        out += x
    return out


UNITS = {'weeks': 604800, 'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1, 'milliseconds': 0.001, 'microseconds': 0.000001}


def value_of(p, t, depth=40):
    """A term of the reader as a Python value; ('datetime', ...), ('duration', seconds)."""
    if depth < 0:
        raise Unknown
    if t[0] == 'c':
        return t[1]
    if t[0] == 't':
        return [value_of(p, x, depth - 1) for x in t[1]]
    if t[0] == 'o':
        o = p.obj(t)
        if o is not None and o[0] == 'dict' and isinstance(o[1], tuple) and not o[2]:
            return {value_of(p, k, depth - 1): value_of(p, v, depth - 1) for k, v in o[1]}
        if o is not None and o[0] == 'list' and isinstance(o[1], tuple):
            return [value_of(p, x, depth - 1) for x in o[1]]
    if t[0] == 'call' and t[1] == 'datetime.datetime':
        v = [value_of(p, x, depth - 1) for x in t[2]]
        kw = dict(t[3])
        names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']
        full = dict(zip(names, v))
        for k, x in kw.items():
            full[k] = x if k == 'tzinfo' else value_of(p, x, depth - 1)
        tz = full.get('tzinfo')
        if tz is None:
            return ('naive datetime', *(full.get(k, 0) for k in names[:7]))
        if tz != ('ext', 'datetime.timezone.utc'):
            raise Unknown
        return ('datetime', *(full.get(k, 0) for k in names[:7]))
    if t[0] == 'call' and t[1] == 'datetime.timedelta':
        s = 0
        for k, x in list(zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), t[2])) + list(t[3]):
            s += UNITS[k] * value_of(p, x, depth - 1)
        return ('duration', s)
    if t[0] == 'bin' and t[1] == '*':
        a, b = value_of(p, t[2], depth - 1), value_of(p, t[3], depth - 1)
        if isinstance(b, tuple) and b[0] == 'duration' and isinstance(a, (int, float)):
            return ('duration', a * b[1])
        if isinstance(a, tuple) and a[0] == 'duration' and isinstance(b, (int, float)):
            return ('duration', a[1] * b)
    raise Unknown


# values that the reader keeps under another name, or in another shape
RENAMED = {('active_period', 'notification_period'): ('active_period', 'notification'),
           ('active_period', 'ramp_up_period'): ('active_period', 'ramp_up'),
           ('active_period', 'recovery_period'): ('active_period', 'recovery'),
           ('active_period', 'tolerance', 'startafter'): ('active_period', 'tolerance', 'tolerate', 'startafter')}
ELSEWHERE = {'vavailability', 'signal_target_mrid'}    # of an oadrCreateOpt: the reader keeps the structure of the XML


def finder(got, path):
    """(found, value) at a message path in what was read."""
    if 'targets' in path[:-1]:
        i = path.index('targets')
        ok, ts = finder(got, path[:i + 1])
        if ok and isinstance(ts, list) and len(path) == i + 3:
            vals = [t[path[-1]] for t in ts if isinstance(t, dict) and path[-1] in t]
            return True, vals
        return False, ts
    x = got
    for i, k in enumerate(path):
        if isinstance(k, int):
            if isinstance(x, list) and k < len(x):
                x = x[k]
            elif k == 0 and i == len(path) - 1 and not isinstance(x, (list, dict)):
                pass                   # a single plain value
            else:
                return False, x
        elif isinstance(x, dict) and k in x:
            x = x[k]
        else:
            return False, x
    return True, x


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'duration':
        return abs(a[1] - b[1]) < 1e-6
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b


class RoundTrip:
    def __init__(self, ctx, schema, templates, instances, namespaces):
        self.ctx, self.schema, self.templates, self.ns = ctx, schema, templates, namespaces
        self.instances = instances
        self.walks = {}
        self.seen = {}

    def walk(self, name):
        if name not in self.walks:
            self.walks[name] = Walk(self.schema, self.templates, name, list(self.instances.values()), None, GIVEN)
        return self.walks[name]

    def states(self, name):
        """The optional parts of a message: paths that decide about parts of the document."""
        w = self.walk(name)
        out = set()
        r = w.go()
        if r is None:
            return out
        tree, roots, sc = r

        def visit(nodes, sc):
            env = dict(sc.env)
            for n in nodes:
                s2 = sc.but(env=env)
                if isinstance(n, El):
                    visit(n.kids, s2)
                elif n[0] == 'if':
                    out.update(a[1] for a in atoms(resolve(n[1], env), set()) if a[0] == 'p')
                    visit(n[2], s2)
                    visit(n[3], s2)
                elif n[0] == 'for':
                    e2, item = w.loop_env(n, env)
                    out.add(item[:-1])
                    visit(n[3], s2.but(env=e2))
                elif n[0] == 'set':
                    env[n[1]] = resolve(n[2], env)
                elif n[0] == 'with':
                    e2 = dict(env)
                    for k, v in n[1]:
                        e2[k] = resolve(v, env)
                    visit(n[2], s2.but(env=e2))
                elif n[0] == 'include':
                    visit(n[1], s2)
                elif n[0] == 'autoescape':
                    visit(n[2], s2)
        visit(roots, sc)
        return out

    def one(self, name, count, instance, variant, absent, label, mixed=None):
        """Write one document and read it back."""
        ctx = self.ctx

        def given(a, c, at):
            if a[0] == 'x':
                return False
            if c:
                return 'none' if c[1] is None else 'truthy' if c[1] else 'falsy'
            if a[1] in absent:
                return 'none'
            if mixed and a[1] == mixed[0] and (next(i for i in reversed(at) if isinstance(i, int)) == 0) == mixed[1]:
                return 'none'
            return 'truthy'
        texts = Texts(self.schema, variant)
        d = Doc(self.walk(name), given, count, self.instances[instance], texts)
        try:
            content = as_dict(d.build(), self.ns)
        except (Unk, Bad) as u:
            ctx.undecided('document', f'{name}: {label}', str(u))
            return
        if not isinstance(content, dict) or len([k for k in content if not k.startswith('@')]) != 1:
            return
        key = next(k for k in content if not k.startswith('@'))
        body = content[key]
        if not isinstance(body, dict):
            return
        memo = repr(body)
        if memo in self.seen:
            return
        self.seen[memo] = True
        ps = ctx.probe('openleadr.utils', f'def probe(): return normalize_dict({body!r})', max_recur=30, max_depth=90, max_seconds=30)
        if not ps:
            return
        if len(ps) != 1 or ps[0].kind not in ('return', 'raise'):
            ctx.undecided('reader', f'{name}: {label}', f'{len(ps)} outcomes')
            return
        if ps[0].kind == 'raise':
            ctx.judge('reader', f'{name}: not readable', False, f'normalize_dict raises for a document of {name} ({label})', ps[0].trace[-1].loc if ps[0].trace else None, ps[0])
            return
        try:
            got = value_of(ps[0], ps[0].value)
        except Unknown:
            got = value_partly(ps[0], ps[0].value)
        for path, type_, text, loc in d.filled:
            if name == 'oadrCreateOpt.xml' and path[0] in ELSEWHERE:
                continue
            want = texts.want.get(path, text)
            if path not in texts.want and type_ is not None:
                k = kind_of(self.schema, type_)
                want = {'integer': int, 'number': float}.get(k, str)(text) if k != 'boolean' else text == 'true'
            self.value(name, path, want, got, loc, label, ps[0])

    def value(self, name, path, want, got, loc, label, p):
        plain_path = tuple(x for x in path if not isinstance(x, int))
        construct = f'{name[:-4]}: {".".join(plain_path)}'
        where = ('openleadr/templates/' + loc[0], name[:-4], loc[1]) if loc else None
        tries = [path]
        for a, b in RENAMED.items():
            if plain_path[-len(a):] == a:
                tries.append(path[:-len(a)] + b)
        ok = None
        for t in tries:
            found, v = finder(got, t)
            if found and 'targets' in path:
                ok = any(same(x, want) for x in v) or (None if any(x is Unknown for x in v) else False)
            elif found:
                ok = None if v is Unknown else same(v, want)
            else:
                ok = None if v is Unknown else False
            if ok is not False:
                break
        shown = 'nothing' if not found else v
        self.ctx.judge('round trip', construct if ok is False else f'{construct} [{label}]', ok,
                       f'written as {show_value(want)}, read back as {show_value(shown)} ({label})', where, p if ok is False else None)


def show_value(v):
    return repr(v)[:80]


def value_partly(p, t, depth=40):
    try:
        return value_of(p, t, 2)
    except Unknown:
        pass
    if t[0] == 'o' and depth:
        o = p.obj(t)
        if o is not None and o[0] == 'dict' and isinstance(o[1], tuple) and not o[2]:
            return {value_partly(p, k, 0): value_partly(p, v, depth - 1) for k, v in o[1]}
        if o is not None and o[0] == 'list' and isinstance(o[1], tuple):
            return [value_partly(p, x, depth - 1) for x in o[1]]
    try:
        return value_of(p, t)
    except Unknown:
        return Unknown


def reading(ctx):
    """parse_message hands the content of the message to the reader."""
    f = ctx.repo.need_func('openleadr.messaging.parse_message')
    for p in ctx.run(f, opaque={'openleadr.utils.normalize_dict'}) or ():
        if p.kind != 'return':
            continue
        t = p.value
        if t[0] != 't' or len(t[1]) != 2:
            ctx.judge('parsed', 'parse_message', None, 'not a pair', None, p)
            continue
        name, body = t[1]
        norm = next(iter(find_calls(body, 'openleadr.utils.normalize_dict')), None)
        if norm is None:
            ctx.judge('parsed', 'parse_message: payload', False if has_call(body, 'xmltodict.parse') else None, 'the payload of a message is not converted', None, p)
            continue
        arg = norm[2][0]
        both = name[0] == 'elem' and arg[0] == 'elem' and name[1] == arg[1] and (name[2], arg[2]) == (0, 1)
        ctx.judge('parsed', 'parse_message: payload', True if both and has(arg, ('p', 'data')) else None, 'name and payload of another element', None, p)


FLAT = [('<a>\n  <b>x</b>\n</a>', '<a><b>x</b></a>'), ('<a>\n<b>Direct Read</b>\n\n<c/>\n</a>\n', '<a><b>Direct Read</b><c/></a>'),
        ('<a x="1" y="2">\n\t<b>pulse count</b>\n</a>', '<a x="1" y="2"><b>pulse count</b></a>'),
        ('<a>\n  <b>first line\n    second line\n\nlast</b>\n  <c>x</c>\n</a>\n', '<a><b>first line\n    second line\n\nlast</b><c>x</c></a>'),
        ('<a>\n  <b>one\ttwo  three</b>\n</a>', '<a><b>one\ttwo  three</b></a>')]


def flat(ctx):
    """The whitespace between elements goes, that within values stays."""
    for text, want in FLAT:
        ps = ctx.probe('openleadr.utils', f'def probe(): return flatten_xml({text!r})')
        if not ps or len(ps) != 1 or ps[0].kind != 'return' or ps[0].value[0] != 'c' or not isinstance(ps[0].value[1], str):
            ctx.undecided('flat', repr(text), 'not constant')
            continue
        got = ps[0].value[1]
        ctx.judge('flat', repr(text), re.sub(r'>\s+<', '><', got).strip() == want, f'flatten_xml makes {got!r} of {text!r}', None, ps[0])


def C26(ctx):
    ctx.rule('parsed', 'parse_message returns the name of the message element and the converted content of that element')
    ctx.rule('flat', 'taking out the white space between the elements leaves the values as they are')
    ctx.rule('round trip', 'every value that a message template writes is found, after the document has been through the reader, under its own path in the message and with the same value')
    ctx.rule('reader', 'the reader has an answer for every document that the templates produce')
    schema, templates = load(ctx)
    ms, _ = measurements(ctx)
    inst = dict(ms)
    try:
        ns = evaluate(ctx, 'openleadr.messaging', 'NAMESPACES')
    except Unknown:
        ctx.undecided('reader', 'NAMESPACES', 'not constant')
        return
    reading(ctx)
    flat(ctx)
    rt = RoundTrip(ctx, schema, templates, inst, ns)
    first = next((n for n in inst if inst[n].get('power_attributes')), next(iter(inst)))
    for name in top(templates):
        never = {p for p in rt.states(name) if p[-1] == 'emix_interfaces' or (p[-1] == 'report_requests' and p[0] == 'events')}
        optional = sorted(rt.states(name) - never)
        for count in (1, 2, 3) if ctx.thorough else (1, 2):
            for variant in range(5) if count == 1 or ctx.thorough else range(1):
                rt.one(name, count, first, variant, never, f'{count} of each, values {variant + 1}')
        rt.one(name, 1, first, 0, set(optional) | never, 'required parts only')
        for outer, inner in ((1, 2), (2, 1)):
            rt.one(name, lambda item, idx: inner if idx else outer, first, 0, never, f'{outer} of each, with {inner} inside')
        rt.one(name, lambda item, idx: 1 if not idx or 0 in idx.values() else 2, first, 0, never, 'more in the later ones')
        rt.one(name, lambda item, idx: 2 if not idx or 0 in idx.values() else 1, first, 0, never, 'more in the first ones')
        for p in optional:
            dotted = '.'.join(x for x in p if x != '[]')
            rt.one(name, 1, first, 0, {p} | never, f'without {dotted}')
            near = {p[:i] for i in range(1, len(p) + 1)}
            rt.one(name, 1, first, 0, (set(optional) - near) | never, f'only {dotted}')
            if '[]' in p[:-1]:
                for k in (True, False):
                    rt.one(name, 2, first, 0, never, f'2 of each, {"first" if k else "second"} without {dotted}', (p, k))
                    if any('measurement' in x for x in p) and ctx.thorough:
                        rt.one(name, 3, first, 0, never, f'3 of each, {"only first" if k else "all but the first"} without {dotted}', (p, k))
            if ctx.thorough:
                rt.one(name, 2, first, 1, {p} | never, f'2 of each, without {dotted}')
                for q in optional:
                    if q > p:
                        rt.one(name, 1, first, 0, {p, q} | never, f'without {dotted} and {".".join(x for x in q if x != "[]")}')
        if any('measurement' in x for p in optional for x in p):
            for m in inst:
                rt.one(name, 1, m, 0, never, f'measurement {m}')


# -- C22: what an object says is what is sent -----------------------------------------

ROOTS = [('oadrDistributeEvent.xml', ('events', '[]'), 'Event'), ('oadrRegisterReport.xml', ('reports', '[]'), 'Report'),
         ('oadrUpdateReport.xml', ('reports', '[]'), 'Report'), ('oadrCreateReport.xml', ('report_requests', '[]'), 'ReportRequest'),
         ('oadrRegisteredReport.xml', ('report_requests', '[]'), 'ReportRequest'), ('oadrCreateOpt.xml', (), 'Opt')]
# not meant to be sent: (message or None, class, field)
DERIVED = {(None, 'Event', 'targets_by_type'), (None, 'EventSignal', 'targets_by_type'), (None, 'Opt', 'targets_by_type'),   # say the same as targets
           (None, 'Interval', 'uid'),                              # the position of the interval
           (None, 'Measurement', 'acceptable_units'), (None, 'Measurement', 'name'), (None, 'Measurement', 'ns'),   # name and namespace of the element
           (None, 'Report', 'data_collection_mode'),               # how the client collects
           ('oadrRegisterReport.xml', 'Report', 'dtstart'), ('oadrRegisterReport.xml', 'Report', 'intervals'),      # an offer has no data
           ('oadrCreateReport.xml', 'Interval', 'signal_payload'), ('oadrRegisteredReport.xml', 'Interval', 'signal_payload')}
ZERO = {'int', 'float', 'bool', 'timedelta'}                       # types whose zero is a value like any other
ZERO_IS_NOTHING = {('Measurement', 'pulse_factor')}


class Given(Case):
    """Everything is there, except what is said otherwise."""
    def __init__(self, path, state, consts):
        super().__init__({}, consts)
        self.path, self.own = path, state

    def state(self, p):
        if p == self.path:
            return self.own
        return super().state(p) if p in self.consts else 'truthy'


def sent(leaf, path, state):
    consts = {k: v for k, v in leaf.consts if k != path}
    c = Given(path, state, consts)
    vs = [c.truth(e) for e, v in leaf.conds]
    if any(x is not None and x != v for x, (e, v) in zip(vs, leaf.conds)):
        return False
    return None if any(x is None for x in vs) else True


def field_types(repo, cls):
    """name -> (is a list, name of the type, default or None)."""
    out = {}
    for n, (d, k) in repo.fields(cls).items():
        a = k.annotations.get(n)
        lst = False
        while isinstance(a, ast.Subscript):
            outer = ast.unparse(a.value).split('.')[-1]
            if outer in ('List', 'list', 'Sequence', 'Iterable'):
                lst = True
            elif outer != 'Optional':
                break
            a = a.slice
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            t = a.value
        else:
            t = ast.unparse(a).split('.')[-1] if isinstance(a, (ast.Name, ast.Attribute)) else 'Dict'
        out[n] = (lst, t, d)
    return out


def C22(ctx):
    ctx.rule('carried', 'every field of an object that is sent has a place in the template of the message, which shows it when the field is given')
    ctx.rule('zero', 'a number, duration or yes/no that is zero is a given value: it is sent too')
    schema, templates = load(ctx)
    ms, _ = measurements(ctx)
    inst = [m for _, m in ms]
    for name, prefix, cn in ROOTS:
        w = Walk(schema, templates, name, inst, None, GIVEN)
        r = w.go()
        if r is None:
            ctx.undecided('carried', name, 'the template cannot be read')
            continue
        tree, roots, sc = r
        for k in roots:
            q = w.qname(k.name, w.inner(k, sc), 'element', k.loc)
            if q in schema.elements:
                w.element(k, schema.elements[q], sc, q, name)
        fields(ctx, w, name, ctx.repo.need_class('openleadr.objects.' + cn), prefix, 0)


def under(leaves, path):
    return [x for x in leaves if any(q[:len(path)] == path for q in x.paths())]


def fields(ctx, w, name, cls, prefix, depth):
    if depth > 8:
        return
    missing = []
    where = f'{name[:-4]}: {".".join(x for x in prefix if x != "[]") or cls.name}'
    for n, (lst, t, default) in field_types(ctx.repo, cls).items():
        if (None, cls.name, n) in DERIVED or (name, cls.name, n) in DERIVED:
            continue
        p = prefix + (n,) + (('[]',) if lst else ())
        ls = under(w.leaves, p)
        if not ls:
            missing.append(n)
            continue
        sub = ctx.repo.classes.get('openleadr.objects.' + t)
        if sub is not None:
            fields(ctx, w, name, sub, p, depth + 1)
            continue
        loc = (f'openleadr/templates/{ls[0].loc[0]}', name[:-4], ls[0].loc[1]) if ls[0].loc else None
        shown = [sent(x, p, 'truthy') for x in ls]
        ctx.judge('carried', f'{where}: {n}', True if True in shown else None if None in shown else False, f'{n} of {cls.name} is not sent although it is given', loc)
        if t in ZERO and (cls.name, n) not in ZERO_IS_NOTHING:
            shown = [sent(x, p, 'falsy') for x in ls]
            ctx.judge('zero', f'{where}: {n}', True if True in shown else None if None in shown else False, f'{n} of {cls.name} is not sent when it is zero', loc)
    ctx.judge('carried', f'{where}: {", ".join(missing)}' if missing else f'{where}: all', not missing,
              f'no place for {", ".join(missing)} of {cls.name}: what is given there never reaches the other side', None)


# -- C20: text stays text ---------------------------------------------------------------

def dotted(mod, e):
    """The dotted name of an expression, with the imports of its module resolved."""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    imp = mod.imports.get(e.id)
    head = e.id if imp is None else imp[1] if imp[0] == 'mod' else f'{imp[1]}.{imp[2]}'
    return '.'.join([head] + parts[::-1])


def nodes_of(ctx):
    for name, mod in sorted(ctx.repo.modules.items()):
        for n in ast.walk(mod.tree):
            yield mod, n


def escaping(mod, call):
    """Does this Environment escape what is put into an .xml template?"""
    for k in call.keywords:
        if k.arg is None:
            return None
        if k.arg == 'autoescape':
            v = k.value
            if isinstance(v, ast.Constant):
                return bool(v.value)
            if isinstance(v, ast.Call) and (dotted(mod, v.func) or '').endswith('select_autoescape'):
                exts = default = None
                for i, a in enumerate(v.args):
                    if i == 0:
                        exts = a
                for kk in v.keywords:
                    if kk.arg == 'enabled_extensions':
                        exts = kk.value
                    elif kk.arg in ('default', 'disabled_extensions', None):
                        default = kk
                if default is not None:
                    return None
                if exts is None:
                    return True
                if isinstance(exts, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in exts.elts):
                    return 'xml' in [str(x.value).lstrip('.') for x in exts.elts]
            return None
    return False


def raw_outputs(nodes, raw=False):
    """(expression, location) of what a template puts out without escaping."""
    for n in nodes:
        if isinstance(n, El):
            for a, v in n.attrs:
                yield from raw_outputs([x for x in v if not isinstance(x, str)], raw)
            yield from raw_outputs([x for x in n.name if not isinstance(x, str)], raw)
            yield from raw_outputs(n.kids, raw)
        elif n[0] == 'out':
            if raw or unescaped(n[1]):
                yield n[1], n[2]
        elif n[0] == 'if':
            yield from raw_outputs(n[2], raw)
            yield from raw_outputs(n[3], raw)
        elif n[0] == 'for':
            yield from raw_outputs(n[3], raw)
        elif n[0] == 'with':
            yield from raw_outputs(n[2], raw)
        elif n[0] == 'include':
            yield from raw_outputs(n[1], raw)
        elif n[0] == 'autoescape':
            off = n[1] == ('const', False)
            yield from raw_outputs(n[2], off)
        elif n[0] == 'set' and unescaped(n[2]):
            yield n[2], n[3] if len(n) > 3 else None


def unescaped(e):
    if not isinstance(e, tuple) or not e:
        return False
    if e[0] == 'filter' and e[2] in ('safe', 'Markup'):
        return True
    if e[0] in ('filter', 'bin', 'cond', 'and', 'or'):
        return any(unescaped(x) for x in e[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))
    return False


def C20(ctx):
    ctx.rule('environment', 'the environment that renders the messages escapes what is put into a template, and nothing switches that off')
    ctx.rule('raw', 'no template puts out a value unescaped, except the envelope for the finished document and its signature')
    ctx.rule('markup', 'no value is marked as finished markup')
    ctx.rule('envelope', 'what the envelope puts out unescaped is a document that was rendered with escaping, or a serialised signature')
    schema, templates = load(ctx)
    n = 0
    for mod, x in nodes_of(ctx):
        loc = (mod.relpath, '', getattr(x, 'lineno', 0))
        if isinstance(x, ast.Call):
            d = dotted(mod, x.func) or ''
            last = d.split('.')[-1]
            if d.startswith('jinja2.') and last in ('Environment', 'SandboxedEnvironment', 'NativeEnvironment', 'Template', 'overlay'):
                n += 1
                ctx.judge('environment', f'{mod.name}: {last}', escaping(mod, x), f'{last} does not escape the values: text with <, > or & changes the message', loc)
            elif last == 'overlay' and any(k.arg == 'autoescape' for k in x.keywords):
                ctx.judge('environment', f'{mod.name}: overlay', escaping(mod, x), 'overlay without escaping', loc)
            elif d.split('.')[0] in ('jinja2', 'markupsafe') and last == 'Markup':
                ctx.judge('markup', f'{mod.name}: Markup', None, 'a value is marked as markup', loc)
        elif isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Attribute) and t.attr == 'autoescape':
                    ok = bool(x.value.value) if isinstance(x.value, ast.Constant) else None
                    ctx.judge('environment', f'{mod.name}: autoescape', ok, 'escaping is switched off', loc)
    if not n:
        ctx.undecided('environment', 'Environment', 'no jinja2 environment found')
    envelope = set()
    for name in top(templates) + ['oadrPayload.xml']:
        try:
            tree = templates.tree(name)
        except Bad as b:
            ctx.undecided('raw', name, b.what)
            continue
        found = False
        for e, loc in raw_outputs(tree):
            inner = e
            while inner[0] == 'filter':
                inner = inner[1]
            if name == 'oadrPayload.xml' and inner[0] == 'name':
                envelope.add(inner[1])
                continue
            if inner[0] == 'const':
                continue
            found = True
            ctx.judge('raw', f'{name}: {showexpr(e)}', False, f'{{{{ {showexpr(e)} }}}} is put out unescaped: text with <, > or & changes the message', (f'openleadr/templates/{loc[0]}', name[:-4], loc[1]) if loc else None)
        if not found:
            ctx.ok('raw', name)
    # what goes into the envelope
    def others(who):
        return [x[1] for x in subterms(who) if x[0] == 'c' and x[2] == 'str' and f'{x[1]}' in top(templates)]
    f = ctx.repo.need_func('openleadr.messaging.create_message')
    ps = ctx.run(f, opaque={'openleadr.utils.flatten_xml', 'openleadr.preflight.preflight_message'})
    for p in ps or ():
        if p.kind != 'return':
            continue
        t = p.value
        if not (t[0] == 'call' and t[1] == '.render'):
            ctx.judge('envelope', 'create_message', None, 'the result is not a rendered template', None, p)
            continue
        who = t[2][0] if t[2] else ('c', None, 'NoneType')
        ctx.judge('envelope', 'create_message: template', True if ('c', 'oadrPayload.xml', 'str') in list(subterms(who)) else False if who[0] in ('c', 'p') or others(who) else None, 'the result is not the rendered envelope', None, p)
        kws = dict(t[3])
        for k in sorted(envelope):
            v = kws.get(k)
            if v is None and k not in kws:
                ctx.judge('envelope', f'create_message: {k}', None, 'not given', None, p)
            else:
                ctx.judge('envelope', f'create_message: {k}', v == ('c', None, 'NoneType') or markup(v), f'{k} is not a rendered document: {show(v, 4)}', None, p)


def markup(t):
    """A rendered template or a serialised tree, possibly flattened or decoded."""
    while t[0] == 'call' and t[1] in ('.decode', '.strip', 'str', 'openleadr.utils.flatten_xml', '.replace', 'openleadr.utils.ensure_str') and t[2]:
        t = t[2][0]
    if t[0] == 'call' and t[1] in ('.render', 'lxml.etree.tostring'):
        return True
    if t[0] in ('p', 'item', 'attr', 'fstr'):
        return False
    return None


# -- C23: the names of the standard -------------------------------------------------------

ENUMS = {'EVENT_STATUS': (EI, 'EventStatusEnumeratedType'), 'SIGNAL_TYPE': (EI, 'SignalTypeEnumeratedType'), 'SIGNAL_NAME': (EI, 'SignalNameEnumeratedType'),
         'OPT': (EI, 'OptTypeType'), 'OPT_REASON': (EI, 'OptReasonEnumeratedType'), 'READING_TYPE': (EI, 'ReadingTypeEnumeratedType'),
         'REPORT_TYPE': (EI, 'ReportEnumeratedType'), 'REPORT_NAME': (EI, 'reportNameEnumeratedType'),
         'SI_SCALE_CODE': ('http://docs.oasis-open.org/ns/emix/2011/06/siscale', 'SiScaleCodeType')}

LEXICAL = {'dateTime': r'-?\d{4,}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)?', 'boolean': r'true|false|1|0',
           'float': r'[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?|INF|-INF|NaN', 'double': r'[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?|INF|-INF|NaN',
           'decimal': r'[+-]?(\d+(\.\d*)?|\.\d+)', 'duration': r'-?P(\d+Y)?(\d+M)?(\d+D)?(T(\d+H)?(\d+M)?(\d+(\.\d+)?S)?)?'}
for _t in INTEGERS:
    LEXICAL[_t] = r'[+-]?\d+' if _t in ('int', 'integer', 'long', 'short') else r'\+?\d+'


def fits(schema, type_, fixed, text):
    """Is the text a value of the simple type?  None: not known."""
    if fixed is not None:
        return text == fixed
    unknown = False
    for base, enum, pats in schema.simple(type_):
        if enum is not None and text not in enum:
            continue
        ok = True
        for p in pats:
            try:
                if not re.fullmatch(p, text):
                    ok = False
            except re.error:
                ok = None
        if ok and base in LEXICAL and not re.fullmatch(LEXICAL[base], text):
            ok = False
        if ok:
            return True
        if ok is None:
            unknown = True
    return None if unknown else False


def leaves_of(ctx, schema, templates, name, inst):
    w = Walk(schema, templates, name, inst, None, GIVEN)
    r = w.go()
    if r is None:
        return []
    tree, roots, sc = r
    for k in roots:
        q = w.qname(k.name, w.inner(k, sc), 'element', k.loc)
        if q in schema.elements:
            w.element(k, schema.elements[q], sc, q, name)
    return w.leaves


def C23(ctx):
    ctx.rule('enumeration', 'the members of an enumeration are exactly the values that the schema knows')
    ctx.rule('measurement', 'a predefined measurement, with every unit it allows, is one of the measurements of the schema: element, description, unit, scale and attributes fit')
    schema, templates = load(ctx)
    for cls, (ns, name) in sorted(ENUMS.items()):
        vals, free = schema.enumeration(ns, name)
        have = members(ctx, 'openleadr.enums.' + cls)
        if vals is None:
            ctx.undecided('enumeration', cls, f'{name} is not in the schema')
            continue
        for m, v in sorted(have.items()):
            if v is Unknown:
                ctx.undecided('enumeration', f'{cls}.{m}', 'not constant')
            else:
                ctx.judge('enumeration', f'{cls}.{m}', v in vals or (free and isinstance(v, str)), f'{v!r} is not a value of {name}')
        if Unknown not in have.values():
            for v in sorted(vals):
                ctx.judge('enumeration', f'{cls}: {v}', v in have.values(), f'{v!r} of {name} is not among the members of {cls}')
    ms, spaces = measurements(ctx)
    try:
        units = evaluate(ctx, 'openleadr.enums', '_ACCEPTABLE_UNITS')
    except Unknown:
        units = {}
    inst, labels, allowed = [], {}, {}
    for label, m in ms:
        bad = [k for k, v in m.items() if v is Unknown and k not in ('acceptable_units', 'ns')]
        if bad:
            ctx.undecided('measurement', label, f'{", ".join(bad)} not constant')
            continue
        if m['name'] not in spaces:
            ctx.judge('measurement', f'{label}: name', False if spaces else None, f'{m["name"]} has no namespace: such a measurement cannot be sent')
            continue
        words = {w.lower() for w in label.split('.')[-1].split('_')}
        same = [n for n in spaces if {w.lower() for w in re.findall(r'[A-Z]?[a-z]+|[A-Z]+(?![a-z])', n)} == words]
        if same:
            ctx.judge('measurement', f'{label}: which', m['name'] in same, f'{label} is the measurement {m["name"]}, not {same[0]}')
        elif m['name'] == 'customUnit':
            ctx.judge('measurement', f'{label}: which', None if 'CUSTOM' in label.upper() else False, f'{label} has a name that is not known: it becomes a custom unit')
        m = {**m, 'ns': spaces[m['name']], 'label': label}
        inst.append(m)
        acc = m.get('acceptable_units')
        allowed[label] = sorted({u for u in (*(acc if isinstance(acc, (list, tuple)) else ()), *units.get(m['name'], ()), m.get('unit')) if isinstance(u, str)})
    for name in top(templates):
        try:
            if not has_measurement(templates.tree(name)):
                continue
        except Bad:
            continue
        problems = []

        def report(kind, construct, ok, what, loc):
            if ok is False and kind in ('structure', 'attributes'):
                problems.append((construct, what, loc))
        w = Walk(schema, templates, name, inst, report, GIVEN)
        tree, roots, sc = w.go()
        for k in roots:
            q = w.qname(k.name, w.inner(k, sc), 'element', k.loc)
            if q in schema.elements:
                w.element(k, schema.elements[q], sc, q, name)
        for construct, what, loc in problems:
            for n in sorted({m['name'] for m in inst}):
                if n in re.split(r'[^A-Za-z]+', construct + ' ' + what):
                    ctx.judge('measurement', f'{n} ({name})', False, what, (f'openleadr/templates/{loc[0]}', name[:-4], loc[1]) if loc else None)
        for x in w.leaves:
            consts = dict(x.consts)
            ps = x.paths()
            if len(ps) != 1 or next(iter(ps)) not in consts or x.expr[0] != 'path':
                continue
            p = next(iter(ps))
            owner = next(q for q in consts if q[-1] == 'label')
            label = consts[owner]
            if sent(x, p, state_of(consts[p])) is False:
                continue
            for v in [consts[p]] if p[-1] != 'unit' else allowed[label]:
                ok = fits(schema, x.type, x.decl.fixed, str(v))
                if ok is not True:
                    ctx.judge('measurement', f'{label}: {p[-1]} {v}', ok, f'{v!r} is not allowed in {x.xpath[-1][1]} of {x.xpath[-2][1]} ({name})')
                elif p[-1] != 'unit':
                    ctx.ok('measurement', f'{label}: {p[-1]} ({name})')
            if p[-1] == 'unit':
                ctx.ok('measurement', f'{label}: {len(allowed[label])} units ({name})')


def state_of(v):
    return 'none' if v is None else 'truthy' if v else 'falsy'


def has_measurement(nodes):
    for n in nodes:
        if isinstance(n, El):
            if any(not isinstance(p, str) for p in n.name) or has_measurement(n.kids):
                return True
        elif n[0] == 'if' and (has_measurement(n[2]) or has_measurement(n[3])):
            return True
        elif n[0] == 'for' and has_measurement(n[3]):
            return True
        elif n[0] in ('with', 'autoescape') and has_measurement(n[2]):
            return True
        elif n[0] == 'include' and has_measurement(n[1]):
            return True
    return False


# -- C24: dates, durations, booleans and constants in the form of the schema ---------------------

def filters_of(ctx):
    """name of a template filter -> expression of its function, and the module where it is set."""
    out = {}
    for mod, x in nodes_of(ctx):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == 'filters' \
                        and isinstance(t.slice, ast.Constant):
                    out[t.slice.value] = (mod, x.value)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'update' \
                and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == 'filters':
            for a in x.args:
                if isinstance(a, ast.Dict):
                    for k, v in zip(a.keys, a.values):
                        if isinstance(k, ast.Constant):
                            out[k.value] = (mod, v)
            for k in x.keywords:
                if k.arg:
                    out[k.arg] = (mod, k.value)
    return out


V = ('p', 'value')
UTC = {('ext', 'datetime.timezone.utc')}


def writes_datetime(ctx, mod, expr):
    """Does a filter write the moment of a datetime, in UTC, in the form of the schema?  (verdict, what, path)"""
    ps = ctx.probe(mod.name, f'def probe(value): return ({expr})(value)')
    verdict = None
    for p in ps or ():
        if any(a[0] == 'isinst' and a[1] == V and 'datetime' in a[2] and not v for a, v in p.facts.items()):
            continue
        if p.kind != 'return':
            return None, f'ends with {p.kind}', p
        t = p.value
        if t == V:
            return False, 'a datetime is put out as it is', p
        if t[0] == 'call' and t[1] == '.strftime':
            fmt = t[2][1] if len(t[2]) > 1 else None
            if fmt is None or fmt[0] != 'c':
                return None, 'unknown format', p
            if not re.fullmatch(r'%Y-%m-%dT%H:%M:%S(\.%f)?Z', fmt[1]):
                return (False if '%' in fmt[1] else None), f'the format {fmt[1]!r} is not that of a UTC dateTime', p
            x = t[2][0]
            if x == V:
                return False, 'the time of day is written without converting it to UTC', p
            if x[0] == 'call' and x[1] == '.replace' and x[2][0] == V:
                return False, 'the time zone is replaced, not converted', p
            if x[0] == 'call' and x[1] == '.astimezone' and x[2][0] == V:
                if len(x[2]) < 2 and not x[3]:
                    return False, 'converted to local time, written as UTC', p
                z = x[2][1] if len(x[2]) > 1 else x[3][0][1]
                if z in UTC:
                    verdict = True
                    continue
                return None, 'unknown time zone', p
        return None, f'unknown form {show(t, 3)}', p
    return verdict, '', None


class NotLinear(Exception):
    pass


def linear(t):
    """An integer term as {atom: coefficient}; remainders are expressed by their quotients.  Atom 1 is the constant."""
    if t[0] == 'c' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return {1: t[1]}
    if t[0] == 'call' and t[1] in ('int', 'round') and len(t[2]) == 1:
        return linear(t[2][0])
    if t[0] == 'call' and t[1] == '.total_seconds':
        return {('attr', t[2][0], 'days'): 86400, ('attr', t[2][0], 'seconds'): 1}
    if t[0] == 'attr':
        return {t: 1}
    if t[0] == 'bin' and t[1] in ('+', '-'):
        a, b = linear(t[2]), linear(t[3])
        return combine(a, b, 1 if t[1] == '+' else -1)
    if t[0] == 'bin' and t[1] == '*':
        a, b = linear(t[2]), linear(t[3])
        if set(a) <= {1}:
            a, b = b, a
        if set(b) <= {1}:
            return {k: v * b.get(1, 0) for k, v in a.items()}
    q = None
    if t[0] == 'elem' and t[1][0] == 'call' and t[1][1] == 'divmod' and len(t[1][2]) == 2:
        q = (t[1][2][0], t[1][2][1], t[2])
    elif t[0] == 'bin' and t[1] in ('//', '%'):
        q = (t[2], t[3], 0 if t[1] == '//' else 1)
    if q is not None and q[1][0] == 'c' and isinstance(q[1][1], int) and q[1][1] > 0:
        a = linear(q[0])
        atom = ('quotient', tuple(sorted(a.items(), key=repr)), q[1][1])
        if q[2] == 0:
            return {atom: 1}
        return combine(a, {atom: 1}, -q[1][1])
    raise NotLinear(show(t, 3))


def combine(a, b, f):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + f * v
    return {k: v for k, v in out.items() if v}


def vanishes(d, zeros):
    """Is the linear term zero when those other terms are zero?"""
    rows = [dict(z) for z in zeros]
    d = dict(d)
    while rows:
        r = rows.pop()
        if not r:
            continue
        k = sorted(r, key=repr)[0]
        f = Fraction(r[k])
        d = combine(d, r, -Fraction(d.get(k, 0)) / f)
        rows = [combine(x, r, -Fraction(x.get(k, 0)) / f) for x in rows]
    return not d


DURATION = re.compile(r'(\S+?)W|P(?:(\S+?)D)?(?:T(?:(\S+?)H)?(?:(\S+?)M)?(?:(\S+?)S)?)?')     # the schema has weeks without the P


def number(t, env):
    """The value of an integer term at a point; None when not known."""
    if t in env:
        return env[t]
    if t[0] == 'c':
        return t[1] if isinstance(t[1], (int, float)) else None
    if t[0] == 'un' and t[1] == 'USub':
        x = number(t[2], env)
        return None if x is None else -x
    q = None
    if t[0] == 'bin':
        q = (t[1], number(t[2], env), number(t[3], env))
    elif t[0] == 'elem' and t[1][0] == 'call' and t[1][1] == 'divmod' and len(t[1][2]) == 2 and t[2] in (0, 1):
        q = ('//' if t[2] == 0 else '%', number(t[1][2][0], env), number(t[1][2][1], env))
    elif t[0] == 'call' and t[1] in ('int', 'abs', 'round', 'max', 'min', 'divmod') and t[2] and not t[3]:
        xs = [number(x, env) for x in t[2]]
        if None in xs or t[1] == 'divmod':
            return None
        try:
            return {'int': int, 'abs': abs, 'round': round, 'max': max, 'min': min}[t[1]](*xs)
        except (TypeError, ValueError):
            return None
    if q is None or q[1] is None or q[2] is None:
        return None
    try:
        return {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '//': lambda x, y: x // y,
                '%': lambda x, y: x % y, '/': lambda x, y: x / y}[q[0]](q[1], q[2])
    except (KeyError, ZeroDivisionError):
        return None


def fact_at(a, v, env):
    """Does a fact hold at a point?  None when not known."""
    if a[0] in ('isinst', 'isnone', 'is'):
        return True
    if a[0] == 'truth':
        if a[1] == V:
            return bool(env[('attr', V, 'days')] or env[('attr', V, 'seconds')]) == v
        x = number(a[1], env)
        return None if x is None else bool(x) == v
    if a[0] in ('eq', 'lt') and len(a) == 3:
        x, y = number(a[1], env), number(a[2], env)
        return None if x is None or y is None else (x == y if a[0] == 'eq' else x < y) == v
    return None


def points(found):
    """(days, seconds) around every constant that the filter uses"""
    cs = {x[1] for p, _, ts in found for y in [*ts, *(z for a in p.facts for z in a[1:] if isinstance(z, tuple))] for x in subterms(y)
          if isinstance(x, tuple) and len(x) > 1 and x[0] == 'c' and isinstance(x[1], int) and not isinstance(x[1], bool)}
    days = {0, 1, 2, 7, 10, 28, 30, 31, 365, 400} | {n for c in cs if 0 < c < 4000 for n in (c - 1, c, c + 1, 2 * c)}
    secs = {h * 3600 + m * 60 + s for h in (0, 1, 5, 12, 23) for m in (0, 1, 30, 59) for s in (0, 1, 30, 59)} | {n for c in cs if 0 < c < 86400 for n in (c - 1, c, c + 1, 2 * c) if n < 86400}
    return [(d, s) for d in sorted(days) for s in sorted(secs)]


def writes_duration(ctx, mod, expr):
    """Does a filter write the length of a timedelta (whole seconds) as a duration of the schema?"""
    ps = ctx.probe(mod.name, f'def probe(value): return ({expr})(value)')
    if not ps:
        return None, 'not analysed', None
    want = {('attr', V, 'days'): 86400, ('attr', V, 'seconds'): 1}
    found = []
    for p in ps:
        if any(a[0] == 'isinst' and a[1] == V and 'timedelta' in a[2] and not v for a, v in p.facts.items()):
            continue
        if p.kind != 'return':
            return None, f'ends with {p.kind}', p
        t = p.value
        if t == V:
            return False, 'a timedelta is put out as it is', p
        if t[0] == 'c' and isinstance(t[1], str):
            parts = (t,)
        elif t[0] == 'fstr':
            parts = t[1]
        else:
            return None, f'unknown form {show(t, 3)}', p
        text, terms = '', []
        for x in parts:
            if x[0] == 'c' and isinstance(x[1], str):
                text += x[1]
            else:
                terms.append(x)
                text += f'<{len(terms) - 1}>'
        found.append((p, text, terms))
    if all(proved(p, text, terms, want) for p, text, terms in found):
        return (True if found else None), 'no path', None
    for d, s in points(found):
        env = {('attr', V, 'days'): d, ('attr', V, 'seconds'): s, ('attr', V, 'microseconds'): 0, V: None}
        env[('call', '.total_seconds', (V,), ())] = d * 86400 + s
        del env[V]
        for t in {x for p, _, ts in found for y in [*ts, *(z for a in p.facts for z in a[1:] if isinstance(z, tuple))] for x in subterms(y)
                  if isinstance(x, tuple) and x and x[0] == 'call' and x[1] == '.total_seconds' and x[2] and x[2][0] == V}:
            env[t] = d * 86400 + s
        here = 0
        for p, text, terms in found:
            fs = [fact_at(a, v, env) for a, v in p.facts.items()]
            if False in fs:
                continue
            if None in fs:
                return None, 'a condition is not understood', p
            here += 1
            ns = [number(x, env) for x in terms]
            if None in ns:
                return None, f'not understood: {", ".join(show(x, 4) for x in terms)}', p
            out = re.sub(r'<(\d+)>', lambda m: str(ns[int(m.group(1))]), text)
            m = re.fullmatch(r'(\d+)W|P(?:(\d+)D)?(?:T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.0)?S)?)?', out)
            if m is None or sum(int(g or 0) * f for g, f in zip(m.groups(), (604800, 86400, 3600, 60, 1))) != d * 86400 + s \
                    or ('T' not in out and any(m.groups()[2:])):
                return False, f'{text} with {", ".join(show(x, 6) for x in terms)} is not the length of the timedelta: {d} days and {s} seconds ' \
                    f'are written as {out}', p
        if here != 1:
            return None, 'the conditions are not understood', found[0][0]
    return True, '', None


def proved(p, text, terms, want):
    """Is the length that is written, as a linear form, that of the timedelta, for every value?"""
    m = DURATION.fullmatch(text)
    if not m:
        return False
    total = {}
    try:
        for g, f in zip(m.groups(), (604800, 86400, 3600, 60, 1)):
            if g is None:
                continue
            n = re.fullmatch(r'<(\d+)>|(\d+)', g)
            if not n:
                return False
            total = combine(total, linear(terms[int(n.group(1))]) if n.group(1) else {1: int(n.group(2))}, f)
        zeros = []
        for a, v in p.facts.items():
            if a[0] == 'truth' and not v:
                zeros.append(linear(a[1]))
            elif a[0] == 'eq' and v and a[2][0] == 'c' and isinstance(a[2][1], int):
                zeros.append(combine(linear(a[1]), {1: a[2][1]}, -1))
    except NotLinear:
        return False
    return vanishes(combine(want, total, -1), zeros)


def writes_boolean(ctx, mod, expr):
    for value, text in (('True', 'true'), ('False', 'false')):
        ps = ctx.probe(mod.name, f'def probe(): return ({expr})({value})')
        if not ps or len(ps) != 1 or ps[0].kind != 'return' or ps[0].value[0] != 'c':
            return None, 'not constant', None
        if ps[0].value[1] not in ((text,) + (('1',) if text == 'true' else ('0',))):
            return False, f'{value} is written as {ps[0].value[1]!r}', ps[0]
    return True, '', None


WRITERS = {'dateTime': writes_datetime, 'duration': writes_duration, 'boolean': writes_boolean}
PLAIN = {'trim', 'string', 'e', 'escape', 'upper', 'lower', 'default', 'd', 'capitalize', 'safe', 'int', 'float', 'round'}

READS = [('parse_duration', t, ('duration', s)) for t, s in (
    ('PT5S', 5), ('PT15M', 900), ('PT2H', 7200), ('P3D', 259200), ('P1DT2H3M4S', 93784), ('-PT5M', -300), ('+PT5M', 300), ('PT1H30M', 5400),
    ('PT0S', 0), ('PT90S', 90), ('P10DT1S', 864001), ('2W', 1209600), ('PT120M', 7200), ('P1DT1M', 86460), ('P1M', 2592000), ('P1Y', 31536000), ('P1Y2M3DT4H5M6S', 36993906), ('-P1M', -2592000))] + [
    ('parse_datetime', t, ('datetime', *v)) for t, v in (
        ('2020-02-29T23:59:58Z', (2020, 2, 29, 23, 59, 58, 0)), ('2020-12-31T00:00:00.5Z', (2020, 12, 31, 0, 0, 0, 500000)),
        ('2021-10-05T06:07:08.123456Z', (2021, 10, 5, 6, 7, 8, 123456)), ('2021-10-05T06:07:08.000001Z', (2021, 10, 5, 6, 7, 8, 1)),
        ('2021-10-05T06:07:08.12Z', (2021, 10, 5, 6, 7, 8, 120000)), ('2021-10-05T06:07:08.1234567Z', (2021, 10, 5, 6, 7, 8, 123456)))] + [
    ('parse_boolean', 'true', True), ('parse_boolean', 'false', False)]


def C24(ctx):
    ctx.rule('written', 'where the schema has a date, a duration or a yes/no, the template converts the value with a filter that writes exactly that value in the form of the schema')
    ctx.rule('constant', 'a constant in a template is a value of its element')
    ctx.rule('read', 'the reader gives a date, a duration or a yes/no in the form of the schema its value')
    schema, templates = load(ctx)
    ms, _ = measurements(ctx)
    inst = [m for _, m in ms]
    fs = filters_of(ctx)
    verdicts = {}
    for name in top(templates):
        for x in leaves_of(ctx, schema, templates, name, inst):
            at = '/'.join(q[1] for q in x.xpath[2:])
            construct = f'{name[:-4]}: {at}'
            loc = (f'openleadr/templates/{x.loc[0]}', name[:-4], x.loc[1]) if x.loc else None
            k = 'boolean' if any(q[-1] in BOOLEANS for q in x.paths()) else kind_of(schema, x.type)
            if not x.alone:
                ctx.undecided('written', construct, 'composed of several parts')
                continue
            for e in alternatives(x.expr):
                if e[0] == 'const':
                    if e[1] == '' and kind_of(schema, x.type) == 'text' and fits(schema, x.type, None, '') is not False:
                        continue
                    ok = fits(schema, x.type, x.decl.fixed, str(e[1]))
                    ctx.judge('constant', construct, ok, f'{e[1]!r} is not a value of {x.xpath[-1][1]}', loc)
                    continue
                if k not in WRITERS:
                    f = [n for n in filters_in(e) if n in fs]
                    bad = [n for n in f if k in ('integer', 'number') and n not in PLAIN]
                    ctx.judge('written', construct, None if bad else True, f'filter {", ".join(bad)} for a {k}', loc)
                    continue
                chain = list(filters_in(e))
                own = [n for n in chain if n in fs]
                if not own:
                    if k == 'boolean' and chain == ['lower']:
                        ctx.ok('written', construct)
                    elif not chain:
                        ctx.judge('written', construct, False if e[0] == 'path' else None, f'{showexpr(e)} is put out as Python shows it, not as {k}', loc)
                    else:
                        ctx.judge('written', construct, None, f'unknown filter {", ".join(chain)}', loc)
                    continue
                if len(chain) != 1:
                    ctx.judge('written', construct, None, f'several filters: {", ".join(chain)}', loc)
                    continue
                key = (k, own[0])
                if key not in verdicts:
                    mod, expr = fs[own[0]]
                    verdicts[key] = WRITERS[k](ctx, mod, ast.unparse(expr))
                ok, what, p = verdicts[key]
                ctx.judge('written', construct if ok is not False else f'{own[0]} as {k}', ok, f'{own[0]} for {at}: {what}', loc, p)
    for fn, text, want in READS:
        ps = ctx.probe('openleadr.utils', f'def probe(): return {fn}({text!r})')
        if not ps or len(ps) != 1:
            ctx.undecided('read', f'{fn}({text!r})', 'not constant')
            continue
        if ps[0].kind == 'raise':
            ctx.judge('read', f'{fn}({text!r})', False, f'{fn} does not accept {text!r}', None, ps[0])
            continue
        try:
            got = value_of(ps[0], ps[0].value)
        except Unknown:
            ctx.undecided('read', f'{fn}({text!r})', 'not constant')
            continue
        ctx.judge('read', f'{fn}({text!r})', same(got, want), f'{fn}({text!r}) is {show_value(got)}, not {show_value(want)}', None, ps[0])


def alternatives(e):
    """The expressions that can be put out by a conditional expression."""
    if e[0] == 'cond':
        return alternatives(e[2]) + alternatives(e[3])
    return [e]


def filters_in(e):
    """Names of the filters of an expression, the last one first."""
    while e[0] == 'filter':
        yield e[2]
        e = e[1]


CHECKS = {'C20': C20, 'C21': C21, 'C22': C22, 'C23': C23, 'C24': C24, 'C26': C26}
