"""C53: every message that is sent is complete: it says whose it is and what it answers, and no part of it is blank."""
import ast

from ..interp import A, P, C, NONE
from ..jinja import El, Bad
from ..q import arg, const_of, has, value
from ..wire import load
from .api import enum_values, field
from .client import CLIENT, METHODS, SELF, paths
from . import gate
from .wiring import handled
from ..xsd import NFA, included

VTN = 'openleadr.service.vtn_service.VTNService'

MISSING = ('missing',)


class Fill:
    """A message template with what is known about the message that goes into it."""

    def __init__(self, p, root, closed, schema):
        self.p, self.root, self.closed, self.schema = p, root, closed, schema
        self.out = []                    # (path, field, value, is this part surely written)
        self.asked = []                  # (path, field, value)

    # -- values: a term, MISSING, or None when not known

    def part(self, v, key):
        if v is None or v == MISSING:
            return v
        if isinstance(v, dict):
            return v.get(key, MISSING)
        if v[0] == 'c':
            return MISSING
        o = self.p.obj(v)
        if o is None:
            return None
        if o[0] == 'dict':
            d = dict(o[1])
            if C(key) in d:
                return d[C(key)]
            if o[3] is not None and isinstance(o[3], tuple):
                return value(self.p, o[3], key)
            return None if o[2] or any(k[0] != 'c' for k in d) else MISSING
        if o[0] == 'inst':
            x = value(self.p, v, key)
            return x
        return None

    def get(self, path, env):
        v = None
        if path[0] in env:
            v = env[path[0]]
        elif path[0] in self.root:
            v = self.root[path[0]]
        else:
            v = MISSING if self.closed else None
        for k in path[1:]:
            v = self.part(v, k)
        return v

    @staticmethod
    def path(e):
        if e[0] == 'name':
            return (e[1],)
        if e[0] == 'attr':
            b = Fill.path(e[1])
            return b and b + (e[2],)
        if e[0] == 'item' and e[2][0] == 'const' and isinstance(e[2][1], str):
            b = Fill.path(e[1])
            return b and b + (e[2][1],)
        return None

    def eval(self, e, env):
        q = self.path(e)
        if q:
            return self.get(q, env)
        if e[0] == 'const':
            return C(e[1])
        return None

    def truth(self, e, env):
        k = e[0]
        if k == 'not':
            v = self.truth(e[1], env)
            return None if v is None else not v
        if k in ('and', 'or'):
            a, b = self.truth(e[1], env), self.truth(e[2], env)
            if k == 'and':
                return False if a is False or b is False else None if None in (a, b) else True
            return True if a is True or b is True else None if None in (a, b) else False
        if k == 'test' and e[2] in ('defined', 'undefined', 'none'):
            v = self.eval(e[1], env)
            if v is None:
                return None
            if e[2] == 'none':
                return v == NONE if v == MISSING or isinstance(v, dict) or v[0] in ('c', 'o') else self.isnone(v)
            return (v != MISSING) == (e[2] == 'defined')
        if k == 'cmp' and e[1] in ('==', '!=') and e[3] == ('const', None):
            v = self.eval(e[2], env)
            r = None if v is None else False if v == MISSING or isinstance(v, dict) else v == NONE if v[0] in ('c', 'o') else self.isnone(v)
            return None if r is None else r == (e[1] == '==')
        v = self.eval(e, env)
        if v is None:
            return None
        if v == MISSING:
            return False
        if isinstance(v, dict):
            return bool(v)
        if v[0] == 'c':
            return bool(v[1])
        o = self.p.obj(v)
        if o is not None and o[0] == 'inst':
            return True
        if o is not None and o[0] == 'dict' and o[1]:
            return True
        if o is not None and o[0] == 'list' and o[1]:
            return True
        return None

    def isnone(self, v):
        if self.p.facts.get(('isnone', v)) is not None:
            return self.p.facts[('isnone', v)]
        return False if v[0] == 'call' and v[1].endswith('generate_id') else None

    def items(self, v):
        """The items of a known list, or None."""
        o = None if v is None or v == MISSING or isinstance(v, dict) else self.p.obj(v)
        if o is None or o[0] != 'list':
            return None
        return o

    def walk(self, nodes, env, sure=True):
        env = dict(env)
        for n in nodes:
            if isinstance(n, El):
                for _, v in n.attrs:
                    for x in v:
                        if not isinstance(x, str):
                            self.say(x[1], env, sure)
                self.walk(n.kids, env, sure)
                self.only(n, env, sure)
                continue
            k = n[0]
            if k == 'out':
                self.say(n[1], env, sure)
            elif k == 'if':
                self.tests(n[1], env)
                v = self.truth(n[1], env)
                if v is not False:
                    self.walk(n[2], env, sure and v is True)
                if v is not True:
                    self.walk(n[3], env, sure and v is False)
            elif k == 'for':
                o = self.items(self.eval(n[2], env))
                if o is None or len(n[1]) != 1:
                    continue
                for x in o[1]:
                    self.walk(n[3], {**env, n[1][0]: x}, sure)
            elif k == 'set':
                env[n[1]] = self.eval(n[2], env)
            elif k == 'with':
                self.walk(n[2], {**env, **{kk: self.eval(v, env) for kk, v in n[1]}}, sure)
            elif k == 'include':
                self.walk(n[1], env, sure)
            elif k == 'autoescape':
                self.walk(n[2], env, sure)

    def only(self, el, env, sure):
        """An element that holds nothing but the items of a list that is not given, and that the schema does not allow to be empty."""
        inside = [x for x in el.kids if isinstance(x, El) or x[0] != 'text' or x[1].strip()]
        if len(inside) != 1 or isinstance(inside[0], El) or inside[0][0] != 'for':
            return
        q = self.path(inside[0][2])
        if q and self.eval(inside[0][2], env) == MISSING and needs_content(self.schema, el):
            self.out.append(('.'.join(q), q[-1], MISSING, sure))

    def tests(self, e, env):
        """What a condition asks for."""
        q = self.path(e)
        if q:
            self.asked.append(('.'.join(q), q[-1], self.eval(e, env)))
            return
        for x in e[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                self.tests(x, env)

    def say(self, e, env, sure):
        while e[0] == 'filter' and e[2] not in ('default', 'd'):
            e = e[1]
        q = self.path(e)
        if q:
            self.out.append(('.'.join(q), q[-1], self.eval(e, env), sure))


def needs_content(schema, el):
    """Does the schema refuse this element when it is empty?"""
    if not all(isinstance(x, str) for x in el.name):
        return False
    local = ''.join(el.name).split(':')[-1]
    decls = [d for q, d in schema.elements.items() if q[1] == local]
    models = [schema.model(d) for d in decls]
    return bool(models) and all(m[0] == 'complex' and included(NFA(('seq', ())), NFA(m[1])) is not None for m in models)


def given(p, made):
    """The fields of a message: ({name: value}, are these all)."""
    root, closed = {}, True
    for k, v in made.kw:
        if k not in ('**', None):
            root[k] = v
            continue
        o = p.obj(v)
        if o is None or o[0] != 'dict' or o[2] or o[3] is not None:
            closed = False
        for kk, x in (o[1] if o is not None and o[0] == 'dict' else ()):
            if kk[0] == 'c':
                root.setdefault(kk[1], x)
            else:
                closed = False
    return root, closed


# what a message is about: never made up, never left out
IDS = ('ven_id', 'vtn_id', 'ven_name', 'registration_id', 'request_id', 'event_id', 'opt_id', 'report_request_id')


def none(p, v):
    return v == NONE or v[0] not in ('c', 'o') and p.facts.get(('isnone', v)) is True


def source(k, v, params, fresh, p):
    """Is v the value that belongs into field k?  (True/False/None, what is wrong)"""
    if v[0] == 'c':
        if k in params and not any(has(a, P(k)) for a in p.facts):
            return False, f'is always {v[1]!r}, whatever the {k} given to the method is'
        return (False, f'is always {v[1]!r}') if k in IDS else (None, '')
    if v[0] == 'p':
        return True if v[1] == k else False if v[1] in params else None, f'is the {v[1]}'
    if v[0] == 'attr':
        return True if v[2].lstrip('_') == k else False if v[1] == SELF else None, f'is the {v[2]} of the sender'
    if v[0] == 'item' and v[2][0] == 'c' and isinstance(v[2][1], str):
        return v[2][1] == k, f'is the {v[2][1]}'
    if v[0] == 'call' and v[1].endswith('generate_id'):
        if k in params and not any(P(k) in a[1:] for a in p.facts):
            return False, f'is made up, whatever the {k} given to the method is'
        return True if k in fresh else False if k in IDS else None, 'is made up'
    if v[0] == 'call' and v[1].endswith('getmember') and len(v[2]) > 1 and v[2][1][0] == 'c':
        return str(v[2][1][1]).split('.')[-1] == k, f'is the {v[2][1][1]}'
    return None, ''


class Sent:
    """The messages of one sender."""

    def __init__(self, ctx, schema, templates):
        self.ctx, self.schema, self.templates = ctx, schema, templates
        self.trees = {}
        self.codes = {200} | set(enum_values(ctx, 'STATUS_CODES') or ())

    def tree(self, mt):
        if mt not in self.trees:
            try:
                self.trees[mt] = self.templates.tree(mt + '.xml')
            except Bad:
                self.trees[mt] = None
        return self.trees[mt]

    def written(self, mt):
        """The fields that the template of a message writes."""
        if not isinstance(mt, str) or self.tree(mt) is None:
            return None
        f = Fill(None, {}, False, None)
        f.walk(self.tree(mt), {})
        return {path for path, _, _, _ in f.out}

    def one(self, name, mt, root, closed, p, loc, params=(), must=(), fresh=('request_id', 'opt_id')):
        """params: the arguments of the method; must: fields that may not be left out; fresh: those that may be made up."""
        ctx = self.ctx
        tree = self.tree(mt)
        if tree is None:
            ctx.undecided('complete', f'{name}: {mt}', 'template not readable')
            return
        f = Fill(p, root, closed, self.schema)
        f.walk(tree, {})
        for path, k, v, sure in f.out:
            if v is None or not sure:
                continue
            why = 'is not given' if v == MISSING else 'is None' if none(p, v) else ''
            ctx.judge('complete', f'{name}: {mt}: {path}', not why, f'{path} of {mt} {why}', loc, p)
        done = set()
        for path, k, v in [x[:3] for x in f.out] + f.asked:
            if v is None or isinstance(v, dict) or (path, v) in done:
                continue
            done.add((path, v))
            self.judge(f'{name}: {mt}: {path}', f'{path} of {mt}', path, k, v, p, loc, params, must, fresh)

    def judge(self, where, what, path, k, v, p, loc, params, must, fresh):
        ctx = self.ctx
        if v == MISSING or v == NONE:
            if k in must and (v == MISSING or params):
                ctx.judge('identity', where, False, f'{what} is left out', loc, p)
            return
        if k == 'response_code':
            c = const_of(p.facts, v)
            if c is not None:
                ctx.judge('codes', where, c in self.codes, f'{what} is {c!r}, which is no status code', loc, p)
            return
        if k not in IDS and k not in params:
            return
        ok, why = source(k, v, params, fresh, p)
        if ok and k == 'request_id' and '.' in path and v[0] == 'call' and v[1].endswith('generate_id'):
            ok, why = False, 'is made up and not that of the message that is answered'
        if ok is not None:
            ctx.judge('identity', where, ok, f'{what} {why}', loc, p)


def C53(ctx):
    ctx.rule('complete', 'every value that the template of a message puts into the document is given by the place that sends the message')
    ctx.rule('identity', 'the identifiers in a message, and the fields named as the arguments of the method that sends it, hold just that: the venID and registrationID of '
             'this VEN, the identifiers of the message that is answered, a fresh requestID for a request')
    ctx.rule('codes', 'a response code is 200 or one of enums.STATUS_CODES')
    sent = Sent(ctx, *load(ctx))
    ven(ctx, sent)
    handlers(ctx, sent)
    errors(ctx, sent)


def methods(ctx):
    """The methods of the client that make messages (directly or through a helper)."""
    cls = ctx.repo.need_class(CLIENT)
    uses = {n: {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)} for n, f in cls.methods.items() if n != '__init__'}
    makes = {'_create_message'}
    while True:
        more = {n for n, u in uses.items() if n not in METHODS and n not in makes and u & makes}
        if not more:
            break
        makes |= more
    return [n for n, u in uses.items() if n in METHODS and u & makes]


def made(p):
    for e in p.trace:
        if e.kind == 'call' and e.name.endswith('_create_message'):
            mt = arg(e, 1, 'message_type')
            yield e, const_of(p.facts, mt) if mt is not None else None


def ven(ctx, sent):
    n = 0
    for m in methods(ctx):
        f, loc, ps = paths(ctx, m, post_init=True)
        name = f'OpenADRClient.{m}'
        params = [a.arg for a in f.node.args.args[1:] + f.node.args.kwonlyargs]
        for p in ps:
            for e, mt in made(p):
                if not isinstance(mt, str):
                    ctx.undecided('complete', name, 'message type not known')
                    continue
                n += 1
                root, closed = given(p, e)
                sent.one(name, mt, root, closed, p, e.loc, params or ['-'], IDS + tuple(params))
    ctx.judge('complete', 'OpenADRClient: messages', True if n else None, 'no message')
    again(ctx)


def again(ctx):
    """A re-registration names the registration that it renews."""
    f, loc, ps = paths(ctx, 'create_party_reregistration', inline=('create_party_registration',))
    arg_ = P('registration_id')
    n = 0
    for p in ps:
        first = next(((e, mt) for e, mt in made(p) if mt == 'oadrCreatePartyRegistration'), None)
        if first is None:
            continue
        n += 1
        e = first[0]
        v = field(p, e, 'registration_id')
        own = A(SELF, 'registration_id')
        want = {own} if p.facts.get(('isnone', arg_)) is True else {arg_} if p.facts.get(('isnone', arg_)) is False else {own, arg_}
        ctx.judge('identity', 'OpenADRClient.create_party_reregistration: registration', None if v is None else v in want or (False if v[0] in ('c', 'p', 'attr') else None),
                  'a re-registration does not name the registration that it renews', e.loc, p)
    ctx.judge('identity', 'OpenADRClient.create_party_reregistration: message', True if n else None, 'no registration message')


def handlers(ctx, sent):
    """The VTN: what a handler returns, in the envelope of handle_message."""
    base = ctx.repo.need_class(VTN)
    n = 0
    for cls in ctx.repo.subclasses(base):
        for mt, ms in sorted(handled(ctx, cls).items(), key=repr):
            asks = sent.written(mt)
            for m, c, node in ms:
                f = ctx.repo.need_method(cls.qual, m)
                loc = (f.file, f.qual, f.node.lineno)
                for p in ctx.run(f, SELF, self_cls=cls, usercb=lambda k, n: n.startswith('on_'), max_iter=1, max_seconds=30,
                                 opaque={'openleadr.utils.order_events'}) or ():
                    if p.kind != 'return' or p.value[0] != 't' or len(p.value[1]) != 2:
                        continue
                    answer, v = p.value[1]
                    answer = const_of(p.facts, answer)
                    if not isinstance(answer, str):
                        continue
                    n += 1
                    o = p.obj(v)
                    root = {k[1]: x for k, x in o[1] if k[0] == 'c'} if o is not None and o[0] == 'dict' else {}
                    closed = o is not None and o[0] == 'dict' and not o[2] and o[3] is None and len(root) == len(o[1])
                    root.update(vtn_id=None, ven_id=root.get('ven_id'), request_id=None,
                                response={'response_code': C(200), 'response_description': C('OK'),
                                          'request_id': None if asks is None or 'request_id' in asks else NONE})
                    sent.one(f'{cls.name}.{m}', answer, root, closed, p, loc, fresh=('request_id', 'report_request_id'))
    ctx.judge('complete', 'VTNService: answers', True if n else None, 'no answer')


def errors(ctx, sent):
    """The VTN: answers to messages that are refused."""
    n = 0
    for cls, ps in gate.gate_paths(ctx):
        for p in ps:
            for e, mt in made(p):
                if not isinstance(mt, str):
                    continue
                n += 1
                root, closed = given(p, e)
                sent.one(f'{cls.name}.handler', mt, root, closed, p, e.loc, must=('request_id', 'ven_id', 'vtn_id'), fresh=('request_id',))
    ctx.judge('complete', 'VTNService.handler: answers', True if n else None, 'no answer')


CHECKS = {'C53': C53}
