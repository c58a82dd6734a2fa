"""How the parts are put together: routes, handler tables, user handlers, instances, argument checks."""
import ast
import os

from ..interp import P, A, I, E, C, NONE, show, subterms
from ..q import arg, has, truthy, equal, notnone, value, has_call, reaches, const_of, domain
from . import client, crypto
from .client import CLIENT
from .crypto import stored

SERVER = 'openleadr.server.OpenADRServer'
SELF = P('self')


# ---------------------------------------------------------------------------- decorators and handler tables

def marks(ctx, cls, deco, attr):
    """The constant a decorator expression stores as f.<attr> on what it decorates; ('?',) when it can't be told; None."""
    src = ast.unparse(deco)
    ps = ctx.probe(cls.module.name, f'def probe(f):\n    return ({src})(f)')
    out = set()
    for p in ps or ():
        got = None
        for e in p.trace:
            if e.kind == 'setattr' and e.name == attr and e.args[0] == P('f'):
                got = const_of(p.facts, e.args[1]) if e.args[1][0] != 'c' else e.args[1][1]
                if got is None:
                    got = ('?',)
        if p.kind == 'return' and p.value != P('f'):
            got = ('?',)
        out.add(got)
    return out.pop() if len(out) == 1 else ('?',)


def service_name(ctx, cls):
    for c in ctx.repo.mro(cls):
        for d in c.node.decorator_list:
            m = marks(ctx, c, d, '__service_name__')
            if m:
                return m
        v = c.attrs.get('__service_name__')
        if isinstance(v, ast.Constant):
            return v.value
    return None


def handled(ctx, cls):
    """message type -> [methods] of a service class."""
    out = {}
    seen = set()
    for c in ctx.repo.mro(cls):
        for n in c.node.body:
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) or n.name in seen:
                continue
            seen.add(n.name)
            for d in n.decorator_list:
                if ast.unparse(d) in ('property', 'staticmethod', 'classmethod') or ast.unparse(d).endswith('.setter'):
                    continue
                m = marks(ctx, c, d, '__message_type__')
                if m:
                    out.setdefault(m, []).append((n.name, c, n))
    return out


def senders(ctx):
    """Methods of the client from which a request is made (directly or through a helper)."""
    cls = ctx.repo.need_class(CLIENT)
    uses = {}
    for name, f in cls.methods.items():
        uses[name] = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)}
    direct = {'_perform_request'}
    while True:
        more = {n for n, u in uses.items() if n not in client.METHODS and n not in direct and u & direct}
        if not more:
            break
        direct |= more
    return [n for n, u in uses.items() if n in client.METHODS and u & direct and n != '_perform_request']


def requests_of(ctx):
    """(method, service, message type, loc) of everything the client sends; None entries where it can't be told."""
    out = {}
    for m in senders(ctx):
        f, loc, ps = client.paths(ctx, m, usercb=lambda k, n: n.startswith('on_'))
        for p in ps:
            for i, e, svc, mt, made in client.sends(p):
                s = const_of(p.facts, svc) if svc is not None else None
                t = const_of(p.facts, mt) if mt is not None else None
                if svc == P('service') and s is None:
                    s = '*'
                out.setdefault((m, s, t), (e.loc, p))
    return out


def C08(ctx):
    ctx.rule('route', 'the constructor of the VTN adds, for each of its service objects, a POST route at '
             '<path prefix>/<service name> to that object\'s own handler')
    ctx.rule('table', 'a service object\'s handler table maps the message type of every @handler method to that very method; no '
             'message type has two methods; the decorators mark and return what they decorate')
    ctx.rule('request-has-handler', 'each (service, message type) the VEN sends is a service of the VTN with a handler for that type')
    ctx.rule('template', 'each message type the VEN or VTN creates has a template')
    ctx.rule('own-parts', 'the poll service uses the event and report service of the same server, and every service has its vtn_id')
    ctx.rule('user-handler', 'add_handler puts exactly the given function under exactly the given name on the service that consults it, '
             'switches to external polling for on_poll only, and refuses an unknown name without changing anything')
    cls = ctx.repo.need_class(SERVER)
    tables = routes(ctx, cls)
    prefixes(ctx, cls)
    decorators(ctx)
    client_requests(ctx, tables)
    replies(ctx, tables)
    add_handler(ctx, cls, tables)


def prefixes(ctx, cls):
    """The paths of the services for some path prefixes, with and without a slash at the end, and none."""
    f = ctx.repo.need_method(cls.qual, '__init__')
    if 'http_path_prefix' not in [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]:
        ctx.undecided('route', 'OpenADRServer: prefix', 'no parameter http_path_prefix')
        return
    for pre in ('', '/', '/a', '/a/', '/a/b', '/OpenADR2/Simple/2.0b'):
        ps = ctx.run(f, SELF, {'http_path_prefix': C(pre), **{k: NONE for k in ('http_cert', 'cert', 'fingerprint_lookup', 'ven_lookup')}}, self_cls=cls, opaque={crypto.CERTFP})
        for p in ps or ():
            svc = crypto.services_made(ctx, p)
            for s, cname in (svc or {}).items():
                for e in p.trace:
                    if e.kind != 'call' or not any(bound(a, s, 'handler') for a in (*e.args, *[v for _, v in e.kw])):
                        continue
                    sname = service_name(ctx, ctx.repo.need_class(cname))
                    for u in (*e.args, *[v for _, v in e.kw]):
                        parts = list(u[1]) if u[0] == 'fstr' else [u]
                        if not any(x == A(s, '__service_name__') for x in parts) and not (u[0] == 'c' and sname and sname in str(u[1])):
                            continue
                        text = [str(x[1]) if x[0] == 'c' else sname if x == A(s, '__service_name__') else None for x in parts]
                        ok = None if None in text else ''.join(text) == pre.rstrip('/') + '/' + sname
                        ctx.judge('route', f'{cname}: under {pre!r}', ok, f'with the path prefix {pre!r} the service {sname} is at {"".join(x or "?" for x in text)!r}', e.loc, p)


def routes(ctx, cls):
    """attribute name in server.services -> (class, service name, handler table)"""
    f = ctx.repo.need_method(cls.qual, '__init__')
    loc = (f.file, f.qual, f.node.lineno)
    ps = crypto.server_paths(ctx)
    byname = {}
    n = 0
    for p in ps or ():
        if p.kind != 'return':
            continue
        svc = crypto.services_made(ctx, p)
        if not svc:
            ctx.undecided('route', 'OpenADRServer.__init__', 'services not recognised')
            break
        n += 1
        app = stored(p, SELF, 'app')
        lists = [x for e in p.trace if e.kind == 'call' and e.name == '.add_routes' and e.args[0] == app for x in e.args[1:]]
        per = {}
        for s, cname in svc.items():
            hit = None
            for e in p.trace:
                if e.kind != 'call' or not any(bound(a, s, 'handler') for a in (*e.args, *[v for _, v in e.kw])):
                    continue
                last = e.name.split('.')[-1]
                if last in ('post', 'add_post', 'add_route', 'route', 'put', 'get', 'add_get', 'add_put', 'view', 'patch', 'delete'):
                    hit = e
            if hit is None:
                ctx.violation('route', f'{cname}: no route', f'no route leads to the handler of {cname}', loc, p)
                continue
            last = hit.name.split('.')[-1]
            meth = 'POST' if last in ('post', 'add_post') else \
                next((a[1] for a in hit.args if a[0] == 'c' and a[1] in ('POST', '*', 'GET', 'PUT')), last)
            ctx.judge('route', f'{cname}: POST', meth in ('POST', '*'), f'the route of {cname} does not accept POST', hit.loc, p)
            if hit.name.startswith('aiohttp') or hit.name.startswith('web.'):
                ok = any(reaches(p, x, hit.res) for x in lists)
                ctx.judge('route', f'{cname}: route added', ok, f'the route to {cname} is never added to the application', hit.loc, p)
            urls = [a for a in (*hit.args, *[v for _, v in hit.kw]) if not bound(a, s, 'handler') and a != app]
            names = [a for a in urls if has(a, A(s, '__service_name__')) or
                     any(x[0] == 'c' and isinstance(x[1], str) and x[1].strip('/') == service_name(ctx, ctx.repo.need_class(cname))
                         for x in subterms(a))]
            ctx.judge('route', f'{cname}: its own name', bool(names), f'the route of {cname} is not at its own service name', hit.loc, p)
            ctx.judge('route', f'{cname}: below the prefix', any(has(a, P('http_path_prefix')) for a in names) if names else None,
                      f'the route of {cname} is not below the configured path prefix', hit.loc, p)
            for u in names:
                if u[0] == 'fstr':
                    k = u[1]
                    pre = next((i for i, x in enumerate(k) if has(x, P('http_path_prefix'))), None)
                    nm = next((i for i, x in enumerate(k) if has(x, A(s, '__service_name__'))), None)
                    if pre is not None and nm is not None:
                        sep = ''.join(str(x[1]) for x in k[pre + 1:nm] if x[0] == 'c')
                        stripped = any(x[0] == 'call' and x[1] in ('.rstrip', '.strip') for x in subterms(k[pre])) \
                            or p.facts.get(('call', '.endswith')) is not None
                        ctx.judge('route', f'{cname}: separator', nm == len(k) - 1 and pre == 0 and sep == '/' and (stripped or None),
                                  f'the route of {cname} is not <prefix>/<service name>', hit.loc, p)
            # the object's own vtn_id
            made = next((e for e in p.trace if e.res == s and e.kind == 'call'), None)
            vid = arg(made, 0, 'vtn_id') if made is not None else stored(p, s, 'vtn_id')
            ctx.judge('own-parts', f'{cname}: vtn_id', None if vid is None else vid == P('vtn_id'),
                      f'{cname} is not given the vtn_id of the server', loc, p)
            per.setdefault(cname, []).append(s)
        for s, cname in svc.items():
            for a, want in (('event_service', 'EventService'), ('report_service', 'ReportService')):
                if cname != 'PollService':
                    continue
                v = stored(p, s, a)
                ctx.judge('own-parts', f'PollService.{a}', v is not None and v in per.get(want, ()),
                          f'the poll service is not connected to the {want} of this server', loc, p)
        if 'RegistrationService' in per:
            s = per['RegistrationService'][0]
            made = next((e for e in p.trace if e.res == s and e.kind == 'call'), None)
            v = arg(made, 1, 'poll_freq') if made is not None else stored(p, s, 'poll_freq')
            ctx.judge('own-parts', 'RegistrationService: poll frequency', None if v is None else v == P('requested_poll_freq'),
                      'VENs are not told the configured poll frequency', loc, p)
        t = stored(p, SELF, 'services')
        o = p.obj(t) if t is not None else None
        if o is not None and o[0] == 'dict':
            for k, v in o[1]:
                if k[0] == 'c' and v in svc:
                    byname[k[1]] = svc[v]
    ctx.judge('route', 'OpenADRServer.__init__: paths', True if n else None, 'no path', detail=f'{n} paths')
    tables = {}
    for attr, cname in byname.items():
        c = ctx.repo.need_class(cname)
        tables[attr] = (c, service_name(ctx, c), handled(ctx, c))
    if not tables:
        ctx.undecided('table', 'OpenADRServer.services', 'services not recognised')
    names = {}
    for attr, (c, nm, h) in tables.items():
        ctx.judge('table', f'{c.name}: service name', None if nm == ('?',) else isinstance(nm, str), f'{c.name} has no service name',
                  (c.module.relpath, c.qual, c.node.lineno))
        names.setdefault(nm, []).append(c.name)
        for mt, ms in h.items():
            ctx.judge('table', f'{c.name}: {mt}', None if mt == ('?',) else len(ms) == 1,
                      f'two methods of {c.name} handle {mt}: {", ".join(m[0] for m in ms)}; only one of them is ever called',
                      (c.module.relpath, f'{c.qual}.{ms[0][0]}', ms[0][2].lineno))
        ctx.judge('table', f'{c.name}: handlers', bool(h), f'{c.name} handles nothing', (c.module.relpath, c.qual, c.node.lineno))
    for nm, cs in names.items():
        if nm is not None and nm != ('?',):
            ctx.judge('route', f'service name {nm}', len(cs) == 1, f'{" and ".join(cs)} share the address {nm}')
    return tables


def bound(t, obj, name):
    """Is t the bound method obj.name?"""
    return t == A(obj, name) or t[0] == 'fn' and t[-1] == obj and t[1].split('.')[-1] == name


def decorators(ctx):
    """The handler table of VTNService."""
    cls = ctx.repo.need_class('openleadr.service.vtn_service.VTNService')
    f = ctx.repo.need_method(cls.qual, '__init__')
    loc = (f.file, f.qual, f.node.lineno)
    ps = ctx.run(f, SELF, self_cls=cls)
    n = 0
    for p in ps or ():
        if p.kind != 'return':
            continue
        h = stored(p, SELF, 'handlers')
        marked = [a[1] for a, v in p.facts.items() if a[0] == 'hasattr' and a[2] == '__message_type__' and v]
        unmarked = [a[1] for a, v in p.facts.items() if a[0] == 'hasattr' and a[2] == '__message_type__' and not v]
        o = p.obj(h) if h is not None else None
        if o is None or o[0] != 'dict':
            ctx.judge('table', 'VTNService.__init__: table', None if h is not None else False,
                      'a service has no handler table of its own', loc, p)
            continue
        items = list(o[1])
        for m in marked:
            n += 1
            if p.facts.get(('isnone', A(m, '__message_type__'))) is True or truthy(p.facts, A(m, '__message_type__')) is False:
                continue       # marked with nothing
            ok = any(v == m and k == A(m, '__message_type__') for k, v in items)
            part = any((has(v, m) or v[0] == 'unk') and (k[0] == 'unk' or '__message_type__' in show(k, 9)) for k, v in items)
            ctx.judge('table', 'VTNService.__init__: marked method registered', True if ok else (None if part else False),
                      'a method marked with @handler is not put in the handler table under its message type', loc, p)
        for m in unmarked:
            ctx.judge('table', 'VTNService.__init__: unmarked method', not any(v == m for _, v in items),
                      'a method that is no handler is put in the handler table', loc, p)
        # a method may only be left out because it is not callable, not a method of its own or not marked
    ctx.judge('table', 'VTNService.__init__: paths', True if n else None, 'table not understood', detail=f'{n} marked')


def client_requests(ctx, tables):
    rq = requests_of(ctx)
    where = {nm: (c, h) for c, nm, h in tables.values()}
    tdir = os.path.join(ctx.repo.root, 'openleadr', 'templates')
    if not rq or not where:
        ctx.undecided('request-has-handler', 'OpenADRClient', 'no requests recognised')
        return
    for (m, s, t), (loc, p) in sorted(rq.items(), key=lambda x: tuple(map(str, x[0]))):
        if t is not None:
            ctx.judge('template', t, os.path.exists(os.path.join(tdir, f'{t}.xml')), f'{t} has no template', loc, p)
        if t is None or s is None:
            ctx.undecided('request-has-handler', f'OpenADRClient.{m}', f'service {s}, message {t}')
            continue
        if t == 'oadrResponse':       # accepted by every service without a handler (see C07)
            continue
        if s == '*':
            ctx.undecided('request-has-handler', f'OpenADRClient.{m}', f'message {t} at a service given by the caller')
            continue
        c, h = where.get(s, (None, {}))
        if c is None:
            ctx.violation('request-has-handler', f'{t} at {s}', f'OpenADRClient.{m} sends {t} to {s}, which the VTN does not serve', loc, p)
        elif ('?',) in h and t not in h:
            ctx.undecided('request-has-handler', f'{t} at {s}', 'handler table not understood')
        else:
            ctx.judge('request-has-handler', f'{t} at {s}', t in h,
                      f'OpenADRClient.{m} sends {t} to {s}, where {c.name} has no handler for it', loc, p)
    # the address a request goes to
    cls = ctx.repo.need_class(CLIENT)
    f = ctx.repo.need_method(cls.qual, '_perform_request')
    from . import gate
    k = 0
    for p in gate.client_request_paths(ctx, cls, f) or ():
        for e in p.trace:
            if e.kind == 'call' and e.name == '.post':
                k += 1
                u = arg(e, 1, 'url')
                ok = u is not None and u[0] == 'fstr' and [x for x in u[1]] == [A(SELF, 'vtn_url'), C('/'), P('service')]
                if not ok and u is not None:
                    ok = None if has(u, A(SELF, 'vtn_url')) and has(u, P('service')) else False
                    if u[0] == 'fstr' and ok is None and ([x for x in u[1] if x[0] != 'c'] != [A(SELF, 'vtn_url'), P('service')] or
                                                          all(x[0] in ('c', 'p', 'attr') for x in u[1])):
                        ok = False
                ctx.judge('route', 'OpenADRClient._perform_request: address', ok,
                          'the request is not sent to <vtn_url>/<service>', e.loc, p)
        if k:
            break
    for p in crypto.ctor_paths(ctx) or ():
        if p.kind == 'return':
            v = stored(p, SELF, 'vtn_url')
            ok = v is not None and has(v, P('vtn_url'))
            if ok and v != P('vtn_url') and not any(x[0] == 'call' and x[1] == '.rstrip' for x in subterms(v)):
                ok = None
            ctx.judge('route', 'OpenADRClient.__init__: vtn_url', ok, 'the VEN does not use the vtn_url it was given', None, p)


def replies(ctx, tables):
    """Message types the VTN's handlers answer with."""
    tdir = os.path.join(ctx.repo.root, 'openleadr', 'templates')
    types = {}
    for attr, (c, nm, h) in tables.items():
        for mt, ms in h.items():
            for name, k, node in ms:
                f = ctx.repo.find_method(c, name)
                if f is None:
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.startswith('oadr') \
                            and x.value.replace('_', '').isalnum() and x.value[4:5].isupper():
                        types.setdefault(x.value, (f, x.lineno))
    for t, (f, ln) in sorted(types.items()):
        ctx.judge('template', t, os.path.exists(os.path.join(tdir, f'{t}.xml')), f'{t} has no template', (f.file, f.qual, ln))


def handler_map(ctx, cls):
    """user handler name -> attribute in server.services"""
    for n, v in cls.attrs.items():
        if isinstance(v, ast.Dict) and v.keys and all(isinstance(k, ast.Constant) and str(k.value).startswith('on_') for k in v.keys):
            return n, {k.value: x.value for k, x in zip(v.keys, v.values) if isinstance(x, ast.Constant)}
    return None, {}


# the handlers of a VTN in the documentation that one of its services consults
DOCUMENTED = ('on_created_event', 'on_request_event', 'on_register_report', 'on_created_report', 'on_update_report', 'on_poll', 'on_query_registration',
              'on_create_party_registration', 'on_cancel_party_registration')


def add_handler(ctx, cls, tables):
    f = ctx.repo.need_method(cls.qual, 'add_handler')
    name, func = (P(a.arg) for a in f.node.args.args[1:3])
    loc = (f.file, f.qual, f.node.lineno)
    mapname, table = handler_map(ctx, cls)
    if not table:
        ctx.undecided('user-handler', 'OpenADRServer', 'table of handler names not recognised')
        return
    for h in DOCUMENTED:
        ctx.judge('user-handler', f'{h}: can be added', h in table, f'add_handler refuses {h}, which is documented and which a service consults', loc)
    for h, attr in table.items():
        c = tables.get(attr, (None,))[0]
        if c is None:
            ctx.judge('user-handler', f'{h}: service', None if not tables else False, f'{h} belongs to {attr}, which the server does not have', loc)
            continue
        used = any(isinstance(x, ast.Attribute) and x.attr == h or isinstance(x, ast.Constant) and x.value == h
                   for k in ctx.repo.mro(c) for m in k.methods.values() if m.name != h for x in ast.walk(m.node))
        ctx.judge('user-handler', f'{h} on {c.name}', used, f'a handler added as {h} is put on {c.name}, which never calls it', loc)
    for attr, (c, nm, hh) in tables.items():
        for m in [m for k in ctx.repo.mro(c) for m in k.methods.values()]:
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr.startswith('on_') \
                        and isinstance(x.ctx, ast.Load) and x.attr not in table:
                    ctx.assumptions.append(f'{c.name} consults {x.attr}, for which no handler can be added')
    ps = ctx.run(f, SELF, self_cls=cls)
    good = bad = 0
    services = A(SELF, 'services')
    for p in ps or ():
        M = A(SELF, mapname)
        known = p.facts.get(('in', name, M))
        if known is None:
            known = next((v for a, v in p.facts.items() if a[0] == 'inset' and a[1] == name and set(x[0] for x in a[2]) == set(table)), None)
        if known is None:
            got = [a for a in p.facts if a[0] == 'isnone' and has(a[1], M)]
            known = (not p.facts[got[0]]) if got else None
        sets = [e for e in p.trace if e.kind in ('setattr', 'setitem')]
        if known is False:
            bad += 1
            ctx.judge('user-handler', 'add_handler: unknown name', p.kind == 'raise', 'an unknown handler name is accepted silently', loc, p)
            ctx.judge('user-handler', 'add_handler: unknown name changes nothing', not sets, 'an unknown handler name changes the server', loc, p)
            continue
        if known is None:
            ctx.undecided('user-handler', 'add_handler', 'path not understood')
            continue
        good += 1
        on_poll = const_of(p.facts, name) == 'on_poll'
        put = [e for e in sets if e.kind == 'setattr' and func in e.args]
        ok = any(len(e.args) == 3 and e.args[1] == name and e.args[2] == func and has(e.args[0], services) and has(e.args[0], I(M, name)) or
                 len(e.args) == 3 and e.args[1] == name and e.args[2] == func and has(e.args[0], services) for e in put)
        if not ok and put:
            ok = None
        ctx.judge('user-handler', 'add_handler: installed', ok, 'the handler is not installed under its name on the service of that name', loc, p)
        for e in put:
            if ok and not (has(e.args[0], I(M, name)) or any(x[0] == 'call' and x[1] == '.get' and has(x, M) for x in subterms(e.args[0]))):
                ctx.violation('user-handler', 'add_handler: service of the name', 'the handler is not put on the service the table names for it', e.loc, p)
        ext = {k: stored(p, I(services, C(k)), 'polling_method') for k in ('poll_service', 'event_service')}
        for k, v in ext.items():
            if on_poll:
                ctx.judge('user-handler', f'add_handler on_poll: {k}', v == C('external'),
                          f'after an own on_poll handler was added, {k} still delivers events itself', loc, p)
            elif v is not None:
                al, ex = domain(p.facts, name)
                about = any(name in [x for t in a[1:] if isinstance(t, tuple) and t and isinstance(t[0], str) for x in subterms(t)]
                            for a in p.facts if a[0] not in ('eq', 'inset') and a != ('in', name, M))
                ctx.judge('user-handler', f'add_handler other: {k}', True if v != C('external') else (None if about and al is None else False),
                          f'adding a handler other than on_poll switches {k} to external polling', loc, p)
    ctx.judge('user-handler', 'add_handler: paths', True if good and bad else None, 'no path', detail=f'{good} known, {bad} unknown')
    # the VEN
    kc = ctx.repo.need_class(CLIENT)
    f = ctx.repo.need_method(kc.qual, 'add_handler')
    name, func = (P(a.arg) for a in f.node.args.args[1:3])
    loc = (f.file, f.qual, f.node.lineno)
    n = 0
    for c, known in (('on_event', True), ('on_update_event', True), ('on_something_else', False)):
        for p in ctx.run(f, SELF, {name[1]: C(c)}, self_cls=kc) or ():
            sets = [e for e in p.trace if e.kind == 'setattr']
            n += 1
            if not known:
                ctx.judge('user-handler', 'OpenADRClient.add_handler: unknown name', not sets, 'an unknown handler name changes the VEN', loc, p)
                continue
            ok = any(len(e.args) == 3 and e.args[1:] == (C(c), func) and e.args[0] == SELF or
                     len(e.args) == 2 and e.args[0] == SELF and e.args[1] == func and e.name == c for e in sets)
            ctx.judge('user-handler', f'OpenADRClient.add_handler: {c} installed', ok if ok or not sets else None,
                      f'the {c} handler of the VEN is not installed', loc, p)
    ctx.judge('user-handler', 'OpenADRClient.add_handler: paths', True if n else None, 'no path')


CHECKS = {'C08': C08}
