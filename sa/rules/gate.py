"""The VTN's message gate: what must be true before a message handler runs, and what is answered."""
from ..interp import P, A, I, E, C, NONE, show, subterms
from ..q import (arg, calls, has, has_call, find_calls, call_kw, domain, truthy, notnone, equal, eqs, absent, value)

VALIDATE = 'openleadr.messaging.validate_xml_schema'
PARSE = 'openleadr.messaging.parse_message'
VERIFY = 'openleadr.messaging.validate_xml_signature'
CERTFP = 'openleadr.utils.certificate_fingerprint'
CONNFP = 'openleadr.utils.get_cert_fingerprint_from_request'
EXTRACT = 'openleadr.utils.extract_pem_cert'
HOOK = 'openleadr.hooks.call'
LOOKUPS = ('ven_lookup', 'fingerprint_lookup')
EXEMPT = {'oadrCreatePartyRegistration', 'oadrQueryRegistration'}

SELF = P('self')
REQUEST = P('request')

OPAQUE = {VALIDATE, PARSE, VERIFY, CERTFP, CONNFP, EXTRACT, HOOK}

# exceptions each collaborator may raise, as far as the gate distinguishes them
RAISES = {
    VALIDATE: ['XMLSyntaxError', 'ValueError'],
    PARSE: ['RuntimeError'],
    VERIFY: ['InvalidSignature', 'ValueError', 'RuntimeError'],
    CERTFP: ['ValueError'],
    EXTRACT: ['AttributeError'],
    CONNFP: ['RuntimeError'],
    'ven_lookup': ['RuntimeError', 'ValueError'],
    'fingerprint_lookup': ['RuntimeError', 'ValueError'],
}


def raising(name, args, in_try):
    if name in RAISES:
        return RAISES[name]
    if name == '()' and args and has(args[0], A(SELF, 'handlers')):
        return ['RuntimeError']
    if name == '.read':
        return ['RuntimeError']
    return []


def service_classes(repo):
    base = repo.need_class('openleadr.service.vtn_service.VTNService')
    repo.need_method(base.qual, 'handler')
    subs = [c for c in repo.subclasses(base)]
    names = set(base.methods) - {'__init__'}
    out = [base]
    for c in subs:
        if any(n in k.methods for k in repo.mro(c) if k is not base for n in names):
            out.append(c)
    return base, subs, out


def gate_paths(ctx, extra_raise=None, **kw):
    """(class, paths) for every distinct request handler of the VTN."""
    base, subs, todo = service_classes(ctx.repo)
    for c in todo:
        f = ctx.repo.need_method(c.qual, 'handler')
        req = [a.arg for a in f.node.args.args][1]
        r = raising
        if extra_raise:
            def r(name, args, in_try):
                x = extra_raise(name, args)
                return x if x is not None else raising(name, args, in_try)
        ps = ctx.run(f, SELF, args=(REQUEST,) if req else None, self_cls=c, opaque=OPAQUE, raising=r,
                     usercb=lambda k, n: n in LOOKUPS or n.startswith('on_'), max_seconds=300, **kw)
        if ps is not None:
            yield c, ps


def is_dispatch(e):
    return e.kind in ('call', 'callx') and e.name == '()' and e.args and has(e.args[0], A(SELF, 'handlers'))


def dispatches(p):
    for i, e in enumerate(p.trace):
        if is_dispatch(e):
            yield i, e


def message_terms(p):
    """(content, tree, mtype, payload) as provenance terms."""
    content = tree = parsed = None
    for e in p.trace:
        if e.kind == 'call' and e.name == VALIDATE and tree is None:
            tree = e.res
            content = arg(e, 0, 'content')
        if e.kind == 'call' and e.name == PARSE and parsed is None:
            parsed = e.res
    if parsed is None:
        return content, tree, None, None
    return content, tree, E(parsed, 0), E(parsed, 1)


def configured(facts, name):
    """False only when the facts say this lookup is not set on the service."""
    t = A(SELF, name)
    return not (facts.get(('hasattr', SELF, name)) is False or facts.get(('isnone', t)) is True
                or facts.get(('truth', t)) is False or facts.get(('callable', t)) is False)


def lookup_result(t, ven_id):
    """Is t what a lookup returned for this ven_id (the fingerprint itself or the ven's 'fingerprint')?"""
    if t[0] == 'call' and t[1] == 'fingerprint_lookup':
        return any(a == ven_id for a in list(t[2]) + [v for _, v in t[3]])
    if t[0] == 'item' and t[2] == C('fingerprint') and t[1][0] == 'call' and t[1][1] == 'ven_lookup':
        return any(a == ven_id for a in list(t[1][2]) + [v for _, v in t[1][3]])
    return False


def is_conn_fp(t):
    if t[0] in ('slice', 'bin', 'fstr', 'item'):
        return False
    return has_call(t, CONNFP) or any(x == A(REQUEST, 'transport') for x in subterms(t))


def is_sig_fp(t, tree):
    if t[0] in ('slice', 'bin', 'fstr', 'item'):
        return False
    return has_call(t, CERTFP) and has(t, tree)


def C01(ctx):
    ctx.rule('tls-fingerprint-gate', 'on every path on which a message handler is dispatched for a TLS request with a '
             'lookup configured and a message that is not Create/QueryRegistration, the facts in force contain the '
             'equality of the client-certificate fingerprint with what the lookup returned for the venID of this '
             'very message')
    ctx.rule('tls-signature-gate', 'on those paths, unless signature verification is switched off, the fingerprint of '
             'the certificate in the validated message tree equals the looked-up one and the signature verification '
             'of that tree returned normally before the dispatch')
    ctx.assumptions += ['loops over lookup results are unrolled once; user lookups are opaque',
                        'sha256/X509 code is trusted to compute what its name says']
    for c, ps in gate_paths(ctx):
        n = 0
        for p in ps:
            content, tree, mtype, payload = message_terms(p)
            for i, e in dispatches(p):
                f = e.facts
                if truthy(f, A(REQUEST, 'secure')) is False:
                    continue
                n += 1
                if payload is None:
                    ctx.violation('tls-fingerprint-gate', f'{c.name}: handler runs without a parsed message',
                                  'a handler is dispatched before the message was parsed', e.loc, p)
                    continue
                al, _ = domain(f, mtype)
                if al is not None and al and al <= EXEMPT:
                    continue
                if not configured(f, 'fingerprint_lookup') and not configured(f, 'ven_lookup'):
                    continue
                ven = I(payload, 'ven_id')
                exp = [(a, b) for a, b in list(eqs(f)) + [(y, x) for x, y in eqs(f)] if lookup_result(a, ven)]
                good = any(is_conn_fp(b) for a, b in exp)
                ctx.judge('tls-fingerprint-gate', f'{c.name}.handler: dispatch over TLS', good,
                          'a message handler is reached over TLS without the client certificate fingerprint having '
                          'been found equal to the one on file for the venID in the message', e.loc, p)
                if not good:
                    continue
                if truthy(f, A(SELF, 'verify_message_signatures')) is False:
                    continue
                sig = any(tree is not None and is_sig_fp(b, tree) for a, b in exp)
                if not sig:
                    # the same equality through the connection fingerprint
                    conn = [b for a, b in exp if is_conn_fp(b)]
                    sig = any((a in conn and is_sig_fp(b, tree)) or (b in conn and is_sig_fp(a, tree))
                              for a, b in eqs(f)) or verified_with(p, i, tree, [a for a, b in exp] + conn)
                ctx.judge('tls-signature-gate', f'{c.name}.handler: signing certificate', sig,
                          'a handler is reached although the certificate that signed the message was not compared '
                          'with the fingerprint on file', e.loc, p)
                ver = any(x.kind == 'call' and x.name == VERIFY and arg(x, 0, 'xml_tree') == tree
                          for x in p.trace[:i])
                ctx.judge('tls-signature-gate', f'{c.name}.handler: signature verification', ver,
                          'a handler is reached although the message signature was not verified', e.loc, p)
        ctx.judge('tls-fingerprint-gate', f'{c.name}: dispatch paths found', True if n else None,
                  'no dispatch over TLS recognised', detail=f'{n} dispatch points on TLS paths')
    settings(ctx, 'settings', (*LOOKUPS, 'verify_message_signatures'))


def settings(ctx, rule, names):
    """What is given to OpenADRServer is what each of its services looks at."""
    from . import crypto
    ctx.rule(rule, 'every service of an OpenADRServer gets the lookups and the verification switch that were given to that server')
    n = 0
    for p in crypto.server_paths(ctx) or ():
        if p.kind != 'return':
            continue
        svc = crypto.services_made(ctx, p)
        for s, cname in svc.items():
            for a in names:
                if p.facts.get(('isnone', P(a))) is True or truthy(p.facts, P(a)) is False and a in LOOKUPS:
                    continue
                n += 1
                v = crypto.stored(p, s, a)
                made = next((e for e in p.trace if e.res == s and e.kind == 'call'), None)
                given = made is not None and P(a) in [*made.args, *[x for _, x in made.kw]]
                ctx.judge(rule, f'OpenADRServer: {cname}: {a}', v == P(a) or (None if given and v is None else False),
                          f'{cname} does not get the {a} that the server was given', None, p)
    ctx.judge(rule, 'OpenADRServer: services', True if n else None, 'none seen', detail=f'{n} settings')


def verified_with(p, upto, tree, fps):
    for x in p.trace[:upto]:
        if x.kind == 'call' and x.name == VERIFY and arg(x, 0, 'xml_tree') == tree \
                and arg(x, 1, 'cert_fingerprint') in fps:
            return True
    return False


def C02(ctx):
    ctx.rule('vtn-id-gate', 'on every path that dispatches a handler, the message carries no vtnID or the facts contain '
             "its equality with the VTN's own id; on the mismatching paths the answer carries response code 452")
    ctx.rule('registered-gate', 'on every path that dispatches a handler for a message with a venID other than '
             'Create/QueryRegistration while a ven_lookup is set, the lookup was made with that venID and both its '
             'result and its registration_id are known to be non-None; otherwise oadrRequestReregistration is sent')
    for c, ps in gate_paths(ctx):
        nd = nm = nr = 0
        for p in ps:
            content, tree, mtype, payload = message_terms(p)
            if payload is None:
                continue
            vtn, own, ven = I(payload, 'vtn_id'), A(SELF, 'vtn_id'), I(payload, 'ven_id')
            disp = list(dispatches(p))
            for i, e in disp:
                f = e.facts
                nd += 1
                ok = absent(f, payload, 'vtn_id') or equal(f, vtn, own)
                ctx.judge('vtn-id-gate', f'{c.name}.handler: dispatch', ok,
                          'a handler is reached although the vtnID of the message was not found equal to this VTN\'s id',
                          e.loc, p)
                al, _ = domain(f, mtype)
                if al is not None and al and al <= EXEMPT:
                    continue
                if not configured(f, 'ven_lookup') or absent(f, payload, 'ven_id'):
                    continue
                res = None
                for x in p.trace[:i]:
                    if x.kind == 'usercb' and x.name == 'ven_lookup' and ven in \
                            list(x.args) + [v for _, v in x.kw]:
                        r = x.res
                        if notnone(f, r) and notnone(f, I(r, 'registration_id')):
                            res = True
                ctx.judge('registered-gate', f'{c.name}.handler: dispatch', bool(res),
                          'a handler is reached for a venID that the lookup did not report as registered', e.loc, p)
            # answers
            f = p.facts
            if f.get(('eq', own, vtn)) is False or f.get(('eq', vtn, own)) is False:
                nm += 1
                code = error_code(p)
                ctx.judge('vtn-id-gate', f'{c.name}.handler: answer to a wrong vtnID',
                          True if code == 452 else (None if code is None else False),
                          f'a message for another VTN is answered with response code {code} instead of 452', None, p)
            for x in p.trace:
                if x.kind == 'usercb' and x.name == 'ven_lookup' and not disp:
                    r = x.res
                    if f.get(('isnone', r)) is True or f.get(('isnone', I(r, 'registration_id'))) is True \
                            or f.get(('truth', r)) is False or f.get(('truth', I(r, 'registration_id'))) is False:
                        if any(y.kind in ('call', 'callx') and y.name == CONNFP for y in p.trace):
                            continue      # the lookup of the TLS gate, not the registration gate
                        nr += 1
                        t = [arg(y, 1) for y in p.trace if y.kind == 'call' and y.name == '._create_message']
                        vs = [arg(y, None, 'ven_id') for y in p.trace if y.kind == 'call' and y.name == '._create_message']
                        ctx.judge('registered-gate', f'{c.name}.handler: answer to an unregistered VEN',
                                  t == [C('oadrRequestReregistration')] and vs == [ven],
                                  'an unregistered VEN is not answered with oadrRequestReregistration for its venID',
                                  None, p)
        ctx.judge('vtn-id-gate', f'{c.name}: paths', True if nd and nm else None, 'no dispatch or mismatch path seen',
                  detail=f'{nd} dispatch points, {nm} mismatch paths')
        ctx.judge('registered-gate', f'{c.name}: paths', True if nr else None, 'no reregistration path seen',
                  detail=f'{nr} reregistration paths')
    settings(ctx, 'settings', ('ven_lookup',))


def created(p):
    return [e for e in p.trace if e.kind == 'call' and e.name == '._create_message']


def created_value(p, e, key):
    """What the answered message carries under `key`."""
    for n, v in e.kw:
        if n == key:
            return v
    star = dict(e.kw).get('**')
    if star is not None:
        return value(p, star, key)
    return None


def error_code(p):
    cs = created(p)
    if not cs:
        return None
    r = created_value(p, cs[-1], 'response')
    if r is None:
        return None
    v = value(p, r, 'response_code')
    return v[1] if v is not None and v[0] == 'c' else None


# ---------------------------------------------------------------------------- C03

def parser_validates(ctx):
    """validate_xml_schema really validates: parses with a schema-bound, non-recovering parser, or asserts validity."""
    repo = ctx.repo
    f = repo.need_func(VALIDATE)
    ps = ctx.run(f, None)
    if ps is None:
        return
    for p in ps:
        if p.kind != 'return':
            continue
        parses = [e for e in p.trace if e.kind == 'call' and e.name.split('.')[-1] in ('fromstring', 'XML', 'parse')]
        asserts = [e for e in p.trace if e.kind == 'call' and e.name == '.assertValid'] + \
            [a for a, v in p.facts.items() if v and a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == '.validate']
        ok, why = None, 'schema validation not recognised'
        for e in parses:
            par = arg(e, 1, 'parser')
            ok, why = schema_parser(repo, par)
            same = arg(e, 0, 'text')
            root = same
            while root is not None and root[0] == 'call' and root[1] in ('.encode', 'ensure_bytes', '.decode') and root[2]:
                root = root[2][0]
            if root is not None and root != P(f.node.args.args[0].arg) and ok:
                ok, why = False, 'something other than the received content is validated'
            if ok and p.value != e.res:
                ok, why = None, 'returned tree is not the validated one'
        if not ok and asserts:
            ok = True
        if not parses and not asserts:
            ok, why = False, 'returns normally without parsing against the schema'
        ctx.judge('schema-parser', f'{f.qual}', ok, why, (f.file, f.qual, f.node.lineno), p)


def schema_parser(repo, par):
    import ast
    if par is None:
        return False, 'the document is parsed without the schema'
    node = mod = None
    if par[0] == 'glob':
        mod = repo.modules[par[1]]
        ex = mod.globals.get(par[2], [])
        node = ex[0] if len(ex) == 1 else None
    elif par[0] == 'call' and par[1].endswith('XMLParser'):
        kw = dict(par[3])
        if kw.get('recover', C(False)) != C(False):
            return False, 'the parser recovers from errors instead of rejecting the document'
        return (True, '') if 'schema' in kw else (False, 'the parser has no schema')
    if node is None:
        return None, 'parser definition not recognised'
    if isinstance(node, ast.Call) and ast.unparse(node.func).endswith('XMLParser'):
        kw = {k.arg: k.value for k in node.keywords}
        if 'recover' in kw and not (isinstance(kw['recover'], ast.Constant) and not kw['recover'].value):
            return False, 'the parser recovers from errors instead of rejecting the document'
        if 'schema' not in kw or (isinstance(kw['schema'], ast.Constant) and kw['schema'].value is None):
            return False, 'the parser is not bound to the schema'
        return True, ''
    return None, 'parser definition not recognised'


def validated_before_parse(ctx, name, p, need_return=False):
    trace = p.trace
    n = 0
    for i, e in enumerate(trace):
        if e.kind in ('call', 'callx') and e.name == PARSE:
            n += 1
            content = arg(e, 0, 'data')
            ok = any(x.kind == 'call' and x.name == VALIDATE and arg(x, 0, 'content') == content for x in trace[:i])
            ctx.judge('validated-before-parse', f'{name}: parse of a received document', ok,
                      'the received document is parsed into a message without these same bytes having passed schema '
                      'validation', e.loc, p)
    return n


def C03(ctx):
    ctx.rule('validated-before-parse', 'every parse of a received document is preceded, on the same path, by a '
             'validate_xml_schema call on the same content term that returned normally')
    ctx.rule('schema-parser', 'validate_xml_schema returns normally only after parsing its argument with a '
             'schema-bound, non-recovering parser')
    ctx.rule('handled-is-parsed', 'the type and payload handed to a handler (VTN) or returned to the caller (VEN) are '
             'the two results of that parse')
    for c, ps in gate_paths(ctx):
        n = 0
        for p in ps:
            n += validated_before_parse(ctx, f'{c.name}.handler', p)
            _, _, mtype, payload = message_terms(p)
            for i, e in dispatches(p):
                ok = payload is not None and payload in list(e.args[1:]) + [v for _, v in e.kw] and has(e.args[0], mtype)
                ctx.judge('handled-is-parsed', f'{c.name}.handler: dispatch', ok,
                          'the handler is selected by, or receives, something other than the parsed message', e.loc, p)
        ctx.judge('validated-before-parse', f'{c.name}: parses found', True if n else None, 'no parse seen')
    cls = ctx.repo.need_class('openleadr.client.OpenADRClient')
    f = ctx.repo.need_method(cls.qual, '_perform_request')
    ps = client_request_paths(ctx, cls, f)
    n = 0
    for p in ps or ():
        n += validated_before_parse(ctx, f'{cls.name}._perform_request', p)
        if p.kind == 'return':
            _, _, mtype, payload = message_terms(p)
            v = p.value
            if v[0] == 't' and len(v[1]) == 2 and v[1][0] != C(None):
                ctx.judge('handled-is-parsed', f'{cls.name}._perform_request: result',
                          v[1] == (mtype, payload), 'the result of a request is not the parsed reply', None, p)
    if ps is not None:
        ctx.judge('validated-before-parse', 'client: parses found', True if n else None, 'no parse seen')
    parser_validates(ctx)


def client_request_paths(ctx, cls, f):
    def r(name, args, in_try):
        if name in (VALIDATE,):
            return ['XMLSyntaxError', 'ValueError']
        if name == VERIFY:
            return ['InvalidSignature', 'FingerprintMismatch', 'ValueError']
        if name == PARSE:
            return ['RuntimeError']
        if name in ('.post', '.read', '.get', '.request'):
            return ['ClientConnectorError', 'TimeoutError', 'ValueError']
        if name == 'ensure_str' or name == '.decode':
            return ['UnicodeDecodeError']
        if name == '()' or name.startswith('.'):
            return [] if name.startswith('.') else ['RuntimeError']
        return []
    return ctx.run(f, SELF, self_cls=cls, opaque=OPAQUE | {f'{cls.qual}._ensure_client_session',
                                                           f'{cls.qual}._execute_hooks'}, raising=r)


# ---------------------------------------------------------------------------- C06 / C07

STATUS = {'OK': 200, 'BAD_REQUEST': 400, 'FORBIDDEN': 403, 'INTERNAL_SERVER_ERROR': 500, 'UNAUTHORIZED': 401,
          'NOT_FOUND': 404, 'CREATED': 201, 'ACCEPTED': 202, 'NO_CONTENT': 204, 'BAD_GATEWAY': 502,
          'SERVICE_UNAVAILABLE': 503, 'METHOD_NOT_ALLOWED': 405, 'UNSUPPORTED_MEDIA_TYPE': 415,
          'UNPROCESSABLE_ENTITY': 422, 'NOT_ACCEPTABLE': 406}


def status_of(t):
    if t is None:
        return 200
    if t[0] == 'c':
        return t[1]
    if t[0] == 'ext' and t[1].startswith('http.HTTPStatus.'):
        return STATUS.get(t[1].split('.')[-1])
    return t


def exc_classes(ctx, p, x):
    """Names of the classes of exception value x (heap instance or ('exc', name, ..))."""
    repo = ctx.repo
    if x[0] == 'o':
        o = p.obj(x)
        c = repo.classes.get(o[1]) if o else None
        return [k.name for k in repo.mro(c)] if c else []
    if x[0] == 'exc':
        for c in repo.classes.values():
            if c.name == x[1]:
                return [k.name for k in repo.mro(c)]
        return [x[1]]
    return []


def expected_status(names, p, x):
    if 'RequestReregistration' in names or 'SendEmptyHTTPResponse' in names or 'ProtocolError' in names:
        return 200
    if 'HTTPError' in names:
        return 'http'
    if 'XMLSyntaxError' in names:
        return 400
    if 'FingerprintMismatch' in names or 'InvalidSignature' in names:
        return 403
    return 500


def C06(ctx):
    ctx.rule('one-response', 'every path of the request handler returns one web response and none lets an exception '
             'escape, whatever exception the message, the lookups or the user handlers raise')
    ctx.rule('status-by-cause', 'the HTTP status of that response is the one belonging to the exception that was caught: '
             'protocol errors and reregistration 200, HTTPError its own status, schema error 400, fingerprint or '
             'signature mismatch 403, anything else 500; without exception 200')
    ctx.rule('protocol-error-code', 'a protocol error is answered with an OpenADR message carrying that error\'s code')
    ctx.rule('content-type-gate', 'no content is read and parsed unless the request content type was tested')
    ctx.rule('message-sent', 'the body of a 200 answer is the OpenADR message that was made for it')
    ctx.rule('codes', 'each protocol error of openleadr.errors carries the response code the standard gives to it, and the description it was made with')
    error_codes(ctx)
    ctx.assumptions.append('rendering a reply does not raise (see C22); hooks do not raise')
    errs = ctx.repo.modules.get('openleadr.errors')
    own = sorted(errs.classes) if errs else []

    def extra(name, args):
        if name == '()' and args and has(args[0], A(SELF, 'handlers')):
            return own + ['RuntimeError', 'XMLSyntaxError', 'KeyError']
        if name in ('traceback.format_exc', 'aiohttp.web.Response', '._create_message', HOOK):
            return []
        return None
    for c, ps in gate_paths(ctx, extra_raise=extra):
        seen = set()
        for p in ps:
            exc = [e for e in p.trace if e.kind == 'except']
            if p.kind == 'raise':
                nm = exc_classes(ctx, p, p.value)
                ctx.violation('one-response', f'{c.name}.handler: {nm[0] if nm else "exception"} escapes',
                              f'the request handler lets {nm[0] if nm else "an exception"} escape instead of answering',
                              p.trace[-1].loc if p.trace else None, p)
                continue
            resp = [e for e in p.trace if e.kind == 'call' and e.name.endswith('web.Response')]
            mine = [e for e in resp if e.res == p.value]
            if not mine:
                ctx.judge('one-response', f'{c.name}.handler: result', False if p.value == C(None) else None,
                          f'the request handler returns {show(p.value)} instead of a response', None, p)
                continue
            ctx.ok('one-response', f'{c.name}.handler')
            ev = mine[-1]
            got = status_of(arg(ev, 2, 'status'))
            if not exc:
                want, nm, x = 200, ['none'], None
            else:
                # the exception that decided the answer: the last one caught
                x = exc[-1].args[0]
                inner = [e for e in exc if e.loc[1] != exc[-1].loc[1]]
                nm = exc_classes(ctx, p, x)
                want = expected_status(nm, p, x)
                last = [i for i, e in dispatches(p) if e.kind == 'callx']
                first = next((e.args[0] for e in p.trace[last[-1] + 1:] if e.kind == 'except'), None) if last else None
                if first is not None and first != x:
                    own_nm = exc_classes(ctx, p, first)
                    own = expected_status(own_nm, p, first)
                    if own != want and own_nm:
                        ctx.judge('status-by-cause', f'{c.name}.handler: {own_nm[0]} of a message handler', None if swallowed(p, exc) else False,
                                  f'{own_nm[0]}, raised by a message handler, is answered as {nm[0] if nm else "something else"}', ev.loc, p)
                        continue
            if exc and (swallowed(p, exc) or status_by_value(p, ev)):
                ctx.undecided('status-by-cause', f'{c.name}.handler: {nm[0]}', 'exception handled locally')
                continue
            seen.add(nm[0] if nm else '?')
            text = arg(ev, 0, 'text') or arg(ev, None, 'body')
            cm = created(p)
            if got == 200 and (nm == ['none'] or 'ProtocolError' in nm or 'RequestReregistration' in nm):
                if text is None:
                    text = next((e.args[1] for e in p.trace if e.kind == 'setattr' and e.args[0] == p.value and e.name in ('text', 'body')), None)
                ok = bool(cm) and text is not None and (text == cm[-1].res or has(text, cm[-1].res))
                ctx.judge('message-sent', f'{c.name}.handler: {nm[0] if nm else "?"}', ok or (None if cm and text is not None and text[0] != 'c' else False),
                          f'the OpenADR message that was made is not what is sent: {show(text) if text else None}', ev.loc, p)
            if want == 'http':
                hv = value_attr(p, x, 'response_code')
                ok = arg(ev, 2, 'status') == hv or (hv is not None and got == status_of(hv))
                if not ok and not isinstance(got, int):
                    ok = has(arg(ev, 2, 'status'), x) or None
                ctx.judge('status-by-cause', f'{c.name}.handler: HTTPError', ok,
                          f'HTTPError is answered with status {show_status(got)} instead of its own', ev.loc, p)
                continue
            if not isinstance(got, int):
                ctx.undecided('status-by-cause', f'{c.name}.handler: {nm[0] if nm else "?"}', f'status {show_status(got)}')
                continue
            ctx.judge('status-by-cause', f'{c.name}.handler: {nm[0] if nm else "?"}', got == want,
                      f'{nm[0] if nm else "an exception"} is answered with HTTP {got} instead of {want}', ev.loc, p)
            if 'ProtocolError' in nm and got == 200:
                cs = created(p)
                if not cs:
                    ctx.violation('protocol-error-code', f'{c.name}.handler: {nm[0]}',
                                  'a protocol error is answered without an OpenADR message', ev.loc, p)
                    continue
                r = created_value(p, cs[-1], 'response')
                code = value(p, r, 'response_code') if r is not None else None
                hv = value_attr(p, x, 'response_code')
                ctx.judge('protocol-error-code', f'{c.name}.handler: {nm[0]}',
                          True if code is not None and code == hv else (False if code is None or code[0] == 'c' else None),
                          f'{nm[0]} is answered with response code {show(code) if code else None} '
                          f'instead of {show(hv) if hv else None}', ev.loc, p)
            if 'RequestReregistration' in nm:
                cs = created(p)
                ok = bool(cs) and arg(cs[-1], 1) == C('oadrRequestReregistration')
                ctx.judge('protocol-error-code', f'{c.name}.handler: RequestReregistration', ok,
                          'a reregistration request is not answered with oadrRequestReregistration', ev.loc, p)
        for p in ps:
            for e in p.trace:
                if e.kind in ('call', 'callx') and e.name == VALIDATE:
                    hd = [a for a, v in e.facts.items() if any(
                        isinstance(t, tuple) and t and isinstance(t[0], str) and
                        (has(t, A(REQUEST, 'headers')) or has(t, A(REQUEST, 'content_type'))) for t in a[1:])
                        and a[0] in ('truth', 'eq', 'inset', 'in') and not (a[0] == 'in' and a[1][0] == 'c'
                                                                            and str(a[1][1]).lower() == 'content-type')]
                    good = any(e.facts[a] for a in hd)
                    ctx.judge('content-type-gate', f'{c.name}.handler', good,
                              'a document is processed without its content type having been accepted', e.loc, p)
        for n in ('none', 'RuntimeError', 'XMLSyntaxError', 'InvalidSignature', 'HTTPError', 'FingerprintMismatch'):
            ctx.judge('status-by-cause', f'{c.name}: cause {n} analysed', True if n in seen else None,
                      'cause not seen on any path')
        content_types(ctx, c)


def content_types(ctx, c):
    """What the handler does with some content types."""
    for ct, good in (('application/xml', True), ('application/xml; charset=utf-8', True), ('Application/XML', True), ('text/xml', False), ('application/json', False),
                     ('', False), ('application/xhtml+xml', False), ('text/html; application/xml', False)):
        ps = ctx.probe(c.module.name, f"async def probe(self, request):\n    request.headers = {{'content-type': {ct!r}}}\n    return await self.handler(request)",
                       types={P('self'): c}, opaque=OPAQUE | {f'{k.qual}.handle_message' for k in ctx.repo.mro(c)}, raising=lambda *a: [], max_seconds=60)
        for p in ps or ():
            taken = any(e.kind == 'call' and e.name in (VALIDATE, PARSE) for e in p.trace)
            if good:
                ctx.judge('content-type-gate', f'{c.name}.handler: {ct}', taken or (False if p.value[0] == 'call' and p.value[1].endswith('web.Response') and
                          status_of(dict(p.value[3]).get('status')) == 400 else None), f'a document with content type {ct!r} is refused', None, p)
                continue
            ctx.judge('content-type-gate', f'{c.name}.handler: {ct!r} refused', not taken, f'a document with content type {ct!r} is processed', None, p)
            if p.kind == 'return' and p.value[0] == 'call' and p.value[1].endswith('web.Response'):
                ctx.judge('content-type-gate', f'{c.name}.handler: {ct!r} answered', status_of(dict(p.value[3]).get('status')) == 400, f'content type {ct!r} is not answered with status 400',
                          None, p)


CODES = {'OutOfSequenceError': 450, 'NotAllowedError': 451, 'InvalidIdError': 452, 'NotRecognizedError': 453, 'InvalidDataError': 454,
         'ComplianceError': 459, 'SignalNotSupportedError': 460, 'ReportNotSupportedError': 461, 'TargetMismatchError': 462,
         'NotRegisteredOrAuthorizedError': 463, 'DeploymentError': 469}


def error_codes(ctx):
    mod = ctx.repo.modules.get('openleadr.errors')
    for name in sorted(mod.classes if mod else ()):
        if name not in CODES:
            continue
        for how, call in (('own description', f'{name}(d)'), ('default', f'{name}()')):
            ps = ctx.probe('openleadr.errors', f'def probe(d):\n    e = {call}\n    return e.response_code, e.response_description', post_init=True)
            for p in ps or ():
                if p.kind != 'return' or p.value[0] != 't':
                    bad = p.kind == 'raise'
                    ctx.judge('codes', f'{name}: {how}', False if bad else None, f'making it fails: {show(p.value)}', None, p)
                    continue
                code, desc = p.value[1]
                ctx.judge('codes', f'{name}: code', (code[1] == CODES[name]) if code[0] == 'c' else (False if code[0] in ('p', 'attr') else None),
                          f'{name} carries the code {show(code)} instead of {CODES[name]}', None, p)
                want = desc == P('d') if how == 'own description' else (desc[0] == 'c' and isinstance(desc[1], str) and bool(desc[1]) or (False if desc == NONE else None))
                ctx.judge('codes', f'{name}: {how}', want or (False if desc[0] in ('c', 'p', 'attr', 'o') else None), f'the description is {show(desc)}', None, p)


    # every exception the request handler asks for something carries it, however the handler of the user made it
    for construct, name, call, attrs, want in (
            ('ProtocolError: has a code', 'ProtocolError', 'ProtocolError(d)', ('response_code', 'response_description'), None),
            ('HTTPError: status', 'HTTPError', 'HTTPError(d, f)', ('response_code', 'response_description'), ('d', 'f')),
            ('HTTPError: default status', 'HTTPError', 'HTTPError()', ('response_code', 'response_description'), (500, None)),
            ('RequestReregistration: ven_id', 'RequestReregistration', 'RequestReregistration(d)', ('ven_id', 'ven_id'), ('d', 'd'))):
        if mod is None or name not in mod.classes:
            continue
        src = f'def probe(d, f):\n    e = {call}\n    return e.{attrs[0]}, e.{attrs[1]}'
        for p in ctx.probe('openleadr.errors', src, post_init=True) or ():
            if p.kind != 'return' or p.value[0] != 't':
                ctx.judge('codes', construct, False if p.kind == 'raise' else None, f'making it fails: {show(p.value)}', None, p)
                continue
            for i, v in enumerate(p.value[1]):
                missing = v[0] == 'attr' and v[1][0] == 'o'
                if missing:
                    ctx.violation('codes', construct, f'{name} made like this has no {attrs[i]}: answering it fails', None, p)
                elif want is None:
                    known = v[0] == 'c' and (v[1] in CODES.values() if i == 0 else isinstance(v[1], str) and bool(v[1]))
                    ctx.judge('codes', construct, known or (False if v[0] == 'c' else None), f'its {attrs[i]} is {show(v)}', None, p)
                else:
                    w = P(want[i]) if isinstance(want[i], str) else C(want[i])
                    ctx.judge('codes', construct, v == w or (False if v[0] in ('c', 'p') else None),
                              f'its {attrs[i]} is {show(v)} instead of {show(w)}', None, p)


def swallowed(p, exc):
    """The last caught exception was handled inside a helper and another one decided the answer."""
    return False


def status_by_value(p, ev):
    return False


def show_status(s):
    return s if isinstance(s, (int, type(None))) else show(s)


def value_attr(p, x, name):
    if x[0] == 'o':
        v = p.field(x, name)
        if v is not None:
            return v
    return A(x, name)


def C07(ctx):
    ctx.rule('success-envelope', 'on every path on which a handler returned and no exception was caught, the reply is '
             'rendered with the type and payload the handler returned (oadrResponse and nothing when it returned '
             'None), the VTN\'s own vtnID, response code 200 with the request_id of the request, and the venID '
             'supplied by the handler or else that of the request')
    ctx.rule('unknown-type', 'a message type without handler is answered with an oadrResponse with code 459 and no '
             'handler is called')
    for c, ps in gate_paths(ctx):
        n = u = 0
        for p in ps:
            if p.kind != 'return' or any(e.kind == 'except' for e in p.trace):
                continue
            _, _, mtype, payload = message_terms(p)
            disp = list(dispatches(p))
            cs = created(p)
            if payload is None:
                continue
            if not disp:
                if not cs:
                    continue
                u += 1
                code = error_code(p)
                ctx.judge('unknown-type', f'{c.name}.handler: no handler for this type',
                          arg(cs[-1], 1) == C('oadrResponse') and code == 459,
                          f'a message type without handler is answered with {show(arg(cs[-1], 1))} code {code}',
                          cs[-1].loc, p)
                continue
            n += 1
            name = f'{c.name}.handler'
            if not cs:
                ctx.violation('success-envelope', f'{name}: reply', 'a handled message gets no OpenADR reply', None, p)
                continue
            e = cs[-1]
            res = disp[-1][1].res
            none = p.facts.get(('isnone', res)) is True or truthy(p.facts, res) is False
            rtype = arg(e, 1)
            if none:
                ctx.judge('success-envelope', f'{name}: type when the handler returns None', rtype == C('oadrResponse'),
                          f'a handler returning nothing is answered with {show(rtype)}', e.loc, p)
            else:
                ctx.judge('success-envelope', f'{name}: reply type', rtype == E(res, 0),
                          f'the reply type is {show(rtype)}, not what the handler returned', e.loc, p)
            star = dict(e.kw).get('**')
            if not none and star is not None:
                own = p.facts.get(('isnone', E(res, 1))) is True
                same = star == E(res, 1) or has(star, E(res, 1)) or (star[0] == 'o' and (
                    own or (p.obj(star)[3] is not None and has(p.obj(star)[3], E(res, 1)))))
                ctx.judge('success-envelope', f'{name}: reply payload', True if same else None,
                          'payload provenance not recognised')
            v = created_value(p, e, 'vtn_id')
            ctx.judge('success-envelope', f'{name}: vtnID', v == A(SELF, 'vtn_id'),
                      f'the reply carries vtnID {show(v) if v else None} instead of the own id', e.loc, p)
            r = created_value(p, e, 'response')
            code = value(p, r, 'response_code') if r is not None else None
            rid = value(p, r, 'request_id') if r is not None else None
            ctx.judge('success-envelope', f'{name}: response code', code == C(200),
                      f'a handled message is answered with code {show(code) if code else None}', e.loc, p)
            okid = rid == I(payload, 'request_id') or (rid == C(None) and absent(p.facts, payload, 'request_id'))
            ctx.judge('success-envelope', f'{name}: request_id', okid,
                      f'the reply echoes request_id {show(rid) if rid else None}, not that of the request', e.loc, p)
            ven = created_value(p, e, 'ven_id')
            ok = ven is not None and (ven == I(payload, 'ven_id') or (not none and has(ven, E(res, 1)))
                                      or (ven == C(None) and absent(p.facts, payload, 'ven_id')))
            if ok and not none and ven == I(payload, 'ven_id'):
                for x in p.trace:
                    if x.kind == 'setitem' and x.args[1] == C('ven_id') and x.args[2] == ven and star == x.args[0]:
                        ok = absent(x.facts, x.args[0], 'ven_id')
            ctx.judge('success-envelope', f'{name}: venID', ok,
                      f'the reply carries venID {show(ven) if ven else None}', e.loc, p)
        ctx.judge('success-envelope', f'{c.name}: paths', True if n else None, 'no handled path', detail=f'{n} paths')
        ctx.judge('unknown-type', f'{c.name}: paths', True if u else None, 'no unknown-type path', detail=f'{u} paths')


CHECKS = {'C01': C01, 'C02': C02, 'C03': C03, 'C06': C06, 'C07': C07}
