"""Signatures: pinned replies, replay protection, signing of what is sent, TLS settings."""
from ..interp import P, A, I, E, C, show, subterms
from ..q import arg, has, has_call, truthy, notnone, equal, eqs
from ..lin import lin, add, upper, NOW
from . import gate
from .gate import VALIDATE, PARSE, VERIFY, CERTFP, EXTRACT, SELF, client_request_paths

PARSEDT = 'openleadr.utils.parse_datetime'
CREATE = 'openleadr.messaging.create_message'
PREFLIGHT = 'openleadr.preflight.preflight_message'
FLATTEN = 'openleadr.utils.flatten_xml'
CLIENT = 'openleadr.client.OpenADRClient'


def through(t, *names):
    """Strip wrapping conversions."""
    while t is not None and t[0] == 'call' and t[1] in names and t[2]:
        t = t[2][0]
    return t


def verify_paths(ctx):
    f = ctx.repo.need_func(VERIFY)
    ps = ctx.run(f, None, opaque={CERTFP, EXTRACT, PARSEDT})
    return f, ps


def is_xmlverify(e):
    return e.kind == 'call' and e.name == '.verify' and e.args and (
        (e.args[0][0] == 'glob' and 'VERIF' in e.args[0][2]) or has_call(e.args[0], 'signxml.XMLVerifier')
        or 'XMLVerifier' in show(e.args[0]))


def C04(ctx):
    ctx.rule('reply-verified', 'every path on which a request returns a message while a VTN fingerprint is pinned '
             'passed, normally, a signature validation of the tree of this very reply against the pinned fingerprint')
    ctx.rule('reply-dropped', 'a reply whose validation raises is returned as no message')
    ctx.rule('signature-check', 'validate_xml_signature returns normally only after the XML signature of its tree '
             'verified with the certificate found in it, whose fingerprint equals the expected one if one is given')
    ctx.assumptions.append('signxml XMLVerifier.verify raises when the signature or digest does not match')
    cls = ctx.repo.need_class(CLIENT)
    f = ctx.repo.need_method(cls.qual, '_perform_request')
    ps = client_request_paths(ctx, cls, f)
    n = d = 0
    for p in ps or ():
        fails = [e for e in p.trace if e.kind == 'callx' and e.name in (VERIFY, VALIDATE)]
        v = p.value
        none = p.kind == 'return' and v[0] == 't' and v[1] and v[1][0] == C(None)
        if fails:
            d += 1
            ctx.judge('reply-dropped', f'{cls.name}._perform_request: {fails[0].name.split(".")[-1]} fails',
                      none if p.kind == 'return' else None,
                      'a reply that failed validation is still returned to the client', fails[0].loc, p)
        if p.kind != 'return' or none:
            continue
        if truthy(p.facts, A(SELF, 'vtn_fingerprint')) is False or p.facts.get(('isnone', A(SELF, 'vtn_fingerprint'))):
            continue
        n += 1
        content, tree, _, _ = gate.message_terms(p)
        ok = any(e.kind == 'call' and e.name == VERIFY and arg(e, 0, 'xml_tree') == tree and tree is not None
                 and arg(e, 1, 'cert_fingerprint') == A(SELF, 'vtn_fingerprint') for e in p.trace)
        if ok is False and any(e.kind == 'call' and e.name == VERIFY and arg(e, 0, 'xml_tree') == tree for e in p.trace):
            # the fingerprint may be compared here instead of inside the verification
            ok = any((a == A(SELF, 'vtn_fingerprint') and has_call(b, CERTFP)) or
                     (b == A(SELF, 'vtn_fingerprint') and has_call(a, CERTFP)) for a, b in eqs(p.facts))
        ctx.judge('reply-verified', f'{cls.name}._perform_request: reply returned', ok,
                  'with a pinned VTN fingerprint a reply is returned to the client although its signature was not '
                  'verified against that fingerprint', None, p)
    if ps is not None:
        ctx.judge('reply-verified', 'paths', True if n else None, 'no returning path seen', detail=f'{n} paths')
        ctx.judge('reply-dropped', 'paths', True if d else None, 'no failing path seen', detail=f'{d} paths')
        # the pinned fingerprint is the configured one
    for p in ctor_paths(ctx) or ():
        ctx.judge('reply-verified', f'{cls.name}.__init__: vtn_fingerprint stored',
                  stored(p, SELF, 'vtn_fingerprint') == P('vtn_fingerprint'),
                  'the fingerprint given to the client is not the one replies are checked against', None, p)
    f, ps = verify_paths(ctx)
    signature_check(ctx, f, ps)


def signature_check(ctx, f, ps):
    tree, fp = (P(a.arg) for a in f.node.args.args[:2])
    for p in ps or ():
        if p.kind != 'return':
            continue
        name = 'validate_xml_signature'
        vs = [e for e in p.trace if is_xmlverify(e)]
        certs = [arg(e, None, 'x509_cert') for e in vs if arg(e, 1, 'data') == tree]
        ok = any(c is None or has_call(c, EXTRACT) or c[0] == 'p' for c in certs)
        ctx.judge('signature-check', f'{name}: XML signature', ok,
                  'validate_xml_signature returns normally without the signature of the tree having been verified',
                  (f.file, f.qual, f.node.lineno), p)
        if truthy(p.facts, fp) is False or p.facts.get(('isnone', fp)):
            continue
        ok = any((a == fp and b[0] == 'call' and b[1] == CERTFP and has(b, tree)) or
                 (b == fp and a[0] == 'call' and a[1] == CERTFP and has(a, tree)) for a, b in eqs(p.facts))
        ctx.judge('signature-check', f'{name}: fingerprint', ok,
                  'validate_xml_signature accepts a certificate whose fingerprint was not found equal to the expected one',
                  (f.file, f.qual, f.node.lineno), p)


def stored(p, obj, name):
    v = None
    for e in p.trace:
        if e.kind == 'setattr' and e.name == name and e.args[0] == obj:
            v = e.args[1]
    if v is None:
        v = p.state.store.get((obj, 'a', name))
    return v


def ctor_paths(ctx, **kw):
    cls = ctx.repo.need_class(CLIENT)
    f = ctx.repo.need_method(cls.qual, '__init__')
    return ctx.run(f, SELF, self_cls=cls, opaque={CERTFP}, **kw)


# ---------------------------------------------------------------------------- C05

def C05(ctx):
    ctx.rule('fresh', 'every normal return of the signature validation has established that a nonce was present and '
             'that the timestamp found in this tree is not older than the replay window (a linear form over now and '
             'the timestamp bounded by a constant)')
    ctx.rule('once', 'the (timestamp, nonce) pair was tested against the remembered pairs before it was added, and was not there')
    ctx.rule('remembered', 'the pair is added on every accepting path, and a remembered pair is only dropped under a '
             'fact that makes its timestamp older than the acceptance window')
    f, ps = verify_paths(ctx)
    tree = P(f.node.args.args[0].arg)
    name = 'validate_xml_signature'
    n = 0
    for p in ps or ():
        if p.kind != 'return':
            continue
        n += 1
        loc = (f.file, f.qual, f.node.lineno)
        ts = [e.res for e in p.trace if e.kind == 'call' and e.name == PARSEDT and 'timestamp' in show(e.args[0], 12)
              and has(e.args[0], tree)]
        if not ts:
            ctx.judge('fresh', f'{name}: timestamp', False, 'a message is accepted without looking at its timestamp', loc, p)
            continue
        ts = ts[0]
        u = upper(p.facts, {NOW: 1, ts: -1})
        ctx.judge('fresh', f'{name}: timestamp', u is not None and 0 < u[0] <= 60,
                  'a message is accepted although its timestamp was not found to be within the replay window'
                  if u is None else f'the replay window is {u[0]} seconds', loc, p)
        adds = [e for e in p.trace if e.kind == 'mut' and e.name in ('add', 'append') and pair(e.args[1], ts)]
        if not adds:
            # dict style: cache[(ts, nonce)] = ...
            adds = [e for e in p.trace if e.kind == 'setitem' and pair(e.args[1], ts)]
        other = any(e.kind in ('mut', 'setitem', 'setglobal') and any(has(x, ts) for x in e.args) for e in p.trace)
        ctx.judge('remembered', f'{name}: pair recorded', True if adds else (None if other else False),
                  'an accepted (timestamp, nonce) pair is not remembered', loc, p)
        if not adds:
            continue
        e = adds[0]
        pr = e.args[1]
        cache = e.args[0]
        nonce = pair(pr, ts)
        ctx.judge('fresh', f'{name}: nonce', notnone(p.facts, nonce),
                  'a message without nonce is accepted', loc, p)
        seen = e.facts.get(('in', pr, cache))
        ctx.judge('once', f'{name}: pair not used before', True if seen is False else (None if other_test(e.facts, cache, nonce) else False),
                  'a message is accepted although its (timestamp, nonce) pair was not found to be new', e.loc, p)
        idx = p.trace.index(e)
        for x in p.trace:
            if x.kind == 'mut' and x.args and x.args[0] == cache:
                if x.name in ('remove', 'discard', 'pop') and len(x.args) > 1:
                    old = x.args[1]
                    t0 = ts_of(old)
                    if x is e:
                        continue
                    if old == pr:
                        ctx.violation('remembered', f'{name}: eviction', 'the accepted pair is forgotten at once', x.loc, p)
                        continue
                    if old[0] == 't' and len(old[1]) == 2 and all(y[0] == 'item' and y[2][0] == 'c' or y[0] == 'elem' for y in old[1]) \
                            and old[1][0][1] == old[1][1][1] and [y[2][1] if y[0] == 'item' else y[2] for y in old[1]] not in ([0, 1], [0, -1]):
                        ctx.violation('remembered', f'{name}: eviction of a pair', 'what is dropped is not a remembered pair: the validation of a good message fails with KeyError', x.loc, p)
                        continue
                    d = None
                    for form in ([{NOW: -1, t0: 1}] if t0 is not None else []):
                        d = upper(x.facts, form)       # t0 - now <= -d_ev
                    acc = u[0] if u else None
                    ok = d is not None and acc is not None and -d[0] >= acc - 1e-9
                    ctx.judge('remembered', f'{name}: eviction', ok,
                              'a remembered pair is dropped while its timestamp would still be accepted', x.loc, p)
                elif x.name in ('clear', 'pop', 'popitem', 'popleft', 'intersection_update', 'difference_update'):
                    ctx.judge('remembered', f'{name}: eviction', False if x.name in ('clear', 'pop', 'popitem', 'popleft') else None,
                              'remembered pairs are dropped regardless of their age', x.loc, p)
            if x.kind == 'itermut' and x.args and x.args[0] == cache:
                ctx.violation('remembered', f'{name}: cache changed while iterated',
                              'the remembered pairs are changed while being iterated over, which aborts the validation '
                              'with RuntimeError', x.loc, p)
            if x.kind in ('setglobal', 'setglob') and cache[0] == 'glob' and x.name == cache[2]:
                ctx.undecided('remembered', f'{name}: cache replaced')
    if ps is not None:
        ctx.judge('once', f'{name}: new pairs accepted', bool(n), 'every signed message is refused as already used or invalid',
                  (f.file, f.qual, f.node.lineno), ps[0] if ps else None)
    # who else touches the cache
    import ast
    cache_name = None
    for p in ps or ():
        for e in p.trace:
            if e.kind == 'mut' and e.name == 'add' and e.args[0][0] == 'glob':
                cache_name = e.args[0][2]
    inside = set()
    for r in ps or ():
        inside |= {e.loc[1] for e in r.trace}
    if cache_name:
        for fn in ctx.repo.funcs.values():
            if fn.qual in inside:
                continue
            for nd in ast.walk(fn.node):
                if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and isinstance(nd.func.value, ast.Name) \
                        and nd.func.value.id == cache_name and nd.func.attr in ('clear', 'remove', 'discard', 'pop'):
                    ctx.violation('remembered', f'{fn.qual}: cache', 'another function drops remembered pairs',
                                  (fn.file, fn.qual, nd.lineno))


def pair(t, ts):
    """The nonce when t is a pair made of ts and a nonce."""
    if t[0] == 't' and len(t[1]) >= 2 and ts in t[1]:
        o = [x for x in t[1] if x != ts]
        return o[0] if o else None
    return None


def ts_of(t):
    """Timestamp of a remembered pair (the element of the cache that is dropped)."""
    if t[0] == 't' and t[1]:
        return t[1][0]
    return ('elem', t, 0) if t[0] in ('elem', 'idx') else None


def other_test(facts, cache, nonce):
    """A comparison of the nonce with remembered pairs in a form the rule does not understand."""
    return any(a[0] in ('eq', 'truth', 'in') and any(
        has(t, cache) for t in a[1:] if isinstance(t, tuple) and t and isinstance(t[0], str)) and
        any(has(t, nonce) for t in a[1:] if isinstance(t, tuple) and t and isinstance(t[0], str))
        and not (a[0] == 'in' and a[2] == cache) for a in facts)


# ---------------------------------------------------------------------------- C25

def C25(ctx):
    ctx.rule('signed', 'create_message with certificate and key (and signing not disabled) signs the rendered payload '
             'with exactly these and puts the signature and that same payload in the envelope it returns')
    ctx.rule('replay-protect', 'the signature covers a ReplayProtect element carrying the current UTC time and a fresh nonce')
    ctx.rule('wiring', 'every service of the server, and the client, create their messages with the certificate, key '
             'and passphrase they were configured with')
    ctx.rule('only-created', 'what is sent is only ever the text of a message made by this instance\'s message factory')
    f = ctx.repo.need_func(CREATE)
    ps = ctx.run(f, None, opaque={PREFLIGHT, FLATTEN})
    n = m = 0
    for p in ps or ():
        if p.kind != 'return':
            continue
        loc = (f.file, f.qual, f.node.lineno)
        rend = [e for e in p.trace if e.kind == 'call' and e.name == '.render']
        body = [e for e in rend if not has_call(e.args[0], '.get_template') or 'oadrPayload.xml' not in show(e.args[0], 9)]
        env = [e for e in rend if e.res == p.value]
        if not env or not body:
            ctx.undecided('signed', 'create_message: envelope', 'rendering not recognised')
            continue
        env = env[-1]
        so = arg(env, None, 'signed_object')
        pay = body[0].res
        ctx.judge('signed', 'create_message: payload in the envelope', so is not None and has(so, pay),
                  'the envelope does not carry the rendered message', env.loc, p)
        tpl = body[0].args[0]
        ok = has(tpl, P('message_type'))
        ctx.judge('signed', 'create_message: template of the message type', ok,
                  'the message is not rendered from the template of its type', body[0].loc, p)
        sig = arg(env, None, 'signature')
        on = truthy(p.facts, P('cert')) is not False and truthy(p.facts, P('key')) is not False \
            and not p.facts.get(('isnone', P('cert'))) and not p.facts.get(('isnone', P('key'))) \
            and truthy(p.facts, P('disable_signature')) is not True
        if not on:
            m += 1
            ctx.judge('signed', 'create_message: unsigned message', sig in (C(None), None) or None,
                      'signature without signing')
            continue
        n += 1
        signs = [e for e in p.trace if e.kind == 'call' and e.name == '.sign']
        s = [e for e in signs if sig is not None and has(sig, e.res)]
        if not s:
            ctx.violation('signed', 'create_message: signature', 'a message that must be signed is created without '
                          'its signature', env.loc, p)
            continue
        s = s[-1]
        ctx.judge('signed', 'create_message: key', arg(s, 2, 'key') == P('key') and arg(s, None, 'cert') == P('cert'),
                  'the message is signed with something other than the given key and certificate', s.loc, p)
        pw = through(arg(s, None, 'passphrase') or C(None), 'ensure_bytes', 'openleadr.utils.ensure_bytes', '.encode')
        ctx.judge('signed', 'create_message: passphrase', pw == P('passphrase') or
                  (pw == C(None) and not truthy(p.facts, P('passphrase'))),
                  'the passphrase of the key is not used', s.loc, p)
        t = arg(s, 1, 'data')
        same = t is not None and so is not None and has(t, so)
        ctx.judge('signed', 'create_message: signed content', same,
                  'the signature is made over something other than the payload that is sent', s.loc, p)
        rp = arg(s, None, 'signature_properties')
        kids = [e for e in p.trace if rp is not None and e.kind == 'mut' and e.name in ('append', 'extend', 'insert')
                and e.args and e.args[0] == rp]
        sub = [x for k in kids for x in subterms(k.args[-1])]
        texts = {}
        for e in p.trace:
            if e.kind == 'setattr' and e.name == 'text':
                texts[e.args[0]] = e.args[1]
        tags = {}
        for x in sub:
            if x[0] == 'call' and x[1].endswith('Element'):
                for a in x[2]:
                    if a[0] == 'c' and isinstance(a[1], str):
                        tags[a[1].split('}')[-1]] = texts.get(x)
        ok = tags.get('timestamp') is not None and tags.get('nonce') is not None
        ctx.judge('replay-protect', 'create_message: timestamp and nonce', ok,
                  'a signed message has no timestamp or nonce in its ReplayProtect element', s.loc, p)
        if ok:
            ctx.judge('replay-protect', 'create_message: current time', has_call(tags['timestamp'], 'datetime.datetime.now'),
                      'the ReplayProtect timestamp is not the current time', s.loc, p)
            for x in subterms(tags['timestamp']):
                if x[0] == 'call' and x[1] == '.strftime' and x[2]:
                    d = x[2][0]
                    local = d[0] == 'call' and d[1] == 'datetime.datetime.now' and (not d[2] or d[2][0] == C(None)) and not d[3]
                    ctx.judge('replay-protect', 'create_message: UTC', False if local else True, 'the ReplayProtect timestamp is the local time, written as if it were UTC', s.loc, p)
            for x in subterms(tags['nonce']):
                if x[0] in ('item', 'slice') and any(y[0] == 'call' and y[1].startswith(('uuid.', 'secrets.', 'os.urandom')) for y in subterms(x[1])):
                    ns = [y[1] for z in x[2:] if isinstance(z, tuple) for y in subterms(z) if y[0] == 'c' and isinstance(y[1], int)]
                    ctx.judge('replay-protect', 'create_message: whole nonce', False if ns and max(map(abs, ns)) < 16 else None, 'the nonce is a short piece of a random number, so that nonces repeat', s.loc, p)
            fresh = any(x[0] == 'call' and (x[1].startswith('uuid.uuid4') or x[1].startswith('secrets.') or
                                            x[1].startswith('os.urandom') or x[1].endswith('generate_id'))
                        for x in subterms(tags['nonce']))
            ctx.judge('replay-protect', 'create_message: nonce', True if fresh else
                      (False if tags['nonce'][0] in ('c', 'glob') or
                       tags['nonce'][0] == 'attr' and tags['nonce'][1][0] == 'glob' else None), 'the nonce is not fresh', s.loc, p)
    if ps is not None:
        ctx.judge('signed', 'create_message: paths', True if n and m else None, 'no signed path', detail=f'{n} signed, {m} unsigned')
    server_wiring(ctx)
    client_wiring(ctx)
    only_created(ctx)


def server_paths(ctx, **kw):
    cls = ctx.repo.need_class('openleadr.server.OpenADRServer')
    f = ctx.repo.need_method(cls.qual, '__init__')
    return ctx.run(f, SELF, self_cls=cls, opaque={CERTFP, 'openleadr.utils.certificate_domain'}, **kw)


def from_file(p, t, src, facts):
    """t is the content of the file named by src, or src itself on paths without signing."""
    if t is None:
        return False
    if t[0] == 'call' and t[1] == '.read' and t[2]:
        return has(t[2][0], src)
    return False


def partial_kw(p, t):
    """(target, kw dict) of a partial(create_message, ...) value."""
    if t[0] == 'partial':
        return t[1], dict(t[3])
    return None, {}


def server_wiring(ctx):
    ps = server_paths(ctx)
    n = 0
    for p in ps or ():
        if p.kind != 'return':
            continue
        f = p.facts
        sign = truthy(f, P('cert')) is not False and truthy(f, P('key')) is not False
        svc = services_made(ctx, p)
        if not svc:
            ctx.undecided('wiring', 'OpenADRServer.__init__', 'services not recognised')
            return
        for s in svc:
            n += 1
            cname = svc[s]
            v = stored(p, s, '_create_message')
            if v is None:
                ctx.violation('wiring', f'OpenADRServer: {cname}', 'the service has no message factory of its own', None, p)
                continue
            tgt, kw = partial_kw(p, v)
            if tgt is None:
                ctx.undecided('wiring', f'OpenADRServer: {cname}', show(v))
                continue
            ctx.judge('wiring', f'OpenADRServer: {cname}: factory', 'create_message' in show(tgt) or None, 'factory not recognised')
            if not sign:
                continue
            ctx.judge('wiring', f'OpenADRServer: {cname}: certificate', from_file(p, kw.get('cert'), P('cert'), f),
                      f'{cname} does not sign with the configured certificate', None, p)
            ctx.judge('wiring', f'OpenADRServer: {cname}: key', from_file(p, kw.get('key'), P('key'), f),
                      f'{cname} does not sign with the configured key', None, p)
            ctx.judge('wiring', f'OpenADRServer: {cname}: passphrase', kw.get('passphrase') == P('passphrase'),
                      f'{cname} does not use the configured passphrase', None, p)
            ctx.judge('wiring', f'OpenADRServer: {cname}: signing on',
                      kw.get('disable_signature') in (None, C(False)), f'{cname} does not sign', None, p)
    if ps is not None:
        ctx.judge('wiring', 'OpenADRServer: services', True if n else None, 'none seen', detail=f'{n} service/path pairs')


def services_made(ctx, p):
    """term -> class name of every VTN service object created on this path."""
    out = {}
    for e in p.trace:
        c = ctx.repo.classes.get(e.name) if e.kind == 'call' else None
        if c is None and e.kind == 'new' and e.res and e.res[0] == 'o' and p.obj(e.res) and p.obj(e.res)[0] == 'inst':
            c = ctx.repo.classes.get(p.obj(e.res)[1])
        if c is not None and any(k.name == 'VTNService' for k in ctx.repo.mro(c)):
            out[e.res] = c.name
    return out


def client_wiring(ctx):
    n = 0
    for p in ctor_paths(ctx) or ():
        if p.kind != 'return':
            continue
        v = stored(p, SELF, '_create_message')
        if v is None:
            ctx.violation('wiring', 'OpenADRClient', 'the client has no message factory', None, p)
            continue
        tgt, kw = partial_kw(p, v)
        if tgt is None:
            ctx.undecided('wiring', 'OpenADRClient', show(v))
            continue
        n += 1
        f = p.facts
        dis = kw.get('disable_signature')
        ctx.judge('wiring', 'OpenADRClient: signing switch', dis in (None, C(False), P('disable_signature')),
                  'the client does not sign although signing was not disabled', None, p)
        if truthy(f, P('cert')) is False or truthy(f, P('key')) is False or (
                f.get(('isnone', P('cert'))) or f.get(('isnone', P('key')))):
            continue
        ctx.judge('wiring', 'OpenADRClient: certificate', from_file(p, kw.get('cert'), P('cert'), f),
                  'the client does not sign with the configured certificate', None, p)
        ctx.judge('wiring', 'OpenADRClient: key', from_file(p, kw.get('key'), P('key'), f),
                  'the client does not sign with the configured key', None, p)
        ctx.judge('wiring', 'OpenADRClient: passphrase', kw.get('passphrase') == P('passphrase'),
                  'the client does not use the configured passphrase', None, p)
    ctx.judge('wiring', 'OpenADRClient: paths', True if n else None, 'none seen')


def only_created(ctx):
    """Everything sent with _perform_request, and every XML web response, comes from the factory."""
    import ast
    cls = ctx.repo.need_class(CLIENT)
    n = 0
    for name, f in cls.methods.items():
        if not any(isinstance(x, ast.Attribute) and x.attr == '_perform_request' for x in ast.walk(f.node)):
            continue
        ps = ctx.run(f, SELF, self_cls=cls, opaque={f'{CLIENT}._perform_request'} |
                     {f'{CLIENT}.{m}' for m in cls.methods if m not in (name,) and not m.startswith('_create')} |
                     {q for q in ctx.repo.funcs if q.startswith('openleadr.utils.')},
                     usercb=lambda k, nm: nm.startswith('on_'), max_states=60000, max_seconds=30, max_depth=4)
        if ps is None:
            continue
        for p in ps:
            for e in p.trace:
                if e.kind == 'call' and e.name.endswith('._perform_request') and e.args and len(e.args) >= 2:
                    n += 1
                    msg = arg(e, 2, 'message') if e.args[0] == SELF else arg(e, 1, 'message')
                    ok = msg is not None and any(x[0] == 'call' and x[1].endswith('_create_message') for x in [msg])
                    ctx.judge('only-created', f'OpenADRClient.{name}: sent message', True if ok else
                              (False if msg is not None and msg[0] in ('c', 'fstr') else None),
                              'a text that was not made by the message factory is sent', e.loc, p)
    ctx.judge('only-created', 'OpenADRClient: sends', True if n else None, 'none seen', detail=f'{n} sends')


def kept_as(p, t):
    """Names of the attributes of self that hold t at the end of a path."""
    names = {e.name for e in p.trace if e.kind == 'setattr' and e.args[0] == SELF}
    names |= {k[2] for k in p.state.store if k[0] == SELF and k[1] == 'a'}
    return sorted(x for x in names if stored(p, SELF, x) == t)


def own_attr(t, default):
    """x of self.x"""
    return t[2] if t is not None and t[0] == 'attr' and t[1] == SELF else default


def configured(ctx, rule, construct, paths, t, param, what, loc, p, only=None):
    """t, read by a method of the object, is what its constructor was given as `param`."""
    if t is None or t[0] == 'c':
        ctx.judge(rule, construct, False, what, loc, p)
        return
    x = own_attr(t, None)
    if x is None:
        ctx.judge(rule, construct, None, what, loc, p)
        return
    for q in paths:
        if q.kind != 'return':
            continue
        v = stored(q, SELF, x)
        ok = v == P(param)
        if not ok and (v is None or v[0] not in ('c', 'p')):
            ok = None
        if ok is False and v[0] == 'c' and (truthy(q.facts, P(param)) is False or q.facts.get(('isnone', P(param))) is True):
            ok = True                                  # a default for a value that was not given
        ctx.judge(rule, construct, ok, what + f' (self.{x} is {show(v) if v else None})', loc, q)


def TLS(ctx):
    ctx.rule('tls-required', 'a server given certificate, key and CA file serves with an SSL context that loads that '
             'chain and CA and requires client certificates; the site is started with it')
    ps = server_paths(ctx) or ()
    n = m = 0
    cls = ctx.repo.need_class('openleadr.server.OpenADRServer')
    f = ctx.repo.need_method(cls.qual, 'run')
    names = set()
    for p in ctx.run(f, SELF, self_cls=cls) or ():
        for e in p.trace:
            if e.kind == 'call' and e.name.endswith('TCPSite'):
                m += 1
                sc = arg(e, None, 'ssl_context')
                names.add(own_attr(sc, None))
                ctx.judge('tls-required', 'OpenADRServer.run: site', False if sc in (None, C(None)) else True if own_attr(sc, None) else None,
                          'the server is started without its TLS context', e.loc, p)
                configured(ctx, 'tls-required', 'OpenADRServer.run: port', ps, arg(e, 2, 'port'), 'http_port', 'the server does not listen on the configured port', e.loc, p)
                configured(ctx, 'tls-required', 'OpenADRServer.run: host', ps, arg(e, 1, 'host'), 'http_host', 'the server does not listen on the configured host', e.loc, p)
    name = next(iter(names - {None}), 'ssl_context')
    for p in ps or ():
        if p.kind != 'return':
            continue
        f = p.facts
        on = all(truthy(f, P(x)) is not False and not f.get(('isnone', P(x))) for x in ('http_cert', 'http_key', 'http_ca_file'))
        v = stored(p, SELF, name)
        if not on:
            continue
        n += 1
        if v is None or v == C(None):
            ctx.violation('tls-required', 'OpenADRServer: TLS context',
                          'a server configured with http_cert, http_key and http_ca_file is served without TLS', None, p)
            continue
        mode = p.state.store.get((v, 'a', 'verify_mode'))
        for e in p.trace:
            if e.kind == 'setattr' and e.name == 'verify_mode' and e.args[0] == v:
                mode = e.args[1]
        ctx.judge('tls-required', 'OpenADRServer: client certificate required',
                  mode is not None and mode[0] == 'ext' and mode[1].endswith('CERT_REQUIRED'),
                  f'client certificates are not required (verify_mode {show(mode) if mode else "unset"})', None, p)
        ca = [e for e in p.trace if e.kind == 'call' and e.name == '.load_verify_locations' and e.args[0] == v]
        ctx.judge('tls-required', 'OpenADRServer: CA', any(P('http_ca_file') in list(e.args) + [x for _, x in e.kw] for e in ca),
                  'client certificates are not checked against the configured CA', None, p)
        for e in p.trace:
            if e.kind == 'call' and e.args and e.args[0] == v and e.name in ('.load_default_certs', '.set_default_verify_paths'):
                ctx.violation('tls-required', 'OpenADRServer: no other CA', 'certificates of every CA of the system are accepted too', e.loc, p)
        ctx.judge('tls-required', 'OpenADRServer: no other CA', True if all(P('http_ca_file') in list(e.args) + [x for _, x in e.kw] for e in ca) else None,
                  'client certificates are also checked against another CA', ca[0].loc if ca else None, p)
        ch = [e for e in p.trace if e.kind == 'call' and e.name == '.load_cert_chain' and e.args[0] == v]
        ctx.judge('tls-required', 'OpenADRServer: certificate chain',
                  any(arg(e, 1, 'certfile') == P('http_cert') and arg(e, 2, 'keyfile') == P('http_key')
                      and arg(e, 3, 'password') == P('http_key_passphrase') for e in ch),
                  'the configured server certificate, key and passphrase are not loaded', None, p)
    ctx.judge('tls-required', 'OpenADRServer: paths', True if n and m else None, 'no TLS path seen')
    client_tls(ctx)


def client_tls(ctx):
    ctx.rule('tls-client', 'a VEN given a certificate opens its session with an SSL context that loads this certificate '
             'and key, trusts the configured CA file and verifies the peer')
    cls = ctx.repo.need_class(CLIENT)
    f = ctx.repo.need_method(cls.qual, '_ensure_client_session')
    made = [p for p in ctor_paths(ctx) or () if p.kind == 'return']
    n = 0
    for p in ctx.run(f, SELF, self_cls=cls) or ():
        sess = [e for e in p.trace if e.kind == 'call' and e.name.endswith('ClientSession')]
        fa = p.facts
        if not sess:
            continue
        e = sess[-1]
        # the attribute that keeps the certificate path, whatever it is called
        kept = [x for q in made[:1] for x in kept_as(q, P('cert'))]
        if any(truthy(fa, A(SELF, x)) is False or fa.get(('isnone', A(SELF, x))) for x in kept) or not kept:
            continue
        n += 1
        con = arg(e, None, 'connector')
        sc = None
        if con is not None and con[0] == 'call':
            sc = dict(con[3]).get('ssl') or dict(con[3]).get('ssl_context')
        ctx.judge('tls-client', 'OpenADRClient: TLS context used', sc is not None and sc not in (C(None), C(False)),
                  'a VEN with a certificate connects without its TLS context', e.loc, p)
        if sc is None:
            continue
        chain = [x for x in p.trace if x.kind == 'call' and x.name == '.load_cert_chain' and x.args[0] == sc]
        ctx.judge('tls-client', 'OpenADRClient: certificate presented', bool(chain), 'the VEN does not present its configured certificate', e.loc, p)
        for x in chain:
            for i, kw, par in ((1, 'certfile', 'cert'), (2, 'keyfile', 'key'), (3, 'password', 'passphrase')):
                configured(ctx, 'tls-client', f'OpenADRClient: {par} presented', made, arg(x, i, kw), par, f'the VEN does not use its configured {par}', x.loc, p)
        ca = [x for x in p.trace if x.kind == 'call' and x.name == '.load_verify_locations' and x.args[0] == sc]
        cas = [A(SELF, x) for q in made[:1] for x in kept_as(q, P('ca_file'))]
        made_with_ca = sc[0] == 'call' and any(v in cas for _, v in sc[3])
        ctx.judge('tls-client', 'OpenADRClient: CA', made_with_ca or any(
            v in cas for x in ca for v in list(x.args) + [v for _, v in x.kw]),
            'the VEN does not check the VTN against the configured CA', e.loc, p)
        for x in p.trace:
            if x.kind == 'setattr' and x.args[0] == sc and x.name == 'verify_mode':
                ctx.judge('tls-client', 'OpenADRClient: VTN verified', show(x.args[1]).find('CERT_REQUIRED') >= 0,
                          'the VEN does not verify the certificate of the VTN', x.loc, p)
            if x.kind == 'setattr' and x.args[0] == sc and x.name == 'check_hostname':
                if x.args[1] != C(True):
                    configured(ctx, 'tls-client', 'OpenADRClient: host name check', made, x.args[1], 'check_hostname', 'the host name check is not what was configured', x.loc, p)
        if sc[0] == 'call' and sc[1] == 'ssl.SSLContext':
            k = show(sc[2][0]) if sc[2] else ''
            req = any(x.kind == 'setattr' and x.args[0] == sc and x.name == 'verify_mode' for x in p.trace)
            ctx.judge('tls-client', 'OpenADRClient: context kind', 'PROTOCOL_TLS_CLIENT' in k or req,
                      'the TLS context of the VEN does not verify the VTN', e.loc, p)
    ctx.judge('tls-client', 'OpenADRClient: paths', True if n else None, 'no TLS path seen')


CHECKS = {'C04': C04, 'C05': C05, 'C25': C25, 'C48': TLS}
