"""C50: one certificate has one fingerprint, wherever the library computes it."""
import re

from ..interp import P, C, DIGESTS, subterms
from ..q import truthy

MOD = 'openleadr.utils'
FP = f'{MOD}.certificate_fingerprint'
HEAD, FOOT = '-----BEGIN CERTIFICATE-----', '-----END CERTIFICATE-----'


def text(t):
    """A term as a list of characters ('ch', c), hexadecimal digits of a digest ('nib', source, position, 'l' or 'u') and bytes of a digest
    ('byte', source, position); None when it cannot be followed."""
    k = t[0]
    if k == 'c':
        return [('ch', x) for x in t[1]] if isinstance(t[1], str) else [('ch', chr(x)) for x in t[1]] if isinstance(t[1], bytes) else None
    if k == 'fstr':
        out = []
        for x in t[1]:
            v = text(x)
            if v is None or any(a[0] == 'byte' for a in v):
                return None
            out += v
        return out
    if k == 'bin' and t[1] == '+':
        a, b = text(t[2]), text(t[3])
        return None if a is None or b is None else a + b
    if k == 'bin' and t[1] == '%' and t[2][0] == 'c':
        args = t[3][1] if t[3][0] == 't' else (t[3],)
        return spec(re.fullmatch(r'%(02[xX])', str(t[2][1])), args[0]) if len(args) == 1 else None
    if k == 'slice':
        v = text(t[1])
        if v is None or any(x[0] != 'c' for x in t[2]):
            return None
        return v[slice(*(x[1] for x in t[2]))]
    if k == 'item' and t[2][0] == 'c' and isinstance(t[2][1], int):
        v = text(t[1])
        return None if v is None or not -len(v) <= t[2][1] < len(v) else [v[t[2][1]]]
    if k != 'call':
        return None
    name, args = t[1], t[2]
    if name in ('.digest', '.hexdigest') and len(args) == 1 and args[0][0] == 'call' and args[0][1].startswith('hashlib.') and len(args[0][2]) == 1:
        n = DIGESTS.get(args[0][1].split('.')[1])
        src = (args[0][1].split('.')[1], args[0][2][0])
        if n is None:
            return None
        return [('byte', src, i) for i in range(n)] if name == '.digest' else [('nib', src, i, 'l') for i in range(2 * n)]
    if name in ('.hex', 'binascii.hexlify', 'binascii.b2a_hex') and args:
        v = text(args[0])
        if v is None or any(a[0] != 'byte' for a in v) or len(args) > 2:
            return None
        sep = text(args[1]) if len(args) == 2 else []
        if sep is None or len(sep) > 1:
            return None
        out = []
        for i, a in enumerate(v):
            out += (sep if i else []) + [('nib', a[1], 2 * a[2], 'l'), ('nib', a[1], 2 * a[2] + 1, 'l')]
        return out
    if name in ('.upper', '.lower') and len(args) == 1:
        v = text(args[0])
        if v is None or any(a[0] == 'byte' for a in v):
            return None
        return [('ch', getattr(a[1], name[1:])()) if a[0] == 'ch' else a[:3] + (name[1],) for a in v]
    if name in ('.decode', 'str', 'bytes', 'bytearray') and args:
        v = text(args[0])
        return None if v is None or name in ('.decode', 'str') and any(a[0] == 'byte' for a in v) else v
    if name == 'format' and len(args) >= 2 and args[-1][0] == 'c':
        return spec(re.fullmatch(r"""f?['"]?(02[xX])['"]?""", str(args[-1][1])), args[0])
    if name == '.format' and len(args) == 2 and args[0][0] == 'c':
        return spec(re.fullmatch(r'\{0?:(02[xX])\}', str(args[0][1])), args[1])
    return None


def spec(m, arg):
    v = text(arg)
    if m is None or v is None or len(v) != 1 or v[0][0] != 'byte':
        return None
    c = 'u' if m[1] == '02X' else 'l'
    return [('nib', v[0][1], 2 * v[0][2], c), ('nib', v[0][1], 2 * v[0][2] + 1, c)]


def wanted(der):
    out = []
    for i in range(22, 32):
        out += ([('ch', ':')] if out else []) + [('nib', ('sha256', der), 2 * i, 'u'), ('nib', ('sha256', der), 2 * i + 1, 'u')]
    return out


def source(v):
    """The certificate that the digits come from."""
    srcs = {a[1] for a in v if a[0] == 'nib'}
    return srcs.pop()[1] if len(srcs) == 1 else None


def is_fp(t):
    """(True if t is the fingerprint of something, that something); (False, ..) if it is something else; (None, None)"""
    v = text(t)
    if v is None:
        return (False, None) if t[0] in ('c', 'p') else (None, None)
    src = source(v)
    return (v == wanted(src) if src is not None else False), src


def C50(ctx):
    ctx.rule('value', 'the fingerprint of a certificate is the last ten bytes of the SHA-256 of its DER form, as upper case hexadecimal pairs with colons')
    ctx.rule('pem', 'the fingerprint of a certificate in PEM form, text or bytes, is that of its DER form')
    ctx.rule('connection', 'the fingerprint of a connection is that of the certificate that its peer has shown, and None only when there is none')
    ctx.rule('message', 'the certificate of a message is the text of the X509Certificate in that message, as PEM')
    ctx.rule('shown', 'the fingerprint that a client, a server or the command line shows is that of the configured certificate')
    value(ctx)
    pem(ctx)
    connection(ctx)
    message(ctx)
    shown(ctx)


def value(ctx):
    f = ctx.repo.funcs.get(f'{MOD}.certificate_fingerprint_from_der')
    if f is None:
        ctx.undecided('value', 'certificate_fingerprint_from_der', 'not found')
        return
    der = P(f.node.args.args[0].arg)
    for p in ctx.run(f) or ():
        if p.kind != 'return':
            ctx.judge('value', 'certificate_fingerprint_from_der: a result', None, 'raises')
            continue
        ok, src = is_fp(p.value)
        ctx.judge('value', 'certificate_fingerprint_from_der', ok and src == der if ok is not None else None, 'the result is not the last ten bytes of the SHA-256 of the certificate, as upper case pairs with colons', None, p)


def plain(t):
    """Only conversions between text and bytes."""
    while t[0] == 'call' and t[1] in ('ensure_bytes', 'ensure_str', '.encode', '.decode', 'bytes', 'str', '.strip') and t[2]:
        t = t[2][0]
    return t[0] == 'p'


def pem(ctx):
    f = ctx.repo.need_func(FP)
    s = P(f.node.args.args[0].arg)
    for p in ctx.run(f) or ():
        if p.kind != 'return':
            ctx.judge('pem', 'certificate_fingerprint: a result', None, 'raises')
            continue
        ok, src = is_fp(p.value)
        if ok:
            ok = src[0] == 'call' and src[1].split('.')[-1] == 'PEM_cert_to_DER_cert' and s in list(subterms(src)) or (None if s in list(subterms(src)) and not plain(src) else False)
            if ok:
                x = src[2][0]
                ok = x == ('call', 'ensure_str', (s,), (), 0) or x == ('call', '.decode', (s,), (), 0) or (x == s and p.facts.get(('isinst', s, ('str',)))) or (
                    x[0] == 'call' and x[1] == '.decode' and x[2][0] == s and p.facts.get(('isinst', s, ('bytes',)))) or (False if x == s and p.facts.get(('isinst', s, ('bytes',))) is None else None)
        ctx.judge('pem', 'certificate_fingerprint', ok, 'the fingerprint is not that of the DER form of this certificate', None, p)
    for name, same, other in (('ensure_str', 'str', ('.decode', 'str')), ('ensure_bytes', 'bytes', ('.encode', 'bytes'))):
        f = ctx.repo.funcs.get(f'{MOD}.{name}')
        if f is None:
            ctx.undecided('pem', name, 'not found')
            continue
        o = P(f.node.args.args[0].arg)
        for p in ctx.run(f) or ():
            none, kept = p.facts.get(('isnone', o)), p.facts.get(('isinst', o, (same,)))
            conv = p.facts.get(('isinst', o, ('bytes' if same == 'str' else 'str',)))
            v = p.value
            if p.kind == 'return' and (none or kept):
                ctx.judge('pem', f'{name}: kept', v == o or none and v == C(None) or (False if v[0] in ('c', 'p') or v[0] == 'call' and kept else None), f'{name} changes what needs no conversion', None, p)
            elif p.kind == 'return' and conv:
                good = v[0] == 'call' and v[1] in other and v[2][0] == o
                enc = next((x[1] for x in v[2][1:] if x[0] == 'c'), 'utf-8') if good else None
                ctx.judge('pem', f'{name}: converted', good and str(enc).lower().replace('_', '-') in ('utf-8', 'utf8') or (False if good or v[0] in ('c', 'p') else None), f'{name} does not convert as UTF-8', None, p)
            elif p.kind == 'raise' and (none or kept or conv):
                ctx.judge('pem', f'{name}: accepted', False, f'{name} refuses what it can convert', None, p)


def connection(ctx):
    f = ctx.repo.funcs.get(f'{MOD}.get_cert_fingerprint_from_request')
    if f is None:
        ctx.undecided('connection', 'get_cert_fingerprint_from_request', 'not found')
        return
    r = P(f.node.args.args[0].arg)
    for p in ctx.run(f) or ():
        if p.kind == 'raise':
            ctx.judge('connection', 'get_cert_fingerprint_from_request: a result', None, 'raises')
            continue
        if p.value == C(None):
            absent = any(not v and a[0] == 'truth' and peer(a[1], r) or v and a[0] == 'isnone' and peer(a[1], r) for a, v in p.facts.items())
            ctx.judge('connection', 'get_cert_fingerprint_from_request: none', absent or (False if not any(a[0] not in ('truth', 'isnone') for a in p.facts) else None),
                      'a peer that has shown a certificate gets no fingerprint', None, p)
            continue
        ok, src = is_fp(p.value)
        if ok:
            g = [x for x in subterms(src) if x[0] == 'call' and x[1] == '.getpeercert']
            der = bool(g) and (dict(g[0][3]).get('binary_form') == C(True) or C(True) in g[0][2][1:])
            ok = bool(g) and src == g[0] and der and r in list(subterms(src)) or (False if not g or src == g[0] else None)
        ctx.judge('connection', 'get_cert_fingerprint_from_request', ok, 'the fingerprint is not that of the certificate of the peer of this request', None, p)


def peer(t, r):
    return t[0] == 'call' and t[1] in ('.get_extra_info', '.getpeercert') and r in list(subterms(t))


def parts(t):
    if t[0] == 'fstr':
        return [y for x in t[1] for y in parts(x)]
    if t[0] == 'bin' and t[1] == '+':
        return parts(t[2]) + parts(t[3])
    return [t]


def message(ctx):
    f = ctx.repo.funcs.get(f'{MOD}.extract_pem_cert')
    if f is None:
        ctx.undecided('message', 'extract_pem_cert', 'not found')
        return
    tree = P(f.node.args.args[0].arg)
    for p in ctx.run(f) or ():
        if p.kind != 'return':
            ctx.judge('message', 'extract_pem_cert: a result', None, 'raises')
            continue
        ps = parts(p.value)
        i = next((i for i, x in enumerate(ps) if tree in list(subterms(x))), None)
        if i is None:
            ctx.judge('message', 'extract_pem_cert: of this message', False if all(x[0] in ('c', 'p') for x in ps) else None, 'the certificate is not that of the message', None, p)
            continue
        head, mid, foot = ps[:i], ps[i], ps[i + 1:]
        if any(x[0] != 'c' for x in head + foot):
            ctx.undecided('message', 'extract_pem_cert', 'not followed')
            continue
        head, foot = ''.join(str(x[1]) for x in head), ''.join(str(x[1]) for x in foot)
        cert = mid
        bare = False
        while cert[0] == 'call' and cert[1] in ('.strip', '.rstrip', '.lstrip') and len(cert[2]) == 1:
            bare = bare or cert[1] != '.lstrip'
            cert = cert[2][0]
        found = cert[0] == 'attr' and cert[2] == 'text' and cert[1][0] == 'call' and cert[1][1] == '.find' or cert[0] == 'call' and cert[1] == '.findtext'
        call = (cert[1] if cert[0] == 'attr' else cert) if found else None
        if call is None or call[2][0] != tree or len(call[2]) < 2 or call[2][1][0] != 'c':
            ctx.undecided('message', 'extract_pem_cert', 'the certificate is found in another way')
            continue
        path = call[2][1][1]
        ctx.judge('message', 'extract_pem_cert: element', bool(re.fullmatch(r'\.//(\{[^}]*\}\w+/{1,2})*\{(\*|http://www\.w3\.org/2000/09/xmldsig#)\}X509Certificate', path)), f'the certificate is looked for in {path}', None, p)
        ended = any(v and a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == '.endswith' and C('\n') in a[1][2] for a, v in p.facts.items()) and not bare
        ctx.judge('message', 'extract_pem_cert: PEM form', head == HEAD + '\n' and foot.strip() == FOOT and (foot.startswith('\n') or ended), 'what is returned is not a certificate in PEM form', None, p)


def as_it_is(ctx, name, p):
    """What is printed or logged has the text of the fingerprint in it, laid out but not changed."""
    def bad(t):
        out = []
        for x in subterms(t):
            if x[0] == 'call' and x[1] in ('.lower', '.upper', '.replace', '.swapcase', '.title', '.capitalize', '.casefold', '.split', '.rsplit', 'reversed', 'sorted', 'len') and \
                    any(y[0] == 'call' and y[1] == FP for a in x[2] for y in subterms(a)):
                out.append(x)
            if x[0] in ('item', 'slice') and isinstance(x[1], tuple) and x[1][:2] == ('call', FP):
                out.append(x)
        return out
    for e in p.trace:
        if e.kind == 'call' and e.name not in (FP, '.encode', '.decode') and any(x[0] == 'call' and x[1] == FP for a in e.args for x in subterms(a)):
            b = [y for a in e.args for y in bad(a)]
            ctx.judge('shown', f'{name}: as it is', not b, 'the fingerprint that is shown differs from the fingerprint of the certificate', e.loc, p)


def shown(ctx):
    for cls in ('openleadr.client.OpenADRClient', 'openleadr.server.OpenADRServer'):
        c = ctx.repo.need_class(cls)
        f = ctx.repo.find_method(c, '__init__')
        names = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        if not {'cert', 'key', 'show_fingerprint'} <= names:
            ctx.undecided('shown', c.name, 'no such parameters')
            continue
        for p in ctx.run(f, P('self'), self_cls=c, opaque={FP}) or ():
            if p.kind != 'return':
                continue
            on = all(truthy(p.facts, P(x)) for x in ('cert', 'key', 'show_fingerprint'))
            calls = [e for e in p.trace if e.kind == 'call' and e.name == FP]
            if on:
                ctx.judge('shown', f'{c.name}: shown', bool(calls), 'the own fingerprint is not shown although a certificate is configured', None, p)
            for e in calls:
                x = e.args[0] if e.args else dict(e.kw).get('certificate_str', C(None))
                s = list(subterms(x))
                read = any(y[0] == 'call' and y[1] == 'open' and y[2] and y[2][0] == P('cert') for y in s)
                ctx.judge('shown', f'{c.name}: of the configured certificate', read or (False if x[0] in ('p', 'c') or any(y[0] == 'call' and y[1] == 'open' and y[2][0][0] in ('p', 'c') for y in s) else None),
                          'the fingerprint that is shown is not that of the configured certificate', e.loc, p)
            as_it_is(ctx, c.name, p)
    f = ctx.repo.funcs.get('openleadr.fingerprint.show_fingerprint')
    if f is not None:
        for p in ctx.run(f, opaque={FP}) or ():
            as_it_is(ctx, 'show_fingerprint', p)
            calls = [e for e in p.trace if e.kind == 'call' and e.name == FP]
            for e in calls:
                s = list(subterms(e.args[0])) if e.args else []
                o = [y for y in s if y[0] == 'call' and y[1] == 'open' and y[2]]
                ctx.judge('shown', 'show_fingerprint', any('certificate' in (z[2] if z[0] == 'attr' else z[2][1] if z[0] == 'item' and z[2][0] == 'c' else ()) for y in o for z in subterms(y[2][0]) if z[0] in ('attr', 'item')) or None,
                          'the command line shows the fingerprint of something else', e.loc, p)


CHECKS = {'C50': C50}
