"""Queries over traces, facts and terms."""
from .interp import C, P, A, I, E, NONE, TRUE, FALSE, subterms, show  # noqa: F401


def arg(ev, i=None, kw=None, default=None):
    if kw is not None:
        for n, v in ev.kw:
            if n == kw:
                return v
    if i is not None and i < len(ev.args):
        return ev.args[i]
    return default


def calls(path, *names, kinds=('call', 'usercb')):
    for i, e in enumerate(path.trace):
        if e.kind in kinds and e.name in names:
            yield i, e


def has(t, sub):
    return any(x == sub for x in subterms(t))


def has_call(t, *names):
    return any(x[0] == 'call' and x[1] in names for x in subterms(t))


def find_calls(t, *names):
    return [x for x in subterms(t) if x[0] == 'call' and x[1] in names]


def call_kw(t, i, kw):
    """Argument of a ('call', ...) term."""
    for n, v in t[3]:
        if n == kw:
            return v
    if i is not None and i < len(t[2]):
        return t[2][i]
    return None


def domain(facts, t):
    allowed, excl = None, set()
    for a, v in facts.items():
        if a[0] == 'eq' and a[1] == t and a[2][0] == 'c':
            k = a[2][1]
            if v:
                allowed = {k} if allowed is None else allowed & {k}
            else:
                excl.add(k)
        elif a[0] == 'inset' and a[1] == t:
            ks = {x[0] for x in a[2]}
            if v:
                allowed = ks if allowed is None else allowed & ks
            else:
                excl |= ks
    if allowed is not None:
        allowed = allowed - excl
    return allowed, excl


def truthy(facts, t):
    """True/False/None: what the facts say about bool(t)."""
    v = facts.get(('truth', t))
    if v is not None:
        return v
    if facts.get(('isnone', t)) is True:
        return False
    al, ex = domain(facts, t)
    if al is not None and al:
        b = {bool(x) for x in al}
        if len(b) == 1:
            return b.pop()
    return None


def notnone(facts, t):
    """Do the facts establish that t is not None?"""
    if facts.get(('isnone', t)) is False or facts.get(('truth', t)) is True:
        return True
    for a, v in facts.items():
        if v and a[0] == 'isinst' and a[1] == t:
            return True
        if v and a[0] == 'eq' and t in (a[1], a[2]):
            o = a[2] if a[1] == t else a[1]
            if o[0] in ('c', 'fstr') and o != NONE:
                return True
    return False


def equal(facts, a, b):
    if a == b:
        return True
    if facts.get(('eq', a, b)) is True or facts.get(('eq', b, a)) is True:
        return True
    for x, y in ((a, b), (b, a)):
        if y[0] == 'c' and x[0] != 'c' and isinstance(y[1], (str, int)) and domain(facts, x)[0] == {y[1]}:
            return True
    return False


def const_of(facts, t):
    """The one constant t is known to equal, or None."""
    if t[0] == 'c':
        return t[1]
    al = domain(facts, t)[0]
    return next(iter(al)) if al is not None and len(al) == 1 else None


def eqs(facts):
    for a, v in facts.items():
        if a[0] == 'eq' and v:
            yield a[1], a[2]


def absent(facts, cont, key):
    """Facts establish that cont has no usable value under key (missing, None or falsy)."""
    k = C(key)
    t = I(cont, k)
    return facts.get(('in', k, cont)) is False or truthy(facts, t) is False \
        or facts.get(('isnone', t)) is True or facts.get(('hasattr', cont, key)) is False


def value(path, obj, key):
    """Final value of obj[key] / obj.key on a path, or None."""
    if obj is None:
        return None
    if obj[0] == 'o':
        v = path.field(obj, key)
        if v is not None:
            return v
        o = path.obj(obj)
        if o is not None and o[3] is not None and isinstance(o[3], tuple):
            return value(path, o[3], key)
        return None
    st = path.state.store
    for k in ((obj, 'i', C(key)), (obj, 'a', key)):
        if k in st:
            return st[k]
    return I(obj, C(key))


def strip_call(t, *names):
    """Look through wrapping calls such as str(x), list(x)."""
    while t[0] == 'call' and t[1] in names and t[2]:
        t = t[2][0]
    return t


def reaches(path, t, sub, depth=8):
    """Does t, looking into the objects it refers to, contain sub?"""
    if depth < 0:
        return False
    for x in subterms(t):
        if x == sub:
            return True
        if x[0] == 'o':
            o = path.obj(x)
            if o is None:
                continue
            if o[0] == 'list':
                kids = o[1]
            elif o[0] == 'dict':
                kids = [y for kv in o[1] for y in kv] + ([o[3]] if isinstance(o[3], tuple) else [])
            else:
                kids = [v for _, v in o[2]] + ([o[3]] if isinstance(o[3], tuple) else [])
            if any(isinstance(y, tuple) and reaches(path, y, sub, depth - 1) for y in kids):
                return True
    return False


def deep(path, t, depth=6):
    """Subterms of t, also inside the objects it refers to."""
    for x in subterms(t):
        yield x
        if x[0] == 'o' and depth:
            o = path.obj(x)
            if o is None:
                continue
            if o[0] == 'list':
                kids = o[1]
            elif o[0] == 'dict':
                kids = [y for kv in o[1] for y in kv] + ([o[3]] if isinstance(o[3], tuple) else [])
            else:
                kids = [v for _, v in o[2]] + ([o[3]] if isinstance(o[3], tuple) else [])
            for y in kids:
                if isinstance(y, tuple) and y != x:
                    yield from deep(path, y, depth - 1)
