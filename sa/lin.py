"""Linear forms over provenance terms, for comparing times and durations."""
from .interp import C, subterms  # noqa: F401

UNITS = {'weeks': 604800, 'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1, 'milliseconds': 0.001,
         'microseconds': 0.000001}
NOW = ('now',)


def is_now(t):
    return t[0] == 'call' and t[1] in ('datetime.datetime.now', 'datetime.datetime.utcnow')


def add(a, b, k=1):
    out = dict(a)
    for t, c in b.items():
        out[t] = out.get(t, 0) + k * c
        if abs(out[t]) < 1e-12:
            del out[t]
    return out


def lin(t):
    """dict term -> coefficient; key 1 is the constant (seconds for durations)."""
    if t[0] == 'c' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return {1: t[1]} if t[1] else {}
    if is_now(t):
        return {NOW: 1}
    if t[0] == 'bin' and t[1] == '+':
        return add(lin(t[2]), lin(t[3]))
    if t[0] == 'bin' and t[1] == '-':
        return add(lin(t[2]), lin(t[3]), -1)
    if t[0] == 'bin' and t[1] == '*':
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            lx = lin(x)
            if set(lx) <= {1}:
                k = lx.get(1, 0)
                return {a: b * k for a, b in lin(y).items() if b * k}
    if t[0] == 'bin' and t[1] == '/':
        ly = lin(t[3])
        if set(ly) == {1}:
            return {a: b / ly[1] for a, b in lin(t[2]).items()}
    if t[0] == 'un' and t[1] == 'USub':
        return {a: -b for a, b in lin(t[2]).items()}
    if t[0] == 'call' and t[1] == 'datetime.timedelta':
        out = {}
        names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
        for i, a in list(zip(names, t[2])) + list(t[3]):
            if i not in UNITS:
                return {t: 1}
            out = add(out, lin(a), UNITS[i])
        return out
    if t[0] == 'call' and t[1] in ('.total_seconds',) and len(t[2]) == 1:
        return lin(t[2][0])
    if t[0] == 'call' and t[1] in ('.astimezone', '.timestamp') and t[2]:
        return lin(t[2][0])
    return {t: 1}


def lt_forms(facts):
    """All ordering facts as (form, rel) meaning form rel 0 with rel in '<', '<='."""
    for a, v in facts.items():
        if a[0] == 'lt':
            d = add(lin(a[1]), lin(a[2]), -1)          # a - b
            if v:
                yield d, '<', a
            else:
                yield {t: -c for t, c in d.items()}, '<=', a     # b - a <= 0
        elif a[0] == 'eq' and a[1][0] != 'c' and v:
            d = add(lin(a[1]), lin(a[2]), -1)
            yield d, '<=', a
            yield {t: -c for t, c in d.items()}, '<=', a


def upper(facts, form):
    """Largest known... smallest k with  form <= k  (or < k) following from one fact: (k, strict) or None."""
    best = None
    for d, rel, _ in lt_forms(facts):
        rest = add(d, form, -1)
        if set(rest) <= {1}:
            k = -rest.get(1, 0)                 # form + c <= 0  ->  form <= -c
            if best is None or k < best[0] or (k == best[0] and rel == '<'):
                best = (k, rel == '<')
    return best
