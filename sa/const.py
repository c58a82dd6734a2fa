"""Constants of the source as Python values: interpreted expressions and class bodies."""
import ast


class Unknown(Exception):
    pass


class Inst(dict):
    """Attributes of an instance built by a constant expression."""
    def __init__(self, cls, attrs):
        super().__init__(attrs)
        self.cls = cls


def lift(p, t, depth=12):
    if depth < 0 or not isinstance(t, tuple) or not t:
        raise Unknown(repr(t)[:80])
    if t[0] == 'c':
        return t[1]
    if t[0] in ('t', 'tuple') and isinstance(t[1], tuple):
        return tuple(lift(p, x, depth - 1) for x in t[1])
    if t[0] == 'o':
        o = p.obj(t)
        if o is None:
            raise Unknown(repr(t)[:80])
        if o[0] == 'dict' and isinstance(o[1], tuple):
            return {lift(p, k, depth - 1): lift(p, v, depth - 1) for k, v in o[1]}
        if o[0] in ('list', 'set', 'tuple') and isinstance(o[1], tuple):
            vs = [lift(p, v, depth - 1) for v in o[1]]
            return vs if o[0] == 'list' else set(vs) if o[0] == 'set' else tuple(vs)
        if o[0] == 'inst' and isinstance(o[2], tuple):
            out = {}
            for k, v in o[2]:
                try:
                    out[k] = lift(p, v, depth - 1)
                except Unknown:
                    out[k] = Unknown
            return Inst(o[1], out)
    raise Unknown(repr(t)[:80])


def evaluate(ctx, modname, expr):
    """The value of a constant expression in the namespace of a module; Unknown when it is not constant."""
    ps = ctx.probe(modname, f'def probe(): return ({expr})', post_init=True)
    if not ps or len(ps) != 1 or ps[0].kind != 'return':
        raise Unknown(expr)
    return lift(ps[0], ps[0].value)


def members(ctx, qual):
    """name -> value of the public attributes of a class body; Unknown values stay Unknown."""
    c = ctx.repo.need_class(qual)
    out = {}
    for name, v in c.attrs.items():
        if name.startswith('_') or not isinstance(v, ast.AST):
            continue
        try:
            out[name] = evaluate(ctx, qual.rsplit('.', 1)[0], ast.unparse(v))
        except Unknown:
            out[name] = Unknown
    return out
