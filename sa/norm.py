"""Equivalent spellings of displays and strings brought to one form before anything else looks at the tree.

    dict(a=x)                 -> {'a': x}            dict([(k, v), ...]) -> {k: v, ...}
    list(), dict()            -> [], {}              set([a, b])         -> {a, b}
    '..{}..'.format(x)        -> f'..{x}..'          '..%s..' % (x, y)   -> f'..{x}..{y}'

and of loops that walk over a sequence:

    it = iter(e); while True: try: x = next(it) except StopIteration: break; ...   -> for x in e: ...
    i = 0; while i < len(e): x = e[i]; ...; i += 1                                 -> for i, x in enumerate(e): ...
    rest = list(e); while rest: x = rest.pop(0); ...                               -> for x in list(e): ...
    try: ... except E: logger.error(..); raise                                     -> ...
"""
import ast
import re
import string

BUILTINS = {'dict', 'list', 'set'}


def shadowed(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split('.')[0])
    return out & BUILTINS


def joined(node, pieces):
    """pieces: str, or (expr, conversion, spec)"""
    vals = []
    for p in pieces:
        if isinstance(p, str):
            if p:
                vals.append(ast.Constant(p))
        else:
            e, conv, spec = p
            vals.append(ast.FormattedValue(value=e, conversion=ord(conv) if conv else -1,
                                           format_spec=ast.JoinedStr([ast.Constant(spec)]) if spec else None))
    new = ast.JoinedStr(vals)
    ast.copy_location(new, node)
    for v in vals:
        ast.copy_location(v, node)
        if isinstance(v, ast.FormattedValue) and v.format_spec is not None:
            ast.copy_location(v.format_spec, node)
            ast.copy_location(v.format_spec.values[0], node)
    return new


def by_format(node, text, args, keywords):
    if any(isinstance(a, ast.Starred) for a in args) or any(k.arg is None for k in keywords):
        return None
    kws = {k.arg: k.value for k in keywords}
    pieces, auto, used = [], 0, set()
    try:
        for lit, field, spec, conv in string.Formatter().parse(text):
            pieces.append(lit)
            if field is None:
                continue
            if spec and '{' in spec:
                return None
            if field == '':
                key, auto = auto, auto + 1
            elif field.isdigit():
                key = int(field)
            else:
                key = field
            if isinstance(key, int):
                if key >= len(args):
                    return None
                e = args[key]
            elif key in kws:
                e = kws[key]
            else:
                return None
            if key in used and not isinstance(e, (ast.Name, ast.Constant, ast.Attribute)):
                return None
            if field.isdigit() and auto:
                return None
            used.add(key)
            pieces.append((e, conv, spec))
    except ValueError:
        return None
    every = set(range(len(args))) | set(kws)
    if any(not isinstance(args[k] if isinstance(k, int) else kws[k], (ast.Name, ast.Constant, ast.Attribute)) for k in every - used):
        return None
    return joined(node, pieces)


def by_percent(node, text, right):
    toks = re.split(r'(%%|%s|%r|%d)', text)
    if any('%' in t for t in toks[::2]):
        return None
    n = sum(1 for t in toks[1::2] if t != '%%')
    if isinstance(right, ast.Tuple):
        args = right.elts
        if any(isinstance(a, ast.Starred) for a in args):
            return None
    elif isinstance(right, (ast.Name, ast.Attribute, ast.Call, ast.Constant, ast.JoinedStr, ast.Subscript)):
        args = [right]
    else:
        return None
    if len(args) != n or '%d' in toks:
        return None
    pieces, it = [], iter(args)
    for i, t in enumerate(toks):
        if i % 2 == 0:
            pieces.append(t)
        elif t == '%%':
            pieces.append('%')
        else:
            pieces.append((next(it), 'r' if t == '%r' else None, None))
    return joined(node, pieces)


class Norm(ast.NodeTransformer):
    def __init__(self, shadow):
        self.shadow = shadow

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in BUILTINS and f.id not in self.shadow:
            new = None
            if f.id == 'dict':
                pairs = []
                if len(node.args) == 1 and isinstance(node.args[0], (ast.List, ast.Tuple)) and all(
                        isinstance(x, (ast.Tuple, ast.List)) and len(x.elts) == 2
                        and not any(isinstance(y, ast.Starred) for y in x.elts) for x in node.args[0].elts):
                    pairs = [tuple(x.elts) for x in node.args[0].elts]
                elif len(node.args) == 1 and isinstance(node.args[0], ast.Dict):
                    pairs = list(zip(node.args[0].keys, node.args[0].values))
                elif node.args:
                    return node
                for k in node.keywords:
                    pairs.append((None if k.arg is None else ast.copy_location(ast.Constant(k.arg), k.value), k.value))
                new = ast.Dict(keys=[a for a, _ in pairs], values=[b for _, b in pairs])
            elif not node.keywords and not node.args and f.id == 'list':
                new = ast.List(elts=[], ctx=ast.Load())
            elif not node.keywords and len(node.args) == 1 and isinstance(node.args[0], (ast.List, ast.Tuple)):
                if f.id == 'list':
                    new = ast.List(elts=node.args[0].elts, ctx=ast.Load())
                elif f.id == 'set' and node.args[0].elts:
                    new = ast.Set(elts=node.args[0].elts)
            if new is not None:
                return ast.copy_location(new, node)
            return node
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) \
                and isinstance(f.value.value, str):
            return by_format(node, f.value.value, node.args, node.keywords) or node
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return by_percent(node, node.left.value, node.right) or node
        return node


def is_name(n, id=None):
    return isinstance(n, ast.Name) and (id is None or n.id == id)


def uses(nodes, id, but=()):
    return [n for b in nodes for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == id and n not in but]


def own_level(body, kind):
    """continue/break statements that belong to the loop with this body."""
    out, todo = [], list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, kind):
            out.append(n)
        elif isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            todo += n.orelse
        elif not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo += [c for c in ast.iter_child_nodes(n) if isinstance(c, (ast.stmt, ast.ExceptHandler))]
    return out


def steps(n, i):
    """Is this statement i += 1?"""
    return isinstance(n, ast.AugAssign) and is_name(n.target, i) and isinstance(n.op, ast.Add) and isinstance(n.value, ast.Constant) and n.value.value == 1 or \
        isinstance(n, ast.Assign) and len(n.targets) == 1 and is_name(n.targets[0], i) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) \
        and {ast.dump(n.value.left), ast.dump(n.value.right)} == {"Name(id=%r, ctx=Load())" % i, 'Constant(value=1)'}


def reraises(h):
    if not (h.body and isinstance(h.body[-1], ast.Raise) and h.body[-1].cause is None):
        return False
    e = h.body[-1].exc
    if e is not None and not (h.name and is_name(e, h.name)):
        return False
    for s in h.body[:-1]:
        c = s.value if isinstance(s, ast.Expr) else None
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ('logger', 'logging')
                and c.func.attr in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log')
                and not any(isinstance(x, (ast.Call, ast.Await, ast.NamedExpr)) for a in c.args for x in ast.walk(a))):
            return False
    return True


class Loops(ast.NodeTransformer):
    def __init__(self):
        self.fn = None

    def visit_FunctionDef(self, n):
        was, self.fn = self.fn, n
        self.generic_visit(n)
        self.fn = was
        self.blocks(n)
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def blocks(self, fn):
        # innermost blocks first: what replaces a loop takes over the statements of its body
        for b in reversed(list(ast.walk(fn))):
            for f in ('body', 'orelse', 'finalbody'):
                sts = getattr(b, f, None)
                if isinstance(sts, list) and any(isinstance(s, ast.While) for s in sts):
                    setattr(b, f, self.block(fn, sts))

    def visit_Try(self, n):
        self.generic_visit(n)
        # handlers at the end that only (log and) raise the same exception again do nothing
        while n.handlers and reraises(n.handlers[-1]):
            n.handlers.pop()
        if n.handlers:
            return n
        if n.finalbody:
            n.body, n.orelse = n.body + n.orelse, []
            return n
        return n.body + n.orelse

    def block(self, fn, sts):
        out = []
        for k, s in enumerate(sts):
            new = None
            if isinstance(s, ast.While) and not s.orelse and s.body:
                for j in range(len(out) - 1, -1, -1):
                    d = out[j]
                    if not (isinstance(d, (ast.Assign, ast.AnnAssign)) and d.value is not None):
                        break
                    t = d.targets[0] if isinstance(d, ast.Assign) and len(d.targets) == 1 else getattr(d, 'target', None)
                    if not is_name(t):
                        continue
                    new = self.by_iter(fn, s, t, d) or self.by_index(fn, s, t, d) or self.by_pop(fn, s, t, d)
                    if new is not None:
                        ast.copy_location(new, s)
                        ast.fix_missing_locations(new)
                        if new.drop:
                            del out[j]
                        break
            out.append(new or s)
        return out

    def by_iter(self, fn, s, t, d):
        c = d.value
        if not (isinstance(c, ast.Call) and is_name(c.func, 'iter') and len(c.args) == 1 and not c.keywords
                and isinstance(s.test, ast.Constant) and s.test.value):
            return None
        b = s.body[0]
        if not (isinstance(b, ast.Try) and len(b.body) == 1 and len(b.handlers) == 1 and not b.finalbody
                and is_name(b.handlers[0].type, 'StopIteration') and len(b.handlers[0].body) == 1 and isinstance(b.handlers[0].body[0], ast.Break)):
            return None
        a = b.body[0]
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Call) and is_name(a.value.func, 'next')
                and len(a.value.args) == 1 and is_name(a.value.args[0], t.id)):
            return None
        if len(uses([fn], t.id)) != 2:
            return None
        new = ast.For(target=a.targets[0], iter=c.args[0], body=(b.orelse + s.body[1:]) or [ast.Pass()], orelse=[])
        new.drop = True
        return new

    def by_index(self, fn, s, t, d):
        i = t.id
        c = s.test
        if not (isinstance(d.value, ast.Constant) and d.value.value == 0 and type(d.value.value) is int and isinstance(c, ast.Compare) and len(c.ops) == 1):
            return None
        if isinstance(c.ops[0], ast.Lt) and is_name(c.left, i):
            ln = c.comparators[0]
        elif isinstance(c.ops[0], ast.Gt) and is_name(c.comparators[0], i):
            ln = c.left
        else:
            return None
        if not (isinstance(ln, ast.Call) and is_name(ln.func, 'len') and len(ln.args) == 1):
            return None
        seq = ln.args[0]
        up = [x for x in s.body if steps(x, i)]
        if len(up) != 1:
            return None
        at = s.body.index(up[0])
        first = s.body[0]
        if not (isinstance(first, ast.Assign) and len(first.targets) == 1 and isinstance(first.value, ast.Subscript)
                and ast.dump(first.value.value) == ast.dump(seq) and is_name(first.value.slice, i)):
            return None
        rest = s.body[1:at] + s.body[at + 1:]
        stores = [n for b in rest for n in ast.walk(b) if is_name(n, i) and not isinstance(n.ctx, ast.Load)]
        if stores or uses(s.body[at + 1:], i):
            return None
        if at > 1 and any(isinstance(x, ast.Continue) for b in s.body[1:at] for x in own_level([b], ast.Continue)):
            return None
        inside = set(ast.walk(s)) | set(ast.walk(d))
        if [n for n in uses([fn], i) if n not in inside and isinstance(n.ctx, ast.Load)]:
            return None
        used = bool(uses(rest, i))
        target = ast.Tuple(elts=[ast.Name(id=i, ctx=ast.Store()), first.targets[0]], ctx=ast.Store()) if used else first.targets[0]
        it = ast.Call(func=ast.Name(id='enumerate', ctx=ast.Load()), args=[seq], keywords=[]) if used else seq
        new = ast.For(target=target, iter=it, body=rest or [ast.Pass()], orelse=[])
        new.drop = True
        return new

    def by_pop(self, fn, s, t, d):
        q = t.id
        c = d.value
        copied = isinstance(c, ast.Call) and (is_name(c.func, 'list') and len(c.args) == 1 or isinstance(c.func, ast.Attribute) and c.func.attr == 'copy' and not c.args) or \
            isinstance(c, ast.Subscript) and isinstance(c.slice, ast.Slice) and c.slice.lower is None and c.slice.upper is None and c.slice.step is None
        first = s.body[0]
        if not (copied and is_name(s.test, q) and isinstance(first, ast.Assign) and len(first.targets) == 1 and isinstance(first.value, ast.Call)
                and isinstance(first.value.func, ast.Attribute) and first.value.func.attr == 'pop' and is_name(first.value.func.value, q)
                and len(first.value.args) == 1 and isinstance(first.value.args[0], ast.Constant) and first.value.args[0].value == 0):
            return None
        if len(uses([fn], q)) != 3:
            return None
        new = ast.For(target=first.targets[0], iter=c, body=s.body[1:] or [ast.Pass()], orelse=[])
        new.drop = True
        return new


def normalise(tree):
    tree = Norm(shadowed(tree)).visit(tree)
    return Loops().visit(tree)
