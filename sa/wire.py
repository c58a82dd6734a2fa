"""The message templates against the schema: which elements a template can produce, in what order, and what fills them."""
import glob
import itertools
import os

from .const import Inst, Unknown, evaluate, members
from .jinja import Bad, El, Templates, showexpr, showname
from .repo import AnchorMissing
from .xsd import NFA, Schema, included

STATES = ('missing', 'none', 'falsy', 'truthy')
XML = 'http://www.w3.org/XML/1998/namespace'
MAX_CASES = 5000


class Unk(Exception):
    """The analysis does not understand this part."""


def load(ctx):
    root = os.path.join(ctx.repo.root, 'openleadr')
    sdir, tdir = os.path.join(root, 'schema'), os.path.join(root, 'templates')
    paths = sorted(glob.glob(os.path.join(sdir, '*.xsd')))
    if not paths:
        raise AnchorMissing('openleadr/schema/*.xsd not found')
    t = Templates(tdir)
    if not t.names():
        raise AnchorMissing('openleadr/templates not found')
    return Schema(paths), t


# -- conditions ------------------------------------------------------------------

def resolve(e, env):
    """Names become message paths."""
    k = e[0]
    if k == 'name':
        return env.get(e[1], ('path', (e[1],)))
    if k == 'attr':
        b = resolve(e[1], env)
        if b[0] == 'path':
            return ('path', b[1] + (e[2],))
        if b[0] == 'dict':
            for kk, v in b[1]:
                if kk == ('const', e[2]):
                    return v
        return ('attr', b, e[2])
    if k == 'item':
        b = resolve(e[1], env)
        if b[0] == 'path':
            return ('path', b[1] + ('[]',))
        return ('item', b, resolve(e[2], env))
    if k in ('and', 'or'):
        return (k, resolve(e[1], env), resolve(e[2], env))
    if k == 'not':
        return ('not', resolve(e[1], env))
    if k == 'cmp':
        return ('cmp', e[1], resolve(e[2], env), resolve(e[3], env))
    if k == 'bin':
        return ('bin', e[1], resolve(e[2], env), resolve(e[3], env))
    if k == 'filter':
        return ('filter', resolve(e[1], env), e[2], tuple(resolve(a, env) for a in e[3]))
    if k == 'test':
        return ('test', resolve(e[1], env), e[2], tuple(resolve(a, env) for a in e[3]))
    if k == 'call':
        return ('call', resolve(e[1], env), tuple(resolve(a, env) for a in e[2]))
    if k == 'cond':
        return ('cond', resolve(e[1], env), resolve(e[2], env), resolve(e[3], env))
    if k == 'list':
        return ('list', tuple(resolve(x, env) for x in e[1]))
    if k == 'dict':
        return ('dict', tuple((resolve(a, env), resolve(b, env)) for a, b in e[1]))
    return e


def paths_in(e):
    if not isinstance(e, tuple) or not e:
        return
    if e[0] == 'path':
        yield e[1]
        return
    for x in e:
        if isinstance(x, tuple):
            yield from paths_in(x)


def simple_len(e):
    return e[1][1] if e[0] == 'filter' and e[2] in ('length', 'count') and e[1][0] == 'path' else None


def atoms(e, out):
    """What the truth of a condition depends on: ('p', path) and, for what is not understood, ('x', expression)."""
    k = e[0]
    if k == 'path':
        out.add(('p', e[1]))
    elif k in ('and', 'or'):
        atoms(e[1], out)
        atoms(e[2], out)
    elif k == 'not':
        atoms(e[1], out)
    elif k == 'test' and e[2] in ('defined', 'undefined', 'none') and e[1][0] == 'path':
        out.add(('p', e[1][1]))
    elif k == 'cmp' and simple_len(e[2]) and e[3][0] == 'const':
        out.add(('p', simple_len(e[2])))
    elif k == 'cmp' and e[2][0] == 'path' and e[3] == ('const', None):
        out.add(('p', e[2][1]))
    elif simple_len(e):
        out.add(('p', simple_len(e)))
    elif k == 'const':
        pass
    elif k == 'cond':
        for x in e[1:]:
            atoms(x, out)
    else:
        out.add(('x', e))
    return out


class Case:
    """States of paths, and constants of paths."""
    def __init__(self, states, consts=()):
        self.s = states
        self.consts = dict(consts)

    def state(self, p):
        if p in self.consts:
            v = self.consts[p]
            return 'none' if v is None else 'truthy' if v else 'falsy'
        return self.s.get(('p', p))

    def truth(self, e):
        k = e[0]
        if k == 'const':
            return bool(e[1])
        if k == 'path':
            s = self.state(e[1])
            return None if s is None else s == 'truthy'
        if k == 'not':
            v = self.truth(e[1])
            return None if v is None else not v
        if k == 'and':
            a, b = self.truth(e[1]), self.truth(e[2])
            return False if a is False or b is False else None if a is None or b is None else True
        if k == 'or':
            a, b = self.truth(e[1]), self.truth(e[2])
            return True if a is True or b is True else None if a is None or b is None else False
        if k == 'cond':
            c = self.truth(e[1])
            if c is None:
                a, b = self.truth(e[2]), self.truth(e[3])
                return a if a == b else None
            return self.truth(e[2] if c else e[3])
        if k == 'test' and e[1][0] == 'path' and e[2] in ('defined', 'undefined', 'none'):
            s = self.state(e[1][1])
            if s is None:
                return None
            return {'defined': s != 'missing', 'undefined': s == 'missing', 'none': s == 'none'}[e[2]]
        if k == 'cmp' and e[2][0] == 'path' and e[3] == ('const', None) and e[1] in ('==', '!='):
            s = self.state(e[2][1])
            return None if s is None else (s == 'none') == (e[1] == '==')
        p = simple_len(e) or (k == 'cmp' and e[3][0] == 'const' and simple_len(e[2]))
        if p:
            s = self.state(p)
            if s in ('falsy', 'missing'):
                n = 0
            elif s == 'truthy':
                n = 1
            else:
                return None
            if k == 'filter':
                return bool(n)
            c = e[3][1]
            res = {}
            for m in ((0,) if n == 0 else (1, 2, 3)):
                res[m] = {'>': m > c, '>=': m >= c, '<': m < c, '<=': m <= c, '==': m == c, '!=': m != c}.get(e[1])
            return res[0] if n == 0 else (res[1] if len(set(res.values())) == 1 else None)
        if k == 'cmp' and e[2][0] == 'path' and e[2][1] in self.consts and e[3][0] == 'const':
            c = self.consts[e[2][1]]
            if e[1] in ('==', '!='):
                return (c == e[3][1]) == (e[1] == '==')
        return self.s.get(('x', e))


def possible(case):
    """A part of something that is not there is not there either."""
    for a, s in case.s.items():
        if a[0] == 'p':
            p = a[1]
            for i in range(1, len(p)):
                q = case.state(p[:i])
                if q in ('missing', 'none', 'falsy') and s != 'missing':
                    return False
    return True


def cases(atoms_, consts=(), given=()):
    """All states of the atoms that agree with the enclosing conditions [(condition, truth)]."""
    at = sorted((a for a in atoms_ if not (a[0] == 'p' and a[1] in dict(consts))), key=repr)
    extra = set()
    for c, _ in given:
        own = atoms(c, set())
        if any(related(a, b) for a in own for b in at):
            extra |= own
    extra = sorted((a for a in extra if a not in at and not (a[0] == 'p' and a[1] in dict(consts))), key=repr)
    allat = at + extra
    dom = [STATES if a[0] == 'p' else (True, False) for a in allat]
    n = 1
    for d in dom:
        n *= len(d)
    if n > 300000:
        raise Unk(f'{len(allat)} conditions in one element')
    for combo in itertools.product(*dom):
        c = Case(dict(zip(allat, combo)), consts)
        if possible(c) and all(c.truth(g) in (v, None) for g, v in given):
            yield c


def related(a, b):
    if a == b:
        return True
    if a[0] == 'p' and b[0] == 'p':
        x, y = a[1], b[1]
        return x[:len(y)] == y or y[:len(x)] == x
    return False


# -- scopes ----------------------------------------------------------------------

class Scope:
    __slots__ = ('ns', 'env', 'conds', 'xpath', 'consts')

    def __init__(self, ns, env, conds, xpath, consts):
        self.ns, self.env, self.conds, self.xpath, self.consts = ns, env, conds, xpath, consts

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Scope(**d)


class Leaf:
    """A place where a value of the message is put into the document."""
    __slots__ = ('template', 'xpath', 'expr', 'conds', 'decl', 'type', 'loc', 'consts', 'alone')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def paths(self):
        return set(paths_in(self.expr))


class Walk:
    """One message template, checked against the schema; leaves are collected on the way."""

    def __init__(self, schema, templates, name, instances=(), report=None, given=()):
        self.given = given                 # path suffixes that every message has
        self.schema, self.templates, self.name = schema, templates, name
        self.instances = instances         # possible values of a measurement: dicts
        self.report = report or (lambda *a: None)
        self.leaves = []
        self.elements = 0
        self.checked = 0
        self.unsafe = []                   # expressions that are not escaped

    # verdicts: report(kind, construct, ok, what, loc)

    def bad(self, b):
        where = f'{b.loc[0]}' if b.loc else self.name
        self.report('xml' if b.kind in ('xml', 'jinja') else 'unknown', f'{where}: {b.what}', None if b.kind == 'unknown' else False, b.what, b.loc)

    def go(self):
        try:
            tree = self.templates.tree(self.name)
        except Bad as b:
            self.bad(b)
            return None
        roots = [k for k in tree if isinstance(k, El)]
        sc = Scope({'xml': XML}, {}, (), (), ())
        return tree, roots, sc

    def qname(self, parts, scope, what, loc):
        if not all(isinstance(p, str) for p in parts):
            raise Unk('computed name')
        s = ''.join(parts)
        if ':' in s:
            p, n = s.split(':', 1)
            if p not in scope.ns:
                raise Bad('xml', f'namespace prefix {p} of {what} {s} is not declared', loc)
            return (scope.ns[p], n)
        return (scope.ns.get('', ''), s)

    def inner(self, el, scope):
        ns = dict(scope.ns)
        for a, v in el.attrs:
            if a == 'xmlns' or a.startswith('xmlns:'):
                if not all(isinstance(x, str) for x in v):
                    raise Unk('computed namespace')
                ns[a[6:]] = ''.join(v)
        return scope.but(ns=ns)

    def names(self, el, scope):
        """[(qualified name, constants)] that an element can have; scope: where it stands."""
        sc = self.inner(el, scope)
        exprs = [p for p in el.name if not isinstance(p, str)]
        if not exprs:
            return [(self.qname(el.name, sc, 'element', el.loc), ())]
        owners = set()
        for x in exprs:
            e = resolve(x[1], scope.env)
            if e[0] != 'path':
                raise Unk('computed name')
            owners.add(e[1][:-1])
        if len(owners) != 1 or not self.instances:
            raise Unk('computed name')
        owner = owners.pop()
        have = [dict(scope.consts).get(owner + ('name',))] if owner + ('name',) in dict(scope.consts) else None
        out = []
        for inst in self.instances:
            if have and inst['name'] != have[0]:
                continue
            parts = []
            for p in el.name:
                if isinstance(p, str):
                    parts.append(p)
                else:
                    v = inst.get(resolve(p[1], scope.env)[1][-1], Unknown)
                    if not isinstance(v, str):
                        raise Unk('computed name')
                    parts.append(v)
            q = self.qname((''.join(parts),), sc, 'element', el.loc)
            out.append((q, tuple((owner + (k,), v) for k, v in inst.items() if v is not Unknown)))
        return out

    # -- content of one element --------------------------------------------------

    def conds_in(self, nodes, scope, skip=None, out=None):
        """Atoms of the conditions in the direct content; below a loop only those about other things than its items."""
        out = set() if out is None else out
        env = dict(scope.env)
        for n in nodes:
            if isinstance(n, El) or n[0] in ('text', 'out', 'bad'):
                continue
            sc = scope.but(env=env)
            if n[0] == 'if':
                for a in atoms(resolve(n[1], env), set()):
                    out.add(a)
                self.conds_in(n[2], sc, skip, out)
                self.conds_in(n[3], sc, skip, out)
            elif n[0] == 'for':
                e2, item = self.loop_env(n, env)
                inner = self.conds_in(n[3], sc.but(env=e2), skip)
                out |= {a for a in inner if not mentions(a, item)}
            elif n[0] == 'set':
                env[n[1]] = resolve(n[2], env)
            elif n[0] == 'with':
                e2 = dict(env)
                for k, v in n[1]:
                    e2[k] = resolve(v, env)
                self.conds_in(n[2], sc.but(env=e2), skip, out)
            elif n[0] in ('include', 'autoescape'):
                self.conds_in(n[1] if n[0] == 'include' else n[2], sc, skip, out)
        return out

    def loop_env(self, n, env):
        it = resolve(n[2], env)
        if it[0] != 'path' or len(n[1]) != 1:
            raise Unk('loop over ' + showexpr(it))
        e2 = dict(env)
        item = it[1] + ('[]',)
        e2[n[1][0]] = ('path', item)
        e2['loop'] = ('loop', item)
        return e2, item

    def regex(self, nodes, scope, case):
        parts = []
        env = dict(scope.env)
        for n in nodes:
            sc = scope.but(env=env)
            if isinstance(n, El):
                alts = tuple(('el', q) for q, _ in self.names(n, sc))
                parts.append(alts[0] if len(alts) == 1 else ('alt', alts))
            elif n[0] in ('text', 'out'):
                continue
            elif n[0] == 'bad':
                raise Unk(n[1].what) if n[1].kind == 'unknown' else Broken(n[1])
            elif n[0] == 'if':
                v = case.truth(resolve(n[1], env))
                if v is not False:
                    a = self.regex(n[2], sc, case)
                if v is not True:
                    b = self.regex(n[3], sc, case)
                parts.append(a if v is True else b if v is False else ('alt', (a, b)))
            elif n[0] == 'for':
                e2, item = self.loop_env(n, env)
                s2 = sc.but(env=e2)
                at = {a for a in self.conds_in(n[3], s2) if mentions(a, item)}
                outs = {}
                for c in cases(at, case.consts):
                    c2 = Case({**case.s, **c.s}, case.consts)
                    try:
                        r = self.regex(n[3], s2, c2)
                    except Broken as b:
                        self.bad(b.args[0])
                        continue
                    outs[repr(r)] = r
                body = ('alt', tuple(outs.values()))
                parts.append(('rep', body, 1, None))
            elif n[0] == 'set':
                env[n[1]] = resolve(n[2], env)
            elif n[0] == 'with':
                e2 = dict(env)
                for k, v in n[1]:
                    e2[k] = resolve(v, env)
                parts.append(self.regex(n[2], sc.but(env=e2), case))
            elif n[0] == 'include':
                parts.append(self.regex(n[1], sc, case))
            elif n[0] == 'autoescape':
                parts.append(self.regex(n[2], sc, case))
            else:
                raise Unk(n[0])
        return ('seq', tuple(parts))

    def element(self, el, decl, scope, q, template):
        """Check an element against its declaration; scope: where it stands (conditions, constants)."""
        self.elements += 1
        sc = self.inner(el, scope)
        sc = sc.but(xpath=scope.xpath + (q,))
        where = f'{template}: {"/".join(x[1] for x in sc.xpath[1:] or sc.xpath)}'
        model = self.schema.model(decl)
        attrs = {}
        for a, v in el.attrs:
            if a == 'xmlns' or a.startswith('xmlns:'):
                continue
            if ':' in a:
                p, n = a.split(':', 1)
                if p not in sc.ns:
                    self.report('xml', f'{where}/@{a}', False, f'namespace prefix {p} of attribute {a} is not declared', el.loc)
                    continue
                attrs[(sc.ns[p], n)] = v
            else:
                attrs[('', a)] = v
        if model[0] in ('simple', 'complex'):
            known = model[2]
            for a in attrs:
                self.report('attributes', f'{where}/@{a[1]}', a in known or '*' in known or a[0] == XML, f'attribute {a[1]} is not allowed on {q[1]}', el.loc)
            for a, req in known.items():
                if req:
                    self.report('attributes', f'{where}/@{a[1]}', a in attrs, f'attribute {a[1]} of {q[1]} is missing', el.loc)
        if model[0] == 'any':
            return                     # the schema allows anything here
        if model[0] == 'simple':
            self.simple(el, decl, model[1], sc, where, template)
            return
        # complex content
        for kind, n in self.loose(el.kids, sc):
            self.report('text', where, False, f'text in {q[1]}, which has only elements: {kind}', n)
        nb = NFA(model[1])
        try:
            at = self.conds_in(el.kids, sc)
            seen = {}
            for case in cases(at, sc.consts, sc.conds):
                if not self.normal(case):
                    continue
                try:
                    r = self.regex(el.kids, sc, case)
                except Broken as b:
                    self.bad(b.args[0])
                    continue
                if repr(r) not in seen:
                    seen[repr(r)] = (r, case)
            for r, case in seen.values():
                self.checked += 1
                res = included(NFA(r), nb)
                if res is None:
                    self.report('structure', where, True, '', el.loc)
                else:
                    w, what = res
                    st = ', '.join(f'{showexpr(("path", a[1])) if a[0] == "p" else showexpr(a[1])}: {s}' for a, s in sorted(case.s.items(), key=repr))
                    self.report('structure', f'{where}: {what}', False, f'{q[1]} with {" ".join(w) or "nothing"}: {what}' + (f' (when {st})' if st else ''), el.loc)
        except Unk as u:
            self.report('unknown', where, None, str(u), el.loc)
        self.children(el.kids, nb, sc, template)

    def normal(self, case):
        return not any(a[0] == 'p' and s != 'truthy' and any(a[1][-len(g):] == g for g in self.given) for a, s in case.s.items())

    def loose(self, nodes, scope):
        """Text and values directly in the content."""
        for n in nodes:
            if isinstance(n, El):
                continue
            if n[0] == 'text' and n[1].strip():
                yield repr(n[1].strip()[:30]), n[2]
            elif n[0] == 'out' and n[1] != ('const', ''):
                yield '{{ ' + showexpr(n[1]) + ' }}', n[2]
            elif n[0] == 'if':
                yield from self.loose(n[2], scope)
                yield from self.loose(n[3], scope)
            elif n[0] in ('for', 'autoescape'):
                yield from self.loose(n[3] if n[0] == 'for' else n[2], scope)
            elif n[0] == 'with':
                yield from self.loose(n[2], scope)
            elif n[0] == 'include':
                yield from self.loose(n[1], scope)

    def children(self, nodes, nb, scope, template):
        env = dict(scope.env)
        for n in nodes:
            sc = scope.but(env=env)
            if isinstance(n, El):
                try:
                    for q, consts in self.names(n, sc):
                        d = next((nb.decl[k] for k in nb.decl if k[1] == q), None)
                        if d is None:
                            continue        # reported with the structure
                        self.element(n, d, sc.but(consts=sc.consts + consts), q, template)
                except Unk as u:
                    self.report('unknown', f'{template}: <{showname(n.name)}>', None, str(u), n.loc)
                except Bad as b:
                    self.bad(b)
            elif n[0] == 'bad':
                self.bad(n[1])
            elif n[0] == 'if':
                c = resolve(n[1], env)
                self.children(n[2], nb, sc.but(conds=sc.conds + ((c, True),)), template)
                self.children(n[3], nb, sc.but(conds=sc.conds + ((c, False),)), template)
            elif n[0] == 'for':
                try:
                    e2, item = self.loop_env(n, env)
                except Unk as u:
                    self.report('unknown', f'{template}: loop', None, str(u), n[5])
                    continue
                self.children(n[3], nb, sc.but(env=e2), template)
            elif n[0] == 'set':
                env[n[1]] = resolve(n[2], env)
            elif n[0] == 'with':
                e2 = dict(env)
                for k, v in n[1]:
                    e2[k] = resolve(v, env)
                self.children(n[2], nb, sc.but(env=e2), template)
            elif n[0] == 'include':
                self.children(n[1], nb, sc, template)
            elif n[0] == 'autoescape':
                self.children(n[2], nb, sc, template)

    def simple(self, el, decl, type_, scope, where, template):
        """The content of an element that holds a value."""
        parts = []
        try:
            self.values(el.kids, scope, parts)
        except Unk as u:
            self.report('unknown', where, None, str(u), el.loc)
            return
        for kind, v, conds, loc in parts:
            if kind == 'el':
                self.report('structure', f'{where}: {v}', False, f'element {v} in {where}, which holds a value', loc)
        vals = [x for x in parts if x[0] != 'el']
        if not vals:
            self.leaves.append(Leaf(template=template, xpath=scope.xpath, expr=('const', ''), conds=scope.conds, decl=decl, type=type_, loc=el.loc, consts=scope.consts, alone=True))
        for kind, v, conds, loc in vals:
            others = [x for x in vals if x[1] is not v and not exclusive(conds, x[2])]
            self.leaves.append(Leaf(template=template, xpath=scope.xpath, expr=v if kind == 'out' else ('const', v), conds=conds, decl=decl,
                                    type=type_, loc=loc, consts=scope.consts, alone=not others))

    def values(self, nodes, scope, out):
        env = dict(scope.env)
        for n in nodes:
            sc = scope.but(env=env)
            if isinstance(n, El):
                out.append(('el', showname(n.name), scope.conds, n.loc))
            elif n[0] == 'text':
                if n[1].strip():
                    out.append(('text', n[1].strip(), scope.conds, n[2]))
            elif n[0] == 'out':
                out.append(('out', resolve(n[1], env), scope.conds, n[2]))
            elif n[0] == 'if':
                c = resolve(n[1], env)
                self.values(n[2], sc.but(conds=sc.conds + ((c, True),)), out)
                self.values(n[3], sc.but(conds=sc.conds + ((c, False),)), out)
            elif n[0] == 'set':
                env[n[1]] = resolve(n[2], env)
            elif n[0] == 'with':
                e2 = dict(env)
                for k, v in n[1]:
                    e2[k] = resolve(v, env)
                self.values(n[2], sc.but(env=e2), out)
            elif n[0] == 'include':
                self.values(n[1], sc, out)
            elif n[0] == 'autoescape':
                self.values(n[2], sc, out)
            elif n[0] == 'bad':
                self.bad(n[1])
            else:
                raise Unk(f'{n[0]} in a value')


class Broken(Exception):
    """A block that cannot be rendered."""


def mentions(atom, item):
    if atom[0] == 'p':
        return atom[1][:len(item)] == item
    return any(p[:len(item)] == item for p in paths_in(atom[1]))


def exclusive(a, b):
    """Do two lists of conditions contradict each other?"""
    return any(c == d and v != w for c, v in a for d, w in b)


# -- the whole set of messages -----------------------------------------------------

def measurements(ctx):
    """The measurements that the library knows, as constants: those of enums.MEASUREMENTS and a custom one."""
    out = []
    for name, v in members(ctx, 'openleadr.enums.MEASUREMENTS').items():
        if isinstance(v, Inst):
            out.append((name, dict(v)))
    try:
        ns = evaluate(ctx, 'openleadr.enums', '_MEASUREMENT_NAMESPACES')
    except Unknown:
        ns = {}
    if 'customUnit' in ns:
        out.append(('customUnit', {'name': 'customUnit', 'ns': ns['customUnit'], 'scale': 'none', 'power_attributes': None, 'pulse_factor': None}))
    return out, ns


# -- documents -----------------------------------------------------------------------

class Doc:
    """One document that a template produces: nested (name, children | text), and what fills the values."""

    def __init__(self, walk, given, count, instance, text):
        self.w, self.given, self.count, self.instance, self.text = walk, given, count, instance, text
        self.filled = []               # (indexed message path, declaration type or None, text, place in the template)
        self.broken = False

    def build(self):
        tree, roots, sc = self.w.go()
        el = roots[0]
        q = self.w.qname(el.name, self.w.inner(el, sc), 'element', el.loc)
        return self.element(el, self.w.schema.elements[q], sc, {})

    def case(self, e, idx):
        at = atoms(e, set())
        c = Case({a: self.state(a, idx) for a in at})
        return c.truth(e)

    def state(self, a, idx):
        if a[0] == 'x':
            return self.given(a, None, ())
        return self.given(a, self.const(a[1]), self.index(a[1], idx))

    def const(self, p):
        """The instance's value for the path of a part of a measurement, or None."""
        for i, part in enumerate(p):
            if part == 'measurement' and i == len(p) - 2 and p[-1] in self.instance:
                return ('const', self.instance[p[-1]])
        return None

    def index(self, p, idx):
        out = []
        for i, part in enumerate(p):
            if part == '[]':
                out.append(idx.get(p[:i + 1], 0))
            else:
                out.append(part)
        return tuple(out)

    def element(self, el, decl, scope, idx):
        sc = self.w.inner(el, scope)
        model = self.w.schema.model(decl)
        if model[0] == 'simple':
            parts = []
            self.values(el.kids, sc, idx, parts, model[1])
            text = ''.join(parts) or None
            at = self.attributes(el)
            return at + ([('#text', text)] if text else []) if at else text
        nb = NFA(model[1]) if model[0] == 'complex' else None
        out = self.attributes(el)
        self.content(el.kids, sc, idx, nb, out)
        return out

    def attributes(self, el):
        return [('@' + a.split(':')[-1], 'x') for a, _ in el.attrs if a != 'xmlns' and not a.startswith('xmlns:')]

    def content(self, nodes, scope, idx, nb, out):
        env = dict(scope.env)
        for n in nodes:
            sc = scope.but(env=env)
            if isinstance(n, El):
                names = self.w.names(n, sc)
                if len(names) > 1:
                    owner = next(p for p, _ in names[0][1])[:-1]
                    names = [x for x in names if dict(x[1]).get(owner + ('name',)) == self.instance['name']]
                    self.filled.append((self.index(owner + ('name',), idx), None, self.instance['name'], n.loc))
                q, consts = names[0]
                d = next((nb.decl[k] for k in nb.decl if k[1] == q), None) if nb else None
                if d is None:
                    raise Unk(f'{q[1]} is not in the schema')
                out.append((q, self.element(n, d, sc, idx)))
            elif n[0] == 'bad':
                if n[1].kind == 'unknown':
                    raise Unk(n[1].what)
                self.broken = True         # reported with the structure of the templates
            elif n[0] == 'if':
                v = self.case(resolve(n[1], env), idx)
                if v is None:
                    raise Unk(showexpr(n[1]))
                self.content(n[2] if v else n[3], sc, idx, nb, out)
            elif n[0] == 'for':
                e2, item = self.w.loop_env(n, env)
                st = self.state(('p', item[:-1]), idx)
                count = self.count if isinstance(self.count, int) else self.count(item, idx)
                for k in range(count if st == 'truthy' else 0):
                    self.content(n[3], sc.but(env=e2), {**idx, item: k}, nb, out)
            elif n[0] == 'set':
                env[n[1]] = resolve(n[2], env)
            elif n[0] == 'with':
                e2 = dict(env)
                for k, v in n[1]:
                    e2[k] = resolve(v, env)
                self.content(n[2], sc.but(env=e2), idx, nb, out)
            elif n[0] == 'include':
                self.content(n[1], sc, idx, nb, out)
            elif n[0] == 'autoescape':
                self.content(n[2], sc, idx, nb, out)

    def values(self, nodes, scope, idx, out, type_):
        env = dict(scope.env)
        for n in nodes:
            sc = scope.but(env=env)
            if n[0] == 'text':
                out.append(n[1].strip())
            elif n[0] == 'out':
                e = resolve(n[1], env)
                while e[0] == 'filter':
                    e = e[1]
                if e[0] == 'const':
                    out.append(str(e[1]))
                elif e[0] == 'path':
                    p = self.index(e[1], idx)
                    c = self.const(e[1])
                    s = str(c[1]) if c and isinstance(c[1], (str, int, float)) and not isinstance(c[1], bool) else self.text(p, type_)
                    self.filled.append((p, type_, s, n[2]))
                    out.append(s)
                elif e[0] == 'attr' and e[1][0] == 'loop':
                    k = idx[e[1][1]]
                    out.append({'index': str(k + 1), 'index0': str(k)}.get(e[2], 'x'))
                else:
                    raise Unk(showexpr(e))
            elif n[0] == 'if':
                v = self.case(resolve(n[1], env), idx)
                if v is None:
                    raise Unk(showexpr(n[1]))
                self.values(n[2] if v else n[3], sc, idx, out, type_)
            elif n[0] == 'set':
                env[n[1]] = resolve(n[2], env)
            elif n[0] == 'include':
                self.values(n[1], sc, idx, out, type_)
            elif n[0] != 'bad':
                raise Unk(n[0])


def as_dict(content, namespaces):
    """What xmltodict makes of the content of an element, with its translation of namespaces."""
    if content is None or isinstance(content, str):
        return content
    if not content:
        return None
    d = {}
    for name, c in content:
        if not isinstance(name, str):
            short = namespaces.get(name[0], name[0])
            name = f'{short}:{name[1]}' if short else name[1]
        v = as_dict(c, namespaces)
        if name in d:
            if not isinstance(d[name], list):
                d[name] = [d[name]]
            d[name].append(v)
        else:
            d[name] = v
    return d
