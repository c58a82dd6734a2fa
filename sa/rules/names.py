"""C51: every name, attribute and parameter that the library itself uses exists."""
import ast
import builtins
import glob
import os
import re

from ..repo import PKG

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__class__', '__loader__', '__builtins__', '__annotations__', '__dict__', '__module__', '__qualname__'}
OBJECT = set(dir(object)) | {'__dict__', '__name__', '__qualname__', '__module__', '__annotations__', '__dataclass_fields__', '__bases__', '__mro__', '__subclasses__', '__wrapped__', '__weakref__', '__slots__'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
HARMLESS = {'list', 'dict', 'set', 'tuple', 'len', 'str', 'bool', 'isinstance', 'datetime.now', 'print', 'super'}
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def C51(ctx):
    ctx.rule('bound', 'no statement reads a local variable that nothing has bound by then, and no name that exists nowhere')
    ctx.rule('members', 'a member of a module, class or constant table of the library that is read, exists')
    ctx.rule('calls', 'a function, method or class of the library is called with parameters that it takes, and with all that it requires')
    ctx.rule('keys', 'a member that is read under a fixed name is one that some message, object or table of the library has')
    keys(ctx)
    for mod in ctx.repo.modules.values():
        with open(mod.path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
        Mod(ctx, mod, tree).check()


EXTERNAL = re.compile(r'headers|environ|cookies|query|match|globals|locals|vars\(|peercert|__dict__|config|extra_info|match_info')
MEMBERS = ('getmember', 'setmember', 'hasmember', 'find_by', 'pop_by')


def snakes(name):
    """The names that a message element of this name may get in Python."""
    bare = re.sub(r'^(oadr|ei)(?=[A-Z])', '', name)
    for n in (name, bare):
        yield re.sub(r'(?<!^)(?=[A-Z])', '_', n).lower()
        yield re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', n).lower()
        yield re.sub(r'(?<!^)(?=[A-Z][a-z])', '_', n).lower()


def keys(ctx):
    """Fixed member names that are read anywhere, against the names that exist anywhere."""
    known = set()
    for pat in ('schema/*.xsd', 'templates/*.xml', 'templates/*/*.xml'):
        for fn in glob.glob(os.path.join(ctx.repo.root, PKG, pat)):
            with open(fn, encoding='utf-8') as f:
                txt = f.read()
            if pat.startswith('schema'):
                for m in re.findall(r'name="(\w+)"', txt):
                    known |= set(snakes(m)) | {m}
            else:
                known |= set(re.findall(r'\w+', txt))
    reads = []
    for mod in ctx.repo.modules.values():
        with open(mod.path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
        tested = {}
        for fn in [tree] + [n for n in ast.walk(tree) if isinstance(n, FUNCS[:2])]:
            for n in ast.walk(fn):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.left, ast.Constant):
                    tested.setdefault(fn, set()).add(n.left.value)
                elif isinstance(n, ast.Dict):
                    known |= {k.value for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)}
                elif isinstance(n, (ast.Tuple, ast.List, ast.Set)):
                    known |= {k.value for k in n.elts if isinstance(k, ast.Constant) and isinstance(k.value, str)}
                elif isinstance(n, ast.Call):
                    known |= {k.arg for k in n.keywords if k.arg}
                    f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                    if f in ('setattr', 'setmember', 'setdefault', 'namedtuple'):
                        known |= {a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
                elif isinstance(n, FUNCS[:2]):
                    known |= set(params(n.args))
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    known.add(n.target.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    known.add(n.attr)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant):
                    known.add(n.slice.value)
        for fn in [n for n in ast.walk(tree) if isinstance(n, FUNCS[:2])]:
            for n in ast.walk(fn):
                ks, base = (), ''
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                    ks, base = (n.slice.value,), ast.unparse(n.value)
                elif isinstance(n, ast.Call):
                    f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                    if f in ('get', 'pop') and isinstance(n.func, ast.Attribute) and n.args:
                        ks, base = (n.args[0],), ast.unparse(n.func.value)
                    elif f in MEMBERS and len(n.args) > 1:
                        ks, base = (n.args[1],), ast.unparse(n.args[0])
                    ks = [p for k in ks if isinstance(k, ast.Constant) and isinstance(k.value, str) for p in k.value.split('.')]
                for k in ks:
                    if re.fullmatch(r'[a-z]\w{2,}', k):
                        reads.append((mod, fn, n, k, base, k in tested.get(fn, ())))
    for mod, fn, n, k, base, tested in reads:
        where = f'{mod.name}.{fn.name}'
        ok = True if k in known else None if tested or EXTERNAL.search(base) else False
        ctx.judge('keys', f'{where}: {k}', ok, f'{k} is read from {base}, but nothing has a member of that name', (mod.relpath, where, n.lineno))


def bound_in(body):
    """The names that these statements bind in their own scope."""
    out = set()

    def target(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)

    def visit(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                visit(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, COMPS):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    return out


def params(a):
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def exits(body):
    return bool(body) and any(isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for s in body)


class Mod:
    def __init__(self, ctx, mod, tree):
        self.ctx, self.mod, self.tree, self.repo = ctx, mod, tree, ctx.repo
        self.globals = bound_in(tree.body)
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
        self.star = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(tree))
        self.dynamic = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'eval') for n in ast.walk(tree))

    def loc(self, n, where):
        return (self.mod.relpath, where, n.lineno)

    # -- scopes

    def check(self):
        self.scope(self.tree.body, self.mod.name, [], None, module=True)

    def scope(self, body, where, outer, cls, module=False, args=None):
        """outer: the sets of local names of the enclosing functions."""
        for n in body:
            self.inner(n, where, outer, cls, module)

    def inner(self, n, where, outer, cls, module=False):
        """Look into the functions and classes defined directly in this statement (module or class level)."""
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                self.reads(d, where, outer, cls)
            self.function(n, f'{where}.{n.name}', outer, cls)
        elif isinstance(n, ast.ClassDef):
            c = self.mod.classes.get(n.name) if module else None
            names = bound_in(n.body)
            for s in n.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    self.inner(s, f'{where}.{n.name}', outer, c)
                else:
                    self.reads(s, f'{where}.{n.name}', outer + [names], c)
        elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for f in ('test', 'iter'):
                if getattr(n, f, None) is not None:
                    self.reads(getattr(n, f), where, outer, cls)
            for fld in ('body', 'orelse', 'finalbody'):
                for s in getattr(n, fld, []) or []:
                    self.inner(s, where, outer, cls, module)
            for h in getattr(n, 'handlers', []) or []:
                for s in h.body:
                    self.inner(s, where, outer, cls, module)
        else:
            self.reads(n, where, outer, cls)

    def function(self, n, where, outer, cls):
        body = n.body if not isinstance(n, ast.Lambda) else [ast.Expr(n.body)]
        local = bound_in(body) | set(params(n.args))
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                local -= set(x.names)
        self.ctx.functions.add(where)
        for s in body:
            self.reads(s, where, outer + [local], cls, n)
        if not isinstance(n, ast.Lambda) and not self.dynamic:
            Flow(self, n, where, local).run()

    # -- reads that do not depend on the order

    def reads(self, node, where, outer, cls, fn=None):
        todo = [node]
        while todo:
            n = todo.pop()
            if isinstance(n, FUNCS):
                if not isinstance(n, ast.Lambda):
                    todo.extend(n.decorator_list)
                todo.extend(n.args.defaults + [k for k in n.args.kw_defaults if k])
                self.function(n, f'{where}.{getattr(n, "name", "<lambda>")}', outer, cls)
                continue
            if isinstance(n, ast.ClassDef):
                self.inner(n, where, outer, None)
                continue
            if isinstance(n, COMPS):
                names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in ast.iter_child_nodes(n):
                    self.reads(c, where, outer + [names], cls, fn)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                ok = self.known(n.id, outer)
                self.ctx.judge('bound', f'{where}: {n.id}', True if ok else None if self.star or self.dynamic else False,
                               f'the name {n.id} is read, but nothing defines it', self.loc(n, where))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.attribute(n, where, outer, cls, fn)
            elif isinstance(n, ast.Call):
                self.call(n, where, outer, cls, fn)
            elif isinstance(n, ast.AnnAssign) and self.is_module_level(outer):
                pass
            todo.extend(ast.iter_child_nodes(n))

    @staticmethod
    def is_module_level(outer):
        return not outer

    def known(self, name, outer):
        return any(name in o for o in outer) or name in self.globals or name in BUILTINS

    # -- what an expression stands for

    def stands(self, n, outer):
        """('mod', name) | ('class', Class) | ('func', Func) | None, for an expression that names something of the library."""
        if isinstance(n, ast.Name):
            if any(n.id in o for o in outer):
                return self.local_import(n.id, outer)
            if len(self.mod.globals.get(n.id, ())) or sum(n.id in t for t in (self.mod.imports, self.mod.funcs, self.mod.classes)) != 1:
                return None
            r = self.repo.resolve(self.mod, n.id)
        elif isinstance(n, ast.Attribute):
            b = self.stands(n.value, outer)
            if b is None or b[0] != 'mod' or b[1] not in self.repo.modules:
                return None
            r = self.repo.mod_attr(b[1], n.attr)
        else:
            return None
        if r is None or r[0] not in ('mod', 'class', 'func'):
            return None
        return r

    def local_import(self, name, outer):
        return None

    def module_has(self, dotted, name):
        m = self.repo.modules[dotted]
        if f'{dotted}.{name}' in self.repo.modules or name in BUILTINS and name.startswith('__'):
            return True
        if name in m.funcs or name in m.classes or name in m.imports or name in m.globals:
            return True
        with open(m.path, encoding='utf-8') as f:
            t = ast.parse(f.read())
        names = bound_in(t.body)
        for x in ast.walk(t):
            if isinstance(x, ast.Global):
                names |= set(x.names)
            if isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names):
                return None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('globals', 'setattr'):
                if x.func.id == 'globals':
                    pass
        return name in names or '__getattr__' in names

    def family(self, cls):
        fam = set(self.repo.mro(cls))
        for c in list(fam):
            fam |= set(self.repo.subclasses(c))
        for c in list(fam):
            fam |= set(self.repo.mro(c))
        return fam

    def class_has(self, cls, name, instance):
        if name in OBJECT:
            return True
        if any('__getattr__' in c.methods or '__getattribute__' in c.methods for c in self.repo.mro(cls)):
            return True
        ext = self.repo.ext_ancestors(cls)
        fam = self.family(cls) if instance else set(self.repo.mro(cls))
        for c in fam:
            if name in c.methods or name in c.attrs or name in bound_in(c.node.body) or instance and name in dict(c.fields):
                return True
        if not instance and cls.metaclass:
            m = self.repo.resolve(cls.module, cls.metaclass)
            if m is None or m[0] != 'class':
                return None
            if name in m[1].methods or name in m[1].attrs or name in OBJECT:
                return True
            if any(e not in ('type', 'object') for e in self.repo.ext_ancestors(m[1])):
                return None
        if set(ext) - {'object', 'ABC'}:
            if all(isinstance(getattr(builtins, e, None), type) for e in ext):
                if any(hasattr(getattr(builtins, e), name) for e in ext):
                    return True
            else:
                return None
        # set anywhere in the library, on anything
        if self.stored(name):
            return True
        if instance and name.startswith('on_'):
            return None
        # a constructor that sets attributes under computed names
        for c in fam if instance else ():
            init = c.methods.get('__init__')
            for x in ast.walk(init.node) if init is not None else ():
                if isinstance(x, ast.Name) and x.id in ('setattr', 'vars', 'locals') or isinstance(x, ast.Attribute) and x.attr in ('__dict__', '__setattr__'):
                    return None
        return False

    def attribute(self, n, where, outer, cls, fn):
        if n.attr.startswith('__') and n.attr.endswith('__') and n.attr in OBJECT:
            return
        b = self.stands(n.value, outer)
        if b is not None and b[0] == 'mod' and b[1] in self.repo.modules:
            self.ctx.judge('members', f'{where}: {ast.unparse(n)}', self.module_has(b[1], n.attr), f'{b[1]} has no {n.attr}', self.loc(n, where))
        elif b is not None and b[0] == 'class':
            self.ctx.judge('members', f'{where}: {ast.unparse(n)}', self.class_has(b[1], n.attr, False), f'{b[1].name} has no {n.attr}', self.loc(n, where))
        elif cls is not None and isinstance(n.value, ast.Name) and self.is_self(n.value.id, outer, cls, fn):
            self.ctx.judge('members', f'{where}: {ast.unparse(n)}', self.class_has(cls, n.attr, True), f'a {cls.name} has no {n.attr}', self.loc(n, where))

    def is_self(self, name, outer, cls, fn):
        return name == 'self' and bool(outer) and any(name in o for o in outer)

    # -- calls

    def callee(self, f, outer, cls):
        """(Func or Class, number of leading parameters already given) of what is called."""
        b = self.stands(f, outer)
        if b is not None and b[0] == 'func':
            return b[1], 0
        if b is not None and b[0] == 'class':
            return b[1], 0
        if isinstance(f, ast.Attribute):
            if cls is not None and isinstance(f.value, ast.Name) and f.value.id == 'self':
                ms = {c.methods[f.attr] for c in self.family(cls) if f.attr in c.methods}
                if len(ms) != 1 or self.replaced(f.attr):
                    return None
                m = ms.pop()
                return None if m.kind in ('property', 'setter') else (m, 0 if m.kind == 'static' else 1)
            b = self.stands(f.value, outer)
            if b is not None and b[0] == 'class':
                m = self.repo.find_method(b[1], f.attr)
                if m is not None and m.kind in ('static', 'classmethod', 'method'):
                    return m, 1 if m.kind == 'classmethod' else 0
        return None

    def replaced(self, name):
        """Is an attribute of this name set on anything, anywhere (handlers, on_*, are set by add_handler under computed names)?"""
        return name.startswith('on_') or self.stored(name)

    def stored(self, name):
        return any(isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store) for m in self.repo.modules.values() for x in ast.walk(m.tree))

    def signature(self, what):
        """(positional names, number required, keyword names, required keywords, *args, **kwargs) or None"""
        if hasattr(what, 'node') and isinstance(what.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            deco = {ast.unparse(d) for d in what.node.decorator_list} - {'staticmethod', 'classmethod'}
            if deco:
                return None
            a = what.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            req = pos[:len(pos) - len(a.defaults)]
            kwo = [x.arg for x in a.kwonlyargs]
            kreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
            return pos, req, kwo, kreq, a.vararg is not None, a.kwarg is not None
        init = self.repo.find_method(what, '__init__')
        new = self.repo.find_method(what, '__new__')
        if new is not None or what.metaclass:
            return None
        if any(c.is_dataclass for c in self.repo.mro(what)):
            if init is not None or any(e not in ('object', 'ABC') for e in self.repo.ext_ancestors(what)):
                return None
            if any(len(c.decorators) != 1 or not c.is_dataclass or '(' in c.decorators[0] for c in self.repo.mro(what)):
                return None
            pos, req = [], []
            for k, (d, _) in self.repo.fields(what).items():
                t = ast.unparse(d) if d is not None else ''
                ann = next((ast.unparse(c.annotations[k]) for c in self.repo.mro(what) if k in c.annotations), '')
                if 'ClassVar' in ann or 'KW_ONLY' in ann or 'InitVar' in ann or 'init=' in t or 'kw_only' in t:
                    return None
                pos.append(k)
                if d is None or t.split('(')[0].split('.')[-1] == 'field' and 'default' not in t:
                    req.append(k)
            return pos, req, [], [], False, False
        if init is None:
            return None if [e for e in self.repo.ext_ancestors(what) if e != 'object'] else ([], [], [], [], False, False)
        if init.node.decorator_list:
            return None
        s = self.signature(init)
        return s and (s[0][1:], s[1][1:], *s[2:])

    def call(self, n, where, outer, cls, fn):
        partial = False
        f, args, kws = n.func, n.args, n.keywords
        if isinstance(f, ast.Name) and f.id == 'partial' and self.mod.imports.get('partial', ('',))[0] == 'from' and args or isinstance(f, ast.Attribute) and ast.unparse(f) == 'functools.partial' and args:
            partial, f, args = True, args[0], args[1:]
        c = self.callee(f, outer, cls)
        if c is None:
            return
        what, skip = c
        s = self.signature(what)
        name = f'{where}: {what.qual}'
        self.ctx.calls += 1
        if s is None:
            return
        pos, req, kwo, kreq, va, vk = s
        pos, req = pos[skip:], req[skip:]
        loc = self.loc(n, where)
        starred = any(isinstance(a, ast.Starred) for a in args)
        dstar = any(k.arg is None for k in kws)
        given = [k.arg for k in kws if k.arg is not None]
        npos = sum(not isinstance(a, ast.Starred) for a in args)
        ok = va or npos <= len(pos)
        self.ctx.judge('calls', f'{name}: number of parameters', bool(ok), f'{what.qual} takes {len(pos)} parameters, it is given {npos}', loc)
        extra = [k for k in given if k not in pos and k not in kwo]
        self.ctx.judge('calls', f'{name}: parameter names', not extra or vk, f'{what.qual} has no parameter {", ".join(extra)}', loc)
        twice = [k for k in given if k in pos[:npos]]
        self.ctx.judge('calls', f'{name}: given once', not twice, f'{", ".join(twice)} of {what.qual} is given twice', loc)
        if not starred and not dstar and not partial:
            lack = [k for k in req[npos:] if k not in given] + [k for k in kreq if k not in given]
            self.ctx.judge('calls', f'{name}: all given', not lack, f'{", ".join(lack)} of {what.qual} is not given', loc)


class Flow:
    """Which local variables may be bound at each read; a read where none of the ways binds it is an error."""

    def __init__(self, mod, fn, where, local):
        self.mod, self.fn, self.where, self.local = mod, fn, where, local
        self.seen = set()

    def run(self):
        if any(isinstance(x, ast.Match) for x in ast.walk(self.fn)):
            return
        self.block(self.fn.body, frozenset(params(self.fn.args)), ())

    def bad(self, n, what):
        if (n.id, n.lineno) not in self.seen:
            self.seen.add((n.id, n.lineno))
            self.mod.ctx.violation('bound', f'{self.where}: {n.id} before it is bound', what, self.mod.loc(n, self.where))

    def expr(self, n, st, skip=frozenset()):
        """Reads and bindings in an expression; returns the state after it."""
        if n is None:
            return st
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return st
        if isinstance(n, COMPS):
            sk = skip
            for i, g in enumerate(n.generators):
                st = self.expr(g.iter, st, sk)
                sk = sk | {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    st = self.expr(c, st, sk)
            for c in ('elt', 'key', 'value'):
                if getattr(n, c, None) is not None:
                    st = self.expr(getattr(n, c), st, sk)
            return st
        if isinstance(n, ast.NamedExpr):
            return self.expr(n.value, st, skip) | {n.target.id}
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.local and n.id not in skip and n.id not in st:
                self.bad(n, f'{n.id} is read before anything can have bound it')
            elif isinstance(n.ctx, ast.Load) and n.id in self.local and n.id not in skip:
                self.mod.ctx.ok('bound', f'{self.where}: {n.id} when read')
            return st
        for c in ast.iter_child_nodes(n):
            st = self.expr(c, st, skip)
        return st

    def bind(self, t, st):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                st = st | {x.id}
            elif isinstance(x, ast.Name):
                self.expr(x, st)
        return st

    def block(self, body, st, loop):
        """The names that may be bound after these statements, None when they never end normally."""
        for i, s in enumerate(body):
            if st is None:
                return None
            if isinstance(s, ast.Try) and body[i + 1:]:
                self.failed(s, st, body[i + 1:])
            st = self.stmt(s, st, loop)
        return st

    def first(self, body, st):
        """The first round of a loop, as far as it is one straight line: what is bound is what was bound before."""
        for s in body:
            if not self.straight(s):
                return
            st = self.stmt(s, st, ())

    @staticmethod
    def straight(s):
        return isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr)) and not any(isinstance(x, (ast.IfExp, ast.BoolOp)) for x in ast.walk(s))

    @staticmethod
    def fails(s):
        """May this statement raise?"""
        return any(isinstance(x, (ast.Await, ast.Subscript, ast.Raise)) or isinstance(x, ast.Call) and ast.unparse(x.func) not in HARMLESS for x in ast.walk(s))

    def failed(self, t, st, rest):
        """A try of which the very first part that can fail has failed, with a handler that carries on: the straight line after it."""
        for s in t.body:
            if self.fails(s):
                break
            st = st | bound_in([s])
        else:
            return
        for h in t.handlers:
            if any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for b in h.body for x in ast.walk(b)):
                continue
            cur = st | bound_in(h.body) | bound_in(t.finalbody)
            for s in rest:
                if not self.straight(s):
                    if isinstance(s, ast.Return) and s.value is not None and not any(isinstance(x, (ast.IfExp, ast.BoolOp)) for x in ast.walk(s)):
                        self.expr(s.value, cur)
                    break
                cur = self.stmt(s, cur, ())

    @staticmethod
    def join(*sts):
        sts = [s for s in sts if s is not None]
        return frozenset().union(*sts) if sts else None

    def stmt(self, s, st, loop):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d, st)
            return st | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | {(a.asname or a.name).split('.')[0] for a in s.names}
        if isinstance(s, ast.Assign):
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.bind(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            st = self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.local and s.target.id not in st:
                    self.bad(s.target, f'{s.target.id} is changed before anything can have bound it')
                return st | {s.target.id}
            return self.expr(s.target, st)
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                st = self.expr(s.value, st)
                st = self.bind(s.target, st)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = st - {t.id}
                else:
                    self.expr(t, st)
            return st
        if isinstance(s, ast.Return):
            self.expr(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            self.expr(s.exc, st)
            self.expr(s.cause, st)
            return None
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            return self.join(self.block(s.body, st, loop), self.block(s.orelse, st, loop))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.expr(s.iter, st)
            inner = st | bound_in(s.body)
            after = self.block(s.body, self.bind(s.target, inner), loop)
            self.first(s.body, self.bind(s.target, st))
            end = self.join(st, after, inner)
            r = self.block(s.orelse, end, loop)
            return self.join(r, end)
        if isinstance(s, ast.While):
            st = self.expr(s.test, st)
            inner = st | bound_in(s.body)
            self.first(s.body, st)
            self.block(s.body, inner, loop)
            return self.join(self.block(s.orelse, inner, loop), inner)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.bind(i.optional_vars, st)
            r = self.block(s.body, st, loop)
            return r if r is not None else None
        if isinstance(s, ast.Try):
            r = self.block(s.body, st, loop)
            r = self.block(s.orelse, r, loop) if r is not None else None
            hs = []
            for h in s.handlers:
                e = st | bound_in(s.body)
                if h.type is not None:
                    self.expr(h.type, e)
                if h.name:
                    e = e | {h.name}
                x = self.block(h.body, e, loop)
                hs.append(x - {h.name} if x is not None and h.name else x)
            out = self.join(r, *hs)
            if s.finalbody:
                f = self.block(s.finalbody, self.join(out, st | bound_in(s.body)), loop)
                return None if f is None or out is None else self.join(out, f - (bound_in(s.body) - out))
            return out
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        for c in ast.iter_child_nodes(s):
            st = self.expr(c, st)
        return st


CHECKS = {'C51': C51}
