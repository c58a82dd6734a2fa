"""Source model of the repository: parsed modules, classes, functions, imports.

Nothing of the analysed package is imported or executed; everything here is
derived from the text of the files under $VERIF_REPO (default /repo).
"""
import ast
import os

from sa.norm import normalise

ROOT = os.environ.get('VERIF_REPO', '/repo')
PKG = 'openleadr'


class AnchorMissing(Exception):
    """A public construct the analysis starts from is not in the source."""


class Func:
    __slots__ = ('name', 'qual', 'node', 'module', 'cls', 'is_async', 'kind', 'file', 'outer')

    def __init__(self, name, qual, node, module, cls=None, kind='function'):
        self.name = name
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.kind = kind
        self.file = module.relpath

    def __repr__(self):
        return f'<Func {self.qual}>'


class Class:
    def __init__(self, name, qual, node, module):
        self.name = name
        self.qual = qual
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}          # class level assignments: name -> ast expr
        self.fields = []         # annotated fields in order: (name, default ast or None)
        self.annotations = {}
        self.bases = []          # ast exprs
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.metaclass = None
        for kw in node.keywords:
            if kw.arg == 'metaclass':
                self.metaclass = ast.unparse(kw.value)

    @property
    def is_dataclass(self):
        return any(d.split('(')[0].split('.')[-1] == 'dataclass' for d in self.decorators)

    def __repr__(self):
        return f'<Class {self.qual}>'


class Module:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.is_pkg = is_pkg
        self.imports = {}       # local name -> ('mod', dotted) | ('from', dotted module, name)
        self.funcs = {}
        self.classes = {}
        self.globals = {}       # name -> list of ast expr assigned at module level (in order)


class Repo:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.modules = {}
        self.classes = {}       # qual -> Class
        self.funcs = {}         # qual -> Func
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnchorMissing(f'package directory {base} not found')
        for dirpath, dirnames, filenames in sorted(os.walk(base)):
            dirnames[:] = sorted(d for d in dirnames if d != '__pycache__')
            for fn in sorted(filenames):
                if fn.endswith('.py'):
                    self._load(os.path.join(dirpath, fn))

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == '__init__'
        if is_pkg:
            parts = parts[:-1]
        name = '.'.join(parts)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = normalise(ast.parse(src, filename=path))
        mod = Module(name, path, rel, tree, is_pkg)
        self.modules[name] = mod
        self._scan(mod, tree.body)

    def _scan(self, mod, body):
        for node in body:
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        mod.imports[a.asname] = ('mod', a.name)
                    else:
                        mod.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(node, ast.ImportFrom):
                self.add_from(mod, node, mod.imports)
            elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(node.name, f'{mod.name}.{node.name}', node, mod)
                mod.funcs[node.name] = f
                self.funcs[f.qual] = f
            elif isinstance(node, ast.ClassDef):
                self._scan_class(mod, node)
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        mod.globals.setdefault(t.id, []).append(node.value)
            elif isinstance(node, ast.AnnAssign):
                if isinstance(node.target, ast.Name) and node.value is not None:
                    mod.globals.setdefault(node.target.id, []).append(node.value)
            elif isinstance(node, (ast.If, ast.Try, ast.With)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._scan(mod, getattr(node, fld, []) or [])
                for h in getattr(node, 'handlers', []) or []:
                    self._scan(mod, h.body)

    @staticmethod
    def add_from(mod, node, table):
        if node.level:
            pkg = mod.name.split('.')
            if not mod.is_pkg:
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (node.level - 1)]
            dotted = '.'.join(pkg + ([node.module] if node.module else []))
        else:
            dotted = node.module
        for a in node.names:
            table[a.asname or a.name] = ('from', dotted, a.name)

    def _scan_class(self, mod, node):
        c = Class(node.name, f'{mod.name}.{node.name}', node, mod)
        c.bases = node.bases
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = 'method'
                for d in n.decorator_list:
                    t = ast.unparse(d)
                    if t in ('property', 'functools.cached_property', 'cached_property'):
                        kind = 'property'
                    elif t == 'staticmethod':
                        kind = 'static'
                    elif t == 'classmethod':
                        kind = 'classmethod'
                    elif t.endswith('.setter'):
                        kind = 'setter'
                f = Func(n.name, f'{c.qual}.{n.name}', n, mod, c, kind)
                if kind != 'setter':
                    c.methods[n.name] = f
                    self.funcs[f.qual] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                c.fields.append((n.target.id, n.value))
                c.annotations[n.target.id] = n.annotation
                if n.value is not None:
                    c.attrs[n.target.id] = n.value
        mod.classes[node.name] = c
        self.classes[c.qual] = c

    # -- resolution --------------------------------------------------------

    def resolve(self, mod, name, seen=None):
        """Resolve a module-level name. Returns ('func', Func) | ('class', Class) |
        ('mod', dotted) | ('global', Module, name) | ('ext', dotted) | None"""
        seen = seen or set()
        if (mod.name, name) in seen:
            return None
        seen.add((mod.name, name))
        if name in mod.funcs:
            return ('func', mod.funcs[name])
        if name in mod.classes:
            return ('class', mod.classes[name])
        if name in mod.imports:
            return self.resolve_import(mod.imports[name], seen)
        if name in mod.globals:
            return ('global', mod, name)
        return None

    def resolve_import(self, imp, seen=None):
        if imp[0] == 'mod':
            return ('mod', imp[1])
        _, dotted, name = imp
        full = f'{dotted}.{name}'
        if dotted in self.modules:
            m = self.modules[dotted]
            r = self.resolve(m, name, seen)
            if r is not None:
                return r
            if full in self.modules:
                return ('mod', full)
            return ('ext', full)
        if full in self.modules:
            return ('mod', full)
        return ('ext', full)

    def mod_attr(self, dotted, name):
        if dotted in self.modules:
            r = self.resolve(self.modules[dotted], name)
            if r is not None:
                return r
            if f'{dotted}.{name}' in self.modules:
                return ('mod', f'{dotted}.{name}')
            return None
        return ('ext', f'{dotted}.{name}')

    def class_bases(self, cls):
        out = []
        for b in cls.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve(cls.module, b.id)
                if r is None:
                    r = ('ext', b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                m = self.resolve(cls.module, b.value.id)
                if m and m[0] == 'mod':
                    r = self.mod_attr(m[1], b.attr)
            if r is None:
                r = ('ext', ast.unparse(b))
            out.append(r)
        return out

    def mro(self, cls):
        out = [cls]
        for b in self.class_bases(cls):
            if b[0] == 'class':
                for c in self.mro(b[1]):
                    if c not in out:
                        out.append(c)
        return out

    def ext_ancestors(self, cls):
        """Names of the non-project base classes."""
        out = []
        for c in self.mro(cls):
            for b in self.class_bases(c):
                if b[0] == 'ext':
                    out.append(b[1].split('.')[-1])
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def fields(self, cls):
        out = {}
        for c in reversed(self.mro(cls)):
            for n, d in c.fields:
                out[n] = (d, c)
        return out

    def subclasses(self, cls):
        return [c for c in self.classes.values() if c is not cls and cls in self.mro(c)]

    # -- anchors -----------------------------------------------------------

    def need_class(self, qual):
        c = self.classes.get(qual)
        if c is None:
            # accept a class that moved to another module of the package
            name = qual.split('.')[-1]
            cand = [k for k in self.classes.values() if k.name == name]
            if len(cand) == 1:
                return cand[0]
            raise AnchorMissing(f'class {qual} not found')
        return c

    def need_method(self, qual, name):
        c = self.need_class(qual)
        f = self.find_method(c, name)
        if f is None:
            raise AnchorMissing(f'method {qual}.{name} not found')
        return f

    def need_func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            modname, name = qual.rsplit('.', 1)
            if modname in self.modules:
                r = self.resolve(self.modules[modname], name)
                if r and r[0] == 'func':
                    return r[1]
            cand = [k for k in self.funcs.values() if k.name == name and k.cls is None]
            if len(cand) == 1:
                return cand[0]
            raise AnchorMissing(f'function {qual} not found')
        return f
