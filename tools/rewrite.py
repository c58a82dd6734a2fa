#!/usr/bin/env python3
"""Rewrite the whole package in ways that keep its behaviour, and run the checks on the result: all must stay quiet.

rewrite.py [-r REWRITE ...] [-p PROP ...] [-k FUNCTION] [-j N] [--keep DIR]
"""
import argparse
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile
import json
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
ONLY = ''


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(ast.Not(), t)


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def funcs(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and ONLY in n.name:
            yield n


def own(fn):
    """Nodes of a function without those of nested functions."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Blocks(ast.NodeTransformer):
    """Base: applies `stmt` to each statement of each function; it returns a list of statements."""
    def __init__(self):
        self.n = 0
        self.fn = None

    def fresh(self, base='tmp'):
        self.n += 1
        return f'{base}_{self.n}'

    def visit_FunctionDef(self, f):
        outer, self.fn = self.fn, f
        if ONLY in f.name or outer is not None:
            f.body = self.block(f.body)
        self.fn = outer
        return f

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, c):
        c.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else s
                  for s in c.body]
        return c

    def block(self, body):
        out = []
        for i, s in enumerate(body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.append(self.visit(s))
                continue
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None):
                    setattr(s, f, self.block(getattr(s, f)))
            for h in getattr(s, 'handlers', []):
                h.body = self.block(h.body)
            out.extend(self.stmt(s))
        return self.whole(out)

    def stmt(self, s):
        return [s]

    def whole(self, body):
        return body


class SwapIf(Blocks):
    """if a: X else: Y  ->  if not a: Y else: X"""
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
        return [s]


class NegIf(Blocks):
    """if a: X  ->  if not a: pass else: X"""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse:
            s.test, s.body, s.orelse = neg(s.test), [ast.Pass()], s.body
        return [s]


class NameCond(Blocks):
    """if a: ...  ->  c = a; if c: ..."""
    def stmt(self, s):
        if isinstance(s, ast.If):
            n = self.fresh('cond')
            a = ast.Assign([name(n, ast.Store())], s.test)
            s.test = name(n)
            return [a, s]
        return [s]


class NameReturn(Blocks):
    """return e  ->  r = e; return r"""
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            n = self.fresh('ret')
            return [ast.Assign([name(n, ast.Store())], s.value), ast.Return(name(n))]
        return [s]


class NameIter(Blocks):
    """for x in e  ->  it = e; for x in it"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
            n = self.fresh('seq')
            a = ast.Assign([name(n, ast.Store())], s.iter)
            s.iter = name(n)
            return [a, s]
        return [s]


class NameArgs(Blocks):
    """f(g(x), k=h(y))  ->  a = g(x); b = h(y); f(a, k=b)   (when the callee is a name or attribute chain of names)"""
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if not isinstance(s, (ast.Expr, ast.Assign, ast.Return)) or v is None:
            return [s]
        w = v
        while isinstance(w, ast.Await):
            w = w.value
        if not isinstance(w, ast.Call) or any(isinstance(a, ast.Starred) for a in w.args) \
                or any(k.arg is None for k in w.keywords):
            return [s]
        f = w.func
        while isinstance(f, ast.Attribute):
            f = f.value
        if not isinstance(f, ast.Name):
            return [s]
        if isinstance(w.func, ast.Name) and w.func.id == 'super':
            return [s]
        pre = []
        for i, a in enumerate(w.args):
            if not isinstance(a, (ast.Constant, ast.Name, ast.Lambda, ast.GeneratorExp)):
                n = self.fresh('arg')
                pre.append(ast.Assign([name(n, ast.Store())], a))
                w.args[i] = name(n)
        for k in w.keywords:
            if not isinstance(k.value, (ast.Constant, ast.Name, ast.Lambda, ast.GeneratorExp)):
                n = self.fresh(k.arg)
                pre.append(ast.Assign([name(n, ast.Store())], k.value))
                k.value = name(n)
        return pre + [s]


class ElseAfterReturn(Blocks):
    """if a: ...return; rest  ->  if a: ...return  else: rest"""
    def whole(self, body):
        for i, s in enumerate(body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue,
                                                                                  ast.Break)):
                rest = self.whole(body[i + 1:])
                return body[:i] + [ast.If(s.test, s.body, rest)]
        return body


class NoElseAfterReturn(Blocks):
    """if a: ...return  else: rest  ->  if a: ...return; rest"""
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue,
                                                                          ast.Break)):
            rest, s.orelse = s.orelse, []
            return [s] + rest
        return [s]


class GuardContinue(Blocks):
    """for ...: ...; if c: X    ->  for ...: ...; if not c: continue; X   (last statement of a loop)"""
    def stmt(self, s):
        if isinstance(s, (ast.For, ast.AsyncFor)) and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse:
            last = s.body.pop()
            s.body += [ast.If(neg(last.test), [ast.Continue()], [])] + last.body
        return [s]


class GuardReturn(Blocks):
    """def f: ...; if c: X   ->  ...; if not c: return; X    (last statement of a function)"""
    def visit_FunctionDef(self, f):
        super().visit_FunctionDef(f)
        if ONLY in f.name and isinstance(f.body[-1], ast.If) and not f.body[-1].orelse \
                and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)):
            last = f.body.pop()
            f.body += [ast.If(neg(last.test), [ast.Return(None)], [])] + last.body
        return f
    visit_AsyncFunctionDef = visit_FunctionDef


class SplitAnd(Blocks):
    """if a and b: X  ->  if a: if b: X"""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            vs = s.test.values
            inner = s.body
            for v in reversed(vs):
                inner = [ast.If(v, inner, [])]
            return inner
        return [s]


class SplitOr(Blocks):
    """if a or b: <return/raise/continue>  ->  if a: X; if b: X"""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) \
                and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return [ast.If(v, copy.deepcopy(s.body), []) for v in s.test.values]
        return [s]


class DeMorgan(ast.NodeTransformer):
    """a and b -> not (not a or not b) in conditions"""
    def visit_If(self, s):
        self.generic_visit(s)
        if isinstance(s.test, ast.BoolOp):
            op = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in s.test.values]))
        return s


class FlipCompare(ast.NodeTransformer):
    """a == b -> b == a, a < b -> b > a; for simple operands"""
    F = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and type(c.ops[0]) in self.F and not any(isinstance(n, (ast.Await, ast.Call))
                                                                    for n in ast.walk(c)):
            return ast.Compare(c.comparators[0], [self.F[type(c.ops[0])]()], [c.left])
        return c


class NotCompare(ast.NodeTransformer):
    """a != b -> not a == b, a not in b -> not a in b, is not -> not is, < -> not >= only for the first kinds"""
    F = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and type(c.ops[0]) in self.F:
            return ast.UnaryOp(ast.Not(), ast.Compare(c.left, [self.F[type(c.ops[0])]()], c.comparators))
        return c


class CompToLoop(Blocks):
    """x = [e for y in z if c]  ->  x = []; for y in z: if c: x.append(e)      also return / dict comprehension"""
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)):
            v = s.value
            if any(g.is_async for g in v.generators):
                return [s]
            # loop variables must not clash with names of the function
            bound = {n.id for g in v.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            others = {n.id for n in own(self.fn) if isinstance(n, ast.Name) and n not in list(ast.walk(v))}
            others |= {a.arg for a in self.fn.args.args}
            ren = {b: self.fresh(b) for b in bound}

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return ast.Name(ren.get(n.id, n.id), n.ctx)
            v = R().visit(copy.deepcopy(v))
            # the first iterable is evaluated outside the scope
            v.generators[0].iter = s.value.generators[0].iter
            acc = self.fresh('acc')
            if isinstance(v, ast.ListComp):
                init = ast.List([], ast.Load())
                inner = [ast.Expr(ast.Call(ast.Attribute(name(acc), 'append', ast.Load()), [v.elt], []))]
            else:
                init = ast.Dict([], [])
                inner = [ast.Assign([ast.Subscript(name(acc), v.key, ast.Store())], v.value)]
            for g in reversed(v.generators):
                for c in reversed(g.ifs):
                    inner = [ast.If(c, inner, [])]
                inner = [ast.For(g.target, g.iter, inner, [])]
            s.value = name(acc)
            return [ast.Assign([name(acc, ast.Store())], init)] + inner + [s]
        return [s]


class LoopToComp(Blocks):
    """x = []; for y in z: x.append(e)  ->  x = [e for y in z]"""
    def whole(self, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            if i + 1 < len(body) and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) \
                    and isinstance(s.value, ast.List) and not s.value.elts and isinstance(body[i + 1], ast.For):
                f = body[i + 1]
                conds = []
                b = f.body
                while len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
                    conds.append(b[0].test)
                    b = b[0].body
                if len(b) == 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Call) \
                        and ast.unparse(b[0].value.func) == s.targets[0].id + '.append' and not f.orelse:
                    s.value = ast.ListComp(b[0].value.args[0], [ast.comprehension(f.target, f.iter, conds, 0)])
                    out.append(s)
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class Rename(ast.NodeTransformer):
    """rename all local variables of functions without nested functions that share them"""
    def visit_FunctionDef(self, f):
        if ONLY not in f.name:
            return f
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)) or \
                any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars', 'eval')
                    for n in ast.walk(f)):
            return f
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        for x in (f.args.vararg, f.args.kwarg):
            if x:
                params.add(x.arg)
        inner = {a.arg for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
                 and n is not f for a in n.args.args}
        names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        names |= {n.name for n in ast.walk(f) if isinstance(n, ast.ExceptHandler) and n.name}
        names -= params | inner
        ren = {n: n + '_x' for n in names}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in ren:
                n.id = ren[n.id]
            elif isinstance(n, ast.ExceptHandler) and n.name in ren:
                n.name = ren[n.name]
        return f
    visit_AsyncFunctionDef = visit_FunctionDef


class AddLog(Blocks):
    """a harmless statement in front of every statement"""
    def stmt(self, s):
        return [ast.parse('len("step")').body[0], s]


class ReverseElif(Blocks):
    """if a: X elif b: Y else: Z  ->  if a: X; if not a and b: ... is not the same; instead nest: else: if b"""
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
            s.orelse = [ast.Pass(), s.orelse[0]]
        return [s]


class AugAssign(Blocks):
    """x += e -> x = x + e, for numbers (constant operand)"""
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)):
            t = copy.deepcopy(s.target)
            for n in ast.walk(t):
                if hasattr(n, 'ctx') and n is t:
                    n.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(t, s.op, s.value))]
        return [s]


class DictCall(ast.NodeTransformer):
    """{'a': x} -> dict(a=x); f(**{...}) unchanged"""
    def visit_Dict(self, d):
        self.generic_visit(d)
        if d.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier()
                          for k in d.keys):
            return ast.Call(name('dict'), [], [ast.keyword(k.value, v) for k, v in zip(d.keys, d.values)])
        return d


class FString(ast.NodeTransformer):
    """f'{a} b' -> '{} b'.format(a)"""
    def visit_JoinedStr(self, j):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in j.values):
            return j
        s = ''
        args = []
        for v in j.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace('{', '{{').replace('}', '}}')
            else:
                s += '{}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()), args, [])


class Ternary(Blocks):
    """x = a if c else b  ->  if c: x = a else: x = b"""
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return [ast.If(s.value.test, [a], [b])]
        return [s]


class ToTernary(Blocks):
    """if c: x = a else: x = b   ->  x = a if c else b"""
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) \
                and isinstance(s.orelse[0], ast.Assign) and len(s.body[0].targets) == 1 \
                and ast.unparse(s.body[0].targets[0]) == ast.unparse(s.orelse[0].targets[0]):
            return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) \
                and isinstance(s.orelse[0], ast.Return) and s.body[0].value and s.orelse[0].value:
            return [ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
        return [s]


class LambdaDef(Blocks):
    """x = lambda a: e  in call arguments  ->  def f(a): return e"""
    def stmt(self, s):
        if not isinstance(s, (ast.Assign, ast.Expr, ast.Return)):
            return [s]
        pre = []
        me = self

        class R(ast.NodeTransformer):
            def visit_Lambda(self, n):
                f = me.fresh('fn')
                pre.append(ast.FunctionDef(name=f, args=n.args, body=[ast.Return(n.body)], decorator_list=[],
                                           type_params=[]))
                return name(f)

            def visit_ListComp(self, n):
                return n
            visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_ListComp
        s = R().visit(s)
        return pre + [s]


class UpdateItem(Blocks):
    """d[k] = v -> d.update({k: v})  for a string constant key"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) \
                and isinstance(s.targets[0].slice, ast.Constant) and isinstance(s.targets[0].slice.value, str):
            t = s.targets[0]
            return [ast.Expr(ast.Call(ast.Attribute(t.value, 'update', ast.Load()), [ast.Dict([t.slice], [s.value])], []))]
        return [s]


class Unpack(Blocks):
    """a, b = e  ->  t = e; a = t[0]; b = t[1]"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and not any(
                isinstance(e, ast.Starred) for e in s.targets[0].elts):
            n = self.fresh('pair')
            return [ast.Assign([name(n, ast.Store())], s.value)] + [
                ast.Assign([e], ast.Subscript(name(n), ast.Constant(i), ast.Load()))
                for i, e in enumerate(s.targets[0].elts)]
        return [s]


class TryElse(Blocks):
    """try: a; b except: ...  unchanged; adds an empty finally"""
    def stmt(self, s):
        if isinstance(s, ast.Try) and not s.finalbody:
            s.finalbody = [ast.Pass()]
        return [s]


class Extract(Blocks):
    """extract the body of each loop/if/else of a method (no control flow out of it) into a new method"""
    MIN = 2
    EXPR = False

    def visit_ClassDef(self, c):
        self.new = []
        super().visit_ClassDef(c)
        c.body += self.new
        self.new = []
        return c

    def __init__(self):
        super().__init__()
        self.new = []
        self.cls = False
        self.tries = 0

    def visit_FunctionDef(self, f):
        if self.fn is None and f.args.args and f.args.args[0].arg == 'self' and not f.decorator_list:
            return super().visit_FunctionDef(f)
        if self.fn is None and f.args.args and f.args.args[0].arg == 'self':
            return super().visit_FunctionDef(f)
        return f
    visit_AsyncFunctionDef = visit_FunctionDef

    def ok(self, body):
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.FunctionDef,
                                  ast.AsyncFunctionDef, type(None))):
                    return False
                if isinstance(n, ast.Name) and n.id == 'super':
                    return False
                if isinstance(n, ast.Delete) and any(isinstance(t, ast.Name) for t in n.targets):
                    return False
            # break/continue of an outer loop
            stack = [s]
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Break, ast.Continue)):
                    return False
                if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
        return True

    def pull(self, body):
        if len(body) < self.MIN or not self.ok(body):
            return body
        f = self.fn
        inside = [n for s in body for n in ast.walk(s)]
        # names bound inside comprehension are local to it: leave out
        compbound = {m.id for n in inside if isinstance(n, ast.comprehension) for m in ast.walk(n.target)
                     if isinstance(m, ast.Name)}
        stored = [n.id for n in inside if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
        stored += [n.name for n in inside if isinstance(n, ast.ExceptHandler) and n.name]
        loaded = {n.id for n in inside if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        local = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        local |= {n.name for n in ast.walk(f) if isinstance(n, ast.ExceptHandler) and n.name}
        params = [a.arg for a in f.args.args + f.args.kwonlyargs]
        for x in (f.args.vararg, f.args.kwarg):
            if x:
                params.append(x.arg)
        stored = [x for x in dict.fromkeys(stored) if x not in compbound]
        insideset = set(map(id, inside))
        outside = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and id(n) not in insideset}
        ins = sorted(x for x in loaded if (x in local or x in params) and x != 'self' and x not in compbound)
        outs = [x for x in stored if x in outside]
        # a name that the block assigns before it reads it is no input
        have, need = set(), set()
        for x in body:
            reads = {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and (isinstance(n.ctx, ast.Load) or isinstance(x, ast.AugAssign))}
            need |= reads - have
            if isinstance(x, ast.Assign):
                have |= {n.id for t in x.targets for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        maybe = {n.id for x in body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        ins = [x for x in ins if x in need]
        if any(x in maybe and x not in params and x not in have for x in ins):
            return body         # read after an assignment on some way only
        ins = [x for x in ins if not (x in maybe and x not in params and not any(
            isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Store) and id(n) not in insideset
            and getattr(n, 'lineno', 0) < getattr(body[0], 'lineno', 0) for n in ast.walk(f)))]
        # outs must be certainly assigned: only plain top level assigns of the block, or also ins
        top = {t.id for s in body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
        top |= {t.id for s in body if isinstance(s, ast.Assign) for tt in s.targets if isinstance(tt, ast.Tuple)
                for t in tt.elts if isinstance(t, ast.Name)}
        if any(x not in top and x not in ins for x in outs):
            return body
        if outs and self.tries:         # what was assigned before something raised would be lost
            return body
        # an in that is maybe undefined at this point (defined in a sibling branch only): skip
        before = set(params) | {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
                                and (getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)) < (
                                    getattr(body[0], 'lineno', 0), getattr(body[0], 'col_offset', 0))}
        before |= {n.name for n in ast.walk(f) if isinstance(n, ast.ExceptHandler) and n.name}
        ins = [x for x in ins if x in before]
        isasync = any(isinstance(n, (ast.Await, ast.AsyncFor, ast.AsyncWith)) for n in inside)
        nm = self.fresh(f'_part_of_{f.name.strip("_")}')
        args = ast.arguments(posonlyargs=[], args=[ast.arg('self')] + [ast.arg(x) for x in ins], kwonlyargs=[],
                             kw_defaults=[], defaults=[])
        ret = []
        if outs:
            ret = [ast.Return(ast.Tuple([name(x) for x in outs], ast.Load()) if len(outs) > 1 else name(outs[0]))]
        K = ast.AsyncFunctionDef if isasync else ast.FunctionDef
        self.new.append(K(name=nm, args=args, body=list(body) + ret, decorator_list=[], type_params=[]))
        call = ast.Call(ast.Attribute(name('self'), nm, ast.Load()), [name(x) for x in ins], [])
        if isasync:
            call = ast.Await(call)
        if not outs:
            return [ast.Expr(call)]
        tgt = ast.Tuple([name(x, ast.Store()) for x in outs], ast.Store()) if len(outs) > 1 else name(outs[0], ast.Store())
        return [ast.Assign([tgt], call)]

    def block(self, body):
        # innermost first is not wanted: take the outermost extractable ones only
        out = []
        for s in body:
            for fld in ('body', 'orelse'):
                b = getattr(s, fld, None)
                if b and isinstance(s, (ast.If, ast.For, ast.With, ast.Try)):
                    inner = isinstance(s, ast.Try) and fld == 'body'
                    self.tries += inner
                    nb = self.pull(b)
                    if nb is b:
                        nb = self.block(b)
                    self.tries -= inner
                    setattr(s, fld, nb)
            for h in getattr(s, 'handlers', []):
                nb = self.pull(h.body)
                if nb is h.body:
                    nb = self.block(h.body)
                h.body = nb
            out.append(s)
        return out


class ExtractTail(Extract):
    """extract the last part of each method (from the middle statement on) into a new method whose result is returned"""
    def block(self, body):
        f = self.fn
        if body is not f.body:
            return body
        start = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        k = start + (len(body) - start) // 2
        if len(body) - start < 3 or f.name == '__init__' or f.name.startswith('__'):
            return body
        part = body[k:]
        nodes = [n for s in part for n in ast.walk(s)]
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.FunctionDef,
                              ast.AsyncFunctionDef)) for n in nodes) or any(
                isinstance(n, ast.Name) and n.id == 'super' for n in nodes):
            return body
        head = [n for s in body[:k] for n in ast.walk(s)]
        params = [a.arg for a in f.args.args + f.args.kwonlyargs]
        for x in (f.args.vararg, f.args.kwarg):
            if x:
                params.append(x.arg)
        compb = {m.id for n in head if isinstance(n, ast.comprehension) for m in ast.walk(n.target) if isinstance(m, ast.Name)}
        defs = {n.id for n in head if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - compb
        defs |= {n.name for n in head if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
        top = set()
        for s in body[:k]:
            if isinstance(s, ast.Assign):
                top |= {n.id for t in s.targets for n in ast.walk(t) if isinstance(n, ast.Name)}
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                top.add(s.name)
            if isinstance(s, ast.If) and s.orelse:
                def names(b):
                    return {n.id for x in b for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                top |= names(s.body) & names(s.orelse)
        loaded = {n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        ins = sorted(x for x in loaded if (x in defs or x in params) and x != 'self')
        if any(x not in top and x not in params for x in ins):
            return body
        isasync = any(isinstance(n, (ast.Await, ast.AsyncFor, ast.AsyncWith)) for n in nodes)
        nm = self.fresh(f'_rest_of_{f.name.strip("_")}')
        args = ast.arguments(posonlyargs=[], args=[ast.arg('self')] + [ast.arg(x) for x in ins], kwonlyargs=[],
                             kw_defaults=[], defaults=[])
        K = ast.AsyncFunctionDef if isasync else ast.FunctionDef
        self.new.append(K(name=nm, args=args, body=list(part), decorator_list=[], type_params=[]))
        call = ast.Call(ast.Attribute(name('self'), nm, ast.Load()), [name(x) for x in ins], [])
        if isasync:
            call = ast.Await(call)
        return body[:k] + [ast.Return(call)]


class SwapAssign(Blocks):
    """two adjacent assignments of names to call-free expressions that do not mention each other are swapped"""
    def whole(self, body):
        out = list(body)
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)
                   and not any(isinstance(n, (ast.Await, ast.Call, ast.Subscript, ast.Yield)) for n in ast.walk(x.value))
                   for x in (a, b)):
                na, nb = a.targets[0].id, b.targets[0].id
                ua = {n.id for n in ast.walk(a.value) if isinstance(n, ast.Name)}
                ub = {n.id for n in ast.walk(b.value) if isinstance(n, ast.Name)}
                if na != nb and na not in ub and nb not in ua:
                    out[i], out[i + 1] = b, a
                    i += 2
                    continue
            i += 1
        return out


class SwapKeywords(ast.NodeTransformer):
    """f(a=1, b=2) -> f(b=2, a=1) when the values have no effects"""
    def visit_Call(self, c):
        self.generic_visit(c)
        if len(c.keywords) > 1 and all(k.arg for k in c.keywords) and not any(
                isinstance(n, (ast.Await, ast.Call)) for k in c.keywords for n in ast.walk(k.value)):
            c.keywords = c.keywords[::-1]
        return c

    def visit_Dict(self, d):
        self.generic_visit(d)
        if all(k is not None for k in d.keys) and not any(isinstance(n, (ast.Await, ast.Call)) for n in ast.walk(d)):
            d.keys, d.values = d.keys[::-1], d.values[::-1]
        return d


class Truth(ast.NodeTransformer):
    """conditions 'x' of an if -> bool(x); 'not x' -> not bool(x)"""
    def visit_If(self, s):
        self.generic_visit(s)
        if isinstance(s.test, (ast.Name, ast.Attribute, ast.Subscript)):
            s.test = ast.Call(name('bool'), [s.test], [])
        return s


class ItemsLoop(Blocks):
    """for k, v in d.items(): -> for k in d: v = d[k]    when the body does not change d"""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) \
                and s.iter.func.attr == 'items' and isinstance(s.target, ast.Tuple) \
                and isinstance(s.iter.func.value, (ast.Name,)) and not s.iter.args \
                and not any(isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del))
                            for b in s.body for n in ast.walk(b)):
            d = s.iter.func.value
            k, v = s.target.elts
            if isinstance(k, ast.Name):
                s.target, s.iter = k, name(d.id)
                s.body = [ast.Assign([v], ast.Subscript(name(d.id), name(k.id), ast.Load()))] + s.body
        return [s]


class IndexLoop(Blocks):
    """for x in <name>: -> for i in range(len(name)): x = name[i]  -- only when the list has no changes in the body and is a
    list for sure (a name assigned from a list display/comprehension in this function)"""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Name):
            defs = [n for n in ast.walk(self.fn) if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == s.iter.id for t in n.targets)]
            if defs and all(isinstance(d.value, (ast.List, ast.ListComp)) for d in defs):
                i = self.fresh('i')
                s.body = [ast.Assign([s.target], ast.Subscript(name(s.iter.id), name(i), ast.Load()))] + s.body
                s.iter = ast.Call(name('range'), [ast.Call(name('len'), [name(s.iter.id)], [])], [])
                s.target = name(i, ast.Store())
        return [s]


class EnumLoop(Blocks):
    """for x in e: -> for i, x in enumerate(e):"""
    def stmt(self, s):
        if isinstance(s, ast.For):
            i = self.fresh('i')
            s.target = ast.Tuple([name(i, ast.Store()), s.target], ast.Store())
            s.iter = ast.Call(name('enumerate'), [s.iter], [])
        return [s]


class ListLoop(Blocks):
    """for x in e: -> for x in list(e):"""
    def stmt(self, s):
        if isinstance(s, ast.For):
            s.iter = ast.Call(name('list'), [s.iter], [])
        return [s]


class WhileIter(Blocks):
    """for x in e (no continue/else) -> it = iter(e) ; while True: try: x = next(it) except StopIteration: break; ..."""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            it = self.fresh('it')
            return [ast.Assign([name(it, ast.Store())], ast.Call(name('iter'), [s.iter], [])),
                    ast.While(ast.Constant(True), [ast.Try(
                        [ast.Assign([s.target], ast.Call(name('next'), [name(it)], []))],
                        [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()])], [], [])] + s.body, [])]
        return [s]


class WhileIndex(Blocks):
    """for x in <expr of names and attributes> (no continue) -> i = 0; while i < len(e): x = e[i]; ...; i += 1, where e is a list for sure"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, (ast.Name, ast.Attribute)) \
                and not any(isinstance(n, ast.Continue) for b in s.body for n in ast.walk(b)) \
                and (ast.unparse(s.iter).split('.')[-1] in ('intervals', 'event_signals', 'events', 'report_requests', 'list_of_dicts', 'reports', 'pending_reports', 'modes')):
            i = self.fresh('i')
            return [ast.Assign([name(i, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name('len'), [s.iter], [])]),
                              [ast.Assign([s.target], ast.Subscript(s.iter, name(i), ast.Load()))] + s.body +
                              [ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return [s]


class WhilePop(Blocks):
    """for x in e -> rest = list(e); while rest: x = rest.pop(0); ..."""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            r = self.fresh('rest')
            return [ast.Assign([name(r, ast.Store())], ast.Call(name('list'), [s.iter], [])),
                    ast.While(name(r), [ast.Assign([s.target], ast.Call(ast.Attribute(name(r), 'pop', ast.Load()), [ast.Constant(0)], []))] + s.body, [])]
        return [s]


class GetToIn(ast.NodeTransformer):
    """a.get(k) -> (a[k] if k in a else None), for names and constants"""
    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Attribute) and c.func.attr == 'get' and len(c.args) in (1, 2) and not c.keywords \
                and isinstance(c.func.value, ast.Name) and isinstance(c.args[0], (ast.Constant, ast.Name)) \
                and c.func.value.id in ('payload', 'report', 'event', 'message', 'dictionary', 'd', 'report_description'):
            return ast.IfExp(ast.Compare(c.args[0], [ast.In()], [c.func.value]),
                             ast.Subscript(c.func.value, c.args[0], ast.Load()),
                             c.args[1] if len(c.args) == 2 else ast.Constant(None))
        return c


class Annot(Blocks):
    """x = e -> x: object = e"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            return [ast.AnnAssign(s.targets[0], name('object'), s.value, 1)]
        return [s]


class WithSuppress(Blocks):
    """nothing: 'if True:' around each method body half"""
    def visit_FunctionDef(self, f):
        super().visit_FunctionDef(f)
        if ONLY in f.name:
            start = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
            if f.body[start:]:
                f.body = f.body[:start] + [ast.If(ast.Constant(True), f.body[start:], [])]
        return f
    visit_AsyncFunctionDef = visit_FunctionDef


class SelfAlias(Blocks):
    """this = self at the start of each method; self.x -> this.x"""
    def visit_FunctionDef(self, f):
        if self.fn is None and f.args.args and f.args.args[0].arg == 'self' and ONLY in f.name:
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and n.id == 'self':
                    n.id = 'this'
            f.body.insert(1 if ast.get_docstring(f) else 0, ast.Assign([name('this', ast.Store())], name('self')))
        return f
    visit_AsyncFunctionDef = visit_FunctionDef


class TryWrap(Blocks):
    """body -> try: body except Exception: raise"""
    def visit_FunctionDef(self, f):
        super().visit_FunctionDef(f)
        if ONLY in f.name and self.fn is None:
            start = 1 if ast.get_docstring(f) else 0
            if f.body[start:]:
                f.body = f.body[:start] + [ast.Try(f.body[start:], [ast.ExceptHandler(
                    name('Exception'), None, [ast.Raise(None, None)])], [], [])]
        return f
    visit_AsyncFunctionDef = visit_FunctionDef


class Wrapper(ast.NodeTransformer):
    """each method m (undecorated, no dunder) is renamed _m_impl and m calls it"""
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.args.args and f.args.args[0].arg == 'self' \
                    and not f.decorator_list and not f.name.startswith('__') and ONLY in f.name \
                    and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)) \
                    and not any(isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(f)):
                g = copy.deepcopy(f)
                g.name = f'{f.name}_impl'
                a = f.args
                call = ast.Call(ast.Attribute(name('self'), g.name, ast.Load()),
                                [name(x.arg) for x in a.args[1:]] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                                [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]
                                + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
                if isinstance(f, ast.AsyncFunctionDef):
                    call = ast.Await(call)
                doc = f.body[:1] if ast.get_docstring(f) else []
                f.body = doc + [ast.Return(call)]
                out += [f, g]
            else:
                out.append(f)
        c.body = out
        return c


REWRITES = {k: v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, ast.NodeTransformer)
            and v is not Blocks and v is not ast.NodeTransformer}


def apply(names, d):
    changed = 0
    base = os.path.join(d, 'openleadr')
    for dp, dn, fns in os.walk(base):
        for fn in fns:
            if fn.endswith('.py'):
                p = os.path.join(dp, fn)
                src = open(p).read()
                tree = ast.parse(src)
                before = ast.dump(tree)
                for n in names:
                    tree = REWRITES[n]().visit(tree)
                    ast.fix_missing_locations(tree)
                    tree = ast.parse(ast.unparse(tree))
                out = ast.unparse(tree)
                compile(out, p, 'exec')
                if ast.dump(tree) != before:
                    changed += 1
                    open(p, 'w').write(out + '\n')
    return changed


def check(prop, d, timeout=600):
    v = tempfile.mkdtemp(prefix='selfver.')
    try:
        for x in ('check.py', 'sa', 'KNOWN_FINDINGS.txt'):
            os.symlink(os.path.join(ROOT, x), os.path.join(v, x))
        r = subprocess.run([sys.executable, '-c', f'import sys; sys.argv=["check.py","{prop}"]; '
                            f'sys.path.insert(0,"{ROOT}"); import check; check.HERE="{v}"; sys.exit(check.main())'],
                           env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, 'TIMEOUT'
    finally:
        shutil.rmtree(v)


def main():
    global ONLY
    ap = argparse.ArgumentParser()
    ap.add_argument('-r', nargs='*')
    ap.add_argument('-p', nargs='*')
    ap.add_argument('-k', default='')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--keep')
    ap.add_argument('--together', action='store_true')
    a = ap.parse_args()
    ONLY = a.k
    props = a.p or [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
    todo = a.r or list(REWRITES)
    sets = [todo] if a.together else [[r] for r in todo]
    bad = 0
    for names in sets:
        d = a.keep or tempfile.mkdtemp(prefix='rewrite.')
        shutil.copytree(os.path.join(REPO, 'openleadr'), os.path.join(d, 'openleadr'), dirs_exist_ok=True,
                        ignore=shutil.ignore_patterns('__pycache__'))
        n = apply(names, d)
        alarms, lost = [], []
        if n and props != ['-']:
            with ThreadPoolExecutor(a.j) as ex:
                for pr, (rc, out) in zip(props, ex.map(lambda p: check(p, d), props)):
                    if rc != 0:
                        alarms.append(pr)
                        open(f'/tmp/w/ref/{"+".join(names)[:60]}_{pr}.txt', 'w').write(out)
                    elif ', 0 undecided' not in out:
                        import re
                        lost.append(pr + ':' + (re.search(r'(\d+) undecided', out) or [0, '?'])[1])
                        open(f'/tmp/w/ref/{"+".join(names)[:60]}_{pr}.txt', 'w').write(out)
        bad += len(alarms)
        print('+'.join(names), f'{n} files', 'ALARMS ' + ' '.join(alarms) if alarms else 'quiet',
              ('undecided ' + ' '.join(lost)) if lost else '', flush=True)
        if not a.keep:
            shutil.rmtree(d)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
