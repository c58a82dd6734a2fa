"""A reader for the message templates: Jinja blocks and expressions, and the XML elements between them."""
import os
import re


class Bad(Exception):
    """The template cannot be read: kind 'xml' (not well-formed), 'jinja' (cannot be compiled), 'unknown' (not understood)."""
    def __init__(self, kind, what, loc):
        super().__init__(what)
        self.kind, self.what, self.loc = kind, what, loc


# -- expressions ---------------------------------------------------------------

TOK = re.compile(r'\s*(?:(\d+\.\d+|\d+)|([A-Za-z_]\w*)|("(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\')|(==|!=|<=|>=|//|\*\*|[-+*/%~|.,:()\[\]{}<>=]))')
RESERVED = {'and', 'or', 'not', 'in', 'is', 'if', 'else'}


def lex(s, loc):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip():
                raise Bad('jinja', f'cannot read the expression {s.strip()!r}', loc)
            break
        i = m.end()
        if m.group(1) is not None:
            out.append(('num', m.group(1)))
        elif m.group(2) is not None:
            out.append(('id', m.group(2)))
        elif m.group(3) is not None:
            out.append(('str', m.group(3)[1:-1]))
        else:
            out.append(('op', m.group(4)))
    return out


class Expr:
    def __init__(self, toks, loc):
        self.t, self.i, self.loc = toks, 0, loc

    def peek(self, *vals):
        return self.i < len(self.t) and self.t[self.i][1] in vals and self.t[self.i][0] in ('id', 'op')

    def take(self, *vals):
        if self.peek(*vals):
            self.i += 1
            return True
        return False

    def need(self, val):
        if not self.take(val):
            raise Bad('jinja', f'{val} expected', self.loc)

    def name(self):
        if self.i < len(self.t) and self.t[self.i][0] == 'id':
            self.i += 1
            return self.t[self.i - 1][1]
        raise Bad('jinja', 'name expected', self.loc)

    def full(self):
        e = self.expr()
        if self.i != len(self.t):
            raise Bad('jinja', 'unexpected ' + str(self.t[self.i][1]), self.loc)
        return e

    def expr(self):
        a = self.or_()
        while self.take('if'):
            c = self.or_()
            b = self.expr() if self.take('else') else ('const', '')
            a = ('cond', c, a, b)
        return a

    def or_(self):
        a = self.and_()
        while self.take('or'):
            a = ('or', a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.take('and'):
            a = ('and', a, self.not_())
        return a

    def not_(self):
        if self.take('not'):
            return ('not', self.not_())
        return self.cmp()

    def cmp(self):
        a = self.add()
        while True:
            if self.peek('==', '!=', '<', '>', '<=', '>='):
                op = self.t[self.i][1]
                self.i += 1
                a = ('cmp', op, a, self.add())
            elif self.peek('in'):
                self.i += 1
                a = ('cmp', 'in', a, self.add())
            elif self.peek('not') and self.i + 1 < len(self.t) and self.t[self.i + 1][1] == 'in':
                self.i += 2
                a = ('not', ('cmp', 'in', a, self.add()))
            else:
                return a

    def add(self):
        a = self.unary()
        while self.peek('+', '-', '*', '/', '~', '%', '//'):
            op = self.t[self.i][1]
            self.i += 1
            a = ('bin', op, a, self.unary())
        return a

    def unary(self):
        if self.take('-'):
            a = self.unary()
            return ('const', -a[1]) if a[0] == 'const' else ('bin', '-', ('const', 0), a)
        return self.postfix(self.primary())

    def primary(self):
        if self.i >= len(self.t):
            raise Bad('jinja', 'expression ends too early', self.loc)
        k, v = self.t[self.i]
        self.i += 1
        if k == 'num':
            return ('const', float(v) if '.' in v else int(v))
        if k == 'str':
            return ('const', v)
        if k == 'id':
            if v in ('true', 'True'):
                return ('const', True)
            if v in ('false', 'False'):
                return ('const', False)
            if v in ('none', 'None'):
                return ('const', None)
            if v in RESERVED:
                raise Bad('jinja', f'unexpected {v}', self.loc)
            return ('name', v)
        if v == '(':
            e = self.expr()
            if self.peek(','):
                es = [e]
                while self.take(','):
                    if self.peek(')'):
                        break
                    es.append(self.expr())
                self.need(')')
                return ('list', tuple(es))
            self.need(')')
            return e
        if v == '[':
            es = []
            while not self.take(']'):
                es.append(self.expr())
                if not self.peek(']'):
                    self.need(',')
            return ('list', tuple(es))
        if v == '{':
            es = []
            while not self.take('}'):
                k = self.expr()
                self.need(':')
                es.append((k, self.expr()))
                if not self.peek('}'):
                    self.need(',')
            return ('dict', tuple(es))
        raise Bad('jinja', f'unexpected {v}', self.loc)

    def args(self):
        out = []
        while not self.take(')'):
            if self.t[self.i][0] == 'id' and self.i + 1 < len(self.t) and self.t[self.i + 1] == ('op', '='):
                self.i += 2
            out.append(self.expr())
            if not self.peek(')'):
                self.need(',')
        return tuple(out)

    def postfix(self, e):
        while True:
            if self.take('.'):
                if self.i < len(self.t) and self.t[self.i][0] == 'num':
                    e = ('item', e, ('const', int(self.t[self.i][1])))
                    self.i += 1
                else:
                    e = ('attr', e, self.name())
            elif self.take('['):
                k = self.expr()
                self.need(']')
                e = ('attr', e, k[1]) if k[0] == 'const' and isinstance(k[1], str) else ('item', e, k)
            elif self.take('('):
                e = ('call', e, self.args())
            elif self.take('|'):
                n = self.name()
                e = ('filter', e, n, self.args() if self.take('(') else ())
            elif self.peek('is'):
                self.i += 1
                neg = self.take('not')
                n = self.name()
                if n in ('True', 'False', 'None'):
                    n = n.lower()
                a = ()
                if self.take('('):
                    a = self.args()
                elif self.i < len(self.t) and (self.t[self.i][0] in ('num', 'str') or self.t[self.i][0] == 'id' and self.t[self.i][1] not in RESERVED):
                    a = (self.postfix(self.primary()),)
                e = ('test', e, n, a)
                if neg:
                    e = ('not', e)
            else:
                return e


def expr(s, loc):
    return Expr(lex(s, loc), loc).full()


# -- blocks --------------------------------------------------------------------

SPLIT = re.compile(r'(\{\{.*?\}\}|\{%.*?%\}|\{#.*?#\})', re.S)


class Parser:
    def __init__(self, src, name):
        self.name = name
        self.items = []
        line = 1
        for part in SPLIT.split(src):
            if part.startswith('{{') and part.endswith('}}'):
                self.items.append(('out', part[2:-2].strip('-+'), (name, line)))
            elif part.startswith('{%') and part.endswith('%}'):
                self.items.append(('stmt', part[2:-2].strip('-+').strip(), (name, line)))
            elif part.startswith('{#'):
                pass
            elif part:
                if '{{' in part or '{%' in part:
                    raise Bad('jinja', 'unclosed {{ or {%', (name, line))
                self.items.append(('text', part, (name, line)))
            line += part.count('\n')
        self.i = 0

    def body(self, *ends):
        out = []
        while self.i < len(self.items):
            k, s, loc = self.items[self.i]
            if k == 'text':
                out.append(('text', s, loc))
                self.i += 1
            elif k == 'out':
                out.append(('out', expr(s, loc), loc))
                self.i += 1
            else:
                word, _, rest = s.partition(' ')
                rest = rest.strip()
                if word.rstrip(':') in ends:
                    return out
                self.i += 1
                out.append(self.stmt(word, rest, loc))
        if ends:
            raise Bad('jinja', f'{" or ".join(ends)} missing', (self.name, None))
        return out

    def close(self):
        k, s, loc = self.items[self.i]
        self.i += 1
        word, _, rest = s.partition(' ')
        return word.rstrip(':'), rest.strip(), loc

    def stmt(self, word, rest, loc):
        if word == 'if':
            branches, els = [], []
            cond = expr(rest.rstrip(':'), loc)
            while True:
                b = self.body('elif', 'else', 'endif')
                branches.append((cond, b))
                w, r, l2 = self.close()
                if w == 'elif':
                    cond = expr(r.rstrip(':'), l2)
                    continue
                if w == 'else':
                    els = self.body('endif')
                    self.close()
                break
            node = els
            for c, b in reversed(branches):
                node = [('if', c, b, node, loc)]
            return node[0]
        if word == 'for':
            m = re.match(r'(.+?)\s+in\s+(.+)$', rest.rstrip(':'), re.S)
            if not m:
                raise Bad('jinja', 'for without in', loc)
            names = [x.strip() for x in m.group(1).split(',')]
            src = m.group(2)
            if re.search(r'\s(if|recursive)\b', src):
                raise Bad('unknown', 'filtered loop', loc)
            it = expr(src, loc)
            b = self.body('else', 'endfor')
            e = []
            if self.close()[0] == 'else':
                e = self.body('endfor')
                self.close()
            return ('for', names, it, b, e, loc)
        if word == 'include':
            e = expr(re.sub(r'\s+(ignore missing|with context|without context)\b', '', rest), loc)
            return ('include', e, loc)
        if word == 'set':
            m = re.match(r'(\w+)\s*=(.*)$', rest, re.S)
            if not m:
                raise Bad('unknown', 'set block', loc)
            return ('set', m.group(1), expr(m.group(2), loc), loc)
        if word == 'with':
            pairs = []
            ex = Expr(lex(rest, loc), loc)
            while ex.i < len(ex.t):
                n = ex.name()
                ex.need('=')
                pairs.append((n, ex.expr()))
                ex.take(',')
            b = self.body('endwith')
            self.close()
            return ('with', pairs, b, loc)
        if word == 'autoescape':
            b = self.body('endautoescape')
            self.close()
            return ('autoescape', expr(rest, loc), b, loc)
        if word in ('macro', 'call', 'block', 'extends', 'import', 'from', 'filter', 'raw', 'do', 'trans'):
            raise Bad('unknown', f'{word} statement', loc)
        raise Bad('jinja', f'unknown statement {word}', loc)


# -- XML elements --------------------------------------------------------------

class El:
    """An element: name and attributes are lists of parts (text or expression)."""
    __slots__ = ('name', 'attrs', 'kids', 'loc')

    def __init__(self, name, attrs, kids, loc):
        self.name, self.attrs, self.kids, self.loc = name, attrs, kids, loc


def glue(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return tuple(out)


class Templates:
    def __init__(self, root):
        self.root = root
        self.cache = {}

    def names(self):
        out = []
        for d, _, fs in os.walk(self.root):
            for f in fs:
                out.append(os.path.relpath(os.path.join(d, f), self.root))
        return sorted(out)

    def blocks(self, name):
        """The block tree of a template file."""
        if name not in self.cache:
            p = os.path.join(self.root, name)
            if not os.path.isfile(p):
                raise Bad('jinja', f'template {name} does not exist', (name, None))
            with open(p, encoding='utf-8') as f:
                self.cache[name] = Parser(f.read(), name).body()
        return self.cache[name]

    def tree(self, name, stack=()):
        """The template as a tree of El, ('text',...), ('out',...), ('if',...), ('for',...), ('set',...), ('with',...)
        with includes in place; a part that cannot be read is a ('bad', Bad) node."""
        if name in stack:
            raise Bad('unknown', 'recursive include', (name, None))
        return self.xml(self.blocks(name), stack + (name,))

    def xml(self, items, stack):
        toks = self.flat(items)
        pos = 0
        root = El(('',), [], [], None)
        open_ = [root]
        while pos < len(toks):
            t = toks[pos]
            if t[0] != 'ch':
                pos += 1
                open_[-1].kids.append(self.block(t, stack))
                continue
            ch, loc = t[1], t[2]
            if ch != '<':
                j = pos
                while j < len(toks) and toks[j][0] == 'ch' and toks[j][1] != '<':
                    j += 1
                open_[-1].kids.append(('text', ''.join(x[1] for x in toks[pos:j]), loc))
                pos = j
                continue
            # a tag, comment or processing instruction
            head = ''.join(x[1] if x[0] == 'ch' else '\0' for x in toks[pos:pos + 9])
            if head.startswith('<!--'):
                end = self.find(toks, pos, '-->')
                if end is None:
                    raise Bad('xml', 'unclosed comment', loc)
                pos = end
                continue
            if head.startswith('<?'):
                end = self.find(toks, pos, '?>')
                if end is None:
                    raise Bad('xml', 'unclosed processing instruction', loc)
                pos = end
                continue
            if head.startswith('<!'):
                raise Bad('unknown', 'CDATA or DOCTYPE', loc)
            j, quote, parts = pos + 1, None, []
            while j < len(toks):
                t = toks[j]
                if t[0] == 'ch':
                    if quote is None and t[1] == '>':
                        break
                    if quote is None and t[1] == '<':
                        raise Bad('xml', '< inside a tag', loc)
                    if t[1] in '"\'':
                        quote = None if quote == t[1] else quote or t[1]
                    parts.append(t[1])
                elif t[0] == 'out':
                    parts.append(t)
                else:
                    raise Bad('unknown', 'a block inside a tag', loc)
                j += 1
            else:
                raise Bad('xml', 'unclosed tag', loc)
            pos = j + 1
            parts = list(glue(parts))
            if isinstance(parts[0], str) and parts[0].startswith('/'):
                parts[0] = parts[0][1:]
                if isinstance(parts[-1], str):
                    parts[-1] = parts[-1].rstrip()
                if len(open_) == 1:
                    raise Bad('xml', f'</{showname(glue(parts))}> closes nothing', loc)
                el = open_.pop()
                if keyname(glue(parts)) != keyname(el.name):
                    raise Bad('xml', f'<{showname(el.name)}> is closed by </{showname(glue(parts))}>', loc)
                continue
            selfclose = isinstance(parts[-1], str) and parts[-1].rstrip().endswith('/')
            if selfclose:
                parts[-1] = parts[-1].rstrip()[:-1]
            name, attrs = self.tag(parts, loc)
            el = El(name, attrs, [], loc)
            open_[-1].kids.append(el)
            if not selfclose:
                open_.append(el)
        if len(open_) > 1:
            raise Bad('xml', f'<{showname(open_[-1].name)}> is not closed', open_[-1].loc)
        return root.kids

    def find(self, toks, pos, what):
        s = ''
        for j in range(pos, len(toks)):
            s += toks[j][1] if toks[j][0] == 'ch' else '\0'
            if s.endswith(what):
                return j + 1
        return None

    def flat(self, items):
        out = []
        for it in items:
            if it[0] == 'text':
                line = it[2][1]
                for ch in it[1]:
                    out.append(('ch', ch, (it[2][0], line)))
                    if ch == '\n':
                        line += 1
            else:
                out.append(it)
        return out

    def part(self, items, stack):
        try:
            return self.xml(items, stack)
        except Bad as b:
            return [('bad', b)]

    def block(self, t, stack):
        try:
            if t[0] == 'if':
                return ('if', t[1], self.part(t[2], stack), self.part(t[3], stack), t[4])
            if t[0] == 'for':
                return ('for', t[1], t[2], self.part(t[3], stack), self.part(t[4], stack), t[5])
            if t[0] == 'with':
                return ('with', t[1], self.xml(t[2], stack), t[3])
            if t[0] == 'autoescape':
                return ('autoescape', t[1], self.xml(t[2], stack), t[3])
            if t[0] == 'include':
                if t[1][0] != 'const':
                    raise Bad('unknown', 'computed include', t[2])
                if not os.path.isfile(os.path.join(self.root, t[1][1])):
                    raise Bad('jinja', f'template {t[1][1]} does not exist', t[2])
                return ('include', self.tree(t[1][1], stack), t[2], t[1][1])
        except Bad as b:
            return ('bad', b)
        return t

    def tag(self, parts, loc):
        """Name parts and [(attribute name, value parts)] of a start tag."""
        name, rest = [], list(parts)
        while rest:
            p = rest.pop(0)
            if isinstance(p, str):
                m = re.match(r'[^\s]*', p)
                name.append(m.group())
                if m.end() < len(p):
                    rest.insert(0, p[m.end():])
                    break
            else:
                name.append(p)
        attrs = []
        while rest:
            if not isinstance(rest[0], str):
                raise Bad('unknown', 'computed attribute', loc)
            s = rest.pop(0).lstrip()
            if not s:
                continue
            m = re.match(r'([^\s=]+)\s*=\s*(["\'])', s)
            if not m:
                raise Bad('xml', f'bad attribute {s!r}', loc)
            q, val = m.group(2), []
            s = s[m.end():]
            while True:
                k = s.find(q)
                if k >= 0:
                    val.append(s[:k])
                    rest.insert(0, s[k + 1:])
                    break
                val.append(s)
                while rest and not isinstance(rest[0], str):
                    val.append(rest.pop(0))
                if not rest:
                    raise Bad('xml', 'unclosed attribute value', loc)
                s = rest.pop(0)
            attrs.append((m.group(1), glue(val)))
        return glue(name), attrs


def keyname(parts):
    return tuple(p if isinstance(p, str) else p[1] for p in parts)


def showname(parts):
    return ''.join(p if isinstance(p, str) else '{{' + showexpr(p[1]) + '}}' for p in parts)


def showexpr(e):
    k = e[0]
    if k == 'name':
        return e[1]
    if k == 'path':
        return '.'.join(e[1]).replace('.[]', '[]')
    if k == 'attr':
        return f'{showexpr(e[1])}.{e[2]}'
    if k == 'const':
        return repr(e[1])
    if k == 'filter':
        return f'{showexpr(e[1])}|{e[2]}'
    if k == 'not':
        return f'not {showexpr(e[1])}'
    if k in ('and', 'or'):
        return f'({showexpr(e[1])} {k} {showexpr(e[2])})'
    if k == 'test':
        return f'{showexpr(e[1])} is {e[2]}'
    if k == 'cmp':
        return f'{showexpr(e[2])} {e[1]} {showexpr(e[3])}'
    if k == 'call':
        return f'{showexpr(e[1])}({", ".join(showexpr(a) for a in e[2])})'
    return k
