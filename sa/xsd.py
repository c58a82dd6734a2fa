"""The OpenADR schema files as data: element declarations, content models, simple types, substitution groups."""
import xml.etree.ElementTree as ET

XS = '{http://www.w3.org/2001/XMLSchema}'
XSNS = 'http://www.w3.org/2001/XMLSchema'
EMPTY = ('seq', ())


class Elem:
    __slots__ = ('name', 'type', 'node', 'doc', 'abstract', 'fixed')

    def __init__(self, name, type_, node, doc):
        self.name, self.type, self.node, self.doc = name, type_, node, doc
        self.abstract = node.get('abstract') == 'true'
        self.fixed = node.get('fixed')


class Doc:
    def __init__(self, path):
        self.ns = {}
        with open(path, 'rb') as f:
            for ev, x in ET.iterparse(f, ('start-ns', 'start')):
                if ev == 'start-ns':
                    self.ns.setdefault(x[0], x[1])
                else:
                    break
        self.root = ET.parse(path).getroot()
        self.tns = self.root.get('targetNamespace', '')
        self.elq = self.root.get('elementFormDefault') == 'qualified'
        self.atq = self.root.get('attributeFormDefault') == 'qualified'

    def q(self, name):
        if ':' in name:
            p, n = name.split(':', 1)
            return (self.ns.get(p, p), n)
        return (self.ns.get('', self.tns), name)


class Schema:
    def __init__(self, paths):
        self.elements, self.types, self.groups, self.attrs, self.attrgroups = {}, {}, {}, {}, {}
        self.members = {}          # head of a substitution group -> direct members
        for p in paths:
            d = Doc(p)
            for n in d.root:
                name = n.get('name')
                if name is None:
                    continue
                key = (d.tns, name)
                if n.tag == XS + 'element':
                    self.elements.setdefault(key, Elem(key, None, n, d))
                    if n.get('substitutionGroup'):
                        self.members.setdefault(d.q(n.get('substitutionGroup')), set()).add(key)
                elif n.tag in (XS + 'complexType', XS + 'simpleType'):
                    self.types.setdefault(key, (n, d))
                elif n.tag == XS + 'group':
                    self.groups.setdefault(key, (n, d))
                elif n.tag == XS + 'attribute':
                    self.attrs.setdefault(key, (n, d))
                elif n.tag == XS + 'attributeGroup':
                    self.attrgroups.setdefault(key, (n, d))
        self._content = {}

    def typeof(self, el):
        """(type node or None, its document, builtin name or None)."""
        t = el.node.get('type')
        if t is not None:
            return self.named(el.doc.q(t))
        for c in el.node:
            if c.tag in (XS + 'complexType', XS + 'simpleType'):
                return c, el.doc, None
        head = el.node.get('substitutionGroup')
        if head:
            h = self.elements.get(el.doc.q(head))
            if h is not None:
                return self.typeof(h)
        return None, None, 'anyType'

    def named(self, q):
        if q[0] == XSNS:
            return None, None, q[1]
        if q in self.types:
            return (*self.types[q], None)
        return None, None, None

    def substitutes(self, q):
        """Elements that can stand where q is asked for."""
        out, todo = set(), [q]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            todo.extend(self.members.get(x, ()))
        return {x for x in out if x in self.elements and not self.elements[x].abstract}

    # -- complex content -----------------------------------------------------

    def model(self, el):
        """('simple', type) | ('complex', regex, attributes {qname: required}) | ('any',) of an element."""
        if id(el.node) not in self._content:
            self._content[id(el.node)] = self._model(*self.typeof(el))
        return self._content[id(el.node)]

    def _model(self, n, d, builtin):
        if n is None:
            if builtin == 'anyType' or builtin is None:
                return ('any',)
            return ('simple', (None, None, builtin), {})
        if n.tag == XS + 'simpleType':
            return ('simple', (n, d, None), {})
        attrs = {}
        self._attrs(n, d, attrs)
        for c in n:
            if c.tag == XS + 'simpleContent':
                for r in c:
                    if r.tag in (XS + 'extension', XS + 'restriction'):
                        self._attrs(r, d, attrs)
                        m = self._model(*self.named(d.q(r.get('base'))))
                        if m[0] == 'simple':
                            attrs.update({k: v for k, v in m[2].items() if k not in attrs})
                            return ('simple', m[1], attrs)
                        return ('any',)
            if c.tag == XS + 'complexContent':
                for r in c:
                    if r.tag == XS + 'restriction':
                        self._attrs(r, d, attrs)
                        return ('complex', self._group(r, d), attrs)
                    if r.tag == XS + 'extension':
                        self._attrs(r, d, attrs)
                        m = self._model(*self.named(d.q(r.get('base'))))
                        if m[0] == 'complex':
                            attrs.update({k: v for k, v in m[2].items() if k not in attrs})
                            return ('complex', ('seq', (m[1], self._group(r, d))), attrs)
                        return ('complex', self._group(r, d), attrs) if m[0] == 'any' else m
        return ('complex', self._group(n, d), attrs)

    def _attrs(self, n, d, out):
        for a in n:
            if a.tag == XS + 'attribute':
                if a.get('ref'):
                    q = d.q(a.get('ref'))
                elif a.get('form') == 'qualified' or a.get('form') is None and d.atq:
                    q = (d.tns, a.get('name'))
                else:
                    q = ('', a.get('name'))
                out[q] = a.get('use') == 'required'
            elif a.tag == XS + 'attributeGroup' and a.get('ref') and d.q(a.get('ref')) in self.attrgroups:
                self._attrs(*self.attrgroups[d.q(a.get('ref'))], out)
            elif a.tag == XS + 'anyAttribute':
                out['*'] = False

    def _group(self, n, d):
        parts = [self._particle(c, d) for c in n if c.tag in (XS + 'sequence', XS + 'choice', XS + 'all', XS + 'group')]
        return ('seq', tuple(parts))

    def _particle(self, c, d):
        lo = int(c.get('minOccurs', '1'))
        hi = c.get('maxOccurs', '1')
        hi = None if hi == 'unbounded' else int(hi)
        if c.tag == XS + 'element':
            if c.get('ref'):
                q = d.q(c.get('ref'))
                names = self.substitutes(q)
                alts = tuple(('el', s, self.elements[s]) for s in sorted(names))
                r = ('alt', alts) if len(alts) != 1 else alts[0]
            else:
                qual = c.get('form') == 'qualified' or c.get('form') is None and d.elq
                q = (d.tns if qual else '', c.get('name'))
                r = ('el', q, Elem(q, None, c, d))
        elif c.tag == XS + 'any':
            r = ('any',)
        elif c.tag == XS + 'group' and c.get('ref'):
            g, gd = self.groups[d.q(c.get('ref'))]
            r = self._group(g, gd)
        else:
            kids = tuple(self._particle(x, d) for x in c
                         if x.tag in (XS + 'element', XS + 'sequence', XS + 'choice', XS + 'group', XS + 'any', XS + 'all'))
            if c.tag == XS + 'choice':
                r = ('alt', kids)
            elif c.tag == XS + 'all':
                r = ('all', kids)
            else:
                r = ('seq', kids)
        return r if (lo, hi) == (1, 1) else ('rep', r, lo, hi)

    # -- simple types --------------------------------------------------------

    def simple(self, t):
        """[(builtin base, enumeration or None, patterns)] – the alternatives of a simple type."""
        n, d, builtin = t
        if n is None:
            return [(builtin, None, ())]
        for c in n:
            if c.tag == XS + 'restriction':
                if c.get('base'):
                    base = self.simple(self.named(d.q(c.get('base'))))
                else:
                    inner = [x for x in c if x.tag == XS + 'simpleType']
                    base = self.simple((inner[0], d, None)) if inner else [('string', None, ())]
                enum = frozenset(x.get('value') for x in c if x.tag == XS + 'enumeration') or None
                pats = tuple(x.get('value') for x in c if x.tag == XS + 'pattern')
                return [(b, enum if enum is not None else e, p + pats) for b, e, p in base]
            if c.tag == XS + 'union':
                out = []
                for m in (c.get('memberTypes') or '').split():
                    out += self.simple(self.named(d.q(m)))
                for x in c:
                    if x.tag == XS + 'simpleType':
                        out += self.simple((x, d, None))
                return out
            if c.tag == XS + 'list':
                return [('list', None, ())]
        return [('string', None, ())]

    def enumeration(self, ns, name):
        """All enumerated values of a named simple type, and whether values outside of them are possible."""
        t = self.named((ns, name))
        if t[0] is None:
            return None, None
        vals, free = set(), False
        for _, e, _ in self.simple(t):
            if e is None:
                free = True
            else:
                vals |= e
        return vals, free


# -- content models as automata ------------------------------------------------

class NFA:
    """Epsilon automaton of a content model; labels are element names, '*' stands for any element."""

    def __init__(self, r, cap=4):
        self.eps, self.tr, self.decl = {}, {}, {}
        self.n = 0
        self.cap = cap
        self.start = self._new()
        self.end = self._build(r, self.start)

    def _new(self):
        self.n += 1
        return self.n - 1

    def _e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def _build(self, r, s):
        k = r[0]
        if k == 'el':
            t = self._new()
            self.tr.setdefault(s, []).append((r[1], t))
            self.decl[(s, r[1], t)] = r[2] if len(r) > 2 else None
            return t
        if k == 'any':
            t = self._new()
            self.tr.setdefault(s, []).append(('*', t))
            return t
        if k == 'seq':
            for x in r[1]:
                s = self._build(x, s)
            return s
        if k == 'alt':
            t = self._new()
            for x in r[1]:
                a = self._new()
                self._e(s, a)
                self._e(self._build(x, a), t)
            return t
        if k == 'all':
            import itertools
            return self._build(('alt', tuple(('seq', p) for p in itertools.permutations(r[1]))), s)
        if k == 'rep':
            _, x, lo, hi = r
            for _ in range(min(lo, 50)):
                s = self._build(x, s)
            if hi is None:
                a = self._new()
                self._e(s, a)
                b = self._build(x, a)
                self._e(b, a)
                t = self._new()
                self._e(a, t)
                return t
            t = self._new()
            self._e(s, t)
            for _ in range(min(hi - lo, 50)):
                s = self._build(x, s)
                self._e(s, t)
            return t
        raise ValueError(k)

    def close(self, ss):
        out, todo = set(), list(ss)
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo.extend(self.eps.get(x, ()))
        return frozenset(out)

    def step(self, ss, label):
        return self.close(t for s in ss for lb, t in self.tr.get(s, ()) if lb == label or lb == '*')

    def expected(self, ss):
        return sorted({lb if lb == '*' else lb[1] for s in ss for lb, _ in self.tr.get(s, ())})


def included(a, b):
    """None when every word of a is one of b, else (word, what is wrong)."""
    seen = set()
    todo = [(a.close([a.start]), b.close([b.start]), ())]
    while todo:
        x, y, w = todo.pop(0)
        if (x, y) in seen:
            continue
        seen.add((x, y))
        if a.end in x and b.end not in y:
            return w, 'ends too early: missing ' + ' or '.join(b.expected(y))
        for lb in {lb for s in x for lb, _ in a.tr.get(s, ())}:
            ny = b.step(y, lb)
            if not ny:
                exp = b.expected(y)
                return w, f'{lb[1]} is not allowed here' + (f' (expected {", ".join(exp)})' if exp else '')
            todo.append((a.step(x, lb), ny, w + (lb[1],)))
    return None
