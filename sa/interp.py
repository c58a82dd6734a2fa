"""Path-sensitive, interprocedural abstract interpreter for Python source.

Every function reachable from an entry point is interpreted over *provenance
terms* (where a value comes from) instead of values; conditions become facts
about terms; loops are unrolled a bounded number of times; project functions
are inlined, everything else is an opaque call that is recorded as an event.
The rules in sa/rules judge the traces of events and the facts in force at
each of them.  No code of the analysed package is executed and no solver is
used: a condition is decided only by constants, by the facts on the path, and
by the small set of inferences in `decide`.
"""
import ast
import builtins
import functools
import re
import time
from collections import namedtuple

Ev = namedtuple('Ev', 'kind name args kw res loc facts extra counts')

NONE = ('c', None, 'NoneType')
TRUE = ('c', True, 'bool')
FALSE = ('c', False, 'bool')


def C(v):
    return ('c', v, type(v).__name__)


def P(n):
    return ('p', n)


def A(b, n):
    return ('attr', b, n)


def I(b, k):
    return ('item', b, k if isinstance(k, tuple) else C(k))


def E(it, n):
    return ('elem', it, n)


def is_c(t):
    return t[0] == 'c'


def path(base, dotted):
    for p in dotted.split('.'):
        base = I(base, C(p))
    return base


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str) and x[0] in KINDS:
                    yield from subterms(x)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            if y and isinstance(y[0], str) and y[0] in KINDS:
                                yield from subterms(y)
                            else:
                                for z in y:
                                    if isinstance(z, tuple) and z and isinstance(z[0], str) and z[0] in KINDS:
                                        yield from subterms(z)


KINDS = {'c', 'p', 'attr', 'item', 'elem', 'idx', 'key', 'call', 'o', 't', 'fn', 'partial', 'cls', 'mod', 'ext',
         'bin', 'un', 'fstr', 'coro', 'unk', 'exc', 'glob', 'slice', 'super'}


def show(t, depth=6):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth <= 0:
        return '…'
    k = t[0]
    d = depth - 1
    if k == 'c':
        return repr(t[1])
    if k == 'p':
        return t[1]
    if k == 'attr':
        return f'{show(t[1], d)}.{t[2]}'
    if k == 'item':
        return f'{show(t[1], d)}[{show(t[2], d)}]'
    if k == 'elem':
        return f'{show(t[1], d)}<{t[2]}>'
    if k in ('idx', 'key'):
        return f'{k}({show(t[1], d)})<{t[2]}>'
    if k == 'call':
        a = [show(x, d) for x in t[2]] + [f'{n}={show(v, d)}' for n, v in t[3]]
        return f'{t[1]}({", ".join(a)})' + (f'#{t[4]}' if t[4] else '')
    if k == 't':
        return '(' + ', '.join(show(x, d) for x in t[1]) + ')'
    if k == 'bin':
        return f'({show(t[2], d)} {t[1]} {show(t[3], d)})'
    if k == 'un':
        return f'({t[1]} {show(t[2], d)})'
    if k == 'fstr':
        return 'f"' + ''.join(str(x[1]) if x[0] == 'c' else '{' + show(x, d) + '}' for x in t[1]) + '"'
    if k in ('fn',):
        return f'<fn {t[1]}>'
    if k == 'coro':
        return f'<coro {show(t[1], d)}>'
    if k == 'partial':
        return f'partial({show(t[1], d)})'
    return '<' + ' '.join(str(x) for x in t[:3]) + '>'


def span(t):
    """A timedelta whose parts are all known, None for anything else."""
    import datetime
    try:
        if t[0] == 'call' and t[1] == 'datetime.timedelta' and all(x[0] == 'c' for x in t[2]) and all(x[0] == 'c' for k, x in t[3]):
            return datetime.timedelta(*(x[1] for x in t[2]), **{k: x[1] for k, x in t[3]})
        if t[0] == 'bin' and len(t) == 4:
            a, b = span(t[2]), span(t[3])
            if a is not None and b is not None:
                return a + b if t[1] == '+' else a - b if t[1] == '-' else None
            n = t[3] if a is not None else t[2]
            if t[1] == '*' and (a is not None or b is not None) and n[0] == 'c' and isinstance(n[1], (int, float)):
                return (a if a is not None else b) * n[1]
    except (TypeError, ValueError, OverflowError):
        pass
    return None


DIGESTS = {'sha256': 32, 'sha1': 20, 'sha512': 64, 'sha384': 48, 'sha224': 28, 'md5': 16}


def digest_len(t):
    """The number of bytes of (a part of) the digest of something, None for anything else."""
    if t[0] == 'call' and t[1] == '.digest' and len(t[2]) == 1 and t[2][0][0] == 'call' and t[2][0][1].startswith('hashlib.'):
        return DIGESTS.get(t[2][0][1].split('.')[1])
    if t[0] == 'slice' and all(x[0] == 'c' for x in t[2]):
        n = digest_len(t[1])
        return None if n is None else len(range(n)[slice(*(x[1] for x in t[2]))])
    if t[0] == 'call' and t[1] in ('bytes', 'list', 'tuple') and len(t[2]) == 1:
        return digest_len(t[2][0])
    return None


class Limit(Exception):
    """The analysis ran out of its state budget: no verdict."""


class State:
    __slots__ = ('envs', 'heap', 'store', 'facts', 'counts', 'events', 'cur', 'captured', 'ncalls', 'notes')

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.store = {}
        self.facts = {}
        self.counts = {}
        self.events = None       # linked list (prev, Ev)
        self.cur = None
        self.captured = frozenset()
        self.ncalls = {}
        self.notes = {}

    def copy(self):
        s = State.__new__(State)
        s.envs = self.envs
        s.heap = self.heap
        s.store = self.store
        s.facts = self.facts
        s.counts = self.counts
        s.events = self.events
        s.cur = self.cur
        s.captured = self.captured
        s.ncalls = self.ncalls
        s.notes = self.notes
        return s

    def setvar(self, eid, name, val):
        d, parent, mod = self.envs[eid]
        nd = dict(d)
        nd[name] = val
        self.envs = dict(self.envs)
        self.envs[eid] = (nd, parent, mod)

    def fact(self, atom, val):
        f = dict(self.facts)
        f[atom] = val
        self.facts = f

    def unfact(self, pred):
        f = {a: v for a, v in self.facts.items() if not pred(a)}
        if len(f) != len(self.facts):
            self.facts = f

    def count(self, it, n):
        c = dict(self.counts)
        c[it] = n
        self.counts = c

    def trace(self):
        out = []
        e = self.events
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def key(self, gc=False, extra=None):
        heap = self.heap
        if gc:
            heap = self.reachable(extra)
        return (freeze_envs(self.envs), tuple(sorted(heap.items(), key=lambda kv: kv[0])),
                tuple(sorted(self.store.items(), key=repr)), frozenset(self.facts.items()),
                frozenset(self.counts.items()), id(self.events) if self.events else 0)


    def reachable(self, extra=None):
        """The heap objects that the environments, the store, the facts and the notes still know."""
        todo = set()
        for d, _, _ in self.envs.values():
            for v in d.values():
                todo |= oids(v)
        for k, v in self.store.items():
            todo |= oids(k) | oids(v)
        for k in self.facts:
            todo |= oids(k)
        for k in self.counts:
            todo |= oids(k)
        todo |= scan(self.notes, set())
        if extra is not None:
            todo |= oids(extra)
        out = {}
        while todo:
            x = todo.pop()
            if x in out or x not in self.heap:
                continue
            out[x] = self.heap[x]
            todo |= oids(self.heap[x])
        return out


def scan(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'o' and isinstance(t[1], str):
            out.add(t[1])
            return out
        for x in t:
            if isinstance(x, (tuple, list, dict, set, frozenset)):
                scan(x, out)
    elif isinstance(t, dict):
        for k, v in t.items():
            scan(k, out)
            scan(v, out)
    elif isinstance(t, (list, set, frozenset)):
        for x in t:
            scan(x, out)
    return out


@functools.lru_cache(maxsize=200000)
def _oids(t):
    return frozenset(scan(t, set()))


def oids(t):
    try:
        return _oids(t)
    except TypeError:
        return frozenset(scan(t, set()))


def freeze_envs(envs):
    return tuple((k, tuple(v[0].items())) for k, v in envs.items())


# Heap objects
#  ('dict', items: tuple of (keyterm, val), open: bool, base: term|None, cls: None)
#  ('list', items: tuple, open: bool, kind: 'list'|'set')
#  ('inst', clsqual, attrs: tuple of (name, val), base: term|None)

SAFE_CALLS = {
    'isinstance', 'len', 'str', 'repr', 'print', 'hasattr', 'callable', 'type', 'id', 'bool', 'enumerate', 'range',
    'zip', 'list', 'dict', 'tuple', 'set', 'partial', 'datetime.datetime.now', 'datetime.timedelta', 'abs', 'sorted',
    'uuid.uuid4', '.keys', '.values', '.items', '.append', '.lower', '.upper', '.strip', '.startswith', '.endswith',
    '.rstrip', '.lstrip', '.copy', '.done', '.total_seconds', '.join', '.center', 'asyncio.iscoroutine',
    'asyncio.isfuture', 'dataclasses.is_dataclass', 'openleadr.utils.generate_id', 'asyncio.get_event_loop',
    'generate_id', 'find_by', 'getmember', 'asdict', 'dataclasses.asdict', 'traceback.format_exc', '.get', '.extend',
    'object', 'slice', 'reversed', 'logging.getLogger', '.add_done_callback', '.clear', '.add', '.discard',
    '.update', '.setdefault', '.insert', 'frozenset', 'iscoro', 'copy.copy', 'copy.deepcopy',
}

PURE = {
    'isinstance', 'len', 'str', 'repr', 'hasattr', 'callable', 'type', 'bool', 'list', 'dict', 'tuple', 'set',
    'min', 'max', 'sum', 'sorted', 'abs', 'int', 'float', 'all', 'any', 'round', 'divmod', 'range', 'zip', 'reversed',
    'datetime.timedelta', '.total_seconds', '.lower', '.upper', '.strip', '.startswith', '.endswith', '.rstrip',
    '.lstrip', '.keys', '.values', '.items', '.astimezone', '.isoformat', '.encode', '.decode', '.split', '.groups',
    '.group', '.index', '.done', 'asyncio.isfuture', 'getmember', 'iscoro', '.replace', '.title', '.isdigit',
    'inspect.signature', 're.match', 're.fullmatch', 're.sub', 'asdict', 'frozenset', '.get_extra_info', '.format',
    '.strftime', '.count', '.isalpha', '.casefold', '.hex', '.digest', 'ord', 'chr', '.union', '.timestamp',
    '.find', '.findtext',
}

BUILTIN_EXC = {n: o for n, o in vars(builtins).items() if isinstance(o, type) and issubclass(o, BaseException)}
EXT_EXC_BASES = {
    'XMLSyntaxError': ('SyntaxError',),
    'InvalidSignature': ('Exception',),
    'InvalidDigest': ('InvalidSignature', 'Exception'),
    'InvalidCertificate': ('InvalidSignature', 'Exception'),
    'InvalidInput': ('ValueError', 'Exception'),
    'CancelledError': ('BaseException',),
    'ClientConnectorError': ('ClientError', 'OSError', 'Exception'),
    'ClientError': ('Exception',),
    'TimeoutError': ('OSError', 'Exception'),
    'QueueEmpty': ('Exception',),
    'InvalidStateError': ('Exception',),
}

STR_METHODS = {'startswith', 'endswith', 'lower', 'upper', 'split', 'strip', 'rstrip', 'lstrip', 'replace', 'join',
               'title', 'isdigit', 'center', 'rsplit', 'partition', 'rpartition', 'islower', 'isupper', 'format', 'find', 'count', 'encode', 'casefold',
               'splitlines', 'zfill', 'swapcase', 'capitalize', 'removeprefix', 'removesuffix', 'isalpha', 'isspace', 'isalnum', 'expandtabs', 'index', 'rfind',
               'ljust', 'rjust', 'isnumeric', 'isdecimal'}

CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
       ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}


MUTATORS = {'append', 'add', 'pop', 'popitem', 'remove', 'clear', 'update', 'extend', 'insert', 'setdefault', 'discard',
            'sort', 'reverse', 'appendleft', 'popleft'}


RE_CALLS = ('re.match', 're.fullmatch', 're.search')


def fold(name, args):
    """The value of a function of constants, as a 1-tuple; a match object for a successful match."""
    try:
        if name in RE_CALLS:
            return (getattr(re, name[3:])(*args),)
        if name in ('re.sub', 're.escape'):
            return (getattr(re, name[3:])(*args),)
        if name in ('int', 'float') and len(args) == 1:
            return ({'int': int, 'float': float}[name](args[0]),)
    except Exception:
        pass
    return None


def term(v):
    return ('t', tuple(term(x) for x in v)) if isinstance(v, tuple) else C(v)


def fold_method(b, name, args, kw):
    """Methods of compiled patterns and of match objects when everything is constant."""
    if kw or any(a[0] != 'c' for a in args + b[2]) or b[3]:
        return None
    try:
        if b[1].endswith('re.compile'):
            if name in ('match', 'fullmatch', 'search'):
                m = getattr(re.compile(*[a[1] for a in b[2]]), name)(*[a[1] for a in args])
                return NONE if m is None else ('call', 're.' + name, b[2][:1] + args, (), 0) if len(b[2]) == 1 and len(args) == 1 else None
            return None
        m = getattr(re, b[1][3:])(*[a[1] for a in b[2]])
        if m is not None and name in ('group', 'groups', 'start', 'end', 'span'):
            return term(getattr(m, name)(*[a[1] for a in args]))
    except Exception:
        pass
    return None


MAKES = {'datetime.datetime': ('datetime', 'date'), 'datetime.datetime.now': ('datetime', 'date'), 'datetime.timedelta': ('timedelta',),
         'int': ('int',), 'float': ('float',), 'len': ('int',), 'dict': ('dict',), 'list': ('list',), 'sorted': ('list',), 'set': ('set',)}


def built(t):
    """The names of the classes of the value of a constructor call."""
    if t[0] == 'call':
        return MAKES.get(t[1])
    if t[0] == 'bin' and t[1] == '*' and 'timedelta' in ((built(t[2]) or ()) + (built(t[3]) or ())):
        return ('timedelta',)
    return None


def unlike(t, type_):
    """A value built by a constructor call never equals a constant of that type."""
    made = built(t)
    if not made:
        return False
    if made[0] in ('int', 'float'):
        return type_ in ('str', 'NoneType', 'bytes')
    return type_ not in made


def folded_match(t):
    return t[0] == 'call' and t[1] in RE_CALLS and not t[3] and len(t[2]) == 2 and all(a[0] == 'c' for a in t[2])


class Config:
    """What one analysis wants: which functions stay opaque, what is a user callback, loop bounds."""

    def __init__(self, repo, **kw):
        self.repo = repo
        self.opaque = set(kw.pop('opaque', ()))
        self.self_cls = kw.pop('self_cls', None)         # Class of P('self')
        self.types = dict(kw.pop('types', {}))           # term -> Class
        self.usercb = kw.pop('usercb', lambda cls, name: False)
        self.max_iter = kw.pop('max_iter', 1)
        self.while_iter = kw.pop('while_iter', 2)
        self.max_states = kw.pop('max_states', 4000000)
        self.max_seconds = kw.pop('max_seconds', 150)
        self.max_depth = kw.pop('max_depth', 14)
        self.max_recur = kw.pop('max_recur', 2)
        self.raising = kw.pop('raising', None)           # name, args -> list of exc names or None for default
        self.key_errors = kw.pop('key_errors', False)
        self.keep_event = kw.pop('keep_event', None)
        self.post_init = kw.pop('post_init', False)
        self.model_utils = kw.pop('model_utils', True)
        self.forget = kw.pop('forget', None)             # atom -> bool: facts not worth keeping
        self.iters = kw.pop('iters', None)               # term -> max iterations or None
        self.splat = kw.pop('splat', None)               # *term in a display -> the lengths to consider, or None
        self.pure_now = kw.pop('pure_now', False)
        self.inline_only = kw.pop('inline_only', None)
        self.track_coros = kw.pop('track_coros', False)           # events for coroutines made and started
        self.gc = kw.pop('gc', True)                    # states that differ only in unreachable objects are the same
        self.keep_store = kw.pop('keep_store', None)              # base, key -> bool: stores into opaque objects worth following
        self.literal_globals = kw.pop('literal_globals', False)   # keep module level dicts and lists as terms
        self.sort_model = kw.pop('sort_model', False)    # follow sorts of short lists through their keys
        assert not kw, kw


class Interp:
    def __init__(self, cfg):
        self.cfg = cfg
        self.repo = cfg.repo
        self.lambdas = {}
        self.sink = []
        self.try_stack = []
        self.depth = 0
        self.callstack = []
        self.nstates = 0
        self.t0 = time.monotonic()
        self.stats = {'functions': set(), 'paths': 0, 'branches': 0, 'calls': 0}
        self.dc_fields = set()
        for c in self.repo.classes.values():
            if c.is_dataclass:
                self.dc_fields |= {n for n, _ in c.fields}
        self._glob_cache = {}
        self._classconst = {}
        self._live = {}
        self.here = None

    # ------------------------------------------------------------------ util

    def loc(self, node):
        f = self.callstack[-1] if self.callstack else None
        return (f.file if f else '?', f.qual if f else '?', getattr(node, 'lineno', 0))

    def emit(self, st, kind, name, args=(), kw=(), res=None, node=None, extra=None):
        ev = Ev(kind, name, tuple(args), tuple(kw), res, self.loc(node), st.facts, extra, st.counts)
        if self.cfg.keep_event is not None and not self.cfg.keep_event(ev):
            return
        st.events = (st.events, ev)

    def fork(self, st):
        self.nstates += 1
        if self.nstates > self.cfg.max_states:
            raise Limit(f'more than {self.cfg.max_states} states')
        if not self.nstates & 1023 and time.monotonic() - self.t0 > self.cfg.max_seconds:
            raise Limit(f'more than {self.cfg.max_seconds} s')
        return st.copy()

    def alloc(self, st, node, obj):
        base = f'{self.callstack[-1].qual if self.callstack else ""}:{getattr(node, "lineno", 0)}:' \
               f'{getattr(node, "col_offset", 0)}:{obj[0]}'
        n = 0
        while f'{base}#{n}' in st.heap:
            n += 1
        oid = f'{base}#{n}'
        st.heap = dict(st.heap)
        st.heap[oid] = obj
        return ('o', oid)

    def hset(self, st, oid, obj):
        st.heap = dict(st.heap)
        st.heap[oid] = obj

    def mkdict(self, st, node, items, open_=False, base=None):
        return self.alloc(st, node, ('dict', tuple(items), open_, base))

    def mklist(self, st, node, items, open_=False, kind='list'):
        return self.alloc(st, node, ('list', tuple(items), open_, kind))

    def typeof(self, t):
        if t in self.cfg.types:
            return self.cfg.types[t]
        if t == ('p', 'self') and self.cfg.self_cls:
            return self.cfg.self_cls
        return None

    # ------------------------------------------------------------------ facts

    def domain(self, st, t):
        """(allowed set or None, excluded set) of constants for term t on this path."""
        allowed, excl = None, set()
        for atom, v in st.facts.items():
            if atom[0] == 'eq' and atom[1] == t and atom[2][0] == 'c':
                k = (atom[2][1], atom[2][2])
                if v:
                    allowed = {k} if allowed is None else allowed & {k}
                else:
                    excl.add(k)
            elif atom[0] == 'inset' and atom[1] == t:
                if v:
                    allowed = set(atom[2]) if allowed is None else allowed & atom[2]
                else:
                    excl |= atom[2]
            elif atom[0] == 'isnone' and atom[1] == t:
                if v:
                    allowed = {(None, 'NoneType')}
                else:
                    excl.add((None, 'NoneType'))
        return allowed, excl

    def decide(self, st, atom):
        f = st.facts
        if atom in f:
            return f[atom]
        k = atom[0]
        if k == 'truth':
            t = atom[1]
            if span(t) is not None:
                return bool(span(t))
            d = self.const_truth(st, t)
            if d is not None:
                return d
            if folded_match(t):
                return True
            if f.get(('isnone', t)) is True:
                return False
            if t in st.counts:
                return st.counts[t] > 0
            al, ex = self.domain(st, t)
            if al is not None:
                vs = {bool(v[0]) for v in al - ex}
                if len(vs) == 1:
                    return vs.pop()
            for a, v in f.items():
                if v and a[0] == 'isinst' and a[1] == t and a[2] == ('cls',):
                    return True
            if any(v and a[0] == 'in' and a[2] == t for a, v in f.items()):
                return True
            return None
        if k == 'isnone':
            t = atom[1]
            if t[0] == 'c':
                return t[1] is None
            if t[0] in ('o', 't', 'fn', 'partial', 'cls', 'mod', 'fstr', 'coro', 'exc', 'bin', 'ext'):
                return False
            if built(t):
                return False
            if t[0] == 'call' and t[1] in ('str', 'len', 'datetime.datetime.now', 'datetime.timedelta', 'list',
                                           'generate_id', 'openleadr.utils.generate_id', '.items', '.keys', 'sorted'):
                return False
            if folded_match(t):
                return False
            if f.get(('truth', t)) is True:
                return False
            if t in st.counts:
                return False
            if f.get(('iscoro', t)) is True:
                return False
            al, ex = self.domain(st, t)
            if al is not None and (None, 'NoneType') not in al - ex:
                return False
            for a, v in f.items():
                if v and a[0] == 'isinst' and a[1] == t:
                    return False
                if v and a[0] == 'in' and a[2] == t:
                    return False
            return None
        if k == 'eq':
            a, b = atom[1], atom[2]
            if a == b:
                return True
            if a[0] == 't' and b[0] == 't':
                if len(a[1]) != len(b[1]):
                    return False
                if any(x[0] == 'c' and y[0] == 'c' and x[1] != y[1] for x, y in zip(a[1], b[1])):
                    return False
                if all(x == y or x[0] == 'c' and y[0] == 'c' for x, y in zip(a[1], b[1])):
                    return True
            if span(a) is not None and span(b) is not None:
                return span(a) == span(b)
            if a[0] == 'c' and b[0] == 'c':
                try:
                    return a[1] == b[1]
                except Exception:
                    return None
            if b[0] == 'c':
                al, ex = self.domain(st, a)
                kk = (b[1], b[2])
                if al is not None:
                    if kk not in al:
                        return False
                    if al - ex == {kk}:
                        return True
                if kk in ex:
                    return False
                if a[0] in ('o', 't', 'fn', 'cls', 'partial') and b[2] in ('str', 'NoneType', 'bool', 'int'):
                    return False
                if unlike(a, b[2]):
                    return False
                if f.get(('truth', a)) is True and not b[1]:
                    return False
                if f.get(('truth', a)) is False and b[1]:
                    return False
            n = self.length(st, a)
            if n is not None and b[0] == 'c' and isinstance(b[1], int):
                lo, exact = n
                if b[1] < lo or exact and b[1] != lo:
                    return False
                if exact:
                    return True
            # transitive through constants
            if b[0] != 'c':
                va, vb = self.const_of(st, a), self.const_of(st, b)
                if va is not None and vb is not None:
                    return va == vb
            return None
        if k == 'inset':
            t, s = atom[1], atom[2]
            if t[0] == 'c':
                return (t[1], t[2]) in s
            al, ex = self.domain(st, t)
            if al is not None:
                al = al - ex
                if al <= s:
                    return True
                if not (al & s):
                    return False
            if s <= ex:
                return False
            if t[0] in ('o', 't', 'fn', 'cls', 'partial') or all(unlike(t, x[1]) for x in s):
                return False
            return None
        if k == 'lt':
            a, b = atom[1], atom[2]
            if a == b:
                return False
            if span(a) is not None and span(b) is not None:
                return span(a) < span(b)
            if a[0] == 'c' and b[0] == 'c':
                try:
                    return a[1] < b[1]
                except Exception:
                    return None
            if f.get(('lt', b, a)) is True:
                return False
            for x, y, flip in ((a, b, False), (b, a, True)):
                n = self.length(st, x)
                if n is not None and y[0] == 'c' and isinstance(y[1], int):
                    lo, exact = n
                    if flip:                       # y < len
                        if y[1] < lo:
                            return True
                        if exact:
                            return False
                    else:                          # len < y
                        if lo >= y[1]:
                            return False
                        if exact:
                            return True
            return None
        if k == 'in':
            key, cont = atom[1], atom[2]
            if cont[0] == 'glob' and cont[2] == '<globals>' and key[0] == 'c' and isinstance(key[1], str):
                return self.repo.resolve(self.repo.modules[cont[1]], key[1]) is not None
            if cont[0] == 'o':
                o = st.heap[cont[1]]
                if o[0] == 'dict':
                    ks = [kk for kk, _ in o[1]]
                    if key in ks:
                        return True
                    if not o[2] and (key[0] == 'c') and all(kk[0] == 'c' for kk in ks):
                        return False
                    if o[2] and o[3] is not None and key[0] == 'c' and all(kk[0] == 'c' for kk in ks):
                        return self.decide(st, ('in', key, o[3]))
                if o[0] == 'list':
                    if key in o[1]:
                        return True
                    if not o[2] and not o[1]:
                        return False
                    if not o[2] and key[0] == 'c' and all(kk[0] == 'c' for kk in o[1]):
                        return False
                if o[0] == 'inst':
                    return key[0] == 'c' and key[1] in dict(o[2])
            if cont[0] == 't':
                if key in cont[1]:
                    return True
                if key[0] == 'c' and all(x[0] == 'c' for x in cont[1]):
                    return False
            if cont[0] == 'c' and key[0] == 'c':
                try:
                    return key[1] in cont[1]
                except Exception:
                    return None
            if f.get(('truth', cont)) is False or f.get(('isnone', cont)) is True:
                return False
            if st.counts.get(cont) == 0:
                return False
            here = I(cont, key)
            if f.get(('truth', here)) is True or f.get(('isnone', here)) is False:
                return True
            return None
        if k == 'isinst':
            t = atom[1]
            names = atom[2]
            if t[0] == 'c':
                n = t[2]
                if n in names:
                    return True
                if n == 'bool' and 'int' in names:
                    return True
                return False
            if t[0] == 't':
                return 'tuple' in names
            if t[0] == 'fstr':
                return 'str' in names
            if t[0] == 'o':
                o = st.heap[t[1]]
                if o[0] == 'dict':
                    return 'dict' in names or 'Mapping' in names
                if o[0] == 'list':
                    return o[3] in names or 'Iterable' in names
                if o[0] == 'inst':
                    cls = self.repo.classes.get(o[1])
                    anc = [c.name for c in self.repo.mro(cls)] + self.repo.ext_ancestors(cls) if cls else []
                    return any(n in anc for n in names)
            if t[0] in ('fn', 'coro', 'partial', 'cls'):
                return False
            if t[0] == 'call' and t[1] in ('str', 'generate_id', 'openleadr.utils.generate_id'):
                return 'str' in names
            made = built(t)
            if made:
                return any(n in names for n in made)
            if f.get(('isnone', t)) is True:
                return False
            for a, v in f.items():
                if a[0] == 'isinst' and a[1] == t:
                    if v and set(a[2]) <= set(names):
                        return True
                    if not v and set(names) <= set(a[2]):
                        return False
                    if v and not self.may_share(a[2], names):
                        return False
            return None
        if k == 'iscoro':
            t = atom[1]
            if t[0] == 'coro':
                return True
            if t[0] in ('c', 'o', 't', 'fn', 'fstr', 'cls'):
                return False
            if st.notes.get(('awaited', t)):
                return False
            if t[0] == 'call' and t[1] in ('find_by', 'getmember'):
                return False
            if t[0] in ('item', 'attr') and t[0] == 'item' and f.get(('isinst', t, ('dict',))):
                return False
            return None
        if k == 'callable':
            t = atom[1]
            if t[0] in ('fn', 'cls', 'partial', 'ext'):
                return True
            if t[0] in ('c', 'o', 't', 'fstr'):
                return False
            return None
        if k == 'isdc':
            t = atom[1]
            if t[0] == 'o':
                o = st.heap[t[1]]
                if o[0] == 'inst':
                    c = self.repo.classes.get(o[1])
                    return bool(c and c.is_dataclass)
                return False
            if t[0] in ('c', 't', 'fstr'):
                return False
            if f.get(('isinst', t, ('dict',))) or f.get(('isinst', t, ('tuple',))) or f.get(('isinst', t, ('list',))):
                return False
            return None
        if k == 'hasattr':
            t, n = atom[1], atom[2]
            cls = self.typeof(t)
            if cls is not None:
                if self.repo.find_method(cls, n) or self.repo.find_attr(cls, n):
                    return True
            if t[0] == 'o':
                o = st.heap[t[1]]
                if o[0] == 'inst':
                    return n in dict(o[2])
            return None
        return None

    @staticmethod
    def may_share(a, b):
        base = {'str', 'int', 'float', 'list', 'dict', 'tuple', 'bytes', 'set', 'datetime', 'timedelta'}
        if set(a) <= base and set(b) <= base:
            if set(a) & set(b):
                return True
            return False
        return True

    def const_of(self, st, t):
        if t[0] == 'c':
            return (t[1], t[2])
        al, ex = self.domain(st, t)
        if al is not None and len(al - ex) == 1:
            return next(iter(al - ex))
        return None

    def const_truth(self, st, t):
        k = t[0]
        if k == 'c':
            try:
                return bool(t[1])
            except Exception:
                return None
        if k == 't':
            return len(t[1]) > 0
        if k in ('fn', 'cls', 'mod', 'partial', 'coro', 'exc', 'ext'):
            return True
        if k == 'o':
            o = st.heap[t[1]]
            if o[0] in ('dict', 'list'):
                if o[1]:
                    return True
                if not o[2]:
                    return False
                return None
            return True
        if k == 'fstr':
            if any(p[0] == 'c' and p[1] for p in t[1]):
                return True
        return None

    def norm_atom(self, st, atom):
        """Canonical form; returns (atom, polarity)."""
        k = atom[0]
        if k == 'eq':
            a, b = atom[1], atom[2]
            if a[0] == 'c' and b[0] != 'c':
                a, b = b, a
            elif b[0] != 'c' and repr(a) > repr(b):
                a, b = b, a
            if b == NONE:
                return ('isnone', a), True
            if b == FALSE and a[0] != 'c':
                return ('eq', a, b), True
            if b[0] == 'c' and b[1] == 0 and b[2] == 'int' and a[0] == 'call' and a[1] == 'len':
                return ('truth', a[2][0]), False
            if b[0] == 'c' and b[1] == '' and b[2] == 'str':
                return ('eq', a, b), True
            return ('eq', a, b), True
        if k == 'lt':
            a, b = atom[1], atom[2]
            if b[0] == 'call' and b[1] == 'len' and a == C(0):
                return ('truth', b[2][0]), True
            if a[0] == 'call' and a[1] == 'len' and b == C(1):
                return ('truth', a[2][0]), False
        if k == 'truth':
            t = atom[1]
            if t[0] == 'call' and t[1] == 'bool' and len(t[2]) == 1:
                return self.norm_atom(st, ('truth', t[2][0]))
            if t[0] == 'call' and t[1] == 'len' and len(t[2]) == 1:
                return ('truth', t[2][0]), True
            if t[0] == 'call' and t[1] in ('list', 'tuple', 'sorted', 'set') and len(t[2]) == 1:
                return ('truth', t[2][0]), True
            if t[0] == 'call' and t[1] == 'iscoro':
                return ('iscoro', t[2][0]), True
            if t[0] == 'un' and t[1] == 'not':
                a, p = self.norm_atom(st, ('truth', t[2]))
                return a, not p
        return atom, True

    def branch(self, st, atom, node=None):
        """Fork on an atom. Returns list of (state, bool)."""
        atom, pol = self.norm_atom(st, atom)
        d = self.decide(st, atom)
        if d is not None:
            return [(st, d == pol)]
        self.stats['branches'] += 1
        out = []
        for v in (True, False):
            s = self.fork(st)
            if self.cfg.forget is None or not self.cfg.forget(atom):
                s.fact(atom, v)
            if not self.consistent(s, atom, v):
                continue
            out.append((s, v == pol))
        return out

    def consistent(self, st, atom, v):
        if atom[0] == 'truth' and v is False and atom[1][0] != 'c':
            pass
        if atom[0] == 'eq' and v is True and atom[2][0] == 'c':
            t = atom[1]
            tv = st.facts.get(('truth', t))
            if tv is not None and bool(atom[2][1]) != tv:
                return False
            for a, av in st.facts.items():
                if a[0] == 'eq' and a[1] == t and av and a != atom and a[2][0] == 'c' and a[2][1] != atom[2][1]:
                    return False
        return True

    # ------------------------------------------------------------------ conditions

    def cond(self, e, st):
        """Evaluate e as a condition: list of (state, bool)."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            live = [st]
            done = []
            for i, sub in enumerate(e.values):
                nxt = []
                for s in live:
                    for s2, b in self.cond(sub, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            done.append((s2, not isand))
                live = nxt
            return done + [(s, isand) for s in live]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st)]
        if isinstance(e, ast.Compare):
            live = [(st, None)]
            out = []
            # evaluate left, then chain
            states = self.ev(e.left, st)
            for i, (op, right) in enumerate(zip(e.ops, e.comparators)):
                nxt = []
                for s, l in states:
                    for s2, r in self.ev(right, s):
                        for s3, b in self.compare(s2, op, l, r, e):
                            if not b:
                                out.append((s3, False))
                            elif i == len(e.ops) - 1:
                                out.append((s3, True))
                            else:
                                nxt.append((s3, r))
                states = nxt
            return out
        if isinstance(e, ast.IfExp):
            out = []
            for s, b in self.cond(e.test, st):
                out += self.cond(e.body if b else e.orelse, s)
            return out
        if isinstance(e, ast.Call):
            r = self.cond_call(e, st)
            if r is not None:
                return r
        out = []
        for s, v in self.ev(e, st):
            out += self.truth(s, v, e)
        return out

    def truth(self, st, v, node=None):
        return self.branch(st, ('truth', v), node)

    def cond_call(self, e, st):
        """any()/all() over generator expressions and literal lists."""
        if isinstance(e.func, ast.Name) and e.func.id in ('all', 'any') and len(e.args) == 1 and not e.keywords:
            if self.lookup_quiet(st, e.func.id) is not None:
                return None
            isall = e.func.id == 'all'
            arg = e.args[0]
            if isinstance(arg, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in arg.elts):
                live, done = [st], []
                for sub in arg.elts:
                    nxt = []
                    for s in live:
                        for s2, b in self.cond(sub, s):
                            (nxt if b == isall else done).append(s2)
                    live = nxt
                return [(s, not isall) for s in done] + [(s, isall) for s in live]
            if isinstance(arg, (ast.GeneratorExp, ast.ListComp)):
                out = []
                for s, vals in self.comp_values(arg.generators, st, arg,
                                                lambda s_: [(s2, C(b)) for s2, b in self.cond(arg.elt, s_)]):
                    res = isall
                    for v in vals:
                        if (v[1] is True) != isall:
                            res = not isall
                            break
                    out.append((s, res))
                return out
        return None

    def compare(self, st, op, l, r, node):
        o = CMP[type(op)]
        if o in ('==', '!=', 'is', 'is not'):
            neg = o in ('!=', 'is not')
            if o in ('is', 'is not') and r[0] == 'c' and r[1] in (True, False) and r[2] == 'bool':
                atom = ('eq', l, r)
            else:
                atom = ('eq', l, r)
            if l[0] == 't' and r[0] == 't':
                if len(l[1]) != len(r[1]):
                    return [(st, neg)]
                live, done = [st], []
                for a, b in zip(l[1], r[1]):
                    nxt = []
                    for s in live:
                        for s2, ok in self.branch(s, ('eq', a, b), node):
                            (nxt if ok else done).append(s2)
                    live = nxt
                return [(s, not neg) for s in live] + [(s, neg) for s in done]
            if o in ('==', '!=') and l[0] == 'o' and r[0] == 'o' and l != r:
                pairs = self.paired(st, l, r)
                if pairs is False:
                    return [(st, neg)]
                if pairs is not None:
                    live, done = [st], []
                    for a, b in pairs:
                        nxt = []
                        for s in live:
                            for s2, ok in self.compare(s, ast.Eq(), a, b, node):
                                (nxt if ok else done).append(s2)
                        live = nxt
                    return [(s, not neg) for s in live] + [(s, neg) for s in done]
            return [(s, b != neg) for s, b in self.branch(st, atom, node)]
        if o in ('<', '>', '<=', '>='):
            if o == '<':
                return self.branch(st, ('lt', l, r), node)
            if o == '>':
                return self.branch(st, ('lt', r, l), node)
            if o == '<=':
                return [(s, not b) for s, b in self.branch(st, ('lt', r, l), node)]
            return [(s, not b) for s, b in self.branch(st, ('lt', l, r), node)]
        neg = o == 'not in'
        return [(s, b != neg) for s, b in self.contains(st, l, r, node)]

    def paired(self, st, l, r):
        """The pairs of members that have to be equal for two known lists or dicts to be equal; False: they differ; None: unknown."""
        a, b = st.heap[l[1]], st.heap[r[1]]
        if a[0] != b[0] or a[0] not in ('list', 'dict') or a[2] or b[2]:
            return None
        if a[0] == 'list':
            if a[3:4] != ('list',) or b[3:4] != ('list',):
                return None
            return False if len(a[1]) != len(b[1]) else list(zip(a[1], b[1]))
        da, db = dict(a[1]), dict(b[1])
        if len(da) != len(a[1]) or len(db) != len(b[1]) or any(k[0] != 'c' for k in (*da, *db)):
            return None
        return False if set(da) != set(db) else [(da[k], db[k]) for k in da]

    def contains(self, st, l, r, node):
        items = self.known_items(st, r)
        if items is not None:
            if all(x[0] == 'c' for x in items):
                if not items:
                    return [(st, False)]
                if len(items) == 1:
                    return self.branch(st, ('eq', l, items[0]), node)
                return self.branch(st, ('inset', l, frozenset((x[1], x[2]) for x in items)), node)
            live, done = [st], []
            for x in items:
                nxt = []
                for s in live:
                    for s2, b in self.branch(s, ('eq', l, x), node):
                        (done if b else nxt).append(s2)
                live = nxt
            return [(s, True) for s in done] + [(s, False) for s in live]
        if r[0] == 'call' and r[1] in ('.keys', 'list', 'set', 'tuple') and len(r[2]) == 1:
            return self.contains(st, l, r[2][0], node)
        if r[0] == 'attr' and r[2] == '__dict__':
            r = r[1]
        return self.branch(st, ('in', l, r), node)

    def known_items(self, st, r):
        """Items of a fully known collection (tuple/list/set/dict keys), else None."""
        if r[0] == 't':
            return list(r[1])
        if r[0] == 'c' and isinstance(r[1], (tuple, frozenset)):
            return [C(x) for x in r[1]]
        if r[0] == 'o':
            o = st.heap[r[1]]
            if o[0] == 'list' and not o[2]:
                return list(o[1])
            if o[0] == 'dict' and not o[2]:
                return [k for k, _ in o[1]]
        return None

    # ------------------------------------------------------------------ expressions

    def ev(self, e, st):
        """Evaluate: list of (state, term). Raising paths go to self.sink."""
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return [(st, ('unk', f'{type(e).__name__}@{getattr(e, "lineno", 0)}'))]
        return m(e, st)

    def ev_seq(self, exprs, st):
        out = [(st, ())]
        for x in exprs:
            nxt = []
            for s, acc in out:
                for s2, v in self.ev(x, s):
                    nxt.append((s2, acc + (v,)))
            out = nxt
        return out

    def ev_Constant(self, e, st):
        return [(st, C(e.value))]

    def lookup_quiet(self, st, name):
        eid = st.cur
        while eid is not None:
            d, parent, mod = st.envs[eid]
            if name in d:
                return d[name]
            eid = parent
        d, parent, modname = st.envs[st.cur]
        mod = self.repo.modules.get(modname)
        if mod is not None:
            r = self.repo.resolve(mod, name)
            if r is not None:
                return self.from_resolved(st, r)
        return None

    def from_resolved(self, st, r):
        if r[0] == 'func':
            return ('fn', r[1].qual, None, None)
        if r[0] == 'class':
            return ('cls', r[1].qual)
        if r[0] == 'mod':
            return ('mod', r[1])
        if r[0] == 'ext':
            return ('ext', r[1])
        if r[0] == 'global':
            return self.global_value(st, r[1], r[2])
        return None

    def global_value(self, st, mod, name):
        gk = (mod.name, name)
        if gk in st.store:
            return st.store[gk]
        if gk in self._glob_cache:
            v = self._glob_cache[gk]
            if v is not None:
                return v
        exprs = mod.globals.get(name, [])
        g = ('glob', mod.name, name)
        if len(exprs) == 1:
            v = self.static_value(exprs[0], mod)
            if v is not None:
                self._glob_cache[gk] = v
                return v
        self._glob_cache[gk] = g
        return g

    def static_value(self, e, mod):
        """Immutable value of a module/class level expression, or None."""
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, (ast.Tuple,)):
            vs = [self.static_value(x, mod) for x in e.elts]
            return ('t', tuple(vs)) if all(v is not None for v in vs) else None
        if isinstance(e, (ast.Set, ast.List)) and e.elts:
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.static_value(e.operand, mod)
            return C(-v[1]) if v and v[0] == 'c' and isinstance(v[1], (int, float)) else None
        if isinstance(e, ast.Name):
            r = self.repo.resolve(mod, e.id)
            if r and r[0] == 'global':
                ex = r[1].globals.get(r[2], [])
                if len(ex) == 1:
                    return self.static_value(ex[0], r[1])
            if r and r[0] == 'func':
                return ('fn', r[1].qual, None, None)
            if r and r[0] == 'class':
                return ('cls', r[1].qual)
            if r and r[0] == 'ext':
                return ('ext', r[1])
            return None
        if isinstance(e, ast.Attribute):
            b = self.static_base(e.value, mod)
            if b is not None:
                if b[0] == 'cls':
                    c = self.repo.classes[b[1]]
                    at = self.repo.find_attr(c, e.attr)
                    if at:
                        return self.static_value(at[1], at[0].module)
                    if e.attr == 'values' and c.metaclass:
                        return self.enum_values(c)
                    if e.attr == 'members' and c.metaclass:
                        return self.enum_values(c, True)
                if b[0] == 'mod':
                    r = self.repo.mod_attr(b[1], e.attr)
                    if r and r[0] == 'ext':
                        return ('ext', r[1])
                    if r and r[0] == 'global':
                        ex = r[1].globals.get(r[2], [])
                        if len(ex) == 1:
                            return self.static_value(ex[0], r[1])
                if b[0] == 'ext':
                    return ('ext', b[1] + '.' + e.attr)
            return None
        if isinstance(e, ast.Call):
            f = self.static_value(e.func, mod)
            if f and f[0] == 'ext':
                n = self.extname(f[1])
                if n in ('datetime.timedelta',) or n.startswith('re.compile'):
                    args = [self.static_value(a, mod) for a in e.args]
                    kws = [(k.arg, self.static_value(k.value, mod)) for k in e.keywords]
                    if all(a is not None for a in args) and all(v is not None for _, v in kws):
                        return ('call', n, tuple(args), tuple(sorted(kws)), 0)
            if isinstance(e.func, ast.Name) and e.func.id == 'frozenset' and len(e.args) == 1:
                a = e.args[0]
                if isinstance(a, (ast.Set, ast.List, ast.Tuple)):
                    vs = [self.static_value(x, mod) for x in a.elts]
                    return ('t', tuple(vs)) if all(v is not None for v in vs) else None
        return None

    def static_base(self, e, mod):
        if isinstance(e, ast.Name):
            r = self.repo.resolve(mod, e.id)
            if r and r[0] == 'class':
                return ('cls', r[1].qual)
            if r and r[0] == 'mod':
                return ('mod', r[1])
            if r and r[0] == 'ext':
                return ('ext', r[1])
        if isinstance(e, ast.Attribute):
            b = self.static_base(e.value, mod)
            if b and b[0] == 'mod':
                r = self.repo.mod_attr(b[1], e.attr)
                if r and r[0] == 'class':
                    return ('cls', r[1].qual)
                if r and r[0] == 'mod':
                    return ('mod', r[1])
                if r and r[0] == 'ext':
                    return ('ext', r[1])
            if b and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    def enum_values(self, c, names=False):
        key = (c.qual, names)
        if key not in self._classconst:
            mem = sorted(n for n in c.attrs if not n.startswith('_'))
            if names:
                v = ('t', tuple(C(n) for n in mem))
            else:
                vs = [self.static_value(c.attrs[n], c.module) for n in mem]
                v = ('t', tuple(vs)) if all(x is not None for x in vs) else None
            self._classconst[key] = v
        return self._classconst[key]

    def extname(self, dotted):
        return {'datetime.datetime': 'datetime.datetime', 'functools.partial': 'partial',
                'datetime.timedelta': 'datetime.timedelta'}.get(dotted, dotted)

    def ev_Name(self, e, st):
        v = self.lookup_quiet(st, e.id)
        if v is None:
            if hasattr(builtins, e.id):
                v = ('ext', e.id)
            elif self.callstack and e.id in self.local_names(self.callstack[-1].node):
                self.raise_exc(st, ('exc', 'UnboundLocalError', ()), e)
                return []
            else:
                v = ('unk', f'name {e.id}')
        if v[0] == 'glob' and v in st.notes:
            v = st.notes[v]
        elif v[0] == 'glob':
            lit = self.global_literal(st, v)
            if lit is not None:
                return [lit]
        return [(st, v)]

    def local_names(self, fnode):
        cache = self.__dict__.setdefault('_locals', {})
        if id(fnode) not in cache:
            names = set()
            for n in ast.walk(fnode):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
            cache[id(fnode)] = names
        return cache[id(fnode)]

    def global_literal(self, st, g):
        """Materialise a non-empty dict/list/set literal assigned once at module level."""
        if self.cfg.literal_globals:
            return None
        mod = self.repo.modules[g[1]]
        exprs = mod.globals.get(g[2], [])
        if len(exprs) != 1 or not isinstance(exprs[0], (ast.Dict, ast.List, ast.Set)):
            return None
        if g[2] in self.mutated_globals():
            return None
        e = exprs[0]
        if isinstance(e, ast.Dict) and not e.keys or not isinstance(e, ast.Dict) and not e.elts:
            return None
        s = self.fork(st)
        eid = f'mod:{mod.name}'
        if eid not in s.envs:
            s.envs = dict(s.envs)
            s.envs[eid] = ({}, None, mod.name)
        saved = s.cur
        s.cur = eid
        r = self.ev(e, s)
        if len(r) != 1:
            return None
        s2, v = r[0]
        s2.cur = saved
        s2.notes = dict(s2.notes)
        s2.notes[g] = v
        return s2, v

    def mutated_globals(self):
        """Names of module-level containers some function changes in place (by any route through the name)."""
        got = self.repo.__dict__.get('_mutated_globals')
        if got is None:
            got = set()
            names = {n for m in self.repo.modules.values() for n in m.globals}
            for m in self.repo.modules.values():
                for n in ast.walk(m.tree):
                    roots = []
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                        roots = [n.func.value]
                    elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        roots = [n.value]
                    elif isinstance(n, ast.Global):
                        got |= set(n.names)
                    for r in roots:
                        while isinstance(r, (ast.Attribute, ast.Subscript, ast.Call)):
                            if isinstance(r, ast.Attribute) and r.attr in names:
                                got.add(r.attr)
                            r = r.func if isinstance(r, ast.Call) else r.value
                        if isinstance(r, ast.Name) and r.id in names:
                            got.add(r.id)
            self.repo._mutated_globals = got
        return got

    def ev_Tuple(self, e, st):
        return [(s, ('t', vs)) for s, vs in self.ev_elts(e.elts, st)]

    def ev_elts(self, elts, st):
        out = [(st, ())]
        for x in elts:
            nxt = []
            for s, acc in out:
                if isinstance(x, ast.Starred):
                    for s2, v in self.ev(x.value, s):
                        items = self.known_items(s2, v)
                        if items is None:
                            sizes = self.cfg.splat(v) if self.cfg.splat is not None else None
                            if sizes is not None:
                                for n in sizes:
                                    nxt.append((self.fork(s2), acc + tuple(E(v, i) for i in range(n))))
                                continue
                            items = [E(v, '*')]
                        nxt.append((s2, acc + tuple(items)))
                else:
                    for s2, v in self.ev(x, s):
                        nxt.append((s2, acc + (v,)))
            out = nxt
        return out

    def ev_List(self, e, st):
        return [(s, self.mklist(s, e, vs)) for s, vs in self.ev_elts(e.elts, self.fork(st))]

    def ev_Set(self, e, st):
        return [(s, self.mklist(s, e, vs, kind='set')) for s, vs in self.ev_elts(e.elts, self.fork(st))]

    def ev_Dict(self, e, st):
        out = [(self.fork(st), ((), False, None))]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, (items, op, base) in out:
                if k is None:
                    for s2, d in self.ev(v, s):
                        if d[0] == 'o' and s2.heap[d[1]][0] == 'dict':
                            o = s2.heap[d[1]]
                            it = self.merge_items(items, o[1])
                            nxt.append((s2, (it, op or o[2], o[3] if o[3] is not None else base)))
                        elif d[0] == 'o' and s2.heap[d[1]][0] == 'inst':
                            o = s2.heap[d[1]]
                            nxt.append((s2, (self.merge_items(items, tuple((C(n), x) for n, x in o[2])), op, base)))
                        else:
                            nxt.append((s2, (items, True, d)))
                else:
                    for s2, kv in self.ev(k, s):
                        for s3, vv in self.ev(v, s2):
                            nxt.append((s3, (self.merge_items(items, ((kv, vv),)), op, base)))
            out = nxt
        return [(s, self.mkdict(s, e, items, op, base)) for s, (items, op, base) in out]

    @staticmethod
    def merge_items(a, b):
        d = dict(a)
        for k, v in b:
            d[k] = v
        return tuple(d.items())

    def ev_JoinedStr(self, e, st):
        out = [(st, ())]
        for v in e.values:
            nxt = []
            for s, acc in out:
                if isinstance(v, ast.Constant):
                    nxt.append((s, acc + (C(v.value),)))
                else:
                    for s2, x in self.ev(v.value, s):
                        spec = ast.unparse(v.format_spec) if v.format_spec is not None else None
                        if v.conversion not in (-1, None) or spec is not None:
                            x = ('call', 'format', (x, C(str(v.conversion)), C(spec)), (), 0)
                        nxt.append((s2, acc + (x,)))
            out = nxt
        res = []
        for s, parts in out:
            flat = []
            for p in parts:
                if p[0] == 'fstr':
                    flat += list(p[1])
                else:
                    flat.append(p)
            merged = []
            for p in flat:
                if p[0] == 'c' and not isinstance(p[1], str) and isinstance(p[1], (int, float, bool, type(None))):
                    p = C(str(p[1]))
                if p[0] == 'c' and merged and merged[-1][0] == 'c' and isinstance(p[1], str) \
                        and isinstance(merged[-1][1], str):
                    merged[-1] = C(merged[-1][1] + p[1])
                elif p == C(''):
                    continue
                else:
                    merged.append(p)
            if not merged:
                res.append((s, C('')))
            elif len(merged) == 1 and merged[0][0] == 'c':
                res.append((s, merged[0]))
            else:
                res.append((s, ('fstr', tuple(merged))))
        return res

    def ev_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    def ev_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            s = self.fork(s)
            self.assign_name(s, e.target.id, v)
            out.append((s, v))
        return out

    def ev_Lambda(self, e, st):
        s = self.fork(st)
        key = f'lambda@{self.callstack[-1].file if self.callstack else ""}:{e.lineno}:{e.col_offset}'
        self.lambdas[key] = (e, self.callstack[-1] if self.callstack else None)
        s.captured = s.captured | {s.cur}
        return [(s, ('fn', key, s.cur, None))]

    def ev_Attribute(self, e, st):
        out = []
        for s, b in self.ev(e.value, st):
            out += self.getattr_(s, b, e.attr, e)
        return out

    def canon(self, b, name):
        """Field access on an opaque object: one form for obj.f, obj['f'] and getmember(obj, 'f')."""
        if name in self.dc_fields and self.typeof(b) is None and b[0] in ('item', 'elem', 'call', 'p') \
                and b != ('p', 'self'):
            return I(b, C(name))
        return A(b, name)

    def getattr_(self, st, b, name, node):
        if name in ('seconds', 'days', 'microseconds') and span(b) is not None:
            return [(st, C(getattr(span(b), name)))]
        if b[0] == 'mod':
            r = self.repo.mod_attr(b[1], name)
            if r is None:
                return [(st, ('unk', f'{b[1]}.{name}'))]
            v = self.from_resolved(st, r)
            if v is not None and v[0] == 'glob':
                if v in st.notes:
                    return [(st, st.notes[v])]
                lit = self.global_literal(st, v)
                if lit is not None:
                    return [lit]
            return [(st, v)]
        if b[0] == 'ext':
            return [(st, ('ext', b[1] + '.' + name))]
        if b[0] == 'cls':
            c = self.repo.classes[b[1]]
            at = self.repo.find_attr(c, name)
            if at is not None:
                v = self.static_value(at[1], at[0].module)
                return [(st, v if v is not None else A(b, name))]
            if c.metaclass and name in ('values', 'members'):
                v = self.enum_values(c, name == 'members')
                if v is not None:
                    return [(st, v)]
            m = self.repo.find_method(c, name)
            if m is not None:
                return [(st, ('fn', m.qual, None, b if m.kind == 'classmethod' else None))]
            return [(st, A(b, name))]
        if b[0] == 'o':
            o = st.heap[b[1]]
            if o[0] == 'inst':
                d = dict(o[2])
                if name in d:
                    return [(st, d[name])]
                c = self.repo.classes.get(o[1])
                if c is not None:
                    m = self.repo.find_method(c, name)
                    if m is not None:
                        if m.kind == 'property':
                            return self.call_func(st, m, b, (), (), node)
                        return [(st, ('fn', m.qual, None, b))]
                    at = self.repo.find_attr(c, name)
                    if at is not None:
                        v = self.static_value(at[1], at[0].module)
                        if v is not None:
                            return [(st, v)]
                if o[3] is not None:
                    return self.getattr_(st, o[3], name, node)
            return [(st, A(b, name))]
        if b[0] == 'super':
            cls = self.repo.classes[b[1]]
            for c in self.repo.mro(cls)[1:]:
                if name in c.methods:
                    return [(st, ('fn', c.methods[name].qual, None, b[2]))]
            return [(st, ('ext', f'super.{name}'))]
        key = (b, 'a', name)
        if key in st.store:
            return [(st, st.store[key])]
        cls = self.typeof(b)
        if cls is not None:
            if self.cfg.usercb(cls, name):
                return [(st, A(b, name))]
            m = self.repo.find_method(cls, name)
            if m is not None:
                if m.kind == 'property':
                    return self.call_func(st, m, b, (), (), node)
                if m.kind == 'static':
                    return [(st, ('fn', m.qual, None, None))]
                return [(st, ('fn', m.qual, None, b))]
            at = self.repo.find_attr(cls, name)
            if at is not None and not self.instance_assigned(cls, name):
                v = self.static_value(at[1], at[0].module)
                if v is not None:
                    return [(st, v)]
            return [(st, A(b, name))]
        t = self.canon(b, name)
        if t[0] == 'item':
            return self.getitem(st, b, C(name), node, quiet=True)
        return [(st, t)]

    def instance_assigned(self, cls, name):
        """Is self.<name> (or <obj>.<name>) assigned anywhere? Then the class default is not the value."""
        cache = self.__dict__.setdefault('_inst_assigned', {})
        if name not in cache:
            hit = False
            for mod in self.repo.modules.values():
                for n in ast.walk(mod.tree):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        hit = True
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                        if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == name:
                            hit = True
            cache[name] = hit
        return cache[name]

    def ev_Subscript(self, e, st):
        out = []
        for s, b in self.ev(e.value, st):
            if isinstance(e.slice, ast.Slice):
                parts = [e.slice.lower, e.slice.upper, e.slice.step]
                states = [(s, ())]
                for p in parts:
                    nxt = []
                    for s2, acc in states:
                        if p is None:
                            nxt.append((s2, acc + (NONE,)))
                        else:
                            nxt += [(s3, acc + (v,)) for s3, v in self.ev(p, s2)]
                    states = nxt
                for s2, sl in states:
                    out.append((s2, self.slice(s2, b, sl, e)))
                continue
            for s2, k in self.ev(e.slice, s):
                out += self.getitem(s2, b, k, e)
        return out

    def slice(self, st, b, sl, node):
        if sl == (NONE, NONE, NONE):
            if b[0] == 'o' and st.heap[b[1]][0] == 'list':
                o = st.heap[b[1]]
                return self.mklist(st, node, o[1], o[2], o[3])
            return ('call', 'list', (b,), (), 0)
        if all(x[0] == 'c' for x in sl):
            pysl = slice(*[x[1] for x in sl])
            if b[0] == 'c' and isinstance(b[1], (str, bytes)):
                return C(b[1][pysl])
            if b[0] == 't':
                return ('t', b[1][pysl])
            if b[0] == 'o' and st.heap[b[1]][0] == 'list' and not st.heap[b[1]][2]:
                return self.mklist(st, node, st.heap[b[1]][1][pysl])
        return ('slice', b, sl)

    def raise_exc(self, st, exc, node=None):
        self.sink.append((st, exc))

    def want_keyerror(self):
        if self.cfg.key_errors:
            return True
        for hs in self.try_stack:
            if hs & {'KeyError', 'LookupError', 'IndexError'}:
                return True
        return False

    def length(self, st, t):
        """(number of elements seen, whether that is all) for a len() term of an unrolled iterable."""
        if t[0] != 'call' or t[1] != 'len' or len(t[2]) != 1:
            return None
        root = self.iter_root(t[2][0])
        if root not in st.counts:
            return None
        n = st.counts[root]
        mx = self.cfg.max_iter
        if self.cfg.iters is not None:
            m = self.cfg.iters(root)
            mx = mx if m is None else m
        return n, n < mx

    def repeated(self, st, t):
        """[x] * n -> (x, n)"""
        if t[0] == 'bin' and t[1] == '*':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == 'o' and st.heap[a[1]][0] == 'list':
                    o = st.heap[a[1]]
                    if len(o[1]) == 1 and not o[2]:
                        return o[1][0], b
        return None

    def iter_root(self, t):
        while t[0] == 'call' and t[1] in ('list', 'tuple', 'iter') and len(t[2]) == 1:
            t = t[2][0]
        return t

    def getitem(self, st, b, k, node, quiet=False):
        if b[0] == 'glob' and b[2] == '<globals>' and k[0] == 'c' and isinstance(k[1], str):
            r = self.repo.resolve(self.repo.modules[b[1]], k[1])
            v = self.from_resolved(st, r) if r is not None else None
            if v is not None:
                return [(st, v)]
        if b[0] == 't' and k[0] == 'c' and isinstance(k[1], int):
            try:
                return [(st, b[1][k[1]])]
            except IndexError:
                self.raise_exc(st, ('exc', 'IndexError', ()), node)
                return []
        if b[0] == 'o':
            o = st.heap[b[1]]
            if o[0] == 'dict':
                return self.dict_get(st, b, o, k, node, None if quiet else 'raise')
            if o[0] == 'list':
                if k[0] == 'c' and isinstance(k[1], int):
                    if -len(o[1]) <= k[1] < len(o[1]):
                        return [(st, o[1][k[1]])]
                    if not o[2]:
                        self.raise_exc(st, ('exc', 'IndexError', ()), node)
                        return []
                if k[0] == 'idx' and isinstance(k[2], int) and k[2] < len(o[1]):
                    return [(st, o[1][k[2]])]
            if o[0] == 'inst' and k[0] == 'c':
                d = dict(o[2])
                if k[1] in d:
                    return [(st, d[k[1]])]
            return [(st, I(b, k))]
        if b[0] == 'c' and k[0] == 'c':
            try:
                return [(st, C(b[1][k[1]]))]
            except (TypeError, IndexError, KeyError) as e:
                if isinstance(b[1], (str, bytes)):
                    self.raise_exc(st, ('exc', type(e).__name__, ()), node)
                    return []
            except Exception:
                pass
        if b[0] == 'cls':
            c = self.repo.classes[b[1]]
            if c.metaclass and k[0] == 'c':
                return self.getattr_(st, b, k[1], node)
            return [(st, I(b, k))]
        rep = self.repeated(st, b)
        if rep is not None:
            return [(st, rep[0])]
        root = self.iter_root(b)
        if k[0] == 'idx' and self.iter_root(k[1]) == root:
            return [(st, self.element(st, root, k[2]))]
        if k[0] == 'key' and k[1] == root:
            t = I(root, k)
        elif k[0] == 'c' and isinstance(k[1], int) and not isinstance(k[1], bool) and k[1] >= 0:
            t = E(root, k[1]) if not (root[0] == 'elem' and False) else I(root, k)
        else:
            t = I(b, k)
        for key in ((b, 'i', k), (root, 'i', k)):
            if key in st.store:
                return [(st, st.store[key])]
        if not quiet and self.want_keyerror() and k[0] in ('c', 'p', 'item', 'attr', 'elem', 't') and b[0] != 'ext':
            d = self.decide(st, ('in', k, b))
            if d is None:
                s1, s2 = self.fork(st), self.fork(st)
                s1.fact(('in', k, b), False)
                self.raise_exc(s1, ('exc', 'KeyError', ()), node)
                s2.fact(('in', k, b), True)
                return [(s2, t)]
            if d is False:
                self.raise_exc(st, ('exc', 'KeyError', ()), node)
                return []
        return [(st, t)]

    def dict_get(self, st, b, o, k, node, default):
        """default: 'raise' or a term"""
        items = o[1]
        d = dict(items)
        if k in d:
            return [(st, d[k])]
        nonconst = [kk for kk, _ in items if kk[0] != 'c']
        if k[0] == 'c' and not nonconst:
            if o[2]:
                if o[3] is not None:
                    if default == 'raise' or default == NONE or default is None:
                        return self.getitem(st, o[3], k, node, quiet=default != 'raise')
                    return self.opaque_get(st, o[3], k, default, node)
                return [(st, I(b, k))]
            if default == 'raise':
                self.raise_exc(st, ('exc', 'KeyError', ()), node)
                return []
            return [(st, default if default is not None else NONE)]
        out = []
        live = [st]
        for kk, vv in items:
            nxt = []
            for s in live:
                for s2, ok in self.branch(s, ('eq', k, kk), node):
                    if ok:
                        out.append((s2, vv))
                    else:
                        nxt.append(s2)
            live = nxt
        for s in live:
            if o[2]:
                out.append((s, I(o[3] if o[3] is not None else b, k)))
            elif default == 'raise':
                self.raise_exc(s, ('exc', 'KeyError', ()), node)
            else:
                out.append((s, default if default is not None else NONE))
        return out

    def opaque_get(self, st, b, k, default, node):
        key = (b, 'i', k)
        if key in st.store:
            return [(st, st.store[key])]
        d = self.decide(st, ('in', k, b))
        if d is False:
            return [(st, default)]
        if d is True or default == NONE:
            return self.getitem(st, b, k, node, quiet=True)
        out = []
        for s, ok in self.branch(st, ('in', k, b), node):
            if ok:
                out += self.getitem(s, b, k, node, quiet=True)
            else:
                out.append((s, default))
        return out

    def ev_BinOp(self, e, st):
        out = []
        op = BIN.get(type(e.op), '?')
        for s, l in self.ev(e.left, st):
            for s2, r in self.ev(e.right, s):
                out.append((s2, self.binop(s2, op, l, r, e)))
        return out

    def binop(self, st, op, l, r, node):
        if l[0] == 'c' and r[0] == 'c':
            try:
                v = {'+': lambda: l[1] + r[1], '-': lambda: l[1] - r[1], '*': lambda: l[1] * r[1],
                     '/': lambda: l[1] / r[1], '//': lambda: l[1] // r[1], '%': lambda: l[1] % r[1],
                     '**': lambda: l[1] ** r[1]}[op]()
                if isinstance(v, (int, float, str, bytes, bool)):
                    return C(v)
            except Exception:
                pass
        if op == '+':
            sl = self.strparts(l)
            sr = self.strparts(r)
            if sl is not None and sr is not None:
                parts = []
                for p in sl + sr:
                    if p[0] == 'c' and parts and parts[-1][0] == 'c':
                        parts[-1] = C(parts[-1][1] + p[1])
                    elif p == C(''):
                        continue
                    else:
                        parts.append(p)
                return ('fstr', tuple(parts)) if not (len(parts) == 1 and parts[0][0] == 'c') else parts[0]
            if l[0] == 't' and r[0] == 't':
                return ('t', l[1] + r[1])
            if l[0] == 'o' and r[0] == 'o' and st.heap[l[1]][0] == 'list' and st.heap[r[1]][0] == 'list':
                a, b = st.heap[l[1]], st.heap[r[1]]
                if not a[2] and not b[2]:
                    return self.mklist(st, node, a[1] + b[1])
        return ('bin', op, l, r)

    @staticmethod
    def strparts(t):
        if t[0] == 'c' and isinstance(t[1], str):
            return [t]
        if t[0] == 'fstr':
            return list(t[1])
        if t[0] == 'call' and t[1] == 'str' and len(t[2]) == 1:
            return [t[2][0]]
        return None

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(s, C(not b)) for s, b in self.cond(e.operand, st)]
        out = []
        for s, v in self.ev(e.operand, st):
            if v[0] == 'c' and isinstance(v[1], (int, float)) and isinstance(e.op, ast.USub):
                out.append((s, C(-v[1])))
            else:
                out.append((s, ('un', type(e.op).__name__, v)))
        return out

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        live = [st]
        out = []
        for i, sub in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for s in live:
                for s2, v in self.ev(sub, s):
                    if last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v, sub):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            out.append((s3, v))
            live = nxt
        return out

    def ev_Compare(self, e, st):
        return [(s, C(b)) for s, b in self.cond(e, st)]

    def ev_IfExp(self, e, st):
        out = []
        for s, b in self.cond(e.test, st):
            out += self.ev(e.body if b else e.orelse, s)
        return out

    def ev_Await(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            out += self.do_await(s, v, e)
        return out

    def do_await(self, s, v, node):
        if v[0] == 'coro':
            return self.run_coro(s, v, node)
        s = self.fork(s)
        exc = self.exceptions_of('await', (v,), node)
        for x in exc:
            s2 = self.fork(s)
            self.emit(s2, 'awaitx', 'await', (v,), node=node)
            self.raise_exc(s2, x, node)
        self.emit(s, 'await', 'await', (v,), node=node)
        s.notes = dict(s.notes)
        s.notes[('awaited', v)] = True
        if ('iscoro', v) in s.facts:
            s.unfact(lambda a: a == ('iscoro', v))
        return [(s, v)]

    def run_coro(self, st, v, node):
        _, fnt, args, kw = v
        if self.cfg.track_coros:
            st = self.fork(st)
            self.emit(st, 'run', fnt[1], (v,), node=node)
        f = self.repo.funcs.get(fnt[1])
        if f is None:
            node_, outer = self.lambdas[fnt[1]]
            return self.call_node(st, node_, outer, fnt, args, kw, node)
        return self.call_func(st, f, fnt[3], args, kw, node, run=True, envid=fnt[2])

    def ev_Yield(self, e, st):
        if e.value is None:
            return [(st, NONE)]
        return [(s, NONE) for s, v in self.ev(e.value, st)]

    # -- comprehensions ---------------------------------------------------

    def comp_values(self, generators, st, node, elt):
        """Run generators; elt(state) -> [(state, val)]. Returns [(state, [vals])]."""
        saved_cur = st.cur

        def rec(gi, s):
            if gi == len(generators):
                return [(s2, [v]) for s2, v in elt(s)]
            g = generators[gi]
            out = []
            for s1, it in self.ev(g.iter, s):
                for s2, elems in self.iterate(s1, it, node):
                    live = [(s2, [])]
                    for el in elems:
                        nxt = []
                        for s3, acc in live:
                            s4 = self.fork(s3)
                            for s5 in self.assign(s4, g.target, el):
                                conds = [s5]
                                for c in g.ifs:
                                    nc, skipped = [], []
                                    for cs in conds:
                                        for cs2, b in self.cond(c, cs):
                                            (nc if b else skipped).append(cs2)
                                    for sk in skipped:
                                        nxt.append((sk, acc))
                                    conds = nc
                                for cs in conds:
                                    for s6, vals in rec(gi + 1, cs):
                                        nxt.append((s6, acc + vals))
                        live = nxt
                    out += live
            return out

        s = self.fork(st)
        eid = self.new_env(s, s.cur, s.envs[s.cur][2])
        s.cur = eid
        res = []
        for s2, vals in rec(0, s):
            s2 = self.fork(s2)
            s2.cur = saved_cur
            if eid not in s2.captured:
                s2.envs = {k: v for k, v in s2.envs.items() if k != eid}
            res.append((s2, vals))
        return self.dedupe_pairs(res)

    def new_env(self, s, parent, modname):
        n = 0
        base = f'{self.callstack[-1].qual if self.callstack else ""}@{self.depth}'
        while f'{base}#{n}' in s.envs:
            n += 1
        eid = f'{base}#{n}'
        s.envs = dict(s.envs)
        s.envs[eid] = ({}, parent, modname)
        return eid

    def ev_ListComp(self, e, st):
        return [(s, self.mklist(s, e, vals)) for s, vals in
                self.comp_values(e.generators, st, e, lambda s: self.ev(e.elt, s))]

    def ev_SetComp(self, e, st):
        return [(s, self.mklist(s, e, vals, kind='set')) for s, vals in
                self.comp_values(e.generators, st, e, lambda s: self.ev(e.elt, s))]

    ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, e, st):
        def elt(s):
            return [(s3, ('t', (k, v))) for s2, k in self.ev(e.key, s) for s3, v in self.ev(e.value, s2)]
        return [(s, self.mkdict(s, e, self.merge_items((), tuple(v[1] for v in vals)))) for s, vals in
                self.comp_values(e.generators, st, e, elt)]

    # -- iteration ---------------------------------------------------------

    def iterate(self, st, it, node):
        """List of (state, [elements]) for iterating over `it` (bounded)."""
        k = it[0]
        if k == 't':
            return [(st, list(it[1]))]
        if k == 'c':
            if isinstance(it[1], (str, tuple)) and len(it[1]) <= 64:
                return [(st, [C(x) for x in it[1]])]
        if k == 'o':
            o = st.heap[it[1]]
            if o[0] == 'list' and not o[2]:
                return [(st, list(o[1]))]
            if o[0] == 'dict' and not o[2]:
                return [(st, [kk for kk, _ in o[1]])]
            if o[0] == 'list' and o[2] and o[1]:
                pass
        if k == 'call':
            name, args = it[1], it[2]
            if name == 'enumerate' and args:
                start = args[1] if len(args) > 1 else C(0)
                out = []
                for s, els in self.iterate(st, args[0], node):
                    root = self.iter_root(args[0])
                    known = self.known_items(s, args[0]) is not None
                    r = []
                    for i, x in enumerate(els):
                        if known:
                            r.append(('t', (C(i + (start[1] if start[0] == 'c' else 0)), x)))
                        else:
                            r.append(('t', (('idx', root, i) if start == C(0) else ('bin', '+', ('idx', root, i), start), x)))
                    out.append((s, r))
                return out
            if name == 'zip' and args:
                out = [(st, None)]
                cols = [(st, [])]
                for a in args:
                    nxt = []
                    for s, acc in cols:
                        for s2, els in self.iterate(s, a, node):
                            nxt.append((s2, acc + [els]))
                    cols = nxt
                return [(s, [('t', tuple(r)) for r in zip(*acc)]) for s, acc in cols]
            if name == 'range':
                if all(a[0] == 'c' for a in args):
                    try:
                        r = list(range(*[a[1] for a in args]))
                        if len(r) <= 32:
                            return [(st, [C(x) for x in r])]
                    except Exception:
                        pass
                if len(args) == 1 and args[0][0] == 'call' and args[0][1] == 'len':
                    x = args[0][2][0]
                    items = self.known_items(st, x)
                    if items is not None:
                        return [(st, [C(i) for i in range(len(items))])]
                    out = []
                    root = self.iter_root(x)
                    for s, els in self.iterate(st, x, node):
                        out.append((s, [('idx', root, i) for i in range(len(els))]))
                    return out
                if len(args) == 3 and args[2] == C(-1) and args[1] == C(-1) and args[0][0] == 'bin' \
                        and args[0][1] == '-' and args[0][3] == C(1) and args[0][2][0] == 'call' \
                        and args[0][2][1] == 'len':
                    x = args[0][2][2][0]
                    out = []
                    root = self.iter_root(x)
                    for s, els in self.iterate(st, x, node):
                        out.append((s, [('idx', root, i) for i in reversed(range(len(els)))]))
                    return out
            if name in ('reversed', 'sorted') and len(args) >= 1:
                out = []
                items = self.known_items(st, args[0])
                if items is not None:
                    return [(st, list(reversed(items)) if name == 'reversed' else items)]
                if name == 'reversed':
                    return [(s, list(reversed(els))) for s, els in self.iterate(st, args[0], node)]
                return self.iterate(st, args[0], node)
            if name in ('list', 'tuple', 'iter', 'set', 'frozenset') and len(args) == 1:
                return self.iterate(st, args[0], node)
            if name == '.items' and len(args) == 1:
                b = args[0]
                if b[0] == 'o' and st.heap[b[1]][0] == 'dict':
                    o = st.heap[b[1]]
                    if not o[2]:
                        return [(st, [('t', kv) for kv in o[1]])]
                out = []
                for s, els in self.iterate(st, b, node):
                    kk = [('key', b, i) for i in range(len(els))]
                    out.append((s, [('t', (x, I(b, x))) for x in kk]))
                return out
            if name == '.keys' and len(args) == 1:
                b = args[0]
                if b[0] == 'o':
                    return self.iterate(st, b, node)
                return [(s, [('key', b, i) for i in range(len(els))]) for s, els in self.iterate(st, b, node)]
            if name == '.values' and len(args) == 1:
                b = args[0]
                if b[0] == 'o' and st.heap[b[1]][0] == 'dict' and not st.heap[b[1]][2]:
                    return [(st, [v for _, v in st.heap[b[1]][1]])]
                return [(s, [I(b, ('key', b, i)) for i in range(len(els))]) for s, els in self.iterate(st, b, node)]
        n = digest_len(it)
        if n is not None:
            return [(st, [I(it, C(i)) for i in range(n)])]
        rep = self.repeated(st, it)
        if rep is not None and rep[1][0] == 'call' and rep[1][1] == 'len':
            return [(s, [rep[0]] * len(els)) for s, els in self.iterate(st, rep[1][2][0], node)]
        root = self.iter_root(it)
        if root in st.counts:
            n = st.counts[root]
            return [(st, [self.element(st, root, i) for i in range(n)])]
        d = self.decide(st, ('truth', root))
        mx = self.cfg.max_iter
        if self.cfg.iters is not None:
            m = self.cfg.iters(root)
            if m is not None:
                mx = m
        lo = 1 if d is True else 0
        hi = 0 if d is False else mx
        if self.decide(st, ('isnone', root)) is True:
            self.raise_exc(st, ('exc', 'TypeError', ()), node)
            return []
        out = []
        for n in range(lo, hi + 1):
            s = self.fork(st)
            s.count(root, n)
            out.append((s, [self.element(s, root, i) for i in range(n)]))
        return out

    def element(self, st, root, i):
        """The i-th element, also when it was replaced by root[i] = ... before."""
        for k in (('idx', root, i), C(i)):
            v = st.store.get((root, 'i', k))
            if v is not None:
                return v
        return E(root, i)

    # ------------------------------------------------------------------ calls

    def ev_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f = self.callstack[-1] if self.callstack else None
            if f and f.cls:
                sv = self.lookup_quiet(st, 'self') or P('self')
                cls = self.typeof(sv)
                return [(st, ('super', f.cls.qual, sv))]
        r = self.special_call(e, st)
        if r is not None:
            return r
        out = []
        for s, f in self.ev(e.func, st):
            for s2, args in self.ev_elts(e.args, s):
                for s3, kw in self.ev_kw(e.keywords, s2):
                    out += self.call(s3, f, args, kw, e)
        return out

    def ev_kw(self, keywords, st):
        out = [(st, ())]
        for k in keywords:
            nxt = []
            for s, acc in out:
                for s2, v in self.ev(k.value, s):
                    if k.arg is None:
                        if v[0] == 'o' and s2.heap[v[1]][0] == 'dict':
                            o = s2.heap[v[1]]
                            a2 = dict(acc)
                            for kk, vv in o[1]:
                                if kk[0] == 'c':
                                    a2[kk[1]] = vv
                            if o[2]:
                                a2['**'] = o[3] if o[3] is not None else v
                            nxt.append((s2, tuple(a2.items())))
                        else:
                            a2 = dict(acc)
                            a2['**'] = v
                            nxt.append((s2, tuple(a2.items())))
                    else:
                        a2 = dict(acc)
                        a2[k.arg] = v
                        nxt.append((s2, tuple(a2.items())))
            out = nxt
        return out

    def special_call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id in ('all', 'any') and e.args:
            r = self.cond_call(e, st)
            if r is not None:
                return [(s, C(b)) for s, b in r]
        return None

    def is_logging(self, f, args):
        if f[0] == 'attr' and f[2] in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log'):
            b = f[1]
            if b[0] == 'glob' and 'log' in b[2].lower():
                return True
            if b[0] == 'call' and b[1] == 'logging.getLogger':
                return True
            if b[0] in ('attr',) and 'log' in b[2].lower():
                return True
        if f[0] == 'ext' and (f[1].startswith('logging.') and f[1].split('.')[-1] in
                              ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log')):
            return True
        if f[0] == 'ext' and f[1] in ('print', 'warnings.warn'):
            return True
        return False

    def call(self, st, f, args, kw, node):
        self.stats['calls'] += 1
        if self.is_logging(f, args):
            return [(st, NONE)]
        k = f[0]
        if k == 'partial':
            kk = dict(f[3])
            kk.update(dict(kw))
            return self.call(st, f[1], f[2] + tuple(args), tuple(kk.items()), node)
        if k == 'fn':
            if f[1] in self.lambdas:
                nd, outer = self.lambdas[f[1]]
                return self.call_node(st, nd, outer, f, args, kw, node)
            func = self.repo.funcs.get(f[1])
            if func is not None:
                return self.call_func(st, func, f[3], args, kw, node, envid=f[2])
        if k == 'cls':
            return self.instantiate(st, f, args, kw, node)
        if k == 'ext':
            return self.call_ext(st, f[1], args, kw, node)
        if k == 'attr':
            return self.call_method(st, f[1], f[2], args, kw, node)
        if k == 'item' and f[2][0] == 'c' and isinstance(f[2][1], str) and f[1][0] != 'o' \
                and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            return self.call_method(st, f[1], f[2][1], args, kw, node)
        return self.opaque_call(st, '()', (f,) + tuple(args), kw, node)

    def instantiate(self, st, f, args, kw, node):
        c = self.repo.classes[f[1]]
        ext = self.repo.ext_ancestors(c)
        if c.is_dataclass:
            s = self.fork(st)
            fields = self.repo.fields(c)
            names = list(fields)
            vals = {}
            for n, a in zip(names, args):
                vals[n] = a
            base = None
            for n, v in kw:
                if n == '**':
                    base = v
                else:
                    vals[n] = v
            for n, (d, owner) in fields.items():
                if n in vals:
                    continue
                if base is not None:
                    continue
                if d is None:
                    continue
                v = self.static_value(d, owner.module)
                if v is None and isinstance(d, ast.Call):
                    for kx in d.keywords:
                        if kx.arg == 'default_factory':
                            v = self.mklist(s, d, ())
                if v is None:
                    v = ('unk', f'default {n}')
                vals[n] = v
            o = self.alloc(s, node, ('inst', c.qual, tuple((n, vals[n]) for n in names if n in vals), base))
            self.emit(s, 'new', c.qual, args, kw, o, node)
            if self.cfg.post_init:
                m = self.repo.find_method(c, '__post_init__')
                if m is not None:
                    return [(s2, o) for s2, _ in self.call_func(s, m, o, (), (), node)]
            return [(s, o)]
        m = self.repo.find_method(c, '__init__')
        is_exc = any(x in BUILTIN_EXC for x in ext)
        if is_exc:
            s = self.fork(st)
            o = self.alloc(s, node, ('inst', c.qual, (), None))
            if m is not None:
                return [(s2, o) for s2, _ in self.call_func(s, m, o, args, kw, node)]
            return [(s, o)]
        return self.opaque_call(st, c.qual, args, kw, node)

    def call_func(self, st, func, selfv, args, kw, node, run=False, envid=None):
        if func.qual in self.cfg.opaque or (self.cfg.inline_only is not None and func.qual not in self.cfg.inline_only
                                            and self.callstack):
            a = ((selfv,) if selfv is not None and selfv[0] != 'cls' else ()) + tuple(args)
            return self.opaque_call(st, func.qual, a, kw, node, is_async=func.is_async and not run)
        if self.cfg.model_utils:
            r = self.model(st, func, args, kw, node)
            if r is not None:
                return r
        if func.is_async and not run:
            v = ('coro', ('fn', func.qual, envid, selfv), tuple(args), tuple(kw))
            if self.cfg.track_coros:
                st = self.fork(st)
                self.emit(st, 'coro', func.qual, tuple(args), tuple(kw), v, node)
            return [(st, v)]
        if self.depth >= self.cfg.max_depth or sum(1 for f in self.callstack if f is func) >= self.cfg.max_recur:
            return self.opaque_call(st, func.qual, tuple(args), kw, node)
        return self.inline(st, func, func.node, selfv, args, kw, node, envid, func.module.name)

    def call_node(self, st, nd, outer, f, args, kw, node):
        if isinstance(nd, ast.AsyncFunctionDef) and not isinstance(node, ast.Await):
            if not (node is not None and getattr(node, '_run', False)):
                # calling a nested coroutine function
                return [(st, ('coro', f, tuple(args), tuple(kw)))] if not isinstance(node, ast.Await) else []
        return self.inline(st, outer, nd, None, args, kw, node, f[2], outer.module.name if outer else 'openleadr')

    def inline(self, st, func, fnode, selfv, args, kw, node, envid, modname):
        s = self.fork(st)
        saved = s.cur
        self.callstack.append(func)
        self.depth += 1
        self.stats['functions'].add(func.qual)
        eid = self.new_env(s, envid, modname)
        outer_sink = self.sink
        self.sink = []
        try:
            states = self.bind(s, eid, func, fnode, selfv, args, kw, node)
            outs = []
            for s2 in states:
                s2.cur = eid
                if isinstance(fnode, ast.Lambda):
                    outs += [(s3, ('return', v)) for s3, v in self.ev(fnode.body, s2)]
                else:
                    outs += self.block(fnode.body, s2, fnode if self.cfg.gc else None)
            raised = self.sink
        finally:
            self.sink = outer_sink
            self.callstack.pop()
            self.depth -= 1
        res = []
        for s2, oc in outs:
            if oc[0] == 'raise':
                raised.append((s2, oc[1]))
            elif oc[0] == 'cut':
                self.cut.append(s2)
            else:
                res.append((self.leave(s2, eid, saved), oc[1] if oc[0] == 'return' else NONE))
        for s2, x in raised:
            self.sink.append((self.leave(s2, eid, saved), x))
        return self.dedupe_pairs(res)

    cut = []

    def leave(self, s, eid, saved):
        s = self.fork(s)
        s.cur = saved
        if eid not in s.captured and eid in s.envs:
            s.envs = {k: v for k, v in s.envs.items() if k != eid}
        return s

    def dedupe_pairs(self, pairs):
        if len(pairs) < 2:
            return pairs
        seen = {}
        out = []
        for s, v in pairs:
            try:
                k = (s.key(self.cfg.gc, v), repr(v) if isinstance(v, list) else v)
            except TypeError:
                out.append((s, v))
                continue
            if k in seen:
                continue
            seen[k] = 1
            out.append((s, v))
        return out

    def bind(self, st, eid, func, fnode, selfv, args, kw, node):
        a = fnode.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if selfv is not None and names:
            args = [selfv] + args
        for n, v in zip(names, args):
            vals[n] = v
        extra = args[len(names):]
        kwd = dict(kw)
        star = kwd.pop('**', None)
        allnames = set(names) | {x.arg for x in a.kwonlyargs}
        rest = {}
        for n, v in kwd.items():
            if n in allnames:
                vals[n] = v
            else:
                rest[n] = v
        defaults = list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))) + \
            [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        mod = func.module if func else None
        for x, d in defaults:
            if x.arg not in vals:
                if star is not None:
                    vals[x.arg] = I(star, C(x.arg))
                    continue
                v = self.static_value(d, mod) if mod else None
                if v is None and func is not None and getattr(func, 'outer', None) is None and \
                        any(isinstance(y, ast.Call) for y in ast.walk(d)):
                    # evaluated once, when the function is defined: one value for all calls
                    v = ('glob', func.module.name, f'{func.qual} default of {x.arg}')
                if v is None:
                    s0 = self.fork(st)
                    s0.cur = eid
                    r = self.ev(d, s0)
                    if len(r) == 1:
                        st = self.fork(r[0][0])
                        v = r[0][1]
                    else:
                        v = ('unk', f'default {x.arg}')
                vals[x.arg] = v
        for n in allnames:
            if n not in vals:
                vals[n] = I(star, C(n)) if star is not None else ('unk', f'arg {n}')
        if a.vararg:
            vals[a.vararg.arg] = ('t', tuple(extra))
        if a.kwarg:
            vals[a.kwarg.arg] = self.mkdict(st, fnode, tuple((C(n), v) for n, v in rest.items()),
                                            star is not None, star)
        d, parent, modname = st.envs[eid]
        st.envs = dict(st.envs)
        st.envs[eid] = (vals, parent, modname)
        return [st]

    # -- opaque calls ------------------------------------------------------

    def exceptions_of(self, name, args, node):
        if not self.try_stack and self.cfg.raising is None:
            return []
        if self.cfg.raising is not None:
            r = self.cfg.raising(name, args, bool(self.try_stack))
            if r is not None:
                return [x if isinstance(x, tuple) else ('exc', x, ()) for x in r]
            if not self.try_stack:
                return []
        if name in SAFE_CALLS:
            return []
        return [('exc', 'ANY', ())]

    def opaque_call(self, st, name, args, kw, node, is_async=False, pure=None, kind='call'):
        s = self.fork(st)
        for x in self.exceptions_of(name, args, node):
            s2 = self.fork(s)
            self.emit(s2, kind + 'x', name, args, kw, None, node)
            self.raise_exc(s2, x, node)
        kwt = tuple(sorted(kw, key=lambda p: p[0]))
        pure = (name in PURE) if pure is None else pure
        if self.cfg.pure_now and name == 'datetime.datetime.now':
            pure = True
        if pure:
            uid = 0
        else:
            ck = (name, tuple(args), kwt)
            uid = s.ncalls.get(ck, 0) + 1
            s.ncalls = dict(s.ncalls)
            s.ncalls[ck] = uid
        res = ('call', name, tuple(args), kwt, uid)
        if not pure or kind != 'call':
            self.emit(s, kind, name, args, kwt, res, node)
        return [(s, res)]

    def call_ext(self, st, dotted, args, kw, node):
        name = self.extname(dotted)
        args = tuple(args)
        kwd = dict(kw)
        short = name.split('.')[-1]
        if name == 'partial' and args:
            return [(st, ('partial', args[0], args[1:], tuple(kw)))]
        if name in ('asyncio.iscoroutine', 'inspect.iscoroutine', 'inspect.isawaitable', 'asyncio.coroutines.iscoroutine') \
                and len(args) == 1:
            return [(s, C(b)) for s, b in self.branch(st, ('iscoro', args[0]), node)]
        if all(a[0] == 'c' for a in args) and not kw and args:
            r = fold(name, [a[1] for a in args])
            if r is not None:
                return [(st, C(r[0]) if r[0] is None or isinstance(r[0], (str, int, float)) else ('call', name, args, (), 0))]
        if name in ('int', 'float') and len(args) == 1 and not kw and args[0][0] == 'c' and isinstance(args[0][1], str):
            try:
                {'int': int, 'float': float}[name](args[0][1])
            except ValueError:
                self.raise_exc(st, ('exc', 'ValueError', ()), node)
                return []
        if name == 'float' and len(args) == 1 and args[0] == C('inf'):
            return [(st, C(float('inf')))]
        if name == 'sorted' and args and self.cfg.sort_model:
            out = []
            for s, els in self.iterate(st, args[0], node):
                if len(els) > 3:
                    return [(st, ('call', name, args, tuple(kw), 0))]
                for s2, items in self.sort_items(s, els, (), kw, node):
                    s2 = self.fork(s2)
                    out.append((s2, self.mklist(s2, node, tuple(items))))
            return out
        if name == 'isinstance' and len(args) == 2:
            names = self.type_names(args[1])
            if names is not None:
                return [(s, C(b)) for s, b in self.branch(st, ('isinst', args[0], names), node)]
        if name == 'globals' and not args and st.envs[st.cur][2] in self.repo.modules:
            return [(st, ('glob', st.envs[st.cur][2], '<globals>'))]
        if name == 'dataclasses.is_dataclass' and len(args) == 1:
            return [(s, C(b)) for s, b in self.branch(st, ('isdc', args[0]), node)]
        if name == 'callable' and len(args) == 1:
            return [(s, C(b)) for s, b in self.branch(st, ('callable', args[0]), node)]
        if name == 'hasattr' and len(args) == 2 and args[1][0] == 'c':
            return [(s, C(b)) for s, b in self.branch(st, ('hasattr', args[0], args[1][1]), node)]
        if name == 'getattr' and len(args) >= 2 and args[1][0] == 'c' and isinstance(args[1][1], str):
            if len(args) == 3:
                out = []
                for s, b in self.branch(st, ('hasattr', args[0], args[1][1]), node):
                    if b:
                        out += self.getattr_(s, args[0], args[1][1], node)
                    else:
                        out.append((s, args[2]))
                return out
            return self.getattr_(st, args[0], args[1][1], node)
        if name == 'setattr' and len(args) == 3:
            s = self.fork(st)
            if args[1][0] == 'c':
                self.setattr_(s, args[0], args[1][1], args[2], node)
            else:
                self.emit(s, 'setattr', '?', (args[0], args[1], args[2]), node=node)
            return [(s, NONE)]
        if name == 'bool' and len(args) == 1:
            return [(s, C(b)) for s, b in self.truth(st, args[0], node)]
        if name == 'len' and len(args) == 1 and args[0][0] == 'c' and (args[0][1] is None or isinstance(args[0][1], (bool, int, float))):
            self.raise_exc(self.fork(st), ('exc', 'TypeError', ()), node)
            return []
        if name == 'len' and len(args) == 1:
            items = self.known_items(st, args[0])
            if items is not None:
                return [(st, C(len(items)))]
            if args[0][0] == 'c':
                try:
                    return [(st, C(len(args[0][1])))]
                except TypeError:
                    pass
            return [(st, ('call', 'len', (self.iter_root(args[0]),), (), 0))]
        if name == 'str' and len(args) == 1 and args[0][0] == 'c':
            return [(st, C(str(args[0][1])))]
        if name == 'list' and len(args) <= 1:
            s = self.fork(st)
            if not args:
                return [(s, self.mklist(s, node, ()))]
            items = self.known_items(s, args[0])
            if items is not None:
                return [(s, self.mklist(s, node, items))]
            if args[0][0] == 'call' and args[0][1] in ('.items', '.keys', '.values', 'enumerate', 'zip', 'map', 'filter'):
                return [(s2, self.mklist(s2, node, els)) for s2, els in self.iterate(s, args[0], node)]
            return [(s, ('call', 'list', args, (), 0))]
        if name in ('min', 'max') and len(args) > 1 and not kw and all(a[0] == 'c' and isinstance(a[1], (int, float)) for a in args):
            return [(st, C((min if name == 'min' else max)(a[1] for a in args)))]
        if name in ('min', 'max') and len(args) > 1 and not kw and all(a[0] == 'call' and span(a) is not None for a in args):
            return [(st, (min if name == 'min' else max)(args, key=span))]
        if name == 'set' and len(args) <= 1:
            s = self.fork(st)
            if not args:
                return [(s, self.mklist(s, node, (), kind='set'))]
            items = self.known_items(s, args[0])
            if items is not None:
                return [(s, self.mklist(s, node, items, kind='set'))]
            return [(s, ('call', 'set', args, (), 0))]
        if name == 'tuple' and len(args) == 1:
            items = self.known_items(st, args[0])
            if items is not None:
                return [(st, ('t', tuple(items)))]
            return [(st, ('call', 'tuple', args, (), 0))]
        if name == 'dict':
            s = self.fork(st)
            items, op, base = (), False, None
            if args:
                a = args[0]
                if a[0] == 'o' and s.heap[a[1]][0] == 'dict':
                    o = s.heap[a[1]]
                    items, op, base = o[1], o[2], o[3]
                elif a[0] == 'o' and s.heap[a[1]][0] == 'list' and not s.heap[a[1]][2] \
                        and all(x[0] == 't' and len(x[1]) == 2 for x in s.heap[a[1]][1]):
                    items = tuple(x[1] for x in s.heap[a[1]][1])
                else:
                    op, base = True, a
            for n, v in kw:
                if n == '**':
                    op, base = True, v
                else:
                    items = self.merge_items(items, ((C(n), v),))
            return [(s, self.mkdict(s, node, items, op, base))]
        if name in ('map', 'filter') and len(args) == 2:
            out = []
            for s, els in self.iterate(st, args[1], node):
                live = [(s, [])]
                for el in els:
                    nxt = []
                    for s2, acc in live:
                        for s3, v in self.call(s2, args[0], (el,), (), node):
                            if name == 'map':
                                nxt.append((s3, acc + [v]))
                            else:
                                for s4, b in self.truth(s3, v, node):
                                    nxt.append((s4, acc + [el] if b else acc))
                    live = nxt
                for s2, acc in live:
                    s2 = self.fork(s2)
                    out.append((s2, self.mklist(s2, node, acc)))
            return out
        if name in ('copy.copy', 'copy.deepcopy') and len(args) == 1 and args[0][0] != 'o' and (self.typeof(args[0]) is not None or any(
                v and a[0] == 'isinst' and a[1] == args[0] and any(c.name in a[2] for c in self.repo.classes.values()) for a, v in st.facts.items())):
            s = self.fork(st)
            return [(s, self.alloc(s, node, ('inst', '?', (), args[0])))]
        if name in ('dataclasses.asdict', 'copy.copy', 'copy.deepcopy') and len(args) == 1:
            return [self.to_dict(st, args[0], node, name)]
        if name == 'dataclasses.replace' and args:
            s = self.fork(st)
            if args[0][0] == 'o' and s.heap[args[0][1]][0] == 'inst':
                o = s.heap[args[0][1]]
                d = dict(o[2])
                d.update(kwd)
                return [(s, self.alloc(s, node, ('inst', o[1], tuple(d.items()), o[3])))]
            return [(s, self.alloc(s, node, ('inst', '?', tuple(kwd.items()), args[0])))]
        if name == 'asyncio.Queue' and not args:
            s = self.fork(st)
            return [(s, ('call', 'asyncio.Queue', (), (), 0))]
        if name == 'collections.OrderedDict':
            return self.call_ext(st, 'dict', args, kw, node)
        if name == 'collections.defaultdict':
            return self.opaque_call(st, name, args, kw, node)
        if short in BUILTIN_EXC and '.' not in name:
            return [(st, ('exc', short, args))]
        if name.startswith('asyncio.') and short in ('create_task', 'ensure_future'):
            s = self.fork(st)
            self.emit(s, 'task', 'create_task', args, kw, None, node)
            return [(s, ('call', 'create_task', args, (), 0))]
        if name in ('next',) and args:
            out = []
            for s, els in self.iterate(st, args[0], node):
                if els:
                    out.append((s, els[0]))
                elif len(args) > 1:
                    out.append((s, args[1]))
                else:
                    self.raise_exc(s, ('exc', 'StopIteration', ()), node)
            return out
        if name == 'asyncio.gather':
            s = self.fork(st)
            self.emit(s, 'await', 'gather', args, kw, None, node)
            if not any(a[0] == 'elem' and a[2] == '*' for a in args) and not any(k == 'return_exceptions' for k, _ in kw):
                return [(s, self.mklist(s, node, args))]
            return [(s, ('call', 'asyncio.gather', args, (), 0))]
        return self.opaque_call(st, name, args, kw, node)

    def to_dict(self, st, v, node, why):
        if v[0] == 'o':
            o = st.heap[v[1]]
            s = self.fork(st)
            if o[0] == 'inst' and why == 'dataclasses.asdict':
                items = []
                for n, x in o[2]:
                    s, x2 = self.to_dict(s, x, node, why) if x[0] == 'o' and s.heap[x[1]][0] in ('inst', 'list') else (s, x)
                    items.append((C(n), x2))
                return s, self.mkdict(s, node, tuple(items), o[3] is not None, o[3])
            if o[0] == 'list' and why == 'dataclasses.asdict':
                items = []
                for x in o[1]:
                    s, x2 = self.to_dict(s, x, node, why) if x[0] == 'o' else (s, x)
                    items.append(x2)
                return s, self.mklist(s, node, items, o[2])
            return s, self.alloc(s, node, o)
        return st, v

    def type_names(self, t):
        if t[0] == 'ext':
            return (t[1].split('.')[-1],)
        if t[0] == 'cls':
            return (self.repo.classes[t[1]].name,)
        if t[0] == 't':
            out = []
            for x in t[1]:
                n = self.type_names(x)
                if n is None:
                    return None
                out += n
            return tuple(sorted(set(out)))
        if t[0] == 'bin' and t[1] == '|':
            a, b = self.type_names(t[2]), self.type_names(t[3])
            return tuple(sorted(set(a + b))) if a and b else None
        return None

    def call_method(self, st, b, name, args, kw, node):
        args = tuple(args)
        if name == 'total_seconds' and not args and not kw and span(b) is not None:
            return [(st, C(span(b).total_seconds()))]
        if b[0] == 'call' and b[1] in RE_CALLS or b[0] == 'call' and b[1].endswith('re.compile'):
            r = fold_method(b, name, args, kw)
            if r is not None:
                return [(st, r)]
        if self.typeof(b) is not None and self.cfg.usercb(self.typeof(b), name):
            return self.opaque_call(st, name, (b,) + args, kw, node, kind='usercb')
        if b[0] == 'c':
            if isinstance(b[1], str) and name in STR_METHODS:
                cargs = []
                ok = True
                for a in args:
                    if a[0] == 'c':
                        cargs.append(a[1])
                    else:
                        items = self.known_items(st, a)
                        if items is not None and all(x[0] == 'c' for x in items):
                            cargs.append(tuple(x[1] for x in items))
                        else:
                            ok = False
                if ok and not kw:
                    try:
                        r = getattr(b[1], name)(*cargs)
                        if isinstance(r, tuple):
                            return [(st, ('t', tuple(C(x) for x in r)))]
                        if isinstance(r, list):
                            s = self.fork(st)
                            return [(s, self.mklist(s, node, [C(x) for x in r]))]
                        return [(st, C(r))]
                    except Exception:
                        pass
                if name == 'join' and len(args) == 1:
                    items = self.known_items(st, args[0])
                    if items is not None:
                        parts = []
                        for i, x in enumerate(items):
                            if i and b[1]:
                                parts.append(b)
                            parts += self.strparts(x) or [x]
                        return [(st, ('fstr', tuple(parts)) if parts else C(''))]
        if b[0] == 'o':
            r = self.heap_method(st, b, name, args, kw, node)
            if r is not None:
                return r
        if name == 'get' and 1 <= len(args) <= 2 and not kw and b[0] not in ('ext',):
            default = args[1] if len(args) == 2 else NONE
            if self.queue_like(b):
                pass
            else:
                return self.opaque_get(st, b, args[0], default, node)
        if name == 'update' and b[0] != 'o' and (args or kw) and len(args) <= 1 and all(n != '**' for n, _ in kw):
            d = st.heap[args[0][1]] if args and args[0][0] == 'o' else None
            if not args or d is not None and d[0] == 'dict' and not d[2] and d[3] is None:
                s = self.fork(st)
                for k, v in (d[1] if d else ()) + tuple((C(n), v) for n, v in kw):
                    self.setitem(s, b, k, v, node)
                return [(s, NONE)]
        if name in ('append', 'extend', 'insert', 'add', 'put_nowait', 'appendleft'):
            s = self.fork(st)
            self.emit(s, 'mut', name, (b,) + args, kw, None, node)
            if name != 'extend':
                self.touch(s, b, True)
                if name in ('append', 'add') and args:
                    s.fact(('in', args[0], b), True)
            else:
                self.touch(s, b, None)
            return [(s, NONE)]
        if name in ('pop', 'remove', 'popitem', 'clear', 'discard', 'popleft') and not self.queue_like(b):
            s = self.fork(st)
            res = ('call', '.' + name, (b,) + args, (), s.ncalls.get(('pop', b, args), 0))
            s.ncalls = dict(s.ncalls)
            s.ncalls[('pop', b, args)] = s.ncalls.get(('pop', b, args), 0) + 1
            if name == 'pop' and args:
                if len(args) == 1 and self.want_keyerror():
                    d = self.decide(s, ('in', args[0], b))
                    if d is not True:
                        s2 = self.fork(s)
                        self.raise_exc(s2, ('exc', 'KeyError', ()), node)
                if (b, 'i', args[0]) in s.store:
                    res = s.store[(b, 'i', args[0])]
                else:
                    res = I(b, args[0])
                    if args[0][0] == 'c' and isinstance(args[0][1], int):
                        res = E(b, args[0][1])
            self.emit(s, 'mut', name, (b,) + args, kw, res, node)
            self.touch(s, b, None)
            if name in ('pop', 'remove', 'discard') and args:
                s.fact(('in', args[0], b), False)
                s.store = {k: v for k, v in s.store.items() if not (k[0] == b and k[1] == 'i' and k[2] == args[0])}
            return [(s, res if name in ('pop', 'popitem', 'popleft') else NONE)]
        if name == 'update' and len(args) <= 1:
            s = self.fork(st)
            self.emit(s, 'mut', 'update', (b,) + args, kw, None, node)
            if args and args[0][0] == 'o' and s.heap[args[0][1]][0] == 'dict':
                for k, v in s.heap[args[0][1]][1]:
                    self.setitem(s, b, k, v, node)
            for n, v in kw:
                if n != '**':
                    self.setitem(s, b, C(n), v, node)
            return [(s, NONE)]
        if name == 'setdefault' and 1 <= len(args) <= 2:
            out = []
            for s, ok in self.branch(st, ('in', args[0], b), node):
                if ok:
                    out += self.getitem(s, b, args[0], node, quiet=True)
                else:
                    s = self.fork(s)
                    v = args[1] if len(args) == 2 else NONE
                    self.setitem(s, b, args[0], v, node)
                    out.append((s, v))
            return out
        if name == 'copy' and not args and b[0] in ('item', 'elem', 'p', 'attr', 'call'):
            s = self.fork(st)
            return [(s, self.mkdict(s, node, (), True, b))]
        if name in ('create_task', 'ensure_future', 'run_until_complete') and args:
            s = self.fork(st)
            self.emit(s, 'task', 'create_task', args, kw, None, node)
            return [(s, ('call', 'create_task', args, (), 0))]
        if name in ('__setattr__',) and len(args) == 2 and args[0][0] == 'c':
            s = self.fork(st)
            self.setattr_(s, b, args[0][1], args[1], node)
            return [(s, NONE)]
        return self.opaque_call(st, '.' + name, (b,) + args, kw, node)

    def queue_like(self, b):
        return 'queue' in show(b).lower() or (b[0] == 'attr' and b[2] == 'pending_reports') \
            or (b[0] == 'call' and b[1] == 'asyncio.Queue')

    def touch(self, s, b, truth):
        """The container b changed."""
        root = self.iter_root(b)
        if root in s.counts:
            s.counts = {k: v for k, v in s.counts.items() if k != root}
        s.unfact(lambda a: a[0] in ('truth', 'isnone') and a[1] == b)
        s.unfact(lambda a: a[0] in ('truth', 'isnone') and a[1][0] == 'call' and a[1][1] == 'find_by'
                 and a[1][2] and a[1][2][0] == b)
        if truth is not None:
            s.fact(('truth', b), truth)

    def heap_method(self, st, b, name, args, kw, node):
        o = st.heap[b[1]]
        if o[0] == 'list':
            if name in ('append', 'add') and len(args) == 1:
                s = self.fork(st)
                self.hset(s, b[1], ('list', o[1] + (args[0],), o[2], o[3]))
                self.emit(s, 'mut', name, (b,) + args, kw, None, node)
                return [(s, NONE)]
            if name == 'insert' and len(args) == 2:
                s = self.fork(st)
                items = list(o[1])
                if args[0][0] == 'c':
                    items.insert(args[0][1], args[1])
                else:
                    items.append(args[1])
                self.hset(s, b[1], ('list', tuple(items), o[2], o[3]))
                return [(s, NONE)]
            if name in ('extend', 'update') and len(args) == 1:
                out = []
                items = self.known_items(st, args[0])
                if items is not None:
                    s = self.fork(st)
                    self.hset(s, b[1], ('list', o[1] + tuple(items), o[2], o[3]))
                    self.emit(s, 'mut', name, (b,) + args, kw, None, node)
                    return [(s, NONE)]
                for s, els in self.iterate(st, args[0], node):
                    s = self.fork(s)
                    oo = s.heap[b[1]]
                    self.hset(s, b[1], ('list', oo[1] + tuple(els), oo[2], oo[3]))
                    self.emit(s, 'mut', name, (b,) + args, kw, None, node)
                    out.append((s, NONE))
                return out
            if name == 'pop' and not o[2]:
                s = self.fork(st)
                i = args[0] if args else C(-1)
                if i[0] == "c" and isinstance(i[1], int) and o[1] and -len(o[1]) <= i[1] < len(o[1]):
                    items = list(o[1])
                    v = items.pop(i[1])
                    self.hset(s, b[1], ('list', tuple(items), o[2], o[3]))
                    self.emit(s, 'mut', name, (b,) + args, kw, v, node)
                    return [(s, v)]
                if not o[1]:
                    self.raise_exc(s, ('exc', 'IndexError', ()), node)
                    return []
            if name == 'copy' and not args:
                s = self.fork(st)
                return [(s, self.alloc(s, node, o))]
            if name == 'clear':
                s = self.fork(st)
                self.hset(s, b[1], ('list', (), False, o[3]))
                return [(s, NONE)]
            if name == 'sort' and self.cfg.sort_model and not o[2] and len(o[1]) <= 3:
                out = []
                for s, items in self.sort_items(st, list(o[1]), args, kw, node):
                    s = self.fork(s)
                    self.hset(s, b[1], ('list', tuple(items), o[2], o[3]))
                    out.append((s, NONE))
                return out
            if name == 'sort':
                s = self.fork(st)
                self.emit(s, 'mut', 'sort', (b,) + args, kw, None, node)
                return [(s, NONE)]
            if name in ('remove', 'discard') and len(args) == 1 and not o[2]:
                if args[0] in o[1]:
                    s = self.fork(st)
                    items = list(o[1])
                    items.remove(args[0])
                    self.hset(s, b[1], ('list', tuple(items), o[2], o[3]))
                    self.emit(s, 'mut', name, (b,) + args, kw, None, node)
                    return [(s, NONE)]
                if args[0][0] == 'c' and all(x[0] == 'c' for x in o[1]):
                    if name == 'discard':
                        return [(st, NONE)]
                    self.raise_exc(self.fork(st), ('exc', 'ValueError', ()), node)
                    return []
            if name == 'reverse' and not args and not o[2]:
                s = self.fork(st)
                self.hset(s, b[1], ('list', o[1][::-1], o[2], o[3]))
                self.emit(s, 'mut', name, (b,), kw, None, node)
                return [(s, NONE)]
            if name in ('index', 'count', 'remove', 'reverse', 'discard'):
                return self.opaque_call(st, '.' + name, (b,) + args, kw, node)
        if o[0] == 'dict':
            if name == 'get' and 1 <= len(args) <= 2:
                return self.dict_get(st, b, o, args[0], node, args[1] if len(args) == 2 else NONE)
            if name == 'copy' and not args:
                s = self.fork(st)
                return [(s, self.alloc(s, node, o))]
            if name == 'pop' and 1 <= len(args) <= 2:
                out = []
                for s, v in self.dict_get(st, b, o, args[0], node, args[1] if len(args) == 2 else 'raise'):
                    s = self.fork(s)
                    oo = s.heap[b[1]]
                    self.hset(s, b[1], ('dict', tuple((k, x) for k, x in oo[1] if k != args[0]), oo[2], oo[3]))
                    if oo[3] is not None:
                        s.fact(('in', args[0], oo[3]), False)
                    self.emit(s, 'mut', name, (b,) + args, kw, v, node)
                    out.append((s, v))
                return out
            if name == 'setdefault' and 1 <= len(args) <= 2 and not o[2]:
                out = []
                missing = ('c', ('missing', id(node)))
                for s, v in self.dict_get(st, b, o, args[0], node, missing):
                    if v == missing:
                        s = self.fork(s)
                        v = args[1] if len(args) == 2 else NONE
                        self.setitem(s, b, args[0], v, node)
                    out.append((s, v))
                return out
            if name == 'setdefault' and 1 <= len(args) <= 2:
                out = []
                for s, ok in self.branch(st, ('in', args[0], b), node):
                    if ok:
                        out += self.getitem(s, b, args[0], node, quiet=True)
                    else:
                        s = self.fork(s)
                        v = args[1] if len(args) == 2 else NONE
                        self.setitem(s, b, args[0], v, node)
                        out.append((s, v))
                return out
            if name == 'update' and len(args) <= 1:
                s = self.fork(st)
                if args and args[0][0] == 'o' and s.heap[args[0][1]][0] == 'dict':
                    for k, v in s.heap[args[0][1]][1]:
                        self.setitem(s, b, k, v, node)
                elif args:
                    oo = s.heap[b[1]]
                    self.hset(s, b[1], ('dict', oo[1], True, args[0]))
                for n, v in kw:
                    if n != '**':
                        self.setitem(s, b, C(n), v, node)
                return [(s, NONE)]
            if name in ('items', 'keys', 'values'):
                return [(st, ('call', '.' + name, (b,), (), 0))]
            if name == 'clear':
                s = self.fork(st)
                self.hset(s, b[1], ('dict', (), False, None))
                return [(s, NONE)]
        if o[0] == 'inst' and o[3] is not None:
            return self.call_method(st, o[3], name, args, kw, node)
        return None

    def before(self, st, a, b, node):
        """[(state, a sorts strictly before b)]"""
        if a[0] == 't' and b[0] == 't' and len(a[1]) == len(b[1]):
            live, out = [st], []
            for x, y in zip(a[1], b[1]):
                nxt = []
                for s in live:
                    for s2, lt in self.before(s, x, y, node):
                        if lt:
                            out.append((s2, True))
                            continue
                        for s3, gt in self.before(s2, y, x, node):
                            if gt:
                                out.append((s3, False))
                            else:
                                nxt.append(s3)
                live = nxt
            return out + [(s, False) for s in live]
        return self.branch(st, ('lt', a, b), node)

    def sort_items(self, st, items, args, kw, node):
        """Stable insertion sort of a short list of known items; one state per order."""
        kwd = dict(kw)
        key = kwd.get('key', NONE)
        rev = kwd.get('reverse', FALSE)
        states = [(st, [])]
        for x in items:
            nxt = []
            for s, ks in states:
                for s2, k in ([(s, x)] if key == NONE else self.call(s, key, (x,), (), node)):
                    nxt.append((s2, ks + [k]))
            states = nxt
        out = []
        for s, ks in states:
            todo = [(s, [])]
            for i in range(len(items)):
                nxt = []
                for s1, order in todo:
                    # insert i from the right
                    live = [(s1, len(order))]
                    while live:
                        s2, pos = live.pop()
                        if pos == 0:
                            nxt.append((s2, [i] + order))
                            continue
                        j = order[pos - 1]
                        pair = (ks[j], ks[i]) if rev == TRUE else (ks[i], ks[j])
                        for s3, lt in self.before(s2, *pair, node):
                            if lt:
                                live.append((s3, pos - 1))
                            else:
                                nxt.append((s3, order[:pos] + [i] + order[pos:]))
                todo = nxt
            out += [(s1, [items[i] for i in order]) for s1, order in todo]
        return out

    # -- models of the lookup helpers -------------------------------------

    def model(self, st, func, args, kw, node):
        q = func.qual
        kwd = dict(kw)
        if q == 'openleadr.utils.generate_id':
            return self.opaque_call(st, 'generate_id', (), (), node)
        if q == 'openleadr.utils.getmember' and len(args) >= 2 and args[1][0] == 'c':
            missing = args[2] if len(args) > 2 else kwd.get('missing')
            states = [(st, args[0])]
            parts = args[1][1].split('.')
            for p in parts:
                nxt = []
                for s, b in states:
                    nxt += self.get_field(s, b, p, missing, node)
                states = nxt
            return states
        if q == 'openleadr.utils.setmember' and len(args) == 3 and args[1][0] == 'c':
            parts = args[1][1].split('.')
            states = [(st, args[0])]
            for p in parts[:-1]:
                states = [r for s, b in states for r in self.get_field(s, b, p, None, node)]
            out = []
            for s, b in states:
                s = self.fork(s)
                self.set_field(s, b, parts[-1], args[2], node)
                out.append((s, NONE))
            return out
        if q == 'openleadr.utils.hasmember' and len(args) == 2:
            return [(s, C(b)) for s, b in self.branch(st, ('in', args[1], args[0]), node)]
        if q == 'openleadr.utils.find_by':
            return self.find_by(st, args, kw, node)
        if q == 'openleadr.utils.pop_by':
            out = []
            for s, v in self.find_by(st, args, kw, node):
                s = self.fork(s)
                self.emit(s, 'mut', 'pop_by', args, kw, v, node)
                self.touch(s, args[0], None)
                out.append((s, v))
            return out
        if q in ('openleadr.utils.ensure_str', 'openleadr.utils.ensure_bytes') and len(args) == 1:
            return [(st, ('call', func.name, tuple(args), (), 0))]
        return None

    def find_by(self, st, args, kw, node):
        lst = args[0]
        crit = tuple(args[1:])
        items = self.known_items(st, lst) if lst[0] == 'o' else None
        if items is not None and not items:
            return [(st, NONE)]
        lst = self.iter_root(lst)
        if lst[0] == 'call' and lst[1] == '.values':
            lst = lst[2][0]
        return [(st, ('call', 'find_by', (lst,) + crit, tuple(kw), 0))]

    def get_field(self, st, b, p, missing, node):
        if b[0] == 'o':
            o = st.heap[b[1]]
            if o[0] == 'inst':
                d = dict(o[2])
                if p in d:
                    return [(st, d[p])]
                if o[3] is not None:
                    return self.get_field(st, o[3], p, missing, node)
            if o[0] == 'dict':
                return self.dict_get(st, b, o, C(p), node, missing if missing is not None else 'raise')
        if b[0] == 'call' and b[1] == 'find_by':
            crit = b[2][1:]
            for i in range(0, len(crit) - 1, 2):
                if crit[i] == C(p) and crit[i + 1][0] != 't':
                    return [(st, crit[i + 1])]
        if b[0] == 'item' and b[1][0] == 'call' and b[1][1] == 'find_by' and b[2][0] == 'c':
            crit = b[1][2][1:]
            for i in range(0, len(crit) - 1, 2):
                if crit[i] == C(f'{b[2][1]}.{p}') and crit[i + 1][0] != 't':
                    key = (b, 'i', C(p))
                    if key not in st.store:
                        return [(st, crit[i + 1])]
        if missing is not None and missing != NONE:
            return self.opaque_get(st, b, C(p), missing, node)
        return self.getitem(st, b, C(p), node, quiet=True)

    def set_field(self, s, b, p, v, node):
        if b[0] == 'o' and s.heap[b[1]][0] == 'inst':
            self.setattr_(s, b, p, v, node)
        else:
            self.setitem(s, b, C(p), v, node)

    # ------------------------------------------------------------------ assignment

    def assign_name(self, s, name, v):
        # honour nonlocal/global minimalistically: assign in current env
        decl = s.notes.get(('nonlocal', s.cur, name))
        if decl is not None:
            eid = s.envs[s.cur][1]
            while eid is not None:
                if name in s.envs[eid][0]:
                    s.setvar(eid, name, v)
                    return
                eid = s.envs[eid][1]
        if s.notes.get(('global', s.cur, name)):
            modname = s.envs[s.cur][2]
            s.store = dict(s.store)
            s.store[(modname, name)] = v
            self.emit(s, 'setglobal', f'{modname}.{name}', (v,))
            return
        s.setvar(s.cur, name, v)

    def assign(self, s, target, v):
        """Assign v to target: list of states."""
        if isinstance(target, ast.Name):
            s = self.fork(s)
            self.assign_name(s, target.id, v)
            return [s]
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            vals = None
            star = [i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)]
            items = self.known_items(s, v) if v[0] in ('t', 'o', 'c') else None
            if v == NONE:
                self.raise_exc(s, ('exc', 'TypeError', ()), target)
                return []
            if star:
                vals = [E(v, i) for i in range(n)]
                if items is not None and len(items) >= n - 1:
                    i = star[0]
                    tail = n - 1 - i
                    mid = items[i:len(items) - tail]
                    s = self.fork(s)
                    vals = items[:i] + [self.mklist(s, target, mid)] + (items[len(items) - tail:] if tail else [])
            elif items is not None and len(items) == n:
                vals = items
            elif items is not None:
                self.raise_exc(s, ('exc', 'ValueError', ()), target)
                return []
            else:
                vals = [E(self.iter_root(v), i) for i in range(n)]
            states = [s]
            for t, x in zip(target.elts, vals):
                if isinstance(t, ast.Starred):
                    t = t.value
                states = [s3 for s2 in states for s3 in self.assign(s2, t, x)]
            return states
        if isinstance(target, ast.Attribute):
            out = []
            for s2, b in self.ev(target.value, s):
                s2 = self.fork(s2)
                self.setattr_(s2, b, target.attr, v, target)
                out.append(s2)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s2, b in self.ev(target.value, s):
                if isinstance(target.slice, ast.Slice):
                    s3 = self.fork(s2)
                    self.emit(s3, 'setslice', '', (b, v), node=target)
                    out.append(s3)
                    continue
                for s3, k in self.ev(target.slice, s2):
                    s3 = self.fork(s3)
                    self.setitem(s3, b, k, v, target)
                    out.append(s3)
            return out
        if isinstance(target, ast.Starred):
            return self.assign(s, target.value, v)
        return [s]

    def setattr_(self, s, b, name, v, node):
        if b[0] == 'o' and s.heap[b[1]][0] == 'inst':
            o = s.heap[b[1]]
            d = dict(o[2])
            d[name] = v
            self.hset(s, b[1], ('inst', o[1], tuple(d.items()), o[3]))
            self.emit(s, 'setattr', name, (b, v), node=node)
            return
        t = self.canon(b, name)
        if t[0] == 'item' and self.typeof(b) is None:
            self.setitem(s, b, C(name), v, node)
            return
        s.store = dict(s.store)
        s.store[(b, 'a', name)] = v
        self.emit(s, 'setattr', name, (b, v), node=node)

    def setitem(self, s, b, k, v, node):
        if b[0] == 'o':
            o = s.heap[b[1]]
            if o[0] == 'dict':
                self.hset(s, b[1], ('dict', self.merge_items(o[1], ((k, v),)), o[2], o[3]))
                self.emit(s, 'setitem', '', (b, k, v), node=node)
                return
            if o[0] == 'list' and k[0] == 'c' and isinstance(k[1], int) and -len(o[1]) <= k[1] < len(o[1]):
                items = list(o[1])
                items[k[1]] = v
                self.hset(s, b[1], ('list', tuple(items), o[2], o[3]))
                self.emit(s, 'setitem', '', (b, k, v), node=node)
                return
            if o[0] == 'list' and k[0] == 'idx' and isinstance(k[2], int) and k[2] < len(o[1]):
                items = list(o[1])
                items[k[2]] = v
                self.hset(s, b[1], ('list', tuple(items), o[2], o[3]))
                self.emit(s, 'setitem', '', (b, k, v), node=node)
                return
            if o[0] == 'inst' and k[0] == 'c':
                return self.setattr_(s, b, k[1], v, node)
        if self.cfg.keep_store is None or self.cfg.keep_store(b, k):
            s.store = dict(s.store)
            s.store[(b, 'i', k)] = v
        self.emit(s, 'setitem', '', (b, k, v), node=node)
        if self.cfg.forget is None or not self.cfg.forget(('in', k, b)):
            s.fact(('in', k, b), True)

    # ------------------------------------------------------------------ statements

    def live_after(self, fnode):
        """Per statement of the body of a function: the locals that are read later (None: all may be)."""
        r = self._live.get(fnode)
        if r is None:
            body = fnode.body
            inner = any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) or isinstance(x, ast.Name) and x.id in ('locals', 'vars', 'eval', 'exec')
                        for b in body for x in ast.walk(b))
            if inner:
                r = [None] * len(body)
            else:
                r, later = [], set()
                for b in reversed(body):
                    r.append(frozenset(later))
                    later |= {x.id for x in ast.walk(b) if isinstance(x, ast.Name) and not (isinstance(x.ctx, ast.Store))}
                    later |= {x.target.id for x in ast.walk(b) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                r.reverse()
            self._live[fnode] = r
        return r

    def bury(self, s, live):
        """Drop the locals nothing reads any more."""
        d, parent, mod = s.envs[s.cur]
        if s.cur in s.captured or all(k in live for k in d):
            return
        s.envs = dict(s.envs)
        s.envs[s.cur] = ({k: v for k, v in d.items() if k in live}, parent, mod)

    def block(self, stmts, st, fnode=None):
        """List of (state, outcome); outcome: ('next',) ('return', v) ('raise', x) ('break',) ('continue',) ('cut',)"""
        live = [st]
        done = []
        reads = self.live_after(fnode) if fnode is not None else None
        for i, stmt in enumerate(stmts):
            nxt = []
            for s in live:
                for s2, oc in self.stmt(stmt, s):
                    if oc[0] == 'next':
                        if reads is not None and reads[i] is not None:
                            s2 = s2.copy()
                            self.bury(s2, reads[i])
                        nxt.append(s2)
                    else:
                        done.append((s2, oc))
            live = self.dedupe(nxt)
            if not live:
                break
        return done + [(s, ('next',)) for s in live]

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen = set()
        out = []
        for s in states:
            try:
                k = s.key(self.cfg.gc)
                if k in seen:
                    continue
                seen.add(k)
            except TypeError:
                pass
            out.append(s)
        return out

    def stmt(self, node, st):
        saved = self.sink
        self.sink = []
        m = getattr(self, 'st_' + type(node).__name__, None)
        try:
            outs = m(node, st) if m else [(st, ('next',))]
            raised = self.sink
        finally:
            self.sink = saved
        return outs + [(s, ('raise', x)) for s, x in raised]

    def nexts(self, states):
        return [(s, ('next',)) for s in states]

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, ('next',))]
        out = []
        for s, v in self.ev(n.value, st):
            if v[0] == 'coro':
                s = self.fork(s)
                self.emit(s, 'dropped_coro', '', (v,), node=n)
            out.append(s)
        return self.nexts(out)

    def st_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            states = [s]
            for t in n.targets:
                states = [s3 for s2 in states for s3 in self.assign(s2, t, v)]
            out += states
        return self.nexts(out)

    def st_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, ('next',))]
        out = []
        for s, v in self.ev(n.value, st):
            out += self.assign(s, n.target, v)
        return self.nexts(out)

    def st_AugAssign(self, n, st):
        load = ast.copy_location(ast.fix_missing_locations(self.as_load(n.target)), n.target)
        out = []
        op = BIN.get(type(n.op), '?')
        for s, l in self.ev(load, st):
            for s2, r in self.ev(n.value, s):
                if op == '+' and l[0] == 'o' and s2.heap[l[1]][0] == 'list':
                    for s3, _ in self.heap_method(s2, l, 'extend', (r,), (), n) or []:
                        out.append(s3)
                    continue
                if op == '+' and l[0] in ('attr', 'item', 'elem', 'p') and r[0] == 'o' and s2.heap[r[1]][0] == 'list':
                    s3 = self.fork(s2)
                    items = s3.heap[r[1]][1]
                    for x in items:
                        self.emit(s3, 'mut', 'append', (l, x), node=n)
                    self.touch(s3, l, True if items else None)
                    out.append(s3)
                    continue
                v = self.binop(s2, op, l, r, n)
                out += self.assign(s2, n.target, v)
        return self.nexts(out)

    def as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        if isinstance(t, ast.Subscript):
            return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        return t

    def st_Return(self, n, st):
        if n.value is None:
            return [(st, ('return', NONE))]
        return [(s, ('return', v)) for s, v in self.ev(n.value, st)]

    def st_Pass(self, n, st):
        return [(st, ('next',))]

    def st_Break(self, n, st):
        return [(st, ('break',))]

    def st_Continue(self, n, st):
        return [(st, ('continue',))]

    def st_If(self, n, st):
        t, f = [], []
        for s, b in self.cond(n.test, st):
            (t if b else f).append(s)
        out = []
        for s in self.dedupe(t):
            out += self.block(n.body, s)
        for s in self.dedupe(f):
            out += self.block(n.orelse, s) if n.orelse else [(s, ('next',))]
        return out

    def st_Assert(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            if b:
                out.append((s, ('next',)))
            else:
                out.append((s, ('raise', ('exc', 'AssertionError', ()))))
        return out

    def st_Raise(self, n, st):
        if n.exc is None:
            x = st.notes.get('handling') or ('exc', 'ANY', ())
            return [(st, ('raise', x))]
        out = []
        for s, v in self.ev(n.exc, st):
            if v[0] == 'cls':
                r = self.instantiate(s, v, (), (), n)
                out += [(s2, ('raise', x)) for s2, x in r]
            elif v[0] == 'ext':
                out.append((s, ('raise', ('exc', v[1].split('.')[-1], ()))))
            elif v[0] == 'call' and isinstance(v[1], str):
                out.append((s, ('raise', ('exc', v[1].split('.')[-1], ()))))
            elif v[0] == 'c':
                out.append((s, ('raise', ('exc', 'TypeError', ()))))
            else:
                out.append((s, ('raise', v)))
        return out

    def st_FunctionDef(self, n, st):
        s = self.fork(st)
        key = f'def@{self.callstack[-1].file if self.callstack else ""}:{n.lineno}:{n.name}'
        self.lambdas[key] = (n, self.callstack[-1] if self.callstack else None)
        s.captured = s.captured | {s.cur}
        s.setvar(s.cur, n.name, ('fn', key, s.cur, None))
        return [(s, ('next',))]

    st_AsyncFunctionDef = st_FunctionDef

    def st_Import(self, n, st):
        s = self.fork(st)
        for a in n.names:
            if a.asname:
                s.setvar(s.cur, a.asname, ('mod', a.name) if a.name in self.repo.modules else ('ext', a.name))
            else:
                top = a.name.split('.')[0]
                s.setvar(s.cur, top, ('mod', top) if top in self.repo.modules else ('ext', top))
        return [(s, ('next',))]

    def st_ImportFrom(self, n, st):
        s = self.fork(st)
        mod = self.repo.modules.get(s.envs[s.cur][2])
        table = {}
        if mod:
            self.repo.add_from(mod, n, table)
            for name, imp in table.items():
                r = self.repo.resolve_import(imp)
                v = self.from_resolved(s, r)
                s.setvar(s.cur, name, v if v is not None else ('unk', name))
        return [(s, ('next',))]

    def st_Global(self, n, st):
        s = self.fork(st)
        s.notes = dict(s.notes)
        for x in n.names:
            s.notes[('global', s.cur, x)] = True
        return [(s, ('next',))]

    def st_Nonlocal(self, n, st):
        s = self.fork(st)
        s.notes = dict(s.notes)
        for x in n.names:
            s.notes[('nonlocal', s.cur, x)] = True
        return [(s, ('next',))]

    def st_Delete(self, n, st):
        states = [st]
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    for s2, b in self.ev(t.value, s):
                        for s3, k in self.ev(t.slice, s2):
                            for s4, _ in self.call_method(s3, b, 'pop', (k,), (), t):
                                nxt.append(s4)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        s2 = self.fork(s2)
                        self.emit(s2, 'delattr', t.attr, (b,), node=t)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            states = nxt
        return self.nexts(states)

    MUTATORS = {'add', 'append', 'remove', 'discard', 'pop', 'popitem', 'insert', 'extend', 'clear', 'pop_by',
                'appendleft', 'popleft'}

    def iter_mutation(self, before, s, it, n):
        """The container being iterated (not a copy of it) was resized by the body and the loop goes on."""
        base = it
        if it[0] == 'call' and it[1] in ('.items', '.keys', '.values', 'enumerate', 'reversed') and it[2]:
            base = it[2][0]
        if base[0] not in ('glob', 'attr', 'item', 'p', 'elem', 'o'):
            return
        e = s.events
        while e is not None and e is not before:
            ev = e[1]
            if ev.kind == 'mut' and ev.name in self.MUTATORS and ev.args and ev.args[0] == base:
                self.emit(s, 'itermut', ev.name, (base,), node=n)
                return
            e = e[0]

    def st_For(self, n, st):
        out = []
        for s, it in self.ev(n.iter, st):
            for s2, elems in self.iterate(s, it, n):
                live = [s2]
                for el in elems:
                    nxt = []
                    for s3 in live:
                        for s4 in self.assign(s3, n.target, el):
                            before = s4.events
                            for s5, oc in self.block(n.body, s4):
                                if oc[0] in ('next', 'continue'):
                                    s5 = self.fork(s5)
                                    self.iter_mutation(before, s5, it, n)
                                    nxt.append(s5)
                                elif oc[0] == 'break':
                                    out.append((s5, ('next',)))
                                else:
                                    out.append((s5, oc))
                    live = self.dedupe(nxt)
                for s3 in live:
                    if n.orelse:
                        out += self.block(n.orelse, s3)
                    else:
                        out.append((s3, ('next',)))
        return out

    st_AsyncFor = st_For

    def st_While(self, n, st):
        out = []
        live = [st]
        for i in range(self.cfg.while_iter + 1):
            nxt = []
            for s in live:
                for s2, b in self.cond(n.test, s):
                    if not b:
                        if n.orelse:
                            out += self.block(n.orelse, s2)
                        else:
                            out.append((s2, ('next',)))
                    elif i == self.cfg.while_iter:
                        out.append((s2, ('cut',)))
                    else:
                        for s3, oc in self.block(n.body, s2):
                            if oc[0] in ('next', 'continue'):
                                nxt.append(s3)
                            elif oc[0] == 'break':
                                out.append((s3, ('next',)))
                            else:
                                out.append((s3, oc))
            live = self.dedupe(nxt)
        return out

    def st_With(self, n, st):
        states = [st]
        suppress = []
        for item in n.items:
            nxt = []
            for s in states:
                for s2, v in self.ev(item.context_expr, s):
                    if v[0] == 'call' and v[1].endswith('suppress'):
                        for a in v[2]:
                            suppress += list(self.type_names(a) or ())
                    r = v
                    if v[0] == 'call' and v[1].startswith('.'):
                        r = v
                    if item.optional_vars is not None:
                        nxt += self.assign(s2, item.optional_vars, r)
                    else:
                        nxt.append(s2)
            states = nxt
        out = []
        if suppress:
            self.try_stack.append(frozenset(suppress))
        try:
            for s in states:
                out += self.block(n.body, s)
        finally:
            if suppress:
                self.try_stack.pop()
        if suppress:
            res = []
            for s, oc in out:
                if oc[0] == 'raise' and self.matches(s, oc[1], suppress) is not False:
                    res.append((s, ('next',)))
                else:
                    res.append((s, oc))
            out = res
        return out

    def st_AsyncWith(self, n, st):
        s = self.fork(st)
        outs = self.st_With(n, s)
        return outs

    # -- exceptions --------------------------------------------------------

    def exc_names(self, st, x):
        """All class names an exception value certainly is an instance of, or None if unknown (ANY)."""
        if x[0] == 'o':
            o = st.heap[x[1]]
            if o[0] == 'inst':
                c = self.repo.classes.get(o[1])
                if c:
                    names = [k.name for k in self.repo.mro(c)]
                    for e in self.repo.ext_ancestors(c):
                        names += self.ext_anc(e)
                    return set(names)
            return {'Exception', 'BaseException'}
        if x[0] == 'exc':
            if x[1] == 'ANY':
                return None
            c = [k for k in self.repo.classes.values() if k.name == x[1]]
            if c:
                names = [k.name for k in self.repo.mro(c[0])]
                for e in self.repo.ext_ancestors(c[0]):
                    names += self.ext_anc(e)
                return set(names)
            return set(self.ext_anc(x[1]))
        return None

    def ext_anc(self, n):
        n = n.split('.')[-1]
        if n in BUILTIN_EXC and n not in EXT_EXC_BASES:
            return [k.__name__ for k in BUILTIN_EXC[n].__mro__ if k is not object]
        out = [n]
        for b in EXT_EXC_BASES.get(n, ('Exception',)):
            out += self.ext_anc(b) if b != n else []
        if 'CancelledError' not in out and 'BaseException' not in out:
            out.append('BaseException')
        return out

    def matches(self, st, x, names):
        """True/False/None(maybe)"""
        have = self.exc_names(st, x)
        if have is None:
            if 'Exception' in names or 'BaseException' in names:
                return True
            if x[0] == 'exc' and x[2] and all(n in x[2] for n in names):
                return False
            return None
        return any(n in have for n in names)

    def handler_names(self, h, st):
        if h.type is None:
            return ('BaseException',)
        r = self.ev(h.type, st)
        if not r:
            return ('Exception',)
        v = r[0][1]
        names = self.type_names(v)
        return tuple(names) if names else ('Exception',)

    def st_Try(self, n, st):
        out = []
        hnames = [self.handler_names(h, st) for h in n.handlers]
        if n.handlers:
            self.try_stack.append(frozenset(x for hs in hnames for x in hs))
        try:
            body = self.block(n.body, st)
        finally:
            if n.handlers:
                self.try_stack.pop()
        res = []
        for s, oc in body:
            if oc[0] == 'next' and n.orelse:
                res += self.block(n.orelse, s)
            elif oc[0] == 'raise' and n.handlers:
                res += self.handle(n, hnames, s, oc[1])
            else:
                res.append((s, oc))
        if n.finalbody:
            fin = []
            for s, oc in res:
                if oc[0] == 'cut':
                    fin.append((s, oc))
                    continue
                for s2, oc2 in self.block(n.finalbody, s):
                    fin.append((s2, oc if oc2[0] == 'next' else oc2))
            res = fin
        return res

    st_TryStar = st_Try

    def handle(self, n, hnames, s, x):
        out = []
        cur = x
        for h, names in zip(n.handlers, hnames):
            m = self.matches(s, cur, names)
            if m is False:
                continue
            s2 = self.fork(s)
            hx = cur
            if m is None or (cur[0] == 'exc' and cur[1] == 'ANY'):
                hx = ('exc', names[0] if m is None else 'ANY', cur[2] if m is True else ())
                if m is None:
                    cls = [k for k in self.repo.classes.values() if k.name == names[0]]
                    if cls:
                        hx = self.alloc(s2, h, ('inst', cls[0].qual, (), P(f'exc:{names[0]}')))
            prev = s2.notes.get('handling')
            s2.notes = dict(s2.notes)
            s2.notes['handling'] = hx
            self.emit(s2, 'except', '|'.join(names), (x, hx), node=h)
            if h.name:
                s2.setvar(s2.cur, h.name, hx)
            for s3, oc in self.block(h.body, s2):
                s3 = self.fork(s3)
                s3.notes = dict(s3.notes)
                s3.notes['handling'] = prev
                out.append((s3, oc))
            if m is True:
                return out
            cur = ('exc', 'ANY', tuple(cur[2]) + tuple(names))
        out.append((s, ('raise', cur)))
        return out

    def st_Match(self, n, st):
        out = []
        for s, v in self.ev(n.subject, st):
            live = [s]
            for case in n.cases:
                nxt = []
                for s2 in live:
                    for s3, b in self.match_pat(case.pattern, v, s2, n):
                        if b and case.guard is not None:
                            for s4, g in self.cond(case.guard, s3):
                                if g:
                                    out += self.block(case.body, s4)
                                else:
                                    nxt.append(s4)
                        elif b:
                            out += self.block(case.body, s3)
                        else:
                            nxt.append(s3)
                live = nxt
            out += [(s2, ('next',)) for s2 in live]
        return out

    def match_pat(self, p, v, st, node):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, c in self.ev(p.value, st):
                out += self.branch(s, ('eq', v, c), node)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(st, ('eq', v, C(p.value)), node)
        if isinstance(p, ast.MatchOr):
            out, live = [], [st]
            for q in p.patterns:
                nxt = []
                for s in live:
                    for s2, b in self.match_pat(q, v, s, node):
                        (out.append((s2, True)) if b else nxt.append(s2))
                live = nxt
            return out + [(s, False) for s in live]
        if isinstance(p, ast.MatchAs):
            states = [(st, True)] if p.pattern is None else self.match_pat(p.pattern, v, st, node)
            out = []
            for s, b in states:
                if b and p.name:
                    s = self.fork(s)
                    self.assign_name(s, p.name, v)
                out.append((s, b))
            return out
        return [(self.fork(st), True), (self.fork(st), False)]

    # ------------------------------------------------------------------ entry

    def run(self, func, selfv=None, args=None, kw=(), init=None):
        """Interpret func from an initial state. Returns list of Path(state, outcome)."""
        st = init.copy() if init is not None else State()
        if st.cur is None:
            st.envs = {'root': ({}, None, func.module.name)}
            st.cur = 'root'
        if args is None:
            names = [a.arg for a in func.node.args.posonlyargs + func.node.args.args]
            ka = func.node.args.kwonlyargs
            if selfv is not None and names:
                names = names[1:]
            args = tuple(P(n) for n in names)
            kw = tuple(kw) + tuple((a.arg, P(a.arg)) for a in ka if a.arg not in dict(kw))
        self.sink = []
        self.cut = []
        res = self.inline(st, func, func.node, selfv, args, kw, None, None, func.module.name)
        paths = [Path(s, ('return', v)) for s, v in res] + [Path(s, ('raise', x)) for s, x in self.sink] + \
                [Path(s, ('cut', NONE)) for s in self.cut]
        self.stats['paths'] += len(paths)
        return paths


class Path:
    __slots__ = ('state', 'kind', 'value', '_trace')

    def __init__(self, st, oc):
        self.state = st
        self.kind = oc[0]
        self.value = oc[1]
        self._trace = None

    @property
    def trace(self):
        if self._trace is None:
            self._trace = self.state.trace()
        return self._trace

    @property
    def facts(self):
        return self.state.facts

    def obj(self, t):
        return self.state.heap.get(t[1]) if t[0] == 'o' else None

    def field(self, t, name):
        """Known value of field/key `name` of heap object t, or None."""
        o = self.obj(t)
        if o is None:
            return None
        if o[0] == 'dict':
            return dict(o[1]).get(C(name))
        if o[0] == 'inst':
            return dict(o[2]).get(name)
        return None


def run(repo, func, selfv=None, args=None, kw=(), init=None, **cfg):
    it = Interp(Config(repo, **cfg))
    return it, it.run(func, selfv, args, kw, init)
