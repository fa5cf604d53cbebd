"""
Callback plans: what every call of user code (function, attribute, item, iterator step, external tag) does,
as a pure function of the call site and its occurrence number within one operation.

The same Plan class drives the real engine and the reference interpreter (two separate instances), so that both see
the same environment; each instance keeps its own log of the calls it received and of the exceptions it raised.
"""


class CustomError(Exception):
    pass


class CustomBase(BaseException):
    pass


class FalsyError(Exception):
    """An exception object which is itself false in a boolean context."""
    def __bool__(self): return False


class TwoArgs(Exception):
    """An exception which can be neither copied nor re-created from its args."""
    def __init__(self, a, b): Exception.__init__(self, '%s %s' % (a, b))


class Unspecified(BaseException):
    """The model meets something that the properties do not specify."""


EXC = {e.__name__: e for e in (
    ValueError, KeyError, TypeError, AttributeError, IndexError, RuntimeError, OSError, ZeroDivisionError, ImportError,
    ModuleNotFoundError, NameError, UnboundLocalError, RecursionError, MemoryError, AssertionError, LookupError, SyntaxError, NotImplementedError,
    FileNotFoundError, PermissionError, TimeoutError, UnicodeError, UnicodeDecodeError, BufferError, ArithmeticError, EOFError, Exception, DeprecationWarning,
    StopAsyncIteration, CustomError, FalsyError, TwoArgs)}
ENGINE = ['HError', 'ImportErrorEx', 'ModuleNotFoundEx', 'UnboundLocalEx', 'NoneStringEx', 'FalseValueEx', 'TypeErrorEx', 'VoidTagEx', 'SyntaxErrorEx']       # user code can raise them, too
BASE = {e.__name__: e for e in (KeyboardInterrupt, SystemExit, GeneratorExit, CustomBase)}
ALLEXC = dict(EXC, **BASE)


def make_exc(name, msg, model=False):
    if name in ENGINE:
        if model: return type(name, (Exception,), {})(msg)
        from hypertag.core import errors
        return getattr(errors, name)(msg)
    if name == 'UnicodeDecodeError': return UnicodeDecodeError('utf-8', b'abc', 1, 2, msg)
    if name == 'TwoArgs': return TwoArgs(name, msg)
    return ALLEXC[name](msg)


class Runaway(BaseException):
    """The engine calls user code without end."""


class BadStr(object):
    """An object whose conversion to string fails."""
    def __init__(self, plan, key, exc): self._plan, self._key, self._exc = plan, key, exc
    def __str__(self): self._plan._raise(self._key, self._exc)


class BadBool(object):
    """An object that has no truth value, like an array."""
    def __init__(self, plan, key, exc, text): self._plan, self._key, self._exc, self._text = plan, key, exc, text
    def __bool__(self): self._plan._raise(self._key, self._exc)
    def __str__(self): return self._text


def endless(n): return endless(n + 1) + 1


class BadIter(object):
    """An object that fails when an iteration over it begins."""
    def __init__(self, plan, key, exc): self._plan, self._key, self._exc = plan, key, exc
    def __iter__(self): self._plan._raise(self._key, self._exc)


class Num(object):
    """An object with logged operators."""
    def __init__(self, getplan, site): self._p, self._site = getplan, site
    def _op(self, name, *args): return self._p().call('o', self._site, [name] + [descr(x) for x in args])
    def __add__(self, x): return self._op('+', x)
    def __radd__(self, x): return self._op('r+', x)
    def __sub__(self, x): return self._op('-', x)
    def __mod__(self, x): return self._op('%', x)
    def __lt__(self, x): return self._op('<', x)
    def __eq__(self, x): return self._op('==', x)
    def __ne__(self, x): return self._op('!=', x)
    def __contains__(self, x): return self._op('in', x)
    def __neg__(self): return self._op('neg')
    def __call__(self, *args): return self._op('()', *args)
    def __getitem__(self, x): return self._op('[]', x)
    def __or__(self, x): return self._op('|', x)
    def __str__(self): return str(self._op('str'))
    __hash__ = None


class LogIter(object):
    """An iterator that records its steps and can fail in the middle."""
    def __init__(self, plan, key, items, exc):
        self._plan, self._key, self._items, self._exc, self._pos = plan, key, items, exc, 0
    def __iter__(self): return self
    def __next__(self):
        p = self._plan
        p.log.append(['next', self._key, self._pos])
        p.point('next', self._key)
        if self._pos < len(self._items):
            self._pos += 1
            return self._items[self._pos - 1]
        if self._exc: p._raise(self._key + '!%d' % self._pos, self._exc)
        raise StopIteration


def items(base, n, shape=()):
    """Items of a sequence: strings; or pairs, nested pairs, tuples of varied length if so requested."""
    out = []
    for i in range(n):
        x = '%s.%d' % (base, i)
        k = shape[0] if shape else None
        if k == 'x': k = ['p', '3', 'p', '1'][(i + len(base)) % 4]
        if k == 'last': k = 'p' if i == n - 1 else None
        out.append({None: x, 'p': (x + 'a', x + 'b'), 'n': (x + 'a', (x + 'b', x + 'c')), '3': (x, x, x), '1': [x]}[k])
    return out


def descr(v):
    if v is None or isinstance(v, (bool, int)): return repr(v)
    if isinstance(v, str): return v
    if isinstance(v, (list, tuple)): return [descr(x) for x in v]
    return type(v).__name__ if type(v).__name__ in ('BadStr', 'LogIter', 'BadBool', 'BadIter', 'Num') else '?'


class Plan(object):
    def __init__(self, uid, spec, hook=None, reenter=None, maxcalls=4000, model=False):
        self.uid = uid
        self.spec = spec or {}
        self.log = []
        self.occ = {}
        self.raised = {}        # key -> exception objects
        self.hook = hook        # called at every user-code point: hook(kind, key)
        self.reenter = reenter  # performs a nested engine operation: reenter(opspec) -> str
        self.fired = {}
        self.maxcalls = maxcalls
        self.model = model      # nodes of a document tree are made for the model, not for the engine
        self.kept = {}

    def point(self, kind, key):
        if self.hook: self.hook(kind, key)

    def _raise(self, key, name):
        ex = make_exc(name, 'injected %s at %s' % (name, key), self.model)
        ex._dst_key = key
        self.raised.setdefault(key, []).append(ex)
        self.fired[name] = self.fired.get(name, 0) + 1
        raise ex

    def spec_for(self, site, occ):
        s = self.spec.get(str(site), 's')
        if isinstance(s, list) and s and s[0] == 'seq':
            s = s[1 + min(occ, len(s) - 2)]
        return s

    def call(self, kind, site, arg=None):
        site = int(site)
        occ = self.occ[site] = self.occ.get(site, -1) + 1
        if len(self.log) > self.maxcalls:
            raise Runaway('too many callbacks')
        self.log.append([kind, site, occ] + ([arg] if arg is not None else []))
        key = '%d.%d' % (site, occ)
        self.point(kind, key)
        s = self.spec_for(site, occ)
        return self.value(s, site, occ, key)

    def value(self, s, site, occ, key):
        base = 'v%s.%s' % (self.uid, key)
        if isinstance(s, str):
            if s == 's': return base
            if s == 'h': return base + '<&>"'
            if s == 't': return site * 10 + occ + 1
            if s == 'n': self._fire('none'); return None
            if s == 'e': self._fire('false'); return ''
            if s == 'z': self._fire('false'); return 0
            if s == 'f': self._fire('false'); return False
            if s == 'l': self._fire('false'); return []
            if s == 'T': return True
        else:
            k = s[0]
            if k == 'X': self._raise(key, s[1])
            if k == 'L': return items(base, s[1], s[2:])
            if k == 'I': return LogIter(self, key, items(base, s[1], s[2:]), None)
            if k == 'IX': return LogIter(self, key, items(base, s[1], s[3:]), s[2])
            if k == 'D': return self.nodes(base, s[1])
            if k == 'D1': return self.node(base)
            if k == 'DD': return self.dom(self.nodes(base, s[1]))
            if k == 'DN': return [self.nodes(base, s[1]), None, self.dom(self.nodes(base + 'b', 1)), self.node(base + 'c')]
            if k == 'DT': return [self.node(base), (self.node(base + 'b'),)]
            if k == 'DS':
                if site not in self.kept: self.kept[site] = self.nodes(base, s[1])
                return self.kept[site]
            if k == 'DG': return LogIter(self, key, self.nodes(base, s[1]), s[2])
            if k == 'BS': return BadStr(self, key, s[1])
            if k == 'BB': return BadBool(self, key, s[1], base)
            if k == 'IT': return BadIter(self, key, s[1])
            if k == 'P': return base if occ % (s[1] + 1) < s[1] else ''
            if k == 'RC': return endless(0)
            if k == 'R': return self.reenter(s[1], self, key).replace('\n', '~')
        raise AssertionError('bad plan spec %r' % (s,))

    def node(self, text):
        if self.model:
            from .model import MNode
            return MNode('text', text=text)
        from hypertag.core.dom import DOM
        return DOM.Text(text)

    def nodes(self, base, n): return [self.node('%s.%d' % (base, i)) for i in range(n)]

    def dom(self, nodes):
        if self.model: return nodes
        from hypertag.core.dom import DOM
        return DOM(*nodes)

    def _fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1


class Obj(object):
    """User object with logged attribute and item access."""
    def __init__(self, plan): object.__setattr__(self, '_p', plan)
    def __getattr__(self, name):
        if name[:1] == 'a' and name[1:].isdigit(): return self._p().call('a', name[1:])
        raise AttributeError(name)
    def __getitem__(self, i): return self._p().call('i', i)


def callbacks(getplan):
    """The user-level callables, as seen by a script. `getplan` returns the plan of the current operation."""
    def f(site): return getplan().call('f', site)
    def g(x, site): return '%s~%s' % (x, getplan().call('g', site, str(x)))
    def it(site): return getplan().call('it', site)
    def w(site): return getplan().call('w', site)
    def r(site): return getplan().call('r', site)
    def k(site, *args, **kw): return getplan().call('k', site, [descr(args), [[n, descr(kw[n])] for n in sorted(kw)]])
    def gg(x, site, y): return '%s~%s' % (x, getplan().call('gg', site, [descr(x), descr(y)]))
    def b(site): return getplan().call('b', site)
    def c(site, site2):
        getplan().call('c', site)
        return Num(getplan, site2)
    def u(site, tag, *args):
        v = getplan().call('u', site, descr(args))
        if isinstance(v, str) and v.endswith('0'): return '%s:%s+%s' % (v, tag(*args), tag(*args))
        return '%s:%s' % (v, tag(*args))
    return dict(f=f, g=g, it=it, w=w, r=r, o=Obj(getplan), k=k, gg=gg, b=b, u=u, c=c)


def ext_body(getplan, name, body, site):
    """Semantics of external tags ext1/ext2: log, maybe fail, wrap the body."""
    v = getplan().call('x', site, body)
    return '[%s %s %s]' % (name, v, body)
