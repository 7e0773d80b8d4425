"""Value domain of the PyVC interpreter."""
from .terms import *


class Unsupported(Exception):
    pass


class PyExc(Exception):
    """a Python exception raised by the interpreted program"""

    def __init__(self, name, msg='', cls=None):
        Exception.__init__(self, f'{name}: {msg}')
        self.name = name
        self.msg = msg
        self.cls = cls


class NeedFork(Exception):
    def __init__(self, cond):
        Exception.__init__(self, f'fork on {show_bool(cond)[:200]}')
        self.cond = cond


class SV:
    """symbolic number"""
    __slots__ = ('p', 'kind')

    def __init__(self, p, kind='float'):
        self.p = P(p)
        self.kind = kind

    def __repr__(self):
        return f'SV({show(self.p, 300)}:{self.kind})'


class SB:
    """symbolic truth value; np=True when it is a numpy bool (identity tests with True fail)"""
    __slots__ = ('b', 'np')

    def __init__(self, b, np=False):
        self.b = b
        self.np = np

    def __repr__(self):
        return f'SB({show_bool(self.b)})'


class Poison:
    def __init__(self, why):
        self.why = why


class MaybeUnbound:
    def __init__(self, cond, val):
        self.cond, self.val = cond, val


class OpaqueStr:
    """an arbitrary string about which only distinctness from a finite set is known"""

    def __init__(self, name, lowered=False):
        self.name, self.lowered = name, lowered

    def __repr__(self):
        return f'<str {self.name}{" lower" if self.lowered else ""}>'

    def __hash__(self):
        return hash(('os', self.name))

    def __eq__(self, o):
        return isinstance(o, OpaqueStr) and o.name == self.name


class Opaque:
    """an opaque value (result of a display call, lock, process ...)"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f'<opaque {self.what}>'


class ArrC:
    """immutable array content"""
    __slots__ = ('shape', '_get', 'dtype', 'kind', 'memo', 'stale')

    def __init__(self, shape, get, dtype='f', kind='nd'):
        self.shape = tuple(P(s) for s in shape)
        self._get = get
        self.dtype = dtype
        self.kind = kind
        self.memo = {}
        self.stale = None

    def get(self, *idx):
        idx = tuple(P(i) for i in idx)
        r = self.memo.get(idx)
        if r is None:
            if len(idx) != len(self.shape):
                raise Unsupported('rank mismatch in array read')
            r = self._get(*idx)
            if not isinstance(r, (Poly, B)) and self.dtype != 'o':
                r = P(r)
            self.memo[idx] = r
        return r


class HeapObj:
    """mutable engine object; .st is the current content"""
    reg = []

    def __init__(self):
        HeapObj.reg.append(self)


CLOCK = [0]
READ = [None]


def frozen_reader(get):
    """a reader that sees every array as it is now, whenever it is called"""
    CLOCK[0] += 1
    t = CLOCK[0]

    def g(*i):
        old, READ[0] = READ[0], t
        try:
            return get(*i)
        finally:
            READ[0] = old
    return g


class Arr(HeapObj):
    def __init__(self, c, base=None):
        super().__init__()
        self.hist = []
        self.st = c             # ArrC for owners, None for views
        self.base = base        # (parent Arr, fwd, inv, shape)

    @property
    def st(self):
        return self._st

    @st.setter
    def st(self, c):
        CLOCK[0] += 1
        self.hist.append((CLOCK[0], c))
        self._st = c

    @staticmethod
    def of(shape, get, dtype='f', kind='nd'):
        return Arr(ArrC(shape, get, dtype, kind))

    @property
    def c(self):
        if self.base is None:
            st = self._st
            if READ[0] is not None and self.hist[-1][0] > READ[0]:
                st = next((c for t, c in reversed(self.hist) if t <= READ[0]), self.hist[0][1])
            if st.stale:
                raise Unsupported('read of a possibly aliased array: ' + st.stale)
            return st
        par, fwd, inv, shape, kind = self.base
        pc = par.c
        key = ('view', self)
        r = pc.memo.get(key)
        if r is None:
            r = ArrC(shape, lambda *i: pc.get(*fwd(*i)), pc.dtype, kind or pc.kind)
            pc.memo[key] = r
        return r

    @property
    def shape(self):
        return self.base[3] if self.base is not None else self.st.shape

    @property
    def dtype(self):
        return self.c.dtype

    @property
    def kind(self):
        return self.c.kind

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, *idx):
        return self.c.get(*idx)

    def root(self):
        a = self
        while a.base is not None:
            a = a.base[0]
        return a

    def set_content(self, get):
        """overwrite every element (through views)"""
        c = self.c
        self.update(lambda *i: (TRUE, get(*i)))

    def update(self, f):
        """f(*idx) -> (cond, value): new = ite(cond, value, old)"""
        if self.base is None:
            old = self.st
            if getattr(self, 'frozen', None):
                raise Unsupported('in-place write to a merged array')

            def g(*i):
                c, v = f(*i)
                if c is TRUE:
                    return v
                if c is FALSE:
                    return old.get(*i)
                if isinstance(v, Poly):
                    return ite(c, v, old.get(*i))
                if isinstance(v, B):
                    return bite(c, v, old.get(*i))
                raise Unsupported('object array update')
            n = ArrC(old.shape, g, old.dtype, old.kind)
            self.st = n
            for o in getattr(self, 'maybe', ()):
                if o.base is None and o is not self:
                    s = ArrC(o.st.shape, o.st._get, o.st.dtype, o.st.kind)
                    s.stale = 'its possible view was written'
                    o.st = s
            return
        par, fwd, inv, shape, kind = self.base

        def h(*pi):
            c, vi = inv(*pi)
            if c is FALSE:
                return FALSE, None
            c2, v = f(*vi)
            return band(c, c2), v
        par.update(h)

    def view(self, shape, fwd, inv, kind=None):
        return Arr(None, (self, fwd, inv, tuple(P(s) for s in shape), kind))

    def link_maybe(self, other):
        a, b = self.root(), other.root()
        for x, y in ((a, b), (b, a)):
            if not hasattr(x, 'maybe'):
                x.maybe = []
            x.maybe.append(y)

    def __repr__(self):
        return f'Arr{tuple(show(s) for s in self.shape)}:{self.dtype}:{self.kind}'


class OArr(HeapObj):
    """object array with concrete shape"""

    def __init__(self, shape, items=None):
        super().__init__()
        self.shape = tuple(shape)
        self.st = dict(items or {})
        self.base = None

    def __repr__(self):
        return f'OArr{self.shape}'


class Obj(HeapObj):
    def __init__(self, cls, attrs=None, name=None):
        super().__init__()
        self.cls = cls
        self.st = dict(attrs or {})
        self.name = name or getattr(cls, '__name__', 'obj')

    def __repr__(self):
        return f'<Obj {self.name}>'


class PList(HeapObj):
    def __init__(self, items):
        super().__init__()
        self.st = list(items)

    def __repr__(self):
        return f'PList{self.st}'


class PDict(HeapObj):
    def __init__(self, items=None):
        super().__init__()
        self.st = dict(items or {})

    def __repr__(self):
        return f'PDict{self.st}'


class Frame(HeapObj):
    def __init__(self, fname, closure=None):
        super().__init__()
        self.st = {}
        self.fname = fname
        self.closure = closure


class Bound:
    """method of an engine value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f'<bound {self.name} of {self.obj!r}>'


class BoundFn:
    """repo function bound to an object"""

    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class Closure:
    """lambda / nested def"""

    def __init__(self, node, frame, glb, name='<lambda>', defaults=(), kwdefaults=None, fnfile=None):
        self.node, self.frame, self.glb, self.name = node, frame, glb, name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.fnfile = fnfile


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = P(lo), P(hi)

    @property
    def n(self):
        return self.hi - self.lo


class SymSeq:
    """list of symbolic length: the value at the symbolic index i"""
    def __init__(self, n, i, value):
        self.n, self.i, self.value = n, i, value

    def at(self, j):
        sub = {self.i: P(j)}

        def f(v):
            if isinstance(v, SV):
                return SV(subst(v.p, sub), v.kind)
            if isinstance(v, SB):
                return SB(subst(v.b, sub))
            if isinstance(v, Arr):
                c = v.c
                return Arr.of(tuple(subst(d, sub) for d in c.shape), lambda *k: subst(c.get(*k), sub), c.dtype, c.kind)
            if isinstance(v, tuple):
                return tuple(f(x) for x in v)
            return v
        return f(self.value)

    @staticmethod
    def fits(v):
        return isinstance(v, (SV, SB, int, float, Fraction, str)) or v is None or isinstance(v, Arr) and v.c is not None and v.dtype in 'fib' or isinstance(v, tuple) and all(SymSeq.fits(x) for x in v)


def copy_state(o):
    s = o.st
    if isinstance(s, dict):
        return dict(s)
    if isinstance(s, list):
        return list(s)
    return s


def snapshot():
    return [(o, copy_state(o)) for o in HeapObj.reg]


def snapmap():
    return {o: copy_state(o) for o in HeapObj.reg}


def restore(snap):
    items = snap.items() if isinstance(snap, dict) else snap
    for o, s in items:
        o.st = dict(s) if isinstance(s, dict) else list(s) if isinstance(s, list) else s


def num(v):
    """Poly of a numeric value"""
    if isinstance(v, SV):
        return v.p
    if isinstance(v, bool):
        return C(int(v))
    if isinstance(v, SB):
        return iv(v.b)
    if isinstance(v, int):
        return C(v)
    if isinstance(v, (float, Fraction)):
        return P(v)
    raise Unsupported(f'not a number: {v!r}')


def kindof(v):
    if isinstance(v, SV):
        return v.kind
    if isinstance(v, (bool, int, SB)):
        return 'int'
    return 'float'


def isnum(v):
    import numpy as np
    return isinstance(v, (SV, int, float, Fraction, SB)) or isinstance(v, np.generic)
