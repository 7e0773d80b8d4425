"""Semantics of the numpy / scipy / builtin operations used by CADMium (trusted base)."""
import ast, builtins, copy as _copymod, math, types, warnings, sys, time, os
from fractions import Fraction
import numpy as np
import scipy, scipy.sparse, scipy.sparse.linalg, scipy.special, scipy.optimize, scipy.linalg
from .terms import *
from . import terms as T
from . import solve
from .values import *

MODELS = {}


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g
    return deco


# ------------------------------------------------------------------ helpers
def dims(shape):
    return tuple(s.intval() if s.intval() is not None else SV(s, 'int') for s in shape)


def pdim(I, v):
    if isinstance(v, SV) and v.kind != 'int':
        raise PyExc('TypeError', 'float object cannot be interpreted as an integer')
    if isinstance(v, float):
        raise PyExc('TypeError', 'float object cannot be interpreted as an integer')
    if isinstance(v, Arr):
        return aspoly0(v)
    return num(v)


def shape_arg(I, v):
    if isinstance(v, (tuple, PList)):
        seq = v.st if isinstance(v, PList) else v
        return tuple(pdim(I, x) for x in seq)
    return (pdim(I, v),)


def dim_eq(I, a, b):
    if a is b:
        return True
    return I.decide(eq(a, b))


def aspoly0(a):
    if all(s.intval() == 1 for s in a.shape):
        return a.get(*[ZERO for _ in a.shape])
    raise PyExc('TypeError', 'only length-1 arrays can be converted to Python scalars')


def scalar_out(I, p, dtype):
    if dtype == 'b' or isinstance(p, B):
        return SB(p if isinstance(p, B) else bnot(eq0(p)), True)
    k = p.intval()
    if dtype == 'i' and k is not None:
        return k
    if dtype == 'c':
        return SV(p, 'complex')
    return SV(p, 'int' if dtype == 'i' else 'float')


def dt_of(v):
    if isinstance(v, Arr):
        return v.dtype
    if isinstance(v, (bool, SB)):
        return 'b'
    k = kindof(v)
    return {'int': 'i', 'complex': 'c'}.get(k, 'f')


def join_dt(*ds):
    for d in ('o', 'c', 'f', 'i', 'b'):
        if d in ds:
            return d
    return 'f'


def asarr(I, v, dtype=None):
    """array-like -> Arr (not copied)"""
    if isinstance(v, Arr):
        return v
    if isinstance(v, OArr):
        # object array of numbers is not modelled
        raise Unsupported('numeric use of an object array')
    if isinstance(v, (PList, tuple, range)):
        items = v.st if isinstance(v, PList) else list(v)
        return stack_items(I, items, dtype)
    if isinstance(v, SymRange):
        return Arr.of((v.n,), lambda i, lo=v.lo: lo + i, 'i')
    if isinstance(v, SymSeq):
        e = v.value
        if isinstance(e, Arr):
            return Arr.of((v.n,) + e.shape, lambda i, *k: v.at(i).c.get(*k), e.dtype)
        if isnum(e) and not isinstance(e, SB):
            return Arr.of((v.n,), lambda i: num(v.at(i)), dt_of(e))
        raise Unsupported('array from a list of symbolic length')
    if isinstance(v, np.ndarray):
        return from_numpy(v)
    if isnum(v):
        if isinstance(v, np.generic):
            v = I.lift(v)
        if isinstance(v, SB):
            return Arr.of((), lambda: v.b, 'b')
        return Arr.of((), lambda: num(v), dt_of(v) if dt_of(v) != 'b' else 'b')
    if isinstance(v, (OpaqueStr, str)) or v is None:
        raise Unsupported('array of non-numbers')
    raise Unsupported(f'array from {type(v).__name__}')


def stack_items(I, items, dtype=None):
    if not items:
        return Arr.of((ZERO,), lambda i: ZERO, 'f')
    items = [I.lift(x) if isinstance(x, np.generic) else x for x in items]
    if all(isnum(x) for x in items):
        ps = [num(x) for x in items]
        dt = join_dt(*[dt_of(x) for x in items])
        if dt == 'b':
            bs = [x.b if isinstance(x, SB) else mkbool(x) for x in items]
            return Arr.of((C(len(bs)),), lambda i: pickb(bs, i), 'b')
        return Arr.of((C(len(ps)),), lambda i: pick(ps, i), dt)
    if any(x is None or isinstance(x, (str, OpaqueStr, Obj, PDict)) for x in items):
        raise Unsupported('array of non-numbers')
    subs = [asarr(I, x).c for x in items]
    r = len(subs[0].shape)
    for s in subs[1:]:
        if len(s.shape) != r:
            raise PyExc('ValueError', 'inhomogeneous array')
        for a, b in zip(s.shape, subs[0].shape):
            if not dim_eq(I, a, b):
                raise PyExc('ValueError', 'inhomogeneous array')
    dt = join_dt(*[s.dtype for s in subs])

    def g(i, *r):
        if dt == 'b':
            return pickb([s.get(*r) for s in subs], i)
        return pick([asp(s.get(*r)) for s in subs], i)
    return Arr.of((C(len(subs)),) + subs[0].shape, g, dt)


def asp(x):
    return iv(x) if isinstance(x, B) else x


def asb(x):
    return x if isinstance(x, B) else bnot(eq0(x))


def pick(ps, i):
    k = i.intval()
    if k is not None:
        if 0 <= k < len(ps):
            return ps[k]
        return ZERO
    r = ZERO
    for j, p in enumerate(ps):
        r = r + iv(eq(i, C(j))) * p
    return r


def pickb(bs, i):
    k = i.intval()
    if k is not None:
        return bs[k] if 0 <= k < len(bs) else FALSE
    return bor(*[band(eq(i, C(j)), b) for j, b in enumerate(bs)])


def from_numpy(v):
    v = np.array(v)
    if v.dtype == object:
        raise Unsupported('object array constant')
    dt = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c'}[v.dtype.kind]
    if v.ndim == 0:
        x = v.item()
        return Arr.of((), lambda: C(frac(x)), dt)

    def build(a):
        if a.ndim == 1:
            if dt == 'b':
                bs = [mkbool(bool(x)) for x in a]
                return lambda i: pickb(bs, i)
            ps = [C(frac(x.item())) for x in a]
            return lambda i: pick(ps, i)
        subs = [build(x) for x in a]

        def g(i, *r):
            return pick([asp(s(*r)) for s in subs], i)
        return g
    return Arr.of(v.shape, build(v), dt)


def broadcast(I, shapes):
    r = max(len(s) for s in shapes)
    out = []
    for k in range(r):
        d = ONE
        for s in shapes:
            j = k - (r - len(s))
            if j < 0:
                continue
            x = s[j]
            if x is ONE:
                continue
            if d is ONE:
                d = x
            elif d is x or I.ctx.prove(eq(d, x)):
                if d.intval() is None and x.intval() is not None:
                    d = x
            elif I.decide(eq(d, x)):
                pass
            elif I.decide(eq(x, ONE)):
                pass
            elif I.decide(eq(d, ONE)):
                d = x
            else:
                raise PyExc('ValueError', 'operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def bread(I, c, out_shape):
    """reader of content c at an index of the broadcast shape"""
    n, m = len(c.shape), len(out_shape)
    one = []
    for k in range(n):
        s = c.shape[k]
        o = out_shape[m - n + k]
        one.append(s is ONE and o is not ONE or (s is not o and s is not ONE and I.ctx.prove(eq(s, ONE)) and not I.ctx.prove(eq(o, ONE))))

    def g(idx):
        idx = idx[m - n:]
        return c.get(*[ZERO if one[k] else idx[k] for k in range(n)])
    return g


def elementwise(I, f, args, dtype=None, kind=None):
    args = [from_numpy(a) if isinstance(a, np.ndarray) else (I.lift(a) if isinstance(a, np.generic) else a) for a in args]
    args = [asarr(I, a) if isinstance(a, (PList, tuple, range, SymRange, SymSeq)) else a for a in args]
    arrs = [a for a in args if isinstance(a, Arr)]
    if dtype is None:
        dtype = join_dt(*[dt_of(a) for a in args])
        if dtype == 'b':
            dtype = 'i'
    if not arrs:
        r = f(*[argval(a) for a in args])
        return scalar_out(I, r, dtype)
    shape = broadcast(I, [a.shape for a in arrs])
    rd = []
    for a in args:
        if isinstance(a, Arr):
            rd.append(bread(I, a.c, shape))
        else:
            v = argval(a)
            rd.append(lambda idx, v=v: v)
    if kind is None:
        kind = 'mat' if any(a.kind == 'mat' for a in arrs) else ('sp' if all(a.kind == 'sp' for a in arrs) else 'nd')
    if not shape and kind == 'nd':
        return scalar_out(I, f(*[r(()) for r in rd]), dtype)
    mk = None
    for a in arrs:
        if getattr(a, 'maskof', None) is not None:
            mk = a.maskof
    r = Arr.of(shape, lambda *idx: f(*[r(idx) for r in rd]), dtype, kind)
    if mk is not None:
        r.maskof = mk
    return r


def argval(a):
    if isinstance(a, SB):
        return a.b
    if isinstance(a, bool):
        return mkbool(a)
    return num(a)


def num_f(f):
    """lift a Poly function so that booleans are read as 0/1"""
    return lambda *xs: f(*[asp(x) for x in xs])


# ------------------------------------------------------------------ operators
def _pow(a, b):
    c = b.const()
    if c is not None:
        return power(a, c)
    return T.fn('pow', a, b)


def _mod(a, b):
    if a.is_int and b.is_int:
        return imod(a, b)
    return a - b * T.fn('floor', a * power(b, -1))


def _fdiv(a, b):
    if a.is_int and b.is_int:
        return idiv(a, b)
    return T.fn('floor', a * power(b, -1))


OPF = {
    ast.Add: lambda a, b: a + b,
    ast.Sub: lambda a, b: a - b,
    ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b,
    ast.Pow: _pow,
    ast.Mod: _mod,
    ast.FloorDiv: _fdiv,
}


def pyint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def binop(I, op, a, b):
    t = type(op)
    if isinstance(a, np.generic) or isinstance(a, np.ndarray):
        a = I.lift(a)
    if isinstance(b, np.generic) or isinstance(b, np.ndarray):
        b = I.lift(b)
    if isinstance(a, float):
        a = I.lift(a)
    if isinstance(b, float):
        b = I.lift(b)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported((a if isinstance(a, Poison) else b).why)
    # bitwise on booleans
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        f = {ast.BitAnd: lambda x, y: band(asb(x), asb(y)), ast.BitOr: lambda x, y: bor(asb(x), asb(y)),
             ast.BitXor: lambda x, y: bnot(T.biff(asb(x), asb(y)))}[t]
        if isinstance(a, Arr) or isinstance(b, Arr):
            return elementwise(I, f, [a, b], dtype='b')
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            return SB(f(argval(a), argval(b)), True)
        if pyint(a) and pyint(b):
            return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}[t]
        raise Unsupported('bitwise operator')
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and t in (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod, ast.Pow):
        if t in (ast.FloorDiv, ast.Mod) and b == 0:
            raise PyExc('ZeroDivisionError')
        if t is ast.Pow and b < 0:
            return SV(power(C(a), b), 'float')
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b,
                ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[t]()
    if isinstance(a, str) and t is ast.Mod:
        return '<formatted>'
    if isinstance(a, str) and isinstance(b, str) and t is ast.Add:
        return a + b
    if isinstance(a, PList) and isinstance(b, PList) and t is ast.Add:
        return PList(a.st + b.st)
    if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
        return a + b
    if t is ast.Mult and isinstance(a, (PList, tuple)) and not isinstance(b, Arr) and isnum(b):
        k = num(b).intval()
        if k is None:
            p = num(b)
            seq = a.st if isinstance(a, PList) else list(a)
            if len(seq) == 1 and isinstance(a, PList):
                raise Unsupported('symbolic list repetition')
            raise Unsupported('symbolic list repetition')
        return PList(a.st * k) if isinstance(a, PList) else a * k
    if t is ast.Mult and isinstance(b, (PList, tuple)) and isinstance(a, int):
        return binop(I, op, b, a)
    if isinstance(a, (Arr, PList, tuple)) or isinstance(b, (Arr, PList, tuple)):
        if (isinstance(a, (PList, tuple)) or a is None or isinstance(a, (Obj, OArr))) and not isinstance(b, Arr):
            raise PyExc('TypeError', 'unsupported operand types')
        if (isinstance(b, (PList, tuple)) or b is None or isinstance(b, (Obj, OArr))) and not isinstance(a, Arr):
            raise PyExc('TypeError', 'unsupported operand types')
        if a is None or b is None:
            raise PyExc('TypeError', 'unsupported operand types: NoneType')
        a = asarr(I, a) if isinstance(a, (PList, tuple)) else a
        b = asarr(I, b) if isinstance(b, (PList, tuple)) else b
        return arr_binop(I, t, a, b)
    if isinstance(a, OArr) or isinstance(b, OArr):
        raise Unsupported('arithmetic on object arrays')
    if a is None or b is None or isinstance(a, (str, PDict, Obj, OpaqueStr)) or isinstance(b, (str, PDict, Obj, OpaqueStr)):
        if isinstance(a, Obj):
            nm = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.MatMult: '__matmul__', ast.Div: '__truediv__'}.get(t)
            for k in a.cls.__mro__:
                if nm in k.__dict__:
                    return I.call_fn(k.__dict__[nm], [a, b])
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            raise Unsupported('string arithmetic')
        raise PyExc('TypeError', 'unsupported operand types')
    if t not in OPF:
        raise Unsupported(f'operator {t.__name__}')
    x, y = num(a), num(b)
    ka, kb = kindof(a), kindof(b)
    kind = 'complex' if 'complex' in (ka, kb) else ('int' if ka == kb == 'int' else 'float')
    if t is ast.Div:
        if y.const() == 0:
            if isinstance(b, int):
                raise PyExc('ZeroDivisionError')
        kind = 'float' if kind == 'int' else kind
    if t is ast.Pow and kind == 'int' and not (y.const() is not None and y.const() >= 0):
        kind = 'float'
    if t in (ast.Mod, ast.FloorDiv) and kind == 'int':
        c = y.intval()
        if c is None or c < 0:
            if not I.ctx.prove(lt(ZERO, y)):
                if not I.decide(lt(ZERO, y)):
                    raise Unsupported('floor division by a possibly non-positive number')
        old = solve.GLOBAL.a, solve.GLOBAL.aset
        solve.GLOBAL.a, solve.GLOBAL.aset = I.ctx.a, I.ctx.aset
        try:
            r = OPF[t](x, y)
        finally:
            solve.GLOBAL.a, solve.GLOBAL.aset = old
    else:
        r = OPF[t](x, y)
    k = r.intval()
    if kind == 'int' and k is not None:
        return k
    return SV(r, kind)


def matmul(I, a, b):
    if isinstance(a, (PList, tuple)):
        a = asarr(I, a)
    if isinstance(b, (PList, tuple)):
        b = asarr(I, b)
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        if isinstance(a, OArr) or isinstance(b, OArr):
            raise Unsupported('matmul with object arrays')
        raise PyExc('ValueError', 'matmul: input operand does not have enough dimensions')
    ca, cb = a.c, b.c
    na, nb = len(ca.shape), len(cb.shape)
    if na == 0 or nb == 0:
        raise PyExc('ValueError', 'matmul: input operand does not have enough dimensions')
    k = ca.shape[-1]
    k2 = cb.shape[-2] if nb >= 2 else cb.shape[0]
    if not dim_eq(I, k, k2):
        raise PyExc('ValueError', 'matmul: dimension mismatch')
    if na > 2 or nb > 2:
        raise Unsupported('batched matmul')
    if k.intval() is None and k2.intval() is not None:
        k = k2
    dt = join_dt(ca.dtype, cb.dtype)
    if na == 1 and nb == 1:
        return scalar_out(I, sum_(k, lambda q: asp(ca.get(q)) * asp(cb.get(q))), dt)
    kind = 'sp' if ca.kind == cb.kind == 'sp' else ('mat' if 'mat' in (ca.kind, cb.kind) else 'nd')
    if na == 2 and nb == 2:
        return Arr.of((ca.shape[0], cb.shape[1]), lambda i, j: sum_(k, lambda q: asp(ca.get(i, q)) * asp(cb.get(q, j))), dt, kind)
    if na == 2:
        if kind == 'mat':
            return Arr.of((ONE, ca.shape[0]), lambda z, i: sum_(k, lambda q: asp(ca.get(i, q)) * asp(cb.get(q))), dt, 'mat')
        return Arr.of((ca.shape[0],), lambda i: sum_(k, lambda q: asp(ca.get(i, q)) * asp(cb.get(q))), dt)
    if kind == 'mat':
        return Arr.of((ONE, cb.shape[1]), lambda z, j: sum_(k, lambda q: asp(ca.get(q)) * asp(cb.get(q, j))), dt, 'mat')
    return Arr.of((cb.shape[1],), lambda j: sum_(k, lambda q: asp(ca.get(q)) * asp(cb.get(q, j))), dt)


def arr_binop(I, t, a, b):
    ka = a.kind if isinstance(a, Arr) else None
    kb = b.kind if isinstance(b, Arr) else None
    if t is ast.MatMult:
        return matmul(I, a, b)
    if t is ast.Mult and ('sp' in (ka, kb) or 'mat' in (ka, kb)):
        if isinstance(a, Arr) and isinstance(b, Arr) and not (len(a.shape) == 0 or len(b.shape) == 0):
            return matmul(I, a, b)
        return elementwise(I, num_f(OPF[t]), [a, b], kind=ka or kb)
    if t is ast.Pow and ka in ('sp', 'mat'):
        k = num(b).intval() if not isinstance(b, Arr) else None
        if k is None or k < 1:
            raise Unsupported('matrix power')
        r = a
        for _ in range(k - 1):
            r = matmul(I, r, a)
        return r
    if t is ast.Div and ka == 'sp' and not isinstance(b, Arr):
        return elementwise(I, num_f(OPF[t]), [a, b], dtype='f', kind='sp')
    kind = None
    if 'sp' in (ka, kb) and ka != kb:
        if t in (ast.Add, ast.Sub):
            o = b if ka == 'sp' else a
            if not isinstance(o, Arr):
                if num(o).const() == 0:
                    return elementwise(I, num_f(OPF[t]), [a, b], kind='sp')
                raise PyExc('NotImplementedError', 'adding a nonzero scalar to a sparse matrix is not supported')
            kind = 'mat'
        elif t is ast.Div and ka == 'sp':
            kind = 'sp'
        else:
            raise Unsupported('sparse operand')
    if t not in OPF:
        raise Unsupported(f'array operator {t.__name__}')
    dt = None
    if t is ast.Div:
        dt = join_dt(dt_of(a), dt_of(b))
        dt = dt if dt in 'cf' else 'f'
    if t is ast.Pow and dt_of(a) == 'i' and not isinstance(b, Arr):
        c = num(b).const()
        if c is not None and c < 0:
            raise PyExc('ValueError', 'Integers to negative integer powers are not allowed.')
    f = OPF[t]
    if t in (ast.Mod, ast.FloorDiv):
        ctx = I.ctx

        def f(x, y, g=OPF[t]):
            old = solve.GLOBAL.a, solve.GLOBAL.aset
            solve.GLOBAL.a, solve.GLOBAL.aset = ctx.a, ctx.aset
            try:
                return g(x, y)
            finally:
                solve.GLOBAL.a, solve.GLOBAL.aset = old
    return elementwise(I, num_f(f), [a, b], dtype=dt, kind=kind)


def iop(I, op, a, b):
    if isinstance(a, np.ndarray):
        a = I.lift(a)
    if isinstance(a, Arr) and a.kind in ('nd', 'mat') and not isinstance(op, ast.MatMult):
        if a.kind == 'mat' and isinstance(op, ast.Mult):
            return binop(I, op, a, b)
        if isinstance(b, (OArr, Obj)) or b is None:
            raise PyExc('TypeError', 'unsupported operand')
        if len(a.shape) == 0:
            return binop(I, op, a, b)
        if isinstance(b, Arr) and b.kind == 'sp':
            return binop(I, op, a, b)
        r = binop(I, op, a, b)
        dt = dt_of(r)
        if a.dtype in 'ib' and dt in 'fc' and a.dtype != dt:
            raise PyExc('UFuncTypeError', 'Cannot cast ufunc output', cls=TypeError)
        if a.dtype == 'f' and dt == 'c':
            raise PyExc('UFuncTypeError', 'Cannot cast ufunc output', cls=TypeError)
        if len(r.shape) != len(a.shape):
            raise PyExc('ValueError', 'non-broadcastable output operand')
        for x, y in zip(r.shape, a.shape):
            if x is not y and not dim_eq(I, x, y):
                raise PyExc('ValueError', 'non-broadcastable output operand')
        if getattr(a, 'maskof', None) is not None:
            return r
        rc = r.c
        a.update(lambda *i: (TRUE, rc.get(*i)))
        return a
    if isinstance(a, PList) and isinstance(op, ast.Add):
        a.st.extend(I.iterate(b))
        return a
    return binop(I, op, a, b)


CMP = {ast.Eq: lambda a, b: eq(a, b), ast.NotEq: lambda a, b: ne(a, b), ast.Lt: lambda a, b: lt(a, b),
       ast.LtE: lambda a, b: le(a, b), ast.Gt: lambda a, b: lt(b, a), ast.GtE: lambda a, b: le(b, a)}


def pyeq(I, a, b):
    """== on non-array values -> bool or B"""
    if a is b:
        return True
    if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
        if isinstance(a, OpaqueStr) and isinstance(b, OpaqueStr):
            if a.name == b.name and a.lowered == b.lowered:
                return True
            raise Unsupported('comparison of opaque strings')
        return False
    if isnum(a) and isnum(b):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a == b
        if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
            r = T.biff(argval(a), argval(b))
            return True if r is TRUE else False if r is FALSE else r
        r = eq(num(a), num(b))
        return True if r is TRUE else False if r is FALSE else r
    if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        x = a.st if isinstance(a, PList) else a
        y = b.st if isinstance(b, PList) else b
        if len(x) != len(y):
            return False
        acc = TRUE
        for p, q in zip(x, y):
            r = pyeq(I, p, q)
            r = mkbool(r) if isinstance(r, bool) else r
            acc = band(acc, r)
        return True if acc is TRUE else False if acc is FALSE else acc
    if isinstance(a, PDict) and isinstance(b, PDict):
        if set(a.st) != set(b.st):
            return False
        acc = TRUE
        for k in a.st:
            r = pyeq(I, a.st[k], b.st[k])
            acc = band(acc, mkbool(r) if isinstance(r, bool) else r)
        return True if acc is TRUE else False if acc is FALSE else acc
    if a is None or b is None:
        return False
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (Obj, Opaque)) or isinstance(b, (Obj, Opaque)):
        if isinstance(a, Obj) and a.cls.__eq__ is not object.__eq__ and isinstance(b, Obj):
            import dataclasses
            raise Unsupported('object comparison')
        return False
    try:
        return bool(a == b)
    except Exception:
        raise Unsupported('comparison')


def compare(I, op, a, b):
    t = type(op)
    if isinstance(a, (np.generic, np.ndarray)) or isinstance(a, float):
        a = I.lift(a)
    if isinstance(b, (np.generic, np.ndarray)) or isinstance(b, float):
        b = I.lift(b)
    if t in (ast.Is, ast.IsNot):
        r = py_is(I, a, b)
        if isinstance(r, bool):
            return r if t is ast.Is else not r
        return SB(r if t is ast.Is else bnot(r))
    if t in (ast.In, ast.NotIn):
        if isinstance(b, PDict):
            r = False
            for k in b.st:
                if pyeq(I, a, k) is True:
                    r = True
        elif isinstance(b, str):
            if isinstance(a, OpaqueStr):
                raise Unsupported('substring of opaque string')
            r = a in b
        elif isinstance(b, Arr):
            raise Unsupported('in array')
        else:
            acc = FALSE
            for x in I.iterate(b):
                r = pyeq(I, a, x)
                acc = bor(acc, mkbool(r) if isinstance(r, bool) else r)
            r = True if acc is TRUE else False if acc is FALSE else acc
        if isinstance(r, bool):
            return r if t is ast.In else not r
        return SB(r if t is ast.In else bnot(r))
    if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr) or isinstance(a, str) or isinstance(b, str):
        if t in (ast.Eq, ast.NotEq):
            r = pyeq(I, a, b)
            return r if t is ast.Eq else not r
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
        raise PyExc('TypeError', 'comparison of str')
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None:
            if t in (ast.Eq, ast.NotEq):
                return elementwise(I, lambda x: mkbool(t is ast.NotEq), [a if a is not None else b], dtype='b')
            raise PyExc('TypeError', 'comparison with None')
        return elementwise(I, num_f(CMP[t]), [a, b], dtype='b')
    if t in (ast.Eq, ast.NotEq) and not (isnum(a) and isnum(b)):
        if isinstance(a, OArr) or isinstance(b, OArr):
            raise Unsupported('comparison of object arrays')
        r = pyeq(I, a, b)
        if isinstance(r, bool):
            return r if t is ast.Eq else not r
        return SB(r if t is ast.Eq else bnot(r))
    if not (isnum(a) and isnum(b)):
        if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
            raise Unsupported('ordering of sequences')
        raise PyExc('TypeError', 'comparison not supported')
    if 'complex' in (kindof(a), kindof(b)) and t not in (ast.Eq, ast.NotEq):
        raise Unsupported('ordering of complex numbers')
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)) and t in (ast.Eq, ast.NotEq):
        r = T.biff(argval(a), argval(b))
        r = r if t is ast.Eq else bnot(r)
    else:
        r = CMP[t](num(a), num(b))
    if r is TRUE:
        return True
    if r is FALSE:
        return False
    return SB(r, kindof(a) == 'float' and isinstance(a, SV) or kindof(b) == 'float' and isinstance(b, SV))


def py_is(I, a, b):
    for x, y in ((a, b), (b, a)):
        if y is None:
            return x is None
        if y is True or y is False:
            if isinstance(x, bool):
                return x is y
            if isinstance(x, SB):
                if x.np:
                    return False
                return x.b if y else bnot(x.b)
            return False
    if isinstance(a, (Obj, Arr, OArr, PList, PDict)) or isinstance(b, (Obj, Arr, OArr, PList, PDict)):
        return a is b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
        return False
    if pyint(a) and pyint(b):
        return a == b
    if isinstance(a, (SV,)) or isinstance(b, SV):
        return a is b
    return a is b


# ------------------------------------------------------------------ indexing
class FullSlice:
    pass


def norm_int(I, i, n, what='index'):
    """normalise an integer index into [0,n)"""
    if isinstance(i, (bool, SB)):
        raise Unsupported('boolean scalar index')
    if isinstance(i, SV) and i.kind != 'int' or isinstance(i, (float,)):
        raise PyExc('IndexError', 'only integers are valid indices')
    p = num(i)
    k, m = p.intval(), n.intval()
    if k is not None and m is not None:
        if not -m <= k < m:
            raise PyExc('IndexError', f'index {k} is out of bounds for axis with size {m}')
        return C(k % m)
    if k is not None and k < 0:
        if not I.decide(le(C(-k), n)):
            raise PyExc('IndexError', 'index out of bounds')
        return n + p
    if I.ctx.prove(band(le(ZERO, p), lt(p, n))):
        return p
    if I.ctx.prove(band(lt(p, ZERO), le(ZERO, n + p))):
        return n + p
    if I.decide(band(le(ZERO, p), lt(p, n))):
        return p
    if I.decide(band(lt(p, ZERO), le(ZERO, n + p))):
        return n + p
    raise PyExc('IndexError', 'index out of bounds')


def norm_slice(I, s, n):
    """-> (lo, length, step)"""
    st = s.step
    step = 1 if st is None else num(st).intval()
    if step is None or step == 0:
        raise Unsupported('slice step')

    def bound(x, default):
        if x is None:
            return default
        if isinstance(x, SV) and x.kind != 'int':
            raise PyExc('TypeError', 'slice indices must be integers')
        p = num(x)
        k, m = p.intval(), n.intval()
        if k is not None and m is not None:
            return C(max(0, min(m, k if k >= 0 else m + k)))
        if k is not None and k < 0 or (k is None and I.ctx.prove(lt(p, ZERO))):
            return (n + p) if I.decide(le(ZERO, n + p)) else ZERO
        if k is None and not I.ctx.prove(le(ZERO, p)):
            if not I.decide(le(ZERO, p)):
                return (n + p) if I.decide(le(ZERO, n + p)) else ZERO
        return p if I.decide(le(p, n)) else n
    if step > 0:
        lo, hi = bound(s.start, ZERO), bound(s.stop, n)
        ln = hi - lo
        if step == 1:
            if ln.intval() is not None:
                ln = C(max(0, ln.intval()))
            elif not I.decide(le(ZERO, ln)):
                ln = ZERO
            return lo, ln, 1
        q = ln + C(step - 1)
        if q.intval() is not None:
            return lo, C(max(0, q.intval() // step)), step
        if not I.decide(le(ZERO, ln)):
            return lo, ZERO, step
        return lo, idiv(q, C(step)), step
    if s.start is None and s.stop is None:
        if step == -1:
            return n - 1, n, -1
    m = n.intval()
    a = num(s.start).intval() if s.start is not None else None
    b = num(s.stop).intval() if s.stop is not None else None
    if m is not None and (s.start is None or a is not None) and (s.stop is None or b is not None):
        r = range(*slice(a, b, step).indices(m))
        return C(r.start), C(len(r)), step
    if step == -1 and s.stop is None:
        a2 = norm_int(I, s.start, n)
        return a2, a2 + 1, -1
    raise Unsupported('negative slice step')


def expand_index(I, v_ndim, idx):
    idx = list(idx) if isinstance(idx, tuple) else [idx]
    cnt = 0
    for x in idx:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, Arr) and x.dtype == 'b':
            cnt += len(x.shape)
        else:
            cnt += 1
    if cnt > v_ndim:
        raise PyExc('IndexError', 'too many indices for array')
    if any(x is Ellipsis for x in idx):
        k = [i for i, x in enumerate(idx) if x is Ellipsis][0]
        idx = idx[:k] + [slice(None)] * (v_ndim - cnt) + idx[k + 1:]
    else:
        idx = idx + [slice(None)] * (v_ndim - cnt)
    return idx


def is_adv(x):
    return isinstance(x, (Arr, PList, range, SymRange, SymSeq, np.ndarray)) or isinstance(x, tuple)


def prep_index(I, v, idx):
    """-> ('basic', shape, fwd, inv) | ('adv', shape, fwd, entries) | ('mask', mask)"""
    out = []
    if isinstance(idx, PList):
        idx = asarr(I, idx)
    if isinstance(idx, tuple):
        idx = tuple(asarr(I, x) if isinstance(x, (PList, range, SymRange, SymSeq, np.ndarray)) else x for x in idx)
    if isinstance(idx, np.generic):
        idx = I.lift(idx)
    if isinstance(idx, Arr) and len(idx.shape) == 0:
        idx = scalar_out(I, idx.get(), idx.dtype)
    if isinstance(idx, Arr) and idx.dtype == 'b':
        return ('mask', idx)
    if isinstance(idx, tuple) and any(isinstance(x, Arr) and x.dtype == 'b' for x in idx):
        if len(idx) == 2 and isinstance(idx[0], Arr) and isinstance(idx[1], slice) and idx[1] == slice(None) and len(idx[0].shape) == 1:
            return ('maskrow', idx[0])
        raise Unsupported('mixed mask index')
    ix = expand_index(I, len(v.shape), idx)
    entries = []        # per index item: ('int', p, axis) ('slice', lo, ln, step, axis) ('new',) ('arr', c, axis)
    ax = 0
    for x in ix:
        if x is None:
            entries.append(('new',))
            continue
        if isinstance(x, np.generic):
            x = I.lift(x)
        if isinstance(x, Arr) and len(x.shape) == 0:
            x = scalar_out(I, x.get(), x.dtype)
        n = v.shape[ax]
        if isinstance(x, slice):
            lo, ln, step = norm_slice(I, x, n)
            entries.append(('slice', lo, ln, step, ax))
        elif isinstance(x, Arr):
            if x.dtype != 'i':
                raise PyExc('IndexError', 'arrays used as indices must be of integer (or boolean) type')
            entries.append(('arr', x.c, ax))
        elif isnum(x):
            entries.append(('int', norm_int(I, x, n), ax))
        else:
            if x is None or isinstance(x, (str, Obj)):
                raise PyExc('IndexError', 'only integers, slices are valid indices')
            raise Unsupported('index kind')
        ax += 1
    nax = len(v.shape)
    advs = [e for e in entries if e[0] == 'arr']
    if not advs:
        shape = []
        for e in entries:
            if e[0] == 'slice':
                shape.append(e[2])
            elif e[0] == 'new':
                shape.append(ONE)

        def fwd(*o):
            r = [None] * nax
            k = 0
            for e in entries:
                if e[0] == 'int':
                    r[e[2]] = e[1]
                elif e[0] == 'slice':
                    r[e[4]] = e[1] + C(e[3]) * o[k]
                    k += 1
                else:
                    k += 1
            return r

        def inv(*p):
            c = TRUE
            r = []
            for e in entries:
                if e[0] == 'int':
                    c = band(c, eq(p[e[2]], e[1]))
                elif e[0] == 'slice':
                    x = p[e[4]]
                    n = v.shape[e[4]]
                    if e[3] == 1:
                        q = x - e[1]
                        if e[1] is not ZERO:
                            c = band(c, le(e[1], x))
                        if e[1] is not ZERO or e[2] is not n:
                            c = band(c, lt(q, e[2]))
                    elif e[3] == -1:
                        q = e[1] - x
                        if not (e[2] is n):
                            c = band(c, le(ZERO, q), lt(q, e[2]))
                    else:
                        d = x - e[1]
                        q = idiv(d, C(abs(e[3]))) if e[3] > 0 else idiv(ZERO - d, C(abs(e[3])))
                        c = band(c, eq(C(e[3]) * q, d), le(ZERO, q), lt(q, e[2]))
                    r.append(q)
                else:
                    r.append(ZERO)
            return c, r
        return ('basic', tuple(shape), fwd, inv)
    # advanced
    ints = [e for e in entries if e[0] == 'int']
    bshape = broadcast(I, [e[1].shape for e in advs])
    rds = {id(e): bread(I, e[1], bshape) for e in advs}
    pos = [i for i, e in enumerate(entries) if e[0] in ('arr', 'int')]
    contiguous = all(b - a == 1 for a, b in zip(pos, pos[1:]))
    if any(e[0] == 'new' for e in entries):
        raise Unsupported('newaxis with advanced index')
    before = [e for i, e in enumerate(entries) if e[0] == 'slice' and (contiguous and i < pos[0])]
    after = [e for e in entries if e[0] == 'slice' and e not in before]
    shape = tuple(e[2] for e in before) + bshape + tuple(e[2] for e in after)
    nb = len(bshape)
    # bounds: negative index normalisation
    facts = {}
    for e in advs:
        vs = [fresh('ax', 'int', (ZERO, s)) for s in e[1].shape]
        p = e[1].get(*vs)
        n = v.shape[e[2]]
        ctx = I.ctx.with_(*[band(le(ZERO, x), lt(x, s)) for x, s in zip(vs, e[1].shape)])
        if ctx.prove(band(le(ZERO, p), lt(p, n))):
            facts[id(e)] = 0
        else:
            facts[id(e)] = 1
            if not ctx.prove(band(le(ZERO, p + n), lt(p, n))):
                raise Unsupported('advanced index bounds')

    def advidx(e, o):
        p = rds[id(e)](o)
        if facts[id(e)]:
            p = ite(le(ZERO, p), p, p + v.shape[e[2]])
        return p

    def fwd(*o):
        r = [None] * nax
        b = o[len(before):len(before) + nb]
        for e, x in zip(before, o):
            r[e[4]] = e[1] + C(e[3]) * x
        for e, x in zip(after, o[len(before) + nb:]):
            r[e[4]] = e[1] + C(e[3]) * x
        for e in ints:
            r[e[2]] = e[1]
        for e in advs:
            r[e[2]] = advidx(e, b)
        return r
    return ('adv', shape, fwd, (before, after, ints, advs, bshape, advidx))


def getitem(I, v, idx):
    if isinstance(v, OArr):
        return oget(I, v, idx)
    if v.dtype == 'o':
        raise Unsupported('object content')
    r = prep_index(I, v, idx)
    if r[0] == 'mask':
        m = r[1]
        a = Arr(v.c)
        if len(m.shape) != len(v.shape):
            raise Unsupported('partial mask')
        a.maskof = m.c
        return a
    if r[0] == 'maskrow':
        raise Unsupported('row mask read')
    _, shape, fwd, inv = r
    if r[0] == 'basic':
        if not shape and not (v.kind in ('sp', 'mat') and False):
            return scalar_out(I, v.get(*fwd()), v.dtype)
        if v.kind in ('sp', 'mat'):
            # integer indexing of a matrix keeps two dimensions
            if len(shape) == 1:
                ix = expand_index(I, 2, idx)
                c = v.c
                if not isinstance(ix[0], slice):
                    return Arr.of((ONE, shape[0]), lambda a, b: c.get(*fwd(b)), c.dtype, c.kind)
                return Arr.of((shape[0], ONE), lambda a, b: c.get(*fwd(a)), c.dtype, c.kind)
            if v.kind == 'sp':
                c = v.c
                return Arr.of(shape, lambda *o: c.get(*fwd(*o)), c.dtype, c.kind)
        return v.view(shape, fwd, inv)
    c = v.c
    return Arr.of(shape, lambda *o: c.get(*fwd(*o)), c.dtype, c.kind)


def value_reader(I, x, shape, dtype):
    """reader of x broadcast to `shape` (for assignment)"""
    if isinstance(x, (PList, tuple, range, SymRange, SymSeq, np.ndarray)):
        x = asarr(I, x)
    if isinstance(x, Arr):
        if x.dtype == 'c' and dtype != 'c':
            pass        # numpy warns and discards the imaginary part; callers model .real explicitly
        xs = list(x.shape)
        while len(xs) > len(shape) and xs[0] is ONE:
            xs = xs[1:]
        drop = len(x.shape) - len(xs)
        if len(xs) > len(shape):
            raise PyExc('ValueError', 'could not broadcast input array')
        c = x.c
        one = []
        for k, s in enumerate(xs):
            o = shape[len(shape) - len(xs) + k]
            if s is o:
                one.append(False)
            elif s is ONE:
                one.append(True)
            elif dim_eq(I, s, o):
                one.append(False)
            elif dim_eq(I, s, ONE):
                one.append(True)
            else:
                raise PyExc('ValueError', 'could not broadcast input array into shape')
        n = len(xs)

        def rd(idx):
            idx = idx[len(idx) - n:] if n else ()
            return c.get(*([ZERO] * drop + [ZERO if one[k] else idx[k] for k in range(n)]))
        return rd
    if isinstance(x, np.generic):
        x = I.lift(x)
    if isinstance(x, (str, OpaqueStr, Obj, PDict, OArr)):
        raise PyExc('ValueError', 'could not convert to float')
    if x is None:
        x = SV(sym('NAN', 'real'), 'float') if dtype == 'f' else None
        if x is None:
            raise PyExc('TypeError', 'None to integer')
    v = argval(x)
    return lambda idx: v


def setitem(I, v, idx, x):
    if isinstance(v, OArr):
        return oset(I, v, idx, x)
    if v.kind == 'sp':
        pass
    if getattr(x, 'maskof', None) is None and isinstance(x, Arr) and x is v:
        x = Arr(v.c)
    r = prep_index(I, v, idx)
    dt = v.dtype

    def cv(p):
        if dt == 'b':
            return asb(p)
        p = asp(p)
        if dt == 'i' and not p.is_int:
            p = trunc(I, p)
        return p
    if r[0] == 'mask':
        m = r[1].c
        if len(m.shape) != len(v.shape):
            raise Unsupported('partial mask write')
        for a, b in zip(m.shape, v.shape):
            if not dim_eq(I, a, b):
                raise PyExc('IndexError', 'boolean index did not match')
        if isinstance(x, Arr) and len(x.shape) > 0:
            if getattr(x, 'maskof', None) is None:
                raise Unsupported('mask write of an array')
            xm = x.maskof
            vs = [fresh('mk', 'int', (ZERO, s)) for s in m.shape]
            if xm is not m and m.get(*vs) is not xm.get(*vs):
                raise Unsupported('mask write with a different mask')
            xc = x.c
            v.update(lambda *i: (m.get(*i), cv(xc.get(*i))))
            return
        rd = value_reader(I, x, (), dt)
        v.update(lambda *i: (m.get(*i), cv(rd(()))))
        return
    if r[0] == 'maskrow':
        m = r[1].c
        rd = value_reader(I, x, (), dt)
        v.update(lambda *i: (m.get(i[0]), cv(rd(()))))
        return
    _, shape, fwd, inv = r
    rd = value_reader(I, x, shape, dt)
    if r[0] == 'basic':
        def f(*p):
            c, o = inv(*p)
            if c is FALSE:
                return FALSE, None
            return c, cv(rd(tuple(o)))
        v.update(f)
        return
    before, after, ints, advs, bshape, advidx = inv
    nb = len(bshape)
    total = 1
    for s in bshape:
        k = s.intval()
        total = None if (total is None or k is None) else total * k
    if total is not None and total <= 32:
        from itertools import product
        for o in product(*[range(s.intval()) for s in bshape]):
            ob = tuple(C(k) for k in o)
            tgt = {e[2]: advidx(e, ob) for e in advs}

            def f(*p, ob=ob, tgt=tgt):
                c = TRUE
                for ax, q in tgt.items():
                    c = band(c, eq(p[ax], q))
                for e in ints:
                    c = band(c, eq(p[e[2]], e[1]))
                ib, ia = [], []
                for e, dst in [(e, ib) for e in before] + [(e, ia) for e in after]:
                    if e[3] != 1:
                        raise Unsupported('strided advanced write')
                    q = p[e[4]] - e[1]
                    c = band(c, le(ZERO, q), lt(q, e[2]))
                    dst.append(q)
                if c is FALSE:
                    return FALSE, None
                return c, cv(rd(tuple(ib) + ob + tuple(ia)))
            v.update(f)
        return
    # symbolic: a single 1-D affine index array (possibly with constant companions)
    if nb != 1:
        raise Unsupported('advanced write')
    j = fresh('aw', 'int', (ZERO, bshape[0]))
    ja = atom_of(j)
    sol = None
    conds = []
    for e in advs:
        p = advidx(e, (j,))
        lc = T._lin_coeff(p, ja)
        if lc is None or lc[0] not in (1, -1, 0):
            raise Unsupported('non-affine advanced write')
        conds.append((e[2], lc))
    if any(e[3] != 1 for e in before + after):
        raise Unsupported('strided advanced write')

    def f(*p):
        jj = None
        c = TRUE
        for ax, (k, r0) in conds:
            if k != 0 and jj is None:
                jj = (p[ax] - r0) * C(1 / k)
        if jj is None:
            raise Unsupported('constant advanced write')
        for ax, (k, r0) in conds:
            c = band(c, eq(p[ax], C(k) * jj + r0))
        for e in ints:
            c = band(c, eq(p[e[2]], e[1]))
        c = band(c, le(ZERO, jj), lt(jj, bshape[0]))
        ib, ia = [], []
        for e, dst in [(e, ib) for e in before] + [(e, ia) for e in after]:
            q = p[e[4]] - e[1]
            c = band(c, le(ZERO, q), lt(q, e[2]))
            dst.append(q)
        if c is FALSE:
            return FALSE, None
        return c, cv(rd(tuple(ib) + (jj,) + tuple(ia)))
    v.update(f)


def oget(I, v, idx):
    ks = idx if isinstance(idx, tuple) else (idx,)
    if len(v.shape) == 1 and len(ks) == 2 and ks[0] == slice(None) and ks[1] is None:
        r = OArr((v.shape[0], 1), {(k, 0): v.st.get((k,)) for k in range(v.shape[0])})
        r.oview = True
        return r
    if len(ks) <= len(v.shape) and sum(isinstance(k, (list, PList)) for k in ks) == 1 and any(isinstance(k, slice) for k in ks):
        # one list of positions: a copy
        sel = [[oidx(I, q, n) for q in (k.st if isinstance(k, PList) else k)] if isinstance(k, (list, PList)) else None for k, n in zip(ks, v.shape)]
        full = oget(I, v, tuple(slice(None) if isinstance(k, (list, PList)) else k for k in ks))
        ax = sum(isinstance(k, slice) for k in ks[:next(i for i, q in enumerate(sel) if q is not None)])
        pos = next(q for q in sel if q is not None)
        shape = full.shape[:ax] + (len(pos),) + full.shape[ax + 1:]
        from itertools import product
        return OArr(shape, {o: full.st.get(o[:ax] + (pos[o[ax]],) + o[ax + 1:]) for o in product(*[range(n) for n in shape])})
    if any(isinstance(k, slice) for k in ks) or len(ks) < len(v.shape):
        ks = list(ks) + [slice(None)] * (len(v.shape) - len(ks))
        axes = []
        for k, n in zip(ks, v.shape):
            if isinstance(k, slice):
                axes.append(list(range(*slice(*[None if q is None else num(q).intval() for q in (k.start, k.stop, k.step)]).indices(n))))
            else:
                axes.append(oidx(I, k, n))
        shape = tuple(len(a) for a in axes if isinstance(a, list))
        from itertools import product
        out = {}
        for o in product(*[range(s) for s in shape]):
            it = iter(o)
            src = tuple(a[next(it)] if isinstance(a, list) else a for a in axes)
            out[o] = v.st.get(src)
        r = OArr(shape, out)
        r.oview = True
        return r
    if len(ks) > len(v.shape):
        raise PyExc('IndexError', 'too many indices')
    key = tuple(oidx(I, k, n) for k, n in zip(ks, v.shape))
    x = v.st.get(key)
    if isinstance(x, Poison):
        raise Unsupported(x.why)
    return x


def oidx(I, k, n):
    if isinstance(k, SV) and k.kind != 'int':
        raise PyExc('IndexError', 'only integers are valid indices')
    if not isnum(k):
        raise Unsupported('object array index')
    q = num(k).intval()
    if q is None:
        q = I.small_int(num(k))
    if q is None:
        raise Unsupported('symbolic object array index')
    if not -n <= q < n:
        raise PyExc('IndexError', 'index out of bounds')
    return q % n


def oset(I, v, idx, x):
    if getattr(v, 'oview', False):
        raise Unsupported('write through an object array view')
    ks = idx if isinstance(idx, tuple) else (idx,)
    if any(isinstance(k, slice) for k in ks) or len(ks) < len(v.shape):
        from itertools import product
        ks = list(ks) + [slice(None)] * (len(v.shape) - len(ks))
        axes = [list(range(n))[slice(*[None if q is None else num(q).intval() for q in (k.start, k.stop, k.step)])] if isinstance(k, slice) else [oidx(I, k, n)] for k, n in zip(ks, v.shape)]
        if isinstance(x, OArr):
            lens = tuple(len(a) for k, a in zip(ks, axes) if isinstance(k, slice))
            if x.shape != lens:
                raise Unsupported('object array slice write with another shape')
            vals = [x.st[i if len(i) > 1 or i not in x.st and i[0] not in x.st else i if i in x.st else i[0]] for i in product(*[range(n) for n in lens])]
            for i, y in zip(product(*axes), vals):
                v.st[i if len(i) > 1 else i[0]] = y
            return
        if isinstance(x, (Arr, PList, tuple)):
            raise Unsupported('object array slice write')
        for o in product(*axes):
            v.st[o] = x
        return
    v.st[tuple(oidx(I, k, n) for k, n in zip(ks, v.shape))] = x


# ------------------------------------------------------------------ attributes and methods
def getattr_(I, v, name):
    if isinstance(v, Arr):
        if name == 'shape':
            return dims(v.shape)
        if name == 'ndim':
            return len(v.shape)
        if name == 'size':
            r = ONE
            for s in v.shape:
                r = r * s
            return I.mkint(r)
        if name == 'T':
            return transpose(I, v)
        if name == 'real':
            if v.dtype != 'c':
                return v
            c = v.c
            return Arr.of(c.shape, lambda *i: c.get(*i), 'f', c.kind)
        if name == 'imag':
            raise Unsupported('imaginary part')
        if name == 'A':
            if v.kind == 'nd':
                raise PyExc('AttributeError', "'numpy.ndarray' object has no attribute 'A'")
            return Arr(ArrC(v.shape, v.c.get, v.dtype, 'nd'))
        if name == 'A1':
            return flatten(I, v)
        if name == 'dtype':
            return np.dtype({'f': float, 'i': int, 'b': bool, 'c': complex}[v.dtype])
        if name == 'nnz':
            raise Unsupported('nnz')
        if name == 'flat':
            return flatten(I, v)
        return Bound(v, name)
    if isinstance(v, OArr):
        if name == 'shape':
            return tuple(v.shape)
        if name == 'ndim':
            return len(v.shape)
        if name == 'size':
            r = 1
            for s in v.shape:
                r *= s
            return r
        return Bound(v, name)
    if isinstance(v, (SV, SB)) or isnum(v):
        if name == 'real':
            return SV(v.p, 'float') if isinstance(v, SV) and v.kind == 'complex' else v
        if name == 'imag':
            if not (isinstance(v, SV) and v.kind == 'complex'):
                return 0
            raise Unsupported('imaginary part')
        if name in ('sum', 'copy', 'item', 'max', 'min', 'all', 'any', 'conjugate', 'astype', 'is_integer', 'flatten', 'mean', 'conj', 'reshape', 'ravel', 'round', 'squeeze'):
            return Bound(v, name)
        if name == 'shape':
            if isinstance(v, int):
                raise PyExc('AttributeError', 'int has no shape')
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name == 'T':
            return v
        raise PyExc('AttributeError', name)
    if isinstance(v, str) and not hasattr(v, name):
        raise PyExc('AttributeError', name)
    if isinstance(v, PList) and not hasattr(list, name):
        raise PyExc('AttributeError', f"'list' object has no attribute {name!r}")
    if isinstance(v, PDict) and not hasattr(dict, name):
        raise PyExc('AttributeError', f"'dict' object has no attribute {name!r}")
    if isinstance(v, tuple) and not hasattr(tuple, name):
        raise PyExc('AttributeError', f"'tuple' object has no attribute {name!r}")
    return Bound(v, name)


def transpose(I, v):
    n = len(v.shape)
    if n < 2:
        return v
    if v.kind == 'sp':
        c = v.c
        return Arr.of(tuple(reversed(c.shape)), lambda *i: c.get(*reversed(i)), c.dtype, 'sp')
    return v.view(tuple(reversed(v.shape)), lambda *i: tuple(reversed(i)), lambda *i: (TRUE, tuple(reversed(i))))


def call_method(I, o, name, args, kw):
    if isinstance(o, Opaque):
        h = getattr(o, 'methods', None)
        if h is not None:
            if name not in h:
                raise PyExc('AttributeError', name)
            return h[name](I, *args, **kw)
        return Opaque(f'{o.what}.{name}')
    if isinstance(o, Obj):
        if name == 'dict':
            return PDict({k: x for k, x in o.st.items()})
        if name == 'copy':
            return Obj(o.cls, dict(o.st), o.name)
        raise Unsupported(f'method {name}')
    if isinstance(o, Arr):
        m = ARR_METHODS.get(name)
        if m is None:
            raise Unsupported(f'array method {name}')
        return m(I, o, *args, **kw)
    if isinstance(o, OArr):
        if name == 'copy':
            return OArr(o.shape, o.st)
        if name in ('flatten', 'ravel'):
            from itertools import product
            items = [o.st.get(k) for k in product(*[range(s) for s in o.shape])]
            return OArr((len(items),), {(i,): x for i, x in enumerate(items)})
        raise Unsupported(f'object array method {name}')
    if isinstance(o, PList):
        return list_method(I, o, name, args, kw)
    if isinstance(o, PDict):
        return dict_method(I, o, name, args, kw)
    if isinstance(o, OpaqueStr):
        if name in ('lower', 'casefold'):
            return OpaqueStr(o.name, True)
        if name in ('strip', 'upper'):
            return OpaqueStr(o.name + '.' + name, o.lowered)
        raise Unsupported(f'string method {name}')
    if isinstance(o, str):
        if all(isinstance(a, (str, int, tuple)) for a in args) or not args:
            try:
                return I.lift(getattr(o, name)(*args, **kw))
            except Exception as ex:
                if name == 'format':
                    return '<formatted>'
                raise PyExc(type(ex).__name__, str(ex))
        if name in ('format', 'join'):
            return '<formatted>'
        raise Unsupported(f'string method {name}')
    if isinstance(o, tuple):
        if name == 'index' or name == 'count':
            raise Unsupported('tuple method')
    if isnum(o):
        if name in ('copy', 'item', 'conjugate', 'conj', 'sum', 'max', 'min', 'squeeze', 'mean'):
            return o
        if name in ('all', 'any'):
            t = I.truth(o)
            return t if isinstance(t, bool) else SB(t, True)
        if name in ('flatten', 'ravel'):
            p = argval(o)
            return Arr.of((ONE,), lambda i: p, dt_of(o))
        if name == 'is_integer':
            p = num(o)
            return SB(eq(p, T.fn('floor', p)))
        if name == 'astype':
            return o
    raise Unsupported(f'method {name} of {type(o).__name__}')


def list_method(I, o, name, args, kw):
    if name == 'append':
        o.st.append(args[0])
        return None
    if name == 'extend':
        o.st.extend(I.iterate(args[0]))
        return None
    if name == 'insert':
        o.st.insert(num(args[0]).intval(), args[1])
        return None
    if name == 'pop':
        k = num(args[0]).intval() if args else -1
        if not o.st:
            raise PyExc('IndexError', 'pop from empty list')
        return o.st.pop(k)
    if name == 'copy':
        return PList(list(o.st))
    if name == 'index':
        for k, x in enumerate(o.st):
            r = pyeq(I, x, args[0])
            if r is True or (not isinstance(r, bool) and I.decide(r)):
                return k
        raise PyExc('ValueError', 'not in list')
    if name == 'count':
        n = 0
        for x in o.st:
            r = pyeq(I, x, args[0])
            if r is True or (not isinstance(r, bool) and I.decide(r)):
                n += 1
        return n
    if name == 'reverse':
        o.st.reverse()
        return None
    if name == 'clear':
        o.st.clear()
        return None
    if name == 'remove':
        for k, x in enumerate(o.st):
            r = pyeq(I, x, args[0])
            if r is True or (not isinstance(r, bool) and I.decide(r)):
                del o.st[k]
                return None
        raise PyExc('ValueError', 'not in list')
    raise Unsupported(f'list method {name}')


def dict_method(I, o, name, args, kw):
    if name == 'keys':
        return PList(list(o.st.keys()))
    if name == 'values':
        return PList(list(o.st.values()))
    if name == 'items':
        return PList([(k, v) for k, v in o.st.items()])
    if name == 'get':
        return o.st.get(I.hashkey(args[0]), args[1] if len(args) > 1 else None)
    if name == 'copy':
        return PDict(dict(o.st))
    if name == 'update':
        for a in args:
            o.st.update(a.st if isinstance(a, PDict) else dict(I.iterate(a)))
        o.st.update(kw)
        return None
    if name == 'pop':
        k = I.hashkey(args[0])
        if k in o.st:
            return o.st.pop(k)
        if len(args) > 1:
            return args[1]
        raise PyExc('KeyError', str(k))
    if name == 'setdefault':
        return o.st.setdefault(I.hashkey(args[0]), args[1] if len(args) > 1 else None)
    raise Unsupported(f'dict method {name}')


# ------------------------------------------------------------------ array functions
def reduce_axis(I, v, axis, red, dtype, keepdims=False):
    """red(n, f): Poly"""
    v = asarr(I, v)
    c = v.c
    nd = len(c.shape)
    if getattr(v, 'maskof', None) is not None:
        raise Unsupported('reduction of a masked selection')
    if axis is None:
        def rec(k, idx):
            if k == nd:
                return asp(c.get(*idx))
            return red(c.shape[k], lambda q: rec(k + 1, idx + (q,)))
        r = rec(0, ())
        if keepdims:
            return Arr.of((ONE,) * nd, lambda *i: r, dtype)
        return scalar_out(I, r, dtype)
    if isinstance(axis, tuple):
        r = v
        for a in sorted([num(x).intval() % nd for x in axis], reverse=True):
            r = reduce_axis(I, r, a, red, dtype, keepdims)
        return r
    a = num(axis).intval()
    if a is None or not -nd <= a < nd:
        raise PyExc('AxisError', 'axis out of bounds', cls=ValueError)
    a %= nd

    if keepdims or c.kind in ('mat', 'sp'):
        shape = c.shape[:a] + (ONE,) + c.shape[a + 1:]
        return Arr.of(shape, lambda *i: red(c.shape[a], lambda q: asp(c.get(*(i[:a] + (q,) + i[a + 1:])))), dtype,
                      'mat' if c.kind in ('mat', 'sp') else 'nd')
    shape = c.shape[:a] + c.shape[a + 1:]
    if not shape:
        return scalar_out(I, red(c.shape[0], lambda q: asp(c.get(q))), dtype)
    return Arr.of(shape, lambda *i: red(c.shape[a], lambda q: asp(c.get(*(i[:a] + (q,) + i[a:])))), dtype)


@model(np.sum)
def m_sum(I, a, axis=None, dtype=None, out=None, keepdims=False):
    if isnum(a):
        return a
    if isinstance(a, OArr):
        raise Unsupported('sum of object array')
    a = asarr(I, a)
    return reduce_axis(I, a, axis, sum_, 'i' if a.dtype in 'ib' else a.dtype, keepdims)


@model(np.prod)
def m_prod(I, a, axis=None):
    a = asarr(I, a)
    if len(a.shape) == 1 and a.shape[0].intval() is not None:
        r = ONE
        for k in range(a.shape[0].intval()):
            r = r * asp(a.get(C(k)))
        return scalar_out(I, r, 'i' if a.dtype in 'ib' else a.dtype)
    raise Unsupported('product')


@model(np.mean)
def m_mean(I, a, axis=None):
    a = asarr(I, a)
    s = m_sum(I, a, axis)
    if axis is None:
        n = ONE
        for x in a.shape:
            n = n * x
    else:
        n = a.shape[num(axis).intval() % len(a.shape)]
    return binop(I, ast.Div(), s, SV(n, 'int'))


def _big(op):
    def red(n, f):
        k = n.intval()
        if k is not None and k <= 6:
            if k == 0:
                raise PyExc('ValueError', 'zero-size array to reduction operation')
            r = f(ZERO)
            for i in range(1, k):
                x = f(C(i))
                r = ite(lt(r, x) if op == 'max' else lt(x, r), x, r)
            return r
        return big(op, n, f)
    return red


@model(np.max, np.amax)
def m_max(I, a, axis=None, out=None, keepdims=False):
    a = asarr(I, a)
    if len(a.shape) == 0:
        return scalar_out(I, a.get(), a.dtype)
    if len(a.shape) == 2 and axis is None:
        # max over both axes: flatten symbolic into nested max
        return reduce_axis(I, a, None, _big('max'), a.dtype)
    return reduce_axis(I, a, axis, _big('max'), a.dtype, keepdims)


@model(np.min, np.amin)
def m_min(I, a, axis=None, out=None, keepdims=False):
    a = asarr(I, a)
    if len(a.shape) == 0:
        return scalar_out(I, a.get(), a.dtype)
    return reduce_axis(I, a, axis, _big('min'), a.dtype, keepdims)


@model(np.all)
def m_all(I, a, axis=None):
    if isnum(a):
        t = I.truth(a)
        return t if isinstance(t, bool) else SB(t, True)
    a = asarr(I, a)
    if axis is not None:
        raise Unsupported('all(axis)')
    r = reduce_axis(I, elementwise(I, lambda x: iv(bnot(asb(x))), [a], dtype='i'), None, sum_, 'i')
    return SB(eq(num(r), ZERO), True)


@model(np.any)
def m_any(I, a, axis=None):
    if isnum(a):
        t = I.truth(a)
        return t if isinstance(t, bool) else SB(t, True)
    a = asarr(I, a)
    if axis is not None:
        raise Unsupported('any(axis)')
    r = reduce_axis(I, elementwise(I, lambda x: iv(asb(x)), [a], dtype='i'), None, sum_, 'i')
    return SB(bnot(eq(num(r), ZERO)), True)


@model(np.count_nonzero)
def m_cnz(I, a):
    a = asarr(I, a)
    return reduce_axis(I, elementwise(I, lambda x: iv(asb(x)), [a], dtype='i'), None, sum_, 'i')


def unary(name_or_f, dtype='f'):
    f = name_or_f if callable(name_or_f) else (lambda p, n=name_or_f: T.fn(n, p))

    def g(I, x, **kw):
        if kw:
            raise Unsupported('ufunc keyword')
        if isinstance(x, OArr) or x is None or isinstance(x, (str, Obj)):
            raise PyExc('TypeError', 'bad ufunc operand')
        x = I.lift(x) if isinstance(x, (np.generic, np.ndarray, float)) else x
        dt = dtype
        if dtype == 'same':
            dt = dt_of(x) if isnum(x) else asarr(I, x).dtype
            dt = 'i' if dt == 'b' else dt
        elif dtype == 'f' and dt_of(asarr(I, x)) == 'c':
            raise Unsupported('complex ufunc')
        return elementwise(I, num_f(f), [x], dtype=dt)
    return g


for _f, _n in ((np.sin, 'sin'), (np.cos, 'cos'), (np.tan, lambda p: T.fn('sin', p) * power(T.fn('cos', p), -1)), (np.sinh, 'sinh'), (np.cosh, 'cosh'),
               (np.tanh, lambda p: T.fn('sinh', p) * power(T.fn('cosh', p), -1)), (np.exp, 'exp'), (np.log, 'log'), (np.log2, 'log2'),
               (np.arccosh, 'arccosh'), (np.arcsinh, 'arcsinh'), (np.arctan, 'arctan'), (np.arccos, 'arccos'), (np.arcsin, 'arcsin'), (np.log10, 'log10'),
               (np.sqrt, lambda p: power(p, Fraction(1, 2))), (np.cbrt, lambda p: power(p, Fraction(1, 3))), (np.floor, 'floor'),
               (np.ceil, lambda p: -T.fn('floor', -p)), (scipy.special.erf, 'erf'), (np.reciprocal, lambda p: power(p, -1)),
               (math.sqrt, lambda p: power(p, Fraction(1, 2))), (math.exp, 'exp'), (math.log, 'log'), (math.sin, 'sin'), (math.cos, 'cos'),
               (math.cosh, 'cosh'), (math.sinh, 'sinh'), (math.acosh, 'arccosh')):
    MODELS[_f] = unary(_n)
for _f, _n in ((np.abs, lambda p: T.fn('abs', p)), (np.square, lambda p: p * p), (np.negative, lambda p: -p), (np.positive, lambda p: p),
               (math.fabs, lambda p: T.fn('abs', p)), (np.fabs, lambda p: T.fn('abs', p)), (np.sign, lambda p: T.fn('sign', p))):
    MODELS[_f] = unary(_n, 'same')


@model(math.floor)
def m_mfloor(I, x):
    return I.mkint(T.fn('floor', num(x)))


@model(math.ceil)
def m_mceil(I, x):
    return I.mkint(-T.fn('floor', -num(x)))


@model(math.factorial)
def m_fact(I, x):
    if isinstance(x, SV) and x.kind != 'int':
        raise PyExc('TypeError', 'float to factorial')
    k = num(x).intval()
    if k is None:
        return SV(T.fn('factorial', num(x)), 'int')
    return math.factorial(k)


@model(np.abs, builtins.abs)
def m_abs(I, x):
    if isinstance(x, int):
        return abs(x)
    if isinstance(x, Arr) and x.kind == 'sp':
        return elementwise(I, lambda p: T.fn('abs', p), [x], kind='sp')
    if dt_of(asarr(I, x)) == 'c':
        raise Unsupported('complex modulus')
    return elementwise(I, num_f(lambda p: T.fn('abs', p)), [x])


@model(np.nan_to_num)
def m_nan(I, x, copy=True, nan=0.0, posinf=None, neginf=None):
    f = lambda p: T.fn('nan_to_num', p, *[asp(argval(I.lift(q))) for q in (nan,)] + ([num(I.lift(posinf))] if posinf is not None else []) + ([num(I.lift(neginf))] if neginf is not None else []))
    r = elementwise(I, num_f(f), [x])
    cp = copy if isinstance(copy, bool) else None
    if cp is False and isinstance(x, Arr):
        rc = r.c
        x.update(lambda *i: (TRUE, rc.get(*i)))
        return x
    return r


def _finite(p):
    """results of library routines assumed to return finite numbers"""
    return len(p.t) == 1 and all(a.kind == 'ext' and a.name.startswith('eigs') for m in p.t for a, e in m)


@model(np.isnan)
def m_isnan(I, x):
    return elementwise(I, num_f(lambda p: mkbool(p is sym('NAN', 'real')) if p.const() is not None or _finite(p) else batom('isnan', p)), [x], dtype='b')


@model(np.isinf)
def m_isinf(I, x):
    return elementwise(I, num_f(lambda p: FALSE if p.const() is not None else batom('isinf', p)), [x], dtype='b')


@model(np.isfinite)
def m_isfin(I, x):
    return elementwise(I, num_f(lambda p: TRUE if p.const() is not None else band(bnot(batom('isinf', p)), bnot(batom('isnan', p)))), [x], dtype='b')


def binary_model(t, dtype=None):
    def g(I, a, b, **kw):
        if kw:
            raise Unsupported('ufunc keyword')
        return binop(I, t, a, b)
    return g


for _f, _t in ((np.add, ast.Add), (np.subtract, ast.Sub), (np.multiply, ast.Mult), (np.divide, ast.Div), (np.true_divide, ast.Div),
               (np.power, ast.Pow), (np.mod, ast.Mod), (np.remainder, ast.Mod), (np.floor_divide, ast.FloorDiv), (math.pow, ast.Pow), (builtins.pow, ast.Pow), (math.fmod, ast.Mod)):
    MODELS[_f] = binary_model(_t())


@model(np.maximum)
def m_maximum(I, a, b):
    return elementwise(I, num_f(lambda x, y: ite(lt(x, y), y, x)), [a, b])


@model(np.minimum)
def m_minimum(I, a, b):
    return elementwise(I, num_f(lambda x, y: ite(lt(y, x), y, x)), [a, b])


@model(np.where)
def m_where(I, c, a=None, b=None):
    if a is None:
        raise Unsupported('np.where with one argument')
    dt = join_dt(dt_of(asarr(I, a)), dt_of(asarr(I, b)))
    return elementwise(I, lambda x, y, z: ite(asb(x), asp(y), asp(z)), [c, a, b], dtype=dt)


@model(np.clip)
def m_clip(I, x, lo, hi):
    r = x
    if lo is not None:
        r = m_maximum(I, r, lo)
    if hi is not None:
        r = m_minimum(I, r, hi)
    return r


@model(np.logical_and)
def m_land(I, a, b):
    return elementwise(I, lambda x, y: band(asb(x), asb(y)), [a, b], dtype='b')


@model(np.logical_or)
def m_lor(I, a, b):
    return elementwise(I, lambda x, y: bor(asb(x), asb(y)), [a, b], dtype='b')


@model(np.logical_not)
def m_lnot(I, a):
    return elementwise(I, lambda x: bnot(asb(x)), [a], dtype='b')


for _f, _t in ((np.equal, ast.Eq), (np.not_equal, ast.NotEq), (np.less, ast.Lt), (np.less_equal, ast.LtE), (np.greater, ast.Gt), (np.greater_equal, ast.GtE)):
    MODELS[_f] = (lambda t: lambda I, a, b: compare(I, t(), a, b))(_t)


def dtype_code(d, default='f'):
    if d is None:
        return default
    if d in (float, 'float', 'float64', np.float64) or d is np.float_:
        return 'f'
    if d in (int, 'int', np.int64, np.int32, 'int64'):
        return 'i'
    if d in (bool, np.bool_, 'bool'):
        return 'b'
    if d in (complex, np.complex128):
        return 'c'
    if d in (object, 'object'):
        return 'o'
    if isinstance(d, np.dtype):
        return {'f': 'f', 'i': 'i', 'b': 'b', 'c': 'c', 'O': 'o'}[d.kind]
    raise Unsupported(f'dtype {d}')


def filled(I, shape, p, dt):
    if dt == 'o':
        sh = tuple(s.intval() for s in shape)
        if any(s is None for s in sh):
            raise Unsupported('object array of symbolic shape')
        from itertools import product
        return OArr(sh, {k: (None if p is None else p) for k in product(*[range(s) for s in sh])})
    for s in shape:
        if not I.ctx.prove(le(ZERO, s)):
            if not I.decide(le(ZERO, s)):
                raise PyExc('ValueError', 'negative dimensions are not allowed')
    if dt == 'b':
        b = asb(p)
        return Arr.of(shape, lambda *i: b, 'b')
    return Arr.of(shape, lambda *i: p, dt)


@model(np.zeros)
def m_zeros(I, shape, dtype=None, order=None):
    dt = dtype_code(dtype)
    if dt == 'o':
        r = filled(I, shape_arg(I, shape), None, 'o')
        for k in r.st:
            r.st[k] = 0
        return r
    return filled(I, shape_arg(I, shape), ZERO, dt)


@model(np.ones)
def m_ones(I, shape, dtype=None, order=None):
    return filled(I, shape_arg(I, shape), ONE, dtype_code(dtype))


@model(np.empty)
def m_empty(I, shape, dtype=None, order=None):
    dt = dtype_code(dtype)
    if dt == 'o':
        return filled(I, shape_arg(I, shape), None, 'o')
    T._count[0] += 1
    nm = f'uninit!{T._count[0]}'
    return Arr.of(shape_arg(I, shape), lambda *i: app(nm, i, 'real') if i else sym(nm, 'real'), dt)


@model(np.full)
def m_full(I, shape, v, dtype=None, order=None):
    v = I.lift(v) if isinstance(v, (float, np.generic)) else v
    dt = dtype_code(dtype, dt_of(v) if isnum(v) else 'o')
    if v is None:
        if dtype_code(dtype, 'o') == 'o':
            return filled(I, shape_arg(I, shape), None, 'o')
        v = SV(sym('NAN', 'real'), 'float')
    if dt == 'o':
        r = filled(I, shape_arg(I, shape), None, 'o')
        for k in r.st:
            r.st[k] = v
        return r
    return filled(I, shape_arg(I, shape), argval(v) if dt == 'b' else num(v), dt)


def like(I, a, p, dtype):
    if isinstance(a, OArr):
        return filled(I, tuple(C(s) for s in a.shape), None if p is None else (0 if p is ZERO else 1), 'o')
    a = asarr(I, a)
    dt = dtype_code(dtype, a.dtype)
    if p is None:
        T._count[0] += 1
        nm = f'uninit!{T._count[0]}'
        return Arr.of(a.shape, lambda *i: app(nm, i, 'real'), dt)
    if not a.shape:
        return Arr.of((), lambda: p, dt)
    return Arr.of(a.shape, lambda *i: asb(p) if dt == 'b' else p, dt)


@model(np.zeros_like)
def m_zl(I, a, dtype=None):
    return like(I, a, ZERO, dtype)


@model(np.ones_like)
def m_ol(I, a, dtype=None):
    return like(I, a, ONE, dtype)


@model(np.empty_like)
def m_el(I, a, dtype=None):
    return like(I, a, None, dtype)


@model(np.full_like)
def m_fl(I, a, v, dtype=None):
    a = asarr(I, a)
    return like(I, a, num(v), dtype)


@model(np.eye, np.identity)
def m_eye(I, n, m=None, k=0, dtype=None):
    n = pdim(I, n)
    m = n if m is None else pdim(I, m)
    return Arr.of((n, m), lambda i, j: iv(eq(j, i + num(k))), 'f')


@model(np.array)
def m_array(I, v, dtype=None, copy=True, ndmin=0):
    if isinstance(v, OArr):
        return OArr(v.shape, v.st)
    if dtype is not None and dtype_code(dtype) == 'o':
        def items(x):
            return x.st if isinstance(x, PList) else list(x)

        if isinstance(v, (PList, tuple)):
            top = items(v)
            if all(isinstance(x, (PList, tuple)) for x in top) and top:
                inner = [items(x) for x in top]
                if len({len(x) for x in inner}) == 1:
                    return OArr((len(top), len(inner[0])), {(i, j): inner[i][j] for i in range(len(top)) for j in range(len(inner[0]))})
            return OArr((len(top),), {(i,): x for i, x in enumerate(top)})
        raise Unsupported('object array')
    if isinstance(v, (PList, tuple)):
        seq = v.st if isinstance(v, PList) else v
        if seq and any(isinstance(x, (Obj, Closure)) or x is None for x in seq):
            return OArr((len(seq),), {(i,): x for i, x in enumerate(seq)})
        if seq and all(isinstance(x, (PList, tuple)) for x in seq) and any(isinstance(y, Obj) or y is None for x in seq for y in I.iterate(x)):
            inner = [I.iterate(x) for x in seq]
            return OArr((len(seq), len(inner[0])), {(i, j): inner[i][j] for i in range(len(seq)) for j in range(len(inner[0]))})
    if isinstance(v, Obj) or v is None:
        return OArr((), {(): v})
    a = asarr(I, v)
    c = a.c
    k = c.kind if c.kind == 'sp' else 'nd'
    if k == 'sp':
        raise Unsupported('np.array of a sparse matrix')
    dt = dtype_code(dtype, c.dtype)
    if c.dtype == 'b' and dt in 'fi':
        r = Arr.of(c.shape, lambda *i: asp(c.get(*i)), dt, k)
    elif dt == 'i' and c.dtype == 'f':
        r = Arr.of(c.shape, lambda *i: trunc(I, c.get(*i)), dt, k)
    else:
        r = Arr(ArrC(c.shape, c.get, dt, k))
    while len(r.shape) < (num(ndmin).intval() or 0):
        rc = r.c
        r = Arr.of((ONE,) + rc.shape, lambda *i, rc=rc: rc.get(*i[1:]), rc.dtype)
    if getattr(a, 'maskof', None) is not None:
        raise Unsupported('copy of a masked selection')
    return r


@model(np.asarray, np.ascontiguousarray)
def m_asarray(I, v, dtype=None):
    if isinstance(v, Arr) and v.kind == 'nd' and (dtype is None or dtype_code(dtype) == v.dtype):
        return v
    if isinstance(v, Arr) and v.kind == 'mat':
        c = v.c
        return Arr(ArrC(c.shape, c.get, c.dtype, 'nd'))
    return m_array(I, v, dtype)


@model(np.copy)
def m_ncopy(I, v):
    return m_array(I, v)


@model(np.atleast_1d)
def m_al1(I, v):
    a = asarr(I, v)
    if not a.shape:
        p = a.get()
        return Arr.of((ONE,), lambda i: p, a.dtype)
    return a


@model(np.atleast_2d)
def m_al2(I, v):
    a = m_al1(I, v)
    if len(a.shape) == 1:
        return getitem(I, a, (None, slice(None)))
    return a


@model(np.linspace)
def m_linspace(I, a, b, n=50, endpoint=True):
    n = pdim(I, n)
    pa, pb = num(I.lift(a)), num(I.lift(b))
    k = n.intval()
    if k == 1:
        return Arr.of((ONE,), lambda i: pa, 'f')
    d = (pb - pa) * power(n - 1 if endpoint is True else n, -1)
    return Arr.of((n,), lambda i: pa + i * d, 'f')


@model(np.arange)
def m_arange(I, a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    a, b, step = [I.lift(x) if isinstance(x, float) else x for x in (a, b, step)]
    pa, pb, ps = num(a), num(b), num(step)
    isint = kindof(a) == kindof(b) == kindof(step) == 'int'
    if isint and ps.intval() == 1:
        n = pb - pa
        if n.intval() is None and not I.decide(le(ZERO, n)):
            n = ZERO
        return Arr.of((n if n.intval() is None else C(max(0, n.intval())),), lambda i: pa + i, 'i')
    q = (pb - pa) * power(ps, -1)
    n = -T.fn('floor', -q)
    if n.intval() is not None:
        n = C(max(0, n.intval()))
    elif not I.decide(le(ZERO, n)):
        n = ZERO
    return Arr.of((n,), lambda i: pa + i * ps, 'i' if isint else 'f')


@model(np.meshgrid)
def m_meshgrid(I, *xs, indexing='xy', sparse=False, copy=True):
    if len(xs) != 2:
        raise Unsupported('meshgrid rank')
    x, y = asarr(I, xs[0]).c, asarr(I, xs[1]).c
    nx, ny = x.shape[0], y.shape[0]
    if len(x.shape) != 1 or len(y.shape) != 1:
        raise Unsupported('meshgrid rank')
    if indexing == 'xy':
        return PList([Arr.of((ny, nx), lambda i, j: x.get(j), x.dtype), Arr.of((ny, nx), lambda i, j: y.get(i), y.dtype)])
    return PList([Arr.of((nx, ny), lambda i, j: x.get(i), x.dtype), Arr.of((nx, ny), lambda i, j: y.get(j), y.dtype)])


def oracle_ctx(I):
    ctx = I.ctx

    class _W:
        def __enter__(s):
            s.old = solve.GLOBAL.a, solve.GLOBAL.aset
            solve.GLOBAL.a, solve.GLOBAL.aset = ctx.a, ctx.aset

        def __exit__(s, *a):
            solve.GLOBAL.a, solve.GLOBAL.aset = s.old
    return _W


def ravel_index(idx, shape, order):
    ax = range(len(shape)) if order == 'C' else range(len(shape) - 1, -1, -1)
    r = ZERO
    for k in ax:
        r = r * shape[k] + idx[k]
    return r


def unravel_index(p, shape, order):
    n = len(shape)
    out = [None] * n
    nz = [k for k in range(n) if shape[k] is not ONE]
    for k in range(n):
        if shape[k] is ONE:
            out[k] = ZERO
    ax = nz if order == 'F' else list(reversed(nz))
    for q, k in enumerate(ax):
        if q == len(ax) - 1:
            out[k] = p
        else:
            out[k] = imod(p, shape[k])
            p = idiv(p, shape[k])
    return out


def reshape(I, a, shape, order='C'):
    if isinstance(a, OArr):
        raise Unsupported('reshape of an object array')
    a = asarr(I, a)
    c = a.c
    order = order or 'C'
    if order == 'A':
        raise Unsupported('order A')
    tot = ONE
    for s in c.shape:
        tot = tot * s
    if any(s.intval() == -1 for s in shape):
        rest = ONE
        for s in shape:
            if s.intval() != -1:
                rest = rest * s
        q, r = T.split_multiple(tot, rest)
        if r.t:
            if rest.intval() is not None and tot.intval() is not None:
                raise PyExc('ValueError', 'cannot reshape')
            raise Unsupported('reshape with -1 of a symbolic size')
        shape = tuple(q if s.intval() == -1 else s for s in shape)
    n2 = ONE
    for s in shape:
        n2 = n2 * s
    if not dim_eq(I, tot, n2):
        raise PyExc('ValueError', 'cannot reshape array')
    olds = [s for s in c.shape if s is not ONE]
    news = [s for s in shape if s is not ONE]
    W = oracle_ctx(I)
    if len(olds) == len(news) and all(x is y or I.ctx.prove(eq(x, y)) for x, y in zip(olds, news)):
        oax = [k for k, s in enumerate(c.shape) if s is not ONE]
        nax = [k for k, s in enumerate(shape) if s is not ONE]

        def g(*i):
            src = [ZERO] * len(c.shape)
            for x, y in zip(oax, nax):
                src[x] = i[y]
            return c.get(*src)
    else:
        def g(*i):
            with W():
                src = unravel_index(ravel_index(i, shape, order), c.shape, order)
            return c.get(*src)
    return Arr.of(shape, g, c.dtype, c.kind)


@model(np.reshape)
def m_reshape(I, a, newshape=None, order='C', shape=None):
    return reshape_view(I, a, shape_arg(I, newshape if newshape is not None else shape), order)


def reshape_view(I, a, shape, order):
    r = reshape(I, a, shape, order)
    if isinstance(a, Arr):
        ax = [k for k, s in enumerate(a.shape) if s is not ONE]
        if len(ax) <= 1 and a.kind not in ('sp', 'mat'):
            # one axis, whatever its stride, is split without copying
            new, old, order = r.shape, len(a.shape), order or 'C'

            def fwd(*i):
                src = [ZERO] * old
                if ax:
                    src[ax[0]] = ravel_index(i, new, order)
                return src
            return a.view(new, fwd, lambda *p: (TRUE, unravel_index(p[ax[0]] if ax else ZERO, new, order)))
        r.link_maybe(a)
    return r


def flatten(I, a, order='C'):
    a = asarr(I, a)
    tot = ONE
    for s in a.shape:
        tot = tot * s
    if a.kind == 'mat':
        r = reshape(I, a, (ONE, tot), order)
        return r
    return reshape(I, a, (tot,), order)


@model(np.ravel)
def m_ravel(I, a, order='C'):
    r = flatten(I, a, order)
    if isinstance(a, Arr):
        r.link_maybe(a)
    return r


@model(np.squeeze)
def m_squeeze(I, a, axis=None):
    if isnum(a):
        return a
    a = asarr(I, a)
    keep = []
    for k, s in enumerate(a.shape):
        if axis is not None and num(axis).intval() % len(a.shape) != k:
            keep.append(k)
            continue
        if s is ONE:
            continue
        if s.intval() is None and I.decide(eq(s, ONE)):
            continue
        keep.append(k)
    c = a.c
    nd = len(a.shape)
    if not keep:
        return Arr.of((), lambda: c.get(*[ZERO] * nd), c.dtype)
    pos = {k: i for i, k in enumerate(keep)}
    return a.view(tuple(a.shape[k] for k in keep), lambda *i: [i[pos[k]] if k in pos else ZERO for k in range(nd)],
                  lambda *p: (TRUE, [p[k] for k in keep]))


@model(np.expand_dims)
def m_expand(I, a, axis):
    a = asarr(I, a)
    k = num(axis).intval() % (len(a.shape) + 1)
    ix = tuple([slice(None)] * k + [None] + [slice(None)] * (len(a.shape) - k))
    return getitem(I, a, ix)


@model(np.transpose)
def m_transpose(I, a, axes=None):
    if axes is not None:
        raise Unsupported('transpose axes')
    return transpose(I, asarr(I, a))


@model(np.swapaxes)
def m_swap(I, a, i, j):
    a = asarr(I, a)
    if len(a.shape) == 2 and {num(i).intval() % 2, num(j).intval() % 2} == {0, 1}:
        return transpose(I, a)
    raise Unsupported('swapaxes')


def concat(I, arrs, axis):
    arrs = [asarr(I, a).c for a in arrs]
    nd = len(arrs[0].shape)
    if nd == 0:
        raise PyExc('ValueError', 'zero-dimensional arrays cannot be concatenated')
    if any(len(a.shape) != nd for a in arrs):
        raise PyExc('ValueError', 'dimensions must match')
    axis %= nd
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis and not dim_eq(I, a.shape[k], arrs[0].shape[k]):
                raise PyExc('ValueError', 'dimensions must match exactly')
    arrs = [a for a in arrs if not (a.shape[axis] is ZERO)] or arrs[:1]
    offs = [ZERO]
    for a in arrs:
        offs.append(offs[-1] + a.shape[axis])
    shape = list(arrs[0].shape)
    shape[axis] = offs[-1]
    dt = join_dt(*[a.dtype for a in arrs])

    def g(*i):
        x = i[axis]
        r = None
        for k in range(len(arrs) - 1, -1, -1):
            a = arrs[k]
            j = i[:axis] + (x - offs[k],) + i[axis + 1:]
            if r is None:
                if len(arrs) == 1:
                    return a.get(*j)
                cond = le(offs[k], x)
                if cond is FALSE:
                    r = ZERO
                    continue
                r = asp(a.get(*j))
            else:
                cond = lt(x, offs[k + 1])
                if cond is FALSE:
                    continue
                r = ite(cond, asp(a.get(*j)), r)
        return asb(r) if dt == 'b' else r
    kind = 'mat' if any(a.kind == 'mat' for a in arrs) else ('sp' if all(a.kind == 'sp' for a in arrs) else 'nd')
    return Arr.of(shape, g, dt, kind)


@model(np.concatenate)
def m_concat(I, seq, axis=0):
    items = I.iterate(seq)
    if any(isinstance(x, OArr) for x in items):
        out = []
        for x in items:
            out.extend(x.st[k] for k in sorted(x.st))
        return OArr((len(out),), {(i,): x for i, x in enumerate(out)})
    if axis is None:
        return concat(I, [flatten(I, x) for x in items], 0)
    return concat(I, items, num(axis).intval())


@model(np.hstack)
def m_hstack(I, seq):
    items = [asarr(I, x) if not isinstance(x, OArr) else x for x in I.iterate(seq)]
    if any(isinstance(x, OArr) for x in items):
        return m_concat(I, PList(items))
    items = [m_al1(I, x) for x in items]
    return concat(I, items, 0 if len(items[0].shape) == 1 else 1)


@model(np.vstack)
def m_vstack(I, seq):
    items = [m_al2(I, x) for x in I.iterate(seq)]
    return concat(I, items, 0)


@model(np.column_stack)
def m_cstack(I, seq):
    items = [asarr(I, x) for x in I.iterate(seq)]
    items = [getitem(I, x, (slice(None), None)) if len(x.shape) == 1 else x for x in items]
    return concat(I, items, 1)


@model(np.stack)
def m_stack(I, seq, axis=0):
    a = num(axis).intval()
    items = [m_expand(I, x, a) for x in I.iterate(seq)]
    return concat(I, items, a)


@model(np.append)
def m_append(I, a, b, axis=None):
    if isinstance(a, OArr) or isinstance(b, OArr):
        raise Unsupported('append of object arrays')
    if isinstance(a, PList) and not a.st:
        a = Arr.of((ZERO,), lambda i: ZERO, 'f')
    if axis is None:
        def fl(x):
            x = asarr(I, x)
            return flatten(I, x) if len(x.shape) != 1 else x
        x, y = fl(a), fl(b)
        return concat(I, [x, y], 0)
    return concat(I, [a, b], num(axis).intval())


@model(np.repeat)
def m_repeat(I, a, n, axis=None):
    if isinstance(a, Arr) and a.kind == 'sp':
        if axis is not None or pdim(I, n).intval() is None:
            raise Unsupported('repeat of a sparse matrix')
        return OArr((pdim(I, n).intval(),), {(k,): a for k in range(pdim(I, n).intval())})      # numpy sees one object
    a = asarr(I, a)
    n = pdim(I, n)
    if axis is None:
        a = flatten(I, a) if len(a.shape) != 1 else a
        axis = 0
    nd = len(a.shape)
    k = num(axis).intval()
    if not -nd <= k < nd:
        raise PyExc('AxisError', 'axis out of bounds', cls=ValueError)
    k %= nd
    c = a.c
    shape = list(c.shape)
    shape[k] = shape[k] * n
    if c.shape[k] is ONE:
        return Arr.of(shape, lambda *i: c.get(*(i[:k] + (ZERO,) + i[k + 1:])), c.dtype)
    W = oracle_ctx(I)

    def g(*i):
        with W():
            q = idiv(i[k], n)
        return c.get(*(i[:k] + (q,) + i[k + 1:]))
    return Arr.of(shape, g, c.dtype)


import numpy.matlib


@model(np.tile, numpy.matlib.repmat)
def m_tile(I, a, *reps):
    a = asarr(I, a)
    if len(reps) == 1 and isinstance(reps[0], (tuple, PList)):
        reps = tuple(I.iterate(reps[0]))
    rp = [pdim(I, r) for r in reps]
    nd = max(len(rp), len(a.shape))
    c = a.c
    pad = nd - len(c.shape)
    sh = (ONE,) * pad + c.shape
    rp = [ONE] * (nd - len(rp)) + rp
    W = oracle_ctx(I)

    def g(*i):
        out = []
        for k in range(pad, nd):
            if sh[k] is ONE:
                out.append(ZERO)
            elif rp[k] is ONE:
                out.append(i[k])
            else:
                with W():
                    out.append(imod(i[k], sh[k]))
        return c.get(*out)
    return Arr.of([s * r for s, r in zip(sh, rp)], g, c.dtype)


def flip_axis(I, a, k):
    ix = [slice(None)] * len(a.shape)
    ix[k] = slice(None, None, -1)
    return getitem(I, a, tuple(ix))


@model(np.flip)
def m_flip(I, a, axis=None):
    a = asarr(I, a)
    if axis is None:
        for k in range(len(a.shape)):
            a = flip_axis(I, a, k)
        return a
    for x in (axis if isinstance(axis, tuple) else (axis,)):
        k = num(x).intval()
        if not -len(a.shape) <= k < len(a.shape):
            raise PyExc('AxisError', '', cls=ValueError)
        a = flip_axis(I, a, k % len(a.shape))
    return a


@model(np.flipud)
def m_flipud(I, a):
    return flip_axis(I, asarr(I, a), 0)


@model(np.fliplr)
def m_fliplr(I, a):
    a = asarr(I, a)
    if len(a.shape) < 2:
        raise PyExc('ValueError', 'Input must be >= 2-d.')
    return flip_axis(I, a, 1)


@model(np.diag)
def m_diag(I, a, k=0):
    a = asarr(I, a)
    c = a.c
    kk = num(k)
    if len(c.shape) == 1:
        n = c.shape[0]
        kc = kk.intval()
        if kc is None:
            sh = n + T.fn('abs', kk)
            return Arr.of((sh, sh), lambda i, j: iv(eq(j, i + kk)) * asp(c.get(ite(le(ZERO, kk), i, j))), c.dtype)
        sh = n + C(abs(kc))
        return Arr.of((sh, sh), lambda i, j: iv(eq(j, i + kk)) * asp(c.get(i if kc >= 0 else j)), c.dtype)
    if kk.intval() == 0:
        if not dim_eq(I, c.shape[0], c.shape[1]):
            raise Unsupported('diag of a rectangular matrix')
        return Arr.of((c.shape[0],), lambda i: c.get(i, i), c.dtype)
    raise Unsupported('off-diagonal')


@model(np.diagflat)
def m_diagflat(I, a, k=0):
    a = asarr(I, a)
    return m_diag(I, flatten(I, a) if len(a.shape) != 1 else a, k)


@model(np.outer)
def m_outer(I, a, b):
    x, y = flatten(I, a).c, flatten(I, b).c
    return Arr.of((x.shape[0], y.shape[0]), lambda i, j: asp(x.get(i)) * asp(y.get(j)), join_dt(x.dtype, y.dtype))


@model(np.dot)
def m_dot(I, a, b):
    if isnum(a) or isnum(b):
        return binop(I, ast.Mult(), a, b)
    a, b = asarr(I, a), asarr(I, b)
    if not a.shape or not b.shape:
        return binop(I, ast.Mult(), a, b)
    return matmul(I, a, b)


MODELS[np.matmul] = matmul
MODELS[np.inner] = lambda I, a, b: matmul(I, a, transpose(I, asarr(I, b)))
MODELS[np.vdot] = lambda I, a, b: matmul(I, flatten(I, a), flatten(I, b))


@model(np.einsum)
def m_einsum(I, spec, *ops):
    spec = spec.replace(' ', '')
    if '->' not in spec:
        raise Unsupported('implicit einsum')
    ins, out = spec.split('->')
    ins = ins.split(',')
    cs = [asarr(I, o).c for o in ops]
    size = {}
    for s, c in zip(ins, cs):
        if len(s) != len(c.shape):
            raise PyExc('ValueError', 'einsum')
        for ch, n in zip(s, c.shape):
            if ch in size:
                if not dim_eq(I, size[ch], n):
                    raise PyExc('ValueError', 'einsum dims')
            else:
                size[ch] = n
    summed = [ch for ch in size if ch not in out]

    def g(*i):
        env = dict(zip(out, i))

        def rec(k, env):
            if k == len(summed):
                r = ONE
                for s, c in zip(ins, cs):
                    r = r * asp(c.get(*[env[ch] for ch in s]))
                return r
            return sum_(size[summed[k]], lambda q: rec(k + 1, {**env, summed[k]: q}))
        return rec(0, env)
    dt = join_dt(*[c.dtype for c in cs])
    if not out:
        return scalar_out(I, g(), dt)
    return Arr.of([size[ch] for ch in out], g, dt)


@model(np.trace)
def m_trace(I, a):
    a = asarr(I, a).c
    return scalar_out(I, sum_(a.shape[0], lambda q: asp(a.get(q, q))), a.dtype)


@model(np.linalg.norm)
def m_norm(I, a, ord=None, axis=None):
    if ord is not None or axis is not None:
        raise Unsupported('norm order')
    a = asarr(I, a)
    s = m_sum(I, elementwise(I, num_f(lambda p: p * p), [a], dtype='f'))
    return SV(power(num(s), Fraction(1, 2)), 'float')


@model(np.ravel_multi_index)
def m_rmi(I, mi, dims_, mode='raise', order='C'):
    sh = shape_arg(I, dims_)
    items = I.iterate(mi)
    return elementwise(I, lambda *ix: ravel_index([asp(x) for x in ix], sh, order), items, dtype='i')


@model(np.real)
def m_real(I, a):
    return getattr_(I, a, 'real')


@model(np.conjugate, np.conj)
def m_conj(I, a):
    if dt_of(asarr(I, a)) == 'c':
        raise Unsupported('complex conjugate')
    return a


@model(np.isclose)
def m_isclose(I, a, b, rtol=None, atol=None):
    rt = num(I.lift(rtol)) if rtol is not None else C(Fraction('1e-5'))
    at = num(I.lift(atol)) if atol is not None else C(Fraction('1e-8'))
    return elementwise(I, num_f(lambda x, y: le(T.fn('abs', x - y), at + rt * T.fn('abs', y))), [a, b], dtype='b')


@model(np.allclose)
def m_allclose(I, a, b, rtol=None, atol=None):
    return m_all(I, m_isclose(I, a, b, rtol, atol))


@model(np.array_equal)
def m_arreq(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    if len(a.shape) != len(b.shape):
        return False
    for x, y in zip(a.shape, b.shape):
        if not dim_eq(I, x, y):
            return False
    return m_all(I, compare(I, ast.Eq(), a, b))


@model(np.ndim)
def m_ndim(I, a):
    return len(asarr(I, a).shape) if not isnum(a) else 0


@model(np.shape)
def m_shape(I, a):
    return dims(asarr(I, a).shape) if not isnum(a) else ()


@model(np.size)
def m_size(I, a, axis=None):
    if isinstance(a, OArr):
        return getattr_(I, a, 'size')
    a = asarr(I, a)
    if axis is not None:
        return I.mkint(a.shape[num(axis).intval()])
    return getattr_(I, a, 'size')


@model(np.isscalar)
def m_isscalar(I, a):
    return isnum(a)


@model(np.trapz)
def m_trapz(I, y, x=None, dx=1, axis=-1):
    raise Unsupported('trapz')


@model(np.cumsum)
def m_cumsum(I, a, axis=None):
    a = asarr(I, a)
    if len(a.shape) != 1:
        raise Unsupported('cumsum rank')
    c = a.c
    return Arr.of(c.shape, lambda i: sum_(i + 1, lambda q: asp(c.get(q))), 'i' if c.dtype in 'ib' else c.dtype)


def lamof(c):
    """freeze an array content"""
    return lam(c.shape, lambda *i: asp(c.get(*i)))


@model(np.argsort)
def m_argsort(I, a, axis=-1, kind=None):
    a = asarr(I, a)
    c = a.c
    if len(c.shape) != 1:
        raise Unsupported('argsort rank')
    n = c.shape[0].intval()
    if n is not None and n <= 1:
        return Arr.of(c.shape, lambda i: i, 'i')
    L = lamof(c)
    I.externals.add('numpy.argsort')

    def g(i):
        p = ext('argsort', (L,), (i,), 'int')
        a = atom_of(p)
        a.rng = (ZERO, c.shape[0])
        return p
    return Arr.of(c.shape, g, 'i')


@model(np.argwhere)
def m_argwhere(I, a):
    a = asarr(I, a)
    c = a.c
    I.externals.add('numpy.argwhere')
    L = lamof(ArrC(c.shape, lambda *i: iv(ne(asp(c.get(*i)), ZERO)), 'i'))
    cnt = ext('argwhere_count', (L,), (), 'int')
    tot = ONE
    for s in c.shape:
        tot = tot * s
    atom_of(cnt).rng = (ZERO, tot + 1)
    I.ctx.add(le(ZERO, cnt))
    I.ctx.add(le(cnt, tot))
    return Arr.of((cnt, C(len(c.shape))), lambda i, j: ext('argwhere', (L,), (i, j), 'int'), 'i')


@model(np.sort)
def m_sort(I, a, axis=-1):
    a = asarr(I, a)
    if len(a.shape) != 1:
        raise Unsupported('sort rank')
    return getitem(I, a, m_argsort(I, a))


# methods of arrays ---------------------------------------------------
def _astype(I, a, dt, copy=True):
    return m_array(I, a, dt)


def m_tosparse(I, a, *args, **kw):
    return a if a.kind == 'sp' else (_ for _ in ()).throw(PyExc('AttributeError', 'not sparse'))


def _todense(I, a):
    if a.kind == 'nd':
        raise PyExc('AttributeError', 'todense')
    c = a.c
    return Arr(ArrC(c.shape, c.get, c.dtype, 'mat'))


def _toarray(I, a):
    if a.kind == 'nd':
        raise PyExc('AttributeError', 'toarray')
    c = a.c
    return Arr(ArrC(c.shape, c.get, c.dtype, 'nd'))


def _reshape_m(I, a, *shape, order='C'):
    if len(shape) == 1 and isinstance(shape[0], (tuple, PList)):
        shape = shape[0]
    return reshape_view(I, a, shape_arg(I, shape), order)


def _fill(I, a, v):
    p = num(I.lift(v))
    a.update(lambda *i: (TRUE, p))


def _setdiag(I, a, v, k=0):
    raise Unsupported('setdiag')


def _dot_m(I, a, b):
    if isinstance(b, Arr) or isinstance(b, (PList, tuple)):
        return m_dot(I, a, b)
    return binop(I, ast.Mult(), a, b)


def _multiply(I, a, b):
    if a.kind != 'sp':
        raise PyExc('AttributeError', 'multiply')
    return elementwise(I, num_f(lambda x, y: x * y), [a, b], kind='sp')


def _copy_m(I, a, order=None):
    c = a.c
    r = Arr(ArrC(c.shape, c.get, c.dtype, c.kind))
    if getattr(a, 'maskof', None) is not None:
        r.maskof = a.maskof
    return r


def _tolist(I, a):
    n = a.shape[0].intval()
    if len(a.shape) != 1 or n is None:
        raise Unsupported('tolist')
    return PList([scalar_out(I, a.get(C(k)), a.dtype) for k in range(n)])


def _item(I, a, *ix):
    if ix:
        return getitem(I, a, tuple(ix))
    return scalar_out(I, aspoly0(a), a.dtype)


ARR_METHODS = {
    'sum': lambda I, a, axis=None, **k: m_sum(I, a, axis, **k), 'max': lambda I, a, axis=None: m_max(I, a, axis), 'min': lambda I, a, axis=None: m_min(I, a, axis),
    'mean': lambda I, a, axis=None: m_mean(I, a, axis), 'all': lambda I, a, axis=None: m_all(I, a, axis), 'any': lambda I, a, axis=None: m_any(I, a, axis),
    'copy': _copy_m, 'flatten': lambda I, a, order='C': flatten(I, a, order), 'ravel': lambda I, a, order='C': m_ravel(I, a, order),
    'reshape': _reshape_m, 'dot': _dot_m, 'todense': _todense, 'toarray': _toarray, 'tocsc': m_tosparse, 'tocsr': m_tosparse, 'tolil': m_tosparse,
    'tocoo': m_tosparse, 'todia': m_tosparse, 'asformat': m_tosparse, 'astype': _astype, 'conj': m_conj, 'conjugate': m_conj, 'transpose': lambda I, a: transpose(I, a),
    'diagonal': lambda I, a: m_diag(I, Arr(ArrC(a.shape, a.c.get, a.dtype, 'nd'))), 'fill': _fill, 'setdiag': _setdiag, 'multiply': _multiply, 'squeeze': lambda I, a: m_squeeze(I, a),
    'tolist': _tolist, 'item': _item, 'repeat': lambda I, a, n, axis=None: m_repeat(I, a, n, axis), 'prod': lambda I, a: m_prod(I, a),
    'trace': lambda I, a: m_trace(I, a), 'cumsum': lambda I, a: m_cumsum(I, a), 'argsort': lambda I, a: m_argsort(I, a),
    'getA': _toarray, 'eliminate_zeros': lambda I, a: None, 'sum_duplicates': lambda I, a: None,
}


# ------------------------------------------------------------------ sparse
@model(scipy.sparse.spdiags)
def m_spdiags(I, data, diags, m=None, n=None, format=None):
    d = asarr(I, data)
    k = asarr(I, diags)
    dc = d.c
    if not k.shape:
        off = k.get()
        ks = None
        nd = ONE
        kc = None
    else:
        kc = k.c
        nd = kc.shape[0]
    if m is None:
        m = n = dims(dc.shape)[-1]
    elif isinstance(m, (tuple, PList)):
        m, n = I.iterate(m)
    m, n = pdim(I, m), pdim(I, n)
    if len(dc.shape) == 1:
        rd = lambda q, j: asp(dc.get(j))
        L = dc.shape[0]
        rows = ONE
    else:
        rd = lambda q, j: asp(dc.get(q, j))
        L = dc.shape[1]
        rows = dc.shape[0]
    if not dim_eq(I, rows, nd):
        raise PyExc('ValueError', 'number of diagonals does not match the number of offsets')
    full = L is n or I.ctx.prove(le(n, L))

    def g(i, j):
        if kc is None:
            r = iv(eq(j - i, off)) * rd(ZERO, j)
        else:
            r = sum_(nd, lambda q: iv(eq(j - i, asp(kc.get(q)))) * rd(q, j))
        return r if full else iv(lt(j, L)) * r
    return Arr.of((m, n), g, 'f' if dc.dtype != 'c' else 'c', 'sp')


@model(scipy.sparse.diags)
def m_spdiag2(I, d, offsets=0, shape=None, format=None, dtype=None):
    d = asarr(I, d)
    k = num(offsets).intval() if isnum(offsets) else None
    if k != 0 or len(d.shape) != 1 or shape is not None:
        raise Unsupported('sparse.diags')
    c = d.c
    n = c.shape[0]
    return Arr.of((n, n), lambda i, j: iv(eq(i, j)) * asp(c.get(j)), c.dtype, 'sp')


@model(scipy.sparse.eye, scipy.sparse.identity)
def m_speye(I, n, m=None, k=0, dtype=None, format=None):
    r = m_eye(I, n, m, k)
    return Arr(ArrC(r.shape, r.c.get, 'f', 'sp'))


@model(scipy.sparse.csc_matrix, scipy.sparse.csr_matrix, scipy.sparse.coo_matrix, scipy.sparse.lil_matrix)
def m_csc(I, a, shape=None, dtype=None, copy=False):
    if isinstance(a, tuple):
        if len(a) == 2 and isinstance(a[1], (tuple, PList)):
            data = asarr(I, a[0]).c
            r, c = [asarr(I, x).c for x in I.iterate(a[1])]
            if len(r.shape) != 1 or len(data.shape) != 1:
                raise Unsupported('coo rank')
            if shape is None:
                raise Unsupported('coo without shape')
            sh = shape_arg(I, shape)
            n = data.shape[0]
            return Arr.of(sh, lambda i, j: sum_(n, lambda q: iv(eq(i, asp(r.get(q)))) * iv(eq(j, asp(c.get(q)))) * asp(data.get(q))), 'f', 'sp')
        if len(a) == 2 and all(isnum(x) for x in a):
            return Arr.of((pdim(I, a[0]), pdim(I, a[1])), lambda i, j: ZERO, 'f', 'sp')
        raise Unsupported('csc_matrix arguments')
    a = asarr(I, a)
    c = a.c
    if len(c.shape) == 1:
        return Arr.of((ONE,) + c.shape, lambda i, j: c.get(j), c.dtype, 'sp')
    return Arr(ArrC(c.shape, c.get, c.dtype, 'sp'))


@model(scipy.sparse.kron)
def m_kron(I, a, b, format=None):
    a, b = asarr(I, a).c, asarr(I, b).c
    W = oracle_ctx(I)

    def g(i, j):
        with W():
            ia, ib = idiv(i, b.shape[0]), imod(i, b.shape[0])
            ja, jb = idiv(j, b.shape[1]), imod(j, b.shape[1])
        return asp(a.get(ia, ja)) * asp(b.get(ib, jb))
    return Arr.of((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), g, 'f', 'sp')


@model(np.kron)
def m_npkron(I, a, b):
    r = m_kron(I, a, b)
    return Arr(ArrC(r.shape, r.c.get, 'f', 'nd'))


@model(scipy.sparse.hstack)
def m_sphstack(I, seq, format=None, dtype=None):
    r = concat(I, [sp2(I, x) for x in I.iterate(seq)], 1)
    return Arr(ArrC(r.shape, r.c.get, r.dtype, 'sp'))


@model(scipy.sparse.vstack)
def m_spvstack(I, seq, format=None, dtype=None):
    r = concat(I, [sp2(I, x) for x in I.iterate(seq)], 0)
    return Arr(ArrC(r.shape, r.c.get, r.dtype, 'sp'))


def sp2(I, x):
    x = asarr(I, x)
    if len(x.shape) == 1:
        c = x.c
        return Arr.of((ONE,) + c.shape, lambda i, j: c.get(j), c.dtype, 'sp')
    return x


@model(scipy.sparse.block_diag)
def m_blockdiag(I, seq, format=None):
    cs = [sp2(I, x).c for x in I.iterate(seq)]
    ro, co = [ZERO], [ZERO]
    for c in cs:
        ro.append(ro[-1] + c.shape[0])
        co.append(co[-1] + c.shape[1])

    def g(i, j):
        r = ZERO
        for k, c in enumerate(cs):
            cond = band(le(ro[k], i), lt(i, ro[k + 1]), le(co[k], j), lt(j, co[k + 1]))
            if cond is not FALSE:
                r = r + iv(cond) * asp(c.get(i - ro[k], j - co[k]))
        return r
    return Arr.of((ro[-1], co[-1]), g, 'f', 'sp')


@model(scipy.sparse.issparse, scipy.sparse.isspmatrix)
def m_issparse(I, a):
    return isinstance(a, Arr) and a.kind == 'sp'


def diagonal_of(I, c):
    """the diagonal of a matrix that is diagonal by construction, else None"""
    n = c.shape[0]
    i, j = fresh('di', 'int', (ZERO, n)), fresh('dj', 'int', (ZERO, n))
    e = asp(c.get(i, j))
    if not e.t:
        return None
    for m in e.t:
        if not any(a.kind == 'iv' and a.args[0] is eq(i, j) for a, x in m):
            return None
    return lambda k: asp(c.get(k, k))


def solve_ext(I, ca, cb, what):
    """x with A x = b (assumed contract of the sparse direct solvers)"""
    if not dim_eq(I, ca.shape[0], ca.shape[1]):
        raise PyExc('ValueError', 'matrix must be square')
    if not dim_eq(I, ca.shape[0], cb.shape[0]):
        raise PyExc('ValueError', 'dimension mismatch')
    I.externals.add(what)
    d = diagonal_of(I, ca)
    if d is not None:       # a diagonal system is a division
        if len(cb.shape) == 1:
            return Arr.of((ca.shape[1],), lambda i: power(d(i), -1) * asp(cb.get(i)), 'f')
        return Arr.of((ca.shape[1], cb.shape[1]), lambda i, j: power(d(i), -1) * asp(cb.get(i, j)), 'f')
    LA, LB = lamof(ca), lamof(cb)
    if len(cb.shape) == 1:
        return Arr.of((ca.shape[1],), lambda i: ext('linsolve', (LA, LB), (i,)), 'f')
    return Arr.of((ca.shape[1], cb.shape[1]), lambda i, j: ext('linsolve', (LA, LB), (i, j)), 'f')


@model(scipy.sparse.linalg.spsolve)
def m_spsolve(I, A, b, permc_spec=None, use_umfpack=True):
    A, b = asarr(I, A), asarr(I, b)
    cb = b.c
    if len(cb.shape) == 2 and cb.shape[1] is ONE:
        cb2 = cb
        cb = ArrC((cb2.shape[0],), lambda i: cb2.get(i, ZERO), cb2.dtype)
    r = solve_ext(I, A.c, cb, 'scipy.sparse.linalg.spsolve')
    if b.kind == 'sp' and len(r.shape) == 2:
        return Arr(ArrC(r.shape, r.c.get, 'f', 'sp'))
    return r


@model(np.linalg.solve, scipy.linalg.solve)
def m_npsolve(I, A, b):
    return solve_ext(I, asarr(I, A).c, asarr(I, b).c, 'numpy.linalg.solve')


@model(np.linalg.inv, scipy.linalg.inv, scipy.sparse.linalg.inv)
def m_inv(I, A):
    a = asarr(I, A)
    e = m_eye(I, I.mkint(a.shape[0]))
    r = solve_ext(I, a.c, e.c, 'inv')
    return Arr(ArrC(r.shape, r.c.get, 'f', a.kind))


@model(scipy.sparse.linalg.splu)
def m_splu(I, A, *args, **kw):
    A = asarr(I, A)
    c = A.c
    o = Opaque('splu')
    o.matrix = c

    def slv(I, b, trans='N'):
        if trans != 'N':
            raise Unsupported('transposed solve')
        return solve_ext(I, c, asarr(I, b).c, 'scipy.sparse.linalg.splu')
    o.methods = {'solve': slv}
    # P_r A P_c = L U with row/column exchanges perm_r, perm_c (P_c = 1 for the natural ordering)
    LM = lamof(c)
    n = c.shape[0]
    natural = kw.get('permc_spec') == 'NATURAL'

    def perm(nm):
        def g(i):
            p = ext(nm, (LM,), (i,), 'int')
            atom_of(p).rng = (ZERO, n)
            return p
        return Arr.of((n,), g, 'i')
    I.externals.add('scipy.sparse.linalg.splu')
    o.attrs = {'L': Arr.of((n, n), lambda i, j: ext('lu_L', (LM,), (i, j)), 'f', 'sp'), 'U': Arr.of((n, n), lambda i, j: ext('lu_U', (LM,), (i, j)), 'f', 'sp'),
               'perm_r': perm('lu_perm_r'), 'perm_c': Arr.of((n,), lambda i: i, 'i') if natural else perm('lu_perm_c'), 'shape': (SV(n, 'int'), SV(n, 'int'))}
    return o


@model(np.linalg.lstsq)
def m_lstsq(I, A, b, rcond='warn'):
    ca, cb = asarr(I, A).c, asarr(I, b).c
    if not dim_eq(I, ca.shape[0], cb.shape[0]):
        raise PyExc('LinAlgError', 'incompatible dimensions')
    I.externals.add('numpy.linalg.lstsq')
    LA, LB = lamof(ca), lamof(cb)
    # the cut-off of small singular values is part of the problem: only the default (machine precision) is 'lstsq'
    nm = 'lstsq' if rcond is None or rcond == 'warn' or rcond == -1 else 'lstsq_rcond_%r' % (rcond,)
    if len(cb.shape) == 1:
        x = Arr.of((ca.shape[1],), lambda i: ext(nm, (LA, LB), (i,)), 'f')
    else:
        x = Arr.of((ca.shape[1], cb.shape[1]), lambda i, j: ext(nm, (LA, LB), (i, j)), 'f')
    return (x, Opaque('residuals'), Opaque('rank'), Opaque('sv'))


@model(scipy.special.lpmv)
def m_lpmv(I, m, v, x):
    return elementwise(I, num_f(lambda a, b, c: T.fn('lpmv', a, b, c)), [m, v, x], dtype='f')


# ------------------------------------------------------------------ builtins
@model(builtins.range)
def m_range(I, *a):
    ps = [pdim(I, x) for x in a]
    ks = [p.intval() for p in ps]
    if all(k is not None for k in ks):
        return range(*ks)
    if len(ps) == 1:
        return SymRange(ZERO, ps[0])
    if len(ps) == 2 or ks[2] == 1:
        return SymRange(ps[0], ps[1])
    raise Unsupported('symbolic range with a step')


@model(builtins.len)
def m_len(I, v):
    if isinstance(v, Arr):
        if not v.shape:
            raise PyExc('TypeError', 'len() of unsized object')
        if getattr(v, 'maskof', None) is not None:
            raise Unsupported('len of masked selection')
        return I.mkint(v.shape[0])
    if isinstance(v, OArr):
        return v.shape[0]
    if isinstance(v, (PList, PDict)):
        return len(v.st)
    if isinstance(v, (SymRange, SymSeq)):
        return I.mkint(v.n)
    if isinstance(v, (SV, SB, int, Obj)) or v is None:
        raise PyExc('TypeError', 'object has no len()')
    if isinstance(v, OpaqueStr):
        raise Unsupported('len of opaque string')
    return len(v)


def trunc(I, p):
    if p.is_int:
        return p
    c = p.const()
    if c is not None:
        return C(int(c))
    if is_nonneg(p) or I.ctx.prove(le(ZERO, p)):
        return T.fn('floor', p)
    return ite(le(ZERO, p), T.fn('floor', p), -T.fn('floor', -p))


@model(builtins.int, np.int64)
def m_int(I, v=0):
    if isinstance(v, str):
        return int(v)
    if isinstance(v, Arr):
        v = scalar_out(I, aspoly0(v), v.dtype)
    if v is None or isinstance(v, (PList, PDict, Obj)):
        raise PyExc('TypeError', 'int() argument')
    return I.mkint(trunc(I, num(I.lift(v))))


@model(builtins.float, np.float64)
def m_float(I, v=0.0):
    if isinstance(v, str):
        return I.lift(float(v))
    if isinstance(v, Arr):
        v = scalar_out(I, aspoly0(v), v.dtype)
    if v is None or isinstance(v, (PList, PDict, Obj)):
        raise PyExc('TypeError', 'float() argument')
    return SV(num(I.lift(v)), 'float')


@model(builtins.bool)
def m_bool(I, v=False):
    t = I.truth(v)
    return t if isinstance(t, bool) else SB(t)


@model(builtins.round)
def m_round(I, v, nd=None):
    c = num(v).const()
    if c is None:
        raise Unsupported('round')
    r = round(c, nd) if nd is not None else round(c)
    return I.lift(float(r)) if nd is not None else int(r)


def fold_minmax(I, args, key, op):
    if key is not None:
        raise Unsupported('min/max key')
    if len(args) == 1:
        if isinstance(args[0], Arr):
            if len(args[0].shape) != 1:
                raise Unsupported('builtin max of a 2-D array')
            return (m_max if op == 'max' else m_min)(I, args[0])
        args = I.iterate(args[0])
        if not args:
            raise PyExc('ValueError', 'max() arg is an empty sequence')
    args = [I.lift(a) if isinstance(a, (float, np.generic)) else a for a in args]
    args = [scalar_out(I, aspoly0(a), a.dtype) if isinstance(a, Arr) else a for a in args]
    if all(isinstance(a, int) for a in args):
        return max(args) if op == 'max' else min(args)
    if not all(isnum(a) for a in args):
        if all(isinstance(a, str) for a in args):
            return max(args) if op == 'max' else min(args)
        raise PyExc('TypeError', 'min/max operands')
    r = num(args[0])
    k = kindof(args[0])
    for a in args[1:]:
        x = num(a)
        c = lt(r, x) if op == 'max' else lt(x, r)
        d = I.ctx.decide(c, 100)
        r = x if d is True else r if d is False else ite(c, x, r)
        k = k if k == kindof(a) else 'float'
    return I.mkint(r) if k == 'int' else SV(r, 'float')


@model(builtins.max)
def m_bmax(I, *args, key=None, default=None):
    return fold_minmax(I, args, key, 'max')


@model(builtins.min)
def m_bmin(I, *args, key=None, default=None):
    return fold_minmax(I, args, key, 'min')


@model(builtins.sum)
def m_bsum(I, it, start=0):
    if isinstance(it, Arr) and it.shape[0].intval() is None:
        if len(it.shape) == 1:
            return binop(I, ast.Add(), m_sum(I, it), start)
        r = m_sum(I, it, 0)
        return r
    r = start
    if isinstance(it, SymSeq):
        e = it.value
        if isinstance(e, Arr):
            t = Arr.of(e.shape, lambda *k: sum_(it.n, lambda i: it.at(i).c.get(*k)), e.dtype)
        elif isnum(e) and not isinstance(e, SB):
            t = SV(sum_(it.n, lambda i: num(it.at(i))), kindof(e))
        else:
            raise Unsupported('sum of a list of symbolic length')
        return binop(I, ast.Add(), r, t)
    for x in I.iterate(it):
        r = binop(I, ast.Add(), r, x)
    return r


@model(builtins.enumerate)
def m_enum(I, it, start=0):
    if I.symiter(it) is not None:
        return ('enumsym', it, num(start))
    return PList([(start + k, x) for k, x in enumerate(I.iterate(it))])


@model(builtins.zip)
def m_zip(I, *its):
    if any(I.symiter(it) is not None for it in its):
        if any(I.symiter(it) is None for it in its):
            raise Unsupported('zip of mixed iterables')
        return ('zipsym', list(its))
    return PList(list(zip(*[I.iterate(it) for it in its])))


@model(builtins.reversed)
def m_reversed(I, it):
    return PList(list(reversed(I.iterate(it))))


@model(builtins.map)
def m_map(I, f, *its):
    return PList([I.call(f, list(xs)) for xs in zip(*[I.iterate(i) for i in its])])


@model(builtins.list)
def m_list(I, it=()):
    return PList(I.iterate(it))


@model(builtins.tuple)
def m_tuple(I, it=()):
    return tuple(I.iterate(it))


@model(builtins.set, builtins.frozenset)
def m_set(I, it=()):
    return frozenset(I.hashkey(x) for x in I.iterate(it))


@model(builtins.dict)
def m_dict(I, it=None, **kw):
    d = {}
    if isinstance(it, PDict):
        d.update(it.st)
    elif it is not None:
        for k, v in [tuple(I.iterate(x)) for x in I.iterate(it)]:
            d[I.hashkey(k)] = v
    d.update(kw)
    return PDict(d)


@model(builtins.sorted)
def m_sorted(I, it, key=None, reverse=False):
    xs = I.iterate(it)
    if key is None and all(isinstance(x, (int, str)) for x in xs):
        return PList(sorted(xs, reverse=bool(reverse)))
    raise Unsupported('sorted')


@model(builtins.all)
def m_ball(I, it):
    acc = TRUE
    for x in I.iterate(it):
        t = I.truth(x)
        acc = band(acc, mkbool(t) if isinstance(t, bool) else t)
    return True if acc is TRUE else False if acc is FALSE else SB(acc)


@model(builtins.any)
def m_bany(I, it):
    acc = FALSE
    for x in I.iterate(it):
        t = I.truth(x)
        acc = bor(acc, mkbool(t) if isinstance(t, bool) else t)
    return True if acc is TRUE else False if acc is FALSE else SB(acc)


@model(builtins.str, builtins.repr, builtins.format)
def m_str(I, v='', *a):
    if isinstance(v, (str, OpaqueStr)):
        return v
    if isinstance(v, int):
        return str(v)
    return '<str>'


@model(builtins.print, warnings.warn, np.set_printoptions, np.seterr, time.sleep)
def m_noop(I, *a, **k):
    return None


@model(time.time, time.perf_counter)
def m_time(I):
    return SV(fresh('time', 'real'), 'float')


@model(sys.exit)
def m_exit(I, *a):
    raise PyExc('SystemExit', cls=SystemExit)


@model(builtins.isinstance)
def m_isinstance(I, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if isinst1(v, x):
            return True
    return False


def isinst1(v, x):
    if isinstance(v, Arr):
        if v.kind == 'nd':
            return x is np.ndarray or x is object
        if v.kind == 'mat':
            return x in (np.ndarray, np.matrix)
        return x in (scipy.sparse.spmatrix, scipy.sparse.csc_matrix)
    if isinstance(v, OArr):
        return x is np.ndarray
    if isinstance(v, PList):
        return x is list
    if isinstance(v, PDict):
        return x is dict
    if isinstance(v, (str, OpaqueStr)):
        return x is str
    if isinstance(v, bool):
        return x in (bool, int)
    if isinstance(v, SB):
        return x is np.bool_ if v.np else x in (bool, int)
    if isinstance(v, SV):
        if v.kind == 'int':
            return x in (int, np.integer)
        return x in (float, np.floating, np.float64)
    if isinstance(v, Obj):
        return isinstance(x, type) and issubclass(v.cls, x)
    if isinstance(v, (Opaque, Closure, BoundFn)):
        if x in (str, int, float, list, dict, tuple, np.ndarray):
            return False
        raise Unsupported('isinstance of opaque value')
    return isinstance(x, type) and isinstance(v, x)


@model(builtins.hasattr)
def m_hasattr(I, v, n):
    try:
        I.getattr(v, n)
        return True
    except PyExc as ex:
        if ex.name == 'AttributeError':
            return False
        raise


@model(builtins.getattr)
def m_getattr(I, v, n, *d):
    try:
        return I.getattr(v, n)
    except PyExc as ex:
        if d and ex.name == 'AttributeError':
            return d[0]
        raise


@model(builtins.setattr)
def m_setattr(I, v, n, x):
    I.setattr(v, n, x)


@model(builtins.type)
def m_type(I, v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Arr) and v.kind == 'nd' or isinstance(v, OArr):
        return np.ndarray
    if isinstance(v, PList):
        return list
    if isinstance(v, PDict):
        return dict
    if isinstance(v, SV):
        return int if v.kind == 'int' else float
    if isinstance(v, (str, int, tuple)) or v is None:
        return type(v)
    raise Unsupported('type()')


@model(builtins.callable)
def m_callable(I, v):
    return isinstance(v, (Closure, BoundFn, Bound, types.FunctionType)) or callable(v) and not isinstance(v, (Arr, Obj))


@model(builtins.id)
def m_id(I, v):
    raise Unsupported('id()')


@model(builtins.vars)
def m_vars(I, v):
    return PDict(dict(v.st))


@model(builtins.slice)
def m_slice(I, *a):
    return slice(*a)


@model(builtins.divmod)
def m_divmod(I, a, b):
    return (binop(I, ast.FloorDiv(), a, b), binop(I, ast.Mod(), a, b))


def _copy_val(I, v):
    if isinstance(v, Arr):
        return _copy_m(I, v)
    if isinstance(v, OArr):
        return OArr(v.shape, v.st)
    if isinstance(v, PList):
        return PList(list(v.st))
    if isinstance(v, PDict):
        return PDict(dict(v.st))
    if isinstance(v, Obj):
        return Obj(v.cls, dict(v.st), v.name)
    return v


@model(_copymod.copy)
def m_copy(I, v):
    return _copy_val(I, v)


def deep(I, v, memo):
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        r = _copy_m(I, v)
    elif isinstance(v, OArr):
        r = OArr(v.shape)
        memo[id(v)] = r
        r.st = {k: deep(I, x, memo) for k, x in v.st.items()}
    elif isinstance(v, PList):
        r = PList([])
        memo[id(v)] = r
        r.st = [deep(I, x, memo) for x in v.st]
    elif isinstance(v, PDict):
        r = PDict({})
        memo[id(v)] = r
        r.st = {k: deep(I, x, memo) for k, x in v.st.items()}
    elif isinstance(v, Obj):
        r = Obj(v.cls, {}, v.name)
        memo[id(v)] = r
        r.st = {k: deep(I, x, memo) for k, x in v.st.items()}
    elif isinstance(v, tuple):
        r = tuple(deep(I, x, memo) for x in v)
    else:
        r = v
    memo[id(v)] = r
    return r


@model(_copymod.deepcopy)
def m_deepcopy(I, v, memo=None):
    return deep(I, v, {})


@model(os.getpid)
def m_pid(I):
    return 0


# multiprocessing: a child's effects reach the parent only through the managed dictionary
import multiprocessing


class ManagedDict(PDict):
    pass


@model(multiprocessing.Manager)
def m_manager(I):
    o = Opaque('Manager')
    o.methods = {'dict': lambda I, *a: ManagedDict({}), 'list': lambda I, *a: ManagedList([])}
    return o


class ManagedList(PList):
    pass


@model(multiprocessing.Process)
def m_process(I, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
    o = Opaque('Process')
    tgt, ar = target, list(I.iterate(args))
    kws = dict(kwargs.st) if kwargs is not None else {}

    def start(I):
        snap = snapshot()
        I.call(tgt, ar, kws)
        for h in list(HeapObj.reg):        # what the child puts there travels by value
            if isinstance(h, ManagedDict):
                h.st = {q: deep(I, v, {}) for q, v in h.st.items()}
            elif isinstance(h, ManagedList):
                h.st = [deep(I, v, {}) for v in h.st]
        keep = [(h, copy_state(h)) for h in HeapObj.reg if isinstance(h, (ManagedDict, ManagedList))]
        restore(snap)
        restore(keep)
    o.methods = {'start': start, 'join': lambda I, *a: None}
    return o


MODELS[multiprocessing.current_process] = lambda I: Opaque('current_process')


# ------------------------------------------------------------------ pydantic
def pydantic_new(I, cls, kw):
    o = Obj(cls)
    fields = cls.__fields__
    extra = cls.__config__.extra
    for k, f in fields.items():
        if k in kw:
            v = coerce_field(I, f, kw[k])
        elif f.required:
            raise PyExc('ValidationError', k, cls=ValueError)
        else:
            v = I.lift(_copymod.deepcopy(f.default)) if f.default_factory is None else I.lift(f.default_factory())
            o.st[k] = v
            continue
        for vname, val in (f.class_validators or {}).items():
            fn_ = val.func
            raw = getattr(fn_, '__func__', fn_)
            try:
                v = run_validator(I, cls, raw, v, o)
            except PyExc as ex:
                if ex.name in ('ValueError', 'TypeError', 'AssertionError') or (ex.cls and issubclass(ex.cls, (ValueError, TypeError, AssertionError))):
                    raise PyExc('ValidationError', k, cls=ValueError)
                raise
        o.st[k] = v
    for k in kw:
        if k not in fields:
            if str(extra.value if hasattr(extra, 'value') else extra) == 'forbid':
                raise PyExc('ValidationError', k, cls=ValueError)
            if str(extra.value if hasattr(extra, 'value') else extra) == 'allow':
                o.st[k] = kw[k]
    return o


def run_validator(I, cls, raw, v, o):
    import inspect
    n = len(inspect.signature(raw).parameters)
    args = [cls, v]
    if n >= 3:
        args.append(PDict(dict(o.st)))
    return I.call_fn(raw, args)


def coerce_field(I, f, v):
    """pydantic v1 field coercion for the simple field types used here"""
    t = f.outer_type_
    if v is None:
        if f.allow_none:
            return None
        raise PyExc('ValidationError', f.name, cls=ValueError)
    if t is str:
        if isinstance(v, (str, OpaqueStr)):
            return v
        if isinstance(v, bool) or isinstance(v, (SB, PList, PDict, Arr)):
            raise PyExc('ValidationError', f.name, cls=ValueError)
        if isinstance(v, (int, SV)):
            return '<number>'
        raise PyExc('ValidationError', f.name, cls=ValueError)
    if t is bool:
        if isinstance(v, (bool, SB)):
            return v
        if isinstance(v, int):
            if v in (0, 1):
                return bool(v)
            raise PyExc('ValidationError', f.name, cls=ValueError)
        if isinstance(v, str):
            s = v.lower()
            if s in ('1', 'true', 't', 'yes', 'y', 'on'):
                return True
            if s in ('0', 'false', 'f', 'no', 'n', 'off'):
                return False
            raise PyExc('ValidationError', f.name, cls=ValueError)
        if isinstance(v, OpaqueStr):
            raise PyExc('ValidationError', f.name, cls=ValueError)
        raise Unsupported('bool coercion')
    if t is int:
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, SV):
            return v if v.kind == 'int' else I.mkint(trunc(I, v.p))
        if isinstance(v, (str, OpaqueStr)):
            try:
                return int(v) if isinstance(v, str) else (_ for _ in ()).throw(ValueError())
            except ValueError:
                raise PyExc('ValidationError', f.name, cls=ValueError)
        raise PyExc('ValidationError', f.name, cls=ValueError)
    if t is float:
        if isinstance(v, (bool, int, SV)):
            return SV(num(v), 'float')
        if isinstance(v, str):
            try:
                return I.lift(float(v))
            except ValueError:
                raise PyExc('ValidationError', f.name, cls=ValueError)
        raise PyExc('ValidationError', f.name, cls=ValueError)
    if str(t) in ('typing.List', 'typing.List[int]', 'typing.List[float]') or t is list:
        return v
    return v


# ------------------------------------------------------------------ fallback
def unlift(v):
    if isinstance(v, (int, str)) or v is None:
        return v
    if isinstance(v, SV):
        c = v.p.const()
        if c is None:
            raise Unsupported('symbolic argument to an unmodelled function')
        return int(c) if v.kind == 'int' else float(c)
    if isinstance(v, tuple):
        return tuple(unlift(x) for x in v)
    if isinstance(v, PList):
        return [unlift(x) for x in v.st]
    if isinstance(v, (type, np.dtype)):
        return v
    raise Unsupported('argument of an unmodelled function')


PURE = ('numpy', 'math', 'scipy', 'builtins', 'operator')


def fallback(I, f, args, kw):
    mod = (getattr(f, '__module__', None) or type(f).__module__ or '').split('.')[0]
    name = f'{getattr(f, "__module__", "")}.{getattr(f, "__name__", f)}'
    if mod in PURE or isinstance(f, np.ufunc):
        try:
            a = [unlift(x) for x in args]
            k = {q: unlift(x) for q, x in kw.items()}
        except Unsupported:
            raise Unsupported(f'call of unmodelled function {name}')
        try:
            return I.lift(f(*a, **k))
        except Exception as ex:
            raise PyExc(type(ex).__name__, str(ex))
    raise Unsupported(f'call of unmodelled function {name}')


# ------------------------------------------------------------------ eigensolver and iterative solvers (assumed contracts)
import scipy.sparse.linalg as _ssl


@model(_ssl.eigs)
def m_eigs(I, A, k=6, M=None, sigma=None, which='LM', v0=None, **kw):
    """k eigenvalues nearest to sigma and their vectors: uninterpreted functions of the matrix, k and sigma"""
    if M is not None or kw.get('return_eigenvectors', True) is not True or kw.get('OPinv') is not None or sigma is None:
        raise Unsupported('eigs options')
    A = asarr(I, A)
    c = A.c
    if not dim_eq(I, c.shape[0], c.shape[1]):
        raise PyExc('ValueError', 'expected square matrix')
    I.externals.add('scipy.sparse.linalg.eigs (returns finite real eigenpairs)')
    L, kk, sg = lamof(c), pdim(I, k), num(sigma)
    n = c.shape[0]
    return (Arr.of((kk,), lambda i: ext('eigs_val', (L, kk, sg), (i,)), 'f'), Arr.of((n, kk), lambda p, i: ext('eigs_vec', (L, kk, sg), (p, i)), 'f'))


@model(_ssl.spilu)
def m_spilu(I, A, *args, **kw):
    asarr(I, A)
    o = Opaque('spilu')

    def slv(I, b, trans='N'):
        raise Unsupported('incomplete factorisation solve')
    o.methods = {'solve': slv}
    return o


@model(_ssl.LinearOperator)
def m_linop(I, shape, matvec=None, **kw):
    return Opaque('LinearOperator')


def _krylov(name):
    def f(I, A, b, x0=None, tol=None, maxiter=None, M=None, **kw):
        A, b = asarr(I, A), asarr(I, b)
        r = solve_ext(I, A.c, b.c, f'scipy.sparse.linalg.{name} (converges to the solution)')
        return (r, SV(ZERO, 'int'))
    return f


for _n in ('bicgstab', 'bicg', 'qmr', 'gmres', 'cgs', 'lgmres'):
    model(getattr(_ssl, _n))(_krylov(_n))


# ------------------------------------------------------------------ libxc (assumed: a pointwise function of density and gradient invariants)
import pylibxc as _xc


def xc_value(kind, k, fid, spin, xs):
    return app('xc_' + kind, (C(k), fid, C(spin)) + tuple(xs), 'real')


def xc_outputs(I, fid, spin, rho, sigma=None):
    """dictionary of arrays of one functional evaluation"""
    N = rho.shape[0]
    pol = spin
    rc, sc = rho.c, sigma.c if sigma is not None else None
    ns = 0 if sigma is None else (1 if pol == 1 else 3)
    at = lambda p: [rc.get(p, C(i)) for i in range(pol)] + [sc.get(p, C(i)) for i in range(ns)]
    f = lambda kind, n: Arr.of((N, C(n)), lambda p, s: pick([xc_value(kind, k, fid, pol, at(p)) for k in range(n)], s), 'f')
    out = {'zk': f('zk', 1), 'vrho': f('vrho', pol)}
    if ns:
        out['vsigma'] = f('vsigma', ns)
    return out


@model(_xc.LibXCFunctional)
def m_libxc(I, func_name, spin):
    sp = I.small_int(num(spin)) if not isinstance(spin, int) else spin
    if sp is None:
        raise Unsupported('symbolic spin of a functional')
    if sp not in (1, 2):
        raise PyExc('ValueError', 'spin')
    o = Opaque('LibXCFunctional')

    def compute(I, inp, *a, **kw):
        if a or kw:
            raise Unsupported('options of the functional')
        I.externals.add('pylibxc.LibXCFunctional.compute (a pointwise function of the densities and contracted gradients)')
        rho = inp.st['rho']
        sg = inp.st.get('sigma')
        if rho.ndim != 2 or not dim_eq(I, rho.shape[1], C(sp)):
            raise Unsupported('density handed to libxc')
        if sg is not None and not dim_eq(I, sg.shape[1], C(1 if sp == 1 else 3)):
            raise Unsupported('sigma handed to libxc')
        return PDict(xc_outputs(I, num(func_name), sp, rho, sg))
    o.methods = {'compute': compute, 'get_family': lambda I: 1}
    return o
