"""Numeric evaluation of terms (used to replay obligations against the real code)."""
import math
import numpy as np
import scipy.special
import scipy.linalg
from .terms import *
from . import terms as T


class EvalError(Exception):
    pass


def _mix(h):
    h = np.asarray(h, dtype=np.uint64)
    with np.errstate(over='ignore'):
        h = (h ^ (h >> np.uint64(30))) * np.uint64(0xbf58476d1ce4e5b9)
        h = (h ^ (h >> np.uint64(27))) * np.uint64(0x94d049bb133111eb)
        h = h ^ (h >> np.uint64(31))
    return h


def _strhash(s):
    h = 1469598103934665603
    for ch in s.encode():
        h = ((h ^ ch) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return h


EXT = {}


def extfn(name):
    def d(f):
        EXT[name] = f
        return f
    return d


@extfn('linsolve')
def _linsolve(A, b):
    return np.linalg.solve(A, b)


@extfn('lstsq')
def _lstsq(A, b):
    return np.linalg.lstsq(A, b, rcond=None)[0]


@extfn('argsort')
def _argsort(a):
    return np.argsort(a)


def _eigs(A, k, sigma):
    import scipy.sparse
    import scipy.sparse.linalg as ssl
    n, k = A.shape[0], int(round(k))
    if k >= n - 1:
        raise EvalError('matrix too small for the Arnoldi solver')
    v, x = ssl.eigs(scipy.sparse.csc_matrix(A), k=k, sigma=sigma, v0=np.ones(n))
    return v.real, x.real


@extfn('eigs_val')
def _eigs_val(A, k, sigma):
    return _eigs(A, k, sigma)[0]


@extfn('eigs_vec')
def _eigs_vec(A, k, sigma):
    return _eigs(A, k, sigma)[1]


class Valuation:
    """numeric interpretation of free symbols and uninterpreted functions"""

    def __init__(self, seed=0, syms=None, dists=None, fns=None, flags=None, ext=None):
        self.seed = seed
        self.syms = dict(syms or {})      # name -> number
        self.dists = dict(dists or {})    # app/sym name -> 'pos' | 'any' | callable(u array)->array
        self.fns = dict(fns or {})        # app name -> vectorised python function of the index arrays
        self.flags = dict(flags or {})
        self.ext = dict(EXT)
        if ext:
            self.ext.update(ext)
        self.used = {}

    def u(self, name, idx):
        h = np.uint64((_strhash(name) ^ (self.seed * 0x9E3779B97F4A7C15)) & 0xFFFFFFFFFFFFFFFF)
        h = _mix(h)
        with np.errstate(over='ignore'):
            for i in idx:
                k = np.round(np.asarray(i, dtype=float) * 1024).astype(np.int64).astype(np.uint64)
                h = _mix(h * np.uint64(0x9E3779B97F4A7C15) + k + np.uint64(1))
        return (h >> np.uint64(11)).astype(float) / float(1 << 53)

    def dist(self, name, u, nonneg):
        d = self.dists.get(name)
        if d is None:
            for k in self.dists:
                if k.endswith('*') and name.startswith(k[:-1]):
                    d = self.dists[k]
                    break
        if d is None:
            d = 'pos' if nonneg else 'any'
        if d == 'pos':
            return 0.2 + 1.5 * u
        if d == 'any':
            return 4 * u - 2
        if d == 'small':
            return 0.2 * u - 0.1
        if d == 'unit':
            return u
        if d == 'int':
            return np.floor(u * 5) - 2
        if d == 'zeros':        # ties and zeros
            return np.where(u < 0.3, 0.0, 4 * u - 2)
        return d(u)

    def sym(self, a):
        if a is PI_A:
            return math.pi
        if a.name in self.syms:
            return self.syms[a.name]
        if a.name == 'NAN':
            return np.nan
        if a.name == 'INF':
            return np.inf
        if a.name == 'NINF':
            return -np.inf
        v = float(self.dist(a.name, self.u(a.name, ()), a.nonneg))
        if a.sort == 'int':
            v = int(abs(v) * 2) + 1
        self.syms[a.name] = v
        return v

    def app(self, a, args):
        if a.name.startswith('xc_') and a.name not in self.fns:
            from .pylibxc_stub import term
            return term(a.name[3:], *args)
        f = self.fns.get(a.name)
        if f is not None:
            return f(*args)
        u = self.u(a.name, args)
        v = self.dist(a.name, u, a.nonneg)
        if a.sort == 'int':
            v = np.floor(np.abs(v) * 3)
        return v


FN = {'sin': np.sin, 'cos': np.cos, 'sinh': np.sinh, 'cosh': np.cosh, 'exp': np.exp, 'log': np.log, 'log2': np.log2, 'log10': np.log10,
      'arccosh': np.arccosh, 'arcsinh': np.arcsinh, 'arctan': np.arctan, 'arccos': np.arccos, 'arcsin': np.arcsin, 'tanh': np.tanh,
      'erf': scipy.special.erf, 'floor': np.floor, 'abs': np.abs, 'sign': np.sign, 'lpmv': scipy.special.lpmv,
      'div': lambda a, b: np.floor_divide(a, b), 'pow': lambda a, b: np.power(np.asarray(a, float), b),
      'factorial': lambda a: scipy.special.factorial(a), 'recip0': lambda a: np.inf + 0 * a,
      'nan_to_num': lambda a, *r: np.nan_to_num(a, **dict(zip(('nan', 'posinf', 'neginf'), [float(x) for x in r])))}


class Ev:
    def __init__(self, val):
        self.val = val

    # env: dict atom -> array ; depth: number of axes
    def poly(self, p, env, depth, memo):
        r = memo.get(p)
        if r is not None:
            return r
        groups = {}
        for m, c in p.t.items():
            ivs = tuple(a for a, e in m if a.kind == 'iv')
            rest = tuple((a, e) for a, e in m if a.kind != 'iv')
            groups.setdefault(rest, []).append((c, ivs))
        tot = 0.0
        with np.errstate(all='ignore'):
            for rest, cs in groups.items():
                coef = 0.0
                for c, ivs in cs:
                    k = float(c)
                    for a in ivs:
                        k = k * self.atom(a, env, depth, memo)
                    coef = coef + k
                if isinstance(coef, np.ndarray):
                    coef = np.where(np.abs(coef) < 1e-13, 0.0, coef)
                    if not coef.any():
                        continue
                v = 1.0
                for a, e in rest:
                    x = self.atom(a, env, depth, memo)
                    if isinstance(e, int):
                        if e == 1:
                            v = v * x
                        elif e < 0:
                            v = v * (np.asarray(x, float) ** float(e))
                        else:
                            v = v * x ** e
                    else:
                        v = v * np.power(np.asarray(x, float), float(e))
                if isinstance(coef, np.ndarray):
                    tot = tot + np.where(coef == 0, 0.0, coef * v)
                elif coef != 0:
                    tot = tot + coef * v
        memo[p] = tot
        return tot

    def boolean(self, b, env, depth, memo):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b.op in ('le', 'lt', 'eq'):
            x = self.poly(b.args[0], env, depth, memo)
            return {'le': np.less_equal, 'lt': np.less, 'eq': np.equal}[b.op](x, 0)
        if b.op == 'not':
            return np.logical_not(self.boolean(b.args[0], env, depth, memo))
        if b.op == 'and':
            r = True
            for x in b.args:
                r = np.logical_and(r, self.boolean(x, env, depth, memo))
            return r
        if b.op == 'or':
            r = False
            for x in b.args:
                r = np.logical_or(r, self.boolean(x, env, depth, memo))
            return r
        n = b.args[0]
        args = [self.poly(x, env, depth, memo) for x in b.args[1:]]
        if n == 'isnan':
            return np.isnan(args[0])
        if n == 'isinf':
            return np.isinf(args[0])
        if n in self.val.flags:
            f = self.val.flags[n]
            return f(*args) if callable(f) else bool(f)
        if not args:
            f = bool(self.val.u('B' + n, ()) < 0.5)
            self.val.flags[n] = f
            return f
        return self.val.u('B' + n, args) < 0.5

    def atom(self, a, env, depth, memo):
        r = memo.get(a)
        if r is None:
            r = self._atom(a, env, depth, memo)
            memo[a] = r
        return r

    def _atom(self, a, env, depth, memo):
        k = a.kind
        if a in env:
            return env[a]
        if k == 'sym':
            return self.val.sym(a)
        if k == 'bv':
            raise EvalError('unbound')
        if k == 'num':
            return float(a.name)
        if k == 'app':
            return self.val.app(a, [self.poly(x, env, depth, memo) for x in a.args])
        if k == 'fn':
            return FN[a.name](*[self.poly(x, env, depth, memo) for x in a.args])
        if k == 'base':
            return self.poly(a.args[0], env, depth, memo)
        if k == 'iv':
            return np.asarray(self.boolean(a.args[0], env, depth, memo), float)
        if k == 'sum':
            vs, ns, body = open_binder(a)
            return self._sum(vs, ns, body, env, depth, memo)
        if k == 'big':
            vs, ns, body = open_binder(a)
            return self._red(vs[0], ns[0], body, env, depth, memo, a.name[1])
        if k == 'ext':
            return self._ext(a, env, depth, memo)
        raise EvalError(k)

    def _sum(self, vs, ns, body, env, depth, memo):
        ks = []
        for n in ns:
            x = np.asarray(self.poly(n, env, depth, memo))
            ks.append(x)
        e2 = dict(env)
        d = depth
        mask = None
        for v, x in zip(vs, ks):
            n = int(np.floor(x.max() + 1e-9)) if x.size else 0
            if n <= 0:
                return 0.0
            ar = np.arange(n).reshape((n,) + (1,) * d)
            e2[v] = ar
            if x.ndim > 0 and x.min() != x.max():
                mk = ar < x - 1e-9
                mask = mk if mask is None else np.logical_and(mask, mk)
            d += 1
        r = self.poly(body, e2, d, {})
        if mask is not None:
            r = np.where(mask, r, 0.0)
        r = np.asarray(r, float)
        full = [int(np.floor(x.max() + 1e-9)) for x in ks]
        for q, n in enumerate(reversed(full)):
            dd = d - q
            if r.ndim < dd:
                r = r * n
            elif r.shape[0] == 1 and n != 1:
                r = r[0] * n
            else:
                r = r.sum(axis=0)
        return r

    def _red(self, v, n, body, env, depth, memo, op):
        k = int(np.floor(np.max(self.poly(n, env, depth, memo)) + 1e-9))
        if k <= 0:
            return np.nan
        e2 = dict(env)
        e2[v] = np.arange(k).reshape((k,) + (1,) * depth)
        r = np.asarray(self.poly(body, e2, depth + 1, {}), float)
        if r.ndim < depth + 1:
            return r
        return (r.max if op == 'max' else r.min)(axis=0)

    def _ext(self, a, env, depth, memo):
        args = a.args
        cut = args.index('|') if '|' in [x for x in args if isinstance(x, str)] else None
        cut = [i for i, x in enumerate(args) if isinstance(x, str) and x == '|'][0]
        fargs, idx = args[:cut], args[cut + 1:]
        idxv = [self.poly(x, env, depth, memo) for x in idx]
        f = self.val.ext.get(a.name)
        if f is None:
            raise EvalError(f'no numeric interpretation of {a.name}')
        # do the function arguments depend on vectorised variables?
        dep = [v for v in env if any(isinstance(x, (Poly, Atom)) and v in x.fv for x in fargs)]
        dep = [v for v in dep if np.asarray(env[v]).size > 1]
        if not dep:
            key = ('ext', a.name, fargs)
            r = self.val.used.get(key) if not any(v in env for x in fargs if isinstance(x, (Poly, Atom)) for v in x.fv) else None
            if r is None:
                r = f(*[self.extarg(x, env, depth) for x in fargs])
                if not any(v in env for x in fargs if isinstance(x, (Poly, Atom)) for v in x.fv):
                    self.val.used[key] = r
            return self._index(r, idxv)
        shape = np.broadcast_shapes(*[np.shape(env[v]) for v in env], *[np.shape(x) for x in idxv])
        out = np.empty(shape)
        benv = {v: np.broadcast_to(env[v], shape) for v in env}
        bidx = [np.broadcast_to(x, shape) for x in idxv]
        cache = {}
        for pos in np.ndindex(*shape):
            e2 = {v: benv[v][pos] for v in env}
            key = tuple(float(e2[v]) for v in dep)
            if key not in cache:
                cache[key] = f(*[self.extarg(x, e2, 0) for x in fargs])
            out[pos] = self._index(cache[key], [x[pos] for x in bidx])
        return out

    def _index(self, r, idx):
        r = np.asarray(r)
        if not idx:
            return r if r.ndim == 0 else r.reshape(-1)[0]
        ii = []
        for k, x in enumerate(idx):
            ii.append(np.clip(np.asarray(np.round(np.asarray(x, float)), int), 0, r.shape[k] - 1))
        return r[tuple(ii)]

    def extarg(self, x, env, depth):
        if isinstance(x, Atom) and x.kind == 'lam':
            vs, ns, body = open_binder(x)
            ks = [int(np.floor(np.max(self.poly(n, env, depth, {})) + 1e-9)) for n in ns]
            e2 = {v: (np.asarray(y).reshape(-1)[0] if np.ndim(y) else y) for v, y in env.items() if v in x.fv}
            for j, (v, n) in enumerate(zip(vs, ks)):
                e2[v] = np.arange(n).reshape((n,) + (1,) * (len(vs) - 1 - j))
            r = self.poly(body, e2, len(vs), {})
            return np.array(np.broadcast_to(np.asarray(r, float), tuple(ks)))
        if isinstance(x, Poly):
            return float(np.asarray(self.poly(x, env, depth, {})).reshape(-1)[0])
        return x

    # ------------------------------------------------------------ whole arrays
    def content(self, c):
        """numpy array of an ArrC"""
        ks = [int(np.floor(np.max(self.poly(s, {}, 0, {})) + 1e-9)) for s in c.shape]
        vs = [fresh('nv', 'int', (ZERO, s)) for s in c.shape]
        if any(k == 0 for k in ks):
            return np.zeros(ks)
        env = {}
        for j, (v, n) in enumerate(zip(vs, ks)):
            env[atom_of(v)] = np.arange(n).reshape((n,) + (1,) * (len(ks) - 1 - j))
        p = c.get(*vs)
        if isinstance(p, B):
            r = self.boolean(p, env, len(ks), {})
            return np.array(np.broadcast_to(np.asarray(r, bool), tuple(ks)))
        r = self.poly(p, env, len(ks), {})
        r = np.array(np.broadcast_to(np.asarray(r, float), tuple(ks)))
        if c.dtype == 'i':
            r = np.round(r).astype(int)
        return r

    def scalar(self, p):
        if isinstance(p, B):
            return bool(np.asarray(self.boolean(p, {}, 0, {})))
        return float(np.asarray(self.poly(p, {}, 0, {})).reshape(-1)[0])
