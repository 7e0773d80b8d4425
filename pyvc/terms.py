"""PyVC term language.

Hash-consed polynomials with rational coefficients over atoms.  A monomial is a
sorted tuple of (atom, exponent); exponents are ints or Fractions.  Atoms:

  sym   free variable (int / real)
  bv    bound variable of a sum / lambda (canonically numbered)
  app   uninterpreted function application (array reads)
  fn    interpreted-by-name function (sin, floor, div, abs, erf ...)
  base  a polynomial with more than one term raised to a power
  num   a rational constant raised to a non-integral power
  iv    Iverson bracket of a boolean literal
  sum   a (multi-binder) sum over 0..n-1
  big   max / min over a range
  lam   a frozen array (argument of an external function)
  ext   an element of the result of an external (assumed) function

Semantics: real arithmetic; integer-sorted atoms range over the integers.
"""
from __future__ import annotations
from fractions import Fraction
from itertools import permutations
import math

_atoms = {}
_polys = {}
_count = [0]


class Atom:
    __slots__ = ('kind', 'name', 'args', 'sort', 'id', 'fv', 'hv', 'nonneg', 'rng', 'bvs')

    def __repr__(self):
        return show_atom(self)


def _mk(kind, name, args, sort):
    key = (kind, name, args, sort)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.name, a.args, a.sort = kind, name, args, sort
    a.id = len(_atoms)
    a.nonneg = False
    a.rng = None
    fv, hv, bvs = set(), 0, set()
    if kind == 'sym':
        fv.add(a)
    elif kind == 'bv':
        hv = name + 1
        bvs.add(a)
    else:
        for x in args:
            if isinstance(x, (Poly, B)):
                fv |= x.fv
                hv = max(hv, x.hv)
                bvs |= x.bvs
            elif isinstance(x, Atom):
                fv |= x.fv
                hv = max(hv, x.hv)
                bvs |= x.bvs
        if kind in ('sum', 'lam', 'big'):
            lo = name if kind != 'big' else name[0]
            n = len(args) - 1
            bvs = {b for b in bvs if not (lo <= b.name < lo + n)}
    a.fv = frozenset(fv)
    a.hv = hv
    a.bvs = frozenset(bvs)
    _atoms[key] = a
    return a


class Poly:
    __slots__ = ('t', 'fv', 'hv', 'id', 'bvs', '_int')

    def __repr__(self):
        return show(self)

    # arithmetic sugar -------------------------------------------------
    def __add__(self, o):
        return add(self, P(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(P(o)))

    def __rsub__(self, o):
        return add(P(o), neg(self))

    def __mul__(self, o):
        return mul(self, P(o))
    __rmul__ = __mul__

    def __neg__(self):
        return neg(self)

    def __truediv__(self, o):
        o = P(o)
        if len(o.t) > 1 and len(self.t) >= len(o.t):
            # (c q + r) / q = c + r / q  when that is shorter
            m, d = next(iter(o.t.items()))
            if m in self.t:
                c = self.t[m] / d
                r = self - C(c) * o
                if len(r.t) < len(self.t):
                    return C(c) + mul(r, power(o, -1))
        return mul(self, power(o, -1))

    def __rtruediv__(self, o):
        return mul(P(o), power(self, -1))

    def __pow__(self, q):
        return power(self, Fraction(q) if not isinstance(q, Poly) else q)

    # NB: equality is identity (hash-consed)
    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def intval(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    @property
    def is_int(self):
        if self._int is None:
            r = True
            for m, c in self.t.items():
                if c.denominator != 1:
                    r = False
                    break
                for a, e in m:
                    if a.sort != 'int' or not isinstance(e, int) or e < 0:
                        r = False
                        break
                if not r:
                    break
            self._int = r
        return self._int


def mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    key = frozenset(d.items())
    p = _polys.get(key)
    if p is not None:
        return p
    p = Poly()
    p.t = d
    p.id = len(_polys)
    fv, hv, bvs = set(), 0, set()
    for m in d:
        for a, e in m:
            fv |= a.fv
            hv = max(hv, a.hv)
            bvs |= a.bvs
    p.fv = frozenset(fv)
    p.hv = hv
    p.bvs = frozenset(bvs)
    p._int = None
    _polys[key] = p
    return p


ZERO = mkpoly({})
ONE = mkpoly({(): Fraction(1)})


def C(c):
    return mkpoly({(): Fraction(c)})


def frac(x):
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise ValueError('non-finite constant')
        return Fraction(repr(x))
    return Fraction(x)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return mkpoly({((x, 1),): Fraction(1)})
    return C(frac(x))


def sym(name, sort='int', nonneg=False, rng=None):
    a = _mk('sym', name, (), sort)
    if nonneg:
        a.nonneg = True
    if rng is not None:
        a.rng = rng
    return P(a)


def fresh(prefix='v', sort='int', rng=None, nonneg=False):
    _count[0] += 1
    return sym(f'{prefix}!{_count[0]}', sort, nonneg, rng)


def atom_of(p):
    """the atom if p is exactly one atom, else None"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


PI = sym('pi', 'real', nonneg=True)
PI_A = atom_of(PI)


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t.items():
        n = d.get(m, 0) + c
        if n == 0:
            d.pop(m, None)
        else:
            d[m] = n
    return mkpoly(d)


def neg(a):
    return mkpoly({m: -c for m, c in a.t.items()})


def scale(a, c):
    return mkpoly({m: k * c for m, k in a.t.items()})


def _nexp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def mono_mul(m1, m2):
    """multiply two monomials -> dict-free list of (atom, exp) or None if it needs
    post-processing; returns (mono, special) where special is a list of atoms
    needing rewrite"""
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        if a in d:
            n = _nexp(d[a] + e)
            if n == 0:
                del d[a]
            else:
                d[a] = n
        else:
            d[a] = e
    return d


def _needs(a, e):
    k = a.kind
    if k == 'iv':
        return e != 1
    if k == 'fn':
        if a.name in ('sin', 'sinh'):
            return isinstance(e, int) and e >= 2
        if a.name == 'abs':
            return isinstance(e, int) and (e >= 2 or e <= -2)
        return False
    if k == 'base':
        return isinstance(e, int) and e >= 1 or (not isinstance(e, int) and e > 1)
    if k == 'num':
        return not (0 < e < 1)
    return False


def _norm_mono(d, c):
    """d: dict atom->exp, c coefficient -> Poly (applies rewrites)"""
    extra = None
    ivs = None
    for a, e in list(d.items()):
        if _needs(a, e):
            if a.kind == 'iv':
                d[a] = 1
            elif a.kind == 'fn' and a.name in ('sin', 'sinh'):
                q, r = divmod(e, 2)
                if r:
                    d[a] = 1
                else:
                    del d[a]
                if a.name == 'sin':
                    f = add(ONE, neg(power(fn('cos', a.args[0]), 2)))
                else:
                    f = add(power(fn('cosh', a.args[0]), 2), C(-1))
                f = power(f, q)
                extra = f if extra is None else mul(extra, f)
            elif a.kind == 'fn' and a.name == 'abs':
                s = 1 if e > 0 else -1
                q, r = divmod(abs(e), 2)
                if r:
                    d[a] = s
                else:
                    del d[a]
                f = power(a.args[0], 2 * q * s)
                extra = f if extra is None else mul(extra, f)
            elif a.kind == 'base':
                if isinstance(e, int):
                    del d[a]
                    f = power(a.args[0], e)
                else:
                    k = math.floor(e)
                    d[a] = e - k
                    f = power(a.args[0], k)
                extra = f if extra is None else mul(extra, f)
            elif a.kind == 'num':
                k = math.floor(e)
                r = e - k
                if r == 0:
                    del d[a]
                else:
                    d[a] = r
                c = c * Fraction(a.name) ** k
    m = tuple(sorted(d.items(), key=lambda x: x[0].id))
    # Iverson contradictions / implications are left to the prover
    p = mkpoly({m: c})
    if extra is not None:
        p = mul(p, extra)
    return p


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        return b if ca == 1 else scale(b, ca)
    if cb is not None:
        return a if cb == 1 else scale(a, cb)
    out = {}
    extra = ZERO
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            d = mono_mul(m1, m2)
            c = c1 * c2
            if any(_needs(x, e) for x, e in d.items()):
                extra = add(extra, _norm_mono(d, c))
            else:
                m = tuple(sorted(d.items(), key=lambda x: x[0].id))
                n = out.get(m, 0) + c
                if n == 0:
                    out.pop(m, None)
                else:
                    out[m] = n
    p = mkpoly(out)
    return add(p, extra) if extra.t else p


def _root(c, n):
    """exact positive n-th root of a non-negative Fraction or None"""
    def r(k):
        if k == 0:
            return 0
        x = round(k ** (1.0 / n))
        for y in (x - 1, x, x + 1):
            if y >= 0 and y ** n == k:
                return y
        return None
    a, b = r(c.numerator), r(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b)


def _factor_int(n):
    """prime factorisation (trial division, bounded)"""
    out = {}
    p = 2
    while p * p <= n and p < 10000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def const_pow(c, q):
    """c > 0 Fraction, q Fraction non-integral -> Poly"""
    res = ONE
    for base, s in ((c.numerator, 1), (c.denominator, -1)):
        if base == 1:
            continue
        for p, k in _factor_int(base).items():
            e = Fraction(k * s) * q
            kf = math.floor(e)
            r = e - kf
            res = scale(res, Fraction(p) ** kf)
            if r != 0:
                res = mul(res, mkpoly({((_mk('num', str(p), (), 'real'), r),): Fraction(1)}))
    return res


def is_nonneg(p):
    """syntactic non-negativity"""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if isinstance(e, int) and e % 2 == 0:
                continue
            if not atom_nonneg(a, e):
                return False
    return True


def atom_nonneg(a, e=1):
    if a.nonneg:
        return True
    if not isinstance(e, int):
        return True   # definedness: x**(non-integral) is only defined for x >= 0
    if a.kind in ('iv', 'num'):
        return True
    if a.kind == 'fn' and a.name in ('cosh', 'exp', 'abs'):
        return True
    if a.kind == 'bv' or (a.kind == 'sym' and a.rng is not None and a.rng[0].const() is not None and a.rng[0].const() >= 0):
        return True
    if a.kind == 'sum':
        return is_nonneg(a.args[-1])
    if a.kind == 'base':
        return is_nonneg(a.args[0])
    return False


_powmemo = {}


def power(p, q):
    if isinstance(q, Poly):
        c = q.const()
        if c is None:
            return fn('pow', p, q)
        q = c
    q = _nexp(Fraction(q))
    if q == 0:
        return ONE
    if q == 1:
        return p
    k = (p, q)
    r = _powmemo.get(k)
    if r is None:
        r = _power(p, q)
        _powmemo[k] = r
    return r


def _power(p, q):
    if not p.t:
        if q > 0:
            return ZERO
        return fn('recip0', ZERO)
    c = p.const()
    if c is not None:
        if isinstance(q, int):
            return C(c ** q)
        if c > 0:
            return const_pow(c, q)
        return fn('pow', p, C(q))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if isinstance(q, int):
            d = {}
            for a, e in m:
                if a.kind == 'iv':
                    if q < 0:
                        d = None
                        break
                    d[a] = 1
                else:
                    d[a] = _nexp(e * q)
            if d is not None:
                return _norm_mono(d, c ** q)
            return mkpoly({((_mk('base', '', (p,), 'real'), q),): Fraction(1)})
        # fractional power of a monomial
        res = ONE
        rest = {}
        sign = 1
        for a, e in m:
            if a.kind == 'iv':
                if q > 0:
                    res = mul(res, P(a))
                else:
                    rest[a] = e
            elif not isinstance(e, int) or atom_nonneg(a, 1):
                res = mul(res, _norm_mono({a: _nexp(e * q)}, Fraction(1)))
            elif e % 2 == 0:
                res = mul(res, power(fn('abs', P(a)), Fraction(e) * q))
            else:
                rest[a] = e
        if c > 0:
            res = mul(res, const_pow(c, Fraction(q)))
            c = Fraction(1)
        if not rest:
            if c == 1:
                return res
            return mul(res, fn('pow', C(c), C(q)))
        if len(rest) == 1 and c == 1:
            (a, e), = rest.items()
            if e == 1:
                return mul(res, _norm_mono({a: q}, Fraction(1)))
        rp = _norm_mono(rest, c)
        return mul(res, mkpoly({((_mk('base', '', (rp,), 'real'), q),): Fraction(1)}))
    # several terms
    if isinstance(q, int) and q > 0:
        r = ONE
        b = p
        n = q
        while n:
            if n & 1:
                r = mul(r, b)
            n >>= 1
            if n:
                b = mul(b, b)
        return r
    # extract content
    out = ONE
    items = list(p.t.items())
    common = dict(items[0][0])
    for m, c in items[1:]:
        dm = dict(m)
        for a in list(common):
            if a in dm and (dm[a] > 0) == (common[a] > 0):
                common[a] = min(dm[a], common[a], key=abs)
            else:
                del common[a]
    take = {}
    for a, e in common.items():
        if a.kind == 'iv':
            if q > 0:
                out = mul(out, P(a))
                take[a] = e
            continue
        if isinstance(q, int) or atom_nonneg(a, e):
            take[a] = e
            out = mul(out, _norm_mono({a: _nexp(e * q)}, Fraction(1)))
        elif isinstance(e, int) and e % 2 == 0:
            take[a] = e
            out = mul(out, power(fn('abs', P(a)), Fraction(e) * q))
    if take:
        inv = {a: -e for a, e in take.items() if a.kind != 'iv'}
        d = {}
        for m, c in items:
            dd = mono_mul(m, tuple(inv.items()))
            for a in take:
                if a.kind == 'iv':
                    dd.pop(a, None)
            mm = tuple(sorted(dd.items(), key=lambda x: x[0].id))
            d[mm] = d.get(mm, 0) + c
        p2 = mkpoly(d)
        return mul(out, power(p2, q))
    # scalar content: make the leading coefficient +-1
    lead = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m))
    lc = p.t[lead]
    if isinstance(q, int):
        if lc != 1:
            p = scale(p, 1 / lc)
            out = scale(out, lc ** q)
    else:
        k = abs(lc)
        if k != 1:
            p = scale(p, 1 / k)
            out = mul(out, const_pow(k, Fraction(q)))
    return mul(out, mkpoly({((_mk('base', '', (p,), 'real'), q),): Fraction(1)}))


# ---------------------------------------------------------------- functions
def app(name, args, sort='real', nonneg=False):
    a = _mk('app', name, tuple(P(x) for x in args), sort)
    if nonneg:
        a.nonneg = True
    return P(a)


def _lead_negative(p):
    if not p.t:
        return False
    lead = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m))
    return p.t[lead] < 0


def _pi_part(x):
    c = x.t.get(((PI_A, 1),))
    return c


INT_FN = {'floor', 'div', 'sign'}


def fn(name, *args):
    args = tuple(P(x) for x in args)
    x = args[0]
    c = x.const()
    if name in ('sin', 'cos'):
        k = _pi_part(x)
        if k is not None:
            n = math.floor(k)
            if n != 0 and (k.denominator == 1):
                rest = add(x, scale(PI, -n))
                r = fn(name, rest)
                return neg(r) if n % 2 else r
        if c == 0:
            return ZERO if name == 'sin' else ONE
        if _lead_negative(x):
            r = fn(name, neg(x))
            return neg(r) if name == 'sin' else r
    elif name in ('sinh', 'cosh', 'tanh'):
        if c == 0:
            return ONE if name == 'cosh' else ZERO
        if _lead_negative(x):
            r = fn(name, neg(x))
            return r if name == 'cosh' else neg(r)
    elif name == 'exp':
        if c == 0:
            return ONE
    elif name in ('log', 'log2'):
        if c == 1:
            return ZERO
    elif name == 'abs':
        if c is not None:
            return C(abs(c))
        if is_nonneg(x):
            return x
        if _lead_negative(x):
            return fn('abs', neg(x))
        if len(x.t) == 1:
            (m, k), = x.t.items()
            if k != 1 or len(m) > 1:
                r = C(abs(k))
                for a, e in m:
                    if atom_nonneg(a, e) or (isinstance(e, int) and e % 2 == 0):
                        r = mul(r, _norm_mono({a: e}, Fraction(1)))
                    else:
                        r = mul(r, power(P(_mk('fn', 'abs', (P(a),), a.sort)), e))
                return r
            (a, e), = m
            if e != 1:
                return power(fn('abs', P(a)), e)
        return P(_mk('fn', 'abs', (x,), 'int' if x.is_int else 'real'))
    elif name == 'floor':
        if c is not None:
            return C(math.floor(c))
        if x.is_int:
            return x
        ip, rp = {}, {}
        for m, k in x.t.items():
            mono_int = all(a.sort == 'int' and isinstance(e, int) and e > 0 for a, e in m)
            if mono_int:
                n = math.floor(k)
                if n:
                    ip[m] = Fraction(n)
                if k != n:
                    rp[m] = k - n
            else:
                rp[m] = k
        ip, rp = mkpoly(ip), mkpoly(rp)
        rc = rp.const()
        if rc is not None:
            return add(ip, C(math.floor(rc)))
        return add(ip, P(_mk('fn', 'floor', (rp,), 'int')))
    elif name == 'div':      # integer floor division
        return idiv(args[0], args[1])
    elif name == 'sign':
        if c is not None:
            return C((c > 0) - (c < 0))
    elif name in ('nan_to_num',):
        if c is not None:
            return x
    elif name == 'recip0':
        pass
    elif name == 'lpmv':
        if args[1].const() == 0 and args[0].const() == 0:
            return ONE
    return P(_mk('fn', name, args, 'int' if name in INT_FN else 'real'))


RANGE_ORACLE = [None]   # set by the prover: f(p, n) -> bool, proves 0 <= p < n


def idiv(x, n):
    """floor(x / n) for integer x, n > 0"""
    cx, cn = x.const(), n.const()
    if cn == 1:
        return x
    if cx is not None and cn is not None and cn != 0:
        return C(math.floor(cx / cn))
    if not x.t:
        return ZERO
    # pull out multiples of n (n a single monomial)
    q, r = split_multiple(x, n)
    if q.t:
        oracle = RANGE_ORACLE[0]
        for k in (0, 1, -1):
            rr = add(r, scale(n, k))
            if not rr.t or (oracle is not None and oracle(rr, n)):
                return add(q, C(-k))
        return add(q, _mkdiv(r, n))
    oracle = RANGE_ORACLE[0]
    if oracle is not None:
        if oracle(x, n):
            return ZERO
        if oracle(add(x, n), n):
            return C(-1)
    return _mkdiv(x, n)


def _mkdiv(x, n):
    if _lead_negative(x):       # floor(x/n) = -1 - floor((-1-x)/n) for integers, n > 0
        return sub_(C(-1), P(_mk('fn', 'div', (sub_(C(-1), x), n), 'int')))
    return P(_mk('fn', 'div', (x, n), 'int'))


def sub_(a, b):
    return add(a, neg(b))


def imod(x, n):
    return add(x, neg(mul(n, idiv(x, n))))


def split_multiple(x, n):
    """x = q*n + r, syntactically"""
    if len(n.t) == 1:
        (mn, cn), = n.t.items()
        dn = dict(mn)
        q, r = {}, {}
        for m, c in x.t.items():
            dm = dict(m)
            if all(dm.get(a, 0) >= e for a, e in dn.items()) and (c / cn).denominator == 1:
                mm = {a: dm[a] - dn.get(a, 0) for a in dm}
                mm = tuple(sorted(((a, e) for a, e in mm.items() if e != 0), key=lambda z: z[0].id))
                q[mm] = q.get(mm, 0) + c / cn
            else:
                r[m] = c
        return mkpoly(q), mkpoly(r)
    # polynomial n: try x = k*n + r by the leading monomial of n (non-constant)
    lead = [m for m in n.t if m]
    if not lead:
        return ZERO, x
    lead = max(lead, key=lambda m: (sum(e for _, e in m), [a.id for a, _ in m]))
    q = ZERO
    r = x
    for _ in range(6):
        done = True
        for m, c in r.t.items():
            dm, dl = dict(m), dict(lead)
            if all(dm.get(a, 0) >= e for a, e in dl.items()) and (c / n.t[lead]).denominator == 1:
                mm = {a: dm[a] - dl.get(a, 0) for a in dm}
                mm = tuple(sorted(((a, e) for a, e in mm.items() if e != 0), key=lambda z: z[0].id))
                t = mkpoly({mm: c / n.t[lead]})
                q = add(q, t)
                r = add(r, neg(mul(t, n)))
                done = False
                break
        if done:
            break
    return q, r


# ---------------------------------------------------------------- booleans
_bools = {}


class B:
    """boolean term: op in true,false,le (p<=0),lt (p<0),eq (p==0),not,and,or,atom"""
    __slots__ = ('op', 'args', 'fv', 'hv', 'id', 'bvs')

    def __repr__(self):
        return show_bool(self)

    def __and__(self, o):
        return band(self, o)

    def __or__(self, o):
        return bor(self, o)

    def __invert__(self):
        return bnot(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def _mkb(op, args):
    key = (op, args)
    b = _bools.get(key)
    if b is not None:
        return b
    b = B()
    b.op, b.args = op, args
    b.id = len(_bools)
    fv, hv, bvs = set(), 0, set()
    for x in args:
        if isinstance(x, (Poly, B, Atom)):
            fv |= x.fv
            hv = max(hv, x.hv)
            bvs |= x.bvs
    b.fv, b.hv, b.bvs = frozenset(fv), hv, frozenset(bvs)
    _bools[key] = b
    return b


TRUE = _mkb('true', ())
FALSE = _mkb('false', ())


def batom(name, *args):
    return _mkb('atom', (name,) + tuple(P(a) for a in args))


def bvar(name):
    return _mkb('atom', (name,))


def mkbool(x):
    return TRUE if x else FALSE


def _prim(p):
    """divide by the content so that coefficients are coprime integers (positive factor)"""
    from math import gcd
    den = 1
    for c in p.t.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.t.values():
        g = gcd(g, int(c * den))
    if g == 0:
        return p
    return scale(p, Fraction(den, g))


def le0(p):
    c = p.const()
    if c is not None:
        return mkbool(c <= 0)
    p = _prim_int(p)
    return _mkb('le', (p,))


def _prim_int(p):
    p = _prim(p)
    if p.is_int:
        # tighten: sum a_i x_i + c <= 0 with gcd g of a_i
        from math import gcd
        c = p.t.get((), Fraction(0))
        g = 0
        for m, k in p.t.items():
            if m:
                g = gcd(g, int(k))
        if g > 1:
            d = {m: k / g for m, k in p.t.items() if m}
            d[()] = Fraction(math.ceil(c / g))
            p = mkpoly(d)
    return p


def lt0(p):
    c = p.const()
    if c is not None:
        return mkbool(c < 0)
    p = _prim(p)
    if p.is_int:
        return le0(add(p, ONE))
    return _mkb('lt', (p,))


def eq0(p):
    c = p.const()
    if c is not None:
        return mkbool(c == 0)
    p = _prim(p)
    if p.is_int:
        from math import gcd
        c = p.t.get((), Fraction(0))
        g = 0
        for m, k in p.t.items():
            if m:
                g = gcd(g, int(k))
        if c.denominator == 1 and g > 1 and int(c) % g:
            return FALSE
    if _lead_negative(p):
        p = neg(p)
    return _mkb('eq', (p,))


def le(a, b):
    return le0(P(a) - P(b))


def lt(a, b):
    return lt0(P(a) - P(b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return eq0(P(a) - P(b))


def ne(a, b):
    return bnot(eq(a, b))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le':
        p = b.args[0]
        return lt0(neg(p))
    if b.op == 'lt':
        return le0(neg(b.args[0]))
    if b.op == 'and':
        return bor(*[bnot(x) for x in b.args])
    if b.op == 'or':
        return band(*[bnot(x) for x in b.args])
    return _mkb('not', (b,))


def band(*bs):
    s = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.args if b.op == 'and' else (b,)):
            if x not in s:
                s.append(x)
    for x in s:
        if bnot(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return _mkb('and', tuple(sorted(s, key=lambda x: x.id)))


def bor(*bs):
    s = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in (b.args if b.op == 'or' else (b,)):
            if x not in s:
                s.append(x)
    for x in s:
        if bnot(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return _mkb('or', tuple(sorted(s, key=lambda x: x.id)))


def biff(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


def _literal(b):
    """canonical positive literal and polarity"""
    n = bnot(b)
    if b.op == 'not':
        return b.args[0], False
    if b.op in ('le', 'lt'):
        if n.id < b.id:
            return n, False
    return b, True


def iv(b):
    """Iverson bracket as a polynomial"""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.op == 'and':
        r = ONE
        for x in b.args:
            r = mul(r, iv(x))
        return r
    if b.op == 'or':
        r = ONE
        for x in b.args:
            r = mul(r, add(ONE, neg(iv(x))))
        return add(ONE, neg(r))
    lit, pos = _literal(b)
    a = P(_mk('iv', '', (lit,), 'int'))
    return a if pos else add(ONE, neg(a))


def ite(c, a, b):
    a, b = P(a), P(b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    i = iv(c)
    return add(mul(i, a), mul(add(ONE, neg(i)), b))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


# ---------------------------------------------------------------- binders
def bv(h):
    return _mk('bv', h, (), 'int')


def _maxbound(x):
    return x.hv


def dep(x, v):
    return v in x.fv


def sum_(n, f):
    """sum_{v=0}^{n-1} f(v)"""
    n = P(n)
    k = n.intval()
    if k is not None and k <= 10:
        r = ZERO
        for i in range(max(k, 0)):
            r = add(r, P(f(C(i))))
        return r
    v = fresh('s', 'int', (ZERO, n))
    return close_sum([atom_of(v)], [n], P(f(v)))


def nonneg_len(n):
    return n


def close_sum(vs, ns, body):
    """sum over vs[i] in [0,ns[i]) of body; vs are fresh sym atoms.  ns independent of vs."""
    p = body
    for v, n in zip(reversed(vs), reversed(ns)):
        p = _sum1(v, n, p)
    return p


def _lin_coeff(p, v):
    """p = c*v + r with v not in r (c Fraction); else None"""
    c = Fraction(0)
    r = {}
    for m, k in p.t.items():
        hit = False
        for a, e in m:
            if a is v:
                if e == 1 and len(m) == 1:
                    c += k
                    hit = True
                else:
                    return None
            elif v in a.fv:
                return None
        if not hit:
            r[m] = k
    return c, mkpoly(r)


def _sum1(v, n, p):
    k = n.intval()
    if k is not None and k <= 10:
        r = ZERO
        for i in range(max(k, 0)):
            r = add(r, subst(p, {v: C(i)}))
        return r
    out = ZERO
    for m, c in p.t.items():
        ind, depm = [], []
        for a, e in m:
            (depm if v in a.fv else ind).append((a, e))
        if not depm:
            r = n
        else:
            r = _sum_mono(v, n, tuple(depm))
        out = add(out, mul(mkpoly({tuple(ind): c}), r))
    return out


def _sum_mono(v, n, m):
    # delta elimination
    for a, e in m:
        if a.kind == 'iv' and a.args[0].op == 'eq':
            lc = _lin_coeff(a.args[0].args[0], v)
            if lc is not None and abs(lc[0]) == 1 and lc[1].is_int:
                sol = scale(lc[1], -1 / lc[0])
                rest = mkpoly({tuple(x for x in m if x[0] is not a): Fraction(1)})
                r = subst(rest, {v: sol})
                return mul(mul(r, iv(le(ZERO, sol))), iv(lt(sol, n)))
    # merge a nested sum
    inner = [(a, e) for a, e in m if a.kind == 'sum' and e == 1]
    binders = [(v, n)]
    body = dict(m)
    if len(inner) == 1:
        a = inner[0][0]
        del body[a]
        ranges = a.args[:-1]
        if all(v not in r.fv for r in ranges):
            vs, ns, b = open_sum(a)
            binders = binders + list(zip(vs, ns))
            bp = mul(mkpoly({tuple(sorted(body.items(), key=lambda x: x[0].id)): Fraction(1)}), b)
            if len(bp.t) == 1:
                (mm, cc), = bp.t.items()
                if cc == 1:
                    r = _cancel_norm(binders, mm)
                    return P(_mk_sum(binders, mm)) if r is None else r
            # rewriting split the monomial: fall back
            return close_sum([x for x, _ in binders], [x for _, x in binders], bp) if False else _sum_generic(binders, bp)
        body[a] = 1
    return P(_mk_sum(binders, tuple(sorted(body.items(), key=lambda x: x[0].id))))


def _sum_generic(binders, p):
    out = ZERO
    for m, c in p.t.items():
        q = mkpoly({m: Fraction(1)})
        # peel binders one at a time from the inside
        for v, n in reversed(binders):
            q = _sum1(v, n, q)
        out = add(out, scale(q, c))
    return out


def _cancel_norm(binders, m):
    """Sum_i g(i) (Sum_p f(p,i)) / A(i)  with A(i) = Sum_p f(p,i)  ->  Sum_i g(i)"""
    for A, e in m:
        if A.kind != 'sum' or e != -1:
            continue
        V = [(v, n) for v, n in binders if v not in A.fv]
        W = [(v, n) for v, n in binders if v in A.fv]
        if len(V) != len(A.args) - 1:
            continue
        vs = {v for v, _ in V}
        if any(w in n.fv for _, n in V for w, _ in W) or any(w in n.fv for w, _ in V for _, n in W):
            continue
        f = tuple((a, x) for a, x in m if a.fv & vs)
        if not f:
            continue
        if _mk_sum(V, f) is A:
            rest = mkpoly({tuple((a, x) for a, x in m if not (a.fv & vs) and a is not A): Fraction(1)})
            for v, n in reversed(W):
                rest = _sum1(v, n, rest)
            return rest
    return None


def _mk_sum(binders, m):
    p = mkpoly({m: Fraction(1)})
    h = p.hv
    k = len(binders)
    for _, n in binders:
        h = max(h, n.hv)
    best = None
    perms = permutations(range(k)) if k <= 3 else [range(k)]
    for perm in perms:
        sub = {binders[perm[i]][0]: P(bv(h + i)) for i in range(k)}
        body = subst(p, sub)
        ns = tuple(binders[perm[i]][1] for i in range(k))
        key = (tuple(x.id for x in ns), tuple((a.id, float(e)) for mm in body.t for a, e in mm))
        if best is None or key < best[0]:
            best = (key, ns, body)
    _, ns, body = best
    return _mk('sum', h, ns + (body,), 'int' if body.is_int else 'real')


def open_binder(a):
    """-> (fresh sym atoms, ranges, body)"""
    if a.kind == 'big':
        h = a.name[0]
    else:
        h = a.name
    ns = a.args[:-1]
    vs = [fresh('o', 'int', (ZERO, n)) for n in ns]
    body = subst_bv(a.args[-1], {bv(h + i): v for i, v in enumerate(vs)})
    return [atom_of(v) for v in vs], list(ns), body


open_sum = open_binder


def lam(ns, f):
    """frozen array: Atom"""
    vs = [fresh('l', 'int', (ZERO, P(n))) for n in ns]
    body = P(f(*vs))
    return close_lam([atom_of(v) for v in vs], [P(n) for n in ns], body)


def _deltas(vs, body):
    """[x == y] f(y) -> [x == y] f(x) for two of the bound variables, monomial by monomial"""
    if len(vs) < 2:
        return body
    out, hit = {}, False
    rest = ZERO
    pos = {v: i for i, v in enumerate(vs)}
    for m, c in body.t.items():
        d = None
        for a, e in m:
            if a.kind == 'iv' and a.args[0].op == 'eq':
                q = a.args[0].args[0]
                if len(q.t) == 2 and all(len(mm) == 1 and mm[0][1] == 1 and mm[0][0] in pos for mm in q.t) and sorted(q.t.values()) == [-1, 1]:
                    x, y = sorted((mm[0][0] for mm in q.t), key=lambda v: pos[v])
                    if any(y in b.fv for b, _ in m if b is not a):
                        d = (a, e, x, y)
                        break
        if d is None:
            out[m] = c
            continue
        hit = True
        a, e, x, y = d
        r = mkpoly({tuple((b, f) for b, f in m if b is not a): c})
        rest = rest + P(a) * subst(r, {y: P(x)})
    return _deltas(vs, mkpoly(out) + rest) if hit else body


def close_lam(vs, ns, body):
    body = _deltas(vs, body)
    h = body.hv
    for n in ns:
        h = max(h, n.hv)
    b = subst(body, {v: P(bv(h + i)) for i, v in enumerate(vs)})
    return _mk('lam', h, tuple(ns) + (b,), 'lam')


def big(op, n, f):
    """max/min over a range"""
    n = P(n)
    v = fresh('m', 'int', (ZERO, n))
    return close_big(op, atom_of(v), n, P(f(v)))


def close_big(op, v, n, body):
    if v not in body.fv:
        return body
    h = max(body.hv, n.hv)
    b = subst(body, {v: P(bv(h))})
    return P(_mk('big', (h, op), (n, b), 'int' if b.is_int else 'real'))


def ext(name, args, idx, sort='real'):
    """element idx of the result of external function `name` on frozen args (Atoms lam / Poly / str)"""
    a = tuple(args)
    return P(_mk('ext', name, a + ('|',) + tuple(P(i) for i in idx), sort))


# ---------------------------------------------------------------- substitution
def subst(p, s):
    """substitute sym atoms by polys (dict atom->Poly)"""
    if isinstance(p, B):
        return _substb(p, s, {}, 'fv')
    return _subst(p, s, {}, 'fv')


def subst_bv(p, s):
    return _subst(p, s, {}, 'bvs')


def _hits(x, s, which):
    f = x.fv if which == 'fv' else x.bvs
    if len(f) < len(s):
        for k in f:
            if k in s:
                return True
        return False
    for k in s:
        if k in f:
            return True
    return False


def _subst(p, s, memo, w):
    if not _hits(p, s, w):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.t.items():
        t = C(c)
        keep = []
        for a, e in m:
            if _hits(a, s, w):
                t = mul(t, power(_subst_atom(a, s, memo, w), e))
            else:
                keep.append((a, e))
        if keep:
            t = mul(t, mkpoly({tuple(keep): Fraction(1)}))
        out = add(out, t)
    memo[p] = out
    return out


def _subst_atom(a, s, memo, w):
    r = memo.get(a)
    if r is not None:
        return r
    if a in s:
        r = s[a]
    elif a.kind == 'app':
        r = P(_mk('app', a.name, tuple(_subst(x, s, memo, w) for x in a.args), a.sort))
        if a.nonneg:
            atom_of(r).nonneg = True
        r = reduce_app(r)
    elif a.kind == 'fn':
        r = fn(a.name, *[_subst(x, s, memo, w) for x in a.args])
    elif a.kind == 'base':
        r = _subst(a.args[0], s, memo, w)
    elif a.kind == 'iv':
        r = iv(_substb(a.args[0], s, memo, w))
    elif a.kind == 'sum':
        vs, ns, body = open_binder(a)
        ns2 = [_subst(n, s, memo, w) for n in ns]
        for v, n in zip(vs, ns2):
            v.rng = (ZERO, n)
        body = _subst(body, s, {}, w)
        r = _sum_generic(list(zip(vs, ns2)), body)
    elif a.kind == 'big':
        vs, ns, body = open_binder(a)
        ns2 = [_subst(n, s, memo, w) for n in ns]
        r = close_big(a.name[1], vs[0], ns2[0], _subst(body, s, {}, w))
    elif a.kind == 'ext':
        args = []
        for x in a.args:
            if isinstance(x, Poly):
                args.append(_subst(x, s, memo, w))
            elif isinstance(x, Atom):
                args.append(_subst_lam(x, s, memo, w))
            else:
                args.append(x)
        r = P(_mk('ext', a.name, tuple(args), a.sort))
    else:
        raise AssertionError(a.kind)
    memo[a] = r
    return r


def _subst_lam(x, s, memo, w):
    if x.kind != 'lam' or not _hits(x, s, w):
        return x
    vs, ns, body = open_binder(x)
    return close_lam(vs, [_subst(n, s, memo, w) for n in ns], _subst(body, s, {}, w))


def _substb(b, s, memo, w):
    if not _hits(b, s, w):
        return b
    if b.op in ('le', 'lt', 'eq'):
        p = _subst(b.args[0], s, memo, w)
        return {'le': le0, 'lt': lt0, 'eq': eq0}[b.op](p)
    if b.op == 'not':
        return bnot(_substb(b.args[0], s, memo, w))
    if b.op == 'and':
        return band(*[_substb(x, s, memo, w) for x in b.args])
    if b.op == 'or':
        return bor(*[_substb(x, s, memo, w) for x in b.args])
    if b.op == 'atom':
        return _mkb('atom', (b.args[0],) + tuple(_subst(x, s, memo, w) if isinstance(x, Poly) else x for x in b.args[1:]))
    raise AssertionError(b.op)


def map_atoms(p, f, deep=True):
    """rebuild p replacing atoms: f(atom) -> Poly or None (recurse)."""
    memo = {}

    def mp(p):
        r = memo.get(p)
        if r is not None:
            return r
        out = ZERO
        for m, c in p.t.items():
            t = C(c)
            for a, e in m:
                t = mul(t, power(ma(a), e))
            out = add(out, t)
        memo[p] = out
        return out

    def mb(b):
        if b.op in ('le', 'lt', 'eq'):
            q = mp(b.args[0])
            return {'le': le0, 'lt': lt0, 'eq': eq0}[b.op](q)
        if b.op == 'not':
            return bnot(mb(b.args[0]))
        if b.op == 'and':
            return band(*[mb(x) for x in b.args])
        if b.op == 'or':
            return bor(*[mb(x) for x in b.args])
        if b.op == 'atom':
            return _mkb('atom', (b.args[0],) + tuple(mp(x) if isinstance(x, Poly) else x for x in b.args[1:]))
        return b

    def ma(a):
        r = memo.get(a)
        if r is not None:
            return r
        r = f(a)
        if r is None:
            if a.kind in ('sym', 'bv', 'num'):
                r = P(a)
            elif a.kind == 'app':
                r = reduce_app(P(_mk('app', a.name, tuple(mp(x) for x in a.args), a.sort)))
                if a.nonneg and atom_of(r) is not None:
                    atom_of(r).nonneg = True
            elif a.kind == 'fn':
                r = fn(a.name, *[mp(x) for x in a.args])
            elif a.kind == 'base':
                r = mp(a.args[0])
            elif a.kind == 'iv':
                r = iv(mb(a.args[0]))
            elif a.kind == 'sum':
                vs, ns, body = open_binder(a)
                ns = [mp(n) for n in ns]
                r = _sum_generic(list(zip(vs, ns)), mp(body))
            elif a.kind == 'big':
                vs, ns, body = open_binder(a)
                r = close_big(a.name[1], vs[0], mp(ns[0]), mp(body))
            elif a.kind == 'ext':
                args = []
                for x in a.args:
                    if isinstance(x, Poly):
                        args.append(mp(x))
                    elif isinstance(x, Atom) and x.kind == 'lam':
                        vs, ns, body = open_binder(x)
                        args.append(close_lam(vs, [mp(n) for n in ns], mp(body)))
                    else:
                        args.append(x)
                r = P(_mk('ext', a.name, tuple(args), a.sort))
            else:
                raise AssertionError(a.kind)
        memo[a] = r
        return r
    if isinstance(p, B):
        return mb(p)
    return mp(p)


INV_DOMAIN = {}          # size n of the index range [0, n) such a map acts on
INVOLUTIONS = set()      # names of uninterpreted unary index maps f with f(f(p)) == p


def reduce_app(p):
    a = atom_of(p)
    if a is not None and a.name in INVOLUTIONS:
        b = atom_of(a.args[0])
        if b is not None and b.kind == 'app' and b.name == a.name:
            return b.args[0]
    return p


def involution(name, p):
    INVOLUTIONS.add(name)
    return reduce_app(app(name, (p,), 'int'))


# ---------------------------------------------------------------- traversal
def atoms_of(p, pred=None, deep=True, under_binders=True):
    seen = set()
    out = []

    def vp(p):
        if p in seen:
            return
        seen.add(p)
        for m in p.t:
            for a, _ in m:
                va(a)

    def vb(b):
        if b in seen:
            return
        seen.add(b)
        for x in b.args:
            if isinstance(x, Poly):
                vp(x)
            elif isinstance(x, B):
                vb(x)

    def va(a):
        if a in seen:
            return
        seen.add(a)
        if pred is None or pred(a):
            out.append(a)
        if not deep:
            return
        if a.kind in ('sum', 'big', 'lam') and not under_binders:
            return
        for x in a.args:
            if isinstance(x, Poly):
                vp(x)
            elif isinstance(x, B):
                vb(x)
            elif isinstance(x, Atom):
                va(x)
    if isinstance(p, Poly):
        vp(p)
    elif isinstance(p, B):
        vb(p)
    else:
        va(p)
    return out


# ---------------------------------------------------------------- printing
def show_atom(a):
    if a.kind == 'sym':
        return a.name
    if a.kind == 'bv':
        return f'${a.name}'
    if a.kind == 'num':
        return f'#{a.name}'
    if a.kind in ('app', 'fn'):
        return f"{a.name}({', '.join(map(show, a.args))})"
    if a.kind == 'base':
        return f'({show(a.args[0])})'
    if a.kind == 'iv':
        return f'[{show_bool(a.args[0])}]'
    if a.kind in ('sum', 'lam'):
        h = a.name
        bs = ','.join(f'${h + i}<{show(n)}' for i, n in enumerate(a.args[:-1]))
        return f"{'Sum' if a.kind == 'sum' else 'Lam'}[{bs}]({show(a.args[-1])})"
    if a.kind == 'big':
        return f"{a.name[1]}[${a.name[0]}<{show(a.args[0])}]({show(a.args[1])})"
    if a.kind == 'ext':
        return f"{a.name}<{', '.join(show(x) if isinstance(x, Poly) else repr(x) for x in a.args)}>"
    return a.kind


def show(p, limit=1500):
    if not p.t:
        return '0'
    parts = []
    for m, c in p.t.items():
        fs = [show_atom(a) + ('' if e == 1 else f'^{e}') for a, e in m]
        if c != 1 or not fs:
            fs = [str(c)] + fs
        parts.append('*'.join(fs))
    s = ' + '.join(parts)
    return s if len(s) <= limit else s[:limit] + '...'


def show_bool(b):
    if b.op in ('true', 'false'):
        return b.op
    if b.op in ('le', 'lt', 'eq'):
        return show(b.args[0]) + {'le': ' <= 0', 'lt': ' < 0', 'eq': ' == 0'}[b.op]
    if b.op == 'not':
        return f'!({show_bool(b.args[0])})'
    if b.op in ('and', 'or'):
        return '(' + (' & ' if b.op == 'and' else ' | ').join(map(show_bool, b.args)) + ')'
    return f"{b.args[0]}({', '.join(show(x) if isinstance(x, Poly) else str(x) for x in b.args[1:])})"
