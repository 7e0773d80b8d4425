"""Prover: linear/UF queries through z3, ring identities through the canonical
polynomial form, sums by congruence, external calls by congruence."""
import sys, time
from fractions import Fraction
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from . import terms as T
from .terms import *


class Stats:
    def __init__(s):
        s.z3_queries = 0
        s.z3_time = 0.0
        s.z3_unknown = 0
        s.ring = 0
        s.splits = 0


STATS = Stats()
_DEADLINE = [None]


class Timeout(Exception):
    pass


def check_deadline():
    if _DEADLINE[0] is not None and time.time() > _DEADLINE[0]:
        raise Timeout()


# ------------------------------------------------------------------ z3 translation
_z = {}
_facts = {}
_zf = {}


def zatom(a, facts):
    facts.add(a)
    r = _z.get(a)
    if r is not None:
        return r
    k = a.kind
    if k in ('sym', 'bv'):
        n = f'{a.name}' if k == 'sym' else f'bv{a.name}'
        r = z3.Int(n) if a.sort == 'int' else z3.Real(n)
    elif k == 'app':
        f = _zf.get((a.name, len(a.args), a.sort))
        if f is None:
            srt = [z3.RealSort()] * len(a.args) + [z3.IntSort() if a.sort == 'int' else z3.RealSort()]
            f = z3.Function('u_' + a.name, *srt)
            _zf[(a.name, len(a.args), a.sort)] = f
        r = f(*[zreal(x, facts) for x in a.args])
    elif k == 'fn' and a.name == 'floor':
        r = z3.ToInt(zreal(a.args[0], facts))
    elif k == 'fn' and a.name == 'div':
        r = zpoly(a.args[0], facts) / zpoly(a.args[1], facts)
    elif k == 'fn' and a.name == 'abs':
        x = zpoly(a.args[0], facts)
        r = z3.If(x >= 0, x, -x)
    elif k == 'iv':
        r = z3.If(zbool(a.args[0], facts), z3.IntVal(1), z3.IntVal(0))
    else:
        r = z3.Int(f'op{a.id}') if a.sort == 'int' else z3.Real(f'op{a.id}')
    _z[a] = r
    return r


def zreal(p, facts):
    e = zpoly(p, facts)
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def zpoly(p, facts):
    allint = p.is_int
    tot = None
    for m, c in p.t.items():
        t = None
        for a, e in m:
            x = zatom(a, facts)
            if not isinstance(e, int) or e < 0 or e > 4:
                x = z3.Real(f'pw{a.id}_{e}')
                reps = 1
            else:
                reps = e
            for _ in range(reps):
                xx = x
                if t is not None and (t.sort() != xx.sort()):
                    t = z3.ToReal(t) if t.sort() == z3.IntSort() else t
                    xx = z3.ToReal(xx) if xx.sort() == z3.IntSort() else xx
                t = xx if t is None else t * xx
        if allint:
            cc = z3.IntVal(int(c))
        else:
            cc = z3.RealVal(str(c))
            if t is not None and t.sort() == z3.IntSort():
                t = z3.ToReal(t)
        t = cc if t is None else (t if c == 1 else cc * t)
        tot = t if tot is None else tot + t
    if tot is None:
        return z3.IntVal(0)
    return tot


def zbool(b, facts):
    if b is TRUE:
        return z3.BoolVal(True)
    if b is FALSE:
        return z3.BoolVal(False)
    if b.op == 'le':
        return zpoly(b.args[0], facts) <= 0
    if b.op == 'lt':
        return zpoly(b.args[0], facts) < 0
    if b.op == 'eq':
        return zpoly(b.args[0], facts) == 0
    if b.op == 'not':
        return z3.Not(zbool(b.args[0], facts))
    if b.op == 'and':
        return z3.And(*[zbool(x, facts) for x in b.args])
    if b.op == 'or':
        return z3.Or(*[zbool(x, facts) for x in b.args])
    if b.op == 'atom':
        if len(b.args) == 1:
            return z3.Bool('b_' + str(b.args[0]))
        f = _zf.get(('B', b.args[0], len(b.args)))
        if f is None:
            f = z3.Function('ub_' + b.args[0], *([z3.RealSort()] * (len(b.args) - 1) + [z3.BoolSort()]))
            _zf[('B', b.args[0], len(b.args))] = f
        return f(*[zreal(x, facts) for x in b.args[1:]])
    raise AssertionError(b.op)


PERMS = ('argsort', 'lu_perm_r', 'lu_perm_c')


def atom_range(a):
    """half-open integer range of an atom, or None"""
    if a.kind == 'sym':
        return a.rng
    if a.kind == 'ext' and a.name in PERMS:
        return (ZERO, open_binder(a.args[0])[1][0])
    if a.kind == 'ext' and a.name == 'argwhere' and isinstance(a.args[-1], Poly) and a.args[-1].intval() is not None:
        return (ZERO, open_binder(a.args[0])[1][a.args[-1].intval()])
    return None


def atom_facts(a, facts):
    """z3 facts always true of atom a"""
    out = []
    rg = atom_range(a)
    if rg is not None:
        lo, hi = rg
        z = zatom(a, facts)
        if lo is not None:
            out.append(z >= zpoly(lo, facts))
        if hi is not None:
            out.append(z < zpoly(hi, facts))
    if a.nonneg:
        out.append(zatom(a, facts) >= 0)
    if a is PI_A:
        out.append(zatom(a, facts) > z3.RealVal('3.14159'))
        out.append(zatom(a, facts) < z3.RealVal('3.1416'))
    if a.kind == 'app' and a.name in T.INV_DOMAIN:
        # a reflection maps [0, n) to itself
        n, q, z = zpoly(T.INV_DOMAIN[a.name], facts), zpoly(a.args[0], facts), zatom(a, facts)
        out.append(z3.Implies(z3.And(q >= 0, q < n), z3.And(z >= 0, z < n)))
    if a.kind == 'fn' and a.name == 'cosh':
        out.append(zatom(a, facts) >= 1)
    if a.kind == 'fn' and a.name in ('cos', 'sin'):
        out.append(zatom(a, facts) <= 1)
        out.append(zatom(a, facts) >= -1)
    if a.kind == 'fn' and a.name == 'exp':
        out.append(zatom(a, facts) > 0)
    if a.kind == 'sum' and is_nonneg(a.args[-1]):
        out.append(zatom(a, facts) >= 0)
    if a.kind == 'fn' and a.name == 'floor':
        # help the linear solver
        z = zatom(a, facts)
        x = zreal(a.args[0], facts)
        out.append(z3.ToReal(z) <= x)
        out.append(x < z3.ToReal(z) + 1)
    return out


class ZCache:
    res = {}


def z3check(bs, timeout=2000):
    """sat / unsat / unknown of the conjunction of B's"""
    key = frozenset(bs)
    r = ZCache.res.get(key)
    if r is not None and (r[0] != 'unknown' or r[2] >= timeout):
        return r[0]
    s = z3.Solver()
    s.set('timeout', timeout)
    facts = set()
    for b in bs:
        s.add(zbool(b, facts))
    # close facts: z3 translation may be cached, so recollect by traversal
    todo = set()
    for b in bs:
        for a in atoms_of(b, under_binders=False):
            todo.add(a)
    done = set()
    while todo:
        a = todo.pop()
        if a in done:
            continue
        done.add(a)
        nf = set()
        for f in atom_facts(a, nf):
            s.add(f)
        rg = atom_range(a)
        if rg is not None:
            for q in rg:
                if q is not None:
                    for x in atoms_of(q, under_binders=False):
                        if x not in done:
                            todo.add(x)
    STATS.z3_queries += 1
    t = time.time()
    r = s.check()
    STATS.z3_time += time.time() - t
    res = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
    if res == 'unknown':
        STATS.z3_unknown += 1
    model = s.model() if res == 'sat' else None
    ZCache.res[key] = (res, model, timeout)
    return res


def model_of(bs):
    z3check(bs)
    return ZCache.res[frozenset(bs)][1]


class Ctx:
    """a set of assumptions"""

    def __init__(self, assume=()):
        self.a = []
        self.aset = set()
        for b in assume:
            self.add(b)

    def copy(self):
        c = Ctx()
        c.a = list(self.a)
        c.aset = set(self.aset)
        return c

    def add(self, b):
        if b is TRUE:
            return
        for x in (b.args if b.op == 'and' else (b,)):
            if x not in self.aset:
                self.aset.add(x)
                self.a.append(x)

    def with_(self, *bs):
        c = self.copy()
        for b in bs:
            c.add(b)
        return c

    def feasible(self):
        return z3check(self.a, 300) != 'unsat'

    def relevant(self, b):
        """assumptions sharing variables (transitively) with b"""
        return self.relevant_fv(b.fv)

    def relevant_fv(self, fv):
        fv = set(fv)
        for v in list(fv):
            _rngfv(v, fv)
        todo = [x for x in self.a]
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for x in todo:
                if x.fv & fv or not x.fv:
                    out.append(x)
                    n = len(fv)
                    fv |= x.fv
                    for v in x.fv:
                        _rngfv(v, fv)
                    changed = True
                else:
                    rest.append(x)
            todo = rest
        return out

    def prove(self, b, timeout=2000):
        """True if b is entailed"""
        if b is TRUE:
            return True
        if b is FALSE:
            return z3check(self.a) == 'unsat'
        if b in self.aset:
            return True
        if b.op == 'and':
            return all(self.prove(x) for x in b.args)
        n = bnot(b)
        return z3check(self.relevant(b) + [n], timeout) == 'unsat'

    def refutes(self, b):
        return self.prove(bnot(b))

    def decide(self, b, timeout=2000):
        """True/False/None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if self.prove(b, timeout):
            return True
        if self.prove(bnot(b), timeout):
            return False
        return None


def _rngfv(v, fv):
    if v.kind == 'sym' and v.rng is not None:
        for q in v.rng:
            if q is not None and not (q.fv <= fv):
                fv |= q.fv


GLOBAL = Ctx()      # ambient assumptions used by the range oracle of div/mod


def range_oracle(p, n):
    c = GLOBAL
    return c.prove(band(le(ZERO, p), lt(p, n)))


T.RANGE_ORACLE[0] = range_oracle


# ------------------------------------------------------------------ simplification under ctx
def simplify(p, ctx):
    """replace Iverson brackets decided by ctx (only those without bound variables)"""
    def f(a):
        if a.kind == 'iv' and not a.bvs:
            d = ctx.decide(a.args[0])
            if d is True:
                return ONE
            if d is False:
                return ZERO
        return None
    for _ in range(3):
        ivs = [a for a in atoms_of(p) if a.kind == 'iv']
        if not ivs:
            break
        q = map_atoms(p, f)
        if q is p:
            break
        p = q
    return p


def solve_eqs(ctx):
    """unit-coefficient integer equalities in ctx as substitutions"""
    sub = {}
    for b in ctx.a:
        if b.op != 'eq':
            continue
        p = b.args[0]
        if sub:
            p = subst(p, sub)
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind == 'sym':
                v = m[0][0]
                rest = p - mkpoly({m: c})
                if v not in rest.fv and (v.sort != 'int' or rest.is_int):
                    if best is None or v.id > best[0].id:
                        best = (v, scale(rest, -1 / c))
        if best:
            v, e = best
            sub = {k: subst(x, {v: e}) for k, x in sub.items()}
            sub[v] = e
    return sub


def subst_ctx(ctx, sub):
    c = Ctx()
    for b in ctx.a:
        c.add(subst(b, sub))
        c.add(b)
    # keep range facts of eliminated variables
    for v, e in sub.items():
        if v.rng is not None:
            if v.rng[0] is not None:
                c.add(le(v.rng[0], e))
            if v.rng[1] is not None:
                c.add(lt(e, v.rng[1]))
    return c


class Fail(Exception):
    def __init__(self, ctx, term):
        self.ctx = ctx
        self.term = term


def prove_zero(p, ctx, depth=0, budget=None):
    """Prove p == 0 under ctx.  Returns (True, None) or (False, (ctx, residual))."""
    check_deadline()
    if budget is None:
        budget = [1500]
    budget[0] -= 1
    if budget[0] < 0:
        return False, (ctx, p)
    if not p.t:
        return True, None
    saved = GLOBAL.a, GLOBAL.aset
    GLOBAL.a, GLOBAL.aset = ctx.a, ctx.aset
    try:
        if depth == 0 and any(a.kind == 'ext' for a in atoms_of(p)):
            p = simplify_binders(p, ctx)
            if any(a.kind == 'iv' and any(x.kind == 'ext' for x in atoms_of(a.args[0])) for a in atoms_of(p, under_binders=False)):
                while True:
                    q = unify_opaque(p, ctx, budget, 1)
                    if q is p:
                        break
                    p = q
        return _prove_zero(p, ctx, depth, budget)
    finally:
        GLOBAL.a, GLOBAL.aset = saved


def _prove_zero(p, ctx, depth, budget):
    if not p.t:
        return True, None
    # integer equalities
    sub = {k: v for k, v in solve_eqs(ctx).items() if k in p.fv}
    for k in p.fv:
        if k.rng is not None and k.rng[0] is ZERO and k.rng[1] is ONE and k.sort == 'int':
            sub[k] = ZERO
    if sub:
        c2 = subst_ctx(ctx, sub)
        return prove_zero(subst(p, sub), c2, depth + 1, budget)
    # quotients that the context places between multiples of the divisor
    r = split_quotient(p, ctx, depth, budget)
    if r is not None:
        return r
    # case split on an outer Iverson
    ivs = [a for a in atoms_of(p, under_binders=False) if a.kind == 'iv' and not a.bvs]
    if ivs:
        ivs.sort(key=lambda a: (a.args[0].op != 'eq', len(a.fv), a.id))
        # decide what can be decided
        decided = {}
        for a in ivs:
            d = ctx.decide(a.args[0])
            if d is not None:
                decided[a] = ONE if d else ZERO
        if decided:
            q = map_atoms(p, lambda a: decided.get(a))
            return prove_zero(q, ctx, depth + 1, budget)
        a = ivs[0]
        STATS.splits += 1
        for val, cond in ((ONE, a.args[0]), (ZERO, bnot(a.args[0]))):
            c2 = ctx.with_(cond)
            if not c2.feasible():
                continue
            q = map_atoms(p, lambda x: val if x is a else None)
            ok, w = prove_zero(q, c2, depth + 1, budget)
            if not ok:
                return False, w
        return True, None
    # Iversons inside binders decided by ctx and binder ranges
    q = simplify_binders(p, ctx)
    if q is not p:
        return prove_zero(q, ctx, depth + 1, budget)
    # clear denominators
    q = clear_denoms(p)
    if q is not p:
        if not q.t:
            STATS.ring += 1
            return True, None
        return prove_zero(q, ctx, depth + 1, budget)
    # Sum over n+c next to a Sum over n: split off the last c terms
    r = split_bounds(p, ctx)
    if r is not p:
        return prove_zero(r, ctx, depth + 1, budget)
    # unify sums / externals
    r = unify_opaque(p, ctx, budget, depth)
    if r is not p:
        return prove_zero(r, ctx, depth + 1, budget)
    # unify uninterpreted applications / functions whose arguments are provably equal
    r = unify_apps(p, ctx)
    if r is not p:
        return prove_zero(r, ctx, depth + 1, budget)
    r = push_in(p, ctx, budget, depth)
    if r:
        return True, None
    # real equalities among assumptions: try z3
    if ctx.a:
        if z3check(ctx.a) == 'unsat':
            return True, None
        if size(p) < 60 and ctx.prove(eq0(p)):
            return True, None
    return False, (ctx, p)


def split_quotient(p, ctx, depth, budget):
    """div(x, n) with 0 <= x < c n known for a small number c: one case per value"""
    divs = [a for a in atoms_of(p, under_binders=False) if a.kind == 'fn' and a.name == 'div' and not a.bvs]
    for a in divs:
        x, n = a.args
        if n.const() is not None:
            continue
        want = x.fv | n.fv
        if not any(b.op in ('lt', 'le') and x.fv <= b.args[0].fv <= want and (n.fv <= b.args[0].fv) for b in ctx.a):
            continue
        if not ctx.prove(le(ZERO, x)):
            continue
        c = next((c for c in range(1, 7) if ctx.prove(lt(x, scale(n, c)))), None)
        if c is None:
            continue
        d = P(a)
        for v in range(c):
            c2 = ctx.with_(le(scale(n, v), x), lt(x, scale(n, v + 1)), eq(d, C(v)))
            if not c2.feasible():
                continue
            q = map_atoms(p, lambda y: C(v) if y is a else None)
            ok, w = prove_zero(q, c2, depth + 1, budget)
            if not ok:
                return False, w
        return True, None
    return None


def size(p):
    return sum(1 + len(m) for m in p.t)


def simplify_binders(p, ctx):
    """simplify Iversons inside sums using binder ranges"""
    def slam(a):
        if not any(x.kind == 'iv' for x in atoms_of(a.args[-1])) or a.bvs:
            return a
        vs, ns, body = open_binder(a)
        c2 = ctx
        for v, n in zip(vs, ns):
            c2 = c2.with_(le(ZERO, P(v)), lt(P(v), n))
        nb = simplify(body, c2)
        if any(x.kind in ('sum', 'lam', 'big', 'ext') for x in atoms_of(nb)):
            nb = map_atoms(nb, f)
        return a if nb is body else close_lam(vs, ns, nb)

    def f(a):
        if a.kind == 'ext' and not a.bvs:
            cut = [i for i, x in enumerate(a.args) if isinstance(x, str) and x == '|'][0]
            na = tuple(slam(x) if isinstance(x, Atom) and x.kind == 'lam' else x for x in a.args[:cut])
            if any(x is not y for x, y in zip(na, a.args)):
                r = ext(a.name, na, a.args[cut + 1:], a.sort)
                if a.rng is not None:
                    atom_of(r).rng = a.rng
                return r
        if a.kind in ('sum', 'lam', 'big') and any(x.kind == 'iv' for x in atoms_of(a.args[-1])):
            vs, ns, body = open_binder(a)
            c2 = ctx
            for v, n in zip(vs, ns):
                c2 = c2.with_(le(ZERO, P(v)), lt(P(v), n))
            nb = simplify(body, c2)
            nb = map_atoms(nb, f) if any(x.kind in ('sum', 'lam', 'big') for x in atoms_of(nb)) else nb
            if nb is body:
                return P(a) if a.kind != 'lam' else None
            if a.kind == 'sum':
                return T._sum_generic(list(zip(vs, ns)), nb)
            if a.kind == 'big':
                return close_big(a.name[1], vs[0], ns[0], nb)
        return None
    if not any(a.kind in ('sum', 'big', 'ext') for a in atoms_of(p)):
        return p
    return map_atoms(p, f)


def clear_denoms(p):
    mins = {}
    for m in p.t:
        for a, e in m:
            if e < 0 or not isinstance(e, int):
                if a not in mins or e < mins[a]:
                    mins[a] = e
    # integral part negative
    d = {}
    for a, e in mins.items():
        es = []
        for m in p.t:
            x = dict(m).get(a, 0)
            es.append(x)
        lo = min(es)
        if lo < 0:
            d[a] = -lo
        elif lo > 0 and not isinstance(lo, int):
            d[a] = -lo       # common fractional factor
    # common base factors present in every monomial (nonzero by definedness) are harmless
    if not d:
        return p
    f = tuple(sorted(d.items(), key=lambda x: x[0].id))
    out = ZERO
    for m, c in p.t.items():
        dd = T.mono_mul(m, f)
        out = out + T._norm_mono(dd, c)
    return out


def split_bounds(p, ctx):
    at = [a for a in atoms_of(p, under_binders=False) if a.kind == 'sum' and not a.bvs]
    if len(at) < 2:
        return p
    at.sort(key=lambda a: a.id)
    for x in at:
        for y in at:
            if x is y or len(x.args) != len(y.args):
                continue
            for i, n in enumerate(x.args[:-1]):
                for m in y.args[:-1]:
                    c = (n - m).const()
                    if c is None or c <= 0 or c > 3 or m.const() is not None:
                        continue
                    if not ctx.prove(le(ZERO, m)):
                        continue
                    vs, ns, body = open_binder(x)
                    rest = [(vs[k], ns[k]) for k in range(len(vs)) if k != i]
                    # v is re-ranged to m
                    w = fresh('o', 'int', (ZERO, m))
                    r = T._sum_generic(rest + [(atom_of(w), m)], subst(body, {vs[i]: w}))
                    for k in range(int(c)):
                        b = subst(body, {vs[i]: m + k})
                        r = r + (T._sum_generic(rest, b) if rest else b)
                    return map_atoms(p, lambda a: r if a is x else None)
    return p


def unify_opaque(p, ctx, budget, depth):
    """merge sum/ext/big atoms proved equal"""
    if depth > 40:
        return p
    for kind in ('ext', 'sum', 'big'):
        at = [a for a in atoms_of(p, under_binders=True) if a.kind == kind and not a.bvs]
        at.sort(key=lambda a: a.id)
        for i in range(len(at)):
            for j in range(i + 1, len(at)):
                if _similar(at[i], at[j]) and opaque_equal(at[i], at[j], ctx, budget, depth):
                    x, y = at[i], at[j]
                    return map_atoms(p, lambda a: P(x) if a is y else None)
    return p


_sig = {}


def signature(a):
    """names occurring in a term (None when brackets may hide some); terms that differ here are not tried for equality"""
    r = _sig.get(a, 0)
    if r == 0:
        out = set()
        for x in atoms_of(a.args[-1]):
            if x.kind == 'iv':
                out = None
                break
            if x.kind in ('app', 'ext'):
                out.add((x.kind, x.name))
            elif x.kind == 'fn' and x.name not in ('floor', 'div', 'abs'):
                out.add((x.kind, x.name) + tuple(c for y in x.args for c in [y.const()] if c is not None))
        r = None if out is None else frozenset(out)
        _sig[a] = r
    return r


def _similar(a, b):
    if a.kind != b.kind:
        return False
    if a.kind == 'sum':
        u, v = signature(a), signature(b)
        if u is not None and v is not None and u != v:
            return False
        return len(a.args) == len(b.args)
    if a.kind == 'big':
        return a.name[1] == b.name[1]
    if a.kind == 'ext':
        return a.name == b.name and len(a.args) == len(b.args)
    return False


_oeq = {}


def opaque_equal(a, b, ctx, budget, depth):
    if ctx.a:
        c2 = Ctx()
        c2.a = ctx.relevant_fv(a.fv | b.fv)
        c2.aset = set(c2.a)
        ctx = c2
    key = (a, b, frozenset(ctx.a))
    r = _oeq.get(key)
    if r is None:
        r = _opaque_equal(a, b, ctx, budget, depth)
        _oeq[key] = r
    return r


def _opaque_equal(a, b, ctx, budget, depth):
    from itertools import permutations
    if a.kind in ('sum', 'big'):
        vs, ns, ba = open_binder(a)
        ws, ms, bb = open_binder(b)
        k = len(vs)
        for perm in permutations(range(k)):
            if all(ns[i] is ms[perm[i]] or ctx.prove(eq(ns[i], ms[perm[i]])) for i in range(k)):
                s = {ws[perm[i]]: P(vs[i]) for i in range(k)}
                c2 = ctx
                for v, n in zip(vs, ns):
                    c2 = c2.with_(le(ZERO, P(v)), lt(P(v), n))
                ok, _ = prove_zero(ba - subst(bb, s), c2, depth + 1, budget)
                if ok:
                    return True
        return False
    # ext
    for x, y in zip(a.args, b.args):
        if x is y or x == y:
            continue
        if isinstance(x, Poly) and isinstance(y, Poly):
            ok, _ = prove_zero(x - y, ctx, depth + 1, budget)
            if not ok:
                return False
        elif isinstance(x, Atom) and isinstance(y, Atom) and x.kind == 'lam' and y.kind == 'lam':
            if not lam_equal(x, y, ctx, budget, depth):
                return False
        else:
            return False
    return True


def lam_equal(x, y, ctx, budget, depth):
    if len(x.args) != len(y.args):
        return False
    vs, ns, ba = open_binder(x)
    ws, ms, bb = open_binder(y)
    if not all(n is m or ctx.prove(eq(n, m)) for n, m in zip(ns, ms)):
        return False
    c2 = ctx
    for v, n in zip(vs, ns):
        c2 = c2.with_(le(ZERO, P(v)), lt(P(v), n))
    ok, _ = prove_zero(ba - subst(bb, {w: P(v) for v, w in zip(vs, ws)}), c2, depth + 1, budget)
    return ok


def unify_apps(p, ctx):
    """f(x) and f(y) with ctx |- x = y ; base atoms with equal content"""
    at = [a for a in atoms_of(p, under_binders=False) if a.kind in ('app', 'fn') and not a.bvs and a.args]
    by = {}
    for a in at:
        by.setdefault((a.kind, a.name, len(a.args)), []).append(a)
    for g in by.values():
        g.sort(key=lambda a: a.id)
        for i in range(len(g)):
            for j in range(i + 1, len(g)):
                x, y = g[i], g[j]
                same = True
                for u, v in zip(x.args, y.args):
                    if u is v:
                        continue
                    d = u - v
                    if d.const() is not None:
                        same = False
                        break
                    if not ctx.prove(eq0(d)):
                        same = False
                        break
                if same:
                    return map_atoms(p, lambda a: P(x) if a is y else None)
    return p


def push_in(p, ctx, budget, depth):
    """T = sum_k cof_k * Sum(body_k) all with the same ranges and no remainder"""
    groups = {}
    for m, c in p.t.items():
        ss = [(a, e) for a, e in m if a.kind == 'sum']
        if len(ss) == 0:
            return False
        groups.setdefault(None, [])
        # choose a sum to open: must be exponent 1
        one = [a for a, e in ss if e == 1]
        if not one:
            return False
    # choose a common range: try each range length available in the first monomial
    first = next(iter(p.t))
    cands = []
    for a, e in first:
        if a.kind == 'sum' and e == 1:
            for n in a.args[:-1]:
                if n not in cands:
                    cands.append(n)
    for n in cands:
        v = fresh('pi', 'int', (ZERO, n))
        tot = ZERO
        ok = True
        for m, c in p.t.items():
            hit = None
            for a, e in m:
                if a.kind == 'sum' and e == 1 and any(x is n for x in a.args[:-1]):
                    hit = a
                    break
            if hit is None:
                ok = False
                break
            vs, ns, body = open_binder(hit)
            i = [k for k, x in enumerate(ns) if x is n][0]
            body = subst(body, {vs[i]: v})
            rest = [(vs[k], ns[k]) for k in range(len(vs)) if k != i]
            if rest:
                body = T._sum_generic(rest, body)
            cof = mkpoly({tuple(x for x in m if x[0] is not hit): c})
            tot = tot + cof * body
        if not ok:
            continue
        c2 = ctx.with_(le(ZERO, v), lt(v, n))
        r, _ = prove_zero(tot, c2, depth + 1, budget)
        if r:
            return True
    return False
