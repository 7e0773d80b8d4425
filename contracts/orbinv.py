"""Contracts of the density inversion by Newton steps on orbitals, eigenvalues and potential together."""
import builtins
from .lib import *
from . import grid as _g, psgrid as _pg, solver as SO, ks as KS, inverter as IN
from .solver import S, IS
from .inverter import IM, IV

O = IM + 'orbitalinvert:'


class Layout:
    """the unknowns: M orbitals on N points, M-1 eigenvalues relative to the last one, the potential relative to it"""

    def __init__(self, x, N, M):
        self.x, self.N, self.M = x, num(N) if not isinstance(N, Poly) else N, M if isinstance(M, Poly) else num(M)
        self.MN = self.N * self.M
        self.size = self.MN + self.M - 1 + self.N

    def phi(self, i, k):
        return self.x.get(i + self.N * k, ZERO)

    def e(self, k):
        return iv(lt(k, self.M - 1)) * self.x.get(self.MN + k, ZERO)

    def v(self, i):
        return self.x.get(self.MN + self.M - 1 + i, ZERO)

    def pick(self, u, a, b, c):
        """value by the part of the unknowns (or equations) that u lies in"""
        N, MN, M = self.N, self.MN, self.M
        inn, mid = lt(u, MN), lt(u, MN + M - 1)

        def f():
            k = T.idiv(u, N)
            return a(u - N * k, k)
        return iv(inn) * f() + iv(band(bnot(inn), mid)) * b(u - MN) + iv(bnot(mid)) * c(u - MN - M + 1)


def residual(L, W, H, n0, occ):
    """Kohn-Sham equations of the orbitals, norms of all but the last orbital, density"""
    N, M, half = L.N, L.M, Fraction(1, 2)

    def ks(i, k):
        return sum_(L.MN, lambda w: H(i + N * k, w) * L.x.get(w, ZERO)) + W(i) * (L.v(i) - L.e(k)) * L.phi(i, k)

    def norm(k):
        return scale(occ(k) - sum_(N, lambda i: W(i) * L.phi(i, k) * L.phi(i, k)), half)

    def dens(i):
        return scale(W(i) * (sum_(M, lambda k: L.phi(i, k) * L.phi(i, k)) - n0(i)), half)
    return lambda u: L.pick(u, ks, norm, dens)


def jacobian(L, W, H):
    """derivative of the residual with respect to the unknowns"""
    N = L.N
    d = lambda a, b: iv(eq(a, b))

    def f(u, w):
        return L.pick(u, lambda i, k: L.pick(w, lambda j, l: H(i + N * k, j + N * l) + d(i, j) * d(k, l) * W(i) * (L.v(i) - L.e(k)), lambda c: -d(k, c) * W(i) * L.phi(i, k), lambda j: d(i, j) * W(i) * L.phi(i, k)),
                      lambda c: L.pick(w, lambda j, l: -d(l, c) * W(j) * L.phi(j, l), lambda c2: ZERO, lambda j: ZERO),
                      lambda i: L.pick(w, lambda j, l: d(i, j) * W(j) * L.phi(j, l), lambda c: ZERO, lambda j: ZERO))
    return f


def total(I, Nmo):
    return Q(I.call(np.sum, [Nmo], {}))


@contract(O + 'kmatrix')
def kmatrix(I, x, i_orth, Nelem, Nmo, WWi, H, n0, occ, B2i, B2j, B3i, B3j):
    """residual of the inversion equations and its derivative"""
    M = total(I, Nmo)
    L = Layout(x.c, Nelem, M)
    w, h, t, o = WWi.c, H.c, n0.c, occ.c
    W = lambda i: w.get(i, i)
    return (arr((L.size, L.size), jacobian(L, W, h.get)), arr((L.size, ONE), lambda u, z: residual(L, W, h.get, t.get, lambda k: o.get(k, ZERO))(u)))


def _diag(f, N):
    return arr((N, N), lambda i, j: iv(eq(i, j)) * f(i), kind='sp')


def _consts(*v):
    return I_array(v)


@contract(O + 'normalize')
def normalize(I, x, Nmo, Nelem, WWi, occ):
    """every orbital scaled in place to hold its occupation"""
    L = Layout(x.c, Nelem, total(I, Nmo))
    w, o, c = WWi.c, occ.c, x.c
    half = Fraction(1, 2)
    s = lambda k: sum_(L.N, lambda i: w.get(i, i) * L.phi(i, k) * L.phi(i, k))
    new = frozen_reader(lambda u, z: L.pick(u, lambda i, k: L.phi(i, k) * power(o.get(k, ZERO) / s(k), half), lambda k: c.get(L.MN + k, z), lambda i: c.get(L.MN + L.M - 1 + i, z)))
    x.set_content(new)
    return x


@contract(O + 'ab_symmetrize')
def ab_symmetrize(I, x, Nelem, Nmo, North, self):
    """nearly degenerate neighbours combined to an even and an odd orbital; every orbital replaced by its even or odd part, whichever
    it is, at unit length; the potential averaged with its mirror image (in place)"""
    g = self.st['grid']
    M = total(I, Nmo).intval()
    L, c, N = Layout(x.c, Nelem, P(M)), x.c, num(Nelem)
    m = lambda p: midx(g, p)
    if not I.decide(eq(Q(g.st['Nelem']), N)):
        raise Unsupported('grid of another size')
    ph = [(lambda p, k=k: L.phi(p, P(k))) for k in range(M)]

    def unit(f):
        f = arr((N,), f).c.get
        s = power(sum_(N, lambda q: f(q) * f(q)), Fraction(-1, 2))
        return arr((N,), lambda p: f(p) * s).c.get
    for k in range(M - 1):
        if I.decide(lt(absval(L.e(P(k)) - L.e(P(k + 1))), P(Fraction(1, 10**6)))):
            a, b = ph[k], ph[k + 1]
            ph[k] = unit(lambda p, a=a, b=b: a(p) + a(m(p)) + b(p) + b(m(p)))
            ph[k + 1] = unit(lambda p, a=a, b=b: a(p) - a(m(p)) + b(p) - b(m(p)))
    for k in range(M):
        f = ph[k]
        even = I.decide(lt(ZERO, sum_(N, lambda q: f(q) * f(m(q)))))
        ph[k] = unit(lambda p, f=f, s=1 if even else -1: f(p) + scale(f(m(p)), s))
    half = Fraction(1, 2)
    new = frozen_reader(lambda u, z: L.pick(u, lambda i, k: NM.pick([f(i) for f in ph], k), lambda k: c.get(L.MN + k, z), lambda i: scale(L.v(i) + L.v(m(i)), half)))
    x.set_content(new)
    return x


def tb(I, x):
    t = I.truth(x)
    return t if isinstance(t, B) else TRUE if t else FALSE


def max_abs(I, n, f):
    return Q(I.call(np.max, [arr((n, ONE), lambda u, z: absval(f(u)))], {}))


def column(f, n):
    return arr((n, ONE), lambda u, z: f(u))


@contract(O + 'orbitalinvert')
def orbitalinvert(I, self, n0, vs0, phi0, e0, ispin):
    """Newton's method for the orbitals, eigenvalues and potential of one spin: starts from the orbitals the solvers hold (else from the given
    guess), normalised (and symmetrised if asked); until the residual is below the tolerance (or above 100, or the iterations are used up) either
    takes a Newton step or, when the density is much better than the orbitals, recomputes the orbitals of the present potential.
    Leaves the potential (relative to the last orbital), orbitals, eigenvalues, density and chemical potential; returns whether it converged"""
    st, con = self.st, I.contracts
    g, o = st['grid'], st['optInv'].st
    N, s, ns = Q(g.st['Nelem']), Q(ispin).intval(), IN.spins(self)
    if st['vs'] is None and st['us'] is None:
        st['vs'], st['us'] = KS.zeros((N, C(ns))), KS.zeros((ONE, C(ns)))
    sol = IN.solvers(self, s)
    for q in sol:
        con[IS + '.hamiltonian'](I, q)
    I.checkpoint()
    w, wi = g.st['w'].c, g.st['wi'].c
    Wi = lambda p: scale(T.PI, 2) * Q(g.st['hr']) * Q(g.st['ha']) * wi.get(p)
    W = lambda p: w.get(p) * Wi(p)
    count = [Q(q.st['Nmo']).intval() for q in sol]
    start = [builtins.sum(count[:k]) for k in range(len(sol) + 1)]
    m = start[-1]
    M = P(m)
    MN = M * N
    T_ = MN + M - 1 + N
    Nmo = arr((len(sol),), lambda k: NM.pick([C(c) for c in count], k), dtype='i')
    occ, blocks = [], []
    for q, c in zip(sol, count):
        full = Fraction(2 if I.decide(eq(Q(q.st['m']), ZERO)) else 4, Q(q.st['pol']).intval())
        x = scale(Q(q.st['N']), 1 / full)
        nu = x - Q(I.call(np.floor, [fl(x)], {}))
        last = ONE if I.decide(eq(nu, ZERO)) else nu
        occ += [P(full)] * (c - 1) + [scale(last, full)]
        blocks += [q.st['H0'].c] * c
    OCC = arr((M, ONE), lambda k, z: NM.pick(occ, k))

    def h(u, v):
        r = ZERO
        for k, b in enumerate(blocks):
            lo, hi = scale(N, k), scale(N, k + 1)
            c = band(le(lo, u), lt(u, hi), le(lo, v), lt(v, hi))
            if c is not FALSE:
                r = r + iv(c) * Wi(u - lo) * b.get(u - lo, v - lo)
        return r
    HH = arr((MN, MN), h, kind='sp')
    WW = _diag(W, N)
    HH, WW, OCC = I.checkpoint(HH, WW, OCC)
    idx = indices(M, N)
    none = arr((ZERO, ONE), lambda i, j: ZERO)
    v0 = lambda i: ZERO

    def unknowns(phi, e, v):
        """the orbitals one after the other, the eigenvalues and the potential relative to the last eigenvalue"""
        return I.call(np.concatenate, [(arr((MN, ONE), lambda u, z: phi(u - N * T.idiv(u, N), T.idiv(u, N))), arr((M - 1, ONE), lambda k, z: e(k) - e(M - 1)), arr((N, ONE), lambda i, z: v(i) - e(M - 1)))], {})

    def held():
        """the orbitals and eigenvalues of the solvers"""
        ph = [q.st['phi'].c for q in sol]
        es = [q.st['eig'].c for q in sol]
        if len(sol) == 1:
            return ph[0].get, es[0].get
        return (lambda i, k: NM.pick([ph[b].get(i, P(k2 - start[b])) for b in range(len(sol)) for k2 in range(start[b], start[b + 1])], k)), \
            (lambda k: NM.pick([es[b].get(P(k2 - start[b])) for b in range(len(sol)) for k2 in range(start[b], start[b + 1])], k))

    def tidy(X):
        X, = I.checkpoint(X)
        if KS.flag(I, o['ab_sym']):
            X = con[O + 'ab_symmetrize'](I, X, I.mkint(N), Nmo, 0, self)
            X, = I.checkpoint(X)
        return I.checkpoint(con[O + 'normalize'](I, X, Nmo, I.mkint(N), WW, OCC))[0]

    def store(X):
        L = Layout(X.c, N, M)
        st['vs'].update(lambda p, t: (eq(t, C(s)), L.v(p)))
        for b, q in enumerate(sol):
            q.st['phi'] = arr((N, count[b]), lambda i, k, b=b: L.phi(i, k + start[b]))
            q.st['eig'] = arr((count[b],), lambda k, b=b: L.e(k + start[b]))

    def touch():
        """(stored again as they are: other iterations change them)"""
        c = st['vs'].c
        st['vs'].set_content(lambda p, t: c.get(p, t))
        for q in sol:
            for a in ('phi', 'eig', 'veff'):
                if isinstance(q.st.get(a), Arr):
                    q.st[a] = copy_of(q.st[a])

    def potential():
        c = st['vs'].c
        return arr((N,), lambda p: c.get(p, C(s)))
    if sol[0].st['phi'] is None:
        p, e, v = phi0.c, e0.c, vs0.c
        X = unknowns(lambda i, k: p.get(i + N * k, ZERO), e.get, lambda i: v.get(i, ZERO))
    else:
        ph, e = held()
        v = sol[0].st['veff'].c
        X = unknowns(lambda i, k: ph(i, k) * (1 - scale(iv(lt(k, C(count[0]))), 2)) if len(sol) > 1 else -ph(i, k), e, v.get)       # orbitals of the first block negated
    X = tidy(X)
    I.checkpoint()
    avoid = KS.flag(I, o['avoid_loop'])
    tol, factor, most = Q(o['tol_invert']), Q(o['res_factor']), Q(o['max_iter_invert'])
    v = dict(X=X, iter=0, res=1, finished=False)
    if avoid:
        v.update(res_ks=0, res_ncon=0, old_res_ks=0, old_res_ncon=0, older_res_ks=0, older_res_ncon=0, ForceUpdate=False)        # of this and the last two iterations

    def cond():
        return bnot(tb(I, v['finished']))

    def step():
        it = v['iter'] = I.mkint(Q(v['iter']) + 1)
        X = v['X']
        J, R = I.checkpoint(*con[O + 'kmatrix'](I, X, none, I.mkint(N), Nmo, WW, HH, n0, OCC, *idx))
        r = R.c.get
        if avoid and I.decide(lt(ONE, Q(it))):
            for q in ('ks', 'ncon'):
                v['older_res_' + q], v['old_res_' + q] = v['old_res_' + q], v['res_' + q]
        ks, dens = max_abs(I, MN, lambda u: r(u, ZERO)), max_abs(I, N, lambda i: r(MN + M - 1 + i, ZERO))
        v['res'] = I.call(builtins.max, [fl(ks), fl(dens)], {})
        res = Q(v['res'])
        if avoid:
            v['res_ks'], v['res_ncon'] = fl(ks), fl(dens)
            if I.decide(lt(C(2), Q(it))):
                tenth, ten = Fraction(1, 10), 10
                old, older = ([Q(v[t + '_res_' + q]) for q in ('ks', 'ncon')] for t in ('old', 'older'))
                v['ForceUpdate'] = all(I.decide(c) for c in (lt(res, P(Fraction(1, 10**6))), lt(scale(old[0], tenth), ks), lt(ks, scale(older[0], ten)), lt(scale(older[1], tenth), dens), lt(dens, scale(older[1], ten))))
        if I.decide(lt(P(100), res)):
            v['finished'] = True
        if I.decide(lt(res, tol)) or I.decide(le(most, Q(it))):
            v['finished'] = True
            touch()
            return
        if I.decide(lt(ks * factor, dens)) or I.decide(lt(ks, scale(tol, 100))) or avoid and I.decide(tb(I, v['ForceUpdate'])):
            d = I.checkpoint(I.call(np.linalg.solve, [J, R], {}))[0].c
            x = X.c
            X = arr((T_, ONE), lambda u, z: x.get(u, z) - d.get(u, z))
            touch()
        else:
            store(X)
            for q in sol:
                con[IS + '.setveff'](I, q, potential())
                con[IS + '.calc_orbitals'](I, q)
            X = unknowns(*held(), potential().c.get)
        v['X'] = tidy(X)
    I.spec_while(v, cond, step, lambda: le(ONE, Q(v['iter'])))
    store(v['X'])
    for q in sol:
        con[IS + '.calc_density'](I, q)
        con[IS + '.setveff'](I, q, potential())
    top = [con[IS + '.get_homo'](I, q) for q in sol]
    u = Q(I.call(np.max, [PList(top)], {}))
    st['us'].update(lambda z, t: (eq(t, C(s)), u))
    info = Obj(cls(O + 'inversion_info'), {}, 'info')
    info.st.update(nfev=v['iter'], optimality=v['res'])
    return (not I.decide(lt(tol, Q(v['res']))), OArr((1, 1), {(0, 0): info}))


def copy_of(a):
    c = a.c
    return Arr(ArrC(c.shape, lambda *i: c.get(*i), c.dtype, c.kind))


def indices(M, N):
    """where the entries of the blocks of the Jacobian beside the Hamiltonian lie"""
    rng = lambda f, n, t='i': Arr.of((n, ONE), lambda u, z: f(u), t)
    return [rng(lambda u: u, M * N), rng(lambda u: u - N * T.idiv(u, N), M * N), rng(lambda u: u, (M - 1) * N), rng(lambda u: T.idiv(u, N), (M - 1) * N, 'f')]


# ------------------------------------------------------------------ cases
def _parts(k, M, blocks=None):
    N = k.int('N', 1)
    Nmo = k.I.call(np.array, [PList(blocks or [M])], {})
    MM = P(M)
    W = k.arr('W', (N,))
    x = k.arr('x', (MM * N + MM - 1 + N, ONE))
    return N, Nmo, MM, W, x


def _kcase(M, blocks=None):
    def b(k):
        N, Nmo, MM, W, x = _parts(k, M, blocks)
        idx = indices(MM, N)
        return [x, Arr.of((ZERO, ONE), lambda i, j: ZERO, 'f'), k.I.mkint(N), Nmo, _diag(W.get, N), k.arr('H', (MM * N, MM * N), kind='sp'), k.arr('n0', (N,)), k.arr('occ', (MM, ONE))] + idx
    return b


for _M, _b in ((1, None), (2, None), (3, None), (2, [1, 1]), (3, [2, 1])):
    case(O + 'kmatrix', f'{_b or _M} orbitals')(_kcase(_M, _b))

    def _n(k, M=_M, b=_b):
        N, Nmo, MM, W, x = _parts(k, M, b)
        return [x, Nmo, k.I.mkint(N), _diag(W.get, N), k.arr('occ', (MM, ONE))]
    case(O + 'normalize', f'{_b or _M} orbitals')(_n)


def _scase(M, blocks=None, close=False):
    def b(k):
        V, g, N = IN.inverter(k, 1)
        Nmo = k.I.call(np.array, [PList(blocks or [M])], {})
        MM = P(M)
        x = k.arr('x', (MM * N + MM - 1 + N, ONE))
        L = Layout(x.c, N, MM)
        for i in range(M - 1):
            near = lt(absval(L.e(P(i)) - L.e(P(i + 1))), P(Fraction(1, 10**6)))
            k.assume(near if close else bnot(near))
            if close:       # neither combination vanishes
                a, b_ = (lambda p, i=i: L.phi(p, P(i))), (lambda p, i=i: L.phi(p, P(i + 1)))
                for s in (1, -1):
                    k.assume(lt(ZERO, sum_(N, lambda p: power(a(p) + scale(a(midx(g, p)), s) + b_(p) + scale(b_(midx(g, p)), s), 2))))
        return [x, k.I.mkint(N), Nmo, 0, V]
    return b


def _sym_sample(M, close):
    def f(val, rng):
        KS.ks_sample(val, rng)
        n, r = val.syms['Np'], rng.randint(0, 50)
        val.fns['x'] = lambda u, z: np.where((u >= M * n) & (u < M * n + M - 1), -1e-8 if close else -0.5 + 0.1 * u, np.sin(1.0 + r + 2.3 * u) + 0.3)
    return f


for _M, _b, _c in ((1, None, False), (2, None, False), (2, None, True), (2, [1, 1], False), (3, [2, 1], False)):
    case(O + 'ab_symmetrize', f'{_b or _M} orbitals' + (', degenerate' if _c else ''), sample=_sym_sample(_M, _c), bounded=_c)(_scase(_M, _b, _c))


def op_kmatrix(I, x, i_orth, Nelem, Nmo, WWi, H, n0, occ, B2i, B2j, B3i, B3j):
    N, M = Q(Nelem), total(I, Nmo)
    key = named(I, 'inv_k', (NM.lamof(a.c) for a in (x, WWi, H, n0, occ, B2i, B2j, B3i, B3j)))
    n = M * N + M - 1 + N
    return (arr((n, n), lambda u, w: T.app('inv_jac', (key, u, w), 'real')), arr((n, ONE), lambda u, z: T.app('inv_eqn', (key, u), 'real')))


def op_normalize(I, x, Nmo, Nelem, WWi, occ):
    key = named(I, 'inv_norm', (NM.lamof(a.c) for a in (x, Nmo, WWi, occ)))
    x.set_content(lambda u, z: T.app('inv_norm', (key, u), 'real'))
    return x


def op_symmetrize(I, x, Nelem, Nmo, North, self):
    key = named(I, 'inv_sym', (NM.lamof(x.c), NM.lamof(Nmo.c)))
    x.set_content(lambda u, z: T.app('inv_sym', (key, u), 'real'))
    return x


def op_invert(I, self, n0, vs0, phi0, e0, ispin):
    key = named(I, 'inv_run', tuple(NM.lamof(a.c) for a in (n0, vs0, phi0, e0)) + (Q(ispin),))
    self.st['vs'] = arr((Q(self.st['grid'].st['Nelem']), C(IN.spins(self))), lambda p, t: T.app('inv_vs', (key, p, t), 'real'))
    return SV(T.app('inv_ok', (key,), 'real'), 'float'), OArr((1, 1), {(0, 0): SV(T.app('inv_info', (key,), 'real'), 'float')})


HIDE = {O + 'kmatrix': op_kmatrix, O + 'normalize': op_normalize, O + 'ab_symmetrize': op_symmetrize}


@contract(IV + '.orbitalinvert')
def m_orbitalinvert(I, self, n0, vs0, phi0, e0, ispin):
    """inversion of the target density of a spin by Newton steps on orbitals, eigenvalues and potential"""
    return I.contracts[O + 'orbitalinvert'](I, self, n0, vs0, phi0, e0, ispin)


def ocase(qual, name, pol, counts, spin=0, partial=(), fresh_=True, limit=300, guess=False, once=False, **o):
    """partial: blocks whose last orbital is not full; guess: the solvers hold no orbitals yet; once: a single iteration is allowed"""
    m = builtins.sum(counts)

    def b(k):
        V, g, N = IN.inverter(k, pol, len(counts), ens_spin_sym=False, use_iterative=False, disp=False, fresh_=fresh_, tol_invert='real', res_factor='real', max_iter_invert=1 if once else k.I.mkint(k.int('most', 1)), invert_type='orbitalinvert', **o)
        for (i, j), q in V.st['solver'].st.items():
            n = f's{i}{j}_'
            q.st.update(Nmo=counts[i], phi=None if guess else k.arr(n + 'phi', (N, C(counts[i]))), eig=None if guess else k.arr(n + 'eig', (C(counts[i]),)))
            x = scale(Q(q.st['N']), Fraction(pol, 2 if i == 0 else 4))
            full = eq(x, Q(k.I.call(np.floor, [fl(x)], {})))
            k.assume(bnot(full) if i in partial else full)
        for q in (HIDE.items() if qual == O + 'orbitalinvert' else [(O + 'orbitalinvert', op_invert)]):
            k.override(*q)
        IN.hide(k, 'calc_orbitals', 'density', 'homo')
        a = [V, k.arr('target', (N,)), k.arr('vs0', (N, ONE)), k.arr('phi0', (scale(N, m), ONE)), k.arr('e0', (C(m),))]
        return a + [spin] if qual != IV + '.invert' else (a, dict(ispin=spin))

    def sample(val, rng):
        IN.i_sample(val, rng)
        val.syms['most'] = rng.randint(1, 5)
        for i, c in enumerate(counts):
            for j in range(2):
                per = Fraction(2 if i == 0 else 4, pol)
                val.syms[f's{i}{j}_Nmo'] = c
                val.syms[f's{i}{j}_N'] = float(per * c - (per / 2 if i in partial else 0))
    case(qual, name, sample=sample, **dict(loop=True, limit=limit) if qual == O + 'orbitalinvert' and not once else {})(b)


BASIC = dict(ab_sym=False, avoid_loop=False)
ocase(O + 'orbitalinvert', 'two orbitals', 1, [2], **BASIC)
ocase(O + 'orbitalinvert', 'two orbitals, the last one not full', 1, [2], partial=(0,), **BASIC)
ocase(O + 'orbitalinvert', 'one orbital, spin 1', 2, [1], spin=1, **BASIC)
ocase(O + 'orbitalinvert', 'one orbital, potential present', 1, [1], fresh_=False, **BASIC)
ocase(O + 'orbitalinvert', 'two angular momenta', 1, [1, 1], **BASIC)
ocase(O + 'orbitalinvert', 'given orbitals', 1, [1], guess=True, **BASIC)
ocase(O + 'orbitalinvert', 'mirror symmetry', 1, [1], ab_sym=True, avoid_loop=False)
ocase(O + 'orbitalinvert', 'loops avoided', 1, [1], ab_sym=False, avoid_loop=True)
for _pol in (1, 2):
    for _b in ([3], [2, 1], [1, 2]):
        for _p in ((), (0,), (1,), (0, 1)):
            if len(_b) > 1 or 1 not in _p:
                ocase(O + 'orbitalinvert', f'one iteration, pol={_pol}, {_b} orbitals, not full: {list(_p)}', _pol, _b, spin=_pol - 1, partial=_p, once=True, guess=_b == [3] and _p == (0,), **BASIC)
ocase(IV + '.orbitalinvert', 'one orbital', 1, [1], **BASIC)
ocase(IV + '.invert', 'orbitals, one orbital', 1, [1], **BASIC)


# ------------------------------------------------------------------ lemmas
def _klemma(M):
    def l(L):
        N, Nmo, MM, W, x = _parts(L, M)
        d = L.arr('d', (MM * N + MM - 1 + N, ONE))
        n0, occ, H = L.arr('n0', (N,)), L.arr('occ', (MM, ONE)), L.arr('H', (MM * N, MM * N), kind='sp')
        z = arr((ZERO, ONE), lambda i, j: ZERO)
        k = lambda y: L.call(O + 'kmatrix', y, z, L.I.mkint(N), Nmo, _diag(W.get, N), H, n0, occ, z, z, z, z)
        J, r0 = k(x)
        _, r1 = k(arr((MM * N + MM - 1 + N, ONE), lambda u, z: x.get(u, z) + d.get(u, z)))
        D = Layout(d.c, N, MM)
        HJ = lambda u, w: iv(lt(u, MM * N)) * H.get(u, w)

        def orbitals(u):      # the sum over the orbital unknowns, orbital by orbital (the Hamiltonian apart)
            t = sum_(MM * N, lambda w: HJ(u, w) * d.get(w, ZERO))
            for o in range(M):
                t = t + sum_(N, lambda j: (J.get(u, j + scale(N, o)) - HJ(u, j + scale(N, o))) * d.get(j + scale(N, o), ZERO))
            return t
        step = lambda u: orbitals(u) + sum_(MM - 1, lambda w: J.get(u, MM * N + w) * d.get(MM * N + w, ZERO)) + sum_(N, lambda w: J.get(u, MM * N + MM - 1 + w) * d.get(MM * N + MM - 1 + w, ZERO))
        diff = lambda u: r1.get(u, ZERO) - r0.get(u, ZERO) - step(u)
        i = fresh('i', 'int', (ZERO, N))
        half = Fraction(1, 2)
        for o in range(M):
            kk = P(o)
            L.zero(f'equation of orbital {o}', diff(i + N * kk) - W.get(i) * (D.v(i) - D.e(kk)) * D.phi(i, kk))
            if o < M - 1:
                L.zero(f'norm of orbital {o}', diff(N * MM + kk) + scale(sum_(N, lambda q: W.get(q) * D.phi(q, kk) * D.phi(q, kk)), half))
        L.zero('density', diff(N * MM + MM - 1 + i) - scale(W.get(i) * sum_(MM, lambda k: D.phi(i, k) * D.phi(i, k)), half))
    return l


def _nlemma(M):
    def l(L):
        N, Nmo, MM, W, x = _parts(L, M)
        occ = L.arr('occ', (MM, ONE), nonneg=True)
        y = L.call(O + 'normalize', x, Nmo, L.I.mkint(N), _diag(W.get, N), occ)
        Y = Layout(y.c, N, MM)
        for o in range(M):
            L.zero(f'electrons of orbital {o} - occupation', sum_(N, lambda q: W.get(q) * Y.phi(q, P(o)) * Y.phi(q, P(o))) - occ.get(P(o), ZERO))
    return l


for _M in (1, 2, 3):
    lemma(f'the inversion step solves the linearised Kohn-Sham equations ({_M} orbitals)')(_klemma(_M))
    lemma(f'normalised orbitals hold their occupation ({_M} orbitals)')(_nlemma(_M))
