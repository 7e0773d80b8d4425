"""Contracts of the orbital solver (one symmetry block m, one spin)."""
from .lib import *
from . import grid as _g, psgrid as _pg

S = 'CADMium.pssolver.'
IS = 'CADMium.pssolver.pssolver:i_solver'
TINY = scale(power(P(float(np.finfo(float).eps)), -1), -1)


def per_orbital(I, s):
    """electrons in a full orbital: two spins (when unpolarised) times both signs of m (when m > 0)"""
    pol = s.st['pol'].intval() if hasattr(s.st['pol'], 'intval') else Q(s.st['pol']).intval()
    return C(Fraction(2, pol)) if I.decide(eq(Q(s.st['m']), ZERO)) else C(Fraction(4, pol))


def occupation(I, s):
    """-> electrons per orbital, number of full orbitals, filling of the next one"""
    per = per_orbital(I, s)
    x = Q(s.st['N']) * power(per, -1)
    nocc = T.fn('floor', x)
    return per, nocc, x - nocc


def fractional(I, s):
    return I.decide(I.truth(s.st['optSolver'].st['fractional']))


def col(phi, i):
    return lambda p: phi.get(p, i)


def sq(f):
    return lambda p: f(p) * f(p)


def weights(I, s):
    """-> per, nocc, filling of orbital nocc (0 unless fractional occupation is on)"""
    per, nocc, nu = occupation(I, s)
    return per, nocc, nu if fractional(I, s) else ZERO


def density_of(I, s):
    g, phi = s.st['grid'], s.st['phi']
    per, nocc, nu = weights(I, s)
    one = lambda i: (lambda p: power(phi.get(p, i), 2) * power(quad(g, sq(col(phi, i))), -1))
    return lambda p: per * (sum_(nocc, lambda i: one(i)(p)) + (nu * one(nocc)(p) if nu is not ZERO else ZERO))


@contract(S + 'calc_density:calc_density')
def calc_density(I, self):
    """occupation-weighted sum of the normalised orbital densities"""
    N = Q(self.st['grid'].st['Nelem'])
    n = density_of(I, self)
    self.st['n'] = arr((N, 1), lambda p, z: n(p))


def energy_of(I, s):
    per, nocc, nu = weights(I, s)
    eig = s.st['eig']
    return per * (sum_(nocc, lambda i: eig.get(i)) + (nu * eig.get(nocc) if nu is not ZERO else ZERO))


@contract(S + 'calc_energy:calc_energy')
def calc_energy(I, self):
    """eks = occupation-weighted eigenvalue sum; Vs = integral of potential times density; Ts = eks - Vs"""
    e = energy_of(I, self)
    I.contracts[S + 'calc_density:calc_density'](I, self)
    n, v, g = self.st['n'], self.st['veff'], self.st['grid']
    vs = quad(g, lambda p: v.get(p) * n.get(p, 0))
    self.st['eks'] = fl(e)
    self.st['Ts'] = fl(e - vs)
    # values that are not finite or absurdly large are discarded
    if I.decide(batom('isnan', vs)):
        vs = ZERO
    elif not I.decide(batom('isinf', vs)) and I.decide(lt(P(100000), T.fn('abs', vs))):
        vs = ZERO
    self.st['Vs'] = fl(vs)


@contract(S + 'get_homo:get_homo')
def get_homo(I, self):
    """eigenvalue of the highest orbital holding any electron; a huge negative number when there is none"""
    per, nocc, nu = occupation(I, self)
    eig = self.st['eig']
    if I.decide(eq(nu, ZERO)):
        h = fl(eig.get(nocc - 1)) if I.decide(ge(nocc, 1)) else fl(TINY)
    else:
        h = fl(eig.get(nocc))
    self.st['homo'] = h
    return h


@contract(S + 'calc_ked_WFI:calc_ked_WFI')
def calc_ked_WFI(I, self):
    """occupation-weighted sum of phi (H0 phi) / w over the normalised orbitals"""
    g, phi, H0 = self.st['grid'], self.st['phi'], self.st['H0']
    N = Q(g.st['Nelem'])
    per, nocc, nu = weights(I, self)
    w = g.st['w']
    one = lambda i: (lambda p: power(quad(g, sq(col(phi, i))), -1) * phi.get(p, i) * sum_(N, lambda q: H0.get(p, q) * phi.get(q, i)) * power(w.get(p), -1))
    self.st['ked_WFI'] = arr((N, 1), lambda p, z: per * (sum_(nocc, lambda i: one(i)(p)) + (nu * one(nocc)(p) if nu is not ZERO else ZERO)))


@contract(S + 'normalize_orbitals:normalize_orbitals')
def normalize_orbitals(I, self):
    """each orbital is scaled so that its square integrates to the number of electrons it can hold"""
    g, phi = self.st['grid'], self.st['phi']
    per = per_orbital(I, self)
    c = power(per, Fraction(1, 2))
    old = phi.c
    phi.set_content(lambda p, i: c * old.get(p, i) * power(quad(g, lambda q: power(old.get(q, i), 2)), Fraction(-1, 2)))


# ------------------------------------------------------------------ cases
def options(k, **kw):
    o = Obj(cls('CADMium.pssolver.pssolver:SolverOptions'), {}, 'optSolver')
    o.st.update(fractional=k.flag('fractional'), sym=k.flag('sym'), iter_lin_solver=k.flag('iter_lin'), disp=k.flag('disp'),
                tol_orbital=k.real('tol_orbital', nonneg=True), tol_lin_solver=k.real('tol_lin', nonneg=True))
    o.st.update(kw)
    return o


def solver(k, g, N, pol, Nmo=None, name='solver', pre='', m=None, electrons=None, **kw):
    """a solver holding Nmo orbitals and at most as many electrons as they can take"""
    mk = k.I.mkint
    Nmo = k.int(pre + 'Nmo', 1) if Nmo is None else Nmo
    m = k.int(pre + 'm', 0) if m is None else C(m)
    el = k.real(pre + 'N', nonneg=True) if electrons is None else electrons
    k.assume(le(Q(el), scale(P(Nmo), Fraction(2, pol)) * (1 + iv(gt(m, ZERO)))))
    s = Obj(cls(IS), {}, name)
    s.st.update(grid=g, Nmo=mk(P(Nmo)), N=el, pol=mk(P(pol)), m=mk(m), Nlvls=mk(m), optSolver=options(k, **kw),
                phi=k.arr(pre + 'phi', (N, P(Nmo))), eig=k.arr(pre + 'eig', (P(Nmo),)), veff=k.arr(pre + 'veff', (N,)),
                H0=k.arr(pre + 'H0', (N, N), kind='sp'), n=None, chi=None, homo=None, eks=None, Vs=None, Ts=None, ked_WFI=None,
                e0=k.real(pre + 'e0'), v0=k.arr(pre + 'v0', (N,)))
    s.st['opt'] = PDict({'tol': 1e-16, 'v0': k.arr(pre + 'optv0', (N, 1))})
    return s


def _ss(val, rng):
    val.syms.update(Np=rng.randint(2, 6), Nmo=rng.randint(1, 4), m=rng.choice([0, 0, 1, 2]))
    cap = val.syms['Nmo'] * rng.choice([1, 1, 2, 2, 4])
    val.syms['N'] = rng.choice([rng.uniform(0, cap), float(rng.randint(0, cap)), cap / 2])
    val.syms['tol_orbital'] = rng.choice([1e-15, 10.0, 0.5])
    val.dists.update(wi='pos')


for _n in ('calc_density', 'calc_energy', 'get_homo', 'calc_ked_WFI', 'normalize_orbitals'):
    for _pol in (1, 2):
        def _b(k, pol=_pol):
            g, N = abstract_grid(k)
            return [solver(k, g, N, pol)]
        case(f'{S}{_n}:{_n}', f'pol={_pol}', sample=_ss)(_b)


# ------------------------------------------------------------------ lemmas over the contracts
def _lemma_solver(L, pol, m, frac):
    g, N = abstract_grid(L)
    per = Fraction(2 if m == 0 else 4, pol)
    nocc = L.int('nocc', 0)
    nu = L.real('nu', nonneg=True) if frac else fl(ZERO)
    if frac:
        L.assume(lt(Q(nu), ONE))
    s = solver(L, g, N, pol, m=m, electrons=fl(scale(nocc + Q(nu), per)), fractional=frac)
    return g, N, s, nocc, Q(nu), per


for _pol in (1, 2):
    for _m in (0, 1):
        for _fr in (False, True):
            def _l(L, pol=_pol, m=_m, fr=_fr):
                g, N, s, nocc, nu, per = _lemma_solver(L, pol, m, fr)
                L.call(S + 'calc_density:calc_density', s)
                n = s.st['n']
                total = L.call('CADMium.psgrid.psgrid:Psgrid.integrate', g, n)
                L.zero('integral of the density - N', Q(total) - Q(s.st['N']))
            lemma(f'density integrates to N (pol={_pol}, m={_m}, fractional={_fr})')(_l)

            def _l2(L, pol=_pol, m=_m, fr=_fr):
                g, N, s, nocc, nu, per = _lemma_solver(L, pol, m, fr)
                L.call(S + 'calc_ked_WFI:calc_ked_WFI', s)
                ked = L.call('CADMium.psgrid.psgrid:Psgrid.integrate', g, s.st['ked_WFI'])
                e = energy_of(L.I, s)
                n = density_of(L.I, s)
                H0, phi, v, eig, w = s.st['H0'], s.st['phi'], s.st['veff'], s.st['eig'], g.st['w']
                vs = quad(g, lambda p: v.get(p) * n(p))

                def res(i):      # residual of the eigenvalue equation of orbital i, projected on the orbital
                    r = lambda p: power(w.get(p), -1) * sum_(N, lambda q: H0.get(p, q) * phi.get(q, i)) + (v.get(p) - eig.get(i)) * phi.get(p, i)
                    return quad(g, lambda p: phi.get(p, i) * r(p)) * power(quad(g, sq(col(phi, i))), -1)
                rest = scale(sum_(nocc, res) + (nu * res(nocc) if fr else ZERO), per)
                L.zero('integral of the kinetic energy density - (eks - Vs) - residuals', Q(ked) - (e - vs) - rest)
            lemma(f'kinetic energy density integrates to Ts (pol={_pol}, m={_m}, fractional={_fr})')(_l2)


# ------------------------------------------------------------------ Hamiltonian, eigenvalue problem
@contract(IS + '.hamiltonian')
def hamiltonian(I, self):
    """H0 = -1/2 Laplacian (even for even m, odd for odd m) + m^2 w f on the diagonal"""
    g, m = self.st['grid'], Q(self.st['m'])
    N = Q(g.st['Nelem'])
    w, f = g.st['w'], g.st['f']
    lap = g.st['elap'] if I.decide(eq(m, scale(T.fn('floor', scale(m, Fraction(1, 2))), 2))) else g.st['olap']
    lap = lap.c
    self.st['H0'] = arr((N, N), lambda p, q: scale(lap.get(p, q), Fraction(-1, 2)) + iv(eq(p, q)) * m * m * w.get(p) * f.get(p), kind='sp')


@contract(IS + '.setveff')
def setveff(I, self, veff):
    """stores the potential"""
    self.st['veff'] = veff


def none_or_arr(x):
    return x is None


@contract(S + 'calc_orbitals:calc_orbitals')
def calc_orbitals(I, self, solver_id, return_dict):
    """the Nmo eigenpairs of w^-1 (H0 + w veff) nearest to the energy estimate, in ascending order; nearly degenerate pairs
    become one even and one odd combination; with symmetrisation on each orbital is projected on its dominant mirror parity"""
    g, st = self.st['grid'], self.st
    N, nmo = Q(g.st['Nelem']), Q(st['Nmo'])
    if I.decide(ne(nmo, ZERO)):
        if st['H0'] is None:
            I.contracts[IS + '.hamiltonian'](I, self)
        H0, v, w = st['H0'].c, st['veff'].c, g.st['w'].c
        A = NM.lamof(ArrC((N, N), lambda p, q: power(w.get(p), -1) * H0.get(p, q) + iv(eq(p, q)) * v.get(p), 'f'))
        e0 = Q(st['e0'])
        val = lambda i: ext('eigs_val', (A, nmo, e0), (i,))
        order = NM.lamof(ArrC((nmo,), val, 'f'))
        k = I.small_int(nmo)
        if k is None:
            raise Unsupported('symbolic number of orbitals')
        ix = (lambda i: i) if k == 1 else (lambda i: ext('argsort', (order,), (i,), 'int'))
        eig = lambda i: val(ix(i))
        cols = [(lambda p, i=i: ext('eigs_vec', (A, nmo, e0), (p, ix(C(i))))) for i in range(k)]
        M = lambda f: (lambda p: f(midx(g, p)))
        norm = lambda f: power(sum_(N, lambda q: power(f(q), 2)), Fraction(1, 2))
        for i in range(k):
            for j in range(i + 1, k):
                if I.decide(lt(T.fn('abs', eig(C(i)) - eig(C(j))), P(1e-9))):
                    x, y = cols[i], cols[j]
                    even = lambda p, x=x, y=y: x(p) + M(x)(p) + y(p) + M(y)(p)
                    odd = lambda p, x=x, y=y: x(p) - M(x)(p) + y(p) - M(y)(p)
                    cols[i] = lambda p, even=even: even(p) * power(norm(even), -1)
                    cols[j] = lambda p, odd=odd: odd(p) * power(norm(odd), -1)
        if I.decide(I.truth(st['optSolver'].st['sym'])):
            for i in range(k):
                x = cols[i]
                if I.decide(gt(sum_(N, lambda q: x(q) * M(x)(q)), ZERO)):
                    even = lambda p, x=x: x(p) + M(x)(p)
                    cols[i] = lambda p, even=even: even(p) * power(norm(even), -1)
                else:
                    cols[i] = lambda p, x=x: x(p) - M(x)(p)
        st['eig'] = arr((nmo,), eig)
        st['phi'] = arr((N, nmo), lambda p, i: NM.pick([c(p) for c in cols], i))
    else:
        st['eig'] = arr((1,), lambda i: TINY)
    if return_dict is not None:
        return_dict.st[I.key(solver_id) if hasattr(I, 'key') else solver_id] = PList([st['eig'], st['phi']])


def _eig_sample(val, rng):
    n = rng.choice([6, 8])
    val.syms.update(Np=n, m=rng.choice([0, 1, 2]), N=0, e0=rng.uniform(-3, -1))
    val.fns['optv0'] = lambda p, q: 1.0 + 0 * p
    s = rng.random()

    def h(p, q):
        a, b = np.minimum(p, q), np.maximum(p, q)
        return np.where(a == b, 2.0 + 0.3 * a + s, np.sin(1.0 + s + a + 2.3 * b) * 0.4)
    val.dists.update(wi='pos')
    for nm in ('H0', 'elap', 'olap'):
        val.fns[nm] = h
    val.fns['mir'] = lambda p: n - 1 - p


def _orb_case(pol, nmo, h0, rd, **kw):
    def b(k):
        g, N = abstract_grid(k)
        k.assume(ge(N, nmo + 3))
        s = solver(k, g, N, pol, Nmo=nmo, **kw)
        if not h0:
            s.st['H0'] = None
        if nmo == 0:
            s.st['phi'] = None
        return [s, (k.I.mkint(C(0)), k.I.mkint(C(1))) if rd else None, PDict({}) if rd else None]
    return b


for _nmo, _h0, _rd, _kw in ((0, True, True, {}), (1, True, True, {}), (1, False, False, {}), (2, True, False, {'sym': False}), (3, True, False, {})):
    case(S + 'calc_orbitals:calc_orbitals', f'{_nmo} orbitals, ' + ('H0 given' if _h0 else 'H0 missing') + (', managed dictionary' if _rd else '') + (', no symmetrisation' if _kw else ''), sample=_eig_sample, bounded=_nmo == 3)(_orb_case(1, _nmo, _h0, _rd, **_kw))


@case(IS + '.hamiltonian', 'any m', sample=_ss)
def _(k):
    g, N = abstract_grid(k)
    return [solver(k, g, N, 1)]


@case(IS + '.setveff', 'any potential', sample=_ss)
def _(k):
    g, N = abstract_grid(k)
    return [solver(k, g, N, 1), k.arr('v', (N,))]


# ------------------------------------------------------------------ iterative refinement of orbitals
def bordered(N, A, b, c, d):
    """the (N+1)x(N+1) matrix [[A, b], [c, d]]"""
    def g(p, q):
        pi, qi = lt(p, N), lt(q, N)
        return iv(band(pi, qi)) * A(p, q) + iv(band(pi, bnot(qi))) * b(p) + iv(band(bnot(pi), qi)) * c(q) + iv(band(bnot(pi), bnot(qi))) * d
    return NM.lamof(ArrC((N + 1, N + 1), g, 'f'))


@contract(S + 'iter_orbitals:iter_orbitals')
def iter_orbitals(I, self, solver_id, return_dict):
    """one Newton step on (phi_j, eig_j) of every orbital whose largest residual |H phi - e w phi| exceeds the tolerance,
    followed by normalisation; the others are left alone"""
    g, st = self.st['grid'], self.st
    N, nmo = Q(g.st['Nelem']), Q(st['Nmo'])
    if I.decide(ne(nmo, ZERO)):
        if st['phi'] is None or st['eig'] is None:
            I.contracts[IS + '.calc_orbitals'](I, self, None, None)
        k = I.small_int(nmo)
        if k is None:
            raise Unsupported('symbolic number of orbitals')
        phi0, eig0, H0, v, w = st['phi'].c, st['eig'].c, st['H0'].c, st['veff'].c, g.st['w'].c
        H = lambda p, q: H0.get(p, q) + iv(eq(p, q)) * w.get(p) * v.get(p)
        res0 = lambda j: (lambda p: sum_(N, lambda q: H(p, q) * phi0.get(q, j)) - w.get(p) * phi0.get(p, j) * eig0.get(j))
        tol = Q(st['optSolver'].st['tol_orbital'])
        for j in range(k):
            r = res0(j)
            if I.decide(gt(big('max', N, lambda p: T.fn('abs', r(p))), tol)):
                phi, eig = st['phi'].c, st['eig'].c
                b = lambda p: -w.get(p) * phi.get(p, j)
                M = bordered(N, lambda p, q: H(p, q) - iv(eq(p, q)) * w.get(p) * eig.get(j), b, b, P(-1e-12))
                rhs = NM.lamof(ArrC((N + 1,), lambda p: iv(lt(p, N)) * r(p), 'f'))
                x = lambda p, M=M, rhs=rhs: ext('linsolve', (M, rhs), (p,))
                st['phi'].update(lambda p, i, j=j, phi=phi, x=x: (eq(i, C(j)), phi.get(p, j) - x(p)))
                st['eig'].update(lambda i, j=j, eig=eig, x=x: (eq(i, C(j)), eig.get(j) - x(N)))
                I.contracts[S + 'normalize_orbitals:normalize_orbitals'](I, self)
    else:
        st['eig'] = arr((1,), lambda i: TINY)
    if return_dict is not None:
        return_dict.st[solver_id] = PList([st['eig'], st['phi']])


def _iter_sample(val, rng):
    _eig_sample(val, rng)
    val.syms['tol_orbital'] = rng.choice([1e-15, 1e-15, 0.6, 10.0])


def _iter_guess(val, rng):
    _eig_sample(val, rng)
    val.syms['tol_orbital'] = rng.choice([1e-6, 0.6, 10.0])      # eigenvectors are converged: below this the correction is rounding noise


def _iter_case(nmo, rd, noguess=False, pol=1):
    def b(k):
        s, sid, d = _orb_case(pol, nmo, True, rd, sym=False)(k)
        if noguess:
            s.st['phi'] = s.st['eig'] = None
        return [s, sid, d]
    return b


for _nmo, _rd, _ng, _pol in ((0, True, False, 1), (1, True, False, 1), (2, False, False, 2), (1, False, True, 2)):
    case(S + 'iter_orbitals:iter_orbitals', f'{_nmo} orbitals, pol={_pol}' + (', managed dictionary' if _rd else '') + (', no starting orbitals' if _ng else ''),
         sample=_iter_guess if _ng else _iter_sample, tol=1e-5)(_iter_case(_nmo, _rd, _ng, _pol))


# ------------------------------------------------------------------ density response
@contract(S + 'calc_response:calc_response')
def calc_response(I, self):
    """chi[p, q] = d n(p) / d v(q) = sum over occupied orbitals of occupation * 2 phi_j(p) x_j[p, q], where x_j solves the
    bordered (Sternheimer) equations [[-(H - e_j w), w phi_j], [w phi_j, 0]] [x; .] = [w phi_j; 0]"""
    g, st = self.st['grid'], self.st
    N = Q(g.st['Nelem'])
    per, nocc, nu = weights(I, self)
    k = I.small_int(nocc)
    if k is None:
        raise Unsupported('response of a symbolic number of orbitals')
    phi, eig, H0, v, w = st['phi'].c, st['eig'].c, st['H0'].c, st['veff'].c, g.st['w'].c

    def resp(j):
        c = power(quad(g, lambda p: power(phi.get(p, j), 2)), Fraction(-1, 2))
        f = lambda p: c * phi.get(p, j)
        wf = lambda p: w.get(p) * f(p)
        A = bordered(N, lambda p, q: -H0.get(p, q) - iv(eq(p, q)) * w.get(p) * (v.get(p) - eig.get(j)), wf, wf, ZERO)
        rhs = NM.lamof(ArrC((N + 1, N), lambda p, q: iv(eq(p, q)) * iv(lt(p, N)) * wf(q), 'f'))
        return lambda p, q: 2 * f(p) * ext('linsolve', (A, rhs), (p, q))
    terms = [(resp(j), ONE) for j in range(k)]
    if nu is not ZERO and I.decide(ne(nu, ZERO)):
        terms.append((resp(k), nu))
    if not terms:
        st['chi'] = arr((N,), lambda p: ZERO)
        return
    st['chi'] = arr((N, N), lambda p, q: per * sum((o * r(p, q) for r, o in terms), ZERO), kind='mat')


def _resp_sample(val, rng):
    _eig_sample(val, rng)
    val.syms['nu'] = rng.uniform(0.1, 0.9)


def _resp_case(pol, m, nocc, frac):
    def b(k):
        g, N = abstract_grid(k)
        nu = k.real('nu', nonneg=True)
        k.assume(lt(Q(nu), ONE))
        if not frac:
            nu = fl(ZERO)
        per = Fraction(2 if m == 0 else 4, pol)
        s = solver(k, g, N, pol, Nmo=nocc + 1, m=m, electrons=fl(scale(nocc + Q(nu), per)), fractional=frac)
        return [s]
    return b


for _pol, _m, _nocc, _fr in ((1, 0, 0, False), (1, 0, 1, False), (2, 0, 1, False), (1, 1, 1, False), (2, 1, 2, False), (1, 0, 0, True), (2, 1, 1, True), (2, 0, 1, True)):
    case(S + 'calc_response:calc_response', f'pol={_pol}, m={_m}, {_nocc} full orbitals' + (' and a partly filled one' if _fr else ''), sample=_resp_sample)(_resp_case(_pol, _m, _nocc, _fr))


# ------------------------------------------------------------------ methods of the solver object
def _method(name, params=(), ret=False):
    sig = ''.join(f', {p}' for p in params)
    src = (f'def w(I, self{sig}):\n    {"return " if ret else ""}I.contracts["{S}{name}:{name}"](I, self{"".join(", " + p.split("=")[0] for p in params)})\n')
    d = {}
    exec(src, d)
    d['w'].__doc__ = f'{name} of this solver'
    contract(IS + '.' + name)(d['w'])


for _n, _p, _r in (('calc_orbitals', ('solver_id=None', 'return_dict=None'), False), ('iter_orbitals', ('solver_id=None', 'return_dict=None'), False), ('calc_response', (), False),
                   ('normalize_orbitals', (), False), ('calc_density', (), False), ('calc_energy', (), False), ('get_homo', (), True), ('calc_ked_WFI', (), False)):
    _method(_n, _p, _r)
    from pyvc.framework import CASES as _C, Case as _Case
    for _c in _C[f'{S}{_n}:{_n}'][:2]:
        _C.setdefault(IS + '.' + _n, []).append(_Case(IS + '.' + _n, _c.name, _c.build, _c.sample, dict(_c.opts)))


DEFAULTS = dict(fractional=False, sym=False, iter_lin_solver=True, disp=True, tol_orbital=1e-15, tol_lin_solver=1e-4)


def solver_state(I, grid, Nmo, N, m, pol, opts):
    """attributes of a fresh solver"""
    n = Q(grid.st['Nelem'])
    if I.decide(eq(Q(N), C(-1))):       # unspecified: every orbital full (two electrons, or one per spin)
        N = I.mkint(scale(Q(Nmo), 2)) if Q(pol).intval() == 1 else Nmo
    d = dict(grid=grid, Nmo=Nmo, N=N, pol=pol, Nlvls=m, m=m, e0=-20, optSolver=opts, v0=arr((n,), lambda p: ONE),
             opt=PDict({'tol': 1e-16, 'v0': arr((n, 1), lambda p, z: ONE)}))
    for a in ('veff', 'H0', 'phi', 'eig', 'eks', 'Vs', 'Ts', 'n', 'chi', 'homo', 'ked_WFI', 'kedWFII'):
        d[a] = None
    return d


def parse_options(I, given, defaults, klass):
    """keys are matched without regard to case; an unknown key is refused; missing keys take the defaults"""
    o = Obj(klass, {}, klass.__name__)
    low = {q.lower(): v for q, v in given.st.items()}
    for q in low:
        if q not in defaults:
            exc('ValueError')
    o.st.update({q: low.get(q, d) for q, d in defaults.items()})
    return o


@contract(IS + '.__init__')
def i_solver_init(I, self, grid, Nmo, N, Nlvls, pol, optSolver):
    """a solver for one symmetry block: options checked, occupation resolved, nothing solved yet"""
    o = parse_options(I, optSolver, DEFAULTS, cls('CADMium.pssolver.pssolver:SolverOptions'))
    self.st.update(solver_state(I, grid, Nmo, N, Nlvls, pol, o))


def _init_case(pol, opts, minus1=False):
    def b(k):
        g, N = abstract_grid(k)
        d = {}
        for q, v in opts.items():
            d[q] = k.flag(q) if v == 'flag' else k.real(q, pos=True) if v == 'real' else v
        nel = k.I.mkint(C(-1)) if minus1 else k.real('Nel')
        return [Obj(cls(IS), {}, 'solver'), g, k.iv('Nmo', 0), nel, k.iv('m', 0), k.I.mkint(C(pol)), PDict(d)]
    return b


ALLOPT = dict(fractional='flag', sym='flag', iter_lin_solver='flag', disp='flag', tol_orbital='real', tol_lin_solver='real')
case(IS + '.__init__', 'defaults, pol=1')(_init_case(1, {}))
case(IS + '.__init__', 'full occupation, pol=1')(_init_case(1, {}, True))
case(IS + '.__init__', 'full occupation, pol=2')(_init_case(2, {}, True))
case(IS + '.__init__', 'every option')(_init_case(2, ALLOPT))
case(IS + '.__init__', 'option names in capitals')(_init_case(2, {q.upper(): v for q, v in ALLOPT.items()}))
case(IS + '.__init__', 'unknown option')(_init_case(1, {'fractionall': True}))


@contract(S + 'pssolver:Pssolver')
def Pssolver(I, grid, Nmo, N, optSolver=None):
    """one solver per angular momentum (row) and spin (column)"""
    if optSolver is None:
        optSolver = PDict({})
    get = lambda M, i, j: I.getitem(I.getitem(M, i), j)
    rows = len(Nmo.st) if isinstance(Nmo, PList) else Nmo.shape[0].intval()
    pol = len(Nmo.st[0].st) if isinstance(Nmo, PList) else Nmo.shape[1].intval()
    out = {}
    for i in range(rows):
        for j in range(pol):
            s = Obj(cls(IS), {}, 'solver')
            I.contracts[IS + '.__init__'](I, s, grid, get(Nmo, i, j), get(N, i, j), i, pol, optSolver)
            out[i, j] = s
    return OArr((rows, pol), out)


for _M in (1, 2):
    for _pol in (1, 2):
        def _b(k, M=_M, pol=_pol):
            g, N = abstract_grid(k)
            return [g, PList([PList([k.iv(f'Nmo{i}{j}', 0) for j in range(pol)]) for i in range(M)]),
                    PList([PList([k.real(f'N{i}{j}', nonneg=True) for j in range(pol)]) for i in range(M)]), PDict({'fractional': k.flag('fr'), 'SYM': k.flag('sy')})]
        case(S + 'pssolver:Pssolver', f'{_M} angular momenta, pol={_pol}')(_b)
