"""Contracts of the Kohn-Sham calculation."""
import builtins
from .lib import *
from . import grid as _g, psgrid as _pg, solver as SO, libxc as LX, hartree as HA

K = 'CADMium.kohnsham.kohnsham:Kohnsham'
KM = 'CADMium.kohnsham.kohnsham:'
H = HA.H
IS = SO.IS
PG = 'CADMium.psgrid.psgrid:Psgrid.'


# ------------------------------------------------------------------ symbolic Kohn-Sham objects
def ks_grid(k):
    """a grid with explicit sizes and everything the Hartree solver needs, and an abstract reflection"""
    g, _ = abstract_grid(k)
    Na, Nr, h = k.int('Na', 1), k.int('Nr', 1), k.int('h', 1)
    k.assume(le(h, Nr))
    N = Na * Nr
    mk = k.I.mkint
    k.assume(eq(sym('Np', 'int'), N))
    k.assume(ge(sym('Np', 'int'), 2))
    N = sym('Np', 'int')
    g.st.update(Na=mk(Na), Nr=mk(Nr), Nelem=mk(N), bcN=mk(h))
    for n in ('bXa', 'bXr'):
        g.st[n] = k.arr(n, (Na * h,))
    g.st['blap'] = k.arr('blap', (Na * h, Na * h), kind='sp')
    for n in ('L_lap', 'U_lap'):
        g.st[n] = k.arr(n, (N, N), kind='sp')
    return g, N


def ks_sample(val, rng, lo=2):
    h = rng.randint(1, 2)
    Na, Nr = rng.randint(lo, 3), rng.randint(max(h, lo), 3)
    val.syms.update(h=h, Na=Na, Nr=Nr, Np=Na * Nr)
    n = Na * Nr
    val.fns['mir'] = lambda p: (Na - 1 - p % Na) + Na * (p // Na)
    val.dists.update(Xr='pos', bXr='pos', wi='pos')
    val.fns['L_lap'] = lambda p, q: np.where(p == q, 2.0 + 0.1 * p, np.where(p > q, np.sin(1.0 + p + 3 * q) * 0.3, 0))
    val.fns['U_lap'] = lambda p, q: np.where(p == q, 1.5 + 0.2 * p, np.where(p < q, np.sin(2.0 + p + 3 * q) * 0.3, 0))


OPT = dict(interaction_type='dft', sym=False, fractional=False, xfunc_id=1, cfunc_id=12, xc_family='lda')


def ksoptions(k, kind, family='lda', **kw):
    o = Obj(cls(KM + 'KohnShamOptions'), {}, 'optKS')
    o.st.update(interaction_type=kind, sym=k.flag('ks_sym'), fractional=k.flag('ks_fractional'), xfunc_id=k.iv('xid', 1), cfunc_id=k.iv('cid', 1), xc_family=family)
    o.st.update(kw)
    return o


def arr2(k, name, N, pol):
    return k.arr(name, (N, pol))


def kohnsham(k, g, N, pol, M, kind='dft', family='lda', pre='', fresh=False, frac=None, **solver_kw):
    mk = k.I.mkint
    o = ksoptions(k, kind, family)
    if frac is not None:
        o.st['fractional'] = frac
    ks = Obj(cls(K), {}, pre + 'KS')
    shp = (C(M), C(pol))
    sol = {}
    nmo, nel = {}, {}
    for i in range(M):
        for j in range(pol):
            s = SO.solver(k, g, N, pol, name=f'{pre}solver{i}{j}', pre=f'{pre}s{i}{j}_', m=i, fractional=o.st['fractional'], sym=o.st['sym'], **solver_kw)
            sol[i, j] = s
            nmo[i, j], nel[i, j] = Q(s.st['Nmo']), Q(s.st['N'])
    at = lambda d: (lambda i, j: NM.pick([NM.pick([d[a, b] for b in range(pol)], j) for a in range(M)], i))
    ks.st.update(optKS=o, grid=g, Nmo=arr(shp, at(nmo), 'i'), N=arr(shp, at(nel)), pol=pol, Za=k.real(pre + 'Za', nonneg=True), Zb=k.real(pre + 'Zb', nonneg=True), solver=OArr((M, pol), sol),
                 V=Obj(cls(KM + 'V'), {}, pre + 'V'), u=k.real(pre + 'u'), scale=k.real(pre + 'scale'), Q=k.arr(pre + 'Q', (N,)), Alpha=None, Beta=None)
    for a in ('vnuc', 'vext', 'vhxc', 'veff', 'n'):
        ks.st[a] = k.arr(pre + a, (N, pol))
    ks.st['E'] = Obj(cls(KM + 'E'), dict(E=k.real(pre + 'E_E'), Ec=k.real(pre + 'E_Ec'), Ex=k.real(pre + 'E_Ex'), Eks=k.arr(pre + 'E_Eks', (1, pol)), Vks=k.arr(pre + 'E_Vks', (1, pol))), pre + 'E')
    if kind == 'dft':
        for a, b in (('exchange', 'xid'), ('correlation', 'cid')):
            ks.st[a] = Obj(cls(LX.X), dict(grid=g, xc_family=family, func_id=k.I.mkint(sym(b, 'int'))), pre + a)
        ks.st['hartree'] = Obj(cls(H), dict(grid=g), pre + 'hartree')
    else:
        ks.st.update(exchange=fl(ZERO), correlation=fl(ZERO), hartree=fl(ZERO))
    return ks


def each(ks):
    sh = ks.st['solver'].shape
    for i in range(sh[0]):
        for j in range(sh[1]):
            yield i, j, ks.st['solver'].st[i, j]


# opaque callees (for proofs of callers: any result that depends on the listed inputs)
def opaque_hartree(I, self, nh):
    g = self.st['grid']
    N = Q(g.st['Nelem'])
    pol = 1 if nh.ndim == 1 else nh.shape[1].intval()
    L = NM.lamof(ArrC((N,), HA.total(nh), 'f'))
    return Arr.of((N, C(pol)), lambda p, s: ext('hartree', (L,), (p,)), 'f')


def _key(self, *names):
    return tuple(NM.lamof(self.st[n].c) if isinstance(self.st.get(n), Arr) else Q(self.st[n]) if self.st.get(n) is not None else sym('NONE', 'real') for n in names) + (sym('id_' + self.name, 'real'),)


def opaque_orbitals(tag):
    def f(I, self, solver_id=None, return_dict=None):
        st = self.st
        N, nmo = Q(st['grid'].st['Nelem']), Q(st['Nmo'])
        key = _key(self, 'veff', 'H0', 'e0', 'Nmo', *(('phi', 'eig') if tag == 'iter' else ()))
        st['eig'] = Arr.of((nmo,), lambda i: ext(tag + '_eig', key, (i,)), 'f')
        st['phi'] = Arr.of((N, nmo), lambda p, i: ext(tag + '_phi', key, (p, i)), 'f')
        if return_dict is not None:
            return_dict.st[solver_id] = PList([st['eig'], st['phi']])
    return f


def opaque_energy(I, self):
    key = _key(self, 'eig', 'phi', 'n', 'veff', 'N', 'Nmo')
    for a in ('eks', 'Vs', 'Ts'):
        self.st[a] = SV(ext('res_' + a, key, ()), 'float')


def opaque_homo(I, self):
    h = SV(ext('res_homo', _key(self, 'eig', 'N', 'Nmo'), ()), 'float')
    self.st['homo'] = h
    return h


def opaque_density(I, self):
    N = Q(self.st['grid'].st['Nelem'])
    key = _key(self, 'phi', 'N', 'Nmo')
    self.st['n'] = Arr.of((N, 1), lambda p, z: ext('res_n', key, (p,)), 'f')


def hide(k, *what):
    table = {'hartree': (H + '.v_hartree', opaque_hartree), 'calc_orbitals': (IS + '.calc_orbitals', opaque_orbitals('calc')), 'iter_orbitals': (IS + '.iter_orbitals', opaque_orbitals('iter')),
             'energy': (IS + '.calc_energy', opaque_energy), 'homo': (IS + '.get_homo', opaque_homo), 'density': (IS + '.calc_density', opaque_density)}
    for w in what:
        k.override(*table[w])


def spin_sum(f, pol):
    return lambda p: sum((f(p, C(s)) for s in range(pol)), ZERO)


def dot(a, b, pol):
    """p -> sum over spins of a b"""
    return lambda p: sum((a.get(p, C(s)) * b.get(p, C(s)) for s in range(pol)), ZERO)


def symmetrised(g, f):
    return lambda p, s: scale(f(p, s) + f(midx(g, p), s), Fraction(1, 2))


def flag(I, x):
    return I.decide(I.truth(x))


# ------------------------------------------------------------------ contracts
@contract(K + '.calc_nuclear_potential')
def calc_nuclear_potential(I, self):
    """vnuc = the Coulomb potential of both nuclei, the same for every spin, mirror-averaged when symmetry is on"""
    st = self.st
    v = I.contracts['CADMium.common.coulomb:coulomb'](I, st['grid'], st['Za'], st['Zb']).c
    N = v.shape[0]
    f = lambda p, s: v.get(p)
    if flag(I, st['optKS'].st['sym']):
        f = symmetrised(st['grid'], f)
    st['vnuc'] = arr((N, st['pol']), f)


def distribute(self, v):
    """solver (m, spin) gets the column of its spin"""
    c = v.c
    for i, j, s in each(self):
        s.st['veff'] = arr((v.shape[0],), lambda p, j=j: c.get(p, C(j)))


@contract(K + '.set_effective_potential')
def set_effective_potential(I, self):
    """veff = vnuc + vext + vhxc, handed to the solvers of each spin"""
    st = self.st
    a, b, c = st['vnuc'].c, st['vext'].c, st['vhxc'].c
    st['veff'] = arr(a.shape, lambda p, s: a.get(p, s) + b.get(p, s) + c.get(p, s))
    distribute(self, st['veff'])


@contract(K + '.set_veff_external')
def set_veff_external(I, self, veff):
    """the given potential is handed to the solvers of each spin"""
    distribute(self, veff)


@contract(K + '.calc_density')
def calc_density(I, self, ITERATIVE=False, dif=None):
    """every solver is solved (iteratively when asked and close to convergence), its orbitals are stored, and the density of
    each spin is the sum over its solvers, mirror-averaged when symmetry is on"""
    st = self.st
    dif = Q(dif) if dif is not None else ZERO
    it = flag(I, ITERATIVE) and I.decide(lt(dif, P(0.01)))
    for i, j, s in sorted(each(self), key=lambda t: (t[1], t[0])):
        c = NM.deep(I, s, {})         # a child process works on a copy
        I.contracts[IS + ('.iter_orbitals' if it else '.calc_orbitals')](I, c, None, None)
        s.st['eig'], s.st['phi'] = c.st['eig'], c.st['phi']
    I.checkpoint()
    for i, j, s in sorted(each(self), key=lambda t: (t[1], t[0])):
        I.contracts[IS + '.calc_density'](I, s)
    I.checkpoint()
    g = st['grid']
    N, pol = Q(g.st['Nelem']), st['pol']
    cols = [[s.st['n'].c for i, jj, s in each(self) if jj == j] for j in range(pol)]
    f = lambda p, s: NM.pick([sum((c.get(p, ZERO) for c in cs), ZERO) for cs in cols], s)
    if flag(I, st['optKS'].st['sym']):
        f = symmetrised(g, f)
    return arr((N, pol), f)


@contract(K + '.energy')
def energy(I, self):
    """Ts, eigenvalue and potential sums collected from the solvers; the total is Ts + Enuc (+ Eh + Ex + Ec) + nuclear repulsion"""
    st = self.st
    g, pol, e = st['grid'], st['pol'], st['E'].st
    N = Q(g.st['Nelem'])
    for i, j, s in each(self):
        I.contracts[IS + '.calc_energy'](I, s)
    tot = lambda a, j=None: sum((Q(s.st[a]) for i, jj, s in each(self) if j is None or jj == j), ZERO)
    e['Eks'] = arr((1, pol), lambda z, s: NM.pick([tot('eks', j) for j in range(pol)], s))
    e['Vks'] = arr((1, pol), lambda z, s: NM.pick([tot('Vs', j) for j in range(pol)], s))
    e['Ts'] = fl(tot('Ts'))
    ev = Arr.of((C(0),), lambda i: ZERO, 'f')
    for i, j, s in each(self):
        ev = I.call(np.append, [ev, s.st['eig']], {})
    e['evals'] = ev
    n = st['n']
    q = lambda a: fl(quad(g, dot(n, st[a], pol)))
    e['Enuc'], e['Vext'] = q('vnuc'), q('vext')
    Et = tot('Ts') + Q(e['Enuc'])
    if st['optKS'].st['interaction_type'] == 'ni':
        e['Vnuc'] = q('vnuc')
    else:
        e['Vhxc'] = q('vhxc')
        v = st['V'].st
        v['vh'] = vh = I.contracts[H + '.v_hartree'](I, st['hartree'], n)
        v['eh'] = arr((N,), lambda p: scale(vh.get(p, ZERO), Fraction(1, 2)))
        e['Eh'] = fl(quad(g, lambda p: scale(vh.get(p, ZERO), Fraction(1, 2)) * spin_sum(n.get, pol)(p)))
        e['Ex'], v['ex'], v['vx'] = I.contracts[LX.X + '.get_xc'](I, st['exchange'], n, True)
        e['Ec'], v['ec'], v['vc'] = I.contracts[LX.X + '.get_xc'](I, st['correlation'], n, True)
        Et = Et + Q(e['Eh']) + Q(e['Ex']) + Q(e['Ec'])
    e['Et'] = fl(Et)
    e['Vnn'] = fl(Q(st['Za']) * Q(st['Zb']) * power(scale(Q(g.st['a']), 2), -1))
    e['E'] = fl(Et + Q(e['Vnn']))


@contract(K + '.calc_hxc_potential')
def calc_hxc_potential(I, self):
    """vhxc = vx + vc + vh of the current density (zero for non-interacting electrons), mirror-averaged when symmetry is on"""
    st = self.st
    if st['optKS'].st['interaction_type'] == 'ni':
        f = lambda p, s: ZERO
        sh = st['vext'].shape
    else:
        n, v, e = st['n'], st['V'].st, st['E'].st
        e['Ex'], v['vx'] = I.contracts[LX.X + '.get_xc'](I, st['exchange'], n, False)
        e['Ec'], v['vc'] = I.contracts[LX.X + '.get_xc'](I, st['correlation'], n, False)
        v['vh'] = I.contracts[H + '.v_hartree'](I, st['hartree'], n)
        a, b, c = v['vx'].c, v['vc'].c, v['vh'].c
        f = lambda p, s: a.get(p, s) + b.get(p, s) + c.get(p, s)
        sh = n.shape
    if flag(I, st['optKS'].st['sym']):
        f = symmetrised(st['grid'], f)
    st['vhxc'] = arr(sh, f)


@contract(K + '.calc_chempot')
def calc_chempot(I, self):
    """the highest occupied eigenvalue over all solvers"""
    hs = [I.contracts[IS + '.get_homo'](I, s) for i, j, s in each(self)]
    self.st['u'] = I.call(builtins.max, [PList(hs)], {})


# ------------------------------------------------------------------ self-consistency
SCFM = 'CADMium.kohnsham.scf:'
SCF = dict(disp=True, continuing=False, iterative=True, spinflipsym=False, auto_tol=False, maxiter=100, auto_tol_iter=3, e_tol=SV(P(Fraction(1, 100000)), 'float'), alpha=SV(P(Fraction(1, 2)), 'float'))


def flipmirror(g, a, pol):
    """average of a two-column function with its spin-flipped mirror image"""
    c = a.c
    return arr(a.shape, lambda p, s: scale(c.get(p, s) + (c.get(midx(g, p), C(pol - 1) - s) if pol > 1 else c.get(midx(g, p), s)), Fraction(1, 2)))


def relchange(I, g, n, old, pol):
    """largest over the spins of the integrated absolute change relative to the integrated absolute value"""
    q = [quad(g, lambda p, s=s: absval(n.get(p, C(s)) - old.get(p, C(s)))) * power(quad(g, lambda p, s=s: absval(n.get(p, C(s)))), -1) for s in range(pol)]
    return q[0] if pol == 1 else Q(I.call(builtins.max, [fl(q[0]), fl(q[1])], {}))


def zeros(shape):
    return arr(shape, lambda *i: ZERO)


@contract(SCFM + 'scf')
def scf(I, self, optKS):
    """from the density of the bare nuclei (or the given density when continuing): potential of the current density, spin-flip averaged if
    asked, new density, linear mixing, energies, until energy and density change by less than the tolerance (and, with auto_tol, the change has
    not improved for auto_tol_iter iterations) or maxiter is reached"""
    o = parse_scf(I, optKS, SCF, cls(SCFM + 'KohnShamSCFOptions'))
    st, con = self.st, I.contracts
    g, pol = st['grid'], st['pol']
    N = Q(g.st['Nelem'])
    cont = flag(I, o.st['continuing'])
    if cont:
        if st.get('n') is None:
            exc('*')
    if st['vext'] is None:
        st['vext'] = zeros(st['vnuc'].shape)
    if not cont:
        st['vhxc'] = zeros(st['vnuc'].shape)
        con[K + '.set_effective_potential'](I, self)
        I.checkpoint()
        st['n'] = con[K + '.calc_density'](I, self)
    auto, flip, iterative = flag(I, o.st['auto_tol']), flag(I, o.st['spinflipsym']), flag(I, o.st['iterative'])
    tol, alpha, maxiter, auto_n = (Q(o.st[a]) for a in ('e_tol', 'alpha', 'maxiter', 'auto_tol_iter'))
    v = dict(diff=fl(P(10)), old_E=fl(ZERO), old_n=zeros((N, pol)), iter=1)
    if auto:
        v.update(min_dif=fl(P(10)), num_iter_not_min=0)

    def cond():
        c = lt(tol, Q(v['diff']))
        if auto:
            c = bor(c, lt(Q(v['num_iter_not_min']), auto_n))
        return band(c, lt(Q(v['iter']), maxiter))

    def step():
        con[K + '.calc_hxc_potential'](I, self)
        I.checkpoint()
        a, b, c = st['vnuc'].c, st['vext'].c, st['vhxc'].c
        st['veff'] = arr(a.shape, lambda p, s: a.get(p, s) + b.get(p, s) + c.get(p, s))
        if flip:
            st['veff'] = flipmirror(g, st['veff'], pol)
        distribute(self, st['veff'])
        nout = con[K + '.calc_density'](I, self, iterative, 0 if iterative and cont else v['diff']).c
        n = st['n'].c
        st['n'] = arr(n.shape, lambda p, s: (ONE - alpha) * n.get(p, s) + alpha * nout.get(p, s))
        if flip:
            st['n'] = flipmirror(g, st['n'], pol)
        I.checkpoint()
        con[K + '.energy'](I, self)
        I.checkpoint()
        con[K + '.calc_chempot'](I, self)
        E = Q(st['E'].st['E'])
        dE = absval((E - Q(v['old_E'])) / E)
        dn = relchange(I, g, st['n'].c, v['old_n'].c, pol)
        v['diff'] = I.call(builtins.max, [fl(dE), fl(dn)], {})
        v['old_E'], v['old_n'] = st['E'].st['E'], st['n']
        if auto:
            if I.decide(lt(Q(v['diff']), Q(v['min_dif']))):
                v['num_iter_not_min'], v['min_dif'] = 0, v['diff']
            else:
                v['num_iter_not_min'] = I.mkint(Q(v['num_iter_not_min']) + 1)
        v['iter'] = I.mkint(Q(v['iter']) + 1)
    I.spec_while(v, cond, step)


@contract(K + '.scf')
def ks_scf(I, self, ks_scf_options=None):
    """the self-consistency procedure with the given options"""
    return I.contracts[SCFM + 'scf'](I, self, ks_scf_options if ks_scf_options is not None else PDict({}))


def parse_scf(I, given, defaults, klass):
    return SO.parse_options(I, given, defaults, klass)


# ------------------------------------------------------------------ construction
@contract(K + '.__init__')
def ks_init(I, self, grid, Za, Zb, pol, Nmo, N, optKS=None):
    """options checked and completed; one solver per angular momentum and spin with its Hamiltonian and energy estimate; the
    nuclear potential; functionals and Hartree solver for interacting electrons; own energy and potential records"""
    st = self.st
    given = optKS if optKS is not None else PDict({})
    o = SO.parse_options(I, given, OPT, cls(KM + 'KohnShamOptions'))
    if o.st['interaction_type'] not in ('dft', 'ni'):
        exc('*')
    A = lambda x, t: x if isinstance(x, Arr) else I.call(np.array, [x], {})
    st.update(optKS=o, grid=grid, Nmo=A(Nmo, 'i'), N=A(N, 'f'), pol=pol, V=Obj(cls(KM + 'V'), {}, 'V'), E=Obj(cls(KM + 'E'), dict(E=fl(ZERO), Ec=fl(ZERO), Ex=fl(ZERO), Eks=ANY, Vks=ANY), 'E'), Za=Za, Zb=Zb)
    if not all(I.decide(eq(a, b)) for a, b in zip(st['Nmo'].shape, st['N'].shape)):
        exc('AssertionError')
    n = Q(grid.st['Nelem'])
    st['solver'] = I.contracts[SO.S + 'pssolver:Pssolver'](I, grid, st['Nmo'], st['N'], PDict({'fractional': o.st['fractional'], 'sym': o.st['sym']}))
    for a in ('vnuc', 'vext', 'vhxc', 'veff', 'n', 'u', 'scale', 'Alpha', 'Beta'):
        st[a] = None
    st['Q'] = arr((n,), lambda p: ZERO)
    I.contracts[K + '.calc_nuclear_potential'](I, self)
    dft = o.st['interaction_type'] == 'dft'
    if dft:
        for a, b in (('exchange', 'xfunc_id'), ('correlation', 'cfunc_id')):
            st[a] = Obj(cls(LX.X), dict(grid=grid, xc_family=o.st['xc_family'], func_id=o.st[b]), a)
        st['hartree'] = Obj(cls(H), dict(grid=grid), 'hartree')
    else:
        st.update(exchange=fl(ZERO), correlation=fl(ZERO), hartree=fl(ZERO))
    zmax = Q(I.call(builtins.max, [Za, Zb], {}))
    for i, j, s in each(self):
        I.contracts[IS + '.hamiltonian'](I, s)
        s.st['e0'] = fl(scale(power(zmax, 2), Fraction(-1 if dft else Fraction(-3, 2)) / Fraction((i + 1) ** 2)))


# ------------------------------------------------------------------ cases
SHAPES = ((1, 1), (1, 2), (2, 1), (2, 2))


def _nelec(val, rng, lo=1):
    for i in range(2):
        for j in range(2):
            n = val.syms[f's{i}{j}_Nmo'] = rng.randint(lo, 2)
            cap = n * (2 if i else 1)
            val.syms[f's{i}{j}_N'] = rng.choice([rng.uniform(0, cap), float(rng.randint(0, cap))])


def _ks1(val, rng):
    ks_sample(val, rng)
    _nelec(val, rng)


def _ks_orb(val, rng):
    SO._eig_sample(val, rng)
    ks_sample(val, rng)
    val.syms.update(h=1, Na=3, Nr=3, Np=9)
    val.fns['mir'] = lambda p: (2 - p % 3) + 3 * (p // 3)
    h = val.fns['H0']
    for i in range(2):
        for j in range(2):
            val.fns[f's{i}{j}_H0'] = lambda p, q, t=i + 2 * j: h(p, q) + 0.07 * t * (p == q)
            val.fns[f's{i}{j}_optv0'] = lambda p, q: 1.0 + 0 * p
            val.syms[f's{i}{j}_e0'] = rng.uniform(-3, -1)
    _nelec(val, rng)
    val.syms['tol_orbital'] = rng.choice([1e-15, 0.6])
    val.syms['dif'] = rng.choice([0.001, 0.5])


def _ks_case(fn, M, pol, kind, family, name, hidden=(), extra=None, sample=_ks1, **opts):
    def b(k):
        g, N = ks_grid(k)
        ks = kohnsham(k, g, N, pol, M, kind, family)
        hide(k, *hidden)
        return [ks] + (extra(k, g, N, pol) if extra else [])
    case(K + '.' + fn, name, sample=sample, **opts)(b)


for _pol in (1, 2):
    _ks_case('calc_nuclear_potential', 1, _pol, 'ni', 'lda', f'pol={_pol}')
    for _kind, _fam in (('ni', 'lda'), ('dft', 'lda'), ('dft', 'gga')):
        _ks_case('calc_hxc_potential', 1, _pol, _kind, _fam, f'{_kind}, {_fam}, pol={_pol}', ('hartree',))
        for _M in (1, 2) if _fam == 'lda' else (1,):
            _ks_case('energy', _M, _pol, _kind, _fam, f'{_kind}, {_fam}, {_M} angular momenta, pol={_pol}', ('hartree', 'energy'))
for _M, _pol in SHAPES:
    _ks_case('set_effective_potential', _M, _pol, 'ni', 'lda', f'{_M} angular momenta, pol={_pol}')
    _ks_case('set_veff_external', _M, _pol, 'ni', 'lda', f'{_M} angular momenta, pol={_pol}', extra=lambda k, g, N, pol: [k.arr('vin', (N, pol))])
    _ks_case('calc_chempot', _M, _pol, 'ni', 'lda', f'{_M} angular momenta, pol={_pol}', ('homo',))
    for _it in (False, True):
        _ks_case('calc_density', _M, _pol, 'ni', 'lda', f'{_M} angular momenta, pol={_pol}' + (', iterative' if _it else ''), ('calc_orbitals', 'iter_orbitals', 'density'),
                 extra=lambda k, g, N, pol, it=_it: [it, k.real('dif', nonneg=True)], sample=_ks_orb, tol=1e-5)


def _init_case(M, pol, opts, pre=None):
    def b(k):
        g, N = ks_grid(k)
        d = {q: (k.flag(q.lower()) if v == 'flag' else k.iv(q.lower(), 1) if v == 'int' else v) for q, v in opts.items()}
        L = lambda f: PList([PList([f(i, j) for j in range(pol)]) for i in range(M)])
        return [Obj(cls(K), {}, 'KS'), g, k.real('Za', nonneg=True), k.real('Zb', nonneg=True), pol, L(lambda i, j: k.iv(f'Nmo{i}{j}', 0)),
                L(lambda i, j: k.real(f'N{i}{j}', nonneg=True)) if not pre else PList([PList([k.real('N00')])]), PDict(d)]
    return b


ALL = dict(interaction_type='dft', sym='flag', fractional='flag', xfunc_id='int', cfunc_id='int', xc_family='gga')
for _M, _pol in SHAPES:
    case(K + '.__init__', f'defaults, {_M} angular momenta, pol={_pol}', sample=ks_sample)(_init_case(_M, _pol, {}))
case(K + '.__init__', 'every option', sample=ks_sample)(_init_case(1, 2, ALL))
case(K + '.__init__', 'option names in capitals', sample=ks_sample)(_init_case(1, 1, {q.upper(): v for q, v in ALL.items()}))
case(K + '.__init__', 'non-interacting', sample=ks_sample)(_init_case(2, 1, {'interaction_type': 'ni', 'sym': 'flag'}))
case(K + '.__init__', 'unknown option', sample=ks_sample)(_init_case(1, 1, {'symm': True}))
case(K + '.__init__', 'unknown interaction', sample=ks_sample)(_init_case(1, 1, {'interaction_type': 'hf'}))
case(K + '.__init__', 'different shapes', sample=ks_sample)(_init_case(1, 2, {}, True))


# self-consistency cases
def _scf_sample(val, rng):
    _ks_orb(val, rng)
    for i in range(2):
        for j in range(2):
            val.syms[f's{i}{j}_N'] = rng.uniform(0.3, 1)
    val.syms.update(maxiter=rng.randint(1, 4), alpha=rng.uniform(0.2, 1), e_tol=rng.choice([1e-7, 0.05, 0.5]), auto_tol_iter=rng.randint(0, 3), tol_orbital=1e-14)


SCFALL = dict(disp='flag', iterative='flag', auto_tol_iter='int', maxiter='int', e_tol='real', alpha='real')


def _scf_opts(k, kw):
    return PDict({q: k.flag('scf_' + q.lower()) if v == 'flag' else k.iv(q.lower(), 0) if v == 'int' else k.real(q.lower(), pos=True) if v == 'real' else v for q, v in kw.items()})


def _scf_case(fn, M, pol, kw, name, kind='ni', pre=None, family='lda', **opts):
    def b(k):
        g, N = ks_grid(k)
        ks = kohnsham(k, g, N, pol, M, kind, family)
        hide(k, 'hartree', 'calc_orbitals', 'iter_orbitals', 'energy', 'homo', 'density')
        if pre:
            pre(k, ks)
        return [ks, _scf_opts(k, kw)]
    case(fn, name, sample=_scf_sample, loop=not opts.pop('noloop', False), tol=1e-5, **opts)(b)


def _no_vext(k, ks):
    ks.st.update(vext=None, vhxc=None, veff=None, n=None)


for _pol in (1, 2):
    _scf_case(SCFM + 'scf', 1, _pol, SCFALL, f'pol={_pol}, first run', pre=_no_vext)
    _scf_case(SCFM + 'scf', 1, _pol, dict(SCFALL, spinflipsym=True), f'pol={_pol}, spin flip')
    _scf_case(SCFM + 'scf', 1, _pol, dict(SCFALL, auto_tol=True, disp=False, iterative=True), f'pol={_pol}, automatic tolerance')
    _scf_case(SCFM + 'scf', 1, _pol, dict(SCFALL, continuing=True), f'pol={_pol}, continuing')
    _scf_case(SCFM + 'scf', 1, _pol, dict(SCFALL), f'pol={_pol}, interacting', kind='dft')
_scf_case(SCFM + 'scf', 2, 1, dict(SCFALL), 'two angular momenta')
_scf_case(SCFM + 'scf', 1, 1, {q.upper(): v for q, v in dict(SCFALL, continuing=True).items()}, 'option names in capitals')
_scf_case(SCFM + 'scf', 1, 1, dict(maxiter='int', toll=1), 'unknown option')


def opaque_scf(I, self, optKS):
    """stands for the procedure in the proof of the method that calls it"""
    self.st['n'] = PList([PList([a, b]) for a, b in sorted(optKS.st.items())])


_scf_case(K + '.scf', 1, 1, {'maxiter': 'int'}, 'method', pre=lambda k, ks: k.override(SCFM + 'scf', opaque_scf), noloop=True)


# ------------------------------------------------------------------ the loop on scripted physics: many iterations with rises and falls of the change (replays only)
def nxt(N, c, p, s):
    return T.ite(eq(p, N - 1), c.get(ZERO, s), c.get(p + 1, s))


def sc_hxc(I, self):
    c = self.st['n'].c
    self.st['vhxc'] = arr(c.shape, c.get)


def sc_hxc_py(self):
    self.vhxc = self.n.copy()


RHO = {0: Fraction(3, 5), 1: Fraction(1, 5)}


def sc_density(k):
    """-> (description, Python function): the k-th call adds the k-th term of an arbitrary sequence, so that changes rise and fall"""
    seq = lambda j, s: float(k.I.val.fns['seq'](j, s))
    cnt = {}

    def count(o):
        cnt[o] = cnt.get(o, 0) + 1
        return cnt[o]

    def spec(I, self, ITERATIVE=False, dif=0):
        st = self.st
        N, pol = Q(st['grid'].st['Nelem']), st['pol']
        v, w = st['veff'].c, st['vnuc'].c
        it = flag(I, ITERATIVE)
        extra = scale(Q(dif), Fraction(1, 100)) if it and I.decide(lt(Q(dif), P(Fraction(1, 100)))) else ZERO
        j = count(self)
        f = [lambda p, s, r=RHO[s], c=Fraction(seq(j, s)), t=t: scale(nxt(N, v, p, C(t)) - nxt(N, w, p, C(t)), r) + ONE + scale(w.get(ZERO, C(t)), c) + extra for t, s in enumerate(range(pol))]
        return arr((N, pol), lambda p, s: NM.pick([f[j](p, j) for j in range(pol)], s))

    def code(self, ITERATIVE=False, dif=0.0):
        d = np.roll(self.veff - self.vnuc, -1, axis=0)
        j = count(self)
        return d * np.array([0.6, 0.2])[:d.shape[1]] + 1 + np.array([seq(j, s) * self.vnuc[0, s] for s in range(d.shape[1])]) + (dif / 100 if ITERATIVE is True and dif < 0.01 else 0)
    return spec, code


def sc_energy(I, self):
    c = self.st['n'].c
    self.st['E'].st['E'] = fl(-ONE - scale(sum((c.get(ZERO, C(s)) * c.get(ONE, C(s)) for s in range(self.st['pol'])), ZERO), Fraction(1, 50)))


def sc_energy_py(self):
    self.E.E = -1 - (self.n[0] * self.n[1]).sum() / 50


def sc_chempot(I, self):
    self.st['u'] = fl(scale(Q(self.st['E'].st['E']), Fraction(1, 2)))


def sc_chempot_py(self):
    self.u = self.E.E / 2


def script_ks(k):
    for n, a, b in (('calc_hxc_potential', sc_hxc, sc_hxc_py), ('calc_density', *sc_density(k)), ('energy', sc_energy, sc_energy_py), ('calc_chempot', sc_chempot, sc_chempot_py)):
        k.script(f'{K}.{n}', a, b)


def _script_sample(val, rng):
    ks_sample(val, rng)
    long_history(val, rng)
    val.syms['maxiter'] = rng.choice([3, 25, 40])


def long_history(val, rng):
    val.syms.update(alpha=rng.uniform(0.7, 1), e_tol=10 ** rng.uniform(-5, -1), auto_tol_iter=rng.randint(2, 4))
    n = val.syms['Np']
    big = [rng.choice([0.05, 1.0, 4.0]) for _ in range(n)]
    val.fns['wi'] = lambda p: np.take(big, np.clip(np.asarray(p, int), 0, n - 1))
    seq = {(j, s): rng.choice([0, 0, 1, rng.random()]) * 10 ** -rng.uniform(1, 5) for j in range(60) for s in range(2)}
    val.fns['seq'] = lambda j, s: seq[j, s]
    val.dists.update(n='pos')


def _script_case(pol, kw, name):
    def b(k):
        g, N = ks_grid(k)
        ks = kohnsham(k, g, N, pol, 1, 'ni')
        script_ks(k)
        return [ks, _scf_opts(k, kw)]
    case(SCFM + 'scf', name, sample=_script_sample, bounded=True, tol=1e-6)(b)


for _pol in (1, 2):
    _script_case(_pol, dict(SCFALL, disp=False, iterative=True), f'long histories, pol={_pol}')
    _script_case(_pol, dict(SCFALL, auto_tol=True, disp=False, iterative=True), f'long histories, pol={_pol}, automatic tolerance')
    _script_case(_pol, dict(SCFALL, auto_tol=True, disp=False, continuing=True, iterative=False), f'long histories, pol={_pol}, automatic tolerance, continuing')
