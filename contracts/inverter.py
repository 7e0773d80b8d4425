"""Contracts of the density inversion."""
import builtins
from .lib import *
from . import grid as _g, psgrid as _pg, solver as SO, ks as KS
from .solver import S, IS

IM = 'CADMium.inverter.'
IV = IM + 'inverter:Inverter'
LSQ = 'pyvc.stubs.lsq:'
TOL8 = SV(P(Fraction(1, 10**8)), 'float')
DEF = dict(ab_sym=False, ens_spin_sym=False, use_iterative=False, disp=False, avoid_loop=False, invert_type='wuyang', k_val=SV(P(Fraction(-1, 10**12)), 'float'), tol_lin_solver=SV(P(Fraction(1, 100)), 'float'),
           tol_invert=SV(P(Fraction(1, 10**12)), 'float'), max_iter_lin_solver=2000, max_iter_invert=20, res_factor=SV(ONE, 'float'))
TYPES = ('wuyang', 'simple', 'orbitalinvert', 'qinvert', 'eigensolveinvert', 'test')


def solvers(self, spin=None):
    sh = self.st['solver'].shape
    return [self.st['solver'].st[i, j] for i in range(sh[0]) for j in range(sh[1]) if spin is None or j == spin]


def spins(self):
    return self.st['solver'].shape[1]


def on(I, self, name):
    return KS.flag(I, self.st['optInv'].st[name])


def inverter(k, pol, M=1, orbitals=True, fresh_=False, **opt):
    g, N = KS.ks_grid(k)
    o = Obj(cls(IM + 'inverter:InverterOptions'), {}, 'optInv')
    o.st.update(DEF)
    for q in ('ab_sym', 'ens_spin_sym', 'disp'):
        o.st[q] = k.flag('inv_' + q)
    for q, v in opt.items():
        o.st[q] = k.flag('inv_' + q) if v == 'flag' else k.real('inv_' + q, pos=True) if v == 'real' else v
    sol = {(i, j): SO.solver(k, g, N, pol, name=f'solver{i}{j}', pre=f's{i}{j}_', m=i) for i in range(M) for j in range(pol)}
    V = Obj(cls(IV), {}, 'inverter')
    V.st.update(optInv=o, grid=g, Nelem=g.st['Nelem'], solver=OArr((M, pol), sol), Nmo=sol[0, 0].st['Nmo'], B=k.arr('B', (N, N), kind='sp'), n0=k.arr('n0', (N, pol)), vs=k.arr('vs', (N, pol)),
                us=k.arr('us', (1, pol)), ts_WFI=None, ts_WFII=None)
    if fresh_:
        V.st.update(B=None, n0=None, vs=None, us=None)
    return V, g, N


# ------------------------------------------------------------------ construction, dispatch
@contract(IV + '.__init__')
def init(I, self, grid, solver, optInv=None):
    """options checked and completed; grid and solvers kept; nothing inverted yet"""
    o = SO.parse_options(I, optInv if optInv is not None else PDict({}), DEF, cls(IM + 'inverter:InverterOptions'))
    if o.st['invert_type'] not in TYPES:
        exc('*')
    self.st.update(optInv=o, grid=grid, Nelem=grid.st['Nelem'], solver=solver, Nmo=solver.st[0, 0].st['Nmo'])
    for q in ('B', 'n0', 'vs', 'us', 'ts_WFI', 'ts_WFII'):
        self.st[q] = None


@contract(IV + '.invert')
def invert(I, self, n0, vs0, phi0=None, e0=None, ispin=0, Qi=None):
    """the inversion method chosen in the options, for the given target density, guess and spin"""
    t = self.st['optInv'].st['invert_type']
    if t == 'wuyang':
        return I.contracts[IV + '.linresponse'](I, self, n0, vs0, ispin)
    if t == 'orbitalinvert':
        return I.contracts[IV + '.orbitalinvert'](I, self, n0, vs0, phi0, e0, ispin)
    raise Unsupported(f'inversion by {t}')


@contract(IV + '.linresponse')
def m_linresponse(I, self, n0, vs0, ispin):
    """linear-response inversion of the target density of a spin"""
    return I.contracts[IM + 'linresponse:linresponse'](I, self, n0, vs0, ispin)


# ------------------------------------------------------------------ kinetic quantities
@contract(IV + '.get_vt')
def get_vt(I, self):
    """kinetic potential: chemical potential minus effective potential"""
    u, v = self.st['us'].c, self.st['vs'].c
    return arr((Q(self.st['grid'].st['Nelem']), spins(self)), lambda p, s: u.get(ZERO, s) - v.get(p, s))


@contract(IM + 'get_Ts:get_Ts')
def get_Ts(I, self):
    """kinetic energy of all solvers (twice the first spin's in a spin-symmetric ensemble)"""
    one = on(I, self, 'ens_spin_sym')
    T_ = ZERO
    for s in solvers(self, 0 if one else None):
        I.contracts[IS + '.calc_energy'](I, s)
        T_ = T_ + scale(Q(s.st['Ts']), 2 if one else 1)
    return fl(T_)


@contract(IM + 'get_ts_WFI:get_ts_WFI')
def get_ts_WFI(I, self):
    """kinetic energy density per spin: the sum over all angular momenta"""
    one = on(I, self, 'ens_spin_sym')
    N, pol = Q(self.st['grid'].st['Nelem']), spins(self)
    for s in solvers(self, 0 if one else None):
        I.contracts[IS + '.calc_ked_WFI'](I, s)
    cols = [[s.st['ked_WFI'].c for s in solvers(self, 0 if one else j)] for j in range(pol)]

    def line(c, p):
        return sum_(c.shape[1], lambda i: c.get(p, i)) if len(c.shape) > 1 else c.get(p)
    return arr((N, pol), lambda p, s: NM.pick([sum((line(c, p) for c in cs), ZERO) for cs in cols], s))


for _n in ('get_Ts', 'get_ts_WFI'):
    def _m(I, self, n=_n):
        return I.contracts[f'{IM}{n}:{n}'](I, self)
    _m.__doc__ = 'the same of this inverter'
    exec(f'def w(I, self):\n    return I.contracts["{IM}{_n}:{_n}"](I, self)\n', globals())
    w.__doc__ = f'{_n} of this inverter'
    contract(IV + '.' + _n)(w)


# ------------------------------------------------------------------ linear-response inversion
@contract(IV + '.Ws')
def Ws(I, self, vs, spin):
    """residual of the inversion at a trial potential: B (density of the potential - target), and the gauge condition that the potential vanishes at the last point"""
    g = self.st['grid']
    N = Q(g.st['Nelem'])
    spin = Q(spin).intval()
    x = vs.c
    sym_ = on(I, self, 'ab_sym')
    if sym_:
        y = x
        x = arr((N,), lambda p: half(y.get(p) + y.get(midx(g, p)))).c
    for s in solvers(self, spin):
        I.contracts[IS + '.setveff'](I, s, arr((N,), x.get))
        I.checkpoint()
        for q in ('calc_orbitals', 'calc_density', 'calc_energy', 'calc_response'):
            I.contracts[f'{IS}.{q}'](I, s)
            I.checkpoint()
    ns = [s.st['n'].c for s in solvers(self, spin)]
    n = lambda p: sum((c.get(p, ZERO) for c in ns), ZERO)
    m = (lambda p: half(n(p) + n(midx(g, p)))) if sym_ else n
    B, n0 = self.st['B'].c, self.st['n0'].c
    return arr((N + 1,), lambda p: T.ite(eq(p, N), x.get(N - 1), sum_(N, lambda q: B.get(p, q) * (m(q) - n0.get(q, C(spin))))))


half = lambda p: scale(p, Fraction(1, 2))


@contract(IV + '.Jacobian')
def Jacobian(I, self, vs, spin):
    """derivative of the residual: B times the density response of all angular momenta, and the derivative of the gauge condition"""
    g = self.st['grid']
    N = Q(g.st['Nelem'])
    cs = [s.st['chi'].c for s in solvers(self, Q(spin).intval())]
    B = self.st['B'].c
    last = lambda q: iv(eq(q, N - 1))
    if on(I, self, 'ab_sym'):
        row = lambda q: half(last(q) + last(midx(g, q)))
    else:
        row = last
    return arr((N + 1, N), lambda p, q: T.ite(eq(p, N), row(q), sum_(N, lambda r: B.get(p, r) * sum((c.get(r, q) if len(c.shape) > 1 else c.get(q) for c in cs), ZERO))))   # an unoccupied block has chi = 0 (a vector)


@contract(LSQ + 'least_squares')
def least_squares(I, fun, x0, jac='2-point', bounds=None, method='trf', ftol=TOL8, xtol=TOL8, gtol=TOL8, x_scale=None, loss=None, f_scale=None, diff_step=None, tr_solver=None, tr_options=None,
                  jac_sparsity=None, max_nfev=None, verbose=0, args=(), kwargs=None):
    """(replays only: the stand-in of pyvc/stubs/lsq.py)"""
    if not isinstance(method, str) or method != 'trf':
        raise Unsupported('least_squares with another method')
    t = [Q(z) if z is not None else ZERO for z in (ftol, xtol, gtol)]
    args = list(args)
    f = I.call(fun, [x0] + args, {}).c
    J = I.call(jac, [x0] + args, {}).c
    I.checkpoint()
    M, n = J.shape
    d = lambda q: sum_(M, lambda p: J.get(p, q) * f.get(p))
    y = x0.c
    x = arr((n,), lambda q: y.get(q) - (P(Fraction(1, 100)) + t[1] + 2 * t[2] + 3 * t[0]) * d(q))
    I.checkpoint()
    opt_ = I.call(np.max, [I.call(np.abs, [arr((n,), d)], {})], {})
    I.call(fun, [x] + args, {})
    return Obj(cls(LSQ + 'Result'), dict(x=x, status=3, nfev=2, optimality=opt_), 'res')


def op_least_squares(I, fun, x0, jac='2-point', bounds=None, method='trf', ftol=TOL8, xtol=TOL8, gtol=TOL8, x_scale=None, loss=None, f_scale=None, diff_step=None, tr_solver=None, tr_options=None,
                     jac_sparsity=None, max_nfev=None, verbose=0, args=(), kwargs=None):
    """an arbitrary function of the starting point, the residual, the Jacobian and the tolerances; it calls the residual and the Jacobian any number of times"""
    args = list(args)
    n = x0.shape[0]
    tol = tuple(Q(z) if z is not None else P(-1) for z in (ftol, xtol, gtol, max_nfev))
    trial = I.call(fun, [arr((n,), lambda p: T.app('lsq_trial', (p,), 'real'))] + args, {})
    J = I.call(jac, [arr((n,), lambda p: T.app('lsq_trial', (p,), 'real'))] + args, {})
    key = (NM.lamof(x0.c), NM.lamof(trial.c), NM.lamof(J.c)) + tol
    I.call(fun, [arr((n,), lambda p: ext('lsq_last', key, (p,)))] + args, {})
    I.externals.add('scipy.optimize.least_squares (an arbitrary function of start, residual, Jacobian and tolerances)')
    return Obj(cls(LSQ + 'Result'), dict(x=arr((n,), lambda p: ext('lsq_x', key, (p,))), status=I.mkint(ext('lsq_status', key, (), 'int')), nfev=I.mkint(ext('lsq_nfev', key, (), 'int')),
                                         optimality=fl(ext('lsq_opt', key, ()))), 'res')


@contract(IM + 'linresponse:linresponse')
def linresponse(I, self, n0, vs0=None, ispin=0):
    """for every spin of the target (one column is the target of spin ispin): the potential is the solution of the least-squares problem of Ws with Jacobian, started from
    the potential the solvers hold, else the guess, else the von Weizsaecker potential; B divides by the target density; the chemical potential is the highest occupied level"""
    st, con = self.st, I.contracts
    g, N, ns = st['grid'], n0.shape[0], spins(self)
    sh = st['solver'].shape
    c = n0.c
    col = (lambda s: (lambda p: c.get(p))) if len(n0.shape) == 1 else (lambda s: (lambda p: c.get(p, s)))
    pol = 1 if len(n0.shape) == 1 else n0.shape[1].intval()
    st['pol'] = pol
    ispin = Q(ispin).intval()
    which = [ispin] if pol == 1 else list(range(pol))
    target = {s: col(C(i)) for i, s in enumerate(which)}
    st['n0'] = arr((N, ns), lambda p, s: NM.pick([target[j](p) if j in target else ZERO for j in range(ns)], s))
    if st['vs'] is None:
        st['vs'], st['us'] = KS.zeros((N, C(ns))), KS.zeros((ONE, C(ns)))
    guess = {}
    w, L = g.st['w'].c, g.st['elap'].c
    r = Fraction(1, 2)
    for i, s in enumerate(which):
        v = st['solver'].st[0, s].st['veff']
        if v is not None:
            guess[s] = arr((N,), v.c.get if len(v.shape) == 1 else lambda p, v=v.c: v.get(p, ZERO))
        elif vs0 is not None:
            k = i if vs0.shape[1].intval() == pol else 0
            guess[s] = arr((N,), lambda p, k=k, v=vs0.c: v.get(p, C(k)))
        else:
            n = target[s]
            f = lambda p, n=n: half(sum_(N, lambda q: L.get(p, q) * power(n(q), r))) * power(power(n(p), r) * w.get(p), -1)
            guess[s] = arr((N,), lambda p, f=f: f(p) - f(N - 1))
    one = on(I, self, 'ens_spin_sym')
    out, flags = {}, {}
    vs, us = st['vs'].c, st['us'].c
    for s in ([0] if one else which):
        n = target.get(s, lambda p: ZERO)
        st['B'] = arr((N, N), lambda p, q, n=n: iv(eq(p, q)) * power(n(p), -1), kind='sp')
        for q in solvers(self, s):
            con[IS + '.hamiltonian'](I, q)
            q.st['e0'] = -20
        x0 = guess.get(s)
        if x0 is None:
            x0 = KS.zeros((N,))
        I.checkpoint()
        res = con[LSQ + 'least_squares'](I, BoundFn(self, fn(IV + '.Ws')), x0, BoundFn(self, fn(IV + '.Jacobian')), method='trf', xtol=st['optInv'].st['tol_invert'], gtol=st['optInv'].st['tol_invert'], args=(s,))
        x, u = res.st['x'].c, Q(con[IS + '.get_homo'](I, st['solver'].st[0, s]))
        vs, us = put(vs, s, x.get, one), put(us, s, lambda z, u=u: u, one)
        for j in range(ns) if one else [s]:
            for i in range(sh[0]):
                out[i, j], flags[i, j] = res, res.st['status']
    if one:
        for q in solvers(self, 1):
            con[IS + '.setveff'](I, q, arr((N,), lambda p: vs.get(p, ZERO)))
    st['vs'].update(lambda p, s: (TRUE, vs.get(p, s)))
    st['us'].update(lambda p, s: (TRUE, us.get(p, s)))
    cols = list(range(ns)) if one else which
    sub = lambda d: OArr((sh[0], len(cols)), {(i, cols.index(j)): v for (i, j), v in d.items()})
    return (sub(flags), sub(out))


def put(c, s, f, every):
    return ArrC(c.shape, lambda p, t: T.ite(eq(t, C(s)), f(p), c.get(p, t)) if not every else T.ite(bor(eq(t, C(0)), eq(t, C(1))), f(p), c.get(p, t)), 'f')


def fn(q):
    return resolve(q)


# ------------------------------------------------------------------ opaque callees
def op_Ws(I, self, vs, spin):
    g = self.st['grid']
    N = Q(g.st['Nelem'])
    spin = Q(spin).intval()
    n0 = self.st['n0'].c
    x = vs.c
    base = (NM.lamof(x), NM.lamof(ArrC((N,), lambda p: n0.get(p, C(spin)), 'f')), NM.lamof(self.st['B'].c))
    for i, s in enumerate(solvers(self, spin)):
        nmo = Q(s.st['Nmo'])
        key = (NM.lamof(x),) + KS._key(s, 'H0', 'e0')
        s.st['veff'] = arr((N,), x.get)
        s.st['eig'] = arr((nmo,), lambda t, key=key: ext('ws_eig', key, (t,)))
        s.st['phi'] = arr((N, nmo), lambda p, t, key=key: ext('ws_phi', key, (p, t)))
        s.st['n'] = arr((N, 1), lambda p, z, key=key: ext('ws_n', key, (p,)))
        s.st['chi'] = arr((N, N), lambda p, q, key=key: ext('ws_chi', key, (p, q)), kind='mat')
        base = base + key
    return arr((N + 1,), lambda p: ext('ws_res', base, (p,)))


def op_Jacobian(I, self, vs, spin):
    N = Q(self.st['grid'].st['Nelem'])
    key = tuple(NM.lamof(s.st['chi'].c) for s in solvers(self, Q(spin).intval())) + (NM.lamof(self.st['B'].c), NM.lamof(vs.c))
    return arr((N + 1, N), lambda p, q: ext('ws_jac', key, (p, q)))


def op_response(I, self):
    N = Q(self.st['grid'].st['Nelem'])
    key = KS._key(self, 'phi', 'eig', 'veff', 'N', 'Nmo')
    self.st['chi'] = arr((N, N), lambda p, q: ext('res_chi', key, (p, q)), kind='mat')


def op_ked(I, self):
    N = Q(self.st['grid'].st['Nelem'])
    key = KS._key(self, 'phi', 'eig', 'veff', 'N', 'Nmo')
    self.st['ked_WFI'] = arr((N, 1), lambda p, z: ext('res_ked', key, (p,)))


HIDE = {'response': (IS + '.calc_response', op_response), 'Ws': (IV + '.Ws', op_Ws), 'Jacobian': (IV + '.Jacobian', op_Jacobian), 'lsq': (LSQ + 'least_squares', op_least_squares), 'ked': (IS + '.calc_ked_WFI', op_ked)}


def hide(k, *what):
    for w in what:
        if w in HIDE:
            k.override(*HIDE[w])
        else:
            KS.hide(k, w)


# ------------------------------------------------------------------ cases
def i_sample(val, rng):
    SO._eig_sample(val, rng)
    val.syms.update(h=1, Na=3, Nr=3, Np=9, tol_orbital=1e-14, inv_tol_invert=rng.uniform(1e-4, 1e-2))
    val.fns['mir'] = lambda p: (2 - p % 3) + 3 * (p // 3)
    h = val.fns['H0']
    for i in range(2):
        for j in range(2):
            s = f's{i}{j}_'
            t = 2 * i + j
            val.fns[s + 'H0'] = lambda p, q, t=t: h(p, q) + 0.07 * t * (p == q)
            val.fns[s + 'optv0'] = lambda p, q: 1.0 + 0 * p
            val.syms.update({s + 'e0': rng.uniform(-3, -1), s + 'Nmo': 2, s + 'N': 2 if i == 0 or rng.random() < 0.5 else 0.5})
    val.dists.update(n0='pos', target='pos', wi='pos')


def icase(qual, name, pol, hidden=(), args=None, sample=i_sample, M=1, pre=None, opts=None, **o):
    def b(k):
        V, g, N = inverter(k, pol, M, **o)
        hide(k, *hidden)
        if pre:
            pre(k, V)
        return [V] + (args(k, V, N) if args else [])
    case(qual, name, sample=sample, **(opts or {}))(b)


def init_case(given):
    def b(k):
        g, N = KS.ks_grid(k)
        sol = OArr((1, 2), {(0, j): SO.solver(k, g, N, 2, name=f'solver0{j}', pre=f's0{j}_', m=0) for j in range(2)})
        return [Obj(cls(IV), {}, 'inverter'), g, sol] + ([] if given is None else [PDict({q: k.flag(q.lower()) if v == 'flag' else k.real(q.lower()) if v == 'real' else v for q, v in given.items()})])
    return b


ALLI = dict(ab_sym='flag', ens_spin_sym='flag', use_iterative='flag', disp='flag', avoid_loop='flag', invert_type='orbitalinvert', k_val='real', tol_lin_solver='real', tol_invert='real', res_factor='real',
            max_iter_invert=7, max_iter_lin_solver=3)
case(IV + '.__init__', 'defaults', sample=i_sample)(init_case(None))
case(IV + '.__init__', 'every option', sample=i_sample)(init_case(ALLI))
case(IV + '.__init__', 'option names in capitals', sample=i_sample)(init_case({q.upper(): v for q, v in ALLI.items()}))
case(IV + '.__init__', 'unknown option', sample=i_sample)(init_case(dict(abs_sym=True)))
case(IV + '.__init__', 'unknown method', sample=i_sample)(init_case(dict(invert_type='wuyan')))

for _pol in (1, 2):
    icase(IV + '.get_vt', f'pol={_pol}', _pol)
    for _M in (1, 2):
        for _n, _h in (('get_Ts', 'energy'), ('get_ts_WFI', 'ked')):
            for _q in (IV + '.' + _n, f'{IM}{_n}:{_n}'):
                icase(_q, f'pol={_pol}, {_M} angular momenta', _pol, (_h,), M=_M)
        for _s in range(_pol):
            icase(IV + '.Ws', f'pol={_pol}, spin {_s}, {_M} angular momenta', _pol, ('calc_orbitals', 'density', 'energy', 'response'), lambda k, V, N, s=_s: [k.arr('trial', (N,)), s], M=_M, opts=dict(tol=1e-5))
            icase(IV + '.Jacobian', f'pol={_pol}, spin {_s}, {_M} angular momenta', _pol, (), lambda k, V, N, s=_s: [k.arr('trial', (N,)), s], M=_M,
                  pre=lambda k, V: [s.st.update(chi=k.arr(s.name + '_chi', (Q(V.st['grid'].st['Nelem']), Q(V.st['grid'].st['Nelem'])), kind='mat')) for s in solvers(V)])

LHID = ('Ws', 'Jacobian', 'lsq', 'homo')
no_veff = lambda k, V: [s.st.update(veff=None) for s in solvers(V)]
for _M in (1, 2):
    _t = lambda k, V, N: [k.arr('target', (N, 1)), k.arr('vs0', (N, 1))]
    o = dict(M=_M, ens_spin_sym=False, tol_invert='real', opts=dict(tol=1e-5), fresh_=True)
    L = f', {_M} angular momenta'
    icase(IM + 'linresponse:linresponse', 'pol=1' + L, 1, LHID, _t, **o)
    icase(IM + 'linresponse:linresponse', 'pol=2, both spins' + L, 2, LHID, lambda k, V, N: [k.arr('target', (N, 2)), k.arr('vs0', (N, 2))], **o)
    icase(IM + 'linresponse:linresponse', 'pol=2, both spins, given guess' + L, 2, LHID, lambda k, V, N: [k.arr('target', (N, 2)), k.arr('vs0', (N, 2))], pre=no_veff, **o)
    icase(IM + 'linresponse:linresponse', 'pol=2, spin 1, repeated' + L, 2, LHID, lambda k, V, N: [k.arr('target', (N,)), k.arr('vs0', (N, 1)), 1], **dict(o, fresh_=False))
    icase(IM + 'linresponse:linresponse', 'pol=2, spin 1, given guess' + L, 2, LHID, lambda k, V, N: [k.arr('target', (N,)), k.arr('vs0', (N, 1)), 1], pre=no_veff, **o)
    icase(IM + 'linresponse:linresponse', 'pol=1, no guess' + L, 1, LHID, lambda k, V, N: [k.arr('target', (N, 1))], pre=no_veff, **o)
    icase(IM + 'linresponse:linresponse', 'spin symmetric' + L, 2, LHID, lambda k, V, N: [k.arr('target', (N,)), k.arr('vs0', (N, 1))], **dict(o, ens_spin_sym=True))
icase(IV + '.linresponse', 'spin 1', 2, LHID, lambda k, V, N: [k.arr('target', (N,)), k.arr('vs0', (N, 1)), 1], ens_spin_sym=False, tol_invert='real', opts=dict(tol=1e-5))
icase(IV + '.invert', 'linear response, spin 1', 2, LHID, lambda k, V, N: [k.arr('target', (N,)), k.arr('vs0', (N, 1)), k.arr('phi0', (N, 1)), k.arr('e0', (1,)), 1], ens_spin_sym=False, tol_invert='real', opts=dict(tol=1e-5))
icase(IV + '.invert', 'linear response, both spins', 2, LHID, lambda k, V, N: [k.arr('target', (N, 2)), k.arr('vs0', (N, 2))], ens_spin_sym=False, tol_invert='real', opts=dict(tol=1e-5))

# ------------------------------------------------------------------ the Jacobian is the derivative of the residual
for _pol in (1, 2):
    for _M in (1, 2):
        for _s in range(_pol):
            def _l(L, pol=_pol, M=_M, s=_s):
                V, g, N = inverter(L, pol, M, ab_sym=False)
                base = {q: L.arr(q.name + '_base', (N,)) for q in solvers(V)}
                X = {q: L.arr(q.name + '_X', (N, N), kind='mat') for q in solvers(V)}

                def density(I, self):
                    v, b, x = self.st['veff'].c, base[self].c, X[self].c
                    self.st['n'] = arr((N, 1), lambda p, z: b.get(p) + sum_(N, lambda q: x.get(p, q) * v.get(q)))

                def response(I, self):
                    self.st['chi'] = arr((N, N), X[self].c.get, kind='mat')
                L.override(IS + '.calc_orbitals', lambda I, self: None)
                L.override(IS + '.calc_energy', lambda I, self: None)
                L.override(IS + '.calc_density', density)
                L.override(IS + '.calc_response', response)
                v, d = L.arr('trial', (N,)), L.arr('step', (N,))
                r0 = L.call(IV + '.Ws', V, v, s)
                J = L.call(IV + '.Jacobian', V, v, s)
                r1 = L.call(IV + '.Ws', V, arr((N,), lambda p: v.c.get(p) + d.c.get(p)), s)
                p = fresh('p', 'int', (ZERO, N + 1))
                L.zero('change of the residual - Jacobian times change of the potential', r1.c.get(p) - r0.c.get(p) - sum_(N, lambda q: J.c.get(p, q) * d.c.get(q)))
            lemma(f'the Jacobian is the derivative of the residual (pol={_pol}, spin {_s}, {_M} angular momenta)')(_l)
