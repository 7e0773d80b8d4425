"""Contracts of the partition (fragments, promolecule, energies, potentials)."""
import builtins
from .lib import *
from . import grid as _g, psgrid as _pg, solver as SO, libxc as LX, hartree as HA, ks as KS, inverter as IN

PM = 'CADMium.partition.'
PT = PM + 'partition:Partition'
IV = 'CADMium.inverter.inverter:Inverter.'
H, K, X = HA.H, KS.K, LX.X
half = lambda p: scale(p, Fraction(1, 2))


# ------------------------------------------------------------------ symbolic partitions
OPTP = dict(vp_calc_type='component', hxc_part_type='exact', kinetic_part_type='vonweiz', k_family='gga', ke_func_id=5, ke_param=None, disp=False, ab_sym=False, fractonal=False,
            ens_spin_sym=False, isolated=False, fixed_q=False)


def proots(self):
    """fragments of A and of B"""
    st = self.st
    if st['ens'] is True:
        return [st['KSa'], st['KSA']], [st['KSb'], st['KSB']]
    return [st['KSa']], [st['KSb']]


def frags(self):
    a, b = proots(self)
    return a + b


def partition(k, pol, ens, kind='dft', family='lda', M=1, lean=True, **opt):
    g, N = KS.ks_grid(k)
    P = Obj(cls(PT), {}, 'part')
    o = Obj(cls(PM + 'partition:PartitionOptions'), {}, 'optPartition')
    o.st.update({q: v for q, v in OPTP.items() if v is not None})
    o.st['ke_param'] = PDict({})
    o.st.update(KS.ksoptions(k, kind, family).st)
    for q in ('ab_sym', 'ens_spin_sym', 'isolated', 'disp'):
        o.st[q] = k.flag('part_' + q)
    o.st.update({q: k.flag('part_' + q) if v == 'flag' else v for q, v in opt.items()})
    st = P.st
    st.update(optPartition=o, grid=g, pol=pol, Za=k.real('Za', nonneg=True), Zb=k.real('Zb', nonneg=True), ens=ens, nu_a=k.real('nu_a'), nu_b=k.real('nu_b'), inverter=None, inversion_info=None)
    for x in 'aAbB' if ens else 'ab':
        ks = KS.kohnsham(k, g, N, pol, M if isinstance(M, int) else M['aAbB'.index(x) // 2], kind, family, pre=x + '_')
        ks.name = 'KS' + x
        ks.st['Q'] = k.arr(x + '_Q', (N, pol))
        v = ks.st['V'].st
        for n in ('vh', 'vx', 'vc', 'vp', 'vt', 'vp_pot', 'vp_kin', 'vp_hxc', 'vp_h', 'vp_x', 'vp_c', 'vhcor', 'dFdn', 'dSdn', 'v_s'):
            v[n] = k.arr(f'{x}_V_{n}', (N, pol))
        v['eh'] = k.arr(x + '_V_eh', (N,))
        for n in ('ex', 'ec'):
            v[n] = k.arr(f'{x}_V_{n}', (N, 1))
        v['ts'] = k.arr(x + '_V_ts', (N, 1))
        v['Ts'] = k.real(x + '_V_Ts')
        v['frozen'] = k.flag(x + '_frozen')
        e = ks.st['E'].st
        for n in ('Ts', 'Enuc', 'Eh', 'Vhxc', 'Ehcor'):
            e[n] = k.real(f'{x}_E_{n}')
        e['evals'] = k.arr(x + '_E_evals', (k.int(x + '_nev', 0),))
        st['KS' + x] = ks
    for x in 'aAbB' if ens else 'ab':
        for q in ('N', 'Nmo'):
            st[f'{q}_{x}'] = st['KS' + x].st[q]
    for n in ('na_frac', 'nb_frac', 'nf', 'epsilon_x_', 'tsm'):
        st[n] = k.arr(n, (N, pol))
    del st['epsilon_x_']
    for n in ('epsilon_x', 'epsilon_c', 'tsm'):
        st[n] = k.arr(n, (N, 1))
    for n in ('va', 'vb'):
        st[n] = k.arr(n, (N,))
    for n in ('e_x', 'e_c', 'Tsm'):
        st[n] = k.real(n)
    st['V'] = Obj(cls(PM + 'partition:V'), {}, 'V')
    for n in ('vext', 'vt', 'vh', 'vx', 'vc', 'vp'):
        st['V'].st[n] = k.arr('V_' + n, (N, pol))
    for n in ('ep_x', 'ep_c', 'ep_h'):
        st['V'].st[n] = k.arr('V_' + n, (N, 1 if n == 'ep_h' else pol))
    st['V'].st['s'] = k.arr('V_s', (N,))
    st['E'] = Obj(cls(PM + 'partition:E'), {}, 'E')
    for n in ('Ehf', 'Exf', 'Ecf', 'Ep_h', 'Ep_x', 'Ep_c', 'Ep_pot', 'Ep_kin', 'Ep_hxc', 'Ep', 'F', 'S', 'Ehcor', 'Ea', 'Eb', 'E'):
        st['E'].st[n] = k.real('E_' + n)
    if kind == 'dft':
        for a, b in (('exchange', 'xid'), ('correlation', 'cid')):
            st[a] = Obj(cls(X), dict(grid=g, xc_family=family, func_id=k.I.mkint(sym(b, 'int'))), a)
        st['hartree'] = Obj(cls(H), dict(grid=g), 'hartree')
    else:
        st.update(exchange=fl(ZERO), correlation=fl(ZERO), hartree=fl(ZERO))
    st['kinetic'] = Obj(cls(X), dict(grid=g, xc_family=family, func_id=k.iv('kid', 1)), 'kinetic')
    return P, g, N


def p_sample(val, rng):
    KS.ks_sample(val, rng)
    KS._nelec(val, rng)
    for x in 'aAbB':
        val.dists[x + '_n'] = 'pos'
        val.dists[x + '_scale'] = 'pos'
        val.syms[x + '_nev'] = rng.randint(0, 3)
    val.dists.update(nf='pos', na_frac='pos', nb_frac='pos')


def mirrored(g, a):
    c = a.c
    return arr(a.shape, lambda p, *s: c.get(midx(g, p), *s))


def flipped(a, pol):
    """the other spin's column"""
    c = a.c
    return (lambda p, s: c.get(p, C(pol - 1) - s)) if pol == 2 else (lambda p, s: c.get(p, s))


def opt(self, name):
    return self.st['optPartition'].st[name]


def on(I, self, name):
    return KS.flag(I, opt(self, name))


def npol(self):
    return self.st['pol'] if isinstance(self.st['pol'], int) else Q(self.st['pol']).intval()


def size(self):
    return Q(self.st['grid'].st['Nelem'])


def sc(ks):
    return Q(ks.st['scale'])


# ------------------------------------------------------------------ fragments and promolecule
@contract(PT + '.calc_scale_factors')
def calc_scale_factors(I, self):
    """weights nu and 1-nu of the two members of an ensemble (nu without one), halved when spin-flipped copies are added"""
    st = self.st
    h = Fraction(1, 2) if on(I, self, 'ens_spin_sym') else 1
    na, nb = Q(st['nu_a']), Q(st['nu_b'])
    if st['ens'] is True:
        new = (('KSa', ONE - na), ('KSA', na), ('KSb', ONE - nb), ('KSB', nb))
    else:
        new = (('KSa', na), ('KSb', nb))
    for q, v in new:
        st[q].st['scale'] = fl(scale(v, h))


@contract(PT + '.calc_nuclear_potential')
def calc_nuclear_potential(I, self):
    """Coulomb potential of each nucleus; the molecule's external potential is their sum for every spin"""
    st = self.st
    f = lambda za, zb: I.contracts['CADMium.common.coulomb:coulomb'](I, st['grid'], za, zb)
    st['va'], st['vb'] = f(st['Za'], 0), f(0, st['Zb'])
    a, b = st['va'].c, st['vb'].c
    st['V'].st['vext'] = arr((a.shape[0], npol(self)), lambda p, s: a.get(p) + b.get(p))


@contract(PT + '.mirrorAB')
def mirrorAB(I, self):
    """fragment B becomes the mirror image of fragment A: density, Q function, potentials reflected, energies and chemical potential copied"""
    g = self.st['grid']
    for A, B in zip(*proots(self)):
        for q in ('n', 'Q', 'veff', 'vext'):
            B.st[q] = mirrored(g, A.st[q])
        B.st['E'] = Obj(A.st['E'].cls, dict(A.st['E'].st), 'E copy')
        B.st['u'] = A.st['u']
        for q in ('vx', 'vc', 'vh', 'vp', 'ex', 'ec', 'eh'):
            if q in A.st['V'].st:
                B.st['V'].st[q] = mirrored(g, A.st['V'].st[q])


def weighted_density(I, self, ks):
    """sum of scale * n over the members, plus its spin-flipped image when spin symmetric"""
    cs = [(sc(q), q.st['n'].c) for q in ks]
    f = lambda p, s: sum((w * c.get(p, s) for w, c in cs), ZERO)
    pol = npol(self)
    if on(I, self, 'ens_spin_sym') and pol == 2:
        return arr(cs[0][1].shape, lambda p, s: f(p, s) + f(p, C(1) - s))
    return arr(cs[0][1].shape, lambda p, s: f(p, s) + (f(p, s) if on(I, self, 'ens_spin_sym') else ZERO))


@contract(PT + '.calc_protomolecule')
def calc_protomolecule(I, self):
    """promolecular density = weighted sum of the fragment densities"""
    st = self.st
    a, b = proots(self)
    st['na_frac'], st['nb_frac'] = weighted_density(I, self, a), weighted_density(I, self, b)
    x, y = st['na_frac'].c, st['nb_frac'].c
    st['nf'] = arr(x.shape, lambda p, s: x.get(p, s) + y.get(p, s))


def finite(p):
    """zero where the quotient is not a finite number"""
    return T.fn('nan_to_num', p, ZERO, ZERO, ZERO)


@contract(PT + '.calc_Q')
def calc_Q(I, self):
    """share of each member in the promolecular density (zero where that density vanishes)"""
    nf = self.st['nf'].c
    for q in frags(self):
        n, w = q.st['n'].c, sc(q)
        q.st['Q'] = arr(n.shape, lambda p, s, n=n, w=w: finite(w * n.get(p, s) * power(nf.get(p, s), -1)))


# ------------------------------------------------------------------ energies
@contract(PM + 'ep_nuclear:ep_nuclear')
def ep_nuclear(I, self):
    """attraction of each fragment's density to the other fragment's nucleus"""
    st, pol = self.st, npol(self)
    a, b, va, vb = st['na_frac'].c, st['nb_frac'].c, st['va'].c, st['vb'].c
    st['E'].st['Ep_pot'] = fl(quad(st['grid'], lambda p: KS.spin_sum(a.get, pol)(p) * vb.get(p)) + quad(st['grid'], lambda p: KS.spin_sum(b.get, pol)(p) * va.get(p)))


@contract(PM + 'partition_energy:partition_energy')
def partition_energy(I, self):
    """E_p = potential + kinetic + Hxc parts, all zero for isolated fragments"""
    e = self.st['E'].st
    if on(I, self, 'isolated'):
        for q in ('Ep', 'Ep_pot', 'Ep_kin', 'Ep_hxc'):
            e[q] = fl(ZERO)
        return
    for q in ('ep_nuclear', 'ep_kinetic', 'ep_hxc'):
        I.contracts[f'{PM}{q}:{q}'](I, self)
    e['Ep'] = fl(Q(e['Ep_pot']) + Q(e['Ep_kin']) + Q(e['Ep_hxc']))


@contract(PM + 'energy:energy')
def energy(I, self):
    """fragment sums weighted by the scale factors (doubled when spin-flipped copies are added), plus partition energy, plus nuclear repulsion"""
    st = self.st
    e, g, pol = st['E'].st, st['grid'], npol(self)
    A, B = proots(self)
    if on(I, self, 'ab_sym'):
        B = A
    m = 2 if on(I, self, 'ens_spin_sym') else 1
    tot = lambda ks, a: scale(sum((sc(q) * Q(q.st['E'].st[a]) for q in ks), ZERO), m)
    both = lambda a: fl(tot(A, a) + tot(B, a))
    e['Ea'], e['Eb'] = fl(tot(A, 'E')), fl(tot(B, 'E'))
    e['Ef'], e['Tsf'], e['Enucf'] = both('E'), both('Ts'), both('Enuc')
    ek = [(sc(q), q.st['E'].st['Eks'].c) for q in A + B]
    e['Eksf'] = arr((1, pol), lambda z, s: scale(sum((w * c.get(z, s) for w, c in ek), ZERO), m))
    dft = opt(self, 'interaction_type') == 'dft'
    for q, a in (('Exf', 'Ex'), ('Ecf', 'Ec'), ('Ehf', 'Eh'), ('Vhxcf', 'Vhxc')):
        e[q] = both(a) if dft else fl(ZERO)
    I.contracts[PM + 'partition_energy:partition_energy'](I, self)
    e['Et'] = fl(Q(e['Ef']) + Q(e['Ep']))
    e['Vnn'] = fl(Q(st['Za']) * Q(st['Zb']) * power(scale(Q(g.st['a']), 2), -1))
    e['E'] = fl(Q(e['Et']) + Q(e['Vnn']))

    def join(ks):
        r = Arr.of((C(0),), lambda i: ZERO, 'f')
        for q in ks:
            r = I.call(np.append, [r, q.st['E'].st['evals']], {})
        return r
    e['evals_a'] = join(A)
    e['evals_b'] = e['evals_a'] if B is A else join(B)


def wroot(self, dens):
    """-1/2 (elap sqrt n)(p): the von Weizsaecker operator applied to the root of a one-column density"""
    g = self.st['grid'].st
    L, N = g['elap'].c, size(self)
    return lambda p: scale(sum_(N, lambda q: L.get(p, q) * power(dens(q), Fraction(1, 2))), Fraction(-1, 2))


def vw_energy(self, dens):
    g = self.st['grid'].st
    wi, W = g['wi'].c, wroot(self, dens)
    return scale(T.PI, 2) * Q(g['hr']) * Q(g['ha']) * sum_(size(self), lambda p: wi.get(p) * power(dens(p), Fraction(1, 2)) * W(p))


def vw_density(self, dens):
    g = self.st['grid'].st
    w, W = g['w'].c, wroot(self, dens)
    return lambda p: power(dens(p), Fraction(-1, 2)) * power(w.get(p), -1) * W(p)


def total(a, pol):
    c = a.c
    return lambda p: sum((c.get(p, C(s)) for s in range(pol)), ZERO)


@contract(PM + 'ep_kinetic:ep_kinetic')
def ep_kinetic(I, self):
    """non-additive kinetic energy: kinetic energy of the promolecule minus the weighted kinetic energies of the fragments"""
    st, pol, N = self.st, npol(self), size(self)
    e, v, g = st['E'].st, st['V'].st, st['grid']
    kind = opt(self, 'kinetic_part_type')
    ks = frags(self)
    m = 2 if kind != 'fixed' and on(I, self, 'ens_spin_sym') else 1
    nf = total(st['nf'], pol)
    if kind == 'vonweiz':
        Tsm, tsm = vw_energy(self, nf), vw_density(self, nf)
        Tsf = ZERO
        terms = []
        for q in ks:
            n, Qc, w = total(q.st['n'], pol), total(q.st['Q'], pol), sc(q)
            Tsf = Tsf + w * vw_energy(self, n)
            t = arr((N,), vw_density(self, n))
            q.st['V'].st['ts'] = t
            terms.append(lambda p, t=t.c, Qc=Qc, w=w: w * Qc(p) * t.get(p))
        v['ep_kin'] = arr((N,), lambda p: tsm(p) - scale(sum((t(p) for t in terms), ZERO), m))
    elif kind in ('libxcke', 'paramke'):
        Tsm, tsm = Q(st['Tsm']), st['tsm'].c
        Tsf = sum((sc(q) * Q(q.st['V'].st['Ts']) for q in ks), ZERO)
        ts = [(sc(q), total(q.st['Q'], pol), q.st['V'].st['ts'].c) for q in ks]
        v['ep_kin'] = arr((N,), lambda p: tsm.get(p, ZERO) - scale(sum((w * Qc(p) * t.get(p, ZERO) for w, Qc, t in ts), ZERO), m))
    elif kind == 'inversion':
        inv = st['inverter']
        t = total(I.contracts[IV + 'get_ts_WFI'](I, inv), inv.st['solver'].shape[1])
        Tsm = Q(I.contracts[IV + 'get_Ts'](I, inv))
        abs_ = on(I, self, 'ab_sym')
        if abs_:
            ks = proots(self)[0]
        Tsf, terms = ZERO, []
        for q in ks:
            Tsf = Tsf + sc(q) * Q(q.st['E'].st['Ts'])
            sol = [s for i, j, s in KS.each(q)]
            for s in sol:
                I.contracts[KS.IS + '.calc_ked_WFI'](I, s)
            ked = [[s.st['ked_WFI'].c for i, jj, s in KS.each(q) if jj == j] for j in range(pol)]
            n, Qc, w = total(q.st['n'], pol), total(q.st['Q'], pol), sc(q)
            q.st['V'].st['ts'] = arr((N, pol), lambda p, z, ked=ked, n=n: NM.pick([sum((c.get(p, ZERO) for c in cs), ZERO) for cs in ked], z) * power(n(p), -1))
            terms.append(lambda p, c=total(q.st['V'].st['ts'], pol), Qc=Qc, w=w: w * Qc(p) * c(p))
        f = lambda p: sum((t(p) for t in terms), ZERO)
        if abs_:
            h = f
            f = lambda p: h(p) + h(midx(g, p))
            Tsf = scale(Tsf, 2)
        nm = total(st['nf'], pol)
        v['ep_kin'] = arr((N, 1), lambda p, z: t(p) * power(nm(p), -1) - scale(f(p), m))
    elif kind == 'none':
        Tsm = Tsf = ZERO
        v['ep_kin'] = arr((N, 1), lambda p, z: ZERO)
    elif kind == 'twoorbital':
        Tsm, Tsf = two_orbital(I, self, ks, m)
    else:
        exc('ValueError')
    e['Ep_kin'] = fl(Tsm - scale(Tsf, m))


def two_orbital(I, self, ks, m):
    """two doubly filled orbitals built from the fragment densities (unpolarised)"""
    st, N, g = self.st, size(self), self.st['grid']
    v, w = st['V'].st, self.st['grid'].st['w'].c
    r = Fraction(1, 2)
    n1, n2 = total(st['na_frac'], 1), total(st['nb_frac'], 1)
    L = g.st['elap'].c
    eT = lambda f: (lambda p: scale(sum_(N, lambda q: L.get(p, q) * f(q)), Fraction(-1, 2)))
    d = lambda p: power(n1(p), r) - power(n2(p), r)
    Cn = quad(g, lambda p: power(d(p), 2))
    tot = quad(g, lambda p: n1(p) + n2(p))
    phi1 = lambda p: power(half(tot), r) * d(p) * power(Cn, -r)
    phi2 = lambda p: power(n1(p) + n2(p) - power(phi1(p), 2), r)
    v['phi1'], v['phi2'] = arr((N, 1), lambda p, z: phi1(p)), arr((N, 1), lambda p, z: phi2(p))
    p1, p2 = (lambda a: (lambda p: a.get(p, ZERO)))(v['phi1'].c), (lambda a: (lambda p: a.get(p, ZERO)))(v['phi2'].c)
    T1, T2 = (quad(g, lambda p, f=f: f(p) * eT(f)(p) * power(w.get(p), -1)) for f in (p1, p2))
    nf = total(st['nf'], 1)
    v['tsm'] = arr((N, 1), lambda p, z: (p1(p) * eT(p1)(p) + p2(p) * eT(p2)(p)) * power(w.get(p), -1) * power(nf(p), -1))
    sym_ = on(I, self, 'ab_sym')
    use = [st['KSa']] if sym_ else [st['KSa'], st['KSb']]
    Tsf, terms = ZERO, []
    for q in use:
        n, s = total(q.st['n'], 1), sc(q)
        Tsf = Tsf + s * vw_energy(self, n)
        W = wroot(self, n)
        q.st['V'].st['ts'] = arr((N,), lambda p, n=n, W=W, s=s: s * power(n(p), r) * W(p) * power(w.get(p), -1) * power(n(p), -1))
        terms.append(lambda p, t=q.st['V'].st['ts'].c, c=q.st['Q'].c: c.get(p, ZERO) * t.get(p))
    f = lambda p: sum((t(p) for t in terms), ZERO)
    if sym_:
        h = f
        f = lambda p: h(p) + h(midx(g, p))
        Tsf = scale(Tsf, 2)
    tm = v['tsm'].c
    v['ep_kin'] = arr((N, 1), lambda p, z: tm.get(p, z) - scale(f(p), m))
    return T1 + T2, Tsf


@contract(PM + 'ep_hxc:ep_hxc')
def ep_hxc(I, self):
    """non-additive Hartree, exchange and correlation energies (promolecule minus fragments) and their combination"""
    st, pol, N = self.st, npol(self), size(self)
    e, v, g = st['E'].st, st['V'].st, st['grid']
    if opt(self, 'interaction_type') == 'dft':
        nf = total(st['nf'], pol)
        vh = I.contracts[H + '.v_hartree'](I, st['hartree'], arr((N,), nf)).c
        sym_ = on(I, self, 'ab_sym')
        use = [q for q in (proots(self)[0] if sym_ else frags(self)) if not KS.flag(I, q.st['V'].st.get('frozen', False))]

        def fragment(name, two):
            ts = [(total(q.st['Q'], pol), q.st['V'].st[name].c) for q in use]
            f = lambda p: sum((Qc(p) * (c.get(p, ZERO) if two else c.get(p)) for Qc, c in ts), ZERO)
            return (lambda p: f(p) + f(midx(g, p))) if sym_ else f
        h, x, c = fragment('eh', False), fragment('ex', True), fragment('ec', True)
        ex, ec = st['epsilon_x'].c, st['epsilon_c'].c
        e['Ep_h'] = fl(quad(g, lambda p: nf(p) * half(vh.get(p, ZERO))) - Q(e['Ehf']))
        e['Ep_x'] = fl(Q(st['e_x']) - Q(e['Exf']))
        e['Ep_c'] = fl(Q(st['e_c']) - Q(e['Ecf']))
        v['ep_h'] = arr((N, 1), lambda p, s: half(vh.get(p, s)) - h(p))
        v['ep_x'] = arr((N, pol), lambda p, s: ex.get(p, ZERO) - x(p))
        v['ep_c'] = arr((N, pol), lambda p, s: ec.get(p, ZERO) - c(p))
    else:
        e['Ep_h'] = e['Ep_x'] = e['Ep_c'] = 0
    kind = opt(self, 'hxc_part_type')
    eh, exc_ = Q(e['Ep_h']), Q(e['Ep_x']) + Q(e['Ep_c'])
    if kind == 'exact':
        r = eh + exc_
    elif kind == 'hartree':
        r = eh
    elif kind == 'overlap_xc':
        I.contracts[PM + 'vp_overlap:vp_overlap'](I, self)
        r = eh + Q(e['F']) * exc_
    elif kind in ('overlap_hxc', 'overlap_hxc_2'):
        I.contracts[PM + 'vp_overlap:vp_overlap'](I, self)
        I.contracts[PM + 'EnsCorHar:EnsCorHar'](I, self)
        r = Q(e['F']) * (eh + exc_) + (ONE - Q(e['F'])) * Q(e['Ehcor'])
    elif kind == 'surprisal':
        I.contracts[PM + 'vp_surprise:vp_surprise'](I, self)
        s, a, b, nf = v['s'].c, v['ep_x'].c, v['ep_c'].c, total(st['nf'], pol)
        r = eh + quad(g, lambda p: s.get(p) * (a.get(p, ZERO) + b.get(p, ZERO)) * nf(p))
    else:
        exc('ValueError')
    e['Ep_hxc'] = fl(r)


@contract(PM + 'vp_overlap:vp_overlap')
def vp_overlap(I, self):
    """S = integral of sqrt(nA nB), F = erf(2 S), and their functional derivatives with respect to each member's density (zero where undefined)"""
    st, pol, N = self.st, npol(self), size(self)
    e, g = st['E'].st, st['grid']
    a, b = total(st['na_frac'], pol), total(st['nb_frac'], pol)
    S = quad(g, lambda p: power(a(p) * b(p), Fraction(1, 2)))
    e['S'] = fl(S)
    e['F'] = fl(T.fn('erf', scale(S, 2)))
    gauss = scale(power(T.PI, Fraction(-1, 2)), 2) * T.fn('exp', -power(scale(S, 2), 2)) * 2
    A, B = proots(self)
    for ks, x, y in ((A, a, b), (B, b, a)):
        for q in ks:
            w = sc(q)

            def dS(p, s, w=w, x=x, y=y):
                t = w * half(power(y(p) * power(x(p), -1), Fraction(1, 2)))
                return T.ite(bor(batom('isinf', t), batom('isnan', t)), ZERO, t)
            q.st['V'].st['dSdn'] = arr((N, pol), dS)
            c = q.st['V'].st['dSdn'].c
            q.st['V'].st['dFdn'] = arr((N, pol), lambda p, s, c=c: gauss * c.get(p, s))


@contract(PM + 'EnsCorHar:EnsCorHar')
def EnsCorHar(I, self):
    """Hartree interaction between the components of A and B that occur together; zero without an ensemble"""
    st, pol, N = self.st, npol(self), size(self)
    e, g = st['E'].st, st['grid']
    E = lambda q, v: half(quad(g, lambda p: sum((q.st['n'].c.get(p, C(s)) * v(p, C(s)) for s in range(pol)), ZERO)))
    A, B = proots(self)
    if st['ens'] is True:
        (a, A), (b, B) = A, B
        partner = ((a, B), (A, b), (b, A), (B, a))
        for q, o in partner:
            q.st['E'].st['Ehcor'] = fl(E(q, o.st['V'].st['vh'].c.get))
            q.st['V'].st['vhcor'] = o.st['V'].st['vh']
        e['Ehcor'] = fl(sum((sc(q) * Q(q.st['E'].st['Ehcor']) for q in (a, A, b, B)), ZERO))
        return
    a, b = A[0], B[0]
    if on(I, self, 'ens_spin_sym'):
        for q, o in ((a, b), (b, a)):
            f = flipped(o.st['V'].st['vh'], pol)
            q.st['E'].st['Ehcor'] = fl(E(q, f))
            q.st['V'].st['vhcor'] = arr((N, pol), f)
        e['Ehcor'] = fl(sum((scale(sc(q) * Q(q.st['E'].st['Ehcor']), 2) for q in (a, b)), ZERO))
    else:
        for q in (a, b):
            q.st['E'].st['Ehcor'] = fl(ZERO)
            q.st['V'].st['vhcor'] = KS.zeros((N, pol))
        e['Ehcor'] = fl(ZERO)


@contract(PM + 'vp_surprise:vp_surprise')
def vp_surprise(I, self):
    """s = two-fragment entropy of the density shares (in bits) and its derivative with respect to each fragment's density"""
    st, pol, N = self.st, npol(self), size(self)
    na, nb, nf = (total(st[q], pol) for q in ('na_frac', 'nb_frac', 'nf'))
    Pa, Pb = (lambda p: na(p) * power(nf(p), -1)), (lambda p: nb(p) * power(nf(p), -1))
    log2 = lambda x: T.fn('log2', x)
    st['V'].st['s'] = arr((N,), lambda p: -Pa(p) * log2(Pa(p)) - Pb(p) * log2(Pb(p)))
    A, B = proots(self)
    for ks, x, y in ((A, Pa, Pb), (B, Pb, Pa)):
        for q in ks:
            q.st['V'].st['v_s'] = arr((N, pol), lambda p, s, x=x, y=y: y(p) * log2(y(p) * power(x(p), -1)) * power(nf(p), -1))


# ------------------------------------------------------------------ potentials
@contract(PM + 'vp_nuclear:vp_nuclear')
def vp_nuclear(I, self):
    """the external potential of the molecule minus the member's own nuclear potential"""
    v = self.st['V'].st['vext'].c
    for q in frags(self):
        c = q.st['vnuc'].c
        q.st['V'].st['vp_pot'] = arr(c.shape, lambda p, s, c=c: v.get(p, s) - c.get(p, s))


def vw_potential(self, n, N):
    g = self.st['grid'].st
    w, L, c = g['w'].c, g['elap'].c, n.c
    r = Fraction(1, 2)
    return lambda p, s: scale(sum_(N, lambda q: L.get(p, q) * power(c.get(q, s), r)), -r) * power(c.get(p, s), -r) * power(w.get(p), -1)


def nonan(p):
    return T.ite(batom('isnan', p), ZERO, p)


@contract(PM + 'vp_kinetic:vp_kinetic')
def vp_kinetic(I, self):
    """kinetic potential of the promolecule minus that of each member, by the selected approximation"""
    st, pol, N = self.st, npol(self), size(self)
    v, g = st['V'].st, st['grid']
    kind, ks = opt(self, 'kinetic_part_type'), frags(self)
    if kind == 'vonweiz':
        v['vt'] = arr((N, pol), vw_potential(self, st['nf'], N))
        for q in ks:
            f = vw_potential(self, q.st['n'], N)
            q.st['V'].st['vt'] = arr((N, pol), lambda p, s, f=f: finite(f(p, s)))
    elif kind in ('libxcke', 'paramke'):
        xc = lambda n: I.contracts[X + '.get_xc'](I, st['kinetic'], n, True)
        st['Tsm'], st['tsm'], v['vt'] = xc(st['nf'])
        for q in ks:
            w = q.st['V'].st
            w['Ts'], w['ts'], w['vt'] = xc(q.st['n'])
    elif kind == 'inversion':
        vp_inversion(I, self)
    elif kind == 'none':
        for o in [self] + ks:
            o.st['V'].st['vt'] = KS.zeros((N, pol))
    elif kind == 'twoorbital':
        return vp_two_orbital(I, self)
    else:
        return                                            # 'fixed': nothing is computed
    m = v['vt'].c
    for q in ks:
        c = q.st['V'].st['vt'].c
        q.st['V'].st['vp_kin'] = arr((N, pol), lambda p, s, c=c: nonan(m.get(p, s) - c.get(p, s)))


def vp_inversion(I, self):
    st, pol, N = self.st, npol(self), size(self)
    inv = st['inverter']
    hs = [(s.st['homo'], i, j) for q in frags(self) for i, j, s in KS.each(q)]
    u = Q(I.call(builtins.max, [PList([fl(scale(ONE, -1 / Fraction(repr(float(np.spacing(1))))))] + [h for h, i, j in hs if h is not None])], {}))
    for q in frags(self):
        c = q.st['veff'].c
        q.st['V'].st['vt'] = arr(c.shape, lambda p, s, c=c: u - c.get(p, s))
    one = on(I, self, 'ens_spin_sym')
    for spin in range(1 if one else pol):
        n = st['nf'].c
        target = arr((N,), lambda p, spin=spin: n.get(p, C(spin)))
        phi0, e0, vs0 = I.contracts[PT + '.initialguessinvert'](I, self, spin)
        phi0 = I.call(np.expand_dims, [I.call(np.ravel, [phi0, 'F'], {}), 1], {})
        e0 = I.call(np.ravel, [e0], {})
        st['inversion_info'] = I.contracts[IV + 'invert'](I, inv, target, vs0, phi0, e0, spin, PList([]))[1]
    if one:
        for i in range(inv.st['solver'].shape[0]):
            inv.st['solver'].st[i, 1] = inv.st['solver'].st[i, 0]
        for q in ('vs', 'us'):
            c = inv.st[q].c
            inv.st[q].update(lambda p, s, c=c: (eq(s, C(1)), c.get(p, ZERO)))
    st['V'].st['vt'] = I.contracts[IV + 'get_vt'](I, inv)


def vp_two_orbital(I, self):
    """functional derivative of the two-orbital kinetic energy (unpolarised): exchanging the fragments exchanges the potentials"""
    st, pol, N = self.st, npol(self), size(self)
    if pol == 2:
        exc('ValueError')
    g = st['grid']
    w, L = g.st['w'].c, g.st['elap'].c
    r = Fraction(1, 2)
    for q in frags(self):
        f, n = wroot(self, total(q.st['n'], 1)), total(q.st['n'], 1)
        q.st['V'].st['vt'] = arr((N, 1), lambda p, z, f=f, n=n: f(p) * power(scale(w.get(p), 2) * power(n(p), r), -1))
    n1, n2 = total(st['na_frac'], 1), total(st['nb_frac'], 1)
    d = lambda p: power(n1(p), r) - power(n2(p), r)
    Cn = quad(g, lambda p: power(d(p), 2))
    phi1 = lambda p: d(p) * power(Cn, -r)
    phi2 = lambda p: power(half(n1(p) + n2(p)) - power(phi1(p), 2), r)
    eT = lambda f: (lambda p: scale(sum_(N, lambda q: L.get(p, q) * f(q)), Fraction(-1, 2)) * power(w.get(p), -1))
    t1, t2 = eT(phi1), eT(phi2)
    I1 = quad(g, lambda p: phi1(p) * t1(p))
    I2 = quad(g, lambda p: power(phi1(p), 2) * power(phi2(p), -1) * t2(p))

    def deriv(n, sg):
        u = lambda p: power(Cn * n(p), -r)
        d1 = lambda p: scale(u(p) * (t1(p) - phi1(p) * I1), Fraction(sg, 2))
        d2 = lambda p: t2(p) * (Fraction(1, 4) * ONE - scale(u(p) * phi1(p), Fraction(sg, 2))) * power(phi2(p), -1) + scale(phi1(p) * u(p) * I2, Fraction(sg, 2))
        return lambda p: scale(d1(p) + d2(p), 2)
    a, b = deriv(n1, 1), deriv(n2, -1)
    st['V'].st['vt'] = arr((N, 2), lambda p, s: NM.pick([a(p), b(p)], s))
    m = st['V'].st['vt'].c
    for q, s in ((st['KSa'], 0), (st['KSb'], 1)):
        c = q.st['V'].st['vt'].c
        q.st['V'].st['vp_kin'] = arr((N, 1), lambda p, z, c=c, s=s: m.get(p, C(s)) - c.get(p, ZERO))


@contract(PM + 'vp_hxc:vp_hxc')
def vp_hxc(I, self):
    """Hartree, exchange and correlation potentials of the promolecule minus those of each member, combined as the derivative of the energy expression"""
    st, pol, N = self.st, npol(self), size(self)
    v, e, ks = st['V'].st, st['E'].st, frags(self)
    kind, ni = opt(self, 'hxc_part_type'), opt(self, 'interaction_type') == 'ni'
    if not (kind == 'exact' and ni):
        v['vh'] = I.contracts[H + '.v_hartree'](I, st['hartree'], st['nf'])
        st['e_x'], st['epsilon_x'], v['vx'] = I.contracts[X + '.get_xc'](I, st['exchange'], st['nf'], True)
        st['e_c'], st['epsilon_c'], v['vc'] = I.contracts[X + '.get_xc'](I, st['correlation'], st['nf'], True)
        for q in ks:
            w = q.st['V'].st
            for s in 'hxc':
                m, c = v['v' + s].c, w['v' + s].c
                w['vp_' + s] = arr((N, pol), lambda p, s, m=m, c=c: m.get(p, s) - c.get(p, s))
            h, x, c = (w['vp_' + s].c for s in 'hxc')
            w['vp_hxc'] = arr((N, pol), lambda p, s, h=h, x=x, c=c: h.get(p, s) + x.get(p, s) + c.get(p, s))
    else:
        for q in ks:
            for s in 'hxc':
                q.st['V'].st['vp_' + s] = KS.zeros((N, pol))
    if kind in ('overlap_xc', 'overlap_hxc'):
        I.contracts[PM + 'vp_overlap:vp_overlap'](I, self)
    if kind == 'overlap_hxc':
        I.contracts[PM + 'EnsCorHar:EnsCorHar'](I, self)
    if kind in ('overlap_xc', 'overlap_hxc', 'surprisal'):
        I.contracts[PM + 'energy:energy'](I, self)
    if kind not in ('exact', 'hartree', 'overlap_xc', 'overlap_hxc', 'surprisal'):
        exc('ValueError')
    for q in ks:
        w = q.st['V'].st
        h, x, c = (w['vp_' + s].c for s in 'hxc')
        xc = lambda p, s, x=x, c=c: x.get(p, s) + c.get(p, s)
        if kind == 'exact':
            f = lambda p, s, h=h, xc=xc: h.get(p, s) + xc(p, s)
        elif kind == 'hartree':
            w['vp_hxc'] = w['vp_h']
            continue
        elif kind == 'overlap_xc':
            d, F, Ex = w['dFdn'].c, Q(e['F']), Q(e['Ep_x']) + Q(e['Ep_c'])
            f = lambda p, s, h=h, xc=xc, d=d: h.get(p, s) + F * xc(p, s) + Ex * d.get(p, s)
        elif kind == 'overlap_hxc':
            d, vc, F, Eh, Ec = w['dFdn'].c, w['vhcor'].c, Q(e['F']), Q(e['Ep_h']) + Q(e['Ep_x']) + Q(e['Ep_c']), Q(e['Ehcor'])
            f = lambda p, s, h=h, xc=xc, d=d, vc=vc: F * (h.get(p, s) + xc(p, s)) + Eh * d.get(p, s) + (ONE - F) * vc.get(p, s) - Ec * d.get(p, s)
        else:
            sv, ds, a, b, nf = v['s'].c, w['v_s'].c, v['ep_x'].c, v['ep_c'].c, total(st['nf'], pol)
            f = lambda p, s, h=h, xc=xc, ds=ds: h.get(p, s) + sv.get(p) * xc(p, s) + (a.get(p, s) + b.get(p, s)) * nf(p) * ds.get(p, s)
        w['vp_hxc'] = arr((N, pol), f)


@contract(PM + 'partition_potential:partition_potential')
def partition_potential(I, self):
    """the partition potential is the Q-weighted sum of the members' potentials, spin-flipped and mirrored contributions included"""
    st, pol, N = self.st, npol(self), size(self)
    v, g = st['V'].st, st['grid']
    if opt(self, 'vp_calc_type') != 'component':
        raise Unsupported('potential inversion')
    for q in ('vp_nuclear', 'vp_kinetic', 'vp_hxc'):
        I.contracts[f'{PM}{q}:{q}'](I, self)
    ks = frags(self)
    for q in ks:
        a, b, c = (q.st['V'].st['vp_' + s].c for s in ('pot', 'kin', 'hxc'))
        q.st['V'].st['vp'] = arr((N, pol), lambda p, s, a=a, b=b, c=c: a.get(p, s) + b.get(p, s) + c.get(p, s))
    flip, sym_ = on(I, self, 'ens_spin_sym'), on(I, self, 'ab_sym')
    for name in ('vp', 'vp_pot', 'vp_kin', 'vp_hxc', 'vp_h', 'vp_x', 'vp_c'):
        ts = [(q.st['V'].st[name].c, q.st['Q'].c) for q in ks]
        f = lambda p, s, ts=ts: sum((c.get(p, s) * w.get(p, s) for c, w in ts), ZERO)
        if flip:
            f = lambda p, s, f=f: f(p, s) + f(p, C(pol - 1) - s if pol == 2 else s)
        if sym_:
            f = lambda p, s, f=f: half(f(p, s) + f(midx(g, p), s))
        v[name] = arr((N, pol), f)
    return v['vp']


# ------------------------------------------------------------------ opaque callees (for proofs of callers)
def stamp(self, *parts):
    """a key that depends on everything the callee may read"""
    key = []
    for x in parts:
        key.append(NM.lamof(x.c) if isinstance(x, Arr) else Q(x))
    return tuple(key) or (sym('NOKEY', 'real'),)


def op_energy_part(name):
    def f(I, self):
        e = self.st['E'].st
        e['Ep_' + name] = SV(ext('part_' + name, stamp(self, self.st['nf'], self.st['na_frac'], self.st['nb_frac']) + tuple(Q(e[q]) for q in ('Ehf', 'Exf', 'Ecf')), ()), 'float')
    return f


def op_partition_energy(I, self):
    e = self.st['E'].st
    key = stamp(self, self.st['nf']) + tuple(Q(e[q]) for q in ('Ehf', 'Exf', 'Ecf'))
    for q in ('Ep', 'Ep_h', 'Ep_x', 'Ep_c', 'Ep_hxc', 'Ep_kin', 'Ep_pot'):
        e[q] = SV(ext('part_' + q, key, ()), 'float')
    N = size(self)
    self.st['V'].st['ep_kin'] = arr((N,), lambda p: ext('part_ep_kin', key, (p,)))


def op_energy(I, self):
    e = self.st['E'].st
    key = stamp(self, self.st['nf'], *[q.st['n'] for q in frags(self)]) + stamp(self, *[q.st['scale'] for q in frags(self)])
    for q in ('E', 'Ea', 'Eb', 'Ef', 'Ep', 'Ep_h', 'Ep_x', 'Ep_c'):
        e[q] = SV(ext('penergy_' + q, key, ()), 'float')


def op_surprise(I, self):
    N = size(self)
    key = stamp(self, self.st['nf'], self.st['na_frac'], self.st['nb_frac'])
    self.st['V'].st['s'] = arr((N,), lambda p: ext('surprise', key, (p,)))
    for q in frags(self):
        q.st['V'].st['v_s'] = arr((N, npol(self)), lambda p, s, q=q: ext('surprise_' + q.name, key, (p, s)))


def op_overlap(I, self):
    key = stamp(self, self.st['na_frac'], self.st['nb_frac'])
    for q in 'SF':
        self.st['E'].st[q] = SV(ext('overlap_' + q, key, ()), 'float')
    for q in frags(self):
        for d in ('dSdn', 'dFdn'):
            q.st['V'].st[d] = arr((size(self), npol(self)), lambda p, s, q=q, d=d: ext(f'overlap_{d}_{q.name}', key + (sc(q),), (p, s)))


def op_enscor(I, self):
    key = stamp(self, *[q.st['n'] for q in frags(self)]) + stamp(self, *[q.st['V'].st['vh'] for q in frags(self)]) + stamp(self, *[q.st['scale'] for q in frags(self)])
    self.st['E'].st['Ehcor'] = SV(ext('enscor', key, ()), 'float')
    for q in frags(self):
        q.st['E'].st['Ehcor'] = SV(ext('enscor_' + q.name, key, ()), 'float')
        q.st['V'].st['vhcor'] = arr((size(self), npol(self)), lambda p, s, q=q: ext('enscor_v' + q.name, key, (p, s)))


def op_potential(name):
    names = {'nuclear': ['vp_pot'], 'kinetic': ['vt', 'vp_kin'], 'hxc': ['vp_hxc', 'vp_h', 'vp_x', 'vp_c']}[name]

    def f(I, self):
        for q in frags(self):
            key = stamp(self, self.st['nf'], q.st['n'])
            for a in names:
                q.st['V'].st[a] = arr((size(self), npol(self)), lambda p, s, q=q, a=a, key=key: ext(f'pp_{a}_{q.name}', key, (p, s)))
    return f


def op_xc(I, self, n, return_epsilon=False):
    N = Q(self.st['grid'].st['Nelem'])
    key = (NM.lamof(n.c), Q(self.st['func_id']))
    v = arr(n.shape, lambda p, s: ext('xcpot', key, (p, s)))
    E = SV(ext('xcE', key, ()), 'float')
    if I.decide(I.truth(return_epsilon)):
        return tuple([E, arr((N, 1), lambda p, s: ext('xceps', key, (p, s))), v])
    return (E, v)


def op_proto(I, self):
    key = stamp(self, *[q.st[a] for q in frags(self) for a in ('n', 'scale')])
    for n in ('na_frac', 'nb_frac', 'nf'):
        self.st[n] = arr((size(self), npol(self)), lambda p, s, n=n: ext('proto_' + n, key, (p, s)))


def op_Q(I, self):
    for q in frags(self):
        key = stamp(self, self.st['nf'], q.st['n'], q.st['scale'])
        q.st['Q'] = arr((size(self), npol(self)), lambda p, s, key=key: ext('share', key, (p, s)))


def op_veff(I, self):
    key = tuple(lam(self.st[q]) for q in ('vnuc', 'vext', 'vhxc'))
    self.st['veff'] = arr((size(self), npol(self)), lambda p, s: ext('ks_veff', key, (p, s)))


def op_guess(I, self, ispin):
    N, s = size(self), Q(ispin)
    key = tuple(stamp(self, *[q.st[a] for q in frags(self) for a in ('veff', 'Q')])) + (s,)
    return (arr((N, 2), lambda p, t: ext('guess_phi', key, (p, t))), arr((2,), lambda t: ext('guess_e', key, (t,))), arr((N, 1), lambda p, z: ext('guess_v', key, (p,))))


def op_invert(I, self, n0, vs0, phi0=None, e0=None, ispin=0, Qi=None):
    s = Q(ispin)
    key = tuple(NM.lamof(x.c) for x in (n0, vs0, phi0, e0)) + (s,)
    self.st['vs'].update(lambda p, j: (eq(j, s), ext('inv_vs', key, (p,))))
    self.st['us'].update(lambda z, j: (eq(j, s), ext('inv_us', key, ())))
    return (True, arr((3,), lambda i: ext('inv_info', key, (i,))))


# in replays: a guess and an inversion that every argument matters to
def sc_guess(I, self, ispin):
    N, s, f = size(self), Q(ispin), frags(self)
    v, w = [q.st['veff'].c for q in f], [q.st['Q'].c for q in f]
    return (arr((N, 2), lambda p, t: NM.pick([v[0].get(p, s) * w[0].get(p, s), v[-1].get(p, s)], t)), arr((2,), lambda t: NM.pick([v[0].get(ONE, s), w[-1].get(ONE, s)], t)),
            arr((N, 1), lambda p, z: sum((a.get(p, s) * b.get(p, s) for a, b in zip(v, w)), ZERO)))


def sc_guess_py(self, ispin):
    f = [self.KSa, self.KSA, self.KSb, self.KSB] if self.ens else [self.KSa, self.KSb]
    a, b = f[0], f[-1]
    return (np.stack([a.veff[:, ispin] * a.Q[:, ispin], b.veff[:, ispin]], axis=1), np.array([a.veff[1, ispin], b.Q[1, ispin]]), sum(q.veff[:, ispin] * q.Q[:, ispin] for q in f)[:, None])


def sc_invert(I, self, n0, vs0, phi0=None, e0=None, ispin=0, Qi=None):
    N, s = Q(self.st['grid'].st['Nelem']), Q(ispin)
    n, v, x, e = n0.c, vs0.c, phi0.c, e0.c
    self.st['vs'].update(lambda p, j: (eq(j, s), n.get(p) + scale(v.get(p, ZERO), 2) + x.get(p, ZERO) * e.get(ZERO) + x.get(p + N, ZERO) * e.get(ONE)))
    self.st['us'].update(lambda z, j: (eq(j, s), n.get(ONE) + s))
    return (True, arr((N,), lambda p: n.get(p) + s))


def sc_invert_py(self, n0, vs0, phi0=None, e0=None, ispin=0, Qi=None):
    N = self.grid.Nelem
    self.vs[:, ispin] = n0 + 2 * vs0[:, 0] + phi0[:N, 0] * e0[0] + phi0[N:, 0] * e0[1]
    self.us[0, ispin] = n0[1] + ispin
    return True, n0 + ispin


HIDE = {'proto': (PT + '.calc_protomolecule', op_proto), 'Q': (PT + '.calc_Q', op_Q), 'veff': (K + '.set_effective_potential', op_veff), 'hartree': (H + '.v_hartree', KS.opaque_hartree), 'xc': (X + '.get_xc', op_xc), 'partition_energy': (PM + 'partition_energy:partition_energy', op_partition_energy),
        'energy': (PM + 'energy:energy', op_energy), 'surprise': (PM + 'vp_surprise:vp_surprise', op_surprise), 'overlap': (PM + 'vp_overlap:vp_overlap', op_overlap),
        'enscor': (PM + 'EnsCorHar:EnsCorHar', op_enscor)}
for _n in ('nuclear', 'kinetic', 'hxc'):
    HIDE['ep_' + _n] = (f'{PM}ep_{_n}:ep_{_n}', op_energy_part({'nuclear': 'pot', 'kinetic': 'kin', 'hxc': 'hxc'}[_n]))
    HIDE['vp_' + _n] = (f'{PM}vp_{_n}:vp_{_n}', op_potential(_n))


def hide(k, *what):
    for w in what:
        k.override(*HIDE[w])


# ------------------------------------------------------------------ cases
def pcase(qual, name, pol, ens, hidden=(), kind='dft', family='lda', pre=None, args=None, sample=p_sample, only=None, M=1, opts=None, **o):
    def b(k):
        P, g, N = partition(k, pol, ens, kind, family, M=M, **o)
        hide(k, *hidden)
        if pre:
            pre(k, P)
        return [P] + (args(k, P) if args else [])
    case(qual, name, sample=sample, **(opts or {}))(b)


def label(pol, ens, *x):
    return ', '.join([f'pol={pol}', 'ensemble' if ens else 'single'] + [str(y) for y in x])


for _pol in (1, 2):
    for _ens in (False, True):
        L = label(_pol, _ens)
        if _pol == 1:
            pcase(PT + '.calc_scale_factors', L, _pol, _ens)
        pcase(PT + '.calc_protomolecule', L, _pol, _ens)
        pcase(PT + '.calc_Q', L, _pol, _ens)
        pcase(PT + '.mirrorAB', L, _pol, _ens)
        pcase(PM + 'vp_nuclear:vp_nuclear', L, _pol, _ens)
        pcase(PM + 'vp_overlap:vp_overlap', L, _pol, _ens)
        pcase(PM + 'vp_surprise:vp_surprise', L, _pol, _ens)
        pcase(PM + 'EnsCorHar:EnsCorHar', L, _pol, _ens)
        for _kind in ('dft', 'ni'):
            pcase(PM + 'energy:energy', L + ', ' + _kind, _pol, _ens, ('partition_energy',), _kind)
        for _kk in ('vonweiz', 'libxcke', 'none'):
            pcase(PM + 'ep_kinetic:ep_kinetic', label(_pol, _ens, _kk), _pol, _ens, kinetic_part_type=_kk)
            pcase(PM + 'vp_kinetic:vp_kinetic', label(_pol, _ens, _kk), _pol, _ens, ('xc',), kinetic_part_type=_kk)
        for _h in ('exact', 'hartree', 'overlap_xc', 'overlap_hxc', 'overlap_hxc_2', 'surprisal'):
            pcase(PM + 'ep_hxc:ep_hxc', label(_pol, _ens, _h), _pol, _ens, ('hartree', 'overlap', 'enscor', 'surprise'), hxc_part_type=_h)
            pcase(PM + 'vp_hxc:vp_hxc', label(_pol, _ens, _h), _pol, _ens, ('hartree', 'xc', 'overlap', 'enscor', 'energy'), hxc_part_type=_h)
        pcase(PM + 'ep_hxc:ep_hxc', label(_pol, _ens, 'non-interacting'), _pol, _ens, kind='ni')
        pcase(PM + 'vp_hxc:vp_hxc', label(_pol, _ens, 'non-interacting'), _pol, _ens, kind='ni')
        pcase(PM + 'partition_potential:partition_potential', L, _pol, _ens, ('vp_nuclear', 'vp_kinetic', 'vp_hxc'))
    pcase(PT + '.calc_nuclear_potential', f'pol={_pol}', _pol, False)
    pcase(PM + 'ep_nuclear:ep_nuclear', f'pol={_pol}', _pol, False)
    pcase(PM + 'partition_energy:partition_energy', f'pol={_pol}', _pol, False, ('ep_nuclear', 'ep_kinetic', 'ep_hxc'))
for _f in ('ep_kinetic', 'vp_kinetic'):
    pcase(f'{PM}{_f}:{_f}', 'two orbitals', 1, False, kinetic_part_type='twoorbital')


# the kinetic energy by inversion: any inverter
def inverted(k, P, M, pol, sym_):
    V, *_ = IN.inverter(k, pol, M=M, ens_spin_sym=sym_)
    V.st['grid'] = P.st['grid']
    P.st['inverter'] = V
    for q in frags(P):
        for i, j, x in KS.each(q):
            x.st['homo'] = k.real(f'{q.name}_homo{j}') if (q.name, j) in (('KSa', 0), ('KSb', pol - 1), ('KSA', pol - 1)) and i == q.st['solver'].shape[0] - 1 else None
    IN.hide(k, 'ked', 'energy')
    k.override(PT + '.initialguessinvert', op_guess)
    k.override(IV + 'invert', op_invert)
    k.script(PT + '.initialguessinvert', sc_guess, sc_guess_py)
    k.script(IV + 'invert', sc_invert, sc_invert_py)


for _pol, _sym in ((1, False), (2, False), (2, True)):
    for _ens in (False, True):
        for _f in ('vp_kinetic', 'ep_kinetic'):
            pcase(f'{PM}{_f}:{_f}', label(_pol, _ens, 'inversion, spin symmetric' if _sym else 'inversion'), _pol, _ens, pre=lambda k, P, pol=_pol, s=_sym: inverted(k, P, 1, pol, s),
                  kinetic_part_type='inversion', ens_spin_sym=_sym)
for _M in ((1, 2), (2, 1)):
    for _f in ('vp_kinetic', 'ep_kinetic'):
        pcase(f'{PM}{_f}:{_f}', label(1, _M == (2, 1), f'inversion, {_M[0]} and {_M[1]} angular momenta'), 1, _M == (2, 1), pre=lambda k, P: inverted(k, P, 2, 1, False), kinetic_part_type='inversion', ens_spin_sym=False, M=_M)
pcase(PM + 'vp_kinetic:vp_kinetic', 'two orbitals, polarised', 2, False, kinetic_part_type='twoorbital')
pcase(PM + 'ep_kinetic:ep_kinetic', 'fixed', 1, False, kinetic_part_type='fixed')
pcase(PM + 'vp_kinetic:vp_kinetic', 'fixed', 1, False, kinetic_part_type='fixed')


# ------------------------------------------------------------------ construction
@contract(PT + '.__init__')
def p_init(I, self, grid, Za, Zb, pol, Nmo_a, N_a, nu_a, Nmo_b, N_b, nu_b, optPartition=None):
    """options checked and completed; each fragment (each ensemble member) is a Kohn-Sham object with one nucleus, the options and the
    electrons given for it, weighted by its ensemble factor; functionals of the promolecule; nuclear potentials"""
    st = self.st
    given = optPartition if optPartition is not None else PDict({})
    o = SO.parse_options(I, given, {**KS.OPT, **OPTP, 'ke_param': PDict({})}, cls(PM + 'partition:PartitionOptions'))
    allowed = dict(interaction_type=('dft', 'ni'), vp_calc_type=('component', 'potential_inversion'), hxc_part_type=('exact', 'overlap_hxc_2', 'overlap_hxc', 'overlap_xc', 'surprisal', 'hartree'),
                   kinetic_part_type=('vonweiz', 'inversion', 'libxcke', 'paramke', 'none', 'twoorbital', 'fixed'))
    for q, vs in allowed.items():
        if o.st[q] not in vs:
            exc('*')
    st.update(optPartition=o, grid=grid, pol=pol, Za=Za, Zb=Zb, na_frac=None, nb_fac=None, nu_a=nu_a, nu_b=nu_b)
    ens = not (I.decide(eq(Q(nu_a), ONE)) and I.decide(eq(Q(nu_b), ONE)))
    st['ens'] = ens
    A = lambda x: I.call(np.array, [x], {})
    at = (lambda x, i: x.st[i]) if ens else (lambda x, i: x)
    for i, (x, y) in enumerate(('ab', 'AB') if ens else ('ab',)):
        for s, n, m in ((x, N_a, Nmo_a), (y, N_b, Nmo_b)):
            st['N_' + s], st['Nmo_' + s] = A(at(n, i)), A(at(m, i))
    st['V'], st['E'] = Obj(cls(PM + 'partition:V'), {}, 'V'), Obj(cls(PM + 'partition:E'), {}, 'E')
    st['inverter'] = st['inversion_info'] = None
    if KS.flag(I, o.st['ab_sym']) and not I.decide(eq(Q(Za), Q(Zb))):
        exc('ValueError')
    dft = o.st['interaction_type'] == 'dft'
    if dft:
        for a, b in (('exchange', 'xfunc_id'), ('correlation', 'cfunc_id')):
            st[a] = Obj(cls(X), dict(grid=grid, xc_family=o.st['xc_family'], func_id=o.st[b]), a)
        st['hartree'] = Obj(cls(H), dict(grid=grid), 'hartree')
    else:
        st.update(exchange=fl(ZERO), correlation=fl(ZERO), hartree=fl(ZERO))
    for s in 'abAB' if ens else 'ab':
        ks = Obj(cls(K), {}, 'KS' + s)
        zs = (Za, 0) if s in 'aA' else (0, Zb)
        I.contracts[K + '.__init__'](I, ks, grid, *zs, pol, st['Nmo_' + s], st['N_' + s], PDict({q: o.st[q] for q in KS.OPT}))
        st['KS' + s] = ks
    I.contracts[PT + '.calc_scale_factors'](I, self)
    if o.st['kinetic_part_type'] == 'libxcke':
        st['kinetic'] = Obj(cls(X), dict(grid=grid, xc_family=o.st['k_family'], func_id=o.st['ke_func_id']), 'kinetic')
    I.contracts[PT + '.calc_nuclear_potential'](I, self)


def op_ks_init(I, self, grid, Za, Zb, pol, Nmo, N, optKS=None):
    """stands for the constructor of a Kohn-Sham object: keeps what it was given"""
    self.st.update(grid=grid, Za=Za, Zb=Zb, pol=pol, Nmo=Nmo, N=N, optKS=PList([PList([q, optKS.st[q]]) for q in sorted(optKS.st)]), scale=None)


def p_init_case(pol, ens, given, **kw):
    def b(k):
        g, N = KS.ks_grid(k)
        k.override(K + '.__init__', op_ks_init)
        d = {q: (k.flag(q.lower()) if v == 'flag' else k.iv(q.lower(), 1) if v == 'int' else v) for q, v in given.items()}
        L = lambda t, f: PList([PList([f(f'{t}{j}') for j in range(pol)])])
        M = lambda t, f: PList([L(t + '0', f), L(t + '1', f)]) if ens else L(t, f)
        one = k.I.mkint(ONE)
        nu = dict(a=one if not ens or ens == 'B' else k.real('nu_a'), b=one if not ens or ens == 'A' else k.real('nu_b'))
        for x in 'ab':
            if isinstance(nu[x], SV) and nu[x] is not one:
                k.assume(lt(Q(nu[x]), ONE))
        return [Obj(cls(PT), {}, 'part'), g, k.iv('Za', 0), k.iv('Zb', 0), pol, M('Nmo_a', lambda n: k.iv(n, 0)), M('N_a', lambda n: k.real(n, nonneg=True)), nu['a'],
                M('Nmo_b', lambda n: k.iv(n, 0)), M('N_b', lambda n: k.real(n, nonneg=True)), nu['b'], PDict(d)]
    return b


def p_init_sample(val, rng):
    KS.ks_sample(val, rng)
    z = rng.randint(1, 3)
    val.syms.update(Za=z, Zb=rng.choice([z, z + 1]))


PALL = dict(KS.ALL, hxc_part_type='hartree', kinetic_part_type='libxcke', k_family='lda', ke_func_id='int', disp='flag', ab_sym='flag', ens_spin_sym='flag', isolated='flag', fixed_q='flag')
for _pol in (1, 2):
    for _ens in (False, True, 'A', 'B'):
        case(PT + '.__init__', f'pol={_pol}, ' + {False: 'single', True: 'ensembles', 'A': 'ensemble on A only', 'B': 'ensemble on B only'}[_ens], sample=p_init_sample)(p_init_case(_pol, _ens, {}))
case(PT + '.__init__', 'every option', sample=p_init_sample)(p_init_case(1, False, PALL))
case(PT + '.__init__', 'every option, ensembles', sample=p_init_sample)(p_init_case(2, True, PALL))
case(PT + '.__init__', 'option names in capitals', sample=p_init_sample)(p_init_case(1, False, {q.upper(): v for q, v in PALL.items()}))
case(PT + '.__init__', 'non-interacting', sample=p_init_sample)(p_init_case(2, True, {'interaction_type': 'ni', 'ab_sym': 'flag', 'kinetic_part_type': 'vonweiz'}))
case(PT + '.__init__', 'unknown option', sample=p_init_sample)(p_init_case(1, False, {'ab_sim': True}))
for _o in ('vp_calc_type', 'hxc_part_type', 'kinetic_part_type', 'interaction_type'):
    case(PT + '.__init__', f'unknown {_o}', sample=p_init_sample)(p_init_case(1, False, {_o: 'nonesuch'}))


# ------------------------------------------------------------------ self-consistency of the fragments
PSCF = dict(e_tol=SV(P(Fraction(1, 10**7)), 'float'), max_iter=50, alpha=PList([SV(P(Fraction(82, 100)), 'float')]), beta=PList([SV(P(Fraction(82, 100)), 'float')]), calc_type='pdft', disp=False,
            continuing=False, from_target_density=False, iterative=True, isolated=False, auto_tol=False, auto_tol_iter=3, freeze_a=False, freeze_b=False)


@contract(PM + 'scf:scf')
def scf(I, self, optSCF):
    """fragments start from their bare nuclei (or the given densities); each iteration renews the Hxc potentials, the partition potential (none for isolated
    fragments), solves every fragment in it, mixes densities, and renews promolecule, Q functions and energies, until energy and promolecular density
    change by less than the tolerance (and, with auto_tol, the change has not improved for auto_tol_iter iterations) or max_iter iterations are done"""
    o = KS.parse_scf(I, optSCF, PSCF, cls(PM + 'scf:PartitionSCFOptions'))
    st, con, g, pol = self.st, I.contracts, self.st['grid'], npol(self)
    if o.st['calc_type'] not in ('pdft', 'sdft'):
        exc('*')
    A, B = proots(self)
    isolated, ab = on(I, self, 'isolated'), on(I, self, 'ab_sym')
    for ks, x in ((A, 'freeze_a'), (B, 'freeze_b')):
        for q in ks:
            q.st['V'].st['frozen'] = o.st[x]
    al = o.st['alpha'].st
    if len(al) not in (1, 2):
        exc('ValueError')
    st['Alpha'] = PList([al[0], al[-1]])
    for ks, x in ((A, al[0]), (B, al[-1])):
        for q in ks:
            q.st['Alpha'] = x
    use = A if ab else A + B
    iterative, cont = o.st['iterative'], KS.flag(I, o.st['continuing'])
    for q in use:
        if cont:
            if q.st['n'] is None:
                exc('*')
        else:
            q.st['vext'], q.st['vhxc'] = KS.zeros(q.st['vnuc'].shape), KS.zeros(q.st['vnuc'].shape)
            con[K + '.set_effective_potential'](I, q)
            I.checkpoint()
            q.st['n'] = con[K + '.calc_density'](I, q, iterative)
            I.checkpoint()
            con[K + '.calc_chempot'](I, q)
    if ab:
        con[PT + '.mirrorAB'](I, self)
    fixed = KS.flag(I, o.st['from_target_density'])
    if not fixed:
        con[PT + '.calc_protomolecule'](I, self)
    con[PT + '.calc_Q'](I, self)
    I.checkpoint()
    auto = KS.flag(I, o.st['auto_tol'])
    inversion = not isolated and (opt(self, 'kinetic_part_type') == 'inversion' or opt(self, 'vp_calc_type') == 'potential_inversion')
    tol, auto_n, maxit = (Q(o.st[q]) for q in ('e_tol', 'auto_tol_iter', 'max_iter'))
    v = dict(dif=fl(P(10)), old_E=fl(ZERO), old_nf=st['nf'], iterations=1)
    if inversion:
        v['failures'] = 0
    if auto:
        v.update(min_dif=fl(P(10)), num_iter_not_min=0)

    def cond():
        c = lt(tol, Q(v['dif']))
        if auto:
            c = bor(c, lt(Q(v['num_iter_not_min']), auto_n))
        return band(c, le(Q(v['iterations']), maxit))

    def step():
        if inversion and opt(self, 'kinetic_part_type') == 'inversion':
            st['inverter'].st['optInv'].st['avoid_loop'] = I.decide(eq(Q(v['iterations']), ONE))
        for q in use:
            con[K + '.calc_hxc_potential'](I, q)
        if ab:
            con[PT + '.mirrorAB'](I, self)
        I.checkpoint()
        if isolated:
            vp = KS.zeros(st['nf'].shape)
            for q in use:
                q.st['V'].st['vp'] = KS.zeros(st['nf'].shape)
        else:
            vp = con[PM + 'partition_potential:partition_potential'](I, self)
        I.checkpoint()
        for q in use:
            if not KS.flag(I, q.st['V'].st['frozen']):
                q.st['vext'] = vp if o.st['calc_type'] == 'pdft' else q.st['V'].st['vp']
            con[K + '.set_effective_potential'](I, q)
            I.checkpoint()
            new = con[K + '.calc_density'](I, q, iterative, v['dif']).c
            con[K + '.calc_chempot'](I, q)
            w, n = Q(q.st['Alpha']), q.st['n'].c
            q.st['n'] = arr(n.shape, lambda p, s, w=w, n=n, new=new: (ONE - w) * n.get(p, s) + w * new.get(p, s))
            I.checkpoint()
            con[K + '.energy'](I, q)
        if ab:
            con[PT + '.mirrorAB'](I, self)
        if not fixed:
            con[PT + '.calc_protomolecule'](I, self)
        con[PT + '.calc_Q'](I, self)
        I.checkpoint()
        con[PM + 'energy:energy'](I, self)
        I.checkpoint()
        E = Q(st['E'].st['E'])
        dE = absval((E - Q(v['old_E'])) / E)
        dn = KS.relchange(I, g, st['nf'].c, v['old_nf'].c, pol)
        v['dif'] = I.call(builtins.max, [fl(dE), fl(dn)], {})
        v['old_E'], v['old_nf'] = st['E'].st['E'], st['nf']
        if auto:
            if I.decide(lt(Q(v['dif']), Q(v['min_dif']))):
                v['num_iter_not_min'], v['min_dif'] = 0, v['dif']
            else:
                v['num_iter_not_min'] = I.mkint(Q(v['num_iter_not_min']) + 1)
        if inversion:
            info = st['inversion_info']
            for q in sorted(info.st):
                bad = I.decide(lt(ONE, Q(info.st[q].st['optimality'])))
                v['failures'] = I.mkint(Q(v['failures']) + 1) if bad else 0
                if bad and I.decide(lt(ONE, Q(v['failures']))):
                    exc('SystemExit')
        v['iterations'] = I.mkint(Q(v['iterations']) + 1)
    I.spec_while(v, cond, step)


@contract(PT + '.scf')
def p_scf(I, self, optSCF=None):
    """the self-consistency procedure with the given options"""
    return I.contracts[PM + 'scf:scf'](I, self, optSCF if optSCF is not None else PDict({}))


# opaque Kohn-Sham calculations
def lam(x):
    return NM.lamof(x.c)


def op_ks_density(I, self, ITERATIVE=False, dif=None):
    key = (lam(self.st['veff']), ONE if I.decide(I.truth(ITERATIVE)) else ZERO, Q(dif) if dif is not None else ZERO, sym('id_' + self.name, 'real'))
    for i, j, s in KS.each(self):
        c = s.st['veff'].c
        N = c.shape[0]
        s.st['eig'] = Arr.of((Q(s.st['Nmo']),), lambda t, k2=(NM.lamof(c),) + key[1:]: ext('ks_eig', k2, (t,)), 'f')
    return arr(self.st['veff'].shape, lambda p, s: ext('ks_n', key, (p, s)))


def op_ks_chempot(I, self):
    self.st['u'] = SV(ext('ks_u', tuple(lam(s.st['eig']) for i, j, s in KS.each(self)), ()), 'float')


def op_ks_energy(I, self):
    key = tuple(lam(self.st[q]) for q in ('n', 'vext', 'vhxc', 'vnuc')) + tuple(lam(s.st['eig']) for i, j, s in KS.each(self))
    for q in ('E', 'Ts', 'Enuc', 'Eh', 'Vhxc', 'Ex', 'Ec'):
        self.st['E'].st[q] = SV(ext('ks_E_' + q, key, ()), 'float')


def op_ks_hxc(I, self):
    key = (lam(self.st['n']),)
    sh = self.st['n'].shape
    self.st['vhxc'] = arr(sh, lambda p, s: ext('ks_vhxc', key, (p, s)))
    for q in ('vx', 'vc', 'vh'):
        self.st['V'].st[q] = arr(sh, lambda p, s, q=q: ext('ks_' + q, key, (p, s)))


def op_pp(I, self):
    key = tuple(lam(q.st[a]) for q in frags(self) for a in ('n', 'Q')) + (lam(self.st['nf']),) + tuple(lam(q.st['V'].st['vh']) for q in frags(self))
    sh = self.st['nf'].shape
    f = lambda name: arr(sh, lambda p, s: ext('pp_' + name, key, (p, s)))
    for q in frags(self):
        q.st['V'].st['vp'] = f(q.name)
    self.st['V'].st['vp'] = f('mol')
    if self.st.get('inverter') is not None:
        info = Obj(cls(IM_ + 'orbitalinvert:inversion_info'), dict(nfev=SV(ext('nfev', key, (), 'int'), 'int'), optimality=SV(ext('optimality', key, ()), 'float')), 'info')
        self.st['inversion_info'] = OArr((1, 1), {(0, 0): info})
    return self.st['V'].st['vp']


IM_ = 'CADMium.inverter.'
HIDE.update(ks_density=(K + '.calc_density', op_ks_density), ks_chempot=(K + '.calc_chempot', op_ks_chempot), ks_energy=(K + '.energy', op_ks_energy), ks_hxc=(K + '.calc_hxc_potential', op_ks_hxc),
            pp=(PM + 'partition_potential:partition_potential', op_pp))


def p_orb(val, rng):
    SO._eig_sample(val, rng)
    p_sample(val, rng)
    val.syms.update(h=1, Na=3, Nr=3, Np=9)
    val.fns['mir'] = lambda p: (2 - p % 3) + 3 * (p // 3)
    h = val.fns['H0']
    for t, x in enumerate('aAbB'):
        for j in range(2):
            s = f'{x}_s0{j}_'
            val.fns[s + 'H0'] = lambda p, q, t=t + 4 * j: h(p, q) + 0.07 * t * (p == q)
            val.fns[s + 'optv0'] = lambda p, q: 1.0 + 0 * p
            val.syms.update({s + 'e0': rng.uniform(-3, -1), s + 'Nmo': 1, s + 'N': rng.uniform(0.3, 1)})
    val.syms.update(max_iter=rng.randint(1, 3), alpha=rng.uniform(0.2, 1), alpha2=rng.uniform(0.2, 1), e_tol=rng.choice([1e-7, 0.05, 0.5]), auto_tol_iter=rng.randint(0, 2), tol_orbital=1e-14)


PSCFALL = dict(disp='flag', iterative='flag', auto_tol_iter='int', max_iter='int', e_tol='real', alpha=1)


def scf_case(name, pol, ens, kw, kind='ni', pre=None, noloop=False, fn=PM + 'scf:scf', **o):
    o = dict(dict(kinetic_part_type='vonweiz'), **o)

    def args(k, P):
        d = {}
        for q, v in kw.items():
            lq = q.lower()
            if lq == 'alpha':
                v = PList([k.real('alpha' + (str(i + 1) if i else ''), pos=True) for i in range(v)])
            elif v == 'flag':
                v = k.flag('scf_' + lq)
            elif v == 'int':
                v = k.iv(lq, 0)
            elif v == 'real':
                v = k.real(lq, pos=True)
            d[q] = v
        return [PDict(d)]

    pcase(fn, name, pol, ens, ('ks_density', 'ks_chempot', 'ks_energy', 'ks_hxc', 'pp', 'energy', 'proto', 'Q', 'veff'), kind=kind, pre=pre, args=args, sample=p_orb,
          opts=dict(loop=not noloop, tol=1e-5), disp=False, **dict(dict(ens_spin_sym=False, isolated=False, ab_sym=False), **o))


for _pol in (1, 2):
    for _ens in (False, True):
        for _ab in (False, True):
            scf_case(label(_pol, _ens, 'symmetric' if _ab else 'two fragments'), _pol, _ens, dict(PSCFALL), ab_sym=_ab)
        scf_case(label(_pol, _ens, 'two mixing factors, frozen'), _pol, _ens, dict(PSCFALL, alpha=2, freeze_a='flag', freeze_b='flag', disp=False, iterative=True))
        scf_case(label(_pol, _ens, 'isolated'), _pol, _ens, dict(PSCFALL, disp=False), isolated=True, ab_sym='flag')
    scf_case(label(_pol, False, 'interacting electrons'), _pol, False, dict(PSCFALL), kind='dft', kinetic_part_type='none')
    scf_case(label(_pol, False, 'continuing'), _pol, False, dict(PSCFALL, continuing=True))
    scf_case(label(_pol, False, 'target density'), _pol, False, dict(PSCFALL, from_target_density=True))
    scf_case(label(_pol, False, 'subsystem potentials'), _pol, False, dict(PSCFALL, calc_type='sdft'))
    scf_case(label(_pol, False, 'automatic tolerance'), _pol, False, dict(PSCFALL, auto_tol=True, disp=False, iterative=True))


# with the kinetic energy by inversion: any inverter
def info(n, o):
    return OArr((1, 1), {(0, 0): Obj(cls(IM_ + 'orbitalinvert:inversion_info'), dict(nfev=n, optimality=o), 'info')})


def sc_invert_info(I, self, n0, vs0, phi0=None, e0=None, ispin=0, Qi=None):
    r = sc_invert(I, self, n0, vs0, phi0, e0, ispin, Qi)[1].c
    return (True, info(7, fl(scale(r.get(ONE), 2))))


def sc_invert_info_py(self, n0, vs0, phi0=None, e0=None, ispin=0, Qi=None):
    x = resolve(IM_ + 'orbitalinvert:inversion_info')()
    x.nfev, x.optimality = 7, 2 * sc_invert_py(self, n0, vs0, phi0, e0, ispin, Qi)[1][1]
    r = np.empty((1, 1), dtype=object)
    r[0, 0] = x
    return True, r


def inverted_scf(k, P, pol, sym_=False):
    inverted(k, P, 1, pol, sym_)
    k.script(IV + 'invert', sc_invert_info, sc_invert_info_py)


for _pol in (1, 2):
    scf_case(label(_pol, False, 'inversion'), _pol, False, dict(PSCFALL, iterative=True), pre=lambda k, P, pol=_pol: inverted_scf(k, P, pol), kinetic_part_type='inversion')
    scf_case(label(_pol, True, 'inversion, isolated'), _pol, True, dict(PSCFALL, disp=False), pre=lambda k, P, pol=_pol: inverted_scf(k, P, pol), kinetic_part_type='inversion', isolated=True)
scf_case(label(2, True, 'inversion, symmetric'), 2, True, dict(PSCFALL, disp=False, iterative=True), pre=lambda k, P: inverted_scf(k, P, 2, True), kinetic_part_type='inversion', ens_spin_sym=True, ab_sym=True)
scf_case('option names in capitals', 1, False, {q.upper(): v for q, v in dict(PSCFALL, continuing=True).items()})
scf_case('unknown option', 1, False, dict(max_iter='int', tolerance=1), noloop=True)
scf_case('unknown type', 1, False, dict(max_iter='int', calc_type='ks'), noloop=True)
scf_case('three mixing factors', 1, False, dict(max_iter='int', alpha=3), noloop=True)


# the loop on scripted physics: many iterations (replays only)
def sp_pp(I, self):
    nf, N, pol = self.st['nf'].c, Q(self.st['grid'].st['Nelem']), self.st['pol']
    for q in frags(self):
        c, d = q.st['n'].c, q.st['Q'].c
        q.st['V'].st['vp'] = arr((N, pol), lambda p, s, c=c, d=d: scale(KS.nxt(N, nf, p, s) + c.get(p, s) * d.get(p, s), Fraction(1, 10)))
    self.st['V'].st['vp'] = arr((N, pol), lambda p, s: scale(KS.nxt(N, nf, p, s), Fraction(1, 5)))
    return self.st['V'].st['vp']


def sp_pp_py(self):
    for q in [self.KSa, self.KSb] + ([self.KSA, self.KSB] if self.ens else []):
        q.V.vp = (np.roll(self.nf, -1, axis=0) + q.n * q.Q) / 10
    self.V.vp = np.roll(self.nf, -1, axis=0) / 5
    return self.V.vp


def sp_energy(I, self):
    e, c, fr = self.st['E'].st, self.st['nf'].c, frags(self)
    f = [Q(q.st['E'].st['E']) for q in fr]
    h = len(f) // 2
    e['Ea'], e['Eb'] = fl(sum(f[:h], ZERO)), fl(sum(f[h:], ZERO))
    e['E'] = fl(sum(f, ZERO) - scale(sum((c.get(C(2), C(s)) for s in range(self.st['pol'])), ZERO), Fraction(1, 30)))


def sp_energy_py(self):
    f = [q.E.E for q in ([self.KSa, self.KSA, self.KSb, self.KSB] if self.ens else [self.KSa, self.KSb])]
    h = len(f) // 2
    self.E.Ea, self.E.Eb = sum(f[:h]), sum(f[h:])
    self.E.E = sum(f) - self.nf[2].sum() / 30


def sp_all(k, P):
    KS.script_ks(k)
    k.script(PM + 'partition_potential:partition_potential', sp_pp, sp_pp_py, PT + '.partition_potential')
    k.script(PM + 'energy:energy', sp_energy, sp_energy_py, PT + '.energy')


def sp_sample(val, rng):
    p_orb(val, rng)
    KS.long_history(val, rng)
    val.syms.update(max_iter=rng.choice([3, 15, 30]), alpha2=rng.uniform(0.7, 1))
    val.dists.update({x + '_n': 'pos' for x in 'aAbB'})


def script_case(name, pol, ens, kw, **o):
    def b(k):
        P, g, N = partition(k, pol, ens, 'ni', **dict(dict(ens_spin_sym=False, isolated=False, ab_sym=False, kinetic_part_type='vonweiz', disp=False), **o))
        sp_all(k, P)
        d = {q: PList([k.real('alpha' + (str(i + 1) if i else ''), pos=True) for i in range(v)]) if q == 'alpha' else k.flag('scf_' + q) if v == 'flag' else k.iv(q, 0) if v == 'int' else
             k.real(q, pos=True) if v == 'real' else v for q, v in kw.items()}
        return [P, PDict(d)]
    case(PM + 'scf:scf', 'long histories, ' + name, sample=sp_sample, bounded=True, tol=1e-6)(b)


_long = dict(PSCFALL, disp=False, auto_tol='flag')
for _pol, _ens in ((1, False), (2, False), (2, True)):
    script_case(label(_pol, _ens, 'two fragments'), _pol, _ens, dict(_long, alpha=2, freeze_a='flag', calc_type='sdft' if _ens else 'pdft'))
    script_case(label(_pol, _ens, 'symmetric'), _pol, _ens, dict(_long, continuing='flag'), ab_sym=True, ens_spin_sym=_ens)
script_case(label(1, False, 'isolated'), 1, False, dict(_long), isolated=True)


# the method: the procedure with the given options
def op_scf(I, self, optSCF):
    key = tuple(Q(optSCF.st[q]) for q in sorted(optSCF.st)) or (sym('NOOPTIONS', 'real'),)
    self.st['E'].st['E'] = SV(ext('scf_energy', key, ()), 'float')


def method_scf(pol, kw):
    def b(k):
        P, g, N = partition(k, pol, False, 'ni', ab_sym=False, ens_spin_sym=False, isolated=False, disp=False)
        k.override(PM + 'scf:scf', op_scf)
        hide(k, 'ks_density', 'ks_chempot', 'ks_energy', 'ks_hxc', 'pp', 'energy')
        return [P] + ([] if kw is None else [PDict({q: k.iv(q, 0) if q == 'max_iter' else k.real(q, pos=True) for q in kw})])
    return b


case(PT + '.scf', 'given options', sample=p_orb)(method_scf(1, ('max_iter', 'e_tol')))
case(PT + '.scf', 'no options', sample=p_orb, replay=False)(method_scf(1, None))


# ------------------------------------------------------------------ lemmas over the contracts
def _lemma_partition(L, pol, ens, kind='ni', **o):
    P, g, N = partition(L, pol, ens, kind, **dict(dict(ab_sym=False, ens_spin_sym=False, isolated=False, disp=False), **o))
    return P, g, N


INT_ = 'CADMium.psgrid.psgrid:Psgrid.integrate'
for _pol in (1, 2):
    for _ens in (False, True):
        for _ss in (False, True):
            def _l(L, pol=_pol, ens=_ens, ss=_ss):
                P, g, N = _lemma_partition(L, pol, ens, ens_spin_sym=ss)
                L.call(PT + '.calc_protomolecule', P)
                f = lambda n: Q(L.call(INT_, g, arr((N,), total(n, pol))))
                want = scale(sum((sc(q) * f(q.st['n']) for q in frags(P)), ZERO), 2 if ss else 1)
                L.zero('integral of the promolecule - electrons of the fragments', f(P.st['nf']) - want)
            lemma(f'promolecule has the electrons of the fragments (pol={_pol}, ensemble={_ens}, spin symmetric={_ss})')(_l)

        def _l(L, pol=_pol, ens=_ens):
            P, g, N = _lemma_partition(L, pol, ens)
            L.call(PT + '.calc_protomolecule', P)
            whole = globals()['finite']
            globals()['finite'] = lambda p: p              # where the quotients are finite
            L.call(PT + '.calc_Q', P)
            shares = [q.st['Q'].c for q in frags(P)]
            for s in range(pol):
                p = fresh('p', 'int', (ZERO, N))
                L.zero(f'sum of the shares of spin {s} - 1', sum((c.get(p, C(s)) for c in shares), ZERO) - 1)
            globals()['finite'] = whole
        lemma(f'fragment shares add up to one (pol={_pol}, ensemble={_ens})')(_l)

        def _l(L, pol=_pol, ens=_ens):
            P, g, N = _lemma_partition(L, pol, ens)
            L.call(PT + '.calc_protomolecule', P)
            A, B = proots(P)
            for ks, v in ((A, 'va'), (B, 'vb')):
                c = P.st[v].c
                for q in ks:
                    f = total(q.st['n'], pol)
                    q.st['E'].st['Enuc'] = fl(quad(g, lambda p, f=f, c=c: f(p) * c.get(p)))
            hide(L, 'partition_energy')
            L.call(PM + 'energy:energy', P)
            L.call(PM + 'ep_nuclear:ep_nuclear', P)
            nf, a, b = total(P.st['nf'], pol), P.st['va'].c, P.st['vb'].c
            e = P.st['E'].st
            L.zero('fragment + partition nuclear energies - attraction of the promolecule to both nuclei', Q(e['Enucf']) + Q(e['Ep_pot']) - quad(g, lambda p: nf(p) * (a.get(p) + b.get(p))))
        lemma(f'nuclear energies add up to the molecular one (pol={_pol}, ensemble={_ens})')(_l)
