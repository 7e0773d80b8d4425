BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=[('CADMium/' + f, o, n) for f, o, n in edits], needs=needs, breaks=breaks, demo=demo))


SOLVER = '''
from CADMium.pssolver.pssolver import i_solver
def make_solver(g, Nmo, N, m, pol, **opt):
    s = i_solver(g, Nmo, N, m, pol, opt)
    s.phi = np.random.rand(g.Nelem, Nmo) + 0.1
    s.eig = np.sort(-np.random.rand(Nmo))
    s.veff = -np.random.rand(g.Nelem)
    return s
'''
bug('density-fraction', 'C09', [('pssolver/calc_density.py', "            Nocc = np.floor(self.N/2)\n            nu = self.N / 2 - Nocc\n\n    #Construct", "            Nocc = np.floor(self.N/2)\n            nu = self.N - 2 * Nocc\n\n    #Construct")],
    'fractional occupation, spin-polarised, non-zero angular momentum and a non-integer filling',
    'the density no longer integrates to the number of electrons of the solver', SOLVER + '''
g = make_grid(factor=False)
for m, pol, N in [(0, 1, 3.4), (0, 2, 1.7), (1, 1, 5.2), (1, 2, 3.3), (2, 2, 2.0)]:
    s = make_solver(g, 3, N, m, pol, fractional=True)
    s.calc_density()
    close(g.integrate(s.n), N, f'density integrates to N (m={m}, pol={pol}, N={N})')
''')
bug('homo-partial', 'C10', [('pssolver/get_homo.py', "    if nu != 0:\n        Nocc = Nocc+1\n", "    if nu > 0.5:\n        Nocc = Nocc+1\n")],
    'an orbital filled less than half', 'the highest occupied level ignores an orbital that is less than half filled', SOLVER + '''
g = make_grid(factor=False)
for m, pol, N, k in [(0, 1, 2.0, 0), (0, 1, 2.6, 1), (0, 2, 1.3, 1), (1, 1, 4.8, 1), (0, 2, 2.0, 1)]:
    s = make_solver(g, 3, N, m, pol, fractional=True)
    close(s.get_homo(), s.eig[k], f'highest occupied level (m={m}, pol={pol}, N={N})')
''')
bug('integrate-last-row', 'C08', [('hartree/hartree.py', "        b[:, -1-self.grid.bcN+1:] = b[:, -1-self.grid.bcN+1:] - bQ", "        b[:, -self.grid.bcN:] = b[:, -self.grid.bcN:] - bQ[:, ::-1]")],
    'a stencil with more than one boundary row', 'the boundary source terms of the Poisson equation are applied to the wrong radial rows', '''
from CADMium.hartree.hartree import Hartree
from scipy.special import lpmv
from scipy.sparse.linalg import spsolve
g = make_grid(3, (3, 5), h=3)
n = np.random.rand(g.Nelem, 1)
v = Hartree(g).v_hartree(n)
def sph(A, R):
    r = g.a * np.sqrt(np.cosh(R) ** 2 + np.cos(A) ** 2 - 1)
    return r, g.a * np.cosh(R) * np.cos(A) / r
r, t = sph(g.Xa, g.Xr)
br, bt = sph(g.bXa, g.bXr)
out = sum(g.integrate(r ** k * lpmv(0, k, t) * n[:, 0]) / br ** (k + 1) * lpmv(0, k, bt) for k in range(8))
b = -4 * np.pi * g.w * n[:, 0]
b[-g.Na * g.bcN:] -= g.blap @ out
close(g.elap @ v[:, 0], b, 'Laplacian of the Hartree potential', 1e-6)
''')

bug('fd-wide-stencil', 'C03', [('common/finite_difference_coefficients.py', "        if np.abs(c[i]) < 1e-10:", "        if np.abs(c[i]) < 1e-3:")],
    'a stencil with five or more neighbours on each side', 'outer finite-difference coefficients of wide stencils are dropped', '''
from CADMium.common.finite_difference_coefficients import finite_difference_coefficients as fd
for h in (1, 2, 4, 5, 6):
    x = np.arange(-h, h + 1)
    for d in (1, 2):
        c = fd(x, d)
        for p in range(2 * h + 1):
            close((c * x.astype(float) ** p).sum() / max(1, h ** (p - d)), (d if d == 1 else 2) * (p == d), f'moment {p} of derivative {d} on {2*h+1} points', 1e-6)
''')
bug('spinflip-column', 'C05', [('psgrid/spinflip.py', "        return np.flip(fin, axis=1)", "        return fin[:, [1, 0]] if fin.shape[1] > 1 else fin[::-1]")],
    'a density stored as a single column', 'spin flip of a one-column density reorders its grid points', '''
g = make_grid()
for k in (1, 2):
    f = np.random.rand(g.Nelem, k)
    close(g.spinflip(f), f[:, ::-1], f'spin flip of {k} columns')
''')
bug('coulomb-abs', 'C07', [('common/coulomb.py', "(Za - Zb) * np.cos(grid.Xa))", "abs(Za - Zb) * np.cos(grid.Xa))")],
    'nucleus B heavier than nucleus A', 'the heavier nucleus always sits at the side of nucleus A', '''
from CADMium.common.coulomb import coulomb
g = make_grid()
rho = g.Y
for Za, Zb in [(1, 1), (3, 1), (1, 3), (0, 2)]:
    v = -Za / np.sqrt(rho ** 2 + (g.Z + g.a) ** 2) - Zb / np.sqrt(rho ** 2 + (g.Z - g.a) ** 2)
    w = coulomb(g, Za, Zb)
    close(w, v, f'external potential of {Za}, {Zb}')
''')
bug('sigma-down', 'C06', [('psgrid/sigma.py', "sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) ** 2", "sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) * (self.gradr @ n[:, 0])")],
    'a density that differs between the spins', 'the down-down contracted gradient mixes in the up density', '''
g = make_grid()
n = np.random.rand(g.Nelem, 2)
s = g.sigma(n)
for k, (i, j) in enumerate([(0, 0), (0, 1), (1, 1)]):
    close(s[:, k], (g.grada @ n[:, i]) * (g.grada @ n[:, j]) + (g.gradr @ n[:, i]) * (g.gradr @ n[:, j]), f'contracted gradient {i}{j}')
''')
bug('energy-fraction-level', 'C10', [('pssolver/calc_energy.py', "        self.eks += nu * self.eig[int(Nocc)]", "        self.eks += nu * self.eig[max(int(Nocc) - 1, 0)]")],
    'fractional occupation on top of at least one full orbital', 'the partially filled orbital contributes the energy of the level below it', SOLVER + '''
g = make_grid(factor=False)
for m, pol, N in [(0, 1, 2.0), (0, 1, 3.0), (0, 2, 0.5), (1, 1, 5.2), (2, 2, 3.0)]:
    s = make_solver(g, 3, N, m, pol, fractional=True)
    s.calc_energy()
    w = (2 if pol == 1 else 1) * (2 if m else 1)
    occ = np.clip(N / w - np.arange(3), 0, 1)
    close(s.eks, w * (occ * s.eig).sum(), f'orbital energy (m={m}, pol={pol}, N={N})')
''')
bug('iter-shift', 'C12', [('pssolver/iter_orbitals.py', "                uno = Hks - W * self.eig[j]", "                uno = Hks - W * self.eig[0]")],
    'more than one orbital in the solver', 'the Newton step of every orbital is linearised around the lowest level', SOLVER + '''
g = make_grid(3, (2, 3), h=1)
s = make_solver(g, 2, 4, 0, 1)
s.hamiltonian()
s.calc_orbitals()
e, p = s.eig.copy(), s.phi.copy()
s.phi = s.phi + 1e-3 * np.random.rand(*s.phi.shape)
s.normalize_orbitals()
s.eig = s.eig + 1e-3
phi0, eig0 = s.phi.copy(), s.eig.copy()
s.iter_orbitals(0, None)
H = (s.H0 + np.diag(g.w * s.veff))
H = np.asarray(H)
W = np.diag(g.w)
out = []
for j in range(2):
    A = np.zeros((g.Nelem + 1,) * 2)
    A[:-1, :-1] = H - W * eig0[j]
    A[:-1, -1] = A[-1, :-1] = -W @ phi0[:, j]
    A[-1, -1] = -1e-12
    x = np.linalg.solve(A, np.append(H @ phi0[:, j] - eig0[j] * W @ phi0[:, j], 0))
    close(s.eig[j], eig0[j] - x[-1], f'updated level {j}', 1e-5)
''')
bug('response-fraction-level', 'C13', [('pssolver/calc_response.py', "        #Left hand side\n        G = H - W * self.eig[j]", "        #Left hand side\n        G = H - W * self.eig[j - 1]")],
    'fractional occupation with at least one full orbital', 'the partially filled orbital responds with the level below it', SOLVER + '''
g = make_grid(3, (2, 3), h=1)
s = make_solver(g, 2, 3.0, 0, 1, fractional=True)
s.hamiltonian()
s.calc_orbitals()
s.calc_response()
H = np.asarray(s.H0 + np.diag(g.w * s.veff))
W = np.diag(g.w)
chi = 0
for j, f in ((0, 1.0), (1, 0.5)):
    phi = s.phi[:, j] / g.integrate(s.phi[:, j] ** 2) ** .5
    A = np.zeros((g.Nelem + 1,) * 2)
    A[:-1, :-1] = -(H - W * s.eig[j])
    A[:-1, -1] = A[-1, :-1] = W @ phi
    x = np.linalg.solve(A, np.vstack([W @ np.diag(phi), np.zeros(g.Nelem)]))
    chi = chi + 2 * 2 * f * np.diag(phi) @ x[:-1]
close(np.asarray(s.chi), chi, 'response matrix', 1e-6)
''')

KSAT = '''
from types import SimpleNamespace as NS
'''
PART = '''
from types import SimpleNamespace as NS
import io, contextlib
from CADMium.partition.partition import Partition
def make_partition(g, Za, Zb, pol, ens=False, nu=(1.0, 1.0), **opt):
    row = [[1] * pol]
    cell = [row, row] if ens else row
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        P = Partition(g, Za, Zb, pol, cell, cell, nu[0], cell, cell, nu[1], opt)
    P.ks = [P.KSa, P.KSA, P.KSb, P.KSB] if ens else [P.KSa, P.KSb]
    for k in P.ks:
        k.n = np.random.rand(g.Nelem, pol) + 0.1
        k.Q = np.random.rand(g.Nelem, pol)
        k.veff = -np.random.rand(g.Nelem, pol)
        k.vext = np.random.rand(g.Nelem, pol)
        k.vhxc = np.random.rand(g.Nelem, pol)
        k.u = -np.random.rand()
        for q in ('vh', 'vx', 'vc', 'vp', 'ex', 'ec', 'eh'):
            setattr(k.V, q, np.random.rand(g.Nelem, pol))
        for q in ('E', 'Ts', 'Eks', 'Enuc', 'Ex', 'Ec', 'Eh', 'Vhxc'):
            setattr(k.E, q, float(np.random.rand()))
        k.E.evals = np.random.rand(2)
    return P
g = make_grid(3, (2, 3), h=1)
'''
bug('gga-cross-term', 'C14', [('libxc/libxc.py', "- (self.grid.diva @ (vsigma[:,1] * (self.grid.grada @ n[:,0]))", "- (self.grid.diva @ (vsigma[:,1] * (self.grid.grada @ n[:,1]))")],
    'a spin-polarised GGA at a density that differs between the spins', 'the cross term of the down-spin GGA potential uses the wrong spin density', '''
from CADMium.libxc.libxc import Libxc
class Kind(LibXCFunctional):
    def compute(self, inp):
        n, s = inp['rho'], inp['sigma']
        return {'zk': n.sum(axis=1, keepdims=True), 'vrho': 1.0 * n, 'vsigma': 0.3 * s + 0.1}
import CADMium.libxc.libxc as mod
mod.Functional = Kind
g = make_grid()
n = np.random.rand(g.Nelem, 2) + 0.1
e, v = Libxc(g, 'gga', 101).get_xc(n)
vs = 0.3 * g.sigma(n) + 0.1
div = lambda f, c: g.diva @ (f * (g.grada @ n[:, c])) + g.divr @ (f * (g.gradr @ n[:, c]))
for s in (0, 1):
    close(v[:, s], n[:, s] - 2 * div(vs[:, 2 * s], s) - div(vs[:, 1], 1 - s), f'GGA potential of spin {s}')
''')
bug('ks-conv-spin', 'C16', [('kohnsham/scf.py', "        dif_n = np.max(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )", "        dif_n = np.min(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )")],
    'a spin-polarised calculation in which one spin density settles before the other', 'the self-consistency stops when the better converged spin has converged', '''
from types import SimpleNamespace as NS
from CADMium.kohnsham.scf import scf
g = make_grid(3, (2, 3), h=1)
import io, contextlib
def run(pol):
    k = NS(grid=g, pol=pol, n=None, vnuc=np.zeros((g.Nelem, pol)), vext=None, Nmo=np.array([[1] * pol]), E=NS(E=-1.0), u=0., steps=0)
    k.solver = np.empty((1, pol), dtype=object)
    for j in range(pol):
        k.solver[0, j] = NS(setveff=lambda v: None)
    base = np.random.rand(g.Nelem, pol) + 1
    k.set_effective_potential = lambda: None
    k.calc_hxc_potential = lambda: setattr(k, 'vhxc', np.zeros((g.Nelem, pol)))
    k.energy = k.calc_chempot = lambda: None
    def calc_density(**o):
        k.steps += 1
        out = base.copy()
        out[:, -1] *= 1 + 0.5 ** k.steps
        return out
    k.calc_density = calc_density
    with contextlib.redirect_stdout(io.StringIO()):
        scf(k, dict(disp=False, alpha=1.0, e_tol=1e-4))
    return k.steps
close(run(1), run(2), 'number of iterations when the last spin converges slowly')
''')
bug('ks-auto-reset', 'C16', [('kohnsham/scf.py', "            if diff < min_dif:\n                num_iter_not_min = 0\n", "            if diff < min_dif:\n                num_iter_not_min = max(num_iter_not_min - 1, 0)\n")],
    'automatic tolerance and at least two iterations without improvement followed by an improvement', 'the count of iterations without improvement is not restarted', '''
from types import SimpleNamespace as NS
from CADMium.kohnsham.scf import scf
import io, contextlib
g = make_grid(3, (2, 3), h=1)
k = NS(grid=g, pol=1, n=None, vnuc=np.zeros((g.Nelem, 1)), vext=None, Nmo=np.array([[1]]), E=NS(E=0.0), u=0., steps=0)
k.solver = np.empty((1, 1), dtype=object)
k.solver[0, 0] = NS(setveff=lambda v: None)
k.set_effective_potential = lambda: None
k.calc_hxc_potential = lambda: setattr(k, 'vhxc', np.zeros((g.Nelem, 1)))
k.calc_chempot = lambda: None
k.calc_density = lambda **o: np.ones((g.Nelem, 1))
rel = [1e-6, 2e-6, 2e-6, 5e-7, 6e-7, 6e-7, 6e-7, 6e-7, 6e-7]
def energy():
    d = ([0.5] + rel + [1e-8] * 60)[k.steps]
    k.E.E = (k.E.E if k.steps else 1.0) / (1 - d)
    k.steps += 1
k.energy = energy
with contextlib.redirect_stdout(io.StringIO()):
    scf(k, dict(disp=False, alpha=1.0, e_tol=1e-5, auto_tol=True, auto_tol_iter=3, maxiter=40))
close(k.steps, 8, 'stops after three iterations in a row without improvement')
''')
bug('scale-halves', 'C18', [('partition/partition.py', "                self.KSB.scale = self.KSB.scale / 2.0", "                self.KSB.scale = self.KSA.scale")],
    'a spin-symmetric ensemble with different mixing ratios', 'the second member of fragment B gets the weight of the one of fragment A', PART + '''
for nu in ((0.3, 0.3), (0.2, 0.7)):
    P = make_partition(g, 1, 1, 2, True, nu, ens_spin_sym=True, interaction_type='ni')
    close([k.scale for k in P.ks], [(1 - nu[0]) / 2, nu[0] / 2, (1 - nu[1]) / 2, nu[1] / 2], f'ensemble weights of {nu}')
''')
bug('mirror-ensemble', 'C19', [('partition/partition.py', "            KSb[i].vext = self.grid.mirror(KSa[i].vext).copy()", "            KSb[i].vext = self.grid.mirror(KSa[0].vext).copy()")],
    'A/B symmetry in an ensemble whose members have different external potentials', 'the second member of fragment B inherits the external potential of the first member of A', PART + '''
for ens in (False, True):
    P = make_partition(g, 1, 1, 2, ens, (0.5, 0.5) if ens else (1.0, 1.0), ab_sym=True, interaction_type='ni')
    P.mirrorAB()
    h = len(P.ks) // 2
    for A, B in zip(P.ks[:h], P.ks[h:]):
        for q in ('n', 'Q', 'veff', 'vext'):
            close(getattr(B, q), g.mirror(getattr(A, q)), f'mirror image of {q} (ensemble {ens})')
''')
bug('fragment-double', 'C20', [('partition/energy.py', "        Tsb       *= 2.0\n        Eksb      *= 2.0\n        Enucb     *= 2.0\n", "        Tsb       *= 2.0\n        Eksb      *= 2.0\n        Enucb      = 2.0 * Enuca if self.optPartition.ab_sym else Enucb + Enuca / 2.0\n")],
    'a spin-symmetric calculation whose fragments have different nuclear energies', 'the nuclear energy of fragment B is doubled with that of fragment A', PART + '''
for ss in (False, True):
    P = make_partition(g, 1, 2, 2, ens_spin_sym=ss, interaction_type='dft', isolated=True)
    P.energy()
    f = 2 if ss else 1
    for q, a in (('Tsf', 'Ts'), ('Enucf', 'Enuc'), ('Exf', 'Ex'), ('Ecf', 'Ec'), ('Ehf', 'Eh'), ('Vhxcf', 'Vhxc'), ('Ef', 'E')):
        close(getattr(P.E, q), f * sum(k.scale * getattr(k.E, a) for k in P.ks), f'{q} (spin symmetric {ss})')
''')
bug('ked-share', 'C21', [('partition/ep_kinetic.py', "            tsf += iKS.scale * np.sum( iKS.Q, axis=1 ) * iKS.V.ts[:,0]", "            tsf += iKS.scale * iKS.Q[:,0] * iKS.Q.shape[1] * iKS.V.ts[:,0]")],
    'a spin-polarised partition with a kinetic functional whose shares differ between the spins', 'only the first spin share weighs the fragment kinetic energy density', PART + '''
for pol in (1, 2):
    P = make_partition(g, 1, 1, pol, kinetic_part_type='libxcke', interaction_type='ni')
    P.calc_protomolecule()
    P.vp_kinetic()
    P.ep_kinetic()
    close(P.V.ep_kin, P.tsm[:, 0] - sum(k.scale * k.Q.sum(axis=1) * k.V.ts[:, 0] for k in P.ks), f'kinetic energy density (pol={pol})')
''')
bug('ens-hartree-pairs', 'C22', [('partition/EnsCorHar.py', "        self.KSA.V.vhcor = self.KSb.V.vh\n        self.KSb.V.vhcor = self.KSA.V.vh\n", "        self.KSA.V.vhcor = self.KSB.V.vh\n        self.KSb.V.vhcor = self.KSa.V.vh\n")],
    'an ensemble whose members have different Hartree potentials', 'the correlated Hartree potentials pair members that the energy does not pair', PART + '''
P = make_partition(g, 1, 1, 2, True, (0.4, 0.4), hxc_part_type='overlap_hxc')
P.EnsCorHar()
d = np.random.rand(g.Nelem, 2)
for a, b in ((P.KSa, P.KSB), (P.KSA, P.KSb), (P.KSb, P.KSA), (P.KSB, P.KSa)):
    close(a.V.vhcor, b.V.vh, 'correlated Hartree potential')
    close(a.E.Ehcor, g.integrate((a.n * a.V.vhcor).sum(axis=1)) / 2, 'correlated Hartree energy')
''')
bug('overlap-derivative', 'C22', [('partition/vp_overlap.py', "        KSb.V.dFdn = 2 * np.pi**(-0.5) * np.exp( -(const * self.E.S)**2 ) * const * KSb.V.dSdn ", "        KSb.V.dFdn = KSa.V.dFdn * np.sum(self.na_frac, axis=1)[:,None] / np.sum(self.nb_frac, axis=1)[:,None] if KSb.scale == KSa.scale else 2 * np.pi**(-0.5) * np.exp( -const * self.E.S**2 ) * const * KSb.V.dSdn ")],
    'fragments with different mixing ratios', 'the derivative of the overlap weight with respect to the densities of fragment B has the wrong exponent', PART + '''
for nu in ((0.5, 0.5), (0.3, 0.8)):
    P = make_partition(g, 1, 1, 1, True, nu, hxc_part_type='overlap_hxc')
    for k in P.ks:
        k.n *= 0.2 / g.integrate(k.n[:, 0])
    P.calc_protomolecule()
    P.vp_overlap()
    for k in P.ks:
        close(k.V.dFdn, 4 / np.pi ** .5 * np.exp(-(2 * P.E.S) ** 2) * k.V.dSdn, f'derivative of the overlap weight {nu}')
''')
bug('vp-part-mirror', 'C23', [('partition/partition_potential.py', "            self.V.vp_kin = 0.5 * ( self.V.vp_kin + self.grid.mirror(self.V.vp_kin) )", "            self.V.vp_kin = 0.5 * ( self.V.vp_kin + self.grid.mirror(self.V.vp_pot) )")],
    'A/B symmetry and a kinetic part', 'the kinetic part of the global partition potential is averaged with the mirrored nuclear part', PART + '''
P = make_partition(g, 1, 1, 1, ab_sym=True)
P.calc_protomolecule()
P.partition_potential()
V = P.V
close(V.vp, V.vp_pot + V.vp_kin + V.vp_hxc, 'partition potential is the sum of its parts', 1e-6)
''')
bug('freeze-member', 'C24', [('partition/scf.py', "        self.KSB.V.frozen = optSCF.freeze_b", "        self.KSB.V.frozen = optSCF.freeze_a")],
    'one frozen fragment in an ensemble', 'the second member of fragment B is frozen with fragment A', PART + '''
for fa, fb in ((False, True), (True, False), (True, True)):
    P = make_partition(g, 1, 1, 1, True, (0.5, 0.5), interaction_type='ni', kinetic_part_type='none')
    P.energy = lambda: setattr(P.E, 'E', -1.0)
    for k in P.ks:
        k.calc_density = lambda *a, k=k: k.n
        k.calc_chempot = lambda: None
        k.energy = lambda: None
    with contextlib.redirect_stdout(io.StringIO()):
        P.scf(dict(freeze_a=fa, freeze_b=fb, max_iter=2))
    for k, f in zip(P.ks, (fa, fa, fb, fb)):
        close(float(bool(k.vext.any())), float(not f), f'external potential kept exactly when frozen ({fa}, {fb})')
''')
bug('stop-promolecule', 'C24', [('partition/scf.py', "        old_nf = self.nf\n\n        if optSCF.auto_tol", "        old_nf = self.nf\n        old_E  = 0.0 if self.ens and self.optPartition.fixed_q is False else self.E.E\n\n        if optSCF.auto_tol")],
    'an ensemble', 'the energy change of an ensemble is measured against zero, so the self-consistency never ends before the limit', PART + '''
for ens in (False, True):
    P = make_partition(g, 1, 1, 1, ens, (0.5, 0.5) if ens else (1.0, 1.0), interaction_type='ni', kinetic_part_type='none')
    count = []
    def energy(P=P, count=count):
        count.append(1)
        P.E.E = -1.0 - 0.1 ** len(count)
    P.energy = energy
    for k in P.ks:
        k.calc_density = lambda *a, k=k: k.n
        k.calc_chempot = lambda: None
        k.energy = lambda: None
    with contextlib.redirect_stdout(io.StringIO()):
        P.scf(dict(max_iter=30, e_tol=1e-6))
    close(len(count), 7, f'iterations until the energy settles (ensemble {ens})')
''')
INV = '''
from types import SimpleNamespace as NS
from CADMium.inverter.inverter import Inverter
g = make_grid(3, (2, 3), h=1)
def make_inverter(M, pol, **opt):
    sol = np.empty((M, pol), dtype=object)
    for i in range(M):
        for j in range(pol):
            s = NS(Nmo=1, n=np.random.rand(g.Nelem, 1), chi=np.random.rand(g.Nelem, g.Nelem), Ts=np.random.rand(1, 1), veff=None)
            s.setveff = lambda v, s=s: setattr(s, 'veff', v)
            s.calc_orbitals = s.calc_density = s.calc_energy = s.calc_response = lambda *a: None
            sol[i, j] = s
    V = Inverter(g, sol, opt)
    V.n0 = np.random.rand(g.Nelem, pol)
    V.vs = np.random.rand(g.Nelem, pol)
    V.us = np.random.rand(1, pol)
    V.B = np.diag(np.random.rand(g.Nelem))
    return V
'''
bug('inverse-mirror', 'C25', [('inverter/inverter.py', "        if self.optInv.ab_sym is True:\n            n = 0.5 * (n + self.grid.mirror(n))\n", "        if self.optInv.ab_sym is True and self.solver.shape[1] == 1:\n            n = 0.5 * (n + self.grid.mirror(n))\n")],
    'A/B symmetry with two spins', 'the density of a symmetric inversion is not symmetrised when there are two spins', INV + '''
for pol in (1, 2):
    for sym in (False, True):
        V = make_inverter(2, pol, ab_sym=sym)
        v = np.random.rand(g.Nelem)
        for s in range(pol):
            n = sum(V.solver[i, s].n[:, 0] for i in range(2))
            x = v
            if sym:
                n, x = (n + g.mirror(n[:, None])[:, 0]) / 2, (v + g.mirror(v[:, None])[:, 0]) / 2
            close(V.Ws(v[:, None] if False else v, s), np.append(V.B @ (n - V.n0[:, s]), x[-1]), f'residual (pol={pol}, symmetric={sym}, spin {s})')
''')
bug('inverter-kinetic', 'C25', [('inverter/get_Ts.py', "            Ts += 2 * np.sum( self.solver[i,0].Ts )", "            Ts += 2 * np.sum( self.solver[0,0].Ts )")],
    'a spin-symmetric ensemble with more than one angular momentum', 'the kinetic energy counts the first angular momentum again instead of the others', INV + '''
for M in (1, 2):
    for ss in (False, True):
        V = make_inverter(M, 2, ens_spin_sym=ss)
        T = sum(2 * V.solver[i, 0].Ts.sum() if ss else V.solver[i, 0].Ts.sum() + V.solver[i, 1].Ts.sum() for i in range(M))
        close(V.get_Ts(), T, f'kinetic energy ({M} angular momenta, spin symmetric {ss})')
''')
bug('rule-truncated', 'C02', [('common/NC.py', "    b = 1./(n_p+1) * (N-1)**(n_p+1)\n    w = np.linalg.lstsq(A,b, rcond=None)", "    b = 1./(n_p+1) * (N-1)**(n_p+1)\n    w = np.linalg.lstsq(A,b, rcond=1e-6)")],
    'integration blocks of many points', 'the closed rule of a block loses its exactness for blocks of many points', """
from CADMium.common.NC import NC
for N in (3, 4, 5, 6, 7, 8):
    A = np.vander(np.arange(N) / (N - 1.0), increasing=True).T
    w = np.linalg.solve(A, 1 / (np.arange(N) + 1.0)) * (N - 1)
    W = NC(N, 3)
    close(W[N - 1 + 1:2 * (N - 1)], w[1:-1], f'closed rule of {N} points', 1e-5)
""")
bug('boundary-rows', 'C04', [('psgrid/operators.py', "    bLr = self.a * (  np.diagflat(np.sinh(Xr1d[0][-self.bcN:])) @ self.bc2  ", "    bLr = self.a * (  np.diagflat(np.sinh(Xr1d[0][:self.bcN])) @ self.bc2  ")],
    'a grid with more radial points than boundary rows', 'the boundary Laplacian takes its coefficients from the rows at the bond instead of the outermost ones', '''
for h in (1, 2, 3):
    g = make_grid(3, (3, 5), h=h, factor=False)
    x = np.sinh(g.xr[-g.bcN:])[:, None] * g.bc2 + np.cosh(g.xr[-g.bcN:])[:, None] * g.bc1
    close(g.blap.toarray(), np.kron(g.a * x, np.diag(np.sin(g.xa))), f'boundary Laplacian ({h} rows)')
''')
bug('outside-points', 'C01', [('psgrid/initialize.py', "    self.bXr = np.linspace(1, self.bcN,self.bcN)*self.hr + self.xr[-1]", "    self.bXr = (np.linspace(1, self.bcN,self.bcN) + self.bcN - 0.5)*self.hr")],
    'a grid with more radial points than boundary rows', 'the points outside the box do not continue the radial mesh', """
for NP, NM, h in ((3, (3, 4), 2), (2, (3, 3), 4), (2, (4, 5), 3)):
    g = make_grid(NP, NM, h=h, factor=False)
    close(g.bXr, np.repeat(g.xr[-1] + g.hr * np.arange(1, g.bcN + 1), g.Na), f'outside points {NP}, {NM}')
""")
bug('ked-partial', 'C11', [('pssolver/calc_ked_WFI.py', "        self.ked_WFI += nu * ( phi_norm * (self.H0 @ phi_norm) ) / self.grid.w[:, None]", "        self.ked_WFI += nu * ( phi_norm * (self.H0 @ self.phi[:, int(Nocc)][:, None]) ) / self.grid.w[:, None]")],
    'fractional occupation of an orbital that is not normalised', 'the partially filled orbital enters the kinetic energy density half normalised', SOLVER + """
g = make_grid(3, (2, 3), h=1)
for m, pol, N in ((0, 1, 2.0), (0, 1, 3.0), (0, 2, 1.5), (1, 1, 6.0), (1, 2, 2.5)):
    s = make_solver(g, 2, N, m, pol, fractional=True)
    s.hamiltonian()
    s.calc_ked_WFI()
    s.calc_energy()
    w = (2 if pol == 1 else 1) * (2 if m else 1)
    occ = np.clip(N / w - np.arange(2), 0, 1)
    phi = s.phi / np.sqrt([g.integrate(s.phi[:, k] ** 2) for k in range(2)])
    close(s.ked_WFI[:, 0], w * (occ * phi * np.asarray(s.H0 @ phi)).sum(axis=1) / g.w, f'kinetic energy density (m={m}, pol={pol}, N={N})')
""")
ORB = SOLVER + '''
from CADMium.inverter.inverter import Inverter
g = make_grid(3, (2, 3), h=1)
def make_inverter(m, pol, N, Nmo, **opt):
    sol = np.empty((1, pol), dtype=object)
    for j in range(pol):
        sol[0, j] = make_solver(g, Nmo, N, m, pol, fractional=True)
        sol[0, j].hamiltonian()
    return Inverter(g, sol, dict(invert_type='orbitalinvert', **opt))
import warnings
warnings.simplefilter('ignore')
'''
bug('newton-norms', 'C26', [('inverter/orbitalinvert.py', "    B3v = np.reshape(-WWi @ phi[:,:np.sum(Nmo)-1], ((np.sum(Nmo)-1)*Nelem, 1), order=\"F\")", "    B3v = np.reshape(-WWi @ phi[:,1:np.sum(Nmo)], ((np.sum(Nmo)-1)*Nelem, 1), order=\"F\")")],
    'two or more orbitals', 'the Newton step couples every eigenvalue to the orbital after its own', '''
from CADMium.inverter.orbitalinvert import kmatrix
from scipy.sparse import csc_matrix, diags
for N, M in ((5, 1), (6, 2), (4, 3)):
    T = M * N + M - 1 + N
    x, n0, occ = np.random.rand(T, 1) + 0.2, np.random.rand(N), np.full((M, 1), 2.0)
    W, H = diags(np.random.rand(N) + 0.1).tocsc(), csc_matrix(np.kron(np.eye(M), np.random.rand(N, N)))
    col = lambda a: np.array(a, dtype=float).astype(int)[:, None]
    idx = [col(range(M * N)), col(np.tile(range(N), M)), col(range((M - 1) * N)), col(np.repeat(range(M - 1), N))]
    f = lambda y: kmatrix(y, np.zeros((0, 1)), N, np.array([M]), W, H, n0, occ, *idx)
    J = f(x)[0]
    D = np.column_stack([(f(x + 1e-5 * e[:, None])[1] - f(x - 1e-5 * e[:, None])[1]) / 2e-5 for e in np.eye(T)])
    s = np.ones(T)
    close(np.abs(J), np.abs(D), f'matrix of the Newton step ({M} orbitals)', 1e-5)
''')
bug('inversion-other-spin', 'C26', [('inverter/orbitalinvert.py', "                for i in isolver:\n                    i.setveff(self.vs[:, ispin])", "                for i in isolver:\n                    i.setveff(self.vs[:, 0])")],
    'inverting the second spin, in an iteration that recomputes the orbitals', 'the orbitals of the second spin are recomputed in the potential of the first', ORB + '''
for s in (0, 1):
    V = make_inverter(0, 2, 1.0, 1, max_iter_invert=6, res_factor=1e6, tol_invert=1e-13)
    q = V.solver[0, s]
    seen, real = [], q.setveff
    def setveff(v):
        seen.append((np.array(v), np.array(V.vs[:, s])))
        real(v)
    q.setveff = setveff
    V.invert(np.random.rand(V.grid.Nelem) + 0.5, np.zeros((V.grid.Nelem, 1)), np.zeros(0), np.zeros(0), s)
    for k, (a, b) in enumerate(seen):
        close(a, b, f'potential the orbitals of spin {s} are computed in (call {k})')
''')
bug('inversion-filling', 'C26', [('inverter/orbitalinvert.py', "                nu = N[it] / 2 - np.floor(N[it] / 2)\n\n            if nu != 0:\n                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu\n\n\n", "                nu = N[it] - np.floor(N[it])\n\n            if nu != 0:\n                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu\n\n\n")],
    'spin-polarised, non-zero angular momentum, last orbital not full', 'an orbital of non-zero angular momentum that is half full is inverted as full', ORB + '''
for m, pol, N in ((0, 1, 3.0), (0, 2, 1.5), (1, 1, 6.0), (1, 2, 3.0), (2, 2, 2.5)):
    full = (2 if m == 0 else 4) / pol
    M = int(np.ceil(N / full))
    V = make_inverter(m, pol, N, M, max_iter_invert=1)
    q = V.solver[0, 0]
    occ = np.clip(N - full * np.arange(M), 0, full)
    V.invert(np.random.rand(V.grid.Nelem) + 0.5, np.zeros((V.grid.Nelem, 1)), np.zeros(0), np.zeros(0), 0)
    close([V.grid.integrate(q.phi[:, k] ** 2) for k in range(M)], occ, f'electrons of the orbitals (m={m}, pol={pol}, N={N})')
''')
KIN = PART + '''
def make_inversion(pol, ens, homos, **opt):
    P = make_partition(g, 1, 1, pol, ens, (0.4, 0.4) if ens else (1.0, 1.0), kinetic_part_type='inversion', **opt)
    for k, h in zip(P.ks, homos):
        k.E.Ts = float(np.random.rand())
        for j in range(pol):
            s = k.solver[0, j]
            s.homo = h[j]
            s.hamiltonian()
            s.phi, s.eig = np.random.rand(g.Nelem, 1) + 0.1, -np.random.rand(1)
    P.nf = np.random.rand(g.Nelem, pol) + 0.5
    vt, ts = np.random.rand(g.Nelem, pol), np.random.rand(g.Nelem, pol)
    info = np.array([[NS(nfev=1, optimality=0.0)]], dtype=object)
    P.initialguessinvert = lambda s: (np.ones((g.Nelem, 1)), np.zeros(1), np.zeros((g.Nelem, 1)))
    P.inverter = NS(optInv=NS(avoid_loop=False, ab_sym=False, ens_spin_sym=False), solver=np.empty((1, 2), dtype=object), vs=np.zeros((g.Nelem, 2)), us=np.zeros((1, 2)),
                    invert=lambda *a: (1, info), get_vt=lambda: vt, get_ts_WFI=lambda: ts, get_Ts=lambda: 1.5)
    return P
'''
bug('kin-highest-level', 'C21', [('partition/vp_kinetic.py', "                        ua = np.max( (ua, self.KSA.solver[i,j].homo) )", "                        ua = self.KSA.solver[i,j].homo")],
    'kinetic potential by inversion of an ensemble in which the level of the first member of fragment A is the highest', 'the Euler equation of the members uses a level that is not the highest one', KIN + '''
for homos in ([(-0.1, -0.6)], [(-0.7, -0.2)], [(-0.9, -0.8)]):
    for ens in (False, True):
        h = (homos + [(-0.3, -0.4), (-0.5, -0.45), (-0.35, -0.6)]) if ens else homos + [(-0.3, -0.4)]
        P = make_inversion(2, ens, h)
        P.vp_kinetic()
        for k in P.ks:
            close(k.V.vt, np.max(h) - k.veff, f'kinetic potential of a member (levels {h})')
''')
bug('kin-density-history', 'C21', [('partition/ep_kinetic.py', "                    i_KS.solver[i,j].calc_ked_WFI()\n", "                    if i_KS.solver[i,j].ked_WFI is None:\n                        i_KS.solver[i,j].calc_ked_WFI()\n")],
    'kinetic energy by inversion, evaluated again after the orbitals changed', 'the kinetic energy density of the members is that of the orbitals of the first evaluation', KIN + '''
P = make_inversion(2, False, [(-0.3, -0.4), (-0.4, -0.2)])
for step in range(3):
    P.ep_kinetic()
    tsm = P.inverter.get_ts_WFI().sum(axis=1) / P.nf.sum(axis=1)
    tsf = 0
    for k in P.ks:
        for j in range(2):
            s = k.solver[0, j]
            phi = s.phi[:, 0] / np.sqrt(g.integrate(s.phi[:, 0] ** 2))
            tsf = tsf + k.scale * k.Q.sum(axis=1) * phi * np.asarray(s.H0 @ phi) / g.w / k.n.sum(axis=1)
    close(P.V.ep_kin[:, 0], tsm - tsf, f'kinetic energy density (evaluation {step})')
    for k in P.ks:
        for j in range(2):
            k.solver[0, j].phi = np.random.rand(g.Nelem, 1) + 0.1
''')
bug('inversion-failures', 'C24', [('partition/scf.py', "            max_nfev = 0\n", "            max_nfev = inversionfailures = 0\n")],
    'molecular inversions that fail in several iterations in a row', 'the procedure goes on although the molecular inversion keeps failing', KIN + '''
for bad in ([0, 1, 0, 1, 1], [1, 0, 0, 1, 0, 1, 1], [1, 1]):
    P = make_inversion(1, False, [(-0.3,), (-0.4,)], interaction_type='ni')
    P.optPartition.isolated = False
    P.calc_nuclear_potential()
    done = []
    def vp(P=P, done=done, bad=bad):
        P.inversion_info = np.array([[NS(nfev=1, optimality=2.0 if bad[len(done)] else 1e-9)]], dtype=object)
        done.append(1)
        return np.zeros((g.Nelem, 1))
    P.partition_potential = vp
    P.energy = lambda P=P: setattr(P.E, 'E', float(np.random.rand()))
    for k in P.ks:
        k.calc_density = lambda *a: np.random.rand(g.Nelem, 1) + 0.1
        k.calc_chempot = k.calc_hxc_potential = k.set_effective_potential = k.energy = lambda: None
        k.vhxc = np.zeros((g.Nelem, 1))
    P.calc_Q = lambda: None
    stopped = False
    try:
        P.scf(dict(disp=False, max_iter=len(bad), e_tol=0.0))
    except SystemExit:
        stopped = True
    assert stopped and len(done) == len(bad), f'inversions that failed: {bad}; stopped: {stopped} after {len(done)}'
''')
bug('hartree-history', 'C15', [('kohnsham/kohnsham.py', "            self.V.vh = self.hartree.v_hartree(self.n)\n            self.V.eh = 0.5 * self.V.vh[:,0]\n            self.E.Eh = self.grid.integrate(np.sum(self.n, axis=1) * self.V.eh)\n\n            self.E.Ex, self.V.ex, self.V.vx = self.exchange.get_xc(self.n, return_epsilon=True)\n            self.E.Ec, self.V.ec, self.V.vc = self.correlation",
    "            if getattr(self.V, 'vh', None) is None:\n                self.V.vh = self.hartree.v_hartree(self.n)\n            self.V.eh = 0.5 * self.V.vh[:,0]\n            self.E.Eh = self.grid.integrate(np.sum(self.n, axis=1) * self.V.eh)\n\n            self.E.Ex, self.V.ex, self.V.vx = self.exchange.get_xc(self.n, return_epsilon=True)\n            self.E.Ec, self.V.ec, self.V.vc = self.correlation")],
    'a density that changed after its potential was calculated, as mixing does', 'the Hartree energy is evaluated with the potential of an earlier density', '''
from CADMium.kohnsham.kohnsham import Kohnsham
from types import SimpleNamespace as NS
g = make_grid(3, (2, 3), h=1)
K = Kohnsham(g, 1, 1, 1, [[1]], [[2]], {})
s = K.solver[0, 0]
s.phi, s.eig, s.veff = np.random.rand(g.Nelem, 1), -np.random.rand(1), np.random.rand(g.Nelem)
K.exchange = K.correlation = NS(get_xc=lambda n, return_epsilon=False: (0.0, n * 0, n * 0) if return_epsilon else (0.0, n * 0))
K.vext = np.zeros((g.Nelem, 1))
for step in range(3):
    K.n = np.random.rand(g.Nelem, 1) + 0.1
    K.calc_hxc_potential()
    K.n = 0.5 * K.n + 0.5 * np.random.rand(g.Nelem, 1)
    K.energy()
    close(K.E.Eh, 0.5 * g.integrate(K.n[:, 0] * K.hartree.v_hartree(K.n)[:, 0]), f'Hartree energy (step {step})')
''')
bug('solver-spins', 'C17', [('pssolver/pssolver.py', "                                i, Nmo.shape[1], optSolver) ", "                                i, Nmo.shape[0], optSolver) ")],
    'a number of angular momenta that differs from the number of spins', 'the solvers take the number of angular momenta for the number of spins', '''
from CADMium.kohnsham.kohnsham import Kohnsham
g = make_grid(3, (2, 3), h=1)
for Nmo, pol in (([[1]], 1), ([[1, 1]], 2), ([[1], [1]], 1), ([[1, 1], [1, 1]], 2), ([[2], [1], [1]], 1)):
    K = Kohnsham(g, 1, 1, pol, Nmo, (np.array(Nmo) * 0 - 1).tolist(), {})
    for i in range(len(Nmo)):
        for j in range(pol):
            s = K.solver[i, j]
            assert (s.m, s.pol, s.N) == (i, pol, Nmo[i][j] * (2 if pol == 1 else 1)), (Nmo, s.m, s.pol, s.N)
''')
bug('angular-parity', 'C12', [('pssolver/pssolver.py', "        if np.mod(self.m, 2) == 0:\n", "        if self.m == 0:\n")],
    'angular momentum two or a higher even one', 'orbitals of even angular momentum above zero get the odd Laplacian', SOLVER + '''
g = make_grid(3, (2, 3), h=1)
for m in range(5):
    s = make_solver(g, 1, 1, m, 1)
    s.hamiltonian()
    close(s.H0.toarray(), (-0.5 * (g.olap if m % 2 else g.elap)).toarray() + m ** 2 * np.diag(g.w * g.f), f'base Hamiltonian (m={m})')
''')
