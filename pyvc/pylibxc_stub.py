"""Stand-in for the pylibxc package, which is not installed here: an arbitrary smooth pointwise functional."""
import numpy as np


def term(kind, k, fid, spin, *x):
    """value of output `kind`, component k, at density/gradient components x (arrays or numbers)"""
    y = 0.37 * fid + 0.11 * spin + 1.3 * k + {'zk': 0.0, 'vrho': 0.7, 'vsigma': 1.9}[kind]
    for j, v in enumerate(x):
        y = y + (0.41 + 0.17 * j) * v / (1 + abs(v))
    return np.sin(y)


class LibXCFunctional:
    def __init__(self, func_name, spin):
        if spin not in (1, 2):
            raise ValueError('spin must be 1 or 2')
        self.func_name = func_name
        self.spin = spin

    def get_family(self):
        return 1

    def compute(self, inp, output=None, do_exc=True, do_vxc=True, do_fxc=False, do_kxc=False, do_lxc=False):
        pol = self.spin
        rho = np.asarray(inp['rho'], float).reshape(-1, pol)
        x = [rho[:, i] for i in range(pol)]
        ns = 0
        if 'sigma' in inp:
            ns = 1 if pol == 1 else 3
            sg = np.asarray(inp['sigma'], float).reshape(-1, ns)
            x += [sg[:, i] for i in range(ns)]
        f = lambda kind, n: np.stack([term(kind, k, self.func_name, pol, *x) for k in range(n)], axis=1)
        out = {'zk': f('zk', 1), 'vrho': f('vrho', pol)}
        if ns:
            out['vsigma'] = f('vsigma', ns)
        return out
