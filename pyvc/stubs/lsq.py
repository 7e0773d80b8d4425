"""Stand-in for scipy.optimize.least_squares in replays: one damped gradient step, so that every argument matters.
In proofs its result is an arbitrary function of what the code passes to it."""
import numpy as np


class Result:
    pass


def least_squares(fun, x0, jac='2-point', bounds=None, method='trf', ftol=1e-08, xtol=1e-08, gtol=1e-08, x_scale=1.0, loss='linear', f_scale=1.0, diff_step=None,
                  tr_solver=None, tr_options=None, jac_sparsity=None, max_nfev=None, verbose=0, args=(), kwargs=None):
    f = np.asarray(fun(x0, *args))
    J = np.asarray(jac(x0, *args))
    r = Result()
    d = J.T @ f
    x = x0 - (0.01 + xtol + 2 * gtol + 3 * ftol) * d
    fun(x, *args)
    r.x, r.status, r.nfev, r.optimality = x, 3, 2, np.max(np.abs(d))
    return r
