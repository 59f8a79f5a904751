"""Shared pieces of the pursuit checks: unit-norm dictionaries with rational entries, signal families, oracles."""
import numpy as np
import jax.numpy as jnp
import cr.sparse.lop as lop
from .common import *

TOL = 1e-6
GAP = 1e-4

# columns have unit norm
D23 = np.array([[1.0, 0.6, 0.28], [0.0, 0.8, -0.96]])
D34 = np.array([[0.6, 0.0, 1.0, 0.0], [0.8, 5 / 13, 0.0, -0.6], [0.0, 12 / 13, 0.0, 0.8]])
D35 = np.array([[1.0, 0.0, 2 / 3, 2 / 7, -6 / 11], [0.0, 0.6, 1 / 3, 6 / 7, 2 / 11], [0.0, 0.8, -2 / 3, 3 / 7, 9 / 11]])
D45 = np.array([[0.5, 1.0, 0.0, 0.1, 0.7], [0.5, 0.0, 0.6, 0.7, -0.1], [0.5, 0.0, 0.0, -0.5, 0.5], [-0.5, 0.0, 0.8, 0.5, 0.5]])
D68 = np.zeros((6, 8))
D68[:6, :6] = np.eye(6)
D68[:, 6] = np.array([2, 1, 0, 0, 2, 0]) / 3.0
D68[:, 7] = np.array([0, 3, 0, -2, 0, 6]) / 7.0
DICTS = dict(d23=D23, d34=D34, d35=D35, d45=D45, d68=D68)
for _d in DICTS.values():
    assert np.allclose((_d ** 2).sum(0), 1)


def oper(Phi):
    return lop.jit(lop.matrix(jnp.asarray(Phi)))


def signal(H, m, family=None):
    """A symbolic signal of length m, or y = base + B z with a symbolic z for larger m."""
    if family is None:
        y = H.inputs(y=((m,), -1, 1))
        return y
    base, B = family
    z = H.inputs(z=((np.shape(B)[1],), -1, 1))
    return H.call(lambda z: jnp.asarray(base) + jnp.asarray(B) @ z, z)


def sq(H, a):
    return inner(H, a, a)[0]


def res_proj(Phi, S):
    """Matrix of the projection onto the complement of the span of the atoms S."""
    if len(S) == 0:
        return np.eye(Phi.shape[0])
    A = Phi[:, list(S)]
    return np.eye(Phi.shape[0]) - A @ np.linalg.pinv(A)


def absd(H, M, y):
    return H.absv(H.val(np.asarray(M)) @ H.val(y).reshape(-1))


def top(H, v, k):
    """Indices of the k largest entries of |v|, provided there is a gap behind them; assumes the gap."""
    a = H.absv(v)
    idx = list(range(len(a)))
    # insertion sort, descending, on nominal order
    out = []
    for i in idx:
        p = len(out)
        while p > 0 and H.branch(H.lt(a[out[p - 1]], a[i])):
            p -= 1
        out.insert(p, i)
    if k < len(out):
        H.assume(H.le(a[out[k]] + GAP, a[out[k - 1]]))
    return out[:k]


def is_top(H, name, v, I, tol=1e-7):
    """Every selected entry is at least as large (in magnitude) as every other one."""
    a = H.absv(v)
    cs = [H.le(a[j], a[i], tol) for i in I for j in range(len(a)) if j not in I]
    H.claim(name, H.and_(*cs) if cs else True)
