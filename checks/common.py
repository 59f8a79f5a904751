import numpy as np
import jax
import jax.numpy as jnp
from symx.runner import Case

J = jnp.asarray


def dt(c):
    return np.complex128 if c else np.float64


def inner(H, a, b):
    """<a, b> = sum conj(a) b, as a 1-element array."""
    a, b = H.val(a).reshape(-1), H.val(b).reshape(-1)
    ac = H.conj(a)
    s = 0
    for i in range(len(a)):
        s = s + ac[i] * b[i]
    return np.array([s])


def ct(H, a):
    return H.conj(H.val(a).T)


def mv(H, M, x):
    """constant matrix times symbolic vector -> vector"""
    return H.matvec(M, x)
