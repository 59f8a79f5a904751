"""Adjoint pairing."""
import numpy as np
import jax.numpy as jnp
from symx.runner import Case
from . import oplib


def dt(c):
    return np.complex128 if c else np.float64


def inner(H, a, b):
    """<a, b> = sum conj(a) b"""
    a, b = H.val(a).reshape(-1), H.val(b).reshape(-1)
    ac = H.conj(a)
    s = 0
    for i in range(len(a)):
        s = s + ac[i] * b[i]
    return np.array([s])


def pairing(op):
    def body(H):
        T = op.build()
        H.claim("declared shape", tuple(T.input_shape) == op.ish and tuple(T.output_shape) == op.osh)
        x, y = H.inputs(x=(op.ish, -1, 1, dt(op.cin)), y=(op.osh, -1, 1, dt(op.cout and "tv2d" not in op.tags)))
        u = H.call(T.times, x)
        v = H.call(T.trans, y)
        H.claim("output shapes", H.shape(u) == op.osh and H.shape(v) == op.ish)
        l, r = inner(H, u, y), inner(H, x, v)
        if op.tags & {"tv2d", "rdot", "rdotadj"}:
            H.eq("Re <T x, y> = Re <x, T^H y>", H.real(l), H.real(r))
        else:
            H.eq("<T x, y> = <x, T^H y>", l, r)
    return body


def cases(tier):
    return [Case(o.name, pairing(o), budget_s=60) for o in oplib.catalogue(tier)]
