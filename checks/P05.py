"""Application along an axis / to many columns equals slice-wise application."""
import numpy as np
import jax.numpy as jnp
from symx.runner import Case
from .common import *
from . import oplib


def axis(op, nd, ax, others):
    def body(H):
        T = op.build(ax) if op.has_axis else op.build()
        T1 = op.build(0) if op.has_axis else T
        ish, osh = list(others), list(others)
        ish.insert(ax, op.ish[0])
        osh.insert(ax, op.osh[0])
        X, Y = H.inputs(X=(tuple(ish), -1, 1, dt(op.cin)), Y=(tuple(osh), -1, 1, dt(op.cout)))
        U, V = H.call(T.times, X), H.call(T.trans, Y)
        H.claim("T X has the data shape", H.shape(U) == tuple(osh))
        H.claim("T^H Y has the model shape", H.shape(V) == tuple(ish))
        for k in np.ndindex(*others):
            idx = list(k)
            idx.insert(ax, slice(None))
            idx = tuple(idx)
            H.eq("T X on slice %s" % (k,), H.val(U)[idx], H.call(lambda X: T1.times(X[idx]), X))
            H.eq("T^H Y on slice %s" % (k,), H.val(V)[idx], H.call(lambda Y: T1.trans(Y[idx]), Y))
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    count = {}
    for o in oplib.catalogue(tier):
        if len(o.ish) != 1 or len(o.osh) != 1 or o.ish[0] < 2 or not o.mat2d:
            continue
        if max(o.ish[0], o.osh[0]) > 8 and not th:
            continue
        fam = o.name.split("/")[0]
        if "dot" == fam:
            continue
        if o.has_axis:
            for ax in (0, 1):
                out.append(Case("%s@2d-%d" % (o.name, ax), axis(o, 2, ax, (2,))))
            count[fam] = count.get(fam, 0) + 1
            if count[fam] <= (3 if not th else 100):
                for ax in (0, 1, 2):
                    out.append(Case("%s@3d-%d" % (o.name, ax), axis(o, 3, ax, (2, 2))))
        else:
            out.append(Case("%s@2d-0" % o.name, axis(o, 2, 0, (2,))))
    return out
