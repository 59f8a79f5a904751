"""Orthonormal bases and tight frames."""
import numpy as np
from symx.runner import Case
from .common import *
from . import oplib


def onb(op):
    def body(H):
        T = op.build()
        x, y = H.inputs(x=(op.ish, -1, 1, dt(op.cin)), y=(op.osh, -1, 1, dt(op.cout)))
        ti, to = op.ish, op.osh
        ni, no = int(np.prod(ti)), int(np.prod(to))
        if "onb" in op.tags or ("tight" in op.tags and ni <= no):
            H.eq("T^H T x = x", H.call(lambda x: T.trans(T.times(x)), x), H.val(x))
            u = H.call(T.times, x)
            H.eq("|T x| = |x|", inner(H, u, u), inner(H, x, x))
        if "onb" in op.tags or ("tight" in op.tags and no <= ni):
            H.eq("T T^H y = y", H.call(lambda y: T.times(T.trans(y)), y), H.val(y))
            v = H.call(T.trans, y)
            H.eq("|T^H y| = |y|", inner(H, v, v), inner(H, y, y))
        if "twoonb" in op.tags:
            H.eq("T T^H y = 2 y", H.call(lambda y: T.times(T.trans(y)), y), H.val(y) * H.val(2.0))
            v = H.call(T.trans, y)
            H.eq("|T^H y|^2 = 2 |y|^2", inner(H, v, v), inner(H, y, y) * H.val(2.0))
    return body


def cases(tier):
    return [Case(o.name, onb(o), budget_s=60) for o in oplib.catalogue(tier) if o.tags & {"onb", "tight", "twoonb"}]
