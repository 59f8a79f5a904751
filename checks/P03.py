"""Operators equal their documented matrix."""
import numpy as np
import jax.numpy as jnp
from symx.runner import Case
from cr.sparse import lop
from .common import *
from . import oplib


def same(op):
    def body(H):
        T = op.build()
        x, y = H.inputs(x=(op.ish, -1, 1, dt(op.cin)), y=(op.osh, -1, 1, dt(op.cout)))
        M = op.M
        u = H.call(T.times, x)
        v = H.call(T.trans, y)
        H.claim("shapes", H.shape(u) == op.osh and H.shape(v) == op.ish)
        e = H.val(M) @ H.val(x).reshape(-1)
        f = H.val(op.MT if op.MT is not None else M.conj().T) @ H.val(y).reshape(-1)
        if "rdot" in op.tags:
            e = H.real(e)
        if "real_trans" in op.tags:
            f = H.real(f)
        H.eq("T x = M x", u, e.reshape(op.osh))
        H.eq("T^H y = M^H y", v, f.reshape(op.ish))
    return body


def inverse(name, f, g, n, cplx=True):
    def body(H):
        A, B = f(), g()
        x = H.inputs(x=((n,), -1, 1, dt(cplx)))
        H.eq("B(A(x)) = x", H.call(lambda x: B.times(A.times(x)), x), H.val(x))
        H.eq("A(B(x)) = x", H.call(lambda x: A.times(B.times(x)), x), H.val(x))
        H.eq("A^H(B^H(x)) = x", H.call(lambda x: A.trans(B.trans(x)), x), H.val(x))
    return body


def param(name, psh, build, matf, n, m, pc, xc):
    """operators with a symbolic parameter (filter taps, diagonal, ...)."""
    def body(H):
        p, x, y = H.inputs(p=(psh, -1, 1, dt(pc)), x=((n,), -1, 1, dt(xc)), y=((m,), -1, 1, dt(xc)))
        M = matf(H, H.val(p))
        u = H.call(lambda p, x: build(p).times(x), p, x)
        v = H.call(lambda p, y: build(p).trans(y), p, y)
        H.eq("T x", u, M @ H.val(x))
        H.eq("T^H y", v, H.conj(M).T @ H.val(y))
    return body


def gen_mat(H, n, m, f):
    Z = H.val(np.zeros((m, n), dtype=complex)).copy() if not H.symbolic else H.val(np.zeros((m, n))).copy()
    for i in range(m):
        for j in range(n):
            v = f(i, j)
            if v is not None:
                Z[i, j] = v
    return Z


def conv_f(h, off):
    return lambda i, j: h[i + off - j] if 0 <= i + off - j < len(h) else None


def cases(tier):
    th = tier == "thorough"
    out = [Case("mat/" + o.name, same(o), budget_s=60) for o in oplib.catalogue(tier) if o.M is not None]
    for n in (1, 2, 3, 5) + ((8, 12) if th else ()):
        out.append(Case("inverse/cumsum-diff-%d" % n, inverse("", lambda n=n: lop.cumsum(n), lambda n=n: lop.diff(n), n)))
        out.append(Case("inverse/heaviside-%d" % n, inverse("", lambda n=n: lop.heaviside(n), lambda n=n: lop.inv_heaviside(n), n)))
    for n in ((2, 3, 4) if not th else (2, 3, 4, 6)):
        for pc in (False, True):
            t = "c" if pc else "r"
            for l in (1, 2, 3):
                for off in range(l):
                    out.append(Case("param/convolve-%d-%d-%d-%s" % (n, l, off, t),
                                    param("", (l,), lambda p, n=n, o=off: lop.convolve(n, p, o), lambda H, p, n=n, o=off: gen_mat(H, n, n, conv_f(p, o)), n, n, pc, True)))
                if l <= n:
                    out.append(Case("param/fir-%d-%d-%s" % (n, l, t),
                                    param("", (l,), lambda p, n=n: lop.fir_filter(n, p), lambda H, p, n=n, l=l: gen_mat(H, n, n, conv_f(p, (l - 1) // 2)), n, n, pc, True)))
            out.append(Case("param/diagonal-%d-%s" % (n, t), param("", (n,), lambda p: lop.diagonal(p), lambda H, p, n=n: gen_mat(H, n, n, lambda i, j: p[i] if i == j else None), n, n, pc, True)))
            out.append(Case("param/scalar-%d-%s" % (n, t), param("", (), lambda p, n=n: lop.scalar_mult(p, n), lambda H, p, n=n: gen_mat(H, n, n, lambda i, j: p.reshape(-1)[0] if i == j else None), n, n, pc, True)))
            out.append(Case("param/matrix-%d-%s" % (n, t), param("", (2, n), lambda p: lop.matrix(p), lambda H, p: p, n, 2, pc, True)))
        out.append(Case("param/real_matrix-%d" % n, param("", (2, n), lambda p: lop.real_matrix(p), lambda H, p: p, n, 2, False, True)))
        for l in range(1, n + 1):
            out.append(Case("param/circulant-%d-%d" % (n, l), param("", (l,), lambda p, n=n: lop.circulant(n, p), lambda H, p, n=n, l=l: gen_mat(H, n, n, lambda i, j: p[(i - j) % n] if (i - j) % n < l else None), n, n, False, False)))
    return out
