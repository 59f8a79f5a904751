"""Operator algebra is matrix algebra."""
import numpy as np
import jax
import jax.numpy as jnp
from symx.runner import Case
from cr.sparse import lop
from .common import *
from . import oplib


def alg(name, shapes, build, expr, cplx, nx, my, sq=False):
    """build(*ops) -> Operator, expr(H, *mats) -> matrix (object array)."""
    def body(H):
        specs = {}
        for i, sh in enumerate(shapes):
            specs["A%d" % i] = (sh, -1, 1, dt(cplx))
        specs["x"] = ((nx,), -1, 1, dt(True))
        specs["y"] = ((my,), -1, 1, dt(True))
        specs["X"] = ((nx, 2), -1, 1, dt(True))
        specs["Y"] = ((my, 2), -1, 1, dt(True))
        ins = H.inputs(**specs)
        mats, (x, y, X, Y) = ins[:len(shapes)], ins[len(shapes):]
        mk = lambda *a: build(*[lop.matrix(m) for m in a])
        T0 = build(*[lop.matrix(jnp.zeros(sh, dt(cplx))) for sh in shapes])
        H.claim("declared shape", tuple(T0.shape) == (my, nx))
        H.claim("declared real only if real", (not T0.real) or not cplx or name.startswith("matlike"))
        M = expr(H, *[H.val(m) for m in mats])
        k = len(mats)
        H.eq("T x", H.call(lambda *a: mk(*a[:k]).times(a[k]), *mats, x), M @ H.val(x))
        H.eq("T^H y", H.call(lambda *a: mk(*a[:k]).trans(a[k]), *mats, y), ct(H, M) @ H.val(y))
        H.eq("T X (matrix of columns)", H.call(lambda *a: mk(*a[:k]).times(a[k]), *mats, X), M @ H.val(X))
        H.eq("T^H Y (matrix of columns)", H.call(lambda *a: mk(*a[:k]).trans(a[k]), *mats, Y), ct(H, M) @ H.val(Y))
    return body


def obj_eye(H, n):
    return H.val(np.eye(n))


def matpow(H, A, p):
    R = obj_eye(H, A.shape[0])
    for _ in range(p):
        R = R @ A
    return R


def hstack(H, a, b):
    return np.concatenate([a, b], axis=1)


def vsel(perm, n):
    P = np.zeros((n, n))
    for i, p in enumerate(perm):
        P[i, p] = 1
    return P


def extra(name, op, cplx):
    """column(s), to_matrix, jit, times_2d on one operator of the catalogue (1-D spaces)."""
    def body(H):
        T = op.build()
        n, m = op.ish[0], op.osh[0]
        x, y = H.inputs(x=(op.ish, -1, 1, dt(op.cin)), y=(op.osh, -1, 1, dt(op.cout)))
        M = H.val(H.call(lambda: lop.to_matrix(T)))
        H.claim("to_matrix shape", M.shape == (m, n))
        H.eq("to_matrix(T) x = T x", M @ H.val(x), H.call(T.times, x))
        MH = H.val(H.call(lambda: lop.to_adjoint_matrix(T)))
        H.eq("to_adjoint_matrix(T) y = T^H y", MH @ H.val(y), H.call(T.trans, y))
        if op.cin and op.mat2d:
            H.eq("to_complex_matrix", H.call(lambda: lop.to_complex_matrix(T)), M)
        for i in range(n):
            H.eq("column(%d)" % i, H.call(lambda i=i: T.column(i)), M[:, i])
        if op.mat2d:
            idx = [n - 1, 0] if n > 1 else [0]
            H.eq("columns(%s)" % idx, H.call(lambda: T.columns(jnp.array(idx))), M[:, idx])
        Tj = lop.jit(T)
        H.eq("jit times", H.call(Tj.times, x), H.call(T.times, x))
        H.eq("jit trans", H.call(Tj.trans, y), H.call(T.trans, y))
        H.claim("jit keeps shape and flags", Tj.shape == T.shape and Tj.real == T.real and Tj.linear == T.linear and Tj.matrix_safe == T.matrix_safe)
        Tt = lop.transpose(T)
        H.claim("transpose shape", tuple(Tt.shape) == (n, m))
        if op.cin:
            yc = y
            H.eq("transpose times", H.call(Tt.times, yc), M.T @ H.val(yc))
            H.eq("transpose trans", H.call(Tt.trans, x), H.conj(M) @ H.val(x))
        Th = lop.adjoint(T)
        H.eq("adjoint times", H.call(Th.times, y), H.call(T.trans, y))
        H.eq("adjoint trans", H.call(Th.trans, x), H.call(T.times, x))
        H.claim("adjoint shape", tuple(Th.shape) == (n, m))
        G = lop.gram(T)
        H.eq("gram", H.call(G.times, x), H.call(T.trans, H.call(T.times, x)))
        Fr = lop.frame(T)
        H.eq("frame", H.call(Fr.times, y), H.call(T.times, H.call(T.trans, y)))
        H.claim("gram/frame shape", tuple(G.shape) == (n, n) and tuple(Fr.shape) == (m, m))
    return body


def twod(op):
    def body(H):
        T = op.build()
        X, Y = H.inputs(X=(op.ish + (2,), -1, 1, dt(op.cin)), Y=(op.osh + (2,), -1, 1, dt(op.cout)))
        a, b = H.call(T.times_2d, X), H.call(T.trans_2d, Y)
        for k in range(2):
            H.eq("times_2d column %d" % k, H.val(a)[:, k], H.call(lambda X: T.times(X[:, k]), X))
            H.eq("trans_2d column %d" % k, H.val(b)[:, k], H.call(lambda Y: T.trans(Y[:, k]), Y))
    return body


def flags(H):
    """Composite operators keep the properties of their parts."""
    R = lop.real(3)
    P = lop.pad_zeros(3, 1, 1)
    A = lop.matrix(jnp.ones((3, 3)))
    C = lop.matrix(jnp.ones((3, 3)) + 1j)
    x = H.inputs(x=((3,), -1, 1))
    for nm, f in (("neg", lop.neg), ("scale", lambda T: lop.scale(T, 2.)), ("adjoint", lop.adjoint), ("hermitian", lop.hermitian),
                  ("power", lambda T: lop.power(T, 2)), ("transpose", lop.transpose), ("jit", lop.jit),
                  ("add", lambda T: lop.add(T, A)), ("add2", lambda T: lop.add(A, T)), ("sub", lambda T: T - A), ("sub2", lambda T: A - T),
                  ("compose", lambda T: T @ A), ("compose2", lambda T: A @ T), ("partial", lambda T: lop.partial_op(T, jnp.arange(2))),
                  ("hcat", lambda T: lop.hcat(T, A)), ("hcat2", lambda T: lop.hcat(A, T))):
        H.claim("%s: a non-linear part makes the result non-linear" % nm, not f(R).linear)
        H.claim("%s: linear parts give a linear result" % nm, f(A).linear)
        H.claim("%s: complex parts give a complex result" % nm, not f(C).real)
        H.claim("%s: real parts give a real result" % nm, f(A).real)
    N = P._replace(jit_safe=False)
    for nm, f in (("neg", lop.neg), ("scale", lambda T: lop.scale(T, 2.)), ("adjoint", lop.adjoint), ("add", lambda T: T + T), ("sub", lambda T: T - T),
                  ("compose", lambda T: lop.identity(5) @ T), ("hcat", lambda T: lop.hcat(T, T)), ("gram", lop.gram), ("frame", lop.frame), ("transpose", lop.transpose),
                  ("partial", lambda T: lop.partial_op(T, jnp.arange(2)))):
        H.claim("%s keeps matrix_safe" % nm, not f(N).matrix_safe)
        H.claim("%s keeps jit_safe" % nm, not f(N).jit_safe)
    H.claim("input is live", H.le(H.val(x)[0], 1))


def cases(tier):
    out = []
    th = tier == "thorough"
    I = lambda H, A: A
    for c in (False, True):
        t = "c" if c else "r"
        def A(name, shapes, build, expr, nx, my):
            out.append(Case("alg/%s-%s" % (name, t), alg(name, shapes, build, expr, c, nx, my), budget_s=90))
        sz = [(2, 3), (3, 2)] if not th else [(2, 3), (3, 2), (3, 3), (1, 2)]
        for m, n in sz:
            k = "%dx%d" % (m, n)
            A("matrix" + k, [(m, n)], lambda a: a, I, n, m)
            A("neg" + k, [(m, n)], lambda a: -a, lambda H, a: -a, n, m)
            A("scale" + k, [(m, n)], lambda a: lop.scale(a, -1.5), lambda H, a: a * H.val(-1.5), n, m)
            A("hermitian" + k, [(m, n)], lop.hermitian, ct, m, n)
            A("adjoint" + k, [(m, n)], lop.adjoint, ct, m, n)
            A("transpose" + k, [(m, n)], lop.transpose, lambda H, a: a.T, m, n)
            A("add" + k, [(m, n), (m, n)], lambda a, b: a + b, lambda H, a, b: a + b, n, m)
            A("sub" + k, [(m, n), (m, n)], lambda a, b: a - b, lambda H, a, b: a - b, n, m)
            A("compose" + k, [(m, n), (n, 2)], lambda a, b: a @ b, lambda H, a, b: a @ b, 2, m)
            A("gram" + k, [(m, n)], lop.gram, lambda H, a: ct(H, a) @ a, n, n)
            A("frame" + k, [(m, n)], lop.frame, lambda H, a: a @ ct(H, a), m, m)
            A("hcat" + k, [(m, n), (m, 2)], lop.hcat, hstack, n + 2, m)
        A("transpose_adjoint", [(2, 2)], lambda a: lop.transpose(lop.adjoint(a)), lambda H, a: H.conj(a), 2, 2)
        A("adjoint_transpose", [(2, 3)], lambda a: lop.adjoint(lop.transpose(a)), lambda H, a: H.conj(a), 3, 2)
        A("compose3", [(2, 2), (2, 1), (1, 2)], lambda a, b, d: a @ b @ d, lambda H, a, b, d: a @ b @ d, 2, 2)
        A("addcompose", [(2, 2), (2, 2)], lambda a, b: a @ b + b, lambda H, a, b: a @ b + b, 2, 2)
        A("hcatcompose", [(2, 2), (2, 2), (4, 1)], lambda a, b, d: lop.hcat(a, b) @ d, lambda H, a, b, d: hstack(H, a, b) @ d, 1, 2)
        for p in range(0, 4 if not c else 3):
            A("power%d" % p, [(2, 2)], lambda a, p=p: a ** p, lambda H, a, p=p: matpow(H, a, p), 2, 2)
        for picks in ([0, 2], [2, 0, 1], [1]):
            s = "".join(map(str, picks))
            A("partial%s" % s, [(3, 2)], lambda a, q=picks: lop.partial_op(a, jnp.array(q)), lambda H, a, q=picks: a[q], 2, len(picks))
            for perm in ([1, 2, 0], [0, 2, 1]):
                A("partial%s-perm%s" % (s, "".join(map(str, perm))), [(3, 3)], lambda a, q=picks, r=perm: lop.partial_op(a, jnp.array(q), jnp.array(r)),
                  lambda H, a, q=picks, r=perm: a[q] @ H.val(vsel(r, 3)), 3, len(picks))
        A("scalecomplex", [(2, 2)], lambda a: lop.scale(a, 0.5 - 2j), lambda H, a: a * H.val(0.5 - 2j), 2, 2)
        A("scalecomplexT", [(2, 2)], lambda a: lop.transpose(lop.scale(a, jnp.asarray(0.5 - 2j))), lambda H, a: (a * H.val(0.5 - 2j)).T, 2, 2)
        A("block_diag", [(2, 1), (1, 2)], lambda a, b: lop.block_diag([a, b]), lambda H, a, b: bdo(H, a, b), 3, 3)
        A("block_diagT", [(2, 1), (1, 2)], lambda a, b: lop.transpose(lop.block_diag([a, b])), lambda H, a, b: bdo(H, a, b).T, 3, 3)
    for o in oplib.catalogue(tier):
        if len(o.ish) == 1 and len(o.osh) == 1 and not o.name.startswith("convolveND") and "rdot" not in o.tags and "rdotadj" not in o.tags and max(o.ish[0], o.osh[0]) <= (8 if not th else 16):
            out.append(Case("mat/" + o.name, extra(o.name, o, o.cin), budget_s=60))
            if o.ish[0] <= 4 and o.ish[0] > 1:
                out.append(Case("2d/" + o.name, twod(o), budget_s=60))
    out.append(Case("flags", flags))
    return out


def bdo(H, a, b):
    m, n = a.shape[0] + b.shape[0], a.shape[1] + b.shape[1]
    M = H.val(np.zeros((m, n)) * (1 + 0j)) if not H.symbolic else H.val(np.zeros((m, n)))
    M = M.copy()
    M[:a.shape[0], :a.shape[1]] = a
    M[a.shape[0]:, a.shape[1]:] = b
    return M
