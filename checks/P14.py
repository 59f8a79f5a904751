"""ISTA and FISTA iterations."""
import numpy as np
import jax.numpy as jnp
from cr.sparse._src.sls.ista import ista, ista_jit
from cr.sparse._src.sls.fista import fista, fista_jit
from cr.sparse._src.sls.defs import identity_op, default_threshold
import cr.sparse.lop as lop
from .common import *

TOL = 1e-6
MATS = {
    "m11": [[2.0]],
    "m12": [[1.0, -0.5]],
    "m22": [[1.0, 0.5], [-0.25, 0.75]],
    "m23": [[0.6, 0.8, 0.0], [0.0, -0.6, 0.8]],
    "m32": [[1.0, 0.5], [0.0, 0.75], [0.5, -0.5]],
    "m34": [[0.5, 0.5, 0.5, 0.0], [0.5, -0.5, 0.0, 0.5], [0.0, 0.5, -0.5, 0.5]],
}
CM = {
    "c12": [[1.0 + 0.5j, -0.5j]],
    "c22": [[1.0, 0.5j], [-0.25 + 0.5j, 0.75]],
}
ROT = np.array([[0.6, -0.8], [0.8, 0.6]])
SKEW = np.array([[1.0, 0.5], [0.0, 2.0]])      # a non-orthogonal "basis": times/trans must be used in their own places


def soft(lam):
    def f(i, x):
        if np.iscomplexobj(x):
            a = jnp.abs(x)
            return jnp.where(a > lam, x * (1 - lam / jnp.where(a > lam, a, 1.0)), 0)
        return jnp.maximum(0, x - lam) + jnp.minimum(0, x + lam)
    return f


def decaying(lam):
    """Threshold depends on the iteration number passed by the solver."""
    def f(i, x):
        t = lam / (1.0 + i)
        return jnp.maximum(0, x - t) + jnp.minimum(0, x + t)
    return f


def linear(i, x):
    return 0.5 * x + 0.25 * i


def sc(H, v):
    return H.val(v).reshape(-1)[0]


def step(H, which, A, B, thf, s, i, x, z, r):
    """One documented iteration, from the definition."""
    g = ct(H, A) @ H.val(r)
    y = (z if which == "fista" else x) + s * g
    y = y if B is None else H.conj(B.T) @ y
    a = H.val(H.call(lambda v: thf(i, v), y))
    return a if B is None else B @ a


def solver(which, jit, op, s, thf, basis, rtol, xtol, mi):
    f = {"ista": (ista, ista_jit), "fista": (fista, fista_jit)}[which][jit]
    kw = {}
    def run(b, x0):
        return f(op, b, x0, s, thf, basis, rtol, xtol, mi)
    return run


def iterate(which, A0, iters, s=0.5, thf=None, B=None, rtol=1e-3, xtol=1e-10, jit=False, x0=True, cplx=False, box=1.0, x0c=None, default=False):
    A = np.array(A0)
    m, n = A.shape
    thf = thf or soft(0.25)

    def body(H):
        specs = dict(b=((m,), -box, box, dt(cplx)))
        if x0 is True:
            specs["x0"] = ((n,), -box, box, dt(cplx))
        ins = H.inputs(**specs)
        ins = list(ins) if isinstance(ins, (list, tuple)) else [ins]
        b = ins[0]
        xs = ins[1] if x0 is True else np.array(x0c if x0c is not None else [0.0] * n, dtype=dt(cplx))
        basis = identity_op if B is None else lop.matrix(J(B))
        op = lop.matrix(J(A))
        if default:
            st = H.call(lambda b, x0: (ista if which == "ista" else fista)(op, b, x0, s, max_iters=iters), b, xs)
        else:
            st = H.call(solver(which, jit, op, s, thf, basis, rtol, xtol, iters), b, xs)
        k = int(H.ints(st.iterations))
        H.claim("iterations within the limit", 0 <= k <= iters)
        Av, bv = H.val(A), H.val(b).reshape(-1)
        Bv = None if B is None else H.val(B)
        bb = inner(H, b, b)[0]
        bb = H.real(np.array([bb]))[0]
        x = H.val(xs).reshape(-1)
        z = x
        t = 1.0
        # run the documented recursion k times
        chg = None
        for i in range(k + 1):
            r = bv - Av @ (z if which == "fista" else x)
            rr = H.real(inner(H, r, r))[0]
            conv = H.le(rr, rtol * rtol * bb, 1e-12)
            if chg is not None:
                conv = H.or_(conv, H.le(chg, xtol * xtol, 1e-12))
            go = H.le(rtol * rtol * bb, rr, 1e-12)
            if chg is not None:
                go = H.and_(go, H.le(xtol * xtol, chg, 1e-12))
            if i == k:
                if k < iters:
                    H.claim("stops early only when converged", conv)
                break
            H.claim("continues only while not converged", go)
            xn = step(H, which, Av, Bv, thf, s, i, x, z, r)
            d = xn - x
            chg = H.real(inner(H, d, d))[0]
            if which == "fista":
                tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
                z = xn + ((t - 1) / tn) * (xn - x)
                t = tn
            x = xn
        H.claim("shapes", H.shape(st.x) == (n,) and H.shape(st.r) == (m,))
        H.eq("iterate", H.val(st.x), x, TOL)
        H.eq("residual", H.val(st.r), r, TOL)
        H.eq("residual energy", H.val(st.r_norm_sqr).reshape(-1), np.array([rr]), TOL)
        if which == "fista":
            H.eq("extrapolated point", H.val(st.z), z, TOL)
            H.eq("momentum parameter", H.val(st.t).reshape(-1), np.array([t]), TOL)
        if k:
            c = sc(H, st.x_change_norm)
            H.eq("change norm", np.array([c * c]), np.array([chg]), TOL)
            H.claim("change norm is nonnegative", H.le(0, c, 1e-9))
    return body


def descent(A0, lam, step_frac=1.0):
    """ISTA with step <= 1/L and threshold step*lambda never increases 0.5|b-Ax|^2 + lambda |x|_1."""
    A = np.array(A0)
    m, n = A.shape
    L = np.linalg.norm(A, 2) ** 2
    s = step_frac / L

    def body(H):
        b, x0 = H.inputs(b=((m,), -1, 1), x0=((n,), -1, 1))
        H.assume(H.le(0.01, inner(H, b, b)[0]))
        st = H.call(lambda b, x0: ista(lop.matrix(J(A)), b, x0, s, soft(s * lam), identity_op, 1e-3, 1e-10, 1), b, x0)
        Av, bv = H.val(A), H.val(b).reshape(-1)
        # split on the signs, so that every region is one polynomial
        xn = H.resolve(st.x).reshape(-1)

        def F(x):
            r = bv - Av @ x
            a = H.resolve(H.absv(x))
            t = 0
            for v in a:
                t = t + v
            return 0.5 * inner(H, r, r)[0] + lam * t
        H.claim("objective does not increase", H.le(F(xn), F(H.val(x0).reshape(-1)), 1e-6))
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(timeout_ms=15000, budget_s=400 if th else 120)
    for w in ("ista", "fista"):
        for nm, A in MATS.items():
            big = nm in ("m23", "m34", "m32")
            for it in (0, 1, 2, 3):
                for x0 in (True, False):
                    if it == 3 and (nm not in ("m11", "m12", "m22")) and not th:
                        continue
                    if it >= 2 and x0 and big and not th:
                        continue
                    out.append(Case("%s/soft-%s-it%d%s" % (w, nm, it, "-x0" if x0 else ""),
                                    iterate(w, A, it, 0.5, soft(0.25), x0=x0), **D))
            for it in (1, 2, 3, 4):
                if big and it > 2 and not th:
                    continue
                out.append(Case("%s/linear-%s-it%d" % (w, nm, it), iterate(w, A, it, 0.4, linear, x0=not big), **D))
            for it in (1, 2):
                out.append(Case("%s/jit-%s-it%d" % (w, nm, it), iterate(w, A, it, 0.4, soft(0.125), jit=True, x0=False), **D))
            out.append(Case("%s/rtol-%s" % (w, nm), iterate(w, A, 2, 0.5, soft(0.1), rtol=0.5, x0=False, x0c=[0.5] * len(A[0])), **D))
            out.append(Case("%s/xtol-%s" % (w, nm), iterate(w, A, 3 if not big else 2, 0.25, soft(0.1), xtol=0.5, x0=False), **D))
            out.append(Case("%s/decay-%s" % (w, nm), iterate(w, A, 2, 0.5, decaying(0.5), x0=False), **D))
            out.append(Case("%s/default-%s" % (w, nm), iterate(w, A, 1, 0.5, default_threshold, x0=False, default=True), **D))
        for bn, B in (("rot", ROT), ("skew", SKEW)):
            for nm in ("m12", "m22", "m32"):
                for it in (1, 2):
                    out.append(Case("%s/basis-%s-%s-it%d" % (w, bn, nm, it), iterate(w, MATS[nm], it, 0.5, soft(0.25), B=B, x0=it == 1), **D))
        for nm, A in CM.items():
            out.append(Case("%s/complex-%s" % (w, nm), iterate(w, A, 1, 0.5, soft(0.25), cplx=True), **D))
            out.append(Case("%s/complex-lin-%s" % (w, nm), iterate(w, A, 1, 0.5, linear, cplx=True), **D))
    for nm in ("m11", "m12", "m22"):
        for f in (1.0, 0.5):
            out.append(Case("descent/%s-%g" % (nm, f), descent(MATS[nm], 0.3, f), **D))
    return out
