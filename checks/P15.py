"""LSQR, power iterations and norm estimation."""
import numpy as np
import jax.numpy as jnp
from cr.sparse._src.sls.lsqr import lsqr, lsqr_jit
from cr.sparse._src.sls.power import power_iterations, power_iterations_jit
from cr.sparse._src.lop.normest import normest
from cr.sparse._src.lop.props import upper_frame_bound
import cr.sparse.lop as lop
from .common import *

TOL = 1e-6
MATS = {
    "m11": [[2.0]],
    "m21": [[1.0], [-0.5]],
    "m22": [[1.0, 0.5], [-0.25, 0.75]],
    "d22": [[2.0, 0.0], [0.0, 1.0]],
    "m32": [[1.0, 0.5], [0.0, 0.75], [0.5, -0.5]],
    "m23": [[0.6, 0.8, 0.0], [0.0, -0.6, 0.8]],
}
CM = {"c22": [[1.0, 0.5j], [-0.25 + 0.5j, 0.75]]}


FAM = {
    1: [([0.0], [1.0])],
    2: [([1.0, 0.5], [0.5, -0.5]), ([0.0, 1.0], [1.0, 0.0])],
    3: [([1.0, 0.5, -0.5], [0.0, 0.5, 0.5]), ([0.5, 0.0, 1.0], [1.0, -0.5, 0.0])],
}


def sc(H, v):
    return H.val(v).reshape(-1)[0]


def nsq(H, v):
    return H.real(inner(H, v, v))[0]


def lsqr_step(A0, damp=0.0, x0=None, jit=False, cplx=False, iters=2, fam=0):
    """One LSQR step: exact damped line search along A^H r0 and true norms."""
    A = np.array(A0)
    m, n = A.shape

    def body(H):
        # a line of right-hand sides: base + z * direction
        z = H.inputs(z=((), -1, 1))
        base, dr = FAM[m][fam]
        b = H.call(lambda z: J(np.array(base)) + z * J(np.array(dr)), z)
        x0v = np.zeros(n, dtype=dt(cplx)) if x0 is None else np.array(x0, dtype=dt(cplx))
        Av, bv = H.val(A), H.val(b).reshape(-1)
        r0 = bv - Av @ H.val(x0v)
        g = ct(H, A) @ r0
        # away from a zero gradient
        H.assume(H.le(0.1, H.absv(g[:1])[0]))
        op = lop.matrix(J(A))
        f = lsqr_jit if jit else lsqr
        sol = H.call(lambda b: f(op, b, J(x0v), damp, 1e-8, 1e-8, 1e8, iters), b)
        k = int(H.ints(sol.iterations))
        H.claim("one step is taken", k == 2)
        H.claim("operator counts", int(H.ints(sol.n_times)) == k and int(H.ints(sol.n_trans)) == k)
        d = H.val(sol.x).reshape(-1) - H.val(x0v)
        gg = nsq(H, g)
        Ag = Av @ g
        den = nsq(H, Ag) + damp * damp * gg
        # d = (gg / den) g
        H.eq("step", np.array([q * den for q in d]), np.array([gg * q for q in g]), TOL)
        # norms at x = x0 + t g, t = gg/den: |r|^2 + damp^2 |d|^2 = |r0|^2 - gg^2/den
        rn = sc(H, sol.r_norm)
        H.eq("residual norm", np.array([rn * rn * den]), np.array([nsq(H, r0) * den - gg * gg]), TOL)
        xn = sc(H, sol.x_norm)
        H.eq("solution norm", np.array([xn * xn * den * den]), np.array([gg * gg * gg]), TOL)
        an = sc(H, sol.atr_norm)
        w = [den * g[i] - gg * (ct(H, A) @ Ag)[i] - damp * damp * gg * g[i] for i in range(n)]
        H.eq("normal residual norm", np.array([an * an * den * den]), np.array([nsq(H, np.array(w))]), TOL)
        for q in (rn, xn, an):
            H.claim("norms are nonnegative", H.le(0, q, 1e-9))
    return body


def lsqr_exact(A0, damp=0.0, fam=0):
    """As many steps as columns solve the (damped) least squares problem."""
    A = np.array(A0)
    m, n = A.shape

    def body(H):
        z = H.inputs(z=((), -1, 1))
        base, dr = FAM[m][fam]
        b = H.call(lambda z: J(np.array(base)) + z * J(np.array(dr)), z)
        Av, bv = H.val(A), H.val(b).reshape(-1)
        g = ct(H, A) @ bv
        H.assume(H.le(0.1, H.absv(g[:1])[0]))
        sol = H.call(lambda b: lsqr(lop.matrix(J(A)), b, jnp.zeros(n), damp, 0.0, 0.0, 1e8, n + 1), b)
        k = int(H.ints(sol.iterations))
        H.claim("iterations within the limit", 1 <= k <= n + 1)
        x = H.val(sol.x).reshape(-1)
        H.eq("normal equations", ct(H, A) @ (Av @ x) + damp * damp * x, g, TOL)
    return body


def lsqr_scaled(A0, b0, damp, x0, steps, jit=False):
    """Several steps for every scaling of a right-hand side: LSQR minimises over the Krylov space."""
    A, b0 = np.array(A0), np.array(b0)
    m, n = A.shape

    def body(H):
        s = H.inputs(s=((), 0.5, 2))
        x0v = H.call(lambda s: s * J(np.array(x0 if x0 is not None else [0.0] * n)), s)
        b = H.call(lambda s: s * J(b0), s)
        f = lsqr_jit if jit else lsqr
        op = lop.matrix(J(A))
        sol = H.call(lambda b, x0: f(op, b, x0, damp, 0.0, 0.0, 1e8, steps + 1), b, x0v)
        k = int(H.ints(sol.iterations))
        H.claim("iterations", k == steps + 1)
        H.claim("operator counts", int(H.ints(sol.n_times)) == k and int(H.ints(sol.n_trans)) == k)
        d = H.val(sol.x).reshape(-1) - H.val(x0v).reshape(-1)
        r0 = H.val(b).reshape(-1) - H.val(A) @ H.val(x0v).reshape(-1)
        # reference: exact minimiser over the Krylov space of (A^T A, A^T r0), r0 = s * rho
        rho = b0 - A @ np.array(x0 if x0 is not None else [0.0] * n)
        K, g = [], A.T @ rho
        for i in range(steps):
            K.append(g / np.linalg.norm(g))
            g = A.T @ (A @ K[-1])
        Q = np.linalg.qr(np.array(K).T)[0]
        M = np.vstack([A @ Q, damp * Q])
        c = Q @ np.linalg.lstsq(M, np.concatenate([rho, np.zeros(n)]), rcond=None)[0]
        sv = sc(H, s)
        H.eq("minimiser over the Krylov space", d, np.array([sv * float(q) for q in c]), TOL)
        rn = float(np.linalg.norm(np.concatenate([rho - A @ c, damp * c])))
        H.eq("residual norm", H.val(sol.r_norm).reshape(-1), np.array([sv * rn]), TOL)
        H.eq("solution norm", H.val(sol.x_norm).reshape(-1), np.array([sv * float(np.linalg.norm(c))]), TOL)
        an = float(np.linalg.norm(A.T @ (rho - A @ c) - damp * damp * c))
        H.eq("normal residual norm", H.val(sol.atr_norm).reshape(-1), np.array([sv * an]), TOL)
        if steps == n:
            fn = float(np.sqrt(np.linalg.norm(A) ** 2 + n * damp ** 2))
            H.eq("Frobenius norm estimate", H.val(sol.A_norm).reshape(-1), np.array([fn]), TOL)
    return body


def lsqr_start(A0, x0):
    """max_iters = 1 returns the starting point with its norms."""
    A = np.array(A0)
    m, n = A.shape

    def body(H):
        b, x0v = H.inputs(b=((m,), -1, 1), x0=((n,), -1, 1))
        Av, bv = H.val(A), H.val(b).reshape(-1)
        r = bv - Av @ H.val(x0v).reshape(-1)
        g = ct(H, A) @ r
        H.assume(H.le(0.25, H.absv(g[:1])[0]))
        sol = H.call(lambda b, x0: lsqr(lop.matrix(J(A)), b, x0, max_iters=1), b, x0v)
        H.claim("no iteration", int(H.ints(sol.iterations)) == 1)
        H.eq("x = x0", H.val(sol.x), H.val(x0v), TOL)
        for nm, v, w in (("residual norm", sol.r_norm, r), ("normal residual norm", sol.atr_norm, g), ("solution norm", sol.x_norm, x0v)):
            q = sc(H, v)
            H.eq(nm, np.array([q * q]), np.array([nsq(H, w)]), TOL)
            H.claim("norms are nonnegative", H.le(0, q, 1e-9))
    return body


def lsqr_tol(A0, btol, atol):
    """A tolerance looser than the starting point stops the solver at once."""
    A = np.array(A0)
    m, n = A.shape

    def body(H):
        b = H.inputs(b=((m,), -1, 1))
        g = ct(H, A) @ H.val(b).reshape(-1)
        H.assume(H.le(0.25, H.absv(g[:1])[0]))
        sol = H.call(lambda b: lsqr(lop.matrix(J(A)), b, jnp.zeros(n), 0.0, atol, btol, 1e8, 3), b)
        H.claim("stops at the start", int(H.ints(sol.iterations)) == 1)
        H.eq("x = x0", H.val(sol.x), np.zeros(n), TOL)
    return body


SYM = {
    "s22": [[2.0, 0.5], [0.5, 1.0]],
    "s22b": [[1.0, -0.75], [-0.75, -0.5]],
    "s33": [[2.0, 0.5, 0.0], [0.5, 1.0, -0.25], [0.0, -0.25, 1.5]],
}


def power(A0, iters, tol=1e-6, jit=False, line=False):
    """v is the normalised A^k b, s the Rayleigh quotient of the last normalised iterate."""
    A = np.array(A0)
    n = len(A)

    def body(H):
        if line:
            z = H.inputs(z=((), -2, 2))
            b = H.call(lambda z: jnp.array([1.0] + [0.5] * (n - 2) + [0.0]) + z * jnp.array([0.0] * (n - 1) + [1.0]), z)
        else:
            b = H.inputs(b=((n,), -1, 1))
            H.assume(H.le(0.25, H.absv(H.val(b).reshape(-1)[:1])[0]))
        op = lop.matrix(J(A))
        f = power_iterations_jit if jit else power_iterations
        sol = H.call(lambda b: f(op, b, iters, tol), b)
        k = int(H.ints(sol.iterations))
        H.claim("iterations within the limit", 1 <= k <= iters)
        Av = H.val(A)
        w = H.val(b).reshape(-1)
        est = []
        for i in range(k):
            u = w
            w = Av @ u
            est.append((inner(H, u, w)[0], nsq(H, u)))
        s, v = sc(H, sol.s), H.val(sol.v).reshape(-1)
        num, den = est[-1]
        H.eq("eigenvalue estimate is the Rayleigh quotient", np.array([s * den]), np.array([num]), TOL)
        ww = nsq(H, w)
        H.eq("unit vector", np.array([nsq(H, v)]), np.array([1.0]), TOL)
        # parallel and same direction
        for i in range(n):
            for j in range(i):
                H.eq("direction", np.array([v[i] * w[j]]), np.array([v[j] * w[i]]), TOL)
        H.claim("orientation", H.le(0, inner(H, v, w)[0], 1e-9))
        if k < iters:
            (p, q), (r, t) = est[-1], est[-2]
            # |p/q - r/t| <= tol |r/t|
            d = p * t - r * q
            e = r * q
            H.claim("stops early only when the estimate has settled", H.le(d * d, tol * tol * e * e, 1e-9))
    return body


def norm_bounds(A0, A1, iters, sym=False):
    """The estimate is |A v| for a unit v: between the extreme singular values."""
    def body(H):
        z = H.inputs(z=((), -1, 1))
        A = H.call(lambda z: J(np.array(A0)) + z * J(np.array(A1)), z)
        def f(A):
            # the operator is built around the traced matrix
            op = lop.matrix(A)
            return normest(op, iters)
        s = H.call(f, A)
        sv = sc(H, s)
        Av = H.val(A)
        G = Av.T @ Av
        n = G.shape[0]
        q = sv * sv
        H.claim("nonnegative", H.le(0, sv, 1e-9))
        if n == 1:
            H.eq("norm", np.array([q]), np.array([G[0, 0]]), TOL)
        else:
            tr = G[0, 0] + G[1, 1]
            det = G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]
            H.claim("within the singular values", H.le(q * q - tr * q + det, 0, 1e-6))
    return body


SCALED = [
    ("a", [[1.0, 0.5], [-0.25, 0.75]], [1.0, -0.5]),
    ("b", [[1.0, 0.5], [0.0, 0.75], [0.5, -0.5]], [1.0, 2.0, -0.5]),
    ("c", [[2.0, 0.0, 0.5], [0.0, 1.0, 0.25], [0.5, -0.5, 1.0], [0.25, 0.0, -1.0]], [1.0, -0.5, 0.25, 2.0]),
]


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(div0=False, timeout_ms=15000, budget_s=400 if th else 120)
    for nm, A in MATS.items():
        n = len(A[0])
        for damp in (0.0, 0.5):
            for x0 in (None, [0.5, -0.25, 0.75][:n]):
                for fam in range(len(FAM[len(A)])):
                    if nm == "m22" and fam == 1 and not th:
                        continue
                    out.append(Case("lsqr/step-%s-%g-f%d%s" % (nm, damp, fam, "-x0" if x0 else ""), lsqr_step(A, damp, x0, fam=fam), **D))
            if n <= 1 or th:
                out.append(Case("lsqr/exact-%s-%g" % (nm, damp), lsqr_exact(A, damp), **D))
        out.append(Case("lsqr/start-%s" % nm, lsqr_start(A, None), **D))
        out.append(Case("lsqr/btol-%s" % nm, lsqr_tol(A, 1.25, 1e-8), **D))
        out.append(Case("lsqr/atol-%s" % nm, lsqr_tol(A, 1e-8, 1.25), **D))
    for nm, A, b0 in SCALED:
        for damp in (0.0, 0.5):
            for x0 in (None, [0.5, -0.25, 0.75][:len(A[0])]):
                for k in range(1, len(A[0]) + 1):
                    out.append(Case("lsqr/scaled-%s-%g-k%d%s" % (nm, damp, k, "-x0" if x0 else ""), lsqr_scaled(A, b0, damp, x0, k), **D))
        out.append(Case("lsqr/scaled-%s-jit" % nm, lsqr_scaled(A, b0, 0.25, None, 2, True), **D))
    for nm, A in SYM.items():
        for it in (1, 2, 3):
            if it == 3 and nm == "s33" and not th:
                continue
            out.append(Case("power/%s-it%d" % (nm, it), power(A, it, line=it == 3), **D))
        out.append(Case("power/jit-%s" % nm, power(A, 1, jit=True), **D))
        out.append(Case("power/tol-%s" % nm, power(A, 3 if nm != "s33" else 2, tol=0.25, line=True), **D))
    for nm, A0, A1 in (("11", [[1.5]], [[1.0]]), ("22", [[1.0, 0.5], [-0.25, 0.75]], [[0.5, 0.0], [0.25, -0.5]]),
                       ("32", [[1.0, 0.5], [0.0, 0.75], [0.5, -0.5]], [[0.0, 0.5], [0.5, 0.0], [0.0, 0.25]])):
        for it in (1, 2):
            out.append(Case("normest/%s-it%d" % (nm, it), norm_bounds(A0, A1, it), **D))
    return out
