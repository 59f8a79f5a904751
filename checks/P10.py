"""Conjugate gradients and preconditioned conjugate gradients."""
import numpy as np
import jax.numpy as jnp
from cr.sparse._src.opt import cg, pcg
from .common import *

TOL = 1e-6
SPD = {
    1: [[[2.0]]],
    2: [[[2.0, 0.5], [0.5, 1.0]], [[1.0, 0.0], [0.0, 4.0]], [[3.0, -1.0], [-1.0, 2.0]]],
    3: [[[4.0, 1.0, 0.0], [1.0, 3.0, -1.0], [0.0, -1.0, 2.0]], [[2.0, 0.0, 0.5], [0.0, 1.0, 0.0], [0.5, 0.0, 1.0]]],
}


def sc(H, v):
    return H.val(v).reshape(-1)[0]


def run(H, which, A, b, x0, iters, tol, M=None, atol=0.0):
    if which == "cg":
        if x0 is None:
            return H.call(lambda A, b: cg.solve(A, b, max_iters=iters, res_norm_rtol=tol), A, b)
        return H.call(lambda A, b, x0: cg.solve_from(A, b, x0, max_iters=iters, res_norm_rtol=tol), A, b, x0)
    kw = dict(max_iters=iters, tol=tol, atol=atol)
    if M is not None:
        kw["M"] = M
    if x0 is None:
        return H.call(lambda A, b: pcg.solve(lambda x: A @ x, b, **kw), A, b)
    return H.call(lambda A, b, x0: pcg.solve_from(lambda x: A @ x, b, x0, **kw), A, b, x0)


def invariants(which, n, iters, x0=False, symA=False, A0=None, tol=1e-4, M=None, atol=0.0):
    """r = b - A x, energies, iteration count and stopping rule."""
    def body(H):
        specs = dict(b=((n,), -1, 1))
        if x0 is True:
            specs["x0"] = ((n,), -1, 1)
        if symA:
            specs["S"] = ((n, n), -1, 1)
        ins = H.inputs(**specs)
        ins = dict(zip(specs, ins if isinstance(ins, (list, tuple)) else [ins]))
        b = ins["b"]
        bb = inner(H, b, b)[0]
        H.assume(H.le(0.01, bb))
        A = H.call(lambda S: S + S.T + 3 * jnp.eye(n), ins["S"]) if symA else np.array(A0)
        st = run(H, which, A, b, np.array(x0) if isinstance(x0, list) else ins.get("x0"), iters, tol, M, atol)
        Av, x, r = H.val(A), H.val(st.x), H.val(st.r)
        H.claim("shapes", H.shape(st.x) == (n,) and H.shape(st.r) == (n,))
        H.eq("r = b - A x", r, H.val(b) - Av @ x, TOL)
        rr = inner(H, r, r)[0]
        if which == "cg":
            H.eq("residual energy", H.val(st.r_norm_sqr).reshape(-1), np.array([rr]), TOL)
        else:
            z = r if M is None else H.val(H.call(M, st.r))
            H.eq("gamma = <r, M r>", H.val(st.gamma).reshape(-1), inner(H, r, z), TOL)
        k = int(H.ints(st.iterations))
        first = 0 if which == "cg" else 1
        mx = iters if iters is not None else n
        H.claim("iterations within the limit", first <= k <= max(mx, first))
        lim = tol * tol * bb
        if k < mx:
            H.claim("stops early only when converged", H.or_(H.le(rr, lim, 1e-12), H.le(rr, atol * atol, 1e-12)))
        return st, k, first
    return body


def direction(which, n, A0, M=None, x0=False):
    """One step: residual and search direction orthogonality, exact line search."""
    def body(H):
        specs = dict(b=((n,), -1, 1))
        if x0:
            specs["x0"] = ((n,), -1, 1)
        ins = H.inputs(**specs)
        ins = list(ins) if isinstance(ins, (list, tuple)) else [ins]
        b = ins[0]
        A = np.array(A0)
        x0v = ins[1] if x0 else None
        r0 = H.val(b) - H.val(A) @ H.val(x0v) if x0 else H.val(b)
        H.assume(H.le(0.01, inner(H, r0, r0)[0]))
        H.assume(H.le(0.01, inner(H, b, b)[0]))
        first = 0 if which == "cg" else 1
        st = run(H, which, A, b, x0v, 1 + first, 1e-3, M)
        if int(H.ints(st.iterations)) == first:
            return
        r1, p1 = H.val(st.r), H.val(st.p)
        p0 = r0 if M is None else H.val(H.call(M, r0))
        H.eq("new residual is orthogonal to the direction", inner(H, r1, p0), np.array([0.0]), TOL)
        H.eq("directions are conjugate", inner(H, p1, H.val(A) @ p0), np.array([0.0]), TOL)
    return body


def exact(which, n, A0, M=None, x0=False):
    """n steps solve the system."""
    def body(H):
        specs = dict(b=((n,), -1, 1))
        if x0 is True:
            specs["x0"] = ((n,), -1, 1)
        ins = H.inputs(**specs)
        ins = list(ins) if isinstance(ins, (list, tuple)) else [ins]
        b = ins[0]
        H.assume(H.le(0.01, inner(H, b, b)[0]))
        A = np.array(A0)
        first = 0 if which == "cg" else 1
        st = run(H, which, A, b, np.array(x0) if isinstance(x0, list) else (ins[1] if x0 else None), None if which == "cg" else n + first, 1e-4, M)
        k = int(H.ints(st.iterations))
        if k == n + first:
            H.eq("solved after n steps", H.val(A) @ H.val(st.x), H.val(b), TOL)
        else:
            r = H.val(b) - H.val(A) @ H.val(st.x)
            H.claim("converged", H.le(inner(H, r, r)[0], 1e-8 * inner(H, b, b)[0], 1e-10))
    return body


def invM(A0):
    Ai = np.linalg.inv(np.array(A0))
    return lambda r: jnp.asarray(Ai) @ r


def diagM(A0):
    d = 1 / np.diag(np.array(A0))
    return lambda r: jnp.asarray(d) * r


X0 = {1: [0.5], 2: [0.5, -0.25], 3: [0.5, -0.25, 1.0]}


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(div0=False, timeout_ms=15000, budget_s=400 if th else 120)
    for n in (1, 2, 3):
        for w in ("cg", "pcg"):
            for it in (0, 1, 2):
                i = it + (w == "pcg")
                for x0 in (False, True):
                    for a, A in enumerate(SPD[n]):
                        if n == 3 and a and it:
                            continue
                        if n == 3 and it == 2 and not th:
                            continue
                        x0s = x0 if it <= 1 or not x0 else X0[n]
                        out.append(Case("%s/invariant-%d-%d-it%d%s" % (w, n, a, it, "-x0" if x0 else ""),
                                        invariants(w, n, i, x0s, False, A), **D))
                    if it <= 1 and n <= 2:
                        out.append(Case("%s/invariant-symA-%d-it%d%s" % (w, n, it, "-x0" if x0 else ""),
                                        invariants(w, n, i, x0 if n == 1 or not x0 or it == 0 else X0[n], True), **D))
            for a, A in enumerate(SPD[n]):
                for x0 in (False, True):
                    out.append(Case("%s/step-%d-%d%s" % (w, n, a, "-x0" if x0 else ""), direction(w, n, A, None, x0), **D))
                    if n <= 2:
                        out.append(Case("%s/exact-%d-%d%s" % (w, n, a, "-x0" if x0 else ""),
                                        exact(w, n, A, None, X0[n] if x0 else False), **D))
        for a, A in enumerate(SPD[n]):
            m = 2 if n < 3 else 1
            out.append(Case("pcg/invariant-diagM-%d-%d" % (n, a), invariants("pcg", n, m + 1, X0[n], False, A, M=diagM(A)), **D))
            out.append(Case("pcg/step-diagM-%d-%d" % (n, a), direction("pcg", n, A, diagM(A), True), **D))
            out.append(Case("pcg/atol-%d-%d" % (n, a), invariants("pcg", n, m + 1, False, False, A, tol=1e-6, atol=0.25), **D))
            out.append(Case("pcg/rtol-%d-%d" % (n, a), invariants("pcg", n, m + 1, False, False, A, tol=0.25), **D))
            out.append(Case("cg/rtol-%d-%d" % (n, a), invariants("cg", n, m, False, False, A, tol=0.25), **D))
            if n < 3:
                out.append(Case("cg/default-iters-%d-%d" % (n, a), invariants("cg", n, None, False, False, A), **D))
            out.append(Case("pcg/perfect-M-%d-%d" % (n, a), perfect(n, A), **D))
    return out


def perfect(n, A0):
    """With M = A^-1 a single step solves the system."""
    def body(H):
        b, x0 = H.inputs(b=((n,), -1, 1), x0=((n,), -1, 1))
        H.assume(H.le(0.01, inner(H, b, b)[0]))
        A = np.array(A0)
        r0 = H.val(b) - H.val(A) @ H.val(x0)
        H.assume(H.le(0.01, inner(H, r0, r0)[0]))
        st = run(H, "pcg", A, b, x0, 2, 1e-4, invM(A0))
        H.eq("solved in one step", H.val(A) @ H.val(st.x), H.val(b), TOL)
    return body
