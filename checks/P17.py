"""YALL1: alternating direction methods for basis pursuit and its relaxations."""
import builtins
import numpy as np
import jax.numpy as jnp
import cr.sparse.lop as lop
from cr.sparse._src.cvx.adm import yall1
from .common import *

TOL = 1e-6
# orthonormal rows (as the method assumes), and general ones
MATS = {
    "o12": [[0.6, 0.8]],
    "o13": [[0.28, -0.96, 0.0]],
    "o22": [[0.6, -0.8], [0.8, 0.6]],
    "o23": [[0.6, 0.8, 0.0], [0.0, 0.0, 1.0]],
    "g22": [[1.0, 0.5], [-0.25, 0.75]],
}


def sc(H, v):
    return H.val(v).reshape(-1)[0]


def dot(u, v):
    s = 0
    for a, b in zip(u, v):
        s = s + a * b
    return s


def nsq(v):
    return dot(v, v)


def norm(v):
    return jnp.sqrt(jnp.sum(v * v))


def ref_iter(kind, A, b, x, z, w, mu, nonneg, par, gamma):
    """One alternating direction step; also the quantities of the documented stopping test."""
    y = A @ (z - x / mu) + b / mu
    if kind == "l1l2":
        y = y / (par / mu + 1)
    elif kind == "con":
        yn = norm(y)
        y = jnp.where(yn <= par / mu, 0.0 * y, (1 - (par / mu) / yn) * y)
    Aty = A.T @ y
    v = Aty + x / mu
    zn = jnp.minimum(w, v) if nonneg else jnp.where(v > w, w, jnp.where(v < -w, -w, v))
    rd = zn - Aty
    xn = x - gamma * mu * rd
    rp = b - A @ xn
    po = jnp.sum(w * jnp.abs(xn))
    do = jnp.sum(b * y)
    if kind == "l1l2":
        po = po + 0.5 / par * jnp.sum(rp * rp)
        do = do - 0.5 * par * jnp.sum(y * y)
    elif kind == "con":
        do = do - par * norm(y)
    return xn, zn, rd, rp, po, do


def family(H, m, fam):
    if fam == "const-mu":       # mean |b| fixed
        zz = H.inputs(z=((), -0.4, 0.4))
        if m == 1:
            return H.call(lambda z: jnp.stack([0.5 + z]), zz)
        return H.call(lambda z: jnp.stack([0.5 + z, -0.5 + z]), zz)
    if fam == "const-max":      # max |b| = 2
        zz = H.inputs(z=((), -1.75, 1.75))
        if m == 1:
            return H.call(lambda z: jnp.stack([2.0 + 0 * z]), zz)
        return H.call(lambda z: jnp.stack([2.0 + 0 * z, z]), zz)
    if fam == "free":
        return H.inputs(b=((m,), 0.25, 2))
    if fam == "start":
        return np.array([0.75, -0.5, 1.25][:m])
    raise ValueError(fam)


SOLVERS = {"bp": (yall1.solve_bp, yall1.solve_bp_jit), "l1l2": (yall1.solve_l1_l2, yall1.solve_l1_l2_jit),
           "con": (yall1.solve_l1_l2con, yall1.solve_l1_l2con_jit)}


def steps(A0, kind, par=0.0, iters=2, gamma=1.0, w=None, nonneg=False, x0=None, z0=None, fam="const-mu", tol=1e-9, jit=False):
    A = np.array(A0)
    m, n = A.shape
    wv = np.array(w if w is not None else [1.0] * n)

    def body(H):
        b = family(H, m, fam)
        if fam == "start":
            t = H.inputs(t=((), -2, 2))
            xs = H.call(lambda t: J(np.array([0.5, -0.25, 0.75][:n])) + t * J(np.array([1.0, 0.5, -1.0][:n])), t)
            zs = H.call(lambda t: J(np.array([0.25, 0.0, -0.5][:n])) + t * J(np.array([0.0, 0.25, 0.25][:n])), t)
        else:
            xs = np.array(x0 if x0 is not None else [0.5, -0.25, 0.75][:n])
            zs = np.array(z0 if z0 is not None else [0.25, 0.0, -0.5][:n])
        op = lop.matrix(J(A))
        f = SOLVERS[kind][1 if jit else 0]
        args = (gamma, tol, iters)
        st = H.call(lambda b, xs, zs: f(op, b, xs, zs, J(wv), nonneg, *(((par,) if kind != "bp" else ()) + args)), b, xs, zs)
        k = int(H.ints(st.iterations))
        H.claim("iterations within the limit", 0 <= k <= (iters + 1 if iters % 2 else iters))
        mu = H.call(lambda b: jnp.mean(jnp.abs(b)), b)
        x, z = xs, zs
        trail = []
        for i in range(k):
            xn, zn, rd, rp, po, do = H.call(lambda b, x, z, mu: ref_iter(kind, J(A), b, x, z, J(wv), mu, nonneg, par, gamma), b, x, z, mu)
            trail.append((xn, zn, rd, rp, po, do, x))
            x, z = xn, zn
        H.eq("primal variable", H.val(st.x), H.val(x), TOL)
        H.eq("dual variable", H.val(st.z), H.val(z), TOL)
        bv, xv = H.val(b).reshape(-1), H.val(st.x).reshape(-1)
        H.eq("primal residual is b - A x", H.val(st.rp), bv - H.val(A) @ xv, TOL)
        if k:
            xn, zn, rd, rp, po, do, xp = trail[-1]
            H.eq("dual residual", H.val(st.rd), H.val(rd), TOL)
            H.eq("previous primal variable", H.val(st.x_prev), H.val(xp), TOL)
            H.eq("primal objective", H.val(st.primal_objective).reshape(-1), H.val(po).reshape(-1), TOL)
            H.eq("dual objective", H.val(st.dual_objective).reshape(-1), H.val(do).reshape(-1), TOL)
            if not nonneg:
                for zi, wi in zip(H.val(st.z).reshape(-1), wv):
                    H.claim("dual variable inside the weighted box", H.and_(H.le(zi, wi, 1e-9), H.le(-wi, zi, 1e-9)))
        H.claim("operator counts", int(H.ints(st.n_times)) == 1 + 2 * k and int(H.ints(st.n_trans)) == 1 + k)
        # stopping: only the limit or the documented tests end the loop (tested after every pair of steps)
        q = 0.1 if kind != "con" else 0.0
        bn = nsq(bv)
        for i in range(0, k + 1, 2):
            if i == 0:
                continue
            xn, zn, rd, rp, po, do, xp = trail[i - 1]
            X, XP, Z, RD, RP = [H.val(v).reshape(-1) for v in (xn, xp, zn, rd, rp)]
            P, D = sc(H, po), sc(H, do)
            # away from a vanishing iterate, where the relative tests are undefined
            H.assume(H.and_(H.le(1e-6, nsq(X)), H.le(1e-6, nsq(Z)), H.le(1e-6, P)))
            tx = (tol * (1 - q)) ** 2
            dx = nsq(X - XP)
            stable = lambda s: H.le(dx, tx * nsq(X), s)
            gap = lambda s: H.and_(H.le(P - D, tol * P, s), H.le(D - P, tol * P, s))
            dfeas = lambda s: H.le(nsq(RD), tol ** 2 * nsq(Z), s)
            if kind == "bp":
                pf = lambda s: H.le(nsq(RP), tol ** 2 * bn, s)
            elif kind == "con":
                pf = lambda s: H.le(nsq(RP), (par * (1 + tol)) ** 2, s)
            else:
                pf = lambda s: True
            if i == k and k < iters:
                H.claim("stops early only on convergence", H.or_(stable(1e-9), H.and_(gap(1e-9), dfeas(1e-9), pf(1e-9))))
            if i < k:
                H.claim("continues only while unconverged", H.and_(
                    H.le(tx * nsq(X), dx, 1e-9),
                    H.or_(H.le(tol * P, P - D, 1e-9), H.le(tol * P, D - P, 1e-9), H.le(tol ** 2 * nsq(Z), nsq(RD), 1e-9),
                          (H.le(tol ** 2 * bn, nsq(RP), 1e-9) if kind == "bp" else H.le((par * (1 + tol)) ** 2, nsq(RP), 1e-9) if kind == "con" else False))))
    return body


class nofloat:
    """float() of a traced scalar is that scalar."""

    def __enter__(self):
        yall1.float = lambda x: x

    def __exit__(self, *a):
        del yall1.float


def wrapper(A0, kind, par=0.0, iters=2, w=None, nonneg=False, x0=None, z0=None, W=None, fam="const-max", gamma=1.0):
    """solve() runs the method on data scaled by max |b| and returns x and b - A x in the caller's units."""
    A = np.array(A0)
    m, n = A.shape
    wv = np.array(w if w is not None else [1.0] * n)
    Wm = np.array(W) if W is not None else None
    B = A @ Wm if Wm is not None else A

    def body(H):
        x0s = x0
        if fam == "start":
            t = H.inputs(t=((), -2, 2))
            b = np.array([2.0, -1.0][:m])
            x0s = H.call(lambda t: J(np.array(x0)) + t * J(np.array([1.0, 0.5, -1.0][:n])), t)
        else:
            b = family(H, m, fam)
            x0s = np.array(x0) if x0 is not None else None
        op = lop.matrix(J(A))
        kw = dict(nonneg=nonneg, gamma=gamma, tolerance=1e-9, max_iters=iters, jit=False)
        if kind == "l1l2":
            kw["rho"] = par
        if kind == "con":
            kw["delta"] = par
        if w is not None:
            kw["weights"] = J(wv)
        if Wm is not None:
            kw["W"] = lop.matrix(J(Wm))
        if z0 is not None:
            kw["z0"] = J(z0)
        with nofloat():
            if x0 is not None:
                sol = H.call(lambda b, x: yall1.solve(op, b, x0=x, **kw), b, x0s)
            else:
                sol = H.call(lambda b: yall1.solve(op, b, **kw), b)
        k = int(H.ints(sol.iterations))
        bv, xv = H.val(b).reshape(-1), H.val(sol.x).reshape(-1)
        H.eq("residual is b - A x", H.val(sol.r), bv - H.val(A) @ xv, TOL)
        bmax = H.call(lambda b: jnp.max(jnp.abs(b)), b)
        if nonneg and Wm is None:
            for v in xv:
                H.claim("solution is non-negative", H.le(0.0, v, 1e-9))
        if kind == "con":
            zero = H.le(nsq(bv) + 1e-6, par * par)
            H.assume(H.or_(zero, H.le(par * par + 1e-6, nsq(bv))))
        elif kind == "l1l2":
            g = H.val(B).T @ bv
            zero = H.and_(*[H.and_(H.le(gi + 1e-6, par * wi), H.le(1e-6 - gi, par * wi)) for gi, wi in zip(g, wv)])
            # a margin around the threshold
            H.assume(H.or_(zero, *[H.or_(H.le(par * wi + 1e-6, gi), H.le(par * wi + 1e-6, -gi)) for gi, wi in zip(g, wv)]))
        else:
            zero = False
        if zero is True or (zero is not False and H.branch(zero)):
            # the zero vector is optimal (feasible): it is returned without iterating
            H.claim("an optimal zero needs no iterations", k == 0)
            H.eq("zero solution", H.val(sol.x), np.zeros(n), TOL)
            return
        H.claim("iterates when zero is not optimal", k == iters or iters == 0)
        bs = H.call(lambda b, m: b / m, b, bmax)
        if x0 is None:
            x = H.call(lambda b, m: J(B).T @ b / m, b, bmax)
        else:
            x = H.call(lambda x, m: x / m, x0s, bmax)
        z = np.array(z0 if z0 is not None else [0.0] * n)
        mu = H.call(lambda b: jnp.mean(jnp.abs(b)), bs)
        p = H.call(lambda m: par / m, bmax)
        for i in range(k):
            x, z = H.call(lambda b, x, z, mu, p: ref_iter(kind, J(B), b, x, z, J(wv), mu, nonneg, p, gamma)[:2], bs, x, z, mu, p)
        def fin(x, m):
            x = jnp.maximum(x, 0) if nonneg else x
            return m * (J(Wm) @ x if Wm is not None else x)
        H.eq("solution", H.val(sol.x), H.val(H.call(fin, x, bmax)), TOL)
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(fork_ite=True, div0=False, timeout_ms=15000, budget_s=400 if th else 100)
    for nm, A in MATS.items():
        m, n = np.array(A).shape
        for kind, par in (("bp", 0.0), ("l1l2", 0.5), ("con", 0.25)):
            if kind == "con" and nm != "o12" and not th:
                continue
            w = [0.5, 1.0, 2.0][:n]
            if kind == "con" and m > 1:
                w0 = "start"
            w0 = "start" if m == 1 else "const-mu"
            out.append(Case("%s/%s-2" % (kind, nm), steps(A, kind, par, fam=w0), **D))
            out.append(Case("%s/%s-2-opt" % (kind, nm), steps(A, kind, par, gamma=1.5, w=w, fam=w0), **D))
            out.append(Case("%s/%s-2-nonneg" % (kind, nm), steps(A, kind, par, nonneg=True, w=w, fam=w0), **D))
            out.append(Case("%s/%s-0" % (kind, nm), steps(A, kind, par, iters=0), **D))
            if nm in ("o12", "o22"):
                out.append(Case("%s/%s-jit" % (kind, nm), steps(A, kind, par, jit=True, fam=w0), **D))
            if m == 2:
                out.append(Case("%s/%s-2-start" % (kind, nm), steps(A, kind, par, fam="start", w=w), **D))
            if (nm == "o22" or (nm == "g22" and kind == "l1l2")) or th:
                out.append(Case("%s/%s-4" % (kind, nm), steps(A, kind, par, iters=4, fam=w0), **D))
                out.append(Case("%s/%s-4-tol" % (kind, nm), steps(A, kind, par, iters=4, tol=0.25, fam=w0), **D))
            if nm == "o22" and kind == "l1l2" or th:
                out.append(Case("%s/%s-6-tol" % (kind, nm), steps(A, kind, par, iters=6, tol=0.05, w=w, fam=w0), **D))
            if nm == "o12" and (kind == "bp" or th):
                out.append(Case("%s/%s-mu" % (kind, nm), steps(A, kind, par, fam="free", w=w), **D))
    for nm in ("o12", "o22", "o23"):
        A = MATS[nm]
        m, n = np.array(A).shape
        w = [0.5, 1.0, 2.0][:n]
        x0 = [1.0, -0.5, 0.25][:n]
        z0 = [0.5, 0.25, 0.0][:n]
        for kind, par in (("bp", 0.0), ("l1l2", 0.5), ("con", 0.5)):
            if kind == "con" and nm != "o12":
                continue
            if kind == "con" and not th:
                z0 = None
            S = dict(fam="start", x0=x0)
            out.append(Case("solve/%s-%s-x0" % (kind, nm), wrapper(A, kind, par, z0=z0, **S), **D))
            out.append(Case("solve/%s-%s-w" % (kind, nm), wrapper(A, kind, par, w=w, gamma=1.25, **S), **D))
            out.append(Case("solve/%s-%s-nonneg" % (kind, nm), wrapper(A, kind, par, nonneg=True, **S), **D))
            out.append(Case("solve/%s-%s-nonneg0" % (kind, nm), wrapper(A, kind, par, nonneg=True, x0=x0, iters=0), **D))
            if nm == "o22":
                out.append(Case("solve/%s-%s-W" % (kind, nm), wrapper(A, kind, par, W=[[0.8, -0.6], [0.6, 0.8]], **S), **D))
            out.append(Case("solve/%s-%s-0" % (kind, nm), wrapper(A, kind, par, iters=0, x0=x0), **D))
            out.append(Case("solve/%s-%s-00" % (kind, nm), wrapper(A, kind, par, iters=0), **D))
            if th or kind == "bp" or nm == "o12":
                out.append(Case("solve/%s-%s" % (kind, nm), wrapper(A, kind, par), **D))
        for p in (1.5, 2.1):
            out.append(Case("solve/zero-%s-%g" % (nm, p), wrapper(A, "l1l2", p, iters=0, x0=x0), **D))
            out.append(Case("solve/zero-w-%s-%g" % (nm, p), wrapper(A, "l1l2", p, iters=0, x0=x0, w=[1.0, 0.5, 0.75][:n]), **D))
            out.append(Case("solve/feas-%s-%g" % (nm, p), wrapper(A, "con", p, iters=0, x0=x0), **D))
    return out
