"""First order composite solvers: fom, l1rls, lasso, owl1rls, and the smooth dual."""
import numpy as np
import jax.numpy as jnp
import cr.sparse.opt as opt
import cr.sparse.lop as lop
from cr.sparse._src.fom.fom import fom
from cr.sparse._src.fom.lasso import lasso, lasso_jit
from cr.sparse._src.fom.l1rls import l1rls, l1rls_jit
from cr.sparse._src.fom.owl1rls import owl1rls, owl1rls_jit
from cr.sparse._src.fom.scd import smooth_dual
from cr.sparse._src.fom.defs import FomOptions
from .common import *

TOL = 1e-6
MATS = {
    "m11": [[1.25]],
    "m12": [[1.0, -0.5]],
    "m21": [[1.0], [0.5]],
    "m22": [[1.0, 0.5], [-0.25, 0.75]],
    "m23": [[0.6, 0.8, 0.0], [0.0, -0.6, 0.8]],
}


def sc(H, v):
    return H.val(v).reshape(-1)[0]


def nsq(H, v):
    return H.real(inner(H, v, v))[0]


def ref_run(H, A, b, x0, grad, prox, k, o):
    """k iterations of the documented accelerated method; every state."""
    states = []
    x = z = x0
    L, theta = o.L0, None
    for i in range(k):
        def it(x, z, L, theta, b, first=theta is None):
            Ln = L * o.alpha
            th = 1.0 if first else 2 / (1 + jnp.sqrt(1 + 4 * (Ln / L) / theta ** 2))
            y = (1 - th) * x + th * z
            Ay = A @ y
            gAy = grad(Ay + b)
            st = 1 / (th * Ln)
            zn = prox(z - st * (A.T @ gAy), st)
            xn = (1 - th) * x + th * zn
            Ax = A @ xn
            gAx = grad(Ax + b)
            d = xn - y
            dd = jnp.sum(d * d)
            loc = 2 * jnp.sum((Ax - Ay) * (gAx - gAy)) / jnp.where(dd == 0, 1.0, dd)
            up = jnp.minimum(o.Lexact, jnp.maximum(loc, Ln / o.beta))
            Lo = jnp.where(dd == 0, Ln, jnp.where(loc <= Ln, Ln, up))
            return xn, zn, y, Lo, jnp.asarray(th) * 1.0, jnp.sum((xn - x) ** 2), jnp.sum(xn ** 2), dd
        xn, zn, y, Lo, th, dx, nx, dxy = H.call(it, x, z, L, theta if theta is not None else 1.0, b)
        states.append(dict(x=xn, z=zn, y=y, L=Lo, theta=th, dx=dx, nx=nx, dxy=dxy))
        x, z, L, theta = xn, zn, Lo, th
    return states


def run(A0, which, par, iters, o=None, jit=False, symx0=True, x0c=None, line=False, two=False):
    A = np.array(A0)
    m, n = A.shape
    o = (o or FomOptions())._replace(max_iters=iters)
    hs = dict(l1=lambda p: opt.prox_l1(p), lasso=lambda p: opt.prox_l1_ball(p), owl1=lambda p: opt.prox_owl1(jnp.array(p)), zero=lambda p: opt.prox_zero())

    def body(H):
        if line:
            zz = H.inputs(z=((), -1, 1))
            base = np.array([1.0, -0.5, 0.25])[:m]
            dr = np.array([0.5, 1.0, 0.0])[:m]
            b = H.call(lambda z: J(base) + z * J(dr), zz)
            x0 = np.array(x0c if x0c is not None else [0.5, -0.25, 0.0][:n])
        elif symx0:
            b, x0 = H.inputs(b=((m,), -1, 1), x0=((n,), -1, 1))
        else:
            b = H.inputs(b=((m,), -1, 1))
            x0 = np.array(x0c if x0c is not None else [0.0] * n)
        op = lop.matrix(J(A))
        if which == "l1":
            f = (lambda b, x0: (l1rls_jit if jit else l1rls)(op, b, par, x0, o))
        elif which == "lasso":
            f = (lambda b, x0: (lasso_jit if jit else lasso)(op, b, par, x0, o))
        elif which == "owl1":
            f = (lambda b, x0: (owl1rls_jit if jit else owl1rls)(op, b, jnp.array(par), x0, o))
        else:
            f = (lambda b, x0: fom(opt.smooth_quad_matrix(), opt.prox_zero(), op, -b, x0, o))
        h = hs[which](par)
        if which == "lasso":
            # the start is projected when it is outside the ball
            x0 = H.call(lambda x: x, x0)
            a = H.absv(H.val(x0).reshape(-1))
            s = 0
            for q in a:
                s = s + q
            H.assume(H.le(s, par - 1e-3))
        st = H.call(f, b, x0)
        k = int(H.ints(st.iterations))
        H.claim("iterations within the limit", 1 <= k <= max(iters, 1))
        bm = H.call(lambda b: -b, b)
        refs = ref_run(H, J(A), bm, x0, lambda u: u, lambda v, t: h.prox_op(v, t), k, o)
        R_ = refs[-1]
        for S in refs:
            H.assume(H.le(1e-6, sc(H, S["dxy"])))
        for key, nm in (("x", "solution"), ("z", "proximal point"), ("y", "interpolation point")):
            H.eq(nm, H.val(getattr(st, key)), H.val(R_[key]), TOL)
        H.eq("momentum weight", H.val(st.theta).reshape(-1), H.val(R_["theta"]).reshape(-1), TOL)
        H.eq("Lipschitz estimate", H.val(st.L).reshape(-1), H.val(R_["L"]).reshape(-1), TOL)
        Av, x = H.val(A), H.val(st.x).reshape(-1)
        bv = H.val(b).reshape(-1)
        H.eq("A x", H.val(st.A_x), Av @ x, TOL)
        r = Av @ x - bv
        H.eq("gradient at A x", H.val(st.g_Ax), r, TOL)
        H.eq("smooth value", H.val(st.f_x).reshape(-1), np.array([0.5 * nsq(H, r)]), TOL)
        for nm, v, key in (("solution norm", st.norm_x, "nx"), ("change norm", st.norm_dx, "dx")):
            q = sc(H, v)
            H.eq(nm, np.array([q * q]), H.val(R_[key]).reshape(-1), TOL)
        for i, S in enumerate(refs):
            dx, nx = sc(H, S["dx"]), sc(H, S["nx"])
            lim = o.tol ** 2
            if i == k - 1 and k < iters:
                H.claim("stops early only when converged", H.or_(H.le(dx, lim * nx, 1e-12), H.le(dx, lim, 1e-12)))
            if i < k - 1:
                H.claim("continues only while not converged", H.and_(H.le(lim * nx, dx, 1e-12), H.le(lim, dx, 1e-12)))
        if which == "lasso":
            a = H.absv(x)
            s = 0
            for q in a:
                s = s + q
            H.claim("solution lies in the l1 ball", H.le(s, par, 1e-6))
    return body


def project_start(par, n):
    """A starting point outside the domain of h is first moved into it."""
    A = np.eye(n)
    o = FomOptions(max_iters=1, L0=4.0, alpha=0.5)

    def body(H):
        b, x0 = H.inputs(b=((n,), -1, 1), x0=((n,), -1, 1))
        a = H.absv(H.val(x0).reshape(-1))
        s = 0
        for q in a:
            s = s + q
        H.assume(H.le(par + 1e-2, s))
        st = H.call(lambda b, x0: lasso(lop.matrix(J(A)), b, par, x0, o), b, x0)
        h = opt.prox_l1_ball(par)
        xp = H.call(lambda x: h.prox_op(x, 1.0), x0)
        refs = ref_run(H, J(A), H.call(lambda b: -b, b), xp, lambda u: u, lambda v, t: h.prox_op(v, t), 1, o)
        H.eq("solution", H.val(st.x), H.val(refs[-1]["x"]), TOL)
        H.eq("interpolation point", H.val(st.y), H.val(xp), TOL)
    return body


def bounded_L(A0, Lexact, L0):
    """The estimate never exceeds the known bound and never drops below alpha times the previous one."""
    A = np.array(A0)
    m, n = A.shape
    o = FomOptions(max_iters=1, L0=L0, Lexact=Lexact)

    def body(H):
        b, x0 = H.inputs(b=((m,), -1, 1), x0=((n,), -1, 1))
        st = H.call(lambda b, x0: l1rls(lop.matrix(J(A)), b, 0.25, x0, o), b, x0)
        L = sc(H, st.L)
        H.claim("bounded by the known constant", H.le(L, max(Lexact, L0 * o.alpha), 1e-9))
        H.claim("not reduced below the line search factor", H.le(min(Lexact, L0 * o.alpha), L, 1e-9))
    return body


def dual(n, name, prox, mu, x0):
    """value(y) = -max_u <y,u> - f(u) - |u-x0|^2/(2 mu), gradient = -(the maximiser)."""
    def body(H):
        y, w = H.inputs(y=((n,), -2, 2), w=((n,), -2, 2))
        p = prox()
        sd = smooth_dual(p, mu, jnp.array(x0))
        v = H.call(sd.func, y)
        g = H.call(sd.grad, y)
        gv = H.call(sd.grad_val, y)
        H.eq("value from grad_val", H.val(gv[1]).reshape(-1), H.val(v).reshape(-1), TOL)
        H.eq("gradient from grad_val", H.val(gv[0]), H.val(g), TOL)
        u = [-q for q in H.val(g).reshape(-1)]

        def obj(u):
            fv = 0
            if name == "l1":
                for q in H.absv(np.array(u, dtype=object) if H.symbolic else np.array(u)):
                    fv = fv + q
            t = 0
            for i in range(n):
                d = u[i] - x0[i]
                t = t + H.val(y).reshape(-1)[i] * u[i] - d * d * (0.5 / mu)
            return t - fv
        H.eq("value is attained at the reported maximiser", np.array([-sc(H, v)]), np.array([obj(u)]), TOL)
        H.claim("no point does better", H.le(obj(list(H.val(w).reshape(-1))), -sc(H, v), 1e-6))
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(fork_ite=True, div0=False, timeout_ms=15000, budget_s=400 if th else 120)
    for nm, A in MATS.items():
        m, n = np.array(A).shape
        for w, par in (("l1", 0.25), ("zero", None), ("lasso", 1.5), ("owl1", [0.5, 0.25, 0.125][:n])):
            if w in ("lasso", "owl1") and n > 2 and not th:
                continue
            out.append(Case("%s/%s-it1" % (w, nm), run(A, w, par, 1, symx0=n == 1 or w == "zero" or (w == "lasso" and m == 1), x0c=[0.25, 0.5, -0.125][:n]), **D))
            out.append(Case("%s/%s-it1-opt" % (w, nm), run(A, w, par, 1, FomOptions(L0=3.0, alpha=0.5, beta=0.8, Lexact=4.0), symx0=False, x0c=[0.5, -0.25, 0.0][:n]), **D))
            for it in (2, 3):
                if nm == "m23" and w == "l1" and not th:
                    continue
                if it == 3 and (w != "zero" and nm != "m11") and not th:
                    continue
                out.append(Case("%s/%s-it%d" % (w, nm, it), run(A, w, par, it, FomOptions(L0=3.0, alpha=0.75), line=True), **D))
            if w != "zero":
                out.append(Case("%s/%s-jit" % (w, nm), run(A, w, par, 1, jit=True, symx0=False), **D))
            if nm == "m23" and w == "l1" and not th:
                continue
            out.append(Case("%s/%s-tol" % (w, nm), run(A, w, par, 2, FomOptions(L0=3.0, alpha=0.75, tol=0.3), line=True), **D))
    for nm in ("m11", "m12", "m22"):
        out.append(Case("L/%s" % nm, bounded_L(MATS[nm], 2.0, 0.5), **dict(D, fork_ite=False)))
    for n in (1, 2):
        out.append(Case("start/%d" % n, project_start(0.75, n), **dict(D, fork_ite=False)))
    for n in (1, 2):
        for mu in (1.0, 0.5):
            for nm, p in (("l1", lambda: opt.prox_l1()), ("zero", lambda: opt.prox_zero())):
                out.append(Case("dual/%s-%d-%g" % (nm, n, mu), dual(n, nm, p, mu, [0.25, -0.5][:n]), **D))
    return out
