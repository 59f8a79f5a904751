"""SPGL1: l1-ball projection, spectral projected gradient for LASSO, root finding for basis pursuit denoising."""
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
from cr.sparse._src.cvx import spgl1 as sg
from .common import *

TOL = 1e-6
MATS = {
    "1": [[2.0]],
    "12": [[1.0, -0.5]],
    "22": [[1.0, 0.5], [-0.25, 0.75]],
    "21": [[1.0], [0.5]],
    "23": [[1.0, 0.5, -0.25], [0.0, 0.75, 1.0]],
}


def sc(H, v):
    return H.val(v).reshape(-1)[0]


def num(H, v):
    return Fraction(v).limit_denominator(10 ** 12) if H.symbolic else float(v)


def dot(u, v):
    s = u[0] * v[0]
    for a, b in zip(u[1:], v[1:]):
        s = s + a * b
    return s


def total(v):
    s = v[0]
    for a in v[1:]:
        s = s + a
    return s


def ints(H, a):
    return [int(v) for v in np.asarray(H.ints(a)).reshape(-1)]


# -- projection ------------------------------------------------------------------------------------
def projection(n, at, cplx=False, q=None):
    """p = P(x): |p - c|_1 <= q and, for the radial part, <x - p, p - c> = q max|x - p| or p = x (optimality)."""
    def body(H):
        spec = dict(x=((n,), -1, 1, dt(cplx)))
        if q is None:
            spec["q"] = ((), 0.125, 2)
        if at:
            spec["c"] = ((n,), -1, 1, dt(cplx))
        inp = H.inputs(**spec)
        inp = list(inp) if isinstance(inp, (tuple, list)) else [inp]
        x = inp[0]
        i = 1
        qq = num(H, q) if q is not None else sc(H, inp[1])
        qa = q if q is not None else inp[1]
        i = 1 if q is not None else 2
        if at:
            c = inp[i]
            p = H.call(lambda x, c, *a: sg.project_to_l1_ball_at(x, c, a[0] if a else q), x, c, *([] if q is not None else [qa]))
            cv = H.val(c)
        else:
            p = H.call(lambda x, *a: sg.project_to_l1_ball(x, a[0] if a else q), x, *([] if q is not None else [qa]))
            cv = None
        pv, xv = H.val(p), H.val(x)
        u = pv - cv if at else pv
        v = xv - cv if at else xv
        au, av = H.absv(u), H.absv(v)
        su, sv = total(list(au)), total(list(av))
        H.claim("inside the ball", H.le(su, qq, 1e-7))
        H.claim("unchanged when inside", H.implies(H.le(sv, qq - num(H, 1e-9)), H.and_(*[H.le(a, b, 1e-7) and H.le(b, a, 1e-7) if not H.symbolic else H.and_(H.le(a, b, 1e-7), H.le(b, a, 1e-7)) for a, b in zip(au, av)])))
        H.claim("on the sphere when outside", H.implies(H.le(qq, sv), H.le(qq, su, 1e-7)))
        # optimality: the removed amount is the same for every entry that survives, and covers those that vanish
        d = [a - b for a, b in zip(av, au)]
        for j in range(n):
            H.claim("magnitudes shrink", H.le(0, d[j], 1e-7))
            for k in range(n):
                H.claim("removed amount is largest on surviving entries", H.or_(H.le(au[j], 0, 1e-9), H.le(d[k], d[j], 1e-7)))
        for a, b, m, w in zip(u, v, au, av):
            # same direction: u * |v| = v * |u|
            H.eq("direction is kept", np.array([a * w]), np.array([b * m]), TOL)
    return body


# -- runs ---------------------------------------------------------------------------------------------
def data(H, mat, fam, m, n):
    """(b, x0): one-parameter families, or fixed"""
    t = H.inputs(t=((), -1, 1))
    if fam == "b":
        b = H.call(lambda t: jnp.stack([1.0 + 0.5 * t, -0.5 + t][:m]), t)
        x0 = np.zeros(n)
    elif fam == "x0":
        b = np.array([1.0, -0.75][:m])
        x0 = H.call(lambda t: jnp.stack([0.25 + t, -0.5 + 0.5 * t, 0.125 - t][:n]), t)
    else:
        b = H.call(lambda t: jnp.stack([1.5 + t, 0.5 - 0.25 * t][:m]), t)
        x0 = np.array([0.25, -0.125, 0.0][:n])
    return b, x0


def state_ok(H, A, bv, tau, st, sigma=None):
    xv, rv, gv = H.val(st.x).reshape(-1), H.val(st.r).reshape(-1), H.val(st.g).reshape(-1)
    A = H.val(np.array(A))
    H.claim("inside the l1 ball", H.le(total(list(H.absv(xv))), tau, 1e-7))
    H.eq("residual of the solution", rv, bv - A @ xv, TOL)
    H.eq("gradient of the solution", gv, -(A.T @ rv), TOL)
    f = H.val(st.f_past).reshape(-1)
    e = dot(rv, rv)
    H.eq("objective of the solution", np.array([f[0]]), np.array([e * num(H, 0.5)]), TOL)
    rn = sc(H, st.r_norm)
    H.claim("residual norm sign", H.le(0, rn, 1e-9))
    H.eq("residual norm", np.array([rn * rn]), np.array([e]), TOL)
    return xv, rv, gv, f, rn


def gap_ok(H, st, bv, rv, gv, f, tau):
    gap = dot(rv, [a - b for a, b in zip(rv, bv)]) + tau * H.max(H.absv(np.array(gv)))
    fm = H.max(np.array([num(H, 1), f], dtype=object if H.symbolic else float))
    H.eq("relative duality gap", np.array([sc(H, st.r_gap) * fm]), H.absv(np.array([gap])), TOL)


def step_ok(H, s0, s1, x0, g0, f0, x1, g1, f1, tau, gamma, amin, amax, bp=False):
    """s1 follows s0 by one spectral projected gradient iteration."""
    al = sc(H, s1.alpha)
    a0 = sc(H, s0.alpha_next)
    ls = ints(H, s1.n_ls_iters)[0] - ints(H, s0.n_ls_iters)[0]
    H.claim("line search within its limit", 0 <= ls <= 10)
    H.claim("past objectives shift", len(f0) == len(f1))
    for a, b in zip(f1[1:], f0[:-1]):
        H.eq("past objectives shift", np.array([a]), np.array([b]), TOL)
    H.eq("step is halved by every line search iteration", np.array([al * num(H, 2.0 ** ls)]), np.array([1.0]), TOL)
    d = x1 - x0
    gtd = dot(list(g0), list(d)) * a0
    fm = H.max(f0)
    if ls == 0:
        H.claim("sufficient decrease or no descent", H.or_(H.le(0, gtd, 1e-9), H.le(f1[0], fm + gtd * num(H, gamma), 1e-9)))
    elif ls < 10:
        H.claim("no increase or no descent", H.or_(H.le(0, gtd, 1e-9), H.le(f1[0], fm, 1e-9)))
    if ls == 0:
        # x1 is the projection of x0 - a0 g0
        v = x0 - g0 * a0
        au, av = H.absv(x1), H.absv(v)
        n = len(v)
        H.claim("projected: unchanged when inside", H.implies(H.le(total(list(av)), tau, -1e-9), H.and_(*[H.and_(H.le(a, b, 1e-6), H.le(b, a, 1e-6)) for a, b in zip(x1, v)])))
        dd = [a - b for a, b in zip(av, au)]
        for j in range(n):
            H.claim("projected: direction is kept", H.le(0, x1[j] * v[j], 1e-9))
            H.claim("projected: magnitudes shrink", H.le(0, dd[j], 1e-6))
            for k in range(n):
                if k != j:
                    H.claim("projected: removed amount is largest on surviving entries", H.or_(H.le(au[j], 0, 1e-9), H.le(dd[k], dd[j], 1e-6)))
        H.claim("projected: on the sphere when outside", H.implies(H.le(tau, total(list(av))), H.le(tau, total(list(au)), 1e-6)))
    y = g1 - g0
    sts, sty = dot(list(d), list(d)), dot(list(d), list(y))
    an = sc(H, s1.alpha_next)
    lo, hi = num(H, amin), num(H, amax)
    H.assume(H.or_(H.le(sty, num(H, -1e-9)), H.le(num(H, 1e-9), sty)))
    if H.branch(H.le(sty, 0)):
        H.eq("largest step without curvature", np.array([an]), np.array([hi]), TOL)
    else:
        H.claim("next step is clipped", H.and_(H.le(lo, an, 1e-9), H.le(an, hi, 1e-9)))
        H.claim("next step is the spectral step", H.or_(
            H.and_(H.le(an * sty, sts, TOL), H.le(sts, an * sty, TOL)),
            H.and_(H.le(an, lo, 1e-9), H.le(sts, lo * sty, 1e-9)), H.and_(H.le(hi, an, 1e-9), H.le(hi * sty, sts, 1e-9))))
    return ls


def lasso(mat, fam, tau, K, opt_tol=1e-4, memory=2, amin=1e-16, amax=1e5, gamma=1e-4, jit=False):
    A = np.array(MATS[mat])
    m, n = A.shape

    def body(H):
        b, x0 = data(H, mat, fam, m, n)
        T = lop.matrix(J(A))
        bv = H.val(b).reshape(-1)

        def go(k):
            opt = sg.SPGL1Options(opt_tol=opt_tol, memory=memory, alpha_min=amin, alpha_max=amax, gamma=gamma, max_iters=k)
            if jit:
                return H.call(lambda b: sg.solve_lasso_jit(T, b, tau, options=opt), b)
            if fam == "b":
                return H.call(lambda b: sg.solve_lasso(T, b, tau, options=opt), b)
            return H.call(lambda b, x0: sg.solve_lasso_from(T, b, tau, x0, options=opt), b, x0)
        s0, s1 = go(K - 1), go(K)
        k0, k1 = ints(H, s0.iterations)[0], ints(H, s1.iterations)[0]
        q = num(H, tau)
        xv0, rv0, gv0, f0, rn0 = state_ok(H, A, bv, q, s0)
        xv1, rv1, gv1, f1, rn1 = state_ok(H, A, bv, q, s1)
        gap_ok(H, s1, bv, rv1, gv1, f1[0], q)
        H.claim("iteration limit", k0 <= K - 1 and k1 <= K and k1 >= k0)
        bn = H.sqrt(dot(list(bv), list(bv)))
        tol = num(H, opt_tol)
        if k1 == k0:
            H.claim("stops early only when a tolerance holds", H.or_(H.le(sc(H, s1.r_gap), tol, 1e-9), H.le(rn1, bn * tol, 1e-9)))
        else:
            H.claim("one more iteration", k1 == k0 + 1 and k0 == K - 1)
            H.claim("continues only while no tolerance holds", H.and_(H.le(tol, sc(H, s0.r_gap), 1e-9), H.le(bn * tol, rn0, 1e-9)))
            ls = step_ok(H, s0, s1, xv0, gv0, f0, xv1, gv1, f1, q, gamma, amin, amax)
            H.claim("operator applications are counted", ints(H, s1.n_times)[0] == ints(H, s0.n_times)[0] + ls + 1)
            H.claim("adjoint applications are counted", ints(H, s1.n_trans)[0] == ints(H, s0.n_trans)[0] + 1)
        if K == 2:
            H.claim("first counts", ints(H, s0.n_times)[0] == 1 and ints(H, s0.n_trans)[0] == 1 and k0 == 1)
    return body


def bpic(mat, fam, sigma, K, kind="from", **kw):
    A = np.array(MATS[mat])
    m, n = A.shape
    o = dict(opt_tol=1e-4, memory=2, alpha_min=1e-16, alpha_max=1e5, gamma=1e-4, dec_tol=1e-4)
    o.update(kw)

    def body(H):
        b, x0 = data(H, mat, fam, m, n)
        T = lop.matrix(J(A))
        bv = H.val(b).reshape(-1)

        def go(k):
            opt = sg.SPGL1Options(max_iters=k, **o)
            if kind == "bp":
                return H.call(lambda b: sg.solve_bp(T, b, options=opt), b)
            if kind == "bpic":
                return H.call(lambda b: sg.solve_bpic(T, b, sigma, options=opt), b)
            return H.call(lambda b, x0: sg.solve_bpic_from(T, b, sigma, x0, options=opt), b, x0)
        s0, s1 = go(K - 1), go(K)
        k0, k1 = ints(H, s0.iterations)[0], ints(H, s1.iterations)[0]
        t0, t1 = sc(H, s0.tau), sc(H, s1.tau)
        xv0, rv0, gv0, f0, rn0 = state_ok(H, A, bv, H.max(np.array([t0, total(list(H.absv(H.val(s0.x).reshape(-1))))])) if k0 == 1 else t0, s0)
        big = H.max(np.array([t0, t1]))
        xv1, rv1, gv1, f1, rn1 = state_ok(H, A, bv, t1, s1) if k1 > 1 else state_ok(H, A, bv, H.max(np.array([t1, total(list(H.absv(H.val(s1.x).reshape(-1))))])), s1)
        H.claim("iteration limit", k0 <= K - 1 and k0 <= k1 <= K)
        H.claim("l1 bound is not negative", H.le(0, t1, 1e-9))
        sg_ = num(H, sigma)
        tol = num(H, o["opt_tol"])
        one = num(H, 1)
        rm = H.max(np.array([one, rn1]))
        fm = H.max(np.array([one, f1[0]]))
        H.eq("relative residual error", np.array([sc(H, s1.r_res_error) * rm]), H.absv(np.array([rn1 - sg_])), TOL)
        H.eq("relative objective error", np.array([sc(H, s1.r_f_error) * fm]), H.absv(np.array([f1[0] - sg_ * sg_ * num(H, 0.5)])), TOL)
        if k1 == k0:
            gap, re_, fe = sc(H, s1.r_gap), sc(H, s1.r_res_error), sc(H, s1.r_f_error)
            bn = H.sqrt(dot(list(bv), list(bv)))
            H.claim("stops early only at a root or an optimum", H.and_(
                H.or_(H.le(gap, H.max(np.array([tol, fe])), 1e-9), H.le(re_, tol, 1e-9)),
                H.or_(H.le(rn1, sg_, 1e-9), H.le(re_, tol, 1e-9), H.le(rn1, bn * num(H, 1e-6), 1e-9))))
            return
        H.claim("one more iteration", k1 == k0 + 1 and k0 == K - 1)
        c0 = bool(ints(H, s0.tau_changed)[0])
        c1 = bool(ints(H, s1.tau_changed)[0])
        H.claim("the bound does not change twice in a row", not (c0 and c1))
        H.claim("Newton steps are counted", ints(H, s1.n_newton)[0] == ints(H, s0.n_newton)[0] + int(c1))
        if not c1:
            H.eq("bound is kept", np.array([t1]), np.array([t0]), TOL)
            step_ok(H, s0, s1, xv0, gv0, f0, xv1, gv1, f1, t0, o["gamma"], o["alpha_min"], o["alpha_max"])
            gap_ok(H, s1, bv, rv1, gv1, f1[0], t0)
        elif H.branch(H.le(t0, t1)):
            # Newton update of the bound from the residual of the new point
            gm = H.max(H.absv(gv1))
            H.eq("Newton update of the bound", np.array([(t1 - t0) * gm]), np.array([rn1 * (rn1 - sg_)]), TOL)
        ls = ints(H, s1.n_ls_iters)[0] - ints(H, s0.n_ls_iters)[0]
        red = 1 if c1 and not H.branch(H.le(t0, t1)) else 0
        H.claim("operator applications are counted", ints(H, s1.n_times)[0] == ints(H, s0.n_times)[0] + ls + 1 + red)
        H.claim("adjoint applications are counted", ints(H, s1.n_trans)[0] == ints(H, s0.n_trans)[0] + 1 + red)
    return body


REDUCED = {
    "12": [[[0.5, 1.0]], [1.5], [-1.75, 1.75], 1.125],
    "22": [[[0.0, -0.5], [-0.5, 1.5]], [-0.75, -1.0], [0.75, 0.0], 1.0],
    "22-zero": [[[0.5, 0.0], [-1.0, 0.0]], [1.25, -1.5], [2.0, -1.75], 0.75],
}


def reduced(name, K=3, lo=-0.0001, hi=0.0001):
    """sigma varies around data for which the l1 bound is reduced: every metric belongs to the projected solution."""
    A, b, x0 = (np.array(v) for v in REDUCED[name][:3])
    s = REDUCED[name][3]

    def body(H):
        t = H.inputs(t=((), lo, hi))
        sigma = H.call(lambda t: s + t, t)
        T = lop.matrix(J(A))

        def go(k):
            return H.call(lambda g: sg.solve_bpic_from(T, J(b), g, J(x0), options=sg.SPGL1Options(max_iters=k)), sigma)
        s0, s1 = go(K - 1), go(K)
        t0, t1 = sc(H, s0.tau), sc(H, s1.tau)
        bv = H.val(b)
        H.claim("iterations", ints(H, s1.iterations)[0] == K)
        xv, rv, gv, f, rn = state_ok(H, A, bv, t1, s1)
        sv = sc(H, sigma)
        one = num(H, 1)
        H.eq("relative residual error", np.array([sc(H, s1.r_res_error) * H.max(np.array([one, rn]))]), H.absv(np.array([rn - sv])), TOL)
        H.eq("relative objective error", np.array([sc(H, s1.r_f_error) * H.max(np.array([one, f[0]]))]), H.absv(np.array([f[0] - sv * sv * num(H, 0.5)])), TOL)
        gap_ok(H, s1, bv, rv, gv, f[0], t1)
        red = 1
        H.claim("the bound is reduced", H.lt(t1, t0) if hasattr(H, "lt") else H.not_(H.le(t0, t1)))
        ls = ints(H, s1.n_ls_iters)[0] - ints(H, s0.n_ls_iters)[0]
        H.claim("operator applications are counted", ints(H, s1.n_times)[0] == ints(H, s0.n_times)[0] + ls + 1 + red)
        H.claim("adjoint applications are counted", ints(H, s1.n_trans)[0] == ints(H, s0.n_trans)[0] + 1 + red)
    return body


def first_bound(mat, fam, sigma, kind="from"):
    """The starting l1 bound is a Newton step from the bound |x0|_1."""
    A = np.array(MATS[mat])
    m, n = A.shape

    def body(H):
        b, x0 = data(H, mat, fam, m, n)
        T = lop.matrix(J(A))
        bv = H.val(b).reshape(-1)
        opt = sg.SPGL1Options(max_iters=1)
        st = H.call(lambda b, x0: sg.solve_bpic_from(T, b, sigma, x0, options=opt), b, x0)
        H.claim("no iterations", ints(H, st.iterations)[0] == 1)
        x = H.val(x0).reshape(-1)
        H.eq("starts at the given point", H.val(st.x).reshape(-1), x, TOL)
        t = total(list(H.absv(x)))
        xv, rv, gv, f, rn = state_ok(H, A, bv, t, st)
        gm = H.max(H.absv(gv))
        H.assume(H.le(num(H, 1e-3), gm))
        tau = sc(H, st.tau)
        step = rn * (rn - num(H, sigma))
        H.claim("bound is not negative", H.le(0, tau, 1e-9))
        H.claim("Newton step of the bound", H.or_(
            H.and_(H.le((tau - t) * gm, step, TOL), H.le(step, (tau - t) * gm, TOL)), H.and_(H.le(tau, 0, 1e-9), H.le(t * gm + step, 0, 1e-7))))
    return body


SLOW = {"lasso/21-b-t0.5-k2", "lasso/21-b-t1.25-k2", "lasso/21-x0-t1.25-k2", "lasso/12-x0-t1.25-k2", "lasso/23-bx-t1.25-k2",
        "lasso/23-b-t1.25-k2", "bpic/1-x0-s0-k2", "bpic/12-bx-s0-k3"}


def cases(tier):
    return [c for c in all_cases(tier) if tier == "thorough" or c.name not in SLOW]


def all_cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(fork_ite=True, div0=False, timeout_ms=15000, budget_s=400 if th else 100)
    P = dict(D, fork_ite=False)
    for n in (1, 2, 3):
        out.append(Case("project/%d" % n, projection(n, False), **D))
        if n < 3:
            out.append(Case("project/at-%d" % n, projection(n, True), **D))
            out.append(Case("project/complex-%d" % n, projection(n, False, True, 0.5), **P))
    for mat in MATS:
        for fam in ("b", "x0", "bx"):
            for tau in (0.5, 1.25):
                for K in (2, 3):
                    if not th and (K == 3 and (mat == "23" or tau == 1.25) or mat == "23" and fam == "x0" or mat == "21" and K == 3):
                        continue
                    out.append(Case("lasso/%s-%s-t%g-k%d" % (mat, fam, tau, K), lasso(mat, fam, tau, K), **D))
    out.append(Case("lasso/22-b-jit", lasso("22", "b", 0.5, 2, jit=True), **D))
    out.append(Case("lasso/22-b-clip", lasso("22", "b", 5.0, 2, amin=0.5, amax=0.75), **D))
    out.append(Case("lasso/12-x0-tol", lasso("12", "x0", 1.25, 3, opt_tol=0.25), **D))
    for mat in MATS:
        for fam in ("b", "x0", "bx"):
            for sg_ in (0.0, 0.25):
                out.append(Case("bound/%s-%s-s%g" % (mat, fam, sg_), first_bound(mat, fam, sg_), **D))
                if th or mat in ("1", "12") and (fam != "x0" or mat == "1" and sg_ == 0):
                    out.append(Case("bpic/%s-%s-s%g-k2" % (mat, fam, sg_), bpic(mat, fam, sg_, 2), **D))
                if th or mat in ("1", "12") and fam == "bx":
                    out.append(Case("bpic/%s-%s-s%g-k3" % (mat, fam, sg_), bpic(mat, fam, sg_, 3, dec_tol=10.0), **D))
    out.append(Case("bpic/1-bp", bpic("1", "b", 0.0, 2, kind="bp"), **D))
    out.append(Case("bpic/1-bpic", bpic("1", "b", 0.25, 2, kind="bpic"), **D))
    for name in REDUCED if th else ("12",):
        out.append(Case("reduced/" + name, reduced(name), **D))
    return out
