"""Projections: feasible, nearest, idempotent."""
import numpy as np
import jax.numpy as jnp
from cr.sparse import opt
from .common import *

TOL = 1e-6


def sq(H, v):
    return inner(H, v, v)[0]


def rsum(H, xs):
    s = H.val(0.0).reshape(-1)[0]
    for x in xs:
        s = s + x
    return s


def kkt_l2(H, d, r, q, slack=0.0, cplx=False):
    """r is the nearest point to d in the ball |.| <= q (radial, on the sphere when outside)."""
    d, r = H.val(d).reshape(-1), H.val(r).reshape(-1)
    dd, rr = H.real(inner(H, d, d))[0], H.real(inner(H, r, r))[0]
    q2 = q * q
    H.claim("inside", H.le(rr, q2, TOL))
    inside = H.le(dd, q2)
    if H.branch(inside):
        H.eq("a member is left unchanged", r, d, TOL)
    else:
        H.claim("outside point lands on the sphere", H.le(q2, rr, TOL + 3 * slack))
        H.claim("same direction", H.le(0 * q, H.real(inner(H, r, d))[0]))
        for i in range(len(d)):
            for j in range(i):
                a = r[i] * d[j] - d[i] * r[j]
                H.eq("radial %d,%d" % (i, j), np.array([a]), np.array([0 * a]), TOL)
        if cplx:
            H.eq("same phase", H.imag(inner(H, d, r)), np.array([0.0]), TOL)


def l2(build, n, withb, cplx=False, fixed_q=None):
    def body(H):
        x, b, q = H.inputs(x=((n,), -2, 2, dt(cplx)), b=((n,), -1, 1), q=((), 0.25, 2))
        qq = H.val(q).reshape(-1)[0]
        if fixed_q is not None:
            qq = H.val(fixed_q).reshape(-1)[0]
        p = H.call(build, x, b, q)
        d = H.val(x) - H.val(b) if withb else H.val(x)
        r = H.val(p) - H.val(b) if withb else H.val(p)
        kkt_l2(H, d, r, qq, 2e-7 if withb else 0, cplx)
    return body


def l1(build, n, withb, q0=None):
    def body(H):
        x, b, q = H.inputs(x=((n,), -2, 2), b=((n,), -1, 1), q=((), 0.25, 2))
        p = H.call(build, x, b, q)
        q = H.val(q).reshape(-1)[0] if q0 is None else H.val(q0).reshape(-1)[0]
        d = H.val(x) - H.val(b) if withb else H.val(x)
        r = H.val(p) - H.val(b) if withb else H.val(p)
        s = rsum(H, H.absv(r))
        H.claim("inside", H.le(s, q, TOL))
        if H.branch(H.le(rsum(H, H.absv(d)), q)):
            H.eq("a member is left unchanged", r, d, TOL)
            return
        H.claim("outside point lands on the boundary", H.le(q, s, TOL))
        g = d - r
        k = H.max(H.absv(g))
        for i in range(n):
            H.claim("optimality %d" % i, H.and_(
                H.implies(H.lt(0, r[i]), H.le(k - TOL, g[i])),
                H.implies(H.lt(r[i], 0), H.le(g[i], TOL - k))))
    return body


def box(build, n, lo, up, scalar=False):
    sh = () if scalar else (n,)

    def body(H):
        x, l, w = H.inputs(x=((n,), -2, 2), l=(sh, -1, 1), w=(sh, 0, 1))
        u = H.call(lambda l, w: l + w, l, w)
        p = H.val(H.call(build, x, l, u))
        xv, lv, uv = H.val(x), H.val(l).reshape(-1), H.val(u).reshape(-1)
        for i in range(n):
            li, ui = lv[0 if scalar else i], uv[0 if scalar else i]
            c = []
            if lo:
                c.append(H.le(li, p[i], TOL))
            if up:
                c.append(H.le(p[i], ui, TOL))
            H.claim("inside %d" % i, H.and_(*c))
            below = H.le(p[i], li, TOL) if lo else False
            above = H.le(ui, p[i], TOL) if up else False
            H.claim("nearest %d" % i, H.and_(
                H.implies(H.lt(p[i] + 2 * TOL, xv[i]), above),
                H.implies(H.lt(xv[i], p[i] - 2 * TOL), below)))
    return body


def affine(A, n, bmode):
    m = len(A)
    A = np.array(A, dtype=float)
    U, S, Vt = np.linalg.svd(A)
    N = Vt[m:]

    def body(H):
        x, b = H.inputs(x=((n,), -2, 2), b=((m,), -1, 1))
        p = H.val(H.call((lambda x, b: opt.proj_affine(A, b)(x)) if bmode else (lambda x, b: opt.proj_affine(A)(x)), x, b))
        H.eq("A p = b", H.val(A) @ p, H.val(b) if bmode else H.val(np.zeros(m)), TOL)
        if len(N):
            H.eq("x - p orthogonal to the set", H.val(N) @ (H.val(x) - p), H.val(np.zeros(len(N))), TOL)
    return body


def conic(n):
    def body(H):
        x = H.inputs(x=((n + 1,), -2, 2))
        p = H.val(H.call(opt.proj_conic(), x))
        xv = H.val(x)
        z = xv - p
        H.claim("inside", H.and_(H.le(0, p[n], TOL), H.le(sq(H, p[:n]), p[n] * p[n], TOL)))
        H.claim("residual in the polar cone", H.and_(H.le(z[n], 0, TOL), H.le(sq(H, z[:n]), z[n] * z[n], TOL)))
        H.eq("residual orthogonal to the projection", inner(H, z, p), np.array([0.0]), TOL)
    return body


def simple(name, build, n, expect, shape=None):
    sh = shape or (n,)

    def body(H):
        x, c = H.inputs(x=(sh, -2, 2), c=(sh, -2, 2))
        H.eq(name, H.call(build, x, c), expect(H, H.val(x), H.val(c)), TOL)
    return body


def pbox(n, cplx, default=False):
    def body(H):
        x, r = H.inputs(x=((n,), -3, 3, dt(cplx)), r=((), 0.25, 2))
        p = H.val(H.call((lambda x, r: opt.project_to_box(x)) if default else (lambda x, r: opt.project_to_box(x, r)), x, r))
        xv = H.val(x)
        r = H.val(1.0 if default else r).reshape(-1)[0]
        for i in range(n):
            xi, pi = xv[i:i + 1], p[i:i + 1]
            kkt_l2(H, xi, pi, r, cplx=cplx)
            if not cplx:
                H.claim("sign", H.le(0, xi[0] * pi[0]))
    return body


def upper(n, cplx, default):
    def body(H):
        x, l = H.inputs(x=((n,), -3, 3, dt(cplx)), l=((), -2, 2))
        p = H.val(H.call((lambda x, l: opt.project_to_real_upper_limit(x)) if default else (lambda x, l: opt.project_to_real_upper_limit(x, l)), x, l))
        xr = H.real(x)
        l = H.val(1.0 if default else l).reshape(-1)[0]
        H.eq("real", H.imag(p), H.val(np.zeros(n)), 0)
        pr = H.real(p)
        for i in range(n):
            H.claim("limit %d" % i, H.le(pr[i], l))
            H.claim("nearest %d" % i, H.and_(H.le(pr[i], xr[i], TOL), H.or_(H.le(xr[i], pr[i], TOL), H.le(l, pr[i], TOL))))
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(div0=True, timeout_ms=15000)
    for n in (1, 2, 3) + ((4, 5) if th else ()):
        out.append(Case("ball/project_to_ball-%d" % n, l2(lambda x, b, q: opt.project_to_ball(x, q), n, False), **D))
        out.append(Case("ball/project_to_ball-default-%d" % n, l2(lambda x, b, q: opt.project_to_ball(x), n, False, fixed_q=1.0), **D))
        for q in (1.0, 0.5, 1.5):
            out.append(Case("ball/proj_l2_ball-%d-%g" % (n, q), l2(lambda x, b, _, q=q: opt.proj_l2_ball(q)(x), n, False, fixed_q=q), **D))
            out.append(Case("ball/proj_l2_ball-b-%d-%g" % (n, q), l2(lambda x, b, _, q=q: opt.proj_l2_ball(q, b)(x), n, True, fixed_q=q), **D))
        out.append(Case("ball/project_to_box-%d" % n, pbox(n, False), **D))
        out.append(Case("ball/project_to_box-default-%d" % n, pbox(n, False, True), **D))
        out.append(Case("upper/real-%d" % n, upper(n, False, False)))
        out.append(Case("upper/default-%d" % n, upper(n, False, True)))
        out.append(Case("upper/complex-%d" % n, upper(n, True, False)))
        out.append(Case("l1/q-%d" % n, l1(lambda x, b, q: opt.proj_l1_ball(q)(x), n, False), max_paths=400, budget_s=200, **D))
        out.append(Case("l1/q-b-%d" % n, l1(lambda x, b, q: opt.proj_l1_ball(q, b)(x), n, True), max_paths=400, budget_s=200, **D))
        out.append(Case("l1/default-%d" % n, l1(lambda x, b, q: opt.proj_l1_ball()(x), n, False, 1.0), max_paths=400, budget_s=200, **D))
        out.append(Case("conic/%d" % n, conic(n), **D))
        for lo, up in ((1, 1), (1, 0), (0, 1)):
            for sc in (False, True):
                out.append(Case("box/%d%d%s-%d" % (lo, up, "s" if sc else "", n),
                                box(lambda x, l, u, lo=lo, up=up: opt.proj_box(l if lo else None, u if up else None)(x), n, lo, up, sc)))
        Z = lambda H, x, c: x * H.val(0.0)
        out.append(Case("simple/zero-%d" % n, simple("zero", lambda x, c: opt.proj_zero()(x), n, Z)))
        out.append(Case("simple/identity-%d" % n, simple("identity", lambda x, c: opt.proj_identity()(x), n, lambda H, x, c: x)))
        out.append(Case("simple/singleton-%d" % n, simple("singleton", lambda x, c: opt.proj_singleton(c)(x), n, lambda H, x, c: c)))
    out.append(Case("simple/singleton-2d", simple("singleton", lambda x, c: opt.proj_singleton(c)(x), 0, lambda H, x, c: c, (2, 2))))
    out.append(Case("ball/project_to_ball-complex-2", l2(lambda x, b, q: opt.project_to_ball(x, q), 2, False, True), **D))
    out.append(Case("ball/project_to_box-complex-1", pbox(1, True), **D))
    out.append(Case("ball/project_to_box-complex-2", pbox(2, True), **D))
    for k, A in enumerate(([[1, 2, 2]], [[1, 0.5, -1, 2], [0, 1, 2, -0.5]], [[2, 1], [1, 3]], [[1, 1, 0, -1, 2], [0.5, 0, 1, 1, -1], [1, 2, -1, 0, 1]], [[3.0]])):
        n = len(A[0])
        for bm in (0, 1):
            out.append(Case("affine/%d-%s" % (k, "b" if bm else "0"), affine(A, n, bm)))
    return out
