"""Proximal operators minimise what they promise; combined value/vector functions agree."""
import itertools
import numpy as np
import jax.numpy as jnp
from cr.sparse import opt
from cr.sparse._src.opt.proximal_ops import prox as proxmod
from .common import *
from .P06 import l1 as l1ball_kkt, rsum

TOL = 1e-6


def consistent(H, build, x, t, extra, f, p):
    """prox_vec_val(x, t) = (prox_op(x, t), func(prox_op(x, t)))"""
    pv = H.call(lambda x, t, *e: build(*e).prox_vec_val(x, t), x, t, *extra)
    fp = H.call(lambda p, *e: build(*e).func(p), p, *extra)
    H.eq("prox_vec_val vector", pv[0], p, TOL)
    H.eq("prox_vec_val value", H.val(pv[1]).reshape(-1), H.val(fp).reshape(-1), TOL)


def l1(n, mode, shape=None):
    sh = shape or (n,)
    vec = mode == "vec"

    def body(H):
        x, t, q = H.inputs(x=(sh, -2, 2), t=((), 0.125, 2), q=(sh if vec else (), 0.125, 2))
        build = (lambda q: opt.prox_l1()) if mode == "default" else (lambda q: opt.prox_l1(q))
        if mode == "default":
            q = np.array(1.0)
        p = H.call(lambda x, t, q: build(q).prox_op(x, t), x, t, q)
        xv, pv = H.val(x).reshape(-1), H.val(p).reshape(-1)
        tv, qv = H.val(t).reshape(-1)[0], H.val(q).reshape(-1)
        for i in range(len(xv)):
            k = tv * qv[i if vec else 0]
            g = xv[i] - pv[i]
            H.claim("subgradient %d" % i, H.and_(
                H.le(g, k, TOL), H.le(-k, g, TOL),
                H.implies(H.lt(TOL, pv[i]), H.le(k, g, TOL)),
                H.implies(H.lt(pv[i], -TOL), H.le(g, -k, TOL))))
        f = H.call(lambda x, q: build(q).func(x), x, q)
        a = H.absv(x).reshape(-1)
        H.eq("value", H.val(f).reshape(-1), np.array([rsum(H, [a[i] * qv[i if vec else 0] for i in range(len(a))])]), TOL)
        consistent(H, build, x, t, (q,), f, p)
    return body


def l1pos(n, mode):
    vec = mode == "vec"

    def body(H):
        x, t, q = H.inputs(x=((n,), -2, 2), t=((), 0.125, 2), q=((n,) if vec else (), 0.125, 2))
        build = (lambda q: opt.prox_l1_pos()) if mode == "default" else (lambda q: opt.prox_l1_pos(q))
        if mode == "default":
            q = np.array(1.0)
        p = H.call(lambda x, t, q: build(q).prox_op(x, t), x, t, q)
        xv, pv = H.val(x), H.val(p)
        tv, qv = H.val(t).reshape(-1)[0], H.val(q).reshape(-1)
        for i in range(n):
            k = tv * qv[i if vec else 0]
            g = xv[i] - pv[i]
            H.claim("subgradient %d" % i, H.and_(H.le(0, pv[i]), H.le(g, k, TOL), H.implies(H.lt(TOL, pv[i]), H.le(k, g, TOL))))
        f = H.val(H.call(lambda x, q: build(q).func(x), x, q)).reshape(-1)[0]
        s = rsum(H, [xv[i] * qv[i if vec else 0] for i in range(n)])
        neg = H.or_(*[H.lt(xv[i], 0) for i in range(n)])
        H.claim("value outside the domain", H.implies(neg, H.lt(1e12, f)))
        H.claim("value", H.or_(neg, H.and_(H.le(f, s, TOL), H.le(s, f, TOL))))
        consistent(H, build, x, t, (q,), f, p)
    return body


def l2(n, mode):
    def body(H):
        x, t, q = H.inputs(x=((n,), -2, 2), t=((), 0.125, 2), q=((), 0.125, 2))
        build = (lambda q: opt.prox_l2()) if mode == "default" else (lambda q: opt.prox_l2(q))
        if mode == "default":
            q = np.array(1.0)
        p = H.call(lambda x, t, q: build(q).prox_op(x, t), x, t, q)
        xv, pv = H.val(x), H.val(p)
        k = H.val(t).reshape(-1)[0] * H.val(q).reshape(-1)[0]
        xx = inner(H, xv, xv)[0]
        if H.branch(H.le(xx, k * k)):
            H.eq("small vectors go to zero", pv, H.val(np.zeros(n)), TOL)
        else:
            g = xv - pv
            gg = inner(H, g, g)[0]
            H.claim("step length t q", H.and_(H.le(gg, k * k, TOL), H.le(k * k, gg, TOL)))
            # g = c x with c >= 0, and p = (1 - c) x with c <= 1
            H.claim("towards the origin", H.le(0, inner(H, g, xv)[0], TOL))
            H.claim("same side", H.le(0, inner(H, pv, xv)[0], TOL))
            for i in range(n):
                for j in range(i):
                    H.eq("radial", np.array([pv[i] * xv[j]]), np.array([pv[j] * xv[i]]), TOL)
        f = H.val(H.call(lambda x, q: build(q).func(x), x, q)).reshape(-1)[0]
        qv = H.val(q).reshape(-1)[0]
        H.claim("value", H.and_(H.le(0, f), H.le(f * f, qv * qv * xx, TOL), H.le(qv * qv * xx, f * f, TOL)))
        consistent(H, build, x, t, (q,), f, p)
    return body


def owl1(n, mode, t0=None, shape=None):
    sh = shape or (n,)

    def body(H):
        x, t, l = H.inputs(x=(sh, -2, 2), t=((), 0.25, 2), l=((n,), 0, 1))
        if t0 is not None:
            t = np.array(t0)
            for i, v in enumerate(H.val(x).reshape(-1)):
                H.assume(H.le(0, v) if i != 1 else H.le(v, 0))
            if n > 2:
                w = H.val(x).reshape(-1)
                H.assume(H.le(w[0], -w[1]))
        if mode == "vec":
            L = H.call(lambda l: jnp.cumsum(l[::-1])[::-1], l)      # non-increasing, non-negative
            build = lambda L: opt.prox_owl1(L)
        elif isinstance(mode, tuple):
            L = np.array(mode)
            build = lambda L: opt.prox_owl1(L)
        elif mode == "scalar":
            L = np.array(0.75)
            build = lambda L: opt.prox_owl1(0.75)
        else:
            L = np.array(1.0)
            build = lambda L: opt.prox_owl1()
        p = H.call(lambda x, t, L: build(L).prox_op(x, t), x, t, L)
        H.claim("shape", H.shape(p) == sh)
        xv, pv = H.val(x).reshape(-1), H.resolve(p).reshape(-1)
        tv, Lv = H.val(t).reshape(-1)[0], H.val(L).reshape(-1)
        if len(Lv) == 1:
            Lv = np.array([Lv[0]] * n)
        g = xv - pv
        ag, ap = H.absv(g), H.absv(pv)
        cum = 0
        for k in range(1, n + 1):
            cum = cum + tv * Lv[k - 1]
            for S in itertools.combinations(range(n), k):
                H.claim("dual feasible %s" % (S,), H.le(rsum(H, [ag[i] for i in S]), cum, TOL))
        # <x - p, p> = t J(p)
        Jp = H.resolve(H.call(lambda p, L: build(L).func(p), p, L)).reshape(-1)[0]
        H.claim("attained", H.and_(H.le(Jp * tv, inner(H, g, pv)[0], TOL), H.le(inner(H, g, pv)[0], Jp * tv, TOL)))
        f = H.call(lambda x, L: build(L).func(x), x, L)
        fv = H.val(f).reshape(-1)[0]
        ax = H.absv(xv)
        best = H.max(np.array([rsum(H, [Lv[k] * ax[perm[k]] for k in range(n)]) for perm in itertools.permutations(range(n))]))
        H.claim("value", H.and_(H.le(fv, best, TOL), H.le(best, fv, TOL)))
        consistent(H, build, x, t, (L,), f, p)
    return body


def zero(n):
    def body(H):
        x, t = H.inputs(x=((n,), -2, 2), t=((), 0.125, 2))
        op = opt.prox_zero()
        p = H.call(op.prox_op, x, t)
        H.eq("identity", p, H.val(x), TOL)
        H.eq("value", H.val(H.call(op.func, x)).reshape(-1), np.array([0.0]), TOL)
        consistent(H, lambda: op, x, t, (), None, p)
    return body


def ball_value(n):
    def body(H):
        x, q, t = H.inputs(x=((n,), -2, 2), q=((), 0.25, 2), t=((), 0.125, 2))
        z, v = H.call(lambda x, q, t: opt.prox_l1_ball(q).prox_vec_val(x, t), x, q, t)
        p = H.call(lambda x, q, t: opt.prox_l1_ball(q).prox_op(x, t), x, q, t)
        H.eq("vector", z, p, TOL)
        H.eq("value", H.val(v).reshape(-1), np.array([0.0]), TOL)
        f = H.val(H.call(lambda x, q: opt.prox_l1_ball(q).func(x), x, q)).reshape(-1)[0]
        s = rsum(H, H.absv(x))
        qv = H.val(q).reshape(-1)[0]
        H.claim("indicator inside", H.implies(H.le(s, qv - TOL), H.and_(H.le(f, 0), H.le(0, f))))
        H.claim("indicator outside", H.implies(H.le(qv + TOL, s), H.lt(1e12, f)))
    return body


def generic(n, kind):
    """Wrappers built from user functions."""
    def body(H):
        x, t, w = H.inputs(x=((n,), -2, 2), t=((), 0.125, 2), w=((n,), -1, 1))
        if kind == "build":
            b = lambda w: opt.prox_build(lambda x: jnp.sum(w * x), lambda x, t: x - t * w)
        elif kind == "build3":
            b = lambda w: proxmod.build3(lambda x: jnp.sum(w * x), lambda x, t: x - t * w,
                                         lambda x, t: (x - t * w, jnp.sum(w * (x - t * w))))
        else:
            b = lambda w: opt.build_from_ind_proj(opt.indicator_box(w), opt.proj_box(w))
        p = H.call(lambda x, t, w: b(w).prox_op(x, t), x, t, w)
        if kind == "ind":
            e = H.call(lambda x, w: opt.proj_box(w)(x), x, w)
        else:
            e = H.val(x) - H.val(t).reshape(-1)[0] * H.val(w)
        H.eq("prox", p, e, TOL)
        consistent(H, b, x, t, (w,), None, p)
        if kind != "ind":
            o = lambda w: opt.prox_value_vec(lambda x: jnp.sum(w * x), lambda x, t: x - t * w)
            H.eq("mode 0", H.val(H.call(lambda x, t, w: o(w)(x, t, 0), x, t, w)).reshape(-1), inner(H, w, x), TOL)
            H.eq("mode 1", H.call(lambda x, t, w: o(w)(x, t, 1), x, t, w), e, TOL)
            v, z = H.call(lambda x, t, w: o(w)(x, t, 2), x, t, w)
            H.eq("mode 2 vector", z, e, TOL)
            H.eq("mode 2 value", H.val(v).reshape(-1), inner(H, w, e), TOL)
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(div0=True, timeout_ms=15000)
    for n in (1, 2, 3):
        for mode in ("scalar", "vec", "default"):
            out.append(Case("l1/%s-%d" % (mode, n), l1(n, mode), max_paths=300, **D))
            out.append(Case("l1pos/%s-%d" % (mode, n), l1pos(n, mode), **D))
        for mode in ("scalar", "default"):
            out.append(Case("l2/%s-%d" % (mode, n), l2(n, mode), **D))
        out.append(Case("zero/%d" % n, zero(n)))
        out.append(Case("l1ball/kkt-%d" % n, l1ball_kkt(lambda x, b, q: opt.prox_l1_ball(q).prox_op(x, 0.7), n, False), max_paths=400, budget_s=200, **D))
        out.append(Case("l1ball/value-%d" % n, ball_value(n), max_paths=400, **D))
        for k in ("build", "build3", "ind"):
            out.append(Case("wrap/%s-%d" % (k, n), generic(n, k)))
    out.append(Case("l1/matrix", l1(4, "scalar", (2, 2)), max_paths=300, **D))
    for n in (1, 2) + ((3,) if th else ()):
        out.append(Case("owl1/vec-%d" % n, owl1(n, "vec", None if n < 3 else 0.5), max_paths=600, budget_s=240 if n < 3 else 700, **D))
    for n in (1, 2, 3) + ((4,) if th else ()):
        for mode in (("scalar", "default") if n < 3 or th else ("scalar",)):
            out.append(Case("owl1/%s-%d" % (mode, n), owl1(n, mode, None if n < 3 else 0.5), max_paths=600, budget_s=240 if n < 4 else 700, **D))
    for L in ((1.5, 1.0, 0.25), (1.0, 0.5, 0.5)) + (((2.0, 0.5, 0.0), (1.0, 1.0, 0.5)) if th else ()):
        out.append(Case("owl1/fixed-%s" % "_".join(map(str, L)), owl1(3, L, 0.5), max_paths=600, budget_s=240, **D))
    return out
