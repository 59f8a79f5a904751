"""Smooth functions: values, gradients, translations, Moreau envelopes."""
import numpy as np
import jax
import jax.numpy as jnp
from cr.sparse import opt
from .common import *

TOL = 1e-6


def sc(H, v):
    return H.val(v).reshape(-1)[0]


def gv(H, build, x, extra):
    """func, grad; and grad_val = (grad, func)"""
    f = sc(H, H.call(lambda x, *e: build(*e).func(x), x, *extra))
    g = H.val(H.call(lambda x, *e: build(*e).grad(x), x, *extra))
    g2, f2 = H.call(lambda x, *e: build(*e).grad_val(x), x, *extra)
    H.eq("grad_val gradient", g2, g, TOL)
    H.eq("grad_val value", H.val(f2).reshape(-1), np.array([f]), TOL)
    return f, g


def exact(n, build, value, hess, extra, shape=None, tr=False):
    """f(x) = value(x); f(x+h) - f(x) - <g, h> = hess(h) for every x and h."""
    sh = shape or (n,)

    def body(H):
        specs = dict(x=(sh, -1, 1), h=(sh, -1, 1))
        for k, s in extra.items():
            specs[k] = (s, -1, 1)
        ins = H.inputs(**specs)
        x, h, e = ins[0], ins[1], ins[2:]
        f, g = gv(H, build, x, e)
        xh = H.call(lambda x, h: x + h, x, h)
        f2 = sc(H, H.call(lambda x, *e: build(*e).func(x), xh, *e))
        H.eq("value", np.array([f]), np.array([value(H, H.val(x), *[H.val(v) for v in e])]), TOL)
        lin = inner(H, H.val(g) + 0 * H.val(x), h)[0]
        H.eq("gradient is the derivative", np.array([f2 - f - lin]), np.array([hess(H, H.val(h), *[H.val(v) for v in e])]), TOL)
    return body


def sym(P):
    return P + P.T


def huber(n, mode):
    def body(H):
        x, y, t = H.inputs(x=((n,), -3, 3), y=((n,), -3, 3), t=((), 0.25, 2))
        build = (lambda t: opt.smooth_huber(t)) if mode == "tau" else (lambda t: opt.smooth_huber())
        if mode != "tau":
            t = np.array(1.0)
        f, g = gv(H, build, x, (t,))
        tv = sc(H, t)
        xv, yv = H.val(x), H.val(y)
        ax = H.absv(x)
        s = 0
        for i in range(n):
            small = H.branch(H.le(ax[i], tv))
            s = s + (H.div(xv[i] * xv[i], 2 * tv) if small else ax[i] - H.div(tv, H.val(2.0).reshape(-1)[0]))
            gi = H.div(xv[i], tv) if small else (H.val(1.0).reshape(-1)[0] if H.branch(H.lt(0, xv[i])) else H.val(-1.0).reshape(-1)[0])
            H.eq("gradient %d" % i, np.array([g[i]]), np.array([gi]), TOL)
        H.eq("value", np.array([f]), np.array([s]), TOL)
    return body


def entropy(n, build):
    def body(H):
        x = H.inputs(x=((n,), -1, 2))
        xv = H.val(x)
        neg = H.branch(H.or_(*[H.lt(xv[i], 0) for i in range(n)]))
        f = sc(H, H.call(build().func, x))
        if neg:
            H.claim("minus infinity outside the domain", H.lt(f, -1e12))
            g, v = H.call(build().grad_val, x)
            H.claim("minus infinity outside the domain (grad_val)", H.lt(sc(H, v), -1e12))
            return
        for i in range(n):
            H.assume(H.le(0.01, xv[i]))
        ref = H.call(lambda x: -jnp.sum(x * jnp.log(x)), x)
        H.eq("value", np.array([f]), np.array([sc(H, ref)]), TOL)
        f, g = gv(H, build, x, ())
        d = H.call(jax.grad(lambda x: -jnp.sum(x * jnp.log(x))), x)
        H.eq("gradient is the derivative", g, d, TOL)
    return body


def entropy_zero(build):
    def body(H):
        x = H.inputs(x=((2,), 0, 2))
        xv = H.val(x)
        H.assume(H.and_(H.eq0(xv[0], 0), H.le(0.01, xv[1])))
        f = sc(H, H.call(build().func, x))
        ref = H.call(lambda x: -x[1] * jnp.log(x[1]), x)
        H.eq("0 log 0 = 0", np.array([f]), np.array([sc(H, ref)]), TOL)
        g, v = H.call(build().grad_val, x)
        H.eq("0 log 0 = 0 (grad_val)", np.array([sc(H, v)]), np.array([f]), TOL)
    return body


def logdet(n, mode):
    def body(H):
        d, o, q, C = H.inputs(d=((n,), 0.5, 2), o=((n, n), -0.2, 0.2), q=((), 0.5, 2), C=((n, n), -1, 1))
        X = H.call(lambda d, o: jnp.diag(d) + (o + o.T) / 2 * (1 - jnp.eye(n)), d, o)
        if mode == "default":
            build = lambda q, C: opt.smooth_logdet()
        elif mode == "q":
            build = lambda q, C: opt.smooth_logdet(q)
        else:
            build = lambda q, C: opt.smooth_logdet(q, C)
        f, g = gv(H, build, X, (q, C))
        qq = sc(H, q) if mode != "default" else H.val(1.0).reshape(-1)[0]
        Xv = H.val(X)
        G = H.val(g)
        if mode == "C":
            G = G - H.val(C)
        H.eq("gradient is -q X^-1 (+ C)", Xv @ G, H.val(-np.eye(n)) * qq, TOL)
        if n == 1:
            ref = H.call(lambda X, q: -2 * q * jnp.log(jnp.sqrt(X[0, 0])), X, q if mode != "default" else np.array(1.0))
        else:
            ref = H.call(lambda X, q: -2 * q * (jnp.log(jnp.sqrt(X[0, 0])) + jnp.log(jnp.sqrt(X[1, 1] - (X[1, 0] / jnp.sqrt(X[0, 0])) ** 2))), X, q if mode != "default" else np.array(1.0))
        r = sc(H, ref)
        if mode == "C":
            r = r + inner(H, C, X)[0]
        H.eq("value", np.array([f]), np.array([r]), TOL)
    return body


def translate(n, kind):
    def body(H):
        x, b, P, q = H.inputs(x=((n,), -1, 1), b=((n,), -1, 1), P=((n, n), -1, 1), q=((n,), -1, 1))
        if kind == "quad":
            base = lambda P, q: opt.smooth_quad_matrix(P, q)
        elif kind == "huber":
            base = lambda P, q: opt.smooth_huber(0.5)
        else:
            base = lambda P, q: opt.smooth_quad_error(P, q)
        f, g = gv(H, lambda b, P, q: opt.smooth_func_translate(base(P, q), b), x, (b, P, q))
        xb = H.call(lambda x, b: x + b, x, b)
        H.eq("value at x + b", np.array([f]), np.array([sc(H, H.call(lambda x, P, q: base(P, q).func(x), xb, P, q))]), TOL)
        H.eq("gradient at x + b", g, H.call(lambda x, P, q: base(P, q).grad(x), xb, P, q), TOL)
    return body


def moreau(n, kind):
    """value f(p) + |x-p|^2/(2 mu), gradient (x-p)/mu with p = prox_f(x, mu); and the value is the minimum over z."""
    def body(H):
        x, mu, z = H.inputs(x=((n,), -2, 2), mu=((), 0.25, 2), z=((n,), -2, 2))
        base = {"l1": lambda: opt.prox_l1(), "l1pos": lambda: opt.prox_l1_pos(0.5), "zero": lambda: opt.prox_zero(), "l2": lambda: opt.prox_l2()}[kind]
        f, g = gv(H, lambda mu: opt.moreau_envelope(base(), mu), x, (mu,))
        p, v = H.call(lambda x, mu: base().prox_vec_val(x, mu), x, mu)
        m = sc(H, mu)
        d = H.val(x) - H.val(p)
        H.eq("envelope value", np.array([f]), np.array([sc(H, v) + H.div(inner(H, d, d)[0], 2 * m)]), TOL)
        H.eq("envelope gradient", g, np.array([H.div(d[i], m) for i in range(n)]), TOL)
    return body


def moreau_default(n):
    def body(H):
        x = H.inputs(x=((n,), -2, 2))
        f, g = gv(H, lambda: opt.moreau_envelope(opt.prox_l1()), x, ())
        # the envelope of |.|_1 is the Huber function
        h = opt.smooth_huber(1.0)
        H.eq("huber value", np.array([f]), np.array([sc(H, H.call(h.func, x))]), TOL)
        H.eq("huber gradient", g, H.call(h.grad, x), TOL)
    return body


def builders(n):
    """Wrappers over user functions: automatic gradient, explicit gradient, explicit pair."""
    def body(H):
        x, w = H.inputs(x=((n,), -1, 1), w=((n,), -1, 1))
        fun = lambda w: (lambda x: jnp.sum(w * x ** 3) + jnp.dot(x, x))
        gr = lambda w: (lambda x: 3 * w * x ** 2 + 2 * x)
        xv, wv = H.val(x), H.val(w)
        e = 3 * wv * xv * xv + 2 * xv
        ev = 0
        for i in range(n):
            ev = ev + wv[i] * xv[i] * xv[i] * xv[i] + xv[i] * xv[i]
        for nm, b in (("build", lambda w: opt.smooth_build(fun(w))), ("build2", lambda w: opt.smooth_build2(fun(w), gr(w))),
                      ("build3", lambda w: opt.smooth_build3(fun(w), gr(w), lambda x: (gr(w)(x), fun(w)(x))))):
            f, g = gv(H, b, x, (w,))
            H.eq(nm + " value", np.array([f]), np.array([ev]), TOL)
            H.eq(nm + " gradient", g, e, TOL)
        g, v = H.call(lambda x, w: opt.build_grad_val_func(fun(w), gr(w))(x), x, w)
        H.eq("build_grad_val_func", g, e, TOL)
        H.eq("build_grad_val_func value", H.val(v).reshape(-1), np.array([ev]), TOL)
        o = lambda w: opt.smooth_value_grad(fun(w), gr(w))
        H.eq("mode 0", H.val(H.call(lambda x, w: o(w)(x, 0), x, w)).reshape(-1), np.array([ev]), TOL)
        H.eq("mode 1", H.call(lambda x, w: o(w)(x, 1), x, w), e, TOL)
        v, g = H.call(lambda x, w: o(w)(x, 2), x, w)
        H.eq("mode 2 value", H.val(v).reshape(-1), np.array([ev]), TOL)
        H.eq("mode 2 gradient", g, e, TOL)
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    N = (1, 2, 3) + ((4, 5) if th else ())
    D = dict(div0=True, timeout_ms=15000)
    zero = lambda H, *a: H.val(0.0).reshape(-1)[0]
    ip = lambda H, a, b: inner(H, a, b)[0]
    for n in N:
        out.append(Case("constant/%d" % n, exact(n, lambda c: opt.smooth_constant(c), lambda H, x, c: c.reshape(-1)[0], zero, dict(c=()))))
        out.append(Case("constant/default-%d" % n, exact(n, lambda: opt.smooth_constant(), lambda H, x: H.val(0.0).reshape(-1)[0], zero, dict())))
        out.append(Case("linear/%d" % n, exact(n, lambda C, D: opt.smooth_linear(C, D), lambda H, x, C, D: ip(H, C, x) + D.reshape(-1)[0], zero, dict(C=(n,), D=()))))
        out.append(Case("linear/default-%d" % n, exact(n, lambda C: opt.smooth_linear(C), lambda H, x, C: ip(H, C, x), zero, dict(C=(n,)))))
        half = lambda H, v: H.div(v, H.val(2.0).reshape(-1)[0])
        S = lambda P: (P + P.T)
        combos = {
            "none": (dict(), lambda: opt.smooth_quad_matrix(), lambda H, x: half(H, ip(H, x, x)), lambda H, h: half(H, ip(H, h, h))),
            "P": (dict(P=(n, n)), lambda P: opt.smooth_quad_matrix(S(P)), lambda H, x, P: half(H, ip(H, x, S(P) @ x)), lambda H, h, P: half(H, ip(H, h, S(P) @ h))),
            "q": (dict(q=(n,)), lambda q: opt.smooth_quad_matrix(None, q), lambda H, x, q: half(H, ip(H, x, x)) + ip(H, q, x), lambda H, h, q: half(H, ip(H, h, h))),
            "r": (dict(r=()), lambda r: opt.smooth_quad_matrix(None, None, r), lambda H, x, r: half(H, ip(H, x, x)) + r.reshape(-1)[0], lambda H, h, r: half(H, ip(H, h, h))),
            "Pq": (dict(P=(n, n), q=(n,)), lambda P, q: opt.smooth_quad_matrix(S(P), q), lambda H, x, P, q: half(H, ip(H, x, S(P) @ x)) + ip(H, q, x), lambda H, h, P, q: half(H, ip(H, h, S(P) @ h))),
            "Pr": (dict(P=(n, n), r=()), lambda P, r: opt.smooth_quad_matrix(S(P), None, r), lambda H, x, P, r: half(H, ip(H, x, S(P) @ x)) + r.reshape(-1)[0], lambda H, h, P, r: half(H, ip(H, h, S(P) @ h))),
            "Pqr": (dict(P=(n, n), q=(n,), r=()), lambda P, q, r: opt.smooth_quad_matrix(S(P), q, r), lambda H, x, P, q, r: half(H, ip(H, x, S(P) @ x)) + ip(H, q, x) + r.reshape(-1)[0], lambda H, h, P, q, r: half(H, ip(H, h, S(P) @ h))),
        }
        for k, (e, b, v, hs) in combos.items():
            out.append(Case("quad/%s-%d" % (k, n), exact(n, b, v, hs, e)))
        for m in (1, 2, 3):
            out.append(Case("quad_error/%dx%d" % (m, n), exact(n, lambda A, b: opt.smooth_quad_error(A, b),
                            lambda H, x, A, b: half(H, ip(H, A @ x - b, A @ x - b)), lambda H, h, A, b: half(H, ip(H, A @ h, A @ h)), dict(A=(m, n), b=(m,)))))
        if n <= 3:
            out.append(Case("huber/tau-%d" % n, huber(n, "tau"), **D))
            out.append(Case("huber/default-%d" % n, huber(n, "d"), **D))
            out.append(Case("entropy/%d" % n, entropy(n, opt.smooth_entropy)))
            out.append(Case("entropy_vg/%d" % n, entropy(n, opt.smooth_entropy_vg)))
            out.append(Case("builders/%d" % n, builders(n)))
            for k in ("quad", "huber", "err"):
                out.append(Case("translate/%s-%d" % (k, n), translate(n, k), **D))
            for k in ("l1", "l1pos", "zero", "l2"):
                if k != "l2" or n < 3:
                    out.append(Case("moreau/%s-%d" % (k, n), moreau(n, k), **D))
            out.append(Case("moreau/default-%d" % n, moreau_default(n), **D))
    for n in (1, 2):
        for mode in ("default", "q", "C"):
            out.append(Case("logdet/%s-%d" % (mode, n), logdet(n, mode)))
    out.append(Case("entropy/zero", entropy_zero(opt.smooth_entropy)))
    out.append(Case("entropy_vg/zero", entropy_zero(opt.smooth_entropy_vg)))
    return out
