"""Thresholding operators and shrinkage."""
import numpy as np
import jax.numpy as jnp
from cr.sparse._src.geo import thresholding as th_
from cr.sparse._src.opt.shrinkage import shrink
from cr.sparse._src.sls.defs import default_threshold
from .common import *

TOL = 1e-6
M = 1e-4


def mags(H, x):
    return H.absv(x)


def soft_ref(H, name, x, tau, u):
    """u is x with every magnitude reduced by tau (zero below tau), same phase."""
    xv, uv = H.val(x).reshape(-1), H.val(u).reshape(-1)
    a = mags(H, xv)
    H.claim("shape", H.shape(x) == H.shape(u))
    for i in range(len(xv)):
        small = H.le(a[i], tau)
        H.claim("%s: entry below the threshold is zero" % name, H.implies(small, H.close(uv[i:i + 1], np.array([0.0]), TOL)))
        # u |x| = x (|x| - tau)
        H.claim("%s: magnitude is reduced by the threshold" % name,
                H.implies(H.not_(small), H.close(np.array([uv[i] * a[i]]), np.array([xv[i] * (a[i] - tau)]), TOL)))


def hard_ref(H, name, x, gamma, u, strict=True):
    xv, uv = H.val(x).reshape(-1), H.val(u).reshape(-1)
    a = mags(H, xv)
    H.claim("shape", H.shape(x) == H.shape(u))
    for i in range(len(xv)):
        H.claim("%s: small entries are zeroed" % name, H.implies(H.lt(a[i], gamma), H.close(uv[i:i + 1], np.array([0.0]), TOL)))
        H.claim("%s: large entries are kept" % name, H.implies(H.lt(gamma, a[i]), H.close(uv[i:i + 1], xv[i:i + 1], TOL)))
        # in between: one of the two
        H.claim("%s: entries are kept or zeroed" % name, H.or_(H.close(uv[i:i + 1], np.array([0.0]), TOL), H.close(uv[i:i + 1], xv[i:i + 1], TOL)))


def soft(f, n, cplx, shape=None):
    def body(H):
        x, tau = H.inputs(x=(shape or (n,), -2, 2, dt(cplx)), tau=((), 0, 2))
        u = H.call(f, x, tau)
        soft_ref(H, "soft", x, H.val(tau).reshape(-1)[0], u)
    return body


def soft_const(f, n, cplx, tau, arg):
    def body(H):
        x = H.inputs(x=((n,), -2, 2, dt(cplx)))
        u = H.call(lambda x: f(x, arg), x)
        soft_ref(H, "soft", x, tau, u)
    return body


def hard(f, n, cplx, shape=None):
    def body(H):
        x, tau = H.inputs(x=(shape or (n,), -2, 2, dt(cplx)), tau=((), 0, 2))
        u = H.call(f, x, tau)
        t = H.val(tau).reshape(-1)[0]
        xv, uv = H.val(x).reshape(-1), H.val(u).reshape(-1)
        a = mags(H, xv)
        H.claim("shape", H.shape(x) == H.shape(u))
        z = np.array([0.0])
        for i in range(len(xv)):
            H.claim("small entries are zeroed", H.implies(H.le(a[i] * a[i] + M, 2 * t), H.close(uv[i:i + 1], z, TOL)))
            H.claim("large entries are kept", H.implies(H.le(2 * t + M, a[i] * a[i]), H.close(uv[i:i + 1], xv[i:i + 1], TOL)))
            H.claim("entries are kept or zeroed", H.or_(H.close(uv[i:i + 1], z, TOL), H.close(uv[i:i + 1], xv[i:i + 1], TOL)))
    return body


def pct(H, a, perc):
    """Linear-interpolation percentile of the magnitudes, by forking on their order."""
    a = list(a)
    out = []
    for v in a:
        p = len(out)
        while p > 0 and H.branch(H.lt(v, out[p - 1])):
            p -= 1
        out.insert(p, v)
    q = perc / 100.0 * (len(a) - 1)
    lo = int(np.floor(q))
    hi = min(lo + 1, len(a) - 1)
    w = q - lo
    f = lambda s, k: s * H.val(k).reshape(-1)[0] if H.symbolic else s * k
    return f(out[lo], 1 - w) + f(out[hi], w)


def percentile(kind, f, n, cplx, perc):
    def body(H):
        x = H.inputs(x=((n,), -2, 2, dt(cplx)))
        a = mags(H, H.val(x).reshape(-1))
        g = pct(H, a, perc)
        u = H.call(lambda x: f(x, perc), x)
        if kind == "soft":
            soft_ref(H, "soft", x, g, u)
        else:
            hard_ref(H, "hard", x, g, u)
    return body


def half(n, tau, f=None, arg=None, perc=False):
    """Zero below the threshold, unchanged sign and never larger above it."""
    def body(H):
        x = H.inputs(x=((n,), -2, 2))
        a = mags(H, H.val(x).reshape(-1))
        if perc:
            g = pct(H, a, arg)
        else:
            g = (54 ** (1. / 3.) / 4.) * tau ** (2. / 3.)
        xv = H.val(x).reshape(-1)
        for v in a:
            H.assume(H.le(0.05, v))
        u = H.call(lambda x: (f or th_.half_threshold)(x, arg), x)
        uv = H.val(u).reshape(-1)
        H.claim("shape", H.shape(x) == H.shape(u))
        for i in range(n):
            H.claim("small entries are zeroed", H.implies(H.le(a[i] + M, g), H.close(uv[i:i + 1], np.array([0.0]), TOL)))
            if tau is not None:
                # stationary point of (u - x)^2 + tau sqrt|u|
                d = xv[i] - uv[i]
                H.claim("large entries solve the half-thresholding equation", H.implies(
                    H.le(g + M, a[i]), H.close(np.array([d * d * H.absv(uv[i:i + 1])[0]]), np.array([tau * tau / 16]), 1e-5)))
    return body


def conversions():
    def body(H):
        g = H.inputs(g=((), 0, 3))
        t = H.call(th_.gamma_to_tau_hard_threshold, g)
        gv = H.val(g).reshape(-1)[0]
        H.eq("gamma = sqrt(2 tau)", np.array([2 * H.val(t).reshape(-1)[0]]), np.array([gv * gv]), TOL)
    return body


def soft_props(f, n, cplx):
    """Nonexpansive, odd."""
    def body(H):
        x, tau = H.inputs(x=((n,), -2, 2, dt(cplx)), tau=((), 0, 2))
        u = H.call(f, x, tau)
        v = H.call(lambda x, t: f(-x, t), x, tau)
        H.eq("odd", H.val(v), np.array([-q for q in H.val(u).reshape(-1)]), TOL)
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(timeout_ms=10000, budget_s=120)
    jit_ = lambda f: (lambda x, t: f(x, t))
    for cplx in (False, True):
        c = "-c" if cplx else ""
        for n in (1, 2, 3):
            out.append(Case("soft/sym-%d%s" % (n, c), soft(th_.soft_threshold, n, cplx), **D))
            out.append(Case("hard/sym-%d%s" % (n, c), hard(th_.hard_threshold, n, cplx), **D))
            out.append(Case("soft/odd-%d%s" % (n, c), soft_props(th_.soft_threshold, n, cplx), **D))
            for tau in (0.0, 0.5, 1.25):
                out.append(Case("soft/jit-%d-%g%s" % (n, tau, c), soft_const(th_.soft_threshold_jit, n, cplx, tau, tau), **D))
        out.append(Case("soft/2d%s" % c, soft(th_.soft_threshold, 4, cplx, (2, 2)), **D))
        out.append(Case("hard/2d%s" % c, hard(th_.hard_threshold, 4, cplx, (2, 2)), **D))
        for n in (2, 3, 4) if not cplx else (2, 3):
            for perc in (20, 50, 70):
                for nm, f, k in (("soft", th_.soft_threshold_percentile, "soft"), ("soft-jit", th_.soft_threshold_percentile_jit, "soft"),
                                 ("hard", th_.hard_threshold_percentile, "hard"), ("hard-jit", th_.hard_threshold_percentile_jit, "hard")):
                    if "jit" in nm and n != 3 or cplx and n == 3 and perc == 70 and not th:
                        continue
                    out.append(Case("percentile/%s-%d-%d%s" % (nm, n, perc, c), percentile(k, f, n, cplx, perc), **D))
            out.append(Case("percentile/default-%d%s" % (n, c), percentile("soft", lambda x, p: default_threshold(0, x), n, cplx, 20), **D))
    for n in (1, 2, 3):
        out.append(Case("shrink/sym-%d" % n, soft(shrink, n, False), **D))
        out.append(Case("shrink/odd-%d" % n, soft_props(shrink, n, False), **D))
    out.append(Case("convert/hard", conversions(), **D))
    for n in (1, 2):
        for tau in (0.3, 1.0):
            out.append(Case("half/const-%d-%g" % (n, tau), half(n, tau, arg=tau), **D))
    for n in (3,) if th else ():
        out.append(Case("half/percentile-%d" % n, half(n, None, th_.half_threshold_percentile, 50, True), **D))
    return out
