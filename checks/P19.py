"""One-bit compressive sensing: measurement, BIHT, renormalised fixed point iteration."""
from fractions import Fraction
import numpy as np
import jax.numpy as jnp
from cr.sparse._src.cs.cs1bit.util import measure_1bit
from cr.sparse._src.cs.cs1bit.biht import biht, biht_jit
from cr.sparse._src.cs.cs1bit import rfp as rfpm
from .common import *

TOL = 1e-6
PHI = {
    "a22": ([[1.0, 0.5], [-0.25, 0.75]], [[0.5, 0.0], [0.0, 1.0]]),
    "a32": ([[1.0, 0.5], [-0.25, 0.75], [0.5, -1.0]], [[0.0, 1.0], [1.0, 0.0], [0.5, 0.5]]),
    "a33": ([[1.0, 0.5, -0.25], [-0.25, 0.75, 0.5], [0.5, -1.0, 0.75]], [[0.0, 1.0, 0.0], [1.0, 0.0, 0.5], [0.5, 0.0, 0.0]]),
    "a43": ([[1.0, 0.5, -0.25], [-0.25, 0.75, 0.5], [0.5, -1.0, 0.75], [-0.5, -0.25, 1.0]], [[0.0, 1.0, 0.0], [1.0, 0.0, 0.5], [0.5, 0.0, 0.0], [0.0, 0.25, 1.0]]),
}


def zeros(H, n):
    return [Fraction(0) if H.symbolic else 0.0] * n


def arr(H, v):
    if not H.symbolic:
        return np.array(v, dtype=float)
    out = np.empty(len(v), dtype=object)
    for i, a in enumerate(v):
        out[i] = a
    return out


def dense(H, n, I, xI):
    x = zeros(H, n)
    I = [int(i) for i in np.asarray(H.ints(I)).reshape(-1)]
    for i, v in zip(I, H.val(xI).reshape(-1)):
        x[i] = v
    return I, x


def measure(m, n):
    def body(H):
        P, x = H.inputs(P=((m, n), -1, 1), x=((n,), -1, 1))
        y = H.val(H.call(measure_1bit, P, x)).reshape(-1)
        u = H.val(P) @ H.val(x)
        for a, b in zip(y, u):
            H.assume(H.or_(H.le(1e-6, b), H.le(b, -1e-6)))
            H.claim("each bit is the sign of its measurement", H.or_(
                H.and_(H.le(1.0, a, 1e-9), H.le(a, 1.0, 1e-9), H.le(0.0, b)), H.and_(H.le(-1.0, a, 1e-9), H.le(a, -1.0, 1e-9), H.le(b, 0.0))))
    return body


def zero_measure(m, n):
    def body(H):
        P = H.inputs(P=((m, n), -1, 1))
        y = H.val(H.call(lambda P: measure_1bit(P, jnp.zeros(n)), P))
        H.eq("the sign of zero is zero", y, np.zeros(m), 1e-9)
    return body


def run_biht(nm, y, K, tau, iters, jit=False):
    base, dr = (np.array(q) for q in PHI[nm])
    m, n = base.shape
    y = np.array(y, dtype=float)

    def body(H):
        t = H.inputs(t=((), -1, 1))
        P = H.call(lambda t: J(base) + t * J(dr), t)
        f = biht_jit if jit else biht
        st = H.call(lambda P: f(P, J(y), K, tau, iters), P)
        k = int(H.ints(st.iterations))
        H.claim("iterations within the limit", 0 <= k <= iters)
        Pv = H.val(P)
        x = zeros(H, n)
        ft = Fraction(tau) if H.symbolic else tau
        for i in range(k + 1):
            u = zeros(H, m)
            for a in range(m):
                s = Fraction(0) if H.symbolic else 0.0
                for b in range(n):
                    s = s + Pv[a, b] * x[b]
                u[a] = s
            if i > 0:
                for a in u:
                    H.assume(H.or_(H.le(1e-6, a), H.le(a, -1e-6)))
                yh = [1.0 if H.branch(H.le(0.0, a)) else -1.0 for a in u]
            else:
                yh = [0.0] * m
            r = [a - b for a, b in zip(y, yh)]
            wrong = sum(1 for v in r if v != 0)
            if i == k:
                break
            H.claim("continues only while bits differ", wrong > 0)
            g = [x[b] for b in range(n)]
            for b in range(n):
                for a in range(m):
                    g[b] = g[b] + Pv[a, b] * ((Fraction(int(r[a])) if H.symbolic else r[a]) * ft / 2)
            # keep K largest: away from ties
            mag = list(H.absv(arr(H, g)))
            keep = set()
            for b in range(n):
                rank = 0
                for c in range(n):
                    if c != b:
                        H.assume(H.or_(H.le(mag[b] + 1e-6, mag[c]), H.le(mag[c] + 1e-6, mag[b])))
                        rank += 1 if H.branch(H.le(mag[b], mag[c])) else 0
                if rank < K:
                    keep.add(b)
            x = [g[b] if b in keep else zeros(H, 1)[0] for b in range(n)]
        I, xs = dense(H, n, st.I, st.x_I)
        H.claim("K distinct atoms", len(set(I)) == K and all(0 <= i < n for i in I))
        H.eq("estimate", arr(H, xs), arr(H, x), TOL)
        H.eq("residual bits", H.val(st.r), np.array(r), TOL)
        H.claim("count of wrong bits", int(H.ints(st.n_mismatched_bits)) == wrong)
        if k < iters:
            H.claim("stops early only with all bits right", wrong == 0)
    return body


def run_rfp(nm, y, x0, lam, delta, inner, outer):
    """Each step descends the one-sided quadratic of the wrong signs along the sphere, shrinks and renormalises."""
    base, dr = (np.array(q) for q in PHI[nm])
    m, n = base.shape
    y = np.array(y, dtype=float)
    x0 = np.array(x0)

    def body(H):
        t = H.inputs(t=((), -0.5, 0.5))
        P = H.call(lambda t: J(base) + t * J(dr), t)
        rfpm.print = lambda *a, **k: None
        try:
            st = H.call(lambda P: rfpm.rfp(P, J(y), J(x0), lam, delta, inner, outer), P)
        finally:
            del rfpm.print
        H.claim("iteration count", int(H.ints(st.iterations)) == inner)

        def step(P, x, tau):
            c = y * (P @ x)
            g = P.T @ (J(y) * jnp.where(c <= 0, c, 0.0))
            g = g - jnp.sum(g * x) * x
            h = x - delta * g
            u = jnp.where(h > tau, h - tau, jnp.where(h < -tau, h + tau, 0.0))
            return u
        x = x0
        l = lam
        for o in range(outer):
            for i in range(inner):
                u = H.call(lambda P, x, l=l: step(P, x, delta / l), P, x)
                s = 0
                for v in H.val(u).reshape(-1):
                    s = s + v * v
                H.assume(H.le(1e-4, s))
                xp, x = x, H.call(lambda u: u / jnp.sqrt(jnp.sum(u * u)), u)
            l = l * 1.5
        xv = H.val(st.x).reshape(-1)
        s = 0
        for v in xv:
            s = s + v * v
        H.eq("unit norm", np.array([s]), np.array([1.0]), TOL)
        H.eq("estimate", xv, H.val(x).reshape(-1), TOL)
        H.eq("previous estimate", H.val(st.x_prev), H.val(xp), TOL)
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(fork_ite=True, div0=False, timeout_ms=15000, budget_s=400 if th else 100)
    for m, n in ((1, 1), (2, 2), (2, 3), (3, 2)):
        out.append(Case("measure/%dx%d" % (m, n), measure(m, n), **dict(D, fork_ite=False)))
        out.append(Case("measure/zero-%dx%d" % (m, n), zero_measure(m, n), **dict(D, fork_ite=False)))
    import itertools
    for nm in PHI:
        m, n = np.array(PHI[nm][0]).shape
        ys = list(itertools.product((1, -1), repeat=m))
        if not th and m > 2:
            ys = ys[::3]
        for y in ys:
            for K in range(1, n + 1):
                for it, tau in ((1, 1.0), (3, 0.5), (2, 2.0)):
                    if n > 2 and it == 3 and not th and K != 2:
                        continue
                    out.append(Case("biht/%s-%s-K%d-it%d" % (nm, "".join("+" if v > 0 else "-" for v in y), K, it), run_biht(nm, y, K, tau, it), **D))
        out.append(Case("biht/%s-jit" % nm, run_biht(nm, ys[0], 1, 0.5, 2, True), **D))
        out.append(Case("biht/%s-it0" % nm, run_biht(nm, ys[0], 1, 0.5, 0), **D))
    for nm in ("a22", "a32"):
        m, n = np.array(PHI[nm][0]).shape
        for y in ((1, -1, 1), (-1, 1, -1), (1, 1, 1)):
            for inner, outer in ((1, 1), (1, 2), (2, 1)):
                if inner * outer > 1 and not th and (m > 2 or y == (1, -1, 1)):
                    continue
                out.append(Case("rfp/%s-%s-%d-%d" % (nm, "".join("+" if v > 0 else "-" for v in y[:m]), inner, outer),
                                run_rfp(nm, y[:m], [0.6, 0.8], 2.0, 0.25, inner, outer), **D))
    return out
