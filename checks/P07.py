"""Indicator functions agree with the sets they describe."""
import numpy as np
import jax.numpy as jnp
from cr.sparse import opt
from .common import *

MARGIN = 1e-6


def verdict(H, v, inside, outside):
    v = H.val(v).reshape(-1)[0]
    H.claim("members get 0", H.implies(inside, H.and_(H.le(v, 0), H.le(0, v))))
    H.claim("non-members get infinity", H.implies(outside, H.lt(1e12, v)))
    H.claim("value is 0 or infinity", H.or_(H.and_(H.le(v, 0), H.le(0, v)), H.lt(1e12, v)))


def nonlin(build, n, gap, m=None, q0=None, shape=None, A=None, bnd=2):
    """gap(H, x, b, q) = (inside with margin, outside with margin)"""
    sh = shape or (n,)

    def body(H):
        x, b, q = H.inputs(x=(sh, -bnd, bnd), b=((m,) if m else sh, -1, 1), q=((), 0.25, 2))
        v = H.call(build, x, b, q)
        qv = H.val(q if q0 is None else q0).reshape(-1)[0]
        verdict(H, v, *gap(H, H.val(x).reshape(-1), H.val(b).reshape(-1), qv))
    return body


def ss(H, r):
    return inner(H, r, r)[0]


def s1(H, r):
    a = H.absv(r).reshape(-1)
    s = a[0]
    for i in range(1, len(a)):
        s = s + a[i]
    return s


def g2(f):
    def gap(H, x, b, q):
        r = ss(H, f(H, x, b))
        return H.le(r, q * q - MARGIN), H.le(q * q + MARGIN, r)
    return gap


def g1(f):
    def gap(H, x, b, q):
        r = s1(H, f(H, x, b))
        return H.le(r, q - MARGIN), H.le(q + MARGIN, r)
    return gap


def gzero(H, x, b, q):
    c = [H.eq0(x[i], 0) for i in range(len(x))]
    return H.and_(*c), H.not_(H.and_(*c))


def gsingle(H, x, b, q):
    c = [H.eq0(x[i], b[i]) for i in range(len(x))]
    return H.and_(*c), H.not_(H.and_(*c))


def gconic(H, x, b, q):
    r, t = ss(H, x[:-1]), x[-1]
    return (H.and_(H.le(0, t), H.le(r, t * t - MARGIN)), H.or_(H.lt(t, 0), H.le(t * t + MARGIN, r)))


def gaffine(A):
    def gap(H, x, b, q):
        r = ss(H, H.val(np.array(A, float)) @ x - b)
        return False, H.le(MARGIN, r)
    return gap


def gaffine0(A):
    def gap(H, x, b, q):
        r = ss(H, H.val(np.array(A, float)) @ x)
        c = [H.eq0(x[i], 0) for i in range(len(x))]
        return H.and_(*c), H.le(MARGIN, r)
    return gap


def affine_in(A, n):
    A = np.array(A, float)

    def body(H):
        x = H.inputs(x=((n,), -2, 2))
        b = H.call(lambda x: jnp.asarray(A) @ x, x)
        H.assume(H.le(0.01, ss(H, b)))
        v = H.call(lambda x, b: opt.indicator_affine(A, b)(x), x, b)
        verdict(H, v, True, False)
    return body


def box(n, lo, up, scalar, kind="box", al=True):
    sh = () if scalar else (n,)

    def body(H):
        x, l, w, a, alpha = H.inputs(x=((n,), -2, 2), l=(sh, -1, 1), w=(sh, 0, 1), a=((n,), -1, 1), alpha=((), -1, 1))
        u = H.call(lambda l, w: l + w, l, w)
        if kind == "box":
            v = H.call(lambda x, l, u: opt.indicator_box(l if lo else None, u if up else None)(x), x, l, u)
        elif al:
            v = H.call(lambda x, l, u, a, alpha: opt.indicator_box_affine(l if lo else None, u if up else None, a, alpha)(x), x, l, u, a, alpha)
        else:
            v = H.call(lambda x, l, u, a: opt.indicator_box_affine(l if lo else None, u if up else None, a)(x), x, l, u, a)
        xv, lv, uv = H.val(x), H.val(l).reshape(-1), H.val(u).reshape(-1)
        c = []
        for i in range(n):
            if lo:
                c.append(H.le(lv[0 if scalar else i], xv[i]))
            if up:
                c.append(H.le(xv[i], uv[0 if scalar else i]))
        inb = H.and_(*c) if c else True
        if kind == "box":
            verdict(H, v, inb, H.not_(inb))
        else:
            r = inner(H, a, x)[0]
            if al:
                r = r - H.val(alpha).reshape(-1)[0]
            ok = H.and_(H.le(r, 5e-7), H.le(-5e-7, r))
            bad = H.or_(H.le(2e-6, r), H.le(r, -2e-6))
            verdict(H, v, H.and_(inb, ok), H.or_(H.not_(inb), bad))
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(div0=True, timeout_ms=15000)
    ident = lambda H, x, b: x
    cen = lambda H, x, b: x - b
    for n in (1, 2, 3) + ((4,) if th else ()):
        out.append(Case("zero-%d" % n, nonlin(lambda x, b, q: opt.indicator_zero()(x), n, gzero)))
        out.append(Case("singleton-%d" % n, nonlin(lambda x, b, q: opt.indicator_singleton(b)(x), n, gsingle)))
        out.append(Case("conic-%d" % n, nonlin(lambda x, b, q: opt.indicator_conic()(x), n + 1, gconic), **D))
        out.append(Case("l1/q-%d" % n, nonlin(lambda x, b, q: opt.indicator_l1_ball(q)(x), n, g1(ident))))
        out.append(Case("l1/q-b-%d" % n, nonlin(lambda x, b, q: opt.indicator_l1_ball(q, b)(x), n, g1(cen))))
        out.append(Case("l1/default-%d" % n, nonlin(lambda x, b, q: opt.indicator_l1_ball()(x), n, g1(ident), q0=1.0)))
        for q in (0.5, 1.0, 1.75):
            out.append(Case("l2/q-%d-%g" % (n, q), nonlin(lambda x, b, _, q=q: opt.indicator_l2_ball(q)(x), n, g2(ident), q0=q), **D))
            out.append(Case("l2/q-b-%d-%g" % (n, q), nonlin(lambda x, b, _, q=q: opt.indicator_l2_ball(q, b)(x), n, g2(cen), q0=q), **D))
        out.append(Case("l2/default-%d" % n, nonlin(lambda x, b, _: opt.indicator_l2_ball()(x), n, g2(ident), q0=1.0), **D))
        for lo, up in ((1, 1), (1, 0), (0, 1), (0, 0)):
            for sc in (False, True):
                nm = "%d%d%s-%d" % (lo, up, "s" if sc else "", n)
                if lo or up:
                    out.append(Case("box/" + nm, box(n, lo, up, sc)))
                if not sc:
                    out.append(Case("box_affine/" + nm, box(n, lo, up, sc, "ba"), **D))
        out.append(Case("box_affine/alpha0-%d" % n, box(n, 1, 1, False, "ba", False), **D))
    out.append(Case("zero-2d", nonlin(lambda x, b, q: opt.indicator_zero()(x), 0, gzero, shape=(2, 2))))
    out.append(Case("singleton-2d", nonlin(lambda x, b, q: opt.indicator_singleton(b)(x), 0, gsingle, shape=(2, 2))))
    for k, A in enumerate(([[1, 2, 2]], [[1, 0.5, -1], [0, 1, 2]], [[2, 1], [1, 3], [1, -1]])):
        m, n = np.shape(A)
        AA = np.array(A, float)
        Ax = lambda H, x, b, AA=AA: H.val(AA) @ x
        Axb = lambda H, x, b, AA=AA: H.val(AA) @ x - b
        out.append(Case("affine/in-%d" % k, affine_in(A, n), **D))
        out.append(Case("affine/out-%d" % k, nonlin(lambda x, b, q, A=AA: opt.indicator_affine(A, b)(x), n, gaffine(A), m=m), **D))
        out.append(Case("affine/zero-%d" % k, nonlin(lambda x, b, q, A=AA: opt.indicator_affine(A)(x), n, gaffine0(A), m=m), **D))
        out.append(Case("l1/q-A-%d" % k, nonlin(lambda x, b, q, A=AA: opt.indicator_l1_ball(q, A=A)(x), n, g1(Ax), m=m), **D))
        out.append(Case("l1/q-b-A-%d" % k, nonlin(lambda x, b, q, A=AA: opt.indicator_l1_ball(q, b, A)(x), n, g1(Axb), m=m), **D))
        out.append(Case("l2/q-A-%d" % k, nonlin(lambda x, b, q, A=AA: opt.indicator_l2_ball(0.75, A=A)(x), n, g2(Ax), m=m, q0=0.75), **D))
        out.append(Case("l2/q-b-A-%d" % k, nonlin(lambda x, b, q, A=AA: opt.indicator_l2_ball(1.25, b, A)(x), n, g2(Axb), m=m, q0=1.25), **D))
    return out
