"""Synthetic sparse signals and points on subspaces: every outcome of the draws."""
import math
import numpy as np
import jax.numpy as jnp
from cr.sparse._src.data.synthetic import random as rnd, subspaces as sub
from . import draws
from .common import *

TOL = 1e-6


def perm(H, I, n):
    v = [int(i) for i in np.asarray(H.ints(I)).reshape(-1)]
    H.assume(len(set(v)) == len(v))
    return v


def away(H, Z, eps=0.01):
    for z in H.val(Z).reshape(-1):
        H.assume(H.or_(H.le(z, -eps), H.le(eps, z)))


def support(H, X, om, D, K, S, got):
    H.claim("index set is sorted and drawn", [int(i) for i in np.asarray(H.ints(got)).reshape(-1)] == om)
    H.claim("shape", H.shape(X) == (tuple(s for s in (D, S) if s != 1)))
    Xv = H.val(X).reshape(D, S)
    off = [i for i in range(D) if i not in om]
    if off:
        H.eq("zero outside the index set", Xv[off, :], np.zeros((len(off), S)), TOL)
    return Xv[om, :]


def normal(D, K, S):
    def body(H):
        I, Z = H.inputs(I=((D,), 0, D - 1, np.int64), Z=((K, S), -3, 3))
        p = perm(H, I, D)

        def f(Z):
            with draws.use(draws.Source(normal=[Z], perm=[J(np.array(p))]), rnd) as key:
                return rnd.sparse_normal_representations(key, D, K, S)
        X, om = H.call(f, Z)
        V = support(H, X, sorted(p[:K]), D, K, S, om)
        a, b = sorted_rows(H, V), sorted_rows(H, H.val(Z))
        H.eq("nonzero values are the drawn values", a, b, TOL)
    return body


def sorted_rows(H, V):
    return V.reshape(-1)


def biuniform(D, K, S):
    def body(H):
        I, U, Z, a, w = H.inputs(I=((D,), 0, D - 1, np.int64), U=((K, S), 0, 1), Z=((K, S), -1, 1), a=((), 0.125, 2), w=((), 0, 2))
        p = perm(H, I, D)
        away(H, Z)

        def f(U, Z, a, w):
            with draws.use(draws.Source(normal=[Z], uniform=[U], perm=[J(np.array(p))]), rnd) as key:
                return rnd.sparse_biuniform_representations(key, a, a + w, D, K, S)
        X, om = H.call(f, U, Z, a, w)
        V = support(H, X, sorted(p[:K]), D, K, S, om)
        av, wv = (H.val(v).reshape(-1)[0] for v in (a, w))
        for v, u, z in zip(V.reshape(-1), H.val(U).reshape(-1), H.val(Z).reshape(-1)):
            H.claim("magnitude between a and b", H.or_(H.and_(H.le(av, v, 1e-7), H.le(v, av + wv, 1e-7)), H.and_(H.le(av, -v, 1e-7), H.le(-v, av + wv, 1e-7))))
            e = av + wv * u
            H.claim("sign and magnitude follow their draws", H.or_(
                H.and_(H.le(0, z), H.le(v, e, 1e-7), H.le(e, v, 1e-7)), H.and_(H.le(z, 0), H.le(-v, e, 1e-7), H.le(e, -v, 1e-7))))
    return body


def spikes(D, K, S):
    def body(H):
        I, Z = H.inputs(I=((D,), 0, D - 1, np.int64), Z=((K, S), -1, 1))
        p = perm(H, I, D)
        away(H, Z)

        def f(Z):
            with draws.use(draws.Source(normal=[Z], perm=[J(np.array(p))]), rnd) as key:
                return rnd.sparse_spikes(key, D, K, S)
        X, om = H.call(f, Z)
        V = support(H, X, sorted(p[:K]), D, K, S, om)
        for v, z in zip(V.reshape(-1), H.val(Z).reshape(-1)):
            H.claim("spikes of +-1 with the drawn sign", H.or_(H.and_(H.le(0, z), H.le(1, v, 1e-9), H.le(v, 1, 1e-9)), H.and_(H.le(z, 0), H.le(v, -1, 1e-9), H.le(-1, v, 1e-9))))
    return body


def index_sets(N, K, S, axis):
    def body(H):
        I = H.inputs(I=((S, N), 0, N - 1, np.int64))
        rows = [[int(i) for i in r] for r in np.asarray(H.ints(I)).reshape(S, N)]
        for r in rows:
            H.assume(len(set(r)) == N)

        def f(P):
            with draws.use(draws.Source(vm=P), rnd):
                return rnd.index_sets(draws.Key(None), N, K, S, out_axis=axis)
        out = H.call(f, J(np.array(rows)))
        v = np.asarray(H.ints(out))
        H.claim("shape", H.shape(out) == ((S, K) if axis == 0 else (K, S)))
        v = v.reshape(H.shape(out))
        v = v if axis == 0 else v.T
        H.claim("each set is its own draw of K distinct indices", [[int(i) for i in r] for r in v] == [r[:K] for r in rows])
    return body


def orthogonal(n, S):
    def body(H):
        x, Z = H.inputs(x=((n,), -1, 1), Z=((S, n), -2, 2))
        xv, Zv = H.val(x), H.val(Z)
        s = 0
        for v in xv:
            s = s + v * v
        H.assume(H.le(0.01, s))

        def f(x, Z):
            with draws.use(draws.Source(normal=[Z]), rnd) as key:
                return rnd.points_orthogonal_to(key, x, S)
        P = H.call(f, x, Z)
        H.claim("shape", H.shape(P) == (S, n))
        Pv = H.val(P)
        for i in range(S):
            d, c = 0, 0
            for j in range(n):
                d = d + Pv[i, j] * xv[j]
                c = c + Zv[i, j] * xv[j]
            H.eq("orthogonal to x", np.array([d]), np.array([0.0]), TOL)
            H.eq("draw minus its component along x", Pv[i] * s, Zv[i] * s - xv * c, TOL)
    return body


def blocks(D, K, B, S, cor, normalize):
    C = D // B

    def body(H):
        I, Z = H.inputs(I=((K,), 0, C - 1, np.int64), Z=((K * S, B), -2, 2))
        p = perm(H, I, C)
        Zv = H.val(Z)

        def f(Z):
            with draws.use(draws.Source(normal=[Z], choice=[J(np.array(p))]), rnd) as key:
                return rnd.sparse_normal_blocks(key, D, K, B, S, cor=cor, normalize_blocks=normalize)
        b2 = math.sqrt(1 - cor * cor)
        ref = []
        for r in range(K * S):
            row = [Zv[r, 0]]
            for i in range(1, B):
                row.append(row[-1] * H.val(np.array([cor]))[0] + Zv[r, i] * H.val(np.array([b2]))[0])
            ref.append(row)
            e = 0
            for v in row:
                e = e + v * v
            if normalize:
                H.assume(H.le(0.01, e))
        x, bl, ind = H.call(f, Z)
        q = sorted(p)
        H.claim("active blocks are sorted and drawn", [int(i) for i in np.asarray(H.ints(bl)).reshape(-1)] == q)
        om = [b * B + i for b in q for i in range(B)]
        V = support(H, x, om, D, K, S, ind)
        for s in range(S):
            for k in range(K):
                got = V[k * B:(k + 1) * B, s]
                want = ref[s * K + k]
                if not normalize:
                    w = np.empty(B, dtype=object) if H.symbolic else np.empty(B)
                    for i in range(B):
                        w[i] = want[i]
                    H.eq("block values follow the correlation model", got, w, TOL)
                else:
                    n, c = 0, 0
                    for i in range(B):
                        n = n + got[i] * got[i]
                        c = c + got[i] * want[i]
                    H.eq("unit norm blocks", np.array([n]), np.array([1.0]), TOL)
                    H.claim("block points along its draws", H.le(0, c, 1e-9))
                    for i in range(B):
                        H.eq("block is parallel to its draws", np.array([c * got[i]]), np.array([want[i]]), TOL)
    return body


def bad_blocks(D, B):
    def body(H):
        Z = H.inputs(Z=((1, B), -2, 2))
        with draws.use(draws.Source(normal=[Z], choice=[J(np.array([0]))]), rnd) as key:
            try:
                rnd.sparse_normal_blocks(key, D, 1, B)
                ok = False
            except ValueError:
                ok = True
        H.claim("a dimension that is not a multiple of the block length is rejected", ok)
    return body


BASE = np.array([[1.0, 0.5, -0.25], [0.25, -0.75, 0.5], [-1.0, 0.5, 1.0], [0.5, 0.25, -0.5]])
DR = np.array([[0.5, 0.0, 1.0], [0.0, 1.0, -0.5], [1.0, 0.0, 0.5], [0.0, 0.5, 0.0]])


def subspaces(N, D, K, jit=False):
    def body(H):
        t, s = H.inputs(t=((), -1, 1), s=((K, D), -1, 1))
        away(H, s)
        As = [H.call(lambda t, k=k: J(BASE[k:k + N, :D] if k + N <= 4 else BASE[:N, :D][::-1]) + t * J(DR[:N, :D]), t) for k in range(K)]

        def f(s, *As):
            with draws.use(draws.Source(normal=list(As), bernoulli=[s[k] for k in range(K)]), sub) as key:
                return sub.random_subspaces(key, N, D, K)
        Q = H.call(f, s, *As)
        H.claim("one basis per subspace", len(Q) == K)
        seen = []
        for k in range(K):
            H.claim("shape", H.shape(Q[k]) == (N, D))
            q, a = H.val(Q[k]), H.val(As[k])
            H.eq("orthonormal basis", q.T @ q, np.eye(D), TOL)
            H.eq("spans the drawn vectors", q @ (q.T @ a), a, 1e-5)
            seen.append(q)
        if D == 1 and K == 2:
            H.claim("sign is drawn", H.shape(Q[0]) == (N, 1))
    return body


def points(N, D, K, n, t0):
    def body(H):
        Zs = H.inputs(**{"Z%d" % k: ((D, n), -2, 2) for k in range(K)})
        Zs = [Zs] if K == 1 else list(Zs)
        qs = []
        c = [0.6, 0.28, -0.8]
        for k in range(K):
            ck, sk = c[k], math.sqrt(1 - c[k] ** 2)
            q = np.eye(N)
            q[:2, :2] = [[ck, -sk], [sk, ck]]
            qs.append(q[:, :D])
        for Z in Zs:
            Zv = H.val(Z)
            for j in range(n):
                e = 0
                for i in range(D):
                    e = e + Zv[i, j] * Zv[i, j]
                H.assume(H.le(0.01, e))

        def f(*Zs):
            with draws.use(draws.Source(normal=list(Zs)), sub) as key:
                return sub.uniform_points_on_subspaces(key, [J(q) for q in qs], n)
        X = H.call(f, *Zs)
        H.claim("shape", H.shape(X) == (N, K * n))
        Xv = H.val(X)
        for k in range(K):
            blk = Xv[:, k * n:(k + 1) * n]
            q = H.val(qs[k])
            H.eq("points lie on their own subspace", q @ (q.T @ blk), blk, TOL)
            co = q.T @ blk
            Zv = H.val(Zs[k])
            for j in range(n):
                e, c2 = 0, 0
                for i in range(N):
                    e = e + blk[i, j] * blk[i, j]
                for i in range(D):
                    c2 = c2 + co[i, j] * Zv[i, j]
                H.eq("unit norm points", np.array([e]), np.array([1.0]), TOL)
                H.claim("coefficients point along the draw", H.le(0, c2, 1e-9))
                for i in range(D):
                    H.eq("coefficients are the normalised draw", np.array([c2 * co[i, j]]), np.array([Zv[i, j]]), TOL)
    return body


class Lin:
    """jnp with the singular value decomposition's outcome given: any valid left factor of the matrix."""

    def __init__(self, Q, k, real):
        self.Q, self.k, self.real = Q, k, real
        self.linalg = self

    def svd(self, X, full_matrices=True, compute_uv=True, **kw):
        from symx.harness import NotCovered
        if X.ndim != 2 or X.shape[1] != self.k or not compute_uv:
            raise NotCovered("svd")
        U = self.Q if full_matrices else self.Q[:, :self.k]
        return U, jnp.ones(self.k), jnp.eye(self.k)

    def __getattr__(self, n):
        return getattr(jnp, n) if hasattr(jnp, n) else getattr(jnp.linalg, n)


def at_angle(k, N, D, theta):
    """k = 2 or 3 subspaces: orthonormal bases, pairwise smallest principal angle theta, the rest orthogonal."""
    def body(H):
        t = H.inputs(t=((2,), -1, 1))

        def ortho(t):
            Q = jnp.eye(N)
            for i in range(N - 1):
                u = t[i % 2]
                c, s = (1 - u * u) / (1 + u * u), 2 * u / (1 + u * u)
                G = jnp.eye(N).at[i, i].set(c).at[i + 1, i + 1].set(c).at[i, i + 1].set(-s).at[i + 1, i].set(s)
                Q = Q @ G
            return Q
        Q = H.call(ortho, t)
        fun = sub.two_subspaces_at_angle if k == 2 else sub.three_subspaces_at_angle

        def f(Q):
            X = Q[:, :k] * jnp.arange(k + 1, 1, -1)
            with draws.use(draws.Source(normal=[X]), sub) as key:
                old = sub.jnp
                if H.symbolic:
                    sub.jnp = Lin(Q, k, old)
                try:
                    return tuple(fun(key, N, D, theta))
                finally:
                    sub.jnp = old
        Bs = [H.val(b) for b in H.call(f, Q)]
        H.claim("one basis per subspace", len(Bs) == k)
        c = math.cos(math.radians(theta))
        for i in range(k):
            H.claim("shape", Bs[i].shape == (N, D))
            H.eq("orthonormal basis", Bs[i].T @ Bs[i], np.eye(D), TOL)
            for j in range(i):
                E = np.zeros((D, D))
                E[0, 0] = c
                H.eq("principal angle between the subspaces", Bs[i].T @ Bs[j], E, TOL)
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(max_paths=4000, div0=False, timeout_ms=15000, budget_s=400 if th else 100)
    dims = [(2, 1, 1), (3, 1, 1), (3, 2, 1), (3, 3, 1), (3, 2, 2), (4, 2, 1)] + ([(4, 2, 2), (4, 3, 2), (4, 1, 3)] if th else [])
    for d, k, s in dims:
        out.append(Case("normal/%d-%d-%d" % (d, k, s), normal(d, k, s), **D))
        out.append(Case("spikes/%d-%d-%d" % (d, k, s), spikes(d, k, s), **D))
        if d < 4 or th:
            out.append(Case("biuniform/%d-%d-%d" % (d, k, s), biuniform(d, k, s), **D))
    for N, K, S in [(2, 1, 2), (3, 2, 1), (3, 2, 2), (3, 3, 1)] + ([(4, 2, 1)] if th else []):
        for ax in (0, 1):
            out.append(Case("index_sets/%d-%d-%d-ax%d" % (N, K, S, ax), index_sets(N, K, S, ax), **D))
    for n, s in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
        out.append(Case("orthogonal/%d-%d" % (n, s), orthogonal(n, s), **D))
    for d, k, b, s in [(4, 1, 2, 1), (4, 2, 2, 1), (6, 2, 2, 1), (6, 1, 3, 2), (6, 2, 2, 2), (3, 2, 1, 1), (6, 2, 3, 1)] + ([(8, 2, 2, 2), (9, 2, 3, 2)] if th else []):
        for cor in (0.0, 0.5, -0.9):
            for nz in (False, True):
                if nz and cor == -0.9 and not th:
                    continue
                out.append(Case("blocks/%d-%d-%d-%d-c%g%s" % (d, k, b, s, cor, "-norm" if nz else ""), blocks(d, k, b, s, cor, nz), **D))
    out.append(Case("blocks/reject-5-2", bad_blocks(5, 2), **D))
    out.append(Case("blocks/reject-7-3", bad_blocks(7, 3), **D))
    for N, d, k in [(2, 1, 1), (3, 1, 2), (2, 2, 1), (3, 2, 1), (3, 2, 2)] + ([(4, 2, 1)] if th else []):
        out.append(Case("subspaces/%d-%d-%d" % (N, d, k), subspaces(N, d, k), validate=False, **D))
    for N, d, k, n in [(2, 1, 1, 1), (3, 2, 1, 1), (3, 2, 2, 1), (3, 2, 1, 2), (3, 1, 2, 2), (3, 2, 2, 2)]:
        out.append(Case("points/%d-%d-%d-%d" % (N, d, k, n), points(N, d, k, n, 0), **D))
    for k, N, d, th_ in [(2, 2, 1, 30.0), (2, 4, 2, 15.0), (2, 4, 2, 80.0), (2, 5, 2, 45.0), (3, 3, 1, 60.0), (3, 6, 2, 20.0), (3, 7, 2, 75.0)] + ([(2, 6, 3, 35.0), (3, 9, 3, 50.0)] if th else []):
        out.append(Case("at_angle/%d-%d-%d-%g" % (k, N, d, th_), at_angle(k, N, d, th_), validate=False, **D))
    return out
