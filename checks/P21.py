"""K-means and graph Laplacians."""
import itertools
import math
from fractions import Fraction
import numpy as np
import jax.numpy as jnp
from jax.experimental.sparse import BCOO
from cr.sparse._src.cluster import kmeans as km, spectral as sp
from . import draws
from .common import *

TOL = 1e-6


def ints(H, a):
    return [int(v) for v in np.asarray(H.ints(a)).reshape(-1)]


def d2(p, c):
    s = 0
    for a, b in zip(p, c):
        s = s + (a - b) * (a - b)
    return s


def nearest(n, d, k, fn="assign"):
    def body(H):
        P, C = H.inputs(P=((n, d), -1, 1), C=((k, d), -1, 1))
        Pv, Cv = H.val(P), H.val(C)
        if fn == "nearest":
            a = ints(H, H.call(lambda P, C: (km.find_nearest if n == 1 else km.find_nearest_jit)(P[0], C), P, C))
            dist = None
        else:
            A, dist = H.call(km.find_assignment if fn == "assign" else km.find_assignment_jit, P, C)
            a = ints(H, A)
            dist = H.val(dist).reshape(-1)
        for i, j in enumerate(a):
            H.claim("assignment is a cluster", 0 <= j < k)
            best = d2(Pv[i], Cv[j])
            for l in range(k):
                H.claim("assigned to a nearest centroid", H.le(best, d2(Pv[i], Cv[l]), 1e-7))
            if dist is not None:
                H.claim("distance is not negative", H.le(0, dist[i], 1e-9))
                H.eq("distance to the assigned centroid", np.array([dist[i] * dist[i]]), np.array([best]), TOL)
    return body


def centroids(n, d, k, jit=False):
    def body(H):
        a, P = H.inputs(a=((n,), 0, k - 1, np.int64), P=((n, d), -1, 1))
        av = ints(H, a)
        f = km.find_new_centroids_jit if jit else km.find_new_centroids
        C = H.call(lambda a, P: f(a, P, k), J(np.array(av)), P)
        cnt = ints(H, H.call(lambda a: km.assignment_counts(a, k), J(np.array(av))))
        H.claim("counts (at least one)", cnt == [max(1, av.count(c)) for c in range(k)])
        H.claim("shape", H.shape(C) == (k, d))
        Cv, Pv = H.val(C), H.val(P)
        for c in range(k):
            m = [i for i in range(n) if av[i] == c]
            if m:
                s = Pv[m[0]]
                for i in m[1:]:
                    s = s + Pv[i]
                H.eq("centroid is the mean of its points", Cv[c] * len(m), s, TOL)
    return body


# -- the whole algorithm, for each start and one-parameter families of points -------------------------
def reference(H, P, idx, k, thresh, iters):
    """Lloyd iterations on the values; assumes no ties."""
    n, d = P.shape
    dist = lambda p, c: H.sqrt(d2(p, c)) if d > 1 else H.absv(np.array([p[0] - c[0]]))[0]

    def assign(C):
        a, ds = [], []
        for i in range(n):
            q = [d2(P[i], C[c]) for c in range(k)]
            best = 0
            for c in range(1, k):
                H.assume(H.or_(H.le(q[c] + Fraction(1, 10 ** 6) if H.symbolic else q[c] + 1e-6, q[best]), H.le(q[best], q[c], -1e-6), same(q[c], q[best])))
                if not same(q[c], q[best]) and H.branch(H.le(q[c], q[best])):
                    best = c
            a.append(best)
            ds.append(dist(P[i], C[best]))
        s = ds[0]
        for v in ds[1:]:
            s = s + v
        return a, s * (Fraction(1, n) if H.symbolic else 1 / n)

    def same(a, b):
        return a is b
    C = [P[i] for i in idx[:k]]
    a, dis = assign(C)
    prev = None
    it = 0
    while it < iters:
        if prev is not None:
            gap = prev - dis
            H.assume(H.or_(H.le(gap, thresh - 1e-6), H.le(thresh + 1e-6, gap)))
            if H.branch(H.le(gap, thresh)):
                break
        nc = []
        for c in range(k):
            m = [i for i in range(n) if a[i] == c]
            if not m:
                H.assume(False)
            s = P[m[0]]
            for i in m[1:]:
                s = s + P[i]
            nc.append(s * (Fraction(1, len(m)) if H.symbolic else 1 / len(m)))
        C = nc
        prev = dis
        a, dis = assign(C)
        it += 1
    return C, a, dis, prev, it


FAM = {
    "l3": ([[0.0], [1.0], [3.0]], [[1.0], [0.0], [-1.0]]),
    "l4": ([[0.0], [0.5], [2.0], [3.0]], [[0.25], [1.0], [-1.0], [0.5]]),
    "p3": ([[0.0, 0.0], [1.0, 0.5], [2.0, 2.0]], [[1.0, 0.0], [0.0, 0.5], [-0.5, -1.0]]),
    "p4": ([[0.0, 0.0], [1.0, 0.25], [2.0, 2.0], [1.5, 2.5]], [[1.0, 0.0], [0.0, 0.5], [-0.5, -1.0], [0.5, 0.0]]),
}


def points(H, fam):
    b, dr = (np.array(v) for v in FAM[fam])
    t = H.inputs(t=((), -1, 1))
    return H.call(lambda t: J(b) + t * J(dr), t)


def same_state(H, st, ref):
    C, a, dis, prev, it = ref
    H.claim("number of iterations", ints(H, st.iterations)[0] == it)
    H.claim("assignment to the nearest centroids", ints(H, st.assignment) == a)
    Cv = H.val(st.centroids)
    for c in range(len(C)):
        H.eq("centroids are the means of the previous clusters", Cv[c], C[c], TOL)
    H.eq("distortion is the mean distance", H.val(st.distortion).reshape(-1), np.array([dis]), TOL)


def seeded(fam, idx, k, thresh, iters, jit=False):
    def body(H):
        P = points(H, fam)
        n = H.shape(P)[0]

        def f(P):
            with draws.use(draws.Source(perm=[J(np.array(idx))]), km) as key:
                return km.kmeans_with_seed(key, P, k, thresh=thresh, max_iters=iters)
        st = H.call(f, P)
        ref = reference(H, H.val(P), idx, k, thresh, iters)
        same_state(H, st, ref)
        if ref[3] is not None:
            H.eq("previous distortion", H.val(st.prev_distortion).reshape(-1), np.array([ref[3]]), TOL)
    return body


def restarts(fam, rows, k, thresh, iters):
    def body(H):
        P = points(H, fam)
        perms = np.array(rows)

        def f(P):
            with draws.use(draws.Source(vm=J(perms)), km):
                return km.kmeans(draws.Key(None), P, k, iter=len(rows), thresh=thresh, max_iters=iters)
        sol = H.call(f, P)
        refs = [reference(H, H.val(P), r, k, thresh, iters) for r in rows]
        for r in refs:
            H.claim("no restart has less distortion", H.le(H.val(sol.distortion).reshape(-1)[0], r[2], TOL))
        key = ints(H, sol.key)
        hits = [r for row, r in zip(rows, refs) if list(row) == key]
        H.claim("the key is one of the restarts", len(hits) >= 1)
        if hits:
            same_state(H, sol, hits[0])
    return body


# -- Laplacians ------------------------------------------------------------------------------------
def sym(H, n):
    e = H.inputs(e=((n * (n + 1) // 2,), 0.0625, 1))
    ix = np.zeros((n, n), dtype=int)
    q = 0
    for i in range(n):
        for j in range(i, n):
            ix[i, j] = ix[j, i] = q
            q += 1
    return H.call(lambda e: e[J(ix)], e)


def laplacian(kind, n):
    def body(H):
        W = sym(H, n)
        Wv = H.val(W)
        deg = [sum(list(Wv[i])[1:], Wv[i][0]) for i in range(n)]
        if kind == "unnormalized":
            L = H.val(H.call(sp.unnormalized_laplacian, W))
            for i in range(n):
                for j in range(n):
                    H.eq("degree minus weights", np.array([L[i, j]]), np.array([(deg[i] if i == j else 0 * deg[i]) - Wv[i, j]]), TOL)
                H.eq("rows sum to zero", np.array([sum(list(L[i])[1:], L[i][0])]), np.array([0.0]), TOL)
        elif kind in ("walk", "walk-jit"):
            L = H.val(H.call(sp.normalized_random_walk_laplacian if kind == "walk" else sp.normalized_random_walk_laplacian_jit, W))
            for i in range(n):
                for j in range(n):
                    H.eq("identity minus transition matrix", np.array([L[i, j] * deg[i]]), np.array([(deg[i] if i == j else 0 * deg[i]) - Wv[i, j]]), TOL)
                H.eq("rows sum to zero", np.array([sum(list(L[i])[1:], L[i][0])]), np.array([0.0]), TOL)
        else:
            if kind == "symmetric":
                S = H.val(H.call(sp.normalized_symmetric_w, W))
            else:
                ij = np.array([[i, j] for i in range(n) for j in range(n)])
                S = H.val(H.call(lambda W: sp.normalized_symmetric_sparse_w(BCOO((W.reshape(-1), J(ij)), shape=(n, n))).todense(), W))
            for i in range(n):
                for j in range(n):
                    H.claim("entries are not negative", H.le(0, S[i, j], 1e-9))
                    H.eq("scaled by both degrees", np.array([S[i, j] * S[i, j] * deg[i] * deg[j]]), np.array([Wv[i, j] * Wv[i, j]]), TOL)
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(max_paths=2000, div0=False, timeout_ms=15000, budget_s=400 if th else 100)
    for n, d, k in [(1, 1, 2), (2, 1, 2), (1, 2, 2), (1, 2, 3), (2, 2, 2)] + ([(2, 2, 3), (3, 1, 3)] if th else []):
        for fn in ("nearest", "assign", "assign-jit"):
            if fn == "nearest" and n > 1:
                continue
            out.append(Case("assign/%d-%d-%d-%s" % (n, d, k, fn), nearest(n, d, k, fn), **D))
    for n, d, k in [(1, 1, 1), (2, 2, 2), (3, 1, 2), (3, 2, 3)] + ([(4, 2, 2), (4, 1, 3)] if th else []):
        out.append(Case("centroids/%d-%d-%d" % (n, d, k), centroids(n, d, k), **D))
        out.append(Case("centroids/%d-%d-%d-jit" % (n, d, k), centroids(n, d, k, True), **D))
    E = dict(D, fork_ite=True)
    for fam in FAM:
        n = len(FAM[fam][0])
        perms = list(itertools.permutations(range(n)))
        for idx in perms if th else perms[::4]:
            for k in (1, 2) + ((3,) if n > 3 and th else ()):
                for th_, it in ((1e-5, 2), (0.05, 3), (1e-5, 0)) if fam[0] == "l" else ((1e-5, 1), (0.05, 2)):
                    if fam == "p4" and it > 1 and not th:
                        continue
                    out.append(Case("seed/%s-%s-k%d-%g-%d" % (fam, "".join(map(str, idx)), k, th_, it), seeded(fam, list(idx), k, th_, it), **E))
        if fam == "p4" and not th:
            continue
        out.append(Case("restarts/%s" % fam, restarts(fam, [list(perms[0]), list(perms[-1]), list(perms[3])], 2, 1e-5, 1), **E))
        out.append(Case("restarts/%s-2" % fam, restarts(fam, [list(perms[1]), list(perms[4])], 2, 0.02, 2), **E))
    for kind in ("unnormalized", "walk", "walk-jit", "symmetric", "sparse"):
        for n in (1, 2, 3) + ((4,) if th else ()):
            out.append(Case("laplacian/%s-%d" % (kind, n), laplacian(kind, n), **D))
    return out
