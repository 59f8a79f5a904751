"""Cluster labels, label matching errors and sparse subspace clustering utilities."""
import itertools
from fractions import Fraction
import numpy as np
import jax.numpy as jnp
from cr.sparse._src.cluster import util as cu
from cr.sparse._src.cluster.ssc import util as su, omp as so
from cr.nimble._src import dls
import cr.nimble as cnb
from symx.harness import NotCovered
from .common import *

TOL = 1e-6


def ints(H, a):
    return [int(v) for v in np.asarray(H.ints(a)).reshape(-1)]


def I64(v):
    return J(np.array(v, dtype=np.int64))


# -- labels ----------------------------------------------------------------------------------------
def sizes(n, k, jit):
    def body(H):
        a = H.inputs(a=((n,), 0, k - 1, np.int64))
        s = H.call(lambda a: (cu.sizes_from_labels_jit if jit else cu.sizes_from_labels)(a, k), a)
        av = ints(H, a)
        H.claim("cluster sizes", ints(H, s) == [av.count(c) for c in range(k)])
    return body


def ranges(k, hi):
    def body(H):
        s = H.inputs(s=((k,), 1, hi, np.int64))
        sv = ints(H, s)
        st, en = H.call(cu.start_end_indices, I64(sv))
        H.claim("start indices", ints(H, st) == [sum(sv[:i]) for i in range(k)])
        H.claim("end indices", ints(H, en) == [sum(sv[:i + 1]) for i in range(k)])
        lab = H.call(lambda: cu.labels_from_sizes(np.array(sv)))
        want = [c for c in range(k) for _ in range(sv[c])]
        H.claim("labels of consecutive clusters", ints(H, lab) == want)
        H.claim("sizes of those labels", ints(H, H.call(lambda l: cu.sizes_from_labels(l, k), I64(want))) == sv)
    return body


def overlap(t, p, T, Pn):
    return [[sum(1 for a, b in zip(t, p) if a == x and b == y) for y in Pn] for x in T]


def best(t, p):
    """largest number of points that agree under a one-to-one matching of labels"""
    T, Pn = sorted(set(t)), sorted(set(p))
    k = max(len(T), len(Pn))
    G = np.zeros((k, k), dtype=int)
    G[:len(T), :len(Pn)] = overlap(t, p, T, Pn)
    return max(sum(G[i, q[i]] for i in range(k)) for q in itertools.permutations(range(k)))


def matching(true, k, kind, vals=None):
    """vals: the label values used for the clusters 0..k-1 of the prediction"""
    n = len(true)

    def body(H):
        a = H.inputs(a=((n,), 0, k - 1, np.int64))
        p = ints(H, a)
        if vals is not None:
            p = [vals[v] for v in p]
        t = list(true)
        agree = best(t, p)
        if kind == "map":
            m, mp, G = cu.best_map(I64(t), I64(p))
        elif kind == "map_k":
            m, mp, G = cu.best_map_k(I64(t), I64(p), k)
        else:
            e = cu.clustering_error(I64(t), I64(p)) if kind == "error" else cu.clustering_error_k(I64(t), I64(p), k)
            H.claim("number of missed points is minimal over matchings", int(e.num_missed) == n - agree)
            H.claim("relative error", abs(float(e.error) - (n - agree) / n) < 1e-6)
            H.claim("percentage", abs(float(e.error_perc) - 100 * (n - agree) / n) < 1e-4)
            H.claim("labels are reported", [int(v) for v in e.true_labels] == t and [int(v) for v in e.pred_labels] == p)
            m = e.mapped_labels
            G = None
        m = [int(v) for v in np.asarray(m)]
        H.claim("relabelled points agree best", sum(1 for x, y in zip(t, m) if x == y) == agree)
        f = {}
        for x, y in zip(p, m):
            H.claim("relabelling is a function of the label", f.setdefault(x, y) == y)
        back = {}
        for x, y in f.items():
            if y in t:
                H.claim("no two labels share a true label", back.setdefault(y, x) == x)
        if G is not None:
            G = np.asarray(G)
            if kind == "map_k":
                H.claim("overlap counts", [[int(v) for v in r] for r in G] == overlap(t, p, range(k), range(k)))
            else:
                T, Pn = sorted(set(t)), sorted(set(p))
                H.claim("overlap counts", [[int(v) for v in r[:len(Pn)]] for r in G[:len(T)]] == overlap(t, p, T, Pn))
    return body


# -- sparse representations --------------------------------------------------------------------------
def rep(k, n, kind):
    def body(H):
        X, I = H.inputs(X=((k, n), -1, 1), I=((k, n), 0, n - 1, np.int64))
        Iv = np.array(ints(H, I)).reshape(k, n)
        for j in range(n):
            H.assume(len(set(Iv[:, j])) == k)
        if kind == "full":
            M = H.call(lambda X: su.sparse_to_full_rep(X, I64(Iv)), X)
        elif kind == "bcoo":
            M = H.call(lambda X: su.sparse_to_bcoo(X, I64(Iv)).todense(), X)
        elif kind == "back":
            X2, I2 = H.call(lambda X: su.bcoo_to_sparse(su.sparse_to_bcoo(X, I64(Iv)), k), X)
            H.claim("indices come back", np.array_equal(np.array(ints(H, I2)).reshape(k, n), Iv))
            H.eq("values come back", H.val(X2), H.val(X), TOL)
            return
        Mv, Xv = H.val(M), H.val(X)
        H.claim("shape", Mv.shape == (n, n))
        for j in range(n):
            col = {int(Iv[i, j]): Xv[i, j] for i in range(k)}
            for i in range(n):
                H.eq("entries at their rows, zero elsewhere", np.array([Mv[i, j]]), np.array([col.get(i, 0 * Xv[0, 0])]), TOL)
    return body


def affinity(n):
    def body(H):
        Z = H.inputs(Z=((n, n), -1, 1))
        A = H.val(H.call(su.rep_to_affinity, Z))
        a = H.absv(H.val(Z))
        for i in range(n):
            for j in range(n):
                H.eq("symmetric sum of magnitudes", np.array([A[i, j]]), np.array([a[i, j] + a[j, i]]), TOL)
    return body


def neighbours(sz):
    n = sum(sz)
    lab = [c for c, s in enumerate(sz) for _ in range(s)]

    def body(H):
        A0 = H.inputs(A=((n, n), 0, 180))
        A = H.call(lambda A: A + A.T, A0)
        Av = H.val(A)
        s = np.array(sz)
        ins = all(v > 1 for v in sz)
        for inside in (True, False):
            if (inside and not ins) or (not inside and len(sz) < 2):
                continue
            mn = H.val(H.call(lambda A: (su.min_angles_inside_cluster if inside else su.min_angles_outside_cluster)(A, s), A)).reshape(-1)
            nn = ints(H, H.call(lambda A: (su.nearest_neighbors_inside_cluster if inside else su.nearest_neighbors_outside_cluster)(A, s), A))
            H.claim("one per point", len(mn) == n and len(nn) == n)
            w = "inside" if inside else "outside"
            for i in range(n):
                cand = [j for j in range(n) if j != i and (lab[i] == lab[j]) == inside]
                H.claim("neighbour is %s the cluster" % w, nn[i] in cand)
                for j in cand:
                    H.claim("smallest angle %s the cluster" % w, H.le(mn[i], Av[i, j], 1e-7))
                if nn[i] in cand:
                    H.eq("angle with the neighbour %s the cluster" % w, np.array([mn[i]]), np.array([Av[i, nn[i]]]), TOL)
    return body


def sorting(n):
    def body(H):
        A0 = H.inputs(A=((n, n), 1, 180))
        A = H.call(lambda A: jnp.where(jnp.eye(n) > 0, 0.0, A), A0)
        Av = H.val(A)
        S = np.array(ints(H, H.call(su.sorted_neighbors, A))).reshape(n, n - 1)
        for i in range(n):
            H.claim("every other point once", sorted(S[i]) == [j for j in range(n) if j != i])
            for a, b in zip(S[i], S[i][1:]):
                H.claim("sorted by angle", H.le(Av[i, a], Av[i, b], 1e-9))
    return body


def positions(n, k):
    def body(H):
        l, S = H.inputs(l=((n,), 0, k - 1, np.int64), S=((n, n - 1), 0, k - 1, np.int64))
        lv, Sv = ints(H, l), np.array(ints(H, S)).reshape(n, n - 1)
        got = ints(H, H.call(su.inn_positions, I64(lv), I64(Sv)))
        for i in range(n):
            w = [q for q in range(n - 1) if Sv[i, q] == lv[i]]
            if w:
                H.claim("first neighbour of the same cluster", got[i] == w[0])
    return body


def preservation(n, lab, kind):
    def body(H):
        small = Fraction(1, 1000) if H.symbolic else 1e-3
        if kind == "dense":
            C = H.inputs(C=((n, n), -1, 1))
            st = H.call(lambda C: su.subspace_preservation_stats(C, I64(lab)), C)
            a = H.absv(H.val(C))
        else:
            k = 2
            Z, = [H.inputs(Z=((k, n), -1, 1))]
            I = np.array([[(j + 1 + i) % n for j in range(n)] for i in range(k)])
            st = H.call(lambda Z: su.sparse_subspace_preservation_stats(Z, I64(I), I64(lab)), Z)
            z = H.absv(H.val(Z))
            a = np.zeros((n, n), dtype=object) if H.symbolic else np.zeros((n, n))
            if H.symbolic:
                a[:] = Fraction(0)
            for j in range(n):
                for i in range(k):
                    a[I[i, j], j] = z[i, j]
        flags, errs, tot = [], [], None
        fl = np.asarray(H.ints(st.spr_flags)).reshape(-1)
        ev = H.val(st.spr_errors).reshape(-1)
        for j in range(n):
            own = out = all_ = None
            other = []
            for i in range(n):
                if kind != "dense" and isinstance(a[i, j], Fraction):
                    continue
                if kind != "dense" and not H.symbolic and i not in I[:, j]:
                    continue
                H.assume(H.or_(H.le(a[i, j], small - Fraction(1, 10 ** 6) if H.symbolic else small - 1e-6), H.le(small + Fraction(1, 10 ** 6) if H.symbolic else small + 1e-6, a[i, j])))
                if kind != "dense":
                    H.assume(H.le(small, a[i, j]))
                all_ = a[i, j] if all_ is None else all_ + a[i, j]
                if lab[i] == lab[j]:
                    own = a[i, j] if own is None else own + a[i, j]
                else:
                    other.append(a[i, j])
            H.assume(H.le(0.01, all_))
            ok = all([H.branch(H.le(v, small)) for v in other])
            H.claim("flag: every significant coefficient is in the own cluster", bool(fl[j]) == ok)
            flags.append(ok)
            own = own if own is not None else 0 * all_
            H.eq("error: share of the other clusters", np.array([ev[j] * all_]), np.array([all_ - own]), TOL)
            tot = ev[j] if tot is None else tot + ev[j]
        H.claim("overall flag", bool(np.asarray(H.ints(st.spr_flag)).reshape(-1)[0]) == all(flags))
        H.eq("mean error", H.val(st.spr_error).reshape(-1) * n, np.array([tot]), TOL)
        H.eq("percentage of preserved points", H.val(st.spr_perc).reshape(-1), np.array([100.0 * sum(flags) / n]), 1e-4)
    return body


# -- self-expressive representations --------------------------------------------------------------
FAM = {
    # fixed unit columns, and the position of the one that turns through every angle of the listed range
    "s23": ([[0.6, 0.0, -0.28], [0.8, 0.0, 0.96]], 1),
    "s24": ([[0.6, 0.96, 0.0, -0.8], [0.8, -0.28, 0.0, 0.6]], 2),
    "s33": ([[0.0, 0.6, 0.48], [0.0, 0.8, -0.64], [0.0, 0.0, 0.6]], 0),
    "s34": ([[0.0, 0.6, 0.48, 0.0], [0.0, 0.8, -0.64, 0.28], [0.0, 0.0, 0.6, 0.96]], 0),
}


def least_squares(A, b, *a, **k):
    """contract of the library's dense least squares for one or two columns"""
    G, c = A.T @ A, A.T @ b
    if A.shape[1] == 1:
        x = c / G[0, 0]
    elif A.shape[1] == 2:
        d = G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]
        x = jnp.stack([(G[1, 1] * c[0] - G[0, 1] * c[1]) / d, (G[0, 0] * c[1] - G[1, 0] * c[0]) / d])
    else:
        raise NotCovered("least squares on %d columns" % A.shape[1])
    return x, None, None, None


class contract:
    def __init__(self, H):
        self.on = H.symbolic

    def __enter__(self):
        self.old = dls.lstsq
        if self.on:
            dls.lstsq = least_squares
            # the points are unit vectors: normalising them changes nothing
            self.norm, cnb.normalize_l2_cw = cnb.normalize_l2_cw, lambda X: X

    def __exit__(self, *a):
        dls.lstsq = self.old
        if self.on:
            cnb.normalize_l2_cw = self.norm


def omp(fam, K, kind):
    b, pos = FAM[fam]
    b = np.array(b)
    D, N = b.shape

    def body(H):
        t = H.inputs(t=((), -1, 1))

        def build(t):
            q = 1 / (1 + t * t)
            u = [1 - 2 * t * t * q, 2 * t * q]
            u = [u[0], u[1], 0.0] if D == 3 else u
            return J(b).at[:, pos].set(jnp.stack([jnp.asarray(v) for v in u]))
        X = H.call(build, t)
        # away from points that are orthogonal to all others, and from vanishing residuals
        Y = Xn = H.val(X)
        dot = lambda a, b: sum([x * y for x, y in zip(a, b)][1:], a[0] * b[0])
        eps = Fraction(1, 10 ** 4) if H.symbolic else 1e-4
        G = [[dot(Xn[:, i], Xn[:, j]) for j in range(N)] for i in range(N)]
        for j in range(N):
            H.assume(H.or_(*[H.le(eps, G[i][j] * G[i][j]) for i in range(N) if i != j]))
            for f in range(N):
                if K > 1 and f != j:
                    v = [G[i][j] - G[i][f] * G[f][j] for i in range(N) if i not in (f, j)]
                    H.assume(H.or_(*[H.le(eps, w * w) for w in v]))
        with contract(H):
            if kind == "omp":
                Z, I, R = H.call(lambda X: so.build_representation_omp(X, K), X)
            elif kind == "jit":
                Z, I, R = H.call(lambda X: so.build_representation_omp_jit(X, K), X)
            else:
                Z, I, R = H.call(lambda X: so.batch_build_representation_omp(X, K, kind), X)
        H.claim("shapes", H.shape(Z) == (K, N) and H.shape(I) == (K, N) and H.shape(R) == (D, N))
        Iv = np.array(ints(H, I)).reshape(K, N)
        Zv, Rv = H.val(Z), H.val(R)
        for j in range(N):
            sel = [int(i) for i in Iv[:, j]]
            H.claim("represented by K other points", len(set(sel)) == K and j not in sel and all(0 <= i < N for i in sel))
            # the first selected point is the most correlated one
            a = [H.absv(np.array([dot(Xn[:, i], Xn[:, j])]))[0] for i in range(N)]
            for i in range(N):
                if i != j:
                    H.claim("first selected point correlates best", H.le(a[i], a[sel[0]], 1e-7))
            r = Y[:, j]
            for q, i in enumerate(sel):
                r = r - Xn[:, i] * Zv[q, j]
            H.eq("residual of the representation", Rv[:, j], r, TOL)
            for i in sel:
                H.eq("residual is orthogonal to the selected points", np.array([dot(Xn[:, i], Rv[:, j])]), np.array([0.0]), TOL)
            if K == 2 and D > 2:
                # second selection: most correlated with the residual of the first
                c = dot(Xn[:, sel[0]], Y[:, j])
                r1 = Y[:, j] - Xn[:, sel[0]] * c
                a = [H.absv(np.array([dot(Xn[:, i], r1)]))[0] for i in range(N)]
                for i in range(N):
                    if i != j:
                        H.claim("next selected point correlates best with the residual", H.le(a[i], a[sel[1]], 1e-6))
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(max_paths=4000, div0=False, timeout_ms=15000, budget_s=400 if th else 100)
    for n, k in ((1, 1), (3, 2), (3, 3), (4, 2), (4, 3)):
        for jit in (False, True):
            out.append(Case("sizes/%d-%d%s" % (n, k, "-jit" if jit else ""), sizes(n, k, jit), **D))
    for k, hi in ((1, 3), (2, 4), (3, 3), (4, 2)):
        out.append(Case("ranges/%d-%d" % (k, hi), ranges(k, hi), **D))
    trues = [(0, 0, 1), (0, 1, 2), (0, 0, 1, 1), (1, 1, 0, 0), (0, 1, 1, 2), (2, 0, 0, 1), (0, 0, 0, 0), (0, 2, 2, 2)] + ([(0, 1, 1, 2, 2), (0, 0, 1, 1, 2)] if th else [])
    for t in trues:
        nm = "".join(map(str, t))
        for kind in ("map", "error"):
            out.append(Case("match/%s-%s" % (kind, nm), matching(t, 3, kind), **D))
        for kind in ("map_k", "error_k"):
            out.append(Case("match/%s-%s" % (kind, nm), matching(t, 3, kind), **D))
    out.append(Case("match/map-sparse-labels", matching((5, 5, 9, 9), 3, "map", [2, 7, 30]), **D))
    out.append(Case("match/error-sparse-labels", matching((5, 9, 12, 12), 3, "error", [2, 7, 30]), **D))
    for k, n in ((1, 2), (2, 2), (1, 3), (2, 3)):
        for kind in ("full", "bcoo", "back"):
            out.append(Case("rep/%s-%d-%d" % (kind, k, n), rep(k, n, kind), **D))
    for n in (1, 2, 3):
        out.append(Case("affinity/%d" % n, affinity(n), **D))
    for sz in ((2,), (2, 2), (1, 2), (2, 1)) + (((3, 2), (2, 2, 2)) if th else ()):
        out.append(Case("neighbours/%s" % "".join(map(str, sz)), neighbours(sz), **D))
    for n in (2, 3):
        out.append(Case("sorted/%d" % n, sorting(n), **D))
    out.append(Case("positions/2-2", positions(2, 2), **D))
    out.append(Case("positions/3-2", positions(3, 2), **D))
    for lab in ((0, 0), (0, 1), (0, 1, 0), (1, 0, 0)) + (((0, 1, 2),) if th else ()):
        out.append(Case("preserve/dense-%s" % "".join(map(str, lab)), preservation(len(lab), lab, "dense"), **D))
    for lab in ((0, 1, 0), (0, 1, 1, 0)):
        out.append(Case("preserve/sparse-%s" % "".join(map(str, lab)), preservation(len(lab), lab, "sparse"), **D))
    E = dict(D, fork_ite=True)
    for fam in FAM:
        for K in (1, 2):
            for kind in ("omp", "jit", 2, 3) if th or K == 1 else ("omp", 2):
                if K == 2 and (fam == "s23" or fam == "s34" and kind == 2 and not th):
                    continue
                out.append(Case("omp/%s-%d-%s" % (fam, K, kind), omp(fam, K, kind), **E))
    return out
