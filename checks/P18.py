"""Dictionaries: Gram matrix, coherence, babel function, frame bounds, sensing matrices and bases."""
import math
import numpy as np
import jax.numpy as jnp
import cr.sparse.dict as crdict
import cr.sparse.lop as lop
from cr.sparse._src.dict import simple, props
from . import draws
from .common import *

TOL = 1e-6


def sc(H, v):
    return H.val(v).reshape(-1)[0]


def herm(H, M):
    return H.conj(H.val(M).T)


def gram(m, n, cplx):
    def body(H):
        A = H.inputs(A=((m, n), -1, 1, dt(cplx)))
        Av = H.val(A)
        H.eq("Gram matrix", H.val(H.call(crdict.gram, A)), herm(H, A) @ Av, TOL)
        H.eq("frame matrix", H.val(H.call(crdict.frame, A)), Av @ herm(H, A), TOL)
    return body


def unit(H, t, k, cplx=False):
    """Three unit vectors in R^2 (C^2): two fixed, one rotating with t over the whole circle but one point."""
    def f(t):
        d = 1 + t * t
        c, s = (1 - t * t) / d, 2 * t / d
        cols = [jnp.stack([c, s * (1j if cplx else 1)]), J(np.array([0.6, 0.8j if cplx else 0.8])), J(np.array([1.0, 0.0])),
                J(np.array([-0.28, 0.96]))][:k]
        return jnp.stack(cols, axis=1)
    return H.call(f, t)


def coherence(k, cplx=False):
    def body(H):
        t = H.inputs(t=((), -2, 2))
        A = unit(H, t, k, cplx)
        c, idx = H.call(crdict.coherence_with_index, A)
        cj = H.call(crdict.coherence, A)
        G = herm(H, A) @ H.val(A)
        H.eq("compiled form agrees", H.val(c).reshape(-1), H.val(cj).reshape(-1), TOL)
        i, j = [int(H.ints(q)) for q in idx]
        cv = sc(H, c)
        H.claim("two different atoms, unless all are orthogonal", H.or_(i != j and 0 <= i < k and 0 <= j < k, H.le(cv, 1e-9)))
        if i == j:
            return
        g = H.absv(np.array([G[i, j]]))[0]
        H.eq("coherence is the correlation of the reported pair", np.array([cv]), np.array([g]), TOL)
        for p in range(k):
            for q in range(p):
                a = H.absv(np.array([G[p, q]]))[0]
                H.claim("no pair is more correlated", H.le(a, cv, 1e-7))
    return body


def free_coherence(m, n, cplx=False):
    def body(H):
        A = H.inputs(A=((m, n), -1, 1, dt(cplx)))
        c, idx = H.call(crdict.coherence_with_index, A)
        i, j = [int(H.ints(q)) for q in idx]
        G = herm(H, A) @ H.val(A)
        cv = sc(H, c)
        sq = lambda z: H.real(np.array([z * H.conj(np.array([z]))[0]]))[0]
        mag = (lambda z: sq(z)) if cplx else (lambda z: H.absv(np.array([z]))[0])
        top = cv * cv if cplx else cv
        H.claim("two different atoms, unless all are orthogonal", H.or_(i != j, H.le(cv, 1e-9)))
        if i != j:
            H.eq("coherence is the correlation of the reported pair", np.array([top]), np.array([mag(G[i, j])]), TOL)
        for p in range(n):
            for q in range(p):
                H.claim("no pair is more correlated", H.le(mag(G[p, q]), top, 1e-6))
    return body


def babel(k, cplx=False):
    def body(H):
        t = H.inputs(t=((), -2, 2))
        A = unit(H, t, k, cplx)
        b = H.val(H.call(crdict.babel, A)).reshape(-1)
        H.claim("one value per number of atoms", len(b) == k - 1)
        G = herm(H, A) @ H.val(A)
        import itertools
        for r in range(1, k):
            sums = []
            for i in range(k):
                others = [H.absv(np.array([G[i, j]]))[0] for j in range(k) if j != i]
                for S in itertools.combinations(others, r):
                    s = 0
                    for v in S:
                        s = s + v
                    sums.append(s)
            for s in sums:
                H.claim("at least every sum of correlations", H.le(s, b[r - 1], 1e-6))
            H.claim("attained", H.or_(*[H.le(b[r - 1], s, 1e-6) for s in sums]))
    return body


def bounds(m, n):
    base = np.array([[1.0, 0.5, -0.25], [0.25, -0.75, 0.5], [0.0, 0.5, 1.0]])[:m, :n]
    dr = np.array([[0.5, 0.0, 1.0], [0.0, 1.0, -0.5], [1.0, 0.0, 0.5]])[:m, :n]

    def body(H):
        t = H.inputs(t=((), -1, 1))
        A = H.call(lambda t: J(base) + t * J(dr), t)
        fb = H.val(H.call(crdict.frame_bounds, A)).reshape(-1)
        U, L = sc(H, H.call(crdict.upper_frame_bound, A)), sc(H, H.call(crdict.lower_frame_bound, A))
        Uo = sc(H, H.call(lambda A: lop.upper_frame_bound(lop.matrix(A)), A))
        H.eq("pair of bounds", fb, np.array([U, L]), TOL)
        H.eq("operator form", np.array([Uo]), np.array([U]), TOL)
        H.claim("ordered", H.and_(H.le(0.0, L, 1e-9), H.le(L * L, U * U, 1e-9)))
        Av = H.val(A)
        G = Av @ Av.T if m <= n else Av.T @ Av
        if min(m, n) == 1:
            H.eq("both are the norm", np.array([U * U, L * L]), np.array([G[0, 0], G[0, 0]]), TOL)
        else:
            H.eq("energy", np.array([U * U + L * L]), np.array([G[0, 0] + G[1, 1]]), TOL)
            H.eq("volume", np.array([U * U * (L * L)]), np.array([G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]]), TOL)
    return body


def mutual(m, a, b, cplx=False):
    def body(H):
        A, B = H.inputs(A=((m, a), -1, 1, dt(cplx)), B=((m, b), -1, 1, dt(cplx)))
        c, idx = H.call(crdict.mutual_coherence_with_index, A, B)
        c2 = H.call(crdict.mutual_coherence, A, B)
        i, j = [int(H.ints(q)) for q in idx]
        G = herm(H, A) @ H.val(B)
        cv = sc(H, c)
        sq = lambda z: H.real(np.array([z * H.conj(np.array([z]))[0]]))[0]
        mag = (lambda z: sq(z)) if cplx else (lambda z: H.absv(np.array([z]))[0])
        top = cv * cv if cplx else cv
        H.eq("value alone", H.val(c2).reshape(-1), np.array([cv]), TOL)
        H.eq("correlation of the reported pair", np.array([top]), np.array([mag(G[i, j])]), TOL)
        for p in range(a):
            for q in range(b):
                H.claim("no pair is more correlated", H.le(mag(G[p, q]), top, 1e-6))
    return body


def matching(thr, cplx=False):
    B0 = np.array([[1.0, 0.6], [0.0, 0.8j if cplx else 0.8]])

    def body(H):
        t = H.inputs(t=((), -2, 2))
        A = unit(H, t, 3, cplx)
        r = H.call(lambda A: crdict.matching_atoms_ratio(A, J(B0), thr), A)
        G = herm(H, A) @ H.val(B0)
        near = []
        for i in range(3):
            d = [H.absv(np.array([G[i, j]]))[0] for j in range(2)]
            for v in d:
                H.assume(H.or_(H.le(v, 1 - thr - 1e-6), H.le(1 - thr + 1e-6, v)))
            near.append(H.branch(H.or_(*[H.le(1 - thr, v) for v in d])))
        H.eq("fraction of atoms with a close match", H.val(r).reshape(-1), np.array([sum(near) / 3]), TOL)
    return body


# -- sensing matrices: every outcome of the draws --------------------------------------------------
def gaussian(N, D, normalize):
    def body(H):
        Z = H.inputs(Z=((N, D), -3, 3))
        Zv = H.val(Z)
        for j in range(D):
            s = 0
            for i in range(N):
                s = s + Zv[i, j] * Zv[i, j]
            H.assume(H.le(0.01, s))

        def f(Z):
            with draws.use(draws.Source(normal=[Z]), simple) as key:
                return simple.gaussian_mtx(key, N, D, normalize_atoms=normalize)
        P = H.call(f, Z)
        H.claim("shape", H.shape(P) == (N, D))
        Pv = H.val(P)
        if not normalize:
            H.eq("scaled draws", Pv * math.sqrt(N), Zv, TOL)
            return
        for j in range(D):
            s, c = 0, 0
            for i in range(N):
                s = s + Pv[i, j] * Pv[i, j]
                c = c + Pv[i, j] * Zv[i, j]
            H.eq("unit norm atoms", np.array([s]), np.array([1.0]), TOL)
            H.claim("atom points along its draw", H.le(0.0, c, 1e-9))
            for i in range(N):
                H.eq("atom is parallel to its draw", np.array([Zv[i, j]]), np.array([c * Pv[i, j]]), TOL)
    return body


def rademacher(M, N, normalize):
    def body(H):
        Z = H.inputs(Z=((M, N), -1, 1))
        for z in H.val(Z).reshape(-1):
            H.assume(H.or_(H.le(z, -0.01), H.le(0.01, z)))

        def f(Z):
            with draws.use(draws.Source(bernoulli=[Z]), simple) as key:
                return simple.rademacher_mtx(key, M, N, normalize_atoms=normalize)
        P = H.call(f, Z)
        H.claim("shape", H.shape(P) == (M, N))
        k = 1 / math.sqrt(M) if normalize else 1.0
        for p, z in zip(H.val(P).reshape(-1), H.val(Z).reshape(-1)):
            H.claim("entries are +-1 (scaled)", H.or_(H.and_(H.le(k, p, 1e-7), H.le(p, k, 1e-7)), H.and_(H.le(-k, p, 1e-7), H.le(p, -k, 1e-7))))
        pz = [p * z for p, z in zip(H.val(P).reshape(-1), H.val(Z).reshape(-1))]
        H.claim("sign is decided by the draw", H.or_(H.and_(*[H.le(0, v, 1e-9) for v in pz]), H.and_(*[H.le(v, 0, 1e-9) for v in pz])))
    return body


def binary(M, N, d, normalize, dense):
    def body(H):
        I = H.inputs(I=((N, d), 0, M - 1, np.int64))
        rows = [[int(v) for v in r] for r in np.asarray(H.ints(I)).reshape(N, d)]
        for r in rows:
            H.assume(len(set(r)) == d)
        I = np.array(rows)

        def f(I):
            with draws.use(draws.Source(vm=I), simple):
                P = simple.sparse_binary_mtx(draws.Key(None), M, N, d, normalize_atoms=normalize, dense=dense)
                return P if dense else P.todense()
        P = H.val(H.call(f, jnp.asarray(I)))
        k = 1 / math.sqrt(d) if normalize else 1.0
        E = np.zeros((M, N))
        for j, r in enumerate(rows):
            E[r, j] = k
        H.eq("exactly d ones per column", P, E, TOL)
    return body


def ortho(M, N, rows):
    def body(H):
        sh = (N, M) if rows else (N, N)
        if rows and M == 1 or N == 2 and not rows and M == 0:
            Z = H.inputs(Z=(sh, -2, 2))
        else:
            t = H.inputs(t=((), -1, 1))
            base = np.array([[1.0, 0.5, -0.25], [0.25, -0.75, 0.5], [-1.0, 0.5, 1.0]])[:sh[0], :sh[1]]
            dr = np.array([[0.5, 0.0, 1.0], [0.0, 1.0, -0.5], [1.0, 0.0, 0.5]])[:sh[0], :sh[1]]
            Z = H.call(lambda t: J(base) + t * J(dr), t)
        if sh[1] == 1:
            s = 0
            for v in H.val(Z).reshape(-1):
                s = s + v * v
            H.assume(H.le(0.01, s))

        def f(Z):
            with draws.use(draws.Source(normal=[Z]), simple) as key:
                return simple.random_orthonormal_rows(key, M, N) if rows else simple.random_onb(key, N)
        P = H.call(f, Z)
        H.claim("shape", H.shape(P) == ((M, N) if rows else (N, N)))
        Q = H.val(P).T if rows else H.val(P)
        n = sh[1]
        H.eq("orthonormal", Q.T @ Q, np.eye(n), TOL)
        Zv = H.val(Z)
        # the factorisation with positive diagonal is the one returned
        c = 0
        for i in range(N):
            c = c + Q[i, 0] * Zv[i, 0]
        H.claim("first vector points along the first draw", H.le(0, c, 1e-7))
        for i in range(N):
            H.eq("first vector is the normalised first draw", np.array([c * Q[i, 0]]), np.array([Zv[i, 0]]), TOL)
    return body


# -- fixed bases -----------------------------------------------------------------------------------
def basis(mk, ref=None, frame=1.0, tol=1e-5):
    """A fixed (union of) orthonormal basis: frame * |x|^2 = |B^H x|^2 for every x."""
    def body(H):
        B = np.asarray(mk())
        n, k = B.shape
        x = H.inputs(x=((n,), -1, 1, dt(np.iscomplexobj(B))))
        y = H.call(lambda x: jnp.conj(J(B)).T @ x, x)
        H.eq("energy is preserved", H.real(inner(H, y, y)), H.real(inner(H, x, x)) * frame, tol)
        z = H.call(lambda y: J(B) @ y, y)
        H.eq("reconstruction", H.val(z), H.val(x) * frame, tol)
        if ref is not None:
            H.eq("documented entries", H.val(y), H.val(np.conj(ref).T) @ H.val(x), tol)
    return body


def dct_ref(N):
    n, k = np.meshgrid(np.arange(N), np.arange(N), indexing="ij")
    D = np.cos(np.pi * (2 * n + 1) * k / (2 * N)) * np.sqrt(2.0 / N)
    D[:, 0] /= np.sqrt(2)
    return D.T


def had_ref(n):
    H = np.array([[1.0]])
    while len(H) < n:
        H = np.kron(np.array([[1, 1], [1, -1]]), H)
    return H


def op_equals(mk, mtx, n):
    def body(H):
        M = np.asarray(mtx())
        x, y = H.inputs(x=((M.shape[1],), -1, 1), y=((M.shape[0],), -1, 1))
        T = mk()
        H.eq("forward product", H.val(H.call(T.times, x)), H.val(M) @ H.val(x), 1e-6)
        H.eq("adjoint product", H.val(H.call(T.trans, y)), H.val(M.T) @ H.val(y), 1e-6)
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(fork_ite=True, div0=False, timeout_ms=15000, budget_s=400 if th else 100)
    F_ = dict(D, fork_ite=False)
    for m, n in ((1, 2), (2, 2), (2, 3), (3, 2), (3, 3)):
        for c in (False, True):
            out.append(Case("gram/%dx%d%s" % (m, n, "-c" if c else ""), gram(m, n, c), **D))
    for k in (2, 3, 4):
        for c in (False, True):
            out.append(Case("coherence/unit-%d%s" % (k, "-c" if c else ""), coherence(k, c), **D))
            out.append(Case("babel/%d%s" % (k, "-c" if c else ""), babel(k, c), **D))
    for m, n in ((1, 2), (2, 2), (2, 3)):
        for c in (False, True):
            if c and n == 3 and not th:
                continue
            out.append(Case("coherence/free-%dx%d%s" % (m, n, "-c" if c else ""), free_coherence(m, n, c), **D))
    for m, n in ((1, 3), (2, 2), (2, 3), (3, 2), (3, 1)):
        out.append(Case("bounds/%dx%d" % (m, n), bounds(m, n), **F_))
    for m, a, b in ((1, 1, 2), (2, 2, 1), (2, 2, 2)):
        for c in (False, True):
            if c and a * b > 2 and not th:
                continue
            out.append(Case("mutual/%d-%d-%d%s" % (m, a, b, "-c" if c else ""), mutual(m, a, b, c), **D))
    for thr in (0.01, 0.3):
        for c in (False, True):
            out.append(Case("matching/%g%s" % (thr, "-c" if c else ""), matching(thr, c), **D))
    for N, K in ((1, 2), (2, 3), (3, 2), (4, 2)):
        for nz in (False, True):
            out.append(Case("gaussian/%dx%d%s" % (N, K, "-n" if nz else ""), gaussian(N, K, nz), **F_))
            out.append(Case("rademacher/%dx%d%s" % (N, K, "-n" if nz else ""), rademacher(N, K, nz), **F_))
    for M, N, d in ((2, 2, 1), (3, 1, 2), (4, 1, 2)) + (((3, 2, 2), (4, 2, 3)) if th else ()):
        for nz in (False, True):
            for dense in (True, False):
                out.append(Case("binary/%d-%d-%d%s%s" % (M, N, d, "-n" if nz else "", "-dense" if dense else ""), binary(M, N, d, nz, dense), **D))
    for N in (1, 2, 3) if th else (1, 2):
        out.append(Case("onb/%d" % N, ortho(N, N, False), **F_))
    for M, N in ((1, 2), (1, 3), (2, 2), (2, 3)):
        out.append(Case("rows/%dx%d" % (M, N), ortho(M, N, True), **F_))
    for n in (1, 2, 4, 8):
        out.append(Case("basis/hadamard-%d" % n, basis(lambda n=n: crdict.hadamard(n).astype(float), had_ref(n), float(n)), **D))
        out.append(Case("basis/hadamard-basis-%d" % n, basis(lambda n=n: crdict.hadamard_basis(n), had_ref(n) / math.sqrt(n)), **D))
        out.append(Case("basis/dirac-hadamard-%d" % n, basis(lambda n=n: crdict.dirac_hadamard_basis(n), np.hstack([np.eye(n), had_ref(n) / math.sqrt(n)]), 2.0), **D))
        out.append(Case("basis/dirac-hadamard-cosine-%d" % n, basis(lambda n=n: crdict.dirac_hadamard_cosine_basis(n),
                                                                   np.hstack([np.eye(n), had_ref(n) / math.sqrt(n), dct_ref(n)]), 3.0), **D))
    for n in (1, 2, 3, 5, 8):
        out.append(Case("basis/cosine-%d" % n, basis(lambda n=n: crdict.cosine_basis(n), dct_ref(n)), **D))
        out.append(Case("basis/dirac-cosine-%d" % n, basis(lambda n=n: crdict.dirac_cosine_basis(n), np.hstack([np.eye(n), dct_ref(n)]), 2.0), **D))
        F = np.exp(2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / math.sqrt(n)
        out.append(Case("basis/fourier-%d" % n, basis(lambda n=n: crdict.fourier_basis(n), F), **D))
    for n, w, l in ((8, "haar", None), (8, "haar", 1), (8, "haar", 2), (16, "db2", None), (16, "db2", 1), (16, "sym4", None)):
        out.append(Case("basis/wavelet-%d-%s-%s" % (n, w, l), basis(lambda n=n, w=w, l=l: crdict.wavelet_basis(n, w, l)), **D))
    import jax.random as jr
    K = jr.PRNGKey(3)
    for nz in (True, False):
        out.append(Case("op/gaussian%s" % nz, op_equals(lambda nz=nz: lop.gaussian_dict(K, 3, 4, normalize_atoms=nz), lambda nz=nz: crdict.gaussian_mtx(K, 3, 4, normalize_atoms=nz), 4), **D))
        out.append(Case("op/rademacher%s" % nz, op_equals(lambda nz=nz: lop.rademacher_dict(K, 3, 4, normalize_atoms=nz), lambda nz=nz: crdict.rademacher_mtx(K, 3, 4, normalize_atoms=nz), 4), **D))
        for dense in (True,):
            out.append(Case("op/binary%s%s" % (nz, dense), op_equals(lambda nz=nz, dense=dense: lop.sparse_binary_dict(K, 6, 4, d=2, normalize_atoms=nz, dense=dense),
                                                                     lambda nz=nz: crdict.sparse_binary_mtx(K, 6, 4, d=2, normalize_atoms=nz, dense=True), 4), **D))
    out.append(Case("op/onb", op_equals(lambda: lop.random_onb_dict(K, 3), lambda: crdict.random_onb(K, 3), 3), **D))
    out.append(Case("op/rows", op_equals(lambda: lop.random_orthonormal_rows_dict(K, 2, 4), lambda: crdict.random_orthonormal_rows(K, 2, 4), 4), **D))
    return out
