"""Orthogonal matching pursuit and matching pursuit."""
import itertools
import numpy as np
import jax.numpy as jnp
from cr.sparse._src.pursuit import omp, mp
from .purs import *


def consistent(H, sol, Phi, y, k):
    m, n = Phi.shape
    I = [int(i) for i in H.ints(sol.I)]
    H.claim("support size", len(I) == k)
    H.claim("support entries are distinct columns", len(set(I)) == len(I) and all(0 <= i < n for i in I))
    H.claim("coefficient shape", H.shape(sol.x_I) == (len(I),))
    A = Phi[:, I]
    r = H.val(y) - H.val(A) @ H.val(sol.x_I)
    H.eq("r = y - Phi_I x_I", sol.r, r, TOL)
    H.eq("residual energy", H.val(sol.r_norm_sqr).reshape(-1), np.array([sq(H, sol.r)]), TOL)
    H.claim("length", int(H.ints(sol.length)) == n)
    full = np.zeros((n, len(I)))
    for a, i in enumerate(I):
        full[i, a] = 1
    x = H.call(lambda s, v: s._replace(x_I=v).x, _static(sol, I, n), sol.x_I)
    H.eq("sol.x scatters the coefficients", x, H.val(full) @ H.val(sol.x_I), TOL)
    return I


def _static(sol, I, n):
    return type(sol)(x_I=None, I=np.array(I), r=None, r_norm_sqr=None, iterations=0, length=n)


def greedy(H, Phi, y, I, upto=None):
    """Every selected atom maximises the correlation with the residual of the atoms before it; the final residual is orthogonal."""
    for k in range(len(I)):
        P = res_proj(Phi, I[:k])
        is_top(H, "atom %d has the largest correlation" % (k + 1), H.val(Phi.T @ P) @ H.val(y), [I[k]])


def nondegenerate(H, Phi, y, K):
    """y is away from the span of every K-1 atoms (stated with linear inequalities on a basis of the complement)."""
    m, n = Phi.shape
    for S in itertools.combinations(range(n), K - 1):
        u, sv, vt = np.linalg.svd(res_proj(Phi, S))
        Q = np.round(u[:, :m - K + 1].T, 12) + 0.0
        H.assume(H.or_(*[H.le(0.1, a) for a in absd(H, Q, y)]))


def omp_case(Phi, K, how, rtol=1e-4, family=None):
    m, n = Phi.shape

    def body(H):
        y = signal(H, m, family)
        P = jnp.asarray(Phi)
        if how == "operator":
            H.assume(H.le(0.01, sq(H, y)))
            op = oper(Phi)
            sol = H.call(lambda y: omp.operator_solve(op, y, K, res_norm_rtol=rtol), y)
            it = int(H.ints(sol.iterations))
            H.claim("iterations", 1 <= it <= K)
        else:
            nondegenerate(H, Phi, y, K)
            f = omp.solve if how == "jit" else omp.matrix_solve
            sol = H.call(lambda y: f(P, y, K), y)
            it = int(H.ints(sol.iterations))
            H.claim("iterations", it == K)
        I = consistent(H, sol, Phi, y, it)
        H.eq("residual is orthogonal to the selected atoms", H.val(Phi[:, I].T) @ H.val(sol.r), np.zeros(len(I)), TOL)
        greedy(H, Phi, y, I)
        if it < K:
            H.claim("stops early only at the tolerance", H.le(sq(H, sol.r), rtol ** 2 * sq(H, y), 1e-9))
    return body


def omp_multi(Phi, K, L):
    m, n = Phi.shape

    def body(H):
        z = H.inputs(z=((2,), -1, 1))
        # L signals: an affine family
        rng = np.random.RandomState(3)
        B = rng.randint(-3, 4, size=(m, L, 2)) / 4.0
        c = rng.randint(-3, 4, size=(m, L)) / 4.0
        Y = H.call(lambda z: jnp.asarray(B) @ z + jnp.asarray(c), z)
        Yv = H.val(Y)
        for l in range(L):
            nondegenerate(H, Phi, Yv[:, l], K)
        sol = H.call(lambda Y: omp.matrix_solve_multi(jnp.asarray(Phi), Y, K), Y)
        H.claim("shapes", H.shape(sol.x_I) == (L, K) and H.shape(sol.I) == (L, K) and H.shape(sol.r) == (L, m))
        I = np.asarray(H.ints(sol.I))
        for l in range(L):
            A = Phi[:, I[l]]
            r = Yv[:, l] - H.val(A) @ H.val(sol.x_I)[l]
            H.eq("signal %d: residual" % l, H.val(sol.r)[l], r, TOL)
            H.eq("signal %d: orthogonality" % l, H.val(A.T) @ H.val(sol.r)[l], np.zeros(K), TOL)
            H.eq("signal %d: energy" % l, H.val(sol.r_norm_sqr).reshape(-1)[l:l + 1], np.array([sq(H, H.val(sol.r)[l])]), TOL)
            greedy(H, Phi, Yv[:, l], [int(i) for i in I[l]])
    return body


def mp_case(Phi, k, how, rtol=1e-4, family=None):
    m, n = Phi.shape

    def body(H):
        y = signal(H, m, family)
        H.assume(H.le(0.01, sq(H, y)))
        if how == "operator":
            op = oper(Phi)
            f = lambda it: H.call(lambda y: mp.solve(op, y, max_iters=it, res_norm_rtol=rtol), y)
        else:
            f = lambda it: H.call(lambda y: mp.matrix_solve(jnp.asarray(Phi), y, max_iters=it, res_norm_rtol=rtol), y)
        st = f(k)
        it = int(H.ints(st.iterations))
        x, r = H.val(st.x), H.val(st.r)
        H.claim("shapes", H.shape(st.x) == (n,) and H.shape(st.r) == (m,))
        H.claim("iterations within the limit", 0 <= it <= k)
        H.eq("r = y - Phi x", r, H.val(y) - H.val(Phi) @ x, TOL)
        H.eq("residual energy", H.val(st.r_norm_sqr).reshape(-1), np.array([sq(H, r)]), TOL)
        if it < k:
            H.claim("stops early only at the tolerance", H.le(sq(H, r), rtol ** 2 * sq(H, y), 1e-9))
        elif it > 0:
            pr = f(k - 1)
            r0, x0 = H.val(pr.r), H.val(pr.x)
            h = H.val(Phi.T) @ r0
            d = x - x0
            H.claim("does not continue below the tolerance", H.le(rtol ** 2 * sq(H, y), sq(H, r0), 1e-9))
            a = H.absv(h)
            # some maximal correlation is the one update
            opts = []
            for i in range(n):
                mx = H.and_(*[H.le(a[j], a[i], 1e-7) for j in range(n)])
                e = np.zeros(n)
                e[i] = 1
                opts.append(H.and_(mx, H.close(d, H.val(e) * h[i], TOL)))
            H.claim("one update, by the largest correlation", H.or_(*opts))
            H.claim("energy does not grow", H.le(sq(H, r), sq(H, r0), 1e-9))
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(div0=False, timeout_ms=10000, budget_s=400 if th else 150, max_paths=2000 if th else 400)
    big = (np.array([1.0, 0.5, -0.25, 0.75]), np.array([[1.0, 0.5], [-0.5, 1.0], [0.25, -0.75], [0.5, 0.25]]))
    small = (big[0][:3], big[1][:3])
    for dn, Ks in (("d23", (1, 2)), ("d34", (1, 2, 3)), ("d35", (1, 2, 3)), ("d45", (1, 2, 3))):
        Phi = DICTS[dn]
        for K in Ks:
            fam = big if Phi.shape[0] == 4 else None if K < 3 or th else small
            for how in ("matrix", "jit", "operator"):
                out.append(Case("omp/%s-%s-K%d" % (how, dn, K), omp_case(Phi, K, how, family=fam), **D))
            if dn == "d45" and K == 3 and not th:
                D = dict(D, budget_s=60)
            for rtol in (0.5, 0.1):
                out.append(Case("omp/operator-%s-K%d-rtol%g" % (dn, K, rtol), omp_case(Phi, K, "operator", rtol, fam), **D))
            for how in ("matrix", "operator"):
                if K <= 2:
                    out.append(Case("mp/%s-%s-it%d" % (how, dn, K), mp_case(Phi, K, how, family=fam), **D))
                out.append(Case("mp/%s-%s-it%d-rtol" % (how, dn, K), mp_case(Phi, K, how, 0.5, fam), **D))
        out.append(Case("mp/matrix-%s-it0" % dn, mp_case(Phi, 0, "matrix", family=None if Phi.shape[0] < 4 else big), **D))
        out.append(Case("omp/multi-%s" % dn, omp_multi(Phi, 2, 2), **D))
    return out
