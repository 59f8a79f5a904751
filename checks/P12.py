"""Thresholding pursuits: IHT, HTP, subspace pursuit, CoSaMP."""
import numpy as np
import jax.numpy as jnp
from cr.sparse._src.pursuit import iht, htp, sp, cosamp
from .purs import *
from .P11 import _static


def solver(mod, how, Phi, K, it, rtol, kw):
    args = dict(kw, max_iters=it, res_norm_rtol=rtol)
    if how == "operator":
        op = oper(Phi)
        return lambda y: mod.operator_solve(op, y, K, **args)
    if how == "jit":
        return lambda y: mod.matrix_solve_jit(jnp.asarray(Phi), y, K, **args)
    return lambda y: mod.matrix_solve(jnp.asarray(Phi), y, K, **args)


def common(H, sol, Phi, y, K, it, rtol):
    m, n = Phi.shape
    I = [int(i) for i in np.asarray(H.ints(sol.I)).reshape(-1)]
    H.claim("support: K distinct columns", len(I) == K and len(set(I)) == K and all(0 <= i < n for i in I))
    H.claim("coefficient shape", H.shape(sol.x_I) == (K,) and H.shape(sol.r) == (m,))
    A = Phi[:, I]
    H.eq("r = y - Phi_I x_I", sol.r, H.val(y) - H.val(A) @ H.val(sol.x_I), TOL)
    H.eq("residual energy", H.val(sol.r_norm_sqr).reshape(-1), np.array([sq(H, sol.r)]), TOL)
    k = int(H.ints(sol.iterations))
    H.claim("iterations within the limit", 1 <= k <= max(it, 1))
    H.claim("length", int(H.ints(sol.length)) == n)
    full = np.zeros((n, K))
    for a, i in enumerate(I):
        full[i, a] = 1
    x = H.val(full) @ H.val(sol.x_I)
    xs = H.call(lambda s, v: s._replace(x_I=v).x, _static(sol, I, n), sol.x_I)
    H.eq("sol.x scatters the coefficients", xs, x, TOL)
    if k < it:
        H.claim("stops early only at the tolerance", H.le(sq(H, sol.r), rtol ** 2 * sq(H, y), 1e-9))
    return I, k, x


def at(H, v, I):
    return np.array([H.val(v).reshape(-1)[i] for i in I], dtype=object) if H.symbolic else H.val(v)[list(I)]


def lsq(Phi, S):
    return np.linalg.pinv(Phi[:, list(S)])


def orthogonal(H, sol, Phi, I):
    H.eq("residual is orthogonal to the selected atoms", H.val(Phi[:, I].T) @ H.val(sol.r), np.zeros(len(I)), TOL)


def prev_state(H, mod, how, Phi, K, it, rtol, kw, y):
    """State before the last iteration: (I, x, r); the start is (0..K-1, 0, y)."""
    n = Phi.shape[1]
    if it <= 1:
        return list(range(K)), np.zeros(n) if not H.symbolic else H.val(np.zeros(n)), H.val(y)
    s = H.call(solver(mod, how, Phi, K, it - 1, rtol, kw), y)
    I = [int(i) for i in np.asarray(H.ints(s.I)).reshape(-1)]
    full = np.zeros((n, K))
    for a, i in enumerate(I):
        full[i, a] = 1
    return I, H.val(full) @ H.val(s.x_I), H.val(s.r)


def gradient_pursuit(name, how, Phi, K, it, rtol=1e-4, kw=None, family=None):
    mod = iht if name == "iht" else htp
    kw = kw or {}
    m, n = Phi.shape

    def body(H):
        y = signal(H, m, family)
        H.assume(H.le(0.01, sq(H, y)))
        sol = H.call(solver(mod, how, Phi, K, it, rtol, kw), y)
        I, k, x = common(H, sol, Phi, y, K, it, rtol)
        if k < it:
            return
        Ip, xp, rp = prev_state(H, mod, how, Phi, K, it, rtol, kw, y)
        h = H.val(Phi.T) @ rp
        if kw.get("normalized"):
            hI = at(H, h, Ip)
            Ah = H.val(Phi[:, Ip]) @ hI
            if H.branch(H.lt(sq(H, Ah), 1e-3)):
                return
            num, den = sq(H, hI), sq(H, Ah)
            # compare after multiplying by the positive denominator
            v = np.array([xi * den + num * hi for xi, hi in zip(xp, h)])
            scale = den
        else:
            mu = kw.get("step_size")
            if mu is None:
                mu = 0.98 / np.linalg.norm(Phi, 2)
            v = xp + np.array([mu * hi for hi in h]) if not H.symbolic else xp + h * H.val(mu).reshape(-1)[0]
            scale = 1
        is_top(H, "support holds the largest entries of the gradient step", v, I, 1e-7)
        if name == "iht" or it <= 1:
            H.eq("coefficients are those of the gradient step", np.array([q * scale for q in H.val(sol.x_I)]), at(H, v, I), TOL)
        else:
            orthogonal(H, sol, Phi, I)
    return body


def sp_case(how, Phi, K, it, rtol=1e-4, family=None):
    m, n = Phi.shape

    def body(H):
        y = signal(H, m, family)
        H.assume(H.le(0.01, sq(H, y)))
        sol = H.call(solver(sp, how, Phi, K, it, rtol, {}), y)
        I, k, x = common(H, sol, Phi, y, K, it, rtol)
        orthogonal(H, sol, Phi, I)
        if k < it:
            return
        if it <= 1:
            is_top(H, "support holds the largest correlations", H.val(Phi.T) @ H.val(y), I)
            return
        Ip, xp, rp = prev_state(H, sp, how, Phi, K, it, rtol, {}, y)
        h = H.val(Phi.T) @ rp
        rest = [i for i in range(n) if i not in Ip]
        new = [rest[a] for a in top(H, at(H, h, rest), K)]
        S = Ip + new
        c = H.val(lsq(Phi, S)) @ H.val(y)
        H.claim("new support is drawn from the merged one", set(I) <= set(S))
        if set(I) <= set(S):
            is_top(H, "support holds the largest merged least-squares coefficients", c, [S.index(i) for i in I])
    return body


def cosamp_case(how, Phi, K, it, rtol=1e-4, family=None):
    m, n = Phi.shape

    def body(H):
        y = signal(H, m, family)
        H.assume(H.le(0.01, sq(H, y)))
        sol = H.call(solver(cosamp, how, Phi, K, it, rtol, {}), y)
        I, k, x = common(H, sol, Phi, y, K, it, rtol)
        if k < it:
            return
        if it <= 1:
            S = top(H, H.val(Phi.T) @ H.val(y), 3 * K)
        else:
            Ip, xp, rp = prev_state(H, cosamp, how, Phi, K, it, rtol, {}, y)
            h = H.val(Phi.T) @ rp
            rest = [i for i in range(n) if i not in Ip]
            S = Ip + [rest[a] for a in top(H, at(H, h, rest), 2 * K)]
        c = H.val(lsq(Phi, S)) @ H.val(y)
        H.claim("support is drawn from the merged one", set(I) <= set(S))
        if set(I) <= set(S):
            J = [S.index(i) for i in I]
            is_top(H, "support holds the largest merged least-squares coefficients", c, J)
            H.eq("coefficients are those least-squares coefficients", sol.x_I, at(H, c, J), TOL)
    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    D = dict(div0=False, timeout_ms=10000, budget_s=900 if th else 100, max_paths=4000 if th else 500)
    base = np.array([1.0, 0.5, -0.25, 0.75, -1.0, 0.125])
    B = np.array([[1.0, 0.5], [-0.5, 1.0], [0.25, -0.75], [0.5, 0.25], [0.5, -1.0], [-0.75, 0.5]])
    fam = lambda m, d, s=0: (np.roll(base, s)[:m], np.roll(B, s, axis=0)[:m, :2 if d == 2 or th else 1] * (1 if s % 2 else 1.5))
    hows = ("matrix", "jit", "operator")
    for dn, K, its in (("d23", 1, (1, 2, 3)), ("d34", 1, (1, 2, 3)), ("d34", 2, (1,)), ("d35", 2, (1, 2)), ("d45", 2, (1, 2))):
        Phi = DICTS[dn]
        m = Phi.shape[0]
        for it in its:
            full = None if m < 4 and (K == 1 or th) else fam(m, 2)
            for h, how in enumerate(hows):
                nm = "%s-%s-K%d-it%d" % (how, dn, K, it)
                for s in ("iht", "htp"):
                    if it < 3 and (how != "jit" or it == 2):
                        out.append(Case("%s/%s" % (s, nm), gradient_pursuit(s, how, Phi, K, it, family=full if it == 1 or K == 1 else fam(m, 1, h)), **D))
                    if how != "jit":
                        if it == 1 or it == 2 and (K == 1 or th):
                            out.append(Case("%s/%s-normalized" % (s, nm), gradient_pursuit(s, how, Phi, K, it, kw=dict(normalized=True),
                                            family=None if m == 2 and it == 1 else fam(m, 1, h)), **D))
                        out.append(Case("%s/%s-step" % (s, nm), gradient_pursuit(s, how, Phi, K, it, kw=dict(step_size=0.5), family=full), **D))
                        if it > 1:
                            out.append(Case("%s/%s-rtol" % (s, nm), gradient_pursuit(s, how, Phi, K, it, rtol=0.5, family=full if K == 1 else fam(m, 1, h + 1)), **D))
                if dn == "d23" or how == "jit" and it > 1:
                    continue
                if 2 * K <= m or it == 1:
                    f = full if it == 1 or how == "matrix" and K == 1 and it == 2 else fam(m, 1, h)
                    out.append(Case("sp/%s" % nm, sp_case(how, Phi, K, it, family=f), **D))
                    out.append(Case("sp/%s-rtol" % nm, sp_case(how, Phi, K, it, rtol=0.5, family=f), **D))
                if 3 * K <= m:
                    f = fam(m, 2) if it == 1 and how == "matrix" else fam(m, 1, h)
                    out.append(Case("cosamp/%s" % nm, cosamp_case(how, Phi, K, it, family=f), **D))
                    out.append(Case("cosamp/%s-rtol" % nm, cosamp_case(how, Phi, K, it, rtol=0.5, family=f), **D))
    for h, how in enumerate(hows):
        out.append(Case("cosamp/%s-d68-K2-it1" % how, cosamp_case(how, D68, 2, 1, family=fam(6, 1, h)), **D))
        if how != "jit":
            if how == "matrix" or th:
                out.append(Case("cosamp/%s-d68-K2-it2" % how, cosamp_case(how, D68, 2, 2, rtol=0.4, family=fam(6, 1)), **D))
            out.append(Case("sp/%s-d68-K2-it2" % how, sp_case(how, D68, 2, 2, rtol=0.4, family=fam(6, 1)), **D))
            out.append(Case("sp/%s-d68-K3-it1" % how, sp_case(how, D68, 3, 1, rtol=0.4, family=fam(6, 2)), **D))
    return out
