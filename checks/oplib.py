"""Catalogue of the operator constructors, with independently written reference matrices."""
import numpy as np
import jax.numpy as jnp
from cr.sparse import lop

A_ = np.asarray
J = jnp.asarray


def rat(shape, seed, cplx=False, den=8):
    """Fixed dyadic test data (exactly representable)."""
    n = int(np.prod(shape, dtype=int))
    r = [(((i + 1) * 37 + seed * 101 + (i * i * 13) % 29) % 31 - 15) / den for i in range(n)]
    r = np.array(r).reshape(shape)
    if cplx:
        return r + 1j * rat(shape, seed + 7, False, den)
    return r


class Op:
    """One operator configuration.

    build(axis) -> Operator; M reference matrix on C-order vectors (None if the
    operator is only checked for internal consistency); cin/cout: the model/data
    space is complex; inner 'complex' or 'real'."""

    def __init__(self, name, build, ish, osh, M=None, cin=True, cout=None, axis=True, tags=(), MT=None, mat2d=True):
        self.name, self._b = name, build
        self.ish = (ish,) if isinstance(ish, int) else tuple(ish)
        self.osh = (osh,) if isinstance(osh, int) else tuple(osh)
        self.M, self.cin, self.cout = M, cin, (cin if cout is None else cout)
        self.has_axis = axis
        self.tags = set(tags)
        self.MT = MT            # pinned matrix of trans when it is not M^H
        self.mat2d = mat2d      # accepts a matrix of column vectors

    def build(self, axis=0):
        return self._b(axis) if self.has_axis else self._b()


def convmat(h, n, off):
    h = A_(h)
    m = len(h)
    M = np.zeros((n, n), dtype=h.dtype)
    for i in range(n):
        for j in range(n):
            k = i + off - j
            if 0 <= k < m:
                M[i, j] = h[k]
    return M


def convmatND(shape, h, off, axes):
    h = A_(h)
    N = int(np.prod(shape))
    M = np.zeros((N, N), dtype=h.dtype)
    for oi, o in enumerate(np.ndindex(*shape)):
        for ii, i in enumerate(np.ndindex(*shape)):
            if any(o[d] != i[d] for d in range(len(shape)) if d not in axes):
                continue
            k = tuple(o[ax] + off[t] - i[ax] for t, ax in enumerate(axes))
            if all(0 <= k[t] < h.shape[t] for t in range(h.ndim)):
                M[oi, ii] = h[k]
    return M


def dftmat(n):
    k = np.arange(n)
    return np.exp(-2j * np.pi * np.outer(k, k) / n)


def dctmat(n):
    j, k = np.arange(n)[:, None], np.arange(n)[None, :]
    M = np.sqrt(2 / n) * np.cos(np.pi * (2 * j + 1) * k / (2 * n))
    M[:, 0] /= np.sqrt(2)
    return M


def hadmat(n):
    """Walsh (sequency) ordered Hadamard matrix: row k has k sign changes."""
    H = np.ones((1, 1))
    while H.shape[0] < n:
        H = np.block([[H, H], [H, -H]])
    order = np.argsort([int(np.sum(r[1:] != r[:-1])) for r in H], kind="stable")
    return H[order] / np.sqrt(n)


def haar(m, level):
    """[a_L d_L ... d_1] on length m (a power of two)."""
    M = np.eye(m)
    W = np.eye(m)
    n = m
    for _ in range(level):
        S = np.eye(m)
        S[:n, :n] = 0
        for k in range(n // 2):
            S[k, 2 * k] = S[k, 2 * k + 1] = 1 / np.sqrt(2)
            S[n // 2 + k, 2 * k] = 1 / np.sqrt(2)
            S[n // 2 + k, 2 * k + 1] = -1 / np.sqrt(2)
        W = S @ W
        n //= 2
    return W


def haar2(sh, level):
    h, w = sh
    M = np.eye(h * w)
    out = []
    for e in range(h * w):
        X = np.zeros(sh)
        X.flat[e] = 1
        a, b = h, w
        for _ in range(level):
            B = haar(a, 1) @ X[:a, :b] @ haar(b, 1).T
            X[:a, :b] = B
            a //= 2
            b //= 2
        out.append(X.ravel())
    return np.array(out).T


def np2(n):
    m = 1
    while m < n:
        m *= 2
    return m


def fdmat(n, kind, dx):
    M = np.zeros((n, n))
    for i in range(n):
        if kind == "forward" and i < n - 1:
            M[i, i], M[i, i + 1] = -1, 1
        if kind == "backward" and i > 0:
            M[i, i], M[i, i - 1] = 1, -1
        if kind == "centered" and 0 < i < n - 1:
            M[i, i + 1], M[i, i - 1] = .5, -.5
    return M / dx


def sdmat(n, dx):
    M = np.zeros((n, n))
    for i in range(1, n - 1):
        M[i, i - 1:i + 2] = [1, -2, 1]
    return M / dx ** 2


def tvmat(n, kind):
    M = np.zeros((n, n))
    for i in range(n - 1):
        M[i, i], M[i, i + 1] = -1, 1
    if kind == "dirichlet":
        M[n - 1, n - 1] = -1
    if kind == "circular":
        M[n - 1, n - 1] -= 1
        M[n - 1, 0] += 1
    return M


def winmat(m, T, overlap):
    tm, tn = T.shape
    off = tm - overlap
    nb = 1
    while tm + (nb - 1) * off < m:
        nb += 1
    M = np.zeros((tm + (nb - 1) * off, nb * tn), dtype=T.dtype)
    for b in range(nb):
        M[b * off:b * off + tm, b * tn:(b + 1) * tn] += T
    return M[:m]


def bd(*Ms):
    m, n = sum(x.shape[0] for x in Ms), sum(x.shape[1] for x in Ms)
    M = np.zeros((m, n), dtype=np.result_type(*Ms))
    r = c = 0
    for x in Ms:
        M[r:r + x.shape[0], c:c + x.shape[1]] = x
        r += x.shape[0]
        c += x.shape[1]
    return M


def catalogue(tier):
    th = tier == "thorough"
    out = []
    add = out.append
    S = (1, 2, 3, 5, 8) + ((4, 7, 16) if th else ())
    # --- basic ---------------------------------------------------------------
    for n in S:
        add(Op("identity/%d" % n, lambda a, n=n: lop.identity(n, axis=a), n, n, np.eye(n)))
        d = rat((n,), 3)
        add(Op("diagonal/%d" % n, lambda a, d=d: lop.diagonal(J(d), axis=a), n, n, np.diag(d)))
        add(Op("zero/%d" % n, lambda a, n=n: lop.zero(n, axis=a), n, n, np.zeros((n, n))))
        add(Op("flipud/%d" % n, lambda n=n: lop.flipud(n), n, n, np.eye(n)[::-1], axis=False))
        add(Op("sum/%d" % n, lambda n=n: lop.sum(n), n, 1, np.ones((1, n)), axis=False))
        add(Op("symmetrize/%d" % n, lambda n=n: lop.symmetrize(n), n, 2 * n, np.vstack([np.eye(n)[::-1], np.eye(n)]), axis=False))
        w = 1 / np.sqrt(np.arange(n, 0, -1))
        Lt = np.tril(np.ones((n, n)))
        add(Op("heaviside/%d" % n, lambda a, n=n: lop.heaviside(n, axis=a), n, n, Lt * w[None, :]))
        add(Op("cumsum/%d" % n, lambda a, n=n: lop.cumsum(n, axis=a), n, n, Lt))
        D = np.eye(n) - np.eye(n, k=-1)
        add(Op("inv_heaviside/%d" % n, lambda a, n=n: lop.inv_heaviside(n, axis=a), n, n, D / w[:, None]))
        add(Op("diff/%d" % n, lambda a, n=n: lop.diff(n, axis=a), n, n, D))
        add(Op("scalar_mult/%d" % n, lambda n=n: lop.scalar_mult(-1.25, n), n, n, -1.25 * np.eye(n), axis=False))
    add(Op("scalar_mult/complex", lambda: lop.scalar_mult(0.5 - 2j, 4), 4, 4, (0.5 - 2j) * np.eye(4), axis=False, tags=("cplx",)))
    d = rat((4,), 4, True)
    add(Op("diagonal/complex", lambda a, d=d: lop.diagonal(J(d), axis=a), 4, 4, np.diag(d), tags=("cplx",)))
    for m, n in ((3, 5), (5, 3), (1, 4), (4, 1)):
        add(Op("identity/%dto%d" % (n, m), lambda a, m=m, n=n: lop.identity(n, m, axis=a), n, m, np.eye(m, n)))
        add(Op("zero/%dto%d" % (n, m), lambda a, m=m, n=n: lop.zero(n, m, axis=a), n, m, np.zeros((m, n))))
    for n, b, a_ in ((3, 0, 0), (3, 2, 1), (4, 0, 3), (4, 3, 0), (1, 1, 2)):
        M = np.zeros((b + n + a_, n))
        M[b:b + n] = np.eye(n)
        add(Op("pad_zeros/%d-%d-%d" % (n, b, a_), lambda n=n, b=b, a_=a_: lop.pad_zeros(n, b, a_), n, b + n + a_, M, axis=False, mat2d=False))
    for n, I in ((5, [0, 2, 4]), (6, [5, 1, 3]), (4, [2]), (4, [0, 1, 2, 3]), (7, [6, 0, 3, 2])):
        add(Op("restriction/%d-%s" % (n, "".join(map(str, I))), lambda a, n=n, I=I: lop.restriction(n, jnp.array(I), axis=a), n, len(I), np.eye(n)[I]))
    for m, n in ((3, 5), (5, 3), (4, 4), (1, 3), (3, 1)):
        M = rat((m, n), 5)
        Mc = rat((m, n), 6, True)
        add(Op("matrix/%dx%d" % (m, n), lambda a, M=M: lop.matrix(J(M), axis=a), n, m, M))
        add(Op("matrix/c%dx%d" % (m, n), lambda a, M=Mc: lop.matrix(J(M), axis=a), n, m, Mc, tags=("cplx",)))
        add(Op("real_matrix/%dx%d" % (m, n), lambda M=M: lop.real_matrix(J(M)), n, m, M, axis=False, mat2d=False))
    # --- calculus --------------------------------------------------------------
    for n in (3, 4, 7) + ((10, 16) if th else ()):
        for kind in ("forward", "backward", "centered"):
            for dx in (1., .25, 2.):
                if dx == 2. and n != 4:
                    continue
                add(Op("first_derivative/%s-%d-%g" % (kind, n, dx), lambda n=n, k=kind, dx=dx: lop.first_derivative(n, dx, k),
                       n, n, fdmat(n, kind, dx), axis=False, mat2d=False))
        for dx in (1., .5):
            add(Op("second_derivative/%d-%g" % (n, dx), lambda n=n, dx=dx: lop.second_derivative(n, dx), n, n, sdmat(n, dx), axis=False, mat2d=False))
    for n in (2, 3, 5) + ((8, 13) if th else ()):
        for kind in ("regular", "dirichlet", "circular"):
            add(Op("tv/%s-%d" % (kind, n), lambda a, n=n, k=kind: lop.tv(n, k, axis=a), n, n, tvmat(n, kind)))
    for sh in ((2, 3), (3, 3)) + (((3, 5),) if th else ()):
        for kind in ("regular", "dirichlet", "circular"):
            M = np.kron(np.eye(sh[0]), tvmat(sh[1], kind)) + 1j * np.kron(tvmat(sh[0], kind), np.eye(sh[1]))
            add(Op("tv2D/%s-%dx%d" % (kind, *sh), lambda s=sh, k=kind: lop.tv2D(s, k), sh, sh, M, cin=False, cout=True, axis=False,
                   MT=M.T, tags=("tv2d",)))
    # --- filters -----------------------------------------------------------------
    for n, l in ((5, 1), (5, 2), (5, 3), (6, 4), (6, 5), (7, 7), (6, 6)):
        add(Op("running_average/%d-%d" % (n, l), lambda a, n=n, l=l: lop.running_average(n, l, axis=a), n, n, convmat(np.ones(l) / l, n, (l - 1) // 2)))
        h = rat((l,), l)
        add(Op("fir_filter/%d-%d" % (n, l), lambda a, n=n, h=h: lop.fir_filter(n, J(h), axis=a), n, n, convmat(h, n, (l - 1) // 2)))
    for n, l in ((5, 3), (6, 4)):
        h = rat((l,), l, True)
        add(Op("fir_filter/c%d-%d" % (n, l), lambda a, n=n, h=h: lop.fir_filter(n, J(h), axis=a), n, n, convmat(h, n, (l - 1) // 2), tags=("cplx",)))
    for n, l in ((4, 1), (4, 2), (5, 3), (3, 5), (6, 4)):
        h = rat((l,), l + 1)
        for off in range(l):
            add(Op("convolve/%d-%d-%d" % (n, l, off), lambda a, n=n, h=h, o=off: lop.convolve(n, J(h), o, axis=a), n, n, convmat(h, n, off)))
    h = rat((3,), 9, True)
    add(Op("convolve/c5-3-1", lambda a, h=h: lop.convolve(5, J(h), 1, axis=a), 5, 5, convmat(h, 5, 1), tags=("cplx",)))
    for sh, hs, off in (((3, 4), (2, 2), None), ((3, 4), (2, 3), (1, 1)), ((4, 3), (3, 2), (2, 0)), ((3, 3), (3, 3), (1, 1))):
        h = rat(hs, 4)
        M = convmatND(sh, h, off or (0, 0), (0, 1))
        add(Op("convolve2D/%s-%s-%s" % (sh, hs, off), lambda s=sh, h=h, o=off: lop.convolve2D(s, J(h), o), sh, sh, M, axis=False))
    for sh, hs, off, axes in (((2, 3, 3), (2, 2), (0, 1), (1, 2)), ((3, 2, 3), (2, 3), (1, 1), (0, 2)), ((2, 3, 2), (2, 2, 2), None, None),
                              ((4,), (3,), (1,), None), ((3, 4), (3,), (1,), (1,)), ((3, 4), (2,), (1,), (0,))):
        h = rat(hs, 5)
        M = convmatND(sh, h, off or (0,) * len(hs), axes or tuple(range(len(hs))))
        add(Op("convolveND/%s-%s-%s-%s" % (sh, hs, off, axes), lambda s=sh, h=h, o=off, x=axes: lop.convolveND(s, J(h), o, x), sh, sh, M, axis=False, mat2d=False))
    h = rat((2, 2), 5, True)
    add(Op("convolve2D/complex", lambda h=h: lop.convolve2D((3, 3), J(h), (0, 1)), (3, 3), (3, 3), convmatND((3, 3), h, (0, 1), (0, 1)), axis=False, tags=("cplx",)))
    # --- transforms ----------------------------------------------------------------
    for n in (1, 2, 3, 4, 5, 8) + ((6, 7, 16) if th else ()):
        F = dftmat(n)
        add(Op("fourier_basis/%d" % n, lambda n=n: lop.fourier_basis(n), n, n, F.conj().T / np.sqrt(n), axis=False, tags=("onb",)))
        add(Op("dirac_fourier_basis/%d" % n, lambda n=n: lop.dirac_fourier_basis(n), 2 * n, n, np.hstack([np.eye(n), F.conj().T / np.sqrt(n)]), axis=False, tags=("twoonb",)))
        add(Op("cosine_basis/%d" % n, lambda n=n: lop.cosine_basis(n), n, n, dctmat(n), cin=False, axis=False, tags=("onb",)))
        for p in (0, 1, 3):
            add(Op("fft/c2c-%d-%d" % (n, n + p), lambda a, n=n, p=p: lop.fft(n, n + p, axis=a, mode="c2c"), n, n + p, dftmat(n + p)[:, :n], axis=True))
            add(Op("fft/r2c-%d-%d" % (n, n + p), lambda a, n=n, p=p: lop.fft(n, n + p, axis=a, mode="r2c"), n, n + p, dftmat(n + p)[:, :n], cin=False, cout=True, axis=True))
    for n in (2, 4, 8) + ((16, 32) if th else ()):
        add(Op("walsh_hadamard_basis/%d" % n, lambda n=n: lop.walsh_hadamard_basis(n), n, n, hadmat(n), axis=False, tags=("onb",)))
    for n, l in ((3, 2), (4, 4), (5, 3), (6, 1)):
        c = rat((l,), n)
        M = np.array([[np.pad(c, (0, n - l))[(i - j) % n] for j in range(n)] for i in range(n)])
        add(Op("circulant/%d-%d" % (n, l), lambda a, n=n, c=c: lop.circulant(n, J(c), axis=a), n, n, M, cin=False))
    for n, lv in ((2, 1), (4, 1), (4, 2), (8, 1), (8, 2), (8, 3), (5, 1), (6, 2), (7, 1)) + (((16, 4), (13, 2)) if th else ()):
        m = np2(n)
        W = haar(m, lv)[:, :n]
        t = ("onb",) if n == m else ("tight",)
        add(Op("dwt/haar-%d-%d" % (n, lv), lambda a, n=n, l=lv: lop.dwt(n, "haar", l, axis=a), n, m, W, cin=False, tags=t))
        add(Op("dwt/haar-%d-%d-basis" % (n, lv), lambda a, n=n, l=lv: lop.dwt(n, "haar", l, axis=a, basis=True), m, n, W.T, cin=False, tags=t))
    for wv, n, lv in (("db2", 8, 1), ("db2", 8, 1), ("db3", 16, 1), ("sym4", 16, 1), ("coif1", 16, 1), ("db2", 12, 1)) + ((("db2", 16, 2), ("db4", 32, 2), ("sym3", 32, 1)) if th else ()):
        for b in (False, True):
            m = np2(n)
            add(Op("dwt/%s-%d-%d%s" % (wv, n, lv, "-basis" if b else ""), lambda a, w=wv, n=n, l=lv, b=b: lop.dwt(n, w, l, axis=a, basis=b),
                   m if b else n, n if b else m, None, cin=False, tags=("onb",) if m == n else ("tight",)))
    for sh, lv in (((2, 2), 1), ((4, 4), 1), ((4, 4), 2), ((4, 8), 1), ((2, 4), 1), ((3, 4), 1), ((5, 3), 1)):
        o = (np2(sh[0]), np2(sh[1]))
        P = np.zeros((o[0] * o[1], sh[0] * sh[1]))
        for i in range(sh[0]):
            for j in range(sh[1]):
                P[i * o[1] + j, i * sh[1] + j] = 1
        W = haar2(o, lv) @ P
        t = ("onb",) if sh == o else ("tight",)
        add(Op("dwt2D/haar-%dx%d-%d" % (*sh, lv), lambda s=sh, l=lv: lop.dwt2D(s, "haar", l), sh, o, W, cin=False, axis=False, tags=t))
        add(Op("dwt2D/haar-%dx%d-%d-basis" % (*sh, lv), lambda s=sh, l=lv: lop.dwt2D(s, "haar", l, basis=True), o, sh, W.T, cin=False, axis=False, tags=t))
    add(Op("dwt2D/db2-8x8-1", lambda: lop.dwt2D((8, 8), "db2", 1), (8, 8), (8, 8), None, cin=False, axis=False, tags=("onb",)))

    def d2axes(sh, axes, lv):
        """matrix of haar dwt2D along `axes` of an array of shape sh"""
        o = list(sh)
        for a in axes:
            o[a] = np2(sh[a])
        cols = []
        for e in range(int(np.prod(sh))):
            X = np.zeros(sh)
            X.flat[e] = 1
            Y = np.pad(X, [(0, o[d] - sh[d]) for d in range(len(sh))])
            Y = np.moveaxis(Y, axes, (0, 1)).copy()
            a, b = Y.shape[:2]
            for _ in range(lv):
                B = np.tensordot(haar(a, 1), Y[:a, :b], (1, 0))
                B = np.moveaxis(np.tensordot(haar(b, 1), B, (1, 1)), 0, 1)
                Y[:a, :b] = B
                a //= 2
                b //= 2
            cols.append(np.moveaxis(Y, (0, 1), axes).ravel())
        return np.array(cols).T, tuple(o)
    for sh, axes in (((4, 2), (1, 0)), ((4, 8), (1, 0)), ((3, 4), (1, 0)), ((4, 2, 2), (0, 1)), ((2, 4, 2), (0, 2)), ((2, 3, 4), (1, 2))):
        W, o = d2axes(sh, axes, 1)
        for b in (False, True):
            add(Op("dwt2D/axes-%s-%s%s" % (sh, axes, "-basis" if b else ""), lambda s=sh, x=axes, b=b: lop.dwt2D(s, "haar", 1, axes=x, basis=b),
                   o if b else sh, sh if b else o, W.T if b else W, cin=False, axis=False, tags=("onb",) if o == sh else ("tight",)))
    # --- reshape / dot ---------------------------------------------------------------
    for ish, osh, order in (((6,), (2, 3), "C"), ((2, 3), (3, 2), "C"), ((2, 3), (6,), "F"), ((2, 3), (3, 2), "F"), ((2, 2, 2), (4, 2), "F")):
        N = int(np.prod(ish))
        idx = np.arange(N).reshape(ish).reshape(osh, order=order).ravel()
        add(Op("reshape/%s-%s-%s" % (ish, osh, order), lambda i=ish, o=osh, r=order: lop.reshape(i, o, order=r), ish, osh, np.eye(N)[idx], axis=False))
    for sh in ((2, 3), (2, 2, 2)):
        N = int(np.prod(sh))
        add(Op("arr2vec/%s" % (sh,), lambda s=sh: lop.arr2vec(s), sh, (N,), np.eye(N), axis=False))
    for sh in ((3,), (2, 2)):
        v = rat(sh, 3)
        add(Op("dot/%s" % (sh,), lambda v=v: lop.dot(J(v)), sh, (1,), v.reshape(1, -1), cin=False, axis=False, mat2d=False))
        add(Op("dot/%s-adj" % (sh,), lambda v=v: lop.dot(J(v), adjoint=True), (1,), sh, v.reshape(-1, 1), cin=False, axis=False, mat2d=False))
        vc = rat(sh, 3, True)
        add(Op("dot/c%s" % (sh,), lambda v=vc: lop.dot(J(v)), sh, (1,), vc.conj().reshape(1, -1), cin=True, cout=False, axis=False, tags=("rdot",)))
        add(Op("dot/c%s-adj" % (sh,), lambda v=vc: lop.dot(J(v), adjoint=True), (1,), sh, vc.reshape(-1, 1), cin=False, cout=True, axis=False, tags=("rdotadj", "real_trans")))
    # --- composites ----------------------------------------------------------------------
    B1, B2, B3 = rat((2, 3), 1), rat((3, 2), 2), rat((1, 2), 3)
    add(Op("block_diag/2", lambda a: lop.block_diag([lop.matrix(J(B1)), lop.matrix(J(B2))], axis=a), 5, 5, bd(B1, B2)))
    add(Op("block_diag/3", lambda a: lop.block_diag([lop.matrix(J(B1)), lop.matrix(J(B2)), lop.matrix(J(B3))], axis=a), 7, 6, bd(B1, B2, B3)))
    add(Op("block_diag/mixed", lambda a: lop.block_diag([lop.cumsum(2), lop.matrix(J(B1)), lop.fourier_basis(2)], axis=a), 7, 6,
           bd(np.tril(np.ones((2, 2))), B1, dftmat(2).conj().T / np.sqrt(2)), tags=("cplx",)))
    T1, T2, T3, T4 = rat((2, 2), 4), rat((3, 2), 5), rat((2, 3), 6), rat((3, 2), 8, True)
    for m, T, ov in ((4, T1, 0), (5, T1, 1), (6, T2, 0), (7, T2, 1), (6, T2, 2), (5, T3, 1), (2, T1, 0), (4, T3, 0), (8, T2, 1)):
        M = winmat(m, T, ov)
        add(Op("windowed_op/%d-%dx%d-%d" % (m, *T.shape, ov), lambda a, m=m, T=T, ov=ov: lop.windowed_op(m, lop.matrix(J(T)), ov, axis=a), M.shape[1], m, M))
    M = winmat(5, T4, 1)
    add(Op("windowed_op/complex", lambda a: lop.windowed_op(5, lop.matrix(J(T4)), 1, axis=a), M.shape[1], 5, M, tags=("cplx",)))
    M = winmat(4, dftmat(2).conj().T / np.sqrt(2), 0)
    add(Op("windowed_op/fourier", lambda a: lop.windowed_op(4, lop.fourier_basis(2), 0, axis=a), 4, 4, M, tags=("cplx",)))
    seen = set()
    res = []
    for o in out:
        o.name = o.name.replace(" ", "")
        if o.name not in seen:
            seen.add(o.name)
            res.append(o)
    return res
