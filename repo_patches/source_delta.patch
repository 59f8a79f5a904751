From f1aaf2a395d54c7f614c39f44ead0ecc7f36ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:36 +0000
Subject: [PATCH 01/28] fix: centered first_derivative adjoint honours dx and
 complex data

---
 src/cr/sparse/_src/lop/calculus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/calculus.py b/src/cr/sparse/_src/lop/calculus.py
index eae78ae..a9d848b 100644
--- a/src/cr/sparse/_src/lop/calculus.py
+++ b/src/cr/sparse/_src/lop/calculus.py
@@ -45,10 +45,10 @@ def _derivative_centered(x, dx):
     return jnp.pad(diffs, (1,1))
 
 def _derivative_centered_adj(x, dx):
-    y = jnp.zeros(x.shape)
+    y = jnp.zeros_like(0.5*x)
     y = y.at[0:-2].add(-0.5*x[1:-1])
     y = y.at[2:].add(0.5*x[1:-1])
-    return y
+    return y / dx
 
 
 def first_derivative(n, dx=1., kind='centered'):
-- 
2.43.0


From ac9b1862743573d0359a4952ce86a1a503decc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:36 +0000
Subject: [PATCH 02/28] fix: convolveND adjoint conjugates complex filters

---
 src/cr/sparse/_src/lop/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index 2dd44bb..fb91068 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -138,7 +138,7 @@ def convolveND(shape, h, offset=None, axes=None):
     h_conv = h[tuple(slice(None, None, -1) for s in shape)]
     # extend it
     h_conv = h_conv[None, None]
-    h_corr = h[None, None]
+    h_corr = jnp.conjugate(h)[None, None]
 
     def times(x):
         """Forward N-D convolution
-- 
2.43.0


From 5792d98a4efdbdef1212fddee73afe36bdcf93f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:36 +0000
Subject: [PATCH 03/28] fix: dwt2D pads and crops along the requested axes of
 N-D arrays

---
 src/cr/sparse/_src/lop/dwt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/dwt.py b/src/cr/sparse/_src/lop/dwt.py
index 5527537..4981929 100644
--- a/src/cr/sparse/_src/lop/dwt.py
+++ b/src/cr/sparse/_src/lop/dwt.py
@@ -206,7 +206,10 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     hh = wt.next_pow_of_2(h)
     ww = wt.next_pow_of_2(w)
-    pad = ((0, hh-h), (0, ww-w))
+    pad = [(0, 0) for _ in shape]
+    pad[axes[0]] = (0, hh-h)
+    pad[axes[1]] = (0, ww-w)
+    in_slices = tuple(slice(0, s) for s in shape)
 
     out_shape = list(shape)
     out_shape[axes[0]] = hh
@@ -219,7 +222,7 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     def trans(coefs):
         x = waverec2(coefs, rec_lo, rec_hi, level, axes)
-        return x[:h, :w]
+        return x[in_slices]
 
     if basis:
         # Return the wavelet basis
-- 
2.43.0


From e0760e59b40eeb75905be6ff6da33c311350cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:36 +0000
Subject: [PATCH 04/28] fix: windowed_op adjoint keeps the imaginary part of
 complex operators

---
 src/cr/sparse/_src/lop/windowed_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/windowed_op.py b/src/cr/sparse/_src/lop/windowed_op.py
index fc9652e..75de82d 100644
--- a/src/cr/sparse/_src/lop/windowed_op.py
+++ b/src/cr/sparse/_src/lop/windowed_op.py
@@ -59,7 +59,7 @@ def windowed_op(m, T, overlap=0, axis=0):
     # x padding to be used in adjoint operation
     xz = jnp.zeros(tm + yl -m)
     # initial value of y for trans operation
-    ya = jnp.zeros(tn * n_blocks)
+    ya = jnp.zeros(tn * n_blocks, dtype=dtype)
 
     def times1d(x):
         def body_func(i, y):            
-- 
2.43.0


From 796b4f36c8505aacd809ca70dbdce6de0c1d8069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:35 +0000
Subject: [PATCH 05/28] fix: fft adjoint crops along the transform axis

---
 src/cr/sparse/_src/lop/fft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/fft.py b/src/cr/sparse/_src/lop/fft.py
index c88d81e..773ca8e 100644
--- a/src/cr/sparse/_src/lop/fft.py
+++ b/src/cr/sparse/_src/lop/fft.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from jax import lax
 import jax.numpy as jnp
 import jax.numpy.fft as jfft
 
@@ -42,7 +43,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     elif mode == 'c2c':
         def times(x):
             w = jfft.fft(x, n, axis=axis)
@@ -51,7 +52,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     else: 
         raise ValueError(f"Unsupported mode {mode}")
 
-- 
2.43.0


From 814ef0d45cdd9efcc9e605d6eb062dfe87f29072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:36 +0000
Subject: [PATCH 06/28] fix: windowed_op of a real operator keeps complex
 inputs

---
 src/cr/sparse/_src/lop/windowed_op.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/windowed_op.py b/src/cr/sparse/_src/lop/windowed_op.py
index 75de82d..02ddea0 100644
--- a/src/cr/sparse/_src/lop/windowed_op.py
+++ b/src/cr/sparse/_src/lop/windowed_op.py
@@ -66,7 +66,8 @@ def windowed_op(m, T, overlap=0, axis=0):
             xw = x[i*tn + n_range]
             idx = i * offset + m_range
             return y.at[idx].add(T.times(xw))
-        y = lax.fori_loop(0, n_blocks, body_func, yf)
+        y0 = yf.astype(jnp.result_type(yf, x))
+        y = lax.fori_loop(0, n_blocks, body_func, y0)
         return y[:m]
 
 
@@ -76,7 +77,8 @@ def windowed_op(m, T, overlap=0, axis=0):
         def body_func(i, y):
             xw = x[i * offset + m_range]
             return y.at[i*tn + n_range].set(T.trans(xw))
-        return lax.fori_loop(0, n_blocks, body_func, ya)
+        y0 = ya.astype(jnp.result_type(ya, x))
+        return lax.fori_loop(0, n_blocks, body_func, y0)
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
 
-- 
2.43.0


From f1a0a5bc11e9bfea3146eb25a7974a6c296ff129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:04 +0000
Subject: [PATCH 07/28] fix: transpose of a complex operator accepts a matrix
 of vectors

---
 src/cr/sparse/_src/lop/lop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 1b8a4dd..d43cfd2 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -258,8 +258,8 @@ def transpose(A):
         times = A.trans
         trans = A.times
     else:
-        times = lambda x: _hermitian(A.trans(_hermitian(x)))
-        trans = lambda x: _hermitian(A.times(_hermitian(x)))
+        times = lambda x: jnp.conjugate(A.trans(jnp.conjugate(x)))
+        trans = lambda x: jnp.conjugate(A.times(jnp.conjugate(x)))
     return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
 
 def apply_n(func, n, x):
-- 
2.43.0


From 5f977f32917115f9af5c9ed0e6dfea5386ebfa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:04 +0000
Subject: [PATCH 08/28] fix: operators built from complex data are not declared
 real

---
 src/cr/sparse/_src/lop/basic.py      | 4 ++--
 src/cr/sparse/_src/lop/block_diag.py | 3 ++-
 src/cr/sparse/_src/lop/conv.py       | 4 ++--
 src/cr/sparse/_src/lop/filters.py    | 2 +-
 src/cr/sparse/_src/lop/lop.py        | 2 +-
 5 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index e15d2b6..3aa4534 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -190,7 +190,7 @@ def diagonal(d, axis=0):
     times = lambda x: d * x
     trans = lambda x: _hermitian(d) * x
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(d))
 
 
 def scalar_mult(alpha, n):
@@ -208,7 +208,7 @@ def scalar_mult(alpha, n):
     assert alpha.ndim == 0, "alpha must be a scalar quantity"
     times = lambda x: alpha * x
     trans = lambda x: alpha_c * x
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(alpha))
 
 
 def zero(in_dim, out_dim=None, axis=0):
diff --git a/src/cr/sparse/_src/lop/block_diag.py b/src/cr/sparse/_src/lop/block_diag.py
index c98f8cb..9cbf57d 100644
--- a/src/cr/sparse/_src/lop/block_diag.py
+++ b/src/cr/sparse/_src/lop/block_diag.py
@@ -139,4 +139,5 @@ def block_diag(operators, axis=0):
         return jnp.concatenate(ys)
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(m_all,n_all))
+    real = all(op.real for op in operators)
+    return Operator(times=times, trans=trans, shape=(m_all,n_all), real=real)
diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index fb91068..ff46cbf 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -74,7 +74,7 @@ def convolve(n, h, offset=0, axis=0):
         return result[0, 0, 0, b_slice]
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
 def convolve2D(shape, h, offset=None, axes=None):
     """Performs 2 dimensional convolution on the input array
@@ -164,4 +164,4 @@ def convolveND(shape, h, offset=None, axes=None):
         # pick the slices from other dimensions
         return result[a_slices]
 
-    return Operator(times=times, trans=trans, shape=(shape,shape))
+    return Operator(times=times, trans=trans, shape=(shape,shape), real=jnp.isrealobj(h))
diff --git a/src/cr/sparse/_src/lop/filters.py b/src/cr/sparse/_src/lop/filters.py
index a786919..28920ef 100644
--- a/src/cr/sparse/_src/lop/filters.py
+++ b/src/cr/sparse/_src/lop/filters.py
@@ -38,5 +38,5 @@ def fir_filter(n, h, axis=0):
     times1d = lambda x : jnp.convolve(x, h, 'same')
     trans1d = lambda x : jnp.convolve(x, h_conj, 'full')[start:start+n]
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index d43cfd2..adae32c 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -217,7 +217,7 @@ def scale(A, alpha):
         (Operator): A linear operator T such that :math:`T x = \alpha A x` 
         and :math:`T^H x = \bar{\alpha} A^H x`
     """
-    real = A.real and not  isinstance(alpha, complex)
+    real = A.real and not jnp.iscomplexobj(alpha)
     alpha_c = jnp.conjugate(alpha)
     times = lambda x : alpha * A.times(x)
     trans = lambda x : alpha_c * A.trans(x)
-- 
2.43.0


From c693b9c898ca8b20c5f9cc8d003ec90422dd2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:04 +0000
Subject: [PATCH 09/28] fix: operator algebra keeps the linear, jit_safe and
 matrix_safe flags

---
 src/cr/sparse/_src/lop/lop.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index adae32c..7d3dfad 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -205,7 +205,7 @@ def neg(A):
     """
     times = lambda x : -A.times(x)
     trans = lambda x : -A.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def scale(A, alpha):
     r"""Returns the linear operator :math:`T = \alpha A` for the operator :math:`A`
@@ -221,7 +221,7 @@ def scale(A, alpha):
     alpha_c = jnp.conjugate(alpha)
     times = lambda x : alpha * A.times(x)
     trans = lambda x : alpha_c * A.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=real, linear=A.linear)
 
 def hermitian(A):
     r"""Returns the Hermitian transpose of a given operator :math:`T = A^H`
@@ -236,7 +236,7 @@ def hermitian(A):
         Deprecated. Use `adjoint` instead.
     """
     m, n = A.shape
-    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def adjoint(A):
     r"""Returns the adjoint of a given operator :math:`T = A^H`
@@ -248,7 +248,7 @@ def adjoint(A):
         (Operator): A linear operator T such that :math:`T x = A^H x` 
     """
     m, n = A.shape
-    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 
 def transpose(A):
@@ -260,7 +260,7 @@ def transpose(A):
     else:
         times = lambda x: jnp.conjugate(A.trans(jnp.conjugate(x)))
         trans = lambda x: jnp.conjugate(A.times(jnp.conjugate(x)))
-    return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def apply_n(func, n, x):
     init = (x, 0)
@@ -280,7 +280,7 @@ def power(A, p):
     assert m == n
     times = lambda x :apply_n(A.times, p, x)
     trans = lambda x : apply_n(A.trans, p, x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def partial_op(A, picks, perm=None):
     """Returns the linear operator T that computes  (A x[perm])[picks]
@@ -322,7 +322,7 @@ def partial_op(A, picks, perm=None):
             out = out.at[perm].set(y)
             return out
 
-    return Operator(times=times, trans=trans, shape=(k, n), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=(k, n), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 
 ###########################################################################################
@@ -338,9 +338,10 @@ def add(A, B):
     jit_safe = A.jit_safe and B.jit_safe
     matrix_safe = A.matrix_safe and B.matrix_safe
     real = A.real and B.real
+    linear = A.linear and B.linear
     times = lambda x: A.times(x) + B.times(x)
     trans = lambda x: A.trans(x) + B.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real, linear=linear)
 
 
 def subtract(A, B):
@@ -352,9 +353,10 @@ def subtract(A, B):
     jit_safe = A.jit_safe and B.jit_safe
     matrix_safe = A.matrix_safe and B.matrix_safe
     real = A.real and B.real
+    linear = A.linear and B.linear
     times = lambda x: A.times(x) - B.times(x)
     trans = lambda x: A.trans(x) - B.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real, linear=linear)
 
 
 def compose(A, B, ignore_compatibility=False, shape=None):
@@ -366,11 +368,12 @@ def compose(A, B, ignore_compatibility=False, shape=None):
     jit_safe = A.jit_safe and B.jit_safe
     matrix_safe = A.matrix_safe and B.matrix_safe
     real = A.real and B.real
+    linear = A.linear and B.linear
     times = lambda x: A.times(B.times(x))
     trans = lambda x: B.trans(A.trans(x))
     if shape is None:
         shape = (ma, nb)
-    return Operator(times=times, trans=trans, shape=shape, real=real)
+    return Operator(times=times, trans=trans, shape=shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real, linear=linear)
 
 
 def hcat(A, B):
@@ -383,9 +386,10 @@ def hcat(A, B):
     jit_safe = A.jit_safe and B.jit_safe
     matrix_safe = A.matrix_safe and B.matrix_safe
     real = A.real and B.real
+    linear = A.linear and B.linear
     times = lambda x: A.times(x[:na]) + B.times(x[na:])
     trans = lambda x: jnp.concatenate((A.trans(x), B.trans(x)))
-    return Operator(times=times, trans=trans, shape=(m,n), jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=(m,n), jit_safe=jit_safe, matrix_safe=matrix_safe, real=real, linear=linear)
 
 
 
@@ -395,7 +399,7 @@ def gram(A):
     times = lambda x: A.trans(A.times(x))
 
     return Operator(times=times, trans=times, shape=(n,n), 
-        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def frame(A):
     """Returns the frame of a given operator :math:`T = A A^H`"""
@@ -403,4 +407,4 @@ def frame(A):
     times = lambda x: A.times(A.trans(x))
 
     return Operator(times=times, trans=times, shape=(m, m), 
-        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
-- 
2.43.0


From ecac35d4fdfc2a10edc785584fd91fab552f5a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:12 +0000
Subject: [PATCH 10/28] fix: opt.build_from_ind_proj exports the
 indicator/projector builder

---
 src/cr/sparse/opt/proximal_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/opt/proximal_ops.py b/src/cr/sparse/opt/proximal_ops.py
index 1606fa3..3c1ea61 100644
--- a/src/cr/sparse/opt/proximal_ops.py
+++ b/src/cr/sparse/opt/proximal_ops.py
@@ -23,7 +23,7 @@ from cr.sparse._src.opt.proximal_ops.prox import (
 )
 
 from cr.sparse._src.opt.proximal_ops.prox import build as prox_build
-from cr.sparse._src.opt.proximal_ops.prox import build as build_from_ind_proj
+from cr.sparse._src.opt.proximal_ops.prox import build_from_ind_proj
 
 from cr.sparse._src.opt.proximal_ops.basic import (
     prox_zero
-- 
2.43.0


From 8f8ab46f8c55903d602069d754a430197178e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:22 +0000
Subject: [PATCH 11/28] fix: moreau_envelope value scales the quadratic term by
 1/mu

---
 src/cr/sparse/_src/opt/prox_to_smooth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/opt/prox_to_smooth.py b/src/cr/sparse/_src/opt/prox_to_smooth.py
index 110eaa1..2cd73d3 100644
--- a/src/cr/sparse/_src/opt/prox_to_smooth.py
+++ b/src/cr/sparse/_src/opt/prox_to_smooth.py
@@ -26,7 +26,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def func(x):
         px, pv = f.prox_vec_val(x, mu)
-        return pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        return pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
 
 
     @jit
@@ -36,7 +36,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def grad_val(x):
         px, pv = f.prox_vec_val(x, mu)
-        v = pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        v = pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
         g = (1/mu) * (x - px)
         return g, v
 
-- 
2.43.0


From 2181521e9c1407eb52af193dfad5351136a15729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 12/28] fix: matching pursuit reports and tests the energy of
 the current residual

---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index cd53360..c133720 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -119,7 +119,7 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
@@ -195,7 +195,7 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
-- 
2.43.0


From 941d2937df68f957b4d3c2cb4bdfefadb2a8ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 13/28] fix: omp.operator_solve initial state carries the
 residual energy and a vector of coefficients

---
 src/cr/sparse/_src/pursuit/omp.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index aeb35f9..e0dab5b 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -225,12 +225,11 @@ def operator_solve(Phi, y, K, res_norm_rtol=1e-4):
         # Initial L for Cholesky factorization of Gram matrix
         L = jnp.ones((1,1))
         # Initial coefficient
-        x0 = p[i]
-        x_I = x0
+        x_I = p[I]
         # updated residual after first iteration
-        r = y - x0 * phi_0
+        r = y - Phi_I @ x_I
         # norm squared of new residual
-        norm_r_new_sqr = jnp.abs(jnp.vdot(y, y))
+        norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
         return OMPState(x_I=x_I, I=I, r=r, 
             Phi_I=Phi_I, L=L, 
             r_norm_sqr=norm_r_new_sqr, iterations=1)
-- 
2.43.0


From 11dd322fa7ca27072bea296f98fd2c566339c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 14/28] fix: omp.matrix_solve with a single iteration

---
 src/cr/sparse/_src/pursuit/omp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index e0dab5b..36624af 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -94,7 +94,7 @@ def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
         r = y - Phi_I @ x_I
         # norm squared of new residual
         norm_r_new_sqr = r.T @ r
-    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=k+1, length=Phi.shape[1])
+    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=K, length=Phi.shape[1])
 
 
 
-- 
2.43.0


From 3859bffc1b6b140a844328b56fb4d97c5dc52052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:12 +0000
Subject: [PATCH 15/28] fix: cosamp initial estimate keeps coefficients paired
 with their atoms

---
 src/cr/sparse/_src/pursuit/cosamp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 38fbe52..376e7d6 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -59,7 +59,7 @@ def matrix_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4):
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
@@ -171,7 +171,7 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
-- 
2.43.0


From 20f7f5e7b44b731a89fa2e873e305cb3eacf4e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:53 +0000
Subject: [PATCH 16/28] fix: normalized IHT/HTP step size when the gradient
 vanishes on the support

---
 src/cr/sparse/_src/pursuit/htp.py | 10 ++++++----
 src/cr/sparse/_src/pursuit/iht.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/htp.py b/src/cr/sparse/_src/pursuit/htp.py
index 4daba3b..2e81e42 100644
--- a/src/cr/sparse/_src/pursuit/htp.py
+++ b/src/cr/sparse/_src/pursuit/htp.py
@@ -50,8 +50,9 @@ def matrix_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None, re
         Phi_I = Phi[:, I]
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
-        return mu
+        num, den = h_I.T @ h_I, Ah.T @ Ah
+        # the gradient vanishes on the support: there is nothing to move
+        return jnp.where(den > 0, num / jnp.where(den > 0, den, 1), 0)
 
     def get_step_size(h, I):
         return compute_step_size(h, I) if normalized else step_size
@@ -157,8 +158,9 @@ def operator_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None,
         Phi_I = Phi.columns(I)
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
-        return mu
+        num, den = h_I.T @ h_I, Ah.T @ Ah
+        # the gradient vanishes on the support: there is nothing to move
+        return jnp.where(den > 0, num / jnp.where(den > 0, den, 1), 0)
 
     def get_step_size(h, I):
         return compute_step_size(h, I) if normalized else step_size
diff --git a/src/cr/sparse/_src/pursuit/iht.py b/src/cr/sparse/_src/pursuit/iht.py
index 7d515bd..441cd1b 100644
--- a/src/cr/sparse/_src/pursuit/iht.py
+++ b/src/cr/sparse/_src/pursuit/iht.py
@@ -47,8 +47,9 @@ def matrix_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None, re
         Phi_I = Phi[:, I]
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
-        return mu
+        num, den = h_I.T @ h_I, Ah.T @ Ah
+        # the gradient vanishes on the support: there is nothing to move
+        return jnp.where(den > 0, num / jnp.where(den > 0, den, 1), 0)
 
     def get_step_size(h, I):
         return compute_step_size(h, I) if normalized else step_size
@@ -142,8 +143,9 @@ def operator_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None,
         Phi_I = Phi.columns(I)
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
-        return mu
+        num, den = h_I.T @ h_I, Ah.T @ Ah
+        # the gradient vanishes on the support: there is nothing to move
+        return jnp.where(den > 0, num / jnp.where(den > 0, den, 1), 0)
 
     def get_step_size(h, I):
         return compute_step_size(h, I) if normalized else step_size
-- 
2.43.0


From 9f1415756be4850b278bfc8518c8f1426514a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:46 +0000
Subject: [PATCH 17/28] fix: yall1 honours the weights when testing for the
 zero solution

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index f9d70c0..91816da 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -491,9 +491,15 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     n = Atb.shape[0]
     b_max  = float(norm(b, ord=jnp.inf))
     atb_max = float(norm(Atb, ord=jnp.inf))
+    w = jnp.ones(n)
+    if weights is not None:
+        # make sure that the final weights are an array of size n
+        w = w * weights
+
     zero_solution = False
     if rho > 0:
-        zero_solution = atb_max <= rho
+        # zero is optimal only if every correlation is within its weighted threshold
+        zero_solution = jnp.all(jnp.abs(Atb) <= rho * w)
     if delta > 0:
         zero_solution = norm(b) <= delta
     if zero_solution:
@@ -507,11 +513,6 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     if z0 is None:
         z0 = jnp.zeros(n)
 
-    w = jnp.ones(n)
-    if weights is not None:
-        # make sure that the final weights are an array of size n
-        w = w * weights
-
     # scale data and model parameters
     b = b / b_max
     if rho > 0: rho = rho / b_max
-- 
2.43.0


From fadf8c47843793177263bf5ef912092304c99d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:46 +0000
Subject: [PATCH 18/28] fix: yall1 returns the residual of the non-negative
 solution

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index 91816da..2d6f6e6 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -539,10 +539,15 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
             # It's a basis pursuit problem
             state = solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters)
     x = jnp.where(nonneg, jnp.maximum(0, state.x), state.x)
+    rp = state.rp
+    if nonneg:
+        # the residual of the clipped solution
+        rp = b - A.times(x)
+        n_times += 1
     if W:
         # go back from sparsifying basis to signal space
         x = W.times(x)
-    return RecoveryFullSolution(x=b_max*x, r=b_max*state.rp, 
+    return RecoveryFullSolution(x=b_max*x, r=b_max*rp, 
         iterations=state.iterations,
         n_times=state.n_times+n_times, 
         n_trans=state.n_trans+n_trans)
-- 
2.43.0


From 3cf0bd05721d7909537bb7d285c658f6b8364544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:47 +0000
Subject: [PATCH 19/28] fix: yall1 scales the given starting point along with
 the data

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index 2d6f6e6..764b9c7 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -509,6 +509,9 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
             n_times=n_times, n_trans=n_trans)
     if x0 is None:
         x0 = Atb / b_max
+    else:
+        # the problem is solved in units of b_max
+        x0 = x0 / b_max
 
     if z0 is None:
         z0 = jnp.zeros(n)
-- 
2.43.0


From 404ca6cef3ddbf02d69e3ba8af817f21d667226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:28 +0000
Subject: [PATCH 20/28] fix: gram and frame matrices of complex dictionaries
 keep their imaginary part

---
 src/cr/sparse/_src/dict/props.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/dict/props.py b/src/cr/sparse/_src/dict/props.py
index 02e6207..074f043 100644
--- a/src/cr/sparse/_src/dict/props.py
+++ b/src/cr/sparse/_src/dict/props.py
@@ -23,7 +23,7 @@ def gram(A):
     if jnp.isrealobj(A):
         return A.T @ A
     G = mat_hermitian(A) @ A
-    return G.real
+    return G
 
 def frame(A):
     """Computes the frame matrix :math:`G = A A^T`
@@ -31,7 +31,7 @@ def frame(A):
     if jnp.isrealobj(A):
         return A @ A.T
     F = A @ mat_hermitian(A)
-    return F.real
+    return F
 
 
 def coherence_with_index(A):
-- 
2.43.0


From c20918bdd3355e58a58a2c5c15fd48e5eb4013be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:28 +0000
Subject: [PATCH 21/28] fix: matching atoms ratio uses inner products of
 complex atoms

---
 src/cr/sparse/_src/dict/comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/comparison.py b/src/cr/sparse/_src/dict/comparison.py
index b4ba514..faa6ad0 100644
--- a/src/cr/sparse/_src/dict/comparison.py
+++ b/src/cr/sparse/_src/dict/comparison.py
@@ -21,7 +21,7 @@ def matching_atoms_ratio(A, B, distance_threshold=0.01):
     # number of atoms
     n_atoms = A.shape[1]
     # inner products betweeen atoms of A and B
-    similarities = jnp.abs(A.T @ B)
+    similarities = jnp.abs(jnp.conj(A.T) @ B)
     # find the best match from each row 
     max_similarities = jnp.max(similarities, axis=1)
     # angular distance between best match
-- 
2.43.0


From c5d6877554ac4d2aaabb78987d4297a8f1fb0a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:28 +0000
Subject: [PATCH 22/28] fix: recovery performance accepts solutions that hold
 the full vector

---
 src/cr/sparse/_src/tools/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/performance.py b/src/cr/sparse/_src/tools/performance.py
index b487146..f7d590d 100644
--- a/src/cr/sparse/_src/tools/performance.py
+++ b/src/cr/sparse/_src/tools/performance.py
@@ -77,7 +77,7 @@ class RecoveryPerformance:
         # Shape of the dictionary/sensing matrix
         M, N = Phi.shape
         if sol is not None:
-            if 'x' in sol:
+            if hasattr(sol, 'x'):
                 x_hat = sol.x
             else:
                 x_hat = build_signal_from_indices_and_values(N, sol.I, sol.x_I) 
-- 
2.43.0


From a4306ff59cf4598cdbf5260e5733b52bf9a318cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:42 +0000
Subject: [PATCH 23/28] fix: best_map when the numbers of true and predicted
 labels differ

---
 src/cr/sparse/_src/cluster/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/util.py b/src/cr/sparse/_src/cluster/util.py
index bc08b1c..2eb3ec9 100644
--- a/src/cr/sparse/_src/cluster/util.py
+++ b/src/cr/sparse/_src/cluster/util.py
@@ -84,8 +84,12 @@ def best_map(true_labels, pred_labels):
             G[i, j] = np.sum(ilabels & jlabels)
     # Run the Hungarian assignment algorithm
     rows, cols = linear_sum_assignment(-G)
-    mapped_labels = jnp.zeros_like(pred_labels)
-    for i in range(n_l2):
+    # predicted labels without a counterpart get a label which is not a true label
+    mapped_labels = jnp.full_like(pred_labels, labels_1[-1] + 1)
+    for i in range(n_l1):
+        if cols[i] >= n_l2:
+            # this true label has no counterpart among predicted labels
+            continue
         old_label = labels_2[cols[i]]
         new_label = labels_1[i]
         mapped_labels = mapped_labels.at[pred_labels == old_label].set(new_label)
-- 
2.43.0


From 27abfeaa55f5f972ec33b90f58899c579c1c2a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:48 +0000
Subject: [PATCH 24/28] fix: renormalized fixed point iteration descends the
 one-sided quadratic

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index d0bd816..a03c1f4 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -93,7 +93,7 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
             # see which bits have same sign, which bits have different sign
             correlation = y * measurement
             # Only the bits which are wrong are important for further consideration
-            problems = jnp.where(correlation <= 0, -correlation, 0)
+            problems = jnp.where(correlation <= 0, correlation, 0)
             print(f'number of wrong signs: {jnp.sum(correlation < 0)}, {jnp.sum(problems)}')
             # multiply with the bit vector Y^T (f'(term))
             problems = y * problems
-- 
2.43.0


From db2bae809287b4218a287b3fa22b3380120a9105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:14 +0000
Subject: [PATCH 25/28] fix: renormalized fixed point iteration uses the
 current lambda in each outer iteration

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index a03c1f4..e4eac1c 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -79,10 +79,10 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
     """Solver fo 1-bit compressive sensing with renormalized fixed points iteration
     algorithm     
     """
-    tau = delta / lambda_
-    print(f'shrinkage threshold: {tau}')
-
     def rfpi_inner(x0, lambda_):
+        tau = delta / lambda_
+        print(f'shrinkage threshold: {tau}')
+
         def init_fun():
             return RFPState(x=x0, x_prev=jnp.zeros_like(x0), iterations=0)
 
-- 
2.43.0


From d8b5bb1b5494053f3ee37386984bfc7fa3ac0c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:10 +0000
Subject: [PATCH 26/28] fix: SPGL1 LASSO counts adjoint multiplications
 separately

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index a32d406..3b04098 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -384,7 +384,7 @@ def solve_lasso_from(A,
             alpha=lsearch.alpha,
             alpha_next=alpha_next,
             iterations=state.iterations+1,
-            n_times=n_times, n_trans=n_times, 
+            n_times=n_times, n_trans=n_trans, 
             n_ls_iters=state.n_ls_iters + lsearch.n_iters)
 
     def cond_func(state):
-- 
2.43.0


From aaf692b62a2702acfc104e2dbc9874e492e47cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:10 +0000
Subject: [PATCH 27/28] fix: compiled SPGL1 LASSO accepts options

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 3b04098..159dceb 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -415,7 +415,7 @@ def solve_lasso(A,
     x0 = jnp.zeros(n)
     return solve_lasso_from(A, b, tau, x0, options=options, tracker=tracker)
 
-solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "tracker"))
+solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "options", "tracker"))
 
 
 def analyze_lasso_state(A, b, tau, options, state, x0):
-- 
2.43.0


From 9c236206fcff5b29ebb6c701c470d4ca176e9944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:00 +0000
Subject: [PATCH 28/28] fix: SPGL1 residual metrics belong to the solution
 after the l1 bound is reduced

---
 src/cr/sparse/_src/cvx/spgl1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 159dceb..cf54996 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -655,6 +655,11 @@ def solve_bpic_from(A,
             lambda _: update_xrgf(A, b, x, tau),
             lambda _: (x, r, g, f),
             None)
+        # update the metrics to be consistent with the updated solution if necessary
+        r_norm, r_gap, r_res_error, r_f_error = lax.cond(tau_reduced,
+            lambda _: bpic_metrics(b, x, g, r, f, sigma, tau)[1:],
+            lambda _: (r_norm, r_gap, r_res_error, r_f_error),
+            None)
         n_times, n_trans = n_times + tau_reduced, n_trans + tau_reduced
         n_newton = state.n_newton + change_tau
         # update past objective values with the new objective value
-- 
2.43.0

