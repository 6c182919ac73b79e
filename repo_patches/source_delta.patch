From 2a608613e06d6b1cfd1cb504d6cb876d93f77489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 01/19] fix: predict() works after training and raises
 TensorErr before it

'if not ndarray' raised ValueError for every trained CP/NCP/NTUCKER model, and
HOSVD/HOOI raised AttributeError before training.
---
 tensorD/factorization/cp.py      | 2 +-
 tensorD/factorization/ncp.py     | 2 +-
 tensorD/factorization/ntucker.py | 2 +-
 tensorD/factorization/tucker.py  | 4 ++++
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 6d58305..54b2500 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -44,7 +44,7 @@ class CP_ALS(BaseFact):
         self._rel_res_op = None
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index f67095e..70cc8cc 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -41,7 +41,7 @@ class NCP_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 00d3548..09ec454 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -42,7 +42,7 @@ class NTUCKER_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 3d2a49a..7a14333 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -85,6 +85,8 @@ class HOSVD(BaseFact):
         self._is_train_finish = True
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
@@ -190,6 +192,8 @@ class HOOI(BaseFact):
         return self._full_tensor
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
-- 
2.43.0


From eef67fd35098e28a70164c3af41c367fc19a7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 02/19] fix: full is the reconstruction of the final factors
 when training stops early

A step without validation output did not refresh the full tensor, so after an
early stop `full` belonged to an older iterate than `factors`.
---
 tensorD/factorization/cp.py      | 2 +-
 tensorD/factorization/ncp.py     | 4 ++--
 tensorD/factorization/ntucker.py | 4 ++--
 tensorD/factorization/tucker.py  | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 54b2500..422cecb 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -155,7 +155,7 @@ class CP_ALS(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._lambdas, loss_v, obj, rel_res = sess.run([factor_update_op, lambda_op, loss_op, obj_op, rel_res_op],
+                self._factors, self._lambdas, self._full_tensor, loss_v, obj, rel_res = sess.run([factor_update_op, lambda_op, full_op, loss_op, obj_op, rel_res_op],
                                                                 feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 70cc8cc..5140844 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -207,8 +207,8 @@ class NCP_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
 
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 09ec454..f66aac1 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -242,8 +242,8 @@ class NTUCKER_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 7a14333..e207da4 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -238,7 +238,7 @@ class HOOI(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._core, loss_v, obj, rel_res = sess.run([factor_update_op, core_op, loss_op, obj_op, rel_res_op],
+                self._factors, self._core, self._full_tensor, loss_v, obj, rel_res = sess.run([factor_update_op, core_op, full_op, loss_op, obj_op, rel_res_op],
                                                              feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
-- 
2.43.0


From b7142a1b2b4ebea6b6605710477651b56bb84d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 03/19] fix: DTensor.unfold honours its mode on every call

The first unfolding was cached and returned for every later mode.
---
 tensorD/base/type.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index 155403d..c7f57c0 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -48,8 +48,7 @@ class DTensor(object):
         return DTensor(ops.mul(self.T, tensor.T, a_axis, b_axis))
 
     def unfold(self, mode=0):
-        if self.unfold_T is None:
-            self.unfold_T = ops.unfold(self.T, mode)
+        self.unfold_T = ops.unfold(self.T, mode)
         return DTensor(self.unfold_T)
 
     def t2mat(self, r_axis, c_axis):
-- 
2.43.0


From 285deb7ddedaccf819138fe52ded57a0dc09ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 04/19] fix: KTensor keeps factors and lambdas in one dtype

ndarray factors were forced to float32 while ndarray lambdas kept float64, so
extract() failed, as it did for float64 tf factors without lambdas.
---
 tensorD/base/type.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index c7f57c0..0e48924 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -132,17 +132,18 @@ class KTensor(object):
             vector-like, the weight of every axis of factors
         """
         if isinstance(factors[0], np.ndarray):
-            self.U = [tf.constant(mat, dtype=tf.float32) for mat in factors]
+            dtype = np.float64 if any(mat.dtype == np.float64 for mat in factors) else np.float32
+            self.U = [tf.constant(mat, dtype=dtype) for mat in factors]
         else:
             self.U = factors
 
         # Note that the shape of lambdas must be (x, 1).
         # The dimension of "1" should not be ignored!!
         if lambdas is None:
-            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=tf.float32)
+            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=self.U[0].dtype.base_dtype)
         else:
             if isinstance(lambdas, np.ndarray):
-                self.lambdas = tf.constant(lambdas)
+                self.lambdas = tf.constant(lambdas, dtype=self.U[0].dtype.base_dtype)
             else:
                 self.lambdas = lambdas
             if self.lambdas.get_shape().ndims == 1:
-- 
2.43.0


From efec02224fbff2d2562dcdef29a1828f1bd22fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 05/19] fix: t2mat accepts tuples and leaves the caller's axis
 list alone

r_axis was appended to in place when c_axis was an int, and a tuple of axes
(documented for mul) raised TypeError.
---
 tensorD/base/ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index 1e22183..b88559f 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -151,7 +151,8 @@ def t2mat(tensor, r_axis, c_axis):
             indies = [r_axis]
             row_size = tensor.get_shape()[r_axis].value
         else:
-            indies = r_axis
+            r_axis = list(r_axis)
+            indies = list(r_axis)
             row_size = np.prod([tensor.get_shape()[i].value for i in r_axis])
         if c_axis == -1:
             c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]
@@ -159,7 +160,7 @@ def t2mat(tensor, r_axis, c_axis):
             indies.append(c_axis)
             col_size = tensor.get_shape()[c_axis].value
         else:
-            indies = indies + c_axis
+            indies = indies + list(c_axis)
             col_size = np.prod([tensor.get_shape()[i].value for i in c_axis])
         return tf.reshape(tf.transpose(tensor, indies), (int(row_size), int(col_size)))
 
-- 
2.43.0


From 59af7780321e9e5726fe6dd90fc5709949e23432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 06/19] fix: shrink multiplies by the transpose of V

tf.svd returns V where numpy returns its transpose, so shrink(mat, 0) was not
even the centralised matrix and differed from the numpy version.
---
 tensorD/base/pitf_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 6d3e7fa..8711b5e 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -650,14 +650,14 @@ def shrink(mat, tao, mode='normal'):
     # print('shrink s2d done.')
     if mode == 'normal':
         print('shrink normal')
-        return tf.matmul(tf.matmul(u, sm), v)
+        return tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
 
     if mode == 'complicated':
         vecr1 = tf.ones((shape[0], 1))
         vecr2 = tf.ones((shape[1], 1))
         delta_num = tf.div(tf.matmul(tf.matmul(tf.transpose(vecr1), mat), vecr2), tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                       dtype=mat.dtype)), name='delta_num')
-        tmp1 = tf.matmul(tf.matmul(u, sm), v)
+        tmp1 = tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
         tmp2 = (tf.maximum(tf.cast(0, dtype=mat.dtype), delta_num-tao)
                 +tf.minimum(tf.cast(0, dtype=mat.dtype), delta_num+tao))*tf.ones(shape)/tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                                       dtype=mat.dtype))
-- 
2.43.0


From 7cb2925dafacda12f10b6f649c82426d64395f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 07/19] fix: adjoint_operator builds for dim=2

The negative stride left mat_shape without a static shape and SparseTensor
rejected it, so PITF.build_model failed for every input.
---
 tensorD/base/pitf_ops.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 8711b5e..01459a1 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -414,8 +414,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         indices = tf.cast(indices, dtype=tf.int64)
         values = tf.cast(values, dtype=sample_vec.dtype)
         shape_t = tf.cast(shape, dtype=tf.int64)
-        shape_t_re = shape_t[::-1]
-        mat_shape = shape_t_re[0:3:2]
+        mat_shape = tf.stack([shape_t[2], shape_t[0]])
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
         delta = tf.SparseTensor(indices, values, mat_shape)
         dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_3')
-- 
2.43.0


From e93b6dc980ae9139a4bbf5019949c6bd88567326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 08/19] fix: adjoint_operator sums samples that fall on one
 matrix entry

Two samples often share an entry of a factor matrix; the later one overwrote
the earlier, so the result was not the adjoint of Pomega_mat.
---
 tensorD/base/pitf_ops.py       | 9 +++------
 tensorD/base/pitf_ops_numpy.py | 6 +++---
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 01459a1..533baa6 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -391,8 +391,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         mat_shape = shape_t[0:2]
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
         # print('ready to convert')
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False, name='adjoint_s2d_1')
+        dense_mat = tf.scatter_nd(indices, values, mat_shape, name='adjoint_s2d_1')
         # print('convert done.')
         # print('adjoint_operator 1')
         return mat_zero+dense_mat
@@ -404,8 +403,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         shape_t = tf.cast(shape, dtype=tf.int64)
         mat_shape = shape_t[1:3]
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_2')
+        dense_mat = tf.scatter_nd(indices, values, mat_shape, name='adjoint_s2d_2')
         print('adjoint_operator 2')
         return mat_zero+dense_mat
     elif dim == 2:
@@ -416,8 +414,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         shape_t = tf.cast(shape, dtype=tf.int64)
         mat_shape = tf.stack([shape_t[2], shape_t[0]])
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_3')
+        dense_mat = tf.scatter_nd(indices, values, mat_shape, name='adjoint_s2d_3')
         print('adjoint_operator 3')
         return mat_zero+dense_mat
     else:
diff --git a/tensorD/base/pitf_ops_numpy.py b/tensorD/base/pitf_ops_numpy.py
index 06ec8e5..ce789d9 100644
--- a/tensorD/base/pitf_ops_numpy.py
+++ b/tensorD/base/pitf_ops_numpy.py
@@ -101,19 +101,19 @@ def adjoint_operator(spl, sample_vec, tensor_shape,m ,dim=None):# sample_vec[i]?
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 0)
         X = np.zeros((tensor_shape[0], tensor_shape[1]))
         for i in range(m):
-            X[spl[0][i]][spl[1][i]] = sample_vec[i]
+            X[spl[0][i]][spl[1][i]] += sample_vec[i]
         return X
     elif dim == 1:
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 1)
         Y = np.zeros((tensor_shape[1], tensor_shape[2]))
         for i in range(m):
-            Y[spl[1][i]][spl[2][i]] = sample_vec[i]
+            Y[spl[1][i]][spl[2][i]] += sample_vec[i]
         return Y
     elif dim == 2:
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 2)
         Z = np.zeros((tensor_shape[2], tensor_shape[0]))
         for i in range(m):
-            Z[spl[2][i]][spl[0][i]] = sample_vec[i]
+            Z[spl[2][i]][spl[0][i]] += sample_vec[i]
         return Z
     else:
         print('error')
-- 
2.43.0


From 623694f00fc4431e1983072117a657bca22efc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 09/19] fix: cone_projection_operator works on graph tensors

It branched with python ifs on tensors, which TensorFlow refuses.
---
 tensorD/base/pitf_ops.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 533baa6..04cc815 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -542,13 +542,13 @@ def cone_projection_operator(x, t):
     >>> tf.Session().run(t1)
     """
     norm_x = tf.norm(x, ord='euclidean')
-    if norm_x <= t:
-        return x, t
-    if t <= tf.negative(norm_x):
-        return 0, 0
-    if t >= tf.negative(norm_x) and t <= norm_x:
-        tmp = (norm_x + t)/(2 * norm_x)
-        return tmp*x, tmp*norm_x
+    t = tf.cast(t, dtype=norm_x.dtype)
+    inside = norm_x <= t
+    outside = tf.logical_and(tf.logical_not(inside), t <= tf.negative(norm_x))
+    # a zero norm is always inside or outside, never in between
+    tmp = (norm_x + t)/(2 * tf.where(norm_x > 0, norm_x, tf.ones_like(norm_x)))
+    scale = tf.where(inside, tf.ones_like(tmp), tf.where(outside, tf.zeros_like(tmp), tmp))
+    return scale*x, tf.where(inside, t, scale*norm_x)
 
 
 def SVT(mat, tao):
-- 
2.43.0


From 34e9efac8171b96a95309357d3b29846728e547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 10/19] fix: PITF keeps one sample list for the whole training

The random index ops drew a new list in every session run, so the dual vector
belonged to other entries in each step.
---
 tensorD/factorization/pitf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 1273ce8..ac86fad 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -45,6 +45,8 @@ class PITF(BaseFact):
                           name='tao')
         y = tf.Variable(np.zeros(spn), dtype=tensor.dtype, name='y_sample_vector')
         a, b, c = pitf_ops.sample3D_rule(shape, spn)  # sample list
+        # keep one sample list for the whole training
+        a, b, c = [tf.Variable(idx, trainable=False, name='sample-%d' % ii) for ii, idx in enumerate((a, b, c))]
         spl = [a, b, c]
         # # degree pf freedom
         # fd = r*(shape[0]+shape[1]-r)+r*(shape[1]+shape[2]-r) + \
-- 
2.43.0


From 0df2036882b79823ecdb477587e0dd7afd320fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 11/19] fix: CP_ALS normalises columns by their largest
 magnitude

The signed maximum is 0 for a non-zero column without positive entries, and
dividing by it made the factors infinite and the training crash.
---
 tensorD/factorization/cp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 422cecb..17e0798 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -93,7 +93,7 @@ class CP_ALS(BaseFact):
             non_norm_A = tf.matmul(XA, tf.py_func(np.linalg.pinv, [V], tf.float32, name='pinvV-%d' % mode),
                                    name='XApinvV-%d' % mode)
             with tf.name_scope('max-norm-%d' % mode) as scope:
-                lambda_op = tf.reduce_max(tf.reshape(non_norm_A, shape=(shape[mode], args.rank)), axis=0)
+                lambda_op = tf.reduce_max(tf.abs(tf.reshape(non_norm_A, shape=(shape[mode], args.rank))), axis=0)
                 assign_op[mode] = A[mode].assign(tf.div(non_norm_A, lambda_op))
 
         with tf.name_scope('full-tensor') as scope:
-- 
2.43.0


From f20745d49092e3ba79126cd281e788d2310708d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 12/19] fix: a model records only its own summaries

merge_all() also picked up the summaries of every other model in the graph, so
training a second model failed for want of the first one's placeholder
(tensorD/test/tucker_test.py).
---
 tensorD/factorization/cp.py      |  7 ++++---
 tensorD/factorization/ncp.py     |  7 ++++---
 tensorD/factorization/ntucker.py |  7 ++++---
 tensorD/factorization/pitf.py    |  7 ++++---
 tensorD/factorization/tucker.py  | 12 +++++++-----
 5 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 17e0798..fa2ef95 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -106,12 +106,13 @@ class CP_ALS(BaseFact):
         with tf.name_scope('objective-value') as scope:
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
         self._args = args
+        self._sum_op = sum_op
         self._init_op = init_op
         self._lambda_op = lambda_op
         self._full_op = full_op
@@ -137,7 +138,7 @@ class CP_ALS(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 5140844..13bf588 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -152,12 +152,13 @@ class NCP_BCU(BaseFact):
             with tf.control_dependencies([Am_update_op1[order - 1]]):
                 t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
         self._args = args
+        self._sum_op = sum_op
         self._init_op = init_op
         self._other_init_op = tf.group(*norm_init_op, *Am_init_op, *A0_init_op)
         self._train_op = tf.group(*L_update_op, *L0_update_op, t_update_op)
@@ -187,7 +188,7 @@ class NCP_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index f66aac1..8da69d4 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -181,12 +181,13 @@ class NTUCKER_BCU(BaseFact):
         with tf.control_dependencies([Am_update_op1[order - 1]]):
             t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
         self._args = args
+        self._sum_op = sum_op
         self._init_op = init_op
         self._other_init_op = tf.group(*norm_init_op, *A0_init_op, *Am_init_op, g_norm_init, g0_init_op, gm_init_op)
         self._core_train_op = tf.group(L0_update_op[order], L_update_op[order], Bsq_update_op_g)
@@ -221,7 +222,7 @@ class NTUCKER_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index ac86fad..941fe92 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -94,12 +94,13 @@ class PITF(BaseFact):
             y_new = y + delt*e
             sample_vector_update_op = y.assign(y_new)
 
-        tf.summary.scalar('error rate', erate_op)
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('error rate', erate_op),
+                                   tf.summary.scalar('loss', loss_op)])
 
         init_op = tf.global_variables_initializer()
 
         self._args = args
+        self._sum_op = sum_op
         self._erate_op = erate_op
         self._loss_op = loss_op
         self._sample_vector_update_op = sample_vector_update_op
@@ -125,7 +126,7 @@ class PITF(BaseFact):
         e1 = self._e1
         e2 = self._e2
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
         sess.run(init_op)
         print('PITF model initial finish')
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index e207da4..475ad1f 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -44,9 +44,10 @@ class HOSVD(BaseFact):
         with tf.name_scope('loss') as scope:
             loss_op = rmse_ignore_zero(input_data, full_op)
 
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op)])
 
         self._args = args
+        self._sum_op = sum_op
         self._init_op = init_op
         self._full_op = full_op
         self._factor_update_op = A
@@ -67,7 +68,7 @@ class HOSVD(BaseFact):
         self._is_train_finish = False
         sess = self._env.sess
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(self._init_op, feed_dict=self._feed_dict)
@@ -175,10 +176,11 @@ class HOOI(BaseFact):
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         self._args = args
+        self._sum_op = sum_op
         self._init_op = init_op
         self._full_op = full_op
         self._factor_update_op = assign_op
@@ -221,7 +223,7 @@ class HOOI(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
-- 
2.43.0


From 402d0a011c7b18811a685d9f154c9557b569f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 13/19] fix: close the summary writer when training ends

The last summaries were still queued in a background thread when train()
returned, and every call leaked the thread and the open file.
---
 tensorD/factorization/cp.py      | 1 +
 tensorD/factorization/ncp.py     | 1 +
 tensorD/factorization/ntucker.py | 1 +
 tensorD/factorization/pitf.py    | 1 +
 tensorD/factorization/tucker.py  | 2 ++
 5 files changed, 6 insertions(+)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index fa2ef95..b806d62 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -174,5 +174,6 @@ class CP_ALS(BaseFact):
 
 
         print('CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
+        sum_writer.close()
         self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 13bf588..3090246 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -234,5 +234,6 @@ class NCP_BCU(BaseFact):
         self._lambdas = np.ones(shape=(1, args.rank))
 
         print('Non-Negative CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
+        sum_writer.close()
         self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 8da69d4..305ea82 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -266,5 +266,6 @@ class NTUCKER_BCU(BaseFact):
                 sess.run(train_op2)
 
         print('Non-Negative Tucker model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
+        sum_writer.close()
         self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 941fe92..ebd2f1e 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -151,6 +151,7 @@ class PITF(BaseFact):
                 print('???')
 
         print('tarin finish,with RMSE=%.15f error rate=%.15f' % (loss_v, erate_v))
+        sum_writer.close()
         self._is_train_finish = True
         f1.close()
         f2.close()
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 475ad1f..ef51d72 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -83,6 +83,7 @@ class HOSVD(BaseFact):
         sum_writer.add_run_metadata(run_metadata, 'step1')
         sum_writer.add_summary(sum_msg, 1)
         print('HOSVD model train finish, with RMSE = %f' % loss_v)
+        sum_writer.close()
         self._is_train_finish = True
 
     def predict(self, *key):
@@ -257,5 +258,6 @@ class HOOI(BaseFact):
                 break
 
         print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
+        sum_writer.close()
         self._is_train_finish = True
         return hist
-- 
2.43.0


From ac870f00e31463b402b8f66943d2ea019d59ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 14/19] fix: CP_ALS and HOOI compare the objective with the
 previous step

obj0 stayed at the value of the first step, so training never noticed that the
objective had stalled, and stopped after three steps when the first objective
was large.
---
 tensorD/factorization/cp.py     | 1 +
 tensorD/factorization/tucker.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index b806d62..d1e650a 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -171,6 +171,7 @@ class CP_ALS(BaseFact):
                 nstall = 0
             if nstall >= 3 or relerr2 < args.tol:
                 break
+            obj0 = obj
 
 
         print('CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index ef51d72..6ae638d 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -256,6 +256,7 @@ class HOOI(BaseFact):
                 nstall = 0
             if nstall >= 3 or relerr2 < args.tol:
                 break
+            obj0 = obj
 
         print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         sum_writer.close()
-- 
2.43.0


From e4b0f17a6bdfdd9f6bd1d738078decb65ed8cbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 15/19] fix: CP_ALS cuts off singular values at float32
 precision

With more components than a mode supports, the Gram matrix is singular and the
pseudo-inverse inverted its rounding noise: the residual grew to order 1 where
an exact fit exists.
---
 tensorD/factorization/cp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index d1e650a..651d4c7 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -8,6 +8,11 @@ from .factorization import Model, BaseFact
 from .env import Environment
 
 
+def _pinv(mat):
+    # the default cut-off of np.linalg.pinv, 1e-15, is below the precision of float32
+    return np.linalg.pinv(mat, rcond=max(mat.shape) * np.finfo(mat.dtype).eps)
+
+
 class CP_ALS(BaseFact):
     class CP_Args(object):
         def __init__(self,
@@ -90,7 +95,7 @@ class CP_ALS(BaseFact):
                 XA = tf.matmul(mats[mode], ops.khatri(A, mode, True), name='XA-%d' % mode)
 
             V = ops.hadamard(AtA, skip_matrices_index=mode)
-            non_norm_A = tf.matmul(XA, tf.py_func(np.linalg.pinv, [V], tf.float32, name='pinvV-%d' % mode),
+            non_norm_A = tf.matmul(XA, tf.py_func(_pinv, [V], tf.float32, name='pinvV-%d' % mode),
                                    name='XApinvV-%d' % mode)
             with tf.name_scope('max-norm-%d' % mode) as scope:
                 lambda_op = tf.reduce_max(tf.abs(tf.reshape(non_norm_A, shape=(shape[mode], args.rank))), axis=0)
-- 
2.43.0


From 6f0bfb15f59650bbc84c8d7bd208cff7057ae531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 16/19] fix: NCP and NTUCKER accept an improving first step on
 data of any scale

The reference objective of the first step was obj + 1 in float32, which is
obj itself once obj reaches 2**24, so the step was rejected as no progress
and the iteration restarted from the initial factors.
---
 tensorD/factorization/ncp.py     | 2 +-
 tensorD/factorization/ntucker.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 3090246..5af3616 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -212,7 +212,7 @@ class NCP_BCU(BaseFact):
                     [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
 
             if step == 1:
-                obj0 = obj + 1
+                obj0 = np.float64(obj) + 1
             hist.append([loss_v, rel_res])
 
             relerr1 = abs(obj - obj0) / (obj0 + 1)
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 305ea82..0ff4c2f 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -247,7 +247,7 @@ class NTUCKER_BCU(BaseFact):
                     [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
-                obj0 = obj + 1
+                obj0 = np.float64(obj) + 1
 
             relerr1 = abs(obj - obj0) / (obj0 + 1)
             relerr2 = rel_res
-- 
2.43.0


From 6e48d3b4095c53f491eabe7cebf46c25aa886209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 17/19] fix: NCP and NTUCKER accept an improving first step on
 data above 2**53 too

One is below the spacing of the objective there even in float64.
---
 tensorD/factorization/ncp.py     | 2 +-
 tensorD/factorization/ntucker.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 5af3616..25f8220 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -212,7 +212,7 @@ class NCP_BCU(BaseFact):
                     [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
 
             if step == 1:
-                obj0 = np.float64(obj) + 1
+                obj0 = np.float64(obj) + max(1, np.spacing(obj))
             hist.append([loss_v, rel_res])
 
             relerr1 = abs(obj - obj0) / (obj0 + 1)
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 0ff4c2f..488fc22 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -247,7 +247,7 @@ class NTUCKER_BCU(BaseFact):
                     [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
-                obj0 = np.float64(obj) + 1
+                obj0 = np.float64(obj) + max(1, np.spacing(obj))
 
             relerr1 = abs(obj - obj0) / (obj0 + 1)
             relerr2 = rel_res
-- 
2.43.0


From a408af18cc36eeff9d911dc240cc291ce31b1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 18/19] fix: HOOI reports an unfinished training while it
 trains again

---
 tensorD/factorization/tucker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 6ae638d..ab1410e 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -212,6 +212,7 @@ class HOOI(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
         sess = self._env.sess
         args = self._args
 
-- 
2.43.0


From c6faf38072daf3d6f6901444b224f2a67065ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:18 +0000
Subject: [PATCH 19/19] fix: mul refuses to contract axes of different sizes
 whose products agree

---
 tensorD/base/ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index b88559f..2978465 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -255,6 +255,8 @@ def mul(tensorA, tensorB, a_axis, b_axis):
             a_axis = [a_axis]
         if isinstance(b_axis, int):
             b_axis = [b_axis]
+        if [tensorA.get_shape()[_].value for _ in a_axis] != [tensorB.get_shape()[_].value for _ in b_axis]:
+            raise ValueError('the sizes of the axes to contract must be equal')
         A = t2mat(tensorA, a_axis, -1)
         B = t2mat(tensorB, b_axis, -1)
         mat_dot = tf.matmul(A, B, transpose_a=True)
-- 
2.43.0

