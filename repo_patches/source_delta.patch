From cc7ef49525ed97755a4f4c31b6506e257c0f9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:28:17 +0000
Subject: [PATCH 01/61] fix: use the builtin int instead of the removed np.int
 alias

np.int was deprecated in NumPy 1.20 and removed in 1.24, so every
initializer that converts its shape argument (ones, zeros, eye, all the
random ones) raised AttributeError on a current NumPy.
---
 t3f/initializers.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 4d7cb71..0a84c82 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -84,7 +84,7 @@ def tensor_ones(shape, dtype=tf.float32, name='t3f_tensor_ones'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -110,7 +110,7 @@ def tensor_zeros(shape, dtype=tf.float32, name='t3f_tensor_zeros'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
   tt_cores = num_dims * [None]
   with tf.name_scope(name):
     for i in range(num_dims):
@@ -138,7 +138,7 @@ def eye(shape, dtype=tf.float32, name='t3f_eye'):
   _validate_input_parameters(is_tensor=True, shape=shape)
 
   num_dims = shape.size
-  tt_ranks = np.ones(num_dims + 1, dtype=np.int)
+  tt_ranks = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -182,7 +182,7 @@ def matrix_ones(shape, dtype=tf.float32, name='t3f_matrix_ones'):
   _validate_input_parameters(is_tensor=False, shape=shape)
 
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -224,7 +224,7 @@ def matrix_zeros(shape, dtype=tf.float32, name='t3f_matrix_zeros'):
 
   _validate_input_parameters(is_tensor=False, shape=shape)
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -261,7 +261,7 @@ def tensor_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
   _validate_input_parameters(is_tensor=True, shape=shape, tt_rank=tt_rank)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -304,7 +304,7 @@ def tensor_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -359,7 +359,7 @@ def matrix_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -417,7 +417,7 @@ def matrix_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
   shape = shape.astype(int)
   tt_rank = tt_rank.astype(int)
@@ -522,7 +522,7 @@ def random_tensor(shape, tt_rank=2, mean=0., stddev=1., dtype=tf.float32,
 
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -580,7 +580,7 @@ def random_tensor_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -647,7 +647,7 @@ def random_matrix(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -718,7 +718,7 @@ def random_matrix_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   shape = shape.astype(int)
-- 
2.43.0


From 453d6d484460d1a355e41ae4ee4014dc9a59eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:19 +0000
Subject: [PATCH 02/61] fix: support adding a TensorTrainBatch to a TensorTrain

t3f.add promised to work if at least one of the arguments is
a TensorTrainBatch, but when the first argument was a plain TensorTrain
it asked for the batch size of that argument and raised ValueError.
Adding a TensorTrain to a batch of size 1 failed for the same reason.
---
 t3f/ops.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 86be42e..cf6a802 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -579,14 +579,15 @@ def _add_batch_tensor_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  # Convert TensorTrains into 1 element batches to simplify broadcasting.
+  tt_a = shapes.expand_batch_dim(tt_a)
+  tt_b = shapes.expand_batch_dim(tt_b)
+  if tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
     batch_size = shapes.lazy_batch_size(tt_a)
-  tt_a = shapes.expand_batch_dim(tt_a)
-  tt_b = shapes.expand_batch_dim(tt_b)
   tt_cores = []
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
@@ -651,14 +652,15 @@ def _add_batch_matrix_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  # Convert TensorTrains into 1 element batches to simplify broadcasting.
+  tt_a = shapes.expand_batch_dim(tt_a)
+  tt_b = shapes.expand_batch_dim(tt_b)
+  if tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
     batch_size = shapes.lazy_batch_size(tt_a)
-  tt_a = shapes.expand_batch_dim(tt_a)
-  tt_b = shapes.expand_batch_dim(tt_b)
   tt_cores = []
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
-- 
2.43.0


From 7af27dac943285d02070773823eed0da446a9f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:19 +0000
Subject: [PATCH 03/61] fix: keep the shape of TT-objects with a single TT-core

clean_raw_shape squeezed the given shape, so the shape (5) of a 1-d
tensor became a scalar (TypeError), and the shape ((3), (4)) of
a TT-matrix with one TT-core was silently treated as the shape of a 3 x 4
tensor.
---
 t3f/shapes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index de13d94..ec99153 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -220,7 +220,6 @@ def clean_raw_shape(shape, name='t3f_clean_raw_shape'):
     else:
       np_shape = np.array(shape)
       # Make sure that the shape is 2-d array both for tensors and TT-matrices.
-      np_shape = np.squeeze(np_shape)
       if len(np_shape.shape) == 1:
         # A tensor.
         np_shape = [np_shape]
-- 
2.43.0


From c4f9521e3b39d9401afd3d65d02163cb7dadd393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:49 +0000
Subject: [PATCH 04/61] fix: support summing TT-objects with a single TT-core

Concatenating the only TT-core along the right TT-rank produced a core
with a right TT-rank of 2, which the constructor rejects. One-core objects
are what e.g. a[:, 1, 1] returns, so a[:, 1, 1] + a[:, 1, 2] raised.
---
 t3f/approximate.py |  4 +++-
 t3f/ops.py         | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/t3f/approximate.py b/t3f/approximate.py
index cafbee0..e7f86d2 100644
--- a/t3f/approximate.py
+++ b/t3f/approximate.py
@@ -160,7 +160,9 @@ def reduce_sum_batch(tt_batch, max_tt_rank, coef=None,
           b_core_shape = np.delete(b_core_shape, 1)
           b_core = tf.reshape(b_core, b_core_shape)
 
-        if core_idx == 0:
+        if ndims == 1:
+          curr_sum_core = a_core + b_core
+        elif core_idx == 0:
           curr_sum_core = tf.concat((a_core, b_core), axis=right_tt_rank_dim)
         elif core_idx == ndims - 1:
           curr_sum_core = tf.concat((a_core, b_core), axis=left_tt_rank_dim)
diff --git a/t3f/ops.py b/t3f/ops.py
index cf6a802..c4185ec 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -553,7 +553,9 @@ def _add_tensor_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=2)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -596,7 +598,9 @@ def _add_batch_tensor_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
@@ -626,7 +630,9 @@ def _add_matrix_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -669,7 +675,9 @@ def _add_batch_matrix_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=4)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
-- 
2.43.0


From 4527089a815af911a9e2a5ee6245cf84af42d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:56 +0000
Subject: [PATCH 05/61] fix: let only one of the bilinear_form vectors be a
 batch

Whether the right vector is a batch was decided by looking at the left
one, so mixing a TensorTrain and a TensorTrainBatch always raised.
---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index c4185ec..2513ffc 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1093,7 +1093,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     raise ValueError('The arguments should be a TT-matrix.')
 
   b_is_batch = isinstance(b, TensorTrainBatch)
-  c_is_batch = isinstance(b, TensorTrainBatch)
+  c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
   c_bs_str = 'p' if c_is_batch else ''
   out_bs_str = 'p' if b_is_batch or c_is_batch else ''
-- 
2.43.0


From db0432d3af72a757cdbc82b74cfe6eba4a49d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:02 +0000
Subject: [PATCH 06/61] fix: make bilinear_form_two_mat work for batches

The letter used for the batch dimension was also used for the contracted
dimension between the two matrices, and whether the right vector is
a batch was decided by looking at the left one.
---
 t3f/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 2513ffc..abd10e0 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1158,10 +1158,10 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
       raise ValueError('The arguments should be a TT-matrix.')
 
   x_is_batch = isinstance(x, TensorTrainBatch)
-  y_is_batch = isinstance(x, TensorTrainBatch)
-  x_bs_str = 'p' if x_is_batch else ''
-  y_bs_str = 'p' if y_is_batch else ''
-  out_bs_str = 'p' if x_is_batch or y_is_batch else ''
+  y_is_batch = isinstance(y, TensorTrainBatch)
+  x_bs_str = 's' if x_is_batch else ''
+  y_bs_str = 's' if y_is_batch else ''
+  out_bs_str = 's' if x_is_batch or y_is_batch else ''
   all_cores = x.tt_cores + A.tt_cores + B.tt_cores + y.tt_cores
   with tf.name_scope(name):
     ndims = A.ndims()
-- 
2.43.0


From 30b6036cdef3742e595cd53e750ac6a61c065e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:37 +0000
Subject: [PATCH 07/61] fix: reject bilinear forms of TT-objects with different
 number of cores

bilinear_form, bilinear_form_two_mat, and pairwise_flat_inner iterated over
the TT-cores of one argument and silently ignored the extra TT-cores of
the others, returning a meaningless result instead of the documented
ValueError.
---
 t3f/batch_ops.py |  3 +++
 t3f/ops.py       | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index f062e0e..d26f2ad 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -163,6 +163,9 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
     all_cores += matrix.tt_cores
   with tf.name_scope(name):
     ndims = tt_1.ndims()
+    if tt_2.ndims() != ndims:
+      raise ValueError('Arguments should have the same number of dimensions, '
+                       'got %d and %d instead.' % (ndims, tt_2.ndims()))
     if matrix is None:
       curr_core_1 = tt_1.tt_cores[0]
       curr_core_2 = tt_2.tt_cores[0]
diff --git a/t3f/ops.py b/t3f/ops.py
index abd10e0..65613e9 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1092,6 +1092,11 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
   if not isinstance(c, TensorTrainBase) or not c.is_tt_matrix():
     raise ValueError('The arguments should be a TT-matrix.')
 
+  if b.ndims() != A.ndims() or c.ndims() != A.ndims():
+    raise ValueError('Arguments should have the same number of dimensions, '
+                     'got %d, %d, and %d instead.' % (A.ndims(), b.ndims(),
+                                                      c.ndims()))
+
   b_is_batch = isinstance(b, TensorTrainBatch)
   c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
@@ -1157,6 +1162,11 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
     if not isinstance(vec, TensorTrainBase) or not vec.is_tt_matrix():
       raise ValueError('The arguments should be a TT-matrix.')
 
+  if any(tt.ndims() != A.ndims() for tt in [x, B, y]):
+    raise ValueError('Arguments should have the same number of dimensions, '
+                     'got %d, %d, %d, and %d instead.' %
+                     (x.ndims(), A.ndims(), B.ndims(), y.ndims()))
+
   x_is_batch = isinstance(x, TensorTrainBatch)
   y_is_batch = isinstance(y, TensorTrainBatch)
   x_bs_str = 's' if x_is_batch else ''
-- 
2.43.0


From de3045b8355471e02abe094f9565365cbc58a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:43 +0000
Subject: [PATCH 08/61] fix: return a batch from matmul of 1 element batches

matmul promises a TensorTrainBatch if at least one of the arguments is
a TensorTrainBatch, but returned a TensorTrain when all the batches
consisted of a single element.
---
 t3f/ops.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 65613e9..2066a6a 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -137,6 +137,8 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_matrix_b.ndims()))
 
+  is_any_batch = (isinstance(tt_matrix_a, TensorTrainBatch) or
+                  isinstance(tt_matrix_b, TensorTrainBatch))
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
   tt_matrix_a = shapes.squeeze_batch_dim(tt_matrix_a)
   tt_matrix_b = shapes.squeeze_batch_dim(tt_matrix_b)
@@ -181,8 +183,11 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
   out_ranks = [a_r * b_r for a_r, b_r in zip(static_a_ranks, static_b_ranks)]
   if is_res_batch:
     return TensorTrainBatch(result_cores, res_shape, out_ranks, batch_size)
-  else:
-    return TensorTrain(result_cores, res_shape, out_ranks)
+  res = TensorTrain(result_cores, res_shape, out_ranks)
+  if is_any_batch:
+    # All the batches were of size 1, the result is a batch as well.
+    res = shapes.expand_batch_dim(res)
+  return res
 
 
 def tt_dense_matmul(tt_matrix_a, matrix_b):
-- 
2.43.0


From 6fc974a6c4f1c6d239af94888425732328b61fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:49 +0000
Subject: [PATCH 09/61] fix: keep the batch dimensions of scalar products of 1
 element batches

flat_inner, bilinear_form, bilinear_form_two_mat, pairwise_flat_inner, and
gram_matrix squeezed all the dimensions of size 1, including the ones that
enumerate the elements of the batch. E.g. the Gram matrix of a 1 element
batch was a scalar, and pairwise_flat_inner of batches of sizes 1 and
3 was a vector instead of the 1 x 3 matrix.
---
 t3f/batch_ops.py |  5 +++--
 t3f/ops.py       | 12 +++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index d26f2ad..3cfdb2f 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -234,5 +234,6 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
                         curr_matrix_core, curr_core_2)
 
     # Squeeze to make the result of size batch_size x batch_size instead of
-    # batch_size x batch_size x 1 x 1.
-    return tf.squeeze(res)
+    # batch_size x batch_size x 1 x 1. Be careful not to squeeze batches
+    # consisting of a single element.
+    return tf.squeeze(res, list(range(2, len(res.get_shape()))))
diff --git a/t3f/ops.py b/t3f/ops.py
index 2066a6a..7d5bf0f 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -372,6 +372,8 @@ def tt_tt_flat_inner(tt_a, tt_b):
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_b.ndims()))
 
+  is_any_batch = (isinstance(tt_a, TensorTrainBatch) or
+                  isinstance(tt_b, TensorTrainBatch))
   axes_str = 'ij' if are_both_matrices else 'i'
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
   tt_a = shapes.squeeze_batch_dim(tt_a)
@@ -402,7 +404,11 @@ def tt_tt_flat_inner(tt_a, tt_b):
     # if both arguments are TT-tensors, then it is
     # res = tf.einsum('ac,aib,cid->bd', res, a_core, b_core)
     res = tf.einsum(einsum_str, res, a_core, b_core)
-  return tf.squeeze(res)
+  res = tf.squeeze(res, [-1, -2])
+  if is_any_batch and not is_res_batch:
+    # All the batches were of size 1, the result is of size 1 as well.
+    res = tf.expand_dims(res, 0)
+  return res
 
 
 def tt_dense_flat_inner(tt_a, dense_b):
@@ -1135,7 +1141,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-1, -2, -3])
 
 
 def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
@@ -1209,7 +1215,7 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-1, -2, -3, -4])
 
 
 def cast(tt, dtype, name='t3f_cast'):
-- 
2.43.0


From d3ee98394f598be5d431c7972e31fd8d2f6bc847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:19 +0000
Subject: [PATCH 10/61] fix: allow a list of maximal TT-ranks when rounding a
 batch

max_tt_rank is documented to be a number or a list of numbers, but for
a TensorTrainBatch a list raised 'The truth value of an array is
ambiguous'.
---
 t3f/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index 4d6b026..c139450 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -323,7 +323,7 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   """
   ndims = tt.ndims()
   max_tt_rank = np.array(max_tt_rank).astype(np.int32)
-  if max_tt_rank < 1:
+  if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
     raise ValueError('Epsilon should be non-negative.')
-- 
2.43.0


From 53eb34387ee246b28e913e23a9f52d3a0f7284f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:24 +0000
Subject: [PATCH 11/61] fix: support unrestricted TT-ranks in round and to_tt_*

The default max_tt_rank=None of t3f.round raised TypeError, and
the documented way not to restrict the TT-ranks, max_tt_rank=np.inf,
overflowed the conversion to int32 and was rejected as a rank smaller
than 1.
---
 t3f/decompositions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index c139450..04cbfa3 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -96,6 +96,13 @@ def to_tt_matrix(mat, shape, max_tt_rank=10, epsilon=None,
     return TensorTrain(tt_cores, shape, tt_tens.get_tt_ranks())
 
 
+def _clean_max_tt_rank(max_tt_rank):
+  """Converts max_tt_rank to np.int32, None and np.inf mean no restrictions."""
+  if max_tt_rank is None:
+    max_tt_rank = np.inf
+  return np.minimum(max_tt_rank, np.iinfo(np.int32).max).astype(np.int32)
+
+
 # TODO: implement epsilon.
 def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
                  name='t3f_to_tt_tensor'):
@@ -143,7 +150,7 @@ def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
     dynamic_shape = tf.shape(tens)
     # Raises ValueError if ndims is not defined.
     d = static_shape.__len__()
-    max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+    max_tt_rank = _clean_max_tt_rank(max_tt_rank)
     if np.any(max_tt_rank < 1):
       raise ValueError('Maximum TT-rank should be greater or equal to 1.')
     if epsilon is not None and epsilon < 0:
@@ -247,7 +254,7 @@ def _round_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = _clean_max_tt_rank(max_tt_rank)
   if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
@@ -322,7 +329,7 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = _clean_max_tt_rank(max_tt_rank)
   if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
-- 
2.43.0


From 78adceb5a226896188d7aa8b15d2e1d2d32a4d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:29 +0000
Subject: [PATCH 12/61] fix: support indices with more than 2 dimensions in
 gather_nd

gather_nd promises to be equivalent to tf.gather_nd for indices with 2 or
more dimensions, but always took the coordinates from the second
dimension instead of the last one.
---
 t3f/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 7d5bf0f..29c80b6 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1288,8 +1288,10 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         raise ValueError('The last dimension of indices (%d) should have '
                          'the same size as the number of dimensions in the tt '
                          'object (%d).' % (indices.get_shape()[-1], tt.ndims()))
-    tt_elements = tf.ones(tf.shape(indices)[:-1], dtype=tt.dtype)
+    out_shape = tf.shape(indices)[:-1]
+    tt_elements = tf.ones(out_shape, dtype=tt.dtype)
     tt_elements = tf.reshape(tt_elements, (-1, 1, 1))
+    indices = tf.reshape(indices, (-1, indices.get_shape()[-1]))
     for core_idx in range(tt.ndims()):
       curr_core = tt.tt_cores[core_idx]
       if isinstance(tt, TensorTrainBatch):
@@ -1300,7 +1302,7 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         curr_core = tf.transpose(curr_core, (1, 0, 2))
         core_slices = tf.gather(curr_core, indices[:, core_idx])
       tt_elements = tf.matmul(tt_elements, core_slices)
-    tt_elements = tf.reshape(tt_elements, tf.shape(indices)[:-1])
+    tt_elements = tf.reshape(tt_elements, out_shape)
     return tt_elements
 
 
-- 
2.43.0


From db982f1f68169b658ac58042e847e4b93e48d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:34 +0000
Subject: [PATCH 13/61] fix: raise ValueError for not aligned TT x dense matmul
 arguments

Formatting the shapes with %d raised TypeError before the ValueError with
the explanation could be raised.
---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 29c80b6..1aeb229 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -208,7 +208,7 @@ def tt_dense_matmul(tt_matrix_a, matrix_b):
   b_rows = matrix_b.get_shape().as_list()[0]
   if a_columns is not None and b_rows is not None:
     if a_columns != b_rows:
-      raise ValueError('Arguments shapes should align got %d and %d instead.' %
+      raise ValueError('Arguments shapes should align got %s and %s instead.' %
                        (tt_matrix_a.get_shape(), matrix_b.get_shape()))
 
   a_shape = shapes.lazy_shape(tt_matrix_a)
-- 
2.43.0


From 980cab3b543cc86e8d78f2d8fd96266baa1386d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:40 +0000
Subject: [PATCH 14/61] fix: do not lose precision when multiplying by a python
 number

A python float was first converted to float32, so multiplying a float64
TT-object by e.g. 0.1 gave a relative error of 1e-8.
---
 t3f/ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 1aeb229..484af56 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -804,6 +804,8 @@ def multiply(tt_left, right, name='t3f_multiply'):
       # and raise to the power 1/ndims. First TT-core is multiplied by the sign
       # of right.
       tt_cores = list(tt_left.tt_cores)
+      # Do not let a python number to be rounded to float32 on the way.
+      right = tf.convert_to_tensor(right, dtype_hint=tt_left.dtype)
       fact = tf.pow(tf.cast(tf.abs(right), tt_left.dtype), 1.0 / ndims)
       sign = tf.cast(tf.sign(right), tt_left.dtype)
       for i in range(len(tt_cores)):
-- 
2.43.0


From 6390bbc39136a80a0f435b5e7b46061dadd9ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:35:52 +0000
Subject: [PATCH 15/61] fix: support a single TT-matrix in project_matmul

project_matmul documents its first argument as TensorTrain or
TensorTrainBatch, but a TensorTrain raised ValueError because it has no
batch size.
---
 t3f/riemannian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 649d353..ed890de 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -423,7 +423,6 @@ def project_matmul(what, where, matrix):
   ndims = where.ndims()
   dtype = where.dtype
   raw_shape = shapes.lazy_raw_shape(where)
-  batch_size = shapes.lazy_batch_size(what)
   right_tangent_tt_ranks = shapes.lazy_tt_ranks(right_tangent_space_tens)
   left_tangent_tt_ranks = shapes.lazy_tt_ranks(left_tangent_space_tens)
 
@@ -436,6 +435,7 @@ def project_matmul(what, where, matrix):
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
+  batch_size = shapes.lazy_batch_size(what)
 
   # Prepare rhs vectors.
   # rhs[core_idx] is of size
@@ -493,6 +493,7 @@ def project_matmul(what, where, matrix):
       extended_right_tang_core = tf.tile(extended_right_tang_core,
                                          [output_batch_size, 1, 1, 1, 1])
     else:
+      proj_core = tf.squeeze(proj_core, 0)
       extended_left_tang_core = left_tang_core
       extended_right_tang_core = right_tang_core
 
-- 
2.43.0


From f252a9992542ea70e67f644fec792e5f591abcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:35:58 +0000
Subject: [PATCH 16/61] fix: support weights with a single column in
 project_sum

Weights of shape batch_size x k give a batch of k projections, but for
k == 1 the call failed with an einsum error.
---
 t3f/riemannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index ed890de..2e89f81 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -79,7 +79,7 @@ def project_sum(what, where, weights=None):
   left_rank_dim = where.left_tt_rank_dim
   if weights is not None:
     weights_shape = weights.get_shape()
-    output_is_batch = len(weights_shape) > 1 and weights_shape[1] > 1
+    output_is_batch = len(weights_shape) > 1
   else:
     output_is_batch = False
   output_batch_str = 'o' if output_is_batch else ''
-- 
2.43.0


From 34a985462db23d3563a5bd3c55c4e275dca2004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:05 +0000
Subject: [PATCH 17/61] fix: tangent spaces of TT-objects with redundant
 TT-ranks

When the TT-ranks are larger than the mode sizes allow, the left and the
right orthogonalization of the TT-object have different TT-ranks. The
functions that split tangent space elements into two halves assumed them
to be equal, so add_n_projected and pairwise_flat_inner_projected
silently returned wrong results and gradients, hessian_vector_product
and deltas_to_tangent_space failed.
---
 t3f/autodiff.py   |  7 ++-----
 t3f/riemannian.py | 28 ++++++++++++++++------------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 4e2ee30..08c3ad6 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -1,7 +1,6 @@
 import tensorflow as tf
 
 from t3f import shapes
-from t3f import decompositions
 from t3f import riemannian
 from t3f import utils
 
@@ -104,8 +103,7 @@ def gradients(func, x, name='t3f_gradients', runtime_check=True):
       t3f.hessian_vector_product
   """
   with tf.name_scope(name):
-    left = decompositions.orthogonalize_tt_cores(x)
-    right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
+    left, right = riemannian._tangent_frames(x)
     deltas = [right.tt_cores[0]]
     deltas += [tf.zeros_like(cc) for cc in right.tt_cores[1:]]
 
@@ -169,8 +167,7 @@ def hessian_vector_product(func, x, vector, name='t3f_hessian_vector_product',
     """
   all_cores = list(x.tt_cores) + list(vector.tt_cores)
   with tf.name_scope(name):
-    left = decompositions.orthogonalize_tt_cores(x)
-    right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
+    left, right = riemannian._tangent_frames(x)
     deltas = [right.tt_cores[0]]
     deltas += [tf.zeros_like(cc) for cc in right.tt_cores[1:]]
 
diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 2e89f81..867ee19 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -6,6 +6,17 @@ from t3f import shapes
 from t3f import decompositions
 
 
+def _tangent_frames(tt):
+  """Left- and right-orthogonal versions of `tt` with the same TT-ranks."""
+  left = decompositions.orthogonalize_tt_cores(tt)
+  right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
+  if left.get_tt_ranks() != right.get_tt_ranks():
+    # The TT-ranks of tt are larger than TT-ranks of a tensor of this shape can
+    # be, so the second orthogonalization made them smaller.
+    left = decompositions.orthogonalize_tt_cores(right)
+  return left, right
+
+
 def project_sum(what, where, weights=None):
   """Project sum of `what` TTs on the tangent space of `where` TT.
 
@@ -61,10 +72,7 @@ def project_sum(what, where, weights=None):
                      (where.dtype,
                       what.dtype))
 
-  left_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    where)
-  right_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    left_tangent_space_tens, left_to_right=False)
+  left_tangent_space_tens, right_tangent_space_tens = _tangent_frames(where)
 
   ndims = where.ndims()
   dtype = where.dtype
@@ -243,10 +251,7 @@ def project(what, where):
                      (where.dtype,
                       what.dtype))
 
-  left_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    where)
-  right_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    left_tangent_space_tens, left_to_right=False)
+  left_tangent_space_tens, right_tangent_space_tens = _tangent_frames(where)
 
   ndims = where.ndims()
   dtype = where.dtype
@@ -415,10 +420,7 @@ def project_matmul(what, where, matrix):
                      (where.dtype,
                       what.dtype))
 
-  left_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    where)
-  right_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    left_tangent_space_tens, left_to_right=False)
+  left_tangent_space_tens, right_tangent_space_tens = _tangent_frames(where)
 
   ndims = where.ndims()
   dtype = where.dtype
@@ -834,6 +836,8 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
   if right is not None:
     input_tensors += list(right.tt_cores)
   with tf.name_scope(name):
+    if left is None and right is None:
+      left, right = _tangent_frames(tt)
     if left is None:
       left = decompositions.orthogonalize_tt_cores(tt)
     if right is None:
-- 
2.43.0


From d5d9e518a6107a84191c6babd8ce6ac3fcd91928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:32 +0000
Subject: [PATCH 18/61] fix: support TT-objects with a single TT-core in
 Riemannian functions

The projections, deltas_to_tangent_space and add_n_projected treated the
only TT-core both as the first and as the last one and failed.
---
 t3f/riemannian.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 867ee19..91ea7e8 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -170,7 +170,9 @@ def project_sum(what, where, weights=None):
       extended_left_tang_core = left_tang_core
       extended_right_tang_core = right_tang_core
 
-    if core_idx == 0:
+    if ndims == 1:
+      res_core = proj_core
+    elif core_idx == 0:
       res_core = tf.concat((proj_core, extended_left_tang_core),
                            axis=right_rank_dim)
     elif core_idx == ndims - 1:
@@ -339,7 +341,9 @@ def project(what, where):
       extended_left_tang_core = left_tang_core
       extended_right_tang_core = right_tang_core
 
-    if core_idx == 0:
+    if ndims == 1:
+      res_core = proj_core
+    elif core_idx == 0:
       res_core = tf.concat((proj_core, extended_left_tang_core),
                            axis=right_rank_dim)
     elif core_idx == ndims - 1:
@@ -499,7 +503,9 @@ def project_matmul(what, where, matrix):
       extended_left_tang_core = left_tang_core
       extended_right_tang_core = right_tang_core
 
-    if core_idx == 0:
+    if ndims == 1:
+      res_core = proj_core
+    elif core_idx == 0:
       res_core = tf.concat((proj_core, extended_left_tang_core),
                            axis=right_rank_dim)
     elif core_idx == ndims - 1:
@@ -701,7 +707,8 @@ def add_n_projected(tt_objects, coef=None):
   right_part = slice_tt_core(first_obj_core, slice(None),
                              slice(right_half_rank, None))
   first_core = tf.concat((left_part, right_part), axis=right_rank_dim)
-  res_cores.append(first_core)
+  if ndims > 1:
+    res_cores.append(first_core)
 
   for core_idx in range(1, ndims - 1):
     first_obj_core = tt_objects[0].tt_cores[core_idx]
@@ -861,7 +868,9 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
         left_tt_core = tf.tile(left_tt_core[None, ...], tile)
         right_tt_core = tf.tile(right_tt_core[None, ...], tile)
 
-      if i == 0:
+      if num_dims == 1:
+        tangent_core = deltas[i]
+      elif i == 0:
         tangent_core = tf.concat((deltas[i], left_tt_core),
                                  axis=right_rank_dim)
       elif i == num_dims - 1:
-- 
2.43.0


From 758bf0e2c2bece8b22fa803b1860d8ebd03572ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:46 +0000
Subject: [PATCH 19/61] fix: make l2_regularizer and cores_regularizer work in
 TensorFlow 2

Both used the TensorFlow 1 signature of tf.name_scope and the removed
tf.logging, so applying a regularizer or disabling it with zero scale
raised an exception.
---
 t3f/regularizers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/regularizers.py b/t3f/regularizers.py
index 6bfd87c..c868adc 100644
--- a/t3f/regularizers.py
+++ b/t3f/regularizers.py
@@ -25,12 +25,12 @@ def l2_regularizer(scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      tf.get_logger().info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def l2(tt):
     """Applies l2 regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       return tf.multiply(my_scale, ops.frobenius_norm_squared(tt), name=name)
 
@@ -60,12 +60,12 @@ def cores_regularizer(core_regularizer, scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      tf.get_logger().info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def regularizer(tt):
     """Applies the regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       penalty = 0.0
       for i in range(tt.ndims()):
-- 
2.43.0


From 90aa4ac78f7ef54bbd143bf175b05220b5bee1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:17 +0000
Subject: [PATCH 20/61] fix: support regularizer of get_variable in eager mode

The log message about the regularization loss used the name of the loss
tensor, which is not available in eager mode, so creating a regularized
variable failed.
---
 t3f/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index 061a568..6cff4d7 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -108,7 +108,7 @@ def get_variable(name,
         loss = regularizer(v)
       if loss is not None:
         tf.logging.vlog(1, "Applied regularizer to %s and added the result %s "
-                        "to REGULARIZATION_LOSSES.", v.name, loss.name)
+                        "to REGULARIZATION_LOSSES.", v.name, loss)
         tf.add_to_collection(tf.GraphKeys.REGULARIZATION_LOSSES, loss)
     return v
 
-- 
2.43.0


From 17e46996f867c6bfc958022e9c6fb144f14623f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:23 +0000
Subject: [PATCH 21/61] fix: overflow in determinants of large
 Kronecker-product matrices

The number of rows was computed in int32, so for a matrix with 2^31 or
more rows determinant and slog_determinant silently returned wrong
values, e.g. zero log-determinant for a product of 40 2 x 2 matrices.
---
 t3f/kronecker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index e1f4e2d..7c3cde0 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -43,7 +43,8 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
       
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
+    # Cast before reduce_prod: the number of rows may not fit into int32.
+    pows = tf.reduce_prod(tf.cast(i_shapes, kron_a.dtype))
     cores = kron_a.tt_cores
     det = 1
     for core_idx in range(kron_a.ndims()):
@@ -96,7 +97,8 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
 
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
+    # Cast before reduce_prod: the number of rows may not fit into int32.
+    pows = tf.reduce_prod(tf.cast(i_shapes, kron_a.dtype))
     logdet = 0.
     det_sign = 1.
 
-- 
2.43.0


From 9b52864aeb0d4e7e90c529bdfa09ec6c0fb2a962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:43 +0000
Subject: [PATCH 22/61] fix: overflow in glorot, he and lecun initializers of
 large matrices

The number of rows and columns was computed in int64, so for 2^63 or more
of them the TT-cores were filled with infinities or NaNs.
---
 t3f/initializers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 0a84c82..e86c29a 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -772,8 +772,8 @@ def glorot_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
-  n_out = np.prod(shape[1])
+  n_in = np.prod(shape[0], dtype=float)
+  n_out = np.prod(shape[1], dtype=float)
   lamb = 2.0 / (n_in + n_out)
 
   with tf.name_scope(name):
@@ -814,7 +814,7 @@ def he_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=float)
   lamb = 2.0 / n_in
 
   with tf.name_scope(name):
@@ -855,7 +855,7 @@ def lecun_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=float)
   lamb = 1.0 / n_in
   with tf.name_scope(name):
     return random_matrix(shape, tt_rank=tt_rank, stddev=np.sqrt(lamb),
-- 
2.43.0


From e6bdbb66b2d7f0eddab3e2774bf12a6e084564ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:33 +0000
Subject: [PATCH 23/61] fix: register the weights of nn.KerasDense as weights
 of the layer

Keras 3 doesn't track plain tf.Variables, so the layer had no trainable
weights: fitting a model silently didn't change them and saving the
weights of the model didn't save them.
---
 t3f/nn.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/t3f/nn.py b/t3f/nn.py
index fa45eaf..4614f08 100644
--- a/t3f/nn.py
+++ b/t3f/nn.py
@@ -36,6 +36,8 @@ class KerasDense(Layer):
         unknown.
     """
     self.counter = next(self._counter)
+    name = 'tt_dense_{}'.format(self.counter)
+    super(KerasDense, self).__init__(name=name, **kwargs)
     self.tt_shape = [input_dims, output_dims]
     self.output_dim = np.prod(output_dims)
     self.tt_rank = tt_rank
@@ -43,7 +45,6 @@ class KerasDense(Layer):
     self.use_bias = use_bias
     self.kernel_initializer = kernel_initializer
     self.bias_initializer = bias_initializer
-    name = 'tt_dense_{}'.format(self.counter)
 
     if self.kernel_initializer == 'glorot':
       initializer = t3f.glorot_initializer(self.tt_shape,
@@ -58,12 +59,23 @@ class KerasDense(Layer):
       raise ValueError('Unknown kernel_initializer "%s", only "glorot",'
                        '"he", and "lecun"  are supported'
                        % self.kernel_initializer)
-    self.matrix = t3f.get_variable('matrix', initializer=initializer)
-    self._tt_cores = self.matrix.tt_cores
+    self._tt_cores = [self._create_variable('core_%d' % i, core)
+                      for i, core in enumerate(initializer.tt_cores)]
+    self.matrix = t3f.TensorTrain(self._tt_cores, initializer.get_raw_shape(),
+                                  initializer.get_tt_ranks(),
+                                  convert_to_tensors=False)
     self.b = None
     if self.use_bias:
-      self.b = tf.Variable(self.bias_initializer * tf.ones((self.output_dim,)))
-    super(KerasDense, self).__init__(name=name, **kwargs)
+      bias = self.bias_initializer * tf.ones((self.output_dim,))
+      self.b = self._create_variable('bias', bias)
+
+  def _create_variable(self, name, value):
+    """Creates a tf.Variable that Keras knows is a weight of this layer."""
+    weight = self.add_weight(name=name, shape=value.shape,
+                             dtype=value.dtype.name,
+                             initializer=lambda *args, **kwargs: value)
+    # Keras 3 wraps the tf.Variable into an object of its own.
+    return weight if isinstance(weight, tf.Variable) else weight.value
 
   def call(self, x):
     res = t3f.matmul(x, self.matrix)
-- 
2.43.0


From 1244c76ce14ca26da28455a1297d9b6c2c802ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:58 +0000
Subject: [PATCH 24/61] fix: let nn.KerasDense have a custom name

Passing name raised TypeError, so the layer could not be restored from
its own config and models with it could not be cloned or loaded.
---
 t3f/nn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/nn.py b/t3f/nn.py
index 4614f08..e45bfa2 100644
--- a/t3f/nn.py
+++ b/t3f/nn.py
@@ -36,8 +36,8 @@ class KerasDense(Layer):
         unknown.
     """
     self.counter = next(self._counter)
-    name = 'tt_dense_{}'.format(self.counter)
-    super(KerasDense, self).__init__(name=name, **kwargs)
+    kwargs.setdefault('name', 'tt_dense_{}'.format(self.counter))
+    super(KerasDense, self).__init__(**kwargs)
     self.tt_shape = [input_dims, output_dims]
     self.output_dim = np.prod(output_dims)
     self.tt_rank = tt_rank
-- 
2.43.0


From 3068548c0b03617fffaf6fbf656a47a726d400d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:03 +0000
Subject: [PATCH 25/61] fix: support compute_uv=False in the NumPy replacement
 of tf.linalg.svd

After replace_tf_svd_with_np_svd any tf.linalg.svd(..., compute_uv=False)
call failed trying to unpack the singular values.
---
 t3f/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t3f/utils.py b/t3f/utils.py
index 906664a..bf52752 100644
--- a/t3f/utils.py
+++ b/t3f/utils.py
@@ -24,6 +24,8 @@ def replace_tf_svd_with_np_svd():
 
   def my_svd(tensor, full_matrices=False, compute_uv=True):
     dtype = tensor.dtype
+    if not compute_uv:
+      return tf.constant(np.linalg.svd(tensor, compute_uv=False))
     u, s, v = np.linalg.svd(tensor, full_matrices, compute_uv)
     # Converting numpy order of v dims to TF order.
     order = list(range(tensor.get_shape().ndims))
-- 
2.43.0


From e8a30b53f018e89efb326f91d59b1534c5b5532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:09 +0000
Subject: [PATCH 26/61] fix: allow zero function values in Riemannian autodiff

The runtime check divided by the function value, so gradients and
hessian_vector_product failed if the function was zero at the point.
---
 t3f/autodiff.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 08c3ad6..313d7f9 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -57,11 +57,13 @@ def _is_invariant_to_input_transforms(f_value_1, f_value_2,
         'makes things a bit slower. It is advisable to keep runtime_check=True '
         'untill actuall production usage, since runtime check does help to '
         'catch bugs.')
-  rel_diff = tf.abs((f_value_1 - f_value_2) / f_value_1)
+  abs_diff = tf.abs(f_value_1 - f_value_2)
   err_msg = "The function passed to Riemannian autodiff returns different " \
             "values for two different versions of the same tensor. " \
             "The function values are"
-  assert_op = tf.Assert(rel_diff < 1e-5, [err_msg, f_value_1, f_value_2],
+  # Don't divide by f_value_1: it is fine for both values to be zero.
+  is_close = abs_diff <= 1e-5 * tf.abs(f_value_1)
+  assert_op = tf.Assert(is_close, [err_msg, f_value_1, f_value_2],
                         name=name)
   return assert_op
 
-- 
2.43.0


From 0812db6af1f45c1fb7f3d57444ea806f0685be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:48:40 +0000
Subject: [PATCH 27/61] fix: reject shapes that do not fit the number of
 TT-cores

The constructors accepted a shape longer than the list of cores, the shape of
a TT-matrix for the cores of a TT-tensor (and vice versa) and cores with too
many axes. The resulting object reported a wrong shape.
---
 t3f/tensor_train.py       | 12 ++++++++++++
 t3f/tensor_train_batch.py | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 7980700..f250067 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -166,8 +166,17 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
         # Shapes are inconsistent.
         return False
+      if len(curr_core_shape) not in (3, 4):
+        # Neither a TT-tensor nor a TT-matrix.
+        return False
       if shape is not None:
+        if len(shape) != len(curr_core_shape) - 2:
+          # The shape of a TT-matrix is given for a TT-tensor or vice versa.
+          return False
         for i in range(len(shape)):
+          if len(shape[i]) != num_dims:
+            # The shape is given for a different number of TT-cores.
+            return False
           if curr_core_shape[i + 1] != shape[i][core_idx]:
             # The TT-cores are not aligned with the given shape.
             return False
@@ -177,6 +186,9 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
+        if len(tt_ranks) < num_dims + 1:
+          # There are fewer TT-ranks than needed.
+          return False
         if curr_core_shape[0] != tt_ranks[core_idx]:
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 976582a..844e8a4 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -299,12 +299,21 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
         # Shapes are inconsistent.
         return False
+      if len(curr_core_shape) not in (4, 5):
+        # Neither a batch of TT-tensors nor of TT-matrices.
+        return False
       if batch_size is not None and curr_core_shape[0] is not None:
         if curr_core_shape[0] != batch_size:
           # The TT-cores are not aligned with the given batch_size.
           return False
       if shape is not None:
+        if len(shape) != len(curr_core_shape) - 3:
+          # The shape of a TT-matrix is given for a TT-tensor or vice versa.
+          return False
         for i in range(len(shape)):
+          if len(shape[i]) != num_dims:
+            # The shape is given for a different number of TT-cores.
+            return False
           dim_a, dim_b = curr_core_shape[i + 2], shape[i][core_idx]
           if dim_a is not None and dim_b is not None and dim_a != dim_b:
             # The TT-cores are not aligned with the given shape.
@@ -315,6 +324,9 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
+        if len(tt_ranks) < num_dims + 1:
+          # There are fewer TT-ranks than needed.
+          return False
         if curr_core_shape[1] != tt_ranks[core_idx]:
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-- 
2.43.0


From db1163343cc3f3617b01286dd7ff938f61b362c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:48:45 +0000
Subject: [PATCH 28/61] fix: reject TT-cores with different batch sizes

TensorTrainBatch accepted cores whose batch sizes differ from each other when
the batch size was not given explicitly.
---
 t3f/tensor_train_batch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 844e8a4..a00c90c 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -302,6 +302,11 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
       if len(curr_core_shape) not in (4, 5):
         # Neither a batch of TT-tensors nor of TT-matrices.
         return False
+      first_size = tt_cores[0].shape.as_list()[0]
+      if first_size is not None and curr_core_shape[0] is not None:
+        if curr_core_shape[0] != first_size:
+          # The TT-cores have different batch sizes.
+          return False
       if batch_size is not None and curr_core_shape[0] is not None:
         if curr_core_shape[0] != batch_size:
           # The TT-cores are not aligned with the given batch_size.
-- 
2.43.0


From d97060b710d5ca80e7491301fbb3af37e845d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:48:51 +0000
Subject: [PATCH 29/61] fix: indexing a batch by a tuple of one element

a[1, ] and a[1:3, ] raised TypeError although the code meant to support them.
---
 t3f/tensor_train_batch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index a00c90c..b690bbb 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -258,6 +258,9 @@ class TensorTrainBatch(TensorTrainBase):
     """
     try:
       slice_only_batch_dim = len(slice_spec) == 1
+      if slice_only_batch_dim:
+        # E.g. a[1, ] is the same as a[1].
+        slice_spec = slice_spec[0]
     except TypeError:
       # The argument is not iterable, so it's a single slice, or a number, or a
       # tf.Tensor with a number.
-- 
2.43.0


From b6c3fe993ce42e4176c803eaf52c30f4f098f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:41 +0000
Subject: [PATCH 30/61] fix: graph-mode gradients at points with redundant
 TT-ranks

The left-orthogonal frame of such a point is computed from the right one,
so tf.gradients with respect to the first delta-core (which is a core of the
right frame) also differentiated the left frame. Use a copy of the core.
---
 t3f/autodiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 313d7f9..9aff7fe 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -106,7 +106,7 @@ def gradients(func, x, name='t3f_gradients', runtime_check=True):
   """
   with tf.name_scope(name):
     left, right = riemannian._tangent_frames(x)
-    deltas = [right.tt_cores[0]]
+    deltas = [tf.identity(right.tt_cores[0])]
     deltas += [tf.zeros_like(cc) for cc in right.tt_cores[1:]]
 
     def augmented_func(d):
@@ -170,7 +170,7 @@ def hessian_vector_product(func, x, vector, name='t3f_hessian_vector_product',
   all_cores = list(x.tt_cores) + list(vector.tt_cores)
   with tf.name_scope(name):
     left, right = riemannian._tangent_frames(x)
-    deltas = [right.tt_cores[0]]
+    deltas = [tf.identity(right.tt_cores[0])]
     deltas += [tf.zeros_like(cc) for cc in right.tt_cores[1:]]
 
     def augmented_outer_func(deltas_outer):
-- 
2.43.0


From 6022831a35f73c6024a70b3e329b793884e76679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:06 +0000
Subject: [PATCH 31/61] fix: overflow in slog_determinant of matrices with
 large TT-cores

The logarithm was taken of the determinant of each TT-core, which overflows
or underflows already for cores of moderate size.
---
 t3f/kronecker.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index 7c3cde0..d63d548 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -104,14 +104,14 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
 
     for core_idx in range(kron_a.ndims()):
       core = kron_a.tt_cores[core_idx]
+      # Don't compute the determinant itself: it can overflow.
       if is_batch:
-        core_det = tf.linalg.det(core[:, 0, :, :, 0])
+        core_slogdet = tf.linalg.slogdet(core[:, 0, :, :, 0])
       else:
-        core_det = tf.linalg.det(core[0, :, :, 0])
-      core_abs_det = tf.abs(core_det)
-      core_det_sign = tf.sign(core_det)
+        core_slogdet = tf.linalg.slogdet(core[0, :, :, 0])
+      core_det_sign, core_log_abs_det = core_slogdet
       core_pow = pows / i_shapes[core_idx]
-      logdet += tf.math.log(core_abs_det) * core_pow
+      logdet += core_log_abs_det * core_pow
       det_sign *= core_det_sign**(core_pow)
     return det_sign, logdet
 
-- 
2.43.0


From 7a2cf47a22eb7fc470718754d9185785a69eac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:13:05 +0000
Subject: [PATCH 32/61] fix: determinants of Kronecker products with many rows

The power of the determinant of a TT-core was computed in floating point as
the rounded number of rows divided by the size of the core. When the result
was not exact the sign was lost or the determinant became NaN, and an
infinite power gave NaN for TT-cores with unit determinants.
---
 t3f/kronecker.py | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index d63d548..3a5fb15 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -1,3 +1,4 @@
+import numpy as np
 import tensorflow as tf
 
 from t3f.tensor_train import TensorTrain
@@ -43,8 +44,6 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
       
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    # Cast before reduce_prod: the number of rows may not fit into int32.
-    pows = tf.reduce_prod(tf.cast(i_shapes, kron_a.dtype))
     cores = kron_a.tt_cores
     det = 1
     for core_idx in range(kron_a.ndims()):
@@ -53,9 +52,12 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
         core_det = tf.linalg.det(core[:, 0, :, :, 0])
       else:
         core_det = tf.linalg.det(core[0, :, :, 0])
-      core_pow = pows / i_shapes[core_idx]
+      core_pow, is_odd_pow_rounded = _core_power(i_shapes, core_idx,
+                                                 kron_a.dtype)
 
       det *= tf.pow(core_det, core_pow)
+      if is_odd_pow_rounded:
+        det *= tf.sign(core_det)
     return det
 
 
@@ -97,8 +99,6 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
 
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    # Cast before reduce_prod: the number of rows may not fit into int32.
-    pows = tf.reduce_prod(tf.cast(i_shapes, kron_a.dtype))
     logdet = 0.
     det_sign = 1.
 
@@ -110,9 +110,13 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
       else:
         core_slogdet = tf.linalg.slogdet(core[0, :, :, 0])
       core_det_sign, core_log_abs_det = core_slogdet
-      core_pow = pows / i_shapes[core_idx]
-      logdet += core_log_abs_det * core_pow
+      core_pow, is_odd_pow_rounded = _core_power(i_shapes, core_idx,
+                                                 kron_a.dtype)
+      # core_pow can be infinite.
+      logdet += tf.math.multiply_no_nan(core_pow, core_log_abs_det)
       det_sign *= core_det_sign**(core_pow)
+      if is_odd_pow_rounded:
+        det_sign *= core_det_sign
     return det_sign, logdet
 
 
@@ -231,6 +235,28 @@ def cholesky(kron_a, name='t3f_kronecker_cholesky'):
       return TensorTrain(cho_cores, res_shape, res_ranks)
 
 
+def _core_power(i_shapes, core_idx, dtype):
+  """Power of the determinant of a TT-core in the determinant of the matrix.
+
+  Args:
+    i_shapes: a list of sizes of the (square) TT-cores.
+    core_idx: int, index of the TT-core.
+    dtype: tf.DType of the TT-cores.
+
+  Returns:
+    np.number of the given dtype, product of sizes of the other TT-cores.
+    bool, True if the product is odd but is too large to be an odd number in the
+      given dtype (so the sign of a negative number to this power is lost).
+  """
+  other_sizes = i_shapes[:core_idx] + i_shapes[core_idx + 1:]
+  # The product may not fit into integer types, and even into float ones.
+  with np.errstate(over='ignore'):
+    core_pow = dtype.as_numpy_dtype(np.prod(other_sizes, dtype=float))
+  is_odd = all(size % 2 == 1 for size in other_sizes)
+  is_rounded = core_pow >= 2.0 / np.finfo(core_pow.dtype).eps
+  return core_pow, is_odd and is_rounded
+
+
 def _is_kron(tt_a):
   """Returns True if the argument is a Kronecker product matrix.
 
-- 
2.43.0


From c858fc00c543e105d31d6d29bf03830ac555ae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:18:22 +0000
Subject: [PATCH 33/61] fix: shape of a batch of TT-matrices with sizes beyond
 64 bits

np.hstack converted sizes between 2^63 and 2^64 to floats, which are not
accepted by tf.TensorShape.
---
 t3f/tensor_train_batch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index b690bbb..c6406f5 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -1,4 +1,3 @@
-import numpy as np
 import tensorflow as tf
 
 from t3f.tensor_train_base import TensorTrainBase
@@ -74,7 +73,8 @@ class TensorTrainBatch(TensorTrainBase):
       A `TensorShape` object.
     """
     shape = TensorTrainBase.get_shape(self)
-    return tf.TensorShape(np.hstack((self.batch_size, shape)))
+    # Don't use np.hstack: sizes of a TT-matrix may not fit into np.int64.
+    return tf.TensorShape([self.batch_size]).concatenate(shape)
 
   @property
   def tt_cores(self):
-- 
2.43.0


From e4df5604158e315f95dce705c4f5b93d026b7107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:24:00 +0000
Subject: [PATCH 34/61] fix: ValueError for a variable without an initializer
 in eager mode

---
 t3f/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index 6cff4d7..84fb7b4 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -52,7 +52,7 @@ def get_variable(name,
   # TODO: add validate ranks flag.
 
   reuse = tf.get_variable_scope().reuse
-  if not reuse and initializer is None:
+  if (not reuse or utils.in_eager_mode()) and initializer is None:
     raise ValueError('Scope reuse is False and initializer is not provided.')
 
   variable_cores = []
-- 
2.43.0


From 658a89b18fd56a335d7419e5e3606b00cf97e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:53 +0000
Subject: [PATCH 35/61] fix: save all TT-cores of KerasDense in checkpoints

---
 t3f/nn.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/t3f/nn.py b/t3f/nn.py
index e45bfa2..2dd8263 100644
--- a/t3f/nn.py
+++ b/t3f/nn.py
@@ -59,9 +59,9 @@ class KerasDense(Layer):
       raise ValueError('Unknown kernel_initializer "%s", only "glorot",'
                        '"he", and "lecun"  are supported'
                        % self.kernel_initializer)
-    self._tt_cores = [self._create_variable('core_%d' % i, core)
-                      for i, core in enumerate(initializer.tt_cores)]
-    self.matrix = t3f.TensorTrain(self._tt_cores, initializer.get_raw_shape(),
+    tt_cores = [self._create_variable('core_%d' % i, core)
+                for i, core in enumerate(initializer.tt_cores)]
+    self.matrix = t3f.TensorTrain(tt_cores, initializer.get_raw_shape(),
                                   initializer.get_tt_ranks(),
                                   convert_to_tensors=False)
     self.b = None
@@ -75,7 +75,10 @@ class KerasDense(Layer):
                              dtype=value.dtype.name,
                              initializer=lambda *args, **kwargs: value)
     # Keras 3 wraps the tf.Variable into an object of its own.
-    return weight if isinstance(weight, tf.Variable) else weight.value
+    variable = weight if isinstance(weight, tf.Variable) else weight.value
+    # Checkpoints only save the variables which are attributes of the layer.
+    setattr(self, '_' + name, variable)
+    return variable
 
   def call(self, x):
     res = t3f.matmul(x, self.matrix)
-- 
2.43.0


From f72783cf35303ef516eac622f6205268e887b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:40:03 +0000
Subject: [PATCH 36/61] fix: don't reject TT-cores with partially known static
 shapes

---
 t3f/shapes.py             | 13 +++++++++++++
 t3f/tensor_train.py       | 13 ++++++++-----
 t3f/tensor_train_batch.py | 10 ++++++----
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index ec99153..f6154a7 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -230,6 +230,19 @@ def clean_raw_shape(shape, name='t3f_clean_raw_shape'):
     return shape
 
 
+def are_dims_different(dim_a, dim_b):
+  """Check that two static dimensions are known to be different.
+
+  Args:
+    dim_a: number or None (unknown dimension)
+    dim_b: number or None (unknown dimension)
+
+  Returns:
+    Bool, False if one of the dimensions is unknown
+  """
+  return dim_a is not None and dim_b is not None and dim_a != dim_b
+
+
 def is_batch_broadcasting_possible(tt_a, tt_b):
   """Check that the batch broadcasting possible for the given batch sizes.
 
diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index f250067..b42a04f 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -177,25 +177,28 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
           if len(shape[i]) != num_dims:
             # The shape is given for a different number of TT-cores.
             return False
-          if curr_core_shape[i + 1] != shape[i][core_idx]:
+          if shapes.are_dims_different(curr_core_shape[i + 1],
+                                       shape[i][core_idx]):
             # The TT-cores are not aligned with the given shape.
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
-        if curr_core_shape[0] != prev_core_shape[-1]:
+        if shapes.are_dims_different(curr_core_shape[0], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
         if len(tt_ranks) < num_dims + 1:
           # There are fewer TT-ranks than needed.
           return False
-        if curr_core_shape[0] != tt_ranks[core_idx]:
+        if shapes.are_dims_different(curr_core_shape[0], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if shapes.are_dims_different(curr_core_shape[-1],
+                                     tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[0] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (shapes.are_dims_different(tt_cores[0].get_shape()[0], 1) or
+        shapes.are_dims_different(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index c6406f5..1412069 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -328,20 +328,22 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
-        if curr_core_shape[1] != prev_core_shape[-1]:
+        if shapes.are_dims_different(curr_core_shape[1], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
         if len(tt_ranks) < num_dims + 1:
           # There are fewer TT-ranks than needed.
           return False
-        if curr_core_shape[1] != tt_ranks[core_idx]:
+        if shapes.are_dims_different(curr_core_shape[1], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if shapes.are_dims_different(curr_core_shape[-1],
+                                     tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[1] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (shapes.are_dims_different(tt_cores[0].get_shape()[1], 1) or
+        shapes.are_dims_different(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
-- 
2.43.0


From 1426ff252df1342390bc9857e090d871a44f93be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:40:11 +0000
Subject: [PATCH 37/61] fix: static shape of TT-matrices with unknown sizes

---
 t3f/tensor_train.py       | 2 +-
 t3f/tensor_train_base.py  | 4 ++--
 t3f/tensor_train_batch.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index b42a04f..00e7041 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -91,7 +91,7 @@ class TensorTrain(TensorTrainBase):
     variable_str = ' variable' if self.is_variable() else ''
     if self.is_tt_matrix():
       raw_shape = self.get_raw_shape()
-      return "A TT-Matrix%s of size %d x %d, underlying tensor " \
+      return "A TT-Matrix%s of size %s x %s, underlying tensor " \
              "shape: %s x %s, TT-ranks: %s" % (variable_str, shape[0], shape[1],
                                                raw_shape[0], raw_shape[1],
                                                tt_ranks)
diff --git a/t3f/tensor_train_base.py b/t3f/tensor_train_base.py
index f4c25b7..0bcb56e 100644
--- a/t3f/tensor_train_base.py
+++ b/t3f/tensor_train_base.py
@@ -32,8 +32,8 @@ class TensorTrainBase(object):
     raw_shape = self.get_raw_shape()
     if self.is_tt_matrix():
       # Use python prod instead of np.prod to avoid overflows.
-      prod_f = lambda arr: reduce(lambda x, y: x*y, arr)
-      # TODO: as list is not available if shape is partly known.
+      prod_f = lambda arr: (None if None in arr else
+                            reduce(lambda x, y: x*y, arr))
       m = prod_f(raw_shape[0].as_list())
       n = prod_f(raw_shape[1].as_list())
       return tf.TensorShape((m, n))
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 1412069..6090713 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -124,7 +124,7 @@ class TensorTrainBatch(TensorTrainBase):
       raw_shape = self.get_raw_shape()
       type_str = 'TT-matrix variables' if self.is_variable() else 'TT-matrices'
 
-      return "A %s element batch of %s of size %d x %d, underlying tensor " \
+      return "A %s element batch of %s of size %s x %s, underlying tensor " \
              "shape: %s x %s, TT-ranks: %s" % (batch_size_str, type_str,
                                                shape[1], shape[2],
                                                raw_shape[0], raw_shape[1],
-- 
2.43.0


From dd044e13190eb33c4a2719c91deb29199c3e1c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:40:18 +0000
Subject: [PATCH 38/61] fix: arithmetic on TT-objects with unknown static
 TT-ranks

---
 t3f/ops.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 484af56..4ca7d83 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -180,7 +180,8 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
   res_shape = (tt_matrix_a.get_raw_shape()[0], tt_matrix_b.get_raw_shape()[1])
   static_a_ranks = tt_matrix_a.get_tt_ranks()
   static_b_ranks = tt_matrix_b.get_tt_ranks()
-  out_ranks = [a_r * b_r for a_r, b_r in zip(static_a_ranks, static_b_ranks)]
+  out_ranks = [None if a_r is None or b_r is None else a_r * b_r
+               for a_r, b_r in zip(static_a_ranks, static_b_ranks)]
   if is_res_batch:
     return TensorTrainBatch(result_cores, res_shape, out_ranks, batch_size)
   res = TensorTrain(result_cores, res_shape, out_ranks)
@@ -758,7 +759,9 @@ def add(tt_a, tt_b, name='t3f_add'):
     static_a_ranks = tt_a.get_tt_ranks()
     static_b_ranks = tt_b.get_tt_ranks()
     for core_idx in range(1, ndims):
-      out_ranks.append(static_a_ranks[core_idx] + static_b_ranks[core_idx])
+      a_rank, b_rank = static_a_ranks[core_idx], static_b_ranks[core_idx]
+      is_unknown = a_rank is None or b_rank is None
+      out_ranks.append(None if is_unknown else a_rank + b_rank)
     out_ranks.append(1)
     if is_batch_case:
       return TensorTrainBatch(tt_cores, tt_a.get_raw_shape(), out_ranks,
@@ -934,7 +937,8 @@ def multiply(tt_left, right, name='t3f_multiply'):
         tt_cores.append(curr_core)
 
       combined_ranks = zip(tt_left.get_tt_ranks(), right.get_tt_ranks())
-      out_ranks = [a * b for a, b in combined_ranks]
+      out_ranks = [None if a is None or b is None else a * b
+                   for a, b in combined_ranks]
 
   if not is_batch_case:
     return TensorTrain(tt_cores, tt_left.get_raw_shape(), out_ranks)
-- 
2.43.0


From bc16e2c34f1b54ecced9a0b7e37956a4d5eddf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:14 +0000
Subject: [PATCH 39/61] fix: projection of a batch of unknown size

---
 t3f/riemannian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 91ea7e8..dc4e0e8 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -267,7 +267,7 @@ def project(what, where):
   left_rank_dim = what.left_tt_rank_dim
   output_is_batch = isinstance(what, TensorTrainBatch)
   if output_is_batch:
-    output_batch_size = what.batch_size
+    output_batch_size = shapes.lazy_batch_size(what)
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
@@ -369,7 +369,7 @@ def project(what, where):
   # TODO: TT-ranks.
   if output_is_batch:
     res = TensorTrainBatch(res_cores_list, where.get_raw_shape(),
-                            batch_size=output_batch_size)
+                            batch_size=what.batch_size)
   else:
     res = TensorTrain(res_cores_list, where.get_raw_shape())
 
@@ -437,7 +437,7 @@ def project_matmul(what, where, matrix):
   left_rank_dim = what.left_tt_rank_dim
   output_is_batch = isinstance(what, TensorTrainBatch)
   if output_is_batch:
-    output_batch_size = what.batch_size
+    output_batch_size = shapes.lazy_batch_size(what)
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
@@ -530,7 +530,7 @@ def project_matmul(what, where, matrix):
   # TODO: TT-ranks.
   if output_is_batch:
     res = TensorTrainBatch(res_cores_list, where.get_raw_shape(),
-                            batch_size=output_batch_size)
+                            batch_size=what.batch_size)
   else:
     res = TensorTrain(res_cores_list, where.get_raw_shape())
 
-- 
2.43.0


From df9f9bb8815fc8ecaac49b46d8765f862a7c75d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:22 +0000
Subject: [PATCH 40/61] fix: renormalization of a batch of unknown size

---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 4ca7d83..073cfde 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1347,7 +1347,7 @@ def renormalize_tt_cores(tt, epsilon=1e-8, name='t3f_renormalize_tt_cores'):
 
         return TensorTrain(new_cores)
       else:
-        sz = (tt.batch_size,) + (len(tt.tt_cores[0].shape) - 1) * (1,)
+        sz = (shapes.lazy_batch_size(tt),) + (len(tt.tt_cores[0].shape) - 1) * (1,)
         running_core_log_norms = tf.zeros(sz, dtype=tt.dtype)
         ax = np.arange(len(tt.tt_cores[0].shape))[1:]
         fact_list = []
-- 
2.43.0


From d0844d45a2f98b61b1301af8feea927841c102f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:29 +0000
Subject: [PATCH 41/61] fix: conversion to and from delta-cores of unknown
 static shapes

---
 t3f/riemannian.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index dc4e0e8..d46be6a 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -786,8 +786,9 @@ def tangent_space_to_deltas(tt, name='t3f_tangent_space_to_deltas'):
   right_tt_rank_dim = tt.right_tt_rank_dim
   deltas = [None] * num_dims
   tt_ranks = shapes.lazy_tt_ranks(tt)
+  static_tt_ranks = tt.get_tt_ranks()
   for i in range(1, num_dims - 1):
-    if int(tt_ranks[i] / 2) != tt_ranks[i] / 2:
+    if static_tt_ranks[i] is not None and static_tt_ranks[i] % 2 != 0:
       raise ValueError('tt argument is supposed to be a projection, but its '
                        'ranks are not even.')
   with tf.name_scope(name):
@@ -795,14 +796,14 @@ def tangent_space_to_deltas(tt, name='t3f_tangent_space_to_deltas'):
       r1, r2 = tt_ranks[i], tt_ranks[i + 1]
       curr_core = tt.tt_cores[i]
       slc = [slice(None)] * len(curr_core.shape)
-      slc[left_tt_rank_dim] = slice(int(r1 / 2), None)
-      slc[right_tt_rank_dim] = slice(0, int(r2 / 2))
+      slc[left_tt_rank_dim] = slice(r1 // 2, None)
+      slc[right_tt_rank_dim] = slice(0, r2 // 2)
       deltas[i] = curr_core[slc]
     slc = [slice(None)] * len(tt.tt_cores[0].shape)
-    slc[right_tt_rank_dim] = slice(0, int(tt_ranks[1] / 2))
+    slc[right_tt_rank_dim] = slice(0, tt_ranks[1] // 2)
     deltas[0] = tt.tt_cores[0][slc]
     slc = [slice(None)] * len(tt.tt_cores[0].shape)
-    slc[left_tt_rank_dim] = slice(int(tt_ranks[-2] / 2), None)
+    slc[left_tt_rank_dim] = slice(tt_ranks[-2] // 2, None)
     deltas[num_dims - 1] = tt.tt_cores[num_dims - 1][slc]
   return deltas
 
@@ -859,6 +860,8 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
       right_rank_dim += 1
       left_rank_dim += 1
       batch_size = deltas[0].shape.as_list()[0]
+      if batch_size is None:
+        batch_size = tf.shape(deltas[0])[0]
     for i in range(num_dims):
       left_tt_core = left.tt_cores[i]
       right_tt_core = right.tt_cores[i]
@@ -894,7 +897,7 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
         tangent_core = tf.concat((upper, lower), axis=left_rank_dim)
       cores.append(tangent_core)
     if is_batch_case:
-      tangent = TensorTrainBatch(cores, batch_size=batch_size)
+      tangent = TensorTrainBatch(cores)
     else:
       tangent = TensorTrain(cores)
     tangent.projection_on = tt
-- 
2.43.0


From 18e85635cbb6be254bd70ea485221c472c874565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:34 +0000
Subject: [PATCH 42/61] fix: Riemannian gradient at a point of unknown static
 shape

---
 t3f/autodiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 9aff7fe..e582719 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -28,7 +28,7 @@ def _enforce_gauge_conditions(deltas, left):
       proj_delta = deltas[i]
       proj_delta = tf.reshape(proj_delta, (-1, right_r))
       proj_delta -= tf.matmul(q, tf.matmul(tf.transpose(q), proj_delta))
-      proj_delta = tf.reshape(proj_delta, left.tt_cores[i].shape)
+      proj_delta = tf.reshape(proj_delta, tf.shape(left.tt_cores[i]))
     else:
       proj_delta = deltas[i]
     proj_deltas.append(proj_delta)
-- 
2.43.0


From aa3684b160dd0039e97648cfb0544e1614b9ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:54:09 +0000
Subject: [PATCH 43/61] fix: Kronecker products in a batch of unknown size

---
 t3f/kronecker.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index 3a5fb15..3568715 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -29,7 +29,7 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
     raise ValueError('The argument should be a Kronecker product (tt-ranks '
                      'should be 1)')
 
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
@@ -84,7 +84,7 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
  
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
@@ -143,7 +143,7 @@ def inv(kron_a, name='t3f_kronecker_inv'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
     
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
@@ -201,7 +201,7 @@ def cholesky(kron_a, name='t3f_kronecker_cholesky'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
     
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
-- 
2.43.0


From 2986b4657d222a88fa8547242043cf8dc1ef5d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:54:43 +0000
Subject: [PATCH 44/61] fix: keep the batch size of results None if it is not
 known statically

---
 t3f/tensor_train_batch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 6090713..8218a22 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -46,6 +46,10 @@ class TensorTrainBatch(TensorTrainBase):
           name = "core%d" % i
           tt_cores[i] = tf.convert_to_tensor(tt_cores[i], name=name)
 
+    if tf.is_tensor(batch_size):
+      # Use None if the value is not known at the compilation stage.
+      batch_size = tf.get_static_value(batch_size)
+
     if not _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
       raise ValueError('The tt_cores provided to TensorTrainBatch constructor '
                        'are not valid, have different dtypes, or are '
-- 
2.43.0


From 28bc29e5308d91b84a4cfc0a5bdb75853750c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:37:47 +0000
Subject: [PATCH 45/61] fix: ValueError for products of TT-objects with
 misaligned shapes

---
 t3f/ops.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 073cfde..86f34aa 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -137,6 +137,12 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_matrix_b.ndims()))
 
+  a_raw_columns = tt_matrix_a.get_raw_shape()[1]
+  b_raw_rows = tt_matrix_b.get_raw_shape()[0]
+  if not a_raw_columns.is_compatible_with(b_raw_rows):
+    raise ValueError('Arguments shapes should align got %s and %s instead.' %
+                     (tt_matrix_a.get_raw_shape(), tt_matrix_b.get_raw_shape()))
+
   is_any_batch = (isinstance(tt_matrix_a, TensorTrainBatch) or
                   isinstance(tt_matrix_b, TensorTrainBatch))
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
@@ -366,13 +372,17 @@ def tt_tt_flat_inner(tt_a, tt_b):
     raise ValueError('The batch sizes are different and not 1, broadcasting is '
                      'not available.')
 
-  # TODO: compare shapes and raise if not consistent.
-
   ndims = tt_a.ndims()
   if tt_b.ndims() != ndims:
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_b.ndims()))
 
+  for a_sizes, b_sizes in zip(tt_a.get_raw_shape(), tt_b.get_raw_shape()):
+    if not a_sizes.is_compatible_with(b_sizes):
+      raise ValueError('The arguments should have the same shape, got %s and '
+                       '%s instead.' % (tt_a.get_raw_shape(),
+                                        tt_b.get_raw_shape()))
+
   is_any_batch = (isinstance(tt_a, TensorTrainBatch) or
                   isinstance(tt_b, TensorTrainBatch))
   axes_str = 'ij' if are_both_matrices else 'i'
@@ -1114,6 +1124,14 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
                      'got %d, %d, and %d instead.' % (A.ndims(), b.ndims(),
                                                       c.ndims()))
 
+  A_raw_shape = A.get_raw_shape()
+  if not (A_raw_shape[0].is_compatible_with(b.get_raw_shape()[0]) and
+          A_raw_shape[1].is_compatible_with(c.get_raw_shape()[0]) and
+          b.get_raw_shape()[1].is_compatible_with(c.get_raw_shape()[1])):
+    raise ValueError('Arguments shapes should align got %s, %s, and %s '
+                     'instead.' % (A_raw_shape, b.get_raw_shape(),
+                                   c.get_raw_shape()))
+
   b_is_batch = isinstance(b, TensorTrainBatch)
   c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
@@ -1184,6 +1202,15 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
                      'got %d, %d, %d, and %d instead.' %
                      (x.ndims(), A.ndims(), B.ndims(), y.ndims()))
 
+  A_raw_shape, B_raw_shape = A.get_raw_shape(), B.get_raw_shape()
+  if not (A_raw_shape[0].is_compatible_with(x.get_raw_shape()[0]) and
+          A_raw_shape[1].is_compatible_with(B_raw_shape[0]) and
+          B_raw_shape[1].is_compatible_with(y.get_raw_shape()[0]) and
+          x.get_raw_shape()[1].is_compatible_with(y.get_raw_shape()[1])):
+    raise ValueError('Arguments shapes should align got %s, %s, %s, and %s '
+                     'instead.' % (x.get_raw_shape(), A_raw_shape, B_raw_shape,
+                                   y.get_raw_shape()))
+
   x_is_batch = isinstance(x, TensorTrainBatch)
   y_is_batch = isinstance(y, TensorTrainBatch)
   x_bs_str = 's' if x_is_batch else ''
-- 
2.43.0


From a70ecb2b16d40458469011929cc90fde8d6f3db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:37:47 +0000
Subject: [PATCH 46/61] fix: reject inner products with sparse tensors of
 another shape

---
 t3f/ops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 86f34aa..8897181 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -451,6 +451,10 @@ def tt_sparse_flat_inner(tt_a, sparse_b):
     a number
     sum of products of all the elements of tt_a and sparse_b
   """
+  if not sparse_b.get_shape().is_compatible_with(tt_a.get_shape()):
+    raise ValueError('The arguments should have the same shape, got %s and %s '
+                     'instead.' % (tt_a.get_shape(), sparse_b.get_shape()))
+
   if sparse_b.indices.get_shape().is_fully_defined():
     num_elements = sparse_b.indices.get_shape()[0]
   else:
-- 
2.43.0


From 9ae29c6523c7f1cfede690bf7c78490479d52236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:37:47 +0000
Subject: [PATCH 47/61] fix: reject products of TT-objects with dense arrays

---
 t3f/ops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 8897181..9682f7e 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -823,6 +823,10 @@ def multiply(tt_left, right, name='t3f_multiply'):
       tt_cores = list(tt_left.tt_cores)
       # Do not let a python number to be rounded to float32 on the way.
       right = tf.convert_to_tensor(right, dtype_hint=tt_left.dtype)
+      if right.get_shape().num_elements() not in (None, 1):
+        raise ValueError('The second argument should be a TT-object or a '
+                         'number, got a tensor of shape %s.' %
+                         right.get_shape())
       fact = tf.pow(tf.cast(tf.abs(right), tt_left.dtype), 1.0 / ndims)
       sign = tf.cast(tf.sign(right), tt_left.dtype)
       for i in range(len(tt_cores)):
-- 
2.43.0


From 9807b4f94d12af4494e61fbf440439eb3702800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:37:47 +0000
Subject: [PATCH 48/61] fix: reject project_matmul with a matrix of another
 number of cores

---
 t3f/riemannian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index d46be6a..3e87ef3 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -417,6 +417,10 @@ def project_matmul(what, where, matrix):
                      (where.get_raw_shape(),
                       what.get_raw_shape()))
 
+  if matrix.ndims() != where.ndims():
+    raise ValueError('Arguments should have the same number of dimensions, '
+                     'got %d and %d instead.' % (matrix.ndims(), where.ndims()))
+
   dtypes_compatible = (where.dtype.is_compatible_with(what.dtype) or
                        what.dtype.is_compatible_with(where.dtype))
   if not dtypes_compatible:
-- 
2.43.0


From 7c7c960b65036a43694ace1bb26078f0f82340b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:37:47 +0000
Subject: [PATCH 49/61] fix: reject add_n_projected with a wrong number of
 coefficients

---
 t3f/riemannian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 3e87ef3..b4ed090 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -675,6 +675,10 @@ def add_n_projected(tt_objects, coef=None):
                                                               projection_on))
   if coef is not None:
     coef = tf.convert_to_tensor(coef, dtype=tt_objects[0].dtype)
+    if coef.get_shape()[0] not in (None, len(tt_objects)):
+      raise ValueError('The number of coefficients should match the number of '
+                       'tt_objects, got %s and %d.' % (coef.get_shape()[0],
+                                                       len(tt_objects)))
     if coef.get_shape().ndims > 1:
       # In batch case we will need to multiply each core by this coefficients
       # along the first axis. To do it need to reshape the coefs to match
-- 
2.43.0


From 20c28845aa2b0f7d4b85a5f13f06e720b43900b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:37:47 +0000
Subject: [PATCH 50/61] fix: reject a wrong number of delta-cores

---
 t3f/riemannian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index b4ed090..2c4b04e 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -845,6 +845,9 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
   cores = []
   dtype = tt.dtype
   num_dims = tt.ndims()
+  if len(deltas) != num_dims:
+    raise ValueError('The number of deltas should match the number of TT-cores,'
+                     ' got %d and %d.' % (len(deltas), num_dims))
   # TODO: add cache instead of mannually pasisng precomputed stuff?
   input_tensors = list(tt.tt_cores) + list(deltas)
   if left is not None:
-- 
2.43.0


From 0010ade0f0fea1d4bb9bd40c5cd0e46e67d193e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:37:47 +0000
Subject: [PATCH 51/61] fix: reject weights of a batch of another length

---
 t3f/batch_ops.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index 3cfdb2f..32dca7b 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -4,6 +4,7 @@ import tensorflow as tf
 from t3f.tensor_train_base import TensorTrainBase
 from t3f.tensor_train_batch import TensorTrainBatch
 from t3f import ops
+from t3f import shapes
 
 
 def concat_along_batch_dim(tt_list, name='t3f_concat_along_batch_dim'):
@@ -69,6 +70,10 @@ def multiply_along_batch_dim(batch_tt, weights,
   """
   with tf.name_scope(name):
     weights = tf.convert_to_tensor(weights, dtype=batch_tt.dtype)
+    if shapes.are_dims_different(weights.get_shape()[0], batch_tt.batch_size):
+      raise ValueError('The number of weights should match the batch size, got '
+                       '%s and %s.' % (weights.get_shape()[0],
+                                       batch_tt.batch_size))
     tt_cores = list(batch_tt.tt_cores)
     if batch_tt.is_tt_matrix():
       weights = weights[:, tf.newaxis, tf.newaxis, tf.newaxis, tf.newaxis]
-- 
2.43.0


From 58fbcd0487c0f0ab12fb7ec53db88881b6facb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:04:46 +0000
Subject: [PATCH 52/61] fix: accept a name in the NumPy replacement of
 tf.linalg.svd

---
 t3f/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/utils.py b/t3f/utils.py
index bf52752..6c20d8f 100644
--- a/t3f/utils.py
+++ b/t3f/utils.py
@@ -22,7 +22,7 @@ def replace_tf_svd_with_np_svd():
     return
   tf.original_svd = tf.linalg.svd
 
-  def my_svd(tensor, full_matrices=False, compute_uv=True):
+  def my_svd(tensor, full_matrices=False, compute_uv=True, name=None):
     dtype = tensor.dtype
     if not compute_uv:
       return tf.constant(np.linalg.svd(tensor, compute_uv=False))
-- 
2.43.0


From 901103d908a99b7548919b6763cadb59494d594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:04:46 +0000
Subject: [PATCH 53/61] fix: accept arrays in the NumPy replacement of
 tf.linalg.svd

---
 t3f/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/utils.py b/t3f/utils.py
index 6c20d8f..9a14c75 100644
--- a/t3f/utils.py
+++ b/t3f/utils.py
@@ -23,7 +23,7 @@ def replace_tf_svd_with_np_svd():
   tf.original_svd = tf.linalg.svd
 
   def my_svd(tensor, full_matrices=False, compute_uv=True, name=None):
-    dtype = tensor.dtype
+    tensor = tf.convert_to_tensor(tensor)
     if not compute_uv:
       return tf.constant(np.linalg.svd(tensor, compute_uv=False))
     u, s, v = np.linalg.svd(tensor, full_matrices, compute_uv)
-- 
2.43.0


From 629342e855ae69399cbd605bcb54c0b09ff8c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:04:46 +0000
Subject: [PATCH 54/61] fix: complex matrices in the NumPy replacement of
 tf.linalg.svd

---
 t3f/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/utils.py b/t3f/utils.py
index 9a14c75..bf41f5c 100644
--- a/t3f/utils.py
+++ b/t3f/utils.py
@@ -30,7 +30,7 @@ def replace_tf_svd_with_np_svd():
     # Converting numpy order of v dims to TF order.
     order = list(range(tensor.get_shape().ndims))
     order[-2], order[-1] = order[-1], order[-2]
-    v = tf.transpose(v, order)
+    v = tf.transpose(v, order, conjugate=True)
     return tf.constant(s), tf.constant(u), v
 
   tf.linalg.svd = my_svd
-- 
2.43.0


From 10d6040cf60d0c4b91592db4ac3c3b2dab6ffd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:05:49 +0000
Subject: [PATCH 55/61] fix: Kronecker-product functions for mode sizes unknown
 at the compilation stage

determinant, slog_determinant, inv and cholesky called ops.raw_shape, which
does not exist. They use shapes.raw_shape now, and powers of determinants
are computed from a tensor of sizes when the sizes are not known.
---
 t3f/kronecker.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index 3568715..8202124 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -3,7 +3,7 @@ import tensorflow as tf
 
 from t3f.tensor_train import TensorTrain
 from t3f.tensor_train_batch import TensorTrainBatch
-from t3f import ops
+from t3f import shapes
 
 
 def determinant(kron_a, name='t3f_kronecker_determinant'):
@@ -34,8 +34,8 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
   else:
-    i_shapes = ops.raw_shape(kron_a)[0].as_list()
-    j_shapes = ops.raw_shape(kron_a)[1].as_list()
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -56,8 +56,8 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
                                                  kron_a.dtype)
 
       det *= tf.pow(core_det, core_pow)
-      if is_odd_pow_rounded:
-        det *= tf.sign(core_det)
+      det *= tf.where(is_odd_pow_rounded, tf.sign(core_det),
+                      tf.ones_like(core_det))
     return det
 
 
@@ -89,8 +89,8 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
   else:
-    i_shapes = ops.raw_shape(kron_a)[0].as_list()
-    j_shapes = ops.raw_shape(kron_a)[1].as_list()
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -115,8 +115,8 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
       # core_pow can be infinite.
       logdet += tf.math.multiply_no_nan(core_pow, core_log_abs_det)
       det_sign *= core_det_sign**(core_pow)
-      if is_odd_pow_rounded:
-        det_sign *= core_det_sign
+      det_sign *= tf.where(is_odd_pow_rounded, core_det_sign,
+                           tf.ones_like(core_det_sign))
     return det_sign, logdet
 
 
@@ -148,8 +148,8 @@ def inv(kron_a, name='t3f_kronecker_inv'):
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
   else:
-    i_shapes = ops.raw_shape(kron_a)[0]
-    j_shapes = ops.raw_shape(kron_a)[1]
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -206,8 +206,8 @@ def cholesky(kron_a, name='t3f_kronecker_cholesky'):
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
   else:
-    i_shapes = ops.raw_shape(kron_a)[0]
-    j_shapes = ops.raw_shape(kron_a)[1]
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -239,15 +239,23 @@ def _core_power(i_shapes, core_idx, dtype):
   """Power of the determinant of a TT-core in the determinant of the matrix.
 
   Args:
-    i_shapes: a list of sizes of the (square) TT-cores.
+    i_shapes: sizes of the (square) TT-cores, a list or a tf.Tensor.
     core_idx: int, index of the TT-core.
     dtype: tf.DType of the TT-cores.
 
   Returns:
-    np.number of the given dtype, product of sizes of the other TT-cores.
+    number of the given dtype, product of sizes of the other TT-cores.
     bool, True if the product is odd but is too large to be an odd number in the
       given dtype (so the sign of a negative number to this power is lost).
   """
+  if tf.is_tensor(i_shapes):
+    other_sizes = tf.concat((i_shapes[:core_idx], i_shapes[core_idx + 1:]), 0)
+    core_pow = tf.reduce_prod(tf.cast(other_sizes, tf.float64))
+    core_pow = tf.cast(core_pow, dtype)
+    is_odd = tf.reduce_all(tf.equal(other_sizes % 2, 1))
+    is_rounded = core_pow >= 2.0 / np.finfo(dtype.as_numpy_dtype).eps
+    return core_pow, tf.logical_and(is_odd, is_rounded)
+
   other_sizes = i_shapes[:core_idx] + i_shapes[core_idx + 1:]
   # The product may not fit into integer types, and even into float ones.
   with np.errstate(over='ignore'):
-- 
2.43.0


From 948826791d04059c77ed4d5e0793616408f9a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:06:11 +0000
Subject: [PATCH 56/61] fix: inner product of a TT-matrix of unknown mode sizes
 and a sparse matrix

The static shape was used to split row and column numbers, which fails when
mode sizes are not known at the compilation stage.
---
 t3f/ops.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 9682f7e..1e39df7 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -463,12 +463,11 @@ def tt_sparse_flat_inner(tt_a, sparse_b):
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   if tt_a.is_tt_matrix():
     tt_a_elements = tf.ones((num_elements, 1, 1), dtype=tt_a.dtype)
-    # TODO: use t3f.shape is safer??
-    tensor_shape = tt_a.get_raw_shape()
+    tensor_shape = tf.cast(shapes.raw_shape(tt_a), tf.int64)
     row_idx_linear = tf.cast(sparse_b.indices[:, 0], tf.int64)
-    row_idx = utils.unravel_index(row_idx_linear, tf.cast(tensor_shape[0], tf.int64))
+    row_idx = utils.unravel_index(row_idx_linear, tensor_shape[0])
     col_idx_linear = tf.cast(sparse_b.indices[:, 1], tf.int64)
-    col_idx = utils.unravel_index(col_idx_linear, tf.cast(tensor_shape[1], tf.int64))
+    col_idx = utils.unravel_index(col_idx_linear, tensor_shape[1])
     for core_idx in range(tt_a.ndims()):
       curr_core = tt_a.tt_cores[core_idx]
       left_rank = a_ranks[core_idx]
-- 
2.43.0


From 31198c355b5fc881e73cff7c122e062d29cb1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:34:27 +0000
Subject: [PATCH 57/61] fix: cast of something that is not a TT-object raises
 ValueError

The type of the argument was only looked at after its TT-cores had been used,
so the documented ValueError was never raised.
---
 t3f/ops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 1e39df7..b3fa85d 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1270,6 +1270,10 @@ def cast(tt, dtype, name='t3f_cast'):
     TypeError: If `tt` cannot be cast to the `dtype`.
     ValueError: If `tt` is not a `TensorTrain` or `TensorTrainBatch`.
   """
+  if not isinstance(tt, TensorTrainBase):
+    raise ValueError('Unsupported type of input "%s", should be TensorTrain '
+                     'or TensorTrainBatch.' % (tt,))
+
   with tf.name_scope(name):
     res_cores = []
     cores = tt.tt_cores
-- 
2.43.0


From aeb59569d5a058628e988a1810af867a0b17dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:47:14 +0000
Subject: [PATCH 58/61] fix: don't take unknown sizes for different ones when
 comparing static shapes

Operations on two TT-objects compared the static shapes for equality.
A size known for only one of the objects made add, multiply, project,
project_sum, project_matmul and concat_along_batch_dim fail in a compiled
function.
---
 t3f/batch_ops.py  |  5 +++--
 t3f/ops.py        |  4 ++--
 t3f/riemannian.py |  6 +++---
 t3f/shapes.py     | 17 +++++++++++++++++
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index 32dca7b..baf3220 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -28,11 +28,12 @@ def concat_along_batch_dim(tt_list, name='t3f_concat_along_batch_dim'):
       raise ValueError('All objects in the list should be TTBatch objects, got '
                        '%s' % tt_list[batch_idx])
   for batch_idx in range(1, len(tt_list)):
-    if tt_list[batch_idx].get_raw_shape() != tt_list[0].get_raw_shape():
+    if shapes.are_raw_shapes_different(tt_list[batch_idx], tt_list[0]):
       raise ValueError('Shapes of all TT-batch objects should coincide, got %s '
                        'and %s' % (tt_list[0].get_raw_shape(),
                                    tt_list[batch_idx].get_raw_shape()))
-    if tt_list[batch_idx].get_tt_ranks() != tt_list[0].get_tt_ranks():
+    if not tt_list[batch_idx].get_tt_ranks().is_compatible_with(
+        tt_list[0].get_tt_ranks()):
       raise ValueError('TT-ranks of all TT-batch objects should coincide, got '
                        '%s and %s' % (tt_list[0].get_tt_ranks(),
                                       tt_list[batch_idx].get_tt_ranks()))
diff --git a/t3f/ops.py b/t3f/ops.py
index b3fa85d..ddd6a2a 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -745,7 +745,7 @@ def add(tt_a, tt_b, name='t3f_add'):
     raise ValueError('The arguments should be both TT-tensors or both '
                      'TT-matrices')
 
-  if tt_a.get_raw_shape() != tt_b.get_raw_shape():
+  if shapes.are_raw_shapes_different(tt_a, tt_b):
     raise ValueError('The arguments should have the same shape.')
 
   if not shapes.is_batch_broadcasting_possible(tt_a, tt_b):
@@ -842,7 +842,7 @@ def multiply(tt_left, right, name='t3f_multiply'):
         raise ValueError('The arguments should be both TT-tensors or both '
                          'TT-matrices')
 
-      if tt_left.get_raw_shape() != right.get_raw_shape():
+      if shapes.are_raw_shapes_different(tt_left, right):
         raise ValueError('The arguments should have the same shape.')
 
       out_batch_size = 1
diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 2c4b04e..bc42bcc 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -58,7 +58,7 @@ def project_sum(what, where, weights=None):
     raise ValueError('The first argument should be a TensorTrain object, got '
                      '"%s".' % where)
 
-  if where.get_raw_shape() != what.get_raw_shape():
+  if shapes.are_raw_shapes_different(where, what):
     raise ValueError('The shapes of the tensor we want to project and of the '
                      'tensor on which tangent space we want to project should '
                      'match, got %s and %s.' %
@@ -240,7 +240,7 @@ def project(what, where):
     raise ValueError('The first argument should be a TensorTrain object, got '
                      '"%s".' % where)
 
-  if where.get_raw_shape() != what.get_raw_shape():
+  if shapes.are_raw_shapes_different(where, what):
     raise ValueError('The shapes of the tensor we want to project and of the '
                      'tensor on which tangent space we want to project should '
                      'match, got %s and %s.' %
@@ -410,7 +410,7 @@ def project_matmul(what, where, matrix):
     raise ValueError('The first argument should be a TensorTrain object, got '
                      '"%s".' % where)
 
-  if where.get_raw_shape() != what.get_raw_shape():
+  if shapes.are_raw_shapes_different(where, what):
     raise ValueError('The shapes of the tensor we want to project and of the '
                      'tensor on which tangent space we want to project should '
                      'match, got %s and %s.' %
diff --git a/t3f/shapes.py b/t3f/shapes.py
index f6154a7..54188ea 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -243,6 +243,23 @@ def are_dims_different(dim_a, dim_b):
   return dim_a is not None and dim_b is not None and dim_a != dim_b
 
 
+def are_raw_shapes_different(tt_a, tt_b):
+  """Check that the static shapes of two TT-objects are known to be different.
+
+  Args:
+    tt_a: TensorTrain or TensorTrainBatch
+    tt_b: TensorTrain or TensorTrainBatch
+
+  Returns:
+    Bool, False if the sizes known for both of the objects coincide
+  """
+  raw_shape_a, raw_shape_b = tt_a.get_raw_shape(), tt_b.get_raw_shape()
+  if len(raw_shape_a) != len(raw_shape_b):
+    return True
+  return not all(a.is_compatible_with(b)
+                 for a, b in zip(raw_shape_a, raw_shape_b))
+
+
 def is_batch_broadcasting_possible(tt_a, tt_b):
   """Check that the batch broadcasting possible for the given batch sizes.
 
-- 
2.43.0


From 6fe9c5172c6e8dde7c4890e12f2006a034516065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:46 +0000
Subject: [PATCH 59/61] fix: keep lazy_shape integer for sizes between 2^63 and
 2^64

NumPy makes an array of floats of a signed and an unsigned 64-bit number,
so the number of rows was rounded.
---
 t3f/shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index 54188ea..92fc416 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -147,7 +147,10 @@ def lazy_shape(tt, name='t3f_lazy_shape'):
   with tf.name_scope(name):
     static_shape = tt.get_shape()
     if static_shape.is_fully_defined():
-      return np.array(static_shape.as_list())
+      sizes = static_shape.as_list()
+      # NumPy would turn a mix of signed and unsigned sizes into floats.
+      is_int64 = max(sizes) <= np.iinfo(np.int64).max
+      return np.array(sizes, dtype=np.int64 if is_int64 else object)
     else:
       return shape(tt)
 
-- 
2.43.0


From 2aa7b6d7246f83b865c599949ebe33dd1a452f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:46 +0000
Subject: [PATCH 60/61] fix: eval of a TT-object in the default session

tf.get_default_session does not exist in TensorFlow 2.
---
 t3f/tensor_train_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/tensor_train_base.py b/t3f/tensor_train_base.py
index 0bcb56e..b61f0ea 100644
--- a/t3f/tensor_train_base.py
+++ b/t3f/tensor_train_base.py
@@ -122,7 +122,7 @@ class TensorTrainBase(object):
     """
     # TODO: implement feed_dict
     if session is None:
-      session = tf.get_default_session()
+      session = tf.compat.v1.get_default_session()
     session.run(self.tt_cores)
 
   # TODO: do we need this?
-- 
2.43.0


From 8ae936d28e342bb2a153a09cda9c12be0aabbe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:46 +0000
Subject: [PATCH 61/61] fix: eval of a TT-object ignored feed_dict

---
 t3f/tensor_train_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/t3f/tensor_train_base.py b/t3f/tensor_train_base.py
index b61f0ea..29be194 100644
--- a/t3f/tensor_train_base.py
+++ b/t3f/tensor_train_base.py
@@ -120,10 +120,9 @@ class TensorTrainBase(object):
       session: (Optional.) The `Session` to be used to evaluate this sparse
         tensor. If none, the default session will be used.
     """
-    # TODO: implement feed_dict
     if session is None:
       session = tf.compat.v1.get_default_session()
-    session.run(self.tt_cores)
+    session.run(self.tt_cores, feed_dict=feed_dict)
 
   # TODO: do we need this?
   # @staticmethod
-- 
2.43.0

