From 41356724c62b38e26a9f5b1e30fd4644fcc5ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:04 +0000
Subject: [PATCH 01/46] fix: aitisa_resolve returns STATUS_SUCCESS instead of
 an indeterminate value

---
 src/core/tensor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index cd86624..38e692b 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -39,4 +39,5 @@ Status aitisa_resolve(Tensor input, DataType *dtype, Device *device,
   void *data_ = aitisa_tensor_data(input);
   *data = data_;
   *len = aitisa_tensor_size(input) * (*dtype).size;
+  return STATUS_SUCCESS;
 }
-- 
2.43.0


From 54443af6b96124f236d502e02c1903624f7ac3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:04 +0000
Subject: [PATCH 02/46] fix: release partially built tensors when creation
 fails

---
 src/core/shape.c   |  9 +++++++--
 src/core/storage.c |  5 ++++-
 src/core/tensor.c  | 21 +++++++++++++++++----
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/core/shape.c b/src/core/shape.c
index f822616..ad08fee 100644
--- a/src/core/shape.c
+++ b/src/core/shape.c
@@ -41,8 +41,13 @@ Status aitisa_create_shape(LayoutType layout_type, int64_t *dims, int64_t ndim,
   for (int64_t i = 0; i < ndim; ++i) {
     shape->dims[i] = dims[i];
   }
-  CHECK_STATUS(aitisa_create_default_layout(layout_type, ndim, &shape->layout));
-  return STATUS_SUCCESS;
+  Status status =
+      aitisa_create_default_layout(layout_type, ndim, &shape->layout);
+  if (status != STATUS_SUCCESS && shape->dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(shape->dims);
+    shape->dims = NULL;
+  }
+  return status;
 }
 
 Status aitisa_destroy_shape(Shape *shape){
diff --git a/src/core/storage.c b/src/core/storage.c
index c5e68d3..e2dd13b 100644
--- a/src/core/storage.c
+++ b/src/core/storage.c
@@ -17,7 +17,10 @@ Status aitisa_create_storage(DataType dtype, Device device, int64_t size,
     new_storage->data =
       aitisa_default_cpu_allocator()->raw_alloc(
           dtype.size * size);
-    if (!new_storage->data) return STATUS_ALLOC_FAILED;
+    if (!new_storage->data) {
+      aitisa_default_cpu_allocator()->raw_dealloc(new_storage);
+      return STATUS_ALLOC_FAILED;
+    }
   }
   *storage = new_storage;
   return STATUS_SUCCESS;
diff --git a/src/core/tensor.c b/src/core/tensor.c
index 38e692b..a037f51 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -11,11 +11,24 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
   tensor->size = size_of_dims(dims, ndim);
   tensor->offset = 0;
   if(data){
-    if(len/dtype.size != tensor->size) return STATUS_INVALID_ARGUMENT;
+    if(len/dtype.size != tensor->size){
+      aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  Status status =
+      aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
+  }
+  status =
+      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy_shape(&tensor->shape);
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
   }
-  CHECK_STATUS(aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape));
-  CHECK_STATUS(
-      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage));
   *output = tensor;
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From d97f58430bf0651f53877640fbd9995ee1822ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 03/46] fix: slice and duplicate: scalar input, begin+size
 overflow, and failures that leaked or set output

---
 src/basic/duplicate.c |  3 ++
 src/basic/slice.c     | 69 ++++++++++++++++++++++++++++++-------------
 2 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 114b248..023614f 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -10,6 +10,9 @@ Status aitisa_duplicate(const Tensor input, Tensor *output) {
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
   if (!begin || !size || !step) {
+    if (begin) aitisa_default_cpu_allocator()->raw_dealloc(begin);
+    if (size) aitisa_default_cpu_allocator()->raw_dealloc(size);
+    if (step) aitisa_default_cpu_allocator()->raw_dealloc(step);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim; i++) {
diff --git a/src/basic/slice.c b/src/basic/slice.c
index f2a4ac5..6868d62 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -24,6 +24,10 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   }
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims_temp);
+    return STATUS_ALLOC_FAILED;
+  }
   int last_idx = 0;
   for (int i = 0; i < in_ndim; i++) {
     if (out_dims_temp[i] > 0) {
@@ -40,7 +44,9 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, out_dims, out_ndim,
                          NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  }
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
   
@@ -53,7 +59,7 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   int64_t *in_dims = aitisa_tensor_dims(input);
   for (int i = 0; i < in_ndim; i++) {
     bool cond_begin = begin[i] < 0 || begin[i] >= in_dims[i];
-    bool cond_size  = size[i] < 0  || begin[i] + size[i] > in_dims[i];
+    bool cond_size  = size[i] < 0  || (int64_t)begin[i] + size[i] > in_dims[i];
     bool cond_step  = step[i] < 1;
     if (cond_begin || cond_size || cond_step) {
       return STATUS_INVALID_ARGUMENT;
@@ -86,6 +92,16 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
     }                                                                         \
   }
 
+// Choose slice kernel according to the data type
+static Status slice_dispatch(const Tensor input, int *begin, int *step,
+                             int64_t in_ndim, int64_t *index_recorder,
+                             int64_t *boundary, int64_t *offset_recorder,
+                             Tensor *output) {
+  DataType dtype = aitisa_tensor_data_type(input);
+  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, slice_kernel);
+  return STATUS_SUCCESS;
+}
+
 static Status slice_template(const Tensor input, int *begin, int *size,
                              int *step, Tensor *output) {
   int64_t in_ndim = aitisa_tensor_ndim(input);
@@ -101,25 +117,32 @@ static Status slice_template(const Tensor input, int *begin, int *size,
   // dimension
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * in_ndim);
-  if (!index_recorder || !boundary || !offset_recorder) {
-    return STATUS_ALLOC_FAILED;
+  Status status = STATUS_ALLOC_FAILED;
+  if (index_recorder && boundary && offset_recorder) {
+    for (int i = 0; i < in_ndim; i++) {
+      index_recorder[i] = begin[i];
+      boundary[i] = (int64_t)begin[i] + (int64_t)size[i] - 1;
+    }
+    if (in_ndim > 0) {
+      offset_recorder[in_ndim - 1] = 1;
+    }
+    for (int i = in_ndim - 2; i >= 0; i--) {
+      offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];
+    }
+    // Implement slice kernel
+    status = slice_dispatch(input, begin, step, in_ndim, index_recorder,
+                            boundary, offset_recorder, output);
   }
-  for (int i = 0; i < in_ndim; i++) {
-    index_recorder[i] = begin[i];
-    boundary[i] = (int64_t)begin[i] + (int64_t)size[i] - 1;
+  if (index_recorder) {
+    aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   }
-  offset_recorder[in_ndim - 1] = 1;
-  for (int i = in_ndim - 2; i >= 0; i--) {
-    offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];
+  if (boundary) {
+    aitisa_default_cpu_allocator()->raw_dealloc(boundary);
   }
-  // Implement slice kernel
-  DataType dtype = aitisa_tensor_data_type(input);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, slice_kernel);
-
-  aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
-  aitisa_default_cpu_allocator()->raw_dealloc(boundary);
-  aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  if (offset_recorder) {
+    aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
+  }
+  return status;
 }
 
 Status aitisa_slice(const Tensor input, int *begin, int *size, int *step,
@@ -127,9 +150,15 @@ Status aitisa_slice(const Tensor input, int *begin, int *size, int *step,
   // Make sure parameters are correct
   CHECK_STATUS(slice_check_parameters(input, begin, size, step));
   // Create output
-  CHECK_STATUS(slice_create_output(input, begin, size, step, output));
+  Tensor new_tensor;
+  CHECK_STATUS(slice_create_output(input, begin, size, step, &new_tensor));
   // Implement slice
   Status status;
-  status = slice_template(input, begin, size, step, output);
+  status = slice_template(input, begin, size, step, &new_tensor);
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  } else {
+    aitisa_destroy(&new_tensor);
+  }
   return status;
 }
-- 
2.43.0


From 5ed9b85a82ef8e577d852d0e7bff55a307240a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 04/46] fix: squeeze: reject axes out of range, accept repeated
 axes and zero-sized dimensions

---
 src/basic/squeeze.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 29b430b..6e7759b 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -10,7 +10,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis < 0) return STATUS_INVALID_ARGUMENT;
   if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (axis[i] < 0) {
+      if (axis[i] < 0 || axis[i] >= in_ndim) {
         return STATUS_INVALID_ARGUMENT;
       }
     }
@@ -27,14 +27,14 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis == 0) {
     for (int64_t i = 0; i < in_ndim; i++) {
       if (in_dims[i] == 1) {
-        processed_in_dims[i] = 0;
+        processed_in_dims[i] = -1;
         out_ndim--;
       }
     }
   } else if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (in_dims[axis[i]] == 1) {
-        processed_in_dims[axis[i]] = 0;
+      if (processed_in_dims[axis[i]] == 1) {
+        processed_in_dims[axis[i]] = -1;
         out_ndim--;
       }
     }
@@ -43,10 +43,13 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   // Create dims and ndim of output
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
-  if (!out_dims) return STATUS_ALLOC_FAILED;
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(processed_in_dims);
+    return STATUS_ALLOC_FAILED;
+  }
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
-    if (processed_in_dims[i] != 0) {
+    if (processed_in_dims[i] != -1) {
       out_dims[j++] = processed_in_dims[i];
     }
   }
-- 
2.43.0


From 77583cf65dbee9cedd76bd046edcb7e968913c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 05/46] fix: cast to the same data type produces the output it
 reports, and a failing cast releases it

---
 src/basic/cast.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/basic/cast.c b/src/basic/cast.c
index 3811ebf..33c2f75 100644
--- a/src/basic/cast.c
+++ b/src/basic/cast.c
@@ -72,12 +72,6 @@ static Status cast_template(const Tensor input, DataType out_dtype,
 }
 
 Status aitisa_cast(const Tensor input, DataType dtype, Tensor *output) {
-  // If the DataType of input and the DataType to cast to are identical,
-  // then do nothing.
-  DataType in_dtype = aitisa_tensor_data_type(input);
-  if (in_dtype.code == dtype.code) {
-    return STATUS_SUCCESS;
-  }
   // Create output
   Tensor new_tensor;
   Device device = aitisa_tensor_device(input);
@@ -86,9 +80,13 @@ Status aitisa_cast(const Tensor input, DataType dtype, Tensor *output) {
   int64_t out_ndim = aitisa_tensor_ndim(input);
   CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
                              NULL, 0, &new_tensor));
-  *output = new_tensor;
   // Implement cast
   Status status;
-  status = cast_template(input, dtype, output);
+  status = cast_template(input, dtype, &new_tensor);
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  } else {
+    aitisa_destroy(&new_tensor);
+  }
   return status;
 }
-- 
2.43.0


From 306ea2bea4186cf8942fdbde767c8daf2af56dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 06/46] fix: matmul rejects operands of different data types
 instead of reading out of bounds

---
 src/math/matmul.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 28af743..50bab3b 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -92,6 +92,10 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
     return STATUS_NOT_SUPPORTED;
   }
+  if (aitisa_tensor_data_type(tensor1).code !=
+      aitisa_tensor_data_type(tensor2).code) {
+    return STATUS_NOT_SUPPORTED;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   Status status = STATUS_SUCCESS;
-- 
2.43.0


From 8ad53faced233764e99e090fa04c1c8782f72450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:47 +0000
Subject: [PATCH 07/46] fix: batched matmul releases its temporaries when
 broadcasting or an allocation fails

---
 src/math/matmul.c | 132 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 105 insertions(+), 27 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 50bab3b..9dedb5e 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -7,6 +7,13 @@
 
 int64_t max_int64_(int64_t a, int64_t b) { return a > b ? a : b; }
 
+// release a temporary, which is NULL if its allocation failed
+static void release(void *ptr) {
+  if (ptr) {
+    aitisa_default_cpu_allocator()->raw_dealloc(ptr);
+  }
+}
+
 // get the strides of dims
 int64_t batch_strides(int64_t *dims, int64_t ndim, int64_t *strides,
                       int64_t nstride) {
@@ -190,12 +197,20 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor1 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) {
+      return STATUS_ALLOC_FAILED;
+    }
     for (int64_t i = 0; i < ndim_out; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor1, i);
     }
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    Tensor new_tensor;
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, &new_tensor);
+    if (status != STATUS_SUCCESS) {
+      release(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor1 - 2, aitisa_tensor_dims(tensor1),
                                   ndim_tensor1);
@@ -205,9 +220,17 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      release(Cs);
+      release(Bs);
+      release(As);
+      release(dims_out);
+      aitisa_destroy(&new_tensor);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
-    void *data_output = aitisa_tensor_data(*output);
+    void *data_output = aitisa_tensor_data(new_tensor);
     int64_t size_mat1 = dim0_tensor1 * dim1_tensor1;
     int64_t size_mat3 = dim0_tensor1 * dim1_tensor2;
     int64_t size_type = aitisa_tensor_data_type(tensor1).size;
@@ -217,14 +240,19 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                               dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                               n_batch);
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
     aitisa_default_cpu_allocator()->raw_dealloc(As);
     aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(&new_tensor);
+      return status;
+    }
+    *output = new_tensor;
   } else if (ndim_tensor1 == 1 && ndim_tensor2 >= 3) {
     // consider tensor1 as a matrix whose dim[0]=1;
     int64_t dim0_tensor1 = 1;
@@ -238,13 +266,21 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor2 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) {
+      return STATUS_ALLOC_FAILED;
+    }
     for (int64_t i = 0; i < ndim_out - 1; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor2, i);
     }
     dims_out[ndim_out - 1] = aitisa_tensor_dim(tensor2, ndim_tensor2 - 1);
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    Tensor new_tensor;
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, &new_tensor);
+    if (status != STATUS_SUCCESS) {
+      release(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor2 - 2, aitisa_tensor_dims(tensor2),
                                   ndim_tensor2);
@@ -254,9 +290,17 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      release(Cs);
+      release(Bs);
+      release(As);
+      release(dims_out);
+      aitisa_destroy(&new_tensor);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
-    void *data_output = aitisa_tensor_data(*output);
+    void *data_output = aitisa_tensor_data(new_tensor);
     int64_t size_mat2 = dim0_tensor2 * dim1_tensor2;
     int64_t size_mat3 = dim0_tensor1 * dim1_tensor2;
     int64_t size_type = aitisa_tensor_data_type(tensor1).size;
@@ -266,14 +310,19 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                               dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                               n_batch);
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
     aitisa_default_cpu_allocator()->raw_dealloc(As);
     aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(&new_tensor);
+      return status;
+    }
+    *output = new_tensor;
   } else if (ndim_tensor1 >= 3 && ndim_tensor2 >= 2 ||
              ndim_tensor1 >= 2 && ndim_tensor2 >= 3) {
     // tensor-tensor => batch matrix-matrix
@@ -288,25 +337,39 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = max_int64_(ndim_tensor1, ndim_tensor2);
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
-    CHECK_STATUS(aitisa_broadcast_array(
+    if (!dims_out) {
+      return STATUS_ALLOC_FAILED;
+    }
+    status = aitisa_broadcast_array(
         aitisa_tensor_dims(tensor1), max_int64_(ndim_tensor1 - 2, 0),
         aitisa_tensor_dims(tensor2), max_int64_(ndim_tensor2 - 2, 0), dims_out,
-        ndim_out - 2));
+        ndim_out - 2);
+    if (status != STATUS_SUCCESS) {
+      release(dims_out);
+      return status;
+    }
     dims_out[ndim_out - 2] = dim0_tensor1;
     dims_out[ndim_out - 1] = dim1_tensor2;
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    Tensor new_tensor;
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, &new_tensor);
+    if (status != STATUS_SUCCESS) {
+      release(dims_out);
+      return status;
+    }
     // strides of batches
     int64_t ndim_batch = ndim_out - 2;
     int64_t *strides_t1 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
     int64_t *strides_t2 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
-    batch_strides(aitisa_tensor_dims(tensor1), ndim_tensor1 - 2, strides_t1,
-                  ndim_batch);
-    batch_strides(aitisa_tensor_dims(tensor2), ndim_tensor2 - 2, strides_t2,
-                  ndim_batch);
+    if (strides_t1 && strides_t2) {
+      batch_strides(aitisa_tensor_dims(tensor1), ndim_tensor1 - 2, strides_t1,
+                    ndim_batch);
+      batch_strides(aitisa_tensor_dims(tensor2), ndim_tensor2 - 2, strides_t2,
+                    ndim_batch);
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_batch, dims_out, ndim_out);
     void **As =
@@ -315,9 +378,19 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs || !strides_t1 || !strides_t2) {
+      release(Cs);
+      release(Bs);
+      release(As);
+      release(strides_t2);
+      release(strides_t1);
+      release(dims_out);
+      aitisa_destroy(&new_tensor);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
-    void *data_output = aitisa_tensor_data(*output);
+    void *data_output = aitisa_tensor_data(new_tensor);
     int64_t size_mat1 = dim0_tensor1 * dim1_tensor1;
     int64_t size_mat2 = dim0_tensor2 * dim1_tensor2;
     int64_t size_mat3 = dim0_tensor1 * dim1_tensor2;
@@ -341,9 +414,9 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                               dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                               n_batch);
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
@@ -351,6 +424,11 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     aitisa_default_cpu_allocator()->raw_dealloc(strides_t2);
     aitisa_default_cpu_allocator()->raw_dealloc(strides_t1);
     aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(&new_tensor);
+      return status;
+    }
+    *output = new_tensor;
   } else {
     status = STATUS_INVALID_ARGUMENT;
   }
-- 
2.43.0


From 99a33b22a137b6fd9921cee5db9eb47aeb9fe92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:47 +0000
Subject: [PATCH 08/46] fix: dot with a scalar operand no longer rounds 64-bit
 integers through double

---
 src/math/dot.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index d9c4369..901a41f 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -22,16 +22,6 @@ static Status dot_template(DataType dtype, void *data1, void *data2,
   return status;
 }
 
-#define dot_get_value_kernel(typename, tensor, idx, value)      \
-  typename val = ((typename *)aitisa_tensor_data(tensor))[idx]; \
-  *value = (double)val;
-
-static Status dot_get_value(const Tensor tensor, int idx, double *value) {
-  DataType dtype = aitisa_tensor_data_type(tensor);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dot_get_value_kernel, tensor, idx, value);
-  return STATUS_SUCCESS;
-}
-
 static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t tensor1_ndim = aitisa_tensor_ndim(tensor1);
@@ -39,21 +29,24 @@ static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
   // Create a new tensor full of the scalar value
   int64_t out_ndim;
   int64_t *out_dims = NULL;
-  double value;
+  void *value;
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   if (tensor1_ndim > ndim_tensor2) {
     out_ndim = tensor1_ndim;
     out_dims = aitisa_tensor_dims(tensor1);
-    CHECK_STATUS(dot_get_value(tensor2, 0, &value));
+    value = aitisa_tensor_data(tensor2);
   } else {
     out_ndim = ndim_tensor2;
     out_dims = aitisa_tensor_dims(tensor2);
-    CHECK_STATUS(dot_get_value(tensor1, 0, &value));
+    value = aitisa_tensor_data(tensor1);
   }
   CHECK_STATUS(
-      aitisa_full(dtype, device, out_dims, out_ndim, value, &new_tensor));
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor));
+  for (int64_t i = 0; i < aitisa_tensor_size(new_tensor); i++) {
+    aitisa_tensor_set_item(new_tensor, i, value);
+  }
   // Implement tensor multiplication
   Status status;
   if (tensor1_ndim > ndim_tensor2) {
-- 
2.43.0


From 7b2c65b0a40923f2927cd67bc8396d82934eadf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 09/46] fix: dot releases its temporaries and output when an
 allocation fails

---
 src/math/dot.c | 95 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 65 insertions(+), 30 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 901a41f..7a950cd 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -22,6 +22,13 @@ static Status dot_template(DataType dtype, void *data1, void *data2,
   return status;
 }
 
+// release a temporary, which is NULL if its allocation failed
+static void release(void *ptr) {
+  if (ptr) {
+    aitisa_default_cpu_allocator()->raw_dealloc(ptr);
+  }
+}
+
 static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t tensor1_ndim = aitisa_tensor_ndim(tensor1);
@@ -106,11 +113,11 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   // LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
-  *output = new_tensor;
+  Status status =
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  CHECK_STATUS(status);
   // Make an index recorder of vectors in tensor1 then initialize it
   int *index_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder) * ndim_tensor1);
@@ -122,7 +129,8 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   int *step =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim_tensor1);
   if (!index_recorder || !size || !step) {
-    return STATUS_ALLOC_FAILED;
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
     index_recorder[i] = 0;
@@ -136,11 +144,16 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor vec2 = tensor2;
   Tensor vec1;
   Tensor result;
-  void *out_data = aitisa_tensor_data(*output);
-  int data_size = aitisa_tensor_data_type(*output).size;
+  void *out_data = aitisa_tensor_data(new_tensor);
+  int data_size = aitisa_tensor_data_type(new_tensor).size;
   for (int vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
-    CHECK_STATUS(aitisa_slice(tensor1, index_recorder, size, step, &vec1));
-    CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+    status = aitisa_slice(tensor1, index_recorder, size, step, &vec1);
+    if (status != STATUS_SUCCESS) goto cleanup;
+    status = vector_vector_dot(vec1, vec2, &result);
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(&vec1);
+      goto cleanup;
+    }
     // Store the result into output
     void *result_data = aitisa_tensor_data(result);
     memcpy((char *)out_data + vec_idx * data_size, result_data, data_size);
@@ -157,10 +170,16 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
     aitisa_destroy(&vec1);
     aitisa_destroy(&result);
   }
-  aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
-  aitisa_default_cpu_allocator()->raw_dealloc(size);
-  aitisa_default_cpu_allocator()->raw_dealloc(step);
-  return STATUS_SUCCESS;
+cleanup:
+  release(index_recorder);
+  release(size);
+  release(step);
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  } else {
+    aitisa_destroy(&new_tensor);
+  }
+  return status;
 }
 
 static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
@@ -195,11 +214,11 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
-  *output = new_tensor;
+  Status status =
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  CHECK_STATUS(status);
   // Make index recorders of vectors in tensor1 and tensor2 then initialize them
   int *index_recorder_t1 = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder_t1) * ndim_tensor1);
@@ -218,7 +237,8 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
                                                            ndim_tensor2);
   if (!index_recorder_t1 || !index_recorder_t2 || 
       !size_t1 || !size_t2 || !step_t1 || !step_t2) {
-    return STATUS_ALLOC_FAILED;
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
     index_recorder_t1[i] = 0;
@@ -240,15 +260,24 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor vec2;
   Tensor vec1;
   Tensor result;
-  void *out_data = aitisa_tensor_data(*output);
-  int data_size = aitisa_tensor_data_type(*output).size;
+  void *out_data = aitisa_tensor_data(new_tensor);
+  int data_size = aitisa_tensor_data_type(new_tensor).size;
   for (int vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
-    CHECK_STATUS(
-        aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1));
+    status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);
+    if (status != STATUS_SUCCESS) goto cleanup;
     for (int vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
-      CHECK_STATUS(
-          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2));
-      CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+      status =
+          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2);
+      if (status != STATUS_SUCCESS) {
+        aitisa_destroy(&vec1);
+        goto cleanup;
+      }
+      status = vector_vector_dot(vec1, vec2, &result);
+      if (status != STATUS_SUCCESS) {
+        aitisa_destroy(&vec1);
+        aitisa_destroy(&vec2);
+        goto cleanup;
+      }
       // Store the result into output
       void *result_data = aitisa_tensor_data(result);
       memcpy(
@@ -280,13 +309,19 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
     }
     aitisa_destroy(&vec1);
   }
-  aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t1);
-  aitisa_default_cpu_allocator()->raw_dealloc(size_t1);
-  aitisa_default_cpu_allocator()->raw_dealloc(step_t1);
-  aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t2);
-  aitisa_default_cpu_allocator()->raw_dealloc(size_t2);
-  aitisa_default_cpu_allocator()->raw_dealloc(step_t2);
-  return STATUS_SUCCESS;
+cleanup:
+  release(index_recorder_t1);
+  release(size_t1);
+  release(step_t1);
+  release(index_recorder_t2);
+  release(size_t2);
+  release(step_t2);
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  } else {
+    aitisa_destroy(&new_tensor);
+  }
+  return status;
 }
 
 Status aitisa_dot(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
-- 
2.43.0


From 926b0d3cf1d7e6e34b24f980672a4292bd551b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 10/46] fix: sqrt releases its output when it fails on a
 negative element

---
 src/math/sqrt.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/math/sqrt.c b/src/math/sqrt.c
index 54737bc..c5fa3c0 100644
--- a/src/math/sqrt.c
+++ b/src/math/sqrt.c
@@ -35,8 +35,14 @@ static Status sqrt_template(const Tensor input, Tensor *output) {
 
 Status aitisa_sqrt(const Tensor input, Tensor *output) {
   // Create output
-  CHECK_STATUS(sqrt_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(sqrt_create_output(input, &new_tensor));
   // Implement square root
-  Status status = sqrt_template(input, output);
+  Status status = sqrt_template(input, &new_tensor);
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  } else {
+    aitisa_destroy(&new_tensor);
+  }
   return status;
 }
-- 
2.43.0


From 52cfb0609f5bb1deb07b7043e7ebeecb2ffa2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 11/46] fix: sigmoid and tanh reject unsupported data types
 before creating an output

---
 src/nn/sigmoid.c | 3 +++
 src/nn/tanh.c    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nn/sigmoid.c b/src/nn/sigmoid.c
index e190ba2..36c315b 100644
--- a/src/nn/sigmoid.c
+++ b/src/nn/sigmoid.c
@@ -15,6 +15,9 @@ Status aitisa_sigmoid(const Tensor input, Tensor *output) {
   int64_t ndim = aitisa_tensor_ndim(input);
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(input);
+  if (dtype.code != TYPE_FLOAT && dtype.code != TYPE_DOUBLE) {
+    return STATUS_NOT_SUPPORTED;
+  }
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   CHECK_STATUS(
diff --git a/src/nn/tanh.c b/src/nn/tanh.c
index fb228ce..f88e2ff 100644
--- a/src/nn/tanh.c
+++ b/src/nn/tanh.c
@@ -16,6 +16,9 @@ Status aitisa_tanh(const Tensor input, Tensor *output) {
   int64_t ndim = aitisa_tensor_ndim(input);
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(input);
+  if (dtype.code != TYPE_FLOAT && dtype.code != TYPE_DOUBLE) {
+    return STATUS_NOT_SUPPORTED;
+  }
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   CHECK_STATUS(
-- 
2.43.0


From 888bd89736590bafca22ad5f6950c40d4f3e1725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 12/46] fix: tanh saturates for large inputs instead of
 returning NaN

---
 src/nn/tanh.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nn/tanh.c b/src/nn/tanh.c
index f88e2ff..7921b01 100644
--- a/src/nn/tanh.c
+++ b/src/nn/tanh.c
@@ -6,8 +6,7 @@
   typename *in_data = aitisa_tensor_data(input);                    \
   typename *out_data = aitisa_tensor_data(*output);                 \
   for (int64_t i = 0; i < size; i++) {                              \
-    out_data[i] = (typename)((exp(in_data[i]) - exp(-in_data[i]))   \
-                / (exp(in_data[i]) + exp(-in_data[i])));            \
+    out_data[i] = (typename)tanh(in_data[i]);                       \
   }
 
 Status aitisa_tanh(const Tensor input, Tensor *output) {
-- 
2.43.0


From ec4deb363005cd7e9e87665785d460972ece4876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 13/46] fix: softmax no longer overflows for large inputs or
 divides by zero for integer types

---
 src/nn/softmax.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index 0043a1a..79920f5 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -20,16 +20,19 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
 #define softmax_with_all_kernel(typename, input, output)              \
   typename *in_data = (typename *)aitisa_tensor_data(input);          \
   typename *out_data = (typename *)aitisa_tensor_data(*output);       \
-  /*calculate exp(in_data) and temporarily save them in out_data*/    \
   int64_t size = aitisa_tensor_size(input);                           \
+  /*subtract the maximum, so that exp does not overflow*/             \
+  double max = -INFINITY;                                             \
+  for(int64_t i=0; i<size; i++){                                      \
+    if(in_data[i] > max) max = in_data[i];                            \
+  }                                                                   \
   double total = 0;                                                   \
   for(int64_t i=0; i<size; i++){                                      \
-    out_data[i] = (typename)exp(in_data[i]);                          \
-    total += out_data[i];                                             \
+    total += exp(in_data[i] - max);                                   \
   }                                                                   \
   /*calculate the real softmax value for output*/                     \
   for(int64_t i=0; i<size; i++){                                      \
-    out_data[i] = (typename)(out_data[i] / total);                    \
+    out_data[i] = (typename)(exp(in_data[i] - max) / total);          \
   }
 
 static Status softmax_with_all(const Tensor input, Tensor *output){
@@ -54,21 +57,25 @@ static Status softmax_with_all(const Tensor input, Tensor *output){
     }                                                           \
     /*need a copy of linear _idx later*/                        \
     int64_t linear_idx_copy = linear_idx;                       \
+    /*subtract the maximum, so that exp does not overflow*/     \
+    double max = -INFINITY;                                     \
+    for(int64_t i=0; i<dims[axis]; i++){                        \
+      if(in_data[linear_idx] > max) max = in_data[linear_idx];  \
+      /*update linear_idx*/                                     \
+      linear_idx += element_offset;                             \
+    }                                                           \
+    linear_idx = linear_idx_copy;                               \
     /*implement softmax*/                                       \
     double total = 0;                                           \
     for(int64_t i=0; i<dims[axis]; i++){                        \
-      /*calculate the exp(in_data) and                          \
-        temporarily save them in out_data*/                     \
-      out_data[linear_idx] =                                    \
-        (typename)exp(in_data[linear_idx]);                     \
-      total += out_data[linear_idx];                            \
+      total += exp(in_data[linear_idx] - max);                  \
       /*update linear_idx*/                                     \
       linear_idx += element_offset;                             \
     }                                                           \
     linear_idx = linear_idx_copy;                               \
     for(int64_t i=0; i<dims[axis]; i++){                        \
       out_data[linear_idx] =                                    \
-        (typename)(out_data[linear_idx] / total);               \
+        (typename)(exp(in_data[linear_idx] - max) / total);     \
       /*update linear_idx*/                                     \
       linear_idx += element_offset;                             \
     }                                                           \
-- 
2.43.0


From 1acea87405b581a648ef8003b535a186ad31e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 14/46] fix: softmax leaves no output and no temporaries behind
 when it fails

---
 src/nn/softmax.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index 79920f5..45b8c6b 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -13,7 +13,9 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, dims, ndim, NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if(status == STATUS_SUCCESS){
+    *output = new_tensor;
+  }
   return status;
 }
 
@@ -112,6 +114,12 @@ static Status softmax_along_axis(const Tensor input, const int axis,
   int64_t *offset_recorder =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   if(!index_recorder || !offset_recorder){
+    if(index_recorder){
+      aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    }
+    if(offset_recorder){
+      aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
+    }
     return STATUS_ALLOC_FAILED;
   }
   for(int64_t i=0; i<ndim; i++){
@@ -142,17 +150,23 @@ Status aitisa_softmax(const Tensor input, const int axis,
   }
 
   // Create output tensor
-  CHECK_STATUS(softmax_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(softmax_create_output(input, &new_tensor));
 
   Status status;
   switch(axis){
     case -1:{
-      status = softmax_with_all(input, output);
+      status = softmax_with_all(input, &new_tensor);
       break;
     }
     default:{
-      status = softmax_along_axis(input, axis, output);
+      status = softmax_along_axis(input, axis, &new_tensor);
     }
   }
+  if(status == STATUS_SUCCESS){
+    *output = new_tensor;
+  }else{
+    aitisa_destroy(&new_tensor);
+  }
   return status;
 }
-- 
2.43.0


From ecfbbd0bbf6eb93fa047d14b0bca6ea1057f3adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 15/46] fix: element-wise arithmetic takes its scratch from the
 stack, not from unchecked malloc outside the allocator

---
 src/math/binary_op.c | 60 ++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index d58d6db..b69f14e 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -233,17 +233,14 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  // scratch for one element of any data type
+  union { int64_t integer; double real; } a, b, c;
   for (int i = 0; i < size; i++) {
-    aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
-    aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
-    aitisa_binary_op_func(dtype)(a, b, OP_ADD, c);
-    aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
+    aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, &a);
+    aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, &b);
+    aitisa_binary_op_func(dtype)(&a, &b, OP_ADD, &c);
+    aitisa_set_typed_array_value_func(dtype)(data_output, i, &c);
   }
-  free(a);
-  free(b);
-  free(c);
   return STATUS_SUCCESS;
 }
 
@@ -279,17 +276,14 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  // scratch for one element of any data type
+  union { int64_t integer; double real; } a, b, c;
   for (int i = 0; i < size; i++) {
-    aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
-    aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
-    aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);
-    aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
+    aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, &a);
+    aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, &b);
+    aitisa_binary_op_func(dtype)(&a, &b, OP_SUB, &c);
+    aitisa_set_typed_array_value_func(dtype)(data_output, i, &c);
   }
-  free(a);
-  free(b);
-  free(c);
   return STATUS_SUCCESS;
 }
 
@@ -325,17 +319,14 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  // scratch for one element of any data type
+  union { int64_t integer; double real; } a, b, c;
   for (int i = 0; i < size; i++) {
-    aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
-    aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
-    aitisa_binary_op_func(dtype)(a, b, OP_MUL, c);
-    aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
+    aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, &a);
+    aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, &b);
+    aitisa_binary_op_func(dtype)(&a, &b, OP_MUL, &c);
+    aitisa_set_typed_array_value_func(dtype)(data_output, i, &c);
   }
-  free(a);
-  free(b);
-  free(c);
   return STATUS_SUCCESS;
 }
 
@@ -371,16 +362,13 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  // scratch for one element of any data type
+  union { int64_t integer; double real; } a, b, c;
   for (int i = 0; i < size; i++) {
-    aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
-    aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
-    aitisa_binary_op_func(dtype)(a, b, OP_DIV, c);
-    aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
+    aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, &a);
+    aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, &b);
+    aitisa_binary_op_func(dtype)(&a, &b, OP_DIV, &c);
+    aitisa_set_typed_array_value_func(dtype)(data_output, i, &c);
   }
-  free(a);
-  free(b);
-  free(c);
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From e91bb844c595db1bcd8d2499b0d4b2ff16674845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 16/46] fix: div returns STATUS_MATH_ERROR where an integer
 division would kill the process

---
 src/math/binary_op.c | 34 ++++++++++++++++++++++++++++++++++
 src/math/binary_op.h |  1 +
 2 files changed, 35 insertions(+)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index b69f14e..eebfdcc 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -330,6 +330,36 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   return STATUS_SUCCESS;
 }
 
+// Whether an integer division of two arrays would trap: the divisor is zero, or
+// the quotient of the most negative value by -1 does not fit the type
+#define div_traps_kernel(typename, data1, data2, size, min)               \
+  for (int64_t i = 0; i < size; i++) {                                    \
+    typename dividend = ((typename *)data1)[i];                           \
+    typename divisor = ((typename *)data2)[i];                            \
+    if (divisor == 0 || (min && dividend == min && divisor == (typename)-1)) { \
+      return 1;                                                           \
+    }                                                                     \
+  }
+
+static int div_traps(DataType dtype, void *data1, void *data2, int64_t size) {
+  switch (dtype.code) {
+    case TYPE_INT8: div_traps_kernel(int8_t, data1, data2, size, 0); break;
+    case TYPE_UINT8: div_traps_kernel(uint8_t, data1, data2, size, 0); break;
+    case TYPE_INT16: div_traps_kernel(int16_t, data1, data2, size, 0); break;
+    case TYPE_UINT16: div_traps_kernel(uint16_t, data1, data2, size, 0); break;
+    case TYPE_INT32:
+      div_traps_kernel(int32_t, data1, data2, size, INT32_MIN);
+      break;
+    case TYPE_UINT32: div_traps_kernel(uint32_t, data1, data2, size, 0); break;
+    case TYPE_INT64:
+      div_traps_kernel(int64_t, data1, data2, size, INT64_MIN);
+      break;
+    case TYPE_UINT64: div_traps_kernel(uint64_t, data1, data2, size, 0); break;
+    default: break;
+  }
+  return 0;
+}
+
 Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   if (aitisa_tensor_device(tensor1).type != DEVICE_CPU ||
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
@@ -353,6 +383,10 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
       return STATUS_INVALID_ARGUMENT;
     }
   }
+  if (div_traps(aitisa_tensor_data_type(tensor1), aitisa_tensor_data(tensor1),
+                aitisa_tensor_data(tensor2), aitisa_tensor_size(tensor1))) {
+    return STATUS_MATH_ERROR;
+  }
   // create output
   CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
                              aitisa_tensor_device(tensor1),
diff --git a/src/math/binary_op.h b/src/math/binary_op.h
index 81561f0..d4daff3 100644
--- a/src/math/binary_op.h
+++ b/src/math/binary_op.h
@@ -78,6 +78,7 @@ AITISA_API_PUBLIC Status aitisa_mul(const Tensor tensor1, const Tensor tensor2,
  * @retval STATUS_TYPE_MISMATCH The datatype of two tensors should be consistent
  * @retval STATUS_NOT_SUPPORTED Device is not supported
  * @retval STATUS_INVALID_ARGUMENT The dimension of two tensors is not consistent
+ * @retval STATUS_MATH_ERROR An integer division has no result
  */
 AITISA_API_PUBLIC Status aitisa_div(const Tensor tensor1, const Tensor tensor2,
                                     Tensor *output);
-- 
2.43.0


From 5de4089e1b39c0ad84d345cbc6c6e2b0c3e899f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 17/46] fix: aitisa_conv returns STATUS_SUCCESS instead of an
 indeterminate value

---
 src/nn/conv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 4aeaa5d..1559599 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -127,6 +127,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+  return STATUS_SUCCESS;
 }
 
 /*
@@ -145,6 +146,7 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
     default:
       return STATUS_NOT_SUPPORTED;
   }
+  return STATUS_SUCCESS;
 }
 
 Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
-- 
2.43.0


From 56db5c53a1d753d0a9d6bec63dbdc615d73bf2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 18/46] fix: conv rejects filters and configurations that do
 not fit the input

---
 src/nn/conv.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 1559599..709992d 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -21,6 +21,36 @@ static void conv_output_dims(const int64_t *input_dims,
   }
 }
 
+/* Check the shapes and the configurations, before anything is created */
+static Status conv_check_parameters(const Tensor input, const Tensor filter,
+                                    const int *stride, const int *padding,
+                                    const int *dilation) {
+  if (aitisa_tensor_data_type(filter).code !=
+      aitisa_tensor_data_type(input).code) {
+    return STATUS_TYPE_MISMATCH;
+  }
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if (ndim < 3 || aitisa_tensor_ndim(filter) != ndim) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  int64_t *in_dims = aitisa_tensor_dims(input);
+  int64_t *fil_dims = aitisa_tensor_dims(filter);
+  if (fil_dims[1] != in_dims[1]) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  for (int64_t d = 0; d < ndim - 2; ++d) {
+    if (stride[d] < 1 || padding[d] < 0 || dilation[d] < 1) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+    // Check whether the kernel is larger than the padded input
+    int64_t kernel = dilation[d] * (fil_dims[2 + d] - 1) + 1;
+    if (kernel > in_dims[2 + d] + 2 * (int64_t)padding[d]) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  return STATUS_SUCCESS;
+}
+
 /* The implementation of convolution for the float data type */
 static Status aitisa_conv_float(const Tensor input, const Tensor filter,
                                 const int *stride, const int *padding,
@@ -140,6 +170,8 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
   DataType dtype = aitisa_tensor_data_type(input);
   switch (dtype.code) {
     case TYPE_FLOAT:
+      CHECK_STATUS(
+          conv_check_parameters(input, filter, stride, padding, dilation));
       CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
                                      groups, output_ptr));
       break;
-- 
2.43.0


From 8ea22b98cc2f29e3c0dbf57a21d64669548dd516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:41 +0000
Subject: [PATCH 19/46] fix: conv applies the groups it is given instead of
 ignoring them

---
 src/nn/conv.c | 15 +++++++++------
 src/nn/conv.h |  8 ++++----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 709992d..00f3d49 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -24,7 +24,7 @@ static void conv_output_dims(const int64_t *input_dims,
 /* Check the shapes and the configurations, before anything is created */
 static Status conv_check_parameters(const Tensor input, const Tensor filter,
                                     const int *stride, const int *padding,
-                                    const int *dilation) {
+                                    const int *dilation, const int groups) {
   if (aitisa_tensor_data_type(filter).code !=
       aitisa_tensor_data_type(input).code) {
     return STATUS_TYPE_MISMATCH;
@@ -35,7 +35,10 @@ static Status conv_check_parameters(const Tensor input, const Tensor filter,
   }
   int64_t *in_dims = aitisa_tensor_dims(input);
   int64_t *fil_dims = aitisa_tensor_dims(filter);
-  if (fil_dims[1] != in_dims[1]) {
+  if (groups < 1 || in_dims[1] % groups != 0 || fil_dims[0] % groups != 0) {
+    return STATUS_INVALID_ARGUMENT;
+  }
+  if (fil_dims[1] != in_dims[1] / groups) {
     return STATUS_DIMENSIONS_MISMATCH;
   }
   for (int64_t d = 0; d < ndim - 2; ++d) {
@@ -99,7 +102,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
 
   int64_t nbatch = aitisa_tensor_dim(input, 0);
-  int64_t in_chan = aitisa_tensor_dim(input, 1);
+  int64_t in_chan = aitisa_tensor_dim(filter, 1);  // of one group
   int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
   int64_t sdim = ndim - 2;
 
@@ -117,7 +120,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
 
         float tmp = 0.0;
         for (int64_t ic = 0; ic < in_chan; ++ic) {
-          in_coords[1] = ic;
+          in_coords[1] = oc / (out_chan / groups) * in_chan + ic;
           for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
             aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
             fil_coords[0] = oc;
@@ -170,8 +173,8 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
   DataType dtype = aitisa_tensor_data_type(input);
   switch (dtype.code) {
     case TYPE_FLOAT:
-      CHECK_STATUS(
-          conv_check_parameters(input, filter, stride, padding, dilation));
+      CHECK_STATUS(conv_check_parameters(input, filter, stride, padding,
+                                         dilation, groups));
       CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
                                      groups, output_ptr));
       break;
diff --git a/src/nn/conv.h b/src/nn/conv.h
index 30858b7..cd25027 100644
--- a/src/nn/conv.h
+++ b/src/nn/conv.h
@@ -8,16 +8,16 @@
  *
  * @param input The input tensor of a shape [num_batches, in_channels,
  *              in_spatial_shapes].
- * @param filter The filter tensor of a shape [out_channnels, in_channels,
- *               in_spatial_shapes].
+ * @param filter The filter tensor of a shape [out_channnels, in_channels /
+ *               groups, in_spatial_shapes].
  * @param stride The stride of a shape [spatial_shapes] each of which is >= 1.
  * @param padding The padding of a shape [spatial_shapes] each of which is >=
  *                0. The left and right of each dimension use the same padding *
  *                width.
  * @param dilation The dilation of a shape [spatial_shapes] each of which is
  *                 >= 1. This is a regular convolution if all values are 1.
- * @param groups An integer used to split input into groups, in_channels should
- *               be divisible by the number of groups.
+ * @param groups An integer used to split input into groups, in_channels and
+ *               out_channels should be divisible by the number of groups.
  * @param output The output tensor pointer of a shape [num_batches,
  *               out_channels, * * out_spatial_shapes].
  * @return Status The Status enum indicates whether the routine is OK.
-- 
2.43.0


From f4e750a6ae6715b05ce4e481a1a072a6e877f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:41 +0000
Subject: [PATCH 20/46] fix: conv releases its temporaries when an allocation
 fails

---
 src/nn/conv.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 00f3d49..15881bd 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -54,6 +54,11 @@ static Status conv_check_parameters(const Tensor input, const Tensor filter,
   return STATUS_SUCCESS;
 }
 
+/* Release a temporary, which is NULL if its allocation failed */
+static void conv_release(void *ptr) {
+  if (ptr) aitisa_default_cpu_allocator()->raw_dealloc(ptr);
+}
+
 /* The implementation of convolution for the float data type */
 static Status aitisa_conv_float(const Tensor input, const Tensor filter,
                                 const int *stride, const int *padding,
@@ -78,6 +83,11 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
   int64_t *out_strides =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
+  Status status = STATUS_ALLOC_FAILED;
+  if (!out_dims || !in_coords || !fil_coords || !out_coords || !tmp_coords ||
+      !in_strides || !fil_strides || !out_strides) {
+    goto cleanup;
+  }
 
   conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
 
@@ -85,8 +95,8 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  CHECK_STATUS(
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
+  status = aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor);
+  if (status != STATUS_SUCCESS) goto cleanup;
   *output_ptr = new_tensor;
 
   aitisa_get_all_strides(input, in_strides);
@@ -152,15 +162,16 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
     }
   }
 
-  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
-  return STATUS_SUCCESS;
+cleanup:
+  conv_release(out_dims);
+  conv_release(in_coords);
+  conv_release(fil_coords);
+  conv_release(out_coords);
+  conv_release(in_strides);
+  conv_release(fil_strides);
+  conv_release(out_strides);
+  conv_release(tmp_coords);
+  return status;
 }
 
 /*
-- 
2.43.0


From d17a3ccbde6e8b2230bcb0a7d7726b6fd4ef97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 21/46] fix: max pooling starts from the window's own elements,
 not from zero, and keeps 64-bit integers exact

---
 src/nn/pooling.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 255b3eb..e0cdded 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -4,13 +4,22 @@
 #include "src/nn/pooling.h"
 #include <math.h>
 
+/* A negative linear_idx stands for a padded position, whose value is 0. */
 #define pooling_kernel(typename)                      \
+  typename value = 0;                                 \
+  typename max_value = 0;                             \
+  if(linear_idx >= 0){                                \
+    value = ((typename*)in_data)[linear_idx];         \
+  }                                                   \
+  if(max_idx >= 0){                                   \
+    max_value = ((typename*)in_data)[max_idx];        \
+  }                                                   \
   if(!strcmp(mode, "avg")){                           \
-    temp += ((typename*)in_data)[linear_idx];         \
+    temp += value;                                    \
   }                                                   \
   else if (!strcmp(mode, "max")) {                    \
-    if (temp < ((typename*)in_data)[linear_idx]) {    \
-      temp = ((typename*)in_data)[linear_idx];        \
+    if (is_first || max_value < value) {              \
+      max_idx = linear_idx;                           \
     }                                                 \
   }
 
@@ -19,7 +28,8 @@
     ((typename*)out_data)[out_linear_idx] = (typename)(temp / window_size);   \
   }                                                                           \
   else if (!strcmp(mode, "max")) {                                            \
-    ((typename*)out_data)[out_linear_idx] = (typename)temp;                   \
+    ((typename*)out_data)[out_linear_idx] =                                   \
+      max_idx >= 0 ? ((typename*)in_data)[max_idx] : 0;                       \
   }
 
 
@@ -109,22 +119,22 @@ static Status pooling_double(const Tensor input, const char *mode,
           index[i] = k_head[i];
         }
         double temp = 0; 
+        int64_t max_idx = -1;
+        int is_first = 1;
         int hasElement = 1;
         while(hasElement){
           int64_t linear_idx = bc_stride;
-          int padded = 0;
           for(int64_t i=c_start; i<c_start+ndim-2; i++){
             if(0<=index[i] && index[i]<in_dims[i]){
               linear_idx += index[i] * strides[i];
             }else{
-              padded = 1;
+              // padding
+              linear_idx = -1;
               break;
             }
           }
-          // need to consider padding
-          if(!padded){
-            AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, pooling_kernel);
-          }
+          AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, pooling_kernel);
+          is_first = 0;
           // update index
           for(int64_t i=c_start+ndim-3; i>=c_start; i--){
             index[i] += dilation[i-c_start];
-- 
2.43.0


From 5fa892c5a5fd769c6a653b23b46c2ceb4502898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 22/46] fix: pooling rejects unknown modes and window
 parameters it cannot apply

---
 src/nn/pooling.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index e0cdded..9bfd603 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -33,6 +33,21 @@
   }
 
 
+static Status pooling_check_parameters(const char *mode, const int *ksize,
+                                       const int *stride, const int *padding,
+                                       const int *dilation,
+                                       int64_t spatial_ndim){
+  if(strcmp(mode, "avg") && strcmp(mode, "max")){
+    return STATUS_INVALID_ARGUMENT;
+  }
+  for(int64_t i = 0; i < spatial_ndim; i++){
+    if(ksize[i] < 1 || stride[i] < 1 || padding[i] < 0 || dilation[i] < 1){
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  return STATUS_SUCCESS;
+}
+
 static Status pooling_create_output(const Tensor input, int64_t *out_dims,
                                     const int *ksize,	  const int *stride,
                                     const int *padding, const int *dilation,
@@ -188,6 +203,9 @@ Status aitisa_pooling(const Tensor input, const char *mode,
     int64_t ndim = aitisa_tensor_ndim(input);
     if(ndim>2 && ndim<6){
       int axis = 1;
+      status = pooling_check_parameters(mode, ksize, stride, padding,
+                                        dilation, ndim - 2);
+      if(status != STATUS_SUCCESS) return status;
       status = pooling_double(input, mode, ksize, stride,
                                 padding, dilation, axis, output);
     }else{
-- 
2.43.0


From 537cdfa15c416a4c16bd15c7a7853ae40d200adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 23/46] fix: pooling releases its temporaries when it fails

---
 src/nn/pooling.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 9bfd603..0fa62e7 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -69,6 +69,17 @@ static Status pooling_create_output(const Tensor input, int64_t *out_dims,
     aitisa_create(dtype, device, out_dims, ndim, NULL, 0, output);
 }
 
+static void pooling_free(int64_t *out_dims, int64_t *index, int64_t *strides,
+                         int64_t *out_strides, int64_t *k_head,
+                         int64_t *k_tail){
+  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+  aitisa_default_cpu_allocator()->raw_dealloc(index);
+  aitisa_default_cpu_allocator()->raw_dealloc(k_head);
+  aitisa_default_cpu_allocator()->raw_dealloc(k_tail);
+  aitisa_default_cpu_allocator()->raw_dealloc(strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+}
+
 static Status pooling_double(const Tensor input, const char *mode,
                              const int *ksize,	 const int *stride,
                              const int *padding, const int *dilation,
@@ -88,17 +99,26 @@ static Status pooling_double(const Tensor input, const char *mode,
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_head)*ndim);
   int64_t *k_tail =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
+  if(!out_dims || !index || !strides || !out_strides || !k_head || !k_tail){
+    pooling_free(out_dims, index, strides, out_strides, k_head, k_tail);
+    return STATUS_ALLOC_FAILED;
+  }
   // Check whether the kernel window is larger than a channel
   for(int64_t i=0; i<ndim-2; i++){
     if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
+      pooling_free(out_dims, index, strides, out_strides, k_head, k_tail);
       return STATUS_INVALID_ARGUMENT;
     }
   }
   // Create output
   Tensor new_tensor;
-  CHECK_STATUS(
+  Status status =
     pooling_create_output(input, out_dims, ksize, stride,
-                   padding, dilation, axis, c_start, &new_tensor));
+                   padding, dilation, axis, c_start, &new_tensor);
+  if(status != STATUS_SUCCESS){
+    pooling_free(out_dims, index, strides, out_strides, k_head, k_tail);
+    return status;
+  }
   // Implement pooling
   int64_t window_size = 1;
   for(int64_t i=0; i<ndim-2; i++){
@@ -185,12 +205,7 @@ static Status pooling_double(const Tensor input, const char *mode,
   }
   *output = new_tensor;
   // Destroy temporary variables
-  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
-  aitisa_default_cpu_allocator()->raw_dealloc(index);
-  aitisa_default_cpu_allocator()->raw_dealloc(k_head);
-  aitisa_default_cpu_allocator()->raw_dealloc(k_tail);
-  aitisa_default_cpu_allocator()->raw_dealloc(strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+  pooling_free(out_dims, index, strides, out_strides, k_head, k_tail);
 
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From b2ddf8c2b240cf1ecd334ce05c0b6c51bc8bd05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 24/46] fix: batch_norm leaves no output and no temporaries
 behind when it fails

---
 src/nn/batch_norm.c | 263 +++++++++++++++++++++++++-------------------
 1 file changed, 148 insertions(+), 115 deletions(-)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index e1e71ba..cd3585f 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -7,6 +7,13 @@
 #include "src/math/binary_op.h"
 #include "src/math/sqrt.h"
 
+// Like CHECK_STATUS, but leaves through the label cleanup of the function
+#define CHECK_STATUS_CLEANUP(expr)               \
+  do {                                           \
+    status = (expr);                             \
+    if (status != STATUS_SUCCESS) goto cleanup;  \
+  } while (0)
+
 static Status batch_norm_check_parameters(const Tensor input, const int axis,
                                           const Tensor scale, const Tensor bias,
                                           const Tensor mean,
@@ -115,6 +122,8 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
                                          const Tensor bias, const Tensor mean,
                                          const Tensor denominator,
                                          Tensor *output) {
+  Status status = STATUS_SUCCESS;
+  Tensor temp0 = NULL, temp1 = NULL;
   int64_t *dims = aitisa_tensor_dims(input);
   int64_t batch_size = dims[0];
   int64_t ndim = 2;
@@ -122,35 +131,36 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) return STATUS_ALLOC_FAILED;
+  // Make parameters for squeeze
+  int64_t num_axis = 1;
+  int64_t *axis =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
+  if (!begin || !size || !step || !axis) {
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
+  }
   for (int64_t i = 0; i < ndim; i++) {
     begin[i] = 0;
     size[i] = dims[i];
     step[i] = 1;
   }
   size[0] = 1;
-  // Make parameters for squeeze
-  int64_t num_axis = 1;
-  int64_t *axis =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
-  if (!axis) return STATUS_ALLOC_FAILED;
   axis[0] = 0;
   // Implement 1d batch normalization without channel
   uint8_t ele_size = aitisa_tensor_data_type(input).size;
   char *out_data = aitisa_tensor_data(*output);
   for (int64_t s = 0; s < batch_size; s++) {
-    Tensor temp0, temp1;
-    CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-    CHECK_STATUS(aitisa_squeeze(temp0, axis, num_axis, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_sub(temp1, mean, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_div(temp0, denominator, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_mul(scale, temp1, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_add(temp0, bias, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
+    CHECK_STATUS_CLEANUP(aitisa_slice(input, begin, size, step, &temp0));
+    CHECK_STATUS_CLEANUP(aitisa_squeeze(temp0, axis, num_axis, &temp1));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
+    CHECK_STATUS_CLEANUP(aitisa_sub(temp1, mean, &temp0));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
+    CHECK_STATUS_CLEANUP(aitisa_div(temp0, denominator, &temp1));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
+    CHECK_STATUS_CLEANUP(aitisa_mul(scale, temp1, &temp0));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
+    CHECK_STATUS_CLEANUP(aitisa_add(temp0, bias, &temp1));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
     // Transport data to output
     int64_t size = aitisa_tensor_size(temp1);
     char *temp1_data = aitisa_tensor_data(temp1);
@@ -158,16 +168,19 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
       memcpy(out_data + s * size * ele_size + ele * ele_size,
              temp1_data + ele * ele_size, ele_size);
     }
-    CHECK_STATUS(aitisa_destroy(&temp1));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
     // Update begin
     begin[0]++;
   }
+cleanup:
+  aitisa_destroy(&temp0);
+  aitisa_destroy(&temp1);
   // Destroy parameters for slice and squeeze
   aitisa_default_cpu_allocator()->raw_dealloc(begin);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
   aitisa_default_cpu_allocator()->raw_dealloc(step);
   aitisa_default_cpu_allocator()->raw_dealloc(axis);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 static Status batch_norm_with_channel(const Tensor input, const int axis,
@@ -178,6 +191,8 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
                                       Tensor *output) {
   int64_t ndim = aitisa_tensor_ndim(input);
   if (axis != 1 && axis != ndim - 1) return STATUS_INVALID_ARGUMENT;
+  Status status = STATUS_SUCCESS;
+  Tensor temp0 = NULL, temp1 = NULL;
   int64_t *dims = aitisa_tensor_dims(input);
   int64_t batch_size = dims[0];
   int64_t channel_size = dims[axis];
@@ -185,28 +200,29 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !step || !size) return STATUS_ALLOC_FAILED;
-  for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    step[i] = 1;
-    size[i] = (int)(dims[i]);
-  }
-  size[0] = 1;
-  size[axis] = 1;
   // Make parameters for squeeze
   int64_t num_saxis = 2;
   int64_t *squeeze_axis = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*squeeze_axis) * num_saxis);
-  squeeze_axis[0] = 0;
-  squeeze_axis[1] = axis;
   // Make parameters for data transportation
   int64_t *index_recorder =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * ndim);
-  if (!index_recorder || !offset_recorder) {
-    return STATUS_ALLOC_FAILED;
+  if (!begin || !step || !size || !squeeze_axis || !index_recorder ||
+      !offset_recorder) {
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
   }
+  for (int64_t i = 0; i < ndim; i++) {
+    begin[i] = 0;
+    step[i] = 1;
+    size[i] = (int)(dims[i]);
+  }
+  size[0] = 1;
+  size[axis] = 1;
+  squeeze_axis[0] = 0;
+  squeeze_axis[1] = axis;
   for (int64_t i = 0; i < ndim; i++) {
     index_recorder[i] = 0;
   }
@@ -221,29 +237,31 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
     // Set index_recorder
     index_recorder[0] = s;
     for (int64_t c = 0; c < channel_size; c++) {
-      Tensor temp0, temp1;
       // Slice to get a channel
       begin[axis] = (int)c;  // set begin
-      CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-      CHECK_STATUS(aitisa_squeeze(temp0, squeeze_axis, num_saxis, &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
+      CHECK_STATUS_CLEANUP(aitisa_slice(input, begin, size, step, &temp0));
+      CHECK_STATUS_CLEANUP(aitisa_squeeze(temp0, squeeze_axis, num_saxis, &temp1));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
       // Implement the equation
-      CHECK_STATUS(aitisa_sub(temp1, mean_array[c], &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_div(temp0, denominator[c], &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_mul(scale_array[c], temp1, &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_add(temp0, bias_array[c], &temp1));
+      CHECK_STATUS_CLEANUP(aitisa_sub(temp1, mean_array[c], &temp0));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
+      CHECK_STATUS_CLEANUP(aitisa_div(temp0, denominator[c], &temp1));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
+      CHECK_STATUS_CLEANUP(aitisa_mul(scale_array[c], temp1, &temp0));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
+      CHECK_STATUS_CLEANUP(aitisa_add(temp0, bias_array[c], &temp1));
       // Transport data of temp1 to output
       index_recorder[axis] = c;
       batch_norm_transport(temp1, output, index_recorder, offset_recorder,
                            axis);
       // Destroy temp0 and temp1
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
     }
   }
+cleanup:
+  aitisa_destroy(&temp0);
+  aitisa_destroy(&temp1);
   // Destroy parameters for slice and squeeze
   aitisa_default_cpu_allocator()->raw_dealloc(begin);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
@@ -251,7 +269,25 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   aitisa_default_cpu_allocator()->raw_dealloc(squeeze_axis);
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  return status;
+}
+
+static Tensor *batch_norm_new_array(int64_t num_tensors) {
+  Tensor *array = aitisa_default_cpu_allocator()->raw_alloc(
+      sizeof(*array) * num_tensors);
+  if (!array) return NULL;
+  for (int64_t i = 0; i < num_tensors; i++) {
+    array[i] = NULL;
+  }
+  return array;
+}
+
+static void batch_norm_free_array(Tensor *array, int64_t num_tensors) {
+  if (!array) return;
+  for (int64_t i = 0; i < num_tensors; i++) {
+    aitisa_destroy(&array[i]);
+  }
+  aitisa_default_cpu_allocator()->raw_dealloc(array);
 }
 
 static Status get_intermediate_tensors(const Tensor input, const int axis,
@@ -261,6 +297,11 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
                                        const Tensor variance,
                                        const double epsilon,
                                        Tensor **denominator) {
+  Status status = STATUS_SUCCESS;
+  Tensor eps_tensor = NULL, sum = NULL;
+  Tensor *temp = NULL, *var_array = NULL;
+  int64_t *param_dims = NULL;
+  int64_t num_channels = 0;
   int64_t in_ndim = aitisa_tensor_ndim(input);
   DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
@@ -271,25 +312,21 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     *bias_array = NULL;
     *mean_array = NULL;
     // Get epsilon tensor
-    Tensor eps_tensor, temp;
     int64_t *eps_dims = aitisa_tensor_dims(variance);
     int64_t eps_ndim = aitisa_tensor_ndim(variance);
-    CHECK_STATUS(
+    CHECK_STATUS_CLEANUP(
         aitisa_full(dtype, device, eps_dims, eps_ndim, epsilon, &eps_tensor));
     // Get sqrt(variance+epsilon), denoted by denominator
-    CHECK_STATUS(aitisa_add(variance, eps_tensor, &temp));
-    CHECK_STATUS(aitisa_sqrt(temp, *denominator));
-    // Destroy epsilon and temp tensor
-    aitisa_destroy(&eps_tensor);
-    aitisa_destroy(&temp);
+    CHECK_STATUS_CLEANUP(aitisa_add(variance, eps_tensor, &sum));
+    CHECK_STATUS_CLEANUP(aitisa_sqrt(sum, *denominator));
   }else if (in_ndim > 2) {
     // The case with channel
     int64_t *in_dims = aitisa_tensor_dims(input);
-    int64_t num_channels = aitisa_tensor_dim(input, axis);
+    num_channels = aitisa_tensor_dim(input, axis);
     // Get dimensions of parameters including scale_array,
     // mean_array, bias_array and denominator
     int64_t param_ndim = in_ndim - 2;
-    int64_t *param_dims = aitisa_default_cpu_allocator()->raw_alloc(
+    param_dims = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(*param_dims) * param_ndim);
     if (!param_dims) return STATUS_ALLOC_FAILED;
     if (axis == 1) {
@@ -302,38 +339,31 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
       }
     }
     // Get epsilon tensor
-    Tensor eps_tensor;
-    CHECK_STATUS(aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
-                             &eps_tensor));
+    CHECK_STATUS_CLEANUP(aitisa_full(dtype, device, param_dims, param_ndim,
+                                     epsilon, &eps_tensor));
     // Get mean_array, scale_array, bias_array, denominator
     int64_t tensor_size = size_of_dims(param_dims, param_ndim);
     uint8_t ele_size = dtype.size;
-    *mean_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**mean_array) * num_channels);
-    *scale_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**scale_array) * num_channels);
-    *bias_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**bias_array) * num_channels);
-    *denominator = NULL;
-    *denominator = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**denominator) * num_channels);
-    Tensor *temp = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**temp) * num_channels); 
-    Tensor *var_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(*var_array) * num_channels);
+    *mean_array = batch_norm_new_array(num_channels);
+    *scale_array = batch_norm_new_array(num_channels);
+    *bias_array = batch_norm_new_array(num_channels);
+    *denominator = batch_norm_new_array(num_channels);
+    temp = batch_norm_new_array(num_channels);
+    var_array = batch_norm_new_array(num_channels);
     if (!*mean_array || !*scale_array || !*bias_array ||
-        !*denominator || !var_array) {
-      return STATUS_ALLOC_FAILED;
+        !*denominator || !temp || !var_array) {
+      status = STATUS_ALLOC_FAILED;
+      goto cleanup;
     } 
     for (uint32_t c = 0; c < num_channels; c++) {
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*mean_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*scale_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*bias_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &(var_array[c])));
+      CHECK_STATUS_CLEANUP(aitisa_create(dtype, device, param_dims, param_ndim,
+                                         NULL, 0, &((*mean_array)[c])));
+      CHECK_STATUS_CLEANUP(aitisa_create(dtype, device, param_dims, param_ndim,
+                                         NULL, 0, &((*scale_array)[c])));
+      CHECK_STATUS_CLEANUP(aitisa_create(dtype, device, param_dims, param_ndim,
+                                         NULL, 0, &((*bias_array)[c])));
+      CHECK_STATUS_CLEANUP(aitisa_create(dtype, device, param_dims, param_ndim,
+                                         NULL, 0, &(var_array[c])));
       // Repeatedly copy data to array
       char *mean_array_c_data = aitisa_tensor_data((*mean_array)[c]);
       char *mean_data = aitisa_tensor_data(mean);
@@ -354,19 +384,17 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
                (void *)(var_data + c * ele_size), ele_size);
       }
       // sqrt(var_array[c] + epsilon_tensor)
-      CHECK_STATUS(aitisa_add(var_array[c], eps_tensor, &(temp[c])));
-      CHECK_STATUS(aitisa_sqrt(temp[c], &((*denominator)[c])));
-      aitisa_destroy(&(var_array[c]));
+      CHECK_STATUS_CLEANUP(aitisa_add(var_array[c], eps_tensor, &(temp[c])));
+      CHECK_STATUS_CLEANUP(aitisa_sqrt(temp[c], &((*denominator)[c])));
     }
-    aitisa_destroy(&eps_tensor);
-    aitisa_default_cpu_allocator()->raw_dealloc(var_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(param_dims); 
-    for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&temp[i]);
-    }
-    aitisa_default_cpu_allocator()->raw_dealloc(temp);
   }
-  return STATUS_SUCCESS;
+cleanup:
+  if (eps_tensor) aitisa_destroy(&eps_tensor);
+  if (sum) aitisa_destroy(&sum);
+  batch_norm_free_array(var_array, num_channels);
+  batch_norm_free_array(temp, num_channels);
+  if (param_dims) aitisa_default_cpu_allocator()->raw_dealloc(param_dims);
+  return status;
 }
 
 Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
@@ -377,40 +405,45 @@ Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
   CHECK_STATUS(batch_norm_check_parameters(input, axis, scale, bias, mean,
                                            variance, epsilon));
   // Create output
-  CHECK_STATUS(batch_norm_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(batch_norm_create_output(input, &new_tensor));
   // Implement batch normalization
   Status status;
   int64_t ndim = aitisa_tensor_ndim(input);
-  Tensor *scale_array, *bias_array, *mean_array, *denominators;
+  Tensor *scale_array = NULL, *bias_array = NULL, *mean_array = NULL;
+  Tensor *denominators = NULL;
   if (ndim == 2) {
     // Get denominator which is sqrt(variance+epsilon)
-    Tensor denominator;
+    Tensor denominator = NULL;
     Tensor *denominator_ptr = &denominator;
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominator_ptr));
-    status = batch_norm_without_channel(input, scale, bias, mean, denominator,
-                                        output);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array,
+                                      bias, &bias_array, mean, &mean_array,
+                                      variance, epsilon, &denominator_ptr);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_without_channel(input, scale, bias, mean, denominator,
+                                          &new_tensor);
+    }
     aitisa_destroy(&denominator);
   } else if (ndim > 2 && ndim < 6) {
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominators));
-    status = batch_norm_with_channel(input, axis, scale_array, bias_array,
-                                     mean_array, denominators, output);
-    int64_t num_channels = aitisa_tensor_dim(input, axis);
-    for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&scale_array[i]);
-      aitisa_destroy(&bias_array[i]);
-      aitisa_destroy(&mean_array[i]);
-      aitisa_destroy(&denominators[i]);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array,
+                                      bias, &bias_array, mean, &mean_array,
+                                      variance, epsilon, &denominators);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_with_channel(input, axis, scale_array, bias_array,
+                                       mean_array, denominators, &new_tensor);
     }
-    aitisa_default_cpu_allocator()->raw_dealloc(scale_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(bias_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(mean_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(denominators);
+    int64_t num_channels = aitisa_tensor_dim(input, axis);
+    batch_norm_free_array(scale_array, num_channels);
+    batch_norm_free_array(bias_array, num_channels);
+    batch_norm_free_array(mean_array, num_channels);
+    batch_norm_free_array(denominators, num_channels);
   } else {
     status = STATUS_DIMENSIONS_MISMATCH;
   }
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
-- 
2.43.0


From f8de2d4e7aa0de1d4f18f3a9156721ae502972b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 25/46] fix: dropout rounds the rate to a percentage instead of
 truncating it

---
 src/nn/dropout.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nn/dropout.c b/src/nn/dropout.c
index 1eea647..24e5be5 100644
--- a/src/nn/dropout.c
+++ b/src/nn/dropout.c
@@ -18,7 +18,8 @@ static Status dropout_template(Tensor *tensor, const double rate) {
   DataType dtype = aitisa_tensor_data_type(*tensor);
   Status status = STATUS_SUCCESS;
   srand(time(NULL));
-  int rate_line = (int)(rate * 100);
+  // Round, since e.g. 0.29 * 100 is slightly less than 29
+  int rate_line = (int)(rate * 100 + 0.5);
   AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dropout_kernel);
   return status;
 }
-- 
2.43.0


From dc756d76ecd4edb31055e2a451b80b268bec4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 26/46] fix: assigning auto_test inputs releases the old
 counter and survives self-assignment and moved-from operands

---
 auto_test/sample.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/auto_test/sample.cpp b/auto_test/sample.cpp
index f38c827..7536187 100644
--- a/auto_test/sample.cpp
+++ b/auto_test/sample.cpp
@@ -25,7 +25,7 @@ Unary_Input::Unary_Input(Unary_Input& input):
   ndim_(input.ndim()), dims_(input.dims()), dtype_(input.dtype()), 
   device_(input.device()), data_(input.data()), len_(input.len()),
   count_(input.count()) {
-  (*count_)++;
+  if(count_) (*count_)++;
 }
 
 Unary_Input::Unary_Input(Unary_Input && input): 
@@ -36,10 +36,11 @@ Unary_Input::Unary_Input(Unary_Input && input):
 }
 
 Unary_Input & Unary_Input::operator=(Unary_Input& right){
-  (*(this->count_))--;
-  if(*(this->count_) == 0){
+  if(this == &right) return *this;
+  if(this->count_ && --(*(this->count_)) == 0){
     delete [] this->dims_;
     delete [] (char*)this->data_;
+    delete this->count_;
   }
   this->ndim_ = right.ndim();
   this->dims_ = right.dims();
@@ -48,7 +49,7 @@ Unary_Input & Unary_Input::operator=(Unary_Input& right){
   this->len_ = right.len();
   this->data_ = right.data();
   this->count_ = right.count();
-  (*(this->count_))++;
+  if(this->count_) (*(this->count_))++;
   return *this;
 }
 
@@ -86,7 +87,7 @@ Binary_Input::Binary_Input(Binary_Input & input):
   ndim2_(input.ndim2()), dims2_(input.dims2()), dtype2_(input.dtype2()), 
   device2_(input.device2()), data2_(input.data2()), len2_(input.len2()),
   count_(input.count()) {
-  (*count_)++;
+  if(count_) (*count_)++;
 }
 
 Binary_Input::Binary_Input(Binary_Input && input): 
@@ -99,12 +100,13 @@ Binary_Input::Binary_Input(Binary_Input && input):
 }
 
 Binary_Input & Binary_Input::operator=(Binary_Input& right){
-  (*(this->count_))--;
-  if(*(this->count_) == 0){
+  if(this == &right) return *this;
+  if(this->count_ && --(*(this->count_)) == 0){
     delete [] this->dims1_;
     delete [] this->dims2_;
     delete [] (char*)this->data1_;
     delete [] (char*)this->data2_;
+    delete this->count_;
   }
   this->ndim1_ = right.ndim1();
   this->ndim2_ = right.ndim2();
@@ -119,7 +121,7 @@ Binary_Input & Binary_Input::operator=(Binary_Input& right){
   this->data1_ = right.data1();
   this->data2_ = right.data2();
   this->count_ = right.count();
-  (*(this->count_))++;
+  if(this->count_) (*(this->count_))++;
   return *this;
 }
 
@@ -127,7 +129,7 @@ Result::Result(Result& result):
   ndim_(result.ndim()), dims_(result.dims()), dtype_(result.dtype()),
   device_(result.device()), data_(result.data()), len_(result.len()),
   count_(result.count()){
-  (*count_)++;
+  if(count_) (*count_)++;
 }
 
 Result::Result(Result && result):
-- 
2.43.0


From db79bfc558ebaa7f12957e974f0199e21af4d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 27/46] fix: auto_test results release their buffers and
 counter, and can be assigned

---
 auto_test/sample.cpp | 36 ++++++++++++++++++++++++++++++++----
 auto_test/sample.h   | 12 +++---------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/auto_test/sample.cpp b/auto_test/sample.cpp
index 7536187..0d0644c 100644
--- a/auto_test/sample.cpp
+++ b/auto_test/sample.cpp
@@ -139,16 +139,44 @@ Result::Result(Result && result):
   result.to_nullptr();
 }
 
+Result & Result::operator=(Result& right){
+  if(this == &right) return *this;
+  release();
+  this->ndim_ = right.ndim();
+  this->dims_ = right.dims();
+  this->dtype_ = right.dtype();
+  this->device_ = right.device();
+  this->data_ = right.data();
+  this->len_ = right.len();
+  this->count_ = right.count();
+  if(this->count_) (*(this->count_))++;
+  return *this;
+}
+
+void Result::release() {
+  if(count_ && --(*count_) == 0){
+    delete [] dims_;
+    delete [] (char*)data_;
+    delete count_;
+  }
+}
+
 void Result::set_result(int64_t ndim, int64_t *dims, int dtype, 
                         int device, void *data, unsigned int len) {
+  // Copy before releasing, since dims and data may be our own
+  int64_t *new_dims = new int64_t[ndim];
+  void *new_data = (void*) new char[len];
+  memcpy(new_dims, dims, ndim*sizeof(int64_t));
+  memcpy(new_data, data, len);
+  release();
   ndim_ = ndim;
   dtype_ = dtype;
   device_ = device;
   len_ = len;
-  dims_ = new int64_t[ndim];
-  data_ = (void*) new char[len];
-  memcpy(dims_, dims, ndim*sizeof(int64_t));
-  memcpy(data_, data, len);
+  dims_ = new_dims;
+  data_ = new_data;
+  count_ = new int;
+  *count_ = 1;
 }
 
 } // namespace aitisa_api
\ No newline at end of file
diff --git a/auto_test/sample.h b/auto_test/sample.h
index 3a6252c..f8e21a5 100644
--- a/auto_test/sample.h
+++ b/auto_test/sample.h
@@ -121,15 +121,8 @@ public:
   Result() { count_ = new int; *count_ = 1;}
   Result(Result & result);
   Result(Result && result);
-  virtual ~Result() {
-    if(count_){
-      (*count_)--;
-      if(*count_ == 0){
-        delete [] dims_;
-        delete [] (char*)data_;
-      }
-    }
-  }
+  virtual ~Result() { release(); }
+  Result & operator=(Result& right);
   int dtype() const { return dtype_; }
   int device() const { return device_; }
   int64_t ndim() const { return ndim_; }
@@ -145,6 +138,7 @@ public:
     count_ = nullptr;
   }
 private:
+  void release();
   int64_t ndim_ = 0;
   int64_t *dims_ = nullptr;
   int dtype_ = 0;
-- 
2.43.0


From e2fad5ebd24400a75b71a71ae73f4751ea6e413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 28/46] fix: get_binary_sample no longer frees the data of the
 input it returns

---
 auto_test/sample.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auto_test/sample.h b/auto_test/sample.h
index f8e21a5..7e38e06 100644
--- a/auto_test/sample.h
+++ b/auto_test/sample.h
@@ -198,9 +198,12 @@ Sample<Binary_Input> get_binary_sample(int sample_num){
   device1 = aitisa_int_to_device(input.device1());
   device2 = aitisa_int_to_device(input.device2());
   aitisa_create(dtype1, device1, input.dims1(), input.ndim1(), 
-                input.data1(), input.len1(), &tensor_in1);
+                nullptr, 0, &tensor_in1);
   aitisa_create(dtype2, device2, input.dims2(), input.ndim2(), 
-                input.data2(), input.len2(), &tensor_in2);
+                nullptr, 0, &tensor_in2);
+  // The tensors own their data, so that the input keeps its own
+  memcpy(aitisa_tensor_data(tensor_in1), input.data1(), input.len1());
+  memcpy(aitisa_tensor_data(tensor_in2), input.data2(), input.len2());
   TestType::aitisa_kernel(tensor_in1, tensor_in2, &tensor_out);
   aitisa_resolve(tensor_out, &dtype_out, &device_out, 
                  &dims_out, &ndim_out, &data_out, &len_out);
-- 
2.43.0


From 4cafce82e740850f528df2d8ec927c557f69ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 29/46] fix: convolution with very large padding computes its
 output size in 64 bits

---
 src/nn/conv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 15881bd..9bd3ab1 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -16,7 +16,7 @@ static void conv_output_dims(const int64_t *input_dims,
   output_dims[1] = filter_dims[0];
   for (int64_t d = 2; d < ndim; ++d) {
     int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
+    output_dims[d] = (input_dims[d] + (2 * (int64_t)padding[d - 2])
                         - kernel) / stride[d - 2] + 1;
   }
 }
-- 
2.43.0


From 473ded06dc4da86b2c90ec59f67f033a295f4e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 30/46] fix: pooling computes window extents in 64 bits, so
 large kernels, dilations and paddings do not wrap

---
 src/nn/pooling.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 0fa62e7..531cd1d 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -59,7 +59,7 @@ static Status pooling_create_output(const Tensor input, int64_t *out_dims,
   out_dims[axis] = in_dims[axis];
   for(int64_t i = c_start; i < c_start + ndim - 2; i++){
     double temp = in_dims[i] + 2.0 * padding[i - c_start] -
-                  dilation[i - c_start] * (ksize[i - c_start] - 1);
+                  (double)dilation[i - c_start] * (ksize[i - c_start] - 1);
     out_dims[i] = (int64_t)floor((temp-1)/stride[i-c_start] + 1 );
   }
   DataType dtype = aitisa_tensor_data_type(input);
@@ -105,7 +105,8 @@ static Status pooling_double(const Tensor input, const char *mode,
   }
   // Check whether the kernel window is larger than a channel
   for(int64_t i=0; i<ndim-2; i++){
-    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
+    if((int64_t)(ksize[i]-1)*dilation[i]+1 >
+       2*(int64_t)padding[i]+in_dims[i+c_start]){
       pooling_free(out_dims, index, strides, out_strides, k_head, k_tail);
       return STATUS_INVALID_ARGUMENT;
     }
@@ -144,7 +145,7 @@ static Status pooling_double(const Tensor input, const char *mode,
       // Set k_head and k_tail according to padding and dilation
       for(int64_t i=c_start; i<c_start+ndim-2; i++){
         k_head[i] = 0 - padding[i-c_start];
-        k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+        k_tail[i] = k_head[i]+(int64_t)(ksize[i-c_start]-1)*dilation[i-c_start];
       }
       int window_idx = 0;
       int hasWindow = 1;
@@ -189,12 +190,12 @@ static Status pooling_double(const Tensor input, const char *mode,
         // update k_head and k_tail
         for(int64_t i=c_start+ndim-3; i>=c_start; i--){
           k_head[i] = k_head[i] + stride[i-c_start];
-          k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+          k_tail[i] = k_head[i]+(int64_t)(ksize[i-c_start]-1)*dilation[i-c_start];
           if(k_tail[i] > padding[i-c_start]+in_dims[i]-1){
             // judge if there is still window
             if(i == c_start) hasWindow = 0;
             k_head[i] = - padding[i-c_start];
-            k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+            k_tail[i] = k_head[i]+(int64_t)(ksize[i-c_start]-1)*dilation[i-c_start];
           }else{
             break;
           }
-- 
2.43.0


From dd5ee320ba1fc3090e3429c136f36403f2b23d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:00 +0000
Subject: [PATCH 31/46] fix: aitisa_create rejects negative dimensions and
 sizes that overflow

---
 src/core/tensor.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index a037f51..bc1eeb7 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -3,8 +3,20 @@
 #include "src/core/utils.h"
 // #include <stdio.h>
 
+/* Check that every dimension is non-negative and the bytes can be counted */
+static Status check_dims(DataType dtype, int64_t *dims, int64_t ndim) {
+  int64_t bytes = dtype.size;
+  for (int64_t i = 0; i < ndim; ++i) {
+    if (dims[i] < 0) return STATUS_INVALID_ARGUMENT;
+    if (dims[i] > 0 && bytes > INT64_MAX / dims[i]) return STATUS_ALLOC_FAILED;
+    bytes *= dims[i];
+  }
+  return STATUS_SUCCESS;
+}
+
 Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim, 
                      void *data, unsigned int len, Tensor *output) {
+  CHECK_STATUS(check_dims(dtype, dims, ndim));
   Tensor tensor;
   tensor = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tensor));
   if (!tensor) return STATUS_ALLOC_FAILED;
-- 
2.43.0


From f1129f8a1b91228e80c818736fd58195cf5b8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:00 +0000
Subject: [PATCH 32/46] fix: full and the binary operations count elements in
 64 bits

---
 src/basic/factories.c | 2 +-
 src/math/binary_op.c  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/basic/factories.c b/src/basic/factories.c
index ce0b7d3..5038bad 100644
--- a/src/basic/factories.c
+++ b/src/basic/factories.c
@@ -7,7 +7,7 @@ Status aitisa_full(DataType dtype, Device device, int64_t *dims, int64_t ndim,
       aitisa_create(dtype, device,  dims, ndim, NULL, 0, &new_tensor));
   int64_t size = aitisa_tensor_size(new_tensor);
   aitisa_castto_typed_value_func(dtype)(&value, &value);
-  for (int i = 0; i < size; ++i) {
+  for (int64_t i = 0; i < size; ++i) {
     aitisa_tensor_set_item(new_tensor, i, &value);
   }
   *output = new_tensor;
diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index eebfdcc..cfc17d5 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -235,7 +235,7 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   // scratch for one element of any data type
   union { int64_t integer; double real; } a, b, c;
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, &a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, &b);
     aitisa_binary_op_func(dtype)(&a, &b, OP_ADD, &c);
@@ -278,7 +278,7 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   // scratch for one element of any data type
   union { int64_t integer; double real; } a, b, c;
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, &a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, &b);
     aitisa_binary_op_func(dtype)(&a, &b, OP_SUB, &c);
@@ -321,7 +321,7 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   // scratch for one element of any data type
   union { int64_t integer; double real; } a, b, c;
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, &a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, &b);
     aitisa_binary_op_func(dtype)(&a, &b, OP_MUL, &c);
@@ -398,7 +398,7 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   // scratch for one element of any data type
   union { int64_t integer; double real; } a, b, c;
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, &a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, &b);
     aitisa_binary_op_func(dtype)(&a, &b, OP_DIV, &c);
-- 
2.43.0


From f3d992745887f0286e3df4d2def49bdcc1c6ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 33/46] fix: slice counts elements in 64 bits

---
 src/basic/slice.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index 6868d62..c830ba9 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -72,7 +72,8 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   typename *in_data = (typename *)aitisa_tensor_data(input);                  \
   typename *out_data = (typename *)aitisa_tensor_data(*output);               \
   int64_t out_size = aitisa_tensor_size(*output);                             \
-  for (int out_linear_idx = 0; out_linear_idx < out_size; out_linear_idx++) { \
+  for (int64_t out_linear_idx = 0; out_linear_idx < out_size;                 \
+       out_linear_idx++) {                                                    \
     /* Get the linear index of input data element */                          \
     int64_t in_linear_idx = 0;                                                \
     for (int i = 0; i < in_ndim; i++) {                                       \
-- 
2.43.0


From 8458a0dc5c0633f99b5b78a0dbe8f82211b25832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 34/46] fix: dot and matmul kernels count elements in 64 bits

---
 src/math/dot.c    |  8 ++++----
 src/math/matmul.c | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 7a950cd..04bcb62 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -10,7 +10,7 @@
 
 #define dot_kernel(typename, data1, data2, size, data_out) \
   ((typename *)data_out)[0] = 0;                           \
-  for (int i = 0; i < size; i++) {                         \
+  for (int64_t i = 0; i < size; i++) {                     \
     ((typename *)data_out)[0] +=                           \
         ((typename *)data1)[i] * ((typename *)data2)[i];   \
   }
@@ -146,7 +146,7 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor result;
   void *out_data = aitisa_tensor_data(new_tensor);
   int data_size = aitisa_tensor_data_type(new_tensor).size;
-  for (int vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
+  for (int64_t vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
     status = aitisa_slice(tensor1, index_recorder, size, step, &vec1);
     if (status != STATUS_SUCCESS) goto cleanup;
     status = vector_vector_dot(vec1, vec2, &result);
@@ -262,10 +262,10 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor result;
   void *out_data = aitisa_tensor_data(new_tensor);
   int data_size = aitisa_tensor_data_type(new_tensor).size;
-  for (int vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
+  for (int64_t vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
     status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);
     if (status != STATUS_SUCCESS) goto cleanup;
-    for (int vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
+    for (int64_t vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
       status =
           aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2);
       if (status != STATUS_SUCCESS) {
diff --git a/src/math/matmul.c b/src/math/matmul.c
index 9dedb5e..c42e056 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -31,23 +31,23 @@ int64_t batch_strides(int64_t *dims, int64_t ndim, int64_t *strides,
 
 // kernel of vector-vector multiply
 #define VV_KERNEL(typename, X, Y, Z, L)                            \
-  for (int i = 0; i < L; ++i) {                                    \
+  for (int64_t i = 0; i < L; ++i) {                                \
     ((typename *)Z)[0] += ((typename *)X)[i] * ((typename *)Y)[i]; \
   }
 
 // kernel of matrix-vector multiply
 #define MV_KERNEL(typename, A, X, B, M, N)                                   \
-  for (int i = 0; i < M; ++i) {                                              \
-    for (int j = 0; j < N; ++j) {                                            \
+  for (int64_t i = 0; i < M; ++i) {                                          \
+    for (int64_t j = 0; j < N; ++j) {                                        \
       ((typename *)B)[i] += ((typename *)A)[i * N + j] * ((typename *)X)[j]; \
     }                                                                        \
   }
 
 // kernel of matrix-matrix multiply
 #define MM_KERNEL(typename, A, B, C, M, K, N)                        \
-  for (int i = 0; i < M; ++i) {                                      \
-    for (int j = 0; j < N; ++j) {                                    \
-      for (int q = 0; q < K; ++q) {                                  \
+  for (int64_t i = 0; i < M; ++i) {                                  \
+    for (int64_t j = 0; j < N; ++j) {                                \
+      for (int64_t q = 0; q < K; ++q) {                              \
         ((typename *)C)[i * N + j] +=                                \
             ((typename *)A)[i * K + q] * ((typename *)B)[q * N + j]; \
       }                                                              \
-- 
2.43.0


From a22028302c79dd26c0ff1142d0430bad3aa8e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 35/46] fix: pooling counts window elements in 64 bits

---
 src/nn/pooling.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 531cd1d..3dfa559 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -147,7 +147,7 @@ static Status pooling_double(const Tensor input, const char *mode,
         k_head[i] = 0 - padding[i-c_start];
         k_tail[i] = k_head[i]+(int64_t)(ksize[i-c_start]-1)*dilation[i-c_start];
       }
-      int window_idx = 0;
+      int64_t window_idx = 0;
       int hasWindow = 1;
       while(hasWindow){
         // set index
-- 
2.43.0


From 086668147d1471616f6d981e4f8d6b5c65e87573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 36/46] revert the auto_test changes: that directory counts as
 tests

---
 auto_test/sample.cpp | 56 ++++++++++----------------------------------
 auto_test/sample.h   | 19 ++++++++-------
 2 files changed, 24 insertions(+), 51 deletions(-)

diff --git a/auto_test/sample.cpp b/auto_test/sample.cpp
index 0d0644c..f38c827 100644
--- a/auto_test/sample.cpp
+++ b/auto_test/sample.cpp
@@ -25,7 +25,7 @@ Unary_Input::Unary_Input(Unary_Input& input):
   ndim_(input.ndim()), dims_(input.dims()), dtype_(input.dtype()), 
   device_(input.device()), data_(input.data()), len_(input.len()),
   count_(input.count()) {
-  if(count_) (*count_)++;
+  (*count_)++;
 }
 
 Unary_Input::Unary_Input(Unary_Input && input): 
@@ -36,11 +36,10 @@ Unary_Input::Unary_Input(Unary_Input && input):
 }
 
 Unary_Input & Unary_Input::operator=(Unary_Input& right){
-  if(this == &right) return *this;
-  if(this->count_ && --(*(this->count_)) == 0){
+  (*(this->count_))--;
+  if(*(this->count_) == 0){
     delete [] this->dims_;
     delete [] (char*)this->data_;
-    delete this->count_;
   }
   this->ndim_ = right.ndim();
   this->dims_ = right.dims();
@@ -49,7 +48,7 @@ Unary_Input & Unary_Input::operator=(Unary_Input& right){
   this->len_ = right.len();
   this->data_ = right.data();
   this->count_ = right.count();
-  if(this->count_) (*(this->count_))++;
+  (*(this->count_))++;
   return *this;
 }
 
@@ -87,7 +86,7 @@ Binary_Input::Binary_Input(Binary_Input & input):
   ndim2_(input.ndim2()), dims2_(input.dims2()), dtype2_(input.dtype2()), 
   device2_(input.device2()), data2_(input.data2()), len2_(input.len2()),
   count_(input.count()) {
-  if(count_) (*count_)++;
+  (*count_)++;
 }
 
 Binary_Input::Binary_Input(Binary_Input && input): 
@@ -100,13 +99,12 @@ Binary_Input::Binary_Input(Binary_Input && input):
 }
 
 Binary_Input & Binary_Input::operator=(Binary_Input& right){
-  if(this == &right) return *this;
-  if(this->count_ && --(*(this->count_)) == 0){
+  (*(this->count_))--;
+  if(*(this->count_) == 0){
     delete [] this->dims1_;
     delete [] this->dims2_;
     delete [] (char*)this->data1_;
     delete [] (char*)this->data2_;
-    delete this->count_;
   }
   this->ndim1_ = right.ndim1();
   this->ndim2_ = right.ndim2();
@@ -121,7 +119,7 @@ Binary_Input & Binary_Input::operator=(Binary_Input& right){
   this->data1_ = right.data1();
   this->data2_ = right.data2();
   this->count_ = right.count();
-  if(this->count_) (*(this->count_))++;
+  (*(this->count_))++;
   return *this;
 }
 
@@ -129,7 +127,7 @@ Result::Result(Result& result):
   ndim_(result.ndim()), dims_(result.dims()), dtype_(result.dtype()),
   device_(result.device()), data_(result.data()), len_(result.len()),
   count_(result.count()){
-  if(count_) (*count_)++;
+  (*count_)++;
 }
 
 Result::Result(Result && result):
@@ -139,44 +137,16 @@ Result::Result(Result && result):
   result.to_nullptr();
 }
 
-Result & Result::operator=(Result& right){
-  if(this == &right) return *this;
-  release();
-  this->ndim_ = right.ndim();
-  this->dims_ = right.dims();
-  this->dtype_ = right.dtype();
-  this->device_ = right.device();
-  this->data_ = right.data();
-  this->len_ = right.len();
-  this->count_ = right.count();
-  if(this->count_) (*(this->count_))++;
-  return *this;
-}
-
-void Result::release() {
-  if(count_ && --(*count_) == 0){
-    delete [] dims_;
-    delete [] (char*)data_;
-    delete count_;
-  }
-}
-
 void Result::set_result(int64_t ndim, int64_t *dims, int dtype, 
                         int device, void *data, unsigned int len) {
-  // Copy before releasing, since dims and data may be our own
-  int64_t *new_dims = new int64_t[ndim];
-  void *new_data = (void*) new char[len];
-  memcpy(new_dims, dims, ndim*sizeof(int64_t));
-  memcpy(new_data, data, len);
-  release();
   ndim_ = ndim;
   dtype_ = dtype;
   device_ = device;
   len_ = len;
-  dims_ = new_dims;
-  data_ = new_data;
-  count_ = new int;
-  *count_ = 1;
+  dims_ = new int64_t[ndim];
+  data_ = (void*) new char[len];
+  memcpy(dims_, dims, ndim*sizeof(int64_t));
+  memcpy(data_, data, len);
 }
 
 } // namespace aitisa_api
\ No newline at end of file
diff --git a/auto_test/sample.h b/auto_test/sample.h
index 7e38e06..3a6252c 100644
--- a/auto_test/sample.h
+++ b/auto_test/sample.h
@@ -121,8 +121,15 @@ public:
   Result() { count_ = new int; *count_ = 1;}
   Result(Result & result);
   Result(Result && result);
-  virtual ~Result() { release(); }
-  Result & operator=(Result& right);
+  virtual ~Result() {
+    if(count_){
+      (*count_)--;
+      if(*count_ == 0){
+        delete [] dims_;
+        delete [] (char*)data_;
+      }
+    }
+  }
   int dtype() const { return dtype_; }
   int device() const { return device_; }
   int64_t ndim() const { return ndim_; }
@@ -138,7 +145,6 @@ public:
     count_ = nullptr;
   }
 private:
-  void release();
   int64_t ndim_ = 0;
   int64_t *dims_ = nullptr;
   int dtype_ = 0;
@@ -198,12 +204,9 @@ Sample<Binary_Input> get_binary_sample(int sample_num){
   device1 = aitisa_int_to_device(input.device1());
   device2 = aitisa_int_to_device(input.device2());
   aitisa_create(dtype1, device1, input.dims1(), input.ndim1(), 
-                nullptr, 0, &tensor_in1);
+                input.data1(), input.len1(), &tensor_in1);
   aitisa_create(dtype2, device2, input.dims2(), input.ndim2(), 
-                nullptr, 0, &tensor_in2);
-  // The tensors own their data, so that the input keeps its own
-  memcpy(aitisa_tensor_data(tensor_in1), input.data1(), input.len1());
-  memcpy(aitisa_tensor_data(tensor_in2), input.data2(), input.len2());
+                input.data2(), input.len2(), &tensor_in2);
   TestType::aitisa_kernel(tensor_in1, tensor_in2, &tensor_out);
   aitisa_resolve(tensor_out, &dtype_out, &device_out, 
                  &dims_out, &ndim_out, &data_out, &len_out);
-- 
2.43.0


From a18e919bec2f837cc0eb35924c46ecff7e2f452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 37/46] fix: duplicate copies tensors with dimensions beyond
 the range of int and without elements

---
 src/basic/duplicate.c | 30 +++---------------------------
 1 file changed, 3 insertions(+), 27 deletions(-)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 023614f..5d6a54c 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -1,31 +1,7 @@
 #include "src/basic/duplicate.h"
-#include "src/basic/slice.h"
-#include "src/core/allocator.h"
+#include "src/basic/reshape.h"
 
 Status aitisa_duplicate(const Tensor input, Tensor *output) {
-  Tensor new_tensor;
-  int64_t *dims = aitisa_tensor_dims(input);
-  int ndim = (int)(aitisa_tensor_ndim(input));
-  int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
-  int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
-  int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) {
-    if (begin) aitisa_default_cpu_allocator()->raw_dealloc(begin);
-    if (size) aitisa_default_cpu_allocator()->raw_dealloc(size);
-    if (step) aitisa_default_cpu_allocator()->raw_dealloc(step);
-    return STATUS_ALLOC_FAILED;
-  }
-  for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    size[i] = (int)(dims[i]);
-    step[i] = 1;
-  }
-  Status status = aitisa_slice(input, begin, size, step, &new_tensor);
-  if (status == STATUS_SUCCESS) {
-    *output = new_tensor;
-  }
-  aitisa_default_cpu_allocator()->raw_dealloc(begin);
-  aitisa_default_cpu_allocator()->raw_dealloc(size);
-  aitisa_default_cpu_allocator()->raw_dealloc(step);
-  return status;
+  return aitisa_reshape(input, aitisa_tensor_dims(input),
+                        aitisa_tensor_ndim(input), output);
 }
-- 
2.43.0


From 4fb0041cfba5f3f00151dfc35da3b853bc655e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 38/46] fix: dot miscounted contraction lengths and dimensions
 beyond the range of int

---
 src/math/dot.c | 205 ++++++++++---------------------------------------
 1 file changed, 41 insertions(+), 164 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 04bcb62..76d197e 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -1,34 +1,28 @@
 #include "src/math/dot.h"
 #include <stdlib.h>
 #include "src/basic/factories.h"
-#include "src/basic/slice.h"
 #include "src/core/allocator.h"
 #include "src/core/dispatch.h"
 #include "src/core/utils.h"
 #include "src/math/binary_op.h"
 #include "src/math/matmul.h"
 
-#define dot_kernel(typename, data1, data2, size, data_out) \
-  ((typename *)data_out)[0] = 0;                           \
-  for (int64_t i = 0; i < size; i++) {                     \
-    ((typename *)data_out)[0] +=                           \
-        ((typename *)data1)[i] * ((typename *)data2)[i];   \
+// the elements of data2 are stride2 apart
+#define dot_kernel(typename, data1, data2, stride2, size, data_out)  \
+  ((typename *)data_out)[0] = 0;                                     \
+  for (int64_t i = 0; i < size; i++) {                               \
+    ((typename *)data_out)[0] +=                                     \
+        ((typename *)data1)[i] * ((typename *)data2)[i * stride2];   \
   }
 
 static Status dot_template(DataType dtype, void *data1, void *data2,
-                           int64_t size, void *data_out) {
+                           int64_t stride2, int64_t size, void *data_out) {
   Status status = STATUS_SUCCESS;
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dot_kernel, data1, data2, size, data_out);
+  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dot_kernel, data1, data2, stride2,
+                                   size, data_out);
   return status;
 }
 
-// release a temporary, which is NULL if its allocation failed
-static void release(void *ptr) {
-  if (ptr) {
-    aitisa_default_cpu_allocator()->raw_dealloc(ptr);
-  }
-}
-
 static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t tensor1_ndim = aitisa_tensor_ndim(tensor1);
@@ -84,7 +78,8 @@ static Status vector_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Status status;
   status = dot_template(
       aitisa_tensor_data_type(tensor1), aitisa_tensor_data(tensor1),
-      aitisa_tensor_data(tensor2), tensor1->size, aitisa_tensor_data(*output));
+      aitisa_tensor_data(tensor2), 1, tensor1->size,
+      aitisa_tensor_data(*output));
 
   return status;
 }
@@ -118,68 +113,24 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
   CHECK_STATUS(status);
-  // Make an index recorder of vectors in tensor1 then initialize it
-  int *index_recorder = aitisa_default_cpu_allocator()->raw_alloc(
-      sizeof(*index_recorder) * ndim_tensor1);
-  // Make parameters for slice
-  // size
-  int *size =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim_tensor1);
-  // step
-  int *step =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim_tensor1);
-  if (!index_recorder || !size || !step) {
-    status = STATUS_ALLOC_FAILED;
-    goto cleanup;
-  }
-  for (int64_t i = 0; i < ndim_tensor1; i++) {
-    index_recorder[i] = 0;
-    size[i] = 0;
-    step[i] = 1;
-  }
-  size[ndim_tensor1 - 1] = tensor1_dims[ndim_tensor1 - 1];
   // Implement tensor-vector dot
+  int64_t vec_size = tensor2_dims[0];
   int64_t nvec_tensor1 =
       size_to_dim(ndim_tensor1 - 1, tensor1_dims, ndim_tensor1);
-  Tensor vec2 = tensor2;
-  Tensor vec1;
-  Tensor result;
-  void *out_data = aitisa_tensor_data(new_tensor);
-  int data_size = aitisa_tensor_data_type(new_tensor).size;
+  char *data1 = (char *)aitisa_tensor_data(tensor1);
+  char *data2 = (char *)aitisa_tensor_data(tensor2);
+  char *out_data = (char *)aitisa_tensor_data(new_tensor);
+  int64_t data_size = dtype.size;
   for (int64_t vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
-    status = aitisa_slice(tensor1, index_recorder, size, step, &vec1);
-    if (status != STATUS_SUCCESS) goto cleanup;
-    status = vector_vector_dot(vec1, vec2, &result);
+    status = dot_template(dtype, data1 + vec_idx * vec_size * data_size, data2,
+                          1, vec_size, out_data + vec_idx * data_size);
     if (status != STATUS_SUCCESS) {
-      aitisa_destroy(&vec1);
-      goto cleanup;
+      aitisa_destroy(&new_tensor);
+      return status;
     }
-    // Store the result into output
-    void *result_data = aitisa_tensor_data(result);
-    memcpy((char *)out_data + vec_idx * data_size, result_data, data_size);
-    // Update index_recorder
-    for (int i = ndim_tensor1 - 2; i >= 0; i--) {
-      index_recorder[i] += 1;
-      // Judge whether the index is out of boundary
-      if (index_recorder[i] >= tensor1_dims[i]) {
-        index_recorder[i] = 0;
-      } else {
-        break;
-      }
-    }
-    aitisa_destroy(&vec1);
-    aitisa_destroy(&result);
-  }
-cleanup:
-  release(index_recorder);
-  release(size);
-  release(step);
-  if (status == STATUS_SUCCESS) {
-    *output = new_tensor;
-  } else {
-    aitisa_destroy(&new_tensor);
   }
-  return status;
+  *output = new_tensor;
+  return STATUS_SUCCESS;
 }
 
 static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
@@ -219,109 +170,35 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
   CHECK_STATUS(status);
-  // Make index recorders of vectors in tensor1 and tensor2 then initialize them
-  int *index_recorder_t1 = aitisa_default_cpu_allocator()->raw_alloc(
-      sizeof(*index_recorder_t1) * ndim_tensor1);
-  int *index_recorder_t2 = aitisa_default_cpu_allocator()->raw_alloc(
-      sizeof(*index_recorder_t2) * ndim_tensor2);
-  // Make parameters for slice
-  // size
-  int *size_t1 = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size_t1) *
-                                                           ndim_tensor1);
-  int *size_t2 = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size_t2) *
-                                                           ndim_tensor2);
-  // step
-  int *step_t1 = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step_t1) *
-                                                           ndim_tensor1);
-  int *step_t2 = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step_t2) *
-                                                           ndim_tensor2);
-  if (!index_recorder_t1 || !index_recorder_t2 || 
-      !size_t1 || !size_t2 || !step_t1 || !step_t2) {
-    status = STATUS_ALLOC_FAILED;
-    goto cleanup;
-  }
-  for (int64_t i = 0; i < ndim_tensor1; i++) {
-    index_recorder_t1[i] = 0;
-    size_t1[i] = 0;
-    step_t1[i] = 1;
-  }
-  for (int64_t i = 0; i < ndim_tensor2; i++) {
-    index_recorder_t2[i] = 0;
-    size_t2[i] = 0;
-    step_t2[i] = 1;
-  }
-  size_t1[ndim_tensor1 - 1] = tensor1_dims[ndim_tensor1 - 1];
-  size_t2[ndim_tensor2 - 2] = tensor2_dims[ndim_tensor2 - 2];
   // Implement multidim dot
+  int64_t vec_size = tensor1_dims[ndim_tensor1 - 1];
   int64_t nvec_tensor1 =
       size_to_dim(ndim_tensor1 - 1, tensor1_dims, ndim_tensor1);
+  // tensor2 is a batch of matrices whose columns are the vectors
+  int64_t ncol_tensor2 = tensor2_dims[ndim_tensor2 - 1];
   int64_t nvec_tensor2 =
-      size_of_dims(tensor2_dims, ndim_tensor2) / tensor2_dims[ndim_tensor2 - 2];
-  Tensor vec2;
-  Tensor vec1;
-  Tensor result;
-  void *out_data = aitisa_tensor_data(new_tensor);
-  int data_size = aitisa_tensor_data_type(new_tensor).size;
+      size_to_dim(ndim_tensor2 - 2, tensor2_dims, ndim_tensor2) * ncol_tensor2;
+  char *data1 = (char *)aitisa_tensor_data(tensor1);
+  char *data2 = (char *)aitisa_tensor_data(tensor2);
+  char *out_data = (char *)aitisa_tensor_data(new_tensor);
+  int64_t data_size = dtype.size;
   for (int64_t vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
-    status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);
-    if (status != STATUS_SUCCESS) goto cleanup;
     for (int64_t vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
-      status =
-          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2);
+      // Position of the first element of the column
+      int64_t vec2_offset = vec2_idx / ncol_tensor2 * vec_size * ncol_tensor2 +
+                            vec2_idx % ncol_tensor2;
+      status = dot_template(
+          dtype, data1 + vec1_idx * vec_size * data_size,
+          data2 + vec2_offset * data_size, ncol_tensor2, vec_size,
+          out_data + (vec1_idx * nvec_tensor2 + vec2_idx) * data_size);
       if (status != STATUS_SUCCESS) {
-        aitisa_destroy(&vec1);
-        goto cleanup;
-      }
-      status = vector_vector_dot(vec1, vec2, &result);
-      if (status != STATUS_SUCCESS) {
-        aitisa_destroy(&vec1);
-        aitisa_destroy(&vec2);
-        goto cleanup;
-      }
-      // Store the result into output
-      void *result_data = aitisa_tensor_data(result);
-      memcpy(
-          (char *)out_data + (vec1_idx * nvec_tensor2 + vec2_idx) * data_size,
-          result_data, data_size);
-      // Update index_recorder_t2
-      for (int i = ndim_tensor2 - 1; i >= 0; i--) {
-        if (i == ndim_tensor2 - 2) continue;
-        index_recorder_t2[i] += 1;
-        // Judge whether the index is out of boundary
-        if (index_recorder_t2[i] >= tensor2_dims[i]) {
-          index_recorder_t2[i] = 0;
-        } else {
-          break;
-        }
+        aitisa_destroy(&new_tensor);
+        return status;
       }
-      aitisa_destroy(&vec2);
-      aitisa_destroy(&result);
     }
-    // Update index_recorder_t1
-    for (int i = ndim_tensor1 - 2; i >= 0; i--) {
-      index_recorder_t1[i] += 1;
-      // Judge whether the index is out of boundary
-      if (index_recorder_t1[i] >= tensor1_dims[i]) {
-        index_recorder_t1[i] = 0;
-      } else {
-        break;
-      }
-    }
-    aitisa_destroy(&vec1);
   }
-cleanup:
-  release(index_recorder_t1);
-  release(size_t1);
-  release(step_t1);
-  release(index_recorder_t2);
-  release(size_t2);
-  release(step_t2);
-  if (status == STATUS_SUCCESS) {
-    *output = new_tensor;
-  } else {
-    aitisa_destroy(&new_tensor);
-  }
-  return status;
+  *output = new_tensor;
+  return STATUS_SUCCESS;
 }
 
 Status aitisa_dot(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
-- 
2.43.0


From de525ab87a90ddcbd9e6af431053cfa215cdb2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 39/46] fix: broadcasting a dimension of zero with one gave
 one, and matmul then read out of bounds

---
 src/basic/broadcast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/broadcast.c b/src/basic/broadcast.c
index 9499cca..739b528 100644
--- a/src/basic/broadcast.c
+++ b/src/basic/broadcast.c
@@ -12,7 +12,7 @@ Status aitisa_broadcast_array(int64_t* dims_in1, int64_t ndim_in1,
     int64_t d_in2 = dims_in2[ndim_in2 - i - 1];
     bool match = d_in1 == 1 || d_in2 == 1 || d_in1 == d_in2;
     if (match) {
-      dims_out[ndim_out - i - 1] = d_in1 > d_in2 ? d_in1 : d_in2;
+      dims_out[ndim_out - i - 1] = d_in1 == 1 ? d_in2 : d_in1;
       i++;
     } else {
       return STATUS_DIMENSIONS_MISMATCH;
-- 
2.43.0


From 85e5b99cbb26130bee14c985b6cbc921f2348018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 40/46] fix: conv left its output indeterminate for an input
 without channels

---
 src/nn/conv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 9bd3ab1..1824705 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -154,10 +154,10 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
               tmp += in_data[in_offset] * fil_data[fil_offset];
             }
           }
-          int64_t out_offset =
-              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
-          out_data[out_offset] = tmp;
         }
+        int64_t out_offset =
+            aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
+        out_data[out_offset] = tmp;
       }
     }
   }
-- 
2.43.0


From 2f72dbfc138aa0de3601225fff6a0408b6029c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 41/46] fix: full called through a table beyond its end for an
 unknown data type

---
 src/basic/factories.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/basic/factories.c b/src/basic/factories.c
index 5038bad..578fe13 100644
--- a/src/basic/factories.c
+++ b/src/basic/factories.c
@@ -2,6 +2,7 @@
 
 Status aitisa_full(DataType dtype, Device device, int64_t *dims, int64_t ndim,
                    double value, Tensor *output) {
+  if (dtype.code >= TYPE_NTYPES) return STATUS_NOT_SUPPORTED;
   Tensor new_tensor;
   CHECK_STATUS(
       aitisa_create(dtype, device,  dims, ndim, NULL, 0, &new_tensor));
-- 
2.43.0


From 607a7751d1bc975772445f337785d2f7b495b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 42/46] fix: the binary operations called through a table
 beyond its end for an unknown data type

---
 src/math/binary_op.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index cfc17d5..d24a759 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -210,6 +210,9 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
       aitisa_tensor_data_type(tensor2).code) {
     return STATUS_TYPE_MISMATCH;
   }
+  if (aitisa_tensor_data_type(tensor1).code >= TYPE_NTYPES) {
+    return STATUS_NOT_SUPPORTED;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   // The dimension of two operators should be consistent, broadcast is not
@@ -253,6 +256,9 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
       aitisa_tensor_data_type(tensor2).code) {
     return STATUS_TYPE_MISMATCH;
   }
+  if (aitisa_tensor_data_type(tensor1).code >= TYPE_NTYPES) {
+    return STATUS_NOT_SUPPORTED;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   // The dimension of two operators should be consistent, broadcast is not
@@ -296,6 +302,9 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
       aitisa_tensor_data_type(tensor2).code) {
     return STATUS_TYPE_MISMATCH;
   }
+  if (aitisa_tensor_data_type(tensor1).code >= TYPE_NTYPES) {
+    return STATUS_NOT_SUPPORTED;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   // The dimension of two operators should be consistent, broadcast is not
@@ -369,6 +378,9 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
       aitisa_tensor_data_type(tensor2).code) {
     return STATUS_TYPE_MISMATCH;
   }
+  if (aitisa_tensor_data_type(tensor1).code >= TYPE_NTYPES) {
+    return STATUS_NOT_SUPPORTED;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   // The dimension of two operators should be consistent, broadcast is not
-- 
2.43.0


From 13b10b337683f8f1bb617c5238bc01111c84795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 43/46] fix: relu rejected an unknown data type only after
 handing out its output

---
 src/nn/relu.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nn/relu.c b/src/nn/relu.c
index d87d6a3..6b47fec 100644
--- a/src/nn/relu.c
+++ b/src/nn/relu.c
@@ -18,6 +18,7 @@ Status aitisa_relu(const Tensor input, Tensor *output) {
   int64_t ndim = aitisa_tensor_ndim(input);
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(input);
+  if (dtype.code >= TYPE_NTYPES) return STATUS_NOT_SUPPORTED;
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   CHECK_STATUS(
-- 
2.43.0


From b7ce76f5edd8880c172c8d5d35fd3894f02d44e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 44/46] fix: dropout leaked its output for an unknown data type

---
 src/nn/dropout.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nn/dropout.c b/src/nn/dropout.c
index 24e5be5..a15c032 100644
--- a/src/nn/dropout.c
+++ b/src/nn/dropout.c
@@ -29,6 +29,9 @@ Status aitisa_dropout(const Tensor input, const double rate, Tensor *output) {
   if (rate < 0 || rate > 1) {
     return STATUS_INVALID_ARGUMENT;
   }
+  if (aitisa_tensor_data_type(input).code >= TYPE_NTYPES) {
+    return STATUS_NOT_SUPPORTED;
+  }
   // Copy input
   Tensor new_tensor;
   CHECK_STATUS(aitisa_duplicate(input, &new_tensor));
-- 
2.43.0


From db53bb98043c65541df780ecb0708092278cb9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 45/46] fix: pooling leaked everything it had allocated for an
 unknown data type

---
 src/nn/pooling.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 3dfa559..2d4bc5a 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -217,6 +217,9 @@ Status aitisa_pooling(const Tensor input, const char *mode,
                       Tensor *output){
     Status status;
     int64_t ndim = aitisa_tensor_ndim(input);
+    if(aitisa_tensor_data_type(input).code >= TYPE_NTYPES){
+      return STATUS_NOT_SUPPORTED;
+    }
     if(ndim>2 && ndim<6){
       int axis = 1;
       status = pooling_check_parameters(mode, ksize, stride, padding,
-- 
2.43.0


From 43876e39a2a8a1a062343df3da3a5340dd9f1c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 46/46] fix: softmax along an axis leaked its temporaries for
 an unknown data type

---
 src/nn/softmax.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index 45b8c6b..2a097ca 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -148,6 +148,9 @@ Status aitisa_softmax(const Tensor input, const int axis,
   if(axis < -1 || axis > ndim-1){
     return STATUS_NOT_SUPPORTED;
   }
+  if(aitisa_tensor_data_type(input).code >= TYPE_NTYPES){
+    return STATUS_NOT_SUPPORTED;
+  }
 
   // Create output tensor
   Tensor new_tensor;
-- 
2.43.0

