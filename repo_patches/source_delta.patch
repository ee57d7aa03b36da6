From 2c5ad9a1d9538cdc4826744688f797c533651e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:54 +0000
Subject: [PATCH 01/43] fix: det2x2 and det3x3 store their result in the output
 array

---
 src/sigmaepsilon/math/linalg/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 6d0f17e..63ce482 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -701,9 +701,9 @@ def ATBAw(A: ndarray, B: ndarray, w: float = 1.0) -> ndarray:
     return w * (A.T @ B @ A)
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det3x3(A, res):
-    res = (
+    res[0] = (
         A[0, 0] * A[1, 1] * A[2, 2]
         - A[0, 0] * A[1, 2] * A[2, 1]
         - A[0, 1] * A[1, 0] * A[2, 2]
@@ -713,9 +713,9 @@ def det3x3(A, res):
     )
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det2x2(A, res):
-    res = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
+    res[0] = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
 
 
 @njit(nogil=True, cache=__cache)
-- 
2.43.0


From e32227d6e00ec65aa42e7af835d74f5e951484bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:03 +0000
Subject: [PATCH 02/43] fix: closed-form inverses of integer matrices are not
 truncated to integers

---
 src/sigmaepsilon/math/linalg/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 63ce482..f421981 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -720,7 +720,7 @@ def det2x2(A, res):
 
 @njit(nogil=True, cache=__cache)
 def inv2x2(A) -> ndarray:
-    res = np.zeros_like(A)
+    res = np.zeros_like(1.0 * A)
     d = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
     res[0, 0] = A[1, 1] / d
     res[1, 1] = A[0, 0] / d
@@ -774,7 +774,7 @@ def inv3x3u(A, res):
 
 @njit(nogil=True, cache=__cache)
 def inv3x3(A):
-    res = np.zeros_like(A)
+    res = np.zeros_like(1.0 * A)
     det = (
         A[0, 0] * A[1, 1] * A[2, 2]
         - A[0, 0] * A[1, 2] * A[2, 1]
@@ -798,7 +798,7 @@ def inv3x3(A):
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def inv3x3_bulk(A) -> ndarray:
-    res = np.zeros_like(A)
+    res = np.zeros_like(1.0 * A)
     for i in prange(A.shape[0]):
         det = (
             A[i, 0, 0] * A[i, 1, 1] * A[i, 2, 2]
@@ -823,7 +823,7 @@ def inv3x3_bulk(A) -> ndarray:
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def inv3x3_bulk2(A) -> ndarray:
-    res = np.zeros_like(A)
+    res = np.zeros_like(1.0 * A)
     for i in prange(A.shape[0]):
         res[i] = inv3x3(A[i])
     return res
-- 
2.43.0


From d0c800720a921efd6910da7a3d9dcc44a6194808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:17 +0000
Subject: [PATCH 03/43] fix: indices_of_equal_rows finds all pairs of equal
 rows for integer input and does not truncate differences

---
 src/sigmaepsilon/math/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 4ab8234..061796a 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -390,11 +390,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
     square = nX == nY
     integer = isintegerarray(x) and isintegerarray(y)
     if integer:
-        if square:
-            inds = np.flatnonzero((x == y).all(1))
-            return inds, np.copy(inds)
-        else:
-            return indices_of_equal_rows_njit(x, y, 0)
+        return indices_of_equal_rows_njit(x, y, 0)
     else:
         if square:
             return indices_of_equal_rows_square_njit(x, y, tol)
@@ -404,7 +400,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def indices_of_equal_rows_njit(x: ndarray, y: ndarray, tol: float = 1e-12):
-    R = np.zeros((x.shape[0], y.shape[0]), dtype=x.dtype)
+    R = np.zeros((x.shape[0], y.shape[0]), dtype=np.float64)
     for i in prange(R.shape[0]):
         for j in prange(R.shape[1]):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
@@ -418,7 +414,7 @@ def indices_of_equal_rows_square_njit(x: ndarray, y: ndarray, tol=1e-12):
         n = nx
     else:
         n = ny
-    R = np.zeros((n, n), dtype=x.dtype)
+    R = np.zeros((n, n), dtype=np.float64)
     for i in prange(n):
         for j in prange(n):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
-- 
2.43.0


From fb840519f4062ca4a7c3945acb8dd015aa744e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:17 +0000
Subject: [PATCH 04/43] fix: to_range_1d does not truncate the mapped values of
 integer input

---
 src/sigmaepsilon/math/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 061796a..7d8d13b 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -493,7 +493,7 @@ def repeat_diagonal_2d(a: ndarray, N: int = 2) -> ndarray:
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def _to_range_1d_(vals: ndarray, source: ndarray, target: ndarray):
-    res = np.zeros_like(vals)
+    res = np.zeros_like(1.0 * vals)
     s0, s1 = source
     t0, t1 = target
     b = (t1 - t0) / (s1 - s0)
-- 
2.43.0


From 5b58ba63c811b044360cc96e77fde6c649f317fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:17 +0000
Subject: [PATCH 05/43] fix: bin centres of integer bin edges are not truncated

---
 src/sigmaepsilon/math/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/hist.py b/src/sigmaepsilon/math/hist.py
index b74a9f2..02d4af9 100644
--- a/src/sigmaepsilon/math/hist.py
+++ b/src/sigmaepsilon/math/hist.py
@@ -17,7 +17,7 @@ def histogram(data, bins, *args, return_edges=False, **kwargs):
 
 @njit(nogil=True, parallel=True, cache=True)
 def bin_centers(bin_edges: np.ndarray):
-    res = np.zeros(bin_edges.shape[0] - 1, dtype=bin_edges.dtype)
+    res = np.zeros(bin_edges.shape[0] - 1, dtype=np.float64)
     for i in prange(res.shape[0]):
         res[i] = (bin_edges[i] + bin_edges[i + 1]) / 2
     return res
-- 
2.43.0


From ad320d2bf6688383f27b1c2c8d526ff8875daea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:17 +0000
Subject: [PATCH 06/43] fix: count_cols_csr counts the entries of each row

---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 7d8d13b..789f70a 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -456,10 +456,10 @@ def count_cols_csr(indptr: ndarray, indices: ndarray) -> ndarray:
     --------
     :class:`~sigmaepsilon.math.linalg.sparse.csr.csr_matrix`
     """
-    n = len(indptr)
+    n = len(indptr) - 1
     res = np.zeros(n, dtype=indptr.dtype)
     for i in prange(n):
-        res[i] = indices[indptr[i + 1]] - indices[indptr[i]]
+        res[i] = indptr[i + 1] - indptr[i]
     return res
 
 
-- 
2.43.0


From 0043c400e967ad6997484e2f205ca53af7350870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:17 +0000
Subject: [PATCH 07/43] fix: linspace and vpath between coincident points give
 the point instead of nan

---
 src/sigmaepsilon/math/linalg/utils.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index f421981..61eeef7 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -657,12 +657,10 @@ def inv_sym_3x3(m: Matrix, as_adj_det=False) -> Matrix:
 def vpath(p1: ndarray, p2: ndarray, n: int) -> ndarray:
     nD = len(p1)
     dist = p2 - p1
-    length = np.linalg.norm(dist)
-    s = np.linspace(0, length, n)
-    res = np.zeros((n, nD), dtype=p1.dtype)
-    d = dist / length
+    s = np.linspace(0, 1, n)
+    res = np.zeros((n, nD))
     for i in prange(n):
-        res[i] = p1 + s[i] * d
+        res[i] = p1 + s[i] * dist
     return res
 
 
@@ -858,10 +856,7 @@ def norm2d(A) -> ndarray:
 @njit(nogil=True, parallel=True, cache=__cache)
 def _linspace(p0: ndarray, p1: ndarray, N):
     s = p1 - p0
-    L = np.linalg.norm(s)
-    n = s / L
-    djac = L / (N - 1)
-    step = n * djac
+    step = s / (N - 1)
     res = np.zeros((N, p0.shape[0]))
     res[0] = p0
     for i in prange(1, N - 1):
-- 
2.43.0


From 3f98f253974716798acaffaa7bf25f8bd96d3a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:28 +0000
Subject: [PATCH 08/43] fix: in-place subtraction of a number from a tensor
 subtracts

---
 src/sigmaepsilon/math/linalg/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 3e29bef..5145b9f 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -101,7 +101,7 @@ class AbstractTensor(TensorLike):
 
     def __isub__(self, other) -> TensorLike:
         if isinstance(other, numbers.Number):
-            self.array += other
+            self.array -= other
         elif isinstance(other, TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
-- 
2.43.0


From 7ff0abc64d0b57b9a3ba397ecc8b68d9039beccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:28 +0000
Subject: [PATCH 09/43] fix: setting the axes of a frame copies the array and
 respects its memory layout

---
 src/sigmaepsilon/math/linalg/frame.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 399d3a9..e317ea2 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -293,7 +293,8 @@ class ReferenceFrame(FrameLike):
         Sets the array of the frame.
         """
         if isinstance(value, np.ndarray):
-            buf = value
+            # an own, C-contiguous copy: the buffer is read in memory order
+            buf = np.array(value, dtype=float, order="C")
         else:
             if not issequence(value):
                 raise TypeError("'value' must be some kind of iterable")
-- 
2.43.0


From beedaecbfec03401053b47bdbd7c5e816964f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:28 +0000
Subject: [PATCH 10/43] fix: ReferenceFrame.show returns the components of the
 frame for skew frames too

---
 src/sigmaepsilon/math/linalg/frame.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index e317ea2..da11f7e 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -320,7 +320,9 @@ class ReferenceFrame(FrameLike):
         -------
         numpy.ndarray
         """
-        return self.dcm(source=target)
+        if target is None:
+            return self.dcm()
+        return transpose_axes(self.dcm(target=target))
 
     def dcm(
         self, *, target: "ReferenceFrame" = None, source: "ReferenceFrame" = None
-- 
2.43.0


From b2113a95fcc962a3efebea427961e9348899fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:28 +0000
Subject: [PATCH 11/43] fix: copies of vectors and tensors keep their frame

---
 src/sigmaepsilon/math/linalg/meta.py   | 2 +-
 src/sigmaepsilon/math/linalg/tensor.py | 9 +++++++--
 src/sigmaepsilon/math/linalg/vector.py | 9 +++++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index d7228fb..8bab912 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -358,7 +358,7 @@ class TensorLike(ArrayWrapper):
         if is_deep:
             memo[id(self.array)] = arr
 
-        return cls(arr, frame=frame)
+        return cls(arr, frame=frame, bulk=self._bulk, rank=self._rank)
 
     @classmethod
     def _from_any_input(cls, *args, **kwargs) -> "TensorLike":
diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 6bc6309..55f213f 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -177,9 +177,14 @@ class Tensor(AbstractTensor):
         argument `deepcopy` (default is False).
         """
         if deep:
-            return self.__class__(dcopy(self.array), name=name)
+            frame = self.frame.deepcopy()
+            return self.__class__(
+                dcopy(self.array), frame=frame, bulk=self._bulk, rank=self._rank
+            )
         else:
-            return self.__class__(self.array, name=name)
+            return self.__class__(
+                self.array, frame=self.frame, bulk=self._bulk, rank=self._rank
+            )
 
     def deepcopy(self, name: str = None) -> "Tensor":
         """
diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 7741607..37623ff 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -204,9 +204,14 @@ class Vector(AbstractTensor):
         argument `deepcopy` (default is False).
         """
         if deep:
-            return self.__class__(dcopy(self.array), name=name)
+            frame = self.frame.deepcopy()
+            return self.__class__(
+                dcopy(self.array), frame=frame, bulk=self._bulk, rank=self._rank
+            )
         else:
-            return self.__class__(self.array, name=name)
+            return self.__class__(
+                self.array, frame=self.frame, bulk=self._bulk, rank=self._rank
+            )
 
     def deepcopy(self, name: str = None) -> "Vector":
         """
-- 
2.43.0


From e3c97b51ec67ebd959b3e6d7d591f7ba424c7b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:28 +0000
Subject: [PATCH 12/43] fix: operations on stacks of vectors and tensors accept
 and return stacks

---
 src/sigmaepsilon/math/linalg/abstract.py | 14 +++++++++-----
 src/sigmaepsilon/math/linalg/meta.py     |  7 ++++++-
 src/sigmaepsilon/math/linalg/tensor.py   |  8 ++++++--
 src/sigmaepsilon/math/linalg/vector.py   |  6 ++++--
 4 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 5145b9f..9887715 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -48,7 +48,9 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array * other
-        return self.__class__(arr, frame=self.frame)
+        return self.__class__(
+            arr, frame=self.frame, bulk=self._bulk, rank=self._rank
+        )
 
     def __imatmul__(self, other) -> TensorLike:
         raise LinalgInvalidTensorOperationError("Use a dot product.")
@@ -73,7 +75,7 @@ class AbstractTensor(TensorLike):
             fcls = cls._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array + other.show(self.frame)
-            return cls(arr, frame=frame)
+            return cls(arr, frame=frame, bulk=self._bulk, rank=self._rank)
         else:
             raise TypeError(
                 (
@@ -90,7 +92,7 @@ class AbstractTensor(TensorLike):
             fcls = cls._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array - other.show(self.frame)
-            return cls(arr, frame=frame)
+            return cls(arr, frame=frame, bulk=self._bulk, rank=self._rank)
         else:
             raise TypeError(
                 (
@@ -118,7 +120,9 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array / other
-        return self.__class__(arr, frame=self.frame)
+        return self.__class__(
+            arr, frame=self.frame, bulk=self._bulk, rank=self._rank
+        )
 
     def __ipow__(self, other) -> TensorLike:
         raise NotImplementedError("This operation is not implemented yet.")
@@ -155,7 +159,7 @@ def negative_implementation(method, *args, **kwargs):
         raise LinalgOperationInputError(msg)
     obj = args[0]
     arr = getattr(np.negative, method)(obj._array, **kwargs)
-    return obj.__class__(arr, frame=obj.frame)
+    return obj.__class__(arr, frame=obj.frame, bulk=obj._bulk, rank=obj._rank)
 
 
 @implements(np.dot)
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 8bab912..43c3990 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -464,7 +464,12 @@ class TensorLike(ArrayWrapper):
         else:
             f = self.frame
             frame = f.__class__(np.copy(f.axes))
-            return self.__class__(np.transpose(self.array, indices), frame=frame)
+            return self.__class__(
+                np.transpose(self.array, indices),
+                frame=frame,
+                bulk=self._bulk,
+                rank=self._rank,
+            )
 
     @abstractmethod
     def show(self) -> Array: ...
diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 55f213f..c6acbf1 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -88,7 +88,9 @@ class Tensor(AbstractTensor):
         Returns the tensor described in the dual (or reciprocal) frame.
         """
         a = self.transform_components(self.frame.Gram())
-        return self.__class__(a, frame=self.frame.dual())
+        return self.__class__(
+            a, frame=self.frame.dual(), bulk=self._bulk, rank=self._rank
+        )
 
     def transform_components(self, Q: ndarray) -> ndarray:
         """
@@ -169,7 +171,9 @@ class Tensor(AbstractTensor):
         fcls: Frame = self.__class__._frame_cls_
         dcm = fcls.eye(dim=self.frame.shape[-1]).orient_new(*args, **kwargs).dcm()
         array = self.transform_components(dcm.T)
-        return self.__class__(array, frame=self.frame)
+        return self.__class__(
+            array, frame=self.frame, bulk=self._bulk, rank=self._rank
+        )
 
     def copy(self, deep: bool = False, name: str = None) -> "Tensor":
         """
diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 37623ff..8055be8 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -114,8 +114,10 @@ class Vector(AbstractTensor):
         """
         # NOTE Strictly this should be self.frame.Gram().T @ self.array,
         # but since the Gram matrix is symmetric, it's cheaper like this
-        a = self.frame.Gram() @ self.array
-        return self.__class__(a, frame=self.frame.dual())
+        a = show_vector(self.frame.Gram(), self.array)
+        return self.__class__(
+            a, frame=self.frame.dual(), bulk=self._bulk, rank=self._rank
+        )
 
     def show(self, target: Frame = None, *, dcm: ndarray = None) -> ndarray:
         """
-- 
2.43.0


From 425b6e5868f1508635d3f30460dc45748e8a453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:28 +0000
Subject: [PATCH 13/43] fix: dot product of a vector and a second order tensor
 contracts the first index, in every frame

---
 src/sigmaepsilon/math/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 61eeef7..0534593 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -220,7 +220,7 @@ def dot(
             arr = (a.array @ b.show(a.frame.dual()).T).T
             result = b.__class__(arr, frame=a.frame)
         elif ra == 1 and rb == 2:
-            arr = (a.array.T @ b.show(a.frame.dual()).T).T
+            arr = a.array @ a.frame.Gram() @ b.show(a.frame)
             result = a.__class__(arr, frame=a.frame)
         elif ra == 2 and rb == 2:
             g = a.frame.Gram()
-- 
2.43.0


From 22d3f08997abf403ebe753709575fb2e2e08a1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:28 +0000
Subject: [PATCH 14/43] fix: cross product of vectors in frames that are not
 orthonormal

---
 src/sigmaepsilon/math/linalg/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 0534593..48b4067 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -315,8 +315,10 @@ def cross(
         ra, rb = a.rank, b.rank
         result = None
         if ra == 1 and rb == 1:
-            arr = np.cross(a.array, b.show(a.frame), axis=0)
-            result = a.__class__(arr, frame=a.frame)
+            # the components of the cross product follow from those of the operands
+            # only in orthonormal frames, hence the ambient frame
+            result = a.__class__(np.cross(a.show(), b.show(), axis=0))
+            result.frame = a.frame
         elif ra == 2 and rb == 1:
             arr = np.cross(a.show(), b.show(), axis=0)
             result = a.__class__(arr)
-- 
2.43.0


From defef6c0799bcbb23506337aa1f900deb37b6aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:25 +0000
Subject: [PATCH 15/43] fix: fourth order tensors of other than three
 dimensions are transformed correctly

---
 src/sigmaepsilon/math/linalg/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index c6acbf1..02077a2 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -286,6 +286,9 @@ class Tensor4(Tensor):
         Returns the components of the transformed numerical tensor, based on
         the provided direction cosine matrix.
         """
+        if self._array.shape[-1] != 3:
+            # the dedicated implementation is for 3 dimensions
+            return super().transform_components(dcm)
         return _tr_tensors4x3(self._array, dcm)
 
 
-- 
2.43.0


From ec2f2cc17a5ec3c2153404030322ad35c77917c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:00 +0000
Subject: [PATCH 16/43] fix: elimination of integer matrices is not truncated
 to integers

---
 src/sigmaepsilon/math/linalg/solve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 8e0054b..31a2315 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -120,7 +120,7 @@ def linsolve(
                 res = backsub(*fnc(A, B, presc_bool, presc_val), presc_bool, presc_val)
             else:
                 res = backsub(
-                    *fnc(A.copy(), B.copy(), presc_bool, presc_val),
+                    *fnc(_float_copy(A), _float_copy(B), presc_bool, presc_val),
                     presc_bool,
                     presc_val
                 )
@@ -156,13 +156,18 @@ def reduce(
             if inplace:
                 return fnc(A, B, presc_bool, presc_val)
             else:
-                return fnc(A.copy(), B.copy(), presc_bool, presc_val)
+                return fnc(_float_copy(A), _float_copy(B), presc_bool, presc_val)
         except Exception:
             raise LinAlgError("The matrix is singular!")
     else:
         raise AttributeError("Invalid method name '{}'.".format(method))
 
 
+def _float_copy(a: np.ndarray) -> np.ndarray:
+    # the elimination is carried out in the returned array, integers would be truncated
+    return a.astype(np.result_type(a, np.float64))
+
+
 @njit(nogil=True, cache=__cache)
 def npsolve(A, b):
     return np.linalg.solve(A, b)
-- 
2.43.0


From 1a778b2d864e837c40dabcedaa64a05b2f8305e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:40 +0000
Subject: [PATCH 17/43] fix: Gauss-Jordan elimination checks the last pivot
 too, a singular matrix is reported

---
 src/sigmaepsilon/math/linalg/solve.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 31a2315..c0f81e6 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -208,17 +208,16 @@ def _GaussJordan(
                 B[iROW] -= A[iROW, iEQ] * presc_val[iEQ]
                 A[iROW, iEQ] = 0.0
         else:
-            if iEQ < nEQ - 1:
-                pivot = A[iEQ, iEQ]
-                if abs(pivot) < 1e-12:
-                    raise Exception("The matrix is singular!")
-                for iROW in range(iEQ + 1, nEQ):
-                    factor = A[iROW, iEQ] / pivot
-                    if abs(factor) < 1e-12:
-                        continue
-                    for iCOL in range(nEQ):
-                        A[iROW, iCOL] -= factor * A[iEQ, iCOL]
-                    B[iROW] -= factor * B[iEQ]
+            pivot = A[iEQ, iEQ]
+            if abs(pivot) < 1e-12:
+                raise Exception("The matrix is singular!")
+            for iROW in range(iEQ + 1, nEQ):
+                factor = A[iROW, iEQ] / pivot
+                if abs(factor) < 1e-12:
+                    continue
+                for iCOL in range(nEQ):
+                    A[iROW, iCOL] -= factor * A[iEQ, iCOL]
+                B[iROW] -= factor * B[iEQ]
     return A, B
 
 
-- 
2.43.0


From 7355f475216faf800830c519a467a4df341024f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:24 +0000
Subject: [PATCH 18/43] fix: Hessian of the cubic weight function at its core

---
 src/sigmaepsilon/math/approx/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index 887bd6a..2bbc308 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -184,7 +184,7 @@ class CubicWeightFunction(MLSWeightFunction):
         rX = abs(difX) / dmX
 
         if abs(difX) < 1e-12:
-            drdX = 0
+            drdX = 1 / dmX
         else:
             drdX = (difX / abs(difX)) / dmX
 
@@ -217,12 +217,12 @@ class CubicWeightFunction(MLSWeightFunction):
         rY = abs(difY) / dmY
 
         if abs(difX) < 1e-12:
-            drdX = 0
+            drdX = 1 / dmX
         else:
             drdX = (difX / abs(difX)) / dmX
 
         if abs(difY) < 1e-12:
-            drdY = 0
+            drdY = 1 / dmY
         else:
             drdY = (difY / abs(difY)) / dmY
 
-- 
2.43.0


From 21f3a3f3e0018a4c6e25dbc694c932e6a54b3e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:04 +0000
Subject: [PATCH 19/43] fix: gradient and Hessian of the singular weight
 function

---
 src/sigmaepsilon/math/approx/functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index 2bbc308..e6cd84f 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -150,10 +150,13 @@ class SingularWeightFunction(MLSWeightFunction):
         return 1 / (norm(np.subtract(self.core, x)) ** 2 + self.eps**2)
 
     def gradient(self, x: Iterable[Number]) -> ndarray:
-        return np.zeros(self.dimension, dtype=float)
+        d = np.atleast_1d(np.subtract(self.core, x))
+        return -2 * d * self.value(x) ** 2
 
     def Hessian(self, x: Iterable[Number]) -> ndarray:
-        return np.zeros((self.dimension, self.dimension), dtype=float)
+        d = np.atleast_1d(np.subtract(self.core, x))
+        w = self.value(x)
+        return 8 * np.outer(d, d) * w**3 - 2 * np.eye(len(d)) * w**2
 
 
 class CubicWeightFunction(MLSWeightFunction):
-- 
2.43.0


From 2d34171c9134d96adfbadec5727aaaf0ba529c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:12 +0000
Subject: [PATCH 20/43] fix: neighbour queries honour max_distance and query
 options, default query points, keep the caller's options

---
 src/sigmaepsilon/math/knn.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/knn.py b/src/sigmaepsilon/math/knn.py
index 234184d..209b039 100644
--- a/src/sigmaepsilon/math/knn.py
+++ b/src/sigmaepsilon/math/knn.py
@@ -88,11 +88,12 @@ def k_nearest_neighbours(
 
     """
     tree_kwargs = {} if tree_kwargs is None else tree_kwargs
-    query_kwargs = {} if query_kwargs is None else query_kwargs
+    query_kwargs = {} if query_kwargs is None else dict(query_kwargs)
+    Y = X if Y is None else Y
     if backend == "scipy":
         tree = KD_scipy(X, leafsize=leaf_size, **tree_kwargs)
-        max_distance = np.inf if max_distance is None else max_distance
-        query_kwargs["distance_upper_bound"] = max_distance
+        if max_distance is not None:
+            query_kwargs["distance_upper_bound"] = max_distance
         if version.parse(__scipy_version__) < version.parse("1.6.0"):
             warnings.warn(
                 "Multithreaded execution of a KNN search is "
@@ -101,7 +102,7 @@ def k_nearest_neighbours(
             )
             d, i = tree.query(Y, k=k, **query_kwargs)
         else:
-            d, i = tree.query(Y, k=k, workers=workers)
+            d, i = tree.query(Y, k=k, workers=workers, **query_kwargs)
     elif backend == "sklearn":  # pragma: no cover
         if not __has_sklearn__:
             raise ImportError("'sklearn' must be installed for this!")
-- 
2.43.0


From caf861a6d7e8b73649bd824a5f8501a2ecfd86d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:29 +0000
Subject: [PATCH 21/43] fix: approximation of integer data is not truncated to
 integers

---
 src/sigmaepsilon/math/approx/mls.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/approx/mls.py b/src/sigmaepsilon/math/approx/mls.py
index 23c3524..dedec9b 100644
--- a/src/sigmaepsilon/math/approx/mls.py
+++ b/src/sigmaepsilon/math/approx/mls.py
@@ -194,6 +194,8 @@ class MLSApproximator:
         data = self.Y_S
         if len(self.Y_S.shape) == 1:
             data = atleast2d(data, back=True)
+        if not np.issubdtype(data.dtype, np.inexact):
+            data = data.astype(float)
 
         if len(data.shape) == 2:
             res = _approximate_2d(data, neighbours, factors)
-- 
2.43.0


From cc9c92cffd9e6015d50e704bba71dad254911825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:29 +0000
Subject: [PATCH 22/43] fix: approximation with a single neighbour or with
 missing neighbours

---
 src/sigmaepsilon/math/approx/mls.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/mls.py b/src/sigmaepsilon/math/approx/mls.py
index dedec9b..3d9debb 100644
--- a/src/sigmaepsilon/math/approx/mls.py
+++ b/src/sigmaepsilon/math/approx/mls.py
@@ -159,8 +159,13 @@ class MLSApproximator:
         self._factors = val
 
     def _calc_factors_and_neighbours(self, X_S: ndarray, X_T: ndarray) -> None:
-        self.neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
-        self.factors = np.ones_like(self.neighbours) / self.neighbours.shape[-1]
+        neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
+        neighbours = neighbours.reshape(len(X_T), -1)
+        # missing neighbours are indicated with an index equal to the number of points
+        found = neighbours < len(X_S)
+        self.neighbours = np.where(found, neighbours, 0)
+        with np.errstate(invalid="ignore"):
+            self.factors = found / np.sum(found, axis=-1, keepdims=True)
 
     @staticmethod
     def _get_neighbours(
-- 
2.43.0


From 195497c0662c38dca82aa6b8f7ba3056066b7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:07 +0000
Subject: [PATCH 23/43] fix: rooted level structures of disconnected graphs
 terminate

---
 src/sigmaepsilon/math/graph/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/graph/utils.py b/src/sigmaepsilon/math/graph/utils.py
index 7702be0..300b49f 100644
--- a/src/sigmaepsilon/math/graph/utils.py
+++ b/src/sigmaepsilon/math/graph/utils.py
@@ -48,6 +48,8 @@ def rooted_level_structure(adj: csr_matrix, root: int = 0) -> Dict:
         for iN in range(nN):
             if nodes[iN] == 1:
                 levelset[iN] = 0
+        if not np.any(levelset):
+            break  # the remaining nodes are not reachable from the root
         level += 1
         rls[level] = np.where(levelset == 1)[0]
         nE += len(rls[level])
-- 
2.43.0


From e982630bfe73ca47155ac7a0eed61523c7c02398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:37 +0000
Subject: [PATCH 24/43] fix: shape of a CSR matrix given without shape covers
 its column indices

---
 src/sigmaepsilon/math/linalg/sparse/csr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/sparse/csr.py b/src/sigmaepsilon/math/linalg/sparse/csr.py
index 5f568e0..b4cb465 100644
--- a/src/sigmaepsilon/math/linalg/sparse/csr.py
+++ b/src/sigmaepsilon/math/linalg/sparse/csr.py
@@ -149,7 +149,10 @@ class csr_matrix:
             self.indices = np.array(indices).astype(np.int32)
             self.indptr = np.array(indptr).astype(np.int32)
             if shape is None:
-                shape = get_shape_sp(indptr)
+                nrows, ncols = get_shape_sp(self.indptr)
+                if len(self.indices) > 0:
+                    ncols = max(ncols, self.indices.max() + 1)
+                shape = (int(nrows), int(ncols))
             self.shape = shape
 
     def to_numpy(self) -> np.ndarray:
-- 
2.43.0


From f606f358b72df1b2cd0968f0439833b51bd02550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:39 +0000
Subject: [PATCH 25/43] fix: concatenation of jagged arrays honours the axis
 argument

---
 src/sigmaepsilon/math/linalg/sparse/jaggedarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
index a344838..d257e65 100644
--- a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
+++ b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
@@ -333,6 +333,9 @@ def vstack(*args, **kwargs):
 
 @implements(np.concatenate)
 def concatenate(*args, **kwargs):
+    axis = kwargs.get("axis", 0)
+    if axis != 0:
+        return JaggedArray(ak.concatenate([t.to_ak() for t in args[0]], axis=axis))
     data = np.concatenate(list(t.flatten() for t in args[0]))
     cuts = np.concatenate(list(t.widths() for t in args[0]))
     return JaggedArray(data, cuts=cuts)
-- 
2.43.0


From ca808c9593e54d6d7a47c30b6eaca91b4241df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:06 +0000
Subject: [PATCH 26/43] fix: regular jagged arrays kept as awkward arrays
 convert to numpy without losing their type

---
 src/sigmaepsilon/math/linalg/sparse/jaggedarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
index d257e65..eb033c8 100644
--- a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
+++ b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
@@ -216,6 +216,8 @@ class JaggedArray(NDArrayOperatorsMixin, Wrapper):
         """
         if isinstance(self._wrapped, ndarray):
             return self.__array__()
+        elif not self.is_jagged():
+            return self._wrapped.to_numpy()
         else:
             return self.to_csr().to_numpy()
 
-- 
2.43.0


From 1de826725e9517e0085fd64d76f246a4be4ac3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:14 +0000
Subject: [PATCH 27/43] fix: relations with an invalid or a conflicting
 operator are rejected

---
 src/sigmaepsilon/math/function/relation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sigmaepsilon/math/function/relation.py b/src/sigmaepsilon/math/function/relation.py
index 53e5051..7088229 100644
--- a/src/sigmaepsilon/math/function/relation.py
+++ b/src/sigmaepsilon/math/function/relation.py
@@ -135,6 +135,9 @@ class Relation(Function):
 
         op = getasany(["op", "operator"], None, **kwargs)
 
+        if op_str is not None and op_str not in valid_operators:
+            raise ValueError(f"Invalid operator: {op_str}")
+
         if op:
             if isinstance(op, str):
                 if op not in valid_operators:
@@ -145,6 +148,8 @@ class Relation(Function):
             elif isinstance(op, Callable):
                 self.opfunc = op
                 self.op = None
+            else:
+                raise TypeError(f"Invalid operator: {op}")
 
         if not op and not has_op_in_input:
             if op_str in valid_operators:
@@ -159,6 +164,8 @@ class Relation(Function):
             self.op = op = Relations(operator)
 
         if op and isinstance(self.op, Relations):
+            if op_str is not None and op_str != self.op.value:
+                raise ValueError(f"Conflicting operators: {self.op.value}, {op_str}")
             self.opfunc = self.op.to_opfunc()
             self.op_str = self.op.value
 
@@ -215,6 +222,8 @@ class Equality(Relation):
         assert hasattr(self, "op")
         if self.op:
             assert self.op == Relations.eq
+        elif self.op_str:
+            assert self.op_str == Relations.eq.value
 
 
 class InEquality(Relation):
@@ -237,3 +246,5 @@ class InEquality(Relation):
         assert hasattr(self, "op")
         if self.op:
             assert self.op in {Relations.gt, Relations.ge, Relations.lt, Relations.le}
+        elif self.op_str:
+            assert self.op_str != Relations.eq.value
-- 
2.43.0


From 8f46d69f308b5d38287773ce2b74e99e061ce749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:55 +0000
Subject: [PATCH 28/43] fix: relations given as text reject != and keep all
 lines of the right side

---
 src/sigmaepsilon/math/function/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/function/utils.py b/src/sigmaepsilon/math/function/utils.py
index 00912b1..0258fd0 100644
--- a/src/sigmaepsilon/math/function/utils.py
+++ b/src/sigmaepsilon/math/function/utils.py
@@ -19,13 +19,17 @@ def parse_expression(expression: str) -> tuple[str, str, str]:
     pattern = r"(.+?)\s*(<=|>=|<|>|=)\s*(.+)"
 
     # Use re.match to extract parts of the expression
-    match = re.match(pattern, expression)
+    match = re.match(pattern, expression, re.DOTALL)
 
     if match:
         left_side = match.group(1).strip()
         operator = match.group(2)
         right_side = match.group(3).strip()
 
+        if operator == "=" and left_side.endswith("!"):
+            # not equal is not among the supported operators
+            raise ValueError(f"Invalid expression: '{expression}'")
+
         for op in valid_operators:
             if op in left_side:
                 raise ValueError(f"Invalid expression: '{expression}'")
-- 
2.43.0


From 3c5b7997d9601701151b6f6c6c285c180c7cfef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:20 +0000
Subject: [PATCH 29/43] fix: linearity of functions that are not polynomials or
 are constant zero

---
 src/sigmaepsilon/math/function/function.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 0feb7e2..b840283 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -2,9 +2,8 @@ from typing import TypeVar, Callable, Iterable
 from collections import OrderedDict
 import warnings
 
-from sympy import Expr, degree, latex
+from sympy import Expr, degree, latex, PolynomialError
 from sympy.core.numbers import One
-import numpy as np
 
 from sigmaepsilon.core.kwargtools import getasany
 
@@ -234,9 +233,11 @@ class Function(MetaFunction):
         Returns `True` if the function is at most linear in all of its variables.
         """
         if self.is_symbolic:
-            return all(
-                np.array([degree(self.expr, v) for v in self.variables], dtype=int) <= 1
-            )
+            try:
+                degrees = [degree(self.expr, v) for v in self.variables]
+            except PolynomialError:
+                return False
+            return all(d <= 1 for d in degrees)
         else:
             return self.f2 is None
 
-- 
2.43.0


From f861986187ef356925c42fac97055cf4e9b4e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:15 +0000
Subject: [PATCH 30/43] fix: coefficients of terms with constants like pi and
 of expressions that are not expanded

---
 src/sigmaepsilon/math/function/function.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index b840283..71bc94d 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -308,7 +308,10 @@ class Function(MetaFunction):
         try:
             d = OrderedDict({x: 0 for x in self.variables})
             expr = self.expr.simplify()
-            d.update(expr.as_coefficients_dict())
+            for key, value in expr.expand().as_coefficients_dict().items():
+                # constants like pi belong to the coefficient of the term
+                const, term = key.as_independent(*self.variables, as_Add=False)
+                d[term] = d.get(term, 0) + const * value
             if not normalize:
                 return d
             else:
-- 
2.43.0


From 780460e983952f62a3fd8f66f07f78bd41422ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:29 +0000
Subject: [PATCH 31/43] fix: substitution keeps the variables of the function
 and finds symbols by name

---
 src/sigmaepsilon/math/function/function.py |  7 +++++--
 src/sigmaepsilon/math/function/symutils.py | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 71bc94d..1348f3b 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -360,8 +360,11 @@ class Function(MetaFunction):
         if not self.is_symbolic:
             raise TypeError("This is exclusive to symbolic functions.")
 
-        expr = substitute(self.expr, values, variables, as_string=self.from_str)
-        kwargs = self._sympy_to_func(expr=expr, variables=variables)
+        if variables is None:
+            variables = self.variables
+
+        expr = substitute(self.expr, values, variables, as_string=True)
+        kwargs = self._sympy_to_func(expr=expr, variables=self.variables)
 
         if not inplace:
             return Function(None, None, None, **kwargs)
diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 190ed39..f4b0b5f 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -94,7 +94,18 @@ def substitute(
     if not as_string:
         return expr.subs([(v, val) for v, val in zip(variables, values)])
     else:
-        return expr.subs([(str(v), val) for v, val in zip(variables, values)])
+        # match symbols by name, whatever assumptions they have
+        symbols_by_name = {}
+        for s in expr.free_symbols:
+            symbols_by_name.setdefault(str(s), []).append(s)
+
+        pairs = []
+        for v, val in zip(variables, values):
+            for s in symbols_by_name.get(str(v), [str(v)]):
+                if s != val:
+                    pairs.append((s, val))
+
+        return expr.subs(pairs, simultaneous=True)
 
 
 def coefficients(
-- 
2.43.0


From f97178b9ea6582cd981252e391dd417cd966d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:29 +0000
Subject: [PATCH 32/43] fix: optimum value of linear programs whose objective
 declares its variables in another order

---
 src/sigmaepsilon/math/optimize/lp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index a40c1f6..cbfebbe 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -326,5 +326,6 @@ class LinearProgrammingProblem:
         _kwargs["method"] = method
         res = linprog(c, **_kwargs)
         if res.success:
-            res.fun = self.obj(res.x)
+            values = dict(zip(self.variables, res.x))
+            res.fun = self.obj([values[v] for v in self.obj.variables])
         return res
-- 
2.43.0


From a06deb80ed60a4ae33d9d5e182e81ac4f3416b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:46 +0000
Subject: [PATCH 33/43] fix: linear programs use the operator symbol of
 constraints defined with a callable and reject unknown operators

---
 src/sigmaepsilon/math/optimize/lp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index cbfebbe..2ea67fb 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -162,6 +162,10 @@ class LinearProgrammingProblem:
                 if not constraint.is_symbolic:
                     raise ValueError("The constraints must be symbolic!")
 
+                if not isinstance(constraint, Equality):
+                    if constraint.op is None and constraint.op_str is None:
+                        raise ValueError("The operator of the constraint is unknown!")
+
                 self.constraints.append(constraint)
                 _variables += constraint.variables
             else:
@@ -254,14 +258,15 @@ class LinearProgrammingProblem:
                 A_ub_multiplier = 1
                 b_ub_multiplier = 1
                 b_ub_adjustment = 0.0
-                if ieq.op == Relations.ge:
+                op = ieq.op or Relations(ieq.op_str)
+                if op == Relations.ge:
                     A_ub_multiplier = -1
                     b_ub_multiplier = -1
-                elif ieq.op == Relations.gt:
+                elif op == Relations.gt:
                     A_ub_multiplier = -1
                     b_ub_multiplier = -1
                     b_ub_adjustment = -SMALLNUM
-                elif ieq.op == Relations.lt:
+                elif op == Relations.lt:
                     b_ub_adjustment = -SMALLNUM
 
                 if self._sparsify:
-- 
2.43.0


From f1b2853d31ca14d5a4217bfc189befb2329c3771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:34 +0000
Subject: [PATCH 34/43] fix: relations given as text need both sides

---
 src/sigmaepsilon/math/function/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sigmaepsilon/math/function/utils.py b/src/sigmaepsilon/math/function/utils.py
index 0258fd0..e51956b 100644
--- a/src/sigmaepsilon/math/function/utils.py
+++ b/src/sigmaepsilon/math/function/utils.py
@@ -26,6 +26,9 @@ def parse_expression(expression: str) -> tuple[str, str, str]:
         operator = match.group(2)
         right_side = match.group(3).strip()
 
+        if not left_side or not right_side:
+            raise ValueError(f"Invalid expression: '{expression}'")
+
         if operator == "=" and left_side.endswith("!"):
             # not equal is not among the supported operators
             raise ValueError(f"Invalid expression: '{expression}'")
-- 
2.43.0


From 9d1dc446f7dc04d2381995326b880fd80c501453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:24 +0000
Subject: [PATCH 35/43] fix: a pool of two parents hands out its one pair, so
 the smallest population works

---
 src/sigmaepsilon/math/optimize/ga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index e58f7eb..cc7cca8 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -597,9 +597,9 @@ class GeneticAlgorithm:
         assert n % 2 == 0, "'n' must be a multiple of 2"
         pool = np.full(n, True)
         nPool = n
-        while nPool > 2:
+        while nPool > 1:
             where = np.argwhere(pool == True).flatten()
-            nPool = len(where)
+            nPool = len(where) - 2
             pair = np.random.choice(where, 2, replace=False)
             parent1 = genotypes[pair[0]]
             parent2 = genotypes[pair[1]]
-- 
2.43.0


From b3587897fbe7bbc2b9b92ad90cef462cc843c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:24 +0000
Subject: [PATCH 36/43] fix: selection works with elitism turned off

---
 src/sigmaepsilon/math/optimize/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index cc7cca8..3dec818 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -557,7 +557,7 @@ class GeneticAlgorithm:
         assert fitness is not None, "No available fitness data detected."
 
         if self.elitism is None:
-            return [], list(range(self.nPop))
+            return np.array([], dtype=int), np.arange(self.nPop)
 
         if self.elitism is not None:
             argsort = np.argsort(fitness)
-- 
2.43.0


From d58c39f3ebaed60ff27ca99738db5d5d1425a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 37/43] fix: an odd number of elites over half the population
 can be paired up

---
 src/sigmaepsilon/math/optimize/bga.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/bga.py b/src/sigmaepsilon/math/optimize/bga.py
index 10b5fe6..8a2beae 100644
--- a/src/sigmaepsilon/math/optimize/bga.py
+++ b/src/sigmaepsilon/math/optimize/bga.py
@@ -186,8 +186,9 @@ class BinaryGeneticAlgorithm(GeneticAlgorithm):
             )
         winners, others = self.divide(fitness)
         winners = winners.tolist()
-        while len(winners) < int(self.nPop / 2):
-            candidates = np.random.choice(others, 3, replace=False)
+        # parents are paired up, hence an odd number of elites calls for one more winner
+        while len(winners) < int(self.nPop / 2) or len(winners) % 2 == 1:
+            candidates = np.random.choice(others, min(3, len(others)), replace=False)
             argsort = np.argsort([fitness[ID] for ID in candidates])
             winner = argsort[0] if self._minimize else argsort[-1]
             winners.append(candidates[winner])
-- 
2.43.0


From d15967bfab7d251fa5c2df4f7f488fa58265b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 38/43] fix: an elitism of 1.0 is accepted like 1

---
 src/sigmaepsilon/math/optimize/ga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 3dec818..9b5e76f 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -568,8 +568,8 @@ class GeneticAlgorithm:
             elit = argsort[: int(self.nPop * self.elitism)]
             others = argsort[int(self.nPop * self.elitism) :]
         else:
-            elit = argsort[: self.elitism]
-            others = argsort[self.elitism :]
+            elit = argsort[: int(self.elitism)]
+            others = argsort[int(self.elitism) :]
 
         return elit, others
 
-- 
2.43.0


From 664d80069d699a6edd4dc74686cdf2755c24ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 39/43] fix: objectives of unknown dimension take it from the
 ranges

---
 src/sigmaepsilon/math/optimize/ga.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 9b5e76f..b1b3272 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -196,7 +196,9 @@ class GeneticAlgorithm:
         super().__init__()
         self.fnc = fnc
         self.ranges = np.array(ranges)
-        self.dim = getattr(fnc, "dimension", self.ranges.shape[0])
+        self.dim = getattr(fnc, "dimension", None)
+        if self.dim is None:
+            self.dim = self.ranges.shape[0]
         self.length = length
 
         if odd(nPop):
-- 
2.43.0


From 448671eb804fb183afb643c0f5c0fbe44a858b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 40/43] fix: constant symbolic objectives give one fitness
 value per candidate

---
 src/sigmaepsilon/math/optimize/ga.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index b1b3272..7839296 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -477,6 +477,8 @@ class GeneticAlgorithm:
             phenotypes = self.phenotypes if phenotypes is None else phenotypes
             if self._is_symbolic_Function:
                 result = self.fnc(phenotypes.T)
+                if np.ndim(result) == 0:  # the objective is constant
+                    result = np.full(len(phenotypes), result, dtype=float)
             else:
                 result = np.array([self.fnc(x) for x in phenotypes], dtype=float)
             self.state.n_fev += len(phenotypes)
-- 
2.43.0


From 41529b572dfee2f3d171c8c39fb1a792f16440e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:40 +0000
Subject: [PATCH 41/43] fix: Lagrange bases of a single node

---
 src/sigmaepsilon/math/approx/lagrange.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/lagrange.py b/src/sigmaepsilon/math/approx/lagrange.py
index eda668a..52fbc99 100644
--- a/src/sigmaepsilon/math/approx/lagrange.py
+++ b/src/sigmaepsilon/math/approx/lagrange.py
@@ -117,14 +117,14 @@ def gen_Lagrange_1d(
         N = len(x) if x is not None else len(i)
     inds = list(range(1, N + 1)) if i is None else i
 
-    coeffs = sy.symbols(", ".join(["c_{}".format(i + 1) for i in range(N)]))
-    variables = sy.symbols(", ".join([_var_str(inds, i) for i in range(N)]))
+    coeffs = sy.symbols(", ".join(["c_{}".format(i + 1) for i in range(N)]), seq=True)
+    variables = sy.symbols(", ".join([_var_str(inds, i) for i in range(N)]), seq=True)
     if x is None:
         if not sym:
             x = np.linspace(-1, 1, N)
         else:
             symbols = [xsym + "_{}".format(i + 1) for i in range(N)]
-            x = sy.symbols(", ".join(symbols))
+            x = sy.symbols(", ".join(symbols), seq=True)
     poly = sum([c * xvar**i for i, c in enumerate(coeffs)])
 
     evals = [poly.subs({xsym: x[i]}) for i in range(N)]
-- 
2.43.0


From a3aa718ffd3ac7d08bfdc9586910545ef64c6209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:40 +0000
Subject: [PATCH 42/43] fix: generated Lagrange functions can be stored in a
 plain dictionary

---
 src/sigmaepsilon/math/approx/lagrange.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/approx/lagrange.py b/src/sigmaepsilon/math/approx/lagrange.py
index 52fbc99..83deb1e 100644
--- a/src/sigmaepsilon/math/approx/lagrange.py
+++ b/src/sigmaepsilon/math/approx/lagrange.py
@@ -142,6 +142,8 @@ def gen_Lagrange_1d(
     dshp3 = [_diff(xvar, fnc) for fnc in dshp2]
 
     for i, ind in enumerate(inds):
+        if not isinstance(module_data, DeepDict):
+            module_data.setdefault(ind, DeepDict())
         fnc_str = latex(sy.symbols(fsym + "_{}".format(ind)))
         module_data[ind]["symbol"] = fnc_str
         module_data[ind][0] = shp[i]
-- 
2.43.0


From f1f12d5997cbe51d5279d816c1bbd2b8447dbdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:03 +0000
Subject: [PATCH 43/43] fix: axes that are not rectangular or orthonormal are
 rejected by frames of those classes

---
 src/sigmaepsilon/math/linalg/frame.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index da11f7e..455efbb 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -673,6 +673,21 @@ class RectangularFrame(ReferenceFrame):
                 self.axes
             ), "This frame is not rectangular, check your input!"
 
+    @ReferenceFrame.axes.setter
+    def axes(self, value: Iterable):
+        """
+        Sets the array of the frame. The class relies on its axes being rectangular,
+        other axes are rejected.
+        """
+        arr = np.array(value, dtype=float)
+        square = arr.shape == self._array.shape and len(arr.shape) == 2
+        if square and not self._admits_axes(arr):
+            raise ValueError(f"These axes are not valid for a {type(self).__name__}!")
+        ReferenceFrame.axes.fset(self, value)
+
+    def _admits_axes(self, axes: ndarray) -> bool:
+        return is_rectangular_frame(axes)
+
     @property
     def is_rectangular(self) -> bool:
         """
@@ -776,6 +791,9 @@ class CartesianFrame(RectangularFrame):
         """
         return True
 
+    def _admits_axes(self, axes: ndarray) -> bool:
+        return is_orthonormal_frame(axes)
+
     @property
     def is_cartesian(self) -> bool:
         """
-- 
2.43.0

