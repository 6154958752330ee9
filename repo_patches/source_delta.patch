From 79d81d0a7ae905d4ba29dc0266438bb22e3114f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 01/32] fix: multivector cos/sin silently returned the input;
 implement them on the array contexts

---
 numga/backend/jax/context.py   | 4 ++++
 numga/backend/numpy/context.py | 4 ++++
 numga/backend/torch/context.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/numga/backend/jax/context.py b/numga/backend/jax/context.py
index 7713f72..50986b4 100644
--- a/numga/backend/jax/context.py
+++ b/numga/backend/jax/context.py
@@ -45,6 +45,10 @@ class JaxContext(AbstractContext):
 		return jnp.log(x)
 	def exp(self, x):
 		return jnp.exp(x)
+	def cos(self, x):
+		return jnp.cos(x)
+	def sin(self, x):
+		return jnp.sin(x)
 	def abs(self, x):
 		return jnp.abs(x)
 
diff --git a/numga/backend/numpy/context.py b/numga/backend/numpy/context.py
index 46a2949..c14eb93 100644
--- a/numga/backend/numpy/context.py
+++ b/numga/backend/numpy/context.py
@@ -48,6 +48,10 @@ class NumpyContext(AbstractContext):
 		return np.log(x)
 	def exp(self, x):
 		return np.exp(x)
+	def cos(self, x):
+		return np.cos(x)
+	def sin(self, x):
+		return np.sin(x)
 	def abs(self, x):
 		return np.abs(x)
 
diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index fb2b66c..c0e9b76 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -48,6 +48,10 @@ class TorchContext(AbstractContext):
 		return torch.log(x)
 	def exp(self, x):
 		return torch.exp(x)
+	def cos(self, x):
+		return torch.cos(x)
+	def sin(self, x):
+		return torch.sin(x)
 	def abs(self, x):
 		return torch.abs(x)
 
-- 
2.43.0


From 544e4d07aa0097915237a9f0c437ba1019521228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 02/32] fix: context.pow called a function numpy and jax do not
 provide

---
 numga/backend/jax/context.py   | 2 +-
 numga/backend/numpy/context.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/backend/jax/context.py b/numga/backend/jax/context.py
index 50986b4..a3d0957 100644
--- a/numga/backend/jax/context.py
+++ b/numga/backend/jax/context.py
@@ -53,7 +53,7 @@ class JaxContext(AbstractContext):
 		return jnp.abs(x)
 
 	def pow(self, x1, x2):
-		return jnp.pow(x1, x2)
+		return jnp.power(x1, x2)
 
 	def min(self, x, **kwargs):
 		return jnp.min(x, **kwargs)
diff --git a/numga/backend/numpy/context.py b/numga/backend/numpy/context.py
index c14eb93..0eb34a6 100644
--- a/numga/backend/numpy/context.py
+++ b/numga/backend/numpy/context.py
@@ -56,7 +56,7 @@ class NumpyContext(AbstractContext):
 		return np.abs(x)
 
 	def pow(self, x1, x2):
-		return np.pow(x1, x2)
+		return np.power(x1, x2)
 
 	def where(self, cond, a, b):
 		return np.where(cond, a, b)
-- 
2.43.0


From 72c4fce11b88a8860459cbb5f3f32247a22fa8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 03/32] fix: torch context.min returned a (values, indices)
 pair instead of the minimum

---
 numga/backend/torch/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index c0e9b76..9d8afcd 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -59,7 +59,7 @@ class TorchContext(AbstractContext):
 		return torch.pow(x1, x2)
 
 	def min(self, x, axis):
-		return torch.min(x, dim=axis)
+		return torch.amin(x, dim=axis)
 	def argmin(self, x, axis):
 		return torch.argmin(x, dim=axis)
 	def all(self, x, axis):
-- 
2.43.0


From c164b0d9f0d77a3a2f580ffe3f97bde8f02a6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 04/32] fix: transform applied its sign to the wrong kernel
 axis

---
 numga/operator/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5174c6e..5efaaaf 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -541,7 +541,7 @@ class OperatorFactory:
 		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
 		S = self.sandwich(R, v)
 		sign_mask = parity_to_sign(v.grades() * parity)
-		return Operator(kernel=S.kernel * sign_mask[None, :, None], axes=S.axes)
+		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
 
 	@cache
 	def inverse_transform(self, R: SubSpace, v: SubSpace) -> Operator:
-- 
2.43.0


From 1da0a0feec5cbce6dbae16e2183d740e0a08432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 05/32] fix: inverse transform could not be constructed nor
 reached from multivectors

---
 numga/multivector/multivector.py | 2 +-
 numga/operator/factory.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/multivector/multivector.py b/numga/multivector/multivector.py
index 793ead4..19461b6 100644
--- a/numga/multivector/multivector.py
+++ b/numga/multivector/multivector.py
@@ -195,7 +195,7 @@ class AbstractMultiVector:
 	def transform(self, other):
 		return self.operator.transform(self.subspace, other.subspace)(self, other, self)
 	def reverse_transform(self, other):
-		return self.operator.reverse_transform(self.subspace, other.subspace)(self, other, self)
+		return self.operator.inverse_transform(self.subspace, other.subspace)(self, other, self)
 	def inverse_factor(self):
 		return self.operator.inverse_factor(self.subspace)(self, self, self)
 
diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5efaaaf..7371f8c 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -538,7 +538,7 @@ class OperatorFactory:
 		That is, transform(R, v) ^ transform(R, u) == transform(R, v ^ u)
 		Note; R is assumed normalized/motorized
 		"""
-		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
+		parity = match(R.subspace.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
 		S = self.sandwich(R, v)
 		sign_mask = parity_to_sign(v.grades() * parity)
 		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
-- 
2.43.0


From 54c3f8e4049f1e1d30adc77f35862096e0fd88aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 06/32] fix: dual_norm_squared referred to an operator that
 does not exist

---
 numga/operator/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 7371f8c..0eb4278 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -470,7 +470,7 @@ class OperatorFactory:
 	@cache
 	def dual_norm_squared(self, v: SubSpace) -> Operator:
 		"""norm_squared(*v)"""
-		return self.norm_squared(self.dual(v))
+		return self.symmetric_reverse_product(self.dual(v))
 
 	@cache
 	def study_conjugate(self, subspace) -> "Operator":
-- 
2.43.0


From 436838a8522119d1d25e2f9b71de3e0fc3578b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 07/32] fix: Operator.add_broadcast added subspaces with an
 operator they do not define

---
 numga/operator/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 7b3c36f..099c4c4 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -82,7 +82,7 @@ class Operator:
 	def add(self, other: "Operator") -> "Operator":
 		return Operator(self.kernel + other.kernel, match((self.axes, other.axes)))
 	def add_broadcast(self, other: "Operator") -> "Operator":
-		axes = [sa + oa for sa, oa in zip(self.axes, other.axes)]
+		axes = [sa.union(oa) for sa, oa in zip(self.axes, other.axes)]
 		return self.deslice(axes) + other.deslice(axes)
 
 	def mul(self, s) -> "Operator":
-- 
2.43.0


From d22de018fea37582992f4c9d0fa026310b89a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 08/32] fix: subspace.select[grade] failed for a single grade
 or a tuple of grades

---
 numga/subspace/namespaces.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index f1f04f7..c32284d 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -54,6 +54,7 @@ class SelectNamespace:
 			return lambda *args: self.subspace.select_subspace(subspace(*args))
 
 	def __getitem__(self, item):
+		item = list(item) if isinstance(item, (tuple, list)) else [item]
 		subspace = self.factory.from_grades(item)
 		return self.subspace.select_subspace(subspace)
 
-- 
2.43.0


From ba8f564a475d1a66f86ded701d554a601cfdaf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 09/32] fix: subspace.restrict(...) and restrict[...] selected
 instead of restricting

---
 numga/subspace/namespaces.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index c32284d..2fe33f6 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -70,3 +70,11 @@ class RestrictNamespace(SelectNamespace):
 			return self.subspace.restrict_subspace(subspace)
 		else:
 			return lambda *args: self.subspace.restrict_subspace(subspace(*args))
+
+	def __getitem__(self, item):
+		item = list(item) if isinstance(item, (tuple, list)) else [item]
+		subspace = self.factory.from_grades(item)
+		return self.subspace.restrict_subspace(subspace)
+
+	def __call__(self, subspace):
+		return self.subspace.restrict_subspace(subspace)
-- 
2.43.0


From 7de9ee51abdef34e6610332ce4c37ab217dc6a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 10/32] fix: decompose_polar condition referred to a subspace
 that does not exist

---
 numga/multivector/extension/decompose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/decompose.py b/numga/multivector/extension/decompose.py
index 3f963dc..c51c573 100644
--- a/numga/multivector/extension/decompose.py
+++ b/numga/multivector/extension/decompose.py
@@ -19,7 +19,7 @@ mv.decompose_polar = SubspaceDispatch("""
 	----------
 	PGA4CS eq 68-70
 	""")
-@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().inside.study())
+@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().is_study)
 def decompose_polar(b: BiVector) -> Tuple[BiVector, Study]:
 	# FIXME: special case the b=0 or not s.inv() case?
 	s: Study = b.symmetric_reverse_product().square_root()
-- 
2.43.0


From c764dcf2a83569bf46dc99d4fa826ebf51bcdc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 11/32] fix: default exp condition was always true

---
 numga/multivector/extension/logexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index 93a2c21..97bd74e 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -38,7 +38,7 @@ def scalar_exp(s: Scalar) -> Scalar:
 def degenerate_exp(b: BiVector) -> Motor:
 	"""If we know all basis elements square to zero, might as well use that information"""
 	return b + 1
-@mv.exp.register(lambda s: s.inside.bivector)
+@mv.exp.register(lambda s: s.inside.bivector())
 def default_exp(b: BiVector) -> "Motor":
 	"""default to numerical brute force"""
 	return b.exp_bisect()
-- 
2.43.0


From 515d02decde035722653d7dbfaae01aa7d77385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 12/32] fix: dispatch kept stale matches after registering a
 new implementation

---
 numga/dynamic_dispatch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numga/dynamic_dispatch.py b/numga/dynamic_dispatch.py
index 4f65bc5..586bd35 100644
--- a/numga/dynamic_dispatch.py
+++ b/numga/dynamic_dispatch.py
@@ -43,6 +43,7 @@ class DynamicDispatch:
 		def wrap(func):
 			"""This wrapper gets called by the @ syntax"""
 			self.options.insert(position, (condition, func))
+			self.cache.clear()  # earlier matches may be superseded
 			return func
 		return wrap
 
-- 
2.43.0


From a4974e264afaaf7c78390cb10e9fb912e07c3cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 13/32] fix: copying a torch multivector raised

---
 numga/backend/torch/multivector.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index 40003b3..9df04a9 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -28,6 +28,13 @@ class TorchMultiVector(AbstractMultiVector):
 			subspace=subspace
 		)
 
+	def copy(self, values=None, subspace=None):
+		# torch tensors have no copy method
+		return super(TorchMultiVector, self).copy(
+			values=self.values.clone() if values is None else values,
+			subspace=subspace
+		)
+
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
 		try:
-- 
2.43.0


From f707d140ed0329a8d3a8c5f2c4e4d8271b85a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 14/32] fix: torch dense operators could not be evaluated

---
 numga/backend/torch/operator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 102ba1d..96989ce 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -106,6 +106,8 @@ class TorchDenseOperator(TorchOperator):
 		super(TorchDenseOperator, self).__init__(*args, **kwargs)
 		# precompute reshape operations
 		self.shapes = self.broadcasting_shapes
+		# contraction over all kernel input axes
+		self.sum_axes = tuple(-(a + 2) for a in range(self.arity))
 
 	def __call__(self, *inputs: Tuple[TorchMultiVector]) -> TorchMultiVector:
 		# kernel, shapes = self.precompute
@@ -113,8 +115,8 @@ class TorchDenseOperator(TorchOperator):
 		kernel = self.context.coerce_array(self.kernel)
 		return self.context.multivector(
 			values=torch.sum(
-				math.prod((i.values.reshape(s) for i, s in zip(inputs, self.shapes)), start=kernel),
-				dim=range(self.arity)
+				math.prod((i.values.reshape(i.shape + s) for i, s in zip(inputs, self.shapes)), start=kernel),
+				dim=self.sum_axes
 			),
 			subspace=self.output
 		)
-- 
2.43.0


From e6144766b19cd0ed0456b5f954750d6500344598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 15/32] fix: python operators left a spurious scalar one in
 unwritten components

---
 numga/backend/python/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/python/operator.py b/numga/backend/python/operator.py
index 9158664..a0d943b 100644
--- a/numga/backend/python/operator.py
+++ b/numga/backend/python/operator.py
@@ -10,7 +10,7 @@ class PythonSparseOperator(AbstractConcreteOperator):
 
 	def __call__(self, *inputs: Tuple[PythonMultiVector]) -> PythonMultiVector:
 		terms = self.precompute_sparse
-		output = self.context.multivector(self.output)
+		output = self.context.multivector(self.output, [0] * len(self.output))
 		for ci, term in terms:
 			output.values[ci] = sum(
 				math.prod((inp.values[ii] for inp, ii in zip(inputs, idx)), start=scalar)
-- 
2.43.0


From bd825ae66306c2e49b94f94b0bb61a87e94215af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 16/32] fix: addition, subtraction and negation of python
 multivectors

---
 numga/backend/python/multivector.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/numga/backend/python/multivector.py b/numga/backend/python/multivector.py
index 9fc61cf..8686ede 100644
--- a/numga/backend/python/multivector.py
+++ b/numga/backend/python/multivector.py
@@ -26,4 +26,19 @@ class PythonMultiVector(AbstractMultiVector):
 			subspace=subspace
 		)
 
+	# lists do not have array semantics
+	def upcast(self, x):
+		return x if isinstance(x, type(self)) else self.context.multivector.scalar([x])
+
+	def combine(self, other, sign):
+		other = self.upcast(other)
+		combined = self.subspace.union(other.subspace)
+		l, r = self.select_subspace(combined), other.select_subspace(combined)
+		return self.copy(
+			values=[a + b * sign for a, b in zip(l.values, r.values)],
+			subspace=combined
+		)
+
+	def __neg__(self):
+		return self.copy(values=[-v for v in self.values])
 
-- 
2.43.0


From 0f4754da46f651b554919239e3fa1d0c0b8a13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 17/32] fix: numpy arrays on the left of a multivector
 broadcast over it as an object

---
 numga/multivector/multivector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numga/multivector/multivector.py b/numga/multivector/multivector.py
index 19461b6..79e7eb2 100644
--- a/numga/multivector/multivector.py
+++ b/numga/multivector/multivector.py
@@ -19,6 +19,9 @@ class AbstractMultiVector:
 	"""
 	# derived classes should have a values attribute, that defines the backing storage
 	values = None
+	# let `ndarray op multivector` defer to our reflected operators,
+	# rather than have numpy distribute over the elements of the array
+	__array_ufunc__ = None
 	# algebraic (sub)space this multi-vector is part of
 	# this ought to be viewed as an extension of the type of the multivector object,
 	# since it is an immutable property that strongly influences the method dispatch of the object
-- 
2.43.0


From bd843f83eb45279a3ef624bbe58b9b00078c14d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 18/32] fix: bivector and trivector inverses dropped their
 grade 6 and 7 components

The special cases registered for up to 5 dimensions were also selected in
degenerate algebras of 6 dimensions, where they returned a wrong inverse.
---
 numga/multivector/extension/inverse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numga/multivector/extension/inverse.py b/numga/multivector/extension/inverse.py
index f57f5ca..e5fb409 100644
--- a/numga/multivector/extension/inverse.py
+++ b/numga/multivector/extension/inverse.py
@@ -89,11 +89,12 @@ def simplify_inverses_register_higher_order(n):
 def register_special_case_5d():
 	# register these two special hand optimized cases for 5d
 	# dont like these single grade cases getting unnecessary zeros otherwise
-	@mv.inverse.register(lambda s: s.inside.bivector())
+	# the inverse of a bivector (trivector) may have a component of grade 6 (7) if there is one
+	@mv.inverse.register(lambda s: s.inside.bivector() and s.algebra.n_dimensions < 6)
 	def bivector_inverse_5d(b: BiVector) -> BiVector:
 		return b.bivector_product(-(b.symmetric_reverse_product().inverse()))
 
-	@mv.inverse.register(lambda s: s.inside.trivector())
+	@mv.inverse.register(lambda s: s.inside.trivector() and s.algebra.n_dimensions < 7)
 	def trivector_inverse_5d(t):
 		return t.trivector_product(t.squared().inverse())
 
-- 
2.43.0


From fa1c5b62eedc7c54d8737cc24936373c1ba27840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 19/32] fix: exponential of degenerate elements ignored
 products of distinct null directions

With two or more null dimensions, elements whose basis blades all square to zero
can still have a nonzero square, so exp(b) = 1 + b is not the exponential.
---
 numga/multivector/extension/logexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index 97bd74e..9d7c459 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -34,9 +34,9 @@ def empty_exp(e) -> Scalar:
 def scalar_exp(s: Scalar) -> Scalar:
 	"""Vanilla scalar exp"""
 	return s.copy(s.context.exp(s.values))
-@mv.exp.register(lambda s: s.is_degenerate)
+@mv.exp.register(lambda s: s.is_degenerate and s.squared().equals.empty())
 def degenerate_exp(b: BiVector) -> Motor:
-	"""If we know all basis elements square to zero, might as well use that information"""
+	"""If we know the square vanishes, might as well use that information"""
 	return b + 1
 @mv.exp.register(lambda s: s.inside.bivector())
 def default_exp(b: BiVector) -> "Motor":
-- 
2.43.0


From ff2eadd3371e4ee3d9e9ec7abaaecca65e05f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 20/32] fix: multivector.select/restrict.multivector() returned
 the wrapped multivector instead of selecting the full subspace

---
 numga/multivector/namespaces.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/numga/multivector/namespaces.py b/numga/multivector/namespaces.py
index d059353..ae20873 100644
--- a/numga/multivector/namespaces.py
+++ b/numga/multivector/namespaces.py
@@ -10,35 +10,35 @@ from numga.subspace.subspace import SubSpace
 
 class SelectNamespace:
 	def __init__(self, multivector):
-		self.multivector = multivector
+		self._multivector = multivector
 		self.factory = multivector.context.subspace
 
 	def __getattr__(self, item):
 		subspace = getattr(self.factory, item)
 		if isinstance(subspace, SubSpace):
-			return self.multivector.select_subspace(subspace)
+			return self._multivector.select_subspace(subspace)
 		else:
-			return lambda *args: self.multivector.select_subspace(subspace(*args))
+			return lambda *args: self._multivector.select_subspace(subspace(*args))
 
 	def __getitem__(self, item):
 		item = list(item) if isinstance(item, tuple) else [item]
 		subspace = self.factory.from_grades(item)
-		return self.multivector.select_subspace(subspace)
+		return self._multivector.select_subspace(subspace)
 
 
 class RestrictNamespace:
 	def __init__(self, multivector):
-		self.multivector = multivector
+		self._multivector = multivector
 		self.factory = multivector.context.subspace
 
 	def __getattr__(self, item):
 		subspace = getattr(self.factory, item)
 		if isinstance(subspace, SubSpace):
-			return self.multivector.restrict_subspace(subspace)
+			return self._multivector.restrict_subspace(subspace)
 		else:
-			return lambda *args: self.multivector.restrict_subspace(subspace(*args))
+			return lambda *args: self._multivector.restrict_subspace(subspace(*args))
 
 	def __getitem__(self, item):
 		item = list(item) if isinstance(item, tuple) else [item]
 		subspace = self.factory.from_grades(item)
-		return self.multivector.restrict_subspace(subspace)
+		return self._multivector.restrict_subspace(subspace)
-- 
2.43.0


From 5b66834f19463359c0ae20c52f7536262350081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 21/32] fix: inverse of a torch operator that holds a symbolic
 kernel raised

---
 numga/backend/torch/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 96989ce..57789b4 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -93,7 +93,7 @@ class TorchOperator(AbstractConcreteOperator):
 		return TorchEinsumOperator(
 			self.context,
 			Operator(
-				kernel=self.context.coerce_array(torch.linalg.inv(self.kernel)),
+				kernel=self.context.coerce_array(torch.linalg.inv(self.context.coerce_array(self.kernel))),
 				axes=(self.operator.axes[1], self.operator.axes[0]),
 			)
 		)
-- 
2.43.0


From acbfe2e8206f02954fcfcde361e331d1ec0b883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 22/32] fix: torch multivectors, operators and updates read a
 tuple of indices as one index array

---
 numga/backend/torch/context.py     | 3 ++-
 numga/backend/torch/multivector.py | 3 ++-
 numga/backend/torch/operator.py    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index 9d8afcd..a11ca4e 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -24,7 +24,8 @@ class TorchContext(AbstractContext):
 
 	def set_array(self, arr, idx, values):
 		try:
-			idx = torch.asarray(idx)
+			# a tuple holds one index per axis
+			idx = idx if isinstance(idx, tuple) else torch.asarray(idx)
 		except:
 			pass
 
diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index 9df04a9..2014add 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -38,7 +38,8 @@ class TorchMultiVector(AbstractMultiVector):
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
 		try:
-			idx = torch.asarray(idx)
+			# a tuple holds one index per axis
+			idx = idx if isinstance(idx, tuple) else torch.asarray(idx)
 		except:
 			pass
 		v = self.values[idx]
diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 57789b4..9fdbd63 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -40,7 +40,8 @@ class TorchOperator(AbstractConcreteOperator):
 
 	def __getitem__(self, idx):
 		try:
-			idx = torch.asarray(idx)
+			# a tuple holds one index per axis
+			idx = idx if isinstance(idx, tuple) else torch.asarray(idx)
 		except:
 			pass
 		k = self.kernel[idx]
-- 
2.43.0


From 667ee0c6edc00ea11c4f59e69ee5aebda0901e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 23/32] fix: key concrete operators by their type, not by its
 printed name

---
 numga/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/context.py b/numga/context.py
index ebd5526..2c5db23 100644
--- a/numga/context.py
+++ b/numga/context.py
@@ -41,7 +41,7 @@ class ConcreteOperatorFactory:
 			# note: this implies we need a 1-1 match between the operators defined in both
 			# the abstract and concrete operator factories
 			# note that we include the type of operator as well, to cover the case where otype is dynamic
-			params = operator_name, args, str(self.context.otype)
+			params = operator_name, args, self.context.otype
 			try:
 				return self.cache[params]
 			except:
-- 
2.43.0


From da1016b0cbf119baca0a3b6702158f3ed27ec1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 24/32] fix: jax inverse_la could not be traced (the index of
 the scalar was computed with a staged nonzero)

---
 numga/backend/jax/multivector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numga/backend/jax/multivector.py b/numga/backend/jax/multivector.py
index 4f90a51..0b7533f 100644
--- a/numga/backend/jax/multivector.py
+++ b/numga/backend/jax/multivector.py
@@ -1,3 +1,4 @@
+import numpy as np
 from jax import numpy as jnp
 
 from numga.backend.jax import pytree
@@ -70,7 +71,8 @@ class JaxMultiVector(AbstractMultiVector):
 		inverse_subspace = self.operator.inverse_factor(self.subspace).output
 		op = self.operator.product(self.subspace, inverse_subspace)
 		k = op.partial({0: self}).kernel
-		idx, = jnp.flatnonzero(op.output.blades == 0)    # grab index of scalar of output; zero or raises
+		# static; jnp would stage it under jit, where its shape is unknown
+		idx, = np.flatnonzero(op.output.blades == 0)    # grab index of scalar of output; zero or raises
 		r = jnp.linalg.solve(    # use least squares to solve for inverse
 			jnp.einsum('...ji,...ki->...jk', k, k), # k.T * k
 			k[..., idx],    #equal to  k.T * unit_scalar
-- 
2.43.0


From d88703e529ed79e577009399f256656e759bd4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 25/32] fix: basis blades first made under a jax trace were
 cached as tracers that outlive it

---
 numga/multivector/factory.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/numga/multivector/factory.py b/numga/multivector/factory.py
index 263f146..a8167a5 100644
--- a/numga/multivector/factory.py
+++ b/numga/multivector/factory.py
@@ -2,7 +2,6 @@ from typing import List
 
 from numga.context import AbstractContext
 from numga.multivector.multivector import AbstractMultiVector
-from numga.util import cache
 
 
 class MultiVectorFactory:
@@ -24,7 +23,7 @@ class MultiVectorFactory:
 	def __call__(self, subspace=None, values=None):
 		return self.multivector(values, subspace)
 
-	@cache
+	# NOTE: not cached; arrays created under a jax trace must not outlive it
 	def __getattr__(self, blade: str) -> "MultiVector":
 		"""Construct a basis blade according to the given blade string"""
 		basis = self.basis()
-- 
2.43.0


From d67000f6c8908ebb33858ad10663c2eb1a9652c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 26/32] fix: selecting or restricting components of an operator
 composes with it

---
 numga/operator/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 0eb4278..4d1551f 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -85,12 +85,12 @@ class OperatorFactory:
 		# NOTE: dont squeeze here; broadcasting to zero blades is part of intended functionality
 		return Operator.build(
 			identity.take(i.subspace.blades, axis=0).take(o.subspace.blades, axis=1),
-			(i.subspace, o.subspace)
+			(i, o.subspace)
 		)
 	@cache
 	def restrict(self, i: SubSpace, o: SubSpace) -> Operator:
 		"""Restrict i to o; drop terms not in o"""
-		return self.select(i, o.intersection(i))
+		return self.select(i, o.intersection(i.subspace))
 
 	# @cache
 	# def grade_negation(self, subspace, grades: Tuple[int]) -> "Operator":
-- 
2.43.0


From ca003d6da21e4ba9fd82c10141b7ac686a8d7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 27/32] fix: a coefficient of RK8 (it was only third order
 accurate)

---
 numga/examples/integrators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/examples/integrators.py b/numga/examples/integrators.py
index 69f7eb1..f70c2aa 100644
--- a/numga/examples/integrators.py
+++ b/numga/examples/integrators.py
@@ -20,7 +20,7 @@ def RK8(func, y, h):
 	k_5 = func(y + (h / 8) * (k_1 + 3 * k_4))
 	k_6 = func(y + (h / 54) * (13 * k_1 - 27 * k_3 + 42 * k_4 + 8 * k_5))
 	k_7 = func(y + (h / 4320) * (389 * k_1 - 54 * k_3 + 966 * k_4 - 824 * k_5 + 243 * k_6))
-	k_8 = func(y + (h / 20) * (-234 * k_1 + 81 * k_3 - 1164 * k_4 + 656 * k_5 - 122 * k_6 + 800 * k_7))
+	k_8 = func(y + (h / 20) * (-231 * k_1 + 81 * k_3 - 1164 * k_4 + 656 * k_5 - 122 * k_6 + 800 * k_7))
 	k_9 = func(y + (h / 288) * (-127 * k_1 + 18 * k_3 - 678 * k_4 + 456 * k_5 - 9 * k_6 + 576 * k_7 + 4 * k_8))
 	k_10 = func(y + (h / 820) * (
 			1481 * k_1 - 81 * k_3 + 7104 * k_4 - 3376 * k_5 + 72 * k_6 - 5040 * k_7 - 60 * k_8 + 720 * k_9))
-- 
2.43.0


From 4af1778760983016e9d4e7b99f1cba3e2eb92370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 28/32] fix: sign strings of more than 26 generators lost the
 rest silently

---
 numga/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/util.py b/numga/util.py
index 635ceca..f82e87e 100644
--- a/numga/util.py
+++ b/numga/util.py
@@ -1,6 +1,6 @@
 """Some assorted utility function"""
 
-chars = 'abcdefghijklmnopqrstuvwxyz'
+chars = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
 try:
 	from functools import cache
-- 
2.43.0


From 5e13eb37312092f378a4971c9041fcd6ee1f19d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 29/32] fix: parse_tokens prefers the longest matching
 generator name

---
 numga/algebra/description.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/numga/algebra/description.py b/numga/algebra/description.py
index c5c403e..ac3caf1 100644
--- a/numga/algebra/description.py
+++ b/numga/algebra/description.py
@@ -116,13 +116,13 @@ class AlgebraDescription:
 		"""Given a string like 'yx' parse it into recognized basis tokens"""
 		def parse(d: str) -> int:
 			last = 0
-			for i, c in enumerate(d):
-				substr = blade_name[last:i+1]
-				if substr in self.basis_names:
-					yield self.basis_names.index(substr)
-					last = i + 1
-			if last < len(d):
-				raise Exception(f'Unrecognized blade name {substr}')
+			while last < len(d):
+				# longest name first, such that e10 is not mistaken for e1
+				name = max((n for n in self.basis_names if d.startswith(n, last)), key=len, default='')
+				if not name:
+					raise Exception(f'Unrecognized blade name {d[last:]}')
+				yield self.basis_names.index(name)
+				last = last + len(name)
 		return tuple(parse(blade_name))
 
 	@property
-- 
2.43.0


From aaf71bc3a5267b616e95a6941ceb79e38946a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 30/32] fix: subspace by name with multi-character generator
 names

---
 numga/subspace/factory.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/numga/subspace/factory.py b/numga/subspace/factory.py
index e00c9e3..1fcf72b 100644
--- a/numga/subspace/factory.py
+++ b/numga/subspace/factory.py
@@ -60,10 +60,9 @@ class SubSpaceFactory(FlyweightFactory):
 		"""Attribute subspace construction syntax
 		Example: 'xy_zt' produces a bivector with these two components
 		"""
-		names = self.algebra.description.basis_names
 		basis = self.basis()
 		return self.from_blades(np.array([
-			sum(basis[names.index(b)].blades for b in blade)[0]
+			sum(basis[i].blades for i in self.algebra.description.parse_tokens(blade))[0]
 			for blade in subspace.split('_')
 		]))
 
-- 
2.43.0


From 26fcb21739e00d4139a65998be5eda247cffd18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 31/32] fix: optimized bivector exponential was NaN for
 translations and zero

---
 numga/multivector/extension/optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/optimized.py b/numga/multivector/extension/optimized.py
index f2e719f..e3d2d3c 100644
--- a/numga/multivector/extension/optimized.py
+++ b/numga/multivector/extension/optimized.py
@@ -113,7 +113,7 @@ def exponentiate_bivector_numpy(b: "BiVector") -> "Motor":
 	m = xy*zw - xz*yw + yz*xw
 	c = np.cos(a)
 	s = np.where(a > 1e-20, np.sin(a) / a, 1)
-	t = m * (c - s) / l
+	t = np.where(a > 1e-20, m * (c - s) / l, 0)
 
 	M = np.empty(b.shape + (8,))
 	M[..., 0] = c
-- 
2.43.0


From fefb5ed2657afd4e5f972e2087f69b7e08bde8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:22 +0000
Subject: [PATCH 32/32] Revert "fix: a coefficient of RK8 (it was only third
 order accurate)"

This reverts commit ca003d6da21e4ba9fd82c10141b7ac686a8d7b74.
---
 numga/examples/integrators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/examples/integrators.py b/numga/examples/integrators.py
index f70c2aa..69f7eb1 100644
--- a/numga/examples/integrators.py
+++ b/numga/examples/integrators.py
@@ -20,7 +20,7 @@ def RK8(func, y, h):
 	k_5 = func(y + (h / 8) * (k_1 + 3 * k_4))
 	k_6 = func(y + (h / 54) * (13 * k_1 - 27 * k_3 + 42 * k_4 + 8 * k_5))
 	k_7 = func(y + (h / 4320) * (389 * k_1 - 54 * k_3 + 966 * k_4 - 824 * k_5 + 243 * k_6))
-	k_8 = func(y + (h / 20) * (-231 * k_1 + 81 * k_3 - 1164 * k_4 + 656 * k_5 - 122 * k_6 + 800 * k_7))
+	k_8 = func(y + (h / 20) * (-234 * k_1 + 81 * k_3 - 1164 * k_4 + 656 * k_5 - 122 * k_6 + 800 * k_7))
 	k_9 = func(y + (h / 288) * (-127 * k_1 + 18 * k_3 - 678 * k_4 + 456 * k_5 - 9 * k_6 + 576 * k_7 + 4 * k_8))
 	k_10 = func(y + (h / 820) * (
 			1481 * k_1 - 81 * k_3 + 7104 * k_4 - 3376 * k_5 + 72 * k_6 - 5040 * k_7 - 60 * k_8 + 720 * k_9))
-- 
2.43.0

