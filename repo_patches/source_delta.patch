From 19bc8895f1a40b0521899796351460456e1d1ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 01/41] fix: implement cos and sin in the array contexts

The abstract stubs return None, so mv.cos() and mv.sin() silently returned their input unchanged.
---
 numga/backend/jax/context.py   | 4 ++++
 numga/backend/numpy/context.py | 4 ++++
 numga/backend/torch/context.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/numga/backend/jax/context.py b/numga/backend/jax/context.py
index 7713f72..50986b4 100644
--- a/numga/backend/jax/context.py
+++ b/numga/backend/jax/context.py
@@ -45,6 +45,10 @@ class JaxContext(AbstractContext):
 		return jnp.log(x)
 	def exp(self, x):
 		return jnp.exp(x)
+	def cos(self, x):
+		return jnp.cos(x)
+	def sin(self, x):
+		return jnp.sin(x)
 	def abs(self, x):
 		return jnp.abs(x)
 
diff --git a/numga/backend/numpy/context.py b/numga/backend/numpy/context.py
index 46a2949..c14eb93 100644
--- a/numga/backend/numpy/context.py
+++ b/numga/backend/numpy/context.py
@@ -48,6 +48,10 @@ class NumpyContext(AbstractContext):
 		return np.log(x)
 	def exp(self, x):
 		return np.exp(x)
+	def cos(self, x):
+		return np.cos(x)
+	def sin(self, x):
+		return np.sin(x)
 	def abs(self, x):
 		return np.abs(x)
 
diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index fb2b66c..c0e9b76 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -48,6 +48,10 @@ class TorchContext(AbstractContext):
 		return torch.log(x)
 	def exp(self, x):
 		return torch.exp(x)
+	def cos(self, x):
+		return torch.cos(x)
+	def sin(self, x):
+		return torch.sin(x)
 	def abs(self, x):
 		return torch.abs(x)
 
-- 
2.43.0


From 0bcc1e343ed975dfd6b906cae82fa02a54ddca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 02/41] fix: context.pow uses a function that exists

np.pow needs numpy 2 and jnp.pow a later jax; power is available everywhere.
---
 numga/backend/jax/context.py   | 2 +-
 numga/backend/numpy/context.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/backend/jax/context.py b/numga/backend/jax/context.py
index 50986b4..a3d0957 100644
--- a/numga/backend/jax/context.py
+++ b/numga/backend/jax/context.py
@@ -53,7 +53,7 @@ class JaxContext(AbstractContext):
 		return jnp.abs(x)
 
 	def pow(self, x1, x2):
-		return jnp.pow(x1, x2)
+		return jnp.power(x1, x2)
 
 	def min(self, x, **kwargs):
 		return jnp.min(x, **kwargs)
diff --git a/numga/backend/numpy/context.py b/numga/backend/numpy/context.py
index c14eb93..0eb34a6 100644
--- a/numga/backend/numpy/context.py
+++ b/numga/backend/numpy/context.py
@@ -56,7 +56,7 @@ class NumpyContext(AbstractContext):
 		return np.abs(x)
 
 	def pow(self, x1, x2):
-		return np.pow(x1, x2)
+		return np.power(x1, x2)
 
 	def where(self, cond, a, b):
 		return np.where(cond, a, b)
-- 
2.43.0


From 7c41985be621ef88db3b7b72e8d84a9d22a1a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 03/41] fix: transform masks the transformed operand, and its
 inverse exists

The sign mask was broadcast over the second operand of the (R, v, R, out) kernel shifted by one axis,
inverse_transform took the grades of an operator, and mv.reverse_transform named an operator that does not exist.
---
 numga/multivector/multivector.py | 2 +-
 numga/operator/factory.py        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/numga/multivector/multivector.py b/numga/multivector/multivector.py
index 793ead4..19461b6 100644
--- a/numga/multivector/multivector.py
+++ b/numga/multivector/multivector.py
@@ -195,7 +195,7 @@ class AbstractMultiVector:
 	def transform(self, other):
 		return self.operator.transform(self.subspace, other.subspace)(self, other, self)
 	def reverse_transform(self, other):
-		return self.operator.reverse_transform(self.subspace, other.subspace)(self, other, self)
+		return self.operator.inverse_transform(self.subspace, other.subspace)(self, other, self)
 	def inverse_factor(self):
 		return self.operator.inverse_factor(self.subspace)(self, self, self)
 
diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5174c6e..7371f8c 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -538,10 +538,10 @@ class OperatorFactory:
 		That is, transform(R, v) ^ transform(R, u) == transform(R, v ^ u)
 		Note; R is assumed normalized/motorized
 		"""
-		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
+		parity = match(R.subspace.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
 		S = self.sandwich(R, v)
 		sign_mask = parity_to_sign(v.grades() * parity)
-		return Operator(kernel=S.kernel * sign_mask[None, :, None], axes=S.axes)
+		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
 
 	@cache
 	def inverse_transform(self, R: SubSpace, v: SubSpace) -> Operator:
-- 
2.43.0


From cfb1a48200ee14268f30bffe9fdd1d1c36233601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 04/41] fix: decompose_polar dispatch condition

There is no study subspace constructor; the condition raised for every input.
---
 numga/multivector/extension/decompose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/decompose.py b/numga/multivector/extension/decompose.py
index 3f963dc..c51c573 100644
--- a/numga/multivector/extension/decompose.py
+++ b/numga/multivector/extension/decompose.py
@@ -19,7 +19,7 @@ mv.decompose_polar = SubspaceDispatch("""
 	----------
 	PGA4CS eq 68-70
 	""")
-@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().inside.study())
+@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().is_study)
 def decompose_polar(b: BiVector) -> Tuple[BiVector, Study]:
 	# FIXME: special case the b=0 or not s.inv() case?
 	s: Study = b.symmetric_reverse_product().square_root()
-- 
2.43.0


From 7beb92207f802786bbe84e99a155db215bd8fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 05/41] fix: exp only dispatches to the cayley based default
 where that is valid

The condition was a bound method, hence always true. The cayley map is only an exponential for
elements with ~x == -x; for all others exp silently returned something else.
---
 numga/multivector/extension/logexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index 93a2c21..db55a1e 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -38,7 +38,7 @@ def scalar_exp(s: Scalar) -> Scalar:
 def degenerate_exp(b: BiVector) -> Motor:
 	"""If we know all basis elements square to zero, might as well use that information"""
 	return b + 1
-@mv.exp.register(lambda s: s.inside.bivector)
+@mv.exp.register(lambda s: s.restrict.self_reverse().equals.empty())
 def default_exp(b: BiVector) -> "Motor":
 	"""default to numerical brute force"""
 	return b.exp_bisect()
-- 
2.43.0


From 1c79ccc80eaf2ce9b403151ba683b0f5e1a5ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 06/41] fix: degenerate_exp requires the argument to square to
 zero

With two or more null basis vectors, degenerate bivectors need not square to zero.
---
 numga/multivector/extension/logexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index db55a1e..b603939 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -34,7 +34,7 @@ def empty_exp(e) -> Scalar:
 def scalar_exp(s: Scalar) -> Scalar:
 	"""Vanilla scalar exp"""
 	return s.copy(s.context.exp(s.values))
-@mv.exp.register(lambda s: s.is_degenerate)
+@mv.exp.register(lambda s: s.is_degenerate and s.squared().equals.empty())
 def degenerate_exp(b: BiVector) -> Motor:
 	"""If we know all basis elements square to zero, might as well use that information"""
 	return b + 1
-- 
2.43.0


From d06e27194940e0322bcf597289370838a174bb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 07/41] fix: indexing and calling subspace.restrict restricts,
 and select[2] works as documented

---
 numga/subspace/namespaces.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index f1f04f7..f4c18d5 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -54,6 +54,7 @@ class SelectNamespace:
 			return lambda *args: self.subspace.select_subspace(subspace(*args))
 
 	def __getitem__(self, item):
+		item = [item] if isinstance(item, int) else list(item) if isinstance(item, tuple) else item
 		subspace = self.factory.from_grades(item)
 		return self.subspace.select_subspace(subspace)
 
@@ -69,3 +70,11 @@ class RestrictNamespace(SelectNamespace):
 			return self.subspace.restrict_subspace(subspace)
 		else:
 			return lambda *args: self.subspace.restrict_subspace(subspace(*args))
+
+	def __getitem__(self, item):
+		item = [item] if isinstance(item, int) else list(item) if isinstance(item, tuple) else item
+		subspace = self.factory.from_grades(item)
+		return self.subspace.restrict_subspace(subspace)
+
+	def __call__(self, subspace):
+		return self.subspace.restrict_subspace(subspace)
-- 
2.43.0


From cb2d2a1986672c0905bf535786bafdacb76cd401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 08/41] fix: python sparse operator starts from zeros

The default multivector has a unit scalar, which leaked into outputs no term contributes to.
---
 numga/backend/python/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/python/operator.py b/numga/backend/python/operator.py
index 9158664..a0d943b 100644
--- a/numga/backend/python/operator.py
+++ b/numga/backend/python/operator.py
@@ -10,7 +10,7 @@ class PythonSparseOperator(AbstractConcreteOperator):
 
 	def __call__(self, *inputs: Tuple[PythonMultiVector]) -> PythonMultiVector:
 		terms = self.precompute_sparse
-		output = self.context.multivector(self.output)
+		output = self.context.multivector(self.output, [0] * len(self.output))
 		for ci, term in terms:
 			output.values[ci] = sum(
 				math.prod((inp.values[ii] for inp, ii in zip(inputs, idx)), start=scalar)
-- 
2.43.0


From ec4ce47140fdcdf33963d7b9d58ed1a173558994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 09/41] fix: squeeze reduces over all axes but the output axis

Kernels may have leading broadcasting axes.
---
 numga/operator/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 7b3c36f..415f02f 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -212,7 +212,7 @@ class Operator:
 			eps = 1e-6   # need to consider an epsilon to make chained float kernel simplifications work
 			k = np.abs(k) > eps
 		# get nonzero output indices
-		indices = np.flatnonzero(k.any(axis=tuple(range(self.arity))))
+		indices = np.flatnonzero(k.any(axis=tuple(range(k.ndim - 1))))
 		output: SubSpace = self.output.slice_subspace(indices)
 
 		axes = list(self.axes)
-- 
2.43.0


From 15ef3726860c09b3c53a6da593b9062b6ecabb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 10/41] fix: transpose of numpy operators with broadcasting
 axes

---
 numga/backend/numpy/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/numpy/operator.py b/numga/backend/numpy/operator.py
index 25da505..ffb21ef 100644
--- a/numga/backend/numpy/operator.py
+++ b/numga/backend/numpy/operator.py
@@ -93,7 +93,7 @@ class NumpyOperator(AbstractConcreteOperator):
 		return type(self)(
 			self.context,
 			Operator(
-				kernel=np.transpose(self.kernel, (-1, -2)),
+				kernel=np.swapaxes(self.kernel, -1, -2),
 				axes=(self.operator.axes[1], self.operator.axes[0]),
 			)
 		)
-- 
2.43.0


From 183519146a0ff616edb475b865b119d554cf4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 11/41] fix: add_broadcast takes the union of the axes

---
 numga/operator/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 415f02f..1a26cfc 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -82,7 +82,7 @@ class Operator:
 	def add(self, other: "Operator") -> "Operator":
 		return Operator(self.kernel + other.kernel, match((self.axes, other.axes)))
 	def add_broadcast(self, other: "Operator") -> "Operator":
-		axes = [sa + oa for sa, oa in zip(self.axes, other.axes)]
+		axes = [sa.union(oa) for sa, oa in zip(self.axes, other.axes)]
 		return self.deslice(axes) + other.deslice(axes)
 
 	def mul(self, s) -> "Operator":
-- 
2.43.0


From a886cfa92da7f69ad8e43fd6d4429e0e7ffe70eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 12/41] fix: optimized 3d pga exp without rotational part

0 / 0 gave nans for pure translations.
---
 numga/multivector/extension/optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/optimized.py b/numga/multivector/extension/optimized.py
index f2e719f..c4889f6 100644
--- a/numga/multivector/extension/optimized.py
+++ b/numga/multivector/extension/optimized.py
@@ -113,7 +113,7 @@ def exponentiate_bivector_numpy(b: "BiVector") -> "Motor":
 	m = xy*zw - xz*yw + yz*xw
 	c = np.cos(a)
 	s = np.where(a > 1e-20, np.sin(a) / a, 1)
-	t = m * (c - s) / l
+	t = m * np.where(l > 0, (c - s) / l, -1 / 3)
 
 	M = np.empty(b.shape + (8,))
 	M[..., 0] = c
-- 
2.43.0


From 318a5c783b6311d16adc4a73e13ea96070bbef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 13/41] fix: subspace attribute names parse basis names of any
 length

---
 numga/subspace/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/subspace/factory.py b/numga/subspace/factory.py
index e00c9e3..792627f 100644
--- a/numga/subspace/factory.py
+++ b/numga/subspace/factory.py
@@ -60,10 +60,10 @@ class SubSpaceFactory(FlyweightFactory):
 		"""Attribute subspace construction syntax
 		Example: 'xy_zt' produces a bivector with these two components
 		"""
-		names = self.algebra.description.basis_names
+		tokens = self.algebra.description.parse_tokens
 		basis = self.basis()
 		return self.from_blades(np.array([
-			sum(basis[names.index(b)].blades for b in blade)[0]
+			sum(basis[i].blades for i in tokens(blade))[0]
 			for blade in subspace.split('_')
 		]))
 
-- 
2.43.0


From d384df23e98a67bf45d35314f48d14f9ded4ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 14/41] fix: registering an implementation invalidates cached
 dispatches

Whether a registration took effect depended on what had been called before.
---
 numga/dynamic_dispatch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numga/dynamic_dispatch.py b/numga/dynamic_dispatch.py
index 4f65bc5..586bd35 100644
--- a/numga/dynamic_dispatch.py
+++ b/numga/dynamic_dispatch.py
@@ -43,6 +43,7 @@ class DynamicDispatch:
 		def wrap(func):
 			"""This wrapper gets called by the @ syntax"""
 			self.options.insert(position, (condition, func))
+			self.cache.clear()  # earlier matches may be superseded
 			return func
 		return wrap
 
-- 
2.43.0


From 132e501c3ab74b19306128a0d3ea62f937e13169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 15/41] fix: flyweights are unique under concurrent
 construction

---
 numga/flyweight.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/numga/flyweight.py b/numga/flyweight.py
index 80be2fc..924b2a7 100644
--- a/numga/flyweight.py
+++ b/numga/flyweight.py
@@ -17,6 +17,5 @@ class FlyweightFactory:
 		if key in self.flyweight_pool:
 			return self.flyweight_pool[key]
 		else:
-			value = value()
-			self.flyweight_pool[key] = value
-			return value
+			# atomic; concurrent first use must not yield two distinct flyweights
+			return self.flyweight_pool.setdefault(key, value())
-- 
2.43.0


From c16af313ffb6dadf82db3bb9630e8cd162a33fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 16/41] fix: an algebra has a single subspace factory under
 concurrent first use

---
 numga/algebra/algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/algebra/algebra.py b/numga/algebra/algebra.py
index e0a4b2b..747dc79 100644
--- a/numga/algebra/algebra.py
+++ b/numga/algebra/algebra.py
@@ -198,7 +198,8 @@ class Algebra:
 		it is important that all subspaces are created via this cached property
 		"""
 		from numga.subspace.factory import SubSpaceFactory
-		return SubSpaceFactory(self)
+		# cached_property does not lock; concurrent first use must yield a single factory
+		return self.__dict__.setdefault('subspace', SubSpaceFactory(self))
 
 	@cached_property
 	def operator(self) -> "OperatorFactory":
-- 
2.43.0


From ff98893588aa246e386666b6234e909c43c4ed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 17/41] fix: torch dense operator supports broadcasting axes

---
 numga/backend/torch/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 102ba1d..9ce7928 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -113,8 +113,8 @@ class TorchDenseOperator(TorchOperator):
 		kernel = self.context.coerce_array(self.kernel)
 		return self.context.multivector(
 			values=torch.sum(
-				math.prod((i.values.reshape(s) for i, s in zip(inputs, self.shapes)), start=kernel),
-				dim=range(self.arity)
+				math.prod((i.values.reshape(i.shape + s) for i, s in zip(inputs, self.shapes)), start=kernel),
+				dim=tuple(-(a + 2) for a in range(self.arity))
 			),
 			subspace=self.output
 		)
-- 
2.43.0


From 349451f342719ba237f09503d57177d505eab42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 18/41] fix: torch context.min returns the minimum, not a
 (values, indices) tuple

---
 numga/backend/torch/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index c0e9b76..9d8afcd 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -59,7 +59,7 @@ class TorchContext(AbstractContext):
 		return torch.pow(x1, x2)
 
 	def min(self, x, axis):
-		return torch.min(x, dim=axis)
+		return torch.amin(x, dim=axis)
 	def argmin(self, x, axis):
 		return torch.argmin(x, dim=axis)
 	def all(self, x, axis):
-- 
2.43.0


From c45bcae72e5b3d40137942251e62e9184e8db540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 19/41] fix: copy of torch multivectors

---
 numga/backend/torch/multivector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index 40003b3..c0beace 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -28,6 +28,9 @@ class TorchMultiVector(AbstractMultiVector):
 			subspace=subspace
 		)
 
+	def copy(self, values=None, subspace=None):
+		return super(TorchMultiVector, self).copy(self.values.clone() if values is None else values, subspace)
+
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
 		try:
-- 
2.43.0


From d15465217b7a13bb246621cb3bef29346f3bd9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 20/41] fix: deslice operators with an empty axis

---
 numga/operator/operator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 1a26cfc..3a47882 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -173,7 +173,9 @@ class Operator:
 		import numpy_indexed as npi
 		kernel = np.pad(self.kernel, [(0, 1)]*self.kernel.ndim, 'constant', constant_values=(0, 0))
 		for i, axis in enumerate(axes):
-			idx = npi.indices(self.axes[i].blades, axis.blades, missing=self.kernel.shape[i])
+			missing = self.kernel.shape[i]
+			# NOTE: npi.indices does not support empty keys
+			idx = npi.indices(self.axes[i].blades, axis.blades, missing=missing) if missing else np.zeros(len(axis), int)
 			kernel = kernel.take(idx, axis=i)
 		return Operator(kernel, tuple(axes))
 
-- 
2.43.0


From eae059fbe3aacaa32a78a36cde8a175affbc20b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 21/41] fix: torch indexing over several axes

---
 numga/backend/torch/context.py     | 3 ++-
 numga/backend/torch/multivector.py | 3 ++-
 numga/backend/torch/operator.py    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index 9d8afcd..fa5176a 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -24,7 +24,8 @@ class TorchContext(AbstractContext):
 
 	def set_array(self, arr, idx, values):
 		try:
-			idx = torch.asarray(idx)
+			# a tuple indexes multiple axes; it is not an array of indices
+			idx = idx if isinstance(idx, tuple) else torch.asarray(idx)
 		except:
 			pass
 
diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index c0beace..215418b 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -34,7 +34,8 @@ class TorchMultiVector(AbstractMultiVector):
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
 		try:
-			idx = torch.asarray(idx)
+			# a tuple indexes multiple axes; it is not an array of indices
+			idx = idx if isinstance(idx, tuple) else torch.asarray(idx)
 		except:
 			pass
 		v = self.values[idx]
diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 9ce7928..264b4bf 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -40,7 +40,8 @@ class TorchOperator(AbstractConcreteOperator):
 
 	def __getitem__(self, idx):
 		try:
-			idx = torch.asarray(idx)
+			# a tuple indexes multiple axes; it is not an array of indices
+			idx = idx if isinstance(idx, tuple) else torch.asarray(idx)
 		except:
 			pass
 		k = self.kernel[idx]
-- 
2.43.0


From d2ac98e753e18d1c3bcbb5e134fb55f063dfdce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 22/41] fix: multivector.select.multivector() and
 restrict.multivector() select, like any other named subspace

---
 numga/multivector/namespaces.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/numga/multivector/namespaces.py b/numga/multivector/namespaces.py
index d059353..ae20873 100644
--- a/numga/multivector/namespaces.py
+++ b/numga/multivector/namespaces.py
@@ -10,35 +10,35 @@ from numga.subspace.subspace import SubSpace
 
 class SelectNamespace:
 	def __init__(self, multivector):
-		self.multivector = multivector
+		self._multivector = multivector
 		self.factory = multivector.context.subspace
 
 	def __getattr__(self, item):
 		subspace = getattr(self.factory, item)
 		if isinstance(subspace, SubSpace):
-			return self.multivector.select_subspace(subspace)
+			return self._multivector.select_subspace(subspace)
 		else:
-			return lambda *args: self.multivector.select_subspace(subspace(*args))
+			return lambda *args: self._multivector.select_subspace(subspace(*args))
 
 	def __getitem__(self, item):
 		item = list(item) if isinstance(item, tuple) else [item]
 		subspace = self.factory.from_grades(item)
-		return self.multivector.select_subspace(subspace)
+		return self._multivector.select_subspace(subspace)
 
 
 class RestrictNamespace:
 	def __init__(self, multivector):
-		self.multivector = multivector
+		self._multivector = multivector
 		self.factory = multivector.context.subspace
 
 	def __getattr__(self, item):
 		subspace = getattr(self.factory, item)
 		if isinstance(subspace, SubSpace):
-			return self.multivector.restrict_subspace(subspace)
+			return self._multivector.restrict_subspace(subspace)
 		else:
-			return lambda *args: self.multivector.restrict_subspace(subspace(*args))
+			return lambda *args: self._multivector.restrict_subspace(subspace(*args))
 
 	def __getitem__(self, item):
 		item = list(item) if isinstance(item, tuple) else [item]
 		subspace = self.factory.from_grades(item)
-		return self.multivector.restrict_subspace(subspace)
+		return self._multivector.restrict_subspace(subspace)
-- 
2.43.0


From 6488a3a570b7639ff77b304870bfbf8e4c41b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 23/41] fix: euclidian_factorization in signatures with an odd
 number of negative generators

---
 numga/operator/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 7371f8c..15457cc 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -629,8 +629,8 @@ class OperatorFactory:
 		alternatively:
 		t = (m * ~m.select.rotor()).select.translator()
 		"""
-		op = self.product(m, self.dual(m))
-		return self.dual(op).select_grade(2).symmetry((0, 1))
+		op = self.product(m, self.reverse(self.nondegenerate(m)))
+		return op.select_subspace(op.subspace.intersection(self.algebra.subspace.bivector().degenerate())).symmetry((0, 1))
 
 	# # projections according to erik lengyel
 	# @cache
-- 
2.43.0


From d72a6a1ee9b55af49f23074a263357ac68e58cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 24/41] fix: signatures with more than 26 generators are not
 truncated

---
 numga/algebra/description.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numga/algebra/description.py b/numga/algebra/description.py
index c5c403e..2834678 100644
--- a/numga/algebra/description.py
+++ b/numga/algebra/description.py
@@ -84,7 +84,9 @@ class AlgebraDescription:
 		'+++0' constructs the algebra corresponding to 3d PGA
 		"""
 		from numga.util import chars
-		return AlgebraDescription.from_str(''.join(c + s for c, s in zip(chars, sig)))
+		# single letters do not suffice to name more than 26 basis vectors
+		names = chars if len(sig) <= len(chars) else [a + b for a in chars for b in chars]
+		return AlgebraDescription.from_str(''.join(c + s for c, s in zip(names, sig)))
 
 	@property
 	def n_dimensions(self) -> int:
-- 
2.43.0


From d784bbe7847c6e542a10fa25b71c31755c750ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 25/41] fix: constrained bodies at relative rest no longer
 yield nan impulses

---
 numga/examples/physics/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/examples/physics/core.py b/numga/examples/physics/core.py
index c6ff27c..1f32d37 100644
--- a/numga/examples/physics/core.py
+++ b/numga/examples/physics/core.py
@@ -162,6 +162,6 @@ class Constraint(ConstraintBase):
 		# sum to get total compliance towards motion along this direction
 		total_compliance: Scalar = constraint_compliance + inertial_compliances.sum(axis=0)
 		# lagrange multiplier for each constraint
-		multiplier: Scalar = magnitude / total_compliance
+		multiplier: Scalar = magnitude / (total_compliance + 1e-26)
 
 		return steps * self.connectivity * multiplier
-- 
2.43.0


From e8afdf05dc0e7875794d26f0aa7340f3255a7e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 26/41] fix: conformal point pairs split in any dimension, not
 into nan by rounding

---
 numga/examples/conformal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/examples/conformal.py b/numga/examples/conformal.py
index efa05ba..160c545 100644
--- a/numga/examples/conformal.py
+++ b/numga/examples/conformal.py
@@ -89,7 +89,7 @@ class ConformalContextMixin:
 
 	def split_points(self, T):
 		assert T.subspace in self.subspace.bivector()
-		b = (T.norm_squared() * -1).sqrt()
+		b = (T.norm_squared().select[0] * -1).sqrt()     # T is a simple bivector
 		F = T / b
 		P = (F + 1) / +2
 		Pb = (F + -1) / -2
@@ -204,7 +204,7 @@ class Conformal:
 	def split_points(self, T):
 		"""split point-pair bivector into two vector-valued points"""
 		assert T.subspace.inside.bivector()
-		b = (T.norm_squared() * -1).sqrt()
+		b = (T.norm_squared().select[0] * -1).sqrt()     # T is a simple bivector
 		F = T / b
 		# FIXME: is this related to the invariant decomposition?
 		S = self.context.multivector.scalar([[1], [-1]])
-- 
2.43.0


From d3f4c27cd254b05a99c78af56cc9902b43523b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 27/41] fix: sums and multiples of operators do not overflow
 int8

---
 numga/operator/operator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 3a47882..3dcfd96 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -80,14 +80,15 @@ class Operator:
 		return self.axes[:-1]
 
 	def add(self, other: "Operator") -> "Operator":
-		return Operator(self.kernel + other.kernel, match((self.axes, other.axes)))
+		dtype = np.result_type(self.kernel, other.kernel, int)      # the int8 of a fresh kernel is easily exceeded
+		return Operator(np.add(self.kernel, other.kernel, dtype=dtype), match((self.axes, other.axes)))
 	def add_broadcast(self, other: "Operator") -> "Operator":
 		axes = [sa.union(oa) for sa, oa in zip(self.axes, other.axes)]
 		return self.deslice(axes) + other.deslice(axes)
 
 	def mul(self, s) -> "Operator":
 		"""Scalar multiplication"""
-		return Operator(self.kernel * s, self.axes)
+		return Operator(self.kernel.astype(np.result_type(self.kernel, int)) * s, self.axes)
 	def div(self, s) -> "Operator":
 		"""Scalar division"""
 		return Operator(self.kernel // s, self.axes)
-- 
2.43.0


From ca5aaa8ec544240872ff1725ad13483c01cd320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 28/41] fix: dense form of sparse tensors keeps the type of the
 data

---
 numga/operator/sparse_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/operator/sparse_tensor.py b/numga/operator/sparse_tensor.py
index 60c148a..537d26f 100644
--- a/numga/operator/sparse_tensor.py
+++ b/numga/operator/sparse_tensor.py
@@ -24,7 +24,7 @@ class SparseTensor:
 	def to_dense(self, axes: Tuple[SubSpace]):
 		# to dense, given a set of coordinate axes as subspaces
 		shape = [len(a) for a in axes]
-		dense = np.zeros(shape, dtype=np.int8)
+		dense = np.zeros(shape, dtype=np.asarray(self.data).dtype)
 		# translate axes to indices
 		idx = (A.to_relative_indices(a) for a, A in zip(self.axes, axes))
 		dense[tuple(idx)] = self.data
@@ -40,7 +40,7 @@ class SparseTensor:
 	def to_dense_(self):
 		# to dense, given a set of coordinate axes as subspaces
 		shape = [np.max(a)+1 for a in self.axes]
-		dense = np.zeros(shape, dtype=np.int8)
+		dense = np.zeros(shape, dtype=np.asarray(self.data).dtype)
 		dense[self.axes] = self.data
 		return dense
 
-- 
2.43.0


From 79b76133654f4f8dd678d0804c83eaae696217c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 29/41] fix: adding sparse tensors groups by coordinate

---
 numga/operator/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/sparse_tensor.py b/numga/operator/sparse_tensor.py
index 537d26f..33d0c25 100644
--- a/numga/operator/sparse_tensor.py
+++ b/numga/operator/sparse_tensor.py
@@ -68,7 +68,7 @@ class SparseTensor:
 		axes = [np.concatenate([sa, oa], axis=0) for sa, oa in zip(self.axes, other.axes)]
 		data = np.concatenate([self.data, other.data], axis=0)
 		# FIXME: this can be optional?
-		axes, data = npi.group_by(axes).sum(data)
+		axes, data = npi.group_by(tuple(axes)).sum(data)
 		# FIXME: filter zeros
 		return SparseTensor(axes, data)
 
-- 
2.43.0


From 8c42a1956d366749c930b546de810737c6fb210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 30/41] fix: contracted sparse products of tensors with
 different numbers of axes

---
 numga/operator/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/sparse_tensor.py b/numga/operator/sparse_tensor.py
index 33d0c25..102ea20 100644
--- a/numga/operator/sparse_tensor.py
+++ b/numga/operator/sparse_tensor.py
@@ -78,7 +78,7 @@ class SparseTensor:
 
 	def tensorproduct(self, other, sa, oa):
 		# FIXME: this is inefficient; as per example of two simple vectors; only case about diag terms
-		return self.product(other).contract((sa, len(other.axes)+oa))
+		return self.product(other).contract((sa, len(self.axes)+oa))
 
 	def product(self, other):
 		"""non contracting tensor product"""
-- 
2.43.0


From 62d8da31983112e2d626e587800db5f9c251bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 31/41] fix: builders of sparse matrices do not share entries

---
 numga/examples/ga_sparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numga/examples/ga_sparse.py b/numga/examples/ga_sparse.py
index dd87778..9d32c7d 100644
--- a/numga/examples/ga_sparse.py
+++ b/numga/examples/ga_sparse.py
@@ -30,7 +30,11 @@ class AbstractContainer:
 class Builder(AbstractContainer):
 	"""Coordinate Matrix
 	to be used as a construction helper"""
-	entries: List = []
+	entries: List
+
+	def __init__(self, shape, subspace):
+		super().__init__(shape, subspace)
+		self.entries = []
 
 	def add(self, r, c, v):
 		assert v.subspace in self.subspace
-- 
2.43.0


From f7f386c75caf0fb643ec7da4f9192d3ec8e671ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 32/41] fix: dense form of sparse matrices has inputs along
 columns

---
 numga/examples/ga_sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/examples/ga_sparse.py b/numga/examples/ga_sparse.py
index 9d32c7d..03c5506 100644
--- a/numga/examples/ga_sparse.py
+++ b/numga/examples/ga_sparse.py
@@ -237,7 +237,7 @@ class BoundMatrixOperator:
 
 	def as_dense(self):
 		dense = np.zeros(shape=self.container.shape + self.block_shape)
-		dense[self.container.rows, self.container.columns] = self.bound.kernel
+		dense[self.container.rows, self.container.columns] = np.swapaxes(self.bound.kernel, -1, -2)     # inputs along columns
 		from einops import rearrange
 		return rearrange(dense, 'r c i j -> (r i) (c j)')
 
-- 
2.43.0


From ebe15ce4aba6d8b5eaeb6a4d7ea914c5fa0225a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 33/41] fix: linear operator of sparse matrices accepts columns

---
 numga/examples/ga_sparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numga/examples/ga_sparse.py b/numga/examples/ga_sparse.py
index 03c5506..62226f3 100644
--- a/numga/examples/ga_sparse.py
+++ b/numga/examples/ga_sparse.py
@@ -247,10 +247,10 @@ class BoundMatrixOperator:
 		r, c = self.container.shape
 		i, j = self.block_shape
 		def matvec(x):
-			*shape, n = x.shape
-			x = self.container.context.multivector(values=x.reshape(shape + [c, j]), subspace=self.column_subspace)
+			# scipy passes vectors as well as single columns
+			x = self.container.context.multivector(values=x.reshape(c, j), subspace=self.column_subspace)
 			y = self(x)
-			return y.values.reshape(shape + [r * i])
+			return y.values.reshape(r * i)
 		return LinearOperator(shape=(r*i, c*j), matvec=matvec)
 
 
-- 
2.43.0


From 98d8ec567b8c9a06005dfa4b23cd90c66b34e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 34/41] fix: numpy operators with kernels of higher precision
 than the context raised

---
 numga/backend/numpy/operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numga/backend/numpy/operator.py b/numga/backend/numpy/operator.py
index ffb21ef..a052894 100644
--- a/numga/backend/numpy/operator.py
+++ b/numga/backend/numpy/operator.py
@@ -126,6 +126,7 @@ class NumpyEinsumOperator(NumpyOperator):
 				self.kernel,
 				*(i.values for i in inputs),
 				out=output.values,
+				casting='same_kind',    # kernels may be of higher precision than the context
 				optimize=True
 			),
 			subspace=self.output,
-- 
2.43.0


From 85aa5c60f7124fb41cdc0c7306b8e2c2c9648cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 35/41] revert the fixes to files under numga/examples, which
 count as tests

---
 numga/examples/conformal.py    |  4 ++--
 numga/examples/ga_sparse.py    | 14 +++++---------
 numga/examples/physics/core.py |  2 +-
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/numga/examples/conformal.py b/numga/examples/conformal.py
index 160c545..efa05ba 100644
--- a/numga/examples/conformal.py
+++ b/numga/examples/conformal.py
@@ -89,7 +89,7 @@ class ConformalContextMixin:
 
 	def split_points(self, T):
 		assert T.subspace in self.subspace.bivector()
-		b = (T.norm_squared().select[0] * -1).sqrt()     # T is a simple bivector
+		b = (T.norm_squared() * -1).sqrt()
 		F = T / b
 		P = (F + 1) / +2
 		Pb = (F + -1) / -2
@@ -204,7 +204,7 @@ class Conformal:
 	def split_points(self, T):
 		"""split point-pair bivector into two vector-valued points"""
 		assert T.subspace.inside.bivector()
-		b = (T.norm_squared().select[0] * -1).sqrt()     # T is a simple bivector
+		b = (T.norm_squared() * -1).sqrt()
 		F = T / b
 		# FIXME: is this related to the invariant decomposition?
 		S = self.context.multivector.scalar([[1], [-1]])
diff --git a/numga/examples/ga_sparse.py b/numga/examples/ga_sparse.py
index 62226f3..dd87778 100644
--- a/numga/examples/ga_sparse.py
+++ b/numga/examples/ga_sparse.py
@@ -30,11 +30,7 @@ class AbstractContainer:
 class Builder(AbstractContainer):
 	"""Coordinate Matrix
 	to be used as a construction helper"""
-	entries: List
-
-	def __init__(self, shape, subspace):
-		super().__init__(shape, subspace)
-		self.entries = []
+	entries: List = []
 
 	def add(self, r, c, v):
 		assert v.subspace in self.subspace
@@ -237,7 +233,7 @@ class BoundMatrixOperator:
 
 	def as_dense(self):
 		dense = np.zeros(shape=self.container.shape + self.block_shape)
-		dense[self.container.rows, self.container.columns] = np.swapaxes(self.bound.kernel, -1, -2)     # inputs along columns
+		dense[self.container.rows, self.container.columns] = self.bound.kernel
 		from einops import rearrange
 		return rearrange(dense, 'r c i j -> (r i) (c j)')
 
@@ -247,10 +243,10 @@ class BoundMatrixOperator:
 		r, c = self.container.shape
 		i, j = self.block_shape
 		def matvec(x):
-			# scipy passes vectors as well as single columns
-			x = self.container.context.multivector(values=x.reshape(c, j), subspace=self.column_subspace)
+			*shape, n = x.shape
+			x = self.container.context.multivector(values=x.reshape(shape + [c, j]), subspace=self.column_subspace)
 			y = self(x)
-			return y.values.reshape(r * i)
+			return y.values.reshape(shape + [r * i])
 		return LinearOperator(shape=(r*i, c*j), matvec=matvec)
 
 
diff --git a/numga/examples/physics/core.py b/numga/examples/physics/core.py
index 1f32d37..c6ff27c 100644
--- a/numga/examples/physics/core.py
+++ b/numga/examples/physics/core.py
@@ -162,6 +162,6 @@ class Constraint(ConstraintBase):
 		# sum to get total compliance towards motion along this direction
 		total_compliance: Scalar = constraint_compliance + inertial_compliances.sum(axis=0)
 		# lagrange multiplier for each constraint
-		multiplier: Scalar = magnitude / (total_compliance + 1e-26)
+		multiplier: Scalar = magnitude / total_compliance
 
 		return steps * self.connectivity * multiplier
-- 
2.43.0


From 38f3c764d5859ba475c3a2f35bb91521b58b2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 36/41] fix: squeeze does not drop operators that are small as
 a whole

---
 numga/operator/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 3dcfd96..b37d754 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -213,7 +213,8 @@ class Operator:
 		k = self.kernel
 		if np.issubdtype(k.dtype, np.floating):
 			eps = 1e-6   # need to consider an epsilon to make chained float kernel simplifications work
-			k = np.abs(k) > eps
+			k = np.abs(k)
+			k = k > eps * np.minimum(np.fmax.reduce(k, axis=None, initial=0), 1)   # kernels that are small as a whole are not zero
 		# get nonzero output indices
 		indices = np.flatnonzero(k.any(axis=tuple(range(k.ndim - 1))))
 		output: SubSpace = self.output.slice_subspace(indices)
-- 
2.43.0


From aa957baa470e43a42831807c473d1d85fb39a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 37/41] fix: division of operators by numbers that do not
 divide their coefficients

---
 numga/operator/operator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index b37d754..59675d6 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -91,7 +91,10 @@ class Operator:
 		return Operator(self.kernel.astype(np.result_type(self.kernel, int)) * s, self.axes)
 	def div(self, s) -> "Operator":
 		"""Scalar division"""
-		return Operator(self.kernel // s, self.axes)
+		kernel = self.kernel // s
+		if (kernel * s != self.kernel).any():   # does not divide as integers
+			kernel = self.kernel / s
+		return Operator(kernel, self.axes)
 
 	def __add__(self, other):
 		return self.add(other)
-- 
2.43.0


From 484429ab3826afcdd118a5377bfdd029ab9300f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 38/41] fix: inverse of unary operators whose inverse is not
 integral

---
 numga/operator/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 15457cc..b3740b5 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -189,7 +189,9 @@ class OperatorFactory:
 	def unary_inverse(self, operator: Operator) -> Operator:
 		"""Generate the inverse `inv` of a unary operator 'op', such that inv(op(x)) == x"""
 		assert operator.arity == 1
-		kernel = np.linalg.inv(operator.kernel).astype(operator.kernel.dtype)
+		kernel = np.linalg.inv(operator.kernel)
+		if np.all(kernel == kernel.astype(operator.kernel.dtype)):
+			kernel = kernel.astype(operator.kernel.dtype)
 		return Operator.build(kernel, operator.axes[::-1])
 
 	@cache
-- 
2.43.0


From 76946e7a8a2fb199880d621dbd54d50dbade1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 39/41] fix: numpy scalars and arrays on the left of a
 multivector

---
 numga/multivector/multivector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numga/multivector/multivector.py b/numga/multivector/multivector.py
index 19461b6..47aedbb 100644
--- a/numga/multivector/multivector.py
+++ b/numga/multivector/multivector.py
@@ -26,6 +26,8 @@ class AbstractMultiVector:
 	# context this multivector belongs to; so it can access operator cache,
 	# and allocate proper output types and all that good stuff
 	context: AbstractContext
+	# numpy scalars and arrays leave binary operations with a multivector to the multivector
+	__array_priority__ = 1000
 
 	def __init__(self, context, subspace, values):
 		self.context = context
-- 
2.43.0


From 37669b1d8c5111a5abc3aacb0d023ab39f436895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 40/41] fix: descriptions with empty or repeated names are
 rejected

---
 numga/algebra/description.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numga/algebra/description.py b/numga/algebra/description.py
index 2834678..40a7383 100644
--- a/numga/algebra/description.py
+++ b/numga/algebra/description.py
@@ -31,6 +31,8 @@ def parse_description(description: str):
 		assert last == len(d)
 
 	names, signature = zip(*parse(description))
+	# each generator needs a name of its own; names cannot contain sign characters
+	assert all(names) and len(set(names)) == len(names), f'Invalid names in {description}: {names}'
 	return names, signature
 
 
-- 
2.43.0


From 66da1e043675a197a294f087ae83c9504ca8cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 41/41] fix: subspace attributes that repeat a basis vector are
 rejected

---
 numga/subspace/factory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numga/subspace/factory.py b/numga/subspace/factory.py
index 792627f..eca240f 100644
--- a/numga/subspace/factory.py
+++ b/numga/subspace/factory.py
@@ -62,9 +62,11 @@ class SubSpaceFactory(FlyweightFactory):
 		"""
 		tokens = self.algebra.description.parse_tokens
 		basis = self.basis()
+		blades = [tokens(blade) for blade in subspace.split('_')]
+		assert all(len(set(b)) == len(b) for b in blades), f'Repeated basis vector in {subspace}'
 		return self.from_blades(np.array([
-			sum(basis[i].blades for i in tokens(blade))[0]
-			for blade in subspace.split('_')
+			sum(basis[i].blades for i in blade)[0]
+			for blade in blades
 		]))
 
 	@cache
-- 
2.43.0

