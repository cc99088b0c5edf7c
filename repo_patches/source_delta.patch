From 3fae9323d7a116cf7ee678c832f5181fd72770b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 01/55] fix: invert integer matrices whose floating point
 determinant is rounded

_inv_int compared the determinant exactly with 1, so that unimodular
matrices such as [[-3, 2], [2, -1]] were rejected as not invertible.
---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index f4a125e..35461f4 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -617,6 +617,6 @@ def _inv_int(A):
     _A = ta.array(A, int)
     if A == np.empty((0, 0)):
         return A
-    if _A != A or abs(la.det(A)) != 1:
+    if _A != A or not np.isclose(abs(la.det(A)), 1):
         raise ValueError('Input needs to be an invertible integer matrix')
     return ta.array(np.round(la.inv(_A)), int)
-- 
2.43.0


From d6b8a4f28543a67ed4b5022730a30096f714a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 02/55] fix: reject continuous generators that are not
 Hermitian antisymmetric

The check accepted matrices that were only Hermitian or only antisymmetric.
---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 34eafd1..8b35e72 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -533,7 +533,7 @@ class ContinuousGroupGenerator:
 
     def __init__(self, R=None, U=None):
         # Make sure that R and U have correct properties
-        if R is not None and not _is_hermitian(R) and not _is_antisymmetric(R):
+        if R is not None and not (_is_hermitian(R) and _is_antisymmetric(R)):
             raise ValueError('R must be Hermitian antisymmetric')
         if U is not None and not _is_hermitian(U):
             raise ValueError('U must be Hermitian')
-- 
2.43.0


From 326880c3eeeebbee40a2438964afd048b01effb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 03/55] fix: convert sparse and linear operator models to dense
 arrays

toarray (and tosympy, lambdify) used the removed attribute 'A' of sparse
matrices, and dropped every term of LinearOperator models.
---
 qsymm/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index fdb6b1d..1a73091 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -632,10 +632,10 @@ class Model(UserDict):
                 result[key] = val
             elif isinstance(val, Number):
                 result[key] = np.asarray(val)
-            elif scipy.sparse.spmatrix:
-                result[key] = val.A
+            elif isinstance(val, scipy.sparse.spmatrix):
+                result[key] = val.toarray()
             else:
-                 val = val @ np.eye(val.shape[-1], dtype=complex)
+                result[key] = val @ np.eye(val.shape[-1], dtype=complex)
         return result
 
     def copy(self):
-- 
2.43.0


From dd3975f7cea0ea81c4513a3a182cddb7fb828121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 04/55] fix: dense null space of sparse input

nullspace(A, sparse=False) used the removed attribute 'A' of sparse matrices.
---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 35461f4..2493984 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -259,7 +259,7 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         return ns.T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
-            A = A.A
+            A = A.toarray()
         # Do dense SVD
         _, s, vh = la.svd(A, full_matrices = True)
         nnz = np.isclose(s, 0, atol=atol)
-- 
2.43.0


From 3a629d76c6604ab6483149f1795e3f39b13eff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 05/55] fix: keep the terms when converting LinearOperator
 models to csr format

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 1a73091..82abd44 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -620,7 +620,7 @@ class Model(UserDict):
                 result[key] = scipy.sparse.csr_matrix(val, dtype=complex)
             else:
                 # LinearOperator doesn't support multiplication with sparse matrix
-                val = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
+                result[key] = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
         return result
 
     def toarray(self):
-- 
2.43.0


From bb0e80b3c556177650963e445faaaa3fb68ee694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 06/55] fix: apply continuous generators with both R and U to
 sparse models

The onsite part is returned in dense format and could not be added to
the sparse rotated part.
---
 qsymm/groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 8b35e72..277d4cf 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -571,7 +571,11 @@ class ContinuousGroupGenerator:
                           for i, j in product(range(dim), repeat=2)])
             result += 1j * model.transform_symbolic(trf)
         if U_nonzero:
-            result += model @ (1j*U) + (-1j*U) @ model
+            onsite = model @ (1j*U) + (-1j*U) @ model
+            if onsite.format is np.ndarray:
+                # The onsite part is dense even if the model is sparse
+                result = result.toarray()
+            result += onsite
         return result
 
 
-- 
2.43.0


From cbd8d9a2cfa88f8ddfb0dc6923cef503642f613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 07/55] fix: store constants added to a model under a symbolic
 key

---
 qsymm/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 82abd44..39f28a0 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -297,6 +297,10 @@ class Model(UserDict):
             return scipy.sparse.linalg.aslinearoperator(
                 scipy.sparse.csr_matrix(self.shape, dtype=complex))
 
+    def _constant_key(self):
+        # Key of the constant term, in standard form
+        return One()
+
     def __eq__(self, other):
         # Call allclose with default tolerances
         return self.allclose(other)
@@ -330,7 +334,7 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[1] += other
+            result[self._constant_key()] += other
         else:
             raise NotImplementedError('Addition of {} with shape {} with {} not supported'.format(type(self), self.shape, type(other)))
         return result
@@ -345,7 +349,7 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[1] += other
+            result[self._constant_key()] += other
         else:
             raise NotImplementedError('Addition of {} with {} not supported'.format(type(self), type(other)))
         return result
@@ -835,6 +839,9 @@ class BlochModel(Model):
         else:
             return self.__missing__(key)
 
+    def _constant_key(self):
+        return BlochCoeff(np.zeros((len(self.momenta),)), One())
+
     def transform_symbolic(self, func):
         raise NotImplementedError('`transform_symbolic` is not implemented for `BlochModel`')
 
-- 
2.43.0


From 836b05de6320e89f38757c7d8555931a883dcee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 08/55] fix: compare sparse matrices without stored elements by
 value

---
 qsymm/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 2493984..f274b34 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -48,7 +48,8 @@ def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
         b = b @ np.eye(a.shape[-1], dtype=complex)
 
     # Check if empty arrays, only compare shape
-    if a.size == 0:
+    # (`size` of sparse matrices only counts the stored elements)
+    if np.prod(a.shape) == 0:
         return a.shape == b.shape
     atol = atol + rtol * max(np.max(np.abs(a)), np.max(np.abs(b)))
     diff = a - b
-- 
2.43.0


From ed14d28c9bafeca41197377abe5d047f686c9e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 09/55] fix: round models with sparse matrices

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 39f28a0..77b7aef 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -591,7 +591,7 @@ class Model(UserDict):
         result = self.zeros_like()
         for key, val in self.items():
             val = np.around(val, decimals)
-            if not np.allclose(val, 0):
+            if not allclose(val, 0):
                 result[key] = val
         return result
 
-- 
2.43.0


From 27024fdfff5b380002240f0738927d6385179637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 10/55] fix: symbol cache does not confuse integers and floats

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 77b7aef..5a7ef52 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -996,7 +996,7 @@ def _find_momenta(momenta):
                         for k in _momenta)
 
 
-@lru_cache(maxsize=1000)
+@lru_cache(maxsize=1000, typed=True)
 def _symbol_normalizer(key):
     return sympy.expand_power_exp(sympy.sympify(key, locals={'e': e}))
 
-- 
2.43.0


From 772233c4f249a077e60f47581a2ddef1431623a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 11/55] fix: keep the storage format when transposing sparse
 models

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 5a7ef52..ba68abc 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -572,6 +572,9 @@ class Model(UserDict):
         """Transpose"""
         result = self.zeros_like()
         result.data = {key: val.T for key, val in self.items()}
+        if issubclass(self.format, scipy.sparse.spmatrix):
+            # Transposing csr matrices gives csc matrices and vice versa
+            result.data = {key: self.format(val) for key, val in result.items()}
         result.shape = self.shape[::-1]
         return result
 
-- 
2.43.0


From c02fcb7534fbaed3a9bc87ac4b5428bddaccebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 12/55] fix: use the Frobenius norm of sparse matrices when
 removing small terms

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index ba68abc..99f934b 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -725,6 +725,9 @@ class Model(UserDict):
             return result
         # Write it explicitely so it works with sparse arrays
         def norm(mat):
+            if isinstance(mat, scipy.sparse.spmatrix):
+                # `**` is the matrix power for sparse matrices
+                return scipy.sparse.linalg.norm(mat)
             return np.sqrt(np.sum(np.abs(mat)**2))
         max_norm = np.max([norm(val) for val in self.values()])
         tol = max(atol, max_norm * rtol)
-- 
2.43.0


From eca5c5ef0ba20889125f43eead37620d71c4f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 13/55] fix: update the momenta when substituting equal symbols
 or symbol names

---
 qsymm/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 99f934b..58accae 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -522,22 +522,25 @@ class Model(UserDict):
             args = ([(args[0], args[1])], )
         elif isinstance(args[0], dict): # Input is a dictionary
             args = ([(key, value) for key, value in args[0].items()], )
+        # Symbols may be given as strings
+        args = ([(sympy.sympify(old, locals={'e': e}), sympy.sympify(new, locals={'e': e}))
+                 for old, new in args[0]], )
 
         momenta = self.momenta
         for (old, new) in args[0]:
             # Substitution of a momentum variable with a symbol
             # is a renaming of the momentum.
             if old in momenta and isinstance(new, sympy.Symbol):
-                momenta = tuple(momentum if old is not momentum else new
+                momenta = tuple(momentum if old != momentum else new
                                 for momentum in momenta)
             # If no momenta appear in the replacement for a momentum, we consider
             # that momentum removed.
             # Replacement is not a sympy object.
             elif not isinstance(new, sympy.Basic):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
+                momenta = tuple(momentum for momentum in momenta if old != momentum)
             # Replacement is a sympy object, but does not contain momenta.
             elif not any([momentum in new.atoms() for momentum in momenta]):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
+                momenta = tuple(momentum for momentum in momenta if old != momentum)
         substituted = self.transform_symbolic(lambda x: x.subs(*args, **kwargs))
         substituted.momenta = momenta
         # If there are exponentials, evaluate any numerical exponents,
-- 
2.43.0


From a8e02ae2378f0abed72ef3a8d82b9a752025304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 14/55] fix: look up symbolic keys in Bloch models with onsite
 terms

---
 qsymm/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 58accae..e854848 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -73,6 +73,8 @@ class BlochCoeff(tuple):
         hop1, coeff1 = self
         if other == 1:
             return allclose(hop1, 0) and coeff1 == 1
+        if not isinstance(other, tuple):
+            return NotImplemented
         hop2, coeff2 = other
         # test equality of hop with allclose
         return allclose(hop1, hop2) and coeff1 == coeff2
-- 
2.43.0


From 6a22c63dc44dfaf389e47c76d45d167496e3d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 15/55] fix: add up terms whose keys have the same normal form

---
 qsymm/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index e854848..0e46466 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -198,9 +198,12 @@ class Model(UserDict):
 
         if isinstance(hamiltonian, abc.Mapping):
             # Initialize as dict sympifying the keys
-            self.data = {symbol_normalizer(k): v for k, v in hamiltonian.items()
-                              if symbol_normalizer(k) in self.keep
-                                 or not self.keep}
+            self.data = {}
+            for k, v in hamiltonian.items():
+                key = symbol_normalizer(k)
+                if key in self.keep or not self.keep:
+                    # Different forms of the same key are added up
+                    self.data[key] = self.data[key] + v if key in self.data else v
 
         else:
             # Try to parse the input with kwant_continuum.sympify
-- 
2.43.0


From 0315119315bc1988f1070976225ed4799bf043e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 16/55] fix: return the row operations for vanishing matrices
 in rref

---
 qsymm/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index f274b34..be23675 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -535,10 +535,10 @@ def rref(m, rtol = 1e-3, return_S=False):
         return P
 
     # Stop if m is identically zero
+    S = np.eye(rows, dtype=complex)
     if np.allclose(red, 0):
-        return red
+        return (red, S) if return_S else red
 
-    S = np.eye(rows, dtype=complex)
     tol = np.max(np.abs(m)) * rtol
 
     lead = 0
-- 
2.43.0


From 14ac7690fdd0795b530e22fbae009bbfd00c31e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 17/55] fix: find all solutions of matrix equations with
 complex conjugation

---
 qsymm/linalg.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index be23675..4b62d41 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -422,7 +422,9 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     -------
     ndarray of shape (l, n, n), or list of csr_matrix
         List of linearly independent square matrices
-        that span all solutions of the eaquations.
+        that span all solutions of the eaquations. If there are equations
+        with complex conjugation, the solutions only form a vector space
+        over the real numbers, and span all solutions with real coefficients.
     """
     if sparse is None:
         sparse = isinstance(HL[0], scipy.sparse.spmatrix)
@@ -444,11 +446,21 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     N = dim**2 - (1 if traceless else 0)
     if N == 0:
         return np.empty((0, dim, dim))
+    # Equations with complex conjugation are only linear over the reals
+    antilinear = any(conjugate) and not hermitian
+
+    def all_basis(sparse):
+        basis = matrix_basis(dim, traceless=traceless, sparse=sparse)
+        if not antilinear:
+            return basis
+        # Real coefficients have to span all matrices
+        return it.chain(basis, matrix_basis(dim, traceless=traceless,
+                                            antihermitian=True, sparse=sparse))
 
     # Prepare for differences in sparse and dense algebra
     if sparse:
         def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=True)
+            return all_basis(sparse=True)
         vstack = scipy.sparse.vstack
         bmat = scipy.sparse.bmat
         # Cast it to coo format and reshape
@@ -456,7 +468,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
             return scipy.sparse.coo_matrix(x).reshape((x.shape[0]*x.shape[1], 1))
     else:
         def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=False)
+            return all_basis(sparse=False)
         vstack = np.vstack
         bmat = np.block
         def flatten(x):
@@ -473,7 +485,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
 
     null_mat = bmat(null_mat)
 
-    if hermitian:
+    if hermitian or antilinear:
         # Simultaneaous equations for real and immaginary parts
         # Lapack guarantees that the SVD of a real matrix is real
         null_mat = vstack((null_mat.real, null_mat.imag))
@@ -483,7 +495,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     # Make all solutions
     # 'ij,jkl->ikl'
     def basis():
-        return matrix_basis(dim, traceless=traceless, sparse=False)
+        return all_basis(sparse=False)
     return np.array([sum((v * mat for v, mat in zip(vec, basis()))) for vec in ns])
 
 
-- 
2.43.0


From 41b2d5079ef6aeb412be13cc9fa4071d20b6142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 18/55] fix: print continuous generators without conserved
 quantity

---
 qsymm/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 277d4cf..a3bfcc4 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1057,6 +1057,8 @@ def pretty_print_cgg(g, latex=False):
             L_name = r'L = {} \\'.format(_array_to_latex(np.round(L, 3)))
         else:
             L_name = '\nL = {}'.format(str(np.round(L, 3)).replace('\n', '\n    '))
+    else:
+        L_name = ''
 
     if latex:
         if R is not None:
-- 
2.43.0


From 9573ffc58619fcb956935dcad1e9923f24831e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 19/55] fix: round the printed axis of continuous rotations
 only once

---
 qsymm/groups.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index a3bfcc4..cc5db4d 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1042,7 +1042,6 @@ def pretty_print_cgg(g, latex=False):
     if R is not None and R.shape[0] == 3:
         n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741
         n /= la.norm(n)
-        n = _round_axis(n)
         if latex:
             rot_name = r'R_{{\phi}} = R\left(\phi, {}\right)\\'.format(_round_axis(n))
         else:
-- 
2.43.0


From 6674ff522f0c2ff665caab938611bc067f701921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 20/55] fix: angle and axis of rotations around axes with
 components adding up to zero

---
 qsymm/groups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index cc5db4d..635f227 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1083,14 +1083,15 @@ def rotation_to_angle(R):
     assert allclose(R, R.real)
     n = np.array([1j * np.trace(L @ R) for L in L_matrices()]).real
     # Choose direction to minimize number of minus signs
-    absn = la.norm(n) * np.sign(np.sum(n))
+    absn = la.norm(n) * (-1 if np.sum(n) < 0 else 1)
     if np.isclose(absn, 0):
         # n is zero for 2-fold rotation, find eigenvector with +1
         val, vec = la.eigh(R)
         assert np.isclose(val[-1], 1), R
         n = vec[:, -1]
         # Choose direction to minimize number of minus signs
-        n /= np.sign(np.sum(n))
+        n = n * (-1 if np.sum(n) < 0 else 1)
+        absn = 0
     else:
         n /= absn
     theta = np.arctan2(absn, np.trace(R).real - 1)
-- 
2.43.0


From 5b381412c634ec8c39c6bb9f18f2e1aea00a942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 21/55] fix: exact sixfold rotation in the same direction in
 real and spin space

---
 qsymm/groups.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 635f227..912190c 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -824,8 +824,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         if sympy_R:
 
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2],
-                                         [-sympy.sqrt(3)/2,       sympy.Rational(1, 2)]]
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2],
+                                         [sympy.sqrt(3)/2,       sympy.Rational(1, 2)]]
                                                          ),
                                          False, False, U6)
         else:
@@ -836,8 +836,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         C2x = rotation(1/2, [1, 0, 0], spin=spin)
         if sympy_R:
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2, 0],
-                                         [-sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2, 0],
+                                         [sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
                                          [0, 0, 1]]
                                                          ),
                                          False, False, U6)
-- 
2.43.0


From 3c99e6ec1105b518b97824078e81ea8545f74230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 22/55] fix: sites are mapped to their images in
 symmetry_from_permutation

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 912190c..d64ccaf 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1290,7 +1290,7 @@ def symmetry_from_permutation(R, perm, norbs, onsite_action=None,
     for a in norbs.keys():
         if not norbs[a] == norbs[perm[a]]:
             raise ValueError('Symmetry related sites must have the same number or orbitals')
-        U[ranges[a], ranges[perm[a]]] = onsite_action[a]
+        U[ranges[perm[a]], ranges[a]] = onsite_action[a]
     g = PointGroupElement(R, antiunitary, antisymmetry, U)
     return g
 
-- 
2.43.0


From 861c7ba35510bf8c09eebf9d86f36d1673127cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 23/55] fix: print the direction of continuous rotations in two
 dimensions

---
 qsymm/groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index d64ccaf..42ae154 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1047,7 +1047,11 @@ def pretty_print_cgg(g, latex=False):
         else:
             rot_name = '\nR_ϕ = R(ϕ, {})'.format(_round_axis(n))
     elif R is not None and R.shape[0] == 2:
-        rot_name = r'R_{{\phi}} = R\left(\phi\right)\\' if latex else 'R_ϕ = R(ϕ)\n'
+        sign = '-' if np.trace(L_matrices(d=2)[0] @ R).real < 0 else ''
+        if latex:
+            rot_name = r'R_{{\phi}} = R\left({}\phi\right)\\'.format(sign)
+        else:
+            rot_name = 'R_ϕ = R({}ϕ)\n'.format(sign)
     else:
         rot_name = ''
 
-- 
2.43.0


From ad11ed2f971ad49977ce5c29bc10b1b05e37e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 24/55] fix: no momentum variables of nonzero power in zero
 dimensions

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5e01e13..8495bb9 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -222,7 +222,8 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
             all_powers[i] = range(power + 1)
 
     if dim == 0:
-        return [kwant_continuum.sympify(1)]
+        # The only monomial is constant
+        return [kwant_continuum.sympify(1)] if total_power == 0 else []
 
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
-- 
2.43.0


From 09395931791286aaa03cac403668a4e0cec775d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 25/55] fix: constrain families with terms that no symmetry
 image contains

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 8495bb9..dab8a7e 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -420,7 +420,7 @@ def constrain_family(symmetries, family, sparse_linalg=False):
 
     # Get all variables and fix ordering
     all_variables = set()
-    for member in it.chain(*rotated_families):
+    for member in it.chain(family, *rotated_families):
         all_variables |= member.keys()
     all_variables = list(all_variables)
 
-- 
2.43.0


From 5eb11ecb8d1f60f716e298d28abda813be40bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 26/55] fix: keep the momenta of pairing families

---
 qsymm/hamiltonian_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index dab8a7e..987aa4a 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -178,8 +178,8 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
 
     # Cast the pairing terms into new Model objects, to ensure that each object has the correct
     # shape.
-    family = [Model({term: matrix[:N, N:] for term, matrix in monomial.items()}) for monomial in
-              family]
+    family = [Model({term: matrix[:N, N:] for term, matrix in monomial.items()},
+                    momenta=monomial.momenta) for monomial in family]
     return [mon for mon in family if len(mon)]
 
 
-- 
2.43.0


From c8fc20f349aaa2d1b354c46f37d00525f308f0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 27/55] fix: accept any iterable of symmetries in
 continuum_pairing

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 987aa4a..65f80b6 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -138,9 +138,9 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
 
     if ph_square not in (-1, 1):
         raise ValueError('Particle-hole operator must square to +1 or -1.')
+    symmetries = deepcopy(list(symmetries))
     if phases is None:
         phases = np.ones(len(symmetries))
-    symmetries = deepcopy(symmetries)
     N = symmetries[0].U.shape[0]
     # Attach phases to symmetry operators and extend to BdG space
     for sym, phase in zip(symmetries, phases):
-- 
2.43.0


From a488355d599c03fca1bdaf8e9ec3839761e6fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 28/55] fix: momenta specified as names or indices in
 Hamiltonian families

---
 qsymm/hamiltonian_generator.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 65f80b6..e0e6d02 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -7,7 +7,7 @@ from copy import deepcopy
 import tinyarray as ta
 
 from .linalg import matrix_basis, nullspace, family_to_vectors, rref, allclose
-from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, e, I
+from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, _find_momenta, e, I
 from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group
 from . import kwant_continuum
 
@@ -61,7 +61,7 @@ def continuum_hamiltonian(symmetries, dim, total_power, all_powers=None,
 
     # Generate a Hamiltonian family
     N = list(symmetries)[0].U.shape[0] # Dimension of Hamiltonian matrix
-    momenta = momenta[:dim]
+    momenta = _normalize_momenta(momenta[:dim])
     # Symmetries do not mix the total degree of momenta. We can thus work separately at each
     # fixed degree.
     family = []
@@ -152,7 +152,7 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
     ph = np.array([[0, 1], [ph_square, 0]])
     ph = PointGroupElement(np.eye(dim), True, True, np.kron(ph, np.eye(N)))
     symmetries.append(ph)
-    momenta = momenta[:dim]
+    momenta = _normalize_momenta(momenta[:dim])
     momentum_variables = continuum_variables(dim, total_power, all_powers=all_powers, momenta=momenta)
     # matrix basis for all matrices in off-diagonal blocks
     b0 = np.zeros((N, N))
@@ -214,7 +214,7 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
     if len(all_powers) < dim or len(momenta) < dim:
         raise ValueError('`all_powers` and `momenta` must be at least `dim` long.')
     # Only keep the first dim entries
-    momenta = momenta[:dim]
+    momenta = _normalize_momenta(momenta[:dim])
     all_powers = all_powers[:dim]
 
     for i, power in enumerate(all_powers):
@@ -225,12 +225,6 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
         # The only monomial is constant
         return [kwant_continuum.sympify(1)] if total_power == 0 else []
 
-    if all(isinstance(i, int) for i in momenta):
-        momenta = [_commutative_momenta[i] for i in momenta]
-    else:
-        momenta = [kwant_continuum.make_commutative(k, k)
-                        for k in momenta]
-
     # Generate powers for all terms
     powers = [p for p in it.product(*all_powers) if sum(p) == total_power]
     momentum_variables = [sympy.Mul(*[sympy.Pow(k, power) for k, power in zip(momenta, p)])
@@ -238,6 +232,12 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
     return momentum_variables
 
 
+def _normalize_momenta(momenta):
+    # Momenta may be specified as indices, names or symbols
+    return _find_momenta(tuple(_commutative_momenta[k] if isinstance(k, int) else k
+                               for k in momenta))
+
+
 def round_family(family, num_digits=3):
     """Round the matrix coefficients of a family to specified significant digits.
 
@@ -673,6 +673,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
     # Check dimensionality
     dim = len(hopping_vectors[0][-1])
     assert all([len(hop[-1]) == dim for hop in hopping_vectors])
+    momenta = _normalize_momenta(momenta[:dim])
 
     # Add zero hoppings for onsites
     if onsites:
-- 
2.43.0


From dc9d8166a5685d98b15d00e72e19b1f1f77e1dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 29/55] fix: do not modify the symmetries given to bloch_family

---
 qsymm/hamiltonian_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index e0e6d02..36bd833 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -710,6 +710,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         family.extend(hopfamily)
     if symmetrize:
         # Make sure that group is generated while keeping track of unitary part.
+        pg = deepcopy(pg)
         for g in pg:
             g._strict_eq = True
         pg = generate_group(set(pg))
-- 
2.43.0


From 95530d35a319f0fcc0972f0b010483033561697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 30/55] fix: lattice families without point group symmetries

---
 qsymm/hamiltonian_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 36bd833..dda5385 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -397,11 +397,11 @@ def constrain_family(symmetries, family, sparse_linalg=False):
     family: iterable of Model or BlochModel objects, that represents the
         family with the symmetry constraints applied. """
 
-    if not family:
-        return family
     # Fix ordering
-    family = list(family)
     symmetries = list(symmetries)
+    if not family or not symmetries:
+        return family
+    family = list(family)
     # Check compatibility of family members and symmetries
     shape = family[0].shape
     momenta = family[0].momenta
@@ -708,7 +708,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         if conserved:
             hopfamily = constrain_family(conserved, hopfamily)
         family.extend(hopfamily)
-    if symmetrize:
+    if symmetrize and pg:
         # Make sure that group is generated while keeping track of unitary part.
         pg = deepcopy(pg)
         for g in pg:
-- 
2.43.0


From dff9414f7e41037f561f100c197c3b70896472d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 31/55] fix: enforce conserved quantities that the point group
 does not preserve

---
 qsymm/hamiltonian_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index dda5385..956064c 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -721,6 +721,9 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
             if not term == {}:
                 family2.append(term)
         family = remove_duplicates(family2, tol=10**(-num_digits))
+        # Symmetrization may mix in terms that break the conservation laws
+        if any(g.apply(term) != {} for g in conserved for term in family):
+            family = constrain_family(conserved, family)
     else:
         # Constrain the terms by symmetry
         family = constrain_family(pg, remove_duplicates(family))
-- 
2.43.0


From 4a342531c0761a5ab9fa453f28b54ff276416edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 32/55] fix: pairing families have all the momenta specified

---
 qsymm/hamiltonian_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 956064c..f34bd8b 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -152,7 +152,8 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
     ph = np.array([[0, 1], [ph_square, 0]])
     ph = PointGroupElement(np.eye(dim), True, True, np.kron(ph, np.eye(N)))
     symmetries.append(ph)
-    momenta = _normalize_momenta(momenta[:dim])
+    all_momenta = _normalize_momenta(momenta)
+    momenta = all_momenta[:dim]
     momentum_variables = continuum_variables(dim, total_power, all_powers=all_powers, momenta=momenta)
     # matrix basis for all matrices in off-diagonal blocks
     b0 = np.zeros((N, N))
@@ -179,7 +180,7 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
     # Cast the pairing terms into new Model objects, to ensure that each object has the correct
     # shape.
     family = [Model({term: matrix[:N, N:] for term, matrix in monomial.items()},
-                    momenta=monomial.momenta) for monomial in family]
+                    momenta=all_momenta) for monomial in family]
     return [mon for mon in family if len(mon)]
 
 
-- 
2.43.0


From 1506e535ed05a3dfae224440cee617ce2fb54dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 33/55] fix: find sparse null spaces of all allowed dimensions

---
 qsymm/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 4b62d41..794ec67 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -243,8 +243,8 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
                     # We found the first large one
                     break
                 else:
-                    # All small, need to increase k_max
-                    k_max += k_step
+                    # All small, need to increase k_max up to A.shape[0] - 2
+                    k_max = max(k_max + 1, min(k_max + k_step, A.shape[0] - 2))
             else:
                 raise ValueError('A should have at most A.shape[0]-2 dimensional null space.'
                                  'Try using sparse=False.')
-- 
2.43.0


From 71574f281cf56964876b64d1c83d8cf6a155750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 34/55] fix: split exponents with common factors in the normal
 form of symbolic keys

---
 qsymm/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 0e46466..e30be8b 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1012,7 +1012,10 @@ def _find_momenta(momenta):
 
 @lru_cache(maxsize=1000, typed=True)
 def _symbol_normalizer(key):
-    return sympy.expand_power_exp(sympy.sympify(key, locals={'e': e}))
+    key = sympy.sympify(key, locals={'e': e})
+    # Also split exponents that have common factors, e.g. `e**(I*(k_x + k_y))`
+    key = key.replace(lambda x: x.is_Pow, lambda x: x.func(x.base, sympy.expand(x.exp)))
+    return sympy.expand_power_exp(key)
 
 
 @lru_cache(maxsize=1000)
-- 
2.43.0


From 88dbda724f3581ecf54f8845aeeb6ad6f3c0d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:24 +0000
Subject: [PATCH 35/55] fix: do not round lattice family terms before finding
 the independent ones

Rounding to num_digits made linearly dependent terms independent above the
tolerance, so bloch_family returned spurious members.
---
 qsymm/hamiltonian_generator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index f34bd8b..efc4ae0 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -718,10 +718,12 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
         for term in family:
-            term = symmetrize_monomial(term, pg).around(decimals=num_digits)
-            if not term == {}:
+            term = symmetrize_monomial(term, pg)
+            if not term.around(decimals=num_digits) == {}:
                 family2.append(term)
-        family = remove_duplicates(family2, tol=10**(-num_digits))
+        # Do not round before finding the linearly independent terms, rounding
+        # makes linearly dependent terms slightly independent
+        family = remove_duplicates(family2)
         # Symmetrization may mix in terms that break the conservation laws
         if any(g.apply(term) != {} for g in conserved for term in family):
             family = constrain_family(conserved, family)
-- 
2.43.0


From 987a08629125eda3b91420f9c82b4f32a383f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:57 +0000
Subject: [PATCH 36/55] fix: project out the second family in subtract_family

The result was a linear complement that still overlapped with the
subtracted family unless the members were orthogonal.
---
 qsymm/hamiltonian_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index efc4ae0..02dd238 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -553,8 +553,10 @@ def subtract_family(family1, family2, tol=1e-8, prettify=False):
     _, ort_basis1 = nullspace(basis1, atol=tol, return_complement=True)
     if not allclose((projected_basis1.dot(ort_basis1.T.conj())).dot(ort_basis1), projected_basis1, atol=tol):
         raise ValueError('Projecting onto the complement of family2 did not result in a subspace of family1')
-    # Find the coefficients of linearly independent vectors
-    _, projected_coeffs1 = nullspace(projected_basis1.T, atol=tol, return_complement=True)
+    # Find the linearly independent projected vectors
+    _, projected_basis1 = nullspace(projected_basis1, atol=tol, return_complement=True)
+    # Find their coefficients in terms of the members of family1
+    projected_coeffs1 = projected_basis1.dot(la.pinv(basis1, atol=tol))
     rfamily = []
     for vec in projected_coeffs1:
         rfamily.append(sum([family1[i] * c for i, c in enumerate(vec)]))
-- 
2.43.0


From d9be5d72b0849f5c6549d738b519722e7ba4a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 37/55] fix: print symmetry operations of zero-dimensional
 systems

---
 qsymm/groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 42ae154..ad55b24 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -921,7 +921,9 @@ def pretty_print_pge(g, full=False, latex=False):
         return angle
 
     R = np.array(g.R).astype(float)
-    if R.shape[0] == 1:
+    if R.shape[0] == 0:
+        rot_name = '1'
+    elif R.shape[0] == 1:
         if R[0, 0] == 1:
             rot_name = '1'
         else:
-- 
2.43.0


From fdd848c9e19ffaa845c3be95dcf5122b4b523d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 38/55] fix: sign of the x and y angular momentum of d orbitals

The matrices rotated d_yz and d_zx with the wrong sign compared to the
p orbitals and to the real space rotation.
---
 qsymm/groups.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index ad55b24..94d40aa 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1230,16 +1230,16 @@ def L_matrices(d=3, l=1):  # Noqa: E741
                                [0, 0, 0]]])
     elif d == 3 and l==2:
         s3 = np.sqrt(3)
-        return 1j * np.array([[[0, 0, 0, -1, 0],
-                              [0, 0, 0, -s3, 0],
-                              [0, 0, 0, 0, 1],
-                              [1, s3, 0, 0, 0],
-                              [0, 0, -1, 0, 0]],
-                             [[0, 0, 0, 0, -1],
-                              [0, 0, 0, 0, s3],
-                              [0, 0, 0, -1, 0],
-                              [0, 0, 1, 0, 0],
-                              [1, -s3, 0, 0, 0]],
+        return 1j * np.array([[[0, 0, 0, 1, 0],
+                              [0, 0, 0, s3, 0],
+                              [0, 0, 0, 0, -1],
+                              [-1, -s3, 0, 0, 0],
+                              [0, 0, 1, 0, 0]],
+                             [[0, 0, 0, 0, 1],
+                              [0, 0, 0, 0, -s3],
+                              [0, 0, 0, 1, 0],
+                              [0, 0, -1, 0, 0],
+                              [-1, s3, 0, 0, 0]],
                              [[0, 0, -2, 0, 0],
                               [0, 0, 0, 0, 0],
                               [2, 0, 0, 0, 0],
-- 
2.43.0


From 4279427a2f51bc7c61a8e37f48845f16d8c98717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 39/55] fix: reject spins that are not integer or half-integer

---
 qsymm/groups.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 94d40aa..76164ab 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1152,9 +1152,8 @@ def spin_matrices(s, include_0=False):
         Array of shape `(3, 2*s + 1, 2*s + 1)`, or if `include_0` is True
         `(4, 2*s + 1, 2*s + 1)`.
     """
-    d = np.round(2*s + 1)
-    assert np.isclose(d, int(d))
-    d = int(d)
+    d = int(np.round(2*s + 1))
+    assert np.isclose(d, 2*s + 1)
     Sz = 1/2 * np.diag(np.arange(d - 1, -d, -2))
     # first diagonal for general s from en.wikipedia.org/wiki/Spin_(physics)
     diag = [1/2*np.sqrt((s + 1) * 2*i - i * (i + 1)) for i in np.arange(1, d)]
-- 
2.43.0


From 644832a9ef1f1b1f73198fcaaec91d932cb99cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:51 +0000
Subject: [PATCH 40/55] fix: reject spin together with particle-hole symmetry
 in hexagonal

---
 qsymm/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 76164ab..2663a8e 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -815,6 +815,10 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         is different. Here we consider the action of the mirror, which is the same as the
         action of a 2-fold rotation around the mirror axis, assuming inversion acts trivially.
     """
+    if ph and spin is not None:
+        raise ValueError('If `ph` is True, `spin` may not be provided, as it is not '
+                         'possible to deduce the unitary representation of particle-hole symmetry '
+                         'from spin alone. In this case construct the particle-hole operator manually.')
     if spin is not None and sympy_R:
         U6 = spin_rotation(np.pi / 3 * np.array([0, 0, 1]), spin)
     else:
-- 
2.43.0


From 36b26e16fdf5fb8463975743573895c7f39078e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:56 +0000
Subject: [PATCH 41/55] fix: keep the central generators Hermitian in
 separate_lie_algebra

Numerical noise in the imaginary part of the Killing form made its null vectors
slightly complex, so degenerate eigenvalues of the central generators were split
and conserved quantities were lost.
---
 qsymm/symmetry_finder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 3dfc11e..d6b7e67 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -159,6 +159,10 @@ def separate_lie_algebra(gens):
         generators of semisimple part, shape (ms, N, N)
     """
     g = killing(gens)
+    # The Killing form of Hermitian generators is real, remove numerical noise
+    # so that the real linear combinations of the generators stay Hermitian.
+    if np.allclose(g.imag, 0):
+        g = g.real
     c, s = nullspace(g, return_complement=True)
     # 'ab,bij->aij'
     gensc = np.tensordot(c, gens, axes=(1, 0))
-- 
2.43.0


From 93cdbaa4c9e8b60583361f6759e504ba0ab553c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:48 +0000
Subject: [PATCH 42/55] fix: sparse null space of matrices too small for the
 sparse eigensolver

Symmetry search with sparse_linalg=True raised TypeError for blocks of size one.
---
 qsymm/linalg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 794ec67..da5f9d1 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -224,6 +224,9 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         # Treat A=0 case
         if np.allclose(A.data, 0, atol=atol/A.shape[1]):
             return np.eye(A.shape[1])
+        # The sparse solver cannot find almost all eigenvectors
+        if k_max >= A.shape[1] - 1:
+            return nullspace(A.toarray(), atol=atol, sparse=False)[:k_max]
         # Make Hermitian positive definite matrix
         A = A.T.conj().dot(A)
 
-- 
2.43.0


From 65981f4445e080cec382a75eeea94e1388aa29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:54 +0000
Subject: [PATCH 43/55] fix: continuous rotations of Hamiltonians with
 one-dimensional blocks

---
 qsymm/symmetry_finder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index d6b7e67..6f3f299 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -725,7 +725,11 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
         R = None
         Ls = matrix_basis(blockdim, traceless=True)
         trf_hams = [ContinuousGroupGenerator(R, L).apply(rham) for L in Ls]
-        Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        if trf_hams:
+            Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        else:
+            # There is no action in a 1D block
+            Lblock = np.zeros((len(Rblock), 0))
         Lblocks.append(Lblock)
 
     # Build constraint matrix: first the spatial blocks in a column, then the
-- 
2.43.0


From ab7985f7ecf1a211826cfed021319928f7c2e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:54 +0000
Subject: [PATCH 44/55] fix: sparse null space of matrices with one or two
 columns

---
 qsymm/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index da5f9d1..31e76ca 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -225,8 +225,9 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         if np.allclose(A.data, 0, atol=atol/A.shape[1]):
             return np.eye(A.shape[1])
         # The sparse solver cannot find almost all eigenvectors
-        if k_max >= A.shape[1] - 1:
-            return nullspace(A.toarray(), atol=atol, sparse=False)[:k_max]
+        if k_max != 0 and A.shape[1] <= max(k_max, 1) + 1:
+            ns = nullspace(A.toarray(), atol=atol, sparse=False)
+            return ns[:k_max] if k_max > 0 else ns
         # Make Hermitian positive definite matrix
         A = A.T.conj().dot(A)
 
-- 
2.43.0


From e6032dfa4e70df2e0ce10fe1663b954e3dc51a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 45/55] fix: models do not share matrices with the models they
 are derived from

toarray, tocsr, T, reshape and the constructors returned models holding the same
arrays, and copies of sparse models shared their data, so changing one in place
changed the other.
---
 qsymm/model.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index e30be8b..524653f 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1,5 +1,5 @@
 from itertools import product
-from copy import copy
+import copy as _copy
 from numbers import Number
 from warnings import warn
 from functools import lru_cache
@@ -23,6 +23,13 @@ e = kwant_continuum.e
 I = sympy.I  # noqa: E741
 
 
+def copy(val):
+    # `copy.copy` of a sparse matrix shares its data with the original
+    if isinstance(val, scipy.sparse.spmatrix):
+        return val.copy()
+    return _copy.copy(val)
+
+
 def substitute_exponents(expr):
     """Substitute trignometric functions with exp.
 
@@ -203,7 +210,7 @@ class Model(UserDict):
                 key = symbol_normalizer(k)
                 if key in self.keep or not self.keep:
                     # Different forms of the same key are added up
-                    self.data[key] = self.data[key] + v if key in self.data else v
+                    self.data[key] = self.data[key] + v if key in self.data else copy(v)
 
         else:
             # Try to parse the input with kwant_continuum.sympify
@@ -579,7 +586,7 @@ class Model(UserDict):
     def T(self):
         """Transpose"""
         result = self.zeros_like()
-        result.data = {key: val.T for key, val in self.items()}
+        result.data = {key: copy(val.T) for key, val in self.items()}
         if issubclass(self.format, scipy.sparse.spmatrix):
             # Transposing csr matrices gives csc matrices and vice versa
             result.data = {key: self.format(val) for key, val in result.items()}
@@ -632,7 +639,7 @@ class Model(UserDict):
         result.format = scipy.sparse.csr_matrix
         for key, val in self.items():
             if isinstance(val, (Number, np.ndarray, scipy.sparse.spmatrix)):
-                result[key] = scipy.sparse.csr_matrix(val, dtype=complex)
+                result[key] = scipy.sparse.csr_matrix(val, dtype=complex, copy=True)
             else:
                 # LinearOperator doesn't support multiplication with sparse matrix
                 result[key] = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
@@ -644,7 +651,7 @@ class Model(UserDict):
         result.format = np.ndarray
         for key, val in self.items():
             if isinstance(val, np.ndarray):
-                result[key] = val
+                result[key] = copy(val)
             elif isinstance(val, Number):
                 result[key] = np.asarray(val)
             elif isinstance(val, scipy.sparse.spmatrix):
@@ -705,7 +712,7 @@ class Model(UserDict):
     def reshape(self, *args, **kwargs):
         """Reshape, see numpy.reshape."""
         result = self.zeros_like()
-        result.data = {key: val.reshape(*args, **kwargs) for key, val in self.items()}
+        result.data = {key: copy(val.reshape(*args, **kwargs)) for key, val in self.items()}
         result.shape, result.format = _shape_and_format(self[1].reshape(*args, **kwargs))
         return result
 
-- 
2.43.0


From f4d333737ad932f38ee1d5cfddbd7860bc53082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 46/55] fix: multiply models by sympy numbers

Multiplying or dividing by a sympy number turned dense values into
object arrays and raised a TypeError for sparse ones.
---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 524653f..b6c2cbc 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -377,6 +377,8 @@ class Model(UserDict):
     def __mul__(self, other):
         # Multiplication by numbers, sympy symbols, arrays and Model
         if isinstance(other, Number):
+            # Sympy numbers would turn the values into object arrays
+            other = complex(other) if isinstance(other, Basic) else other
             result = self.zeros_like()
             result.data = {key: val * other for key, val in self.items()}
         elif isinstance(other, Basic):
@@ -466,6 +468,7 @@ class Model(UserDict):
     def __truediv__(self, other):
         result = self.zeros_like()
         if isinstance(other, Number):
+            other = complex(other) if isinstance(other, Basic) else other
             result.data = {key : val * (1/other) for key, val in self.items()}
         else:
             raise TypeError(
-- 
2.43.0


From 54314d11baaaaf711819baf10987d3d8d4977bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 47/55] fix: continuum families with symmetries given as an
 iterator are constrained

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 02dd238..cbbb576 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -60,7 +60,8 @@ def continuum_hamiltonian(symmetries, dim, total_power, all_powers=None,
         total_power = range(max_power + 1)
 
     # Generate a Hamiltonian family
-    N = list(symmetries)[0].U.shape[0] # Dimension of Hamiltonian matrix
+    symmetries = list(symmetries)
+    N = symmetries[0].U.shape[0] # Dimension of Hamiltonian matrix
     momenta = _normalize_momenta(momenta[:dim])
     # Symmetries do not mix the total degree of momenta. We can thus work separately at each
     # fixed degree.
-- 
2.43.0


From a57823000edf6ca7cf122ccf71a8977b1e221795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 48/55] fix: check_symmetry of a family given as an iterator
 checks every symmetry

---
 qsymm/hamiltonian_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index cbbb576..a2cb4ae 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -364,6 +364,7 @@ def check_symmetry(family, symmetries, num_digits=None):
     """
     def fail():
         raise ValueError(f'Member {member} does not satisfy symmetry {symmetry}.')
+    family = list(family)
     for symmetry in symmetries:
         # Iterate over all members of the family
         for member in family:
-- 
2.43.0


From a1b069567b2965fa13c921ec11c87250b1c0d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 49/55] fix: compare a number with a LinearOperator in allclose

---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 31e76ca..d24fa28 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -45,7 +45,7 @@ def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
     if isinstance(b, (list, Number)):
         b = np.asarray(b)
     elif isinstance(b, sla.LinearOperator):
-        b = b @ np.eye(a.shape[-1], dtype=complex)
+        b = b @ np.eye(b.shape[-1], dtype=complex)
 
     # Check if empty arrays, only compare shape
     # (`size` of sparse matrices only counts the stored elements)
-- 
2.43.0


From 20ba5569f769625a122918d7d66ee57be1395ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 50/55] fix: the conjugate of a model with real values does not
 share matrices with it

---
 qsymm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index b6c2cbc..162d344 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -582,7 +582,7 @@ class Model(UserDict):
         """Complex conjugation"""
         result = self.zeros_like()
         # conjugation is bijective, if self was properly formatted, so is this
-        result.data = {key.subs(sympy.I, -sympy.I): val.conj()
+        result.data = {key.subs(sympy.I, -sympy.I): copy(val.conj())
                         for key, val in self.items()}
         return result
 
@@ -882,7 +882,7 @@ class BlochModel(Model):
     def conj(self):
         """Complex conjugation."""
         result = self.zeros_like()
-        result.data = {BlochCoeff(-hop, coeff.subs(sympy.I, -sympy.I)): val.conj()
+        result.data = {BlochCoeff(-hop, coeff.subs(sympy.I, -sympy.I)): copy(val.conj())
                             for (hop, coeff), val in self.items()}
         return result
 
-- 
2.43.0


From d3bb8bb95a42525ae5fa26d5c128bac8fd18a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:53 +0000
Subject: [PATCH 51/55] fix: complex constants can be added to models with real
 values

---
 qsymm/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 162d344..bd82fb4 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -346,7 +346,8 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[self._constant_key()] += other
+            key = self._constant_key()
+            result[key] = result[key] + other
         else:
             raise NotImplementedError('Addition of {} with shape {} with {} not supported'.format(type(self), self.shape, type(other)))
         return result
@@ -361,7 +362,8 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[self._constant_key()] += other
+            key = self._constant_key()
+            result[key] = result[key] + other
         else:
             raise NotImplementedError('Addition of {} with {} not supported'.format(type(self), type(other)))
         return result
-- 
2.43.0


From 698c57805d409903654dbecb3e25e473871c524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 52/55] fix: Model.subs with several substitutions: order of a
 dictionary, momenta of simultaneous and chained substitutions

---
 qsymm/model.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index bd82fb4..fc10b74 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -534,30 +534,29 @@ class Model(UserDict):
         """
         # Allowed inputs are an old, new pair, or
         # a list or dictionary of old, new pairs.
-        # Bring them all to the form of a list of old, new pairs.
         if len(args) == 2:  # Input is a single pair
             args = ([(args[0], args[1])], )
-        elif isinstance(args[0], dict): # Input is a dictionary
-            args = ([(key, value) for key, value in args[0].items()], )
         # Symbols may be given as strings
-        args = ([(sympy.sympify(old, locals={'e': e}), sympy.sympify(new, locals={'e': e}))
-                 for old, new in args[0]], )
-
-        momenta = self.momenta
-        for (old, new) in args[0]:
+        pairs = args[0].items() if isinstance(args[0], dict) else args[0]
+        pairs = [(sympy.sympify(old, locals={'e': e}), sympy.sympify(new, locals={'e': e}))
+                 for old, new in pairs]
+        # The order of substitutions given as a dictionary is chosen by sympy
+        args = (dict(pairs) if isinstance(args[0], dict) else pairs, )
+
+        momenta = []
+        for momentum in self.momenta:
+            new = momentum.subs(*args, **kwargs)
             # Substitution of a momentum variable with a symbol
             # is a renaming of the momentum.
-            if old in momenta and isinstance(new, sympy.Symbol):
-                momenta = tuple(momentum if old != momentum else new
-                                for momentum in momenta)
+            if isinstance(new, sympy.Symbol):
+                momentum = new
             # If no momenta appear in the replacement for a momentum, we consider
             # that momentum removed.
-            # Replacement is not a sympy object.
-            elif not isinstance(new, sympy.Basic):
-                momenta = tuple(momentum for momentum in momenta if old != momentum)
-            # Replacement is a sympy object, but does not contain momenta.
-            elif not any([momentum in new.atoms() for momentum in momenta]):
-                momenta = tuple(momentum for momentum in momenta if old != momentum)
+            elif not any([k in new.atoms() for k in self.momenta]):
+                continue
+            if momentum not in momenta:
+                momenta.append(momentum)
+        momenta = tuple(momenta)
         substituted = self.transform_symbolic(lambda x: x.subs(*args, **kwargs))
         substituted.momenta = momenta
         # If there are exponentials, evaluate any numerical exponents,
-- 
2.43.0


From 0c8e0d11a7581c3572593518dec85a8d88b5e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 53/55] fix: filters (keep) of models built from expressions,
 BlochCoeff filters of BlochModels built from symbolic input

---
 qsymm/model.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index fc10b74..30ca7ae 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -274,6 +274,9 @@ class Model(UserDict):
                     self[new_key] += new_val
             # remove zero entries, apply symbol_normalizer
             self.data = {symbol_normalizer(k): v for k, v in self.items() if not allclose(v, 0)}
+            # the terms of a dictionary were selected above
+            if self.keep and not isinstance(hamiltonian, abc.Mapping):
+                self.data = {k: v for k, v in self.items() if k in self.keep}
 
     # Make sure values have the correct format
     def __setitem__(self, key, item):
@@ -837,23 +840,27 @@ class BlochModel(Model):
                                 )
             elif symbolic:
                 # First cast it to model with restructuring, then try to interpret it as BlochModel
-                self.__init__(Model(hamiltonian,
-                                    locals=locals,
-                                    momenta=momenta,
-                                    keep=keep,
-                                    normalize=True,
-                                    shape=shape,
-                                    format=format))
+                model = Model(hamiltonian,
+                              locals=locals,
+                              momenta=momenta,
+                              normalize=True,
+                              shape=shape,
+                              format=format)
+                model.keep = {key if isinstance(key, BlochCoeff) else _symbol_normalizer(key)
+                              for key in keep or ()}
+                self.__init__(model)
             else:
                 raise ValueError('All keys must have the same type (sympy expression or BlochCoeff).')
         else:
             # Use Model to parse input
-            self.__init__(Model(hamiltonian,
-                                locals=locals,
-                                momenta=momenta,
-                                keep=keep,
-                                shape=shape,
-                                format=format))
+            model = Model(hamiltonian,
+                          locals=locals,
+                          momenta=momenta,
+                          shape=shape,
+                          format=format)
+            model.keep = {key if isinstance(key, BlochCoeff) else _symbol_normalizer(key)
+                          for key in keep or ()}
+            self.__init__(model)
 
     # Allow getting values using text keys
     def __getitem__(self, key):
-- 
2.43.0


From 5b07b6c5a0a85ecb6aca59a7a4c106ce09ccb21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 54/55] fix: evalf of models with phase factors, complex values
 and of BlochModels

---
 qsymm/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 30ca7ae..eae8f81 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -638,7 +638,7 @@ class Model(UserDict):
 
     def evalf(self, subs=None):
         """Evaluate using parameter values in `subs`."""
-        return sum(float(key.evalf(subs=subs)) * val for key, val in self.items())
+        return sum(complex(key.subs(e, sympy.E).evalf(subs=subs)) * val for key, val in self.items())
 
     def tocsr(self):
         """Convert to sparse csr format."""
@@ -905,6 +905,10 @@ class BlochModel(Model):
         If nsimplify=True, attempt to rewrite numerical coefficients as exact formulas."""
         return self.tomodel(nsimplify=nsimplify).tosympy(nsimplify)
 
+    def evalf(self, subs=None):
+        """Evaluate using parameter values in `subs`."""
+        return self.tomodel(nsimplify=False).evalf(subs=subs)
+
     def tomodel(self, nsimplify=False):
         """Convert to Model."""
         return Model({key.tosympy(self.momenta, nsimplify=nsimplify): copy(val)
-- 
2.43.0


From 84037cc3579bccbb19d28fb07fca5011b6f2d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:36 +0000
Subject: [PATCH 55/55] fix: point group of lattices in any unit of length

---
 qsymm/symmetry_finder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 6f3f299..529d35e 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -826,6 +826,8 @@ def bravais_point_group(periods, tr=False, ph=False, generators=False, verbose=F
 
     # get lll reduced basis
     periods, _ = lll(periods)
+    # The group is independent of the unit of length
+    periods = periods / np.min(la.norm(periods, axis=1))
     # get nearest neighbors
     neighbors = voronoi(periods, reduced=True, rtol=1e-5) @ periods
     neighbors = neighbors[:len(neighbors)//2]
-- 
2.43.0

