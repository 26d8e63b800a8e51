From 9821e11ad6ac5ade7a890cb52d0b8bd0f79d38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 01/28] fix: JonesSummand.dimension() errored for r = 0

---
 peyl/braidsearch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 6d9df14..b40b606 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -85,6 +85,10 @@ class JonesSummand:
 
     def dimension(self) -> int:
         """The dimension of this representation."""
+        # Unfortunately math.comb errors if it gets a negative second argument. Hence this if statement.
+        if self.r == 0:
+            return 1
+
         return math.comb(self.n, self.r) - math.comb(self.n, self.r - 1)
 
     @functools.cache
-- 
2.43.0


From 141e27e985114a835fad5001f3b6cd6c136c7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 02/28] fix: polymat_artin_gens_invs errored on inverse
 generators, which have negative powers

---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 24cd2bc..d4527e5 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -116,8 +116,8 @@ class RepBase:
         are the images of their inverses.
         """
         gens, invs = self.artin_gens_invs()
-        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in gens])
-        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in invs])
+        matgens = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in gens])
+        matinvs = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in invs])
         if self.p != 0:
             matgens %= self.p
             matinvs %= self.p
-- 
2.43.0


From 5993262de930993fa189ef1d49b55bd397655002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 03/28] fix: LKBRep returned the generators in place of their
 inverses

---
 peyl/jonesrep.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index d4527e5..20e4d95 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -327,4 +327,16 @@ class LKBRep(RepBase):
             ])
             gens += [mat]
 
-        return gens, gens
+        # Each generator satisfies (σ - 1)(σ + q)(σ - tq^2) = 0, which rearranges to a formula for its inverse.
+        linear = q - 1 - t * q**2
+        const = t * q**2 - t * q**3 - q
+        scale = -(t * q**3)**-1
+        invs = [
+            Matrix(gen.nrows, gen.ncols, tuple(
+                scale * (square + linear * entry + (const if i == j else 0))
+                for (i, j), square, entry in zip(gen.indices(), (gen * gen).data, gen.data)
+            ))
+            for gen in gens
+        ]
+
+        return gens, invs
-- 
2.43.0


From ed8988fa843f5c718a2a6604bc36bbe6f0dadfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 04/28] fix: nf_suffixes() carried over the power of the braid
 being extended

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 4e5b6ba..723015a 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -492,7 +492,7 @@ class NFBase(Generic[T]):
         """Return all x such that self * x has no cancellation, and x has the given length."""
         table = self._nf_table(self.n)
         return (
-            self.__class__(self.n, self.power, suffix)
+            self.__class__(self.n, 0, suffix)
             for suffix in table.normal_forms(length=length, following=self.factors[-1] if self.factors else None)
         )
 
-- 
2.43.0


From 72b2ff3a70ede1f12e483f6f45ac9f094e69f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 05/28] fix: the generic tracker could not move the identity
 braid forward

---
 peyl/bucketing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 61aeec5..99b8356 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -360,21 +360,22 @@ class Tracker:
 
         # Let's sort this bucket first, so that elements ending in the same normal form factor appear next to each other.
         bucket_braids, bucket_images = self.buckets[tag].braids_images()
-        last_factors = np.array([braid.factors[-1] for braid in bucket_braids])
+        # A braid with no factors may be followed by anything: group these under -1.
+        last_factors = np.array([braid.factors[-1] if braid.factors else -1 for braid in bucket_braids])
         sorted_indices = np.argsort(last_factors)
 
         sorted_braids = [bucket_braids[i] for i in sorted_indices]
         sorted_images = bucket_images[sorted_indices]
 
         # Now we can iterate through each group ending in the same factor.
-        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: sorted_braids[i].factors[-1]):
+        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: last_factors[sorted_indices[i]]):
             index_list = list(indices)
             chunk = slice(min(index_list), max(index_list)+1)
             braids = sorted_braids[chunk]
             left = sorted_images[chunk]
 
             # Cache suffixes and their images depending on the last factor.
-            last_factor = braids[0].canonical_factor(-1)
+            last_factor = braids[0].canonical_factor(-1) if braids[0].factors else None
             if (length, last_factor) not in self.suffix_cache:
                 suffixes = list(braids[0].nf_suffixes(length))
                 rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
-- 
2.43.0


From 899b445405f802b4e8ecdf7567a2aaa0e4b7e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 06/28] fix: TLMor.flip() ignored twist_v=False

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5981422..53ded39 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -450,7 +450,7 @@ class TLMor:
         """Apply the upside-down flip to the diagrams. If twist_v is True, also map v -> v^-1."""
         vinv = LPoly(-1, (1,))
         return TLMor(self.bot, self.top, {
-            diag.flip(): coeff.evaluate(vinv) for diag, coeff in self.terms.items()
+            diag.flip(): coeff.evaluate(vinv) if twist_v else coeff for diag, coeff in self.terms.items()
         })
 
     def __neg__(self):
-- 
2.43.0


From 53061829fbfe3e6e4b4a762aabe5842c81ff40a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 07/28] fix: TLExtDiag composed diagrams in the wrong order

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 53ded39..af8d216 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -306,7 +306,7 @@ class TLExtDiag:
             if self.bot != other.top:
                 raise ValueError("Trying to compose incompatible TLDiags.")
 
-            seq, bubbles = compose(other.seq, self.seq, self.bot)
+            seq, bubbles = compose(self.seq, other.seq, self.bot)
             return TLExtDiag(self.top, other.bot, seq, self.bubbles + other.bubbles + bubbles)
 
         return NotImplemented
-- 
2.43.0


From 82047b1311d9a2986769fc5e3fe2239ca15a36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 08/28] fix: SymmetricGroup.from_cycles() started from a method
 rather than the identity

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 39be001..934bb18 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -375,7 +375,7 @@ class SymmetricGroup:
 
     def from_cycles(self, cycles: Sequence[Sequence[int]]):
         """Create a permutation from a list of cycles (not necessarily disjoint)."""
-        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id)
+        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id())
 
 
     def elements(self) -> Iterable[Permutation]:
-- 
2.43.0


From 1ba515c6fe716c6cfabfc973c59e88f47e97f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 09/28] fix: Matrix.row() checked the row index against the
 number of columns

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index e799623..18910fb 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -117,7 +117,7 @@ class Matrix:
         """
         Return a row of the matrix as a row vector.
         """
-        if not 0 <= row < self.ncols:
+        if not 0 <= row < self.nrows:
             raise IndexError(f"Row {row} is out of bounds for a {self.nrows} x {self.ncols} matrix.")
 
         return Matrix(1, self.ncols, tuple(self[row, j] for j in range(self.ncols)))
-- 
2.43.0


From d2be1371fb8cfcc390d42df6b203d177410452a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 10/28] fix: Matrix.is_symmetric() only looked at the diagonal

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 18910fb..6e7c435 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -231,7 +231,7 @@ class Matrix:
         return self.nrows == self.ncols
 
     def is_symmetric(self):
-        return all(self[i, j] == self[j, i] for i, j in zip(range(self.nrows), range(self.ncols)))
+        return self.is_square() and all(self[i, j] == self[j, i] for i, j in self.indices())
 
     def __repr__(self):
         """
-- 
2.43.0


From fda3996b8a6a4cfaa19dc2ed1551509989a64d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 11/28] fix: subtracting a non-matrix from a Matrix returned
 None

---
 peyl/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 6e7c435..5e9ada4 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -215,6 +215,8 @@ class Matrix:
                 raise ValueError("Cannot subtract incompatibly sized matrices.")
             return Matrix(self.nrows, self.ncols, tuple(a - b for a, b in zip(self.data, other.data)))
 
+        return NotImplemented
+
     def trace(self):
         """
         The trace of a square matrix is the sum of the diagonal entries.
-- 
2.43.0


From 62ed08c59fc9b79525433b6a650116a7cf61a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 12/28] fix: Poly printed every nonzero constant term as 1

---
 peyl/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/poly.py b/peyl/poly.py
index 7346681..753e6bf 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -71,7 +71,7 @@ class Poly:
 
             sign = ' + ' if (c > 0 and parts) else ' - ' if (c < 0 and parts) else '' if c > 0 else '-'
             term = '' if i == 0 else 'x' if i == 1 else f'x^{i}'
-            coeff = '1' if (i == 0 and term == '') else '' if abs(c) == 1 else f'{abs(c)}'
+            coeff = f'{abs(c)}' if i == 0 else '' if abs(c) == 1 else f'{abs(c)}'
             parts += [sign + coeff + term]
 
         return f"Poly('{''.join(parts)}')"
-- 
2.43.0


From e0e935484d1a6905292f9cdb6634269d4c3a17f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 13/28] fix: projlen() of a zero matrix should be zero

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 3483d90..5c91331 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -276,7 +276,7 @@ def projlen(A: npt.NDArray) -> npt.NDArray:
     nonzeros = np.any(A, axis=(-3, -2))
     starts = np.argmax(nonzeros, axis=-1)
     ends = nonzeros.shape[-1] - np.argmax(nonzeros[..., ::-1], axis=-1)
-    return ends - starts
+    return np.where(np.any(nonzeros, axis=-1), ends - starts, 0)[()]
 
 def proj_starts_ends(A: npt.NDArray) -> Tuple[npt.NDArray, npt.NDArray]:
     """
-- 
2.43.0


From 8b2d0b6d9402fd80d085a230b23aec74a82bd94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 14/28] fix: JonesRep left out the last cell module

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index af8d216..5d6af3f 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -550,7 +550,7 @@ class JonesRep:
         assert n >= 0
 
         self.n = n
-        self.cells = [TLCell(n, r) for r in range(n//2)]
+        self.cells = [TLCell(n, r) for r in range(n//2 + 1)]
 
 
 
-- 
2.43.0


From 934298bb4f89eb2dd7407183b10959a698db0b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 15/28] fix: TLCell.project_vector() rejected the elements of
 TL(n, n - 2r)

---
 peyl/tl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5d6af3f..b42a757 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -516,7 +516,8 @@ class TLCell:
 
     def project_vector(self, mor: TLMor):
         """Return the projection of mor, as a vector, into this cell module."""
-        assert mor.bot == self.n, f"Dimensions {mor.bot=} and {self.n=} incompatible."
+        assert mor.top == self.n, f"Dimensions {mor.top=} and {self.n=} incompatible."
+        assert mor.bot == self.n - 2 * self.r, f"Dimensions {mor.bot=} and {self.n - 2 * self.r=} incompatible."
         return mor.quotient(self.n - 2 * self.r)
 
     def project_leftmult_matrix(self, mor: TLMor):
-- 
2.43.0


From 5ceea43004bcf4a4e8891b5c893644559d89bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 16/28] fix: all_of_garside_length() ignored the power

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 723015a..ee9236e 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -782,7 +782,7 @@ class BraidGroup:
 
     def all_of_garside_length(self, length: int, power: int = 0) -> Iterable[GNF]:
         """Use GNF.all_of_length() or DGNF.all_of_length() instead."""
-        return GNF.all_of_length(n=self.n, length=length)
+        return GNF.all_of_length(n=self.n, length=length, power=power)
 
     def count_all_of_garside_length(self, length: int):
         """Use GNF.count_all_of_length() or DGNF.count_all_of_length() instead."""
-- 
2.43.0


From 9134982fc8cf9f0ad1e3f801f018422348ccf912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 17/28] fix: valiate_buckets() errored instead of validating

---
 peyl/braidsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index b40b606..ee123a7 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -412,7 +412,7 @@ class Tracker:
         """Ensure that the braids in each bucket evaluate to the matrices stored there."""
         for bucket in self.buckets:
             braids, images = self.bucket_braids_images(bucket)
-            actual = evaluate_braids_of_same_length(BraidGroup(braids[0].n), braids, p=self.p)
+            actual = evaluate_braids_of_same_length(self.rep, braids)
             if not np.all(images == actual):
                 print(f"A braid image is wrong in bucket {bucket}")
                 for i in range(len(braids)):
-- 
2.43.0


From 2f573aa36a3da88d2c4fc4307e05e589c1377568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 18/28] fix: AChao sampling left the capacity out of the
 inclusion probability

---
 peyl/bucketing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 99b8356..76a4b5a 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -330,7 +330,7 @@ class Tracker:
                     if not bucket.is_full():
                         bucket.append_braid(braid, image, weight)
                     else:
-                        if self.rand.random() <= weight / bucket.reservoir_weight:
+                        if self.rand.random() * bucket.reservoir_weight < bucket.capacity * weight:
                             replace = self.rand.randrange(0, bucket.capacity)
                             bucket.replace_braid(replace, braid, image, weight)
 
-- 
2.43.0


From 37400110d65d3e7e341c9b8c1aad8a36d5b7512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 19/28] fix: generators of B_2 errored, since they are the
 Garside element

---
 peyl/braid.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index ee9236e..3d292ac 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -367,7 +367,8 @@ class NFBase(Generic[T]):
     def artin_gens(cls, n: int):
         """Return a list of the n-1 Artin generators."""
 
-        return [cls(n, 0, (f,)) for f in cls._nf_table(n).artin_gens]
+        table = cls._nf_table(n)
+        return [cls(n, *table.normalise_factors((f,))) for f in table.artin_gens]
 
     def canonical_factors(self) -> tuple[T, ...]:
         """
@@ -647,7 +648,7 @@ class DGNF(NFBase[NPar]):
         id = DGNF.identity(n)
         table = DGNF._nf_table(n)
         return {
-            (i, j): id if i == j else DGNF(n, 0, (table.bkl_gens[(min(i, j), max(i, j))],))
+            (i, j): id if i == j else DGNF(n, *table.normalise_factors((table.bkl_gens[(min(i, j), max(i, j))],)))
             for i in range(n) for j in range(n)
         }
 
@@ -727,7 +728,7 @@ class BraidGroup:
     def gens(self) -> tuple[GNF, ...]:
         """Return the Artin generators of the braid group, as GNFs."""
         table = PermTable.create(self.n)
-        return tuple(GNF(self.n, 0, (table.artin_gens[i],)) for i in range(self.n - 1))
+        return tuple(GNF(self.n, *table.normalise_factors((table.artin_gens[i],))) for i in range(self.n - 1))
 
     @functools.cache
     def bkl_gens(self) -> dict[tuple[int, int], DGNF]:
@@ -737,8 +738,8 @@ class BraidGroup:
         """
         table = NParTable.create(self.n)
         return {
-            **{gen: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
-            **{gen[::-1]: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
+            **{gen: DGNF(self.n, *table.normalise_factors((idx,))) for gen, idx in table.bkl_gens.items()},
+            **{gen[::-1]: DGNF(self.n, *table.normalise_factors((idx,))) for gen, idx in table.bkl_gens.items()},
             **{(i, i): DGNF.identity(self.n) for i in range(self.n)},
         }
 
-- 
2.43.0


From 4d739262ada4c4fcc4de78efe1018be586f88b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 20/28] fix: evaluating empty integer sequences returned a
 single matrix for the whole batch

---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 20e4d95..ab5d68a 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -204,7 +204,7 @@ class RepBase:
         assert all(0 <= x < order for seq in sequences for x in seq)
 
         # Evaluate the braids.
-        result = polymat.pack([self._polymat_braid_factor(cls, table.id)])
+        result = polymat.pack([self._polymat_braid_factor(cls, table.id) for _ in sequences])
         for i in range(length):
             images = polymat.pack([self._polymat_braid_factor(cls, seq[i]) for seq in sequences])
             result = self.polymat_mul(result, images)
-- 
2.43.0


From 2787586c6ec94684b8f4915f41ff62d6d3243c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 21/28] fix: SymmetricGroup.from_cycle() only worked for cycles
 of full length

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 934bb18..828db54 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -368,7 +368,7 @@ class SymmetricGroup:
         assert max(collections.Counter(cycle).values()) <= 1
         word = list(range(self.n))
         for i in range(len(cycle)):
-            word[cycle[i]] = cycle[(i+1)%self.n]
+            word[cycle[i]] = cycle[(i+1) % len(cycle)]
 
         return Permutation(tuple(word))
 
-- 
2.43.0


From b98019d5f03949f1acaa8ebc35d6fa01570394fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 22/28] fix: validation of Permutation, SymmetricGroup and NPar
 never ran

---
 peyl/noncrossing.py  | 2 +-
 peyl/permutations.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 91d2e8f..18fc7f2 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -97,7 +97,7 @@ class NPar:
     n: int
     inv: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         """Check that inv is really an involution of the right kind."""
         assert len(self.inv) == 2*self.n
         assert tl.is_crossingless_matching(self.inv)
diff --git a/peyl/permutations.py b/peyl/permutations.py
index 828db54..f068f19 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -339,7 +339,7 @@ def is_parallel_descending_cycles(perm: Sequence[int]) -> bool:
 class SymmetricGroup:
     n: int
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert self.n >= 0
 
     @functools.cache
@@ -387,7 +387,7 @@ class SymmetricGroup:
 class Permutation:
     word: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert is_permutation(self.word)
 
     def group(self):
-- 
2.43.0


From b104f3b79fa4f587342fff7f08981ee65a5fc0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 23/28] fix: products of long images mod p overflowed 32-bit
 accumulators

Multiplying two images of Garside length 40 or so in JonesSummand(4, 1, 8191)
(for example by Tracker.bucket_product) wrapped around and gave a wrong image.
---
 peyl/braidsearch.py | 10 ++++++----
 peyl/jonesrep.py    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index ee123a7..1f92e81 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -110,11 +110,13 @@ class JonesSummand:
 
     def mul(self, left: npt.NDArray, right: npt.NDArray):
         """Multiplication in the representation (performs mod p if necessary, and projectivisation)."""
-        product = polymat.mul(left, right)
-        if self.p != 0:
-            product = product % self.p
+        if self.p == 0:
+            return polymat.projectivise(polymat.mul(left, right))
 
-        return polymat.projectivise(product)
+        # Entries are sums of (matrix dimension) * (degree) many products of residues, which do not
+        # fit into 32 bits once both sides are long, so accumulate in 64 bits before reducing.
+        product = polymat.mul(left.astype(np.int64), right) % self.p
+        return polymat.projectivise(product.astype(left.dtype))
 
 
 def batched(iterable, chunk_length: int):
diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index ab5d68a..3c82062 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -103,11 +103,13 @@ class RepBase:
 
     def polymat_mul(self, left: np.ndarray, right: np.ndarray):
         """Multiply two polymats in this representation (performs mod p if p != 0, and projectivisation)."""
-        product = polymat.mul(left, right)
-        if self.p != 0:
-            product = product % self.p
+        if self.p == 0:
+            return polymat.projectivise(polymat.mul(left, right))
 
-        return polymat.projectivise(product)
+        # Entries are sums of (matrix dimension) * (degree) many products of residues, which do not
+        # fit into 32 bits once both sides are long, so accumulate in 64 bits before reducing.
+        product = polymat.mul(left.astype(np.int64), right) % self.p
+        return polymat.projectivise(product.astype(left.dtype))
 
     def polymat_artin_gens_invs(self) -> tuple[np.ndarray, np.ndarray]:
         """
-- 
2.43.0


From 923991ee76726cde31e61c7702fc5d5fdf4ca168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 24/28] fix: powers of the Garside element were not reduced mod
 p

polymat_evaluate_braid(DGNF(3, 2, ())) over F_2 returned coefficients outside [0, 2), and for
large p the unreduced powers overflowed.
---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 3c82062..ead315e 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -138,8 +138,8 @@ class RepBase:
         """
         table = cls._nf_table(self.n)
         assert 0 <= power < table.tau_order, "Only reduced powers should be passed to this function."
-        mat = self.evaluate_artin_word(table.artin_word[table.D])
-        return polymat.projectivise(polymat.from_matrix(mat ** power, proj=True))
+        mat = self.evaluate_artin_word(list(table.artin_word[table.D]) * power)
+        return polymat.projectivise(polymat.from_matrix(mat, proj=True))
 
     def polymat_evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation, as a polymat."""
-- 
2.43.0


From 86491368264ece5f053af0b261788423ec014f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 25/28] fix: the generic tracker mixed up the suffixes of the
 two trivial normal forms

---
 peyl/bucketing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 76a4b5a..43a16da 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -376,12 +376,13 @@ class Tracker:
 
             # Cache suffixes and their images depending on the last factor.
             last_factor = braids[0].canonical_factor(-1) if braids[0].factors else None
-            if (length, last_factor) not in self.suffix_cache:
+            cache_key = (type(braids[0]), length, last_factor)
+            if cache_key not in self.suffix_cache:
                 suffixes = list(braids[0].nf_suffixes(length))
                 rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
-                self.suffix_cache[length, last_factor] = (suffixes, rights)
+                self.suffix_cache[cache_key] = (suffixes, rights)
             else:
-                suffixes, rights = self.suffix_cache[length, last_factor]
+                suffixes, rights = self.suffix_cache[cache_key]
 
             images = self.rep.polymat_mul(left[None, ...], rights[:, None, ...])
             images = images.reshape((-1, *images.shape[2:]))
-- 
2.43.0


From 2652c75ca53ada4aab2998cf07f9a552b45d9454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 26/28] fix: generic tracker failed to move forward a braid
 that nothing can follow

---
 peyl/bucketing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 43a16da..efd0e8f 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -379,6 +379,9 @@ class Tracker:
             cache_key = (type(braids[0]), length, last_factor)
             if cache_key not in self.suffix_cache:
                 suffixes = list(braids[0].nf_suffixes(length))
+                if not suffixes:
+                    # Nothing can follow: in the braid group on two strands every simple element is a power of Delta.
+                    continue
                 rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
                 self.suffix_cache[cache_key] = (suffixes, rights)
             else:
-- 
2.43.0


From 2185c85f4bc92723103448440810c2f400fba653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 27/28] fix: products and packs of tensors of different widths
 were truncated to the first one's

---
 peyl/polymat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 5c91331..a4640d1 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -70,7 +70,7 @@ def mul(A: npt.NDArray, B: npt.NDArray, quotdeg: int = None):
 
     # This approach seems to be a bit faster than making a large shape of zeros of the right size
     # and filling in each part.
-    parts = np.zeros((*prefix, I, K, P), dtype=A.dtype)
+    parts = np.zeros((*prefix, I, K, P), dtype=np.result_type(A, B))
     for d in range(P):
         parts[..., d] = sum(A[..., i] @ B[..., d - i] for i in range(d + 1) if i < D and d - i < E)
 
@@ -94,7 +94,7 @@ def pack(As: Sequence[npt.NDArray]):
     # I can't find a way to easily "pad by zeros" along a particular axis in numpy. But by now we
     # know the final shape (len(As), I, J, D) of the returned array, so let's just make an array
     # of zeros and fill it in piece by piece.
-    result = np.zeros((len(As), I, J, D), dtype=As[0].dtype)
+    result = np.zeros((len(As), I, J, D), dtype=np.result_type(*As))
     for i, A in enumerate(As):
         result[i, :, :, :A.shape[-1]] = A
 
-- 
2.43.0


From e4290164633c8bafc66a4092b5e5c7bf7554198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:49 +0000
Subject: [PATCH 28/28] fix: to_matrix() made Laurent polynomials whose
 arithmetic overflowed

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index a4640d1..b4f884e 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -150,7 +150,7 @@ def to_matrix(A):
     assert len(A.shape) == 3
     I, J, _ = A.shape
     return Matrix.from_rows([
-        [LPoly(0, A[i, j, :]) for j in range(J)]
+        [LPoly(0, A[i, j, :].tolist()) for j in range(J)]
         for i in range(I)
     ])
 
-- 
2.43.0

