From 2dae3fe797b5ad6952d112c01b571c5476446b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 01/73] fix: HNSW search returned duplicates and lost the entry
 point or the whole index

---
 src/valori/indices/hnsw.py | 71 +++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 40 deletions(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index e42f079..fc66b84 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -113,54 +113,32 @@ class HNSWIndex(Index):
             # Limit k to available vectors
             k = min(k, len(self.vectors))
 
-            # Start from top level
+            # Start from the highest level that still holds nodes
             current_level = min(self.max_level, len(self.levels) - 1)
-            candidates = []
-
-            # Find entry point at highest level
-            if current_level >= 0 and self.levels[current_level]:
-                # Start from a random node at top level (simplified)
-                entry_point = next(iter(self.levels[current_level].keys()))
-                candidates = [
-                    (
-                        entry_point,
-                        self._compute_distance(query_vector, self.vectors[entry_point]),
-                    )
-                ]
+            while current_level > 0 and not self.levels[current_level]:
+                current_level -= 1
+
+            # Start from a random node at that level (simplified)
+            entry_point = next(iter(self.levels[current_level].keys()))
+            candidates = [
+                (
+                    entry_point,
+                    self._compute_distance(query_vector, self.vectors[entry_point]),
+                )
+            ]
 
             # Traverse down levels
             while current_level > 0:
-                new_candidates = []
-                for node_id, _ in candidates:
-                    if node_id in self.levels[current_level]:
-                        for neighbor_id in self.levels[current_level][node_id]:
-                            if neighbor_id in self.vectors:
-                                distance = self._compute_distance(
-                                    query_vector, self.vectors[neighbor_id]
-                                )
-                                new_candidates.append((neighbor_id, distance))
-
                 # Keep best candidates
-                new_candidates.sort(key=lambda x: x[1])
-                candidates = new_candidates[: self.ef_search]
+                candidates = self._expand_candidates(
+                    query_vector, candidates, current_level
+                )[: self.ef_search]
                 current_level -= 1
 
             # Final search at level 0
-            if current_level == 0 and candidates:
-                final_candidates = []
-                for node_id, _ in candidates:
-                    if node_id in self.levels[0]:
-                        for neighbor_id in self.levels[0][node_id]:
-                            if neighbor_id in self.vectors:
-                                distance = self._compute_distance(
-                                    query_vector, self.vectors[neighbor_id]
-                                )
-                                final_candidates.append((neighbor_id, distance))
-
-                candidates.extend(final_candidates)
-
-            # Sort and return top k
-            candidates.sort(key=lambda x: x[1])
+            candidates = self._expand_candidates(query_vector, candidates, 0)
+
+            # Return top k
             top_k = candidates[:k]
 
             results = []
@@ -317,6 +295,19 @@ class HNSWIndex(Index):
 
                 del level[vector_id]
 
+    def _expand_candidates(
+        self, query_vector: np.ndarray, candidates: List, level: int
+    ) -> List:
+        """Candidates and their neighbors at a level, each once, nearest first."""
+        expanded = dict(candidates)
+        for node_id, _ in candidates:
+            for neighbor_id in self.levels[level].get(node_id, []):
+                if neighbor_id in self.vectors and neighbor_id not in expanded:
+                    expanded[neighbor_id] = self._compute_distance(
+                        query_vector, self.vectors[neighbor_id]
+                    )
+        return sorted(expanded.items(), key=lambda x: x[1])
+
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
         if self.metric == "cosine":
-- 
2.43.0


From 5b6542855ee7472e11133eefd990e3450b1fe479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 02/73] fix: LSH delete and update mistreated unknown, negative
 and malformed arguments

---
 src/valori/indices/lsh.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 2f21dc0..48ee846 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -199,7 +199,7 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Remove from hash tables
                 vector = self.vectors[vector_id]
                 if vector is None:
@@ -220,14 +220,18 @@ class LSHIndex(Index):
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their string IDs (base Index API)."""
         try:
-            int_ids = []
+            success = True
             for s in ids:
                 try:
-                    int_ids.append(int(s))
+                    vector_id = int(s)
                 except ValueError:
+                    success = False
                     continue
-            self.remove(int_ids)
-            return True
+                if not self._is_live(vector_id):
+                    success = False
+                    continue
+                self.remove([vector_id])
+            return success
         except Exception:
             return False
 
@@ -239,8 +243,9 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
         try:
             vector_id = int(id)
-            if vector_id >= len(self.vectors) or self.vectors[vector_id] is None:
+            if not self._is_live(vector_id):
                 return False
+            validate_vector(vector, self.dimension, self.dimension)
 
             # Remove old hashes
             old_vector = self.vectors[vector_id]
@@ -299,6 +304,12 @@ class LSHIndex(Index):
             "initialized": self._initialized,
         }
 
+    def _is_live(self, vector_id: int) -> bool:
+        """Whether an internal ID refers to a vector that is still stored."""
+        return (
+            0 <= vector_id < len(self.vectors) and self.vectors[vector_id] is not None
+        )
+
     def _generate_projections(self) -> None:
         """Generate random projection vectors for hashing."""
         # Generate random projection vectors
-- 
2.43.0


From 54951f3df500cedea829dce1411b394b23748077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 03/73] fix: LSH bucket statistics averaged vector ids instead
 of bucket sizes

---
 src/valori/indices/lsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 48ee846..0eec40c 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -287,7 +287,7 @@ class LSHIndex(Index):
         bucket_sizes = []
         for table in self.hash_tables:
             for bucket in table.values():
-                bucket_sizes.extend(bucket)
+                bucket_sizes.append(len(bucket))
 
         return {
             "index_type": "lsh",
-- 
2.43.0


From f7ab0e875c2b8c25f4880a9357d0cfa66dba7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 04/73] fix: a rejected first insert no longer fixes the
 dimension of an LSH index

---
 src/valori/indices/lsh.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 0eec40c..adc4d92 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -81,19 +81,23 @@ class LSHIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._generate_projections()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
 
-        if vectors.shape[1] != self.dimension:
+        dimension = vectors.shape[1] if self.dimension is None else self.dimension
+        if vectors.shape[1] != dimension:
             raise ValoriIndexError(
-                f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
+                f"Vector dimension mismatch: expected {dimension}, got {vectors.shape[1]}"
             )
 
         # Validate vectors
         for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
+            validate_vector(vector, dimension, dimension)
+
+        # Set dimension on first add
+        if self.dimension is None:
+            self.dimension = dimension
+            self._generate_projections()
 
         assigned_ids = []
 
-- 
2.43.0


From 39561b4e1c721c10e4c381bee38bce4955b1513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 05/73] fix: Annoy index returned removed vectors and mixed up
 ids after update, add or clear

---
 src/valori/indices/annoy.py | 92 +++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 30 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index c33b854..5def8a8 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -108,9 +108,18 @@ class AnnoyIndex(Index):
             True if successful
         """
         try:
-            int_ids = [int(id) for id in ids]
-            self.remove(int_ids)
-            return True
+            success = True
+            for id in ids:
+                try:
+                    int_id = int(id)
+                except ValueError:
+                    success = False
+                    continue
+                if not self._is_live(int_id):
+                    success = False
+                    continue
+                self.remove([int_id])
+            return success
         except Exception as e:
             raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
 
@@ -128,22 +137,23 @@ class AnnoyIndex(Index):
         Returns:
             True if successful
         """
+        if not self._initialized:
+            raise ValoriIndexError("Index not initialized")
+
         try:
             int_id = int(id)
-            if int_id >= len(self.vectors):
+            if not self._is_live(int_id):
                 raise ValoriIndexError(f"Vector ID not found: {id}")
 
-            if metadata is None:
-                metadata = self.metadata[int_id]
+            validate_vector(vector, self.dimension, self.dimension)
 
-            # Remove old vector
-            self.remove([int_id])
+            self.vectors[int_id] = vector.copy()
+            if metadata is not None:
+                self.metadata[int_id] = metadata.copy()
 
-            # Add new vector (but reuse the same ID by temporarily modifying _next_id)
-            old_next_id = self._next_id
-            self._next_id = int_id
-            self.add(vector.reshape(1, -1), [metadata])
-            self._next_id = old_next_id
+            # A built index cannot be modified in place
+            if self._built:
+                self.build()
 
             return True
         except Exception as e:
@@ -168,19 +178,21 @@ class AnnoyIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._create_annoy_index()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
 
-        if vectors.shape[1] != self.dimension:
+        dimension = vectors.shape[1] if self.dimension is None else self.dimension
+        if vectors.shape[1] != dimension:
             raise ValoriIndexError(
-                f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
+                f"Vector dimension mismatch: expected {dimension}, got {vectors.shape[1]}"
             )
 
         # Validate vectors
         for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
+            validate_vector(vector, dimension, dimension)
+
+        # Set dimension on first add
+        self.dimension = dimension
 
         assigned_ids = []
 
@@ -192,11 +204,12 @@ class AnnoyIndex(Index):
             self.vectors.append(vector.copy())
             self.metadata.append(metadata[i].copy())
 
-            # Add to Annoy index
-            self._annoy_index.add_item(vector_id, vector.astype(np.float32))
-
             assigned_ids.append(vector_id)
 
+        # The trees no longer cover all vectors
+        if assigned_ids:
+            self._built = False
+
         return assigned_ids
 
     def build(self) -> None:
@@ -208,9 +221,21 @@ class AnnoyIndex(Index):
         if self.dimension is None and len(self.vectors) > 0:
             raise ValoriIndexError("No dimension set for vectors")
 
-        # Only build if there's an annoy index instance
-        if self._annoy_index is not None:
+        # Only build if a dimension is known. A built Annoy index is immutable, so
+        # the trees are always built from the stored vectors.
+        if self.dimension is not None:
+            if self._annoy_index is not None:
+                self._annoy_index.unload()
+            self._create_annoy_index()
+            for vector_id, vector in enumerate(self.vectors):
+                if vector is not None:
+                    self._annoy_index.add_item(vector_id, vector.astype(np.float32))
+
             if self.build_on_disk:
+                if self._temp_file is None:
+                    fd, self._temp_file = tempfile.mkstemp(suffix=".annoy")
+                    os.close(fd)
+
                 # Build on disk
                 self._annoy_index.build(self.num_trees)
                 self._annoy_index.save(self._temp_file)
@@ -256,15 +281,16 @@ class AnnoyIndex(Index):
             self.search_k if self.search_k > 0 else self.num_trees * len(self.vectors)
         )
 
-        # Search for nearest neighbors
+        # Search for nearest neighbors; removed vectors may still be in the trees
+        removed = sum(1 for v in self.vectors if v is None)
         neighbor_ids, distances = self._annoy_index.get_nns_by_vector(
-            query_vector, k, search_k=search_k, include_distances=True
+            query_vector, k + removed, search_k=search_k, include_distances=True
         )
 
         # Convert to results format
         results = []
         for neighbor_id, distance in zip(neighbor_ids, distances):
-            if neighbor_id < len(self.vectors):
+            if self._is_live(neighbor_id):
                 # Convert distance to similarity based on metric
                 similarity = self._distance_to_similarity(distance)
 
@@ -276,7 +302,7 @@ class AnnoyIndex(Index):
                     }
                 )
 
-        return results
+        return results[:k]
 
     def remove(self, ids: List[int]) -> None:
         """
@@ -291,7 +317,7 @@ class AnnoyIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Mark as removed (Annoy doesn't support efficient removal)
                 self.vectors[vector_id] = None
                 self.metadata[vector_id] = None
@@ -328,6 +354,12 @@ class AnnoyIndex(Index):
             "initialized": self._initialized,
         }
 
+    def _is_live(self, vector_id: int) -> bool:
+        """Whether an internal ID refers to a vector that is still stored."""
+        return (
+            0 <= vector_id < len(self.vectors) and self.vectors[vector_id] is not None
+        )
+
     def _create_annoy_index(self) -> None:
         """Create the Annoy index instance."""
         # Annoy library AnnoyIndex constructor only accepts dimension and metric
-- 
2.43.0


From ac4c7cd6bcd9e1ff784feaf638de9fc3d1875f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 06/73] fix: a malformed vector was stored and made every later
 search of the index fail

---
 src/valori/indices/base.py | 20 ++++++++++++++++++++
 src/valori/indices/flat.py | 12 ++++++++++++
 src/valori/indices/hnsw.py | 12 ++++++++++++
 src/valori/indices/ivf.py  | 14 ++++++++++++++
 4 files changed, 58 insertions(+)

diff --git a/src/valori/indices/base.py b/src/valori/indices/base.py
index 92fe8dd..13a0cbc 100644
--- a/src/valori/indices/base.py
+++ b/src/valori/indices/base.py
@@ -8,6 +8,7 @@ from typing import Any, Dict, List, Optional
 import numpy as np
 
 from ..storage.base import StorageBackend
+from ..utils.validation import validate_vector
 
 
 class Index(ABC):
@@ -28,6 +29,25 @@ class Index(ABC):
         """Check if the index is initialized."""
         return self._initialized
 
+    def _stored_dimension(self) -> Optional[int]:
+        """Dimension of the stored vectors, None while there are none."""
+        sb = self.storage_backend
+        if sb is None:
+            return None
+        for vector_id in sb.list_vectors():
+            result = sb.retrieve_vector(vector_id)
+            if result is not None:
+                return len(result[0])
+        return None
+
+    def _check_vectors(self, *vectors: np.ndarray) -> None:
+        """Reject vectors that are not finite or do not match the stored ones."""
+        dimension = self._stored_dimension()
+        for vector in vectors:
+            if dimension is None and vector.ndim == 1:
+                dimension = len(vector)
+            validate_vector(vector, dimension, dimension)
+
     @abstractmethod
     def initialize(self, storage_backend: StorageBackend) -> None:
         """
diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 94af9ce..afc00d0 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -55,6 +55,8 @@ class FlatIndex(Index):
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
+            self._check_vectors(*vectors)
+
             inserted_ids = []
 
             sb = self.storage_backend
@@ -97,6 +99,8 @@ class FlatIndex(Index):
             if not self.vector_ids:
                 return []
 
+            self._check_vectors(query_vector)
+
             # Limit k to available vectors
             k = min(k, len(self.vector_ids))
 
@@ -197,6 +201,8 @@ class FlatIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         try:
+            self._check_vectors(vector)
+
             # Update in storage
             sb = self.storage_backend
             if sb is None:
@@ -213,6 +219,12 @@ class FlatIndex(Index):
         except Exception as e:
             raise ValoriIndexError(f"Failed to update vector {id}: {str(e)}")
 
+    def _stored_dimension(self) -> Optional[int]:
+        """Dimension of the indexed vectors, None while there are none."""
+        for vector in self.vector_cache.values():
+            return len(vector)
+        return super()._stored_dimension()
+
     def get_stats(self) -> Dict[str, Any]:
         """Get flat index statistics."""
         if not self._initialized:
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index fc66b84..eb4f669 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -71,6 +71,8 @@ class HNSWIndex(Index):
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
+            self._check_vectors(*vectors)
+
             inserted_ids = []
 
             for i, vector in enumerate(vectors):
@@ -110,6 +112,8 @@ class HNSWIndex(Index):
             if not self.vectors:
                 return []
 
+            self._check_vectors(query_vector)
+
             # Limit k to available vectors
             k = min(k, len(self.vectors))
 
@@ -194,6 +198,8 @@ class HNSWIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         try:
+            self._check_vectors(vector)
+
             # Update in storage
             sb = self.storage_backend
             if sb is None:
@@ -211,6 +217,12 @@ class HNSWIndex(Index):
         except Exception as e:
             raise ValoriIndexError(f"Failed to update vector {id}: {str(e)}")
 
+    def _stored_dimension(self) -> Optional[int]:
+        """Dimension of the indexed vectors, None while there are none."""
+        for vector in self.vectors.values():
+            return len(vector)
+        return super()._stored_dimension()
+
     def get_stats(self) -> Dict[str, Any]:
         """Get HNSW index statistics."""
         if not self._initialized:
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index d93643f..6756593 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -66,6 +66,8 @@ class IVFIndex(Index):
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
+            self._check_vectors(*vectors)
+
             inserted_ids = []
 
             for i, vector in enumerate(vectors):
@@ -115,6 +117,8 @@ class IVFIndex(Index):
             if not self.vector_ids:
                 return []
 
+            self._check_vectors(query_vector)
+
             # If not trained, fall back to brute force
             if not self._trained:
                 return self._brute_force_search(query_vector, k)
@@ -220,6 +224,8 @@ class IVFIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         try:
+            self._check_vectors(vector)
+
             sb = self.storage_backend
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
@@ -240,6 +246,14 @@ class IVFIndex(Index):
         except Exception as e:
             raise ValoriIndexError(f"Failed to update vector {id}: {str(e)}")
 
+    def _stored_dimension(self) -> Optional[int]:
+        """Dimension of the indexed vectors, None while there are none."""
+        if self._trained and self.centroids is not None:
+            return int(self.centroids.shape[1])
+        for vector in self.vectors_cache.values():
+            return len(vector)
+        return super()._stored_dimension()
+
     def get_stats(self) -> Dict[str, Any]:
         """Get IVF index statistics."""
         if not self._initialized:
-- 
2.43.0


From c376ab39332a32eb3739882aff94379d173f7d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 07/73] fix: callers could change metadata held by the memory
 storage

---
 src/valori/storage/memory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 433825e..0e040be 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -2,6 +2,7 @@
 In-memory storage backend for the valori vector database.
 """
 
+from copy import deepcopy
 from threading import RLock
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -53,7 +54,7 @@ class MemoryStorage(StorageBackend):
 
                 # Store metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = deepcopy(metadata)
                 else:
                     self.metadata.pop(id, None)  # Remove if exists
 
@@ -69,7 +70,7 @@ class MemoryStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to store vector {id}: {str(e)}")
 
-    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
+    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
         """Retrieve a vector from memory."""
         if not self._initialized:
             raise StorageError("Storage backend not initialized")
@@ -79,7 +80,7 @@ class MemoryStorage(StorageBackend):
                 return None
 
             vector = self.vectors[id].copy()
-            metadata = self.metadata.get(id)
+            metadata = deepcopy(self.metadata.get(id))
             return vector, metadata
 
     def delete_vector(self, id: str) -> bool:
@@ -124,7 +125,7 @@ class MemoryStorage(StorageBackend):
 
                 # Update metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = deepcopy(metadata)
                 else:
                     self.metadata.pop(id, None)
 
-- 
2.43.0


From 9d83e53089cb85a27322b96615f5f1eda1eaf96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 08/73] fix: different ids shared one disk storage entry and
 were listed under altered names

---
 src/valori/storage/disk.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 2b6b0c1..f142493 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -6,6 +6,7 @@ import os
 import pickle
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
+from urllib.parse import quote, unquote
 
 import numpy as np
 
@@ -78,7 +79,7 @@ class DiskStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to store vector {id}: {str(e)}")
 
-    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
+    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
         """Retrieve a vector from disk."""
         if not self._initialized:
             raise StorageError("Storage backend not initialized")
@@ -174,7 +175,7 @@ class DiskStorage(StorageBackend):
 
         try:
             vector_files = list(self.vectors_dir.glob("*.npy"))
-            vector_ids = [f.stem for f in vector_files]
+            vector_ids = [unquote(f.stem) for f in vector_files]
 
             if limit is not None:
                 vector_ids = vector_ids[:limit]
@@ -219,6 +220,8 @@ class DiskStorage(StorageBackend):
 
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
-        # Replace invalid characters with underscores
-        safe_id = "".join(c if c.isalnum() or c in "._-" else "_" for c in id)
+        # Escape invalid characters reversibly, so that no two IDs share a file
+        safe_id = "".join(
+            c if c.isalnum() or c in "._-" else quote(c, safe="") for c in id
+        )
         return safe_id
-- 
2.43.0


From ee4315d5785bffdc3cd3c915dc27354f4944f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 09/73] fix: a crash during a disk store left a torn vector or
 lost the old one

---
 src/valori/storage/disk.py | 50 ++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index f142493..9b4eb4a 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -58,20 +58,7 @@ class DiskStorage(StorageBackend):
             # Sanitize ID for filesystem
             safe_id = self._sanitize_id(id)
 
-            # Store vector
-            vector_path = self.vectors_dir / f"{safe_id}.npy"
-            np.save(vector_path, vector)
-
-            # Store metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file if exists
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            self._write_entry(safe_id, vector, metadata)
 
             self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
             return True
@@ -149,19 +136,8 @@ class DiskStorage(StorageBackend):
             if not vector_path.exists():
                 return False
 
-            # Update vector
-            np.save(vector_path, vector)
-
-            # Update metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            # Update vector and metadata
+            self._write_entry(safe_id, vector, metadata)
 
             return True
 
@@ -218,6 +194,26 @@ class DiskStorage(StorageBackend):
         """Close the disk storage backend."""
         self._initialized = False
 
+    def _write_entry(
+        self, safe_id: str, vector: np.ndarray, metadata: Optional[Dict]
+    ) -> None:
+        """Write the files of one entry so that a crash cannot leave a partial one."""
+        # An ID exists once its vector file does, so the metadata goes first. Each
+        # file is written aside and renamed into place only when it is complete.
+        metadata_path = self.metadata_dir / f"{safe_id}.pkl"
+        if metadata is not None:
+            temp_path = self.metadata_dir / f"{safe_id}.tmp"
+            with open(temp_path, "wb") as f:
+                pickle.dump(metadata, f)
+            os.replace(temp_path, metadata_path)
+        elif metadata_path.exists():
+            metadata_path.unlink()
+
+        temp_path = self.vectors_dir / f"{safe_id}.tmp"
+        with open(temp_path, "wb") as f:
+            np.save(f, vector)
+        os.replace(temp_path, self.vectors_dir / f"{safe_id}.npy")
+
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
         # Escape invalid characters reversibly, so that no two IDs share a file
-- 
2.43.0


From 7693e16895be01563f9a17854b734bb1cab51bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 10/73] fix: hybrid storage kept a vector in memory with a zero
 limit and evicted others on overwrite

---
 src/valori/storage/hybrid.py | 38 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index 473cb7b..6b936e5 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -64,22 +64,14 @@ class HybridStorage(StorageBackend):
 
                 # Store in memory if we have space
                 if disk_success:
-                    memory_stats = self.memory_storage.get_stats()
-                    current_count = memory_stats.get("vector_count", 0)
-
-                    if current_count < self.memory_limit:
-                        self.memory_storage.store_vector(id, vector, metadata)
-                    else:
-                        # Remove oldest vector from memory (simple LRU approximation)
-                        self._evict_from_memory()
-                        self.memory_storage.store_vector(id, vector, metadata)
+                    self._store_in_memory(id, vector, metadata)
 
                 return disk_success
 
         except Exception as e:
             raise StorageError(f"Failed to store vector {id}: {str(e)}")
 
-    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
+    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
         """Retrieve a vector, preferring memory over disk."""
         if not self._initialized:
             raise StorageError("Storage backend not initialized")
@@ -96,15 +88,7 @@ class HybridStorage(StorageBackend):
                 if result is not None:
                     # Promote to memory if we have space
                     vector, metadata = result
-                    memory_stats = self.memory_storage.get_stats()
-                    current_count = memory_stats.get("vector_count", 0)
-
-                    if current_count < self.memory_limit:
-                        self.memory_storage.store_vector(id, vector, metadata)
-                    else:
-                        # Evict and promote
-                        self._evict_from_memory()
-                        self.memory_storage.store_vector(id, vector, metadata)
+                    self._store_in_memory(id, vector, metadata)
 
                 return result
 
@@ -178,6 +162,22 @@ class HybridStorage(StorageBackend):
             self.disk_storage.close()
             self._initialized = False
 
+    def _store_in_memory(
+        self, id: str, vector: np.ndarray, metadata: Optional[Dict]
+    ) -> None:
+        """Store a vector in memory, evicting another one if the limit is reached."""
+        if self.memory_limit <= 0:
+            return
+
+        # Replace an existing copy instead of evicting another vector for it
+        self.memory_storage.delete_vector(id)
+
+        memory_stats = self.memory_storage.get_stats()
+        if memory_stats.get("vector_count", 0) >= self.memory_limit:
+            # Remove oldest vector from memory (simple LRU approximation)
+            self._evict_from_memory()
+        self.memory_storage.store_vector(id, vector, metadata)
+
     def _evict_from_memory(self) -> None:
         """Evict a vector from memory (simple implementation)."""
         vector_ids = self.memory_storage.list_vectors(limit=1)
-- 
2.43.0


From bd1605618d85fb90e44db6c8336c79ab915d2b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 11/73] fix: concurrent operations on one disk storage mixed
 vectors and metadata

---
 src/valori/storage/disk.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 9b4eb4a..698382c 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -4,7 +4,9 @@ Disk-based storage backend for the valori vector database.
 
 import os
 import pickle
+from functools import wraps
 from pathlib import Path
+from threading import RLock
 from typing import Any, Dict, List, Optional, Tuple
 from urllib.parse import quote, unquote
 
@@ -14,6 +16,17 @@ from ..exceptions import StorageError
 from .base import StorageBackend
 
 
+def _locked(method):
+    """Run a storage operation under the lock of its storage."""
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        with self.lock:
+            return method(self, *args, **kwargs)
+
+    return wrapper
+
+
 class DiskStorage(StorageBackend):
     """
     Disk-based storage backend implementation.
@@ -28,6 +41,7 @@ class DiskStorage(StorageBackend):
         self.data_dir = Path(config.get("data_dir", "./valori_data"))
         self.vectors_dir = self.data_dir / "vectors"
         self.metadata_dir = self.data_dir / "metadata"
+        self.lock = RLock()
         self._vector_count = 0
 
     def initialize(self) -> None:
@@ -45,6 +59,7 @@ class DiskStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to initialize disk storage: {str(e)}")
 
+    @_locked
     def store_vector(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
     ) -> bool:
@@ -66,6 +81,7 @@ class DiskStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to store vector {id}: {str(e)}")
 
+    @_locked
     def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
         """Retrieve a vector from disk."""
         if not self._initialized:
@@ -93,6 +109,7 @@ class DiskStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to retrieve vector {id}: {str(e)}")
 
+    @_locked
     def delete_vector(self, id: str) -> bool:
         """Delete a vector from disk."""
         if not self._initialized:
@@ -121,6 +138,7 @@ class DiskStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to delete vector {id}: {str(e)}")
 
+    @_locked
     def update_vector(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
     ) -> bool:
@@ -144,6 +162,7 @@ class DiskStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to update vector {id}: {str(e)}")
 
+    @_locked
     def list_vectors(self, limit: Optional[int] = None) -> List[str]:
         """List all vector IDs on disk."""
         if not self._initialized:
-- 
2.43.0


From 69630ad1d1c7ee58f9b8cf478d3c26ae78245933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 12/73] fix: inserting a 0-dimensional array into LSH or Annoy
 raised a bare TypeError

---
 src/valori/indices/annoy.py | 8 ++++----
 src/valori/indices/lsh.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 5def8a8..2ecc319 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -92,7 +92,7 @@ class AnnoyIndex(Index):
             List of IDs for the inserted vectors
         """
         if metadata is None:
-            metadata = [{} for _ in range(len(vectors))]
+            metadata = [{} for _ in np.atleast_1d(vectors)]
 
         assigned_ids = self.add(vectors, metadata)
         return [str(id) for id in assigned_ids]
@@ -173,14 +173,14 @@ class AnnoyIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
+
         if len(vectors) != len(metadata):
             raise ValoriIndexError(
                 "Number of vectors must match number of metadata items"
             )
 
-        if vectors.ndim != 2:
-            raise ValoriIndexError("Vectors must be 2D array")
-
         dimension = vectors.shape[1] if self.dimension is None else self.dimension
         if vectors.shape[1] != dimension:
             raise ValoriIndexError(
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index adc4d92..fc519b3 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -76,14 +76,14 @@ class LSHIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
+
         if len(vectors) != len(metadata):
             raise ValoriIndexError(
                 "Number of vectors must match number of metadata items"
             )
 
-        if vectors.ndim != 2:
-            raise ValoriIndexError("Vectors must be 2D array")
-
         dimension = vectors.shape[1] if self.dimension is None else self.dimension
         if vectors.shape[1] != dimension:
             raise ValoriIndexError(
@@ -127,7 +127,7 @@ class LSHIndex(Index):
     ) -> List[str]:
         """Insert vectors following the base Index interface."""
         if metadata is None:
-            metadata = [{} for _ in range(len(vectors))]
+            metadata = [{} for _ in np.atleast_1d(vectors)]
         ids = self.add(vectors, metadata)
         return [str(i) for i in ids]
 
-- 
2.43.0


From 5f9a700b546b5d3d7595b011e4111debb7ed4a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 13/73] fix: vectors saved under a path without .npz could not
 be loaded

---
 src/valori/persistence/incremental.py | 3 +++
 src/valori/persistence/tensor.py      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index ffb8653..2e1be02 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -138,6 +138,9 @@ class IncrementalPersistence(PersistenceManager):
 
         try:
             file_path = self.data_dir / path
+            if not file_path.name.endswith(".npz"):
+                # numpy appended the extension when saving
+                file_path = file_path.with_name(file_path.name + ".npz")
 
             if not file_path.exists():
                 return None, None
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index bf96d23..2c2593a 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -106,6 +106,9 @@ class TensorPersistence(PersistenceManager):
 
         try:
             file_path = self.data_dir / path
+            if not file_path.name.endswith(".npz"):
+                # numpy appended the extension when saving
+                file_path = file_path.with_name(file_path.name + ".npz")
 
             if not file_path.exists():
                 return None, None
-- 
2.43.0


From 8df00637170a2fd0298111d0360a718a76ad7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 14/73] fix: an interrupted or failed save destroyed the
 previously saved data

---
 src/valori/persistence/base.py        | 12 +++++++++++-
 src/valori/persistence/incremental.py | 20 ++++++++++++++------
 src/valori/persistence/tensor.py      | 27 ++++++++++++++++-----------
 3 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/valori/persistence/base.py b/src/valori/persistence/base.py
index c711a5c..8c6214b 100644
--- a/src/valori/persistence/base.py
+++ b/src/valori/persistence/base.py
@@ -2,8 +2,10 @@
 Base persistence interface for the valori vector database.
 """
 
+import os
 from abc import ABC, abstractmethod
-from typing import Any, Dict, Optional, Tuple
+from pathlib import Path
+from typing import Any, BinaryIO, Callable, Dict, Optional, Tuple
 
 import numpy as np
 
@@ -21,6 +23,14 @@ class PersistenceManager(ABC):
         self.config = config
         self._initialized = False
 
+    @staticmethod
+    def _replace_file(file_path: Path, write: Callable[[BinaryIO], None]) -> None:
+        """Write a file aside and rename it into place once it is complete."""
+        temp_path = file_path.with_name(file_path.name + ".tmp")
+        with open(temp_path, "wb") as f:
+            write(f)
+        os.replace(temp_path, file_path)
+
     @abstractmethod
     def initialize(self) -> None:
         """Initialize the persistence manager."""
diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 2e1be02..d29d2a3 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -62,8 +62,10 @@ class IncrementalPersistence(PersistenceManager):
         try:
             # Create checkpoint
             checkpoint_path = self.data_dir / f"checkpoint_{self._operation_count}.pkl"
-            with open(checkpoint_path, "wb") as f:
-                pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._replace_file(
+                checkpoint_path,
+                lambda f: pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             # Update checkpoint info
             self._last_checkpoint = self._operation_count
@@ -113,8 +115,13 @@ class IncrementalPersistence(PersistenceManager):
             file_path = self.data_dir / path
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
+            if not file_path.name.endswith(".npz"):
+                file_path = file_path.with_name(file_path.name + ".npz")
+
             # Save vectors
-            np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            self._replace_file(
+                file_path, lambda f: np.savez(f, vectors=vectors, ids=np.array(ids))
+            )
 
             # Log operation
             self._log_operation(
@@ -139,7 +146,6 @@ class IncrementalPersistence(PersistenceManager):
         try:
             file_path = self.data_dir / path
             if not file_path.name.endswith(".npz"):
-                # numpy appended the extension when saving
                 file_path = file_path.with_name(file_path.name + ".npz")
 
             if not file_path.exists():
@@ -164,8 +170,10 @@ class IncrementalPersistence(PersistenceManager):
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save index data
-            with open(file_path, "wb") as f:
-                pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._replace_file(
+                file_path,
+                lambda f: pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             # Log operation
             self._log_operation("save_index", {"path": path})
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index 2c2593a..a2107bf 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -46,8 +46,10 @@ class TensorPersistence(PersistenceManager):
             file_path = self.data_dir / path
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
-                pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._replace_file(
+                file_path,
+                lambda f: pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             self._save_count += 1
             return True
@@ -86,12 +88,14 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            if self.compression:
-                # Save with compression
-                np.savez_compressed(file_path, vectors=vectors, ids=np.array(ids))
-            else:
-                # Save without compression
-                np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            if not file_path.name.endswith(".npz"):
+                file_path = file_path.with_name(file_path.name + ".npz")
+
+            # Save with or without compression
+            savez = np.savez_compressed if self.compression else np.savez
+            self._replace_file(
+                file_path, lambda f: savez(f, vectors=vectors, ids=np.array(ids))
+            )
 
             self._save_count += 1
             return True
@@ -107,7 +111,6 @@ class TensorPersistence(PersistenceManager):
         try:
             file_path = self.data_dir / path
             if not file_path.name.endswith(".npz"):
-                # numpy appended the extension when saving
                 file_path = file_path.with_name(file_path.name + ".npz")
 
             if not file_path.exists():
@@ -135,8 +138,10 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
-                pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._replace_file(
+                file_path,
+                lambda f: pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             self._save_count += 1
             return True
-- 
2.43.0


From 2330914034d1f3e6c55c1f046a4fb0ef2e3e5895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 15/73] fix: a save after a crash or restart could be shadowed
 by an older checkpoint

---
 src/valori/persistence/incremental.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index d29d2a3..0eba453 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -315,6 +315,12 @@ class IncrementalPersistence(PersistenceManager):
             self._last_checkpoint = 0
             self._operation_count = 0
 
+        # The info may be lost or older than the checkpoints: never reuse a number
+        for checkpoint in self.data_dir.glob("checkpoint_*.pkl"):
+            number = int(checkpoint.stem.split("_")[1])
+            self._last_checkpoint = max(self._last_checkpoint, number)
+            self._operation_count = max(self._operation_count, number + 1)
+
     def _replay_operations(self, state: Dict[str, Any]) -> Dict[str, Any]:
         """Replay operations since last checkpoint."""
         try:
-- 
2.43.0


From 90363e5b60874952d1b1f9e05e8408584f8e131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 16/73] fix: incremental persistence reported failure for ids
 that are not JSON types

---
 src/valori/persistence/incremental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 0eba453..4a16435 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -257,7 +257,7 @@ class IncrementalPersistence(PersistenceManager):
             }
 
             with open(self.log_file, "a") as f:
-                f.write(json.dumps(log_entry) + "\n")
+                f.write(json.dumps(log_entry, default=str) + "\n")
 
             self._operation_count += 1
 
-- 
2.43.0


From 8204ccb1cf0d8c8bff9705e0434a3bc051e62c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 17/73] fix: initializing an index again kept vectors and
 clusters of the previous storage

---
 src/valori/indices/flat.py | 1 +
 src/valori/indices/hnsw.py | 5 ++++-
 src/valori/indices/ivf.py  | 6 ++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index afc00d0..a98d341 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -33,6 +33,7 @@ class FlatIndex(Index):
     def initialize(self, storage_backend: StorageBackend) -> None:
         """Initialize the flat index with storage backend."""
         self.storage_backend = storage_backend
+        self.vector_cache = {}
         self._initialized = True
 
         # Load existing vectors if any
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index eb4f669..1e50669 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -45,8 +45,11 @@ class HNSWIndex(Index):
         self.storage_backend = storage_backend
         self._initialized = True
 
-        # Initialize level 0
+        # Start from an empty graph: initialize() may be called again
         self.levels = [{}]
+        self.vectors = {}
+        self.max_level = 0
+        self._vector_count = 0
 
         # Load existing vectors if any
         try:
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 6756593..68861e3 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -42,6 +42,12 @@ class IVFIndex(Index):
         self.storage_backend = storage_backend
         self._initialized = True
 
+        # Start from an empty index: initialize() may be called again
+        self.centroids = None
+        self.clusters = {}
+        self.vectors_cache = {}
+        self._trained = False
+
         # Load existing vectors if any
         try:
             sb = storage_backend
-- 
2.43.0


From 8dac721b2251ac2d7382b7cec2a1e608a2936f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 18/73] fix: the processing pipeline never set up its parsers
 and doubled its processors when initialized again

---
 src/valori/processors/pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index e578735..8ded3a7 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -31,10 +31,11 @@ class ProcessingPipeline:
         try:
             # Initialize parser registry
             parser_config = self.config.get("parsers", {})
-            self.parser_registry = ParserRegistry(parser_config)
+            self.parser_registry = ParserRegistry({"parsers": parser_config})
             self.parser_registry.initialize()
 
             # Initialize processors in order
+            self.processors = []
             processor_configs = self.config.get("processors", {})
 
             # Add cleaning processor if configured
-- 
2.43.0


From 814c646b2ee9bd2d05a04869379625d042562514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 19/73] fix: quantizers silently accepted vectors and codes of
 another width

---
 src/valori/quantization/product.py | 11 +++++++++++
 src/valori/quantization/scalar.py  |  9 +++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 9482521..eefef53 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -102,6 +102,11 @@ class ProductQuantizer(Quantizer):
         if not self._trained:
             raise QuantizationError("Quantizer not trained")
 
+        if vectors.ndim != 2 or vectors.shape[1] != self.dim:
+            raise QuantizationError(
+                f"Expected vectors of dimension {self.dim}, got shape {vectors.shape}"
+            )
+
         try:
             n_vectors = int(vectors.shape[0])
             assert self.subvector_dim is not None and self.centroids is not None
@@ -144,6 +149,12 @@ class ProductQuantizer(Quantizer):
         if not self._trained:
             raise QuantizationError("Quantizer not trained")
 
+        if quantized_vectors.ndim != 2 or quantized_vectors.shape[1] != self.m:
+            raise QuantizationError(
+                f"Expected {self.m} codes per vector, "
+                f"got shape {quantized_vectors.shape}"
+            )
+
         try:
             n_vectors = int(quantized_vectors.shape[0])
             assert self.dim is not None
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index cb05203..8973105 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -94,6 +94,10 @@ class ScalarQuantizer(Quantizer):
                 and self.scale is not None
                 and self.zero_point is not None
             )
+            if vectors.shape[1] != self.dim:
+                raise QuantizationError(
+                    f"Expected vectors of dimension {self.dim}, got {vectors.shape[1]}"
+                )
             n_vectors = int(vectors.shape[0])
             # Choose integer dtype based on required range to avoid overflow
             if self.max_val <= np.iinfo(np.int32).max:
@@ -148,6 +152,11 @@ class ScalarQuantizer(Quantizer):
 
             if quantized_vectors.ndim != 2:
                 raise QuantizationError("Quantized vectors must be 2D array")
+            if quantized_vectors.shape[1] != self.dim:
+                raise QuantizationError(
+                    f"Expected {self.dim} codes per vector, "
+                    f"got {quantized_vectors.shape[1]}"
+                )
 
             n_vectors = int(quantized_vectors.shape[0])
             dequantized = np.zeros((n_vectors, int(self.dim)), dtype=np.float32)
-- 
2.43.0


From 6db11603f351e0a37241a7e4f308e9e5dfe9490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 20/73] fix: a refused training changed the dimension of a
 trained product quantizer

---
 src/valori/quantization/product.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index eefef53..45136f4 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -47,14 +47,14 @@ class ProductQuantizer(Quantizer):
 
         try:
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
 
             # Check if dimension is divisible by m
-            if self.dim % self.m != 0:
+            if dim % self.m != 0:
                 raise QuantizationError(
-                    f"Vector dimension {self.dim} must be divisible by m={self.m}"
+                    f"Vector dimension {dim} must be divisible by m={self.m}"
                 )
 
+            self.dim = int(dim)
             self.subvector_dim = int(self.dim // self.m)
 
             # Determine effective number of clusters (can't exceed n_vectors)
-- 
2.43.0


From 9d83cee715f333c8c245f4c7dba0f7d6d0557be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 21/73] fix: SAQ training failed with few bits and kept the
 segment count of an earlier training

---
 src/valori/quantization/saq.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index e70bfb5..8dcc637 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -59,6 +59,9 @@ class SAQQuantizer(Quantizer):
         if not isinstance(self.n_segments, int) or self.n_segments <= 0:
             raise ValueError("n_segments must be a positive integer")
 
+        # Each training may use fewer segments than configured
+        self._max_segments = self.n_segments
+
     def initialize(self) -> None:
         """Initialize the SAQ quantizer."""
         self.pca = PCA()
@@ -155,9 +158,8 @@ class SAQQuantizer(Quantizer):
         cumulative_variance = np.cumsum(explained_variance)
         # Dynamic programming for optimal segmentation
         # This minimizes quantization error given bit budget
-        # Make sure we don't allocate more segments than dimensions
-        if self.n_segments > dim:
-            self.n_segments = dim
+        # Make sure we don't allocate more segments than dimensions or bits
+        self.n_segments = min(self._max_segments, dim, self.total_bits)
 
         dp = np.full((self.n_segments + 1, dim + 1), np.inf)
         dp[0, 0] = 0
@@ -211,6 +213,8 @@ class SAQQuantizer(Quantizer):
                 bits = remaining_bits
             else:
                 bits = max(1, int(self.total_bits * (variance / total_variance)))
+                # Leave at least one bit for every segment still to come
+                bits = min(bits, remaining_bits - (len(segment_variances) - i - 1))
                 remaining_bits -= bits
             self.segment_bits.append(bits)
 
-- 
2.43.0


From 684048aa6d7b67236a49192334f14374427641f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 22/73] fix: SAQ decoded codes of a wrong width

---
 src/valori/quantization/saq.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 8dcc637..b858195 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -427,14 +427,12 @@ class SAQQuantizer(Quantizer):
             if codes.ndim == 1:
                 codes = codes.reshape(1, -1)
 
-            # If codes has one column per segment (n_vectors, n_segments)
-            if codes.shape[1] == n_segments:
-                codes_list = [codes[:, i].reshape(-1) for i in range(n_segments)]
-            else:
-                # Fallback: split by segment widths if codes are per-dimension
-                codes_list = [
-                    codes[:, start:end] for (start, end) in self.segment_boundaries
-                ]
+            # Codes have one column per segment (n_vectors, n_segments)
+            if codes.ndim != 2 or codes.shape[1] != n_segments:
+                raise QuantizationError(
+                    f"Expected codes with {n_segments} segments, got shape {codes.shape}"
+                )
+            codes_list = [codes[:, i].reshape(-1) for i in range(n_segments)]
         else:
             # Assume list-like
             codes_list = list(codes)
-- 
2.43.0


From 0ff4027816ba914fa57af98089c55e133653ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 23/73] fix: normalizing short vectors did not give unit length

---
 src/valori/utils/helpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 1fcc271..24e08da 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -132,20 +132,21 @@ def normalize_vectors(vectors: np.ndarray, method: str = "l2") -> np.ndarray:
     """
     if method == "l2":
         norms = np.linalg.norm(vectors, axis=1, keepdims=True)
-        return vectors / (norms + 1e-8)
+        return vectors / np.where(norms == 0, 1, norms)
 
     elif method == "l1":
         norms = np.sum(np.abs(vectors), axis=1, keepdims=True)
-        return vectors / (norms + 1e-8)
+        return vectors / np.where(norms == 0, 1, norms)
 
     elif method == "max":
         max_vals = np.max(np.abs(vectors), axis=1, keepdims=True)
-        return vectors / (max_vals + 1e-8)
+        return vectors / np.where(max_vals == 0, 1, max_vals)
 
     elif method == "minmax":
         min_vals = np.min(vectors, axis=1, keepdims=True)
         max_vals = np.max(vectors, axis=1, keepdims=True)
-        return (vectors - min_vals) / (max_vals - min_vals + 1e-8)
+        ranges = max_vals - min_vals
+        return (vectors - min_vals) / np.where(ranges == 0, 1, ranges)
 
     else:
         raise ValidationError(f"Unknown normalization method: {method}")
-- 
2.43.0


From febc527611088f4a679099d1e4d9ffc9da477c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 24/73] fix: an empty set of vectors saved as JSON lost its
 shape

---
 src/valori/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 24e08da..c6f53e1 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -319,7 +319,7 @@ def load_vectors_from_file(
     elif filepath.suffix == ".json":
         with open(filepath, "r") as f:
             data = json.load(f)
-            vectors = np.array(data["vectors"])
+            vectors = np.array(data["vectors"]).reshape(data["shape"])
             metadata = data["metadata"]
 
     else:
-- 
2.43.0


From cbb2095885ce434d9740093d68f9374a57ad5788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 25/73] fix: validators raised bare TypeErrors for non-numeric
 arrays and accepted NaN in a value range

---
 src/valori/utils/validation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 7e057d2..5e23510 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -51,6 +51,9 @@ def validate_vector(
             f"Vector dimension {len(vector)} is greater than maximum {max_dim}"
         )
 
+    if vector.dtype.kind not in "biufc":
+        raise ValidationError(f"Vector must be numeric, got dtype {vector.dtype}")
+
     if dtype is not None and vector.dtype != dtype:
         raise ValidationError(
             f"Vector dtype {vector.dtype} does not match expected {dtype}"
@@ -113,6 +116,9 @@ def validate_vectors(
             f"Vector dimension {vectors.shape[1]} is greater than maximum {max_dim}"
         )
 
+    if vectors.dtype.kind not in "biufc":
+        raise ValidationError(f"Vectors must be numeric, got dtype {vectors.dtype}")
+
     if dtype is not None and vectors.dtype != dtype:
         raise ValidationError(
             f"Vectors dtype {vectors.dtype} does not match expected {dtype}"
@@ -183,7 +189,8 @@ def validate_config(
             if key in config:
                 value = config[key]
                 if isinstance(value, (int, float)):
-                    if value < min_val or value > max_val:
+                    # Written this way so that NaN is out of range too
+                    if not (min_val <= value <= max_val):
                         raise ValidationError(
                             f"Key '{key}' value {value} is outside range [{min_val}, {max_val}]"
                         )
-- 
2.43.0


From 7aa06f3291ef2ae2053e9a3ac953c4825a46a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 26/73] fix: chunking repeated the end of the text in runaway
 chunks, accepted a negative overlap

---
 src/valori/parsers/office_parser.py |  7 ++++++-
 src/valori/parsers/pdf_parser.py    |  7 ++++++-
 src/valori/parsers/text_parser.py   |  7 ++++++-
 src/valori/processors/chunking.py   | 19 +++++++++++++++++--
 4 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/valori/parsers/office_parser.py b/src/valori/parsers/office_parser.py
index 28917ce..0632f7a 100644
--- a/src/valori/parsers/office_parser.py
+++ b/src/valori/parsers/office_parser.py
@@ -275,7 +275,8 @@ class OfficeParser(DocumentParser):
             # Try to break at logical boundaries
             if end < len(text):
                 last_newline = text.rfind("\n", start, end)
-                if last_newline > start + self.chunk_size // 2:
+                # (far enough to move on from with the overlap)
+                if last_newline > start + max(self.chunk_size // 2, self.chunk_overlap):
                     end = last_newline + 1
 
             chunk_text = text[start:end].strip()
@@ -291,6 +292,10 @@ class OfficeParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The rest of the text has been reached
+            if end >= len(text):
+                break
+
             start = max(end - self.chunk_overlap, start + 1)
 
         return chunks
diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index ef00c0e..3c8cfe1 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -178,7 +178,8 @@ class PDFParser(DocumentParser):
             # Try to break at paragraph boundary
             if end < len(text):
                 last_newline = text.rfind("\n\n", start, end)
-                if last_newline > start + self.chunk_size // 2:
+                # (far enough to move on from with the overlap)
+                if last_newline > start + max(self.chunk_size // 2, self.chunk_overlap):
                     end = last_newline + 2
 
             chunk_text = text[start:end].strip()
@@ -201,6 +202,10 @@ class PDFParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The rest of the text has been reached
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index 84fe890..09cc846 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -141,7 +141,8 @@ class TextParser(DocumentParser):
                 last_newline = text.rfind("\n", start, end)
                 break_point = max(last_period, last_newline)
 
-                if break_point > start + self.chunk_size // 2:
+                # (far enough to move on from with the overlap)
+                if break_point > start + max(self.chunk_size // 2, self.chunk_overlap):
                     end = break_point + 1
 
             chunk_text = text[start:end].strip()
@@ -157,6 +158,10 @@ class TextParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The rest of the text has been reached
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index a7a4f64..52c5c6e 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -41,6 +41,9 @@ class ChunkingProcessor(DocumentProcessor):
         if self.chunk_size <= 0:
             raise ProcessingError("Chunk size must be positive")
 
+        if self.chunk_overlap < 0:
+            raise ProcessingError("Chunk overlap must not be negative")
+
         if self.chunk_overlap >= self.chunk_size:
             raise ProcessingError("Chunk overlap must be less than chunk size")
 
@@ -97,7 +100,7 @@ class ChunkingProcessor(DocumentProcessor):
             # Try to break at separator boundary
             if end < len(text):
                 best_break = self._find_best_break(text, start, end)
-                if best_break > start + self.min_chunk_size:
+                if best_break > self._earliest_break(start):
                     end = best_break
 
             chunk_text = text[start:end].strip()
@@ -117,6 +120,10 @@ class ChunkingProcessor(DocumentProcessor):
                 )
                 chunk_id += 1
 
+            # The rest of the text has been reached
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
@@ -209,6 +216,10 @@ class ChunkingProcessor(DocumentProcessor):
                     }
                 )
 
+            # The rest of the text has been reached
+            if end >= len(text):
+                break
+
         return chunks
 
     def _find_best_break(self, text: str, start: int, end: int) -> int:
@@ -218,12 +229,16 @@ class ChunkingProcessor(DocumentProcessor):
         for separator in self.separators:
             # Look for separator from the end backwards
             break_pos = text.rfind(separator, start, end)
-            if break_pos > start + self.min_chunk_size:
+            if break_pos > self._earliest_break(start):
                 best_break = break_pos + len(separator)
                 break
 
         return best_break
 
+    def _earliest_break(self, start: int) -> int:
+        """Breaking up to here would make a chunk too short to move on from."""
+        return start + max(self.min_chunk_size, self.chunk_overlap)
+
     def _filter_chunks_by_size(
         self, chunks: List[Dict[str, Any]]
     ) -> List[Dict[str, Any]]:
-- 
2.43.0


From d6d0169f9af6ce138606577636851a09181dc26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 27/73] fix: semantic chunks repeated everything with no
 overlap, glued words together and reported wrong positions

---
 src/valori/processors/chunking.py | 33 +++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index 52c5c6e..450bd01 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -137,22 +137,28 @@ class ChunkingProcessor(DocumentProcessor):
         paragraphs = text.split("\n\n")
         current_chunk = ""
         current_start = 0
+        current_end = 0
         chunk_id = 0
+        position = 0
 
         for paragraph in paragraphs:
+            # Position of the stripped paragraph in the text
+            paragraph_start = position + len(paragraph) - len(paragraph.lstrip())
+            position += len(paragraph) + len("\n\n")
             paragraph = paragraph.strip()
             if not paragraph:
                 continue
 
             # If adding this paragraph would exceed chunk size, finalize current chunk
-            if current_chunk and len(current_chunk) + len(paragraph) > self.chunk_size:
+            joined_length = len(current_chunk) + len("\n\n") + len(paragraph)
+            if current_chunk and joined_length > self.chunk_size:
                 if current_chunk:
                     chunks.append(
                         {
                             "id": chunk_id,
                             "text": current_chunk.strip(),
                             "start_pos": current_start,
-                            "end_pos": current_start + len(current_chunk),
+                            "end_pos": current_end,
                             "length": len(current_chunk.strip()),
                             "metadata": {
                                 "chunk_type": "semantic",
@@ -163,17 +169,24 @@ class ChunkingProcessor(DocumentProcessor):
                     chunk_id += 1
 
                 # Start new chunk with overlap
+                overlap_start = current_end - self.chunk_overlap
                 overlap_text = (
-                    current_chunk[-self.chunk_overlap :]
-                    if len(current_chunk) > self.chunk_overlap
+                    text[overlap_start:current_end].strip()
+                    if current_start < overlap_start
                     else ""
                 )
-                current_chunk = overlap_text + paragraph
-                current_start = max(
-                    0, current_start + len(current_chunk) - self.chunk_overlap
-                )
+                if overlap_text:
+                    current_chunk = overlap_text + "\n\n" + paragraph
+                    current_start = overlap_start
+                else:
+                    current_chunk = paragraph
+                    current_start = paragraph_start
+            elif current_chunk:
+                current_chunk += "\n\n" + paragraph
             else:
-                current_chunk += "\n\n" + paragraph if current_chunk else paragraph
+                current_chunk = paragraph
+                current_start = paragraph_start
+            current_end = paragraph_start + len(paragraph)
 
         # Add final chunk
         if current_chunk:
@@ -182,7 +195,7 @@ class ChunkingProcessor(DocumentProcessor):
                     "id": chunk_id,
                     "text": current_chunk.strip(),
                     "start_pos": current_start,
-                    "end_pos": current_start + len(current_chunk),
+                    "end_pos": current_end,
                     "length": len(current_chunk.strip()),
                     "metadata": {"chunk_type": "semantic", "strategy": self.strategy},
                 }
-- 
2.43.0


From a30d8253b8bd8164387e4fa2975d64a19bb4d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 28/73] fix: PDF chunks named the wrong page

---
 src/valori/parsers/pdf_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index 3c8cfe1..5afcbe7 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -217,5 +217,6 @@ class PDFParser(DocumentParser):
         for page_info in page_metadata:
             if position < current_pos + page_info["text_length"]:
                 return page_info["page_number"]
-            current_pos += page_info["text_length"]
+            # Pages are separated by a blank line
+            current_pos += page_info["text_length"] + len("\n\n")
         return page_metadata[-1]["page_number"] if page_metadata else 1
-- 
2.43.0


From b546c8230f07decea20d795cd8ccc91df9d32118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 29/73] fix: Docling chunks reported wrong element ranges

---
 src/valori/parsers/docling_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valori/parsers/docling_parser.py b/src/valori/parsers/docling_parser.py
index 0bd9471..acfc0f8 100644
--- a/src/valori/parsers/docling_parser.py
+++ b/src/valori/parsers/docling_parser.py
@@ -169,6 +169,7 @@ class DoclingParser(DocumentParser):
         chunks = []
         chunk_id = 0
         current_text = ""
+        start_element = 0
 
         for i, text_element in enumerate(text_elements):
             current_text += text_element + "\n"
@@ -179,7 +180,7 @@ class DoclingParser(DocumentParser):
                     {
                         "id": chunk_id,
                         "text": current_text.strip(),
-                        "start_element": chunk_id * self.chunk_size,
+                        "start_element": start_element,
                         "end_element": i,
                         "metadata": {
                             "chunk_type": "docling_segment",
@@ -189,6 +190,7 @@ class DoclingParser(DocumentParser):
                 )
                 chunk_id += 1
                 current_text = ""
+                start_element = i + 1
 
         # Add remaining text
         if current_text.strip():
@@ -196,7 +198,7 @@ class DoclingParser(DocumentParser):
                 {
                     "id": chunk_id,
                     "text": current_text.strip(),
-                    "start_element": chunk_id * self.chunk_size,
+                    "start_element": start_element,
                     "end_element": len(text_elements) - 1,
                     "metadata": {
                         "chunk_type": "docling_segment",
-- 
2.43.0


From 9f674a3470fc98c156552f7bcdac651d0b111e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 30/73] fix: fullwidth brackets survived HTML removal as tags

---
 src/valori/processors/cleaning.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/valori/processors/cleaning.py b/src/valori/processors/cleaning.py
index abd7117..66dd330 100644
--- a/src/valori/processors/cleaning.py
+++ b/src/valori/processors/cleaning.py
@@ -124,15 +124,17 @@ class CleaningProcessor(DocumentProcessor):
         if not text:
             return text
 
-        # Remove HTML tags and decode HTML entities
+        # Decode HTML entities and remove HTML tags
         if self.remove_html:
             text = html.unescape(text)
-            text = re.sub(r"<[^>]+>", "", text)
 
-        # Normalize Unicode characters
+        # Normalize Unicode characters (may turn fullwidth brackets into tags)
         if self.normalize_unicode:
             text = unicodedata.normalize("NFKD", text)
 
+        if self.remove_html:
+            text = re.sub(r"<[^>]+>", "", text)
+
         # Remove special characters
         if self.remove_special_chars:
             text = re.sub(self.special_chars_pattern, " ", text)
-- 
2.43.0


From 80222b795f80d981712da00d8faf44b2656127b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 31/73] fix: stopword removal failed when the nltk corpus is
 not installed

---
 src/valori/processors/cleaning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/processors/cleaning.py b/src/valori/processors/cleaning.py
index 66dd330..babcbaa 100644
--- a/src/valori/processors/cleaning.py
+++ b/src/valori/processors/cleaning.py
@@ -49,8 +49,8 @@ class CleaningProcessor(DocumentProcessor):
                 from nltk.corpus import stopwords
 
                 self._stopwords = set(stopwords.words(self.stopwords_language))
-            except ImportError:
-                # Fallback to basic English stopwords
+            except (ImportError, LookupError):
+                # nltk or its stopword corpus not installed: fallback to basic English stopwords
                 self._stopwords = {
                     "a",
                     "an",
-- 
2.43.0


From d80fe86594870dcf5bb615b5be5ab32b41305f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 32/73] fix: embedding cache shared arrays with callers, zero
 embeddings became NaN

---
 src/valori/processors/embedding.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 873450f..fad2d28 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -149,7 +149,7 @@ class EmbeddingProcessor(DocumentProcessor):
             cache_key = self._get_cache_key(text)
             if cache_key in self._cache:
                 self._cache_hits += 1
-                return self._cache[cache_key]
+                return self._cache[cache_key].copy()
 
         # Generate embedding
         if self.model_type == "sentence_transformers":
@@ -163,12 +163,14 @@ class EmbeddingProcessor(DocumentProcessor):
 
         # Normalize embedding
         if self.normalize_embeddings:
-            embedding = embedding / np.linalg.norm(embedding)
+            norm = np.linalg.norm(embedding)
+            if norm > 0:
+                embedding = embedding / norm
 
-        # Cache embedding
+        # Cache embedding (a copy: the caller owns the returned array)
         if self.cache_embeddings:
             cache_key = self._get_cache_key(text)
-            self._cache[cache_key] = embedding
+            self._cache[cache_key] = np.array(embedding)
 
         self._texts_processed += 1
         self._embeddings_generated += 1
-- 
2.43.0


From 50712424cd786dfc7d26e1f36a93ce32928a5346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 33/73] fix: batch embedding of empty texts failed or returned
 non-zero vectors

---
 src/valori/processors/embedding.py | 34 +++++++++++++++++-------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index fad2d28..06ef95d 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -242,25 +242,29 @@ class EmbeddingProcessor(DocumentProcessor):
             batch_texts = texts[i : i + self.batch_size]
 
             if self.model_type == "sentence_transformers":
-                batch_embeddings = self._model.encode(
-                    batch_texts, convert_to_numpy=True
-                )
-                if self.normalize_embeddings:
-                    batch_embeddings = batch_embeddings / np.linalg.norm(
-                        batch_embeddings, axis=1, keepdims=True
+                # Encode all non-empty texts at once
+                encoded = {}
+                filled = [j for j, t in enumerate(batch_texts) if t and t.strip()]
+                if filled:
+                    vectors = self._model.encode(
+                        [batch_texts[j] for j in filled], convert_to_numpy=True
                     )
+                    if self.normalize_embeddings:
+                        norms = np.linalg.norm(vectors, axis=1, keepdims=True)
+                        vectors = vectors / np.where(norms == 0, 1, norms)
+                    encoded = dict(zip(filled, vectors))
+                    self._texts_processed += len(filled)
+                    self._embeddings_generated += len(filled)
+
+                for j, text in enumerate(batch_texts):
+                    if j in encoded:
+                        embeddings.append(encoded[j])
+                    else:
+                        embeddings.append(self._generate_embedding(text))
             else:
                 # Process individually for other model types
-                batch_embeddings = []
                 for text in batch_texts:
-                    embedding = self._generate_embedding(text)
-                    batch_embeddings.append(embedding)
-                batch_embeddings = np.array(batch_embeddings)
-
-            embeddings.extend(batch_embeddings)
-
-        self._texts_processed += len(texts)
-        self._embeddings_generated += len(texts)
+                    embeddings.append(self._generate_embedding(text))
 
         return embeddings
 
-- 
2.43.0


From 40c967888eac9d9e627da861d0fff512c283dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 34/73] fix: empty texts got a vector of a wrong dimension,
 statistics changed by reading them

---
 src/valori/processors/embedding.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 06ef95d..5b4e584 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -34,6 +34,7 @@ class EmbeddingProcessor(DocumentProcessor):
         self.normalize_embeddings = config.get("normalize_embeddings", True)
         self.device = config.get("device", "cpu")  # cpu, cuda, auto
         self._model = None
+        self._dimension = None
         self._cache = {}
         self._texts_processed = 0
         self._embeddings_generated = 0
@@ -142,7 +143,7 @@ class EmbeddingProcessor(DocumentProcessor):
         """Generate embedding for a single text."""
         if not text or not text.strip():
             # Return zero vector for empty text
-            return np.zeros(384)  # Default dimension
+            return np.zeros(self.get_embedding_dimension())
 
         # Check cache
         if self.cache_embeddings:
@@ -152,14 +153,7 @@ class EmbeddingProcessor(DocumentProcessor):
                 return self._cache[cache_key].copy()
 
         # Generate embedding
-        if self.model_type == "sentence_transformers":
-            embedding = self._generate_sentence_transformer_embedding(text)
-        elif self.model_type == "openai":
-            embedding = self._generate_openai_embedding(text)
-        elif self.model_type == "huggingface":
-            embedding = self._generate_huggingface_embedding(text)
-        else:
-            raise ProcessingError(f"Unknown model type: {self.model_type}")
+        embedding = self._encode(text)
 
         # Normalize embedding
         if self.normalize_embeddings:
@@ -177,6 +171,17 @@ class EmbeddingProcessor(DocumentProcessor):
 
         return embedding
 
+    def _encode(self, text: str) -> np.ndarray:
+        """Run the configured model on a single text."""
+        if self.model_type == "sentence_transformers":
+            return self._generate_sentence_transformer_embedding(text)
+        elif self.model_type == "openai":
+            return self._generate_openai_embedding(text)
+        elif self.model_type == "huggingface":
+            return self._generate_huggingface_embedding(text)
+        else:
+            raise ProcessingError(f"Unknown model type: {self.model_type}")
+
     def _generate_sentence_transformer_embedding(self, text: str) -> np.ndarray:
         """Generate embedding using SentenceTransformers."""
         embedding = self._model.encode(text, convert_to_numpy=True)
@@ -273,9 +278,10 @@ class EmbeddingProcessor(DocumentProcessor):
         if not self._initialized:
             return 0
 
-        # Generate a test embedding to determine dimension
-        test_embedding = self._generate_embedding("test")
-        return len(test_embedding)
+        # Encode a test text once to determine the dimension
+        if self._dimension is None:
+            self._dimension = len(self._encode("test"))
+        return self._dimension
 
     def clear_cache(self) -> None:
         """Clear the embedding cache."""
-- 
2.43.0


From 5c76e1426206ad27e206bf1a9945bc523c47d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 35/73] fix: parallel bulk insertion returned ids in completion
 order

---
 src/valori/utils/batch_manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 962c213..b051689 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -194,7 +194,7 @@ class BatchManager:
         self._stats["total_items"] = len(vectors)
         self._stats["start_time"] = time.time()
 
-        all_ids = []
+        ids_by_batch: Dict[int, List[Any]] = {}
 
         # Create batches
         batches = []
@@ -226,14 +226,14 @@ class BatchManager:
                 for future in as_completed(future_to_batch):
                     batch_id, batch_ids, error = future.result()
 
-                    if error:
+                    if error is not None:
                         self._stats["failed_items"] = int(
                             self._stats.get("failed_items", 0) or 0
                         ) + len(batches[batch_id]["vectors"])
                         if self.error_callback:
                             self.error_callback(error, batches[batch_id])
                     else:
-                        all_ids.extend(batch_ids)
+                        ids_by_batch[batch_id] = batch_ids
                         self._stats["processed_items"] = int(
                             self._stats.get("processed_items", 0) or 0
                         ) + len(batch_ids)
@@ -249,7 +249,8 @@ class BatchManager:
         finally:
             self._stats["end_time"] = time.time()
 
-        return all_ids
+        # Batches finish in any order: return the IDs in input order
+        return [i for batch_id in sorted(ids_by_batch) for i in ids_by_batch[batch_id]]
 
     def _print_progress(self):
         """Print progress information."""
-- 
2.43.0


From 671e7d7ba7b5187207a7a85999c9dc5563106f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 36/73] fix: bulk operation counters mixed operations and
 counted failed queries as processed

---
 src/valori/utils/batch_manager.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index b051689..e7df637 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -74,8 +74,7 @@ class BatchManager:
         Returns:
             List of all inserted IDs
         """
-        self._stats["total_items"] = len(vectors)
-        self._stats["start_time"] = time.time()
+        self._start_operation(len(vectors))
 
         all_ids = []
 
@@ -130,8 +129,7 @@ class BatchManager:
         Returns:
             List of search results for each query
         """
-        self._stats["total_items"] = len(query_vectors)
-        self._stats["start_time"] = time.time()
+        self._start_operation(len(query_vectors))
 
         all_results = []
 
@@ -144,6 +142,9 @@ class BatchManager:
                     try:
                         results = client.search(query, k=k)
                         batch_results.append(results)
+                        self._stats["processed_items"] = (
+                            int(self._stats.get("processed_items", 0) or 0) + 1
+                        )
 
                     except Exception as e:
                         batch_results.append([])
@@ -155,9 +156,6 @@ class BatchManager:
                             self.error_callback(e, query)
 
                 all_results.extend(batch_results)
-                self._stats["processed_items"] = int(
-                    self._stats.get("processed_items", 0) or 0
-                ) + len(batch_queries)
 
                 if show_progress:
                     self._print_progress()
@@ -191,8 +189,7 @@ class BatchManager:
         Returns:
             List of all inserted IDs
         """
-        self._stats["total_items"] = len(vectors)
-        self._stats["start_time"] = time.time()
+        self._start_operation(len(vectors))
 
         ids_by_batch: Dict[int, List[Any]] = {}
 
@@ -252,6 +249,12 @@ class BatchManager:
         # Batches finish in any order: return the IDs in input order
         return [i for batch_id in sorted(ids_by_batch) for i in ids_by_batch[batch_id]]
 
+    def _start_operation(self, total_items: int):
+        """Start counting for a new operation."""
+        self.reset_stats()
+        self._stats["total_items"] = total_items
+        self._stats["start_time"] = time.time()
+
     def _print_progress(self):
         """Print progress information."""
         if self._stats["total_items"] == 0:
-- 
2.43.0


From 9f389c81292faa988d8336ecbe7286f705b97183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 37/73] fix: a failing progress callback made an inserted batch
 count as failed

---
 src/valori/utils/batch_manager.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index e7df637..8d8e9aa 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -91,14 +91,6 @@ class BatchManager:
                         self._stats.get("processed_items", 0) or 0
                     ) + len(batch_vectors)
 
-                    if show_progress:
-                        self._print_progress()
-
-                    if self.progress_callback:
-                        self.progress_callback(
-                            self._stats["processed_items"], self._stats["total_items"]
-                        )
-
                 except Exception as e:
                     self._stats["failed_items"] = int(
                         self._stats.get("failed_items", 0) or 0
@@ -109,6 +101,16 @@ class BatchManager:
                     else:
                         print(f"Error processing batch {i//self.batch_size + 1}: {e}")
 
+                else:
+                    # (outside the try: a failing callback is no failed batch)
+                    if show_progress:
+                        self._print_progress()
+
+                    if self.progress_callback:
+                        self.progress_callback(
+                            self._stats["processed_items"], self._stats["total_items"]
+                        )
+
         finally:
             self._stats["end_time"] = time.time()
 
-- 
2.43.0


From f1ee893078bfcf52ea38e10f9bed9c76e44c19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 38/73] fix: a negative batch size silently inserted nothing

---
 src/valori/utils/batch_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 8d8e9aa..4eef0db 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -35,6 +35,9 @@ class BatchManager:
             batch_size: Size of each batch
             max_workers: Maximum number of worker threads
         """
+        if batch_size < 1:
+            raise ValidationError("Batch size must be at least 1")
+
         self.batch_size = batch_size
         self.max_workers = max_workers
         self.progress_callback: Optional[Callable] = None
-- 
2.43.0


From e886d199925c42cb4b3262d5c4ce28b4fdb23498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 39/73] fix: recommended configurations always failed, presets
 could be altered by callers

---
 src/valori/configs.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 1cb2eba..ac3c7ba 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -5,6 +5,7 @@ This module provides ready-to-use configurations for common use cases,
 making it easy to get started with the vector database.
 """
 
+from copy import deepcopy
 from typing import Any, Dict, List, Optional
 
 # Index configurations for different scenarios
@@ -385,15 +386,15 @@ def get_config(category: str, name: str) -> Dict[str, Any]:
 
     category_configs = config_map[category]
 
+    # (copies, so that callers cannot alter the presets)
+    if name in category_configs:
+        return deepcopy(category_configs[name])
+
     # Handle nested categories
     if category == "index":
         for subcategory, configs in category_configs.items():
             if name in configs:
-                return configs[name]
-    else:
-        if name not in category_configs:
-            raise ValueError(f"Unknown {category} config: {name}")
-        return category_configs[name]
+                return deepcopy(configs[name])
 
     raise ValueError(f"Unknown {category} config: {name}")
 
@@ -462,7 +463,7 @@ def get_recommended_config(
     """
     # Select index configuration
     if num_vectors < 1000:
-        index_config = get_config("index", "small_dataset")
+        index_config = get_config("index", "small_dataset")["flat"]
         index_name = "flat"
     elif num_vectors < 100000:
         if use_case == "speed":
@@ -482,7 +483,10 @@ def get_recommended_config(
         index_name = "ivf"
 
     # Select storage configuration
-    storage_config = get_config("storage", storage_type)
+    storage_names = {"memory": "memory_only", "disk": "disk_only"}
+    storage_config = get_config(
+        "storage", storage_names.get(storage_type, storage_type)
+    )
 
     # Select embedding configuration
     if dimension <= 384:
-- 
2.43.0


From 003d3a9a2a06f74aff50425d138c2b85e72da672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 40/73] fix: HNSW ignored the M option of the presets

---
 src/valori/indices/hnsw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 1e50669..84a4dc1 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -27,7 +27,7 @@ class HNSWIndex(Index):
     def __init__(self, config: Dict[str, Any]):
         """Initialize HNSW index."""
         super().__init__(config)
-        self.m = config.get("m", 16)  # Number of bi-directional links
+        self.m = config.get("m", config.get("M", 16))  # Number of bi-directional links
         self.ef_construction = config.get("ef_construction", 200)
         self.ef_search = config.get("ef_search", 50)
         self.metric = config.get("metric", "cosine")
-- 
2.43.0


From 7109b795961f61d8f0239c1590b63eca931e6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 41/73] fix: create_vector_db failed without sizes and dropped
 index options

---
 src/valori/factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index d697224..809991f 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -48,7 +48,11 @@ def create_vector_db(
         else:
             index_config["config"] = {}
     else:
-        index_config = get_recommended_index_config(num_vectors, dimension, use_case)
+        index_config = get_recommended_index_config(
+            num_vectors or 0, dimension or 0, use_case
+        )
+        # Explicit options win over the recommended ones
+        index_config["config"].update(kwargs.get("index_config", {}))
 
     # Create index
     index = _create_index(index_config["type"], index_config["config"])
-- 
2.43.0


From 00c458866a899ca0cf8f4456cba5247edccbf58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 42/73] fix: create_document_db dropped index options

---
 src/valori/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index 809991f..5d0a1a9 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -120,7 +120,9 @@ def create_document_db(
     db_config = {"index_type": index_type, "storage_type": "memory", **kwargs}
 
     # Default index config for document search
-    if index_type == "annoy":
+    if "index_config" in kwargs:
+        pass
+    elif index_type == "annoy":
         db_config["index_config"] = {
             "metric": "angular",
             "num_trees": 20,
-- 
2.43.0


From d416b6dd3a75b15c01fbd8250ce9f9391b9562b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 43/73] fix: databases created from a template could alter the
 template

---
 src/valori/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index 5d0a1a9..8046636 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -5,6 +5,7 @@ This module provides convenient factory functions to create pre-configured
 vector database instances for common use cases.
 """
 
+from copy import deepcopy
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple, Union
 
@@ -409,7 +410,7 @@ def create_from_template(template_name: str, **overrides) -> VectorDBClient:
             f"Unknown template: {template_name}. Available: {list(TEMPLATES.keys())}"
         )
 
-    config = TEMPLATES[template_name].copy()
+    config = deepcopy(TEMPLATES[template_name])
     config.update(overrides)
 
     return create_vector_db(**config)
-- 
2.43.0


From 608f02d5c4f055b15bb3236a2b07cff7a1752aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 44/73] fix: databases created from texts or images could not
 be searched with the default index

---
 src/valori/factory.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index 8046636..7965210 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -178,6 +178,7 @@ def create_semantic_search_db(
 
     # Add vectors
     client.insert(vectors, metadata)
+    _build_index(client)
 
     return client
 
@@ -216,6 +217,7 @@ def create_image_search_db(
 
     # Add vectors
     client.insert(vectors, metadata)
+    _build_index(client)
 
     return client
 
@@ -271,10 +273,17 @@ def create_hybrid_search_db(
 
     # Add vectors
     client.insert(vectors, combined_metadata)
+    _build_index(client)
 
     return client
 
 
+def _build_index(client: VectorDBClient) -> None:
+    """Build the index, for index types that search only after building."""
+    if hasattr(client.index, "build"):
+        client.index.build()
+
+
 def _create_index(index_type: str, config: Dict[str, Any]):
     """Create index instance based on type."""
     if index_type == "flat":
-- 
2.43.0


From 4a308d77dc2ec4b7b75a9124afbfd295f3bfeb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 45/73] fix: overriding a template's index type kept the
 options of the other type

---
 src/valori/factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index 7965210..63184d4 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -420,6 +420,9 @@ def create_from_template(template_name: str, **overrides) -> VectorDBClient:
         )
 
     config = deepcopy(TEMPLATES[template_name])
+    if overrides.get("index_type", config["index_type"]) != config["index_type"]:
+        # The template's index options belong to another index type
+        config.pop("index_config", None)
     config.update(overrides)
 
     return create_vector_db(**config)
-- 
2.43.0


From ad66edf0880ac1758d555873271b1e85d79b697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 46/73] fix: memory_usage_decorator ran a function that raised
 ImportError twice

---
 src/valori/utils/helpers.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index c6f53e1..6a11146 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -349,23 +349,22 @@ def memory_usage_decorator(func):
     def wrapper(*args, **kwargs):
         try:
             import psutil
+        except ImportError:
+            print("psutil not available for memory monitoring")
+            return func(*args, **kwargs)
 
-            process = psutil.Process()
-
-            # Get memory before
-            mem_before = process.memory_info().rss / 1024 / 1024  # MB
+        process = psutil.Process()
 
-            result = func(*args, **kwargs)
+        # Get memory before
+        mem_before = process.memory_info().rss / 1024 / 1024  # MB
 
-            # Get memory after
-            mem_after = process.memory_info().rss / 1024 / 1024  # MB
+        result = func(*args, **kwargs)
 
-            print(f"{func.__name__} memory usage: {mem_after - mem_before:.2f} MB")
-            return result
+        # Get memory after
+        mem_after = process.memory_info().rss / 1024 / 1024  # MB
 
-        except ImportError:
-            print("psutil not available for memory monitoring")
-            return func(*args, **kwargs)
+        print(f"{func.__name__} memory usage: {mem_after - mem_before:.2f} MB")
+        return result
 
     return wrapper
 
-- 
2.43.0


From 6ac3a314ab1c224080efce69aeb7f9f344183981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 47/73] fix: vector analysis failed on a single vector and gave
 NaN for zero vectors

---
 src/valori/utils/debugging.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 975934f..f1e65ac 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -192,10 +192,17 @@ class VectorAnalyzer:
         else:
             sample_vectors = vectors
 
-        # Normalize vectors
-        normalized = sample_vectors / np.linalg.norm(
-            sample_vectors, axis=1, keepdims=True
-        )
+        if len(sample_vectors) < 2:
+            # No pairs to compare
+            return {
+                "similarity_stats": {"mean": 0.0, "std": 0.0, "min": 0.0, "max": 0.0},
+                "high_similarity_pairs": 0,
+                "low_similarity_pairs": 0,
+            }
+
+        # Normalize vectors (zero vectors are similar to nothing)
+        norms = np.linalg.norm(sample_vectors, axis=1, keepdims=True)
+        normalized = sample_vectors / np.where(norms == 0, 1, norms)
 
         # Compute pairwise similarities
         similarity_matrix = np.dot(normalized, normalized.T)
-- 
2.43.0


From ca18a5bdd150b7368c3b01947d3ba0a75f8a826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 48/73] fix: vector analysis counted similar pairs twice and
 reported density as sparsity

---
 src/valori/utils/debugging.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index f1e65ac..311607c 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -154,7 +154,7 @@ class VectorAnalyzer:
             "std": float(np.std(vectors)),
             "min": float(np.min(vectors)),
             "max": float(np.max(vectors)),
-            "sparsity": float(np.count_nonzero(vectors) / vectors.size),
+            "sparsity": float(1 - np.count_nonzero(vectors) / vectors.size),
         }
 
     def _distribution_analysis(self, vectors: np.ndarray) -> Dict[str, Any]:
@@ -207,9 +207,8 @@ class VectorAnalyzer:
         # Compute pairwise similarities
         similarity_matrix = np.dot(normalized, normalized.T)
 
-        # Remove diagonal (self-similarities)
-        mask = np.ones_like(similarity_matrix, dtype=bool)
-        np.fill_diagonal(mask, False)
+        # Every pair once, without self-similarities
+        mask = np.triu(np.ones_like(similarity_matrix, dtype=bool), k=1)
         similarities = similarity_matrix[mask]
 
         return {
-- 
2.43.0


From e232cdcf6469e769eaa0f4a5c69feefde3db129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 49/73] fix: IndexInspector failed on HNSW and on indices with
 deleted vectors

---
 src/valori/utils/debugging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 311607c..0197f16 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -458,6 +458,10 @@ class IndexInspector:
     def _inspect_vectors(self) -> Dict[str, Any]:
         """Inspect stored vectors."""
         vectors = getattr(self.index, "vectors", [])
+        if isinstance(vectors, dict):
+            vectors = vectors.values()
+        # (deleted vectors leave empty slots)
+        vectors = [v for v in vectors if v is not None]
         if not vectors:
             return {"count": 0}
 
-- 
2.43.0


From 14865b3e0175dfbc59dfb75132aed3718f7fe780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 50/73] fix: ProgressTracker divided by zero with nothing to do

---
 src/valori/utils/batch_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 4eef0db..eb3c3c3 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -340,7 +340,7 @@ class ProgressTracker:
 
     def _print_progress(self):
         """Print progress information."""
-        progress = self.current / self.total
+        progress = self.current / self.total if self.total else 1.0
         percentage = progress * 100
 
         elapsed = time.time() - self.start_time
-- 
2.43.0


From 1d560b81becaaa163217e1a3a0d79be853eb54ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 51/73] fix: create_vectors_from_files failed when no file
 could be processed

---
 src/valori/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 6a11146..2affa30 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -114,7 +114,7 @@ def create_vectors_from_files(
     pipeline.close()
 
     if not all_vectors:
-        return np.array([]).reshape(0, -1), []
+        return np.empty((0, 0)), []
 
     return np.array(all_vectors), all_metadata
 
-- 
2.43.0


From 2b26c66a90f7262b33e90928b56067f2a9277a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 52/73] fix: validate_index_performance only worked with
 indices that have add()

---
 src/valori/utils/helpers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 2affa30..5cf9f7a 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -453,7 +453,8 @@ def validate_index_performance(
     # Add vectors
     start_time = time.time()
     metadata = [{"id": i} for i in range(len(test_vectors))]
-    ids = index.add(test_vectors, metadata)
+    insert = index.add if hasattr(index, "add") else index.insert
+    ids = insert(test_vectors, metadata)
 
     if hasattr(index, "build"):
         index.build()
@@ -468,12 +469,15 @@ def validate_index_performance(
         search_times.append(time.time() - start_time)
 
     # Calculate metrics
-    avg_search_time = np.mean(search_times)
-    search_throughput = len(test_queries) / sum(search_times)
+    total_search_time = sum(search_times)
+    avg_search_time = np.mean(search_times) if search_times else 0.0
+    search_throughput = (
+        len(test_queries) / total_search_time if total_search_time else 0.0
+    )
 
     return {
         "add_time": add_time,
-        "add_throughput": len(test_vectors) / add_time,
+        "add_throughput": len(test_vectors) / add_time if add_time else 0.0,
         "avg_search_time": avg_search_time,
         "search_throughput": search_throughput,
         "index_stats": index.get_stats(),
-- 
2.43.0


From 09b3282faa909c84d78b8dcb8dbb83097855cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 53/73] fix: threads sharing a client corrupted its index

---
 src/valori/client.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/valori/client.py b/src/valori/client.py
index a664e39..b33ae37 100644
--- a/src/valori/client.py
+++ b/src/valori/client.py
@@ -2,6 +2,7 @@
 High-level client for the Valori vector database.
 """
 
+from threading import RLock
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -45,6 +46,7 @@ class VectorDBClient:
         self.quantizer = quantizer
         self.persistence_manager = persistence_manager
         self.config = config or {}
+        self.lock = RLock()
         self._initialized = False
 
     def initialize(self) -> None:
@@ -70,21 +72,24 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.insert(vectors, metadata)
+        with self.lock:
+            return self.index.insert(vectors, metadata)
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
         """Search for similar vectors."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.search(query_vector, k)
+        with self.lock:
+            return self.index.search(query_vector, k)
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their IDs."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.delete(ids)
+        with self.lock:
+            return self.index.delete(ids)
 
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
@@ -93,17 +98,19 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.update(id, vector, metadata)
+        with self.lock:
+            return self.index.update(id, vector, metadata)
 
     def get_stats(self) -> Dict[str, Any]:
         """Get database statistics."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        stats = {
-            "storage": self.storage_backend.get_stats(),
-            "index": self.index.get_stats(),
-        }
+        with self.lock:
+            stats = {
+                "storage": self.storage_backend.get_stats(),
+                "index": self.index.get_stats(),
+            }
 
         if self.quantizer:
             stats["quantization"] = self.quantizer.get_stats()
-- 
2.43.0


From 8070625dac284ad400d530d567368b35b72906fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 54/73] fix: initialising an LSH index again made its vectors
 unfindable

---
 src/valori/indices/lsh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index fc519b3..0caf64f 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -60,6 +60,11 @@ class LSHIndex(Index):
         """Initialize the LSH index."""
         # Initialize hash tables
         self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
+        # Vectors already held (initialize() called again) stay searchable
+        for vector_id, vector in enumerate(self.vectors):
+            if vector is not None:
+                for table_idx, hash_code in enumerate(self._hash_vector(vector)):
+                    self.hash_tables[table_idx][hash_code].append(vector_id)
         self._initialized = True
 
     def add(self, vectors: np.ndarray, metadata: List[Dict[str, Any]]) -> List[int]:
-- 
2.43.0


From 3e9f278a3313916571dc88a3302759cbda07ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 55/73] fix: debug_function raises the function's own error
 even when it cannot be printed

---
 src/valori/utils/debugging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 0197f16..c39358d 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -398,7 +398,11 @@ def debug_function(func):
         except Exception as e:
             duration = time.time() - start_time
             print(f"❌ ERROR: {func_name} failed after {duration:.4f}s")
-            print(f"   Error: {str(e)}")
+            try:
+                print(f"   Error: {str(e)}")
+            except Exception:
+                # An error that cannot be shown is still the one to raise
+                pass
             raise
 
     return wrapper
-- 
2.43.0


From c19604be7e04763c1f73cbd87daedb5f465dd1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 56/73] fix: a failed product quantizer training changes
 nothing

---
 src/valori/quantization/product.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 45136f4..771c632 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -54,30 +54,25 @@ class ProductQuantizer(Quantizer):
                     f"Vector dimension {dim} must be divisible by m={self.m}"
                 )
 
-            self.dim = int(dim)
-            self.subvector_dim = int(self.dim // self.m)
+            subvector_dim = int(dim // self.m)
 
             # Determine effective number of clusters (can't exceed n_vectors)
             effective_k = int(min(self.k, max(1, n_vectors)))
-            self.effective_k = effective_k
 
             # Initialize centroids array (use float32 to match input dtype)
             # centroids shape may use effective_k which can be <= self.k
-            self.centroids = np.zeros(
-                (self.m, effective_k, self.subvector_dim), dtype=np.float32
-            )
+            centroids = np.zeros((self.m, effective_k, subvector_dim), dtype=np.float32)
 
             # Train each subvector separately
             for i in range(self.m):
-                assert self.subvector_dim is not None
-                start_idx = i * self.subvector_dim
-                end_idx = (i + 1) * self.subvector_dim
+                start_idx = i * subvector_dim
+                end_idx = (i + 1) * subvector_dim
                 subvectors = vectors[:, start_idx:end_idx]
 
                 # If effective_k is 1, just take the mean as the single centroid
                 if effective_k <= 1:
                     centroid = np.mean(subvectors, axis=0).astype(np.float32)
-                    self.centroids[i, 0] = centroid
+                    centroids[i, 0] = centroid
                     continue
 
                 # Perform K-means clustering on subvectors
@@ -85,10 +80,15 @@ class ProductQuantizer(Quantizer):
                 kmeans.fit(subvectors)
 
                 # Store centroids as float32
-                self.centroids[i, : kmeans.cluster_centers_.shape[0]] = (
+                centroids[i, : kmeans.cluster_centers_.shape[0]] = (
                     kmeans.cluster_centers_.astype(np.float32)
                 )
 
+            # A training that failed has changed nothing
+            self.dim = int(dim)
+            self.subvector_dim = subvector_dim
+            self.effective_k = effective_k
+            self.centroids = centroids
             self._trained = True
 
         except Exception as e:
-- 
2.43.0


From e5204e7f4d4c36af64ee7ed5bc1bb9354a3a2718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 57/73] fix: a failed scalar quantizer training keeps the
 trained dimension

---
 src/valori/quantization/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 8973105..efef1a6 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -50,7 +50,6 @@ class ScalarQuantizer(Quantizer):
         try:
             # Set dimension and compute min and max values for each dimension
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
             min_vals = np.min(vectors, axis=0)
             max_vals = np.max(vectors, axis=0)
 
@@ -65,6 +64,7 @@ class ScalarQuantizer(Quantizer):
             zero_pt = np.zeros_like(min_vals, dtype=np.int32)
 
             # Assign back to attributes (now narrowed)
+            self.dim = int(dim)
             self.min_values = min_vals
             self.max_values = max_vals
             self.scale = scales
-- 
2.43.0


From 7e8cb760b8aef022eb64ef7b3e8767f2644f8bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 58/73] fix: a failed SAQ training leaves the quantizer as it
 was

---
 src/valori/quantization/saq.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index b858195..f845948 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -89,6 +89,11 @@ class SAQQuantizer(Quantizer):
         if vectors.ndim != 2:
             raise QuantizationError("Vectors must be 2D array")
 
+        # A training that fails leaves the quantizer as it was
+        trained_state = dict(self.__dict__)
+        self.pca = PCA()
+        self.scaler = StandardScaler()
+
         try:
             import time
 
@@ -134,6 +139,7 @@ class SAQQuantizer(Quantizer):
             self.stats["segmentation_time"] = time.time() - start_time
 
         except Exception as e:
+            self.__dict__.update(trained_state)
             raise QuantizationError(f"SAQ training failed: {str(e)}")
 
     def _segment_and_allocate_bits(self, vectors_pca: np.ndarray) -> None:
-- 
2.43.0


From cc830c8a0d1de65cb68a9eb63fdde1fe4d1ff7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 59/73] fix: saved vector ids of any kind are loaded as they
 were

---
 src/valori/persistence/base.py        | 15 +++++++++++++++
 src/valori/persistence/incremental.py |  5 +++--
 src/valori/persistence/tensor.py      |  5 +++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/valori/persistence/base.py b/src/valori/persistence/base.py
index 8c6214b..9970ba1 100644
--- a/src/valori/persistence/base.py
+++ b/src/valori/persistence/base.py
@@ -2,6 +2,7 @@
 Base persistence interface for the valori vector database.
 """
 
+import json
 import os
 from abc import ABC, abstractmethod
 from pathlib import Path
@@ -31,6 +32,20 @@ class PersistenceManager(ABC):
             write(f)
         os.replace(temp_path, file_path)
 
+    @staticmethod
+    def _pack_ids(ids: list) -> np.ndarray:
+        """Turn vector IDs into an array from which they can be restored exactly."""
+        packed = np.array(ids)
+        if packed.size and (packed.dtype.kind in "fO" or packed.tolist() != list(ids)):
+            # No array type holds these IDs as they are (mixed types, big integers)
+            packed = np.array(json.dumps(list(ids), default=lambda value: value.item()))
+        return packed
+
+    @staticmethod
+    def _unpack_ids(packed: np.ndarray) -> list:
+        """Restore vector IDs from the array made by _pack_ids."""
+        return json.loads(str(packed)) if packed.ndim == 0 else packed.tolist()
+
     @abstractmethod
     def initialize(self) -> None:
         """Initialize the persistence manager."""
diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 4a16435..4d08c9b 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -120,7 +120,8 @@ class IncrementalPersistence(PersistenceManager):
 
             # Save vectors
             self._replace_file(
-                file_path, lambda f: np.savez(f, vectors=vectors, ids=np.array(ids))
+                file_path,
+                lambda f: np.savez(f, vectors=vectors, ids=self._pack_ids(ids)),
             )
 
             # Log operation
@@ -153,7 +154,7 @@ class IncrementalPersistence(PersistenceManager):
 
             data = np.load(file_path)
             vectors = data["vectors"]
-            ids = data["ids"].tolist()
+            ids = self._unpack_ids(data["ids"])
 
             return vectors, ids
 
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index a2107bf..e8105b7 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -94,7 +94,8 @@ class TensorPersistence(PersistenceManager):
             # Save with or without compression
             savez = np.savez_compressed if self.compression else np.savez
             self._replace_file(
-                file_path, lambda f: savez(f, vectors=vectors, ids=np.array(ids))
+                file_path,
+                lambda f: savez(f, vectors=vectors, ids=self._pack_ids(ids)),
             )
 
             self._save_count += 1
@@ -119,7 +120,7 @@ class TensorPersistence(PersistenceManager):
             # Load vectors and IDs
             data = np.load(file_path)
             vectors = data["vectors"]
-            ids = data["ids"].tolist()
+            ids = self._unpack_ids(data["ids"])
 
             self._load_count += 1
             return vectors, ids
-- 
2.43.0


From f66a38472b22c333f0c05c5cc05a06d9f0523cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 60/73] fix: close, initialise and the lifecycle test of the
 client run under its lock

---
 src/valori/client.py | 76 +++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/src/valori/client.py b/src/valori/client.py
index b33ae37..be5faa2 100644
--- a/src/valori/client.py
+++ b/src/valori/client.py
@@ -51,83 +51,85 @@ class VectorDBClient:
 
     def initialize(self) -> None:
         """Initialize all components."""
-        try:
-            self.storage_backend.initialize()
-            self.index.initialize(self.storage_backend)
+        with self.lock:
+            try:
+                self.storage_backend.initialize()
+                self.index.initialize(self.storage_backend)
 
-            if self.quantizer:
-                self.quantizer.initialize()
+                if self.quantizer:
+                    self.quantizer.initialize()
 
-            if self.persistence_manager:
-                self.persistence_manager.initialize()
+                if self.persistence_manager:
+                    self.persistence_manager.initialize()
 
-            self._initialized = True
-        except Exception as e:
-            raise ValoriError(f"Failed to initialize client: {str(e)}")
+                self._initialized = True
+            except Exception as e:
+                raise ValoriError(f"Failed to initialize client: {str(e)}")
 
     def insert(
         self, vectors: np.ndarray, metadata: Optional[List[Dict]] = None
     ) -> List[str]:
         """Insert vectors into the database."""
-        if not self._initialized:
-            raise ValoriError("Client not initialized. Call initialize() first.")
-
         with self.lock:
+            if not self._initialized:
+                raise ValoriError("Client not initialized. Call initialize() first.")
+
             return self.index.insert(vectors, metadata)
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
         """Search for similar vectors."""
-        if not self._initialized:
-            raise ValoriError("Client not initialized. Call initialize() first.")
-
         with self.lock:
+            if not self._initialized:
+                raise ValoriError("Client not initialized. Call initialize() first.")
+
             return self.index.search(query_vector, k)
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their IDs."""
-        if not self._initialized:
-            raise ValoriError("Client not initialized. Call initialize() first.")
-
         with self.lock:
+            if not self._initialized:
+                raise ValoriError("Client not initialized. Call initialize() first.")
+
             return self.index.delete(ids)
 
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
     ) -> bool:
         """Update a vector by its ID."""
-        if not self._initialized:
-            raise ValoriError("Client not initialized. Call initialize() first.")
-
         with self.lock:
+            if not self._initialized:
+                raise ValoriError("Client not initialized. Call initialize() first.")
+
             return self.index.update(id, vector, metadata)
 
     def get_stats(self) -> Dict[str, Any]:
         """Get database statistics."""
-        if not self._initialized:
-            raise ValoriError("Client not initialized. Call initialize() first.")
-
         with self.lock:
+            if not self._initialized:
+                raise ValoriError("Client not initialized. Call initialize() first.")
+
             stats = {
                 "storage": self.storage_backend.get_stats(),
                 "index": self.index.get_stats(),
             }
 
-        if self.quantizer:
-            stats["quantization"] = self.quantizer.get_stats()
+            if self.quantizer:
+                stats["quantization"] = self.quantizer.get_stats()
 
-        if self.persistence_manager:
-            stats["persistence"] = self.persistence_manager.get_stats()
+            if self.persistence_manager:
+                stats["persistence"] = self.persistence_manager.get_stats()
 
-        return stats
+            return stats
 
     def close(self) -> None:
         """Close the client and all components."""
-        if self.persistence_manager:
-            self.persistence_manager.close()
+        with self.lock:
+            if self.persistence_manager:
+                self.persistence_manager.close()
 
-        if self.quantizer:
-            self.quantizer.close()
+            if self.quantizer:
+                self.quantizer.close()
 
-        self.index.close()
-        self.storage_backend.close()
-        self._initialized = False
+            self.index.close()
+            self.storage_backend.close()
+            self._initialized = False
-- 
2.43.0


From 524acc686c5dae3be821dd6520a6c8dec0c3ed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 61/73] fix: LSH and Annoy delete() refuse use before
 initialization like the other operations

---
 src/valori/indices/annoy.py | 2 ++
 src/valori/indices/lsh.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 2ecc319..cf89559 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -107,6 +107,8 @@ class AnnoyIndex(Index):
         Returns:
             True if successful
         """
+        if not self._initialized:
+            raise ValoriIndexError("Index not initialized")
         try:
             success = True
             for id in ids:
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 0caf64f..d955324 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -228,6 +228,8 @@ class LSHIndex(Index):
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their string IDs (base Index API)."""
+        if not self._initialized:
+            raise ValoriIndexError("Index not initialized")
         try:
             success = True
             for s in ids:
-- 
2.43.0


From b870e613e6544950ff6bf4275fbe6c27b8af5ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 62/73] fix: incremental persistence forgets the operations
 since its last checkpoint on restart

---
 src/valori/persistence/incremental.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 4d08c9b..25c6784 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -210,10 +210,7 @@ class IncrementalPersistence(PersistenceManager):
 
         try:
             # Count operations in log
-            operation_count = 0
-            if self.log_file.exists():
-                with open(self.log_file, "r") as f:
-                    operation_count = sum(1 for line in f if line.strip())
+            operation_count = self._logged_operations()
 
             # Calculate disk usage
             total_size = 0
@@ -322,6 +319,16 @@ class IncrementalPersistence(PersistenceManager):
             self._last_checkpoint = max(self._last_checkpoint, number)
             self._operation_count = max(self._operation_count, number + 1)
 
+        # Operations logged since the info was written count as well
+        self._operation_count = max(self._operation_count, self._logged_operations())
+
+    def _logged_operations(self) -> int:
+        """Count the operations in the log file."""
+        if not self.log_file.exists():
+            return 0
+        with open(self.log_file, "r", errors="replace") as f:
+            return sum(1 for line in f if line.strip())
+
     def _replay_operations(self, state: Dict[str, Any]) -> Dict[str, Any]:
         """Replay operations since last checkpoint."""
         try:
-- 
2.43.0


From 576b9b78e38cde45a57afee8e4c005868d4f5630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 63/73] fix: changing the statistics of the SAQ quantizer
 changes its encoding

---
 src/valori/quantization/saq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index f845948..58f2037 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -633,13 +633,14 @@ class SAQQuantizer(Quantizer):
             "trained": self._trained,
             "initialized": self._initialized,
             **self.stats,
+            "adjustment_improvements": list(self.stats["adjustment_improvements"]),
         }
 
         if self._trained:
             stats.update(
                 {
-                    "segment_boundaries": self.segment_boundaries,
-                    "segment_bits": self.segment_bits,
+                    "segment_boundaries": list(self.segment_boundaries),
+                    "segment_bits": list(self.segment_bits),
                     "compression_ratio": float(self.stats["compression_ratio"]),
                     "explained_variance_ratio": float(
                         np.sum(self.pca.explained_variance_ratio_)
-- 
2.43.0


From a605c1594d51d49695e630492066b84ffc9400b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 64/73] fix: HNSW distances between integer vectors wrap around

---
 src/valori/indices/hnsw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 84a4dc1..788fb24 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -325,6 +325,9 @@ class HNSWIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer arrays would wrap around (and booleans cannot be subtracted)
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
-- 
2.43.0


From 6da9ad197084c269d367a88a112a969d6e946644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 65/73] fix: IVF distances between integer vectors wrap around

---
 src/valori/indices/ivf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 68861e3..361a091 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -415,6 +415,9 @@ class IVFIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer arrays would wrap around (and booleans cannot be subtracted)
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
-- 
2.43.0


From 3bf68240665f28d9a47047884cb6830f4224e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 66/73] fix: LSH similarities of integer vectors wrap around

---
 src/valori/indices/lsh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index d955324..5951873 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -398,6 +398,9 @@ class LSHIndex(Index):
 
     def _compute_distance(self, vector1: np.ndarray, vector2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer arrays would wrap around (and booleans cannot be subtracted)
+        vector1 = np.asarray(vector1, dtype=np.float64)
+        vector2 = np.asarray(vector2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine similarity
             dot_product = np.dot(vector1, vector2)
-- 
2.43.0


From 25843ed1c98cd5da2ef9ca09a8f9c192011d3e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 67/73] fix: similarity functions wrap around or fail on
 integer and boolean vectors

---
 src/valori/utils/similarity.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/valori/utils/similarity.py b/src/valori/utils/similarity.py
index b3b7ae5..d51bd1b 100644
--- a/src/valori/utils/similarity.py
+++ b/src/valori/utils/similarity.py
@@ -7,6 +7,13 @@ from typing import Union
 import numpy as np
 
 
+def as_floats(vectors: np.ndarray) -> np.ndarray:
+    """Integer arrays wrap around and booleans cannot be subtracted: use floats."""
+    if vectors.dtype.kind in "biu":
+        return vectors.astype(np.float64)
+    return vectors
+
+
 def cosine_similarity(a: np.ndarray, b: np.ndarray) -> float:
     """
     Compute cosine similarity between two vectors.
@@ -25,6 +32,7 @@ def cosine_similarity(a: np.ndarray, b: np.ndarray) -> float:
         raise ValueError("Vectors must have the same length")
 
     # Compute dot product
+    a, b = as_floats(a), as_floats(b)
     dot_product = np.dot(a, b)
 
     # Compute norms
@@ -74,7 +82,7 @@ def euclidean_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
-    return np.linalg.norm(a - b)
+    return np.linalg.norm(as_floats(a) - as_floats(b))
 
 
 def euclidean_distance_squared(a: np.ndarray, b: np.ndarray) -> float:
@@ -94,7 +102,7 @@ def euclidean_distance_squared(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
-    diff = a - b
+    diff = as_floats(a) - as_floats(b)
     return np.dot(diff, diff)
 
 
@@ -115,7 +123,7 @@ def dot_product(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
-    return np.dot(a, b)
+    return np.dot(as_floats(a), as_floats(b))
 
 
 def manhattan_distance(a: np.ndarray, b: np.ndarray) -> float:
@@ -135,7 +143,7 @@ def manhattan_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
-    return np.sum(np.abs(a - b))
+    return np.sum(np.abs(as_floats(a) - as_floats(b)))
 
 
 def chebyshev_distance(a: np.ndarray, b: np.ndarray) -> float:
@@ -155,7 +163,7 @@ def chebyshev_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
-    return np.max(np.abs(a - b))
+    return np.max(np.abs(as_floats(a) - as_floats(b)))
 
 
 def hamming_distance(a: np.ndarray, b: np.ndarray) -> float:
@@ -243,6 +251,7 @@ def normalize_vector(vector: np.ndarray, norm: str = "l2") -> np.ndarray:
     if vector.ndim != 1:
         raise ValueError("Vector must be 1D")
 
+    vector = as_floats(vector)
     if norm == "l2":
         norm_value = np.linalg.norm(vector)
     elif norm == "l1":
@@ -276,6 +285,7 @@ def batch_cosine_similarity(vectors_a: np.ndarray, vectors_b: np.ndarray) -> np.
         raise ValueError("Vectors must have the same dimension")
 
     # Compute dot products
+    vectors_a, vectors_b = as_floats(vectors_a), as_floats(vectors_b)
     dot_products = np.dot(vectors_a, vectors_b.T)
 
     # Compute norms
-- 
2.43.0


From 8dc6972545223e203e838635dd90277ec8523b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 68/73] fix: normalisation and similarity matrices of integer
 vectors truncate or wrap around

---
 src/valori/utils/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 5cf9f7a..bc2ad78 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -15,6 +15,7 @@ from typing import Any, Dict, List, Optional, Tuple, Union
 import numpy as np
 
 from ..exceptions import ValidationError
+from .similarity import as_floats
 from .validation import validate_vector
 
 
@@ -130,6 +131,7 @@ def normalize_vectors(vectors: np.ndarray, method: str = "l2") -> np.ndarray:
     Returns:
         Normalized vectors
     """
+    vectors = as_floats(vectors)
     if method == "l2":
         norms = np.linalg.norm(vectors, axis=1, keepdims=True)
         return vectors / np.where(norms == 0, 1, norms)
@@ -165,6 +167,7 @@ def compute_similarity_matrix(
     Returns:
         Similarity matrix
     """
+    vectors = as_floats(vectors)
     if metric == "cosine":
         # Normalize vectors
         normalized = normalize_vectors(vectors, "l2")
-- 
2.43.0


From b14832b4e9aab5f6ecff6c0869272548e5771e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 69/73] fix: scalar quantization of integer vectors wraps
 around

---
 src/valori/quantization/scalar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index efef1a6..68da44d 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -48,6 +48,9 @@ class ScalarQuantizer(Quantizer):
             raise QuantizationError("Vectors must be 2D array")
 
         try:
+            # Integer arrays would wrap around (and booleans cannot be subtracted)
+            if vectors.dtype.kind in "biu":
+                vectors = vectors.astype(np.float64)
             # Set dimension and compute min and max values for each dimension
             n_vectors, dim = vectors.shape
             min_vals = np.min(vectors, axis=0)
@@ -98,6 +101,8 @@ class ScalarQuantizer(Quantizer):
                 raise QuantizationError(
                     f"Expected vectors of dimension {self.dim}, got {vectors.shape[1]}"
                 )
+            if vectors.dtype.kind in "biu":
+                vectors = vectors.astype(np.float64)
             n_vectors = int(vectors.shape[0])
             # Choose integer dtype based on required range to avoid overflow
             if self.max_val <= np.iinfo(np.int32).max:
-- 
2.43.0


From 570aa34454c38b7956e970f1b3065251b2e5c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 70/73] fix: validate_metadata fails with RecursionError on
 deeply nested metadata

---
 src/valori/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 5e23510..bd872a4 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -341,7 +341,7 @@ def validate_metadata(metadata: Optional[Dict[str, Any]]) -> bool:
             import json
 
             json.dumps(value)
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, RecursionError):
             raise ValidationError(
                 f"Metadata value for key '{key}' is not JSON serializable"
             )
-- 
2.43.0


From 0bcd9222c62fe7e242b73397b000e1dda9ede3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:53 +0000
Subject: [PATCH 71/73] fix: LSH shared the stored metadata with its callers

---
 src/valori/indices/lsh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 5951873..b2b98fa 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -7,6 +7,7 @@ with configurable hash functions and parameters.
 
 import hashlib
 from collections import defaultdict
+from copy import deepcopy
 from typing import Any, Dict, List, Optional, Tuple, Union
 
 import numpy as np
@@ -112,7 +113,7 @@ class LSHIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(deepcopy(metadata[i]))
 
             # Generate hash codes for all hash tables
             assert vector is not None
@@ -195,7 +196,7 @@ class LSHIndex(Index):
 
         # Sort by distance and return top k
         results.sort(key=lambda x: x["distance"], reverse=True)
-        return results[:k]
+        return [{**r, "metadata": deepcopy(r["metadata"])} for r in results[:k]]
 
     def remove(self, ids: List[int]) -> None:
         """
@@ -271,7 +272,7 @@ class LSHIndex(Index):
             # Store new vector and metadata
             self.vectors[vector_id] = vector.copy()
             if metadata is not None:
-                self.metadata[vector_id] = metadata.copy()
+                self.metadata[vector_id] = deepcopy(metadata)
 
             # Add new hashes
             new_hashes = self._hash_vector(self.vectors[vector_id])
-- 
2.43.0


From 5bc150c236a3399fbff71bd0a09a54c948d17eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:53 +0000
Subject: [PATCH 72/73] fix: Annoy shared the stored metadata with its callers

---
 src/valori/indices/annoy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index cf89559..62b98ec 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -7,6 +7,7 @@ approximate nearest neighbor search using random projection trees.
 
 import os
 import tempfile
+from copy import deepcopy
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -151,7 +152,7 @@ class AnnoyIndex(Index):
 
             self.vectors[int_id] = vector.copy()
             if metadata is not None:
-                self.metadata[int_id] = metadata.copy()
+                self.metadata[int_id] = deepcopy(metadata)
 
             # A built index cannot be modified in place
             if self._built:
@@ -204,7 +205,7 @@ class AnnoyIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(deepcopy(metadata[i]))
 
             assigned_ids.append(vector_id)
 
@@ -304,7 +305,7 @@ class AnnoyIndex(Index):
                     }
                 )
 
-        return results[:k]
+        return [{**r, "metadata": deepcopy(r["metadata"])} for r in results[:k]]
 
     def remove(self, ids: List[int]) -> None:
         """
-- 
2.43.0


From 621eed583adb23de61b9d31c52b9d3b489d9f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:41 +0000
Subject: [PATCH 73/73] fix: a failed store or update left half an entry in
 memory storage

The vector was kept before its metadata was copied, so metadata that cannot
be copied left the new vector with the old metadata, and a plain list was
kept although the call failed (and made every later store fail).
---
 src/valori/storage/memory.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 0e040be..967da45 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -49,12 +49,15 @@ class MemoryStorage(StorageBackend):
 
         try:
             with self.lock:
+                # Copy everything first: a failure must not leave half an entry
+                vector, metadata = np.array(vector), deepcopy(metadata)
+
                 # Store vector
-                self.vectors[id] = vector.copy()
+                self.vectors[id] = vector
 
                 # Store metadata
                 if metadata is not None:
-                    self.metadata[id] = deepcopy(metadata)
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)  # Remove if exists
 
@@ -120,12 +123,15 @@ class MemoryStorage(StorageBackend):
                 if id not in self.vectors:
                     return False
 
+                # Copy everything first: a failure must not leave half an entry
+                vector, metadata = np.array(vector), deepcopy(metadata)
+
                 # Update vector
-                self.vectors[id] = vector.copy()
+                self.vectors[id] = vector
 
                 # Update metadata
                 if metadata is not None:
-                    self.metadata[id] = deepcopy(metadata)
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)
 
-- 
2.43.0

