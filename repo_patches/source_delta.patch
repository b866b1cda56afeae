From 61c77b6547cb5e1a52608e62dd29250dc027963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:30 +0000
Subject: [PATCH 01/41] fix: parallel pairwise fuzzy clusters must not depend
 on chunks

---
 fog/clustering/pairwise.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index 54f1ccc..2f0f189 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -241,12 +241,20 @@ def pairwise_fuzzy_clusters(data, similarity=None, distance=None, radius=None,
             in upper_triangular_matrix_chunk_iter(keys, chunk_size)
         )
 
+        pairs = []
+
         # Pool
         with Pool(processes=processes) as pool:
             for matches in pool.imap(pairwise_worker, pool_iter):
-                for i, j in matches:
-                    graph[i].append(j)
-                    graph[j].append(i)
+                pairs.extend(matches)
+
+        # NOTE: chunks are not traversed in row-major order, unlike the
+        # sequential version, and the order of pairs has an influence on clusters
+        pairs.sort()
+
+        for i, j in pairs:
+            graph[i].append(j)
+            graph[j].append(i)
 
     # Building clusters
     visited = set()
-- 
2.43.0


From 0c6d9829f23abda469c43c81ec03c4ea0f512af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:30 +0000
Subject: [PATCH 02/41] fix: parallel blocking must not depend on the order in
 which blocks are done

---
 fog/clustering/blocking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/blocking.py b/fog/clustering/blocking.py
index 389b1db..14fe065 100644
--- a/fog/clustering/blocking.py
+++ b/fog/clustering/blocking.py
@@ -137,7 +137,7 @@ def blocking(data, block=None, blocks=None, similarity=None, distance=None,
             )
 
             with Pool(processes=processes) as pool:
-                for pairs in pool.imap_unordered(block_worker, pool_iter):
+                for pairs in pool.imap(block_worker, pool_iter):
                     yield from pairs
 
     yield from clusters_from_pairs(
-- 
2.43.0


From c91a11f620ad34ec7c743b0fd119290e097614ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:30 +0000
Subject: [PATCH 03/41] fix: parallel quickjoin must not depend on the order in
 which blocks are done

---
 fog/clustering/quickjoin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 13a0fd4..0460ce9 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -328,7 +328,7 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 for S1, S2 in blocks()
             )
 
-            for pairs in pool.imap_unordered(worker, pool_iter):
+            for pairs in pool.imap(worker, pool_iter):
                 yield from pairs
 
     yield from clusters_from_pairs(
-- 
2.43.0


From da288de84cfaa4456e127032ff2956f5b5921e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:30 +0000
Subject: [PATCH 04/41] fix: quickjoin lost pairs when given a similarity

The opposite of a similarity is not a metric: partitions relied on a negative
radius & negative distances.
---
 fog/clustering/quickjoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 0460ce9..209b4f4 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -234,8 +234,8 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
         data = list(data)
 
     if similarity is not None:
-        distance = lambda x, y: -similarity(x, y)
-        radius = -radius
+        distance = lambda x, y: 1 - similarity(x, y)
+        radius = 1 - radius
 
     # Iterator recursively partitioning the data set using QuickJoin's method
     def blocks():
-- 
2.43.0


From b7cf6c9d598746eac7928d22c94876d2920bd659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:42 +0000
Subject: [PATCH 05/41] fix: quickjoin looped forever when pivots could not
 separate items

---
 fog/clustering/quickjoin.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 209b4f4..7fd2674 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -269,6 +269,11 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
 
                 L, G, Lw, Gw = partition(S, distance, p1, radius, rho)
 
+                # The pivots cannot separate the items (ties, duplicates...)
+                if len(L) == 0 or len(G) == 0:
+                    yield (S, None)
+                    continue
+
                 # Recursion
                 stack.append((G, None))
                 stack.append((L, None))
@@ -280,11 +285,10 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 N2 = len(S2)
                 N = N1 + N2
 
-                if N <= block_size:
-
-                    if N1 == 0 or N2 == 0:
-                        continue
+                if N1 == 0 or N2 == 0:
+                    continue
 
+                if N <= block_size:
                     yield (S1, S2)
                     continue
 
@@ -303,10 +307,14 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 L1, G1, Lw1, Gw1 = partition(S1, distance, p1, radius, rho)
                 L2, G2, Lw2, Gw2 = partition(S2, distance, p1, radius, rho)
 
-                stack.append((L1, L2))
-                stack.append((G1, G2))
-                stack.append((Lw1, Gw2))
-                stack.append((Gw1, Lw2))
+                windows = [(L1, L2), (G1, G2), (Lw1, Gw2), (Gw1, Lw2)]
+
+                # The pivots cannot separate the items (ties, duplicates...)
+                if any(len(A) + len(B) == N for A, B in windows):
+                    yield (S1, S2)
+                    continue
+
+                stack.extend(windows)
 
     # Iterator performing bruteforce distance computation over found blocks
     def clustering():
-- 
2.43.0


From d3d572dd182a007697c2d3df3b54940e4a7357f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:42 +0000
Subject: [PATCH 06/41] fix: quickjoin vantage point blocks must not depend on
 memory addresses

Also, empty blocks cannot be indexed by a vantage point tree.
---
 fog/clustering/quickjoin.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 7fd2674..2c918dc 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -109,7 +109,7 @@ def quickjoin_vptree(S1, S2, distance, radius):
 
 def quickjoin_self_vptree(S, distance, radius):
 
-    if len(S) == 1:
+    if len(S) < 2:
         return
 
     tree = VPTree(S, distance)
@@ -119,8 +119,7 @@ def quickjoin_self_vptree(S, distance, radius):
             if A == B:
                 continue
 
-            if id(A) < id(B):
-                yield (A, B)
+            yield (A, B)
 
 
 def quickjoin_join_pivots(S1, S2, distance, radius):
-- 
2.43.0


From ef8771ccb25f4a50fdb156bebed3c8d30c7691bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 07/41] fix: multipass sorted neighborhood must be able to
 consume iterators

---
 fog/clustering/sorted_neighborhood.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 9eae5e3..01141f4 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -81,6 +81,10 @@ def sorted_neighborhood(data, key=None, keys=None, similarity=None, distance=Non
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We need to consume as a list since data is sorted once per pass
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
@@ -197,6 +201,10 @@ def adaptive_sorted_neighborhood(data, key=None, keys=None, similarity=None,
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We need to consume as a list since data is sorted once per pass
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
-- 
2.43.0


From 076c72898e253019e19cf86634af827b4a65c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 08/41] fix: adaptive sorted neighborhood window must not go
 past the last record

---
 fog/clustering/sorted_neighborhood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 01141f4..be561a9 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -123,10 +123,10 @@ def full_AA_SNM(sorted_records, similarity, window):
         f = first
 
         # Enlargement
-        while similarity(sorted_records[first], sorted_records[last]):
+        while first < last and similarity(sorted_records[first], sorted_records[last]):
             w = last - f + 1
             first = last
-            last = first + w - 1
+            last = min(first + w - 1, n - 1)
 
         # Retrenchment
         w = last - f + 1
-- 
2.43.0


From 948ee1c2f151807364f5f3bb0d7fdf3e9d0b4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 09/41] fix: hashjoin lost pairs when given iterators or when
 keys are generators

---
 fog/join/hashjoin.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index 43be394..c636883 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -45,6 +45,10 @@ def hashjoin(left, right, key=None, keys=None):
             similar pairs.
             """)
 
+    # NOTE: B is traversed once per element of A
+    if not isinstance(B, (list, tuple)):
+        B = list(B)
+
     # Single key
     if key is not None:
         for a in A:
@@ -63,12 +67,12 @@ def hashjoin(left, right, key=None, keys=None):
     # Multiple keys
     if keys is not None:
         for a in A:
-            key_a = keys(a)
+            key_a = set(keys(a))
 
             for b in B:
                 key_b = keys(b)
 
-                if len(list(set(key_a) & set(key_b))) > 0:
+                if len(key_a & set(key_b)) > 0:
 
                     if invert:
                         yield (b, a)
-- 
2.43.0


From 0ad621c179a52d7bca8ee028f6b8d705a401441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 10/41] fix: nn_descent must handle tiny data sets & large k

---
 fog/clustering/nn_descent.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index ed1b47e..7b2df4b 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -109,10 +109,16 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # There is nothing to cluster
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    k = min(k, N - 1)
+
     # Initial samples
     for i, item in enumerate(V):
         neighbors = [(similarity(item, V[j]), j) for j in sample(rng, N, k, i)]
@@ -274,10 +280,16 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # There is nothing to cluster
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    k = min(k, N - 1)
+
     NK = N * k
     rhoK = int(rho * k)
 
-- 
2.43.0


From 277c941b1da42f6f543ad42fe7866ef9b896e4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 11/41] fix: nn_descent neighbors must be unique, lest true
 neighbors are evicted

---
 fog/clustering/nn_descent.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index 7b2df4b..19f352a 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -43,6 +43,14 @@ def sample(rng, N, k, i):
     return list(S)
 
 
+def is_neighbor(neighbors, j):
+    """
+    Function returning whether j already is one of the given neighbors.
+
+    """
+    return any(neighbor[1] == j for neighbor in neighbors)
+
+
 def reverse(B):
     """
     Returns the list of in-neighbors from the list of out-neighbors.
@@ -152,7 +160,7 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[i], V[jj])
 
-                    if s > B[i][0][0]:
+                    if s > B[i][0][0] and not is_neighbor(B[i], jj):
                         c += 1
                         heapreplace(B[i], (s, jj))
 
@@ -345,11 +353,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not is_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not is_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
@@ -360,11 +368,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not is_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not is_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
-- 
2.43.0


From 2269f9bcd42c093c27bb1ab2dd16cf83e2b38245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 12/41] fix: passjoin fuzzy clusters repeated members since
 pairs may arise twice

---
 fog/clustering/passjoin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/passjoin.py b/fog/clustering/passjoin.py
index 76804ef..3d8ad53 100644
--- a/fog/clustering/passjoin.py
+++ b/fog/clustering/passjoin.py
@@ -279,5 +279,6 @@ def passjoin(data, k, distance, sort=True, min_size=2, max_size=float('inf'),
         clustering(),
         min_size=min_size,
         max_size=max_size,
-        mode=mode
+        mode=mode,
+        fuzzy=True
     )
-- 
2.43.0


From a1d514732d34997c4d0d58c25e1df1399b6513fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 13/41] fix: key_collision ignored size bounds when merging

---
 fog/clustering/key_collision.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 7420cda..3a2b050 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -76,7 +76,12 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
 
     # Merging clusters
     if merge and key is None:
-        yield from clusters_from_buckets(buckets.values(), fuzzy=True)
+        yield from clusters_from_buckets(
+            buckets.values(),
+            min_size=min_size,
+            max_size=max_size,
+            fuzzy=True
+        )
 
     # Buckets as clusters
     else:
-- 
2.43.0


From dc811a89cee78496f15a54217d3fca883d26beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 14/41] fix: key_collision repeated items having the same key
 twice

---
 fog/clustering/key_collision.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 3a2b050..6030700 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -70,7 +70,7 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
             if not ks:
                 continue
 
-            for k in ks:
+            for k in dict.fromkeys(ks):
                 if k:
                     buckets[k].append(item)
 
-- 
2.43.0


From 732cf4cd8e58e15d7247c8eea4786cc4c0ad95b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 15/41] fix: pairwise_leader crashed on clusters over max_size

---
 fog/clustering/pairwise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index 2f0f189..2e7dbe0 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -90,6 +90,7 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
         A = data[i]
 
         cluster = None
+        members = []
 
         for j in range(i + 1, n):
             if j in visited:
@@ -105,10 +106,11 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
                     cluster.append(B)
 
                 if len(cluster) > max_size:
-                    for c in range(1, len(cluster)):
-                        visited.delete(c)
+                    visited.difference_update(members)
+                    cluster = None
                     break
 
+                members.append(j)
                 visited.add(j)
 
         if cluster is not None and len(cluster) >= min_size:
-- 
2.43.0


From 74b73e5c07172a50f86467832877c1d8593e7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 16/41] fix: MinHash must not reseed the global numpy rng

---
 fog/lsh/minhash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index a1bb2c6..2cd97b5 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -66,10 +66,10 @@ class MinHash(object):
         if use_numpy:
             assert np is not None, 'numpy is not installed'
 
-            np.random.seed(seed)
+            rng = np.random.RandomState(seed)
 
-            self.A = np.random.randint(1, MAX_UINT32, size=h, dtype='uint32')
-            self.B = np.random.randint(0, MAX_UINT32, size=h, dtype='uint32')
+            self.A = rng.randint(1, MAX_UINT32, size=h, dtype='uint32')
+            self.B = rng.randint(0, MAX_UINT32, size=h, dtype='uint32')
 
             self.numpy = True
         else:
-- 
2.43.0


From db1f2318c9a45302e13e619e9b8e76efebaa4834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 17/41] fix: SuperMinHash must not share its rng across threads

---
 fog/lsh/minhash.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index 2cd97b5..2b411b1 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -138,7 +138,6 @@ class SuperMinHash(object):
 
     def __init__(self, h=256):
         self.h = h
-        self.rng = Random()
 
     def create_signature(self, sequence):
 
@@ -148,7 +147,7 @@ class SuperMinHash(object):
             tokens = set(crc32(token) for token in sequence)
 
         m = self.h
-        rng = self.rng
+        rng = Random()
 
         h = [m + 1] * m
         p = [0] * m
-- 
2.43.0


From 0fb7acd1faed2c98d219ac8b80e537d51e5e1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 18/41] fix: blocking & intersection_index fuzzy clusters
 depended on hash randomization

---
 fog/clustering/blocking.py           | 3 ++-
 fog/clustering/intersection_index.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/blocking.py b/fog/clustering/blocking.py
index 14fe065..daa9dcf 100644
--- a/fog/clustering/blocking.py
+++ b/fog/clustering/blocking.py
@@ -109,7 +109,8 @@ def blocking(data, block=None, blocks=None, similarity=None, distance=None,
         if blocks is None:
             buckets[block(item)].append(item)
         else:
-            bs = set(blocks(item))
+            # NOTE: keeping order so clusters do not depend on hash randomization
+            bs = dict.fromkeys(blocks(item))
 
             for b in bs:
                 buckets[b].append(item)
diff --git a/fog/clustering/intersection_index.py b/fog/clustering/intersection_index.py
index 2b4b9a0..062b4ee 100644
--- a/fog/clustering/intersection_index.py
+++ b/fog/clustering/intersection_index.py
@@ -88,7 +88,8 @@ def intersection_index(data, metric='jaccard', radius=0.8, key=None, min_size=2,
     def clustering():
         for i, neighbors in intersections.items():
 
-            for j, I in neighbors.items():
+            # NOTE: sorting so clusters do not depend on hash randomization
+            for j, I in sorted(neighbors.items()):
 
                 if metric == 'jaccard':
                     U = sizes[i] + sizes[j] - I
-- 
2.43.0


From 53bea3fd2a23be7d6a868b24ee2766bea410c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 19/41] fix: StopIteration raised in a worker silently
 truncated clusters

---
 fog/clustering/blocking.py |  3 ++-
 fog/clustering/pairwise.py |  2 ++
 fog/clustering/utils.py    | 24 ++++++++++++++++++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/blocking.py b/fog/clustering/blocking.py
index daa9dcf..ec752e4 100644
--- a/fog/clustering/blocking.py
+++ b/fog/clustering/blocking.py
@@ -8,7 +8,7 @@
 import dill
 from collections import defaultdict
 from multiprocessing import Pool
-from fog.clustering.utils import make_similarity_function, clusters_from_pairs
+from fog.clustering.utils import make_similarity_function, clusters_from_pairs, pool_worker
 
 # TODO: max_block_size to avoid ngrams with high DF
 # TODO: worker using a VPTree
@@ -18,6 +18,7 @@ from fog.clustering.utils import make_similarity_function, clusters_from_pairs
 # TODO: the worker_graph is not used right now, the code does not use it (make a clusters from graph also)
 
 
+@pool_worker
 def block_worker(payload):
     """
     Worker function used compute pairwise distance/similarity over a whole
diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index 2e7dbe0..477e34c 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -12,6 +12,7 @@ from phylactery import UnionFind
 
 from fog.clustering.utils import (
     make_similarity_function,
+    pool_worker,
     upper_triangular_matrix_chunk_iter
 )
 
@@ -117,6 +118,7 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
             yield cluster
 
 
+@pool_worker
 def pairwise_worker(payload):
     """
     Worker function used to compute pairwise computations over chunks of
diff --git a/fog/clustering/utils.py b/fog/clustering/utils.py
index 8e2d946..fc84656 100644
--- a/fog/clustering/utils.py
+++ b/fog/clustering/utils.py
@@ -5,6 +5,7 @@
 # Miscellaneous redundant functions used by clustering routines.
 #
 from collections import defaultdict
+from functools import wraps
 import math
 
 
@@ -185,6 +186,29 @@ def clusters_from_buckets(buckets, min_size=2, max_size=float('inf'),
     )
 
 
+def pool_worker(worker):
+    """
+    Decorator for functions run by a pool's workers. A StopIteration raised by
+    a worker would silently end the iteration over the pool's results, so we
+    need to convert it, as generators do (PEP 479).
+
+    Args:
+        worker (callable): Worker function.
+
+    Returns:
+        callable: The decorated function.
+
+    """
+    @wraps(worker)
+    def wrapper(payload):
+        try:
+            return worker(payload)
+        except StopIteration as error:
+            raise RuntimeError('fog.clustering: worker raised StopIteration') from error
+
+    return wrapper
+
+
 def upper_triangular_matrix_chunk_iter(data, chunk_size):
     """
     Function returning an iterator over chunks of an upper triangular matrix.
-- 
2.43.0


From 5b49a9ce14e97c771aea3979be67acf5f5edf281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 20/41] fix: vp_tree crashed on empty & single item data

---
 fog/clustering/vp_tree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fog/clustering/vp_tree.py b/fog/clustering/vp_tree.py
index 299ab31..70a9ee7 100644
--- a/fog/clustering/vp_tree.py
+++ b/fog/clustering/vp_tree.py
@@ -44,6 +44,13 @@ def vp_tree(data, distance, radius, min_size=2, max_size=float('inf')):
     if type(data) is not list:
         data = list(data)
 
+    # NOTE: a vantage point tree needs at least two items
+    if len(data) < 2:
+        if len(data) == 1 and min_size <= 1 <= max_size:
+            yield list(data)
+
+        return
+
     tree = VPTree(data, distance, selection='spread')
 
     visited = set()
-- 
2.43.0


From 4e422649d5a6a22fb0aaadb19212bcd3d5541df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 21/41] fix: minhash cannot use more bands than there are
 integers in signatures

---
 fog/clustering/minhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/minhash.py b/fog/clustering/minhash.py
index 3701d26..4f3e6a2 100644
--- a/fog/clustering/minhash.py
+++ b/fog/clustering/minhash.py
@@ -88,7 +88,7 @@ def guess_bands(h, threshold):
 
         bands += 1
 
-    return bands
+    return min(bands, h)
 
 
 def minhash(data, h=256, key=None, radius=0.8, bands=None, use_numpy=False,
-- 
2.43.0


From 15c66c1dada695f608555e0186283333a05283c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 22/41] fix: ppjoin crashed without tokenizer

---
 fog/clustering/ppjoin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index f995e00..2fadd10 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -221,12 +221,12 @@ def preprocess(records, tokenizer=None, token_ordering=None):
         if tokenizer is not None:
             record = tokenizer(record)
 
-            if not isinstance(record, list):
-                record = list(record)
+        if not isinstance(record, list):
+            record = list(record)
 
-            if token_ordering == 'freq':
-                for token in record:
-                    freqs[token] += 1
+        if token_ordering == 'freq':
+            for token in record:
+                freqs[token] += 1
 
         record = sorted_uniq(record)
 
-- 
2.43.0


From 5104350831e57cb7bd6bb20cce647d7a4b21ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 23/41] fix: ppjoin crashed on records without tokens

---
 fog/clustering/ppjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index 2fadd10..e9168c5 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -309,6 +309,10 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
         record = tokenized_records[k]
         record_length = len(record)
 
+        # Records without tokens cannot match
+        if record_length == 0:
+            continue
+
         min_length = helper.min_possible_length(record_length)
         probe_length = helper.probe_length(record_length)
         index_length = helper.index_length(record_length)
-- 
2.43.0


From 74dcf58454817880bd23d9468ae6c8a701341ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:45 +0000
Subject: [PATCH 24/41] fix: MinHash using numpy crashed when casting 64 bits
 integers

---
 fog/lsh/minhash.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index 2b411b1..fa3466b 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -102,15 +102,16 @@ class MinHash(object):
             if len(tokens) == 0:
                 return np.zeros(self.h, dtype=np.uint32)
 
-            signature = np.repeat(list(tokens), self.h).astype(np.uint32, copy=False)
+            # NOTE: 32 bits would overflow
+            signature = np.repeat(list(tokens), self.h).astype(np.uint64, copy=False)
             signature.shape = (len(tokens), self.h)
 
             # Universal hash
             signature *= self.A
             signature += self.B
-            signature %= NEXT_PRIME
+            signature %= np.uint64(NEXT_PRIME)
 
-            return signature.min(axis=0)
+            return np.minimum(signature.min(axis=0), np.uint64(MAX_UINT32)).astype(np.uint32)
 
         # Standard routine
         params = self.params
-- 
2.43.0


From c6256c1f37c73ca7e52ea14ffadaaeb5d3006dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:45 +0000
Subject: [PATCH 25/41] fix: ppjoin lost pairs because it confused threshold
 with token position

---
 fog/clustering/ppjoin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index e9168c5..7f45391 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -385,7 +385,7 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
 
                 if value is None:
                     if (
-                        record_length - threshold < require_overlap
+                        record_length - t < require_overlap
                         or (candidate_length - candidate_pos) < require_overlap
                     ):
                         continue
@@ -393,14 +393,14 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
                     occurances[candidate_id] = 1
                 else:
                     if (
-                        value + (record_length - threshold) < require_overlap
+                        value + (record_length - t) < require_overlap
                         or value + (candidate_length - candidate_pos) < require_overlap
                     ):
                         occurances[candidate_id] = PRUNE_FLAG
                     else:
                         occurances[candidate_id] += 1
 
-            if threshold < index_length:
+            if t < index_length:
                 ids.append((k, t))
 
         for candidate, count in occurances.items():
-- 
2.43.0


From cab40fd1edcdd5c1f6f3afd152fbe5bbe7c57b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:12 +0000
Subject: [PATCH 26/41] fix: cli split with a target column must write one
 value per row

Values used to accumulate on the same row, and rows having an empty cell were
too short.
---
 fog/cli/split.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/fog/cli/split.py b/fog/cli/split.py
index c8b7ce3..247c856 100644
--- a/fog/cli/split.py
+++ b/fog/cli/split.py
@@ -25,15 +25,10 @@ def split_action(namespace):
     for line in reader:
         values = line[position]
 
-        if len(values) == 0:
-            writer.writerow(line)
-            continue
-
         for value in values.split(namespace.separator):
 
-            if namespace.target_column:
-                line.append(value)
+            if namespace.target_column is not None:
+                writer.writerow(line + [value])
             else:
                 line[position] = value
-
-            writer.writerow(line)
+                writer.writerow(line)
-- 
2.43.0


From 873e0cf15790f71c6bd44b0d3d9283dcb818d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:12 +0000
Subject: [PATCH 27/41] fix: cli must report output errors happening when
 flushing & closing

---
 fog/cli/__main__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fog/cli/__main__.py b/fog/cli/__main__.py
index 4412019..593cd3a 100644
--- a/fog/cli/__main__.py
+++ b/fog/cli/__main__.py
@@ -72,6 +72,14 @@ def main():
     if args.action is None:
         parser.print_help()
 
+    # NOTE: errors happening when files are implicitly closed are ignored by
+    # python, so we need to be explicit lest we lose output silently
+    if 'output' in args:
+        args.output.flush()
+
+        if args.output is not sys.stdout:
+            args.output.close()
+
 
 if __name__ == '__main__':
     main()
-- 
2.43.0


From ccbcea70e3b86df5251de1f02e2ae69ff2841f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:13 +0000
Subject: [PATCH 28/41] fix: cli toml reports must escape backslashes & control
 characters

---
 fog/cli/reporting/toml.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/toml.py b/fog/cli/reporting/toml.py
index 98b6dd1..d96b99b 100644
--- a/fog/cli/reporting/toml.py
+++ b/fog/cli/reporting/toml.py
@@ -4,10 +4,23 @@
 #
 # Function used to render a clustering result into a TOML file.
 #
+import re
+
+# NOTE: TOML basic strings cannot contain raw control characters
+ESCAPE_RE = re.compile(r'["\\\x00-\x1f\x7f]')
+
+
+def escape_char(match):
+    char = match.group(0)
+
+    if char in '"\\':
+        return '\\' + char
+
+    return '\\u%04x' % ord(char)
 
 
 def escape_string(string):
-    return string.replace('"', '\\"').replace('\n', '\\n')
+    return re.sub(ESCAPE_RE, escape_char, string)
 
 
 def print_toml_report(file, meta, values, clusters):
-- 
2.43.0


From 1605dfba67446e05a1dac0ba1bf8189453251f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:13 +0000
Subject: [PATCH 29/41] fix: cli html reports must escape values

---
 fog/cli/reporting/html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 3c39c45..4ade43c 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -5,6 +5,7 @@
 # Function used to render a clustering result into a HTML file.
 #
 import datetime
+from html import escape
 
 
 def print_html_report(file, meta, values, clusters):
@@ -92,7 +93,7 @@ def print_html_report(file, meta, values, clusters):
 
         for v in sorted_values:
             p('        <li>')
-            p('          %s' % v)
+            p('          %s' % escape(v))
             p('        </li>')
 
         p('      </ul>')
-- 
2.43.0


From 4da18767cae3fc15782d683e28b92069f510311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:13 +0000
Subject: [PATCH 30/41] fix: cli html reports duration is in seconds

---
 fog/cli/reporting/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 4ade43c..809a4b8 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -75,7 +75,7 @@ def print_html_report(file, meta, values, clusters):
     p('            <b>Took</b>')
     p('          </td>')
     p('          <td>')
-    p('            %s' % datetime.timedelta(microseconds=meta['took']))
+    p('            %s' % datetime.timedelta(seconds=meta['took']))
     p('          </td>')
     p('        </tr>')
     p('      </table>')
-- 
2.43.0


From e02bd114d6aeb467385585798323472087a17370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:13 +0000
Subject: [PATCH 31/41] fix: cli cluster duration must include the clustering
 itself, which is lazy

---
 fog/cli/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/cli/cluster.py b/fog/cli/cluster.py
index ad0300e..b06f7ad 100644
--- a/fog/cli/cluster.py
+++ b/fog/cli/cluster.py
@@ -41,7 +41,7 @@ def cluster_action(namespace):
         values[line[position]] += 1
 
     start = timer()
-    clusters = routine['fn'](values.keys(), **routine['kwargs'])
+    clusters = list(routine['fn'](values.keys(), **routine['kwargs']))
     end = timer() - start
 
     meta = {
@@ -53,4 +53,4 @@ def cluster_action(namespace):
 
     renderer = RENDERERS[namespace.type]
 
-    renderer(namespace.output, meta, values, list(clusters))
+    renderer(namespace.output, meta, values, clusters)
-- 
2.43.0


From 553e99ec0d188e8a3c0404f104d737bcfeec511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:19 +0000
Subject: [PATCH 32/41] fix: cli must preserve newlines found in csv cells

---
 fog/cli/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/cli/utils.py b/fog/cli/utils.py
index c3b9321..eacac89 100644
--- a/fog/cli/utils.py
+++ b/fog/cli/utils.py
@@ -12,6 +12,10 @@ def custom_reader(f, target_header):
     # dialect = sniffer.sniff(f.read(1024))
     # f.seek(0)
 
+    # NOTE: newlines embedded in cells must not be translated
+    if hasattr(f, 'reconfigure'):
+        f.reconfigure(newline='')
+
     reader = csv.reader(f)
 
     headers = next(reader, None)
-- 
2.43.0


From 9b6aba2bd34c3d8d69480142395bea904a81217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:01 +0000
Subject: [PATCH 33/41] fix: floatsam_sparsification looped forever when no
 large component drifts

---
 fog/graph/sparsification.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fog/graph/sparsification.py b/fog/graph/sparsification.py
index 10a024b..26a39a7 100644
--- a/fog/graph/sparsification.py
+++ b/fog/graph/sparsification.py
@@ -55,6 +55,8 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
     if max_drifter_size is None:
         max_drifter_size = int(math.log(len(graph)))
 
+    max_weight = max(w for _, _, w in graph.edges(data=weight))
+
     while True:
         best_threshold = threshold
         threshold += learning_rate
@@ -64,6 +66,10 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
         if c is not None and c >= max_drifter_size:
             break
 
+        # NOTE: there is nothing left to trim
+        if threshold > max_weight:
+            break
+
     if remove_edges:
         to_remove = []
         for u, v, w in graph.edges(data=weight):
-- 
2.43.0


From f93cf3648c5268dccab66dfb7a148291751b242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:10 +0000
Subject: [PATCH 34/41] fix: best matching evaluation depended on items order
 when candidates tie

---
 fog/evaluation/best_matching.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/evaluation/best_matching.py b/fog/evaluation/best_matching.py
index 5b9905b..516cc3e 100644
--- a/fog/evaluation/best_matching.py
+++ b/fog/evaluation/best_matching.py
@@ -104,10 +104,11 @@ def best_matching_macro_average(
             candidates[candidate_cluster_index] += 1
             cluster_size += 1
 
-        best_f1 = -1.0
         best = None
 
         # Finding a matching cluster that maximizes F1 score
+        # NOTE: ties are resolved using precision, so that the result does not
+        # depend on the order in which items are found in clusters
         for matching_cluster_index, true_positives in candidates.items():
             matching_cluster_size = predicted_cluster_sizes[matching_cluster_index]
 
@@ -118,8 +119,7 @@ def best_matching_macro_average(
             recall = true_positives / (true_positives + false_negatives)
             f1 = 2 * precision * recall / (precision + recall)
 
-            if f1 > best_f1:
-                best_f1 = f1
+            if best is None or (f1, precision) > (best[2], best[0]):
                 best = (precision, recall, f1)
 
         assert best is not None
-- 
2.43.0


From 73e2c7dc8a4b684b781afa1b615579c0604d8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:02 +0000
Subject: [PATCH 35/41] fix: cfog levenshtein functions must handle failing
 allocations

---
 cfog/metrics/levenshtein.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index ac22ac7..03c59fc 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -77,6 +77,11 @@ def levenshtein_distance(str A, str B):
     cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
+    if codes is NULL or vector is NULL:
+        free(codes)
+        free(vector)
+        raise MemoryError()
+
     cdef unsigned int i = 0
 
     while i < LB:
@@ -195,6 +200,11 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
+    if codes is NULL or vector is NULL:
+        free(codes)
+        free(vector)
+        raise MemoryError()
+
     cdef unsigned int i = 0
 
     while i < max_distance:
-- 
2.43.0


From e47a22dbf4e1aaeee4865ef8fd84cd307e6dc4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:06 +0000
Subject: [PATCH 36/41] fix: cfog limited_levenshtein_distance leaked memory
 when reaching its limit

---
 cfog/metrics/levenshtein.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index 03c59fc..49bc64a 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -264,6 +264,9 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
             j += 1
 
         if have_max and vector[i + diff] > max_distance:
+            free(codes)
+            free(vector)
+
             return upper_bound
 
         i += 1
-- 
2.43.0


From c5a1f0f535f2f85f052d30c95427795ac63532a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:11 +0000
Subject: [PATCH 37/41] fix: cfog levenshtein functions truncated code points
 outside of the BMP

---
 cfog/metrics/levenshtein.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index 49bc64a..9bc66ed 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -74,7 +74,7 @@ def levenshtein_distance(str A, str B):
 
         return LB
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef Py_UCS4 *codes = <Py_UCS4 *> malloc(LB * sizeof(Py_UCS4))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     if codes is NULL or vector is NULL:
@@ -92,7 +92,7 @@ def levenshtein_distance(str A, str B):
     cdef unsigned int current = 0
     cdef unsigned int left = 0
     cdef unsigned int above = 0
-    cdef unsigned short charA = 0
+    cdef Py_UCS4 charA = 0
     cdef unsigned int j = 0
 
     i = 0
@@ -197,7 +197,7 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     elif diff > max_distance:
         return upper_bound
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef Py_UCS4 *codes = <Py_UCS4 *> malloc(LB * sizeof(Py_UCS4))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     if codes is NULL or vector is NULL:
@@ -226,7 +226,7 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     cdef unsigned int current = 0
     cdef unsigned int left
     cdef unsigned int above
-    cdef unsigned int charA
+    cdef Py_UCS4 charA
     cdef unsigned int j
 
     i = 0
-- 
2.43.0


From 258b9d2232854e3c7e285b95408c59b3307898af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:15 +0000
Subject: [PATCH 38/41] fix: cfog levenshtein_distance searched a character in
 the ignored prefix & suffix

---
 cfog/metrics/levenshtein.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index 9bc66ed..b3d9ad0 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -69,7 +69,7 @@ def levenshtein_distance(str A, str B):
         return LB
 
     if LA == 1:
-        if A[start] in B:
+        if A[start] in B[start:start + LB]:
             return LB - 1
 
         return LB
-- 
2.43.0


From 3ab6611c7f2b08dd46f02ba4f10f1e9087067fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:46 +0000
Subject: [PATCH 39/41] fix: parallel clustering waited forever for errors that
 cannot be unpickled

---
 fog/clustering/quickjoin.py | 16 ++++++++++------
 fog/clustering/utils.py     | 26 +++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 2c918dc..4fb8970 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -32,7 +32,7 @@ import random
 from multiprocessing import Pool
 from phylactery import VPTree
 
-from fog.clustering.utils import clusters_from_pairs
+from fog.clustering.utils import clusters_from_pairs, pool_worker, transferable_error
 
 # TODO: implement the eta parameter
 
@@ -174,6 +174,7 @@ def select_block_functions(vp_tree):
     return quickjoin_bruteforce, quickjoin_self_bruteforce
 
 
+@pool_worker
 def worker(payload):
     distance, radius, S1, S2, vp_tree = payload
 
@@ -330,12 +331,15 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
         with Pool(processes=processes) as pool:
             pickled_distance = dill.dumps(distance)
 
-            pool_iter = (
-                (pickled_distance, radius, S1, S2, vp_tree)
-                for S1, S2 in blocks()
-            )
+            # NOTE: this is run by the pool, hence errors are sent to its workers
+            def pool_iter():
+                try:
+                    for S1, S2 in blocks():
+                        yield (pickled_distance, radius, S1, S2, vp_tree)
+                except Exception as error:
+                    raise transferable_error(error)
 
-            for pairs in pool.imap(worker, pool_iter):
+            for pairs in pool.imap(worker, pool_iter()):
                 yield from pairs
 
     yield from clusters_from_pairs(
diff --git a/fog/clustering/utils.py b/fog/clustering/utils.py
index fc84656..85039e2 100644
--- a/fog/clustering/utils.py
+++ b/fog/clustering/utils.py
@@ -7,6 +7,7 @@
 from collections import defaultdict
 from functools import wraps
 import math
+import pickle
 
 
 def make_similarity_function(similarity=None, distance=None, radius=None):
@@ -186,11 +187,32 @@ def clusters_from_buckets(buckets, min_size=2, max_size=float('inf'),
     )
 
 
+def transferable_error(error):
+    """
+    Function returning an error that can be sent to another process. Indeed, a
+    pool waits forever for an error that cannot be unpickled.
+
+    Args:
+        error (Exception): Target error.
+
+    Returns:
+        Exception: The same error if possible, or else one describing it.
+
+    """
+    try:
+        pickle.loads(pickle.dumps(error))
+    except Exception:
+        return RuntimeError('fog.clustering: %s: %s' % (type(error).__name__, error))
+
+    return error
+
+
 def pool_worker(worker):
     """
     Decorator for functions run by a pool's workers. A StopIteration raised by
     a worker would silently end the iteration over the pool's results, so we
-    need to convert it, as generators do (PEP 479).
+    need to convert it, as generators do (PEP 479). The same goes for errors
+    that cannot be sent back to the parent process.
 
     Args:
         worker (callable): Worker function.
@@ -205,6 +227,8 @@ def pool_worker(worker):
             return worker(payload)
         except StopIteration as error:
             raise RuntimeError('fog.clustering: worker raised StopIteration') from error
+        except Exception as error:
+            raise transferable_error(error)
 
     return wrapper
 
-- 
2.43.0


From c2d002432fe3330848af48903106793416efe173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:08 +0000
Subject: [PATCH 40/41] fix: CLI actions failed on cells larger than 128kb

---
 fog/cli/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/cli/utils.py b/fog/cli/utils.py
index eacac89..8453828 100644
--- a/fog/cli/utils.py
+++ b/fog/cli/utils.py
@@ -5,6 +5,7 @@
 # Miscellaneous helpers used by the CLI tools.
 #
 import csv
+import sys
 
 
 def custom_reader(f, target_header):
@@ -16,6 +17,9 @@ def custom_reader(f, target_header):
     if hasattr(f, 'reconfigure'):
         f.reconfigure(newline='')
 
+    # NOTE: cells can be larger than 128kb
+    csv.field_size_limit(sys.maxsize)
+
     reader = csv.reader(f)
 
     headers = next(reader, None)
-- 
2.43.0


From 7ca9d5fc2651b90c495c1c6236c25c680ac1f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:34 +0000
Subject: [PATCH 41/41] fix: SuperMinHash signatures collided on documents with
 many tokens

---
 fog/lsh/minhash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index fa3466b..5f479a6 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -192,7 +192,8 @@ class SuperMinHash(object):
 
                 j += 1
 
-        return [int(i) for i in h]
+        # NOTE: keeping only the integer part would make most values collide
+        return [int(i * MAX_UINT32) for i in h]
 
 
 class LSBMinHash(object):
-- 
2.43.0

