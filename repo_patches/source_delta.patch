From 4158d7778379eea50ca8648cf19510f57ca5df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 01/29] fix: keep count_sum in step in DirichletDiscrete
 Group::merge

Group::merge added the counts but not their sum, so score_value, score_data
and every mixture score of a merged group used the wrong denominator.
---
 include/distributions/models/dd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/distributions/models/dd.hpp b/include/distributions/models/dd.hpp
index feb81e9..ec05c23 100644
--- a/include/distributions/models/dd.hpp
+++ b/include/distributions/models/dd.hpp
@@ -155,6 +155,7 @@ struct Group : GroupMixin<Model> {
         for (Value value = 0; value < dim; ++value) {
             counts[value] += source.counts[value];
         }
+        count_sum += source.count_sum;
     }
 
     float score_value(
-- 
2.43.0


From 1d19c5c5fc7e92bef221b82e70adbe5167c58f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 02/29] fix: do not count a merged sparse counter twice

SparseCounter::merge (and dbg dpd Group.merge) added the source's counts one by
one, which already updates the total, and then added the source's total again.
---
 distributions/dbg/models/dpd.py  | 1 -
 include/distributions/sparse.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/distributions/dbg/models/dpd.py b/distributions/dbg/models/dpd.py
index 7aec7cd..22ae180 100644
--- a/distributions/dbg/models/dpd.py
+++ b/distributions/dbg/models/dpd.py
@@ -229,7 +229,6 @@ class Group(GroupIoMixin):
     def merge(self, shared, source):
         for i, count in source.counts.iteritems():
             self.add_repeated_value(shared, i, count)
-        self.total += source.total
 
     def load(self, raw):
         self.counts = {}
diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 17723a8..7939b15 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -164,7 +164,6 @@ class SparseCounter {
         for (auto & i : other.map_) {
             add(i.first, i.second);
         }
-        total_ += other.total_;
     }
 
     void rename(key_t old_key, key_t new_key) {
-- 
2.43.0


From 2535a6454a0cc2173ae1b2757022267aabf091ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 03/29] fix: NormalInverseChiSq add_repeated_value on a
 nonempty group

The update used count * value - mean as the deviation, which is right only when
the mean is zero: mean and count_times_variance were wrong (even negative)
compared with adding the value count times.
---
 distributions/dbg/models/nich.py      | 6 +++---
 distributions/hp/models/nich.pyx      | 6 +++---
 include/distributions/models/nich.hpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 69c3d0c..203f8b2 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -139,9 +139,9 @@ class Group(GroupIoMixin):
 
     def add_repeated_value(self, shared, value, count):
         self.count += count
-        delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        delta = value - self.mean
+        self.mean += count * delta / self.count
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, shared, value):
         total = self.mean * self.count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 622b296..2dbcd30 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -134,9 +134,9 @@ cdef class _Group:
 
     def add_repeated_value(self, _Shared shared, double value, int count):
         self.count += count
-        cdef double delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        cdef double delta = value - self.mean
+        self.mean += count * delta / self.count
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, _Shared shared, double value):
         cdef double total = self.mean * self.count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 1283ef3..7f2a03d 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -138,9 +138,9 @@ struct Group : GroupMixin<Model> {
             const int & count,
             rng_t &) {
         this->count += count;
-        float delta = count * value - mean;
-        mean += delta / this->count;
-        count_times_variance += delta * (value - mean);
+        float delta = value - mean;
+        mean += count * delta / this->count;
+        count_times_variance += count * delta * (value - mean);
     }
 
     void remove_value(
-- 
2.43.0


From c1b74d17571ae8dd65aac87df1cec03a846fdc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 04/29] fix: merging two empty NormalInverseChiSq groups

The merge divided zero by zero: NaN statistics in C++, ZeroDivisionError in
Python.  Merging an empty group now changes nothing.
---
 distributions/dbg/models/nich.py      | 2 ++
 distributions/hp/models/nich.pyx      | 2 ++
 include/distributions/models/nich.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 203f8b2..dc6cf12 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -157,6 +157,8 @@ class Group(GroupIoMixin):
             self.count_times_variance -= delta * (value - self.mean)
 
     def merge(self, shared, source):
+        if source.count == 0:
+            return
         count = self.count + source.count
         delta = source.mean - self.mean
         source_part = float(source.count) / count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 2dbcd30..c013670 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -152,6 +152,8 @@ cdef class _Group:
             self.count_times_variance -= delta * (value - self.mean)
 
     def merge(self, _Shared shared, _Group source):
+        if source.count == 0:
+            return
         cdef size_t count = self.count + source.count
         cdef double delta = source.mean - self.mean
         cdef double source_part = <double> source.count / count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 7f2a03d..07cc801 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -168,6 +168,9 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Group & source,
             rng_t &) {
+        if (source.count == 0) {
+            return;
+        }
         auto total_count = count + source.count;
         float delta = source.mean - mean;
         float source_part = static_cast<float>(source.count) / total_count;
-- 
2.43.0


From 5f78d76a88bc3209663fb3a412fc8850523cd7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 05/29] fix: set the dimension of a loaded lp DirichletDiscrete
 group

Group.load left the dimension of the underlying group unset, so merging into a
loaded group silently added nothing.
---
 distributions/lp/models/_dd_h.pxd | 1 +
 distributions/lp/models/dd.pyx    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/distributions/lp/models/_dd_h.pxd b/distributions/lp/models/_dd_h.pxd
index 42af5c9..11ba50a 100644
--- a/distributions/lp/models/_dd_h.pxd
+++ b/distributions/lp/models/_dd_h.pxd
@@ -42,6 +42,7 @@ cdef extern from "distributions/models/dd.hpp" namespace "distributions::Dirichl
 
 
     cppclass Group:
+        int dim
         int count_sum
         int counts[]
         void init (Shared &, rng_t &) nogil except +
diff --git a/distributions/lp/models/dd.pyx b/distributions/lp/models/dd.pyx
index f0869eb..de195db 100644
--- a/distributions/lp/models/dd.pyx
+++ b/distributions/lp/models/dd.pyx
@@ -92,6 +92,7 @@ cdef class _Group(_dd.Group):
     def load(self, dict raw):
         counts = raw['counts']
         self.dim = len(counts)
+        self.ptr.dim = self.dim
         self.ptr.count_sum = 0
         cdef int i
         for i in xrange(self.dim):
-- 
2.43.0


From b05f2b4b609b9da5d2a092ac33227cf4bf7fbae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 06/29] fix: LowEntropy score_remove_value scores the state
 after the removal

---
 distributions/dbg/clustering.py      | 3 +++
 include/distributions/clustering.hpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index c576a4e..1c3aa98 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -226,6 +226,9 @@ class LowEntropy(SharedIoMixin):
         assert sample_size > 0
 
         group_size -= 1
+        if group_size == 0:
+            nonempty_group_count -= 1
+        sample_size -= 1
         return -self.score_add_value(
             group_size,
             nonempty_group_count,
diff --git a/include/distributions/clustering.hpp b/include/distributions/clustering.hpp
index b13d554..d782993 100644
--- a/include/distributions/clustering.hpp
+++ b/include/distributions/clustering.hpp
@@ -301,6 +301,11 @@ struct LowEntropy {
         }
 
         group_size -= 1;
+        if (group_size == 0) {
+            nonempty_group_count -= 1;
+        }
+        sample_size -= 1;
+
         return -score_add_value(
             group_size,
             nonempty_group_count,
-- 
2.43.0


From a685bc25ed7a7783a90b75289d4e225ce199acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 07/29] fix: LowEntropy score_counts ignores empty groups and
 scores an empty sample

---
 distributions/dbg/clustering.py | 7 +++++--
 src/clustering.cc               | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index 1c3aa98..4dbed92 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -154,15 +154,18 @@ class LowEntropy(SharedIoMixin):
         '''
         score = 0.0
         sample_size = 0
+        nonempty_group_count = 0
         for count in counts:
+            if count:
+                nonempty_group_count += 1
             sample_size += count
             if count > 1:
                 score += count * log(count)
         assert sample_size <= self.dataset_size
 
-        if sample_size != self.dataset_size:
+        if sample_size and sample_size != self.dataset_size:
             log_factor = self._approximate_postpred_correction(sample_size)
-            score += log_factor * (len(counts) - 1)
+            score += log_factor * (nonempty_group_count - 1)
             score += self._approximate_dataprob_correction(sample_size)
         score -= self.log_partition_function(sample_size)
         return score
diff --git a/src/clustering.cc b/src/clustering.cc
index 8578081..3aedbb7 100644
--- a/src/clustering.cc
+++ b/src/clustering.cc
@@ -230,7 +230,11 @@ float Clustering<count_t>::LowEntropy::score_counts(
         const std::vector<count_t> & counts) const {
     float score = 0.0;
     count_t sample_size = 0;
+    count_t nonempty_group_count = 0;
     for (count_t count : counts) {
+        if (count) {
+            nonempty_group_count += 1;
+        }
         sample_size += count;
         if (count > 1) {
             score += count * fast_log(count);
@@ -238,9 +242,9 @@ float Clustering<count_t>::LowEntropy::score_counts(
     }
     DIST_ASSERT_LE(sample_size, dataset_size);
 
-    if (sample_size != dataset_size) {
+    if (sample_size and sample_size != dataset_size) {
         float log_factor = _approximate_postpred_correction(sample_size);
-        score += log_factor * (counts.size() - 1);
+        score += log_factor * (nonempty_group_count - 1);
         score += _approximate_dataprob_correction(sample_size);
     }
     score -= log_partition_function(sample_size);
-- 
2.43.0


From cc1b1021e1c67b3a6c1380c5cd3c17b7173eece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 08/29] fix: sample_normal_inverse_wishart scales only the
 covariance of the mean

---
 include/distributions/random.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index c4b8e59..dbf4b66 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -253,8 +253,9 @@ inline std::pair<Vector, Matrix> sample_normal_inverse_wishart(
         const Matrix & psi,
         float nu,
         rng_t & rng) {
-    Matrix cov = 1./lambda * sample_inverse_wishart(nu, psi, rng);
-    Vector mu = sample_multivariate_normal(mu0, cov, rng);
+    Matrix cov = sample_inverse_wishart(nu, psi, rng);
+    const Matrix mu_cov = 1./lambda * cov;
+    Vector mu = sample_multivariate_normal(mu0, mu_cov, rng);
     return std::make_pair(std::move(mu), std::move(cov));
 }
 
-- 
2.43.0


From 699172a8786d8c7569744fedeee48a10127e414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 09/29] fix: field name in LowEntropy protobuf_dump

---
 distributions/lp/clustering.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/lp/clustering.pyx b/distributions/lp/clustering.pyx
index b5b89b4..01e68ef 100644
--- a/distributions/lp/clustering.pyx
+++ b/distributions/lp/clustering.pyx
@@ -388,6 +388,6 @@ class LowEntropy(LowEntropy_cy, SharedIoMixin):
     def protobuf_dump(self, message):
         dumped = self.dump()
         message.Clear()
-        message.datset_size = dumped['dataset_size']
+        message.dataset_size = dumped['dataset_size']
 
     Mixture = LowEntropyMixture
-- 
2.43.0


From a1d85b21340f0c5376d1e75ac9fa13f72a0f0427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 10/29] fix: discrete samplers never return an item of zero
 likelihood

---
 distributions/dbg/random.py      |  2 +-
 include/distributions/random.hpp | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 99706e6..2a856a0 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -82,7 +82,7 @@ def sample_discrete(probs, total=None):
         dart = numpy.random.rand() * total
         for i, prob in enumerate(probs):
             dart -= prob
-            if dart <= 0:
+            if dart < 0:
                 return i
     LOG.error(
         'imprecision in sample_discrete',
diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index dbf4b66..bcdc6bf 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -310,7 +310,13 @@ inline size_t sample_discrete(
             return i;
         }
     }
-    return dim - 1;
+
+    // rounding can leave t >= 0; fall back to the last possible item
+    size_t i = dim - 1;
+    while (i > 0 and not (probs[i] > 0)) {
+        --i;
+    }
+    return i;
 }
 
 template<class Alloc>
@@ -325,12 +331,17 @@ inline size_t sample_from_likelihoods(
 
     for (size_t i = 0; DIST_LIKELY(i < size); ++i) {
         t -= likelihoods[i];
-        if (DIST_UNLIKELY(t <= 0)) {
+        if (DIST_UNLIKELY(t < 0)) {
             return i;
         }
     }
 
-    return size - 1;
+    // rounding can leave t >= 0; fall back to the last possible item
+    size_t i = size - 1;
+    while (i > 0 and not (likelihoods[i] > 0)) {
+        --i;
+    }
+    return i;
 }
 
 template<class Alloc>
-- 
2.43.0


From e4964c592d8205759dda52eb875e9b455eb81b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 11/29] fix: full key range and nonnegative beta0 when loading
 lp DirichletProcessDiscrete

---
 distributions/lp/models/dpd.pyx | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/distributions/lp/models/dpd.pyx b/distributions/lp/models/dpd.pyx
index ef144cb..b874d4e 100644
--- a/distributions/lp/models/dpd.pyx
+++ b/distributions/lp/models/dpd.pyx
@@ -28,6 +28,7 @@
 cimport _dpd
 import _dpd
 
+from libc.stdint cimport uint32_t
 from cython.operator cimport dereference as deref, preincrement as inc
 from distributions.sparse_counter cimport SparseCounter, SparseFloat
 from distributions.mixins import SharedMixin, GroupIoMixin, SharedIoMixin
@@ -73,13 +74,13 @@ cdef class _Shared(_dpd.Shared):
         self.ptr.counts.clear()
         cdef dict raw_betas = raw['betas']
         cdef dict raw_counts = raw['counts']
-        cdef int value
+        cdef uint32_t value
         cdef float beta
         cdef double beta0 = 1.0
         for value, beta in raw_betas.iteritems():
             self.ptr.betas.add(int(value), beta)
             beta0 -= beta
-        self.ptr.beta0 = beta0
+        self.ptr.beta0 = max(0.0, beta0)
         cdef int count
         for value, count in raw_counts.iteritems():
             self.ptr.counts.add(int(value), count)
@@ -89,7 +90,7 @@ cdef class _Shared(_dpd.Shared):
         cdef dict counts = {}
         cdef SparseFloat.iterator it = self.ptr.betas.begin()
         cdef SparseFloat.iterator end = self.ptr.betas.end()
-        cdef int value
+        cdef uint32_t value
         while it != end:
             value = deref(it).first
             betas[value] = float(deref(it).second)
@@ -108,7 +109,7 @@ cdef class _Shared(_dpd.Shared):
         self.ptr.betas.clear()
         self.ptr.counts.clear()
         cdef int i
-        cdef int value
+        cdef uint32_t value
         cdef float beta
         cdef double beta0 = 1.0
         for i in xrange(len(message.betas)):
@@ -117,7 +118,7 @@ cdef class _Shared(_dpd.Shared):
             self.ptr.betas.add(value, beta)
             self.ptr.counts.add(value, message.counts[i])
             beta0 -= beta
-        self.ptr.beta0 = beta0
+        self.ptr.beta0 = max(0.0, beta0)
 
     def protobuf_dump(self, message):
         message.Clear()
@@ -125,7 +126,7 @@ cdef class _Shared(_dpd.Shared):
         message.alpha = self.ptr.alpha
         cdef SparseFloat.iterator it = self.ptr.betas.begin()
         cdef SparseFloat.iterator end = self.ptr.betas.end()
-        cdef int value
+        cdef uint32_t value
         while it != end:
             value = deref(it).first
             message.values.append(value)
@@ -144,7 +145,7 @@ cdef class _Group(_dpd.Group):
         cdef SparseCounter * counts = & self.ptr.counts
         counts.clear()
         cdef dict raw_counts = raw['counts']
-        cdef int value
+        cdef uint32_t value
         cdef int count
         for value, count in raw_counts.iteritems():
             counts.init_count(value, count)
-- 
2.43.0


From 9a5d269c3227987aeaa7f6becb364f7e693c3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 12/29] fix: SparseCounter: start a default-constructed counter
 with a zero total

---
 include/distributions/sparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 7939b15..d6746e5 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -120,6 +120,8 @@ class SparseCounter {
     typedef Value value_t;
     typedef typename map_t::const_iterator iterator;
 
+    SparseCounter() : total_(0) {}
+
     void clear() {
         map_.clear();
         total_ = 0;
-- 
2.43.0


From 6eaec5414c057855f82baa87bb84d6d66718a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 13/29] fix: SparseCounter::rename: keep the counts when the
 new key is refused

---
 include/distributions/sparse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index d6746e5..029febc 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -170,11 +170,11 @@ class SparseCounter {
 
     void rename(key_t old_key, key_t new_key) {
         auto i = map_.find(old_key);
-        if (i != map_.end()) {
+        if (i != map_.end() and new_key != old_key) {
             value_t value = i->second;
-            map_.erase(i);
             bool success = map_.insert(std::make_pair(new_key, value)).second;
             DIST_ASSERT1(success, "duplicate key: " << new_key);
+            map_.erase(old_key);
         }
     }
 
-- 
2.43.0


From 91a8873de736e955782ca43894c0fdb1670109ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 14/29] fix: fast_exp: 0 and inf instead of garbage outside the
 range of fmath::exp

---
 include/distributions/special.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/distributions/special.hpp b/include/distributions/special.hpp
index 1781e32..0b4134d 100644
--- a/include/distributions/special.hpp
+++ b/include/distributions/special.hpp
@@ -85,6 +85,13 @@ inline float fast_log(float x) {
 }
 
 inline float fast_exp(float x) {
+    // fmath::exp is only valid where the result is a normal float
+    if (DIST_UNLIKELY(x < -87.3f)) {
+        return 0.f;
+    }
+    if (DIST_UNLIKELY(x > 88.7f)) {
+        return std::numeric_limits<float>::infinity();
+    }
     return fmath::exp(x);
 }
 
-- 
2.43.0


From c064ada4bcea4bec4d51f603e84addfdbc537d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 15/29] fix: sample_dirichlet: pick a vertex when every gamma
 draw underflows, instead of NaN

---
 distributions/rng_cc.hpp | 21 ++++++++++++++++++++-
 src/random.cc            | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/distributions/rng_cc.hpp b/distributions/rng_cc.hpp
index 73bc413..8f75e15 100644
--- a/distributions/rng_cc.hpp
+++ b/distributions/rng_cc.hpp
@@ -27,7 +27,9 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <random>
 #include <distributions/random_fwd.hpp>
 
@@ -103,9 +105,26 @@ inline void std_random_dirichlet(
         const real_t * alphas,
         real_t * thetas)
 {
+    typedef std::bernoulli_distribution bernoulli_t;
+    const double min_total = std::numeric_limits<double>::min();
     double total = 0.0;
+    double alpha_total = 0.0;
+    size_t vertex = 0;
     for (size_t d = 0; d < D; ++d) {
-        total += thetas[d] = std_random_gamma(rng, alphas[d], 1.0);
+        const double alpha = alphas[d];  // thetas may alias alphas
+        total += thetas[d] = std_random_gamma(rng, alpha, 1.0);
+        alpha_total += alpha;
+        if (total < min_total
+                and bernoulli_t(alpha / alpha_total)(rng)) {
+            vertex = d;
+        }
+    }
+
+    if (total < min_total) {
+        // all samples underflowed; for such small alphas the distribution
+        // is concentrated on the vertices, in proportion to alpha
+        std::fill(thetas, thetas + D, real_t(0));
+        thetas[vertex] = total = 1.0;
     }
 
     double scale = 1.0 / total;
diff --git a/src/random.cc b/src/random.cc
index 7360d45..427cf54 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -25,6 +25,8 @@
 // TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE
 // USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+#include <algorithm>
+#include <limits>
 #include <distributions/random.hpp>
 #include <distributions/aligned_allocator.hpp>
 
@@ -37,14 +39,29 @@ void sample_dirichlet(
         size_t dim,
         const float * alphas,
         float * probs) {
+    const float min_total = std::numeric_limits<float>::min();
     float total = 0.f;
+    float alpha_total = 0.f;
+    size_t vertex = 0;
     for (size_t i = 0; i < dim; ++i) {
-        if (alphas[i] > 0) {
-            total += probs[i] = sample_gamma(rng, alphas[i]);
+        const float alpha = alphas[i];  // probs may alias alphas
+        if (alpha > 0) {
+            total += probs[i] = sample_gamma(rng, alpha);
+            alpha_total += alpha;
+            if (DIST_UNLIKELY(total < min_total)
+                    and sample_bernoulli(rng, alpha / alpha_total)) {
+                vertex = i;
+            }
         } else {
             probs[i] = 0;
         }
     }
+    if (DIST_UNLIKELY(total < min_total)) {
+        // all samples underflowed; for such small alphas the distribution
+        // is concentrated on the vertices, in proportion to alpha
+        std::fill(probs, probs + dim, 0.f);
+        probs[vertex] = total = 1.f;
+    }
     float scale = 1.f / total;
     for (size_t i = 0; i < dim; ++i) {
         probs[i] *= scale;
@@ -58,11 +75,24 @@ void sample_dirichlet_safe(
         float * probs,
         float min_value) {
     DIST_ASSERT(min_value >= 0, "bad bound: " << min_value);
+    const float min_total = std::numeric_limits<float>::min();
     float total = 0.f;
+    float alpha_total = 0.f;
+    size_t vertex = 0;
     for (size_t i = 0; i < dim; ++i) {
         float alpha = alphas[i] + min_value;
         DIST_ASSERT(alpha > 0, "bad alphas[" << i << "] = " << alpha);
         total += probs[i] = sample_gamma(rng, alpha);
+        alpha_total += alpha;
+        if (DIST_UNLIKELY(total < min_total)
+                and sample_bernoulli(rng, alpha / alpha_total)) {
+            vertex = i;
+        }
+    }
+    if (DIST_UNLIKELY(total < min_total)) {
+        // all samples underflowed, as in sample_dirichlet
+        std::fill(probs, probs + dim, 0.f);
+        probs[vertex] = total = 1.f;
     }
     float scale = 1.f / total / (1.f + min_value * dim);
     float shift = min_value / (1.f + min_value * dim);
-- 
2.43.0


From 02dbfb616bc5c70b3444bda43c6e342d5561cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 16/29] fix: sample_poisson, sample_negative_binomial:
 saturate, instead of hanging, when the mean exceeds the range of int

---
 include/distributions/random.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index bcdc6bf..77434b6 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -29,6 +29,7 @@
 
 #include <utility>
 #include <vector>
+#include <limits>
 #include <random>
 #include <distributions/common.hpp>
 #include <distributions/special.hpp>
@@ -75,15 +76,15 @@ inline float sample_chisq(rng_t & rng, float nu) {
 }
 
 inline int sample_poisson(rng_t & rng, float mean) {
+    // std::poisson_distribution never returns if the samples overflow
+    const int max_value = std::numeric_limits<int>::max();
+    if (DIST_UNLIKELY(mean >= static_cast<float>(max_value))) {
+        return max_value;
+    }
     std::poisson_distribution<int> sampler(mean);
     return sampler(rng);
 }
 
-inline int sample_negative_binomial(rng_t & rng, float p, int r) {
-    std::negative_binomial_distribution<int> sampler(r, p);
-    return sampler(rng);
-}
-
 inline float sample_gamma(
         rng_t & rng,
         float alpha,
@@ -96,6 +97,10 @@ inline float sample_gamma(
     return sampler(rng);
 }
 
+inline int sample_negative_binomial(rng_t & rng, float p, int r) {
+    return sample_poisson(rng, sample_gamma(rng, r, (1.f - p) / p));
+}
+
 inline float sample_beta(
         rng_t & rng,
         float alpha,
-- 
2.43.0


From 1e46a6535c5d607095148089c1fe90a49ed7f94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 17/29] fix: DirichletProcessDiscrete: do not count a value
 that is refused

---
 include/distributions/models/dpd.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/distributions/models/dpd.hpp b/include/distributions/models/dpd.hpp
index d52b9a0..c13b48e 100644
--- a/include/distributions/models/dpd.hpp
+++ b/include/distributions/models/dpd.hpp
@@ -66,7 +66,10 @@ struct Shared : SharedMixin<Model> {
     void add_value(const Value & value, rng_t & rng) {
         DIST_ASSERT1(value != OTHER(), "cannot add OTHER");
         if (DIST_UNLIKELY(counts.add(value) == 1)) {
-            DIST_ASSERT(beta0 > 0, "cannot add any more values");
+            if (DIST_UNLIKELY(not (beta0 > 0))) {
+                counts.remove(value);
+                DIST_ERROR("cannot add any more values");
+            }
             float beta = beta0 * sample_beta_safe(rng, 1.f, gamma, MIN_BETA());
             beta0 = std::max(MIN_BETA(), beta0 - beta);
             betas.add(value, beta);
-- 
2.43.0


From acbca903da89ff598bbaee543a145d25d1374327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 18/29] fix: NormalInverseWishart add_repeated_value: keep the
 scatter matrix symmetric

---
 include/distributions/models/niw.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/distributions/models/niw.hpp b/include/distributions/models/niw.hpp
index 425ff76..92c3adc 100644
--- a/include/distributions/models/niw.hpp
+++ b/include/distributions/models/niw.hpp
@@ -262,7 +262,9 @@ struct Group : GroupMixin<Model> {
         DIST_ASSERT3(shared.dim() == (size_t)value.size(), "dim mismatch");
         this->count += count;
         sum_x += count * value;
-        sum_xxT += count * (value * value.transpose());
+        // the product must be rounded before scaling, to stay symmetric
+        const Matrix xxT = value * value.transpose();
+        sum_xxT += count * xxT;
     }
 
     void remove_value(
-- 
2.43.0


From 6b21a849a6491da353330fc74ce33a816f3eacd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 19/29] fix: log_sum_exp: -inf instead of nan when every score
 is -inf

---
 include/distributions/special.hpp | 6 ++++++
 src/random.cc                     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/include/distributions/special.hpp b/include/distributions/special.hpp
index 0b4134d..ddb4267 100644
--- a/include/distributions/special.hpp
+++ b/include/distributions/special.hpp
@@ -98,6 +98,9 @@ inline float fast_exp(float x) {
 inline float fast_log_sum_exp(float x, float y) {
     float min = x < y ? x : y;
     float max = x < y ? y : x;
+    if (DIST_UNLIKELY(max <= std::numeric_limits<float>::lowest())) {
+        return max;  // both are -inf
+    }
 
     return max + fast_log(1.0f + fast_exp(min - max));
 }
@@ -105,6 +108,9 @@ inline float fast_log_sum_exp(float x, float y) {
 inline float log_sum_exp(float x, float y) {
     float min = x < y ? x : y;
     float max = x < y ? y : x;
+    if (DIST_UNLIKELY(max <= std::numeric_limits<float>::lowest())) {
+        return max;  // both are -inf
+    }
     return max + logf(1.0f + expf(min - max));
 }
 
diff --git a/src/random.cc b/src/random.cc
index 427cf54..cfb28c3 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -113,6 +113,9 @@ float log_sum_exp(const std::vector<float, Alloc> & scores) {
 
     const float * __restrict__ scores_data = scores.data();
     const float max_score = vector_max(size, scores_data);
+    if (DIST_UNLIKELY(max_score <= std::numeric_limits<float>::lowest())) {
+        return max_score;  // all scores are -inf
+    }
     float total = 0;
     for (size_t i = 0; i < size; ++i) {
         total += fast_exp(scores_data[i] - max_score);
-- 
2.43.0


From 62af2ab600f0dccedbe4d2bb4d9687fa955a8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 20/29] fix: fast_lgamma_nu: no cancellation above 2^32

---
 include/distributions/special.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/distributions/special.hpp b/include/distributions/special.hpp
index ddb4267..5e654a4 100644
--- a/include/distributions/special.hpp
+++ b/include/distributions/special.hpp
@@ -256,9 +256,12 @@ inline float fast_lgamma_nu(float nu) {
 
     // see loggamma.py:lstudent for coeff gen
 
-    if (DIST_UNLIKELY(nu < 0.0625f or 4294967295.0f <= nu)) {
+    if (DIST_UNLIKELY(nu < 0.0625f)) {
         return lgammaf(nu * 0.5f + 0.5f) - lgammaf(nu * 0.5f);
     }
+    if (DIST_UNLIKELY(4294967295.0f <= nu)) {
+        return 0.5f * logf(nu * 0.5f);  // the difference would cancel
+    }
 
     // adapted from:
     // http://www-graphics.stanford.edu/~seander/bithacks.html#IntegerLogLookup
-- 
2.43.0


From 6b2da41ba5ca921b6530c7e819fc1182277f2b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 21/29] fix: fast_log_factorial: no overflow at 2^32 - 1

---
 include/distributions/special.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/distributions/special.hpp b/include/distributions/special.hpp
index 5e654a4..466ba65 100644
--- a/include/distributions/special.hpp
+++ b/include/distributions/special.hpp
@@ -222,7 +222,7 @@ inline float fast_log_factorial(const uint32_t & n) {
     if (n < 64) {
         return detail::log_factorial_table[n];
     } else {
-        return fast_lgamma(n + 1);
+        return fast_lgamma(n + 1.f);  // n + 1 could overflow
     }
 }
 
-- 
2.43.0


From f651c75884ade4cd59de6b2b04fc17afabdc7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 22/29] fix: protobuf_stream_read: refuse a record that is cut
 off

---
 distributions/io/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distributions/io/stream.py b/distributions/io/stream.py
index dbe20a0..4361ff5 100644
--- a/distributions/io/stream.py
+++ b/distributions/io/stream.py
@@ -149,7 +149,10 @@ def protobuf_stream_read(fd):
     if len(size_str) < 4:
         raise StopIteration
     size = struct.unpack('<I', size_str)[0]
-    return fd.read(size)
+    item = fd.read(size)
+    if len(item) < size:
+        raise IOError('Truncated protobuf stream')
+    return item
 
 
 def protobuf_stream_dump(stream, filename):
-- 
2.43.0


From f72d8986a3b207ecebbb5d7f775ea34e48a8f0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 23/29] fix: lp GammaPoisson and BetaNegativeBinomial declared
 unsigned values and sums as int

Sums of 2^31 and more were dumped as negative numbers and values of 2^31
and more, which the C++ models allow, were refused.
---
 distributions/lp/models/_bnb_h.pxd | 6 +++---
 distributions/lp/models/_gp_h.pxd  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distributions/lp/models/_bnb_h.pxd b/distributions/lp/models/_bnb_h.pxd
index 89a091e..271d95f 100644
--- a/distributions/lp/models/_bnb_h.pxd
+++ b/distributions/lp/models/_bnb_h.pxd
@@ -32,7 +32,7 @@ from distributions.lp.vector cimport VectorFloat
 from distributions.sparse_counter cimport SparseCounter
 
 
-ctypedef int Value
+ctypedef unsigned Value
 
 
 cdef extern from "distributions/models/bnb.hpp" namespace "distributions::BetaNegativeBinomial":
@@ -43,8 +43,8 @@ cdef extern from "distributions/models/bnb.hpp" namespace "distributions::BetaNe
 
 
     cppclass Group:
-        int count
-        int sum
+        unsigned count
+        unsigned sum
         void init (Shared &, rng_t &) nogil except +
         void add_value (Shared &, Value &, rng_t &) nogil except +
         void add_repeated_value (Shared &, Value &, int &, rng_t &) nogil except +
diff --git a/distributions/lp/models/_gp_h.pxd b/distributions/lp/models/_gp_h.pxd
index 9e4f6da..9cdf264 100644
--- a/distributions/lp/models/_gp_h.pxd
+++ b/distributions/lp/models/_gp_h.pxd
@@ -32,7 +32,7 @@ from distributions.lp.vector cimport VectorFloat
 from distributions.sparse_counter cimport SparseCounter
 
 
-ctypedef int Value
+ctypedef unsigned Value
 
 
 cdef extern from "distributions/models/gp.hpp" namespace "distributions::GammaPoisson":
@@ -42,8 +42,8 @@ cdef extern from "distributions/models/gp.hpp" namespace "distributions::GammaPo
 
 
     cppclass Group:
-        int count
-        int sum
+        unsigned count
+        unsigned sum
         float log_prod
         void init (Shared &, rng_t &) nogil except +
         void add_value (Shared &, Value &, rng_t &) nogil except +
-- 
2.43.0


From 4682bc04ad0dff4f7fd5ce333d43557bec87b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 24/29] fix: multinomial_goodness_of_fit: Pearson's statistic,
 with the bin beyond a truncation

---
 distributions/util.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/distributions/util.py b/distributions/util.py
index 40af6a9..0ca6d03 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -84,15 +84,21 @@ def multinomial_goodness_of_fit(
             variance = total_count * p * (1 - p)
             assert variance > 1,\
                 'WARNING goodness of fit is inaccurate; use more samples'
-            chi_squared += (c - mean) ** 2 / variance
+            chi_squared += (c - mean) ** 2 / mean
             dof += 1
         else:
             print 'WARNING zero probability in goodness-of-fit test'
             if c > 0:
                 return float('inf')
 
-    if not truncated:
-        dof -= 1
+    if truncated:
+        # everything beyond the truncation is one more bin
+        rest = total_count - sum(counts)
+        mean = total_count * (1 - sum(probs))
+        if mean > 1:
+            chi_squared += (rest - mean) ** 2 / mean
+            dof += 1
+    dof -= 1
 
     survival = scipy.stats.chi2.sf(chi_squared, dof)
     return survival
-- 
2.43.0


From 311c236632b5828740df41b2933baace7fa1b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 25/29] fix: multinomial_goodness_of_fit: an impossible outcome
 has p-value 0, not infinity

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index 0ca6d03..5a24848 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -89,7 +89,7 @@ def multinomial_goodness_of_fit(
         else:
             print 'WARNING zero probability in goodness-of-fit test'
             if c > 0:
-                return float('inf')
+                return 0.0
 
     if truncated:
         # everything beyond the truncation is one more bin
-- 
2.43.0


From 83d0089baa888b8101356d20b1b9353e960e6eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 26/29] fix: discrete_goodness_of_fit: do not choose among
 equal probabilities by count

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index 5a24848..ffe3500 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -156,7 +156,7 @@ def discrete_goodness_of_fit(
         assert sample in probs_dict
         counts[sample] += 1
     items = [(prob, counts.get(i, 0)) for i, prob in probs_dict.iteritems()]
-    items.sort(reverse=True)
+    items.sort(key=lambda item: item[0], reverse=True)
     truncated = (truncate_beyond and truncate_beyond < len(items))
     if truncated:
         items = items[:truncate_beyond]
-- 
2.43.0


From b86eb1836f2281efb2d18a767f44b4fde82683b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 27/29] fix: scores_to_probs: integer scores

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index ffe3500..9dd8d9d 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -31,7 +31,7 @@ from collections import defaultdict
 
 
 def scores_to_probs(scores):
-    scores = numpy.array(scores)
+    scores = numpy.array(scores, dtype=float)
     scores -= scores.max()
     probs = numpy.exp(scores, out=scores)
     probs /= probs.sum()
-- 
2.43.0


From c4beeb44e76b6cad4d13f56f825e953bb0112e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 28/29] fix: unif01_goodness_of_fit: a sample of 1.0 is in the
 last bin (and no numpy aliases that are gone)

---
 distributions/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distributions/util.py b/distributions/util.py
index 9dd8d9d..df6c5be 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -113,10 +113,10 @@ def unif01_goodness_of_fit(samples, plot=False):
     assert samples.max() <= 1.0
     bin_count = int(round(len(samples) ** 0.333))
     assert bin_count >= 7, 'WARNING imprecise test, use more samples'
-    probs = numpy.ones(bin_count, dtype=numpy.float) / bin_count
-    counts = numpy.zeros(bin_count, dtype=numpy.int)
+    probs = numpy.ones(bin_count, dtype=float) / bin_count
+    counts = numpy.zeros(bin_count, dtype=int)
     for sample in samples:
-        counts[int(bin_count * sample)] += 1
+        counts[min(int(bin_count * sample), bin_count - 1)] += 1
     return multinomial_goodness_of_fit(probs, counts, len(samples), plot=plot)
 
 
-- 
2.43.0


From 08b0c6b350b3a677c949e49bfffc5a6cf694944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 29/29] fix: print_histogram: no counts at all

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index df6c5be..73bebd1 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -49,7 +49,7 @@ def score_to_empirical_kl(score, count):
 
 def print_histogram(probs, counts):
     WIDTH = 60.0
-    max_count = max(counts)
+    max_count = max(max(counts), 1)
     print '{: >8} {: >8}'.format('Prob', 'Count')
     for prob, count in sorted(zip(probs, counts), reverse=True):
         width = int(round(WIDTH * count / max_count))
-- 
2.43.0

