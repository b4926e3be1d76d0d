From 064420fe451f62158a37f0b22574411c95c34660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 01/26] fix: hyperbolic generator waits forever if there are no
 tasks to distribute

---
 .../include/hypergirgs/HyperbolicTree.inl     | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index ebd2770..7c7f4bc 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -99,17 +99,20 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
 
     // 1. Phase
         // one thread will generate the task list
-        if (tid + 1 == num_threads && first_parallel_level < m_levels) {
-            ScopedTimer timer("Gen Tasks", m_profile);
-            tasks.reserve(num_tasks);
+        if (tid + 1 == num_threads) {
+            // if the recursion ends before first_parallel_level, there are no tasks
+            if (first_parallel_level < m_levels) {
+                ScopedTimer timer("Gen Tasks", m_profile);
+                tasks.reserve(num_tasks);
 
-            visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
+                visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
 
-            // In spirit of the LPT scheduling, we place expensive tasks to be processed first
-            std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
-                return t.cellA == t.cellB;});
+                // In spirit of the LPT scheduling, we place expensive tasks to be processed first
+                std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
+                    return t.cellA == t.cellB;});
 
-            assert(num_tasks == tasks.size());
+                assert(num_tasks == tasks.size());
+            }
 
             // inform consumers that tasks are ready
             {
-- 
2.43.0


From 4722cf918a41b4b55411cbc89f2b6c0d3e88f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 02/26] fix: unsynchronised read of the task hand-over flag in
 the hyperbolic generator

---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 7c7f4bc..86e2728 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -127,7 +127,7 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
             visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid]);
 
             // wait until tasks are ready
-            if (!tasks_generated) {
+            {
                 std::unique_lock<std::mutex> lock(mutex);
                 cv.wait(lock, [&] {return tasks_generated;});
             }
-- 
2.43.0


From 28fbaf6cb687f3b60d8b7851a0c7f463109f01e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 03/26] fix: hyperbolic generator loses work and hangs if
 OpenMP delivers a smaller team

---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 86e2728..5423465 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -96,10 +96,11 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
     {
 
         const auto tid = omp_get_thread_num();
+        const auto team_size = omp_get_num_threads(); // may be less than requested
 
     // 1. Phase
         // one thread will generate the task list
-        if (tid + 1 == num_threads) {
+        if (tid + 1 == team_size) {
             // if the recursion ends before first_parallel_level, there are no tasks
             if (first_parallel_level < m_levels) {
                 ScopedTimer timer("Gen Tasks", m_profile);
@@ -123,8 +124,10 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
         }
 
         // all others will sample the cells in the first levels of the recursion tree
-        if (tid + 1 < num_threads) {
-            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid]);
+        if (tid + 1 < team_size || team_size == 1) {
+            // the work is always split into num_threads - 1 shares, so the result does not depend on the team size
+            for (int share = tid; share < num_threads - 1; share += std::max(1, team_size - 1))
+                visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, share, gens[share]);
 
             // wait until tasks are ready
             {
-- 
2.43.0


From 93002b3f7162988d880fe7216ad66e96238b60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 04/26] fix: data race between neighbouring chunks when
 repairing gaps of the cell prefix sums

---
 source/girgs/include/girgs/SpatialTree.inl | 3 +++
 source/hypergirgs/source/RadiusLayer.cpp   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 90579ce..d1bd72b 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -432,7 +432,10 @@ std::vector<WeightLayer<D>> SpatialTree<D, EdgeCallback>::buildPartition(const s
 
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
+            // the right-most element has been fixed above and is read by the owner of the previous chunk;
+            // its right neighbour belongs to the next chunk and must not be read here
             auto i = std::min(max_cell_id, begin + chunk_size);
+            if (i > begin) --i;
             while (i-- > begin) {
                 m_first_in_cell[i] = std::min(
                     m_first_in_cell[i],
diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index c2eb30c..aed61ee 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -155,7 +155,10 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
 
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
+            // the right-most element has been fixed above and is read by the owner of the previous chunk;
+            // its right neighbour belongs to the next chunk and must not be read here
             auto i = std::min(max_cell_id, begin + chunk_size);
+            if (i > begin) --i;
             while (i-- > begin) {
                 first_in_cell[i] = std::min(
                     first_in_cell[i],
-- 
2.43.0


From c7cd28e31b4755cee8208ae738771dda67f0d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 05/26] fix: distance filter connects too many pairs if the
 probability at distance zero is small

---
 source/hypergirgs/include/hypergirgs/DistanceFilter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/include/hypergirgs/DistanceFilter.h b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
index b0e830b..7e547cf 100644
--- a/source/hypergirgs/include/hypergirgs/DistanceFilter.h
+++ b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <limits>
@@ -62,7 +63,7 @@ private:
     /// inverse of the edge probability function
     /// invConnectionProb(p_uv) = dist_uv
     double invConnectionProb(double p, double R, double T) const {
-        return R + 2*T*std::log(1.0 / p - 1);
+        return std::max(0.0, R + 2*T*std::log(1.0 / p - 1)); // even at distance 0 the probability may stay below p
     }
 
     std::array<double, stages+1> filter_stages; ///< pos i holds the cosh(distance) at which to points would have a connection prob of (i/stages)
-- 
2.43.0


From b1907294f7c376a4625279b1d005f5d4b9f622b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 06/26] fix: integer sort loses elements whose key is max_key
 if max_key is a power of two

---
 source/girgs/include/girgs/IntSort.h           | 2 +-
 source/hypergirgs/include/hypergirgs/IntSort.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/girgs/include/girgs/IntSort.h b/source/girgs/include/girgs/IntSort.h
index c0df6f0..ac023ab 100644
--- a/source/girgs/include/girgs/IntSort.h
+++ b/source/girgs/include/girgs/IntSort.h
@@ -57,7 +57,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{ilog2(max_key) + (max_key > 0 && (max_key & (max_key - 1)) == 0)}, // a power of two needs one bit more than its logarithm
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
diff --git a/source/hypergirgs/include/hypergirgs/IntSort.h b/source/hypergirgs/include/hypergirgs/IntSort.h
index c0df6f0..ac023ab 100644
--- a/source/hypergirgs/include/hypergirgs/IntSort.h
+++ b/source/hypergirgs/include/hypergirgs/IntSort.h
@@ -57,7 +57,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{ilog2(max_key) + (max_key > 0 && (max_key & (max_key - 1)) == 0)}, // a power of two needs one bit more than its logarithm
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
-- 
2.43.0


From 5dec7882ac47325452c759cfc2a05f237b0726c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 07/26] fix: weight scaling subtracts a self pair that was
 never added

---
 source/girgs/source/WeightScaling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 6147096..9473877 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -136,7 +136,7 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
 
             error += w2sum * pow2c * fac - (std::distance(sweights.cbegin(), w2));
 
-            if (w2 >= w1) {
+            if (w2 > w1) {
                 // we have to subtract the self-contribution of x == y
                 error -= pow2c * fac * (*w1) - 1.0;
             }
@@ -251,7 +251,7 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
             w_terms       += sweights[i1]    * w2_sum       / W;
             w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
 
-            if (i2 >= i1) {
+            if (i2 > i1) {
                 num_terms--;
                 w_terms       -= sweights[i1]    * sweights[i1]    / W;
                 w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
-- 
2.43.0


From 5dc5c5fb72be478714ce0748e4fa0a46b7ba0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 08/26] fix: genhrg crashes for alpha = 0.5, where the disk
 radius is infinite

---
 README.md                  | 2 +-
 source/cli/genhrg/main.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 5bc9c6b..29ce914 100644
--- a/README.md
+++ b/README.md
@@ -107,7 +107,7 @@ The HRG generator features the following input parameters.
 ./genhrg --help
 usage: ./genhrg
 		[-n anInt]          // number of nodes                          default 10000
-		[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75
+		[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75
 		[-t aFloat]         // temperature parameter    range [0,1)     default 0
 		[-deg aFloat]       // average degree           range [1,n)     default 10
 		[-rseed anInt]      // radii seed                               default 12
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index d0eedcb..996c491 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -55,7 +55,7 @@ int main(int argc, char* argv[]) {
     if (argc < 2 || 0 == strcmp(argv[1], "--help") || 0 == strcmp(argv[1], "-help")) {
         clog << "usage: ./genhrg\n"
             << "\t\t[-n anInt]          // number of nodes                          default 10000\n"
-            << "\t\t[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75\n"
+            << "\t\t[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75\n"
             << "\t\t[-t aFloat]         // temperature parameter    range [0,1)     default 0\n"
             << "\t\t[-deg aFloat]       // average degree           range [1,n)     default 10\n"
             << "\t\t[-rseed anInt]      // radii seed                               default 12\n"
@@ -98,7 +98,7 @@ int main(int argc, char* argv[]) {
     // log params and range checks
     cout << "using:\n";
     logParam(n, "n");
-    rangeCheck(alpha, 0.5, 1.0, "alpha");
+    rangeCheck(alpha, 0.5, 1.0, "alpha", true);
     rangeCheck(T, 0.0, 1.0, "t", false, true);
     rangeCheck(deg, 1.0, n-1.0, "deg");
     logParam(rseed, "rseed");
-- 
2.43.0


From 2accccb01312e3108340ce99a195636fa2e80c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 09/26] fix: command line tools accept NaN for range-checked
 parameters

---
 source/cli/gengirg/main.cpp | 2 +-
 source/cli/genhrg/main.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cli/gengirg/main.cpp b/source/cli/gengirg/main.cpp
index 8dfc6b9..299649e 100644
--- a/source/cli/gengirg/main.cpp
+++ b/source/cli/gengirg/main.cpp
@@ -40,7 +40,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) {
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index 996c491..f698a69 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -39,7 +39,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) {
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
-- 
2.43.0


From 3ff98a861405b8d8fa2851285e7f67cafafbd5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 10/26] fix: output files that could not be written completely
 are reported as success

---
 source/cli/gengirg/main.cpp       | 2 ++
 source/cli/genhrg/main.cpp        | 4 ++++
 source/girgs/source/Generator.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/source/cli/gengirg/main.cpp b/source/cli/gengirg/main.cpp
index 299649e..6db67b4 100644
--- a/source/cli/gengirg/main.cpp
+++ b/source/cli/gengirg/main.cpp
@@ -156,6 +156,8 @@ int main(int argc, char* argv[]) {
         f << n << ' ' << edges.size() << "\n\n";
         for(auto& each : edges)
             f << each.first << ' ' << each.second << '\n';
+        f.close();
+        if(!f) throw std::runtime_error{"Error: failed to write file \"" + file + ".txt\""};
         auto t7 = high_resolution_clock::now();
         cout << "done in " << duration_cast<milliseconds>(t7 - t6).count() << "ms" << endl;
     }
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index f698a69..fb54538 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -142,6 +142,8 @@ int main(int argc, char* argv[]) {
         f << n << ' ' << edges.size() << "\n\n";
         for(auto& each : edges)
             f << each.first << ' ' << each.second << '\n';
+        f.close();
+        if(!f) throw std::runtime_error{"Error: failed to write file \"" + file + ".txt\""};
         auto t7 = high_resolution_clock::now();
         cout << "done in " << duration_cast<milliseconds>(t7 - t6).count() << "ms" << endl;
     }
@@ -154,6 +156,8 @@ int main(int argc, char* argv[]) {
         f << std::fixed << std::setprecision(std::numeric_limits<double>::max_digits10);
         for(auto i{0u}; i<n; ++i)
             f << radii[i]  << ' ' << angles[i] << '\n';
+        f.close();
+        if(!f) throw std::runtime_error{"Error: failed to write file \"" + file + ".hyp\""};
         auto t7 = high_resolution_clock::now();
         cout << "done in " << duration_cast<milliseconds>(t7 - t6).count() << "ms" << endl;
     }
diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index f0bc66c..544e111 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -138,6 +138,9 @@ void saveDot(const std::vector<double> &weights, const std::vector<std::vector<d
     for (auto &edge : graph)
         f << '\t' << edge.first << "\t-- " << edge.second << ";\n";
     f << "}\n";
+    f.close();
+    if(!f)
+        throw std::runtime_error{"Error: failed to write file \"" + file + '\"'};
 }
 
 } // namespace girgs
-- 
2.43.0


From 60255638a86dff4093816498496e2177ef21140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 11/26] fix: NetworKit radius search fails or does not end if
 its lower bound is not below the solution

At temperature 0 the expected degree as a function of R first rises from 0 and then falls, and it is bounded. If the
initial lower bound lies on the rising part, or if no radius gives the desired degree, the bisection never ended
(assertion failure in debug builds). Start from the maximum in that case and report a missing solution.
---
 source/hypergirgs/source/Generator.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index ddf488d..c5779b9 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -5,6 +5,8 @@
 #include <fstream>
 #include <cmath>
 #include <mutex>
+#include <stdexcept>
+#include <cassert>
 
 #include <omp.h>
 
@@ -36,7 +38,21 @@ static double searchTargetRadiusForColdGraphs(double n, double k, double alpha,
     double currentR = 2*log(n / v);
     double lowerBound = currentR/2;
     double upperBound = currentR*2;
-    assert(getExpectedDegree(n, alpha, lowerBound) > k);
+    if (!(getExpectedDegree(n, alpha, lowerBound) > k)) {
+        // the expected degree first rises and then falls with R; lowerBound is not on the falling part left of the solution,
+        // so use the maximum instead, which lies in [0, currentR]
+        lowerBound = 0.0;
+        auto right = currentR;
+        for (int i = 0; i < 200; ++i) {
+            const auto third = (right - lowerBound) / 3;
+            if (getExpectedDegree(n, alpha, lowerBound + third) < getExpectedDegree(n, alpha, right - third))
+                lowerBound += third;
+            else
+                right -= third;
+        }
+        if (!(getExpectedDegree(n, alpha, lowerBound) >= k))
+            throw std::runtime_error{"Error: no radius results in the desired average degree"};
+    }
     assert(getExpectedDegree(n, alpha, upperBound) < k);
     do {
         currentR = (lowerBound + upperBound)/2;
-- 
2.43.0


From 0408fc297238f76a2c9b65fdc83919d2d767287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 12/26] fix: NetworKit radius search does not end for alpha
 very close to 0.5

The rounding error of the expected degree can exceed the accepted error there. Stop when the interval cannot be halved.
---
 source/hypergirgs/source/Generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index c5779b9..f2afc4d 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -56,6 +56,8 @@ static double searchTargetRadiusForColdGraphs(double n, double k, double alpha,
     assert(getExpectedDegree(n, alpha, upperBound) < k);
     do {
         currentR = (lowerBound + upperBound)/2;
+        if (currentR == lowerBound || currentR == upperBound)
+            break; // for alpha close to 0.5, rounding errors of the expected degree may exceed epsilon
         double currentK = getExpectedDegree(n, alpha, currentR);
         // std::cout << "n: " << n << " k: " << k << " alpha: " << alpha << " curK: " << currentK << " R: " << currentR << std::endl;
         if (currentK < k) {
-- 
2.43.0


From 2209ea6bc4f6c418a723c52abb0570e6d754f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 13/26] fix: disk radius is NaN for more than 2^30 nodes
 (integer overflow)

---
 source/hypergirgs/source/Generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index f2afc4d..3fcefca 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -17,7 +17,7 @@ namespace hypergirgs {
 
 
 double calculateRadius(int n, double alpha, double T, double deg) {
-    return 2 * log(n * 2 * alpha * alpha * (T == 0 ? 1 / PI : T / sin(PI * T)) /
+    return 2 * log(n * 2.0 * alpha * alpha * (T == 0 ? 1 / PI : T / sin(PI * T)) /
                    (deg * (alpha - 0.5) * (alpha - 0.5)));
 }
 
-- 
2.43.0


From 40a9bb983e452966f45a8afe93bd32a36efa8270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 14/26] fix: weight scaling loses all digits for heavy-tailed
 weights and large alpha

The expected degree was computed as the sum of q and q^alpha over all pairs,
corrected for pairs with q >= 1 afterwards. For hubs q^alpha exceeds the degree
by so many orders of magnitude that nothing of it is left: n=10000, ple=2.1,
alpha=8 ends up with a scaling factor around 1e35 or does not end. Sum up the
pairs with q < 1 directly.
---
 source/girgs/source/WeightScaling.cpp | 139 +++++++++++---------------
 1 file changed, 57 insertions(+), 82 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 9473877..9bddaf6 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -165,105 +165,80 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
 double estimateWeightScaling(const std::vector<double> &weights, double desiredAvgDegree, int dimension, double alpha) {
     assert(alpha != 1.0); // somehow breaks for alpha 1.0
 
-    // compute some constant stuff
-    auto W = std::accumulate(weights.begin(), weights.end(), 0.0);
-    auto sum_sq_w = 0.0; // sum_{v\in V} (w_v^2/W)
-    auto sum_w_a = 0.0; // sum_{v\in V} (w_v  /W)^\alpha
-    auto sum_sq_w_a = 0.0; // sum_{v\in V} (w_v^2/W)^\alpha
-
-    //   sum_{u\in V} sum_{v\in V} (wu*wv/W)^\alpha
-    // = sum_{u\in V} sum_{v\in V} wu^\alpha * (wv/W)^\alpha
-    // = sum_{u\in V} wu^\alpha sum_{v\in V} (wv/W)^\alpha
-    auto sum_wwW_a = 0.0;
-    auto max_w = 0.;
+    // The expected degree is (1/n) * sum_{u != v} p_uv with p_uv = 1 if q >= 1 and p_uv = (alpha*q - q^alpha) / (alpha-1) otherwise,
+    // where q = 2^d * c^{1/alpha} * w_u*w_v/W. We do not sum up the second case for all pairs to correct it for those with q >= 1
+    // afterwards, because q^alpha can be so large for pairs of heavy nodes that all digits of the sum are lost.
+    const auto W = std::accumulate(weights.begin(), weights.end(), 0.0);
+    const auto max_w = *std::max_element(weights.begin(), weights.end());
     const auto n = static_cast<int>(weights.size());
 
-    // this loop causes >= 70% of runtime
-    std::vector<double> sweights(n);
+    std::vector<double> sweights(weights);
     LazySorter lazy_sorter(sweights);
-    {
-#ifndef _MSC_VER
-        #pragma omp parallel for reduction(+:sum_sq_w, sum_w_a, sum_sq_w_a, sum_wwW_a), reduction(max:max_w)
-#endif
-        for (int i = 0; i < n; ++i) {
-            const auto each = weights[i];
-            sweights[i] = each; // copy in parallel
 
-            const auto each_W = each / W;
-            const auto pow_each = pow(each, alpha);
-            const auto pow_each_W = pow(each / W, alpha);
+    // The first num_sorted weights are sorted in descending order and contain the rich club.
+    // For them we have the powers and the sums of sweights[i..num_sorted) and of pow_weights[i..num_sorted).
+    int num_sorted = -1;
+    std::vector<double> pow_weights, suffix_w, suffix_w_a;
 
-            sum_sq_w += each * each_W;
-            sum_wwW_a += pow_each;
-            sum_w_a += pow_each_W;
-            sum_sq_w_a += pow_each * pow_each_W;
-            max_w = std::max(each, max_w);
-        }
-    }
-    sum_wwW_a *= sum_w_a;
-    const auto max_w_W = max_w / W;
+    // sums over all other weights
+    auto rest_w = 0.0, rest_sq_w = 0.0, rest_w_a = 0.0, rest_sq_w_a = 0.0;
 
-    const auto factor1 = (W - sum_sq_w) * (1 + 1 / (alpha - 1)) * (1 << dimension);
-    const auto factor2 = pow(2, alpha * dimension) / (alpha - 1) * (sum_wwW_a - sum_sq_w_a);
+    auto update_sums = [&] (int new_num_sorted) {
+        num_sorted = new_num_sorted;
 
-    const auto W_alpha = std::pow(W, alpha);
+        while (pow_weights.size() < static_cast<size_t>(num_sorted))
+            pow_weights.push_back(std::pow(sweights[pow_weights.size()], alpha));
 
-    // pow_weights[i] = std::pow(sweights[i], alpha) for all elements of the rich club
-    std::vector<double> pow_weights;
+        suffix_w.assign(num_sorted + 1, 0.0);
+        suffix_w_a.assign(num_sorted + 1, 0.0);
+        for (auto i = num_sorted; i-- > 0; ) {
+            suffix_w[i]   = suffix_w[i + 1]   + sweights[i];
+            suffix_w_a[i] = suffix_w_a[i + 1] + pow_weights[i];
+        }
+
+        // this loop causes most of the runtime
+        auto sum_w = 0.0, sum_sq_w = 0.0, sum_w_a = 0.0, sum_sq_w_a = 0.0;
+        #pragma omp parallel for reduction(+:sum_w, sum_sq_w, sum_w_a, sum_sq_w_a)
+        for (int i = num_sorted; i < n; ++i) {
+            const auto each = sweights[i];
+            const auto pow_each = std::pow(each, alpha);
+            sum_w      += each;
+            sum_sq_w   += each * each;
+            sum_w_a    += pow_each;
+            sum_sq_w_a += pow_each * pow_each;
+        }
+        rest_w = sum_w; rest_sq_w = sum_sq_w; rest_w_a = sum_w_a; rest_sq_w_a = sum_sq_w_a;
+    };
 
     auto f = [&] (double c) {
-        const auto long_and_short_with_error = pow(c, 1 / alpha) * factor1 - c * factor2;
+        const auto q_factor = (1 << dimension) * std::pow(c, 1 / alpha) / W; // q = q_factor * w_u*w_v
+        const auto q_factor_a = std::pow(q_factor, alpha);
 
-        const auto rich_thresh = std::exp(dimension * std::log(0.5 / std::pow(c, 1.0 / alpha / dimension)) - log(max_w_W));
-        const auto richclub_end = lazy_sorter.sort_downto(rich_thresh);
+        // a node outside of the rich club has q < 1 with all other nodes
+        const auto richclub_end = lazy_sorter.sort_downto(1.0 / q_factor / max_w);
         const auto num_richclub = static_cast<int>(std::distance(sweights.begin(), richclub_end));
+        if (num_richclub > num_sorted)
+            update_sums(num_richclub);
 
-        if (!num_richclub)
-            return long_and_short_with_error / n;
-
-        assert(num_richclub <= n);
-
-        // precompute new pows in case the richclub grew
-        pow_weights.reserve(n / num_richclub > 2 ? num_richclub : n);
-        while(pow_weights.size() < num_richclub) {
-            pow_weights.push_back(std::pow(sweights[pow_weights.size()], alpha));
-        }
-
-        // get error for long and short edges
-        const auto thresh = std::exp( (std::log(0.5) * dimension - std::log(c) / alpha) );
+        // sums of q and q^alpha over all pairs with q < 1, and the number of the others
+        auto q_sum = rest_w * rest_w - rest_sq_w;
+        auto q_a_sum = rest_w_a * rest_w_a - rest_sq_w_a;
+        auto num_short = 0.0;
 
         int i2 = 0;
-        auto w2_sum       = 0.0;
-        long double w2_alpha_sum = 0.0;
-
-        auto w_terms = 0.0;
-        auto w_alpha_terms = 0.0;
-        size_t num_terms = 0;
-
-        for(auto i1 = num_richclub; i1-- > 0; ) {
-            const auto my_thres = thresh * W / sweights[i1];
-            for (; i2 < num_richclub && sweights[i2] >= my_thres; ++i2) {
-                w2_sum       += sweights[i2];
-                w2_alpha_sum += pow_weights[i2];
-            }
-
-            num_terms     += i2;
-            w_terms       += sweights[i1]    * w2_sum       / W;
-            w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
-
-            if (i2 > i1) {
-                num_terms--;
-                w_terms       -= sweights[i1]    * sweights[i1]    / W;
-                w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
-            }
+        for (auto i1 = num_sorted; i1-- > 0; ) {
+            const auto my_thres = 1.0 / q_factor / sweights[i1];
+            while (i2 < num_sorted && sweights[i2] >= my_thres)
+                ++i2;
+
+            // pairs with a node outside are counted in both directions here
+            const auto self = i1 >= i2; // the pair of the node with itself is part of the sums
+            q_sum   += sweights[i1]    * (suffix_w[i2]   - (self ? sweights[i1]    : 0.0) + 2 * rest_w);
+            q_a_sum += pow_weights[i1] * (suffix_w_a[i2] - (self ? pow_weights[i1] : 0.0) + 2 * rest_w_a);
+            num_short += self ? i2 : i2 - 1;
         }
 
-        auto short_error = (1 << dimension) * pow(c, 1 / alpha) * w_terms - num_terms;
-        auto long_error = c * dimension * (1 << dimension) / (dimension - alpha * dimension) *
-            (std::pow(0.5, dimension - alpha * dimension) * w_alpha_terms -
-                std::pow(c, 1.0 / alpha - 1.0) * w_terms);
-
-        return (long_and_short_with_error - short_error - long_error) / n;
+        return (num_short + (alpha * q_factor * q_sum - q_factor_a * q_a_sum) / (alpha - 1)) / n;
     };
 
     // do exponential search on avg_degree function
-- 
2.43.0


From 519bdc76bd9a09531dd2653b5a7c8243520d7e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 15/26] fix: integer sort with 64-bit keys fails an assertion
 if max_key exceeds 2^63

---
 source/girgs/include/girgs/IntSort.h           | 4 ++--
 source/hypergirgs/include/hypergirgs/IntSort.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/girgs/include/girgs/IntSort.h b/source/girgs/include/girgs/IntSort.h
index ac023ab..533d0f2 100644
--- a/source/girgs/include/girgs/IntSort.h
+++ b/source/girgs/include/girgs/IntSort.h
@@ -32,8 +32,8 @@ uint32_t ilog2(T x) {
 
     i += (input > (1llu << i));
 
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
+    assert(i == 64 || (1llu << i) >= input);
+    assert(i == 0 || (1llu << (i - 1)) < input);
 
     return i;
 }
diff --git a/source/hypergirgs/include/hypergirgs/IntSort.h b/source/hypergirgs/include/hypergirgs/IntSort.h
index ac023ab..533d0f2 100644
--- a/source/hypergirgs/include/hypergirgs/IntSort.h
+++ b/source/hypergirgs/include/hypergirgs/IntSort.h
@@ -32,8 +32,8 @@ uint32_t ilog2(T x) {
 
     i += (input > (1llu << i));
 
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
+    assert(i == 64 || (1llu << i) >= input);
+    assert(i == 0 || (1llu << (i - 1)) < input);
 
     return i;
 }
-- 
2.43.0


From dedf498b85091592ec54610445fa8b4550e3d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 16/26] fix: assertions fail if W/w0^2 is a power of two

---
 source/girgs/include/girgs/SpatialTree.inl | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index d1bd72b..c976f53 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -242,7 +242,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
     const auto cell_distance = CoordinateHelper::dist(cellA, cellB, level);
     const auto dist_lower_bound = pow_to_the<D>(cell_distance);
     const auto max_connection_prob = std::min(std::pow(w_upper_bound/dist_lower_bound, m_alpha), 1.0);
-    assert(dist_lower_bound > w_upper_bound); // in threshold model we would not sample anything
+    assert(dist_lower_bound * (1.0 + 1e-12) >= w_upper_bound); // in threshold model we would not sample anything (equal if W/w0^2 is a power of two)
     const auto num_pairs = sizeV_i_A * sizeV_j_B;
     const auto expected_samples = num_pairs * max_connection_prob;
 
@@ -307,8 +307,9 @@ unsigned int SpatialTree<D, EdgeCallback>::weightLayerTargetLevel(int layer) con
         auto volume_requested  = m_w0*m_w0*std::pow(2,layer+1)/m_W; // v(i) = w0*wi/W
         auto volume_current    = std::pow(2.0, -(result+0.0)*D); // in paper \mu with v <= \mu < O(v)
         auto volume_one_deeper = std::pow(2.0, -(result+1.0)*D);
-        assert(volume_requested <= volume_current || volume_requested >= 1.0); // current level has more volume than requested
-        assert(volume_requested >  volume_one_deeper);    // but is the smallest such level
+        // W/w0^2 may be a power of two up to rounding
+        assert(volume_requested <= volume_current * (1.0 + 1e-12) || volume_requested >= 1.0); // current level has more volume than requested
+        assert(volume_requested * (1.0 + 1e-12) >  volume_one_deeper);    // but is the smallest such level
     }
 #endif // NDEBUG
     return static_cast<unsigned int>(result);
@@ -328,8 +329,9 @@ unsigned int SpatialTree<D, EdgeCallback>::partitioningBaseLevel(int layer1, int
         auto volume_requested  = m_w0*std::pow(2,layer1+1) * m_w0*std::pow(2,layer2+1) / m_W; // v(i,j) = wi*wj/W
         auto volume_current    = std::pow(2.0, -(result+0.0)*D); // in paper \mu with v <= \mu < O(v)
         auto volume_one_deeper = std::pow(2.0, -(result+1.0)*D);
-        assert(volume_requested <= volume_current || volume_requested >= 1.0); // current level has more volume than requested
-        assert(volume_requested >  volume_one_deeper);    // but is the smallest such level
+        // W/w0^2 may be a power of two up to rounding
+        assert(volume_requested <= volume_current * (1.0 + 1e-12) || volume_requested >= 1.0); // current level has more volume than requested
+        assert(volume_requested * (1.0 + 1e-12) >  volume_one_deeper);    // but is the smallest such level
     }
 #endif // NDEBUG
     return static_cast<unsigned int>(result);
-- 
2.43.0


From 7b6ab0deebe1f93aa6c5ecce38b888d87009aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 17/26] fix: points are put into a layer that does not exist if
 R - radius is rounded up

---
 source/hypergirgs/source/RadiusLayer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index aed61ee..acd29d9 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -45,11 +45,17 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
     const auto n = radii.size();
 
     // translate radius <-> layer
-    auto radius_to_layer = [R, layer_height] (double radius) {return static_cast<unsigned int>( (R - radius) / layer_height );};
     auto layer_rad_max   = [R, layer_height] (int l) {return R - l * layer_height;};
     auto layer_rad_min   = [R, layer_height] (int l) {return R - l * layer_height - layer_height;};
     const auto r_min_outer = R - layer_height;
     auto num_layers = static_cast<unsigned int>(std::ceil( R / layer_height));
+    auto radius_to_layer = [=] (double radius) {
+        auto layer = std::min(static_cast<unsigned int>( (R - radius) / layer_height ), num_layers - 1);
+        // R - radius may be rounded up to the border of the next layer
+        if (layer > 0 && radius > layer_rad_max(layer))
+            --layer;
+        return layer;
+    };
 
     // generate look-up to get the level of a layer
     const auto level_of_layer = [&] {
-- 
2.43.0


From 469ab9c61b79ba9f05a544d4953692af75f4388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 18/26] fix: assertion fails for pairs whose distance equals R
 up to rounding

---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 5423465..448cc20 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -319,7 +319,9 @@ void HyperbolicTree<EdgeCallback>::sampleTypeI(unsigned int cellA, unsigned int
             assert(nodeInA != nodeInB);
             if(inThresholdMode) {
                 if (nodeInA.isDistanceBelowR(nodeInB, m_coshR)) {
-                    assert(hyperbolicDistance(nodeInA.radius, nodeInA.angle, nodeInB.radius, nodeInB.angle) < m_R);
+                    // both computations may differ by rounding if the distance equals R
+                    assert(std::cosh(hyperbolicDistance(nodeInA.radius, nodeInA.angle, nodeInB.radius, nodeInB.angle))
+                        <= m_coshR * (1.0 + 1e-12) + 1e-12 / (nodeInA.invsinh_r * nodeInB.invsinh_r));
                     m_edgeCallback(nodeInA.id, nodeInB.id, threadId);
                 }
             } else {
-- 
2.43.0


From 1ed7ce91164a3ba2a116222279ca79134526227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 19/26] fix: sampling radii or angles of zero points divides by
 zero

---
 source/hypergirgs/source/Generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index 3fcefca..d6184ec 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -107,7 +107,7 @@ static std::pair<std::vector<double>, std::vector<double>> sampleRadiiAndAnglesH
     std::vector<double> angles(n * Angles);
 
     constexpr auto kMinChunkSize = 10000;
-    const auto threads = parallel ? std::min<int>(omp_get_max_threads(), (n + kMinChunkSize - 1) / kMinChunkSize) : 1;
+    const auto threads = parallel ? std::max(1, std::min<int>(omp_get_max_threads(), (n + kMinChunkSize - 1) / kMinChunkSize)) : 1;
 
     const auto invalpha = 1.0 / alpha;
     #pragma omp parallel num_threads(threads)
-- 
2.43.0


From be8f62e1d7539ee305dd96e5afe92955fa4b16c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 20/26] fix: signed overflow if a seed close to the largest int
 is used with several threads

---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 source/girgs/source/Generator.cpp          | 4 ++--
 source/hypergirgs/source/Generator.cpp     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index c976f53..6ceaebc 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -45,7 +45,7 @@ void SpatialTree<D, EdgeCallback>::generateEdges(int seed) {
     const auto num_threads = omp_get_max_threads();
     m_gens.resize(num_threads);
     for (int thread = 0; thread < num_threads; thread++) {
-        m_gens[thread].seed(seed >= 0 ? seed+thread : std::random_device()());
+        m_gens[thread].seed(seed >= 0 ? static_cast<unsigned int>(seed) + thread : std::random_device()());
     } 
 
 #ifndef NDEBUG
diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index 544e111..1d58f2b 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -22,7 +22,7 @@ std::vector<double> generateWeights(int n, double ple, int weightSeed, bool para
     #pragma omp parallel num_threads(threads)
     {
         const auto tid = omp_get_thread_num();
-        auto gen = default_random_engine{weightSeed >= 0 ? (weightSeed+tid) : std::random_device()()};
+        auto gen = default_random_engine{weightSeed >= 0 ? static_cast<unsigned int>(weightSeed) + tid : std::random_device()()};
         auto dist = std::uniform_real_distribution<>{};
 
         #pragma omp for schedule(static)
@@ -41,7 +41,7 @@ std::vector<std::vector<double>> generatePositions(int n, int dimension, int pos
     #pragma omp parallel num_threads(threads)
     {
         const auto tid = omp_get_thread_num();
-        auto gen = default_random_engine{positionSeed >= 0 ? (positionSeed+tid) : std::random_device()()};
+        auto gen = default_random_engine{positionSeed >= 0 ? static_cast<unsigned int>(positionSeed) + tid : std::random_device()()};
         auto dist = std::uniform_real_distribution<>{};
 
         #pragma omp for schedule(static)
diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index d6184ec..8f83fc7 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -112,7 +112,7 @@ static std::pair<std::vector<double>, std::vector<double>> sampleRadiiAndAnglesH
     const auto invalpha = 1.0 / alpha;
     #pragma omp parallel num_threads(threads)
     {
-        auto gen = hypergirgs::default_random_engine(seed >= 0 ? seed + omp_get_thread_num() : std::random_device()());
+        auto gen = hypergirgs::default_random_engine(seed >= 0 ? static_cast<unsigned int>(seed) + omp_get_thread_num() : std::random_device()());
         auto adist = std::uniform_real_distribution<>(0, 2*PI);
         auto rdist = std::uniform_real_distribution<>(std::nextafter(1.0, 2.0), std::cosh(alpha * R));
 
-- 
2.43.0


From 456f290f71f54808ca4e070f6e3f77b1be669322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 21/26] fix: sampled radii may be rounded up to R, which edge
 generation does not accept

---
 source/hypergirgs/source/Generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index 8f83fc7..89824bd 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -110,6 +110,7 @@ static std::pair<std::vector<double>, std::vector<double>> sampleRadiiAndAnglesH
     const auto threads = parallel ? std::max(1, std::min<int>(omp_get_max_threads(), (n + kMinChunkSize - 1) / kMinChunkSize)) : 1;
 
     const auto invalpha = 1.0 / alpha;
+    const auto maxRadius = std::nextafter(R, 0.0); // edge generation requires radii below R; rounding may yield R
     #pragma omp parallel num_threads(threads)
     {
         auto gen = hypergirgs::default_random_engine(seed >= 0 ? static_cast<unsigned int>(seed) + omp_get_thread_num() : std::random_device()());
@@ -127,7 +128,7 @@ static std::pair<std::vector<double>, std::vector<double>> sampleRadiiAndAnglesH
                 angles[i] = adist(gen);
 
             if (Radii)
-                radii[i] = acosh(rdist(gen)) * invalpha;
+                radii[i] = std::min(acosh(rdist(gen)) * invalpha, maxRadius);
         }
     }
 
-- 
2.43.0


From 25f21212038c477f7b6eb46ab099cb1e46d96026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 22/26] fix: assertion fails for weights just below twice the
 smallest weight

---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 6ceaebc..8e5faa6 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -286,7 +286,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
         const auto w_term = nodeInA.weight*nodeInB.weight/m_W;
         const auto d_term = pow_to_the<D>(distance);
         const auto connection_prob = std::pow(w_term/d_term, m_alpha); // we don't need min with 1.0 here
-        assert(w_term < w_upper_bound);
+        assert(w_term <= w_upper_bound); // equal if both weights are just below the bound of their layer
         assert(d_term >= dist_lower_bound);
 
         if(rnd < connection_prob) {
-- 
2.43.0


From d158fbf16dce9a6796ca12db2921ff720d522fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 23/26] fix: points at the origin get undefined coordinates

---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 8 ++++----
 source/hypergirgs/include/hypergirgs/Point.h            | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 448cc20..982fb2c 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -313,8 +313,8 @@ void HyperbolicTree<EdgeCallback>::sampleTypeI(unsigned int cellA, unsigned int
             assert(cellB - AngleHelper::firstCellOfLevel(level) == AngleHelper::cellForPoint(nodeInB.angle, level));
 
             // points are in correct radius layer
-            assert(m_radius_layers[i].m_r_min < nodeInA.radius && nodeInA.radius <= m_radius_layers[i].m_r_max);
-            assert(m_radius_layers[j].m_r_min < nodeInB.radius && nodeInB.radius <= m_radius_layers[j].m_r_max);
+            assert(m_radius_layers[i].m_r_min <= nodeInA.radius && nodeInA.radius <= m_radius_layers[i].m_r_max);
+            assert(m_radius_layers[j].m_r_min <= nodeInB.radius && nodeInB.radius <= m_radius_layers[j].m_r_max);
 
             assert(nodeInA != nodeInB);
             if(inThresholdMode) {
@@ -418,8 +418,8 @@ void HyperbolicTree<EdgeCallback>::sampleTypeII(unsigned int cellA, unsigned int
         assert(cellB - AngleHelper::firstCellOfLevel(level) == AngleHelper::cellForPoint(nodeInB.angle, level));
 
         // points are in correct radius layer
-        assert(m_radius_layers[i].m_r_min < nodeInA.radius && nodeInA.radius <= m_radius_layers[i].m_r_max);
-        assert(m_radius_layers[j].m_r_min < nodeInB.radius && nodeInB.radius <= m_radius_layers[j].m_r_max);
+        assert(m_radius_layers[i].m_r_min <= nodeInA.radius && nodeInA.radius <= m_radius_layers[i].m_r_max);
+        assert(m_radius_layers[j].m_r_min <= nodeInB.radius && nodeInB.radius <= m_radius_layers[j].m_r_max);
 
         const auto rnd = dist(gen);
 
diff --git a/source/hypergirgs/include/hypergirgs/Point.h b/source/hypergirgs/include/hypergirgs/Point.h
index 84565ed..c3b0524 100644
--- a/source/hypergirgs/include/hypergirgs/Point.h
+++ b/source/hypergirgs/include/hypergirgs/Point.h
@@ -27,8 +27,8 @@ struct Point {
     Point(const int id, const double radius, const double angle, int cell_id = 0) :
           id{id}
         , cell_id{cell_id}
-        , invsinh_r{1.0 / std::sinh(radius)}
-        , coth_r{std::cosh(radius) / std::sinh(radius)}
+        , invsinh_r{1.0 / std::sinh(std::max(radius, 1e-100))} // finite at the origin, too
+        , coth_r{std::cosh(radius) / std::sinh(std::max(radius, 1e-100))}
         , cos_phi{std::cos(angle)}
         , sin_phi{std::sin(angle)}
 #ifdef POINT_WITH_ORIGINAL
-- 
2.43.0


From 5e986bc618318cec1b524e7fe43422ab3947dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 24/26] fix: assertions on edge probabilities and cell
 distances fail by rounding

---
 .../hypergirgs/include/hypergirgs/HyperbolicTree.inl   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 982fb2c..f7aa09f 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -330,13 +330,13 @@ void HyperbolicTree<EdgeCallback>::sampleTypeI(unsigned int cellA, unsigned int
 
                 // check if we wouldn't make it even if rnd was a little smaller
                 if (real_dist_cosh > m_typeI_filter.coshDistForProb_upperBound(rnd)) {
-                    assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) >= 1.0);
+                    assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) >= 1.0 - 1e-9);
                     continue;
                 }
 
                 // check if we would make it even if rnd was a little higher
                 if (real_dist_cosh < m_typeI_filter.coshDistForProb_lowerBound(rnd)) {
-                    assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) < 1.0);
+                    assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) < 1.0 + 1e-9);
                     m_edgeCallback(nodeInA.id, nodeInB.id, threadId);
                     continue;
                 }
@@ -427,18 +427,18 @@ void HyperbolicTree<EdgeCallback>::sampleTypeII(unsigned int cellA, unsigned int
         const auto real_dist_cosh = nodeInA.hyperbolicDistanceCosh(nodeInB);
         assert(angular_distance_lower_bound <= std::abs(nodeInA.angle - nodeInB.angle));
         assert(angular_distance_lower_bound <= std::abs(nodeInB.angle - nodeInA.angle));
-        assert(std::acosh(real_dist_cosh) >= dist_lower_bound);
+        assert(std::acosh(real_dist_cosh) >= dist_lower_bound - 1e-9 - 1e-14 * m_coshR); // points in the corners of their cells reach the bound up to rounding
         assert(std::acosh(real_dist_cosh) > m_R);
 
         // check if we wouldn't make it even if rnd was a little smaller
         if (real_dist_cosh > filter.coshDistForProb_upperBound(rnd)) {
-            assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) >= 1.0);
+            assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) >= 1.0 - 1e-9);
             continue;
         }
 
         // check if we would make it even if rnd was a little higher
         if (real_dist_cosh < filter.coshDistForProb_lowerBound(rnd)) {
-            assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) < 1.0);
+            assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) < 1.0 + 1e-9);
             m_edgeCallback(nodeInA.id, nodeInB.id, threadId);
             continue;
         }
-- 
2.43.0


From 5a1612b504a1907468ca5a2d5d87f2fac618a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:03 +0000
Subject: [PATCH 25/26] fix: dot export depends on the global locale

---
 source/girgs/source/Generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index 1d58f2b..fe0f73a 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -5,6 +5,7 @@
 #include <functional>
 #include <mutex>
 #include <ios>
+#include <locale>
 
 #include <omp.h>
 
@@ -124,6 +125,7 @@ void saveDot(const std::vector<double> &weights, const std::vector<std::vector<d
     std::ofstream f{file};
     if(!f.is_open())
         throw std::runtime_error{"Error: failed to open file \"" + file + '\"'};
+    f.imbue(std::locale::classic()); // dot requires decimal points and digits without grouping
     f << "graph girg {\n\toverlap=scale;\n\n";
     f << std::fixed;
     for (int i = 0; i < weights.size(); ++i) {
-- 
2.43.0


From 65bacf2bd62cfcb26a305a66d58b9db4d41e6d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:28 +0000
Subject: [PATCH 26/26] fix: coordinates below 0.1 are written with less than
 full precision

---
 source/cli/genhrg/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index fb54538..d7e615e 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -153,7 +153,7 @@ int main(int argc, char* argv[]) {
         auto t6 = high_resolution_clock::now();
         ofstream f{file+".hyp"};
         if(!f.is_open()) throw std::runtime_error{"Error: failed to open file \"" + file + ".hyp\""};
-        f << std::fixed << std::setprecision(std::numeric_limits<double>::max_digits10);
+        f << std::setprecision(std::numeric_limits<double>::max_digits10);
         for(auto i{0u}; i<n; ++i)
             f << radii[i]  << ' ' << angles[i] << '\n';
         f.close();
-- 
2.43.0

