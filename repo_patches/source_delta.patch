From 72c579dab03b6719a81db1e89d0197d4af6d5ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:54 +0000
Subject: [PATCH 01/40] fix: stop sifting down a MinMaxHeap after a swap with a
 child

heapDownMin continued downwards from the child, which lies on a max level,
with the rules of a min level. With equal elements this moved a maximum
below a smaller ancestor, so bottom() was no longer the greatest element
(e.g. push 0,1,5,1,1,2,3, popTop, popBottom). heapDownMax already stops.
---
 common/include/rofl/common/min_max_heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 3c58787..0bcfc10 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -368,7 +368,7 @@ namespace rofl {
                     icurr = igrand;
                 } else if (ichild < data_.size() && cmp_(data_[ichild], data_[icurr])) {
                     std::swap(data_[icurr], data_[ichild]);
-                    icurr = ichild;
+                    icurr = data_.size();
                 } else {
                     icurr = data_.size();
                 }
-- 
2.43.0


From 59fbdf2b8ad9a0463a881074026c3817db203ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:54 +0000
Subject: [PATCH 02/40] fix: MinMaxHeap nextTop/nextBottom return the second
 least/greatest element

nextTop ignored the children of the root, which may be second least when they
are leaves (sizes 4 and 5); nextBottom ignored the descendants of the greatest
element.
---
 common/include/rofl/common/min_max_heap.h | 28 +++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 0bcfc10..d0b6d1a 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -130,22 +130,36 @@ namespace rofl {
             ROFL_ASSERT(!data_.empty());
             if (data_.size() == 1) {
                 return data_[0];
-            } else if (data_.size() < 4) {
-                return data_[childMin(0)];
-            } else {
-                return data_[grandchildMin(0)];
             }
+            // The second least item is either a child or a grandchild of the root
+            size_t imin = childMin(0);
+            size_t igrand = grandchildMin(0);
+            if (igrand < data_.size() && cmp_(data_[igrand], data_[imin])) {
+                imin = igrand;
+            }
+            return data_[imin];
         }
 
-        /** Returns the next minimum element.
+        /** Returns the next maximum element.
          */
         const Value& nextBottom() const {
             ROFL_ASSERT(!data_.empty());
             if (data_.size() < 3) {
                 return data_[0];
-            } else {
-                return data_[childMin(0)];
             }
+            // The second greatest item is either the other child of the root or 
+            // a child or a grandchild of the greatest item
+            size_t imax = childMax(0);
+            size_t inext = (imax == childLeft(0) ? childRight(0) : childLeft(0));
+            size_t ichild = childMax(imax);
+            size_t igrand = grandchildMax(imax);
+            if (ichild < data_.size() && cmp_(data_[inext], data_[ichild])) {
+                inext = ichild;
+            }
+            if (igrand < data_.size() && cmp_(data_[inext], data_[igrand])) {
+                inext = igrand;
+            }
+            return data_[inext];
         }
 
         /**
-- 
2.43.0


From 849548edfa27ffa71af6d158d128f5ad95896a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 03/40] fix: boustrophedon order moves by one cell in three or
 more dimensions

The direction of a sweep along dimension d depends on the parity of the number
of previous sweeps, not only on the parity of index d+1: with an odd side the
3D order jumped (e.g. dimensions {2,3,2} from [0,2,0] to [1,2,1]).
---
 common/include/rofl/common/interval_indices.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 4e5e78f..ede546b 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -143,12 +143,12 @@ namespace rofl {
                 Index odd = 0;
                 for (int d = Dim - 1; d >= 0; --d) {
                     //ROFL_VAR3(d, indices[d], odd);
+                    // Parity of the number of times dimension d-1 has been already swept 
+                    Index oddNext = (indices[d] + odd * dimensions[d]) % 2;
                     if (odd) {
-                        odd = indices[d] % 2;
                         indices[d] = dimensions[d] - indices[d] - 1;
-                    } else {
-                        odd = indices[d] % 2;
                     }
+                    odd = oddNext;
                     indices[d] += minval[d];
                 }
                 //ROFL_MSG("indices computed " << indices);
-- 
2.43.0


From 3c74965b2c6868be217aca366f73d42d036adb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 04/40] fix: the size of an empty IntervalIndices is zero

With an even number of negative dimensions size() was positive, and with one a
huge unsigned number, so that empty intervals could be iterated.
---
 common/include/rofl/common/interval_indices.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index ede546b..7adb885 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -351,6 +351,9 @@ namespace rofl {
          * Returns the number of indices items included in the interval.
          */
         size_t size() const {
+            if (empty()) {
+                return 0;
+            }
             size_t s = 1;
             for (int d = 0; d < Dim; ++d) {
                 s *= dimensions_[d];
-- 
2.43.0


From e9e1e01b98faad5366c8d2988e2c6e3386e35218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:52 +0000
Subject: [PATCH 05/40] fix: PeakFinderD reports exactly the strict maxima of
 the window

The first cell of the domain was never examined, and a cell was compared with
the second best item of the queue, which may be a repeated copy of the cell
itself or a cell that already left the window, so that true peaks were lost.
---
 common/include/rofl/common/peak_finder_d.h | 28 ++++++++++------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/common/include/rofl/common/peak_finder_d.h b/common/include/rofl/common/peak_finder_d.h
index a5c6bfd..845b9b2 100644
--- a/common/include/rofl/common/peak_finder_d.h
+++ b/common/include/rofl/common/peak_finder_d.h
@@ -148,7 +148,6 @@ namespace rofl {
             }
             //ROFL_VAR4(*domainIt, windowInterval, novelInterval, windowItems.size());
             indicesPrev = *domainIt;
-            ++domainIt;
 
             // Moves the window on each cell of domain in boustrophedon order
             for (; domainIt != domainEnd; ++domainIt) {
@@ -163,27 +162,26 @@ namespace rofl {
                 windowInterval.translate(dimMax, incrMax);
                 //ROFL_VAR4(detail::printIndices(*domainIt), windowInterval, novelInterval, windowItems.size());
 
-                // Extracts from the window queue the top items that are not in the durrect window
-                while (!windowItems.empty() && !windowInterval.inside(windowItems.top())) {
+                // Extracts from the window queue the top items that are not in the current window and
+                // the copies of the current cell (the cells re-entering the window may be repeated)
+                bool currentPopped = false;
+                while (!windowItems.empty() && (windowItems.top() == *domainIt || !windowInterval.inside(windowItems.top()))) {
+                    currentPopped = currentPopped || (windowItems.top() == *domainIt);
                     windowItems.popTop();
                 }
 
-                // Checks if current cell *domainIt is not dominated by the top item windowItems.top().
+                // Checks if current cell *domainIt strictly dominates the best other item of the window.
                 // E.g. if comp_ = std::greater<>, then
-                //   !comp_(map(windowItems.top()), map(*domainIt))) -> map(*domainIt) >= map(windowItems.top()
+                //   comp_(map(*domainIt), map(windowItems.top())) -> map(*domainIt) > map(windowItems.top())
                 if (!enableFilterMinValue_ || comp_(map(*domainIt), valueMin_)) {
-                    if (!windowItems.empty() && !comp_(map(windowItems.top()), map(*domainIt))) {
-                        //ROFL_VAR4(outIdx(*domainIt), map(*domainIt), outIdx(windowItems.top()), map(windowItems.top()));
-                        //ROFL_VAR3(outIdx(windowItems.nextTop()), map(windowItems.nextTop()), comp_(map(*domainIt), map(windowItems.nextTop())));
-                        //Indices curTop = windowItems.top();
-                        //windowItems.popTop();
-                        if (comp_(map(*domainIt), map(windowItems.nextTop()))) {
-                            //insertMax = *domainIt;
-                            maxima.push(*domainIt);
-                        }
-                        //windowItems.push(curTop);
+                    if (windowItems.empty() || comp_(map(*domainIt), map(windowItems.top()))) {
+                        //insertMax = *domainIt;
+                        maxima.push(*domainIt);
                     }
                 }
+                if (currentPopped) {
+                    windowItems.push(*domainIt);
+                }
                 indicesPrev = *domainIt;
             }
 
-- 
2.43.0


From 98653a17fd86a34a1bec6d980711f8c9378811a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:21 +0000
Subject: [PATCH 06/40] fix: DisjointSet::makeSet counts the new set

setNum() was not increased, so it was wrong (even negative after joins) for
sets created one at a time.
---
 common/src/disjoint_set.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index c12ceea..ad84dc3 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -53,6 +53,7 @@ namespace rofl {
         n.rank = 0;
         n.size = 1;
         nodes_.push_back(n);
+        setNum_++;
         return n.parent;
     }
 
-- 
2.43.0


From 19ad712879a5654beda7bf078d5dbb98df6e6f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:21 +0000
Subject: [PATCH 07/40] fix: DisjointSet join and size tolerate invalid
 identifiers

find() reports an invalid identifier and returns an out-of-range index, which
join() and size() used to access memory outside the node vector.
---
 common/include/rofl/common/disjoint_set.h | 3 +++
 common/src/disjoint_set.cpp               | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/common/include/rofl/common/disjoint_set.h b/common/include/rofl/common/disjoint_set.h
index 31296b6..9313326 100644
--- a/common/include/rofl/common/disjoint_set.h
+++ b/common/include/rofl/common/disjoint_set.h
@@ -82,6 +82,9 @@ namespace rofl {
          */
         size_t size(int n) {
             id_type root = find(n);
+            if (root >= (id_type) nodes_.size()) {
+                return 0;
+            }
             return nodes_[root].size;
         }
 
diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index ad84dc3..134fb62 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -76,6 +76,8 @@ namespace rofl {
     DisjointSet::id_type DisjointSet::join(id_type n1, id_type n2) {
         id_type root1 = find(n1);
         id_type root2 = find(n2);
+        // If n1 or n2 is not valid, find() returns an out-of-range id: there is no join to do
+        if (root1 >= (id_type) nodes_.size() || root2 >= (id_type) nodes_.size()) return nodes_.size();
         // If n1 and n2 are already in the same set, there is no join to do
         if (root1 == root2) return nodes_.size();
 
-- 
2.43.0


From f4754e7a3effde1862e470e3c51aa3863feb3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:36 +0000
Subject: [PATCH 08/40] fix: LabelSet comparison considers the labels of both
 sets

std::equal was given no end of the second range: a set was equal to any set it
is a prefix of, and comparing with a shorter set read past its end.
---
 common/src/label_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/label_set.cpp b/common/src/label_set.cpp
index be5586b..d70243a 100644
--- a/common/src/label_set.cpp
+++ b/common/src/label_set.cpp
@@ -54,11 +54,11 @@ namespace rofl {
     }
     
     bool LabelSet::operator==(const LabelSet& ls) const {
-        return std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return std::equal(labels_.begin(), labels_.end(), ls.labels_.begin(), ls.labels_.end());
     }
     
     bool LabelSet::operator!=(const LabelSet& ls) const {
-        return !std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return !std::equal(labels_.begin(), labels_.end(), ls.labels_.begin(), ls.labels_.end());
     }
 
     bool LabelSet::insert(Label label) {
-- 
2.43.0


From d9486291f87f6456e7364426247ec81363e826e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:28 +0000
Subject: [PATCH 09/40] fix: ParamMap reads lines of any length

A line of MAX_LEN characters or more set the failbit of the stream, so that the
line and all the following ones were silently ignored.
---
 common/src/param_map.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 11d738d..9c25fa4 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -34,10 +34,9 @@ namespace rofl {
     bool ParamMap::read(std::istream& in) {
         std::string name;
         std::string value;
-        std::string length;
-        char buffer[MAX_LEN];
-        while (in.getline(buffer, MAX_LEN)) {
-            std::stringstream ss(buffer);
+        std::string line;
+        while (std::getline(in, line)) {
+            std::stringstream ss(line);
             if (ss >> name >> value) {
                 if (name.empty() || name.at(0) == COMMENT) {
                     continue;
-- 
2.43.0


From b442e9297023ba9d7aecdc71b3839a9f15b73fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:28 +0000
Subject: [PATCH 10/40] fix: ParamMap::adaptTildeInPaths does not invalidate
 its iterator

setParam() erased the entry the loop was visiting (use after free), and the
values with another '~' after the leading one were not expanded.
---
 common/src/param_map.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 9c25fa4..c22b2cb 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -129,17 +129,16 @@ namespace rofl {
     {
         for (auto it = table_.begin(); it != table_.end(); ++it)
         {
-            auto first = it->first;
             auto second = it->second;
             // std::cout << "second with tilde: " << second << std::endl;
             std::string homePath = getenv("HOME");
             homePath += "/"; // getenv() return only /home/user -> need to add another
             // std::cout << "homePath " << homePath << std::endl;
-            if (second.rfind("~") == 0)
+            if (!second.empty() && second.front() == '~')
             {
                 second.replace(0, 2, homePath);
                 std::cout << "second WITHOUT tilde: " << second << std::endl;
-                setParam(first, second);
+                it->second = second;
             }
         }
     }
-- 
2.43.0


From eaf0f9ff38f5d5daf6cc92474119e23de07b0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:01 +0000
Subject: [PATCH 11/40] fix: log2Mod of int64_t counts the leading zeros of 64
 bits

---
 common/include/rofl/common/numeric_traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index b620365..2a0d2b2 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -258,9 +258,9 @@ struct IntegerTraits<int64_t> {
 
     static IntegerType log2Mod(const IntegerType& i) {
         if (i > 0)
-            return (BIT_NUM - 1 - nlz8(i));
+            return (BIT_NUM - 1 - nlz64(i));
         else if (i < 0)
-            return (BIT_NUM - 1 - nlz8(-i));
+            return (BIT_NUM - 1 - nlz64(-i));
         else
             return 0;  // arbitrary output for invalid argument 0
     }
-- 
2.43.0


From 95db4ef35afdaa809e9f6fc6b8a63413db5c6a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:01 +0000
Subject: [PATCH 12/40] fix: FloatTraits<double> has 11 exponent bits

---
 common/include/rofl/common/numeric_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index 2a0d2b2..81a61e6 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -437,7 +437,7 @@ struct FloatTraits<double> {
 
     static const int BIT_NUM = 64;
     static const int MANTISSA_BITS = 52;
-    static const int EXPONENT_BITS = 8;
+    static const int EXPONENT_BITS = 11;
     static const int EXPONENT_BIAS = 1023;
 
     static constexpr IntegerType MANTISSA_IMPLICIT_BIT = (IntegerType)1 << MANTISSA_BITS;
-- 
2.43.0


From 445420071f3093fa5e4750648ccd67a244effda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:01 +0000
Subject: [PATCH 13/40] fix: xorFloat of negative numbers finds the most
 significant different bit

---
 common/include/rofl/common/morton_sort.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index da42b0d..755beca 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -171,16 +171,18 @@ F xorFloat(const F& fin1,
     }
 
     // Adding the implicit most significant bit to the two mantissas
-    fm1 = fm1 | FT::MANTISSA_IMPLICIT_BIT;
+    // (one more bit avoids truncating fm2 when its exponent is fe1 - 1)
+    fm1 = (fm1 | FT::MANTISSA_IMPLICIT_BIT) << 1;
     if (fe1 < fe2 + FT::BIT_NUM) {
-        fm2 = (fm2 | FT::MANTISSA_IMPLICIT_BIT) >> (fe1 - fe2);
+        fm2 = ((fm2 | FT::MANTISSA_IMPLICIT_BIT) << 1) >> (fe1 - fe2);
     } else {
         fm2 = 0;
     }
-    // Changes the mantissas sign, if f1 and f2 are both negatives
+    // If f1 and f2 are both negative, the bits of -fm1 and -fm2 are the
+    // complements of fm1 - 1 and fm2 - 1
     if (fs1) {
-        fm1 = -fm1;
-        fm2 = -fm2;
+        fm1 = fm1 - 1;
+        fm2 = (fm2 > 0 ? fm2 - 1 : 0);
     }
     mantissaDiff = fm1 ^ fm2;
 
@@ -188,9 +190,9 @@ F xorFloat(const F& fin1,
         exponentDiff = -FT::EXPONENT_BIAS;
         return FT::compose(mantissaDiff, exponentDiff, false);
     }
-    msbPos = FT::MANTISSA_BITS - rofl::IntegerTraits<IntegerType>::log2Mod(mantissaDiff);
+    msbPos = FT::MANTISSA_BITS + 1 - rofl::IntegerTraits<IntegerType>::log2Mod(mantissaDiff);
     exponentDiff = fe1 - msbPos;
-    mantissaDiff = (mantissaDiff << msbPos) & FT::MANTISSA_MASK;
+    mantissaDiff = ((mantissaDiff << msbPos) >> 1) & FT::MANTISSA_MASK;
 
     return FT::compose(mantissaDiff, exponentDiff, false);
 }
-- 
2.43.0


From e754b76110cd0835a788f02f04b29ee48d5500f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:43 +0000
Subject: [PATCH 14/40] fix: intervalPow2Int with equal, 64 bit and full range
 unsigned values

---
 common/include/rofl/common/morton_sort.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 755beca..c325580 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -112,10 +112,10 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
     //   mid         00001000  -> 8
     level = IT::BIT_NUM - IT::nlz(IT::removeSign(i1) ^ IT::removeSign(i2));
     if (level < IT::BIT_NUM) {
-        intervMask = (1 << level) - 1;
+        intervMask = ((UnsignedType)1 << level) - 1;
         low = i1 & (~intervMask);
         upp = (low | intervMask);
-        mid = low | (1 << (level - 1));
+        mid = low | (intervMask ^ (intervMask >> 1));
         // ROFL_VAR1(level);
         // ROFL_MSG("i1          " << std::bitset<IT::BIT_NUM>(i1));
         // ROFL_MSG("i2          " << std::bitset<IT::BIT_NUM>(i2));
@@ -128,7 +128,7 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
         intervMask = ~0;
         low = std::numeric_limits<I>::min();
         upp = std::numeric_limits<I>::max();
-        mid = (upp + low) / 2;
+        mid = low ^ ((UnsignedType)1 << (IT::BIT_NUM - 1));
     }
     return (int)level;
 }
-- 
2.43.0


From 7b7ae327bc9ffd8728d3eb161fc8024fee66d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:43 +0000
Subject: [PATCH 15/40] fix: intervalPow2Float with equal and double precision
 values

---
 common/include/rofl/common/morton_sort.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index c325580..918911f 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -265,10 +265,10 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
         level = IT::BIT_NUM - IT::nlz(fm2);
     }
     ROFL_VAR4(fe1, fe2, fe12, level);
-    intervMask = (1 << level) - 1;
+    intervMask = ((IntegerType)1 << level) - 1;
     mlow = fm2 & (~intervMask);
     mupp = (mlow | intervMask);
-    mmid = mlow | (1 << (level - 1));
+    mmid = mlow | (intervMask ^ (intervMask >> 1));
     if (mlow != 0) {
         low = FT::compose(mlow ^ FT::MANTISSA_IMPLICIT_BIT, fe2, fs2);
     } else {
@@ -287,7 +287,8 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
     if (fs2) {
         std::swap(low, upp);
     }
-    level = fe2 + level - FT::MANTISSA_BITS;
+    // equal values have the lowest level whatever their exponent
+    level = (level > 0 ? fe2 + level : FT::EXPONENT_MIN) - FT::MANTISSA_BITS;
     // ROFL_MSG("intervMask  " << std::bitset<FT::BIT_NUM>(intervMask));
     // ROFL_MSG("mlow        " << std::bitset<FT::BIT_NUM>(mlow) << "  " << low);
     // ROFL_MSG("     ->     " << std::bitset<FT::BIT_NUM>(FT::toInt(low)));
-- 
2.43.0


From f8363a9423a3bf4f27167520ee965d29d0a5b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:43 +0000
Subject: [PATCH 16/40] fix: MortonTree::insert keeps the id of the item if
 resetId is false

---
 common/include/rofl/common/morton_tree.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index c2064fa..671bff2 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -177,6 +177,8 @@ class MortonTree {
         std::copy(item.values, item.values + Dim, itemCopy.values);
         if (resetId) {
             itemCopy.id = items_.size();
+        } else {
+            itemCopy.id = item.id;
         }
         items_.push_back(itemCopy);
         ordered_ = false;
-- 
2.43.0


From da2abe1493ef908f16b573f7bcfad5f25dbc6e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:43 +0000
Subject: [PATCH 17/40] fix: MortonTree::searchInBox returns exactly the items
 inside the box

---
 common/include/rofl/common/morton_tree.h | 60 +++++-------------------
 1 file changed, 12 insertions(+), 48 deletions(-)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index 671bff2..9f30d83 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -257,60 +257,24 @@ class MortonTree {
     }
 
     void searchInBox(const Item& boxMin, const Item& boxMax, std::vector<ConstIterator>& items) {
-        using TreeIntervalQueue = std::deque<TreeInterval>;
-        TreeIntervalQueue queue;
-        TreeInterval cur, low, upp;
-        ConstIterator itLow, itMid, itUpp;
+        TreeInterval cur;
 
         if (!ordered_) {
             sort();
         }
 
-        ROFL_VAR2(boxMin.toString(), boxMax.toString());
-
-        for (auto it = std::begin(items_); it != std::end(items_); ++it) {
-            ROFL_VAR3(it->toString(), compareItems(*it, boxMin), compareItems(*it, boxMax));
-        }
-        cur.first = std::upper_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
-        cur.second = std::lower_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
-        queue.push_back(cur);
-
-        ROFL_MSG("initial interval " << cur.first->toString() << " : " << cur.second->toString());
-
-        int count = 0;
-        while (!queue.empty() && count < 10) {
-            cur = queue.back();
-            queue.pop_back();
-            std::cout << "\n---\nEXPLORING " << printInter(cur) << std::endl;
-            findTreeBucket(cur.first, cur.second, itLow, itMid, itUpp);
-            ROFL_MSG("splitting\n"
-                     << "  low " << printIt(itLow)
-                     << "  mid " << printIt(itMid)
-                     << "  upp " << printIt(itUpp));
-            if (cur.first == itLow && cur.second == itUpp) {
-                for (auto it = itLow; it != itUpp; ++it) {
-                    items.push_back(it);
-                }
-            } else {
-                low.first = cur.first;
-                low.second = itMid;
-                upp.first = itMid;
-                upp.second = cur.second;
-                // ROFL_VAR2(printInter(low), printInter(upp));
-                if (low.first != low.second) {
-                    ROFL_MSG("added LOW interval: " << printInter(low));
-                    queue.push_back(low);
-                } else {
-                    ROFL_MSG("discarted LOW interval: " << printInter(low));
-                }
-                if (upp.first != upp.second) {
-                    ROFL_MSG("added UPP interval: " << printInter(upp));
-                    queue.push_back(upp);
-                } else {
-                    ROFL_MSG("discarted UPP interval: " << printInter(upp));
-                }
+        // Every item inside the box lies between boxMin and boxMax in Morton
+        // order, but not vice versa
+        cur.first = std::lower_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
+        cur.second = std::upper_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
+        for (auto it = cur.first; it < cur.second; ++it) {
+            bool inside = true;
+            for (size_t d = 0; d < Dim; ++d) {
+                inside = inside && boxMin.values[d] <= it->values[d] && it->values[d] <= boxMax.values[d];
+            }
+            if (inside) {
+                items.push_back(it);
             }
-            count++;
         }
     }
 
-- 
2.43.0


From fb4b1073cdc32d87095e4a852ae42cea799b68d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:36 +0000
Subject: [PATCH 18/40] fix: Profiler::updateStat divides by the updated count
 in the mean

---
 common/src/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/profiler.cpp b/common/src/profiler.cpp
index 77122f3..80f055f 100644
--- a/common/src/profiler.cpp
+++ b/common/src/profiler.cpp
@@ -31,6 +31,7 @@ namespace rofl {
         } else {
             // Computes mean value and variance with online Welford’s method 
             double timeAvgOld = it->second.timeAvg;
+            it->second.count++;
             it->second.timeAvg += (time - timeAvgOld) / (double) it->second.count;
             it->second.timeVar += (time - it->second.timeAvg) * (time - timeAvgOld);
             if (time < it->second.timeMin) {
@@ -39,7 +40,6 @@ namespace rofl {
             if (time > it->second.timeMax) {
                 it->second.timeMax = time;
             }
-            it->second.count++;
         }
     }
 
-- 
2.43.0


From dab1061b7262b9f2c6e283013a73197e741645b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:36 +0000
Subject: [PATCH 19/40] fix: MeasureStatistic::getVariance uses the sum of
 squared differences

---
 common/include/rofl/common/profiler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index f6a55d6..02c3031 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -53,7 +53,7 @@ namespace rofl {
 
             double getVariance() const {
                 if (count > 1) {
-                    return (timeAvg / (count - 1));
+                    return (timeVar / (count - 1));
                 } else {
                     return 0.0;
                 }
-- 
2.43.0


From 46577458e2054e95ff27d1fdf1e3fb269490bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:12 +0000
Subject: [PATCH 20/40] fix: HoughPlaneDetector::insert with less than 8
 longitude bins

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index a8d08fd..af897ce 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -198,7 +198,7 @@ namespace rofl {
     void HoughPlaneDetector::insert(const VectorVector3& points) {
         int indicesAngle[3];
         rofl::Scalar rho;
-        int phiNotify = phiNum_ / 8;
+        int phiNotify = std::max(phiNum_ / 8, 1);
 
         // Computes the Hough Transform (HT) by incrementing counting cells
         for (indicesAngle[0] = 0; indicesAngle[0] < thetaNum_; ++indicesAngle[0]) {
-- 
2.43.0


From 35371a362f6a83c7e7c181f0c79bb63518361980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:12 +0000
Subject: [PATCH 21/40] fix: HoughPlaneDetector::getPlaneParam adds the min
 value of rho

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index af897ce..a030bae 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -174,7 +174,7 @@ namespace rofl {
         ROFL_ASSERT_VAR2(0 <= irho && irho < rhoNum_, irho, rhoNum_);
         PlaneParam planeParam;
         const Vector3 normal = getNormal(itheta, iphi);
-        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho);
+        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho + rhoMin_);
         return planeParam;
     }
 
-- 
2.43.0


From 650ee22292f874cab1d9e331fadb93b58451d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:12 +0000
Subject: [PATCH 22/40] fix: HoughPlaneDetector::insert discards the points
 below the min value of rho

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index a030bae..50688c8 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -212,7 +212,7 @@ namespace rofl {
                 for (auto &p : points) {
                     rho = normal(0) * p(0) + normal(1) * p(1) + normal(2) * p(2);
                     //indicesAngle[2] = (int) round((rho - rhoMin_) / rhoRes_);
-                    indicesAngle[2] = (int) ((rho - rhoMin_) / rhoRes_);
+                    indicesAngle[2] = (int) floor((rho - rhoMin_) / rhoRes_);
                     if (0 <= indicesAngle[2] && indicesAngle[2] < rhoNum_) {
                         //houghTransform_.value( { itheta, iphi, irho })++;
                         houghTransform_.value(indicesAngle)++;
-- 
2.43.0


From 021e27f7ec14fdccbe8ed79c21e8af5143e9ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:12 +0000
Subject: [PATCH 23/40] fix: CorrespondenceGraphAssociation::associate returns
 the maximum cliques

---
 .../correspondence_graph_association.h        |  2 +-
 .../src/correspondence_graph_association.cpp  | 29 ++++++++++---------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index a29fba0..a7368c4 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -195,7 +195,7 @@ namespace rofl {
         
         void convertToAssociation(const LabelSet& correspNodes, AssociationHypothesis& assocHyp) const;
         
-        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes);
+        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax);
     };
 
 } // end of namespace
diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 5d8aeed..9bfed62 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -114,7 +114,8 @@ namespace rofl {
         for (int i = 0; i < nodes_.size(); ++i) {
             candidateNodes.insert(i);
         }
-        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes);
+        cliquesMax.clear();
+        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes, cliquesMax);
 
         //        for (auto& node0 : nodeList) {
         //            cliqueCur = nodes_[node0].adjacents.unionSet(node0);
@@ -177,28 +178,28 @@ namespace rofl {
         //        }
     }
 
-    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes) {
-        static int iterCount = 0;
-
-        iterCount++;
-        ROFL_VAR1(iterCount);
-        if (iterCount >= 200) {
-            return;
-        }
-
+    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax) {
         if (candidateNodes.empty() && excludedNodes.empty()) {
-            //return cliqueCur;
-            ROFL_MSG("maximum clique: " << cliqueCur);
+            // Keeps only the maximal cliques of maximum size
+            ROFL_MSG("maximal clique: " << cliqueCur);
+            if (!cliquesMax.empty() && cliqueCur.size() > cliquesMax.back().size()) {
+                cliquesMax.clear();
+            }
+            if (!cliqueCur.empty() && (cliquesMax.empty() || cliqueCur.size() == cliquesMax.back().size())) {
+                cliquesMax.push_back(cliqueCur);
+            }
             return;
         }
 
-        for (auto& n : candidateNodes) {
+        // The visited nodes are removed from the candidates during the iteration
+        const LabelSet candidateNodesAll = candidateNodes;
+        for (auto& n : candidateNodesAll) {
             ROFL_VAR4(n, cliqueCur, candidateNodes, excludedNodes);
             LabelSet cliqueCurNew = cliqueCur.unionSet(n);
             LabelSet candidateNodesNew = candidateNodes.intersectionSet(nodes_[n].adjacents);
             LabelSet excludedNodesNew = excludedNodes.intersectionSet(nodes_[n].adjacents);
             ROFL_VAR4(n, cliqueCurNew, candidateNodesNew, excludedNodesNew);
-            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew);
+            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew, cliquesMax);
             candidateNodes.remove(n);
             excludedNodes.insert(n);
         }
-- 
2.43.0


From 99448df396a7198cd43cccb36e88283766374264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:12 +0000
Subject: [PATCH 24/40] fix: CorrespondenceGraphAssociation forgets nodes and
 distances of previous calls

---
 .../include/rofl/geometry/correspondence_graph_association.h  | 4 +++-
 geometry/src/correspondence_graph_association.cpp             | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index a7368c4..cdd8528 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -122,6 +122,7 @@ namespace rofl {
         template <typename It, typename Dist>
         void insertSrc(It beg, It end, Dist dist) {
             numSrc_ = std::distance(beg, end);
+            distancesSrc_.clear();
             distancesSrc_.reserve(numSrc_ * (numSrc_ - 1) / 2);
             insertPairDistances(beg, end, dist, std::back_inserter(distancesSrc_));
 
@@ -151,7 +152,8 @@ namespace rofl {
         template <typename It, typename Dist>
         void insertDst(It beg, It end, Dist dist) {
             numDst_ = std::distance(beg, end);
-            distancesSrc_.reserve(numDst_ * (numDst_ - 1) / 2);
+            distancesDst_.clear();
+            distancesDst_.reserve(numDst_ * (numDst_ - 1) / 2);
             insertPairDistances(beg, end, dist, std::back_inserter(distancesDst_));
 
             std::sort(distancesDst_.begin(), distancesDst_.end(),
diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 9bfed62..320de7b 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -52,6 +52,7 @@ namespace rofl {
         // Creates the list of correspondence nodes.
         // Each node represents an association between a source and a destination
         // point/item. 
+        nodes_.clear();
         nodes_.reserve(numSrc_ * numDst_);
         node.adjacents.clear();
         for (int is = 0; is < numSrc_; ++is) {
-- 
2.43.0


From de1427b0c6672403b4154413e988bb2fbd6be3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:53 +0000
Subject: [PATCH 25/40] fix: PnebiLUT::eval accepts the max order of the LUT

---
 common/src/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index bb9f57b..b532c4b 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -274,7 +274,7 @@ namespace rofl {
 
         // Checks that 1) argument x is positive; 2) order of PNEBI has been computed;
         if (x < 0.0) x = -x;
-        ROFL_ASSERT_VAR2(0 <= k && k < orderMax_, k, orderMax_);
+        ROFL_ASSERT_VAR2(0 <= k && k <= orderMax_, k, orderMax_);
 
         PnebiPoint tmp(0, x);
         auto upper = std::upper_bound(lut_.begin(), lut_.end(), tmp);
-- 
2.43.0


From 98efcc674813440962d22b3095e8f4a9694b3a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:53 +0000
Subject: [PATCH 26/40] fix: the operators of VectorArray return the
 element-wise result

---
 common/include/rofl/common/vector_array.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b242922..b1b512b 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -40,7 +40,7 @@ namespace rofl {
 		Type operator+(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] + other[d];
 			}
 			return res;
 		}
@@ -48,7 +48,7 @@ namespace rofl {
 		Type operator-(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] - other[d];
 			}
 			return res;
 		}
@@ -56,7 +56,7 @@ namespace rofl {
 		Type operator*(const Value& scalar)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = scalar * (*this)[d];
+				res[d] = scalar * (*this)[d];
 			}
 			return res;
 		}
@@ -64,7 +64,7 @@ namespace rofl {
 		Type operator*(const Type& other)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] * other[d];
+				res[d] = (*this)[d] * other[d];
 			}
 			return res;
 		}
@@ -72,7 +72,7 @@ namespace rofl {
 		Type operator/(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] / other[d];
+				res[d] = (*this)[d] / other[d];
 			}
 			return res;
 		}
-- 
2.43.0


From f6ffdc1d7138c946f662cf81f8b3b022899982cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:53 +0000
Subject: [PATCH 27/40] fix: HoughLineDetector::insert computes the Hough
 transform and spectrum

---
 geometry/src/hough_line_detector.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/geometry/src/hough_line_detector.cpp b/geometry/src/hough_line_detector.cpp
index 402f15d..2d828bc 100644
--- a/geometry/src/hough_line_detector.cpp
+++ b/geometry/src/hough_line_detector.cpp
@@ -128,7 +128,29 @@ namespace rofl {
     }
 
     void HoughLineDetector::insert(const VectorVector2& points) {
+        Indices2 indices;
+
+        // Computes the Hough Transform (HT) by incrementing counting cells
+        for (indices[0] = 0; indices[0] < thetaNum_; ++indices[0]) {
+            const Vector2& normal = normalLut_[indices[0]];
+            for (auto& p : points) {
+                Scalar rho = normal(0) * p(0) + normal(1) * p(1);
+                indices[1] = (int) floor((rho - rhoMin_) / rhoRes_);
+                if (0 <= indices[1] && indices[1] < rhoNum_) {
+                    houghTransform_.value(indices)++;
+                }
+            }
+        }
 
+        // Computes Hough Spectrum (HS)
+        for (indices[0] = 0; indices[0] < thetaNum_; ++indices[0]) {
+            Counter& hsVal = houghSpectrum_[indices[0]];
+            hsVal = 0;
+            for (indices[1] = 0; indices[1] < rhoNum_; ++indices[1]) {
+                Counter htVal = houghTransform_.value(indices);
+                hsVal += htVal * htVal;
+            }
+        }
     }
 
     void HoughLineDetector::findSpectrumIndicesMax(std::vector<Indices1>& indicesMaxima) const {
-- 
2.43.0


From a0ac99895c76087236aec62a7017200c1dd60f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:53 +0000
Subject: [PATCH 28/40] fix: define the methods of HoughLineDetector that are
 only declared

---
 geometry/include/rofl/geometry/hough_line_detector.h | 11 +++++++++++
 geometry/src/hough_line_detector.cpp                 | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/geometry/include/rofl/geometry/hough_line_detector.h b/geometry/include/rofl/geometry/hough_line_detector.h
index e6d664e..0ebf748 100644
--- a/geometry/include/rofl/geometry/hough_line_detector.h
+++ b/geometry/include/rofl/geometry/hough_line_detector.h
@@ -232,6 +232,17 @@ namespace rofl {
         int irhoWin_;
     };
 
+    template <typename Iterator, typename Converter>
+    void HoughLineDetector::insert(Iterator beg, Iterator end, const Converter& converter) {
+        VectorVector2 points;
+
+        setZero();
+        for (auto it = beg; it != end; ++it) {
+            points.push_back(converter(*it));
+        }
+        insert(points);
+    }
+
 } // end of namespace rofl
 
 #endif /* GEOMETRY_INCLUDE_ROFL_GEOMETRY_HOUGH_LINE_DETECTOR_H_ */
diff --git a/geometry/src/hough_line_detector.cpp b/geometry/src/hough_line_detector.cpp
index 2d828bc..2b62063 100644
--- a/geometry/src/hough_line_detector.cpp
+++ b/geometry/src/hough_line_detector.cpp
@@ -213,4 +213,15 @@ namespace rofl {
         }
     }
 
+    void HoughLineDetector::findLines(VectorLineParam& linesParams) {
+        std::vector<Indices2> linesIndices;
+
+        findLines(linesIndices);
+        linesParams.resize(linesIndices.size());
+        for (int i = 0; i < linesIndices.size(); ++i) {
+            const Vector2& normal = normalLut_[linesIndices[i][0]];
+            linesParams[i] << normal(0), normal(1), -(rhoRes_ * linesIndices[i][1] + rhoMin_);
+        }
+    }
+
 } // end of namespace
-- 
2.43.0


From 5e946a1b6a0fe8376d2ed2dbe0a5b620000bacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 29/40] fix: normalizeAngle2Pi returns a value in [0, 2*pi[ in
 spite of rounding

---
 geometry/src/base_geometry2.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geometry/src/base_geometry2.cpp b/geometry/src/base_geometry2.cpp
index 6e68898..99f2e8d 100644
--- a/geometry/src/base_geometry2.cpp
+++ b/geometry/src/base_geometry2.cpp
@@ -40,7 +40,11 @@ namespace rofl {
     // --------------------------------------------------------------
 
     Scalar normalizeAngle2Pi(Scalar angle) {
-        return (angle - K_2PI * floor(angle / K_2PI));
+        Scalar res = angle - K_2PI * floor(angle / K_2PI);
+        // Rounding may lead slightly outside of [0, 2*M_PI[
+        if (res < 0.0) res += K_2PI;
+        if (res >= K_2PI) res = 0.0;
+        return res;
     }
 
     bool insideAngleInterval(Scalar x, Scalar y, Vector2 pBeg, Vector2 pEnd) {
-- 
2.43.0


From 52f5b2bb70018002abccf2b91818e01609a4af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 30/40] fix: normalize360 and normalize180 return a value in
 the half-open period in spite of rounding

---
 common/src/functions.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index b532c4b..d9b763d 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -104,11 +104,19 @@ namespace rofl {
     }
     
     double normalize360(double angle) {
-        return (angle - K_2PI * floor(angle / K_2PI));
+        double res = angle - K_2PI * floor(angle / K_2PI);
+        // Rounding may lead slightly outside of [0, 2*M_PI[
+        if (res < 0.0) res += K_2PI;
+        if (res >= K_2PI) res = 0.0;
+        return res;
     }
     
     double normalize180(double angle) {
-        return (angle - M_PI * floor(angle / M_PI));
+        double res = angle - M_PI * floor(angle / M_PI);
+        // Rounding may lead slightly outside of [0, M_PI[
+        if (res < 0.0) res += M_PI;
+        if (res >= M_PI) res = 0.0;
+        return res;
     }
 
     double evaluateFourier(const std::vector<double>& coeffs, double theta) {
-- 
2.43.0


From 56630c0da009f4212d43f6c570d752bcc883e217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 31/40] fix: fastAtan2 of the origin is 0 instead of NaN

---
 common/src/functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index d9b763d..bbb57c1 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -83,7 +83,7 @@ namespace rofl {
         float ay = fabs(y);
         float ax = fabs(x);
         bool invert = ay > ax;
-        float z = invert ? ax / ay : ay / ax; // z in range [0,1]
+        float z = invert ? ax / ay : (ax > 0.0f ? ay / ax : 0.0f); // z in range [0,1]
         float th = fastAtanf(z); // th in range [0,M_PI/4]
         if (invert) th = M_PI_2 - th; // th in range [0,M_PI/2]
         if (x < 0) th = M_PI - th; // th in range [0,M_PI]
@@ -95,7 +95,7 @@ namespace rofl {
         double ay = fabs(y);
         double ax = fabs(x);
         bool invert = ay > ax;
-        double z = invert ? ax / ay : ay / ax; // z in range [0,1]
+        double z = invert ? ax / ay : (ax > 0.0 ? ay / ax : 0.0); // z in range [0,1]
         double th = fastAtan(z); // th in range [0,M_PI/4] 
         if (invert) th = M_PI_2 - th; // th in range [0,M_PI/2]
         if (x < 0) th = M_PI - th; // th in range [0,M_PI]
-- 
2.43.0


From 1b0adcdf90575f8579f0fc41761825119572a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 32/40] fix: local XY conversions scale longitude by the meters
 per degree at the origin's latitude

---
 geometry/include/rofl/geometry/gis.h | 13 +++++++------
 geometry/src/gis.cpp                 | 12 ++++++------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/geometry/include/rofl/geometry/gis.h b/geometry/include/rofl/geometry/gis.h
index 0fc78b0..4ae2e76 100644
--- a/geometry/include/rofl/geometry/gis.h
+++ b/geometry/include/rofl/geometry/gis.h
@@ -57,8 +57,8 @@ namespace rofl {
     void convertLatLonAltToECEF(Scalar lat, Scalar lon, Scalar alt, Scalar& x, Scalar& y, Scalar& z);
 
     /**
-     * Returns the meters-per-degree of corresponding to longitude at zero altitude.
-     * The implementation follows mdeglon() from the Python library AlvinXY,
+     * Returns the meters-per-degree of corresponding to latitude at zero altitude.
+     * The implementation follows mdeglat() from the Python library AlvinXY,
      * which uses spherical harmonics representation.
      * @param lat latitude in decimal degrees
      * @return the corresponding distance in meters [m]
@@ -66,13 +66,14 @@ namespace rofl {
     Scalar meterPerDegLat(Scalar lat);
 
     /**
-     * Returns the meters-per-degree of corresponding to latitude at zero altitude.
-     * The implementation follows mdeglat() from the Python library AlvinXY,
+     * Returns the meters-per-degree of corresponding to longitude at zero altitude,
+     * which depends on the latitude.
+     * The implementation follows mdeglon() from the Python library AlvinXY,
      * which uses spherical harmonics representation.
-     * @param lon longitude in decimal degrees
+     * @param lat latitude in decimal degrees
      * @return the corresponding distance in meters [m]
      */
-    Scalar meterPerDegLon(Scalar lon);
+    Scalar meterPerDegLon(Scalar lat);
 
     /**
      * Converts latitude and longitude coordinates into "flattened" local Cartesian X and Y coordinates
diff --git a/geometry/src/gis.cpp b/geometry/src/gis.cpp
index f9c04ab..f34e333 100644
--- a/geometry/src/gis.cpp
+++ b/geometry/src/gis.cpp
@@ -36,20 +36,20 @@ namespace rofl {
         return dist;
     }
 
-    Scalar meterPerDegLon(Scalar lon) {
-        Scalar lonRad, dist;
-        lonRad = lon / 180.0 * M_PI;
-        dist = 111415.13 * cos(lonRad) - 94.55 * cos(3.0 * lonRad) + 0.12 * cos(5.0 * lonRad);
+    Scalar meterPerDegLon(Scalar lat) {
+        Scalar latRad, dist;
+        latRad = lat / 180.0 * M_PI;
+        dist = 111415.13 * cos(latRad) - 94.55 * cos(3.0 * latRad) + 0.12 * cos(5.0 * latRad);
         return dist;
     }
 
     void convertLatLonToLocalXY(Scalar latOrg, Scalar lonOrg, Scalar lat, Scalar lon, Scalar& x, Scalar& y) {
-        x = (lon - lonOrg) * meterPerDegLon(lonOrg);
+        x = (lon - lonOrg) * meterPerDegLon(latOrg);
         y = (lat - latOrg) * meterPerDegLat(latOrg);
     }
 
     void convertLocalXYToLatLon(Scalar latOrg, Scalar lonOrg, Scalar x, Scalar y, Scalar& lat, Scalar& lon) {
-        lon = x / meterPerDegLon(lonOrg) + lonOrg;
+        lon = x / meterPerDegLon(latOrg) + lonOrg;
         lat = y / meterPerDegLat(latOrg) + latOrg;
     }
 }
-- 
2.43.0


From 35f20f186bf6cc8eef2f7c46142b9f181bf9fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 33/40] fix: box registration flips the axis of the least
 singular value when a reflection arises

---
 geometry/include/rofl/geometry/box_registration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 36c1452..4ab7ee5 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -190,7 +190,7 @@ namespace rofl {
         else
             d = -1.0;
         SquareMatrix I = SquareMatrix::Identity();
-        I(1, 1) = d;
+        I(DIM - 1, DIM - 1) = d;
 
         R = svd.matrixV() * I * svd.matrixU().transpose();
         transl = meanDst - R * meanSrc;
-- 
2.43.0


From 20ccc91bdce5086c07fd6822223d876d6d12f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:05 +0000
Subject: [PATCH 34/40] fix: PnebiLUT of order 0 does not read the missing
 values of order 1

---
 common/src/functions.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index bbb57c1..b391860 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -257,14 +257,17 @@ namespace rofl {
         lut_.clear();
         lut_.reserve(lutNum);
         lut_.push_back(PnebiPoint(n, x));
-        deriv = lut_.back().y[1] - lut_.back().y[0]; // Initial value of deriv is -2.0
+        std::vector<double> y01(2);
+        evaluatePnebiVector(1, x, y01);
+        deriv = y01[1] - y01[0]; // Initial value of deriv is -2.0
         y0prev = lut_.back().y[0];
         //  std::cout << "x " << x << ", deriv " << deriv << std::endl;
         for (int i = 1; i < lutNum; ++i) {
             x = x - tol / deriv;
             lut_.push_back(PnebiPoint(n, x));
             ratio = deriv * (y0prev - lut_.back().y[0]) / tol;
-            deriv = std::min(std::max(lut_.back().y[1] - lut_.back().y[0], ratio), -10.0 * std::numeric_limits<double>::min());
+            evaluatePnebiVector(1, x, y01);
+            deriv = std::min(std::max(y01[1] - y01[0], ratio), -10.0 * std::numeric_limits<double>::min());
             //            std::cout << "x " << x << ", y[0] " << lut_.back().y[0] << " (incr prev y[0] " << (lut_.back().y[0] - y0prev) << "), "
             //                      << "real deriv " << (lut_.back().y[1] - lut_.back().y[0]) << ", deriv " << deriv << ", ratio " << ratio << std::endl;
             y0prev = lut_.back().y[0];
-- 
2.43.0


From a9a527062cf126084a86cb9a5fa20b8a777d9ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:05 +0000
Subject: [PATCH 35/40] fix: evaluatePnebiVector is accurate also when x is
 large w.r.t. the maximum order

---
 common/src/functions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index b391860..de7cc11 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -189,7 +189,9 @@ namespace rofl {
         seqPrev = 0.0; // bip
         seqCurr = 1.0; // bi
         seqNext = 0.0; // bim
-        for (int k = 2 * (n + (int) sqrt(40.0 * n)); k >= 0; --k) {
+        // The start order must grow also with x, since the values of order k become 
+        // negligible only when k^2 >> x
+        for (int k = 2 * (n + (int) sqrt(40.0 * std::max<double>(n, std::min(x, 1e+6)))); k >= 0; --k) {
             seqNext = seqPrev + factor * k * seqCurr;
             seqPrev = seqCurr;
             seqCurr = seqNext;
-- 
2.43.0


From 288ff21eaa9fb7f2b5fe02f4546db51f8503d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:26 +0000
Subject: [PATCH 36/40] fix: K_2PI is 2*pi with full precision, so that 2*pi is
 normalized to 0

---
 common/include/rofl/common/functions.h | 2 +-
 geometry/include/rofl/geometry/types.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/functions.h b/common/include/rofl/common/functions.h
index 6fa8275..281861f 100755
--- a/common/include/rofl/common/functions.h
+++ b/common/include/rofl/common/functions.h
@@ -25,7 +25,7 @@
 
 namespace rofl {
 
-    const double K_2PI = 6.28318530718;
+    const double K_2PI = 6.283185307179586476925;
     const double PNEBI_ARG_MAX = 600.0;
     const double BIG_NUM = 1.0e+10;
     const double SMALL_NUM = 1.0e-10;
diff --git a/geometry/include/rofl/geometry/types.h b/geometry/include/rofl/geometry/types.h
index 9ccf8b5..33ddb9e 100755
--- a/geometry/include/rofl/geometry/types.h
+++ b/geometry/include/rofl/geometry/types.h
@@ -40,7 +40,7 @@ using Scalar = float;
 
 // From C++-20 substitute with: constexpr K_PI = std::numbers::pi_v<float>;
 const Scalar K_PI = 3.141592653589793238463;
-const Scalar K_2PI = 6.28318530718;
+const Scalar K_2PI = 6.283185307179586476925;
 
 using AngleInterval = std::pair<Scalar, Scalar>;
 
-- 
2.43.0


From af0a6bd49d6f34e25a38182210711fc44dd379db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:09 +0000
Subject: [PATCH 37/40] fix: VectorArray *= scalar when the scalar is an item
 of the vector itself

---
 common/include/rofl/common/vector_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b1b512b..2ea23dd 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -85,8 +85,9 @@ namespace rofl {
 		}
 
 		Type& operator*=(const Value& scalar) {
+			const Value factor = scalar; // copied, since it may be an item of this vector
 			for (size_t d = 0; d < Dim; ++d) {
-				(*this)[d] *= scalar;
+				(*this)[d] *= factor;
 			}
 			return *this;
 		}
-- 
2.43.0


From 4338b25ca4f5991614240dbdc207f77323c2b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 38/40] fix: adaptTildeInPaths rewrites only ~ and ~/, not
 names like ~user

---
 common/src/param_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index c22b2cb..62eeba2 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -134,7 +134,7 @@ namespace rofl {
             std::string homePath = getenv("HOME");
             homePath += "/"; // getenv() return only /home/user -> need to add another
             // std::cout << "homePath " << homePath << std::endl;
-            if (!second.empty() && second.front() == '~')
+            if (second == "~" || second.compare(0, 2, "~/") == 0)
             {
                 second.replace(0, 2, homePath);
                 std::cout << "second WITHOUT tilde: " << second << std::endl;
-- 
2.43.0


From 79f6aa896f447098073d2079e268b60c4ae72f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:20 +0000
Subject: [PATCH 39/40] fix: PointCloudPlaneAligner compares distances with the
 tolerance whatever the scale of the plane coefficients

---
 pcl/include/rofl/pcl/point_cloud_plane_aligner.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pcl/include/rofl/pcl/point_cloud_plane_aligner.h b/pcl/include/rofl/pcl/point_cloud_plane_aligner.h
index f0c2fa8..5482410 100644
--- a/pcl/include/rofl/pcl/point_cloud_plane_aligner.h
+++ b/pcl/include/rofl/pcl/point_cloud_plane_aligner.h
@@ -105,11 +105,12 @@ namespace rofl {
             Vector3 ax, ay, az, centerPlane;
             Matrix3 Rot;
             Vector4 centroid;
-            Scalar planeConst, dist, projZ;
+            Scalar planeConst, dist, projZ, normalLen;
             int idxMax, inlierNum;
 
             // Sets the plane normal (plane coeffs 0:2) as axis Z
             az = plane_.head<3>();
+            normalLen = az.norm();
             az.normalize();
             az.cwiseAbs().maxCoeff(&idxMax);
             planeConst = -plane_(3);
@@ -137,7 +138,7 @@ namespace rofl {
             centerPlane = Vector3::Zero();
             inlierNum = 0;
             for (auto& p : cloud_->points) {
-                dist = fabs(p.x * plane_(0) + p.y * plane_(1) + p.z * plane_(2) + plane_(3));
+                dist = fabs(p.x * plane_(0) + p.y * plane_(1) + p.z * plane_(2) + plane_(3)) / normalLen;
                 if (dist < planeTol_) {
                     centerPlane(0) += p.x;
                     centerPlane(1) += p.y;
-- 
2.43.0


From 501c3b3ca4f07dff9a68cedf4ae666d05fc5a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:00 +0000
Subject: [PATCH 40/40] fix: ROFL_VAR7 prints the value of its sixth argument

---
 common/include/rofl/common/macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/macros.h b/common/include/rofl/common/macros.h
index ed0499d..a75de51 100644
--- a/common/include/rofl/common/macros.h
+++ b/common/include/rofl/common/macros.h
@@ -52,7 +52,7 @@
 
 #define ROFL_VAR7(X1,X2,X3,X4,X5,X6,X7) std::cout << ROFL_FILENAME(__FILE__) << "," << __LINE__ << ": " << (#X1) << " " << (X1) \
    << ", " << (#X2) << " " << (X2) << ", " << (#X3) << " " << (X3) << ", " << (#X4) << " " << (X4) \
-   << ", " << (#X5) << " " << (X5) << ", " << (#X6) << " " << (X7) << ", " << (#X7) << " " << (X7) << std::endl;
+   << ", " << (#X5) << " " << (X5) << ", " << (#X6) << " " << (X6) << ", " << (#X7) << " " << (X7) << std::endl;
 
 #define ROFL_ASSERT(COND) if (!(COND)) { std::cerr << __FILE__ << "," << __LINE__ << ": assertion failed on " << #COND << std::endl; exit(-1); }
 
-- 
2.43.0

