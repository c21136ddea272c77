From ef272440dc98b29d44b4caa125b04e593de9afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 01/38] fix: read-out of scalar (terminal) diagrams shifted by
 a negative amount

---
 include/dd/Package.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1986f39..df4e74f 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2637,7 +2637,7 @@ namespace dd {
         }
 
         CVec getVector(const vEdge& e) {
-            const std::size_t dim = 2ULL << e.p->v;
+            const std::size_t dim = 1ULL << (e.p->v + 1);
             // allocate resulting vector
             auto vec = CVec(dim, {0.0, 0.0});
             getVector(e, Complex::one, 0, vec);
@@ -2667,7 +2667,7 @@ namespace dd {
         }
 
         void printVector(const vEdge& e) {
-            const std::size_t element = 2ULL << e.p->v;
+            const std::size_t element = 1ULL << (e.p->v + 1);
             for (auto i = 0ULL; i < element; i++) {
                 const auto amplitude = getValueByPath(e, i);
                 for (Qubit j = e.p->v; j >= 0; j--) {
@@ -2683,7 +2683,7 @@ namespace dd {
         }
 
         void printMatrix(const mEdge& e) {
-            const std::size_t element = 2ULL << e.p->v;
+            const std::size_t element = 1ULL << (e.p->v + 1);
             for (auto i = 0ULL; i < element; i++) {
                 for (auto j = 0ULL; j < element; j++) {
                     const auto     amplitude = getValueByPath(e, i, j);
@@ -2699,7 +2699,7 @@ namespace dd {
         }
 
         CMat getMatrix(const mEdge& e) {
-            const std::size_t dim = 2ULL << e.p->v;
+            const std::size_t dim = 1ULL << (e.p->v + 1);
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
             getMatrix(e, Complex::one, 0, 0, mat);
@@ -2737,7 +2737,7 @@ namespace dd {
 
         CMat getDensityMatrix(dEdge& e) {
             dEdge::applyDmChangesToEdge(e);
-            const std::size_t dim = 2ULL << e.p->v;
+            const std::size_t dim = 1ULL << (e.p->v + 1);
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
             getDensityMatrix(e, Complex::one, 0, 0, mat);
-- 
2.43.0


From d67572b08f4ad2acf3877883e7ce3e0d71d5b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 02/38] fix: identity on upper qubits reused the cached
 identity on the qubits from 0

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index df4e74f..3838450 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2180,7 +2180,7 @@ namespace dd {
             if (leastSignificantQubit == 0 && idTable[static_cast<std::size_t>(mostSignificantQubit)].p != nullptr) {
                 return idTable[static_cast<std::size_t>(mostSignificantQubit)];
             }
-            if (mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
+            if (leastSignificantQubit == 0 && mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
                 idTable[static_cast<std::size_t>(mostSignificantQubit)] = makeDDNode(mostSignificantQubit,
                                                                                      std::array{idTable[static_cast<std::size_t>(mostSignificantQubit - 1)],
                                                                                                 mEdge::zero,
-- 
2.43.0


From cc073a839ea23c0209126d38ac01c5d26f83fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 03/38] fix: composite gates with controls on a register that
 does not start at qubit 0

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 3838450..3fcede0 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1596,7 +1596,7 @@ namespace dd {
                 return ResultEdge::zero;
             }
 
-            if (var == start - 1) {
+            if (var == start - 1 || (x.isTerminal() && y.isTerminal())) {
                 return ResultEdge::terminal(cn.mulCached(x.w, y.w));
             }
 
-- 
2.43.0


From 71ae792fb01b6670179c6f83dfeab824c568fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 04/38] fix: two-qubit gates on 128 qubits lacked the levels
 above the targets

---
 include/dd/Package.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 3fcede0..6f3f45d 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -619,7 +619,9 @@ namespace dd {
             auto e = makeDDNode(z, em0);
 
             // process lines above the larger target (by creating identity structures)
-            for (++z; z < static_cast<Qubit>(n + start); ++z) {
+            // (compare with the last qubit; one past it is not representable on the largest supported register)
+            while (z < static_cast<Qubit>(n - 1 + start)) {
+                ++z;
                 e = makeDDNode(z, std::array{e, mEdge::zero, mEdge::zero, e});
             }
 
-- 
2.43.0


From 86e5f72803d592abe0c0af1dbae4f3ff4757bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 05/38] fix: Kronecker product with a scaled identity dropped
 the scale

---
 include/dd/Package.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 6f3f45d..ca170e6 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1986,15 +1986,15 @@ namespace dd {
             constexpr std::size_t n = std::tuple_size_v<decltype(x.p->e)>;
             // special case handling for matrices
             if constexpr (n == NEDGE) {
-                if (x.p->isIdentity()) {
-                    auto idx = incIdx ? static_cast<Qubit>(y.p->v + 1) : y.p->v;
+                if (incIdx && x.p->isIdentity()) {
+                    auto idx = static_cast<Qubit>(y.p->v + 1);
                     auto e   = makeDDNode(idx, std::array{y, Edge<Node>::zero, Edge<Node>::zero, y});
                     for (auto i = 0; i < x.p->v; ++i) {
-                        idx = incIdx ? static_cast<Qubit>(e.p->v + 1) : e.p->v;
+                        idx = static_cast<Qubit>(e.p->v + 1);
                         e   = makeDDNode(idx, std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
                     }
 
-                    e.w = cn.getCached(CTEntry::val(y.w.r), CTEntry::val(y.w.i));
+                    e.w = cn.mulCached(x.w, y.w);
                     computeTable.insert(x, y, {e.p, e.w});
                     return e;
                 }
-- 
2.43.0


From 87417f7cd9a35c434632449538857e5e8b33ca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 06/38] fix: bucket index of the complex table overflowed for
 values above 2^63/65536

---
 include/dd/ComplexTable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 0f29cb1..b3e9757 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -130,8 +130,8 @@ namespace dd {
         // linear (clipped) hash function
         static constexpr std::int64_t hash(const fp val) {
             assert(val >= 0);
-            auto key = static_cast<std::int64_t>(std::nearbyint(val * MASK));
-            return std::min<std::int64_t>(key, MASK);
+            // clip before the conversion, since large values do not fit into an integer
+            return static_cast<std::int64_t>(std::min<fp>(std::nearbyint(val * MASK), MASK));
         }
 
         // access functions
-- 
2.43.0


From bf9635d22b8f31b3b136198facad259a62d625d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 07/38] fix: transfer read the top of an empty stack and lost
 shared successors

---
 include/dd/Package.hpp | 96 ++++++++++--------------------------------
 1 file changed, 23 insertions(+), 73 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index ca170e6..c1269c7 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2882,86 +2882,36 @@ namespace dd {
         // transfers a decision diagram from another package to this package
         template<class Edge>
         Edge transfer(Edge& original) {
-            // POST ORDER TRAVERSAL USING ONE STACK   https://www.geeksforgeeks.org/iterative-postorder-traversal-using-stack/
-            Edge              root{};
-            std::stack<Edge*> stack;
+            std::unordered_map<decltype(original.p), Edge> mappedNodes{};
+            return transfer(original, mappedNodes);
+        }
 
-            std::unordered_map<decltype(original.p), decltype(original.p)> mappedNode{};
+    private:
+        template<class Edge>
+        Edge transfer(const Edge& original, std::unordered_map<decltype(original.p), Edge>& mappedNodes) {
+            if (original.isTerminal()) {
+                return {original.p, cn.lookup(original.w)}; // terminal -> static
+            }
 
-            Edge* currentEdge = &original;
-            if (!currentEdge->isTerminal()) {
+            auto it = mappedNodes.find(original.p);
+            if (it == mappedNodes.end()) {
                 constexpr std::size_t n = std::tuple_size_v<decltype(original.p->e)>;
-                do {
-                    while (currentEdge != nullptr && !currentEdge->isTerminal()) {
-                        for (std::size_t i = n - 1; i > 0; --i) {
-                            auto& edge = currentEdge->p->e[i];
-                            if (edge.isTerminal()) {
-                                continue;
-                            }
-                            if (edge.w.approximatelyZero()) {
-                                continue;
-                            }
-                            if (mappedNode.find(edge.p) != mappedNode.end()) {
-                                continue;
-                            }
-
-                            // non-zero edge to be included
-                            stack.push(&edge);
-                        }
-                        stack.push(currentEdge);
-                        currentEdge = &currentEdge->p->e[0];
-                    }
-                    currentEdge = stack.top();
-                    stack.pop();
-
-                    bool hasChild = false;
-                    for (std::size_t i = 1; i < n && !hasChild; ++i) {
-                        auto& edge = currentEdge->p->e[i];
-                        if (edge.w.approximatelyZero()) {
-                            continue;
-                        }
-                        if (mappedNode.find(edge.p) != mappedNode.end()) {
-                            continue;
-                        }
-                        hasChild = edge.p == stack.top()->p;
-                    }
-
-                    if (hasChild) {
-                        Edge* temp = stack.top();
-                        stack.pop();
-                        stack.push(currentEdge);
-                        currentEdge = temp;
-                    } else {
-                        if (mappedNode.find(currentEdge->p) != mappedNode.end()) {
-                            currentEdge = nullptr;
-                            continue;
-                        }
-                        std::array<Edge, n> edges{};
-                        for (std::size_t i = 0; i < n; i++) {
-                            if (currentEdge->p->e[i].isTerminal()) {
-                                edges[i].p = currentEdge->p->e[i].p;
-                            } else {
-                                edges[i].p = mappedNode[currentEdge->p->e[i].p];
-                            }
-                            edges[i].w = cn.lookup(currentEdge->p->e[i].w);
-                        }
-                        root                       = makeDDNode(currentEdge->p->v, edges);
-                        mappedNode[currentEdge->p] = root.p;
-                        currentEdge                = nullptr;
-                    }
-                } while (!stack.empty());
-
-                auto w = cn.getCached(dd::ComplexTable<>::Entry::val(original.w.r), dd::ComplexTable<>::Entry::val(original.w.i));
-                dd::ComplexNumbers::mul(w, root.w, w);
-                root.w = cn.lookup(w);
-                cn.returnToCache(w);
-            } else {
-                root.p = original.p; // terminal -> static
-                root.w = cn.lookup(original.w);
+                std::array<Edge, n>   edges{};
+                for (std::size_t i = 0; i < n; i++) {
+                    edges[i] = transfer(original.p->e[i], mappedNodes);
+                }
+                it = mappedNodes.emplace(original.p, makeDDNode(original.p->v, edges)).first;
             }
+
+            auto root = it->second;
+            auto w    = cn.getCached();
+            dd::ComplexNumbers::mul(w, root.w, original.w);
+            root.w = cn.lookup(w);
+            cn.returnToCache(w);
             return root;
         }
 
+    public:
         ///
         /// Deserialization
         /// Note: do not rely on the binary format being portable across different architectures/platforms
-- 
2.43.0


From fe101b5ebd3352400a175da34843a20a74d276ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 08/38] fix: reducing ancillaries dropped weights of shared and
 renormalised successors

---
 include/dd/Package.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index c1269c7..c3c7a24 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2335,10 +2335,14 @@ namespace dd {
                     if (e.p->e[i].isTerminal()) {
                         edges[i] = e.p->e[i];
                     } else {
-                        edges[i] = reduceAncillaeRecursion(f.p->e[i], ancillary, lowerbound, regular);
-                        for (auto j = i + 1; j < NEDGE; ++j) {
+                        // reduce the successor node once and apply the weights of all edges leading to it
+                        auto       successor = mEdge{e.p->e[i].p, Complex::one};
+                        const auto reduced   = reduceAncillaeRecursion(successor, ancillary, lowerbound, regular);
+                        for (auto j = i; j < NEDGE; ++j) {
                             if (e.p->e[i].p == e.p->e[j].p) {
-                                edges[j] = edges[i];
+                                auto c   = cn.mulCached(reduced.w, e.p->e[j].w);
+                                edges[j] = mEdge{reduced.p, cn.lookup(c)};
+                                cn.returnToCache(c);
                                 handled.set(j);
                             }
                         }
@@ -2346,23 +2350,25 @@ namespace dd {
                     handled.set(i);
                 }
             }
-            f = makeDDNode(f.p->v, edges);
+            f      = makeDDNode(f.p->v, edges);
+            auto c = cn.mulCached(f.w, e.w);
 
             // something to reduce for this qubit
             if (f.p->v >= 0 && ancillary[static_cast<std::size_t>(f.p->v)]) {
                 if (regular) {
                     if (f.p->e[1].w != Complex::zero || f.p->e[3].w != Complex::zero) {
                         f = makeDDNode(f.p->v, std::array{f.p->e[0], mEdge::zero, f.p->e[2], mEdge::zero});
+                        ComplexNumbers::mul(c, c, f.w);
                     }
                 } else {
                     if (f.p->e[2].w != Complex::zero || f.p->e[3].w != Complex::zero) {
                         f = makeDDNode(f.p->v, std::array{f.p->e[0], f.p->e[1], mEdge::zero, mEdge::zero});
+                        ComplexNumbers::mul(c, c, f.w);
                     }
                 }
             }
 
-            auto c = cn.mulCached(f.w, e.w);
-            f.w    = cn.lookup(c);
+            f.w = cn.lookup(c);
             cn.returnToCache(c);
             return f;
         }
-- 
2.43.0


From 28991d1482a6d37ab72938bee50cec05a9f7c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 09/38] fix: results that vanish within the tolerance kept a
 node below weight zero

---
 include/dd/Package.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index c3c7a24..616686d 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1069,6 +1069,9 @@ namespace dd {
                 auto w = cn.getTemporary();
                 dd::ComplexNumbers::mul(w, newedge.w, e.w);
                 newedge.w = cn.lookup(w);
+                if (newedge.w.exactlyZero()) {
+                    return Edge<Node>::zero;
+                }
             }
 
             return newedge;
@@ -1951,6 +1954,11 @@ namespace dd {
                 e.w = cn.lookup(e.w);
             }
 
+            // the product of the weights may vanish within the tolerance
+            if (e.w.exactlyZero()) {
+                return Edge::zero;
+            }
+
             return e;
         }
 
@@ -2370,7 +2378,7 @@ namespace dd {
 
             f.w = cn.lookup(c);
             cn.returnToCache(c);
-            return f;
+            return f.w.exactlyZero() ? mEdge::zero : f;
         }
 
         vEdge reduceGarbageRecursion(vEdge& e, const std::vector<bool>& garbage, Qubit lowerbound) {
-- 
2.43.0


From 424f4e259ce031e2ca7c0e5fff10e5a0cbaf7364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 10/38] fix: partial trace used a wrong level when qubits above
 the matrix were listed

---
 include/dd/Package.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 616686d..c6fab48 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2047,7 +2047,7 @@ namespace dd {
 
     private:
         /// TODO: introduce a compute table for the trace?
-        mEdge trace(const mEdge& a, const std::vector<bool>& eliminate, std::size_t alreadyEliminated = 0) {
+        mEdge trace(const mEdge& a, const std::vector<bool>& eliminate) {
             if (a.w.approximatelyZero()) {
                 return mEdge::zero;
             }
@@ -2065,14 +2065,13 @@ namespace dd {
             }
 
             if (eliminate[static_cast<std::size_t>(v)]) {
-                auto elims = alreadyEliminated + 1;
-                auto r     = mEdge::zero;
+                auto r = mEdge::zero;
 
-                auto t0 = trace(a.p->e[0], eliminate, elims);
+                auto t0 = trace(a.p->e[0], eliminate);
                 r       = add2(r, t0);
                 auto r1 = r;
 
-                auto t1 = trace(a.p->e[3], eliminate, elims);
+                auto t1 = trace(a.p->e[3], eliminate);
                 r       = add2(r, t1);
                 auto r2 = r;
 
@@ -2092,15 +2091,16 @@ namespace dd {
                     cn.returnToCache(r2.w);
                 }
 
-                return r;
+                return r.w.exactlyZero() ? mEdge::zero : r;
             }
 
             std::array<mEdge, NEDGE> edge{};
             std::transform(a.p->e.cbegin(),
                            a.p->e.cend(),
                            edge.begin(),
-                           [&](const mEdge& e) -> mEdge { return trace(e, eliminate, alreadyEliminated); });
-            auto adjustedV = static_cast<Qubit>(static_cast<std::size_t>(a.p->v) - (static_cast<std::size_t>(std::count(eliminate.begin(), eliminate.end(), true)) - alreadyEliminated));
+                           [&](const mEdge& e) -> mEdge { return trace(e, eliminate); });
+            // the new level only depends on the qubits below that are traced out
+            auto adjustedV = static_cast<Qubit>(a.p->v - std::count(eliminate.begin(), eliminate.begin() + a.p->v, true));
             auto r         = makeDDNode(adjustedV, edge);
 
             if (r.w.exactlyOne()) {
@@ -2110,7 +2110,7 @@ namespace dd {
                 ComplexNumbers::mul(c, r.w, a.w);
                 r.w = cn.lookup(c);
             }
-            return r;
+            return r.w.exactlyZero() ? mEdge::zero : r;
         }
 
         bool isCloseToIdentityRecursive(const mEdge& m, std::unordered_set<decltype(m.p)>& visited, dd::fp tol) {
-- 
2.43.0


From 80164503372adb5c75591cd9ec248f34d8bfa682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 11/38] fix: measuring all of 128 qubits with collapse indexed
 the outcome out of range

---
 include/dd/Package.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index c6fab48..e035221 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1146,15 +1146,15 @@ namespace dd {
                 vEdge                e = vEdge::one;
                 std::array<vEdge, 2> edges{};
 
-                for (Qubit p = 0; p < numberOfQubits; p++) {
-                    if (result[static_cast<std::size_t>(p)] == '0') {
+                for (std::size_t p = 0; p < numberOfQubits; p++) {
+                    if (result[p] == '0') {
                         edges[0] = e;
                         edges[1] = vEdge::zero;
                     } else {
                         edges[0] = vEdge::zero;
                         edges[1] = e;
                     }
-                    e = makeDDNode(p, edges, false);
+                    e = makeDDNode(static_cast<Qubit>(p), edges, false);
                 }
                 incRef(e);
                 rootEdge = e;
-- 
2.43.0


From a524006a88faadeac68db7780362353fbf425278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 12/38] fix: clearing the complex table dropped its permanent
 entry 1/2

---
 include/dd/ComplexTable.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index b3e9757..8b0e198 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -388,6 +388,9 @@ namespace dd {
             gcCalls = 0;
             gcRuns  = 0;
             gcLimit = INITIAL_GC_LIMIT;
+
+            // the complex table always contains 1/2 (see constructor)
+            lookup(0.5L)->refCount++;
         };
 
         void print() {
-- 
2.43.0


From 2b93d8bdf6a65c30a371b0c05906407f9989238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 13/38] fix: a new complex table ignored its initial collection
 limit, unlike a cleared one

---
 include/dd/ComplexTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 8b0e198..4d088dc 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -505,7 +505,7 @@ namespace dd {
         // garbage collection
         std::size_t gcCalls = 0;
         std::size_t gcRuns  = 0;
-        std::size_t gcLimit = 100000;
+        std::size_t gcLimit = INITIAL_GC_LIMIT;
 
         inline Entry* findOrInsert(const std::int64_t key, const fp val) {
             [[maybe_unused]] const fp valTol = val + TOLERANCE;
-- 
2.43.0


From 895fbe5bfc3bac9c2942795ce7682c0d8debfcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 14/38] fix: garbageCollect did not report collected density
 matrix nodes

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index e035221..1780c73 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -982,7 +982,7 @@ namespace dd {
                 densityDensityMultiplication.clear();
                 densityNoise.clear();
             }
-            return vCollect > 0 || mCollect > 0 || cCollect > 0;
+            return vCollect > 0 || mCollect > 0 || dCollect > 0 || cCollect > 0;
         }
 
         void clearUniqueTables() {
-- 
2.43.0


From 48424aa637d4bfc259ad1259e9f3223d81147d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 15/38] fix: looking up minus the tolerance returned a negative
 zero

---
 include/dd/ComplexNumbers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexNumbers.hpp b/include/dd/ComplexNumbers.hpp
index 6a45318..dee28a7 100644
--- a/include/dd/ComplexNumbers.hpp
+++ b/include/dd/ComplexNumbers.hpp
@@ -160,7 +160,7 @@ namespace dd {
             if (signR) {
                 auto absr = std::abs(r);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absr < decltype(complexTable)::tolerance()) {
+                if (absr <= decltype(complexTable)::tolerance()) {
                     ret.r = &decltype(complexTable)::zero;
                 } else {
                     ret.r = CTEntry::getNegativePointer(complexTable.lookup(absr));
@@ -173,7 +173,7 @@ namespace dd {
             if (signI) {
                 auto absi = std::abs(i);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absi < decltype(complexTable)::tolerance()) {
+                if (absi <= decltype(complexTable)::tolerance()) {
                     ret.i = &decltype(complexTable)::zero;
                 } else {
                     ret.i = CTEntry::getNegativePointer(complexTable.lookup(absi));
-- 
2.43.0


From a8f367292b7f0c175203186fec0f4ae27a9f9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 16/38] fix: deserializing lost diagrams without nodes and
 followed dangling references in damaged input

---
 include/dd/Package.hpp | 73 ++++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1780c73..d2d2507 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2933,10 +2933,11 @@ namespace dd {
 
         template<class Node, class Edge = Edge<Node>, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
         Edge deserialize(std::istream& is, bool readBinary = false) {
-            auto         result = Edge::zero;
+            // a diagram without nodes consists of the root weight only
+            auto         result = Edge::one;
             ComplexValue rootweight{};
 
-            std::unordered_map<std::int64_t, Node*> nodes{};
+            std::unordered_map<std::int64_t, Edge>  nodes{};
             std::int64_t                            nodeIndex{};
             Qubit                                   v{};
             std::array<ComplexValue, N>             edgeWeights{};
@@ -2950,8 +2951,9 @@ namespace dd {
                     throw std::runtime_error("Wrong Version of serialization file version. version of file: " + std::to_string(version) + "; current version: " + std::to_string(SERIALIZATION_VERSION));
                 }
 
-                if (!is.eof()) {
-                    rootweight.readBinary(is);
+                rootweight.readBinary(is);
+                if (!is) {
+                    throw std::runtime_error("Serialized file is truncated.");
                 }
 
                 while (is.read(reinterpret_cast<char*>(&nodeIndex), sizeof(decltype(nodeIndex)))) {
@@ -2960,7 +2962,13 @@ namespace dd {
                         is.read(reinterpret_cast<char*>(&edgeIndices[i]), sizeof(decltype(edgeIndices[i])));
                         edgeWeights[i].readBinary(is);
                     }
-                    result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
+                    if (!is) {
+                        throw std::runtime_error("Serialized file is truncated.");
+                    }
+                    result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
+                }
+                if (is.gcount() != 0) {
+                    throw std::runtime_error("Serialized file is truncated.");
                 }
             } else {
                 std::string version;
@@ -2983,12 +2991,13 @@ namespace dd {
                 std::smatch      m;
 
                 std::string line;
-                if (std::getline(is, line)) {
-                    if (!std::regex_match(line, m, complexWeightRegex)) {
-                        throw std::runtime_error("Regex did not match second line: " + line);
-                    }
-                    rootweight.fromString(m.str(1), m.str(2));
+                if (!std::getline(is, line)) {
+                    throw std::runtime_error("Serialized file is truncated.");
+                }
+                if (!std::regex_match(line, m, complexWeightRegex)) {
+                    throw std::runtime_error("Regex did not match second line: " + line);
                 }
+                rootweight.fromString(m.str(1), m.str(2));
 
                 while (std::getline(is, line)) {
                     if (line.empty() || line.size() == 1) {
@@ -3009,7 +3018,11 @@ namespace dd {
                     // match 6: real
                     // match 7: imag (without i)
                     nodeIndex = std::stoi(m.str(1));
-                    v         = static_cast<Qubit>(std::stoi(m.str(2)));
+                    if (const auto qubit = std::stoi(m.str(2)); qubit > std::numeric_limits<Qubit>::max()) {
+                        throw std::runtime_error("Serialized node for an invalid qubit: " + m.str(2));
+                    } else {
+                        v = static_cast<Qubit>(qubit);
+                    }
 
                     for (auto edgeIdx = 3U, i = 0U; i < N; i++, edgeIdx += 5) {
                         if (m.str(edgeIdx).empty()) {
@@ -3020,7 +3033,7 @@ namespace dd {
                         edgeWeights[i].fromString(m.str(edgeIdx + 3), m.str(edgeIdx + 4));
                     }
 
-                    result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
+                    result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
                 }
             }
 
@@ -3029,7 +3042,7 @@ namespace dd {
             result.w = cn.lookup(w);
             cn.returnToCache(w);
 
-            return result;
+            return result.w == Complex::zero ? Edge::zero : result;
         }
 
         template<class Node, class Edge = Edge<Node>>
@@ -3045,27 +3058,47 @@ namespace dd {
 
     private:
         template<class Node, class Edge = Edge<Node>, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
-        Edge deserializeNode(std::int64_t index, Qubit v, std::array<std::int64_t, N>& edgeIdx, std::array<ComplexValue, N>& edgeWeight, std::unordered_map<std::int64_t, Node*>& nodes) {
+        Edge deserializeNode(std::int64_t index, Qubit v, std::array<std::int64_t, N>& edgeIdx, std::array<ComplexValue, N>& edgeWeight, std::unordered_map<std::int64_t, Edge>& nodes) {
             if (index == -1) {
                 return Edge::zero;
             }
+            if (v < 0 || static_cast<std::size_t>(v) >= nqubits) {
+                throw std::runtime_error("Serialized node for qubit " + std::to_string(static_cast<int>(v)) + ", but the package has only " + std::to_string(nqubits) + " qubits.");
+            }
 
             std::array<Edge, N> edges{};
+            Qubit               level = -2; // of the non-zero successors
             for (auto i = 0U; i < N; ++i) {
                 if (edgeIdx[i] == -2) {
                     edges[i] = Edge::zero;
                 } else {
-                    if (edgeIdx[i] == -1) {
-                        edges[i] = Edge::one;
-                    } else {
-                        edges[i].p = nodes[edgeIdx[i]];
+                    edges[i] = Edge::one;
+                    if (edgeIdx[i] != -1) {
+                        const auto successor = nodes.find(edgeIdx[i]);
+                        if (successor == nodes.end()) {
+                            throw std::runtime_error("Serialized node refers to an undefined node: " + std::to_string(edgeIdx[i]));
+                        }
+                        edges[i] = successor->second;
+                    }
+                    // the weight of a successor differs from one if it was not serialized in normalized form
+                    auto weight = cn.getCached(edgeWeight[i].r, edgeWeight[i].i);
+                    ComplexNumbers::mul(weight, weight, edges[i].w);
+                    edges[i].w = cn.lookup(weight);
+                    cn.returnToCache(weight);
+                    if (edges[i].w == Complex::zero) {
+                        edges[i] = Edge::zero;
+                        continue;
+                    }
+                    // successors are either all terminal or all on the next lower level
+                    if ((!edges[i].isTerminal() && edges[i].p->v != v - 1) || (level != -2 && edges[i].p->v != level)) {
+                        throw std::runtime_error("Serialized node for qubit " + std::to_string(static_cast<int>(v)) + " has a successor for qubit " + std::to_string(static_cast<int>(edges[i].p->v)));
                     }
-                    edges[i].w = cn.lookup(edgeWeight[i]);
+                    level = edges[i].p->v;
                 }
             }
 
             auto newedge = makeDDNode(v, edges);
-            nodes[index] = newedge.p;
+            nodes[index] = newedge;
 
             // reset
             edgeIdx.fill(-2);
-- 
2.43.0


From 6162660889ff328d6c7009e549b151434c63b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 17/38] fix: text serialization of states rounded weights to 16
 digits

---
 include/dd/Export.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dd/Export.hpp b/include/dd/Export.hpp
index eb3c2b5..215edd0 100644
--- a/include/dd/Export.hpp
+++ b/include/dd/Export.hpp
@@ -631,7 +631,7 @@ namespace dd {
             basic.w.writeBinary(os);
         } else {
             os << SERIALIZATION_VERSION << "\n";
-            os << basic.w.toString(false, 16) << "\n";
+            os << basic.w.toString(false, std::numeric_limits<dd::fp>::max_digits10) << "\n";
         }
         std::int64_t                             nextIndex = 0;
         std::unordered_map<vNode*, std::int64_t> nodeIndex{};
@@ -711,7 +711,7 @@ namespace dd {
                             auto& edge = node->p->e.at(i);
                             if (!edge.w.approximatelyZero()) {
                                 const std::int64_t edgeIdx = edge.isTerminal() ? -1 : nodeIndex[edge.p];
-                                os << edgeIdx << " " << edge.w.toString(false, 16);
+                                os << edgeIdx << " " << edge.w.toString(false, std::numeric_limits<dd::fp>::max_digits10);
                             }
                             os << ")";
                         }
@@ -754,7 +754,7 @@ namespace dd {
                     os << " (";
                     if (!edge.w.approximatelyZero()) {
                         const std::int64_t edgeIdx = edge.isTerminal() ? -1 : nodeIndex[edge.p];
-                        os << edgeIdx << " " << edge.w.toString(false, 16);
+                        os << edgeIdx << " " << edge.w.toString(false, std::numeric_limits<dd::fp>::max_digits10);
                     }
                     os << ")";
                 }
-- 
2.43.0


From 9ff9c9d4e9b306788660a710b66acf3418a63eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 18/38] fix: deserializing accepted successors that end on
 different qubits

---
 include/dd/Package.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index d2d2507..27b4a5a 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -3067,7 +3067,7 @@ namespace dd {
             }
 
             std::array<Edge, N> edges{};
-            Qubit               level = -2; // of the non-zero successors
+            Qubit               lowest = -1; // lowest qubit below the non-zero successors
             for (auto i = 0U; i < N; ++i) {
                 if (edgeIdx[i] == -2) {
                     edges[i] = Edge::zero;
@@ -3089,11 +3089,16 @@ namespace dd {
                         edges[i] = Edge::zero;
                         continue;
                     }
-                    // successors are either all terminal or all on the next lower level
-                    if ((!edges[i].isTerminal() && edges[i].p->v != v - 1) || (level != -2 && edges[i].p->v != level)) {
-                        throw std::runtime_error("Serialized node for qubit " + std::to_string(static_cast<int>(v)) + " has a successor for qubit " + std::to_string(static_cast<int>(edges[i].p->v)));
+                    // successors belong to the next lower qubit and end on the same qubit
+                    Qubit low = v;
+                    for (auto e = edges[i]; !e.isTerminal();) {
+                        low = e.p->v;
+                        e   = *std::find_if(e.p->e.begin(), e.p->e.end(), [](const Edge& s) { return s.w != Complex::zero; });
                     }
-                    level = edges[i].p->v;
+                    if ((!edges[i].isTerminal() && edges[i].p->v != v - 1) || (lowest != -1 && lowest != low)) {
+                        throw std::runtime_error("Serialized node for qubit " + std::to_string(static_cast<int>(v)) + " has successors for the wrong qubits.");
+                    }
+                    lowest = low;
                 }
             }
 
-- 
2.43.0


From 4fcac4634f22f4212d81e193557a064b2c73f12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 19/38] fix: exporting or adding the amplitudes of the zero
 state or a scalar wrote nothing

---
 include/dd/Package.hpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 27b4a5a..80fd523 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2821,10 +2821,6 @@ namespace dd {
             cn.returnToCache(a);
         }
         void exportAmplitudes(const vEdge& edge, std::ostream& oss, dd::QubitCount nq, bool binary = false) {
-            if (edge.isTerminal()) {
-                // TODO special treatment
-                return;
-            }
             auto weight = cn.getCached(1., 0.);
             exportAmplitudesRec(edge, oss, "", weight, nq, binary);
             cn.returnToCache(weight);
@@ -2857,10 +2853,6 @@ namespace dd {
             cn.returnToCache(a);
         }
         void exportAmplitudes(const vEdge& edge, std::vector<std::complex<dd::fp>>& amplitudes, dd::QubitCount nq) {
-            if (edge.isTerminal()) {
-                // TODO special treatment
-                return;
-            }
             auto weight = cn.getCached(1., 0.);
             exportAmplitudesRec(edge, amplitudes, weight, nq, 0);
             cn.returnToCache(weight);
@@ -2885,10 +2877,6 @@ namespace dd {
             addAmplitudesRec(edge.p->e[1], amplitudes, amp, level - 1, idx << 1 | 1ULL);
         }
         void addAmplitudes(const vEdge& edge, std::vector<std::complex<dd::fp>>& amplitudes, dd::QubitCount nq) {
-            if (edge.isTerminal()) {
-                // TODO special treatment
-                return;
-            }
             ComplexValue a{1., 0.};
             addAmplitudesRec(edge, amplitudes, a, nq, 0);
         }
-- 
2.43.0


From c9d4c32d34416818eafdd670892a54c4483c33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 20/38] fix: numbers around the tolerance were formatted as
 (1+i)

---
 include/dd/ComplexValue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexValue.hpp b/include/dd/ComplexValue.hpp
index 00d9444..3331563 100644
--- a/include/dd/ComplexValue.hpp
+++ b/include/dd/ComplexValue.hpp
@@ -197,11 +197,11 @@ namespace dd {
             }
             if (std::abs(imag) > tol) {
                 if (formatted) {
-                    if (std::abs(real - imag) <= tol) {
+                    if (std::abs(real) > tol && std::abs(real - imag) <= tol) {
                         ss << "(1+i)";
                         return ss.str();
                     }
-                    if (std::abs(real + imag) <= tol) {
+                    if (std::abs(real) > tol && std::abs(real + imag) <= tol) {
                         ss << "(1-i)";
                         return ss.str();
                     }
-- 
2.43.0


From e4e9b2a24480afe8f25a170e23625f5b22452bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 21/38] fix: formatting large numbers counted up to them

---
 include/dd/ComplexValue.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dd/ComplexValue.hpp b/include/dd/ComplexValue.hpp
index 3331563..8449edc 100644
--- a/include/dd/ComplexValue.hpp
+++ b/include/dd/ComplexValue.hpp
@@ -73,7 +73,13 @@ namespace dd {
         static auto getLowestFraction(const double x, const std::uint64_t maxDenominator = 1U << 10, const fp tol = dd::ComplexTable<>::tolerance()) {
             assert(x >= 0.);
 
-            std::pair<std::uint64_t, std::uint64_t> lowerBound{0U, 1U};
+            // from here on, every floating point number is an integer
+            constexpr fp largest = 9007199254740992.;
+            if (x >= largest) {
+                return std::pair{static_cast<std::uint64_t>(std::min(x, 1024. * largest)), static_cast<std::uint64_t>(1U)};
+            }
+            // start right below the integer part of x instead of counting up to it
+            std::pair<std::uint64_t, std::uint64_t> lowerBound{x >= 2. ? static_cast<std::uint64_t>(x) - 1U : 0U, 1U};
             std::pair<std::uint64_t, std::uint64_t> upperBound{1U, 0U};
 
             while ((lowerBound.second <= maxDenominator) && (upperBound.second <= maxDenominator)) {
-- 
2.43.0


From 7a4fb513fa85add209e75179c25801ee10b0ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 22/38] fix: graph exports gave distinct nodes the same label

---
 include/dd/Export.hpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/dd/Export.hpp b/include/dd/Export.hpp
index 215edd0..084643f 100644
--- a/include/dd/Export.hpp
+++ b/include/dd/Export.hpp
@@ -162,7 +162,7 @@ namespace dd {
         os << "digraph \"DD\" {graph[];node[shape=plain];edge[arrowhead=none]\n";
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << "root->";
         if (e.isTerminal()) {
             os << "t";
@@ -187,7 +187,7 @@ namespace dd {
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p);
         auto mag      = thicknessFromMagnitude(e.w);
         auto color    = colorFromPhase(e.w);
         os << "root->";
@@ -209,7 +209,7 @@ namespace dd {
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p);
         auto mag      = thicknessFromMagnitude(e.w);
         auto color    = colorFromPhase(e.w);
         os << "root->";
@@ -253,7 +253,7 @@ namespace dd {
     }
 
     [[maybe_unused]] static std::ostream& modernNode(const mEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << nodelabel << "[label=<";
         os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
         os << R"(<tr><td colspan="2" rowspan="2" port="0" href="javascript:;" border="0" tooltip=")" << conditionalFormat(e.p->e[0].w, formatAsPolar) << "\">" << (e.p->e[0].w.approximatelyZero() ? "&nbsp;0 " : "<font color=\"white\">&nbsp;0 </font>")
@@ -270,7 +270,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& modernNode(const vEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << nodelabel << "[label=<";
         os << R"(<font point-size="8"><table border="1" cellspacing="0" cellpadding="0" style="rounded">)";
         os << R"(<tr><td colspan="2" border="0" cellpadding="1"><font point-size="20">q<sub><font point-size="12">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -280,7 +280,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& classicNode(const mEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << nodelabel << "[shape=circle, width=0.53, fixedsize=true, label=<";
         os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
         os << R"(<tr><td colspan="4"><font point-size="18">q<sub><font point-size="10">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -318,7 +318,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& classicNode(const vEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << nodelabel << "[shape=circle, width=0.46, fixedsize=true, label=<";
         os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
         os << R"(<tr><td colspan="2"><font point-size="18">q<sub><font point-size="10">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -342,7 +342,7 @@ namespace dd {
     template<class Edge>
     static std::ostream& memoryNode(const Edge& e, std::ostream& os) {
         constexpr std::size_t n         = std::tuple_size_v<decltype(e.p->e)>;
-        auto                  nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto                  nodelabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << nodelabel << "[label=<";
         os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
         os << R"(<tr><td colspan=")" << n << R"(" border="1" sides="B">)" << std::hex << reinterpret_cast<std::uintptr_t>(e.p) << std::dec << " ref: " << e.p->ref << "</td></tr>";
@@ -364,8 +364,8 @@ namespace dd {
     }
 
     [[maybe_unused]] static std::ostream& bwEdge(const mEdge& from, const mEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p);
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p);
 
         os << fromlabel << ":" << idx << ":";
         if (classic) {
@@ -405,8 +405,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& bwEdge(const vEdge& from, const vEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, [[maybe_unused]] bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p);
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p);
 
         os << fromlabel << ":" << idx << ":";
         os << (idx == 0 ? "sw" : "se") << "->";
@@ -429,8 +429,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& coloredEdge(const mEdge& from, const mEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p);
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p);
 
         os << fromlabel << ":" << idx << ":";
         if (classic) {
@@ -468,8 +468,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& coloredEdge(const vEdge& from, const vEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, [[maybe_unused]] bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p);
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p);
 
         os << fromlabel << ":" << idx << ":";
         os << (idx == 0 ? "sw" : "se") << "->";
@@ -491,8 +491,8 @@ namespace dd {
     }
     template<class Edge>
     static std::ostream& memoryEdge(const Edge& from, const Edge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p);
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p);
 
         os << fromlabel << ":" << idx << ":s->";
         if (to.isTerminal()) {
-- 
2.43.0


From dcc7d37ebb2648a6123d7f86555e5094d38693ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 23/38] fix: extracting a density matrix removed the marks of
 the given edge

---
 include/dd/Package.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 80fd523..f0498ea 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2752,12 +2752,14 @@ namespace dd {
         }
 
         CMat getDensityMatrix(dEdge& e) {
-            dEdge::applyDmChangesToEdge(e);
-            const std::size_t dim = 1ULL << (e.p->v + 1);
+            // work on a copy since applying the changes removes the marks from the edge's pointer
+            auto eCopy = e;
+            dEdge::applyDmChangesToEdge(eCopy);
+            const std::size_t dim = 1ULL << (eCopy.p->v + 1);
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
-            getDensityMatrix(e, Complex::one, 0, 0, mat);
-            dd::dEdge::revertDmChangesToEdge(e);
+            getDensityMatrix(eCopy, Complex::one, 0, 0, mat);
+            dd::dEdge::revertDmChangesToEdge(eCopy);
             return mat;
         }
 
-- 
2.43.0


From ae91b50775dc8542229238e115c7aa551a9225c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 24/38] fix: density matrix products were cached without the
 marks that give their operands meaning

---
 include/dd/ComputeTable.hpp | 25 +++++++++++++++++--------
 include/dd/Package.hpp      |  2 +-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/dd/ComputeTable.hpp b/include/dd/ComputeTable.hpp
index 7ff8fea..99a7978 100644
--- a/include/dd/ComputeTable.hpp
+++ b/include/dd/ComputeTable.hpp
@@ -30,6 +30,7 @@ namespace dd {
             LeftOperandType  leftOperand;
             RightOperandType rightOperand;
             ResultType       result;
+            std::uint8_t     densityMode{}; // how the operands and the result of a density matrix operation are meant
         };
 
         static constexpr std::size_t MASK = NBUCKET - 1;
@@ -41,12 +42,23 @@ namespace dd {
             return hash & MASK;
         }
 
+        /// The meaning of a density matrix node depends on its temporary flags and that of the result on whether a density matrix is to be generated
+        static std::uint8_t getDensityMode([[maybe_unused]] const LeftOperandType& leftOperand, [[maybe_unused]] const RightOperandType& rightOperand, [[maybe_unused]] const bool useDensityMatrix) {
+            if constexpr (std::is_same_v<LeftOperandType, dEdge> && std::is_same_v<RightOperandType, dEdge>) {
+                const auto leftFlags  = dNode::getDensityMatrixTempFlags(leftOperand.p->flags);
+                const auto rightFlags = dNode::getDensityMatrixTempFlags(rightOperand.p->flags);
+                return static_cast<std::uint8_t>(leftFlags | (rightFlags << 3U) | (useDensityMatrix ? 64U : 0U));
+            } else {
+                return 0U;
+            }
+        }
+
         // access functions
         [[nodiscard]] const auto& getTable() const { return table; }
 
-        void insert(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const ResultType& result) {
+        void insert(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const ResultType& result, [[maybe_unused]] const bool useDensityMatrix = false) {
             const auto key = hash(leftOperand, rightOperand);
-            table[key]     = {leftOperand, rightOperand, result};
+            table[key]     = {leftOperand, rightOperand, result, getDensityMode(leftOperand, rightOperand, useDensityMatrix)};
             ++count;
         }
 
@@ -64,12 +76,9 @@ namespace dd {
             if (entry.rightOperand != rightOperand) {
                 return result;
             }
-
-            if constexpr (std::is_same_v<RightOperandType, dEdge>) {
-                // Since density matrices are reduced representations of matrices, a density matrix may not be returned when a matrix is required and vice versa
-                if (dNode::isDensityMatrixNode(entry.result.p->flags) != useDensityMatrix) {
-                    return result;
-                }
+            // Since density matrices are reduced representations of matrices, a density matrix may not be returned when a matrix is required and vice versa
+            if (entry.densityMode != getDensityMode(leftOperand, rightOperand, useDensityMatrix)) {
+                return result;
             }
             hits++;
             return entry.result;
diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index f0498ea..cbe6ab8 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1746,7 +1746,7 @@ namespace dd {
             //                std::cout << "Caching error detected in mul" << std::endl;
             //            }
 
-            computeTable.insert(xCopy, yCopy, {e.p, e.w});
+            computeTable.insert(xCopy, yCopy, {e.p, e.w}, generateDensityMatrix);
 
             if (!e.w.exactlyZero() && (x.w.exactlyOne() || !y.w.exactlyZero())) {
                 if (e.w.exactlyOne()) {
-- 
2.43.0


From e5f26b849b1c97fd5de4668e5b0a53d24f0bcc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 25/38] fix: rejected unbalanced releases still released
 weights

---
 include/dd/ComplexNumbers.hpp | 8 +++++++-
 include/dd/UniqueTable.hpp    | 9 +++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/dd/ComplexNumbers.hpp b/include/dd/ComplexNumbers.hpp
index dee28a7..d557087 100644
--- a/include/dd/ComplexNumbers.hpp
+++ b/include/dd/ComplexNumbers.hpp
@@ -198,7 +198,13 @@ namespace dd {
             // `zero` and `one` are static and never altered
             if (c != Complex::zero && c != Complex::one) {
                 ComplexTable<>::decRef(c.r);
-                ComplexTable<>::decRef(c.i);
+                try {
+                    ComplexTable<>::decRef(c.i);
+                } catch (...) {
+                    // an unbalanced release must not change anything
+                    ComplexTable<>::incRef(c.r);
+                    throw;
+                }
             }
         }
         std::size_t garbageCollect(bool force = false) {
diff --git a/include/dd/UniqueTable.hpp b/include/dd/UniqueTable.hpp
index 733e657..2579aac 100644
--- a/include/dd/UniqueTable.hpp
+++ b/include/dd/UniqueTable.hpp
@@ -177,6 +177,11 @@ namespace dd {
         // and recursively decrement reference counter for
         // each child if this is the last reference
         void decRef(const Edge<Node>& e) {
+            // reject unbalanced releases before anything is changed
+            if (e.p != nullptr && !e.isTerminal() && e.p->ref == 0) {
+                throw std::runtime_error("In decref: ref==0 before decref\n");
+            }
+
             dd::ComplexNumbers::decRef(e.w);
             if (e.p == nullptr || e.isTerminal()) {
                 return;
@@ -185,10 +190,6 @@ namespace dd {
                 return;
             }
 
-            if (e.p->ref == 0) {
-                throw std::runtime_error("In decref: ref==0 before decref\n");
-            }
-
             e.p->ref--;
 
             if (e.p->ref == 0) {
-- 
2.43.0


From 7843ad0d81703d29705e73b2c592720d7257ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 26/38] fix: too short descriptions of basis states were read
 past their end

---
 include/dd/Package.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index cbe6ab8..da1b7f1 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -254,6 +254,9 @@ namespace dd {
                                          std::to_string(nqubits) +
                                          " qubits. Please allocate a larger package instance."};
             }
+            if (state.size() < n + start) {
+                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n + start) + ", but received " + std::to_string(state.size()));
+            }
             auto f = vEdge::one;
             for (std::size_t p = start; p < n + start; ++p) {
                 if (!state[p]) {
@@ -273,8 +276,8 @@ namespace dd {
                                          std::to_string(nqubits) +
                                          " qubits. Please allocate a larger package instance."};
             }
-            if (state.size() < n) {
-                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n) + ", but received " + std::to_string(state.size()));
+            if (state.size() < n + start) {
+                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n + start) + ", but received " + std::to_string(state.size()));
             }
 
             auto f = vEdge::one;
-- 
2.43.0


From ee1966ab1b03f346c0f940c729a8235d6934896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 27/38] fix: matrices with rows of different lengths were read
 past their end

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index da1b7f1..10e4468 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -353,7 +353,7 @@ namespace dd {
             }
 
             const auto& width = matrix[0].size();
-            if (length != width) {
+            if (std::any_of(matrix.begin(), matrix.end(), [&length](const auto& row) { return row.size() != length; })) {
                 throw std::invalid_argument("Matrix must be square.");
             }
 
-- 
2.43.0


From 13767c09a9ffe69e63d46943a00d4a52a033cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 28/38] fix: diagrams on more qubits than the package has were
 built in memory it does not own

---
 include/dd/Package.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 10e4468..4a6f713 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -127,6 +127,17 @@ namespace dd {
     private:
         std::size_t nqubits;
 
+        // reject diagrams on more qubits than the package supports
+        void checkSize(std::size_t n) const {
+            if (n > nqubits) {
+                throw std::runtime_error{"Requested diagram with " +
+                                         std::to_string(n) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+        }
+
         ///
         /// Vector nodes, edges and quantum states
         ///
@@ -223,6 +234,7 @@ namespace dd {
         }
 
         dEdge makeZeroDensityOperator(QubitCount n) {
+            checkSize(n);
             auto f = dEdge::one;
             for (std::size_t p = 0; p < n; p++) {
                 f = makeDDNode(static_cast<Qubit>(p), std::array{f, dEdge::zero, dEdge::zero, dEdge::zero});
@@ -319,6 +331,7 @@ namespace dd {
             if (length == 1) {
                 return vEdge::terminal(cn.lookup(stateVector[0]));
             }
+            checkSize(static_cast<std::size_t>(std::log2(length)));
 
             [[maybe_unused]] const auto before = cn.cacheCount();
 
@@ -360,6 +373,7 @@ namespace dd {
             if (length == 1) {
                 return mEdge::terminal(cn.lookup(matrix[0][0]));
             }
+            checkSize(static_cast<std::size_t>(std::log2(length)));
 
             [[maybe_unused]] const auto before = cn.cacheCount();
 
@@ -1950,6 +1964,10 @@ namespace dd {
                 throw std::invalid_argument("Kronecker is currently not supported for density matrices");
             }
 
+            if (incIdx && !x.isTerminal()) {
+                checkSize(static_cast<std::size_t>(x.p->v + y.p->v + 2));
+            }
+
             auto e = kronecker2(x, y, incIdx);
 
             if (e.w != Complex::zero && !e.w.exactlyOne()) {
@@ -2184,11 +2202,15 @@ namespace dd {
         /// Identity matrices
         ///
         // create n-qubit identity DD. makeIdent(n) === makeIdent(0, n-1)
-        mEdge makeIdent(QubitCount n) { return makeIdent(0, static_cast<Qubit>(n - 1)); }
+        mEdge makeIdent(QubitCount n) {
+            checkSize(n);
+            return makeIdent(0, static_cast<Qubit>(n - 1));
+        }
         mEdge makeIdent(Qubit leastSignificantQubit, Qubit mostSignificantQubit) {
             if (mostSignificantQubit < leastSignificantQubit) {
                 return mEdge::one;
             }
+            checkSize(static_cast<std::size_t>(mostSignificantQubit) + 1U);
 
             if (leastSignificantQubit == 0 && idTable[static_cast<std::size_t>(mostSignificantQubit)].p != nullptr) {
                 return idTable[static_cast<std::size_t>(mostSignificantQubit)];
@@ -2889,6 +2911,7 @@ namespace dd {
         // transfers a decision diagram from another package to this package
         template<class Edge>
         Edge transfer(Edge& original) {
+            checkSize(static_cast<std::size_t>(original.p->v + 1));
             std::unordered_map<decltype(original.p), Edge> mappedNodes{};
             return transfer(original, mappedNodes);
         }
-- 
2.43.0


From a285710122d27fecdd6abae1a3d7bd3dc16c3224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 29/38] fix: packages no longer share the set of visited nodes
 in size()

---
 include/dd/Package.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 4a6f713..b6eb53c 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2264,10 +2264,8 @@ namespace dd {
         ///
         template<class Edge>
         unsigned int size(const Edge& e) {
-            static constexpr unsigned int            NODECOUNT_BUCKETS = 200000;
-            static std::unordered_set<decltype(e.p)> visited{NODECOUNT_BUCKETS}; // 2e6
-            visited.max_load_factor(10);
-            visited.clear();
+            // not shared: packages may be used from different threads
+            std::unordered_set<decltype(e.p)> visited{};
             return nodeCount(e, visited);
         }
 
-- 
2.43.0


From 9c014863574451d95fbddf1b2ef6ea3c98f80224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 30/38] fix: size() of a density matrix follows its aligned
 root node

---
 include/dd/Package.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index b6eb53c..816136f 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2266,7 +2266,14 @@ namespace dd {
         unsigned int size(const Edge& e) {
             // not shared: packages may be used from different threads
             std::unordered_set<decltype(e.p)> visited{};
-            return nodeCount(e, visited);
+            if constexpr (std::is_same_v<Edge, dEdge>) {
+                // density matrices carry marks in the pointer to their root node
+                auto aligned = e;
+                dEdge::alignDensityEdge(aligned);
+                return nodeCount(aligned, visited);
+            } else {
+                return nodeCount(e, visited);
+            }
         }
 
     private:
-- 
2.43.0


From c4e8ac7810e944f7e288f481e388845e3ec277c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 31/38] fix: density operations no longer write to the terminal
 node shared by all packages

---
 include/dd/Node.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dd/Node.hpp b/include/dd/Node.hpp
index 84ff004..1527b41 100644
--- a/include/dd/Node.hpp
+++ b/include/dd/Node.hpp
@@ -189,8 +189,11 @@ namespace dd {
             // Align the node pointers
             if (isDensityMatrixTempFlagSet(p)) {
                 auto tmp = alignDensityNodeNode(p);
-                assert(getDensityMatrixTempFlags(p->flags) == 0);
-                p->flags = p->flags | tmp;
+                // terminals are shared by all packages and never altered
+                if (tmp != 0) {
+                    assert(getDensityMatrixTempFlags(p->flags) == 0);
+                    p->flags = p->flags | tmp;
+                }
             }
         }
 
-- 
2.43.0


From 259e81d1954fe70386bae633f5514a6757260709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 32/38] fix: hash complex values without converting negative or
 large numbers to an unsigned integer

---
 include/dd/ComplexValue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexValue.hpp b/include/dd/ComplexValue.hpp
index 8449edc..bd0fc77 100644
--- a/include/dd/ComplexValue.hpp
+++ b/include/dd/ComplexValue.hpp
@@ -13,6 +13,7 @@
 #include <cmath>
 #include <cstddef>
 #include <cstdlib>
+#include <functional>
 #include <iomanip>
 #include <iostream>
 #include <sstream>
@@ -251,8 +252,8 @@ namespace std {
     template<>
     struct hash<dd::ComplexValue> {
         std::size_t operator()(dd::ComplexValue const& c) const noexcept {
-            auto h1 = dd::murmur64(static_cast<std::size_t>(std::round(c.r / dd::ComplexTable<>::tolerance())));
-            auto h2 = dd::murmur64(static_cast<std::size_t>(std::round(c.i / dd::ComplexTable<>::tolerance())));
+            auto h1 = dd::murmur64(std::hash<dd::fp>{}(std::round(c.r / dd::ComplexTable<>::tolerance())));
+            auto h2 = dd::murmur64(std::hash<dd::fp>{}(std::round(c.i / dd::ComplexTable<>::tolerance())));
             return dd::combineHash(h1, h2);
         }
     };
-- 
2.43.0


From accdb560b98c84650303c73155c4035c8576966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 33/38] Verification hooks: returned and reused nodes and
 numbers (DD_PACKAGE_STORAGE_HOOKS)

---
 include/dd/ComplexTable.hpp |  3 +++
 include/dd/Definitions.hpp  | 11 +++++++++++
 include/dd/UniqueTable.hpp  |  3 +++
 3 files changed, 17 insertions(+)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 4d088dc..e7368b8 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -227,6 +227,7 @@ namespace dd {
             // an entry is available on the stack
             if (!availableEmpty()) {
                 Entry* entry = available;
+                DD_STORAGE_TAKEN(entry);
                 available    = entry->next;
                 // returned entries could have a ref count != 0
                 entry->refCount = 0;
@@ -251,6 +252,7 @@ namespace dd {
         void returnEntry(Entry* entry) {
             entry->next = available;
             available   = entry;
+            DD_STORAGE_RETURNED(entry);
         }
 
         // increment reference count for corresponding entry
@@ -370,6 +372,7 @@ namespace dd {
             allocations    = INITIAL_ALLOCATION_SIZE;
 
             for (auto& entry: chunks[0]) {
+                DD_STORAGE_TAKEN(&entry);
                 entry.refCount = 0;
             }
 
diff --git a/include/dd/Definitions.hpp b/include/dd/Definitions.hpp
index 9b92b88..96bebc1 100644
--- a/include/dd/Definitions.hpp
+++ b/include/dd/Definitions.hpp
@@ -13,6 +13,17 @@
 #include <utility>
 #include <vector>
 
+// verification builds are told which nodes and numbers are handed back and handed out again
+#ifdef DD_PACKAGE_STORAGE_HOOKS
+extern "C" void ddStorageReturned(const void* p, std::size_t n);
+extern "C" void ddStorageTaken(const void* p, std::size_t n);
+#define DD_STORAGE_RETURNED(p) ddStorageReturned(p, sizeof(*(p)))
+#define DD_STORAGE_TAKEN(p) ddStorageTaken(p, sizeof(*(p)))
+#else
+#define DD_STORAGE_RETURNED(p)
+#define DD_STORAGE_TAKEN(p)
+#endif
+
 namespace dd {
     // integer type used for indexing qubits
     // needs to be a signed type to encode -1 as the index for the terminal
diff --git a/include/dd/UniqueTable.hpp b/include/dd/UniqueTable.hpp
index 2579aac..4bc5e89 100644
--- a/include/dd/UniqueTable.hpp
+++ b/include/dd/UniqueTable.hpp
@@ -118,6 +118,7 @@ namespace dd {
             // a node is available on the stack
             if (available != nullptr) {
                 Node* p   = available;
+                DD_STORAGE_TAKEN(p);
                 available = p->next;
                 // returned nodes could have a ref count != 0
                 p->ref = 0;
@@ -142,6 +143,7 @@ namespace dd {
         void returnNode(Node* p) {
             p->next   = available;
             available = p;
+            DD_STORAGE_RETURNED(p);
         }
 
         // increment reference counter for node e points to
@@ -275,6 +277,7 @@ namespace dd {
             allocations    = INITIAL_ALLOCATION_SIZE;
 
             for (auto& node: chunks[0]) {
+                DD_STORAGE_TAKEN(&node);
                 node.ref = 0;
             }
 
-- 
2.43.0


From eec1c3b86641133a944cb6f11264825fa9eafde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 34/38] fix: reading entries by index on registers with more
 than 64 qubits no longer shifts beyond the width of the index

---
 include/dd/Package.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 816136f..8076d81 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1841,10 +1841,11 @@ namespace dd {
                 leftContribution = fidelityOfMeasurementOutcomesRecursive(e.p->e[0], probs, leftIdx);
             }
 
-            std::size_t rightIdx          = i | (1ULL << e.p->v);
-            auto        rightContribution = 0.;
-            if (!e.p->e[1].w.approximatelyZero()) {
-                rightContribution = fidelityOfMeasurementOutcomesRecursive(e.p->e[1], probs, rightIdx);
+            auto rightContribution = 0.;
+            // outcomes with qubits beyond the width of an index that are one cannot be among the given ones
+            if (!e.p->e[1].w.approximatelyZero() && e.p->v < std::numeric_limits<std::size_t>::digits) {
+                std::size_t rightIdx = i | (1ULL << e.p->v);
+                rightContribution    = fidelityOfMeasurementOutcomesRecursive(e.p->e[1], probs, rightIdx);
             }
 
             const dd::fp fidelity = topw * (leftContribution + rightContribution);
@@ -2577,6 +2578,10 @@ namespace dd {
 
             return {CTEntry::val(c.r), CTEntry::val(c.i)};
         }
+        /// Check whether a qubit is one in the given index. Qubits beyond the width of the index are zero.
+        [[nodiscard]] static constexpr bool isSet(const std::size_t i, const Qubit q) {
+            return q < std::numeric_limits<std::size_t>::digits && ((i >> static_cast<std::size_t>(q)) & 1U) != 0U;
+        }
         ComplexValue getValueByPath(const vEdge& e, std::size_t i) {
             if (e.isTerminal()) {
                 return {CTEntry::val(e.w.r), CTEntry::val(e.w.i)};
@@ -2591,7 +2596,7 @@ namespace dd {
                 return {CTEntry::val(c.r), CTEntry::val(c.i)};
             }
 
-            const bool one = (i & (1ULL << e.p->v)) != 0U;
+            const bool one = isSet(i, e.p->v);
 
             ComplexValue r{};
             if (!one && !e.p->e[0].w.approximatelyZero()) {
@@ -2616,8 +2621,8 @@ namespace dd {
                 return {CTEntry::val(c.r), CTEntry::val(c.i)};
             }
 
-            const bool row = (i & (1ULL << e.p->v)) != 0U;
-            const bool col = (j & (1ULL << e.p->v)) != 0U;
+            const bool row = isSet(i, e.p->v);
+            const bool col = isSet(j, e.p->v);
 
             ComplexValue r{};
             if (!row && !col && !e.p->e[0].w.approximatelyZero()) {
-- 
2.43.0


From a0fda235c053f8c018df419f0285516197406a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:02 +0000
Subject: [PATCH 35/38] fix: the trace visited shared nodes once for every path
 leading to them

Tracing out the qubits of a register took time exponential in their number,
even for an identity.
---
 include/dd/Package.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 8076d81..67fa490 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2068,8 +2068,14 @@ namespace dd {
         }
 
     private:
-        /// TODO: introduce a compute table for the trace?
+        // traces (root node and weight) of the nodes that have already been visited
+        using Traces = std::unordered_map<const mNode*, std::pair<mNode*, ComplexValue>>;
+
         mEdge trace(const mEdge& a, const std::vector<bool>& eliminate) {
+            Traces traces{};
+            return trace(a, eliminate, traces);
+        }
+        mEdge trace(const mEdge& a, const std::vector<bool>& eliminate, Traces& traces) {
             if (a.w.approximatelyZero()) {
                 return mEdge::zero;
             }
@@ -2086,17 +2092,27 @@ namespace dd {
                 throw std::runtime_error("Expected terminal node in trace.");
             }
 
+            if (const auto it = traces.find(a.p); it != traces.end()) {
+                const auto& [p, w] = it->second;
+                auto c             = cn.getTemporary(w);
+                ComplexNumbers::mul(c, c, a.w);
+                const auto weight = cn.lookup(c);
+                return weight.exactlyZero() ? mEdge::zero : mEdge{p, weight};
+            }
+
             if (eliminate[static_cast<std::size_t>(v)]) {
                 auto r = mEdge::zero;
 
-                auto t0 = trace(a.p->e[0], eliminate);
+                auto t0 = trace(a.p->e[0], eliminate, traces);
                 r       = add2(r, t0);
                 auto r1 = r;
 
-                auto t1 = trace(a.p->e[3], eliminate);
+                auto t1 = trace(a.p->e[3], eliminate, traces);
                 r       = add2(r, t1);
                 auto r2 = r;
 
+                traces.insert({a.p, {r.p, {CTEntry::val(r.w.r), CTEntry::val(r.w.i)}}});
+
                 if (r.w.exactlyOne()) {
                     r.w = a.w;
                 } else {
@@ -2120,11 +2136,13 @@ namespace dd {
             std::transform(a.p->e.cbegin(),
                            a.p->e.cend(),
                            edge.begin(),
-                           [&](const mEdge& e) -> mEdge { return trace(e, eliminate); });
+                           [&](const mEdge& e) -> mEdge { return trace(e, eliminate, traces); });
             // the new level only depends on the qubits below that are traced out
             auto adjustedV = static_cast<Qubit>(a.p->v - std::count(eliminate.begin(), eliminate.begin() + a.p->v, true));
             auto r         = makeDDNode(adjustedV, edge);
 
+            traces.insert({a.p, {r.p, {CTEntry::val(r.w.r), CTEntry::val(r.w.i)}}});
+
             if (r.w.exactlyOne()) {
                 r.w = a.w;
             } else {
-- 
2.43.0


From 1552a7f5af8baaf2182fa454e3ed17d22a2a3e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:02 +0000
Subject: [PATCH 36/38] fix: the reduction of ancillaries visited shared nodes
 once for every path leading to them

---
 include/dd/Package.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 67fa490..cc05922 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2329,7 +2329,8 @@ namespace dd {
             if (e.p->v < lowerbound) {
                 return e;
             }
-            auto f = reduceAncillaeRecursion(e, ancillary, lowerbound, regular);
+            std::unordered_map<mEdge, mEdge> reductions{};
+            auto                             f = reduceAncillaeRecursion(e, ancillary, lowerbound, reductions, regular);
             decRef(e);
             incRef(f);
             return f;
@@ -2378,10 +2379,14 @@ namespace dd {
         }
 
     private:
-        mEdge reduceAncillaeRecursion(mEdge& e, const std::vector<bool>& ancillary, Qubit lowerbound, bool regular = true) {
+        mEdge reduceAncillaeRecursion(mEdge& e, const std::vector<bool>& ancillary, Qubit lowerbound, std::unordered_map<mEdge, mEdge>& reductions, bool regular = true) {
             if (e.p->v < lowerbound) {
                 return e;
             }
+            // each edge has to be reduced only once
+            if (const auto it = reductions.find(e); it != reductions.end()) {
+                return it->second;
+            }
 
             auto f = e;
 
@@ -2394,7 +2399,7 @@ namespace dd {
                     } else {
                         // reduce the successor node once and apply the weights of all edges leading to it
                         auto       successor = mEdge{e.p->e[i].p, Complex::one};
-                        const auto reduced   = reduceAncillaeRecursion(successor, ancillary, lowerbound, regular);
+                        const auto reduced   = reduceAncillaeRecursion(successor, ancillary, lowerbound, reductions, regular);
                         for (auto j = i; j < NEDGE; ++j) {
                             if (e.p->e[i].p == e.p->e[j].p) {
                                 auto c   = cn.mulCached(reduced.w, e.p->e[j].w);
@@ -2427,7 +2432,7 @@ namespace dd {
 
             f.w = cn.lookup(c);
             cn.returnToCache(c);
-            return f.w.exactlyZero() ? mEdge::zero : f;
+            return reductions[e] = f.w.exactlyZero() ? mEdge::zero : f;
         }
 
         vEdge reduceGarbageRecursion(vEdge& e, const std::vector<bool>& garbage, Qubit lowerbound) {
-- 
2.43.0


From 0bfa66e7aa86d247f400e8d3b0d21ce1602779d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:02 +0000
Subject: [PATCH 37/38] fix: the reduction of garbage visited shared nodes once
 for every path leading to them

---
 include/dd/Package.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index cc05922..0ce7fb0 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2352,7 +2352,8 @@ namespace dd {
             if (e.p->v < lowerbound) {
                 return e;
             }
-            auto f = reduceGarbageRecursion(e, garbage, lowerbound);
+            std::unordered_map<vEdge, vEdge> reductions{};
+            auto                             f = reduceGarbageRecursion(e, garbage, lowerbound, reductions);
             decRef(e);
             incRef(f);
             return f;
@@ -2372,7 +2373,8 @@ namespace dd {
             if (e.p->v < lowerbound) {
                 return e;
             }
-            auto f = reduceGarbageRecursion(e, garbage, lowerbound, regular);
+            std::unordered_map<mEdge, mEdge> reductions{};
+            auto                             f = reduceGarbageRecursion(e, garbage, lowerbound, reductions, regular);
             decRef(e);
             incRef(f);
             return f;
@@ -2435,10 +2437,14 @@ namespace dd {
             return reductions[e] = f.w.exactlyZero() ? mEdge::zero : f;
         }
 
-        vEdge reduceGarbageRecursion(vEdge& e, const std::vector<bool>& garbage, Qubit lowerbound) {
+        vEdge reduceGarbageRecursion(vEdge& e, const std::vector<bool>& garbage, Qubit lowerbound, std::unordered_map<vEdge, vEdge>& reductions) {
             if (e.p->v < lowerbound) {
                 return e;
             }
+            // each edge has to be reduced only once
+            if (const auto it = reductions.find(e); it != reductions.end()) {
+                return it->second;
+            }
 
             auto f = e;
 
@@ -2449,7 +2455,7 @@ namespace dd {
                     if (e.p->e[i].isTerminal()) {
                         edges[i] = e.p->e[i];
                     } else {
-                        edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound);
+                        edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound, reductions);
                         for (auto j = i + 1; j < RADIX; ++j) {
                             if (e.p->e[i].p == e.p->e[j].p) {
                                 edges[j] = edges[i];
@@ -2486,12 +2492,16 @@ namespace dd {
                 f.w = Complex::one;
             }
 
-            return f;
+            return reductions[e] = f;
         }
-        mEdge reduceGarbageRecursion(mEdge& e, const std::vector<bool>& garbage, Qubit lowerbound, bool regular = true) {
+        mEdge reduceGarbageRecursion(mEdge& e, const std::vector<bool>& garbage, Qubit lowerbound, std::unordered_map<mEdge, mEdge>& reductions, bool regular = true) {
             if (e.p->v < lowerbound) {
                 return e;
             }
+            // each edge has to be reduced only once
+            if (const auto it = reductions.find(e); it != reductions.end()) {
+                return it->second;
+            }
 
             auto f = e;
 
@@ -2502,7 +2512,7 @@ namespace dd {
                     if (e.p->e[i].isTerminal()) {
                         edges[i] = e.p->e[i];
                     } else {
-                        edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound, regular);
+                        edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound, reductions, regular);
                         for (auto j = i + 1; j < NEDGE; ++j) {
                             if (e.p->e[i].p == e.p->e[j].p) {
                                 edges[j] = edges[i];
@@ -2569,7 +2579,7 @@ namespace dd {
                 f.w = Complex::one;
             }
 
-            return f;
+            return reductions[e] = f;
         }
 
         ///
-- 
2.43.0


From f7b71a5b697102289e8abaa03661222448b38cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:02 +0000
Subject: [PATCH 38/38] fix: cached results of density matrix operations
 evicted those of the same operands in the other mode

Generating a density matrix took time exponential in the number of qubits.
---
 include/dd/ComputeTable.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/dd/ComputeTable.hpp b/include/dd/ComputeTable.hpp
index 99a7978..d26594f 100644
--- a/include/dd/ComputeTable.hpp
+++ b/include/dd/ComputeTable.hpp
@@ -35,11 +35,12 @@ namespace dd {
 
         static constexpr std::size_t MASK = NBUCKET - 1;
 
-        static std::size_t hash(const LeftOperandType& leftOperand, const RightOperandType& rightOperand) {
+        static std::size_t hash(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const std::uint8_t densityMode = 0U) {
             const auto h1   = std::hash<LeftOperandType>{}(leftOperand);
             const auto h2   = std::hash<RightOperandType>{}(rightOperand);
             const auto hash = dd::combineHash(h1, h2);
-            return hash & MASK;
+            // results of the same operands for different modes must not evict each other
+            return (densityMode == 0U ? hash : dd::combineHash(hash, densityMode)) & MASK;
         }
 
         /// The meaning of a density matrix node depends on its temporary flags and that of the result on whether a density matrix is to be generated
@@ -57,15 +58,17 @@ namespace dd {
         [[nodiscard]] const auto& getTable() const { return table; }
 
         void insert(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const ResultType& result, [[maybe_unused]] const bool useDensityMatrix = false) {
-            const auto key = hash(leftOperand, rightOperand);
-            table[key]     = {leftOperand, rightOperand, result, getDensityMode(leftOperand, rightOperand, useDensityMatrix)};
+            const auto mode = getDensityMode(leftOperand, rightOperand, useDensityMatrix);
+            const auto key  = hash(leftOperand, rightOperand, mode);
+            table[key]      = {leftOperand, rightOperand, result, mode};
             ++count;
         }
 
         ResultType lookup(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, [[maybe_unused]] const bool useDensityMatrix = false) {
             ResultType result{};
             lookups++;
-            const auto key   = hash(leftOperand, rightOperand);
+            const auto mode  = getDensityMode(leftOperand, rightOperand, useDensityMatrix);
+            const auto key   = hash(leftOperand, rightOperand, mode);
             auto&      entry = table[key];
             if (entry.result.p == nullptr) {
                 return result;
@@ -77,7 +80,7 @@ namespace dd {
                 return result;
             }
             // Since density matrices are reduced representations of matrices, a density matrix may not be returned when a matrix is required and vice versa
-            if (entry.densityMode != getDensityMode(leftOperand, rightOperand, useDensityMatrix)) {
+            if (entry.densityMode != mode) {
                 return result;
             }
             hits++;
-- 
2.43.0

