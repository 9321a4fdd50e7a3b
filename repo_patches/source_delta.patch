From 22595ac53463c4c03f993cc27fe01063619b25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 01/52] fix: to_nd is not the inverse of to_1d for non-cubic
 3-D and 4-D sizes

---
 include/utils/utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 55350c9..cab6c37 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -216,19 +216,19 @@ namespace chdr {
                 const auto w2 = _index % w1;
 
                 result = {
-                    w2 % _sizes[1U],
-                    w2 / _sizes[1U],
+                    w2 % _sizes[0U],
+                    w2 / _sizes[0U],
                     _index / w1
                 };
             }
             else if constexpr (Kd == 4U) {
-                const auto w1 = _sizes[2U] * _sizes[1U];
-                const auto w2 = w1 * _sizes[0U];
+                const auto w1 = _sizes[0U] * _sizes[1U];
+                const auto w2 = w1 * _sizes[2U];
                 const auto w3 = _index % w2;
 
                 result = {
-                    (w3 % w1) % _sizes[2U],
-                    (w3 % w1) / _sizes[2U],
+                    (w3 % w1) % _sizes[0U],
+                    (w3 % w1) / _sizes[0U],
                      w3 / w1,
                     _index / w2,
                 };
-- 
2.43.0


From 044335375d628925716eb5041bc44fd49218ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 02/52] fix: rbacktrack_noreverse prefixes the path with _depth
 default coordinates

---
 include/solvers/base/solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 0218432..49a04f9 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -647,7 +647,8 @@ namespace chdr::solvers {
             template<typename node_t, typename coord_t>
             static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, size_t _depth) {
 
-                std::vector<coord_t> result(_depth);
+                std::vector<coord_t> result{};
+                result.reserve(_depth);
 
                 for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
                     result.emplace_back(utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size));
-- 
2.43.0


From d767ecc82790e17b44537ec115a9e659a3216cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 03/52] fix: iddfs/eiddfs use the stack after its memory was
 reset, and never stop on unreachable goals

---
 include/solvers/eiddfs.hpp | 22 +++++++++++++++++-----
 include/solvers/iddfs.hpp  | 17 +++++++++++++----
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 831296d..21cfd7e 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -127,12 +127,20 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
-
             for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
 
+                // The stack must not outlive the memory it was given, so it is destroyed before the resource is reset.
+                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
+                    _params.monotonic_pmr->reset();
+                }
+
+                stack<state<neighbours_t>> stack(_params.monotonic_pmr);
                 stack.emplace(_open.back(), _params);
 
+                solver_t::solver_utils::preallocate_emplace(_closed, s, _capacity, _params.maze.count());
+
+                bool cutoff = false;
+
                 // Main loop:
                 while (!stack.empty()) {
 
@@ -161,16 +169,20 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        cutoff = cutoff || curr.m_depth > bound;
+
+                        _closed.erase(curr.m_index);
+
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
                         stack.pop();
-                        _closed.erase(curr.m_index);
                     }
                 }
 
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
-                    _params.monotonic_pmr->reset();
+                // If nothing was cut off by the bound, the whole search space has been exhausted.
+                if (!cutoff) {
+                    break;
                 }
             }
 
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index bbde518..5bd042d 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -128,12 +128,18 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
-
             for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
 
+                // The stack must not outlive the memory it was given, so it is destroyed before the resource is reset.
+                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
+                    _params.monotonic_pmr->reset();
+                }
+
+                stack<state<neighbours_t>> stack(_params.monotonic_pmr);
                 stack.emplace(_open.back(), _params);
 
+                bool cutoff = false;
+
                 // Main loop:
                 while (!stack.empty()) {
 
@@ -158,6 +164,8 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        cutoff = cutoff || curr.m_depth > bound;
+
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
@@ -165,8 +173,9 @@ namespace chdr::solvers {
                     }
                 }
 
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
-                    _params.monotonic_pmr->reset();
+                // If nothing was cut off by the bound, the whole search space has been exhausted.
+                if (!cutoff) {
+                    break;
                 }
             }
 
-- 
2.43.0


From 56d7d95339323cc3b222c2f37e34b3475e1bcc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 04/52] fix: idbest_first reads the back of an emptied open
 list at the next bound

---
 include/solvers/idbest_first.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/solvers/idbest_first.hpp b/include/solvers/idbest_first.hpp
index eb853d3..29850e1 100644
--- a/include/solvers/idbest_first.hpp
+++ b/include/solvers/idbest_first.hpp
@@ -172,13 +172,17 @@ namespace chdr::solvers {
                             }
                         }
                         else {
-                            _open.pop_back();
+                            if (_open.size() > 1U) {
+                                _open.pop_back();
+                            }
                             stack.pop();
                         }
                     }
                     else {
                         min = utils::min(min, curr.m_hScore);
-                        _open.pop_back();
+                        if (_open.size() > 1U) {
+                            _open.pop_back();
+                        }
                         stack.pop();
                     }
                 }
-- 
2.43.0


From b5432c08308bda6caca826cff265428312c86c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 05/52] fix: eidbest_first revisits the start because its table
 entry is the bound

---
 include/solvers/eidbest_first.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/eidbest_first.hpp b/include/solvers/eidbest_first.hpp
index 9a40b7f..e524f83 100644
--- a/include/solvers/eidbest_first.hpp
+++ b/include/solvers/eidbest_first.hpp
@@ -141,7 +141,7 @@ namespace chdr::solvers {
             do {
 
                 stack.emplace(_open.back(), _params);
-                transposition_table[_open.back().m_index] = bound;
+                transposition_table[_open.back().m_index] = _open.back().m_hScore;
 
                 auto min = std::numeric_limits<scalar_t>::max();
 
-- 
2.43.0


From 931a751a5efb11348e4b3a8e973041aa17a7f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 06/52] fix: fringe drops nodes over the threshold and never
 stops when the goal is unreachable

---
 include/solvers/fringe.hpp | 99 ++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 47 deletions(-)

diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index ee0cb5c..e019e75 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -128,84 +128,89 @@ namespace chdr::solvers {
 
             auto max_threshold = _params.h(start, end) * _params.weight;
 
-              _open.emplace_back(s, static_cast<scalar_t>(0), max_threshold);
-            _closed.emplace(s);
+            _open.emplace_back(s, static_cast<scalar_t>(0), max_threshold);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
 
                 auto next_threshold = std::numeric_limits<scalar_t>::max();
 
-                for (auto& curr : _open) {
+                // Nodes within the threshold are appended to the current fringe as it is traversed.
+                for (size_t i = 0U; i < _open.size(); ++i) {
 
-                    if (curr.m_index != e) { // SEARCH FOR SOLUTION...
+                    const auto index = _open[i].m_index;
 
-                        node* RESTRICT curr_ptr(nullptr);
+                    // Check if node is not already visited:
+                    if (!_closed.contains(index)) {
 
-                        for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
+                        if (index != e) { // SEARCH FOR SOLUTION...
 
-                            if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
+                            solver_t::solver_utils::preallocate_emplace(_closed, index, _capacity, _params.maze.count());
 
-                                const auto g = curr.m_gScore + n.distance;
-                                const auto f = g + (_params.h(n.coord, end) * _params.weight);
+                            node* RESTRICT curr_ptr(nullptr);
 
-                                if (f <= max_threshold) {
+                            for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(index)) {
+
+                                if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
 
                                     // Check if node is not already visited:
                                     if (!_closed.contains(n.index)) {
 
-                                        solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
-
                                         if (curr_ptr == nullptr) {
-                                            curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
+                                            curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(_open[i]));
                                         }
 
-                                        if constexpr (params_t::lazy_sorting::value) {
-                                            _next.emplace_back(n.index, g, f, curr_ptr);
+                                        const auto g = curr_ptr->m_gScore + n.distance;
+                                        const auto f = g + (_params.h(n.coord, end) * _params.weight);
+
+                                        if (f <= max_threshold) {
+                                            _open.emplace_back(n.index, g, f, curr_ptr);
                                         }
-                                        else {
-
-                                            /* SORTED INSERTION */
-                                            _next.insert(
-                                                std::partition_point(
-                                                    _next.begin(),
-                                                    _next.end(),
-                                                    [&f, &g](const node& _other) ALWAYS_INLINE {
-                                                        return f == _other.m_fScore ?
-                                                               g >  _other.m_gScore :
-                                                               f >  _other.m_fScore;
-                                                    }
-                                                ),
-                                                node (n.index, g, f, curr_ptr)
-                                            );
+                                        else { // DEFER TO NEXT THRESHOLD...
+
+                                            next_threshold = utils::min(next_threshold, f);
+
+                                            if constexpr (params_t::lazy_sorting::value) {
+                                                _next.emplace_back(n.index, g, f, curr_ptr);
+                                            }
+                                            else {
+
+                                                /* SORTED INSERTION */
+                                                _next.insert(
+                                                    std::partition_point(
+                                                        _next.begin(),
+                                                        _next.end(),
+                                                        [&f, &g](const node& _other) ALWAYS_INLINE {
+                                                            return f == _other.m_fScore ?
+                                                                   g >  _other.m_gScore :
+                                                                   f >  _other.m_fScore;
+                                                        }
+                                                    ),
+                                                    node (n.index, g, f, curr_ptr)
+                                                );
+                                            }
                                         }
                                     }
                                 }
-                                else {
-                                    next_threshold = utils::min(next_threshold, f);
-                                    break;
-                                }
                             }
                         }
-                    }
-                    else { // SOLUTION REACHED...
+                        else { // SOLUTION REACHED...
 
-                        _next   = std::move(open_set_t());
-                        _closed = closed_set_t{};
+                            _next   = std::move(open_set_t());
+                            _closed = closed_set_t{};
 
-                        if constexpr (params_t::reverse_equivalence::value) {
-                            return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
-                        }
-                        else {
-                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            if constexpr (params_t::reverse_equivalence::value) {
+                                return solver_t::solver_utils::rbacktrack(_open[i], _params.size);
+                            }
+                            else {
+                                return solver_t::solver_utils::rbacktrack_noreverse(_open[i], _params.size);
+                            }
                         }
                     }
                 }
 
-                if (!_next.empty()) {
-                    std::swap(_open, _next);
-                    _next.clear();
-                }
+                std::swap(_open, _next);
+                _next.clear();
 
                 max_threshold = next_threshold;
             }
-- 
2.43.0


From 927a921c3f73d1580be731caad2a5d7843a090f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 07/52] fix: path reconstruction sizes the path by its cost
 instead of its length

---
 include/solvers/astar.hpp  | 4 ++--
 include/solvers/gjps.hpp   | 4 ++--
 include/solvers/gstar.hpp  | 4 ++--
 include/solvers/jps.hpp    | 4 ++--
 include/solvers/mgstar.hpp | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index 7c113bd..6c37608 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -173,10 +173,10 @@ namespace chdr::solvers {
                     _closed = closed_set_t{};
 
                     if constexpr (params_t::reverse_equivalence::value) {
-                        return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack(curr, _params.size);
                     }
                     else {
-                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                     }
                 }
             }
diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index c9cceee..1dc20a9 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -370,10 +370,10 @@ namespace chdr::solvers {
                         _closed = closed_set_t{};
 
                         if constexpr (params_t::reverse_equivalence::value) {
-                            return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack(curr, _params.size);
                         }
                         else {
-                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                         }
                     }
                 }
diff --git a/include/solvers/gstar.hpp b/include/solvers/gstar.hpp
index cbdc538..fa39d42 100644
--- a/include/solvers/gstar.hpp
+++ b/include/solvers/gstar.hpp
@@ -175,10 +175,10 @@ namespace chdr::solvers {
                     _closed = closed_set_t{};
 
                     if constexpr (params_t::reverse_equivalence::value) {
-                        return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack(curr, _params.size);
                     }
                     else {
-                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                     }
                 }
             }
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index ec4f83a..82ed34d 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -386,10 +386,10 @@ namespace chdr::solvers {
                         _closed = closed_set_t{};
 
                         if constexpr (params_t::reverse_equivalence::value) {
-                            return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack(curr, _params.size);
                         }
                         else {
-                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                         }
                     }
                 }
diff --git a/include/solvers/mgstar.hpp b/include/solvers/mgstar.hpp
index 8eb3964..e17289d 100644
--- a/include/solvers/mgstar.hpp
+++ b/include/solvers/mgstar.hpp
@@ -293,10 +293,10 @@ namespace chdr::solvers {
             if (best_solution.has_value()) {
 
                 if constexpr (params_t::reverse_equivalence::value) {
-                    return solver_t::solver_utils::rbacktrack(best_solution.value(), _params.size, static_cast<size_t>(best_solution->m_gScore));
+                    return solver_t::solver_utils::rbacktrack(best_solution.value(), _params.size);
                 }
                 else {
-                    return solver_t::solver_utils::rbacktrack_noreverse(best_solution.value(), _params.size, static_cast<size_t>(best_solution->m_gScore));
+                    return solver_t::solver_utils::rbacktrack_noreverse(best_solution.value(), _params.size);
                 }
             }
             else {
-- 
2.43.0


From 696c101f2ec604d26f79139d10c0786f4338ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 08/52] fix: fringe re-defers nodes that are still above the
 threshold

---
 include/solvers/fringe.hpp | 51 ++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index e019e75..1ac3631 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -116,6 +116,30 @@ namespace chdr::solvers {
             }
         };
 
+        template <typename open_set_t>
+        HOT static constexpr void defer(open_set_t& _next, node&& _node) {
+
+            if constexpr (params_t::lazy_sorting::value) {
+                _next.emplace_back(std::move(_node));
+            }
+            else {
+
+                /* SORTED INSERTION */
+                _next.insert(
+                    std::partition_point(
+                        _next.begin(),
+                        _next.end(),
+                        [&_node](const node& _other) ALWAYS_INLINE {
+                            return _node.m_fScore == _other.m_fScore ?
+                                   _node.m_gScore >  _other.m_gScore :
+                                   _node.m_fScore >  _other.m_fScore;
+                        }
+                    ),
+                    std::move(_node)
+                );
+            }
+        }
+
         template <typename open_set_t, typename closed_set_t>
         [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, open_set_t& _next, closed_set_t& _closed, size_t _capacity, const params_t& _params) {
             constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
@@ -143,7 +167,11 @@ namespace chdr::solvers {
                     // Check if node is not already visited:
                     if (!_closed.contains(index)) {
 
-                        if (index != e) { // SEARCH FOR SOLUTION...
+                        if (_open[i].m_fScore > max_threshold) { // DEFER TO NEXT THRESHOLD...
+                            next_threshold = utils::min(next_threshold, _open[i].m_fScore);
+                            defer(_next, std::move(_open[i]));
+                        }
+                        else if (index != e) { // SEARCH FOR SOLUTION...
 
                             solver_t::solver_utils::preallocate_emplace(_closed, index, _capacity, _params.maze.count());
 
@@ -169,26 +197,7 @@ namespace chdr::solvers {
                                         else { // DEFER TO NEXT THRESHOLD...
 
                                             next_threshold = utils::min(next_threshold, f);
-
-                                            if constexpr (params_t::lazy_sorting::value) {
-                                                _next.emplace_back(n.index, g, f, curr_ptr);
-                                            }
-                                            else {
-
-                                                /* SORTED INSERTION */
-                                                _next.insert(
-                                                    std::partition_point(
-                                                        _next.begin(),
-                                                        _next.end(),
-                                                        [&f, &g](const node& _other) ALWAYS_INLINE {
-                                                            return f == _other.m_fScore ?
-                                                                   g >  _other.m_gScore :
-                                                                   f >  _other.m_fScore;
-                                                        }
-                                                    ),
-                                                    node (n.index, g, f, curr_ptr)
-                                                );
-                                            }
+                                            defer(_next, node(n.index, g, f, curr_ptr));
                                         }
                                     }
                                 }
-- 
2.43.0


From 315b9029a9b8c656b199afeba074d12d30f3a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 09/52] fix: astar/gstar close nodes on generation
 (suboptimal), astar measures the heuristic to the wrong endpoint

---
 include/solvers/astar.hpp | 13 +++++++++----
 include/solvers/gstar.hpp | 10 ++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index 6c37608..add0327 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -124,11 +124,10 @@ namespace chdr::solvers {
             const auto&   end = do_reverse ? _params.start : _params.end;
             const auto& start = do_reverse ? _params.end   : _params.start;
 
-            const auto s = utils::to_1d(_params.start, _params.size);
-            const auto e = utils::to_1d(_params.end,   _params.size);
+            const auto s = utils::to_1d(start, _params.size);
+            const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -136,8 +135,15 @@ namespace chdr::solvers {
                 auto curr(std::move(_open.top()));
                 _open.pop();
 
+                // Check if node is not already visited:
+                if (_closed.contains(curr.m_index)) {
+                    continue;
+                }
+
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     node* RESTRICT curr_ptr(nullptr);
 
                     for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
@@ -146,7 +152,6 @@ namespace chdr::solvers {
 
                             // Check if node is not already visited:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
diff --git a/include/solvers/gstar.hpp b/include/solvers/gstar.hpp
index fa39d42..e47e22d 100644
--- a/include/solvers/gstar.hpp
+++ b/include/solvers/gstar.hpp
@@ -126,7 +126,6 @@ namespace chdr::solvers {
             const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -134,8 +133,16 @@ namespace chdr::solvers {
                 auto curr(std::move(_open.top()));
                 _open.pop();
 
+                // Check if node is not already visited:
+                if (_closed.contains(curr.m_index)) {
+                    curr.expunge(_params.homogeneous_pmr);
+                    continue;
+                }
+
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     node* RESTRICT curr_ptr(nullptr);
 
                     for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
@@ -144,7 +151,6 @@ namespace chdr::solvers {
 
                             // Check if node is not already visited:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-- 
2.43.0


From 824ecfb9d9e800d2b2517ffcaccff87b561fb457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 10/52] fix: octile_distance compares only the first axis

---
 include/utils/heuristics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index 9798c0c..a26cf11 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -102,7 +102,7 @@ namespace chdr {
             bool straight = false;
             for (size_t i = 0U; i < Kd; ++i) {
 
-                if (_a[0] == _b[0]) {
+                if (_a[i] == _b[i]) {
                     straight = true;
 
                     if constexpr (Kd > 4U) { break; }
-- 
2.43.0


From 6e5d3ac4d28b671a6c05d46abd8023522f5bcc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 11/52] fix: jps/gjps close jump points on generation
 (suboptimal), gjps allocates and frees nodes from different resources

---
 include/solvers/gjps.hpp | 12 +++++++++---
 include/solvers/jps.hpp  |  9 +++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index 1dc20a9..0f201d7 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -316,7 +316,6 @@ namespace chdr::solvers {
                 const auto e = utils::to_1d(end,   _params.size);
 
                   _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-                _closed.emplace(s);
 
                 // Main loop:
                 while (LIKELY(!_open.empty())) {
@@ -324,8 +323,16 @@ namespace chdr::solvers {
                     auto curr(std::move(_open.top()));
                     _open.pop();
 
+                    // Check if node is not already visited:
+                    if (_closed.contains(curr.m_index)) {
+                        curr.expunge(_params.homogeneous_pmr);
+                        continue;
+                    }
+
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                        solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                         node* RESTRICT curr_ptr(nullptr);
 
                         const auto coord = utils::to_nd(curr.m_index, _params.size);
@@ -339,10 +346,9 @@ namespace chdr::solvers {
                                 const scalar_t nDistance = heuristics::octile_distance<scalar_t>(coord, nCoord);
 
                                 if (!_closed.contains(n)) {
-                                    solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
 
                                     if (curr_ptr == nullptr) {
-                                        curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
+                                        curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
 
                                     if constexpr (params_t::lazy_sorting::value) {
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index 82ed34d..a6b2ac9 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -336,7 +336,6 @@ namespace chdr::solvers {
                 const auto e = utils::to_1d(end,   _params.size);
 
                   _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-                _closed.emplace(s);
 
                 // Main loop:
                 while (LIKELY(!_open.empty())) {
@@ -344,8 +343,15 @@ namespace chdr::solvers {
                     auto curr(std::move(_open.top()));
                     _open.pop();
 
+                    // Check if node is not already visited:
+                    if (_closed.contains(curr.m_index)) {
+                        continue;
+                    }
+
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                        solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                         node* RESTRICT curr_ptr(nullptr);
 
                         const auto coord = utils::to_nd(curr.m_index, _params.size);
@@ -359,7 +365,6 @@ namespace chdr::solvers {
                                 const scalar_t nDistance = heuristics::octile_distance<scalar_t>(coord, nCoord);
 
                                 if (!_closed.contains(n)) {
-                                    solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
 
                                     if (curr_ptr == nullptr) {
                                         curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-- 
2.43.0


From 74705c274900be09227c6788636e5aad5da69b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 12/52] fix: smastar/osmastar erase every equally-scored open
 node when one is superseded

---
 include/solvers/osmastar.hpp | 8 +++++++-
 include/solvers/smastar.hpp  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/solvers/osmastar.hpp b/include/solvers/osmastar.hpp
index d61b899..98e80c3 100644
--- a/include/solvers/osmastar.hpp
+++ b/include/solvers/osmastar.hpp
@@ -271,7 +271,13 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
+                                            // Other nodes may compare equivalent, so only erase the superseded entry.
+                                            for (auto [it, last] = _open.equal_range(search->second); it != last; ++it) {
+                                                if (it->m_index == n.index) {
+                                                    _open.erase(it);
+                                                    break;
+                                                }
+                                            }
                                             _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
                                             complete = false;
diff --git a/include/solvers/smastar.hpp b/include/solvers/smastar.hpp
index 8bffa96..12f1867 100644
--- a/include/solvers/smastar.hpp
+++ b/include/solvers/smastar.hpp
@@ -272,7 +272,13 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
+                                            // Other nodes may compare equivalent, so only erase the superseded entry.
+                                            for (auto [it, last] = _open.equal_range(search->second); it != last; ++it) {
+                                                if (it->m_index == n.index) {
+                                                    _open.erase(it);
+                                                    break;
+                                                }
+                                            }
                                             _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
                                             complete = false;
-- 
2.43.0


From fdd75ee47c8516cc1923234d6006e189d688a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 13/52] fix: enhanced iterative-deepening solvers do not
 compile with graph mazes

---
 include/solvers/eidbest_first.hpp | 2 +-
 include/solvers/eiddfs.hpp        | 2 +-
 include/solvers/iddfs.hpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/solvers/eidbest_first.hpp b/include/solvers/eidbest_first.hpp
index e524f83..f910ab8 100644
--- a/include/solvers/eidbest_first.hpp
+++ b/include/solvers/eidbest_first.hpp
@@ -100,7 +100,7 @@ namespace chdr::solvers {
             node curr;
 
                      neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+                              size_t neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 curr(_curr.m_index, _curr.m_hScore),
diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 21cfd7e..723668a 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -98,7 +98,7 @@ namespace chdr::solvers {
         struct state final {
 
                      neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+                              size_t neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 neighbours(_params.maze.template get_neighbours<params_t::octile_neighbours::value>(_curr.m_index)),
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index 5bd042d..8eb8863 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -99,7 +99,7 @@ namespace chdr::solvers {
         struct state final {
 
                      neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+                              size_t neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 neighbours(_params.maze.template get_neighbours<params_t::octile_neighbours::value>(_curr.m_index)),
-- 
2.43.0


From 5344c61e738a23aa2265e3fc4697435716daab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 14/52] fix: idastar/eidastar accept the goal above the current
 bound (suboptimal on weighted graphs); eidastar compiles with graphs

---
 include/solvers/eidastar.hpp | 6 +++---
 include/solvers/idastar.hpp  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/solvers/eidastar.hpp b/include/solvers/eidastar.hpp
index 4973aff..2bf40ed 100644
--- a/include/solvers/eidastar.hpp
+++ b/include/solvers/eidastar.hpp
@@ -107,7 +107,7 @@ namespace chdr::solvers {
             node curr;
 
                      neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+                              size_t neighbours_idx;
 
             [[nodiscard]] state(node& _curr, const params_t& _params) :
                 curr(_curr.m_index, _curr.m_gScore, _curr.m_fScore),
@@ -151,7 +151,7 @@ namespace chdr::solvers {
 
             do {
                 stack.emplace(_open.back(), _params);
-                transposition_table[_open.back().m_index] = bound;
+                transposition_table[_open.back().m_index] = _open.back().m_fScore;
 
                 auto min = std::numeric_limits<scalar_t>::max();
 
@@ -176,7 +176,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
diff --git a/include/solvers/idastar.hpp b/include/solvers/idastar.hpp
index 9432266..5db6286 100644
--- a/include/solvers/idastar.hpp
+++ b/include/solvers/idastar.hpp
@@ -167,7 +167,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
-- 
2.43.0


From 495c7641b43256e94e6f543e490765910333a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 15/52] fix: mgstar closes nodes on generation (suboptimal
 routes on weighted and octile mazes)

---
 include/solvers/mgstar.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/solvers/mgstar.hpp b/include/solvers/mgstar.hpp
index e17289d..d9318f0 100644
--- a/include/solvers/mgstar.hpp
+++ b/include/solvers/mgstar.hpp
@@ -173,7 +173,6 @@ namespace chdr::solvers {
 
                 auto worst_node = std::prev(_open.end());
                 bitwise_regression(worst_node->m_parent, _closed);
-                _closed.erase(worst_node->m_index);
                   _open.erase(worst_node);
             }
             else {
@@ -196,7 +195,6 @@ namespace chdr::solvers {
             const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
 
             size_t dynamic_allocations(0U);
             size_t  closed_allocations(1U);
@@ -215,8 +213,19 @@ namespace chdr::solvers {
 
                 auto curr(_open.extract(_open.begin()).value());
 
+                // Check if node is not already visited:
+                if (_closed.contains(curr.m_index)) {
+
+                    if (auto* p = curr.forget_one(); p != nullptr) {
+                        expunct.emplace(static_cast<node*>(p));
+                    }
+                    continue;
+                }
+
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     node* RESTRICT curr_ptr(nullptr);
 
                     if (!best_solution.has_value() || curr.m_gScore < best_solution->m_gScore) {
@@ -235,8 +244,6 @@ namespace chdr::solvers {
                                     }
 
                                     if (!full) {
-                                        solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
-
                                         if (curr_ptr == nullptr) {
                                             curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr)); dynamic_allocations++;
                                         }
@@ -246,6 +253,7 @@ namespace chdr::solvers {
                                     else {
                                         // Memory saturated. Backup losslessly...
                                         bitwise_regression(curr.m_parent, _closed);
+                                        _closed.erase(curr.m_index);
                                         break;
                                     }
                                 }
@@ -275,6 +283,7 @@ namespace chdr::solvers {
                             }
 
                             if (!full) {
+                                _closed.erase(s);
                                 _open.emplace(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
                             }
                         }
-- 
2.43.0


From 25c128cda899b0d6aa67e1af149ef8a63f379e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 16/52] fix: managed nodes overflow their successor count on
 vertices with more than 255 neighbours

---
 include/solvers/base/managed_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/managed_node.hpp b/include/solvers/base/managed_node.hpp
index a1ccda5..7c48747 100644
--- a/include/solvers/base/managed_node.hpp
+++ b/include/solvers/base/managed_node.hpp
@@ -48,7 +48,7 @@ namespace chdr::solvers {
     private:
 
         using  node_t = std::conditional_t<std::is_void_v<derived>, managed_node<index_t>, derived>;
-        using count_t = uint8_t;
+        using count_t = uint32_t;
 
     public:
 
-- 
2.43.0


From b3b87d96cfec6583112fd9f09212e54b96815be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 17/52] fix: dijkstra expands a node once per route that
 reaches it (exponential on open mazes)

---
 include/solvers/dijkstra.hpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/include/solvers/dijkstra.hpp b/include/solvers/dijkstra.hpp
index a6e9610..210c5d1 100644
--- a/include/solvers/dijkstra.hpp
+++ b/include/solvers/dijkstra.hpp
@@ -172,30 +172,26 @@ namespace chdr::solvers {
                 auto _ = std::move(_open.top());
                 _open.pop();
 
-                auto& curr = result.m_data.emplace(_.m_index, std::move(_)).first->second;
+                const auto [it, inserted] = result.m_data.try_emplace(_.m_index, _);
+                auto& curr = it->second;
 
-                for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
+                // Check if node is not already visited:
+                if (!inserted) {
 
-                    if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
+                    if (!(_.m_gScore < curr.m_gScore)) { continue; }
 
-                        auto g = curr.m_gScore + n.distance;
+                    curr = std::move(_);
+                }
 
-                        if (const auto search = result.m_data.find(n.index); search != result.m_data.end()) {
+                for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
-                            if (auto& child = search->second; g < child.m_gScore) {
+                    if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
 
-                                child.m_gScore = g;
-                                child.m_parent = &curr;
+                        auto g = curr.m_gScore + n.distance;
 
-                                if constexpr (params_t::lazy_sorting::value) {
-                                    _open.emplace_nosort(child);
-                                }
-                                else {
-                                    _open.emplace(child);
-                                }
-                            }
-                        }
-                        else {
+                        if (const auto search = result.m_data.find(n.index);
+                            search == result.m_data.end() || g < search->second.m_gScore
+                        ) {
                             if constexpr (params_t::lazy_sorting::value) {
                                 _open.emplace_nosort(n.index, g, &curr);
                             }
-- 
2.43.0


From 32a88c3af07348bad130f5bfad58b261a204a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 18/52] fix: grid::contains does not compile for coordinates

---
 include/mazes/grid.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index 7eba226..1c1fc89 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -298,7 +298,11 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            for (size_t i = 0U; i < s_rank; ++i) {
+                if (_id[i] >= m_size[i]) { return false; }
+            }
+            return true;
         }
 
         /**
@@ -759,7 +763,11 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            for (size_t i = 0U; i < s_rank; ++i) {
+                if (_id[i] >= m_size[i]) { return false; }
+            }
+            return true;
         }
 
         /**
-- 
2.43.0


From 75db39f2832042571223e1593c186b3efb3a48c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 19/52] fix: solve treats coordinates outside the maze as
 another cell

---
 include/solvers/base/solver.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 49a04f9..46092d6 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -885,7 +885,14 @@ namespace chdr::solvers {
                 const auto s = static_cast<typename params_t::index_type>(utils::to_1d(_params.start, _params.size));
                 const auto e = static_cast<typename params_t::index_type>(utils::to_1d(_params.end,   _params.size));
 
-                if (_params.maze.contains(s) && _params.maze[s].is_active() &&
+                bool inside = true;
+                if constexpr (!solver_utils::template is_graph_v<decltype(_params.maze)>) {
+                    // Out-of-bounds coordinates must not alias another cell.
+                    inside = _params.maze.contains(_params.start) && _params.maze.contains(_params.end);
+                }
+
+                if (inside &&
+                    _params.maze.contains(s) && _params.maze[s].is_active() &&
                     _params.maze.contains(e) && _params.maze[e].is_active()
                 ) {
                     result = s != e ?
-- 
2.43.0


From f651cfaed0e27e270ef6025e2ca35fadd8edd331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 20/52] fix: pools free or forget the wrong block when growing
 runs out of memory

---
 include/types/pmr/heterogeneous_pool.hpp |  7 +++++--
 include/types/pmr/homogeneous_pool.hpp   | 12 +++++++++---
 include/types/pmr/monotonic_pool.hpp     | 11 ++++++++---
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 94b075b..db4ded8 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -156,11 +156,14 @@ namespace chdr {
 
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
+                    // The block is only known to the pool if the failure occurred after it was recorded.
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
             return result;
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index bbe3c76..13b3582 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -147,11 +147,14 @@ namespace chdr {
 
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
+                    // The block is only known to the pool if the failure occurred after it was recorded.
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
 
@@ -301,7 +304,10 @@ namespace chdr {
             }
             else {
 
-                m_free.push_back(static_cast<uint8_t*>(_p));
+                try {
+                    m_free.push_back(static_cast<uint8_t*>(_p));
+                }
+                catch (...) {} // The chunk cannot be recycled until the pool is reset or released.
 
 #if CHDR_DIAGNOSTICS == 1
 
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 5bc8286..c7c0273 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -139,11 +139,14 @@ namespace chdr {
 
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
+                    // The block is only known to the pool if the failure occurred after it was recorded.
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
 
@@ -239,7 +242,9 @@ namespace chdr {
                     }
 
                     // Update write position.
-                    m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    if (LIKELY(aligned_ptr != nullptr)) {
+                        m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    }
                 }
 
                 // ReSharper disable once CppDFAConstantConditions
-- 
2.43.0


From 2d58eb1f936a6d98cf9ab76ba18ccee115a70d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 21/52] fix: pools serve stack requests past the end of the
 stack block or misaligned

---
 include/types/pmr/heterogeneous_pool.hpp | 16 +++++++++++++---
 include/types/pmr/homogeneous_pool.hpp   |  9 +++++++--
 include/types/pmr/monotonic_pool.hpp     |  9 +++++++--
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index db4ded8..339af9e 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -259,10 +259,20 @@ namespace chdr {
 
                 uint8_t* aligned_ptr { nullptr };
 
-                // Attempt to allocate from the stack block:
-                if (aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size) {
+                // The size overflows if it cannot be rounded up to the alignment:
+                if (UNLIKELY(aligned_bytes < _bytes)) {
+                    throw std::bad_alloc();
+                }
 
-                    aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
+                // The offset is measured from the address of the block, which may be less aligned than the request.
+                const auto base   = reinterpret_cast<uintptr_t>(m_stack_block);
+                const auto offset = static_cast<size_t>(((base + m_stack_write + _alignment - 1U) & ~(_alignment - 1U)) - base);
+
+                // Attempt to allocate from the stack block:
+                if (aligned_bytes < MaxStackAllocationSize &&
+                    offset <= s_stack_block_size && aligned_bytes <= s_stack_block_size - offset
+                ) {
+                    aligned_ptr = m_stack_block + offset;
                     m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
                 }
 
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 13b3582..607b54d 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -229,10 +229,15 @@ namespace chdr {
                 // Attempt to allocate from the stack block:
                 if (m_stack_write < StackSize) {
 
+                    // The offset is measured from the address of the block, which may be less aligned than the request.
+                    const auto base   = reinterpret_cast<uintptr_t>(m_stack_block);
+                    const auto offset = static_cast<size_t>(((base + m_stack_write + _alignment - 1U) & ~(_alignment - 1U)) - base);
+
                     if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size
+                        aligned_bytes < MaxStackAllocationSize &&
+                        offset <= s_stack_block_size && aligned_bytes <= s_stack_block_size - offset
                     ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
+                        aligned_ptr = m_stack_block + offset;
                         m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
                     }
                 }
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index c7c0273..a188407 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -210,11 +210,16 @@ namespace chdr {
                 // Attempt to allocate from the stack block:
                 if (m_stack_write < StackSize) {
 
+                    // The offset is measured from the address of the block, which may be less aligned than the request.
+                    const auto base   = reinterpret_cast<uintptr_t>(m_stack_block);
+                    const auto offset = static_cast<size_t>(((base + m_stack_write + _alignment - 1U) & ~(_alignment - 1U)) - base);
+
                     if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
+                        aligned_bytes >= _bytes &&
                         aligned_bytes < MaxStackAllocationSize &&
-                        m_stack_write + aligned_bytes <= s_stack_block_size
+                        offset <= s_stack_block_size && aligned_bytes <= s_stack_block_size - offset
                     ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
+                        aligned_ptr = m_stack_block + offset;
                         m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
                     }
                 }
-- 
2.43.0


From a874eb61f116d3f7ea5de6ab2f04b3ca5ef5ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 22/52] fix: homogeneous_pool loses its blocks on reset
 (unbounded growth, misaligned chunks)

---
 include/types/pmr/homogeneous_pool.hpp | 60 +++++++++++++-------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 607b54d..bc2ec32 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -98,6 +98,7 @@ namespace chdr {
         size_t m_stack_write;         // Current write position for the stack block.
         size_t m_initial_block_width; // Width of the first allocated block.
         size_t m_block_width;         // Size of the current block.
+        size_t m_block_count;         // Number of blocks which have been divided into chunks since the last reset.
 
         std::vector<block> m_blocks;
         std::vector<uint8_t*> m_free;
@@ -110,15 +111,23 @@ namespace chdr {
 
             uint8_t* result { nullptr };
 
+            // Blocks which were retained by a reset are used before new ones are allocated.
+            const bool recycle { m_block_count < m_blocks.size() };
+
             try {
-                const auto allocate_bytes = utils::max(m_block_width, utils::max(_bytes, _alignment));
+                const auto allocate_bytes = recycle ? m_blocks[m_block_count].size : utils::max(m_block_width, utils::max(_bytes, _alignment));
 
-                result = static_cast<uint8_t*>(operator new(allocate_bytes, static_cast<std::align_val_t>(_alignment)));
+                if (recycle) {
+                    result = m_blocks[m_block_count].data;
+                }
+                else {
+                    result = static_cast<uint8_t*>(operator new(allocate_bytes, static_cast<std::align_val_t>(_alignment)));
 
-                m_blocks.emplace_back(
-                    allocate_bytes,
-                    result
-                );
+                    m_blocks.emplace_back(
+                        allocate_bytes,
+                        result
+                    );
+                }
 
                 const auto result_num = reinterpret_cast<uintptr_t>(result);
 
@@ -140,13 +149,17 @@ namespace chdr {
                 }
 
                 m_block_width = utils::min((m_block_width * 3U) / 2U, s_max_heap_block_size);
+                ++m_block_count;
             }
             catch (...) {
 
                 /* Catch any errors that occur during allocation. */
 
                 // ReSharper disable once CppDFAConstantConditions
-                if (result != nullptr) {
+                if (recycle) {
+                    result = nullptr;
+                }
+                else if (result != nullptr) {
                     // The block is only known to the pool if the failure occurred after it was recorded.
                     if (!m_blocks.empty() && m_blocks.back().data == result) {
                         m_blocks.pop_back();
@@ -362,7 +375,8 @@ namespace chdr {
             m_alignment          (0U),
             m_stack_write        (0U),
             m_initial_block_width(utils::min(_initial_block_width, s_max_heap_block_size)),
-            m_block_width        (m_initial_block_width)
+            m_block_width        (m_initial_block_width),
+            m_block_count        (0U)
         {
             assert(_initial_block_width >= 2U && "Initial block width must be at least 2.");
 
@@ -399,10 +413,12 @@ namespace chdr {
             m_stack_write        (_other.m_stack_write        ),
             m_initial_block_width(_other.m_initial_block_width),
             m_block_width        (_other.m_block_width        ),
+            m_block_count        (_other.m_block_count        ),
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
             _other.m_stack_write = 0U;
+            _other.m_block_count = 0U;
             _other.m_blocks.clear();
             _other.m_free.clear();
         }
@@ -420,10 +436,12 @@ namespace chdr {
                 m_stack_write         = _other.m_stack_write;
                 m_initial_block_width = _other.m_initial_block_width;
                 m_block_width         = _other.m_block_width;
+                m_block_count         = _other.m_block_count;
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
                 _other.m_stack_write = 0U;
+                _other.m_block_count = 0U;
                 _other.m_blocks.clear();
                 _other.m_free.clear();
             }
@@ -455,28 +473,9 @@ namespace chdr {
             m_stack_write = 0U;
             m_block_width = m_initial_block_width;
 
-            try {
-                m_free.clear();
-
-                // Reuse memory from existing blocks to repopulate `free`:
-                for (auto& [size, data] : m_blocks) {
-
-                    // Divide the block into chunks; all chunks are guaranteed aligned.
-                    const auto chunk_size = size / m_block_width;
-
-                    const auto current_size = m_free.size();
-                    m_free.resize(current_size + chunk_size);
-
-                    IVDEP
-                    for (size_t j = 0U; j < chunk_size; ++j) {
-                        m_free[j + current_size] = data + j * m_block_width;
-                    }
-                }
-            }
-            catch (...) {
-                m_blocks.clear();
-                  m_free.clear();
-            }
+            // Existing blocks are divided into chunks again when they are needed.
+            m_block_count = 0U;
+            m_free.clear();
 
 #if CHDR_DIAGNOSTICS == 1
             __diagnostic_data. num_allocated = 0U;
@@ -503,6 +502,7 @@ namespace chdr {
 
             m_stack_write = 0U;
             m_block_width = m_initial_block_width;
+            m_block_count = 0U;
 
             {
                 cleanup();
-- 
2.43.0


From 634b386c1f866f3c115a224faefb5a5388abf075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 23/52] fix: a moved homogeneous_pool hands out its source's
 stack memory; release keeps the old alignment

---
 include/types/pmr/homogeneous_pool.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index bc2ec32..739c5e5 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -174,6 +174,22 @@ namespace chdr {
             return result;
         }
 
+        /**
+         * @brief Forgets the free chunks which belong to the stack block of another pool.
+         */
+        void discard_stack_chunks(const homogeneous_pool& _other) noexcept {
+
+            const auto first = reinterpret_cast<uintptr_t>(_other.m_stack_block);
+
+            m_free.erase(
+                std::remove_if(m_free.begin(), m_free.end(), [first](const uint8_t* _chunk) {
+                    const auto chunk = reinterpret_cast<uintptr_t>(_chunk);
+                    return chunk >= first && chunk < first + s_stack_block_size;
+                }),
+                m_free.end()
+            );
+        }
+
         /**
          * @brief Frees all memory blocks managed by the memory pool.
          *
@@ -417,6 +433,8 @@ namespace chdr {
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
+            discard_stack_chunks(_other); // The stack block of the source stays with the source.
+
             _other.m_stack_write = 0U;
             _other.m_block_count = 0U;
             _other.m_blocks.clear();
@@ -440,6 +458,8 @@ namespace chdr {
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
+                discard_stack_chunks(_other); // The stack block of the source stays with the source.
+
                 _other.m_stack_write = 0U;
                 _other.m_block_count = 0U;
                 _other.m_blocks.clear();
@@ -510,8 +530,10 @@ namespace chdr {
                 m_blocks = std::move(temp);
             }
             {
-                m_free = {};
+                decltype(m_free) temp{};
+                m_free = std::move(temp);
             }
+            m_alignment = 0U;
 
 #if CHDR_DIAGNOSTICS == 1
             __diagnostic_data. num_allocated = 0U;
-- 
2.43.0


From c943741b9a033b10a63417c06d96617f68521813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 24/52] fix: heterogeneous_pool hands out misaligned memory and
 remainders past the end of their block

---
 include/types/pmr/heterogeneous_pool.hpp | 66 +++++++++++-------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 339af9e..e02c0f1 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -104,7 +104,7 @@ namespace chdr {
         size_t m_block_width;         // Size of the current block.
 
         std::vector<block> m_blocks;
-        std::map<size_t, block> m_free;
+        std::multimap<size_t, block> m_free;
 
         HOT uint8_t* expand(size_t _bytes, size_t _alignment) noexcept {
 
@@ -129,23 +129,7 @@ namespace chdr {
                     remaining_size != 0U
                 ) {
 
-                    /*
-                     * Attempt to insert new block into free list.
-                     * Repeat with a smaller key upon collision.
-                     * If insertion is impossible, throw.
-                     */
-                    bool success = false;
-                    for (size_t i = 0U; i < remaining_size; ++i) {
-
-                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + utils::max(_bytes, _alignment)).second) {
-                            success = true;
-                            break;
-                        }
-                    }
-
-                    if (UNLIKELY(!success)) {
-                        throw std::bad_alloc();
-                    }
+                    m_free.emplace(remaining_size, block(remaining_size, _alignment, result + _bytes));
                 }
 
                 m_block_width = utils::min((m_block_width * 3U) / 2U, s_max_heap_block_size);
@@ -169,32 +153,42 @@ namespace chdr {
             return result;
         }
 
-        HOT uint8_t* allocate_from_free(size_t _bytes) {
+        HOT uint8_t* allocate_from_free(size_t _bytes, size_t _alignment) {
 
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
 
             uint8_t* result = nullptr;
 
-            // Find the smallest free block that fits:
-            auto it = m_free.lower_bound(_bytes);
+            // Find the smallest free block that fits once aligned:
+            for (auto it = m_free.lower_bound(_bytes); it != m_free.end(); ++it) {
 
-            if (it != m_free.end() && it->second.size >= _bytes) {
+                const auto address = reinterpret_cast<uintptr_t>(it->second.data);
+                const auto padding = static_cast<size_t>(((address + _alignment - 1U) & ~(_alignment - 1U)) - address);
 
-                // Extract the matching block without performing a full tree rebalance:
-                typename std::map<size_t, block>::node_type node = m_free.extract(it);
+                if (padding <= it->second.size - _bytes) {
 
-                result = node.mapped().data;
+                    // Keep the space in front of the aligned address:
+                    if (padding != 0U) {
+                        m_free.emplace(padding, block(padding, it->second.alignment, it->second.data));
+                    }
+
+                    // Extract the matching block without performing a full tree rebalance:
+                    auto node = m_free.extract(it);
 
-                // Consume block or adjust the remaining size:
-                size_t remaining_size = node.mapped().size - _bytes;
-                if (remaining_size != 0U) {
+                    result = node.mapped().data + padding;
 
-                    // Update with adjusted size:
-                    node.key() = remaining_size;
-                    node.mapped().size = remaining_size;
-                    node.mapped().data += utils::max(_bytes, node.mapped().alignment);
+                    // Consume block or adjust the remaining size:
+                    const size_t remaining_size = node.mapped().size - padding - _bytes;
+                    if (remaining_size != 0U) {
 
-                    m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
+                        // Update with adjusted size:
+                        node.key() = remaining_size;
+                        node.mapped().size = remaining_size;
+                        node.mapped().data = result + _bytes;
+
+                        m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
+                    }
+                    break;
                 }
             }
 
@@ -279,9 +273,9 @@ namespace chdr {
                 if (aligned_ptr == nullptr) {
 
                     // Attempt to find a free block, or create one otherwise:
-                    aligned_ptr = allocate_from_free(aligned_bytes);
+                    aligned_ptr = allocate_from_free(aligned_bytes, _alignment);
                     if (UNLIKELY(aligned_ptr == nullptr)) {
-                        aligned_ptr = expand(_bytes, _alignment);
+                        aligned_ptr = expand(aligned_bytes, _alignment);
                     }
                 }
 
@@ -364,7 +358,7 @@ namespace chdr {
                         }
                     }
 
-                    m_free.try_emplace(_bytes, _bytes, _alignment, static_cast<uint8_t*>(_p));
+                    m_free.emplace(_bytes, block(_bytes, _alignment, static_cast<uint8_t*>(_p)));
                 }
 
 #if CHDR_DIAGNOSTICS == 1
-- 
2.43.0


From 29db4bc5e21401a66949f7809b26bd1a0822d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 25/52] fix: heterogeneous_pool never recycles deallocated
 memory (inverted zero-size test)

---
 include/types/pmr/heterogeneous_pool.hpp | 63 +++++++++++++++---------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index e02c0f1..92f8fae 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -16,6 +16,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <iterator>
 #include <limits>
 #include <map>
 #include <new>
@@ -195,6 +196,19 @@ namespace chdr {
             return result;
         }
 
+        /**
+         * @brief Forgets the free memory which belongs to the stack block of another pool.
+         */
+        void discard_stack_blocks(const heterogeneous_pool& _other) noexcept {
+
+            const auto first = reinterpret_cast<uintptr_t>(_other.m_stack_block);
+
+            for (auto it = m_free.begin(); it != m_free.end();) {
+                const auto address = reinterpret_cast<uintptr_t>(it->second.data);
+                it = address >= first && address < first + s_stack_block_size ? m_free.erase(it) : std::next(it);
+            }
+        }
+
         /**
          * @brief Frees all memory blocks managed by the memory pool.
          *
@@ -326,40 +340,44 @@ namespace chdr {
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
             assert((_alignment & (_alignment - 1U)) == 0U && "Alignment must be a power of two.");
 
-            if (_bytes != 0U) {
+            if (_bytes == 0U) {
                 // No-op. (See C++17 standard.)
             }
             else {
-                if (((m_stack_write + (_bytes + _alignment - 1U)) & ~(_alignment - 1U)) > s_stack_block_size) {
 
-                    if constexpr (Coalescing) {
+                // Allocations occupy their size, rounded up to their alignment:
+                size_t free_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
 
-                        auto it = m_free.lower_bound(_bytes);
+                if constexpr (Coalescing) {
 
-                        // Merge with next block if adjacent:
-                        if (it != m_free.end() && _bytes + static_cast<uint8_t*>(_p) == it->second.data) {
-                            _bytes    += it->second.size;
-                            _alignment = utils::max(it->second.alignment, _alignment);
+                    auto it = m_free.lower_bound(free_bytes);
 
-                            it = m_free.erase(it);
-                        }
+                    // Merge with next block if adjacent:
+                    if (it != m_free.end() && free_bytes + static_cast<uint8_t*>(_p) == it->second.data) {
+                        free_bytes += it->second.size;
+                        _alignment  = utils::max(it->second.alignment, _alignment);
 
-                        // Merge with previous block if adjacent:
-                        if (it != m_free.begin()) {
-                            --it;
+                        it = m_free.erase(it);
+                    }
+
+                    // Merge with previous block if adjacent:
+                    if (it != m_free.begin()) {
+                        --it;
 
-                            if (it->second.data + it->second.size == _p) {
-                                _p         = it->second.data;
-                                _bytes    += it->second.size;
-                                _alignment = utils::max(it->second.alignment, _alignment);
+                        if (it->second.data + it->second.size == _p) {
+                            _p          = it->second.data;
+                            free_bytes += it->second.size;
+                            _alignment  = utils::max(it->second.alignment, _alignment);
 
-                                m_free.erase(it);
-                            }
+                            m_free.erase(it);
                         }
                     }
+                }
 
-                    m_free.emplace(_bytes, block(_bytes, _alignment, static_cast<uint8_t*>(_p)));
+                try {
+                    m_free.emplace(free_bytes, block(free_bytes, _alignment, static_cast<uint8_t*>(_p)));
                 }
+                catch (...) {} // The memory cannot be recycled until the pool is reset or released.
 
 #if CHDR_DIAGNOSTICS == 1
 
@@ -445,6 +463,7 @@ namespace chdr {
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
+            discard_stack_blocks(_other); // The stack block of the source stays with the source.
             _other.release();
         }
 
@@ -463,6 +482,7 @@ namespace chdr {
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
+                discard_stack_blocks(_other); // The stack block of the source stays with the source.
                 _other.release();
             }
             return *this;
@@ -500,8 +520,7 @@ namespace chdr {
                 }
             }
             catch (...) {
-                  m_free.clear();
-                m_blocks.clear();
+                release();
             }
 
 #if CHDR_DIAGNOSTICS == 1
-- 
2.43.0


From 36ab24fd38543254f6bc33a973c3737cc0683660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 26/52] fix: heap::erase takes another element or leaves the
 heap out of order

---
 include/types/containers/heap.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index a715c37..cf6dfb0 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -429,9 +429,9 @@ namespace chdr {
 
             assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
 
-            if (i < size()) {
+            if (i != 0U && i < c.size()) {
 
-                if (i == size() - 1U) {
+                if (i == size()) {
                     c.pop_back(); // If the item to remove is the last item, just remove it.
                 }
                 else {
@@ -441,7 +441,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i], c[i / Kd])) {
+                        if (i > 1U && comp(c[i / Kd], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -872,7 +872,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start], c[distance_from_start / Kd])) {
+                        if (distance_from_start > 1U && comp(c[distance_from_start / Kd], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
@@ -907,8 +907,11 @@ namespace chdr {
          * @param _last Iterator to the element past the last one to erase.
          */
         constexpr void erase(iterator_t _first, iterator_t _last) {
-            for (auto it = _first; it != _last;) {
-                it = erase(it); // Keep erasing until the last element is removed.
+            c.erase(_first, _last);
+
+            // Restore heap property:
+            for (size_t i = size() / Kd; i >= 1U; --i) {
+                sort_down(c[i]);
             }
         }
 
-- 
2.43.0


From c9b20029c20949194b33fad2ce90ca36e76c23dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 27/52] fix: heaps of more than two dimensions compare and move
 the placeholder element

---
 include/types/containers/heap.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index cf6dfb0..cf964fa 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -74,6 +74,14 @@ namespace chdr {
             return static_cast<size_t>(&(_item) - &(c[0U]));
         }
 
+        [[nodiscard]] HOT static constexpr size_t parent_of(size_t _index) noexcept {
+            return ((_index - 2U) / Kd) + 1U;
+        }
+
+        [[nodiscard]] HOT static constexpr size_t first_child_of(size_t _index) noexcept {
+            return ((_index - 1U) * Kd) + 2U;
+        }
+
     public:
 
         /**
@@ -191,7 +199,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = size() > 1U ? parent_of(size()) : 0U; i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -216,7 +224,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = size() > 1U ? parent_of(size()) : 0U; i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -441,7 +449,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i / Kd], c[i])) {
+                        if (i > 1U && comp(c[parent_of(i)], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -538,7 +546,7 @@ namespace chdr {
                 auto value_to_insert = std::move(c[i]);
 
                 while (i > 1U) {
-                    const auto p = i / Kd;
+                    const auto p = parent_of(i);
 
                     if (comp(c[p], value_to_insert)) {
                         c[i] = std::move(c[p]);
@@ -573,8 +581,8 @@ namespace chdr {
 
                 while (true) {
 
-                    const size_t c0 = i * Kd;         // First child index
-                    const size_t cn = c0 + (Kd - 1U); // Last child index in range
+                    const size_t c0 = first_child_of(i); // First child index
+                    const size_t cn = c0 + (Kd - 1U);    // Last child index in range
 
                     if (c0 < c.size()) {
 
@@ -757,7 +765,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = first_child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -802,7 +810,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = first_child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -872,7 +880,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start / Kd], c[distance_from_start])) {
+                        if (distance_from_start > 1U && comp(c[parent_of(distance_from_start)], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
@@ -910,7 +918,7 @@ namespace chdr {
             c.erase(_first, _last);
 
             // Restore heap property:
-            for (size_t i = size() / Kd; i >= 1U; --i) {
+            for (size_t i = size() > 1U ? parent_of(size()) : 0U; i >= 1U; --i) {
                 sort_down(c[i]);
             }
         }
-- 
2.43.0


From 8706c2db67cea188231a8ec26693f01dcf89ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 28/52] fix: heap::insert at a position breaks the heap order

---
 include/types/containers/heap.hpp | 32 +++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index cf964fa..abd93a7 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -831,32 +831,44 @@ namespace chdr {
             return c.end(); // Return end if no matching element is found.
         }
 
+    private:
+
+        constexpr iterator_t raise(size_t _index) {
+
+            while (_index > 1U && comp(c[parent_of(_index)], c[_index])) {
+                std::swap(c[parent_of(_index)], c[_index]);
+                _index = parent_of(_index);
+            }
+
+            return c.begin() + static_cast<typename Container::difference_type>(_index);
+        }
+
+    public:
+
         /**
          * @brief Inserts an element into the heap while maintaining the heap property.
          *
-         * @param _position The iterator position where the element should be inserted.
+         * @param _position A hint, which has no effect on where the element is inserted.
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
         constexpr iterator_t insert(iterator_t _position, const T& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, _value);
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+            (void)_position; // The position of an element is dictated by the heap property.
+            c.push_back(_value);
+            return raise(size());
         }
 
         /**
          * @brief Moves an element into the heap while maintaining the heap property.
          *
-         * @param _position The iterator position where the element should be moved.
+         * @param _position A hint, which has no effect on where the element is inserted.
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
         constexpr iterator_t insert(iterator_t _position, T&& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, std::move(_value));
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+            (void)_position; // The position of an element is dictated by the heap property.
+            c.push_back(std::move(_value));
+            return raise(size());
         }
 
         /**
-- 
2.43.0


From a859c2c6a8b5264b95baea7bec5172b98755995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 29/52] fix: heap::back reads past the end, top of a heap of
 pointers is a dangling reference, reverse iteration ends on the placeholder

---
 include/types/containers/heap.hpp | 35 +++++++------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index abd93a7..20972a5 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <functional>
+#include <iterator>
 #include <vector>
 
 // ReSharper disable once CppUnusedIncludeDirective
@@ -275,12 +276,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -292,12 +288,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -309,12 +300,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
@@ -326,12 +312,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
@@ -954,9 +935,9 @@ namespace chdr {
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rbegin() const noexcept { return c.rbegin();  }
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crbegin() const noexcept { return c.crbegin(); }
 
-        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend(); }
+        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return std::prev(c.rend());  }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return std::prev(c.rend());  }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return std::prev(c.crend()); }
 
     };
 
-- 
2.43.0


From f45ad0daf8d466daa49aeebbe0546e7c8c65dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 30/52] fix: heap::dequeue of the last element refers to an
 element past the end

---
 include/types/containers/heap.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 20972a5..a6c5596 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -459,12 +459,7 @@ namespace chdr {
 
             T result(std::move(top()));
 
-            if (size() > 0U) {
-                c[1U] = std::move(c.back());
-            }
-            c.pop_back();
-
-            sort_down(c[1U]);
+            pop();
 
             return result;
         }
-- 
2.43.0


From ebf821113966826a553425a5facaef575bdfa518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 31/52] fix: stack::push and queue::push do not compile

---
 include/types/containers/queue.hpp | 4 ++--
 include/types/containers/stack.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/queue.hpp b/include/types/containers/queue.hpp
index fbfac29..61ead62 100644
--- a/include/types/containers/queue.hpp
+++ b/include/types/containers/queue.hpp
@@ -203,13 +203,13 @@ namespace chdr {
          * @brief Adds an element to the queue.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the queue, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the queue.
diff --git a/include/types/containers/stack.hpp b/include/types/containers/stack.hpp
index 6db33cb..e4df76e 100644
--- a/include/types/containers/stack.hpp
+++ b/include/types/containers/stack.hpp
@@ -213,13 +213,13 @@ namespace chdr {
          * @brief Adds an element to the stack.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the stack, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the stack.
-- 
2.43.0


From 5b8b78a73ef9b08b169a552881d60b06dad351b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 32/52] fix: the iterators of existence_set do not compile

---
 include/types/containers/existence_set.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index eb4d009..4b5ccc7 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -410,10 +410,10 @@ namespace chdr {
          */
         [[maybe_unused, nodiscard]] constexpr auto capacity() const noexcept { return c.capacity(); }
 
-        using iterator_t               = typename std::vector<width_t>::              iterator;
-        using const_iterator_t         = typename std::vector<width_t>::        const_iterator;
-        using reverse_iterator_t       = typename std::vector<width_t>::      reverse_iterator;
-        using const_reverse_iterator_t = typename std::vector<width_t>::const_reverse_iterator;
+        using iterator_t               = typename std::pmr::vector<width_t>::              iterator;
+        using const_iterator_t         = typename std::pmr::vector<width_t>::        const_iterator;
+        using reverse_iterator_t       = typename std::pmr::vector<width_t>::      reverse_iterator;
+        using const_reverse_iterator_t = typename std::pmr::vector<width_t>::const_reverse_iterator;
 
         [[maybe_unused, nodiscard]] constexpr       iterator_t  begin()       noexcept { return c.begin();  }
         [[maybe_unused, nodiscard]] constexpr const_iterator_t  begin() const noexcept { return c.begin();  }
-- 
2.43.0


From 50e3286384a114336855c9b366bc3474d9a57a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 33/52] fix: utils::to_string reads past its table of units for
 durations below a nanosecond

---
 include/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index cab6c37..013dc4a 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -564,7 +564,7 @@ namespace chdr {
             constexpr std::array<const char* const, 4U> units { "s", "ms", "µs", "ns" };
 
             size_t i = 0U;
-            while (i < units.size() && abs(_duration) < 1.0L) {
+            while (i < units.size() - 1U && abs(_duration) < 1.0L) {
                 _duration *= 1000.0L;
                 ++i;
             }
-- 
2.43.0


From 1c3a2c913b737271d4ecb9db7e4500fa344e1595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 34/52] fix: utils::trim_trailing_zeros changes the value of
 numbers without decimals

---
 include/utils/utils.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 013dc4a..4b08f01 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -594,13 +594,17 @@ namespace chdr {
          */
         [[nodiscard]] static std::string trim_trailing_zeros(std::string _str) {
 
-            auto& trimmed = _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
+            // Zeros are only trailing if they are decimals.
+            if (_str.find('.') != std::string::npos) {
 
-            if (trimmed.back() == '.') {
-                trimmed.pop_back();
+                _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
+
+                if (_str.back() == '.') {
+                    _str.pop_back();
+                }
             }
 
-            return trimmed;
+            return _str;
         }
     };
 
-- 
2.43.0


From a39cc5c7518170fb7a91de93c4a635aced5605ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 35/52] fix: utils::powui divides by a base of zero and asserts
 on results that fit

---
 include/utils/utils.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 4b08f01..a6e2cf6 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -385,12 +385,16 @@ namespace chdr {
 
             while (_exp > 0U) {
                 if (_exp % 2U == 1U) {
-                    assert(result <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
+                    assert((_base == 0U || result <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
                     result *= _base;
                 }
-                assert(_base <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
-                _base *= _base;
-                _exp  /= 2U;
+                _exp /= 2U;
+
+                // The base is not needed beyond the last digit of the exponent.
+                if (_exp > 0U) {
+                    assert((_base == 0U || _base <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
+                    _base *= _base;
+                }
             }
 
             return result;
-- 
2.43.0


From 62430cdbd17503b620bf7b1a483137c0c8727151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 36/52] fix: utils::to_string divides by a scale of zero

---
 include/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index a6e2cf6..e2bd206 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -577,7 +577,7 @@ namespace chdr {
 
             return trim_trailing_zeros(
                 std::to_string(
-                    std::floor((_duration / _scale) + 0.5L) * _scale
+                    _scale > 0.0L ? std::floor((_duration / _scale) + 0.5L) * _scale : _duration
                 )
             ) + units[i];
         }
-- 
2.43.0


From 81b76d3a018447e9a9d3d8accd11e7fd6e2114fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 37/52] fix: heuristics truncate coordinates to int (wrong
 distances, signed overflow)

---
 include/utils/heuristics.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index a26cf11..a2eca0a 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -41,6 +41,13 @@ namespace chdr {
          heuristics& operator=(const heuristics&&) = delete;
         ~heuristics()                              = delete;
 
+    private:
+
+        template <typename scalar_t, typename T>
+        [[nodiscard]] HOT static constexpr scalar_t difference(const T& _a, const T& _b) noexcept {
+            return static_cast<scalar_t>(_a < _b ? _b - _a : _a - _b);
+        }
+
     public:
 
         /**
@@ -77,7 +84,7 @@ namespace chdr {
 
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
-                const auto val = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                const auto val = difference<scalar_t>(_a[i], _b[i]);
                 result += val * val;
             }
 
@@ -134,7 +141,7 @@ namespace chdr {
 
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
-                result += static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                result += difference<scalar_t>(_a[i], _b[i]);
             }
 
             return result;
@@ -158,7 +165,7 @@ namespace chdr {
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
 
-                const auto val = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                const auto val = difference<scalar_t>(_a[i], _b[i]);
                 if (val > result) {
                     result = val;
                 }
@@ -185,8 +192,8 @@ namespace chdr {
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
 
-                if (const auto denominator = static_cast<scalar_t>(utils::abs(_a[i]) + utils::abs(_b[i])); denominator != 0) {
-                    const auto   numerator = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                if (const auto denominator = static_cast<scalar_t>(utils::abs(_a[i])) + static_cast<scalar_t>(utils::abs(_b[i])); denominator != 0) {
+                    const auto   numerator = difference<scalar_t>(_a[i], _b[i]);
 
                     result += numerator / denominator;
                 }
-- 
2.43.0


From eb4c7cbc6b33f905215989e1ef3b494a358f28ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 38/52] fix: heuristics::octile_distance overestimates every
 distance that is not a single straight or diagonal run

---
 include/utils/heuristics.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index a2eca0a..6d45dc9 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -106,19 +106,16 @@ namespace chdr {
 
             scalar_t result = chebyshev_distance<scalar_t, coord_t>(_a, _b);
 
-            bool straight = false;
-            for (size_t i = 0U; i < Kd; ++i) {
-
-                if (_a[i] == _b[i]) {
-                    straight = true;
+            if constexpr (Kd > 1U) {
 
-                    if constexpr (Kd > 4U) { break; }
+                // Only the part shared by all axes can be covered by diagonal movement:
+                scalar_t diagonal = result;
+                for (size_t i = 0U; i < Kd; ++i) {
+                    diagonal = utils::min(diagonal, difference<scalar_t>(_a[i], _b[i]));
                 }
-            }
 
-            if (!straight) {
                 constexpr auto sqrt2 = utils::sqrt<scalar_t>(2.0);
-                result *= sqrt2;
+                result += diagonal * (sqrt2 - static_cast<scalar_t>(1));
             }
 
             return result;
-- 
2.43.0


From 68bcbb1ec6a54b64f4c9e81ffda2590e9013e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 39/52] fix: graphs built from an adjacency list lose their
 vertices without edges

---
 include/mazes/graph.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index a9f83a0..a5fbba1 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -109,6 +109,8 @@ namespace chdr::mazes {
 
             for (const auto& entry : _adjacency_list) {
 
+                add(index); // A vertex need not have edges.
+
                 for (const auto& edge : entry) {
                     add(index, edge);
                 }
-- 
2.43.0


From d2f7b229957c3819aa89a829868b4477488d1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 40/52] fix: solvers dereference the end of the adjacency set
 when an edge leads to a missing vertex

---
 include/solvers/base/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 46092d6..6fc9ddc 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -772,7 +772,7 @@ namespace chdr::solvers {
                 const auto& [nIndex, nDistance](_n);
 
                 return {
-                    true,
+                    _params.maze.contains(nIndex), // Edges may lead to vertices which were removed, or never added.
                     nIndex,
                     utils::to_nd(nIndex, _params.size),
                     nDistance
-- 
2.43.0


From 3b6fb433014ac466f4894c062a15d929a9c33258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 41/52] fix: graphs built from a grid miss edges next to
 corridors, stop at the first junction, and reuse the edges of other cells

---
 include/mazes/graph.hpp | 75 ++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 49 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index a5fbba1..07a99d0 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -169,71 +169,48 @@ namespace chdr::mazes {
                 // TODO: Add support for directed graphs.
                 std::mutex mtx;
 
-                const auto worker = [&](index_t _start, index_t _end) ALWAYS_INLINE {
-
-                    std::pmr::unsynchronized_pool_resource pool;
-                    stack<edge_t> stack(&pool);
-
-                    std::pmr::unordered_set<index_t> global_closed(&pool);
-                    std::pmr::unordered_set<index_t> local_closed(&pool);
-
-                    std::pmr::unordered_map<index_t, neighbours_t> thread_connections(&pool);
+                const auto worker = [&](index_t _start, index_t _end) {
 
                     for (auto index = _start; index < _end; ++index) {
 
-                        if (const auto& element = _grid[index]; element.is_active()) {
-
-                            global_closed.clear();
-                            global_closed.insert(index);
-
-                            if (const auto& neighbours = _grid.get_neighbours(index); !_grid.is_transitory(neighbours)) {
-
-                                for (const auto& n1 : neighbours) {
+                        if (_grid[index].is_active()) {
 
-                                    if (const auto& [nActive1, nCoord1] = n1; nActive1) {
+                            if (const auto neighbours = _grid.get_neighbours(index); !_grid.is_transitory(neighbours)) {
 
-                                        const auto nIdx1 = static_cast<index_t>(utils::to_1d(nCoord1, size));
-
-                                        local_closed.clear();
-                                        stack.emplace(std::make_pair(nIdx1, static_cast<scalar_t>(1)));
-
-                                        while (!stack.empty()) {
-
-                                            const auto [currIdx, currDistance] = std::move(stack.top());
-                                            stack.pop();
-
-                                            if (local_closed.find(currIdx) == local_closed.end()) {
+                                {
+                                    const std::lock_guard lock(mtx);
+                                    add(index);
+                                }
 
-                                                 local_closed.insert(currIdx);
-                                                global_closed.insert(currIdx);
+                                for (const auto& [nActive, nCoord] : neighbours) {
 
-                                                for (const auto& n3 : _grid.get_neighbours(currIdx)) {
+                                    if (nActive) {
 
-                                                    if (const auto& [sActive3, sCoord3] = n3; sActive3) {
+                                        // Follow the corridor up to the next junction or dead end:
+                                        auto     previous = index;
+                                        auto      current = static_cast<index_t>(utils::to_1d(nCoord, size));
+                                        scalar_t distance { 1 };
 
-                                                        if (const auto s = static_cast<index_t>(utils::to_1d(sCoord3, size));
-                                                            global_closed.find(s) == global_closed.end()
-                                                        ) {
+                                        while (current != index && _grid.is_transitory(current)) {
 
-                                                            const edge_t next = std::make_pair(s, currDistance + static_cast<scalar_t>(1));
+                                            for (const auto& [sActive, sCoord] : _grid.get_neighbours(current)) {
 
-                                                            if (_grid.is_transitory(s)) {
-                                                                stack.emplace(std::move(next));
-                                                            }
-                                                            else {
-                                                                thread_connections[nIdx1].emplace_back(std::move(next));
-                                                                stack.clear();
-                                                                break;
-                                                            }
-                                                        }
-                                                    }
+                                                if (const auto s = static_cast<index_t>(sActive ? utils::to_1d(sCoord, size) : 0U);
+                                                    sActive && s != previous
+                                                ) {
+                                                    previous = current;
+                                                    current  = s;
+                                                    break;
                                                 }
                                             }
+
+                                            ++distance;
                                         }
 
-                                        for (const auto& item : thread_connections[nIdx1]) {
+                                        // Loops lead nowhere.
+                                        if (current != index) {
                                             const std::lock_guard lock(mtx);
-                                            add(index, item);
+                                            add(index, std::make_pair(current, distance));
                                         }
                                     }
                                 }
-- 
2.43.0


From 37d9fe98e68b97a50224c4ad0691fc0574deaf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 42/52] fix: graph::prune leaves edges to removed vertices and
 loses connections along chains

---
 include/mazes/graph.hpp | 86 ++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 48 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 07a99d0..4c92992 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -340,71 +340,61 @@ namespace chdr::mazes {
 
             // TODO: Extend support for pruning directed graphs.
 
-            std::vector<index_t> nodesToRemove;
+            bool dirty   = false;
+            bool changed = false;
 
-            bool dirty = false;
+            // Replaces an edge to the removed node with one to its other neighbour, of which only the lightest is kept.
+            const auto reconnect = [](neighbours_t& _set, const neighbour_t& _old, const neighbour_t& _new) {
 
-            do {
-                nodesToRemove.clear();
+                _set.erase(std::find(_set.begin(), _set.end(), _old));
 
-                for (const auto& entry : m_entries) {
+                const auto existing = std::find_if(_set.begin(), _set.end(), [&_new](const auto& _edge) {
+                    return _edge.first == _new.first;
+                });
 
-                    if (m_entries.size() > 2U) {
+                if (existing == _set.end()) {
+                    _set.emplace_back(_new);
+                }
+                else if (_new.second < existing->second) {
+                    existing->second = _new.second;
+                }
+            };
 
-                        if (auto& [node, neighbours] = entry; neighbours.size() == 2U) {
+            do {
+                changed = false;
 
-                            dirty = ConsolidateAfterPrune;
+                for (auto it = m_entries.begin(); it != m_entries.end() && m_entries.size() > 2U;) {
 
-                            auto it = neighbours.begin();
+                    bool removed = false;
 
-                            auto& [n1_id, n1_cost] = *it;
-                            auto& [n2_id, n2_cost] = *(++it);
+                    if (const auto& [node, neighbours] = *it; neighbours.size() == 2U) {
 
-                            auto s1 = m_entries.find(n1_id);
-                            auto s2 = m_entries.find(n2_id);
+                        const auto [n1_id, n1_cost] = neighbours.front();
+                        const auto [n2_id, n2_cost] = neighbours.back();
 
+                        if (const auto s1 = m_entries.find(n1_id), s2 = m_entries.find(n2_id);
+                            n1_id != node && n2_id != node && n1_id != n2_id && s1 != m_entries.end() && s2 != m_entries.end() &&
+                            std::find(s1->second.begin(), s1->second.end(), neighbour_t { node, n1_cost }) != s1->second.end() &&
+                            std::find(s2->second.begin(), s2->second.end(), neighbour_t { node, n2_cost }) != s2->second.end()
+                        ) {
                             // Merge the connections from the current node with its neighbours:
-
-                            if (s1 != m_entries.end() && n1_id != n2_id) {
-                                auto& set = s1->second;
-                                auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n1_cost));
-
-                                if (sn != set.end()) {
-
-                                    if (neighbour_t new_vertex { n2_id, sn->second + n2_cost };
-                                        std::find(set.begin(), set.end(), new_vertex) == set.end()
-                                    ) {
-                                        set.emplace_back(new_vertex);
-                                    }
-                                }
-                            }
-
-                            if (s2 != m_entries.end() && n1_id != n2_id) {
-                                auto& set = s2->second;
-                                auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n2_cost));
-
-                                if (sn != set.end()) {
-                                    neighbour_t new_vertex{n1_id, sn->second + n1_cost};
-                                    set.erase(sn);
-                                    if (std::find(set.begin(), set.end(), new_vertex) == set.end()) {
-                                        set.emplace_back(new_vertex);
-                                    }
-                                }
-                            }
-
-                            // Remove the current node from the graph.
-                            nodesToRemove.emplace_back(node);
+                            reconnect(s1->second, { node, n1_cost }, { n2_id, static_cast<scalar_t>(n1_cost + n2_cost) });
+                            reconnect(s2->second, { node, n2_cost }, { n1_id, static_cast<scalar_t>(n1_cost + n2_cost) });
+                            removed = true;
                         }
                     }
+
+                    if (removed) {
+                        it      = m_entries.erase(it);
+                        dirty   = ConsolidateAfterPrune;
+                        changed = true;
+                    }
                     else {
-                        break;
+                        ++it;
                     }
                 }
-                for (const auto& node : nodesToRemove) {
-                    m_entries.erase(node);
-                }
             }
-            while (!nodesToRemove.empty() && m_entries.size() > 2U);
+            while (changed);
 
             if (dirty) {
                 chdr::malloc_consolidate();
-- 
2.43.0


From ea19e4cc8933bdf7bf259883e0407c52be8a6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 43/52] fix: grid::nodes(value) checks the size of the old
 nodes instead of the new ones

---
 include/mazes/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index 1c1fc89..e8c64ec 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -176,7 +176,7 @@ namespace chdr::mazes {
          * @warning The number of nodes provided must match the number of cells in the grid.
          */
         constexpr void nodes(const std::vector<weight_t>& _value) noexcept {
-            assert(m_nodes.size() == m_count && "The number of nodes must match the number of cells in the grid.");
+            assert(_value.size() == m_count && "The number of nodes must match the number of cells in the grid.");
             m_nodes = _value;
         }
 
-- 
2.43.0


From 084e17c010a81d733852603d14c705f304c426c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 44/52] fix: building a graph from a grid does not compile for
 8- and 16-bit indices

---
 include/mazes/graph.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 4c92992..929598a 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -169,9 +169,11 @@ namespace chdr::mazes {
                 // TODO: Add support for directed graphs.
                 std::mutex mtx;
 
-                const auto worker = [&](index_t _start, index_t _end) {
+                const auto worker = [&](size_t _start, size_t _end) {
 
-                    for (auto index = _start; index < _end; ++index) {
+                    for (auto i = _start; i < _end; ++i) {
+
+                        const auto index = static_cast<index_t>(i);
 
                         if (_grid[index].is_active()) {
 
@@ -223,15 +225,15 @@ namespace chdr::mazes {
                 const size_t count      = _grid.count();
                 const size_t numThreads = utils::clamp(std::thread::hardware_concurrency(), 1U, 6U);
 
-                const auto chunkSize = static_cast<index_t>((count + numThreads - 1U) / numThreads);
+                const size_t chunkSize  = (count + numThreads - 1U) / numThreads;
 
                 std::array<std::future<void>, 6U> futures;
 
                 for (size_t i = 0U; i < numThreads; ++i) {
                     assert(i < numThreads && "Error: Index 'i' exceeds the number of initialised threads.");
 
-                    const index_t start = static_cast<index_t>(i) * chunkSize;
-                    const index_t end   = utils::min(start + chunkSize, static_cast<index_t>(count));
+                    const size_t start = utils::min(i * chunkSize, count);
+                    const size_t end   = utils::min(start + chunkSize, count);
 
                     futures[i] = std::async(std::launch::async, worker, start, end);
                 }
-- 
2.43.0


From c06f15225a94f2094ff585d0e15e2485606905cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 45/52] fix: heuristics::euclidean_distance of long double
 scalars only has the precision of double

---
 include/utils/heuristics.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index 6d45dc9..6d59c18 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -13,6 +13,7 @@
  * @file heuristics.hpp
  */
 
+#include <cmath>
 #include <cstddef>
 #include <type_traits>
 
@@ -65,7 +66,7 @@ namespace chdr {
          */
         template <typename scalar_t, typename coord_t>
         [[maybe_unused, nodiscard]] HOT static constexpr auto euclidean_distance(const coord_t& _a, const coord_t& _b) noexcept {
-            return static_cast<scalar_t>(sqrt(sqr_euclidean_distance<scalar_t, coord_t>(_a, _b)));
+            return static_cast<scalar_t>(std::sqrt(sqr_euclidean_distance<scalar_t, coord_t>(_a, _b)));
         }
 
         /**
-- 
2.43.0


From b1b30522d24529405e8b394ac559dc55b28fc29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 46/52] fix: the library does not compile with clang in C++20

---
 include/mazes/graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 929598a..312a8c0 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -139,9 +139,9 @@ namespace chdr::mazes {
          */
         template <typename coord_t, typename weight_t, const bool Prune = true, const bool ConsolidateAfterPrune = true>
         [[maybe_unused]]
-#if defined(__cpp_constexpr_dynamic_alloc) && (__cpp_constexpr_dynamic_alloc >= 201907L)
+#if __cplusplus >= 202302L
         constexpr
-#endif // defined(__cpp_constexpr_dynamic_alloc) && (__cpp_constexpr_dynamic_alloc >= 201907L)
+#endif // __cplusplus >= 202302L
         explicit graph(const grid<coord_t, weight_t>& _grid, std::pmr::memory_resource* _resource = std::pmr::get_default_resource()) : m_entries(_resource) {
 
             const auto size = _grid.size();
-- 
2.43.0


From b5cd13b297c235fdd58c92927d7cf55acb4f93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 47/52] fix: utils::to_nd does not compile with clang for 8-
 and 16-bit indices

---
 include/utils/utils.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index e2bd206..ad4e95f 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -207,8 +207,8 @@ namespace chdr {
             }
             else if constexpr (Kd == 2U) {
                 result = {
-                    _index % _sizes[0U],
-                    _index / _sizes[0U]
+                    static_cast<T>(_index % _sizes[0U]),
+                    static_cast<T>(_index / _sizes[0U])
                 };
             }
             else if constexpr (Kd == 3U) {
@@ -216,9 +216,9 @@ namespace chdr {
                 const auto w2 = _index % w1;
 
                 result = {
-                    w2 % _sizes[0U],
-                    w2 / _sizes[0U],
-                    _index / w1
+                    static_cast<T>(w2 % _sizes[0U]),
+                    static_cast<T>(w2 / _sizes[0U]),
+                    static_cast<T>(_index / w1)
                 };
             }
             else if constexpr (Kd == 4U) {
@@ -227,10 +227,10 @@ namespace chdr {
                 const auto w3 = _index % w2;
 
                 result = {
-                    (w3 % w1) % _sizes[0U],
-                    (w3 % w1) / _sizes[0U],
-                     w3 / w1,
-                    _index / w2,
+                    static_cast<T>((w3 % w1) % _sizes[0U]),
+                    static_cast<T>((w3 % w1) / _sizes[0U]),
+                    static_cast<T>(w3 / w1),
+                    static_cast<T>(_index / w2),
                 };
             }
             else {
-- 
2.43.0


From b44460a7fe25f379660fd7b0508796d02013a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 48/52] fix: the square root at compile time ends for every
 argument

The iteration oscillated for integers one below a square, and its first
step overflowed for the largest ones.
---
 include/utils/utils.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index ad4e95f..bcd4437 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -462,12 +462,13 @@ namespace chdr {
                     }
                     else {
 
-                        T x    { _value };
-                        T last {    0   };
+                        // Start at or above the root, from where the iteration descends until it has arrived.
+                        T x    { static_cast<T>(_value / static_cast<T>(2) + static_cast<T>(1)) };
+                        T next { static_cast<T>((x + _value / x) / static_cast<T>(2)) };
 
-                        while (x != last) {
-                            last = x;
-                               x = (x + _value / x) / static_cast<T>(2);
+                        while (next < x) {
+                            x    = next;
+                            next = static_cast<T>((x + _value / x) / static_cast<T>(2));
                         }
 
                         result = x;
-- 
2.43.0


From 8981f49bab626b1502e7fdcd33e87276e9002c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 49/52] fix: the Euclidean distance is a constant expression

std::sqrt is not constexpr; utils::sqrt is, and gives the same result at
run time.
---
 include/utils/heuristics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index 6d59c18..d714784 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -66,7 +66,7 @@ namespace chdr {
          */
         template <typename scalar_t, typename coord_t>
         [[maybe_unused, nodiscard]] HOT static constexpr auto euclidean_distance(const coord_t& _a, const coord_t& _b) noexcept {
-            return static_cast<scalar_t>(std::sqrt(sqr_euclidean_distance<scalar_t, coord_t>(_a, _b)));
+            return static_cast<scalar_t>(utils::sqrt(sqr_euclidean_distance<scalar_t, coord_t>(_a, _b)));
         }
 
         /**
-- 
2.43.0


From 3c471e3e2ea496ddf9f4dc8a547a269b1d61abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 50/52] fix: solve with anything but a constant parameters
 object does not compile

The forwarding overload has to construct the parameters from its arguments,
as operator() does; it called itself instead.
---
 include/solvers/base/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 6fc9ddc..92978ed 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -848,7 +848,7 @@ namespace chdr::solvers {
         constexpr
 #endif // __cplusplus >= 202003L
         static auto solve(Args&&... _args) {
-            return solve(std::forward<Args>(_args)...);
+            return solve({ std::forward<Args>(_args)... });
         }
 
         /**
-- 
2.43.0


From 6f4bb7587f3b319a00308a1414a3543ba41f9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:59 +0000
Subject: [PATCH 51/52] fix: fringe does not compile with 8- and 16-bit scalars

---
 include/solvers/fringe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index 1ac3631..fa9192d 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -189,7 +189,7 @@ namespace chdr::solvers {
                                         }
 
                                         const auto g = curr_ptr->m_gScore + n.distance;
-                                        const auto f = g + (_params.h(n.coord, end) * _params.weight);
+                                        const auto f = static_cast<scalar_t>(g + (_params.h(n.coord, end) * _params.weight));
 
                                         if (f <= max_threshold) {
                                             _open.emplace_back(n.index, g, f, curr_ptr);
-- 
2.43.0


From 74478c886266635298e80645aeec27ff09af4076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:31 +0000
Subject: [PATCH 52/52] fix: cells below zero count as inside grids with signed
 coordinates

---
 include/mazes/grid.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index e8c64ec..a4e0719 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -275,7 +275,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (_direction[i] - 1U);
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
                     break;
                 }
@@ -300,7 +300,7 @@ namespace chdr::mazes {
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
 
             for (size_t i = 0U; i < s_rank; ++i) {
-                if (_id[i] >= m_size[i]) { return false; }
+                if (static_cast<size_t>(_id[i]) >= static_cast<size_t>(m_size[i])) { return false; }
             }
             return true;
         }
@@ -484,7 +484,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (direction[i] - static_cast<typename coord_t::value_type>(1U));
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
 
                     if constexpr (s_rank > 4U) {
@@ -740,7 +740,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (_direction[i] - 1U);
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
                     break;
                 }
@@ -765,7 +765,7 @@ namespace chdr::mazes {
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
 
             for (size_t i = 0U; i < s_rank; ++i) {
-                if (_id[i] >= m_size[i]) { return false; }
+                if (static_cast<size_t>(_id[i]) >= static_cast<size_t>(m_size[i])) { return false; }
             }
             return true;
         }
@@ -947,7 +947,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (direction[i] - static_cast<typename coord_t::value_type>(1U));
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
 
                     if constexpr (s_rank > 4U) {
-- 
2.43.0

