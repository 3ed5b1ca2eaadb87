From 51a16237484baa229818e9bdd4debad883bcd186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 01/32] fix: 3-phase accepted an empty solution when cutoff +
 fixed cost rounded below the best cost

---
 src/algorithms/ThreePhase.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 6f31983..19dd603 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -61,7 +61,8 @@ public:
             sol.cost = cutoff;  // Sol get filled only if one with cost < cutoff is found
             subgrad.heuristic(env, core.inst, step_size, greedy, sol, lagr_mult);
 
-            if (sol.cost + fixing.fixed_cost < best_sol.cost) {
+            // NOTE: cutoff + fixed_cost can round below best_sol.cost even if nothing has been found
+            if (sol.cost < cutoff && sol.cost + fixing.fixed_cost < best_sol.cost) {
                 _from_core_to_unfixed_sol(sol, core, fixing, best_sol);
                 CFT_IF_DEBUG(check_inst_solution(inst_copy, best_sol));
             }
-- 
2.43.0


From a146c6c2d1727e838f41c026f35e8e81d00a3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 02/32] fix: heuristic phase accepted a discarded greedy
 solution when epsilon vanishes

---
 src/subgradient/Subgradient.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index 395dd0d..408b51d 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -144,7 +144,8 @@ public:
             greedy_sol.idxs.clear();
             greedy_sol.cost = greedy(core_inst, lagr_mult, reduced_costs, greedy_sol.idxs, cutoff);
             print<5>(env, "HEUR> {:4}: Greedy solution {:.2f}\n", iter, best_sol.cost);
-            if (greedy_sol.cost <= best_sol.cost - env.epsilon) {
+            // NOTE: greedy_sol is a valid solution only when its cost is below the cutoff
+            if (greedy_sol.cost < cutoff && greedy_sol.cost <= best_sol.cost - env.epsilon) {
                 best_sol = greedy_sol;
                 print<4>(env, "HEUR> {:4}: Improved solution {:.2f}\n", iter, best_sol.cost);
                 CFT_IF_DEBUG(check_inst_solution(core_inst, best_sol));
-- 
2.43.0


From 98b450b0895c2f92e139373808f1c455857e98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 03/32] fix: greedy kept removed columns in the solution when
 no redundant column was left

---
 src/greedy/Greedy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greedy/Greedy.hpp b/src/greedy/Greedy.hpp
index 0143a82..db0a281 100644
--- a/src/greedy/Greedy.hpp
+++ b/src/greedy/Greedy.hpp
@@ -120,10 +120,11 @@ private:
     }
 
     static bool _try_early_exit(RedundancyData& redund_info, std::vector<cidx_t>& sol) {
-        if (redund_info.partial_cost >= redund_info.best_cost || redund_info.redund_set.empty())
+        if (redund_info.partial_cost >= redund_info.best_cost)
             return true;  // Partial solution already worse than best cost
 
-        if (redund_info.partial_cov_count < rsize(redund_info.partial_cover))
+        if (!redund_info.redund_set.empty() &&
+            redund_info.partial_cov_count < rsize(redund_info.partial_cover))
             return false;  // Partial cover not completed yet, continue
 
         // Otherwise complete the solution removing redundant columns
-- 
2.43.0


From 05217c89887aea76119b5d1ec7237011ca5336b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 04/32] fix: refinement kept the previous fixing when no column
 gets fixed

The instance is restored on every refinement iteration, but the fixing data (fixed
columns, fixed cost, index maps) was reset only if some column had to be fixed. When none
had to, the solution of the unfixed instance was mapped through the stale fixing, giving
solutions with a wrong cost and wrong columns.
---
 src/algorithms/Refinement.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/Refinement.hpp b/src/algorithms/Refinement.hpp
index 7997b70..20ce9c6 100644
--- a/src/algorithms/Refinement.hpp
+++ b/src/algorithms/Refinement.hpp
@@ -128,10 +128,9 @@ inline CftResult run(Environment const& env,                // in
 
         inst             = orig_inst;
         auto cols_to_fix = select_cols_to_fix(env, inst, nofix_dual.mults, best_sol);
-        if (!cols_to_fix.empty()) {
-            make_identity_fixing_data(ncols, nrows, fixing);
+        make_identity_fixing_data(ncols, nrows, fixing);
+        if (!cols_to_fix.empty())
             fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
-        }
         real_t nrows_real = as_real(rsize(orig_inst.rows));
         real_t free_perc  = as_real(rsize(inst.rows)) * 100.0_F / nrows_real;
         print<2>(env,
-- 
2.43.0


From 111f2087578878c28d1518b73068b935d0349c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:21 +0000
Subject: [PATCH 05/32] fix: reading past the end of a file repeated its last
 line

std::getline leaves the string unchanged when the stream is already at its end, so a file
not terminated by a newline had its last line served forever: truncated instances were
accepted, with the last line duplicated, instead of being rejected.
---
 src/utils/parse_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 85eb441..c0a3e7e 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -131,7 +131,8 @@ struct FileLineIterator {
     }
 
     StringView next() {
-        std::getline(in, line);
+        if (!std::getline(in, line))
+            line.clear();  // NOTE: past the end, getline might leave the last line unchanged
         return trim(StringView(line));
     }
 };
-- 
2.43.0


From 67c76915aca715fbb614167b4278d4e46dfbc122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:21 +0000
Subject: [PATCH 06/32] fix: out of range indexes in RAIL and CVRP files were
 not rejected

Row indexes below the first one (RAIL, CVRP) and any out of range column index of the
initial solution (CVRP) were used to access memory out of bounds.
---
 src/core/parsing.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index de38c82..396ec64 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -126,7 +126,7 @@ inline Instance parse_rail_instance(std::string const& path) {
 
         for (ridx_t n = 0_R; n < j_nrows; n++) {
             inst.cols.idxs.push_back(string_to<ridx_t>::parse(tokens[n]) - 1_R);
-            if (inst.cols.idxs.back() >= num.rows)
+            if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
         }
         inst.cols.begs.push_back(csize(inst.cols.idxs));
@@ -157,7 +157,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
 
         while (!line_view.empty()) {
             fdata.inst.cols.idxs.push_back(string_to<ridx_t>::consume(line_view));
-            if (fdata.inst.cols.idxs.back() >= num.rows)
+            if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
         fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
@@ -166,6 +166,8 @@ inline FileData parse_cvrp_instance(std::string const& path) {
     line_view = file_iter.next();
     while (!line_view.empty()) {
         cidx_t j = string_to<cidx_t>::consume(line_view);
+        if (j < 0_C || j >= num.cols)
+            throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         fdata.init_sol.idxs.push_back(j);
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
-- 
2.43.0


From 2ce2fd02cb9282d6407490f5c986a68112ba0281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 07/32] fix: malformed MPS files hung the parser or were read
 as something else

A file ending before its COLUMNS or RHS section was never left, an entry of an undeclared
row was silently counted as one of the first row, and lines with a missing value were read
out of bounds.
---
 src/core/parsing.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 396ec64..e66d134 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -41,6 +41,14 @@ namespace local { namespace {
         return num;
     }
 
+    // Next line of a section that is yet to be closed
+    inline StringView next_mps_line(FileLineIterator& file_iter) {
+        auto line_view = file_iter.next();
+        if (!file_iter.in)
+            throw std::invalid_argument("Invalid file format: truncated MPS instance?");
+        return line_view;
+    }
+
 #ifndef NDEBUG
     inline void mps_epilogue_check(FileLineIterator&                              file_iter,
                                    std::unordered_map<std::string, ridx_t> const& rows_map) {
@@ -194,21 +202,21 @@ inline Instance parse_mps_instance(std::string const& path) {
     auto   obj_name = std::string();
     while (line_view != "COLUMNS") {
         auto tokens = split(line_view);
-        if (!tokens.empty() && tokens[0] == "N")
+        if (tokens.size() > 1 && tokens[0] == "N")
             obj_name = tokens[1].to_cpp_string();
-        if (!tokens.empty() && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
+        if (tokens.size() > 1 && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
             rows_map[tokens[1].to_cpp_string()] = nrows++;
-        line_view = file_iter.next();
+        line_view = local::next_mps_line(file_iter);
     }
 
     auto prev_col_name = std::string();
-    line_view          = file_iter.next();
+    line_view          = local::next_mps_line(file_iter);
     inst.cols.begs.clear();
     while (line_view != "RHS") {
         auto tokens = split(line_view);
         // Best effort to detect columns header line
         if (tokens.size() < 3 || (std::isdigit(tokens[2][0]) == 0 && tokens[2][0] != '-')) {
-            line_view = file_iter.next();
+            line_view = local::next_mps_line(file_iter);
             continue;
         }
 
@@ -218,18 +226,22 @@ inline Instance parse_mps_instance(std::string const& path) {
             inst.costs.push_back(limits<real_t>::max());
         }
 
+        if (tokens.size() % 2 == 0)
+            throw std::invalid_argument("Invalid file format: not a MPS instance?");
+
         for (size_t t = 1; t < tokens.size(); t += 2) {
             if (tokens[t] == obj_name)
                 inst.costs.back() = string_to<real_t>::parse(tokens[t + 1]);
             else {
-                auto row_name = tokens[t];
-                assert(rows_map.find(row_name.to_cpp_string()) != rows_map.end());
+                auto row = rows_map.find(tokens[t].to_cpp_string());
+                if (row == rows_map.end())
+                    throw std::invalid_argument("Invalid file format: unknown MPS row.");
                 assert(tokens[t + 1] == "1" || tokens[t + 1] == "-1");
-                inst.cols.idxs.push_back(rows_map[row_name.to_cpp_string()]);
+                inst.cols.idxs.push_back(row->second);
             }
         }
 
-        line_view = file_iter.next();
+        line_view = local::next_mps_line(file_iter);
     }
     inst.cols.begs.push_back(csize(inst.cols.idxs));
 
-- 
2.43.0


From 42c2daa25fa80b21a3aebf4faa2a42b60e60925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 08/32] fix: instances without a solution or with repeated rows
 were accepted

A row that no column covers made the solver loop forever, and a row listed twice in a column
made that column look redundant, giving solutions that leave rows uncovered. Reject both
while parsing, as the Python interface already does for elements that are in no set.
---
 src/core/parsing.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index e66d134..c3b87fa 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -49,6 +49,17 @@ namespace local { namespace {
         return line_view;
     }
 
+    // Each row must be covered by some column and must appear at most once in each of them
+    inline void check_parsed_instance(Instance const& inst) {
+        for (auto const& row : inst.rows) {
+            if (row.empty())
+                throw std::invalid_argument("Invalid instance: a row is not in any column.");
+            for (size_t n = 1; n < row.size(); ++n)
+                if (row[n - 1] == row[n])  // Columns are listed in order within each row
+                    throw std::invalid_argument("Invalid instance: a column repeats a row.");
+        }
+    }
+
 #ifndef NDEBUG
     inline void mps_epilogue_check(FileLineIterator&                              file_iter,
                                    std::unordered_map<std::string, ridx_t> const& rows_map) {
@@ -295,6 +306,7 @@ inline FileData parse_inst_and_initsol(Environment const& env) {
         print<1>(env, "CFT> Parser {} does not exists.\n\n", env.parser);
         throw std::runtime_error("Parser does not exists.");
     }
+    local::check_parsed_instance(fdata.inst);
 
     if (!env.initsol_path.empty()) {
         fdata.init_sol = parse_solution(env.initsol_path);
-- 
2.43.0


From 75ac574b548a9309d19a429f7518c1ca02ce52e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 09/32] fix: the given initial solution was trusted blindly

An initial solution leaving some row uncovered, or with a cost lower than the real one, was
returned as result, and wrong column indexes were accessed out of bounds. Reject the first
and the last, and compute the cost from the instance.
---
 src/core/parsing.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index c3b87fa..38f9474 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -60,6 +60,25 @@ namespace local { namespace {
         }
     }
 
+    // The initial solution must cover all the rows, its cost is the one of the selected columns
+    inline void check_and_price_initsol(Instance const& inst,  // in
+                                        Solution&       sol    // inout
+    ) {
+        auto covered  = std::vector<bool>(inst.rows.size(), false);
+        auto selected = std::vector<bool>(inst.costs.size(), false);
+        sol.cost      = 0.0_F;
+        for (cidx_t j : sol.idxs) {
+            if (j < 0_C || j >= csize(inst.costs) || selected[j])
+                throw std::invalid_argument("Invalid initial solution: wrong column index.");
+            selected[j] = true;
+            sol.cost += inst.costs[j];
+            for (ridx_t i : inst.cols[j])
+                covered[i] = true;
+        }
+        if (!all(covered, [](bool c) { return c; }))
+            throw std::invalid_argument("Invalid initial solution: a row is not covered.");
+    }
+
 #ifndef NDEBUG
     inline void mps_epilogue_check(FileLineIterator&                              file_iter,
                                    std::unordered_map<std::string, ridx_t> const& rows_map) {
@@ -308,8 +327,10 @@ inline FileData parse_inst_and_initsol(Environment const& env) {
     }
     local::check_parsed_instance(fdata.inst);
 
-    if (!env.initsol_path.empty()) {
+    if (!env.initsol_path.empty())
         fdata.init_sol = parse_solution(env.initsol_path);
+    if (!fdata.init_sol.idxs.empty()) {
+        local::check_and_price_initsol(fdata.inst, fdata.init_sol);
         CFT_IF_DEBUG(check_inst_solution(fdata.inst, fdata.init_sol));
     }
 
-- 
2.43.0


From 20eeb646d3fb746bb5cd4c81ef148d399926b407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 10/32] fix: errors while writing the solution file were
 ignored

With a full disk, the program ended with success leaving a truncated solution file.
---
 src/core/parsing.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 38f9474..28484ec 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -300,6 +300,8 @@ inline void write_solution(std::string const& path, Solution const& sol) {
     for (cidx_t j : sol.idxs)
         fmt::print(file, " {}", j);
     file.close();
+    if (!file)
+        throw std::runtime_error("Failed to write file: " + path);
 }
 
 inline FileData parse_inst_and_initsol(Environment const& env) {
-- 
2.43.0


From 20f352da8b4fbbbb299bb4fa23ded1f11ad15d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 11/32] fix: the seed given through the Python interface was
 ignored

Setting the seed did not seed the random number generator, as the command line does.
---
 src/pycft/_bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index eb92987..974b534 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -66,7 +66,10 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("sol_path", &Environment::sol_path)
         .def_readwrite("initsol_path", &Environment::initsol_path)
         .def_readwrite("parser", &Environment::parser)
-        .def_readwrite("seed", &Environment::seed)
+        .def_property(
+            "seed",
+            [](Environment const& self) { return self.seed; },
+            [](Environment& self, uint64_t seed) { self.rnd = prng_t(self.seed = seed); })
         .def_readwrite("time_limit", &Environment::time_limit)
         .def_readwrite("verbose", &Environment::verbose)
         .def_readwrite("epsilon", &Environment::epsilon)
-- 
2.43.0


From b6c1488aa40c3fb27ff249185ad2c3a0505df8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 12/32] fix: get_dual_multipliers always failed with an
 attribute error

The multipliers were exposed to Python only under the name idxs. Add the names of the C++
members, keeping the existing ones.
---
 src/pycft/_bindings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 974b534..d3c7e11 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -158,6 +158,8 @@ PYBIND11_MODULE(_bindings, m) {
 
     py::class_<DualState>(m, "DualState")
         .def(py::init<>())
+        .def_readwrite("mults", &DualState::mults)
+        .def_readwrite("lb", &DualState::lb)
         .def_readwrite("idxs", &DualState::mults)
         .def_readwrite("cost", &DualState::lb)
         .def("copy", [](DualState const& a) { return a; })
-- 
2.43.0


From 0033bf1dd3927c3eed6b9eda2aa453334e48e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 13/32] fix: add_set broke the solver on rejected or repeated
 elements

A set rejected because its elements do not fit the index type had already moved the largest
element seen, so later sets with new elements kept using a solution that does not cover
them. A set with repeated elements looked redundant, giving solutions that do not cover all
the elements. A negative cost left the instance with more sets than costs.
---
 src/pycft/_bindings.cpp       | 2 +-
 src/pycft/set_cover_solver.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index d3c7e11..bbfcab5 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -124,9 +124,9 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("costs", &Instance::costs)
         .def("add",
              [](Instance& self, std::vector<ridx_t> const& col, real_t cost) {
-                 self.cols.push_back(col);
                  if (cost < 0.0)
                      throw std::runtime_error("Costs must be non-negative.");
+                 self.cols.push_back(col);
                  self.costs.push_back(cost);
                  return self.costs.size() - 1;
              })
diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index d47876e..9de89a4 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -60,14 +60,15 @@ class SetCoverSolver:
             raise ValueError("Costs must be non-negative")
         if not all(0 <= e for e in elements):
             raise ValueError("Elements must be zero-indexed.")
+        elements = list(dict.fromkeys(elements))  # it is a set: drop repeated elements
         max_element = max(elements)
+        self._instance.add(elements, cost)
         if max_element > self._max_element:
             self._max_element = max_element
             self._result = (
                 None  # in case there is a new element, the solution is no longer
             )
             # valid
-        self._instance.add(elements, cost)
         self._initialized = False
         return len(self._instance.costs) - 1
 
-- 
2.43.0


From f999999ae14cf3afb0713a63073173cca448d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 14/32] fix: from_file always failed

It stored the initial solution in a result that does not exist yet.
---
 src/pycft/set_cover_solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index 9de89a4..e4d34b8 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -83,8 +83,11 @@ class SetCoverSolver:
         env.parser = parser
         fdata = parse_inst_and_initsol(env)
         self._instance = fdata.inst.copy()
-        self._result.solution = fdata.init_sol.copy()
-        print(self._result)
+        self._result = None
+        if fdata.init_sol.idxs:
+            self._result = CftResult()
+            self._result.sol = fdata.init_sol.copy()
+        self._max_element = len(self._instance.rows) - 1
         self.num_elements = len(self._instance.costs)
         self._initialized = True  # a file is always considered initialized
 
-- 
2.43.0


From 697c910bd642a347aabba22b26e0cd3773de7e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 15/32] fix: number of nonzeros was limited by the column index
 type

With small index types, instances whose columns fit the type but whose nonzeros do not
could be neither built nor parsed.
---
 src/core/Instance.hpp |  2 +-
 src/core/parsing.hpp  | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/Instance.hpp b/src/core/Instance.hpp
index 07eee2c..2c3cc21 100644
--- a/src/core/Instance.hpp
+++ b/src/core/Instance.hpp
@@ -64,7 +64,7 @@ inline void fill_rows_from_cols(SparseBinMat<ridx_t> const&       cols,   // in
     rows.resize(nrows);
     for (auto& row : rows) {
         row.clear();
-        row.reserve(csize(cols.idxs) / as_cidx(nrows));
+        row.reserve(cols.idxs.size() / checked_cast<size_t>(nrows));
     }
 
     for (cidx_t j = 0_C; j < csize(cols); ++j)
diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 28484ec..3c998c5 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -137,7 +137,7 @@ inline Instance parse_scp_instance(std::string const& path) {
     for (auto const& col : cols) {
         for (ridx_t i : col)
             inst.cols.idxs.push_back(i);
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(inst.cols.idxs.size());
     }
 
     inst.cols = SparseBinMat<ridx_t>();
@@ -167,7 +167,7 @@ inline Instance parse_rail_instance(std::string const& path) {
             if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
         }
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(inst.cols.idxs.size());
     }
 
     fill_rows_from_cols(inst.cols, num.rows, inst.rows);
@@ -198,7 +198,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
             if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
-        fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
+        fdata.inst.cols.begs.push_back(fdata.inst.cols.idxs.size());
     }
 
     line_view = file_iter.next();
@@ -252,7 +252,7 @@ inline Instance parse_mps_instance(std::string const& path) {
 
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
-            inst.cols.begs.push_back(csize(inst.cols.idxs));
+            inst.cols.begs.push_back(inst.cols.idxs.size());
             inst.costs.push_back(limits<real_t>::max());
         }
 
@@ -273,7 +273,7 @@ inline Instance parse_mps_instance(std::string const& path) {
 
         line_view = local::next_mps_line(file_iter);
     }
-    inst.cols.begs.push_back(csize(inst.cols.idxs));
+    inst.cols.begs.push_back(inst.cols.idxs.size());
 
     CFT_IF_DEBUG(local::mps_epilogue_check(file_iter, rows_map));
     fill_rows_from_cols(inst.cols, nrows, inst.rows);
-- 
2.43.0


From 4f44fed3b266b1882cf11bc241ac9d819d5cfb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 16/32] fix: integers below the range of their type were
 wrapped or saturated

Negative values were accepted as unsigned (-1 became 2^64-1) and values below the
64 bit range as the smallest one.
---
 src/utils/parse_utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index c0a3e7e..b9267b1 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -94,10 +94,10 @@ struct string_to {
             oo_range = !std::isfinite(val);
         } else if (std::is_signed<val_t>::value) {
             val      = std::strtoll(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
-        } else {  // unsigned
+            oo_range = errno == ERANGE;
+        } else {  // unsigned (NOTE: strtoull negates the value of negative numbers)
             val      = std::strtoull(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
+            oo_range = errno == ERANGE || (val > 0 && *ltrim(str).data() == '-');
         }
 
         if (oo_range || val < limits<val_t>::min() || limits<val_t>::max() < val)
-- 
2.43.0


From b5036fb06a9cf66a5a7f44498576fca656985302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 17/32] fix: rtrim of an all-blank string went past its end

---
 src/utils/parse_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index b9267b1..4da519a 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -41,6 +41,8 @@ inline StringView rtrim(StringView str) {
     if (str.empty())
         return str;
     size_t suffix = str.find_last_true(NotSpace{});
+    if (suffix == str.size())  // All spaces
+        return str.remove_suffix(0);
     return str.remove_suffix(suffix + 1);
 }
 
-- 
2.43.0


From 0a4b0c3a829ceb3e7c9127da05c8dc76191dd4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 18/32] fix: text following a number was silently dropped

An index like 3x or 1.5 of a RAIL instance was read as 3 and 1.
---
 src/utils/parse_utils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 4da519a..fb3c879 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -77,7 +77,11 @@ struct string_to {
 
     // Parse without modifying the string view  (note the pass by value)
     static T parse(StringView str) {
-        return consume(str);
+        T val = consume(str);
+        if (!trim(str).empty())
+            throw std::invalid_argument(
+                fmt::format("Invalid argument parsing {}", typeid(T).name()));
+        return val;
     }
 
     // Parse and modify the string view removing the element parsed
-- 
2.43.0


From 585d1a2e2c3dd22da02ac0e60e7bc4f6693adf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 19/32] fix: roll_dice divided by zero or left its range when
 max - min + 1 overflows

---
 src/utils/random.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/random.hpp b/src/utils/random.hpp
index dde8aaf..5a7be69 100644
--- a/src/utils/random.hpp
+++ b/src/utils/random.hpp
@@ -90,7 +90,11 @@ inline IntT roll_dice(RndT& rnd, IntT min, IntT max) {
     static_assert(std::is_unsigned<gen_type>::value, "PRNG result is not unsigned.");
     assert(max >= min);
 
-    IntT result = min + checked_cast<IntT>(rnd() % checked_cast<gen_type>(max - min + IntT{1}));
+    // Unsigned 64-bit arithmetic: the number of values may not be representable in IntT or gen_type
+    uint64_t range  = static_cast<uint64_t>(max) - static_cast<uint64_t>(min);
+    uint64_t draw   = rnd();
+    uint64_t offset = range == limits<uint64_t>::max() ? draw : draw % (range + 1ULL);
+    IntT     result = static_cast<IntT>(static_cast<uint64_t>(min) + offset);
     assert(min <= result && result <= max);
     return result;
 }
-- 
2.43.0


From 1e0925b17cce7e6aa3c45822dc536f0eed478928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 20/32] fix: coin_flip with probability zero could return true

---
 src/utils/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/random.hpp b/src/utils/random.hpp
index 5a7be69..5e472bc 100644
--- a/src/utils/random.hpp
+++ b/src/utils/random.hpp
@@ -103,7 +103,7 @@ inline IntT roll_dice(RndT& rnd, IntT min, IntT max) {
 template <typename RndT>
 inline bool coin_flip(RndT& rnd, double true_prob = 0.5) {
     assert(0 <= true_prob && true_prob <= 1);
-    return canonical_gen<double>(rnd) <= true_prob;
+    return canonical_gen<double>(rnd) < true_prob;  // canonical_gen is in [0,1)
 }
 
 }  // namespace cft
-- 
2.43.0


From f06ec2c2bba565ce5bef50207648d766cc39bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 21/32] fix: MPS columns without objective coefficient got the
 largest cost instead of zero

---
 src/core/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 3c998c5..b76928f 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -253,7 +253,7 @@ inline Instance parse_mps_instance(std::string const& path) {
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
             inst.cols.begs.push_back(inst.cols.idxs.size());
-            inst.costs.push_back(limits<real_t>::max());
+            inst.costs.push_back(0.0_F);  // MPS files can omit null coefficients
         }
 
         if (tokens.size() % 2 == 0)
-- 
2.43.0


From 9456c5b6a0a408275cccf828040de7495f38adfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 22/32] fix: malformed lines and coefficients in MPS columns
 were silently skipped or ignored

---
 src/core/parsing.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index b76928f..09e7707 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -244,29 +244,32 @@ inline Instance parse_mps_instance(std::string const& path) {
     inst.cols.begs.clear();
     while (line_view != "RHS") {
         auto tokens = split(line_view);
-        // Best effort to detect columns header line
-        if (tokens.size() < 3 || (std::isdigit(tokens[2][0]) == 0 && tokens[2][0] != '-')) {
+        // Skip blank lines, comments and markers
+        if (tokens.empty() || tokens[0][0] == '*' ||
+            (tokens.size() == 3 && tokens[1] == "'MARKER'")) {
             line_view = local::next_mps_line(file_iter);
             continue;
         }
 
+        if (tokens.size() < 3 || tokens.size() % 2 == 0)
+            throw std::invalid_argument("Invalid file format: not a MPS instance?");
+
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
             inst.cols.begs.push_back(inst.cols.idxs.size());
             inst.costs.push_back(0.0_F);  // MPS files can omit null coefficients
         }
 
-        if (tokens.size() % 2 == 0)
-            throw std::invalid_argument("Invalid file format: not a MPS instance?");
-
         for (size_t t = 1; t < tokens.size(); t += 2) {
+            auto value = string_to<real_t>::parse(tokens[t + 1]);
             if (tokens[t] == obj_name)
-                inst.costs.back() = string_to<real_t>::parse(tokens[t + 1]);
+                inst.costs.back() = value;
             else {
                 auto row = rows_map.find(tokens[t].to_cpp_string());
                 if (row == rows_map.end())
                     throw std::invalid_argument("Invalid file format: unknown MPS row.");
-                assert(tokens[t + 1] == "1" || tokens[t + 1] == "-1");
+                if (abs(value) != 1.0_F)
+                    throw std::invalid_argument("Invalid file format: not a SCP MPS instance?");
                 inst.cols.idxs.push_back(row->second);
             }
         }
-- 
2.43.0


From 00132e51055e4ebb41a0508b289df1d5c71fa487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 23/32] fix: surplus values at the end of SCP lists were
 silently dropped

---
 src/core/parsing.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 09e7707..78b8133 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -113,6 +113,8 @@ inline Instance parse_scp_instance(std::string const& path) {
             line_view = file_iter.next();
         inst.costs.push_back(string_to<real_t>::consume(line_view));
     }
+    if (!line_view.empty())
+        throw std::invalid_argument("Invalid file format: too many costs.");
 
     // For each row: row_size
     //               list of row_size columns that cover the row
@@ -132,6 +134,8 @@ inline Instance parse_scp_instance(std::string const& path) {
                 throw std::invalid_argument("Invalid column index: not a SCP instance?");
             cols[cidx - 1_C].push_back(i);
         }
+        if (!line_view.empty())
+            throw std::invalid_argument("Invalid file format: too many columns in a row.");
     }
 
     for (auto const& col : cols) {
-- 
2.43.0


From 24fc322ba3e00fa3e357d8921acccfac41f49f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 24/32] fix: files with more elements than announced were read
 as a smaller instance

---
 src/core/parsing.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 78b8133..115e671 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -49,6 +49,13 @@ namespace local { namespace {
         return line_view;
     }
 
+    // Nothing can follow the last element, otherwise some count is wrong
+    inline void check_end_of_file(FileLineIterator& file_iter) {
+        while (file_iter.in)
+            if (!file_iter.next().empty())
+                throw std::invalid_argument("Invalid file format: unexpected text at the end.");
+    }
+
     // Each row must be covered by some column and must appear at most once in each of them
     inline void check_parsed_instance(Instance const& inst) {
         for (auto const& row : inst.rows) {
@@ -138,6 +145,8 @@ inline Instance parse_scp_instance(std::string const& path) {
             throw std::invalid_argument("Invalid file format: too many columns in a row.");
     }
 
+    local::check_end_of_file(file_iter);
+
     for (auto const& col : cols) {
         for (ridx_t i : col)
             inst.cols.idxs.push_back(i);
@@ -173,6 +182,7 @@ inline Instance parse_rail_instance(std::string const& path) {
         }
         inst.cols.begs.push_back(inst.cols.idxs.size());
     }
+    local::check_end_of_file(file_iter);
 
     fill_rows_from_cols(inst.cols, num.rows, inst.rows);
     return inst;
@@ -214,6 +224,8 @@ inline FileData parse_cvrp_instance(std::string const& path) {
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
 
+    local::check_end_of_file(file_iter);
+
     fill_rows_from_cols(fdata.inst.cols, num.rows, fdata.inst.rows);
     return fdata;
 }
-- 
2.43.0


From c0863a16d4adb16c17a86df056b84dbb06675f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 25/32] fix: an initial solution file without columns was
 accepted

---
 src/core/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 115e671..320d3ba 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -350,7 +350,7 @@ inline FileData parse_inst_and_initsol(Environment const& env) {
 
     if (!env.initsol_path.empty())
         fdata.init_sol = parse_solution(env.initsol_path);
-    if (!fdata.init_sol.idxs.empty()) {
+    if (!fdata.init_sol.idxs.empty() || !env.initsol_path.empty()) {
         local::check_and_price_initsol(fdata.inst, fdata.init_sol);
         CFT_IF_DEBUG(check_inst_solution(fdata.inst, fdata.init_sol));
     }
-- 
2.43.0


From 55901e4183eafd2453000dc75d4cc2804cd2b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 26/32] fix: a malformed number in a list (1.5.5, 1-2) was read
 as several numbers

---
 src/utils/parse_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index fb3c879..ce347bd 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -110,7 +110,7 @@ struct string_to {
             throw std::out_of_range(
                 fmt::format("Out of range parsing {} (as {})", str.data(), typeid(T).name()));
 
-        if (end == str.data())
+        if (end == str.data() || (end < str.end() && !IsSpace{}(*end)))
             throw std::invalid_argument(
                 fmt::format("Invalid argument parsing {} (as {})", str.data(), typeid(T).name()));
         str = str.remove_prefix(checked_cast<size_t>(end - str.data()));
-- 
2.43.0


From 30eb3dbeec2d85fc039689fb9b9dbf5afc211259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 27/32] fix: malformed lines in the ROWS section of MPS files
 were silently skipped

---
 src/core/parsing.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 320d3ba..11d579e 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -250,8 +250,10 @@ inline Instance parse_mps_instance(std::string const& path) {
         auto tokens = split(line_view);
         if (tokens.size() > 1 && tokens[0] == "N")
             obj_name = tokens[1].to_cpp_string();
-        if (tokens.size() > 1 && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
+        else if (tokens.size() > 1 && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
             rows_map[tokens[1].to_cpp_string()] = nrows++;
+        else if (!tokens.empty() && tokens[0][0] != '*' && line_view != "ROWS")
+            throw std::invalid_argument("Invalid file format: malformed MPS row.");
         line_view = local::next_mps_line(file_iter);
     }
 
-- 
2.43.0


From 314797ab8b25a568812119442d166bb70616258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 28/32] fix: MPS files with more rows or columns than the index
 types hold wrapped the indexes

---
 src/core/parsing.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 11d579e..b9e9ea1 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -250,9 +250,11 @@ inline Instance parse_mps_instance(std::string const& path) {
         auto tokens = split(line_view);
         if (tokens.size() > 1 && tokens[0] == "N")
             obj_name = tokens[1].to_cpp_string();
-        else if (tokens.size() > 1 && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
+        else if (tokens.size() > 1 && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L")) {
+            if (nrows == limits<ridx_t>::max())
+                throw std::out_of_range("Too many rows in MPS instance.");
             rows_map[tokens[1].to_cpp_string()] = nrows++;
-        else if (!tokens.empty() && tokens[0][0] != '*' && line_view != "ROWS")
+        } else if (!tokens.empty() && tokens[0][0] != '*' && line_view != "ROWS")
             throw std::invalid_argument("Invalid file format: malformed MPS row.");
         line_view = local::next_mps_line(file_iter);
     }
@@ -273,6 +275,8 @@ inline Instance parse_mps_instance(std::string const& path) {
             throw std::invalid_argument("Invalid file format: not a MPS instance?");
 
         if (tokens[0] != prev_col_name) {  // new column
+            if (inst.costs.size() == checked_cast<size_t>(limits<cidx_t>::max()))
+                throw std::out_of_range("Too many columns in MPS instance.");
             prev_col_name = tokens[0].to_cpp_string();
             inst.cols.begs.push_back(inst.cols.idxs.size());
             inst.costs.push_back(0.0_F);  // MPS files can omit null coefficients
-- 
2.43.0


From 00572713a43b6f248f1aec97ea79db163bbd9a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 29/32] fix: numbers that round to the largest value of their
 type were refused

---
 src/utils/parse_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index ce347bd..439c0be 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -96,7 +96,7 @@ struct string_to {
         errno              = 0;
 
         if (std::is_floating_point<val_t>::value) {
-            val      = std::strtold(str.data(), &end);
+            val      = static_cast<val_t>(std::strtold(str.data(), &end));  // rounded value
             oo_range = !std::isfinite(val);
         } else if (std::is_signed<val_t>::value) {
             val      = std::strtoll(str.data(), &end, 10);
-- 
2.43.0


From aec28c8b71147e0289980db60f7aa93c177cd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 30/32] fix: pricing wrapped the size limit of the core
 instance with narrow index types

---
 src/subgradient/Pricer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/subgradient/Pricer.hpp b/src/subgradient/Pricer.hpp
index 0ac4d11..126c73b 100644
--- a/src/subgradient/Pricer.hpp
+++ b/src/subgradient/Pricer.hpp
@@ -75,9 +75,9 @@ private:
             if (reduced_costs[j] < 0.1_F)
                 idxs.push_back(j);
 
-        cidx_t const maxsize = as_cidx(5_R * rsize(inst.rows));
-        if (csize(idxs) > maxsize) {
-            cft::nth_element(idxs, maxsize - 1_C, [&](cidx_t i) { return reduced_costs[i]; });
+        size_t const maxsize = 5 * cft::size(inst.rows);  // might not fit the index types
+        if (cft::size(idxs) > maxsize) {
+            cft::nth_element(idxs, maxsize - 1, [&](cidx_t i) { return reduced_costs[i]; });
             idxs.resize(maxsize);
         }
 
-- 
2.43.0


From ce242bfca90d0f1e5426e4bad8053344f21bb95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 31/32] fix: the number of rows wrapped when columns have a
 narrower index type than rows

---
 src/algorithms/ThreePhase.hpp | 2 +-
 src/fixing/ColFixing.hpp      | 5 ++++-
 src/greedy/Greedy.hpp         | 5 +++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 19dd603..7219290 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -161,7 +161,7 @@ private:
         core_inst.col_map.clear();
 
         // Select the first n columns of each row (there might be duplicates)
-        core_inst.col_map.reserve(checked_cast<size_t>(as_cidx(nrows) * min_row_coverage));
+        core_inst.col_map.reserve(inst.rows.size() * checked_cast<size_t>(min_row_coverage));
         for (auto const& row : inst.rows)
             for (size_t n = 0; n < min(row.size(), min_row_coverage); ++n) {
                 cidx_t j = row[n];  // column covering row i
diff --git a/src/fixing/ColFixing.hpp b/src/fixing/ColFixing.hpp
index 3cbb99b..03d2ae2 100644
--- a/src/fixing/ColFixing.hpp
+++ b/src/fixing/ColFixing.hpp
@@ -43,7 +43,10 @@ public:
         _select_non_overlapping_cols(inst, lagr_mult, row_coverage, cols_to_fix, reduced_costs);
         cidx_t no_overlap_ncols = csize(cols_to_fix);
 
-        cidx_t fix_at_least = csize(cols_to_fix) + max(1_C, as_cidx(orig_nrows / 200_R));
+        // Computed as size_t since 200 or the number of rows might not fit the index types
+        size_t const min_ncols    = max(size_t{1}, checked_cast<size_t>(orig_nrows) / 200);
+        size_t const max_ncols    = checked_cast<size_t>(limits<cidx_t>::max());
+        cidx_t       fix_at_least = as_cidx(min(cols_to_fix.size() + min_ncols, max_ncols));
         greedy(inst, lagr_mult, reduced_costs, cols_to_fix, limits<real_t>::max(), fix_at_least);
 
         fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
diff --git a/src/greedy/Greedy.hpp b/src/greedy/Greedy.hpp
index db0a281..3349b8f 100644
--- a/src/greedy/Greedy.hpp
+++ b/src/greedy/Greedy.hpp
@@ -66,8 +66,9 @@ public:
 
             // Get the column-fraction with best scores
             if (good_scores.empty()) {
-                auto good_size   = min(as_cidx(nrows_to_cover), csize(inst.cols) - csize(sol));
-                good_scores      = select_good_scores(score_info, good_size);
+                size_t good_size = min(checked_cast<size_t>(nrows_to_cover),  // might not fit cidx_t
+                                       inst.cols.size() - sol.size());
+                good_scores      = select_good_scores(score_info, as_cidx(good_size));
                 worst_good_score = good_scores.back().score;
             }
 
-- 
2.43.0


From 580e84168c1b6cfb32736c4176d04516d37c40f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 32/32] fix: debug assertions rejected solutions because of
 rounding errors

---
 src/core/utils.hpp              | 3 ++-
 src/subgradient/Subgradient.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/utils.hpp b/src/core/utils.hpp
index 6ebfb9d..269531b 100644
--- a/src/core/utils.hpp
+++ b/src/core/utils.hpp
@@ -28,7 +28,8 @@ inline void check_inst_solution(Instance const& inst, Solution const& sol) {
     real_t total_cost = 0.0_F;
     for (cidx_t j : sol.idxs)
         total_cost += inst.costs[j];
-    assert(abs(total_cost - sol.cost) < 1e-6_F);
+    // Costs summed in a different order differ by their rounding errors
+    assert(abs(total_cost - sol.cost) <= 1e-4_F * max(1.0_F, abs(total_cost)));
 }
 #endif
 
diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index 408b51d..1fccad3 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -152,7 +152,8 @@ public:
             }
 
             if (sqr_norm < 0.999_F) {  // Squared norm is an integer
-                assert(best_core_lb <= best_sol.cost && "Optimum is above cutoff");
+                assert(best_core_lb <= best_sol.cost + 1e-4_F * max(1.0_F, abs(best_core_lb)) &&
+                       "Optimum is above cutoff");
                 print<4>(env, "HEUR> {:4} Found optimal solution.\n", iter);
                 best_lagr_mult = lagr_mult;
                 return;
-- 
2.43.0

