From 7d8ab6faefb7b8d597bcabcf3791dc3eb7bd383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 01/14] fix: check of constraints without variables was
 inverted

The constraint 0 < c is violated if c <= 0, not if c >= 0 (and likewise for
the relations <=, >, and >=).
---
 libclingo-lpx/src/solving.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 77c5f07..e8caf0d 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -297,25 +297,25 @@ auto Solver<Value>::prepare(Clingo::PropagateInit &init, SymbolMap const &symbol
             }
             switch (x.rel) {
                 case Relation::Less: {
-                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::LessEqual: {
-                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::Greater: {
-                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::GreaterEqual: {
-                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
-- 
2.43.0


From 209cd744d70f6e1ab3540418a6e0e7e0667fca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 02/14] fix: configuring objective and propagate-bounds by key

The objective was parsed as a Boolean into an optional, the propagation mode
was written through a pointer of the wrong type, and invalid values for store
were reported for key select.
---
 libclingo-lpx/src/clingo-lpx.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 1393831..f03f677 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -383,19 +383,19 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("strict", parse_bool(value, &theory->strict));
         }
         if (strcmp(key, "objective") == 0) {
-            return check_parse("objective", parse_bool(value, &theory->options.global_objective));
+            return check_parse("objective", parse_objective(value, &theory->options));
         }
         if (strcmp(key, "propagate-conflicts") == 0) {
             return check_parse("propagate-conflicts", parse_bool(value, &theory->options.propagate_conflicts));
         }
         if (strcmp(key, "propagate-bounds") == 0) {
-            return check_parse("propagate-bounds", parse_propagate(value, &theory->options.propagate_mode));
+            return check_parse("propagate-bounds", parse_propagate(value, &theory->options));
         }
         if (strcmp(key, "select") == 0) {
             return check_parse("select", parse_select(value, &theory->options));
         }
         if (strcmp(key, "store") == 0) {
-            return check_parse("select", parse_store(value, &theory->options));
+            return check_parse("store", parse_store(value, &theory->options));
         }
         std::ostringstream msg;
         msg << "invalid configuration key '" << key << "'";
-- 
2.43.0


From e83ff2b82f3a92db35f9eec56dc000482599e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 03/14] fix: conditional constants in sums and objectives

The constant was represented by variable 0, which was then treated like any
other variable and could take arbitrary values.
---
 libclingo-lpx/src/parsing.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 5694683..f39a97c 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -346,7 +346,12 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
                 if (res.second) {
                     auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
-                    iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    if (is_invalid(it->var)) {
+                        // the auxiliary variable stands for the constant one
+                        iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
+                    } else {
+                        iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    }
                 }
                 it->var = res.first->second;
             }
-- 
2.43.0


From b3cfac155742d24a111e78664409fb2056de04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 04/14] fix: conditions of elements in multi-shot solving

Auxiliary variables were looked up by condition id but such ids are reused in
later solve calls. Use the corresponding solver literal instead.
---
 libclingo-lpx/src/parsing.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index f39a97c..2cab4c6 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -340,11 +340,12 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
         size_t n = lhs.size();
         parse_sum_elem(term, lhs);
         if (!elem.condition().empty()) {
+            // Note that condition ids are only unique within one solve call.
+            auto lit = mapper(elem.condition_id());
             for (auto it = lhs.begin() + n, ie = lhs.end(); it != ie; ++it) {
-                auto res = var_map.try_emplace(std::make_pair(it->var, elem.condition_id()),
+                auto res = var_map.try_emplace(std::make_pair(it->var, lit),
                                                Clingo::Number(safe_cast<int>(var_map.size() + 1)));
                 if (res.second) {
-                    auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
                     if (is_invalid(it->var)) {
                         // the auxiliary variable stands for the constant one
-- 
2.43.0


From bdfa0ad4638c9929eb3aa97a42f931a752ee9183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 05/14] fix: backtracking of bounds of equality constraints

If an equality constraint tightened the upper and lower bound of a variable,
both bounds were restored to the same former bound.
---
 libclingo-lpx/src/solving.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index e8caf0d..bc1ea9b 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -191,12 +191,7 @@ template <typename Value>
 auto Solver<Value>::Variable::update_lower(Solver &s, Clingo::Assignment ass, Bound const &bound) -> bool {
     if (!has_lower() || bound.value > lower()) {
         if (!has_lower() || ass.level(lower_bound->lit) < ass.decision_level()) {
-            if (upper_bound != &bound) {
-                s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
-            } else {
-                // Note: this assumes that update_lower is called right after update_upper for the same bound
-                std::get<1>(s.bound_trail_.back()) = BoundRelation::Equal;
-            }
+            s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
         }
         lower_bound = &bound;
     }
-- 
2.43.0


From 1220684a8b4f321ce90b4fce38bed5f5afacb276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 06/14] fix: optimizing in presence of variable elimination

Assignments are never considered total if the SAT preprocessor eliminated
variables, in which case the objective was not optimized.
---
 libclingo-lpx/src/solving.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index bc1ea9b..63d543b 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1061,6 +1061,14 @@ template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &in
         init.add_watch(x.lit);
     }
 
+    // Optimal assignments are computed when the Boolean assignment is total.
+    // This requires that no literals are eliminated during preprocessing.
+    if (!objective_.empty()) {
+        for (auto lit : init.assignment()) {
+            init.freeze_literal(lit);
+        }
+    }
+
     objective_state_.reset();
 
     slvs_.clear();
-- 
2.43.0


From 193076c647bef4bed4f733c98f455d7b95082bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 07/14] fix: division by zero in terms

Dividing by zero in variable names, divisors, and domain bounds ended the
process.
---
 libclingo-lpx/src/parsing.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 2cab4c6..270e739 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -203,7 +203,10 @@ auto evaluate(bool num_str, Clingo::TheoryTerm const &term) -> std::variant<Rati
     }
     if (match(term, "/", 2)) {
         return evaluate(num_str, term.arguments().front(), term.arguments().back(),
-                        [](Rational &&a, Rational &&b) { return std::move(a) / std::move(b); });
+                        [](Rational &&a, Rational &&b) {
+                            check_syntax(b != 0, "Invalid Syntax: division by zero");
+                            return std::move(a) / std::move(b);
+                        });
     }
 
     if (match(term, "-", 1)) {
-- 
2.43.0


From f39b255337fa2fa1fd3499673197aaa820036394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 08/14] fix: comparison of large integers

The internal representation of the second integer was compared rather than its
value.
---
 libclingo-lpx/src/number_flint.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/number_flint.hh b/libclingo-lpx/src/number_flint.hh
index 77ba3f2..39443c8 100644
--- a/libclingo-lpx/src/number_flint.hh
+++ b/libclingo-lpx/src/number_flint.hh
@@ -412,7 +412,7 @@ inline auto operator<<(std::ostream &out, Integer const &a) -> std::ostream & {
 
 [[nodiscard]] inline auto compare(Integer const &a, fixed_int b) -> int { return fmpz_cmp_si(&a.num_, b); }
 
-[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp_si(&a.num_, b.num_); }
+[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp(&a.num_, &b.num_); }
 
 // gcd
 
-- 
2.43.0


From a9746171bbd0ae02c74d67f2202613e41b33bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 09/14] fix: objective step values that are not in canonical
 form

Reject steps with zero denominators and normalize all others.
---
 libclingo-lpx/src/clingo-lpx.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index f03f677..7e547eb 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -308,7 +308,12 @@ auto parse_objective(const char *value, void *data) -> bool {
         return true;
     }
     // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-    options.global_objective = RationalQ{Rational{value, 10}};
+    Rational step{value, 10};
+    if (step.den() == 0) {
+        return false;
+    }
+    step.canonicalize();
+    options.global_objective = RationalQ{std::move(step)};
     return true;
 }
 
-- 
2.43.0


From 0eff2ee5363297630bafa71f2766bc0c5ab2826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 10/14] fix: stack overflow for decimals with many digits

---
 libclingo-lpx/src/parsing.cc | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 270e739..f10e3ff 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -6,7 +6,6 @@
 #include <algorithm>
 #include <iterator>
 #include <optional>
-#include <regex>
 #include <stdexcept>
 #include <unordered_map>
 #include <variant>
@@ -104,16 +103,28 @@ struct AS {
     if (len <= 2 || name[0] != '"' || name[len - 1] != '"') {
         return std::nullopt;
     }
-    std::regex const rgx{"(-)?([0-9]+)(\\.([0-9]+))?"};
-    std::cmatch match;
-    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-    if (!std::regex_match(name + 1, name + len - 1, match, rgx)) {
+    // Note that std::regex is not used here because it exhausts the stack on
+    // long strings.
+    auto const is_digit = [](char c) { return '0' <= c && c <= '9'; };
+    // NOLINTBEGIN(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+    auto const *end = name + len - 1;
+    auto const *int_begin = name + 1;
+    bool negative = *int_begin == '-';
+    if (negative) {
+        ++int_begin;
+    }
+    auto const *int_end = std::find_if_not(int_begin, end, is_digit);
+    if (int_begin == int_end) {
         return std::nullopt;
     }
-    std::string a = match[2];
-    if (match[4].matched) {
-        auto const *ib = match[4].first;
-        auto const *it = match[4].second;
+    std::string a{int_begin, int_end};
+    if (int_end != end) {
+        auto const *ib = int_end + 1;
+        auto const *it = end;
+        // NOLINTEND(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+        if (*int_end != '.' || ib == it || std::find_if_not(ib, it, is_digit) != it) {
+            return std::nullopt;
+        }
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
         for (; it != ib && *(it - 1) == '0'; --it) {
         }
@@ -123,7 +134,7 @@ struct AS {
     }
     // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
     Rational n{a, 10};
-    if (match[1].matched) {
+    if (negative) {
         n.neg();
     }
     n.canonicalize();
-- 
2.43.0


From 1f103c43c56a0ede031a120309dbb849a6ef4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 11/14] fix: step statistics with multiple threads

The values of all but the last thread were lost.
---
 libclingo-lpx/src/solving.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 63d543b..57344b8 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1098,10 +1098,12 @@ void Propagator<Value>::on_statistics(Clingo::UserStatistics step, Clingo::UserS
     auto accu_simplex = accu.add_subkey("Simplex", Clingo::StatisticsType::Map);
     auto accu_pivots = accu_simplex.add_subkey("Pivots", Clingo::StatisticsType::Value);
     auto accu_propagated_bounds = accu_simplex.add_subkey("Bounds propagated", Clingo::StatisticsType::Value);
+    step_pivots.set_value(0);
+    step_propagated_bounds.set_value(0);
     for (auto const &[offset, slv] : slvs_) {
-        step_pivots.set_value(slv.statistics().pivots);
+        step_pivots.set_value(step_pivots.value() + slv.statistics().pivots);
         accu_pivots.set_value(accu_pivots.value() + slv.statistics().pivots);
-        step_propagated_bounds.set_value(slv.statistics().propagated_bounds);
+        step_propagated_bounds.set_value(step_propagated_bounds.value() + slv.statistics().propagated_bounds);
         accu_propagated_bounds.set_value(accu_propagated_bounds.value() + slv.statistics().propagated_bounds);
     }
 }
-- 
2.43.0


From 4296db1991e39ad3bf7f15328cec5bb4c37d224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 12/14] fix: optimizing when the objective is added after the
 first solving step

---
 libclingo-lpx/src/solving.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 57344b8..ff97ff4 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1062,11 +1062,10 @@ template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &in
     }
 
     // Optimal assignments are computed when the Boolean assignment is total.
-    // This requires that no literals are eliminated during preprocessing.
-    if (!objective_.empty()) {
-        for (auto lit : init.assignment()) {
-            init.freeze_literal(lit);
-        }
+    // This requires that no literals are eliminated during preprocessing, also
+    // because an objective might still be added in a later solving step.
+    for (auto lit : init.assignment()) {
+        init.freeze_literal(lit);
     }
 
     objective_state_.reset();
-- 
2.43.0


From 4445fc955f843d01f4ce2a2182d54bcb3125fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 13/14] fix: top level literals of previous steps with multiple
 threads

---
 libclingo-lpx/src/solving.cc | 18 ++++++++++--------
 libclingo-lpx/src/solving.hh |  1 -
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index ff97ff4..b78ab1b 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1039,7 +1039,7 @@ auto Solver<Value>::adjust(Clingo::Assignment const &assign, Clingo::literal_t l
 }
 
 template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &init) {
-    facts_offset_ = facts_.size();
+    facts_offset_ = iqs_.size();
     if (facts_offset_ > 0 || options_.global_objective.has_value()) {
         init.set_check_mode(Clingo::PropagatorCheckMode::Both);
     }
@@ -1129,8 +1129,15 @@ template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl
     auto ass = ctl.assignment();
     auto &[offset, slv] = slvs_[ctl.thread_id()];
     if (ass.decision_level() == 0 && offset < facts_offset_) {
-        auto res = slv.solve(ctl, Clingo::LiteralSpan{facts_.data() + offset, facts_offset_}); // NOLINT
-        offset = facts_offset_;
+        // Literals from previous steps are already watched and not propagated
+        // again if they are true on the top level.
+        std::vector<Clingo::literal_t> facts;
+        for (; offset < facts_offset_; ++offset) {
+            if (ass.is_true(iqs_[offset].lit)) {
+                facts.emplace_back(iqs_[offset].lit);
+            }
+        }
+        auto res = slv.solve(ctl, facts);
         // can happen in case of a top-level conflict
         if (!res) {
             return;
@@ -1157,11 +1164,6 @@ template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl
 
 template <typename Value>
 void Propagator<Value>::propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
-    auto ass = ctl.assignment();
-    if (ass.decision_level() == 0 && ctl.thread_id() == 0) {
-        // Note to self: auxiliary variables introduced during solving cannot become facts
-        facts_.insert(facts_.end(), changes.begin(), changes.end());
-    }
     auto &[offset, slv] = slvs_[ctl.thread_id()];
     static_cast<void>(slv.solve(ctl, changes));
 }
diff --git a/libclingo-lpx/src/solving.hh b/libclingo-lpx/src/solving.hh
index e9c1443..7c4cced 100644
--- a/libclingo-lpx/src/solving.hh
+++ b/libclingo-lpx/src/solving.hh
@@ -305,7 +305,6 @@ template <typename Value> class Propagator : public Clingo::Heuristic {
     std::vector<Term> objective_;
     std::vector<Inequality> iqs_;
     size_t facts_offset_{0};
-    std::vector<Clingo::literal_t> facts_;
     std::vector<std::pair<size_t, Solver<Value>>> slvs_;
     ObjectiveState<Value> objective_state_;
     Options options_;
-- 
2.43.0


From ebbca0899e3ed425edf2c6db52e5fa513513d2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 14/14] fix: do not use literals of theory atoms if there is a
 conflict initially

---
 libclingo-lpx/src/solving.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index b78ab1b..ddda7a6 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -277,6 +277,9 @@ auto Solver<Value>::prepare(Clingo::PropagateInit &init, SymbolMap const &symbol
     auto ass = init.assignment();
 
     Prepare prep{*this, symbols};
+    if (ass.has_conflict()) {
+        return false;
+    }
     for (auto const &x : inequalities) {
         if (ass.is_false(x.lit)) {
             continue;
@@ -1056,9 +1059,14 @@ template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &in
         }
     };
     gather_vars(objective_);
+    // If there is already a conflict, there might be literals that are not part
+    // of the assignment.
+    bool conflict = init.assignment().has_conflict();
     for (auto &x : iqs_) {
         gather_vars(x.lhs);
-        init.add_watch(x.lit);
+        if (!conflict) {
+            init.add_watch(x.lit);
+        }
     }
 
     // Optimal assignments are computed when the Boolean assignment is total.
-- 
2.43.0

