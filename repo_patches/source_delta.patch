From ae09f4b1402c6e85d38f11f8bfd76685116f54e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 01/12] fix: apply and revert clock updates simultaneously in
 zones

A transition evaluates the right-hand sides of its updates before any of them
(TimedAutomatonRunner::applyReset), but Zone::applyResets performed renamings one
after another, and Zone::revertResets lost the renaming when the source clock
was not updated, was updated before it in the list, or was copied twice. The
zone graph then disagreed with the automaton, so that equivalence queries could
abort on an inconsistent word.
---
 include/zone.hh | 75 +++++++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 31 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 63239db..f513d2f 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -3,9 +3,10 @@
 #include <cmath>
 #include <limits>
 #include <algorithm>
+#include <numeric>
 #include <unordered_map>
+#include <variant>
 #include <boost/unordered_map.hpp>
-#include <boost/range/adaptor/reversed.hpp>
 
 #include "common_types.hh"
 #include "bounds.hh"
@@ -129,25 +130,44 @@ namespace learnta {
       }
     }
 
-    void applyResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      // We apply renaming first
+    /*!
+     * @brief For each row of the DBM, return the row and the constant whose sum is its value after the reset
+     */
+    [[nodiscard]] std::pair<std::vector<int>, std::vector<double>>
+    makeSources(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) const {
+      std::vector<int> sources(value.rows());
+      std::iota(sources.begin(), sources.end(), 0);
+      std::vector<double> offsets(value.rows(), 0);
       for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          this->unconstrain(resetVariable);
-          this->value(resetVariable + 1, std::get<ClockVariables>(updatedVariable) + 1) = Bounds{0.0, true};
-          this->value(std::get<ClockVariables>(updatedVariable) + 1, resetVariable + 1) = Bounds{0.0, true};
-          canonize();
+        if (updatedVariable.index() == 1) {
+          sources.at(resetVariable + 1) = std::get<ClockVariables>(updatedVariable) + 1;
+          offsets.at(resetVariable + 1) = 0;
+        } else {
+          sources.at(resetVariable + 1) = 0;
+          offsets.at(resetVariable + 1) = std::get<double>(updatedVariable);
         }
       }
-      // Then, assign a value
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 0) {
-          this->unconstrain(resetVariable);
-          this->value(0, resetVariable + 1) = Bounds(-std::get<double>(updatedVariable), true);
-          this->value(resetVariable + 1, 0) = Bounds(std::get<double>(updatedVariable), true);
-          canonize();
+
+      return {sources, offsets};
+    }
+
+    /*!
+     * @brief Make it the strongest postcondition of the reset
+     *
+     * The updates are simultaneous, i.e., the assigned clocks are evaluated before any of the updates.
+     */
+    void applyResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
+      canonize();
+      const auto [sources, offsets] = this->makeSources(resets);
+      const auto original = this->value;
+      for (int i = 0; i < value.rows(); ++i) {
+        for (int j = 0; j < value.cols(); ++j) {
+          const auto bound = original(sources.at(i), sources.at(j));
+          value(i, j) = (sources.at(i) == sources.at(j) ? std::min(bound, Bounds{0.0, true}) : bound) +
+                        Bounds{offsets.at(i) - offsets.at(j), true};
         }
       }
+      canonize();
     }
 
     /*!
@@ -156,24 +176,17 @@ namespace learnta {
      * In addition to unconstrain the updated variables, we use the renaming information
      */
     void revertResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      std::vector<ClockVariables> resetVariables;
-      resetVariables.reserve(resets.size());
-      std::unordered_map<ClockVariables, ClockVariables> reverseAssignments;
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        resetVariables.push_back(resetVariable);
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          reverseAssignments[std::get<ClockVariables>(updatedVariable)] = resetVariable;
-        }
-      }
-      for (const auto &resetVariable: boost::adaptors::reverse(resetVariables)) {
-        this->unconstrain(resetVariable);
-        auto it = reverseAssignments.find(resetVariable);
-        if (it != reverseAssignments.end()) {
-          this->value(it->first + 1, it->second + 1) = Bounds{0.0, true};
-          this->value(it->second + 1, it->first + 1) = Bounds{0.0, true};
+      canonize();
+      const auto [sources, offsets] = this->makeSources(resets);
+      const auto original = this->value;
+      value.fill(Bounds(std::numeric_limits<double>::max(), false));
+      for (int i = 0; i < value.rows(); ++i) {
+        for (int j = 0; j < value.cols(); ++j) {
+          auto &bound = value(sources.at(i), sources.at(j));
+          bound = std::min(bound, original(i, j) + Bounds{offsets.at(j) - offsets.at(i), true});
         }
-        canonize();
       }
+      canonize();
     }
 
     /*!
-- 
2.43.0


From 92bd024ddeddfff88b7e360a39eb3b1134391125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 02/12] fix: do not assert that rows once distinguished stay
 distinguished

findDeterministicEquivalentRenaming tries a restricted set of candidates: it is
neither symmetric nor monotone in the suffixes, so the assertion in
ObservationTable::equivalentWithMemo aborted the learning of valid targets.
---
 include/observation_table.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/observation_table.hh b/include/observation_table.hh
index 4ac54d5..2309b82 100644
--- a/include/observation_table.hh
+++ b/include/observation_table.hh
@@ -143,8 +143,8 @@ namespace learnta {
 #if 1
       if (this->distinguishedPrefix.find(std::make_pair(i, j)) != this->distinguishedPrefix.end() ||
           this->distinguishedPrefix.find(std::make_pair(j, i)) != this->distinguishedPrefix.end()) {
-        // we already know that they are not equivalent
-        assert(!this->equivalent(i, j));
+        // We already failed to find a renaming. The search only tries some candidates, and thus, it may succeed in the
+        // other direction or with more suffixes. Nevertheless, it is always safe to keep the rows distinguished.
         return std::nullopt;
       }
 #endif
-- 
2.43.0


From d4be0b4231652c65b8c0e18134dbc43acc040d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 03/12] fix: do not abort when a discrete inconsistency cannot
 be resolved

As for continuous inconsistency, no suffix may exist because the search of
renamings is not complete. The learner aborted on valid targets; now it goes on
and lets the equivalence query decide.
---
 include/observation_table.hh | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/observation_table.hh b/include/observation_table.hh
index 2309b82..632a8a9 100644
--- a/include/observation_table.hh
+++ b/include/observation_table.hh
@@ -415,20 +415,22 @@ namespace learnta {
 
   private:
     /*!
-     * @brief Resolve an inconsistency due to discrete successors
+     * @brief Try to resolve an inconsistency due to discrete successors
      *
      * @pre equivalent(i, j)
      * @pre !equivalent(discreteSuccessors(i, action), discreteSuccessors(j, action))
-     * @post !equivalent(i, j)
+     * @post !equivalent(i, j) if the inconsistency is resolved
+     *
+     * @return If the inconsistency is resolved
      */
-    void resolveDiscreteInconsistency(std::size_t i, std::size_t j, Alphabet action) {
+    [[nodiscard]] bool resolveDiscreteInconsistency(std::size_t i, std::size_t j, Alphabet action) {
       // Find a single witness of the inconsistency
       auto it = std::find_if_not(suffixes.begin(), suffixes.end(), [&](const auto &suffix) {
         return equivalent(i, j, suffix.predecessor(action));
       });
-      // we assume that we have such a suffix
+      // We may fail to resolve discrete inconsistency because our search of the renaming is not complete
       if (it == suffixes.end()) {
-        abort();
+        return false;
       }
       const auto newSuffix = it->predecessor(action);
       LOG_REFINEMENT_INFO << "New suffix " << newSuffix << " is added";
@@ -437,6 +439,8 @@ namespace learnta {
       this->refreshTable();
       // i and j should not be equivalent after adding the new suffix
       assert(!this->equivalentWithMemo(i, j));
+
+      return true;
     }
 
     /*!
@@ -529,11 +533,11 @@ namespace learnta {
             // Check the consistency
             for (const auto action: this->alphabet) {
               if (!this->equivalentWithMemo(this->discreteSuccessors.at({i, action}),
-                                            this->discreteSuccessors.at({j, action}))) {
+                                            this->discreteSuccessors.at({j, action}))
+                  && resolveDiscreteInconsistency(i, j, action)) {
                 LOG_REFINEMENT_INFO << "Observation table is inconsistent because of the discrete successors of "
                                          << this->prefixes.at(i) << " and " << this->prefixes.at(j)
                                          << " with action " << action;
-                resolveDiscreteInconsistency(i, j, action);
                 return false;
               }
             }
-- 
2.43.0


From 3552a2d56582b241809c6b18e50dd2144196deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 04/12] fix: compute the earliest delay satisfying a guard
 exactly

Constraint::lowerBoundDurationToSatisfy took x < c as satisfied at x == c, and
the delay for a conjunction ignored that the constraints from above may be
violated after the delay. For the guard without constraints, the minimum element
of an empty vector was read.
---
 include/constraint.hh | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 77f850a..da17f48 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -114,7 +114,7 @@ namespace learnta {
         case Order::lt:
         case Order::le:
           // Bounded from above
-          return valuation.at(this->x) <= this->c ? Bounds{0.0, true} :
+          return this->satisfy(valuation.at(this->x)) ? Bounds{0.0, true} :
                  Bounds{-std::numeric_limits<double>::infinity(), false};
         case Order::ge:
           // Bounded from below
@@ -362,13 +362,23 @@ namespace learnta {
 
   [[nodiscard]] inline Bounds lowerBoundDurationToSatisfy(const std::vector<Constraint> &guard,
                                                           const std::vector<double> &valuation) {
-    std::vector<Bounds> lowerBoundDurations;
-    lowerBoundDurations.reserve(guard.size());
-    std::transform(guard.begin(), guard.end(), std::back_inserter(lowerBoundDurations), [&](const auto &constraint) {
-      return constraint.lowerBoundDurationToSatisfy(valuation);
-    });
+    // The conjunction of no constraints is satisfied immediately
+    Bounds lowerBoundDuration{0.0, true};
+    for (const auto &constraint: guard) {
+      lowerBoundDuration = std::min(lowerBoundDuration, constraint.lowerBoundDurationToSatisfy(valuation));
+    }
+    // The constraints from above may be violated before the constraints from below get satisfied
+    if (!std::all_of(guard.begin(), guard.end(), [&](const auto &constraint) {
+      if (!constraint.isUpperBound()) {
+        return true;
+      }
+      const double value = valuation.at(constraint.x) - lowerBoundDuration.first;
+      return lowerBoundDuration.second ? constraint.satisfy(value) : value < constraint.c;
+    })) {
+      return {-std::numeric_limits<double>::infinity(), false};
+    }
 
-    return *std::min_element(lowerBoundDurations.begin(), lowerBoundDurations.end());
+    return lowerBoundDuration;
   }
 
   static inline std::ostream &operator<<(std::ostream &os, const std::vector<Constraint> &guards) {
-- 
2.43.0


From d160e8133cfe792b3bb73423ed68d98e107fcc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 05/12] fix: run the earliest one of the unobservable
 transitions

TimedAutomatonRunner::step minimised the bounds on the negated durations, and
ran the latest transition, or none if one of the guards is never satisfied.
---
 include/timed_automaton_runner.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/timed_automaton_runner.hh b/include/timed_automaton_runner.hh
index e42d1ae..bb033c6 100644
--- a/include/timed_automaton_runner.hh
+++ b/include/timed_automaton_runner.hh
@@ -125,7 +125,8 @@ namespace learnta {
           minDuration = lowerBoundDurationToSatisfy(unobservableIt->second.front().guard, this->clockValuation);
           candidateTransition = unobservableIt->second.begin();
         } else {
-          candidateTransition = std::min_element(unobservableIt->second.begin(), unobservableIt->second.end(),
+          // The bounds are on the negated durations. So, the earliest transition has the greatest bound
+          candidateTransition = std::max_element(unobservableIt->second.begin(), unobservableIt->second.end(),
                                                  [&](const auto &a, const auto &b) {
                                                    return lowerBoundDurationToSatisfy(a.guard, this->clockValuation) <
                                                           lowerBoundDurationToSatisfy(b.guard, this->clockValuation);
-- 
2.43.0


From 5e7180b371d5d9ab9c065f5dbbf9d042d5c52229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 06/12] fix: negate a disjunction containing the guard without
 constraints

negate() ignored a disjunct without constraints, i.e., true, and returned the
negation of the other disjuncts.
---
 include/conjunctive_constraint.hh | 3 ++-
 include/constraint.hh             | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/conjunctive_constraint.hh b/include/conjunctive_constraint.hh
index d920492..0d74dc5 100644
--- a/include/conjunctive_constraint.hh
+++ b/include/conjunctive_constraint.hh
@@ -167,7 +167,8 @@ namespace learnta {
     bool initial = true;
     for (const auto &disjunct: cnfNegated) {
       if (disjunct.empty()) {
-        continue;
+        // The disjunct without constraints holds for any valuation, and its negation is unsatisfiable
+        return {};
       }
       if (initial) {
         dnfNegated.reserve(disjunct.size());
diff --git a/include/constraint.hh b/include/constraint.hh
index da17f48..55bd32b 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -406,7 +406,8 @@ namespace learnta {
     bool initial = true;
     for (const auto &disjunct: cnfNegated) {
       if (disjunct.empty()) {
-        continue;
+        // The disjunct without constraints holds for any valuation, and its negation is unsatisfiable
+        return {};
       }
       if (initial) {
         dnfNegated.reserve(disjunct.size());
-- 
2.43.0


From 62d990919ed069d66c7e39d2c4358f2e68a7f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 07/12] fix: sample a zone respecting strict bounds on
 differences

Zone::sample took a closed constant lower bound as a permission to choose the
lower end even if it comes from a strict bound on a difference, and returned
valuations outside of the zone.
---
 include/zone.hh | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index f513d2f..d6b6b78 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -248,14 +248,13 @@ namespace learnta {
         if (isPoint(upperBound, lowerBound)) {
           valuation[i] = upperBound.first;
         } else {
-          double lower = std::max(0.0, -lowerBound.first);
-          double upper = upperBound.first;
+          lowerBound = std::min(lowerBound, Bounds{0.0, true});
           for (std::size_t j = 0; j < i; j++) {
-            Bounds tmpLowerBound = this->value(j + 1, i + 1);
-            Bounds tmpUpperBound = this->value(i + 1, j + 1);
-            lower = std::max(lower, -tmpLowerBound.first + valuation[j]);
-            upper = std::min(upper, tmpUpperBound.first + valuation[j]);
+            lowerBound = std::min(lowerBound, this->value(j + 1, i + 1) + Bounds{-valuation[j], true});
+            upperBound = std::min(upperBound, this->value(i + 1, j + 1) + Bounds{valuation[j], true});
           }
+          const double lower = -lowerBound.first;
+          const double upper = upperBound.first;
           assert(lower <= upper);
           if (lowerBound.second) {
             valuation[i] = lower;
-- 
2.43.0


From 26ec486001cbfc2a2c0d0fac8b8529a7458d3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 08/12] fix: ignore the diagonal when comparing zones by
 inclusion

The diagonal of a canonical zone may be (0, true) or larger, depending on how
the zone was made. Zone::includes compared the diagonals as well, and missed
that, e.g., the condition 1 <= T <= 2 includes 1 < T < 2.
---
 include/zone.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/zone.hh b/include/zone.hh
index d6b6b78..e619568 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -405,9 +405,12 @@ namespace learnta {
      * @brief Return if this zone includes the given zone
      *
      * @pre both this and the given zones are canonized
+     * @note We do not assume that the diagonal elements are equal.
      */
     [[nodiscard]] bool includes(const Zone &zone) const {
-      return this->value.cwiseMax(zone.value) == this->value;
+      Zone hull = *this;
+      hull.value = hull.value.cwiseMax(zone.value);
+      return this->strictEqual(std::move(hull));
     };
 
     /*!
-- 
2.43.0


From f823aed10d466d99841cc1e0a68db1ca7171594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 09/12] fix: order backward regional languages consistently

---
 include/backward_regional_elementary_language.hh | 8 ++++----
 include/forward_regional_elementary_language.hh  | 9 +++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/backward_regional_elementary_language.hh b/include/backward_regional_elementary_language.hh
index b69e48a..33fcc35 100644
--- a/include/backward_regional_elementary_language.hh
+++ b/include/backward_regional_elementary_language.hh
@@ -15,7 +15,7 @@ namespace learnta {
   /*!
    * @brief A back regional elementary language
    *
-   * A back regional elementary language is an elementary language \f$(u, \Lambda)\f$ with an order over the fractional parts of \f$\mathbb{T}_{0,0},\mathbb{T}_{0,1},\dots,\mathbb{T}_{0,N}\f$, where \f$\mathbb{T}_{0,i} = \tau_{0} + \tau_{1} \dots \tau_{i}\f$.
+   * A back regional elementary language is an elementary language \f$(u, \Lambda)\f$ with an order over the fractional parts of \f$-\mathbb{T}_{0,0},-\mathbb{T}_{0,1},\dots,-\mathbb{T}_{0,N}\f$, where \f$\mathbb{T}_{0,i} = \tau_{0} + \tau_{1} \dots \tau_{i}\f$.
    *
    * @invariant elementary.wordSize() + 1 == fractionalOrder.size()
    */
@@ -37,11 +37,11 @@ namespace learnta {
       fractionalPart.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.front() = timedWord.getDurations().front();
-      fractionalPart.front() = timedWord.getDurations().front() - std::floor(timedWord.getDurations().front());
+      // The order is over the fractional parts of \f$-\mathbb{T}_{0,i}\f$
+      fractionalPart.front() = std::ceil(timedWord.getDurations().front()) - timedWord.getDurations().front();
       for (std::size_t i = 1; i < fractionalPart.size(); ++i) {
         accumulatedDurationFromFront.at(i) = accumulatedDurationFromFront.at(i - 1) + timedWord.getDurations().at(i);
-        fractionalPart.at(i) = accumulatedDurationFromFront.at(i);
-        fractionalPart.at(i) -= std::floor(fractionalPart.at(i));
+        fractionalPart.at(i) = std::ceil(accumulatedDurationFromFront.at(i)) - accumulatedDurationFromFront.at(i);
       }
       accumulatedDurationFromBack.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromBack.back() = timedWord.getDurations().back();
diff --git a/include/forward_regional_elementary_language.hh b/include/forward_regional_elementary_language.hh
index 1d41277..cdd3b9c 100644
--- a/include/forward_regional_elementary_language.hh
+++ b/include/forward_regional_elementary_language.hh
@@ -162,10 +162,11 @@ namespace learnta {
       // Construct the fractional order
       std::vector<double> suffixDurationsFractional;
       suffixDurationsFractional.resize(suffixDurations.size());
-      suffixDurationsFractional.front() = suffixDurations.front() - std::floor(suffixDurations.front());
-      for (std::size_t i = 1; i < suffixDurationsFractional.size(); ++i) {
-        suffixDurationsFractional.at(i) = suffixDurationsFractional.at(i - 1) + suffixDurations.at(i);
-        suffixDurationsFractional.at(i) -= std::floor(suffixDurationsFractional.at(i));
+      // The order of the backward regional elementary languages is over the fractional parts of \f$-\mathbb{T}_{0,i}\f$
+      double accumulatedDurationFromFront = 0;
+      for (std::size_t i = 0; i < suffixDurationsFractional.size(); ++i) {
+        accumulatedDurationFromFront += suffixDurations.at(i);
+        suffixDurationsFractional.at(i) = std::ceil(accumulatedDurationFromFront) - accumulatedDurationFromFront;
       }
       assert(std::all_of(suffixDurationsFractional.begin(), suffixDurationsFractional.end(),
                          [](const double fractional) {
-- 
2.43.0


From e1698c81a9b7d14c2590b8e8f5901843ff0523d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 10/12] fix: sample a zone automaton with the zones of the runs

---
 include/symbolic_run.hh   | 17 ++++++++++++-----
 include/zone_automaton.hh | 27 +++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/symbolic_run.hh b/include/symbolic_run.hh
index e20c47f..2527d1b 100644
--- a/include/symbolic_run.hh
+++ b/include/symbolic_run.hh
@@ -57,11 +57,18 @@ namespace learnta {
       this->states.push_back(state);
       word.push_back(action);
       this->edges.push_back(transition);
-      tightZones.push_back(tightZones.back());
-      tightZones.back().elapse();
-      tightZones.back().tighten(this->edges.back().guard);
-      tightZones.back().applyResets(this->edges.back().resetVars);
-      tightZones.back().canonize();
+      tightZones.push_back(this->nextZone(transition));
+    }
+
+    //! @brief Returns the zone after the given transition from the last zone, without abstraction
+    [[nodiscard]] Zone nextZone(const learnta::TATransition &transition) const {
+      Zone zone = this->tightZones.back();
+      zone.elapse();
+      zone.tighten(transition.guard);
+      zone.applyResets(transition.resetVars);
+      zone.canonize();
+
+      return zone;
     }
 
     //! @brief Returns the i-th state in the symbolic run
diff --git a/include/zone_automaton.hh b/include/zone_automaton.hh
index 9b89c2e..491d1df 100644
--- a/include/zone_automaton.hh
+++ b/include/zone_automaton.hh
@@ -27,7 +27,27 @@ namespace learnta {
                      [](const auto &initialState) {
                        return SymbolicRun{initialState};
                      });
-      std::unordered_set<std::shared_ptr<ZAState>> visited = {initialStates.begin(), initialStates.end()};
+      // Since the states are merged by inclusion, the zone reached by a run can be smaller than the zone of the state.
+      // Therefore, we keep the (extrapolated) zones with which the states are visited.
+      std::unordered_map<std::shared_ptr<ZAState>, std::vector<Zone>> visited;
+      const auto visit = [&visited](const std::shared_ptr<ZAState> &state, Zone zone) {
+        if (!zone.isSatisfiable()) {
+          return false;
+        }
+        zone.extrapolate();
+        zone.canonize();
+        auto &visitedZones = visited[state];
+        if (std::any_of(visitedZones.begin(), visitedZones.end(), [&zone](const Zone &visitedZone) {
+          return visitedZone.includes(zone);
+        })) {
+          return false;
+        }
+        visitedZones.push_back(std::move(zone));
+        return true;
+      };
+      for (const auto &initialState: initialStates) {
+        visit(initialState, initialState->zone);
+      }
 
       while (!currentStates.empty()) {
         std::vector<SymbolicRun> nextStates;
@@ -44,12 +64,11 @@ namespace learnta {
             for (const auto &edge: edges) {
               auto transition = edge.first;
               auto target = edge.second.lock();
-              if (target && visited.find(target) == visited.end()) {
-                // We have not visited the state
+              if (target && visit(target, run.nextZone(transition))) {
+                // We have not visited the state with such a zone
                 auto newRun = run;
                 newRun.push_back(transition, static_cast<char>(action), target);
                 nextStates.push_back(newRun);
-                visited.insert(target);
               }
             }
           }
-- 
2.43.0


From 6325f8ba4d138ba9217562f04e0f6b7cb98ba88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 11/12] fix: extrapolate zones with the maximum constants of
 copied clocks

---
 src/ta2za.cc | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/ta2za.cc b/src/ta2za.cc
index 0ea33f1..1903795 100644
--- a/src/ta2za.cc
+++ b/src/ta2za.cc
@@ -5,6 +5,34 @@
 
 namespace learnta {
 
+/*!
+  @brief Make the maximum constants such that a clock variable copied to another one has at least its maximum constant
+ */
+  static std::vector<int> propagateMaxConstraints(const TimedAutomaton &TA) {
+    std::vector<int> maxConstraints = TA.maxConstraints;
+    bool changed = true;
+    while (changed) {
+      changed = false;
+      for (const auto &state: TA.states) {
+        for (const auto &[action, transitions]: state->next) {
+          for (const auto &transition: transitions) {
+            for (const auto &[resetVar, newValue]: transition.resetVars) {
+              if (newValue.index() == 1) {
+                auto &source = maxConstraints.at(std::get<ClockVariables>(newValue));
+                if (source < maxConstraints.at(resetVar)) {
+                  source = maxConstraints.at(resetVar);
+                  changed = true;
+                }
+              }
+            }
+          }
+        }
+      }
+    }
+
+    return maxConstraints;
+  }
+
 /*!
   @brief Generate a zone automaton from a timed automaton
   @tparam NVar the number of variable in TA
@@ -21,10 +49,8 @@ namespace learnta {
       initialZone.M = Bounds{
               *std::max_element(TA.maxConstraints.begin(), TA.maxConstraints.end()),
               true};
-      initialZone.maxConstraints.resize(TA.maxConstraints.size());
-      for (std::size_t i = 0; i < initialZone.maxConstraints.size(); ++i) {
-        initialZone.maxConstraints.at(i) = TA.maxConstraints.at(i);
-      }
+      const auto maxConstraints = propagateMaxConstraints(TA);
+      initialZone.maxConstraints.assign(maxConstraints.begin(), maxConstraints.end());
     } else {
       initialZone.M = Bounds(0, true);
     }
-- 
2.43.0


From 4d41ce25a112975b94af01ff35093cb6dcedab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 12/12] fix: negate of the empty disjunction of guards was
 unsatisfiable instead of true

---
 include/conjunctive_constraint.hh | 4 ++++
 include/constraint.hh             | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/conjunctive_constraint.hh b/include/conjunctive_constraint.hh
index 0d74dc5..0aeb712 100644
--- a/include/conjunctive_constraint.hh
+++ b/include/conjunctive_constraint.hh
@@ -152,6 +152,10 @@ namespace learnta {
   };
 
   inline std::vector<std::vector<Constraint>> negate(const std::vector<std::vector<Constraint>> &dnfConstraints) {
+    if (dnfConstraints.empty()) {
+      // The disjunction of no disjuncts never holds, and its negation holds for any valuation
+      return {{}};
+    }
     Eigen::Index dimension = 0;
     for (const auto& disjunct: dnfConstraints) {
       for (const auto& constraint: disjunct) {
diff --git a/include/constraint.hh b/include/constraint.hh
index 55bd32b..d9b804a 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -397,6 +397,10 @@ namespace learnta {
 #ifdef NO_EIGEN_CONSTRAINT
 
   inline std::vector<std::vector<Constraint>> negate(const std::vector<std::vector<Constraint>> &dnfConstraints) {
+    if (dnfConstraints.empty()) {
+      // The disjunction of no disjuncts never holds, and its negation holds for any valuation
+      return {{}};
+    }
     std::vector<std::vector<Constraint>> cnfNegated;
     cnfNegated.reserve(dnfConstraints.size());
     // Negation as CNF
-- 
2.43.0

