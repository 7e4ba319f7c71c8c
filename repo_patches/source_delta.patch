From 92cd3ac000b33a0eaf1faa7c27fb68883d28fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 01/42] fix: bound the lower bounds of the zones in
 Zone::abstractize

The lower bounds (and the lower bounds of the differences) were never
extrapolated, so ta2za enumerated infinitely many zones and did not terminate,
e.g., for a loop that resets one of two clocks.
---
 libmonaa/zone.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index e7d80e9..573fb84 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -152,13 +152,19 @@ struct Zone {
   /*
     @brief truncate the constraints compared with a constant greater than or
     equal to M
+
+    The lower bounds beyond M are also relaxed to M. Otherwise, the lower bounds
+    can be increasing and there are infinitely many zones.
    */
   void abstractize() {
     static constexpr Bounds infinity =
         Bounds(std::numeric_limits<double>::infinity(), false);
+    const Bounds lowerLimit = Bounds(-M.first, false);
     for (auto it = value.data(); it < value.data() + value.size(); it++) {
       if (*it >= M) {
         *it = Bounds(infinity);
+      } else if (*it < lowerLimit) {
+        *it = lowerLimit;
       }
     }
   }
-- 
2.43.0


From e644d05a4a9a5b960a36afa1b8f30cdb97e03b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 02/42] fix: do not append to the transitions while iterating
 over them in KMPSkipValue

The reallocation invalidated the iterators of the range-based for loop, which
crashed or yielded garbage transitions.
---
 libmonaa/kmp_skip_value.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 32f3a3b..5cdda07 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -64,15 +64,18 @@ public:
     }
     for (auto &state : A0.states) {
       for (auto & it : state->next) {
+        // We must not append to it.second while we are iterating over it
+        std::vector<TATransition> newEdges;
         for (TATransition edge : it.second) {
           const auto target = edge.target;
           // We can modify edge because it is copied
           if (target && target->isMatch) {
             edge.target = dummyAcceptingState.get();
             widen(edge.guard);
-            it.second.emplace_back(std::move(edge));
+            newEdges.push_back(std::move(edge));
           }
         }
+        it.second.insert(it.second.end(), newEdges.begin(), newEdges.end());
       }
     }
     A0.states.reserve(A0.states.size() + 1 + (m + 1));
-- 
2.43.0


From 2e7a1b8ae7a007d1f77f54ea5f999c45e3d51695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 03/42] fix: find the initial states linearly in monaaDollar
 and monaaNotNecessaryDollar

The initial states are not sorted. Some of them could be missing in the automaton
for the skip values, and matches were skipped.
---
 libmonaa/monaa.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index beb1c73..8e03e65 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -23,6 +23,7 @@
   @copyright (C) 2017 Masaki Waga. All rights reserved.
 */
 
+#include <algorithm>
 #include <boost/variant.hpp>
 #include <chrono>
 #include <climits>
@@ -709,7 +710,9 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv.at(s.get()));
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    // A.initialStates is not necessarily sorted
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv.at(s.get()));
     }
   }
@@ -1177,7 +1180,9 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv[s.get()]);
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    // A.initialStates is not necessarily sorted
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv[s.get()]);
     }
   }
-- 
2.43.0


From b44fae69f20dabd75a22c3119b613577fa598522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:25 +0000
Subject: [PATCH 04/42] fix: count the clocks that are only reset in
 convBoostTA

The clocks appearing only in resets were out of the range of the clock valuations,
and the reset was an out-of-bounds write.
---
 monaa/timed_automaton_parser.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 00eab35..4cd5aba 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -300,6 +300,11 @@ static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
       transition.resetVars =
           boost::get(&BoostTATransition::resetVars, BoostTA, *firstEdge)
               .resetVars;
+      // A clock variable may be used only in resets
+      for (auto x : transition.resetVars) {
+        TA.maxConstraints.resize(
+            std::max<std::size_t>(TA.maxConstraints.size(), x + 1));
+      }
       for (auto g : transition.guard) {
         TA.maxConstraints.resize(
             std::max<std::size_t>(TA.maxConstraints.size(), g.x + 1));
-- 
2.43.0


From 747148cd90ca3f62d44ac0b0c1c04baf62cf0cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:39 +0000
Subject: [PATCH 05/42] fix: do not tie the beginning of a match to the last
 skipped event in KMPSkipValue

A match can begin strictly after the last one of the n skipped events, when the
clocks have smaller values. The upper bounds in the guards excluded such matches
and the skip values were too large.
---
 libmonaa/kmp_skip_value.hh | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 5cdda07..59a257d 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -36,20 +36,20 @@ public:
     std::vector<std::shared_ptr<TAState>> extendedInitialStates(m + 1);
     std::generate(extendedInitialStates.begin(), extendedInitialStates.end(), std::make_shared<TAState>);
 
+    std::vector<ClockVariables> allClocks(TA.clockSize());
+    std::iota(allClocks.begin(), allClocks.end(), 0);
+    // The beginning of the matching is either at the time of the last event of
+    // the n-additional events or later.
     for (const auto& initialState : A0.initialStates) {
-      for (auto it = initialState->next.begin(); it != initialState->next.end();
-           it++) {
-        for (TATransition edge : it->second) {
-          // We can modify edge because it is copied
-          const Alphabet c = it->first;
-          widen(edge.guard);
-          extendedInitialStates[0]->next[c].push_back(std::move(edge));
-        }
+      for (const auto &transitions : initialState->next) {
+        auto &edges = extendedInitialStates[0]->next[transitions.first];
+        edges.insert(edges.end(), transitions.second.begin(),
+                     transitions.second.end());
       }
+      extendedInitialStates[0]->next[0].push_back(
+          {initialState.get(), allClocks, {}});
     }
 
-    std::vector<ClockVariables> allClocks(TA.clockSize());
-    std::iota(allClocks.begin(), allClocks.end(), 0);
     for (int i = 1; i <= m; ++i) {
       for (char c = 1; c < CHAR_MAX; ++c) {
         extendedInitialStates[i]->next[c].push_back(
-- 
2.43.0


From c61280a21c117dfc411c08f4e273f683e008eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 06/42] fix: relax the upper bounds, not the lower bounds, of
 the last guard in KMPSkipValue

In monaa, the last event is moved forward, when the clocks have smaller values.
The upper bounds evaluated at the original time excluded such matches and the
skip values were too large.
---
 libmonaa/constraint.hh     | 12 ++++++++++++
 libmonaa/kmp_skip_value.hh |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/libmonaa/constraint.hh b/libmonaa/constraint.hh
index 3b92b72..26a08d1 100644
--- a/libmonaa/constraint.hh
+++ b/libmonaa/constraint.hh
@@ -100,3 +100,15 @@ static inline void widen(std::vector<Constraint> &guard) {
                              }),
               guard.end());
 }
+
+/*!
+  @brief remove any inequality x < c or x <= c
+ */
+static inline void relaxUpperBounds(std::vector<Constraint> &guard) {
+  guard.erase(std::remove_if(guard.begin(), guard.end(),
+                             [](Constraint g) {
+                               return g.odr == Constraint::Order::le ||
+                                      g.odr == Constraint::Order::lt;
+                             }),
+              guard.end());
+}
diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 59a257d..02a5cc2 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -71,7 +71,8 @@ public:
           // We can modify edge because it is copied
           if (target && target->isMatch) {
             edge.target = dummyAcceptingState.get();
-            widen(edge.guard);
+            // The end of the matching can be before the last event
+            relaxUpperBounds(edge.guard);
             newEdges.push_back(std::move(edge));
           }
         }
-- 
2.43.0


From 39dd96451e16952b8ec936c2120c4a32899daeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:55 +0000
Subject: [PATCH 07/42] fix: keep every live state in
 ZoneAutomaton::removeDeadStates

A state leading to an accepting state only through a state on the current path of
the depth-first search was removed. Then, some letters were missing in the table of
Sunday's skip values, and matches were skipped.
---
 libmonaa/zone_automaton.hh | 62 +++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/libmonaa/zone_automaton.hh b/libmonaa/zone_automaton.hh
index 8bf92fe..bdc93cb 100644
--- a/libmonaa/zone_automaton.hh
+++ b/libmonaa/zone_automaton.hh
@@ -2,7 +2,9 @@
 
 #include "timed_automaton.hh"
 #include "zone.hh"
+#include <deque>
 #include <stack>
+#include <unordered_map>
 #include <unordered_set>
 #include <utility>
 
@@ -57,41 +59,51 @@ struct ZoneAutomaton : public Automaton<ZAState> {
 
   //! @brief remove states unreachable to any accepting states
   void removeDeadStates() {
-    // Find states unreachable to any accepting states
-    using Config = std::pair<std::shared_ptr<ZAState>,
-                             std::unordered_set<std::shared_ptr<ZAState>>>;
-    std::stack<Config> States;
-    for (auto state : initialStates) {
-      States.push(Config(state, {}));
-    }
+    // Find the states reachable from an initial state and their predecessors
+    std::unordered_set<std::shared_ptr<ZAState>> visited(initialStates.begin(),
+                                                         initialStates.end());
+    std::unordered_map<std::shared_ptr<ZAState>,
+                       std::vector<std::shared_ptr<ZAState>>>
+        predecessors;
     std::unordered_set<std::shared_ptr<ZAState>> reachable;
-    while (!States.empty()) {
-      Config conf = States.top();
-      States.pop();
-      if (conf.first->isMatch) {
-        reachable.insert(conf.first);
-        reachable.insert(conf.second.begin(), conf.second.end());
+    std::stack<std::shared_ptr<ZAState>> waiting;
+    for (const auto &state : visited) {
+      waiting.push(state);
+    }
+    while (!waiting.empty()) {
+      const auto state = waiting.top();
+      waiting.pop();
+      if (state->isMatch) {
+        reachable.insert(state);
       }
-      for (const auto &edges : conf.first->next) {
+      for (const auto &edges : state->next) {
         for (const auto &edge : edges) {
-          if (conf.second.find(conf.first) != conf.second.end()) {
-            // We are in a loop
+          const auto target = edge.lock();
+          if (!target) {
             continue;
           }
-          if (reachable.find(edge.lock()) != reachable.end()) {
-            // The next state is reachable
-            reachable.insert(conf.first);
-            reachable.insert(conf.second.begin(), conf.second.end());
-          } else {
-            // The next state may be unreachable
-            auto parents = conf.second;
-            parents.insert(conf.first);
-            States.push(Config(edge.lock(), parents));
+          predecessors[target].push_back(state);
+          if (visited.insert(target).second) {
+            waiting.push(target);
           }
         }
       }
     }
 
+    // Find the states from which an accepting state is reachable
+    for (const auto &state : reachable) {
+      waiting.push(state);
+    }
+    while (!waiting.empty()) {
+      const auto state = waiting.top();
+      waiting.pop();
+      for (const auto &predecessor : predecessors[state]) {
+        if (reachable.insert(predecessor).second) {
+          waiting.push(predecessor);
+        }
+      }
+    }
+
     // Remove unreachable states
     for (auto it = states.begin(); it != states.end();) {
       if (reachable.find(*it) == reachable.end()) {
-- 
2.43.0


From c208b7959bc7bb020cc1e2c4e3d53c0aa3b0f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 08/42] fix: do not bound the duration above when the interval
 of a within is unbounded

---
 monaa/tre.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 5614a20..1e1055b 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -317,7 +317,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
             if (target->next.empty()) {
               edge.guard.reserve(edge.guard.size() + 2);
               // upper bound
-              if (regExprWithin.second->upperBound.second) {
+              if (std::isinf(regExprWithin.second->upperBound.first)) {
+                // the duration is not bounded above
+              } else if (regExprWithin.second->upperBound.second) {
                 edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) <=
                                         regExprWithin.second->upperBound.first);
               } else {
@@ -339,7 +341,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
 
               transition.guard.reserve(transition.guard.size() + 2);
               // upper bound
-              if (regExprWithin.second->upperBound.second) {
+              if (std::isinf(regExprWithin.second->upperBound.first)) {
+                // the duration is not bounded above
+              } else if (regExprWithin.second->upperBound.second) {
                 transition.guard.emplace_back(
                     TimedAutomaton::X(out.clockSize()) <=
                     regExprWithin.second->upperBound.first);
@@ -372,7 +376,11 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     if (isDummyUsed) {
       out.states.emplace_back(std::move(dummyAcceptingState));
     }
-    out.maxConstraints.emplace_back(regExprWithin.second->upperBound.first);
+    const auto &interval = *regExprWithin.second;
+    out.maxConstraints.emplace_back(
+        std::isinf(interval.upperBound.first)
+            ? interval.lowerBound.first
+            : std::max(interval.lowerBound.first, interval.upperBound.first));
     break;
   }
   }
-- 
2.43.0


From 41d6af0ad57f1516f45ddb1be1c82329738ab73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 09/42] fix: do not append to the transitions while iterating
 over them in TRE::toEventTA

---
 monaa/tre.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 1e1055b..a0e2f92 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -309,6 +309,7 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     }
     for (auto state : out.states) {
       for (auto &edges : state->next) {
+        std::vector<TATransition> newTransitions;
         for (auto &edge : edges.second) {
           auto target = edge.target;
           if (target && target->isMatch) {
@@ -362,10 +363,12 @@ void TRE::toEventTA(TimedAutomaton &out) const {
                     TimedAutomaton::X(out.clockSize()) >
                     regExprWithin.second->lowerBound.first);
               }
-              edges.second.emplace_back(std::move(transition));
+              newTransitions.emplace_back(std::move(transition));
             }
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     for (auto state : out.states) {
-- 
2.43.0


From 08ddcd7062ed95a5c2d3036e7f81a4af0ad39fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 10/42] fix: track the empty word by the accepting initial
 states in TRE::toEventTA

The zeroDuration flag was lost or wrongly shared when states were merged, and
the empty word was dropped by a within that admits the duration 0.
---
 monaa/tre.cc | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index a0e2f92..09c46ae 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -56,7 +56,6 @@ void concat2(TimedAutomaton &left, const TimedAutomaton &right) {
             transition.target = initState.get();
             transition.resetVars = rightClocks;
             newTransitions.emplace_back(std::move(transition));
-            transition.target->zeroDuration = false;
           }
         }
       }
@@ -217,7 +216,6 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     out.states[0] = std::make_shared<TAState>();
     out.initialStates = {out.states[0]};
     out.states[0]->isMatch = true;
-    out.states[0]->zeroDuration = true;
     out.maxConstraints.clear();
     break;
   }
@@ -228,13 +226,10 @@ void TRE::toEventTA(TimedAutomaton &out) const {
         std::vector<TATransition> newTransitions;
         for (TATransition edge : edges.second) {
           TAState *target = edge.target;
-          if (target && target->isMatch && !target->zeroDuration) {
+          if (target && target->isMatch) {
             newTransitions.reserve(newTransitions.size() +
                                    out.initialStates.size());
             for (auto initState : out.initialStates) {
-              if (initState->zeroDuration) {
-                continue;
-              }
               TATransition transition = edge;
               transition.target = initState.get();
               for (std::size_t clock = 0; clock < out.clockSize(); clock++) {
@@ -297,16 +292,18 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     bool isDummyUsed = false;
     std::shared_ptr<TAState> dummyAcceptingState =
         std::make_shared<TAState>(true);
-    // Make all the zero duration states non-initial
-    // Note: this would not work well if we allow constraints >= 0
-    out.initialStates.erase(std::remove_if(
-                              out.initialStates.begin(), out.initialStates.end(),
-                              [](auto &state) {return state->zeroDuration;}),
-                            out.initialStates.end());
-    // Make all the state non-zero duration
-    for (auto state : out.states) {
-      state->zeroDuration = false;
-    }
+    // The empty word is accepted by the accepting initial states. Its duration is
+    // not constrained by a transition. We handle it separately.
+    const bool acceptEpsilon =
+        regExprWithin.second->contain(0) &&
+        std::any_of(out.initialStates.begin(), out.initialStates.end(),
+                    [](const auto &state) { return state->isMatch; });
+    out.initialStates.erase(
+        std::remove_if(out.initialStates.begin(), out.initialStates.end(),
+                       [](const auto &state) {
+                         return state->isMatch && state->next.empty();
+                       }),
+        out.initialStates.end());
     for (auto state : out.states) {
       for (auto &edges : state->next) {
         std::vector<TATransition> newTransitions;
@@ -379,6 +376,10 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     if (isDummyUsed) {
       out.states.emplace_back(std::move(dummyAcceptingState));
     }
+    if (acceptEpsilon) {
+      out.states.emplace_back(std::make_shared<TAState>(true));
+      out.initialStates.emplace_back(out.states.back());
+    }
     const auto &interval = *regExprWithin.second;
     out.maxConstraints.emplace_back(
         std::isinf(interval.upperBound.first)
-- 
2.43.0


From 481fc1ec6c4f5f923c867022106b1556050f1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:08 +0000
Subject: [PATCH 11/42] fix: put the end of a match at the event entering an
 accepting state in monaaNotNecessaryDollar

---
 libmonaa/monaa.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 8e03e65..93cb31f 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -1499,7 +1499,7 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
               //            std::move(lowerBeginConstraint));
 
               const Bounds upperEndConstraint = {t, true};
-              const Bounds lowerEndConstraint = {t, true};
+              const Bounds lowerEndConstraint = {-t, true};
 
               // value(2, 1) <= value(2, 0) + value(0, 1)
               const Bounds upperDeltaConstraint =
-- 
2.43.0


From 07a6891b7d4b2215034d664c139c6733bd6d8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 12/42] fix: keep the non-negativity of clocks in
 Zone::abstractize when M is 0

All the constraints by (0, <=) were relaxed, including the lower bounds 0 of
the clocks, and guards such as x < 0 became satisfiable.
---
 libmonaa/zone.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 573fb84..a3d3165 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -154,14 +154,15 @@ struct Zone {
     equal to M
 
     The lower bounds beyond M are also relaxed to M. Otherwise, the lower bounds
-    can be increasing and there are infinitely many zones.
+    can be increasing and there are infinitely many zones. When M is 0, the
+    constraints by (0, \le) are kept so that the clocks remain non-negative.
    */
   void abstractize() {
     static constexpr Bounds infinity =
         Bounds(std::numeric_limits<double>::infinity(), false);
     const Bounds lowerLimit = Bounds(-M.first, false);
     for (auto it = value.data(); it < value.data() + value.size(); it++) {
-      if (*it >= M) {
+      if (*it >= M and *it > Bounds(0, true)) {
         *it = Bounds(infinity);
       } else if (*it < lowerLimit) {
         *it = lowerLimit;
-- 
2.43.0


From 7adf7c89e4234c642e89d8b65a10803dffa65766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:41 +0000
Subject: [PATCH 13/42] fix: take the strict bound in the intersection of
 intervals of the same lower bound

The pairs were compared lexicographically, and (1,2) && [1,2) was [1,2).
---
 libmonaa/interval.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index b9142e2..d27be6a 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -98,6 +98,11 @@ struct Interval {
 inline static Interval operator&&(const Interval &left, const Interval &right) {
   Interval ret = Interval{std::max(left.lowerBound, right.lowerBound),
                           std::min(left.upperBound, right.upperBound)};
+  // For the same lower bound, the strict one is tighter
+  if (left.lowerBound.first == right.lowerBound.first) {
+    ret.lowerBound.second =
+        left.lowerBound.second && right.lowerBound.second;
+  }
   return ret;
 }
 
-- 
2.43.0


From bb5248e624ddb9dfd584b57c622b34b9e15c2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:41 +0000
Subject: [PATCH 14/42] fix: remove the empty intervals (a,a), (a,a] in the
 intersection of sets of intervals

Only [a,a) and intervals of crossing bounds were removed. The remaining
empty intervals became non-empty when they were summed.
---
 libmonaa/interval.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index d27be6a..19e9fa2 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -127,8 +127,11 @@ inline static void land(std::vector<std::shared_ptr<Interval>> &left,
   }
   left.erase(std::remove_if(left.begin(), left.end(),
                             [](std::shared_ptr<Interval> interval) {
-                              return interval->lowerBound >
-                                     interval->upperBound;
+                              const auto &lower = interval->lowerBound;
+                              const auto &upper = interval->upperBound;
+                              return lower.first > upper.first ||
+                                     (lower.first == upper.first &&
+                                      !(lower.second && upper.second));
                             }),
              left.end());
 }
-- 
2.43.0


From c9fff175b4f21aae14001f501f335a395157652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:47 +0000
Subject: [PATCH 15/42] fix: emit the lower bounds in Zone::makeGuard

The entries of the DBM are the upper bounds of -x, and the lower bounds
other than x > 0 were dropped.
---
 libmonaa/zone.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index a3d3165..2844c90 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -185,13 +185,13 @@ struct Zone {
     for (int i = 0; i < getNumOfVar(); ++i) {
       // the second element of Bound is true if the constraint is not strict,
       // i.e., LE or GE.
+      // value(0, i + 1) is the upper bound of -x_i
       Bounds lowerBound = value(0, i + 1);
-      if (lowerBound.first > 0 or
-          (lowerBound.first == 0 and lowerBound.second == false)) {
+      if (lowerBound < Bounds(0, true)) {
         if (lowerBound.second) {
-          guard.push_back(ConstraintMaker(i) >= lowerBound.first);
+          guard.push_back(ConstraintMaker(i) >= -lowerBound.first);
         } else {
-          guard.push_back(ConstraintMaker(i) > lowerBound.first);
+          guard.push_back(ConstraintMaker(i) > -lowerBound.first);
         }
       }
       Bounds upperBound = value(i + 1, 0);
-- 
2.43.0


From 5feea79dd8ba6713ac3cb06476e90f1eb63ad92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:47 +0000
Subject: [PATCH 16/42] fix: assign the result in Zone::intersectionAssign

---
 libmonaa/zone.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 2844c90..24a245e 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -213,6 +213,6 @@ struct Zone {
 
   void intersectionAssign(Zone z) {
     assert(value.size() == z.value.size());
-    value.cwiseMin(z.value);
+    value = value.cwiseMin(z.value).eval();
   }
 };
-- 
2.43.0


From 903875660f9a021d2853e6c163656b050e84a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:17 +0000
Subject: [PATCH 17/42] fix: reset clocks at the time of unobservable
 transitions in monaa

newClock was always 0, i.e., the clocks were reset at the constant 0.
---
 libmonaa/monaa.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 93cb31f..aece579 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -595,10 +595,10 @@ void monaa(WordContainer<InputContainer> word, TimedAutomaton A,
                 continue;
               }
               IntermediateZone tmpZ = econfig.z;
-              ClockVariables newClock = 0;
-              tmpZ.alloc({word[j].second, true},
-                         ((j > 0) ? Bounds{-word[j - 1].second, false}
-                                  : Bounds{0, true}));
+              const ClockVariables newClock =
+                  tmpZ.alloc({word[j].second, true},
+                             ((j > 0) ? Bounds{-word[j - 1].second, false}
+                                      : Bounds{0, true}));
               tmpZ.tighten(edge.guard, econfig.resetTime);
               if (tmpZ.isSatisfiableCanonized()) {
                 auto tmpResetTime = econfig.resetTime;
-- 
2.43.0


From 3db9b61a24ea2bf10dd8ad5a925c10053d510595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:17 +0000
Subject: [PATCH 18/42] fix: size the reset times by the automaton in
 InternalState

The vector was static, and had the size for the first automaton matched.
---
 libmonaa/monaa.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index aece579..d6ee796 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -76,10 +76,8 @@ struct InternalState {
   InternalState(const std::size_t numOfVar, const TAState *s,
                 const Interval &interval)
       : s(std::move(s)), z(std::move(interval)) {
-    static const std::vector<boost::variant<double, ClockVariables>>
-        zeroResetTime(numOfVar, ClockVariables(1));
     // Every clock variables are reset at t1 ( = t)
-    resetTime = zeroResetTime;
+    resetTime.assign(numOfVar, ClockVariables(1));
   }
 };
 
-- 
2.43.0


From cd203c7319f739bb22c6c5b2d999246ba4f37871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:53 +0000
Subject: [PATCH 19/42] fix: report errors on the command line options instead
 of aborting

---
 monaa/main.cc   | 16 +++++++++++-----
 monaa/tre2ta.cc | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/monaa/main.cc b/monaa/main.cc
index e4b8286..ff93ac7 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -43,12 +43,18 @@ int main(int argc, char *argv[]) {
   command_line_parser parser(argc, argv);
   parser.options(visible);
   variables_map vm;
-  const auto parseResult = parser.run();
-  store(parseResult, vm);
-  notify(vm);
+  std::vector<std::string> positionalArgs;
+  try {
+    const auto parseResult = parser.run();
+    store(parseResult, vm);
+    notify(vm);
+    positionalArgs =
+        collect_unrecognized(parseResult.options, include_positional);
+  } catch (const boost::program_options::error &e) {
+    die(e.what(), 1);
+  }
 
-  for (auto const &str :
-       collect_unrecognized(parseResult.options, include_positional)) {
+  for (auto const &str : positionalArgs) {
     if (timedAutomatonFileName.empty() && tre.empty()) {
       tre = std::move(str);
     } else if (timedWordFileName == "stdin") {
diff --git a/monaa/tre2ta.cc b/monaa/tre2ta.cc
index e5c21a3..42c1566 100644
--- a/monaa/tre2ta.cc
+++ b/monaa/tre2ta.cc
@@ -34,12 +34,18 @@ int main(int argc, char *argv[]) {
   command_line_parser parser(argc, argv);
   parser.options(visible);
   variables_map vm;
-  const auto parseResult = parser.run();
-  store(parseResult, vm);
-  notify(vm);
+  std::vector<std::string> positionalArgs;
+  try {
+    const auto parseResult = parser.run();
+    store(parseResult, vm);
+    notify(vm);
+    positionalArgs =
+        collect_unrecognized(parseResult.options, include_positional);
+  } catch (const boost::program_options::error &e) {
+    die(e.what(), 1);
+  }
 
-  for (auto const &str :
-       collect_unrecognized(parseResult.options, include_positional)) {
+  for (auto const &str : positionalArgs) {
     tre = std::move(str);
   }
 
-- 
2.43.0


From 3b91e04d7666de08f01ae8e70798561f52609bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:53 +0000
Subject: [PATCH 20/42] fix: report an automaton file that cannot be opened or
 parsed instead of aborting

---
 monaa/main.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/monaa/main.cc b/monaa/main.cc
index ff93ac7..3599ef0 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -124,8 +124,17 @@ int main(int argc, char *argv[]) {
     }
     // parse TA
     std::ifstream taStream(timedAutomatonFileName);
+    if (!taStream) {
+      perror("timed automaton file");
+      return 1;
+    }
     BoostTimedAutomaton BoostTA;
-    parseBoostTA(taStream, BoostTA);
+    try {
+      parseBoostTA(taStream, BoostTA);
+    } catch (const std::exception &e) {
+      std::cerr << errorHeader << e.what() << std::endl;
+      die("Failed to parse the timed automaton", 2);
+    }
     convBoostTA(BoostTA, TA);
   }
 
-- 
2.43.0


From 545f825c77bb85b9aefbcc0e1c4d40e263a4f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:53 +0000
Subject: [PATCH 21/42] fix: fail when the automaton cannot be written to the
 output file

---
 monaa/tre2ta.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monaa/tre2ta.cc b/monaa/tre2ta.cc
index 42c1566..2c8a264 100644
--- a/monaa/tre2ta.cc
+++ b/monaa/tre2ta.cc
@@ -95,6 +95,10 @@ int main(int argc, char *argv[]) {
   } else {
     std::ofstream outputStream(outputFilename);
     outputStream << TA << std::endl;
+    if (!outputStream) {
+      perror("output file");
+      return 1;
+    }
   }
 
   return 0;
-- 
2.43.0


From 2d4a005f1e323f973036f544e6832f9a1de484b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:53 +0000
Subject: [PATCH 22/42] fix: initialise the attributes that a DOT file does not
 give

---
 monaa/timed_automaton_parser.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 4cd5aba..e129cde 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -239,12 +239,12 @@ static inline std::ostream &operator<<(std::ostream &os,
 }
 
 struct BoostTAState {
-  bool isInit;
-  bool isMatch;
+  bool isInit = false;
+  bool isMatch = false;
 };
 
 struct BoostTATransition {
-  Alphabet c;
+  Alphabet c = 0;
   //! @note this structure is necessary because of some problem in boost graph
   ResetVars resetVars;
   std::vector<Constraint> guard;
-- 
2.43.0


From 35963cb55e2b85a028780e13c519d1ae1684ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:53 +0000
Subject: [PATCH 23/42] fix: skip over letters beyond the table of skip values

---
 libmonaa/sunday_skip_value.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmonaa/sunday_skip_value.hh b/libmonaa/sunday_skip_value.hh
index baef837..1f430c2 100644
--- a/libmonaa/sunday_skip_value.hh
+++ b/libmonaa/sunday_skip_value.hh
@@ -71,7 +71,10 @@ public:
     endChars = charSet[m - 1];
   }
   unsigned int at(std::size_t n) const { return delta.at(n); }
-  unsigned int operator[](std::size_t n) const { return delta[n]; }
+  //! @note A letter beyond the table is in no pattern.
+  unsigned int operator[](std::size_t n) const {
+    return n < delta.size() ? delta[n] : m + 1;
+  }
   //! @brief Minimum length of the recognized language
   int getM() const { return m; }
   void getEndChars(std::unordered_set<char> &endCharsHolder) const {
-- 
2.43.0


From 7d2be4799121e6ea910f5a098531f58c9e08b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:53 +0000
Subject: [PATCH 24/42] fix: reject integers that do not fit instead of
 wrapping them

---
 monaa/tre_lexer.l | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/monaa/tre_lexer.l b/monaa/tre_lexer.l
index 9ea05b8..583e4df 100644
--- a/monaa/tre_lexer.l
+++ b/monaa/tre_lexer.l
@@ -1,4 +1,7 @@
 %{
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
 #include <string>
 
 /* Implementation of yyFlexScanner */ 
@@ -48,7 +51,12 @@ using token = MONAA::TREParser::token;
 }
 
 [0-9]+ {
-    yylval->build<int>( atoi(yytext) );
+    errno = 0;
+    const long value = strtol(yytext, nullptr, 10);
+    if (errno == ERANGE || value > std::numeric_limits<int>::max()) {
+        throw MONAA::TREParser::syntax_error(*loc, "integer out of range");
+    }
+    yylval->build<int>( static_cast<int>(value) );
     return token::INT;
 }
 
-- 
2.43.0


From 56f1add74b26a2eb98fa65e124ec93527dca1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 25/42] fix: leave the operands of a product unchanged

---
 libmonaa/intersection.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libmonaa/intersection.cc b/libmonaa/intersection.cc
index e952b90..6fea412 100644
--- a/libmonaa/intersection.cc
+++ b/libmonaa/intersection.cc
@@ -1,4 +1,13 @@
 #include "intersection.hh"
+
+//! @brief The unobservable transitions of a state, without changing the state
+static const std::vector<TATransition> &
+epsilonTransitions(const TAState &s) {
+  static const std::vector<TATransition> none;
+  const auto it = s.next.find(0);
+  return it == s.next.end() ? none : it->second;
+}
+
 /*
   Specifications
   ==============
@@ -88,7 +97,7 @@ void intersectionTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
         continue;
       }
       // Epsilon transitions
-      for (const auto &e1 : s1->next[0]) {
+      for (const auto &e1 : epsilonTransitions(*s1)) {
         auto nextS1 = e1.target;
         if (!nextS1) {
           continue;
@@ -96,7 +105,7 @@ void intersectionTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
         addProductTransition(s1.get(), s2.get(), nextS1, s2.get(), e1,
                              emptyTransition, 0);
       }
-      for (const auto &e2 : s2->next[0]) {
+      for (const auto &e2 : epsilonTransitions(*s2)) {
         auto nextS2 = e2.target;
         if (!nextS2) {
           continue;
@@ -243,7 +252,7 @@ void intersectionSignalTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
         continue;
       }
       // Epsilon transitions
-      for (const auto &e1 : s1->next[0]) {
+      for (const auto &e1 : epsilonTransitions(*s1)) {
         auto nextS1 = e1.target;
         if (!nextS1) {
           continue;
@@ -251,7 +260,7 @@ void intersectionSignalTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
         addProductTransition(s1.get(), s2.get(), nextS1, s2.get(), e1,
                              emptyTransition, 0);
       }
-      for (const auto &e2 : s2->next[0]) {
+      for (const auto &e2 : epsilonTransitions(*s2)) {
         auto nextS2 = e2.target;
         if (!nextS2) {
           continue;
-- 
2.43.0


From 63552d50b2c924e201284b01dc0ca54f9ccc385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 26/42] fix: forget the states of earlier automata in
 renameToEpsilonTransitions

---
 monaa/tre.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 09c46ae..91de151 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -447,8 +447,8 @@ void TRE::toEventTA(TimedAutomaton &out) const {
 //! rename to epsilon transitions
 void renameToEpsilonTransitions(TimedAutomaton &out) {
   std::unordered_map<TAState *, std::shared_ptr<TAState>> toAccepting;
-  const auto haveToChangeToEpsilon = [](const TAState *s, const Alphabet c) {
-    static std::unordered_map<const TAState *, Alphabet> output;
+  std::unordered_map<const TAState *, Alphabet> output;
+  const auto haveToChangeToEpsilon = [&output](const TAState *s, const Alphabet c) {
     if (c != 0) {
       if (s->next.find(c) != s->next.end()) {
         output[s] = c;
-- 
2.43.0


From 5cd7488c4b7b9328003e0912328d13fb80ab889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 27/42] fix: reject DOT files with syntax errors or labels that
 are not ASCII

---
 monaa/timed_automaton_parser.hh | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index e129cde..aa39917 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -3,8 +3,11 @@
 #include <boost/graph/adjacency_list.hpp>
 #include <boost/graph/graphviz.hpp>
 #include <boost/optional.hpp>
+#include <climits>
 #include <fstream>
 #include <iostream>
+#include <limits>
+#include <stdexcept>
 
 #include "../libmonaa/timed_automaton.hh"
 
@@ -264,7 +267,16 @@ static inline void parseBoostTA(std::istream &file,
   dp.property("reset", boost::get(&BoostTATransition::resetVars, BoostTA));
   dp.property("guard", boost::get(&BoostTATransition::guard, BoostTA));
 
-  boost::read_graphviz(file, BoostTA, dp, "id");
+  if (!boost::read_graphviz(file, BoostTA, dp, "id")) {
+    throw std::runtime_error("syntax error in the DOT file");
+  }
+  const auto edges = boost::edges(BoostTA);
+  for (auto edge = edges.first; edge != edges.second; ++edge) {
+    const int c = BoostTA[*edge].c;
+    if (c < 0 || c >= CHAR_MAX) {
+      throw std::runtime_error("a label is not an ASCII character");
+    }
+  }
 }
 
 static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
-- 
2.43.0


From 040b26da4c540349c2a590d9405e53fcee453d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 28/42] fix: reject the numbers that are not of a clock
 variable in DOT files

---
 monaa/timed_automaton_parser.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index aa39917..2ea0b90 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -38,6 +38,11 @@ static inline std::ostream &operator<<(std::ostream &os,
   return os;
 }
 
+//! @brief Check if the number is that of a clock variable
+static inline bool isClock(int x) {
+  return x >= 0 && x < std::numeric_limits<ClockVariables>::max();
+}
+
 static inline std::istream &operator>>(std::istream &is, Constraint &p) {
   if (is.get() != 'x') {
     is.setstate(std::ios_base::failbit);
@@ -46,7 +51,7 @@ static inline std::istream &operator>>(std::istream &is, Constraint &p) {
   int x;
   is >> x;
   p.x = x;
-  if (!is) {
+  if (!is || !isClock(x)) {
     is.setstate(std::ios_base::failbit);
     return is;
   }
@@ -134,7 +139,7 @@ static inline std::istream &operator>>(std::istream &is,
     int x;
     is >> x;
     resetVars.emplace_back(ClockVariables(x));
-    if (!is) {
+    if (!is || !isClock(x)) {
       is.setstate(std::ios_base::failbit);
       return is;
     }
-- 
2.43.0


From 8f82b96aa3d853684134b36584d912b09834eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 29/42] fix: report a too large expression in the signal mode
 instead of aborting

---
 monaa/main.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monaa/main.cc b/monaa/main.cc
index 3599ef0..97516e3 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -114,7 +114,11 @@ int main(int argc, char *argv[]) {
       die("Failed to parse TRE", 2);
     }
     if (isSignal) {
-      toSignalTA(driver.getResult(), TA);
+      try {
+        toSignalTA(driver.getResult(), TA);
+      } catch (const char *message) {
+        die(message, 2);
+      }
     } else {
       driver.getResult()->toEventTA(TA);
     }
-- 
2.43.0


From 1a4ec943566e78b928a4066c65e0909f7655bbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 30/42] fix: leave the shared operands unchanged in the normal
 form of TREs

---
 libmonaa/interval.hh      |  5 +++--
 monaa/intermediate_tre.cc | 20 ++++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index 19e9fa2..44007e7 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -122,8 +122,9 @@ inline static Interval operator&&(const Interval &left, const Interval &right) {
  */
 inline static void land(std::vector<std::shared_ptr<Interval>> &left,
                         const Interval &right) {
-  for (auto interval : left) {
-    (*interval) = (*interval) && right;
+  for (auto &interval : left) {
+    // the intervals may be shared with other sets
+    interval = std::make_shared<Interval>((*interval) && right);
   }
   left.erase(std::remove_if(left.begin(), left.end(),
                             [](std::shared_ptr<Interval> interval) {
diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index def2a50..e5e0c1e 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -143,6 +143,10 @@ DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
 };
 
 void AtomicTRE::toNormalForm() {
+  if (decision) {
+    // shared with an expression already in the normal form
+    return;
+  }
   switch (tag) {
   case op::singleton: {
     decision = std::make_shared<SyntacticDecision>(
@@ -171,7 +175,10 @@ void AtomicTRE::toNormalForm() {
                  std::next(it) != list.end() &&
                  (*std::next(it))->tag == AtomicTRE::op::singleton &&
                  (*it)->singleton->c == (*std::next(it))->singleton->c) {
-        (*it)->singleton->intervals += (*std::next(it))->singleton->intervals;
+        // the operands may be shared with other expressions
+        auto merged = std::make_shared<SingletonTRE>(*(*it)->singleton);
+        merged->intervals += (*std::next(it))->singleton->intervals;
+        *it = std::make_shared<AtomicTRE>(merged);
         list.erase(std::next(it));
       } else {
         it++;
@@ -288,12 +295,13 @@ void AtomicTRE::toNormalForm() {
         within.first->decision->tag, within.first->decision->chars);
     switch (within.first->tag) {
     case op::singleton: {
-      auto origExpr = within.first;
-      land(origExpr->singleton->intervals, *(within.second));
+      // the operand may be shared with other expressions
+      auto newSingleton =
+          std::make_shared<SingletonTRE>(*(within.first->singleton));
+      land(newSingleton->intervals, *(within.second));
       within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
       tag = op::singleton;
-      new (&singleton)
-          std::shared_ptr<SingletonTRE>(std::move(origExpr->singleton));
+      new (&singleton) std::shared_ptr<SingletonTRE>(std::move(newSingleton));
       break;
     }
     case op::epsilon: {
@@ -438,7 +446,7 @@ bool AtomicTRE::makeSNF(const char singleC) {
     if (!within.first->makeSNF(singleC)) {
       return false;
     }
-    auto tmpTRE = within.first->singleton;
+    auto tmpTRE = std::make_shared<SingletonTRE>(*(within.first->singleton));
     auto tmpInterval = within.second;
     within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
     tag = op::singleton;
-- 
2.43.0


From 4b0a36334251422e84e035d2b3ee662e54d5d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 31/42] fix: advance over the conjunctions in
 DNFTRE::toNormalForm

---
 monaa/intermediate_tre.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index e5e0c1e..399a6c1 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -369,7 +369,7 @@ void DNFTRE::toNormalForm() {
     auto it = conjunctions.begin();
     decisions.push_back(
         std::make_shared<SyntacticDecision>(*((*it)->decision)));
-    for (it++; it != conjunctions.end();) {
+    for (it++; it != conjunctions.end(); it++) {
       decisions.back()->tag =
           (decisions.back()->tag == SyntacticDecision::Decision::Constant ||
            (*it)->decision->tag == SyntacticDecision::Decision::Constant)
-- 
2.43.0


From 22b54c069c50b1bb8be1147ddbab9ef1d238b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 32/42] fix: use the product of conjunctions in
 DNFTRE::toSignalTA

---
 monaa/intermediate_tre.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 399a6c1..922cdec 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -656,6 +656,7 @@ void DNFTRE::toSignalTA(TimedAutomaton &out) const {
       TimedAutomaton tmpTA, TA2;
       (*it)->toSignalTA(tmpTA);
       intersectionSignalTA(another, tmpTA, TA2);
+      another = std::move(TA2);
     }
     out.states.insert(out.states.end(), another.states.begin(),
                       another.states.end());
-- 
2.43.0


From 86e397f0b43e52e27fdf55674f93f13a99eebcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 33/42] fix: do not add to the transitions while iterating over
 them in renameToEpsilonTransitions

---
 monaa/tre.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 91de151..e53eadf 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -460,6 +460,7 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
     return false;
   };
   for (auto s : out.states) {
+    std::vector<TATransition> epsilonTransitions;
     for (auto &transitionsPair : s->next) {
       const Alphabet c = transitionsPair.first;
       for (auto it = transitionsPair.second.begin();
@@ -467,7 +468,7 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
         TAState *target = it->target;
         if (target) {
           if (haveToChangeToEpsilon(target, c)) {
-            s->next[0].push_back(*it);
+            epsilonTransitions.push_back(*it);
             if (target->isMatch) {
               auto ret = toAccepting.find(target);
               if (ret == toAccepting.end()) {
@@ -485,6 +486,11 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
         }
       }
     }
+    if (!epsilonTransitions.empty()) {
+      auto &transitions = s->next[0];
+      transitions.insert(transitions.end(), epsilonTransitions.begin(),
+                         epsilonTransitions.end());
+    }
   }
 
   for (const auto &pair : toAccepting) {
-- 
2.43.0


From f5d957ddcdf459b4e12a342b4db4e5073e82e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 34/42] fix: measure the duration from the beginning of the
 expression in AtomicTRE::toSignalTA

---
 monaa/intermediate_tre.cc | 73 ++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 48 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 922cdec..71c5fab 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -586,62 +586,39 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
   }
   case op::within: {
     within.first->toSignalTA(out);
-    // add dummy initial state
-    std::shared_ptr<TAState> dummyInitialState = std::make_shared<TAState>();
-    for (auto initialState : out.initialStates) {
-      for (const auto &initTransitionsPair : initialState->next) {
-        const Alphabet c = initTransitionsPair.first;
-        dummyInitialState->next[c].reserve(dummyInitialState->next[c].size() +
-                                           initTransitionsPair.second.size());
-        for (auto &edge : initTransitionsPair.second) {
-          TATransition transition = edge;
-          transition.resetVars.push_back(out.clockSize());
-          dummyInitialState->next[c].emplace_back(std::move(transition));
-        }
+    // The clock for the duration is reset when the expression begins
+    const ClockVariables x = out.clockSize();
+    const Interval &interval = *(within.second);
+    std::vector<Constraint> guard;
+    guard.reserve(2);
+    // upper bound
+    if (!std::isinf(interval.upperBound.first)) {
+      if (interval.upperBound.second) {
+        guard.emplace_back(TimedAutomaton::X(x) <= interval.upperBound.first);
+      } else {
+        guard.emplace_back(TimedAutomaton::X(x) < interval.upperBound.first);
       }
     }
-    // add dummy accepting state
-    std::shared_ptr<TAState> dummyAcceptingState = std::make_shared<TAState>();
-    dummyAcceptingState->isMatch = true;
-    for (auto state : out.states) {
+    // lower bound
+    if (interval.lowerBound.second) {
+      guard.emplace_back(TimedAutomaton::X(x) >= interval.lowerBound.first);
+    } else {
+      guard.emplace_back(TimedAutomaton::X(x) > interval.lowerBound.first);
+    }
+    // The accepting states have no outgoing transitions
+    for (auto &state : out.states) {
       for (auto &edges : state->next) {
         for (auto &edge : edges.second) {
-          auto target = edge.target;
-          if (target && target->isMatch) {
-            TATransition transition = edge;
-            transition.target = dummyAcceptingState.get();
-            transition.guard.reserve(transition.guard.size() + 2);
-            // upper bound
-            if (within.second->upperBound.second) {
-              transition.guard.emplace_back(
-                  TimedAutomaton::X(out.clockSize()) <=
-                  within.second->upperBound.first);
-            } else {
-              transition.guard.emplace_back(TimedAutomaton::X(out.clockSize()) <
-                                            within.second->upperBound.first);
-            }
-            // lower bound
-            if (within.second->lowerBound.second) {
-              transition.guard.emplace_back(
-                  TimedAutomaton::X(out.clockSize()) >=
-                  within.second->lowerBound.first);
-            } else {
-              transition.guard.emplace_back(TimedAutomaton::X(out.clockSize()) >
-                                            within.second->lowerBound.first);
-            }
-            edges.second.emplace_back(std::move(transition));
+          if (edge.target && edge.target->isMatch) {
+            edge.guard.insert(edge.guard.end(), guard.begin(), guard.end());
           }
         }
       }
     }
-    for (auto state : out.states) {
-      state->isMatch = false;
-    }
-    out.initialStates = {dummyInitialState};
-    out.states.reserve(out.stateSize() + 2);
-    out.states.emplace_back(std::move(dummyInitialState));
-    out.states.emplace_back(std::move(dummyAcceptingState));
-    out.maxConstraints.emplace_back(within.second->upperBound.first);
+    out.maxConstraints.emplace_back(
+        std::isinf(interval.upperBound.first)
+            ? interval.lowerBound.first
+            : std::max(interval.lowerBound.first, interval.upperBound.first));
     break;
   }
   }
-- 
2.43.0


From 92c5058a3232a24cd53470a8b3e4945a37627c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:11 +0000
Subject: [PATCH 35/42] fix: repeat the expression of a plus in
 AtomicTRE::toSignalTA

---
 monaa/intermediate_tre.cc | 136 ++++++++++++++++++++++++++++++++------
 1 file changed, 115 insertions(+), 21 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 71c5fab..cb2647b 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -142,6 +142,26 @@ DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
   }
 };
 
+//! @brief Check if an interval consists of one duration
+static bool hasPunctual(const SingletonTRE &singleton) {
+  return std::any_of(singleton.intervals.begin(), singleton.intervals.end(),
+                     [](const std::shared_ptr<Interval> &interval) {
+                       return interval->lowerBound.first ==
+                              interval->upperBound.first;
+                     });
+}
+
+/*!
+  @brief Check if the conjunctions are a singleton whose repetition is also a
+  singleton
+*/
+static bool isRepeatable(
+    const std::list<std::shared_ptr<AtomicTRE>> &conjunctions) {
+  return conjunctions.size() == 1 &&
+         conjunctions.front()->tag == AtomicTRE::op::singleton &&
+         !hasPunctual(*conjunctions.front()->singleton);
+}
+
 void AtomicTRE::toNormalForm() {
   if (decision) {
     // shared with an expression already in the normal form
@@ -287,6 +307,64 @@ void AtomicTRE::toNormalForm() {
     if (decision->isConstant(singleC)) {
       makeSNF(singleC);
     }
+    // The repetition of one value is one value of a longer duration
+    if (tag == op::plus) {
+      std::list<std::list<std::shared_ptr<AtomicTRE>>> result;
+      std::list<std::shared_ptr<SingletonTRE>> singletons;
+      std::list<std::list<std::shared_ptr<AtomicTRE>>> disjunctions =
+          expr->list;
+      // (P+|Q)+ is (P|Q)+
+      for (auto it = disjunctions.begin(); it != disjunctions.end();) {
+        if (it->size() == 1 && it->front()->tag == op::plus) {
+          const auto nested = it->front()->expr->list;
+          disjunctions.insert(disjunctions.end(), nested.begin(), nested.end());
+          it = disjunctions.erase(it);
+        } else {
+          ++it;
+        }
+      }
+      for (auto &conjunctions : disjunctions) {
+        if (std::all_of(conjunctions.begin(), conjunctions.end(),
+                        [&](const std::shared_ptr<AtomicTRE> &tre) {
+                          return tre->tag == op::singleton &&
+                                 tre->singleton->c ==
+                                     conjunctions.front()->singleton->c;
+                        })) {
+          auto meet =
+              std::make_shared<SingletonTRE>(*conjunctions.front()->singleton);
+          for (const auto &tre : conjunctions) {
+            if (tre != conjunctions.front()) {
+              land(meet->intervals, tre->singleton->intervals);
+            }
+          }
+          conjunctions = {std::make_shared<AtomicTRE>(meet)};
+        }
+        if (!isRepeatable(conjunctions)) {
+          result.push_back(conjunctions);
+          continue;
+        }
+        const auto &singleton = conjunctions.front()->singleton;
+        auto it = std::find_if(singletons.begin(), singletons.end(),
+                               [&](const std::shared_ptr<SingletonTRE> &s) {
+                                 return s->c == singleton->c;
+                               });
+        if (it == singletons.end()) {
+          singletons.push_back(std::make_shared<SingletonTRE>(*singleton));
+        } else {
+          (*it)->intervals.insert((*it)->intervals.end(),
+                                  singleton->intervals.begin(),
+                                  singleton->intervals.end());
+        }
+      }
+      for (const auto &singleton : singletons) {
+        ::plus(singleton->intervals);
+        result.push_back({std::make_shared<AtomicTRE>(singleton)});
+      }
+      auto merged = std::make_shared<DNFTRE>();
+      merged->list = std::move(result);
+      merged->decision = expr->decision;
+      expr = merged;
+    }
     break;
   }
   case op::within: {
@@ -435,7 +513,12 @@ bool AtomicTRE::makeSNF(const char singleC) {
     if (!expr->makeSNF(singleC)) {
       return false;
     }
-    auto tmpTRE = expr->list.front().front()->singleton;
+    auto tmpTRE = std::make_shared<SingletonTRE>(
+        *(expr->list.front().front()->singleton));
+    // the repetition of a fixed duration is not a finite union of intervals
+    if (hasPunctual(*tmpTRE)) {
+      return false;
+    }
     expr.reset();
     tag = op::singleton;
     new (&singleton) std::shared_ptr<SingletonTRE>(std::move(tmpTRE));
@@ -462,19 +545,12 @@ bool AtomicTRE::makeSNF(const char singleC) {
 bool DNFTRE::makeSNF(const char singleC) {
   auto tmpTre = std::make_shared<SingletonTRE>(
       singleC, std::vector<std::shared_ptr<Interval>>{});
-  for (auto it = list.begin(); it != list.end();) {
-    bool remainConjunctions = true;
-    for (auto &expr : *it) {
-      if (!(remainConjunctions =
-                remainConjunctions && expr->makeSNF(singleC))) {
-        break;
+  for (const auto &conjunctions : list) {
+    for (const auto &expr : conjunctions) {
+      if (!expr->makeSNF(singleC)) {
+        return false;
       }
     }
-    if (remainConjunctions) {
-      it++;
-    } else {
-      it = list.erase(it);
-    }
   }
   // make SNF
   for (const auto &conjunctions : list) {
@@ -555,21 +631,39 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     break;
   }
   case op::plus: {
-    expr->toSignalTA(out);
+    // the initial states that do not have to be repeated
+    std::vector<const TAState *> repeated;
+    for (const auto &conjunctions : expr->list) {
+      const auto size = out.initialStates.size();
+      DNFTRE(conjunctions).toSignalTA(out);
+      if (isRepeatable(conjunctions)) {
+        for (auto i = size; i < out.initialStates.size(); i++) {
+          repeated.push_back(out.initialStates[i].get());
+        }
+      }
+    }
+    std::vector<ClockVariables> clocks(out.clockSize());
+    std::iota(clocks.begin(), clocks.end(), 0);
     for (auto &s : out.states) {
       for (auto &edges : s->next) {
-        for (auto &edge : edges.second) {
-          TAState *target = edge.target;
-          if (target && target->isMatch) {
-            edges.second.reserve(edges.second.size() +
-                                 out.initialStates.size());
-            for (auto initState : out.initialStates) {
+        std::vector<TATransition> newTransitions;
+        for (const auto &edge : edges.second) {
+          if (edge.target && edge.target->isMatch) {
+            for (const auto &initState : out.initialStates) {
+              if (initState == s &&
+                  std::find(repeated.begin(), repeated.end(), s.get()) !=
+                      repeated.end()) {
+                continue;
+              }
               TATransition transition = edge;
-              edge.target = target;
-              edges.second.emplace_back(std::move(transition));
+              transition.target = initState.get();
+              transition.resetVars = clocks;
+              newTransitions.emplace_back(std::move(transition));
             }
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     break;
-- 
2.43.0


From 91ac8f46f50da03c58b178394db31774e654cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:11 +0000
Subject: [PATCH 36/42] fix: drop the redundant intervals before repeating a
 set of intervals

---
 libmonaa/interval.hh | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index 44007e7..e093dff 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -5,7 +5,10 @@
   @brief The implementation of the class Interval and related functions
  */
 
+#include <algorithm>
 #include <cmath>
+#include <memory>
+#include <vector>
 
 #include "zone.hh"
 
@@ -86,6 +89,16 @@ struct Interval {
         Bounds{std::numeric_limits<double>::infinity(), false}));
   }
 
+  //! @brief Check if the interval includes the other interval
+  inline bool include(const Interval &other) const {
+    return (lowerBound.first < other.lowerBound.first ||
+            (lowerBound.first == other.lowerBound.first &&
+             (lowerBound.second || !other.lowerBound.second))) &&
+           (upperBound.first > other.upperBound.first ||
+            (upperBound.first == other.upperBound.first &&
+             (upperBound.second || !other.upperBound.second)));
+  }
+
   inline bool contain(double value) const {
     return (lowerBound.second ? lowerBound.first <= value
                               : lowerBound.first < value) and
@@ -222,6 +235,24 @@ inline void plus(std::vector<std::shared_ptr<Interval>> &intervals) {
       intervals[i]->plus(plusIntervals[i]);
     }
   }
+  // The intervals in the repetition of another one are redundant
+  for (std::size_t i = 0; i < intervals.size();) {
+    bool redundant = false;
+    for (std::size_t j = 0; j < intervals.size() && !redundant; j++) {
+      redundant = i != j && std::any_of(plusIntervals[j].begin(),
+                                        plusIntervals[j].end(),
+                                        [&](const auto &interval) {
+                                          return interval->include(
+                                              *intervals[i]);
+                                        });
+    }
+    if (redundant) {
+      intervals.erase(intervals.begin() + i);
+      plusIntervals.erase(plusIntervals.begin() + i);
+    } else {
+      i++;
+    }
+  }
   if (plusIntervals.size() == 1) {
     intervals = std::move(plusIntervals[0]);
     return;
-- 
2.43.0


From 487f6ee745e3905969f1d45a648c7eb280533c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:11 +0000
Subject: [PATCH 37/42] fix: handle the empty word under plus and within in the
 normal form of TREs

---
 monaa/intermediate_tre.cc | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index cb2647b..148411d 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -72,7 +72,23 @@ DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
   }
   case TRE::op::plus: {
     std::shared_ptr<DNFTRE> subfml = std::make_shared<DNFTRE>(tre->regExpr);
-    list = {{std::make_shared<AtomicTRE>(subfml)}};
+    // (P|@)+ is P+|@
+    const auto isEpsilon =
+        [](const std::list<std::shared_ptr<AtomicTRE>> &conjunctions) {
+          return std::all_of(conjunctions.begin(), conjunctions.end(),
+                             [](const std::shared_ptr<AtomicTRE> &expr) {
+                               return expr->tag == AtomicTRE::op::epsilon;
+                             });
+        };
+    const bool acceptEpsilon =
+        std::any_of(subfml->list.begin(), subfml->list.end(), isEpsilon);
+    subfml->list.remove_if(isEpsilon);
+    if (!subfml->list.empty()) {
+      list = {{std::make_shared<AtomicTRE>(subfml)}};
+    }
+    if (acceptEpsilon) {
+      list.push_back({std::make_shared<AtomicTRE>()});
+    }
     break;
   }
   case TRE::op::concat: {
@@ -171,7 +187,8 @@ void AtomicTRE::toNormalForm() {
   case op::singleton: {
     decision = std::make_shared<SyntacticDecision>(
         SyntacticDecision::Decision::Constant,
-        std::vector<Alphabet>{singleton->c});
+        singleton->intervals.empty() ? std::vector<Alphabet>{}
+                                     : std::vector<Alphabet>{singleton->c});
     break;
   }
   case op::epsilon: {
@@ -383,8 +400,18 @@ void AtomicTRE::toNormalForm() {
       break;
     }
     case op::epsilon: {
+      const bool acceptEpsilon = within.second->contain(0);
       within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
-      tag = op::epsilon;
+      if (acceptEpsilon) {
+        tag = op::epsilon;
+      } else {
+        // nothing satisfies the expression
+        tag = op::singleton;
+        new (&singleton) std::shared_ptr<SingletonTRE>(
+            std::make_shared<SingletonTRE>(
+                0, std::vector<std::shared_ptr<Interval>>{}));
+        decision->chars.clear();
+      }
       break;
     }
     case op::plus: {
-- 
2.43.0


From 34a83069ee26e870189dc413ca741537febd7463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:11 +0000
Subject: [PATCH 38/42] fix: do not distribute a concatenation over a
 conjunction

---
 monaa/intermediate_tre.cc | 44 ++++++++++++++++++++++++++++++---------
 monaa/intermediate_tre.hh | 14 ++++++++++---
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 148411d..3659533 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -60,6 +60,9 @@ void SyntacticDecision::concat(std::shared_ptr<SyntacticDecision> in) {
   chars = std::move(ansChars);
 }
 
+AtomicTRE::AtomicTRE(const std::list<std::shared_ptr<AtomicTRE>> &conjunctions)
+    : tag(op::conjunction), expr(std::make_shared<DNFTRE>(conjunctions)) {}
+
 DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
   switch (tre->tag) {
   case TRE::op::atom: {
@@ -100,15 +103,14 @@ DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
 
     for (const auto &conjunctionsLeft : subfmlLeft->list) {
       for (const auto &conjunctionsRight : subfmlRight->list) {
-        std::list<std::shared_ptr<AtomicTRE>> conjunctions;
-        for (const std::shared_ptr<AtomicTRE> &left : conjunctionsLeft) {
-          for (const std::shared_ptr<AtomicTRE> &right : conjunctionsRight) {
-            conjunctions.push_back(std::make_shared<AtomicTRE>(left, right));
-          }
-        }
-        if (!conjunctions.empty()) {
-          list.emplace_back(std::move(conjunctions));
-        }
+        const auto toAtomic =
+            [](const std::list<std::shared_ptr<AtomicTRE>> &conjunctions) {
+              return conjunctions.size() == 1
+                         ? conjunctions.front()
+                         : std::make_shared<AtomicTRE>(conjunctions);
+            };
+        list.push_back({std::make_shared<AtomicTRE>(
+            toAtomic(conjunctionsLeft), toAtomic(conjunctionsRight))});
       }
     }
 
@@ -237,7 +239,8 @@ void AtomicTRE::toNormalForm() {
         new (&list) std::list<std::shared_ptr<AtomicTRE>>(origExpr->list);
         break;
       }
-      case op::plus: {
+      case op::plus:
+      case op::conjunction: {
         new (&expr) std::shared_ptr<DNFTRE>(origExpr->expr);
         break;
       }
@@ -275,6 +278,12 @@ void AtomicTRE::toNormalForm() {
     }
     break;
   }
+  case op::conjunction: {
+    expr->toNormalForm();
+    decision = std::make_shared<SyntacticDecision>(expr->decision->tag,
+                                                   expr->decision->chars);
+    break;
+  }
   case op::plus: {
     expr->toNormalForm();
     decision = std::make_shared<SyntacticDecision>(
@@ -431,6 +440,7 @@ void AtomicTRE::toNormalForm() {
       }
     }
     case op::concat:
+    case op::conjunction:
     case op::within: {
       break;
     }
@@ -552,6 +562,16 @@ bool AtomicTRE::makeSNF(const char singleC) {
     plus(singleton->intervals);
     return true;
   }
+  case op::conjunction: {
+    if (!expr->makeSNF(singleC)) {
+      return false;
+    }
+    auto tmpTRE = expr->list.front().front()->singleton;
+    expr.reset();
+    tag = op::singleton;
+    new (&singleton) std::shared_ptr<SingletonTRE>(std::move(tmpTRE));
+    return true;
+  }
   case op::within: {
     if (!within.first->makeSNF(singleC)) {
       return false;
@@ -657,6 +677,10 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     out.maxConstraints.clear();
     break;
   }
+  case op::conjunction: {
+    expr->toSignalTA(out);
+    break;
+  }
   case op::plus: {
     // the initial states that do not have to be repeated
     std::vector<const TAState *> repeated;
diff --git a/monaa/intermediate_tre.hh b/monaa/intermediate_tre.hh
index 5b6e041..4230536 100644
--- a/monaa/intermediate_tre.hh
+++ b/monaa/intermediate_tre.hh
@@ -90,7 +90,7 @@ public:
 class AtomicTRE {
 public:
   //! @brief The top-level operation
-  enum class op { singleton, epsilon, concat, plus, within };
+  enum class op { singleton, epsilon, concat, plus, within, conjunction };
 
   //! @brief The constructor for \f$\varepsilon\f$
   AtomicTRE() : tag(op::epsilon) {}
@@ -150,8 +150,9 @@ public:
         list = origExpr->list;
         break;
       }
-      case op::plus: {
-        expr = origExpr->expr;
+      case op::plus:
+      case op::conjunction: {
+        new (&expr) std::shared_ptr<DNFTRE>(origExpr->expr);
         break;
       }
       case op::within: {
@@ -163,6 +164,12 @@ public:
   }
   //! @brief The constructor for the plus operator
   AtomicTRE(const std::shared_ptr<DNFTRE> expr) : tag(op::plus), expr(expr) {}
+  /*!
+    @brief The constructor for a conjunction in a concatenation
+
+    @note The concatenation does not distribute over the conjunction.
+   */
+  AtomicTRE(const std::list<std::shared_ptr<AtomicTRE>> &conjunctions);
   //! @brief The constructor for the witin operator
   AtomicTRE(const std::shared_ptr<AtomicTRE> atomic,
             const std::shared_ptr<Interval> interval)
@@ -187,6 +194,7 @@ public:
       singleton.reset();
       break;
     case op::plus:
+    case op::conjunction:
       expr.reset();
       break;
     case op::within:
-- 
2.43.0


From 7f2bc880532997c9ce35d7e1b5f5a2663b6e9bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:11 +0000
Subject: [PATCH 39/42] fix: construct the members of the union in AtomicTRE

---
 monaa/intermediate_tre.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/monaa/intermediate_tre.hh b/monaa/intermediate_tre.hh
index 4230536..9f3858b 100644
--- a/monaa/intermediate_tre.hh
+++ b/monaa/intermediate_tre.hh
@@ -140,14 +140,14 @@ public:
       list.~list();
       switch (tag) {
       case op::singleton: {
-        singleton = origExpr->singleton;
+        new (&singleton) std::shared_ptr<SingletonTRE>(origExpr->singleton);
         break;
       }
       case op::epsilon: {
         break;
       }
       case op::concat: {
-        list = origExpr->list;
+        new (&list) std::list<std::shared_ptr<AtomicTRE>>(origExpr->list);
         break;
       }
       case op::plus:
@@ -156,7 +156,9 @@ public:
         break;
       }
       case op::within: {
-        within = origExpr->within;
+        new (&within)
+            std::pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>(
+                origExpr->within);
         break;
       }
       }
-- 
2.43.0


From 69bc46211282611e036860301373b19639215d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:40 +0000
Subject: [PATCH 40/42] fix: repeat the fixed durations of a value apart from
 its other durations

---
 libmonaa/interval.hh      |  7 ++++++-
 monaa/intermediate_tre.cc | 28 +++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index e093dff..55fb91c 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -72,7 +72,7 @@ struct Interval {
    */
   inline void plus(std::vector<std::shared_ptr<Interval>> &plusIntervals) {
     plusIntervals.clear();
-    if (std::isinf(upperBound.first)) {
+    if (std::isinf(upperBound.first) || upperBound.first == 0) {
       plusIntervals = {std::make_shared<Interval>(lowerBound, upperBound)};
       return;
     }
@@ -89,6 +89,11 @@ struct Interval {
         Bounds{std::numeric_limits<double>::infinity(), false}));
   }
 
+  //! @brief Check if the interval consists of one positive duration
+  inline bool isPunctual() const {
+    return lowerBound.first > 0 && lowerBound.first == upperBound.first;
+  }
+
   //! @brief Check if the interval includes the other interval
   inline bool include(const Interval &other) const {
     return (lowerBound.first < other.lowerBound.first ||
diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 3659533..c2846fa 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -160,12 +160,11 @@ DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
   }
 };
 
-//! @brief Check if an interval consists of one duration
+//! @brief Check if an interval consists of one positive duration
 static bool hasPunctual(const SingletonTRE &singleton) {
   return std::any_of(singleton.intervals.begin(), singleton.intervals.end(),
                      [](const std::shared_ptr<Interval> &interval) {
-                       return interval->lowerBound.first ==
-                              interval->upperBound.first;
+                       return interval->isPunctual();
                      });
 }
 
@@ -365,11 +364,30 @@ void AtomicTRE::toNormalForm() {
           }
           conjunctions = {std::make_shared<AtomicTRE>(meet)};
         }
-        if (!isRepeatable(conjunctions)) {
+        if (conjunctions.size() > 1 ||
+            conjunctions.front()->tag != op::singleton) {
           result.push_back(conjunctions);
           continue;
         }
-        const auto &singleton = conjunctions.front()->singleton;
+        // The fixed durations are repeated apart from the others
+        auto singleton =
+            std::make_shared<SingletonTRE>(*conjunctions.front()->singleton);
+        auto &intervals = singleton->intervals;
+        const auto punctual = std::partition(
+            intervals.begin(), intervals.end(),
+            [](const std::shared_ptr<Interval> &interval) {
+              return !interval->isPunctual();
+            });
+        for (auto it = punctual; it != intervals.end(); ++it) {
+          result.push_back(
+              {std::make_shared<AtomicTRE>(std::make_shared<SingletonTRE>(
+                  singleton->c,
+                  std::vector<std::shared_ptr<Interval>>{*it}))});
+        }
+        if (intervals.begin() == punctual && punctual != intervals.end()) {
+          continue;
+        }
+        intervals.erase(punctual, intervals.end());
         auto it = std::find_if(singletons.begin(), singletons.end(),
                                [&](const std::shared_ptr<SingletonTRE> &s) {
                                  return s->c == singleton->c;
-- 
2.43.0


From 6107c4c3c331940766981202d9311bcdcd7ed7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:55 +0000
Subject: [PATCH 41/42] fix: know the length of the log after discarding beyond
 its end

---
 libmonaa/lazy_deque.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmonaa/lazy_deque.hh b/libmonaa/lazy_deque.hh
index 6606572..0797f07 100644
--- a/libmonaa/lazy_deque.hh
+++ b/libmonaa/lazy_deque.hh
@@ -67,7 +67,11 @@ public:
     this->erase(this->begin(), this->begin() + eraseSize);
     for (int i = 0; i < readTimes; i++) {
       std::pair<Alphabet, double> elem;
-      getElem(file, elem);
+      if (getElem(file, elem) == EOF) {
+        // The log ends before the new front
+        N = std::min(N, newFront - (readTimes - i));
+        break;
+      }
     }
   }
   bool fetch(std::size_t n) noexcept {
-- 
2.43.0


From ababd75d0a7ddf391e81d929b7f4331fcb2b5f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:20 +0000
Subject: [PATCH 42/42] fix: let unobservable moves coincide with those of the
 other operand in the signal product

---
 libmonaa/intersection.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/libmonaa/intersection.cc b/libmonaa/intersection.cc
index 6fea412..42d94c8 100644
--- a/libmonaa/intersection.cc
+++ b/libmonaa/intersection.cc
@@ -259,6 +259,19 @@ void intersectionSignalTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
         }
         addProductTransition(s1.get(), s2.get(), nextS1, s2.get(), e1,
                              emptyTransition, 0);
+        // s2 may move at the same time while the value does not change
+        for (const auto &transitions : s2->next) {
+          if (transitions.first == 0 ||
+              s1->next.find(transitions.first) == s1->next.end()) {
+            continue;
+          }
+          for (const auto &e2 : transitions.second) {
+            if (e2.target) {
+              addProductTransition(s1.get(), s2.get(), nextS1, e2.target, e1,
+                                   e2, 0);
+            }
+          }
+        }
       }
       for (const auto &e2 : epsilonTransitions(*s2)) {
         auto nextS2 = e2.target;
@@ -267,6 +280,19 @@ void intersectionSignalTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
         }
         addProductTransition(s1.get(), s2.get(), s1.get(), nextS2,
                              emptyTransition, e2, 0);
+        // s1 may move at the same time while the value does not change
+        for (const auto &transitions : s1->next) {
+          if (transitions.first == 0 ||
+              s2->next.find(transitions.first) == s2->next.end()) {
+            continue;
+          }
+          for (const auto &e1 : transitions.second) {
+            if (e1.target) {
+              addProductTransition(s1.get(), s2.get(), e1.target, nextS2, e1,
+                                   e2, 0);
+            }
+          }
+        }
       }
 
       // Observable transitions
-- 
2.43.0

