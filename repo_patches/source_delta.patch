From 27263476c31758f5b44e8cd39d04ab84427409a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 01/32] fix: do not take an incomplete record as an event, nor
 wait for the next record

A record without its timestamp (e.g., the log is cut in the middle of a record)
was taken as an event at time 0. The trailing newline in the scanf format
delayed each event until the first character of the next one.
---
 libmonaa/lazy_deque.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmonaa/lazy_deque.hh b/libmonaa/lazy_deque.hh
index 6606572..67daab1 100644
--- a/libmonaa/lazy_deque.hh
+++ b/libmonaa/lazy_deque.hh
@@ -10,7 +10,10 @@
 #include "common_types.hh"
 
 static inline int getOne(FILE *file, std::pair<Alphabet, double> &p) {
-  return fscanf(file, " %c %lf\n", &p.first, &p.second);
+  // Only a complete record is an event. We must not consume the spaces after the
+  // record because it makes us wait for the next record.
+  const int n = fscanf(file, " %c %lf", &p.first, &p.second);
+  return n == 2 ? n : EOF;
 }
 
 static inline int getOneBinary(FILE *file, std::pair<Alphabet, double> &p) {
-- 
2.43.0


From 110a44691c4c7bfac21089663c0070d736edc341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 02/32] fix: report a failure in reading the timed word by the
 exit status

A read error, or a malformed record, in the middle of the log was silently taken
as the end of the log.
---
 libmonaa/lazy_deque.hh | 3 ++-
 monaa/main.cc          | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/libmonaa/lazy_deque.hh b/libmonaa/lazy_deque.hh
index 67daab1..90e59f8 100644
--- a/libmonaa/lazy_deque.hh
+++ b/libmonaa/lazy_deque.hh
@@ -13,7 +13,8 @@ static inline int getOne(FILE *file, std::pair<Alphabet, double> &p) {
   // Only a complete record is an event. We must not consume the spaces after the
   // record because it makes us wait for the next record.
   const int n = fscanf(file, " %c %lf", &p.first, &p.second);
-  return n == 2 ? n : EOF;
+  // If the reading failed in the timestamp, we may not have all of its digits.
+  return n == 2 && !ferror(file) ? n : EOF;
 }
 
 static inline int getOneBinary(FILE *file, std::pair<Alphabet, double> &p) {
diff --git a/monaa/main.cc b/monaa/main.cc
index e4b8286..91ce84f 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -139,6 +139,11 @@ int main(int argc, char *argv[]) {
   } else {
     monaaDollar(w, TA, ans);
   }
+  if (ferror(file)) {
+    die("Failed to read the timed word", 1);
+  } else if (!feof(file)) {
+    die("Malformed timed word", 1);
+  }
 
   return 0;
 }
-- 
2.43.0


From 1db04978e4a4074482b231a898d54374b9ee7de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 03/32] fix: report a failure in writing the result by the exit
 status

If the standard output is, e.g., on a full disk, monaa dropped the result and
exited with status 0.
---
 monaa/main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monaa/main.cc b/monaa/main.cc
index 91ce84f..a724b61 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -144,6 +144,9 @@ int main(int argc, char *argv[]) {
   } else if (!feof(file)) {
     die("Malformed timed word", 1);
   }
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    die("Failed to write the result", 1);
+  }
 
   return 0;
 }
-- 
2.43.0


From c8be9743c25159feb442ff4db934f7e5b785554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 04/32] fix: report a failure in writing the timed automaton by
 the exit status of tre2ta

tre2ta exited with status 0 even if it could not open or write its output.
---
 monaa/tre2ta.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monaa/tre2ta.cc b/monaa/tre2ta.cc
index e5c21a3..c12a494 100644
--- a/monaa/tre2ta.cc
+++ b/monaa/tre2ta.cc
@@ -86,9 +86,16 @@ int main(int argc, char *argv[]) {
 
   if (outputFilename == "stdout") {
     std::cout << TA << std::endl;
+    if (!std::cout) {
+      die("Failed to write the timed automaton", 1);
+    }
   } else {
     std::ofstream outputStream(outputFilename);
     outputStream << TA << std::endl;
+    outputStream.close();
+    if (!outputStream) {
+      die("Failed to write the timed automaton", 1);
+    }
   }
 
   return 0;
-- 
2.43.0


From 68eab51145241bc16d565c96fef846cb3292499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 05/32] fix: exit with an error message instead of aborting on
 invalid options or files

An unknown option, and a missing, broken or unreadable timed automaton, ended
monaa and tre2ta by SIGABRT although the manual documents exit status 1 and 2.
---
 monaa/main.cc   | 14 ++++++++++++--
 monaa/tre2ta.cc |  5 ++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/monaa/main.cc b/monaa/main.cc
index a724b61..ecb8ab5 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -11,7 +11,7 @@ using namespace boost::program_options;
 #define MONAA_VERSION "HEAD"
 #endif
 
-int main(int argc, char *argv[]) {
+int main(int argc, char *argv[]) try {
   const auto programName = "monaa";
   const auto errorHeader = "monaa: ";
 
@@ -118,8 +118,15 @@ int main(int argc, char *argv[]) {
     }
     // parse TA
     std::ifstream taStream(timedAutomatonFileName);
+    if (!taStream) {
+      die("Failed to open the timed automaton file", 1);
+    }
     BoostTimedAutomaton BoostTA;
-    parseBoostTA(taStream, BoostTA);
+    try {
+      parseBoostTA(taStream, BoostTA);
+    } catch (const boost::graph_exception &e) {
+      die("Failed to parse TA", 2);
+    }
     convBoostTA(BoostTA, TA);
   }
 
@@ -149,4 +156,7 @@ int main(int argc, char *argv[]) {
   }
 
   return 0;
+} catch (const std::exception &e) {
+  std::cerr << "monaa: " << e.what() << std::endl;
+  return 1;
 }
diff --git a/monaa/tre2ta.cc b/monaa/tre2ta.cc
index c12a494..d06de63 100644
--- a/monaa/tre2ta.cc
+++ b/monaa/tre2ta.cc
@@ -10,7 +10,7 @@ using namespace boost::program_options;
 #define MONAA_VERSION "HEAD"
 #endif
 
-int main(int argc, char *argv[]) {
+int main(int argc, char *argv[]) try {
   const auto programName = "tre2ta";
   const auto errorHeader = "tre2ta: ";
 
@@ -99,4 +99,7 @@ int main(int argc, char *argv[]) {
   }
 
   return 0;
+} catch (const std::exception &e) {
+  std::cerr << "tre2ta: " << e.what() << std::endl;
+  return 1;
 }
-- 
2.43.0


From de42d77a948a4c0f421fcd0bfacc94779778519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 06/32] fix: do not read out of the skip table for labels
 greater than 126

The label of an event in the log is used as the index of the table of Sunday's
skip value, which is out of range for char 127 and negative chars.
---
 libmonaa/sunday_skip_value.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmonaa/sunday_skip_value.hh b/libmonaa/sunday_skip_value.hh
index baef837..769ce12 100644
--- a/libmonaa/sunday_skip_value.hh
+++ b/libmonaa/sunday_skip_value.hh
@@ -71,7 +71,10 @@ public:
     endChars = charSet[m - 1];
   }
   unsigned int at(std::size_t n) const { return delta.at(n); }
-  unsigned int operator[](std::size_t n) const { return delta[n]; }
+  //! @note The labels out of the table, e.g., negative ones, are not in the pattern
+  unsigned int operator[](std::size_t n) const {
+    return n < delta.size() ? delta[n] : m + 1;
+  }
   //! @brief Minimum length of the recognized language
   int getM() const { return m; }
   void getEndChars(std::unordered_set<char> &endCharsHolder) const {
-- 
2.43.0


From 1ea83a704d5a6debd7b0cc8b62bb6d54bba59f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 07/32] fix: the lower bound of t' in monaaNotNecessaryDollar
 is a cell of a DBM

Its sign was wrong, which made the zone wrong when the match ends at an event.
---
 libmonaa/monaa.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index beb1c73..8a2f6de 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -1494,7 +1494,7 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
               //            std::move(lowerBeginConstraint));
 
               const Bounds upperEndConstraint = {t, true};
-              const Bounds lowerEndConstraint = {t, true};
+              const Bounds lowerEndConstraint = {-t, true};
 
               // value(2, 1) <= value(2, 0) + value(0, 1)
               const Bounds upperDeltaConstraint =
-- 
2.43.0


From 13221dc0f75d17f79a6b06d66252223d661b5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 08/32] fix: do not use binary_search over the initial states,
 which are not sorted

Some of the initial states were dropped from the automaton used to compute the
skip values, depending on the addresses of the states.
---
 libmonaa/monaa.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 8a2f6de..cfce576 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -709,7 +709,8 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv.at(s.get()));
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv.at(s.get()));
     }
   }
@@ -1177,7 +1178,8 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv[s.get()]);
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv[s.get()]);
     }
   }
-- 
2.43.0


From b72bba68c7cc3b137f67f1bde75e2e368e0f0188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 09/32] fix: do not remove live states on loops from the zone
 automaton

The search marked a state as dead if the path from it to an accepting state was
found only after the state was visited through a loop. Then, Sunday's skip value
was too large and some matches were missed.
---
 libmonaa/zone_automaton.hh | 49 ++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/libmonaa/zone_automaton.hh b/libmonaa/zone_automaton.hh
index 8bf92fe..9e66826 100644
--- a/libmonaa/zone_automaton.hh
+++ b/libmonaa/zone_automaton.hh
@@ -57,40 +57,33 @@ struct ZoneAutomaton : public Automaton<ZAState> {
 
   //! @brief remove states unreachable to any accepting states
   void removeDeadStates() {
-    // Find states unreachable to any accepting states
-    using Config = std::pair<std::shared_ptr<ZAState>,
-                             std::unordered_set<std::shared_ptr<ZAState>>>;
-    std::stack<Config> States;
-    for (auto state : initialStates) {
-      States.push(Config(state, {}));
-    }
-    std::unordered_set<std::shared_ptr<ZAState>> reachable;
-    while (!States.empty()) {
-      Config conf = States.top();
-      States.pop();
-      if (conf.first->isMatch) {
-        reachable.insert(conf.first);
-        reachable.insert(conf.second.begin(), conf.second.end());
+    // Find the states reachable to an accepting state by the backward search
+    std::unordered_map<std::shared_ptr<ZAState>,
+                       std::vector<std::shared_ptr<ZAState>>>
+        predecessors;
+    std::stack<std::shared_ptr<ZAState>> waiting;
+    for (const auto &state : states) {
+      if (state->isMatch) {
+        waiting.push(state);
       }
-      for (const auto &edges : conf.first->next) {
+      for (const auto &edges : state->next) {
         for (const auto &edge : edges) {
-          if (conf.second.find(conf.first) != conf.second.end()) {
-            // We are in a loop
-            continue;
-          }
-          if (reachable.find(edge.lock()) != reachable.end()) {
-            // The next state is reachable
-            reachable.insert(conf.first);
-            reachable.insert(conf.second.begin(), conf.second.end());
-          } else {
-            // The next state may be unreachable
-            auto parents = conf.second;
-            parents.insert(conf.first);
-            States.push(Config(edge.lock(), parents));
+          if (auto target = edge.lock()) {
+            predecessors[target].push_back(state);
           }
         }
       }
     }
+    std::unordered_set<std::shared_ptr<ZAState>> reachable;
+    while (!waiting.empty()) {
+      const auto state = waiting.top();
+      waiting.pop();
+      if (reachable.insert(state).second) {
+        for (const auto &predecessor : predecessors[state]) {
+          waiting.push(predecessor);
+        }
+      }
+    }
 
     // Remove unreachable states
     for (auto it = states.begin(); it != states.end();) {
-- 
2.43.0


From f50f64d460503fd49f8f918a454f4c771d4b7157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 10/32] fix: make the zone automaton finite by extrapolating
 also the lower bounds

The lower bounds of the clocks, and of their differences, could decrease forever
and the construction did not terminate, e.g., for ((A%(1,20))+%(2,10))$.
---
 libmonaa/ta2za.cc |  7 +++++--
 libmonaa/zone.hh  | 11 +++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/libmonaa/ta2za.cc b/libmonaa/ta2za.cc
index 6e5a17f..2cebeb2 100644
--- a/libmonaa/ta2za.cc
+++ b/libmonaa/ta2za.cc
@@ -101,12 +101,15 @@ void ta2za(const TimedAutomaton &TA, ZoneAutomaton &ZA, Zone initialZone) {
               nextZone.reset(x);
             }
             nextZone.abstractize();
+            nextZone.extrapolateLowerBounds();
             nextZone.canonize();
             // nextZone state is new
             const auto targetStateInZA = std::find_if(
                 ZA.states.begin(), ZA.states.end(),
-                [&nextState, &nextZone](std::shared_ptr<ZAState> zaState) {
-                  return *zaState == std::make_pair(nextState, nextZone);
+                [&nextState, &nextZone](const std::shared_ptr<ZAState> &zaState) {
+                  // Compare the states first since copying a zone is expensive
+                  return zaState->taState == nextState &&
+                         *zaState == std::make_pair(nextState, nextZone);
                 });
 
             // targetStateInZA is already added
diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index e7d80e9..94851bb 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -163,6 +163,17 @@ struct Zone {
     }
   }
 
+  /*!
+    @brief relax the lower bounds smaller than -M so that there are only finitely
+    many zones
+   */
+  void extrapolateLowerBounds() {
+    const Bounds lowest = Bounds(-M.first, false);
+    for (auto it = value.data(); it < value.data() + value.size(); it++) {
+      *it = std::max(*it, lowest);
+    }
+  }
+
   /*!
     @brief make the zone unsatisfiable
    */
-- 
2.43.0


From 0b424b29cdf7ed296c91a65c057270f8ffef011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 11/32] fix: do not cast the infinite upper bound of %(>n) and
 %(>=n) to an integer

The translated guard was unsatisfiable, and a pattern such as (A(B)%(>1))$ was
rejected as empty.
---
 monaa/tre.cc | 61 +++++++++++++++++++---------------------------------
 1 file changed, 22 insertions(+), 39 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 5614a20..abada22 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -293,6 +293,21 @@ void TRE::toEventTA(TimedAutomaton &out) const {
   case op::within: {
     regExprWithin.first->toEventTA(out);
 
+    // make the constraint on the duration
+    const Bounds &lowerBound = regExprWithin.second->lowerBound;
+    const Bounds &upperBound = regExprWithin.second->upperBound;
+    std::vector<Constraint> durationGuard;
+    TimedAutomaton::X durationClock(out.clockSize());
+    // there is no upper bound for, e.g., %(>1)
+    if (!std::isinf(upperBound.first)) {
+      durationGuard.push_back(upperBound.second
+                                  ? durationClock <= upperBound.first
+                                  : durationClock < upperBound.first);
+    }
+    durationGuard.push_back(lowerBound.second
+                                ? durationClock >= lowerBound.first
+                                : durationClock > lowerBound.first);
+
     // add dummy accepting state
     bool isDummyUsed = false;
     std::shared_ptr<TAState> dummyAcceptingState =
@@ -315,49 +330,16 @@ void TRE::toEventTA(TimedAutomaton &out) const {
             // we use dummyAcceptingState if there is a transition from the
             // accepting state
             if (target->next.empty()) {
-              edge.guard.reserve(edge.guard.size() + 2);
-              // upper bound
-              if (regExprWithin.second->upperBound.second) {
-                edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) <=
-                                        regExprWithin.second->upperBound.first);
-              } else {
-                edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) <
-                                        regExprWithin.second->upperBound.first);
-              }
-              // lower bound
-              if (regExprWithin.second->lowerBound.second) {
-                edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) >=
-                                        regExprWithin.second->lowerBound.first);
-              } else {
-                edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) >
-                                        regExprWithin.second->lowerBound.first);
-              }
+              edge.guard.insert(edge.guard.end(), durationGuard.begin(),
+                                durationGuard.end());
             } else {
               isDummyUsed = true;
               TATransition transition = edge;
               transition.target = dummyAcceptingState.get();
 
-              transition.guard.reserve(transition.guard.size() + 2);
-              // upper bound
-              if (regExprWithin.second->upperBound.second) {
-                transition.guard.emplace_back(
-                    TimedAutomaton::X(out.clockSize()) <=
-                    regExprWithin.second->upperBound.first);
-              } else {
-                transition.guard.emplace_back(
-                    TimedAutomaton::X(out.clockSize()) <
-                    regExprWithin.second->upperBound.first);
-              }
-              // lower bound
-              if (regExprWithin.second->lowerBound.second) {
-                transition.guard.emplace_back(
-                    TimedAutomaton::X(out.clockSize()) >=
-                    regExprWithin.second->lowerBound.first);
-              } else {
-                transition.guard.emplace_back(
-                    TimedAutomaton::X(out.clockSize()) >
-                    regExprWithin.second->lowerBound.first);
-              }
+              transition.guard.insert(transition.guard.end(),
+                                      durationGuard.begin(),
+                                      durationGuard.end());
               edges.second.emplace_back(std::move(transition));
             }
           }
@@ -372,7 +354,8 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     if (isDummyUsed) {
       out.states.emplace_back(std::move(dummyAcceptingState));
     }
-    out.maxConstraints.emplace_back(regExprWithin.second->upperBound.first);
+    out.maxConstraints.emplace_back(
+        std::isinf(upperBound.first) ? lowerBound.first : upperBound.first);
     break;
   }
   }
-- 
2.43.0


From dca50a4301a5a327df8eff21e2bf51a3fa936dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 12/32] fix: translate the empty word in TREs independently of
 the memory layout

The accepting state of the empty word was marked as zero-duration and merged
with the ordinary accepting states into the one of the lowest address. Depending
on the addresses, the mark was given to states of non-empty words or lost: e.g.,
(A*&A)$ aborted, and ((A*B*)%(2,3)D)$ and ((A|B*)+C)$ missed some matches.
Moreover, %I removed the empty word even if I contains 0.
---
 monaa/tre.cc | 63 +++++++++++++++++++---------------------------------
 1 file changed, 23 insertions(+), 40 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index abada22..8b96e59 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -56,7 +56,6 @@ void concat2(TimedAutomaton &left, const TimedAutomaton &right) {
             transition.target = initState.get();
             transition.resetVars = rightClocks;
             newTransitions.emplace_back(std::move(transition));
-            transition.target->zeroDuration = false;
           }
         }
       }
@@ -217,7 +216,6 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     out.states[0] = std::make_shared<TAState>();
     out.initialStates = {out.states[0]};
     out.states[0]->isMatch = true;
-    out.states[0]->zeroDuration = true;
     out.maxConstraints.clear();
     break;
   }
@@ -228,11 +226,12 @@ void TRE::toEventTA(TimedAutomaton &out) const {
         std::vector<TATransition> newTransitions;
         for (TATransition edge : edges.second) {
           TAState *target = edge.target;
-          if (target && target->isMatch && !target->zeroDuration) {
+          if (target && target->isMatch) {
             newTransitions.reserve(newTransitions.size() +
                                    out.initialStates.size());
             for (auto initState : out.initialStates) {
-              if (initState->zeroDuration) {
+              // The accepting initial state represents the empty word
+              if (initState->isMatch) {
                 continue;
               }
               TATransition transition = edge;
@@ -312,15 +311,12 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     bool isDummyUsed = false;
     std::shared_ptr<TAState> dummyAcceptingState =
         std::make_shared<TAState>(true);
-    // Make all the zero duration states non-initial
-    // Note: this would not work well if we allow constraints >= 0
-    out.initialStates.erase(std::remove_if(
-                              out.initialStates.begin(), out.initialStates.end(),
-                              [](auto &state) {return state->zeroDuration;}),
-                            out.initialStates.end());
-    // Make all the state non-zero duration
-    for (auto state : out.states) {
-      state->zeroDuration = false;
+    // The accepting initial state represents the empty word, whose duration is 0
+    if (!regExprWithin.second->contain(0)) {
+      out.initialStates.erase(
+          std::remove_if(out.initialStates.begin(), out.initialStates.end(),
+                         [](const auto &state) { return state->isMatch; }),
+          out.initialStates.end());
     }
     for (auto state : out.states) {
       for (auto &edges : state->next) {
@@ -366,7 +362,6 @@ void TRE::toEventTA(TimedAutomaton &out) const {
       terminalAcceptingStates.push_back(s);
     }
   }
-  std::sort(terminalAcceptingStates.begin(), terminalAcceptingStates.end());
   for (auto &source : out.states) {
     for (auto &transitionVectorPair : source->next) {
       for (auto &transition : transitionVectorPair.second) {
@@ -381,36 +376,24 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     }
   }
   if (terminalAcceptingStates.size() > 1) {
+    const auto isMerged =
+        [&terminalAcceptingStates](const std::shared_ptr<TAState> &s) {
+          return std::find(std::next(terminalAcceptingStates.begin()),
+                           terminalAcceptingStates.end(),
+                           s) != terminalAcceptingStates.end();
+        };
     out.states.erase(
-        std::remove_if(
-            out.states.begin(), out.states.end(),
-            [&terminalAcceptingStates](const std::shared_ptr<TAState> s) {
-              return std::binary_search(
-                  std::next(terminalAcceptingStates.begin()),
-                  terminalAcceptingStates.end(), s);
-            }),
+        std::remove_if(out.states.begin(), out.states.end(), isMerged),
         out.states.end());
-    std::sort(out.initialStates.begin(), out.initialStates.end());
-    if (!std::binary_search(out.initialStates.begin(), out.initialStates.end(),
-                            terminalAcceptingStates.front()) &&
-        std::find_if(
-            out.initialStates.begin(), out.initialStates.end(),
-            [&terminalAcceptingStates](const std::shared_ptr<TAState> s) {
-              return std::binary_search(
-                  std::next(terminalAcceptingStates.begin()),
-                  terminalAcceptingStates.end(), s);
-            }) != out.initialStates.end()) {
+    if (std::find(out.initialStates.begin(), out.initialStates.end(),
+                  terminalAcceptingStates.front()) == out.initialStates.end() &&
+        std::any_of(out.initialStates.begin(), out.initialStates.end(),
+                    isMerged)) {
       out.initialStates.push_back(terminalAcceptingStates.front());
     }
-    out.initialStates.erase(
-        std::remove_if(
-            out.initialStates.begin(), out.initialStates.end(),
-            [&terminalAcceptingStates](const std::shared_ptr<TAState> s) {
-              return std::binary_search(
-                  std::next(terminalAcceptingStates.begin()),
-                  terminalAcceptingStates.end(), s);
-            }),
-        out.initialStates.end());
+    out.initialStates.erase(std::remove_if(out.initialStates.begin(),
+                                           out.initialStates.end(), isMerged),
+                            out.initialStates.end());
   }
   reduceStates(out);
 }
-- 
2.43.0


From 1c978ba1984a83271cdab4aec70f34e37785a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 13/32] fix: do not share mutable static variables among
 matchings

Zone::zero and Zone::universal raced when used by two threads, the reset times
of InternalState had the number of the clocks of the first pattern used in the
process, and renameToEpsilonTransitions used the outputs of the states of the
patterns already freed.
---
 libmonaa/monaa.hh |  5 ++---
 libmonaa/zone.hh  | 10 ++--------
 monaa/tre.cc      |  5 +++--
 3 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index cfce576..ced0ff5 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -75,10 +75,9 @@ struct InternalState {
   InternalState(const std::size_t numOfVar, const TAState *s,
                 const Interval &interval)
       : s(std::move(s)), z(std::move(interval)) {
-    static const std::vector<boost::variant<double, ClockVariables>>
-        zeroResetTime(numOfVar, ClockVariables(1));
     // Every clock variables are reset at t1 ( = t)
-    resetTime = zeroResetTime;
+    resetTime = std::vector<boost::variant<double, ClockVariables>>(
+        numOfVar, ClockVariables(1));
   }
 };
 
diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 94851bb..e7d2853 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -66,22 +66,16 @@ struct Zone {
   }
 
   static Zone zero(int size) {
-    static Zone zeroZone;
-    if (zeroZone.value.cols() == size) {
-      return zeroZone;
-    }
+    Zone zeroZone;
     zeroZone.value.resize(size, size);
     zeroZone.value.fill(Bounds(0, true));
     return zeroZone;
   }
 
   static Zone universal(int size) {
-    static Zone zeroZone;
+    Zone zeroZone;
     static constexpr Bounds infinity =
         Bounds(std::numeric_limits<double>::infinity(), false);
-    if (zeroZone.value.cols() == size + 1) {
-      return zeroZone;
-    }
     zeroZone.value.resize(size + 1, size + 1);
     zeroZone.value.fill(infinity);
     zeroZone.value(0, 0) = Bounds(0, true);
diff --git a/monaa/tre.cc b/monaa/tre.cc
index 8b96e59..9eb03df 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -401,8 +401,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
 //! rename to epsilon transitions
 void renameToEpsilonTransitions(TimedAutomaton &out) {
   std::unordered_map<TAState *, std::shared_ptr<TAState>> toAccepting;
-  const auto haveToChangeToEpsilon = [](const TAState *s, const Alphabet c) {
-    static std::unordered_map<const TAState *, Alphabet> output;
+  std::unordered_map<const TAState *, Alphabet> output;
+  const auto haveToChangeToEpsilon = [&output](const TAState *s,
+                                               const Alphabet c) {
     if (c != 0) {
       if (s->next.find(c) != s->next.end()) {
         output[s] = c;
-- 
2.43.0


From bfefcb1e7e0f29089f92155e61c6acf064e27534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:22 +0000
Subject: [PATCH 14/32] fix: count the clocks used only in the resets of a
 timed automaton

Resetting a clock that is not used in any guard wrote out of the vector of the
reset times.
---
 monaa/timed_automaton_parser.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 00eab35..4180015 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -305,6 +305,10 @@ static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
             std::max<std::size_t>(TA.maxConstraints.size(), g.x + 1));
         TA.maxConstraints[g.x] = std::max(TA.maxConstraints[g.x], g.c);
       }
+      for (const ClockVariables x : transition.resetVars) {
+        TA.maxConstraints.resize(
+            std::max<std::size_t>(TA.maxConstraints.size(), x + 1));
+      }
       stateConvMap[*first]
           ->next[boost::get(&BoostTATransition::c, BoostTA, *firstEdge)]
           .emplace_back(std::move(transition));
-- 
2.43.0


From 718acb650bd65a7a1a1ac98658d332ab9e29dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 15/32] fix: a state without the attributes init and match is
 neither initial nor accepting

They were uninitialized.
---
 monaa/timed_automaton_parser.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 4180015..17d6476 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -239,8 +239,8 @@ static inline std::ostream &operator<<(std::ostream &os,
 }
 
 struct BoostTAState {
-  bool isInit;
-  bool isMatch;
+  bool isInit = false;
+  bool isMatch = false;
 };
 
 struct BoostTATransition {
-- 
2.43.0


From 001fd8b92c378b177bb12875026919553cf7f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 16/32] fix: the length of the timed word when
 LazyDeque::setFront reaches the end

The records that do not exist were counted.
---
 libmonaa/lazy_deque.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libmonaa/lazy_deque.hh b/libmonaa/lazy_deque.hh
index 90e59f8..50ea99b 100644
--- a/libmonaa/lazy_deque.hh
+++ b/libmonaa/lazy_deque.hh
@@ -69,9 +69,13 @@ public:
     const int readTimes = (newFront - front) - eraseSize;
     front = newFront;
     this->erase(this->begin(), this->begin() + eraseSize);
-    for (int i = 0; i < readTimes; i++) {
+    // N is already known if we have reached the end
+    for (int i = 0;
+         i < readTimes && N == std::numeric_limits<std::size_t>::max(); i++) {
       std::pair<Alphabet, double> elem;
-      getElem(file, elem);
+      if (getElem(file, elem) == EOF) {
+        N = front - readTimes + i;
+      }
     }
   }
   bool fetch(std::size_t n) noexcept {
-- 
2.43.0


From 641976762130bc956ba92b95e2b3f9075f0bb603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 17/32] fix: do not wait for one more event after all the
 partial matches failed

The matches from the next starting points were not reported until one more event
arrived, although they were already decided.
---
 libmonaa/monaa.hh | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index ced0ff5..a147cbb 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -448,7 +448,9 @@ void monaa(WordContainer<InputContainer> word, TimedAutomaton A,
         }
         j++;
       }
-      if (!word.fetch(j)) {
+      // If some states remain, the log is over. Otherwise, we must not wait for
+      // the next event.
+      if (!CStates.empty()) {
         LastStates = std::move(CStates);
       }
       // KMP like skip value
@@ -668,7 +670,9 @@ void monaa(WordContainer<InputContainer> word, TimedAutomaton A,
         }
         j++;
       }
-      if (!word.fetch(j)) {
+      // If some states remain, the log is over. Otherwise, we must not wait for
+      // the next event.
+      if (!CStates.empty()) {
         LastStates = std::move(CStates);
       }
       // KMP like skip value
@@ -1025,7 +1029,9 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
         }
         j++;
       }
-      if (!word.fetch(j)) {
+      // If some states remain, the log is over. Otherwise, we must not wait for
+      // the next event.
+      if (!CStates.empty()) {
         // try to go to an accepting state
         for (const auto &config : CStates) {
           const TAState *s = config.s;
@@ -1530,7 +1536,9 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
         }
         j++;
       }
-      if (!word.fetch(j)) {
+      // If some states remain, the log is over. Otherwise, we must not wait for
+      // the next event.
+      if (!CStates.empty()) {
         // try to go to an accepting state
         for (const auto &config : CStates) {
           const TAState *s = config.s;
-- 
2.43.0


From b710d8fd8a133df840aec80d38d8d3c51f65309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 18/32] fix: reject a timed automaton with a transition of an
 unsupported label

A transition without a label had an uninitialized one, and the labels out of
1..126 were used as the index of an array of CHAR_MAX elements.
---
 monaa/timed_automaton_parser.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 17d6476..ff5324b 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -5,6 +5,7 @@
 #include <boost/optional.hpp>
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 
 #include "../libmonaa/timed_automaton.hh"
 
@@ -244,7 +245,7 @@ struct BoostTAState {
 };
 
 struct BoostTATransition {
-  Alphabet c;
+  Alphabet c = 0;
   //! @note this structure is necessary because of some problem in boost graph
   ResetVars resetVars;
   std::vector<Constraint> guard;
@@ -292,6 +293,10 @@ static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
     auto edge_range = boost::out_edges(*first, BoostTA);
     for (auto firstEdge = edge_range.first, lastEdge = edge_range.second;
          firstEdge != lastEdge; ++firstEdge) {
+      const Alphabet c = boost::get(&BoostTATransition::c, BoostTA, *firstEdge);
+      if (c <= 0 || c >= CHAR_MAX) {
+        throw std::out_of_range("unsupported label of a transition");
+      }
       TATransition transition;
       transition.target =
           stateConvMap[boost::target(*firstEdge, BoostTA)].get();
@@ -309,9 +314,7 @@ static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
         TA.maxConstraints.resize(
             std::max<std::size_t>(TA.maxConstraints.size(), x + 1));
       }
-      stateConvMap[*first]
-          ->next[boost::get(&BoostTATransition::c, BoostTA, *firstEdge)]
-          .emplace_back(std::move(transition));
+      stateConvMap[*first]->next[c].emplace_back(std::move(transition));
     }
   }
 }
-- 
2.43.0


From c596e0d8fd2c4e010050c46310cac1d24666d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:43 +0000
Subject: [PATCH 19/32] fix: do not append to the vector of transitions while
 iterating over it

---
 libmonaa/kmp_skip_value.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 32f3a3b..c22cec3 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -64,7 +64,9 @@ public:
     }
     for (auto &state : A0.states) {
       for (auto & it : state->next) {
-        for (TATransition edge : it.second) {
+        // We must not iterate over the vector itself because we append to it
+        const std::vector<TATransition> edges = it.second;
+        for (TATransition edge : edges) {
           const auto target = edge.target;
           // We can modify edge because it is copied
           if (target && target->isMatch) {
-- 
2.43.0


From 6bf65853a4ede63575ac813c8e00b66e6e59c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:41 +0000
Subject: [PATCH 20/32] fix: do not append to the vector of transitions while
 translating the time restriction

The operator %I of a TRE appended the transition to the dummy accepting
state to the vector of the transitions in the range-based for loop over
it, so that the rest of the loop used invalidated references.
---
 monaa/tre.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 9eb03df..03b2700 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -320,6 +320,7 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     }
     for (auto state : out.states) {
       for (auto &edges : state->next) {
+        std::vector<TATransition> newTransitions;
         for (auto &edge : edges.second) {
           auto target = edge.target;
           if (target && target->isMatch) {
@@ -336,10 +337,12 @@ void TRE::toEventTA(TimedAutomaton &out) const {
               transition.guard.insert(transition.guard.end(),
                                       durationGuard.begin(),
                                       durationGuard.end());
-              edges.second.emplace_back(std::move(transition));
+              newTransitions.emplace_back(std::move(transition));
             }
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     for (auto state : out.states) {
-- 
2.43.0


From bb469bf373144a41b9f5b4ad7aa4e74962676183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 21/32] fix: the skipped trial may start later than the last
 skipped event

The KMP-type skip values assumed that the next matching trial starts exactly
at the timestamp of an event. It starts at any moment until the next event.
Therefore, too many events were skipped and some matches were missed, e.g.,
for loc1 -A, x0 < 1, x1 := 0-> loc2 -A, x1 > 1-> loc3 -$-> loc4 and the log
A 3 A 6 A 8.
---
 libmonaa/kmp_skip_value.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index c22cec3..56d9d57 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -50,6 +50,9 @@ public:
 
     std::vector<ClockVariables> allClocks(TA.clockSize());
     std::iota(allClocks.begin(), allClocks.end(), 0);
+    // The matching trial does not have to start exactly at the last skipped event
+    extendedInitialStates[0]->next[0].push_back(
+        {extendedInitialStates[0].get(), allClocks, {}});
     for (int i = 1; i <= m; ++i) {
       for (char c = 1; c < CHAR_MAX; ++c) {
         extendedInitialStates[i]->next[c].push_back(
-- 
2.43.0


From 3a58d823981f8fece6caac217177046a10b16e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:01 +0000
Subject: [PATCH 22/32] fix: report a read error of the timed automaton file
 after its last brace

---
 monaa/main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monaa/main.cc b/monaa/main.cc
index ecb8ab5..61e1d49 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -127,6 +127,9 @@ int main(int argc, char *argv[]) try {
     } catch (const boost::graph_exception &e) {
       die("Failed to parse TA", 2);
     }
+    if (taStream.bad()) {
+      die("Failed to read the timed automaton file", 1);
+    }
     convBoostTA(BoostTA, TA);
   }
 
-- 
2.43.0


From 409e5e6edc48f1d4e39daf0ae9c1290212fa9ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:36 +0000
Subject: [PATCH 23/32] fix: reject clock numbers that do not fit in
 ClockVariables

x256 was silently read as x0, and a reset of 256 as one of clock 0.
---
 monaa/timed_automaton_parser.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index ff5324b..6ddc92a 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -44,7 +44,7 @@ static inline std::istream &operator>>(std::istream &is, Constraint &p) {
   int x;
   is >> x;
   p.x = x;
-  if (!is) {
+  if (!is || x != p.x) {
     is.setstate(std::ios_base::failbit);
     return is;
   }
@@ -132,7 +132,7 @@ static inline std::istream &operator>>(std::istream &is,
     int x;
     is >> x;
     resetVars.emplace_back(ClockVariables(x));
-    if (!is) {
+    if (!is || x != resetVars.back()) {
       is.setstate(std::ios_base::failbit);
       return is;
     }
-- 
2.43.0


From 6e5c000d27632e2151b26c037a9e92048ef5ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:33 +0000
Subject: [PATCH 24/32] fix: do not require the guard of an accepting
 transition at the observed event in the KMP skip values

monaa() takes an accepting transition before the event is observed, when the
clocks are smaller. Its upper bounds do not have to hold at the event, so that
requiring them made the skip values too large and matches were missed.
---
 libmonaa/kmp_skip_value.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 56d9d57..526ffaf 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -74,7 +74,9 @@ public:
           // We can modify edge because it is copied
           if (target && target->isMatch) {
             edge.target = dummyAcceptingState.get();
-            widen(edge.guard);
+            // A match can end before the event is observed, when the clocks are
+            // smaller, so the guard does not have to hold at the event
+            edge.guard.clear();
             it.second.emplace_back(std::move(edge));
           }
         }
-- 
2.43.0


From 520711029ca3d810a5e127c62817ee02b052de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:43 +0000
Subject: [PATCH 25/32] fix: do not modify the singletons shared by several
 conjunctions in the signal mode

---
 libmonaa/interval.hh      |  5 +++--
 monaa/intermediate_tre.cc | 19 ++++++++++++-------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index b9142e2..8ff95bf 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -117,8 +117,9 @@ inline static Interval operator&&(const Interval &left, const Interval &right) {
  */
 inline static void land(std::vector<std::shared_ptr<Interval>> &left,
                         const Interval &right) {
-  for (auto interval : left) {
-    (*interval) = (*interval) && right;
+  for (auto &interval : left) {
+    // The interval may be shared with the other sets of intervals
+    interval = std::make_shared<Interval>((*interval) && right);
   }
   left.erase(std::remove_if(left.begin(), left.end(),
                             [](std::shared_ptr<Interval> interval) {
diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index def2a50..fd1709f 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -171,7 +171,10 @@ void AtomicTRE::toNormalForm() {
                  std::next(it) != list.end() &&
                  (*std::next(it))->tag == AtomicTRE::op::singleton &&
                  (*it)->singleton->c == (*std::next(it))->singleton->c) {
-        (*it)->singleton->intervals += (*std::next(it))->singleton->intervals;
+        // The expressions may be shared with the other conjunctions
+        auto merged = std::make_shared<SingletonTRE>(*((*it)->singleton));
+        merged->intervals += (*std::next(it))->singleton->intervals;
+        *it = std::make_shared<AtomicTRE>(std::move(merged));
         list.erase(std::next(it));
       } else {
         it++;
@@ -288,12 +291,13 @@ void AtomicTRE::toNormalForm() {
         within.first->decision->tag, within.first->decision->chars);
     switch (within.first->tag) {
     case op::singleton: {
-      auto origExpr = within.first;
-      land(origExpr->singleton->intervals, *(within.second));
+      // The expression may be shared with the other conjunctions
+      auto origSingleton =
+          std::make_shared<SingletonTRE>(*(within.first->singleton));
+      land(origSingleton->intervals, *(within.second));
       within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
       tag = op::singleton;
-      new (&singleton)
-          std::shared_ptr<SingletonTRE>(std::move(origExpr->singleton));
+      new (&singleton) std::shared_ptr<SingletonTRE>(std::move(origSingleton));
       break;
     }
     case op::epsilon: {
@@ -427,7 +431,8 @@ bool AtomicTRE::makeSNF(const char singleC) {
     if (!expr->makeSNF(singleC)) {
       return false;
     }
-    auto tmpTRE = expr->list.front().front()->singleton;
+    auto tmpTRE = std::make_shared<SingletonTRE>(
+        *(expr->list.front().front()->singleton));
     expr.reset();
     tag = op::singleton;
     new (&singleton) std::shared_ptr<SingletonTRE>(std::move(tmpTRE));
@@ -438,7 +443,7 @@ bool AtomicTRE::makeSNF(const char singleC) {
     if (!within.first->makeSNF(singleC)) {
       return false;
     }
-    auto tmpTRE = within.first->singleton;
+    auto tmpTRE = std::make_shared<SingletonTRE>(*(within.first->singleton));
     auto tmpInterval = within.second;
     within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
     tag = op::singleton;
-- 
2.43.0


From b6cdab53e78db2fc2e27744d0012b82cf3bdb8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:21 +0000
Subject: [PATCH 26/32] fix: make the lower bound of an intersection of
 intervals closed only if both are closed

---
 libmonaa/interval.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index 8ff95bf..c6cfb34 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -98,6 +98,10 @@ struct Interval {
 inline static Interval operator&&(const Interval &left, const Interval &right) {
   Interval ret = Interval{std::max(left.lowerBound, right.lowerBound),
                           std::min(left.upperBound, right.upperBound)};
+  if (left.lowerBound.first == right.lowerBound.first) {
+    // The lower bound is closed only if both of them are closed
+    ret.lowerBound.second = left.lowerBound.second && right.lowerBound.second;
+  }
   return ret;
 }
 
-- 
2.43.0


From 17e5508b962f8f57914db9a73bfaa3eec3f7c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:47 +0000
Subject: [PATCH 27/32] fix: remove empty intervals such as (1,1] in land

---
 libmonaa/interval.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index c6cfb34..9daa406 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -127,8 +127,12 @@ inline static void land(std::vector<std::shared_ptr<Interval>> &left,
   }
   left.erase(std::remove_if(left.begin(), left.end(),
                             [](std::shared_ptr<Interval> interval) {
+                              // (1,1] is also empty
                               return interval->lowerBound >
-                                     interval->upperBound;
+                                         interval->upperBound ||
+                                     (interval->lowerBound.first ==
+                                          interval->upperBound.first &&
+                                      !interval->lowerBound.second);
                             }),
              left.end());
 }
-- 
2.43.0


From 16f111ab8cc6210799adc8d2d928bf0e5b0b3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:59 +0000
Subject: [PATCH 28/32] fix: construct the automaton of a duration bound in the
 signal mode like in the event mode

---
 monaa/intermediate_tre.cc | 72 ++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 43 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index fd1709f..2358cc6 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -583,62 +583,48 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
   }
   case op::within: {
     within.first->toSignalTA(out);
-    // add dummy initial state
-    std::shared_ptr<TAState> dummyInitialState = std::make_shared<TAState>();
-    for (auto initialState : out.initialStates) {
-      for (const auto &initTransitionsPair : initialState->next) {
-        const Alphabet c = initTransitionsPair.first;
-        dummyInitialState->next[c].reserve(dummyInitialState->next[c].size() +
-                                           initTransitionsPair.second.size());
-        for (auto &edge : initTransitionsPair.second) {
-          TATransition transition = edge;
-          transition.resetVars.push_back(out.clockSize());
-          dummyInitialState->next[c].emplace_back(std::move(transition));
-        }
-      }
-    }
+
+    // make the constraint on the duration. The clock is reset by concat2 when we
+    // enter this expression
+    const Bounds &lowerBound = within.second->lowerBound;
+    const Bounds &upperBound = within.second->upperBound;
+    std::vector<Constraint> durationGuard;
+    TimedAutomaton::X durationClock(out.clockSize());
+    // there is no upper bound for, e.g., %(>1)
+    if (!std::isinf(upperBound.first)) {
+      durationGuard.push_back(upperBound.second
+                                  ? durationClock <= upperBound.first
+                                  : durationClock < upperBound.first);
+    }
+    durationGuard.push_back(lowerBound.second
+                                ? durationClock >= lowerBound.first
+                                : durationClock > lowerBound.first);
+
     // add dummy accepting state
-    std::shared_ptr<TAState> dummyAcceptingState = std::make_shared<TAState>();
-    dummyAcceptingState->isMatch = true;
+    std::shared_ptr<TAState> dummyAcceptingState =
+        std::make_shared<TAState>(true);
     for (auto state : out.states) {
       for (auto &edges : state->next) {
-        for (auto &edge : edges.second) {
-          auto target = edge.target;
-          if (target && target->isMatch) {
+        std::vector<TATransition> newTransitions;
+        for (const auto &edge : edges.second) {
+          if (edge.target && edge.target->isMatch) {
             TATransition transition = edge;
             transition.target = dummyAcceptingState.get();
-            transition.guard.reserve(transition.guard.size() + 2);
-            // upper bound
-            if (within.second->upperBound.second) {
-              transition.guard.emplace_back(
-                  TimedAutomaton::X(out.clockSize()) <=
-                  within.second->upperBound.first);
-            } else {
-              transition.guard.emplace_back(TimedAutomaton::X(out.clockSize()) <
-                                            within.second->upperBound.first);
-            }
-            // lower bound
-            if (within.second->lowerBound.second) {
-              transition.guard.emplace_back(
-                  TimedAutomaton::X(out.clockSize()) >=
-                  within.second->lowerBound.first);
-            } else {
-              transition.guard.emplace_back(TimedAutomaton::X(out.clockSize()) >
-                                            within.second->lowerBound.first);
-            }
-            edges.second.emplace_back(std::move(transition));
+            transition.guard.insert(transition.guard.end(),
+                                    durationGuard.begin(), durationGuard.end());
+            newTransitions.emplace_back(std::move(transition));
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     for (auto state : out.states) {
       state->isMatch = false;
     }
-    out.initialStates = {dummyInitialState};
-    out.states.reserve(out.stateSize() + 2);
-    out.states.emplace_back(std::move(dummyInitialState));
     out.states.emplace_back(std::move(dummyAcceptingState));
-    out.maxConstraints.emplace_back(within.second->upperBound.first);
+    out.maxConstraints.emplace_back(
+        std::isinf(upperBound.first) ? lowerBound.first : upperBound.first);
     break;
   }
   }
-- 
2.43.0


From 95a071cb418ad555ddacffa76a0b12fceb05d45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:08 +0000
Subject: [PATCH 29/32] fix: do not assign to dead members of the union in
 AtomicTRE

---
 monaa/intermediate_tre.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/monaa/intermediate_tre.hh b/monaa/intermediate_tre.hh
index 5b6e041..a998076 100644
--- a/monaa/intermediate_tre.hh
+++ b/monaa/intermediate_tre.hh
@@ -140,22 +140,24 @@ public:
       list.~list();
       switch (tag) {
       case op::singleton: {
-        singleton = origExpr->singleton;
+        new (&singleton) std::shared_ptr<SingletonTRE>(origExpr->singleton);
         break;
       }
       case op::epsilon: {
         break;
       }
       case op::concat: {
-        list = origExpr->list;
+        new (&list) std::list<std::shared_ptr<AtomicTRE>>(origExpr->list);
         break;
       }
       case op::plus: {
-        expr = origExpr->expr;
+        new (&expr) std::shared_ptr<DNFTRE>(origExpr->expr);
         break;
       }
       case op::within: {
-        within = origExpr->within;
+        new (&within)
+            std::pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>(
+                origExpr->within);
         break;
       }
       }
-- 
2.43.0


From 0778d1186f51b309c70bcbeaf6483f19c62e350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:16 +0000
Subject: [PATCH 30/32] fix: terminate and use the product for conjunctions in
 the signal mode

---
 monaa/intermediate_tre.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 2358cc6..f5ed890 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -365,7 +365,7 @@ void DNFTRE::toNormalForm() {
     auto it = conjunctions.begin();
     decisions.push_back(
         std::make_shared<SyntacticDecision>(*((*it)->decision)));
-    for (it++; it != conjunctions.end();) {
+    for (it++; it != conjunctions.end(); it++) {
       decisions.back()->tag =
           (decisions.back()->tag == SyntacticDecision::Decision::Constant ||
            (*it)->decision->tag == SyntacticDecision::Decision::Constant)
@@ -638,7 +638,13 @@ void DNFTRE::toSignalTA(TimedAutomaton &out) const {
     for (it++; it != conjunctions.end(); it++) {
       TimedAutomaton tmpTA, TA2;
       (*it)->toSignalTA(tmpTA);
-      intersectionSignalTA(another, tmpTA, TA2);
+      // The expressions are in normal form, i.e., they change the value at the
+      // same time
+      boost::unordered_map<std::pair<TAState *, TAState *>,
+                           std::shared_ptr<TAState>>
+          toIState;
+      intersectionTA(another, tmpTA, TA2, toIState);
+      another = std::move(TA2);
     }
     out.states.insert(out.states.end(), another.states.begin(),
                       another.states.end());
-- 
2.43.0


From f8919c292474459d1c1b27d1010097b531da0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:24 +0000
Subject: [PATCH 31/32] fix: ignore unsatisfiable conjunctions when we decide
 if a repetition is of a single value

---
 monaa/intermediate_tre.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index f5ed890..ebbdc8d 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -382,6 +382,18 @@ void DNFTRE::toNormalForm() {
     }
   }
 
+  // The conjunctions without any possible value, e.g., A & B, are not satisfiable
+  const auto isUnsatisfiable =
+      [](const std::shared_ptr<SyntacticDecision> &decision) {
+        return decision->tag == SyntacticDecision::Decision::Constant &&
+               decision->chars.empty();
+      };
+  if (!std::all_of(decisions.begin(), decisions.end(), isUnsatisfiable)) {
+    decisions.erase(std::remove_if(decisions.begin(), decisions.end(),
+                                   isUnsatisfiable),
+                    decisions.end());
+  }
+
   // decision of conjunctions
   auto it = decisions.begin();
   decision = std::make_shared<SyntacticDecision>(**it);
-- 
2.43.0


From 5e7c59984b400a780b50c6f3ca1217479778fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:27 +0000
Subject: [PATCH 32/32] fix: let ascii2bin write what the binary mode reads,
 and check the errors

---
 utils/ascii2bin.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/utils/ascii2bin.c b/utils/ascii2bin.c
index fa8e318..ebbfa4b 100644
--- a/utils/ascii2bin.c
+++ b/utils/ascii2bin.c
@@ -6,10 +6,8 @@ int main(int argc, char *argv[])
   int result;
   FILE *ifile = stdin;
   FILE *ofile = stdout;
-  int N;
   char event;
   double timestamp;
-  int i = 0;
   
   while((result = getopt(argc,argv,"i:o:")) != -1) {
     switch(result){
@@ -28,12 +26,26 @@ int main(int argc, char *argv[])
     }
   }
 
-  fscanf(ifile, " %d\n", &N);
-  fwrite(&N, sizeof(int), 1, ofile);
-  for (i = 0; i < N; i++) {
-    fscanf(ifile, " %c %lf\n", &event, &timestamp);
-    fwrite(&event, sizeof(char), 1, ofile);
-    fwrite(&timestamp, sizeof(double), 1, ofile);
+  // The format is what the binary mode of monaa reads, i.e., there is no header
+  while ((result = fscanf(ifile, " %c %lf", &event, &timestamp)) == 2 &&
+         !ferror(ifile)) {
+    if (fwrite(&event, sizeof(char), 1, ofile) != 1 ||
+        fwrite(&timestamp, sizeof(double), 1, ofile) != 1) {
+      perror("ascii2bin");
+      return 1;
+    }
+  }
+  if (ferror(ifile)) {
+    perror("ascii2bin");
+    return 1;
+  }
+  if (!feof(ifile)) {
+    fprintf(stderr, "ascii2bin: malformed timed word\n");
+    return 1;
+  }
+  if (ferror(ofile) || fclose(ofile)) {
+    perror("ascii2bin");
+    return 1;
   }
 
   return 0;
-- 
2.43.0

