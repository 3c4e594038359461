From 51cffec6dd6d882e6f75e7db22902cfb43d62f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:54 +0000
Subject: [PATCH 01/48] fix: initialise the worker slot of the Pool before
 starting its thread

---
 src/header/EasyFactorGraph/structure/bases/PoolAware.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/PoolAware.h b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
index 4577a51..4bcae1d 100644
--- a/src/header/EasyFactorGraph/structure/bases/PoolAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
@@ -40,9 +40,10 @@ private:
   struct Worker {
     Worker(std::size_t th_id, Context &context);
 
-    std::thread loop;
-
+    // declared before loop, as the thread accesses it from the beginning
     std::atomic<const Tasks *> to_process = nullptr;
+
+    std::thread loop;
   };
   using WorkerPtr = std::unique_ptr<Worker>;
   std::vector<WorkerPtr> workers;
-- 
2.43.0


From 54d07c79d2cd6a08622d27381778645eabb6c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:01 +0000
Subject: [PATCH 02/48] fix: keep the current pool when a null number of
 threads is requested

---
 src/src/structure/bases/PoolAware.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/structure/bases/PoolAware.cpp b/src/src/structure/bases/PoolAware.cpp
index 151877e..0184379 100644
--- a/src/src/structure/bases/PoolAware.cpp
+++ b/src/src/structure/bases/PoolAware.cpp
@@ -77,6 +77,10 @@ void PoolAware::setPoolSize(const std::size_t new_size) {
   if (new_size == pool->size()) {
     return;
   }
+  if (0 == new_size) {
+    // checked here as a failing emplace would leave the model without a pool
+    throw Error{"Invalid Pool size"};
+  }
   pool.emplace(new_size);
 }
 } // namespace EFG::strct
-- 
2.43.0


From 690991bfb355786d00a474f5f96aad6e69293d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:23 +0000
Subject: [PATCH 03/48] fix: do not dereference a null pointer when emptying a
 Cache

---
 src/header/EasyFactorGraph/misc/Cache.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/header/EasyFactorGraph/misc/Cache.h b/src/header/EasyFactorGraph/misc/Cache.h
index 66ab345..66b4e71 100644
--- a/src/header/EasyFactorGraph/misc/Cache.h
+++ b/src/header/EasyFactorGraph/misc/Cache.h
@@ -15,7 +15,9 @@ template <typename T> class Cache : std::unique_ptr<T> {
 public:
   Cache() = default;
 
-  T &reset(std::unique_ptr<T> new_value = nullptr) {
+  void reset() { cast_().reset(); }
+
+  T &reset(std::unique_ptr<T> new_value) {
     auto &ref = cast_();
     ref = std::move(new_value);
     return *ref;
-- 
2.43.0


From 719151cc41f404f3c2256c49a637a93ff6438981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:32 +0000
Subject: [PATCH 04/48] fix: keep accounting for the observed neighbours when
 removing an evidence

---
 src/src/structure/EvidenceManager.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index c7e7a33..56b4804 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -76,10 +76,21 @@ void EvidenceRemover::removeEvidence_(const categoric::VariablePtr &variable) {
   resetBelief();
   state.evidences.erase(evidence_it);
   auto &node = *state.nodes[variable].get();
-  while (!node.disabled_connections.empty()) {
-    auto it = node.disabled_connections.begin();
-    it->first->merged_unaries.reset();
-    Node::activate(node, *it->first, it->second.factor);
+  for (auto it = node.disabled_connections.begin();
+       it != node.disabled_connections.end();) {
+    auto &[connected_node, connection] = *it;
+    ++it; // activate(...) erases the current element
+    auto connected_evidence_it =
+        state.evidences.find(connected_node->variable);
+    if (connected_evidence_it == state.evidences.end()) {
+      connected_node->merged_unaries.reset();
+      Node::activate(node, *connected_node, connection.factor);
+    } else {
+      // the connected node is still observed
+      connection.message = std::make_unique<factor::Evidence>(
+          *connection.factor, connected_node->variable,
+          connected_evidence_it->second);
+    }
   }
   node.merged_unaries.reset();
 }
-- 
2.43.0


From a68c14ec3b7c7ef102a8f115abc85e4e5ee14617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:41 +0000
Subject: [PATCH 05/48] fix: refuse removing a group of evidences before
 altering the model

---
 src/src/structure/EvidenceManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index 56b4804..82796b0 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -109,6 +109,12 @@ void EvidenceRemover::removeEvidences(
   if (variables.empty()) {
     return;
   }
+  const auto &evidences = this->state().evidences;
+  for (const auto &variable : variables) {
+    if (evidences.find(variable) == evidences.end()) {
+      throw Error::make(variable->name(), " is not an evidence");
+    }
+  }
   for (const auto &variable : variables) {
     removeEvidence_(variable);
   }
-- 
2.43.0


From acc93b42847d94193dc6afc2822d6cbc7ec12d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:15 +0000
Subject: [PATCH 06/48] fix: do not use the removed evidence's key after its
 deletion

---
 src/src/structure/EvidenceManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index 82796b0..2b507e2 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -74,8 +74,9 @@ void EvidenceRemover::removeEvidence_(const categoric::VariablePtr &variable) {
     throw Error::make(variable->name(), " is not an evidence");
   }
   resetBelief();
-  state.evidences.erase(evidence_it);
+  // variable may refer to the key of the evidence to erase
   auto &node = *state.nodes[variable].get();
+  state.evidences.erase(evidence_it);
   for (auto it = node.disabled_connections.begin();
        it != node.disabled_connections.end();) {
     auto &[connected_node, connection] = *it;
-- 
2.43.0


From 7adb2dee16ec91974dba26adf46228b77053f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:31 +0000
Subject: [PATCH 07/48] fix: recompute what depends on the weights after
 changing them

---
 .../trainable/FactorsTunableManager.h            |  3 +++
 src/src/trainable/FactorsTunableManager.cpp      | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
index 7b23c52..d7f984e 100644
--- a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
+++ b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
@@ -62,6 +62,9 @@ protected:
   virtual std::vector<float>
   getWeightsGradient_(const TrainSet::Iterator &train_set_combinations) = 0;
 
+  // invalidates whatever was precomputed with the previous weights
+  void resetWeightsDependencies();
+
   std::unordered_set<FactorExponentialPtr> tunable_factors;
   Tuners tuners;
 };
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 2b86e32..583632a 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -58,6 +58,21 @@ void FactorsTunableGetter::setWeights(const std::vector<float> &weights) {
   for (std::size_t k = 0; k < tuners.size(); ++k) {
     tuners[k]->setWeight(weights[k]);
   }
+  resetWeightsDependencies();
+}
+
+void FactorsTunableGetter::resetWeightsDependencies() {
+  auto &state = stateMutable();
+  for (auto &[var, node] : state.nodes) {
+    node->merged_unaries.reset();
+    for (auto &[connected_node, connection] : node->disabled_connections) {
+      if (auto it = state.evidences.find(connected_node->variable);
+          it != state.evidences.end()) {
+        connection.message = std::make_unique<factor::Evidence>(
+            *connection.factor, it->first, it->second);
+      }
+    }
+  }
   resetBelief();
 }
 
@@ -140,6 +155,7 @@ void FactorsTunableInserter::addTunableFactor(
         tuner_sharing.addElement(std::move(tuner));
         tuner_sharing.setWeight(tuner_sharing.getWeight());
       });
+  resetWeightsDependencies();
 }
 
 void FactorsTunableInserter::copyTunableFactor(
-- 
2.43.0


From 9ad12577aae4ee6269ad4343c61b7a870d3e5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:40 +0000
Subject: [PATCH 08/48] fix: keep valid the indicators used by the joint
 marginal query

---
 src/src/structure/QueryManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index fd49c1b..0870336 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -114,7 +114,7 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
   }
 
   std::unordered_set<const factor::Immutable *> contributions;
-  std::vector<factor::Indicator> indicators;
+  std::list<factor::Indicator> indicators; // addresses should remain valid
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
         [&node = node, &subgroup_nodes,
-- 
2.43.0


From 51b75abbe09b1ab7c6086ecae9dd6ba16fe82c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:50 +0000
Subject: [PATCH 09/48] fix: permute factors comparing the variables by value

---
 src/src/factor/Factor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/src/factor/Factor.cpp b/src/src/factor/Factor.cpp
index f9ab8b6..8d1163b 100644
--- a/src/src/factor/Factor.cpp
+++ b/src/src/factor/Factor.cpp
@@ -10,6 +10,8 @@
 // #include <EasyFactorGraph/factor/CombinationFinder.h>
 #include <EasyFactorGraph/factor/Factor.h>
 
+#include <algorithm>
+
 namespace EFG::factor {
 Factor::Factor(FunctionPtr data) : Immutable{data}, Mutable{data} {}
 
@@ -176,7 +178,9 @@ compute_new_positions(const categoric::VariablesSoup &old_order,
   std::vector<std::size_t> result;
   result.reserve(old_order.size());
   for (const auto &var : old_order) {
-    auto it = std::find(new_order.begin(), new_order.end(), var);
+    auto it = std::find_if(
+        new_order.begin(), new_order.end(),
+        [&var](const categoric::VariablePtr &o) { return *o == *var; });
     result.push_back(std::distance(new_order.begin(), it));
   }
   return result;
-- 
2.43.0


From 0b92ac65988f88fabf415c6a31be0fbae7a506a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:58 +0000
Subject: [PATCH 10/48] fix: refuse replacing variables with a longer
 collection having duplicates

---
 src/src/categoric/Group.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/categoric/Group.cpp b/src/src/categoric/Group.cpp
index 59794c6..ccda384 100644
--- a/src/src/categoric/Group.cpp
+++ b/src/src/categoric/Group.cpp
@@ -45,7 +45,8 @@ void Group::add(const VariablePtr &var) {
 
 void Group::replaceVariables(const VariablesSoup &new_variables) {
   auto new_group_sorted = to_vars_set(new_variables);
-  if (new_group_sorted.size() != group.size()) {
+  if ((new_variables.size() != group.size()) ||
+      (new_group_sorted.size() != group.size())) {
     throw Error{"Invalid new variables group"};
   }
   for (std::size_t k = 0; k < new_variables.size(); ++k) {
-- 
2.43.0


From 88b7a4228021a25ea13ed79dbac51bd8a77ed03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 11/48] fix: refuse groups having variables with the same name
 and different sizes

---
 src/src/categoric/Group.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/src/categoric/Group.cpp b/src/src/categoric/Group.cpp
index ccda384..6a56837 100644
--- a/src/src/categoric/Group.cpp
+++ b/src/src/categoric/Group.cpp
@@ -8,7 +8,21 @@
 #include <EasyFactorGraph/Error.h>
 #include <EasyFactorGraph/categoric/Group.h>
 
+#include <algorithm>
+#include <string>
+#include <unordered_set>
+
 namespace EFG::categoric {
+namespace {
+bool all_names_differ(const VariablesSoup &soup) {
+  std::unordered_set<std::string> names;
+  for (const auto &var : soup) {
+    names.emplace(var->name());
+  }
+  return names.size() == soup.size();
+}
+} // namespace
+
 VariablesSet to_vars_set(const VariablesSoup &soup) {
   VariablesSet result;
   for (const auto &var : soup) {
@@ -22,7 +36,7 @@ Group::Group(const VariablesSoup &group)
   if (group.empty()) {
     throw Error{"Variables group can't be empty"};
   }
-  if (group.size() != group_sorted.size()) {
+  if (!all_names_differ(group)) {
     throw Error{"Variables group with multiple variables with same name"};
   }
 }
@@ -33,8 +47,10 @@ Group::Group(const VariablePtr &var) {
 }
 
 void Group::add(const VariablePtr &var) {
-  auto it = group_sorted.find(var);
-  if (it == group_sorted.end()) {
+  if ((group_sorted.find(var) == group_sorted.end()) &&
+      std::none_of(group.begin(), group.end(), [&var](const VariablePtr &o) {
+        return o->name() == var->name();
+      })) {
     group.push_back(var);
     group_sorted.emplace(var);
     return;
@@ -46,7 +62,7 @@ void Group::add(const VariablePtr &var) {
 void Group::replaceVariables(const VariablesSoup &new_variables) {
   auto new_group_sorted = to_vars_set(new_variables);
   if ((new_variables.size() != group.size()) ||
-      (new_group_sorted.size() != group.size())) {
+      !all_names_differ(new_variables)) {
     throw Error{"Invalid new variables group"};
   }
   for (std::size_t k = 0; k < new_variables.size(); ++k) {
-- 
2.43.0


From 8e7c0806407494555843859c39a512b3b6a0e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:47 +0000
Subject: [PATCH 12/48] fix: refuse factors with invalid variables before
 altering the model

---
 src/src/structure/bases/FactorsAware.cpp | 29 +++++++++++++++---------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index 05812f7..2a9aa20 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -12,6 +12,16 @@
 #include <algorithm>
 
 namespace EFG::strct {
+namespace {
+void check_is_same_variable(const categoric::VariablePtr &a,
+                            const categoric::VariablePtr &b) {
+  if (a.get() != b.get()) {
+    throw Error::make("Trying to insert variable named: ", a->name(),
+                      " multiple times with different VariablePtr");
+  }
+}
+} // namespace
+
 void FactorsAware::addDistribution(
     const EFG::factor::ImmutablePtr &distribution) {
   if (nullptr == distribution) {
@@ -20,6 +30,14 @@ void FactorsAware::addDistribution(
   if (factorsAll.find(distribution) != factorsAll.end()) {
     throw Error{"Already inserted factor"};
   }
+  // check all the variables before altering the model
+  for (const auto &var : distribution->function().vars().getVariables()) {
+    for (const auto &existing : state().variables) {
+      if (existing->name() == var->name()) {
+        check_is_same_variable(var, existing);
+      }
+    }
+  }
   resetBelief();
 
   switch (distribution->function().vars().getVariables().size()) {
@@ -37,20 +55,9 @@ void FactorsAware::addDistribution(
   factorsAll.emplace(distribution);
 }
 
-namespace {
-void check_is_same_variable(const categoric::VariablePtr &a,
-                            const categoric::VariablePtr &b) {
-  if (a.get() != b.get()) {
-    throw Error::make("Trying to insert variable named: ", a->name(),
-                      " multiple times with different VariablePtr");
-  }
-}
-} // namespace
-
 StateAware::NodeLocation
 FactorsAware::findOrMakeNode(const categoric::VariablePtr &var) {
   if (auto info = locate(var); info.has_value()) {
-    check_is_same_variable(var, info.value().node->variable);
     return *info;
   }
   // create this node
-- 
2.43.0


From 63f8ebe27dcbd10e5ff1c40a5fd013d22396bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:19 +0000
Subject: [PATCH 13/48] fix: refuse an unknown group sharing the weight before
 inserting the factor

---
 src/src/trainable/FactorsTunableManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 583632a..f19c114 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -134,6 +134,10 @@ TunerPtr FactorsTunableInserter::makeTuner(const FactorExponentialPtr &factor) {
 void FactorsTunableInserter::addTunableFactor(
     const FactorExponentialPtr &factor,
     const std::optional<categoric::VariablesSet> &group_sharing_weight) {
+  // searched before altering the model, as it may throw
+  auto other_it = group_sharing_weight.has_value()
+                      ? findTuner(*group_sharing_weight)
+                      : tuners.end();
   addDistribution(factor);
   auto tuner = makeTuner(factor);
   tunable_factors.emplace(factor);
@@ -141,7 +145,6 @@ void FactorsTunableInserter::addTunableFactor(
     tuners.emplace_back(std::move(tuner));
     return;
   }
-  auto other_it = findTuner(*group_sharing_weight);
   visitTuner(
       other_it->get(),
       [&tuner, &other_it](BaseTuner &) {
-- 
2.43.0


From cad8909b5a73f5b5f93221f975031c7389f0745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:27 +0000
Subject: [PATCH 14/48] fix: set the evidences of a ConditionalRandomField with
 the documented order

---
 src/src/model/ConditionalRandomField.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 34e8154..2ef15b6 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -125,8 +125,17 @@ void ConditionalRandomField::setEvidences(
     throw Error::make("Expected ", std::to_string(state.evidences.size()),
                       " evidences, but got instead ", values.size());
   }
+  const auto observed = getObservedVariables();
   std::size_t k = 0;
-  for (const auto &[var, val] : state.evidences) {
+  for (const auto &var : observed) {
+    if (var->size() <= values[k]) {
+      throw Error::make(std::to_string(values[k]),
+                        " is an invalid evidence for variable ", var->name());
+    }
+    ++k;
+  }
+  k = 0;
+  for (const auto &var : observed) {
     setEvidence(var, values[k]);
     ++k;
   }
-- 
2.43.0


From 7566acca64624c5a8caf65fd55267cf239dc7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:37 +0000
Subject: [PATCH 15/48] fix: avoid a division by zero when spanning few
 evidences in makeTrainSet

---
 src/src/model/ConditionalRandomField.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 2ef15b6..ccfba32 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -219,8 +219,9 @@ std::vector<std::vector<std::size_t>> ConditionalRandomField::makeTrainSet(
     categoric::for_each_combination(evidences_range, emplace_samples);
   } else {
     const std::size_t result_max_size = evidences_group.size();
-    const std::size_t result_size_approx =
-        static_cast<std::size_t>(floorf(result_max_size * range_percentage));
+    const std::size_t result_size_approx = std::max<std::size_t>(
+        1,
+        static_cast<std::size_t>(floorf(result_max_size * range_percentage)));
     const std::size_t delta = result_max_size / result_size_approx;
     std::size_t k = 0;
     while (k < result_max_size) {
-- 
2.43.0


From 23b745488296ce7700b7624c0a8c5b91386aeb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:47 +0000
Subject: [PATCH 16/48] fix: read the evidences from the right columns in the
 gradient of a ConditionalRandomField

---
 .../model/ConditionalRandomField.h            |  3 ++-
 src/src/model/ConditionalRandomField.cpp      | 23 ++++++++-----------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/header/EasyFactorGraph/model/ConditionalRandomField.h b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
index acca867..c5346cb 100644
--- a/src/header/EasyFactorGraph/model/ConditionalRandomField.h
+++ b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
@@ -84,6 +84,7 @@ private:
   void replaceIfNeeded(train::TunerPtr &container,
                        const train::BaseTuner &subject);
 
-  const std::vector<std::size_t> evidence_vars_positions;
+  // same order of getObservedVariables()
+  std::vector<std::size_t> evidence_vars_positions;
 };
 } // namespace EFG::model
diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index ccfba32..c6dd687 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -30,18 +30,14 @@ find_positions(const categoric::VariablesSoup &all_vars,
 }
 } // namespace
 
-ConditionalRandomField::ConditionalRandomField(const ConditionalRandomField &o)
-    : evidence_vars_positions(
-          find_positions(o.getAllVariables(), o.getObservedVariables())) {
+ConditionalRandomField::ConditionalRandomField(const ConditionalRandomField &o) {
   absorb(SourceStructure{static_cast<const strct::FactorsConstGetter *>(&o),
                          static_cast<const train::FactorsTunableGetter *>(&o)},
          false);
 }
 
 ConditionalRandomField::ConditionalRandomField(const RandomField &source,
-                                               bool copy)
-    : evidence_vars_positions(find_positions(source.getAllVariables(),
-                                             source.getObservedVariables())) {
+                                               bool copy) {
   absorb(
       SourceStructure{
           static_cast<const strct::FactorsConstGetter *>(&source),
@@ -60,6 +56,9 @@ void ConditionalRandomField::absorb(const SourceStructure &source, bool copy) {
   for (const auto &[var, val] : evidences) {
     setEvidence(findVariable(var->name()), val);
   }
+  // the order of the variables may differ from the one in the source
+  evidence_vars_positions =
+      find_positions(getAllVariables(), getObservedVariables());
   // replace tuners of factors connected to an evidence
   for (auto &tuner : tuners) {
     train::visitTuner(
@@ -175,14 +174,12 @@ std::vector<float> ConditionalRandomField::getWeightsGradient_(
     }
     train_set_combinations.forEachSample(
         [this, &tasks](const auto &combination) {
-          {
-            std::size_t var_pos = 0;
-            for (auto &[var, val] : this->state().evidences) {
-              this->setEvidence(
-                  var, combination[this->evidence_vars_positions[var_pos]]);
-              ++var_pos;
-            }
+          std::vector<std::size_t> evidences;
+          evidences.reserve(this->evidence_vars_positions.size());
+          for (const auto pos : this->evidence_vars_positions) {
+            evidences.push_back(combination[pos]);
           }
+          this->setEvidences(evidences);
           propagateBelief(strct::PropagationKind::SUM);
           this->getPool().parallelFor(tasks);
         });
-- 
2.43.0


From 93eade6acde034bef6f2e3d9b8facfdeab50945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:21 +0000
Subject: [PATCH 17/48] fix: skip the blank lines of the imported files

---
 src/src/io/Utils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index 1fd9bce..8563812 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -42,9 +42,10 @@ void useOutStrem(const std::filesystem::path &file_name, Pred &&pred) {
 template <typename Predicate>
 void for_each_line(std::istream &stream, const Predicate &pred) {
   std::string line;
-  while (!stream.eof()) {
-    line.clear();
-    std::getline(stream, line);
+  while (std::getline(stream, line)) {
+    if (line.find_first_not_of(" \t\r") == std::string::npos) {
+      continue; // blank line
+    }
     pred(line);
   }
 }
-- 
2.43.0


From 6f6942c8923da048680cc0a7aaa4b4824f7e723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:30 +0000
Subject: [PATCH 18/48] fix: import the values of the train set stored in the
 file

---
 src/src/io/TrainSetImport.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/src/io/TrainSetImport.cpp b/src/src/io/TrainSetImport.cpp
index 529510a..081dffe 100644
--- a/src/src/io/TrainSetImport.cpp
+++ b/src/src/io/TrainSetImport.cpp
@@ -9,6 +9,8 @@
 
 #include "Utils.h"
 
+#include <sstream>
+
 namespace EFG::io {
 
 train::TrainSet import_train_set(const std::string &file_name) {
@@ -17,13 +19,19 @@ train::TrainSet import_train_set(const std::string &file_name) {
     std::size_t line_numb = 0;
     std::size_t expected_size = 0;
     for_each_line(stream, [&](const std::string &line) {
-      auto &&[combination, img] = parse_combination_image(line);
+      std::vector<std::size_t> combination;
+      std::stringstream buff{line};
+      std::string token;
+      while (buff >> token) {
+        combination.push_back(
+            static_cast<std::size_t>(std::atoi(token.c_str())));
+      }
       if ((expected_size != 0) && (combination.size() != expected_size)) {
         throw Error::make("Invalid combination size at line ",
                           std::to_string(line_numb));
       }
       expected_size = combination.size();
-      combinations.emplace_back(std::move(expected_size));
+      combinations.emplace_back(std::move(combination));
       ++line_numb;
     });
   });
-- 
2.43.0


From f1604d186bdcdda6d9ecc33e480f9d6df76d1194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:43 +0000
Subject: [PATCH 19/48] fix: import json strings without their escape sequences

---
 src/src/io/json/Importer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index e78b250..d8afd46 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -37,8 +37,7 @@ const nlohmann::json &access(const nlohmann::json &subject,
 
 std::string to_string(const nlohmann::json &subject) {
   if (subject.is_string()) {
-    auto raw_dump = subject.dump();
-    return std::string{raw_dump, 1, raw_dump.size() - 2};
+    return subject.get<std::string>();
   }
   throw Error{"Expected a string"};
 }
-- 
2.43.0


From b8be07a7715f4ea22f331d1ed9bbc0f697ecf553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:56 +0000
Subject: [PATCH 20/48] fix: throw when a mandatory key is missing in the
 imported json

---
 src/src/io/json/Importer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index d8afd46..f4957cf 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -91,7 +91,7 @@ importFactor(const nlohmann::json &subject,
 
   for (const auto &comb : access(subject, "Distr_val")) {
     std::vector<std::size_t> combination;
-    for (const auto &v : comb["v"]) {
+    for (const auto &v : access(comb, "v")) {
       combination.push_back(std::atoi(to_string(v).c_str()));
     }
     const float val =
@@ -134,7 +134,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   // import variables
   categoric::VariablesSet variables;
   std::unordered_map<std::string, std::size_t> evidences;
-  for (const auto &var : source["Variables"]) {
+  for (const auto &var : access(source, "Variables")) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
     auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
@@ -151,7 +151,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   }
   // import potentials
   ImportHelper importer(recipient);
-  for (const auto &factor : source["Potentials"]) {
+  for (const auto &factor : access(source, "Potentials")) {
     importPotential(factor, variables, importer);
   }
   importer.importCumulatedTunable();
-- 
2.43.0


From f8cdfa3b5ac6799e797c76ef5d18a41aacd55d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:08 +0000
Subject: [PATCH 21/48] fix: export images and weights to json without losing
 precision

---
 src/src/io/json/Exporter.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/src/io/json/Exporter.cpp b/src/src/io/json/Exporter.cpp
index 30e1273..65b1106 100644
--- a/src/src/io/json/Exporter.cpp
+++ b/src/src/io/json/Exporter.cpp
@@ -11,6 +11,10 @@
 
 #include "../Utils.h"
 
+#include <iomanip>
+#include <limits>
+#include <sstream>
+
 namespace EFG::io::json {
 void Exporter::exportToFile(const nlohmann::json &source,
                             const std::filesystem::path &out) {
@@ -19,6 +23,12 @@ void Exporter::exportToFile(const nlohmann::json &source,
 }
 
 namespace {
+std::string to_string_exact(float value) {
+  std::stringstream buff;
+  buff << std::setprecision(std::numeric_limits<float>::max_digits10) << value;
+  return buff.str();
+}
+
 void printVariable(const categoric::VariablePtr &var,
                    nlohmann::json &recipient) {
   recipient["name"] = var->name();
@@ -40,7 +50,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
   distr.function().forEachNonNullCombination<false>(
       [&](const auto &comb, float img) {
         auto &Distr_val_added = Distr_val.emplace_back();
-        Distr_val_added["D"] = std::to_string(img);
+        Distr_val_added["D"] = to_string_exact(img);
         auto &values = Distr_val_added["v"];
         for (const auto &v : comb) {
           values.emplace_back() = std::to_string(v);
@@ -52,7 +62,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
 nlohmann::json &printExpPotential(const factor::FactorExponential &distr,
                                   nlohmann::json &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag["weight"] = std::to_string(distr.getWeight());
+  pot_tag["weight"] = to_string_exact(distr.getWeight());
   return pot_tag;
 }
 } // namespace
-- 
2.43.0


From 1f31b1a4334f73b893729f661bf5acfae41d4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:40 +0000
Subject: [PATCH 22/48] fix: refuse json files specifying a variable twice with
 different sizes

---
 src/src/io/json/Importer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index f4957cf..df2b52a 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -11,6 +11,8 @@
 
 #include "../Utils.h"
 
+#include <algorithm>
+
 namespace EFG::io::json {
 nlohmann::json
 Importer::importJsonFromFile(const std::filesystem::path &file_path) {
@@ -138,7 +140,10 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
     auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
-    if (variables.find(new_var) != variables.end()) {
+    if (std::any_of(variables.begin(), variables.end(),
+                    [&name](const categoric::VariablePtr &existing) {
+                      return existing->name() == name;
+                    })) {
       throw Error::make(name, " is a multiple times specified variable ");
     }
     variables.emplace(new_var);
-- 
2.43.0


From d720ef2ccb3b0adfb8f456ed32ac289edbc3dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:50 +0000
Subject: [PATCH 23/48] fix: do not divide by zero when normalizing null merged
 unaries

---
 src/src/structure/SpecialFactors.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d1f11a2..317c017 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -52,9 +52,12 @@ public:
   }
 
   void normalize() {
-    float coeff = 1.f / *std::max_element(imgs_->begin(), imgs_->end());
+    const float max = *std::max_element(imgs_->begin(), imgs_->end());
+    if (max == 0) {
+      return;
+    }
     for (auto &val : *imgs_) {
-      val *= coeff;
+      val /= max;
     }
   }
 
-- 
2.43.0


From b19874b67f33507978e7d0d19fc50e9756dce7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:00 +0000
Subject: [PATCH 24/48] fix: avoid under and overflows when merging many unary
 factors

---
 src/src/structure/SpecialFactors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index 317c017..967282c 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -74,8 +74,8 @@ MergedUnaries::MergedUnaries(const std::vector<const Immutable *> &factors)
           factors.front()->function().vars().getVariables().front())) {
   for (const auto *factor : factors) {
     merge(*factor);
+    normalize(); // at each step, to avoid under and overflows
   }
-  normalize();
 }
 
 void MergedUnaries::merge(const Immutable &to_merge) {
-- 
2.43.0


From 9fda627d5e7080bae24039a23d65466db7665131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:11 +0000
Subject: [PATCH 25/48] fix: do not assign a positive MAP message to impossible
 values

---
 src/src/structure/SpecialFactors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index 967282c..bf2b039 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -184,7 +184,7 @@ MessageMAP::MessageMAP(const UnaryFactor &merged_unaries,
           get_other_var(binary_factor, merged_unaries.getVariable()))) {
   struct Reducer {
     void update(float v) { val = std::max<float>(val, v); }
-    float val = std::numeric_limits<float>::min();
+    float val = 0; // images can't be negative
   };
   fill_message<Reducer>(merged_unaries, binary_factor, functionMutable());
 }
-- 
2.43.0


From 01698cb925254f57ca63e167dc6226a1a5fffe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:28 +0000
Subject: [PATCH 26/48] fix: do not transpose the binary factors when computing
 the messages

---
 src/src/structure/SpecialFactors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index bf2b039..33f35d9 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -147,8 +147,8 @@ void fill_message(const UnaryFactor &merged_unaries,
                   const Immutable &binary_factor, Function &recipient) {
   std::size_t message_pos;
   std::size_t sender_pos;
-  get_positions(binary_factor, merged_unaries.getVariable(), message_pos,
-                sender_pos);
+  get_positions(binary_factor, merged_unaries.getVariable(), sender_pos,
+                message_pos);
   std::size_t message_size =
       binary_factor.function().vars().getVariables()[message_pos]->size();
   for (std::size_t r = 0; r < message_size; ++r) {
-- 
2.43.0


From 8a02a3e69993a6ed3c185a7ce2e785802b6e6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:57 +0000
Subject: [PATCH 27/48] fix: never draw impossible values with the Gibbs
 sampler

---
 src/src/structure/GibbsSampler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index 503bac7..a00a371 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -21,13 +21,18 @@ std::size_t UniformSampler::sampleFromDiscrete(
     const std::vector<float> &distribution) const {
   float s = this->sample();
   float cumul = 0.f;
+  std::size_t last_possible = distribution.size() - 1;
   for (std::size_t k = 0; k < distribution.size(); ++k) {
+    if (distribution[k] == 0) {
+      continue; // impossible value, should never be drawn
+    }
+    last_possible = k;
     cumul += distribution[k];
     if (s <= cumul) {
       return k;
     }
   }
-  return distribution.size() - 1;
+  return last_possible;
 }
 
 void UniformSampler::resetSeed(std::size_t newSeed) {
-- 
2.43.0


From a2c80949168f439cd52c98e5665682cdbb478a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:42 +0000
Subject: [PATCH 28/48] fix: do not use the same random seed for all the
 threads of the Gibbs sampler

---
 src/src/structure/GibbsSampler.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index a00a371..8c2402b 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -109,12 +109,12 @@ make_sampling_tasks(const std::vector<GibbsSampler::SamplerNode> &nodes,
                     std::vector<UniformSampler> &engines,
                     const std::optional<std::size_t> &seed, Pool &pool) {
   engines.resize(pool.size());
-  if (std::nullopt != seed) {
-    std::size_t s = *seed;
-    for (auto &engine : engines) {
-      engine.resetSeed(s);
-      s += 5;
-    }
+  // the engines should not share the same seed
+  std::size_t s =
+      seed.has_value() ? *seed : static_cast<std::size_t>(time(NULL));
+  for (auto &engine : engines) {
+    engine.resetSeed(s);
+    s += 5;
   }
 
   std::vector<Tasks> result;
-- 
2.43.0


From 1966da692751005c2d9623be0c0757ab3b4a1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:12 +0000
Subject: [PATCH 29/48] fix: avoid under and overflows in the joint marginal
 query

---
 src/src/structure/QueryManager.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index 0870336..8c6728e 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -115,19 +115,24 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
 
   std::unordered_set<const factor::Immutable *> contributions;
   std::list<factor::Indicator> indicators; // addresses should remain valid
+  std::list<factor::MergedUnaries> merged; // addresses should remain valid
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
-        [&node = node, &subgroup_nodes,
-         &contributions](const HiddenClusters::iterator &) {
-          contributions.emplace(node->merged_unaries.get());
+        [&node = node, &subgroup_nodes, &contributions,
+         &merged](const HiddenClusters::iterator &) {
+          // messages are merged here (and not by the Factor) as the merging
+          // is done normalizing the values, avoiding under and overflows
+          std::vector<const factor::Immutable *> unaries = {
+              node->merged_unaries.get()};
           for (const auto &[connected_node, connection] :
                node->active_connections) {
             if (subgroup_nodes.find(connected_node) == subgroup_nodes.end()) {
-              contributions.emplace(connection.message.get());
+              unaries.push_back(connection.message.get());
             } else {
               contributions.emplace(connection.factor.get());
             }
           }
+          contributions.emplace(&merged.emplace_back(unaries));
         },
         [&node = node, &contributions,
          &indicators](const Evidences::iterator &location) {
-- 
2.43.0


From 0d68b7a015ef31e6e783b06ad8a7d5c029fcc76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:21 +0000
Subject: [PATCH 30/48] fix: do not reserve the whole joint domain when
 iterating a group

---
 src/src/categoric/GroupRange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/categoric/GroupRange.cpp b/src/src/categoric/GroupRange.cpp
index f42fe12..cbeb5f1 100644
--- a/src/src/categoric/GroupRange.cpp
+++ b/src/src/categoric/GroupRange.cpp
@@ -20,7 +20,7 @@ GroupRange::Data::Data(const std::vector<size_t> &s, bool eor)
 namespace {
 std::vector<size_t> get_sizes(const Group &variables) {
   std::vector<size_t> result;
-  result.reserve(variables.size());
+  result.reserve(variables.getVariables().size());
   for (const auto &var : variables.getVariables()) {
     result.push_back(var->size());
   }
-- 
2.43.0


From 16a3a717a6ec63c4856b2f5d089f9f46230395de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:06 +0000
Subject: [PATCH 31/48] fix: a set of variables can be removed from itself

---
 src/src/categoric/Group.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/categoric/Group.cpp b/src/src/categoric/Group.cpp
index 6a56837..d217730 100644
--- a/src/src/categoric/Group.cpp
+++ b/src/src/categoric/Group.cpp
@@ -83,6 +83,10 @@ std::size_t Group::size() const {
 }
 
 VariablesSet &operator-=(VariablesSet &subject, const VariablesSet &to_remove) {
+  if (&subject == &to_remove) {
+    subject.clear();
+    return subject;
+  }
   for (const auto &rem : to_remove) {
     auto it = subject.find(rem);
     if (it != subject.end()) {
-- 
2.43.0


From 368597b8f06cf4a213ab9ef090840c2a660c9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:38 +0000
Subject: [PATCH 32/48] fix: a model can absorb itself

---
 src/src/model/Graph.cpp       | 6 ++++--
 src/src/model/RandomField.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/src/model/Graph.cpp b/src/src/model/Graph.cpp
index b8c7840..e656e8a 100644
--- a/src/src/model/Graph.cpp
+++ b/src/src/model/Graph.cpp
@@ -9,9 +9,11 @@
 
 namespace EFG::model {
 void Graph::absorb(const strct::FactorsAware &to_absorb, bool copy) {
-  const auto &factors = to_absorb.getAllFactors();
+  // copied, as the absorbed model may be this one
+  const auto factors = to_absorb.getAllFactors();
   absorbConstFactors(factors.begin(), factors.end(), copy);
-  for (const auto &[var, val] : to_absorb.getEvidences()) {
+  const auto evidences = to_absorb.getEvidences();
+  for (const auto &[var, val] : evidences) {
     setEvidence(var, val);
   }
 }
diff --git a/src/src/model/RandomField.cpp b/src/src/model/RandomField.cpp
index ab5cbcc..0fc237b 100644
--- a/src/src/model/RandomField.cpp
+++ b/src/src/model/RandomField.cpp
@@ -13,7 +13,8 @@ void RandomField::absorb(const strct::FactorsAware &to_absorb, bool copy) {
   castConstAndUse<strct::FactorsConstGetter>(
       to_absorb,
       [this, &copy](const strct::FactorsConstGetter &as_factor_aware) {
-        const auto &factors = as_factor_aware.getConstFactors();
+        // copied, as the absorbed model may be this one
+        const auto factors = as_factor_aware.getConstFactors();
         this->absorbConstFactors(factors.begin(), factors.end(), copy);
       });
   castConstAndUse<train::FactorsTunableGetter>(
@@ -22,7 +23,8 @@ void RandomField::absorb(const strct::FactorsAware &to_absorb, bool copy) {
        &copy](const train::FactorsTunableGetter &as_factor_tunable_aware) {
         this->absorbTunableClusters(as_factor_tunable_aware, copy);
       });
-  for (const auto &[var, val] : to_absorb.getEvidences()) {
+  const auto evidences = to_absorb.getEvidences();
+  for (const auto &[var, val] : evidences) {
     setEvidence(var, val);
   }
 }
-- 
2.43.0


From eb3a81e83d606541298d44a133748695c78f6e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:51 +0000
Subject: [PATCH 33/48] fix: refuse variables with a negative size in a json

---
 src/src/io/json/Importer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index df2b52a..7d6f6f2 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -139,7 +139,11 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   for (const auto &var : access(source, "Variables")) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
-    auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
+    const int size_val = std::atoi(size.c_str());
+    if (size_val <= 0) {
+      throw Error::make(size, " is an invalid size for a variable");
+    }
+    auto new_var = categoric::make_variable(size_val, name);
     if (std::any_of(variables.begin(), variables.end(),
                     [&name](const categoric::VariablePtr &existing) {
                       return existing->name() == name;
-- 
2.43.0


From 8a1bf1453e9052a8ca5cc66d92f6b77063efc01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:32 +0000
Subject: [PATCH 34/48] fix: do not use linearly dependent seeds for the
 threads of the Gibbs sampler

---
 src/src/structure/GibbsSampler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index 8c2402b..37bdb08 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -112,9 +112,11 @@ make_sampling_tasks(const std::vector<GibbsSampler::SamplerNode> &nodes,
   // the engines should not share the same seed
   std::size_t s =
       seed.has_value() ? *seed : static_cast<std::size_t>(time(NULL));
+  std::mt19937 seeds_source(static_cast<unsigned int>(s));
   for (auto &engine : engines) {
     engine.resetSeed(s);
-    s += 5;
+    // equally spaced seeds would lead to linearly dependent extractions
+    s = seeds_source();
   }
 
   std::vector<Tasks> result;
-- 
2.43.0


From cbddfc33be59b456ec6b1e6fa31d9e54a9a841ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:24 +0000
Subject: [PATCH 35/48] fix: export images and weights to xml without losing
 precision

---
 src/src/io/xml/Exporter.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/src/io/xml/Exporter.cpp b/src/src/io/xml/Exporter.cpp
index b19b5ef..268bcf8 100644
--- a/src/src/io/xml/Exporter.cpp
+++ b/src/src/io/xml/Exporter.cpp
@@ -14,8 +14,18 @@
 
 #include <XML-Parser/Tag.h>
 
+#include <iomanip>
+#include <limits>
+#include <sstream>
+
 namespace EFG::io::xml {
 namespace {
+std::string to_string_exact(float value) {
+  std::stringstream buff;
+  buff << std::setprecision(std::numeric_limits<float>::max_digits10) << value;
+  return buff.str();
+}
+
 xmlPrs::Tag &printVariable(const categoric::VariablePtr &var,
                            xmlPrs::Tag &recipient) {
   auto &var_tag = recipient.addNested("Variable");
@@ -40,7 +50,7 @@ xmlPrs::Tag &printPotential(const factor::Immutable &distr,
       [&](const auto &comb, float img) {
         auto &comb_val = pot_tag.addNested("Distr_val");
         auto &attributes = comb_val.getAttributes();
-        attributes.emplace("D", std::to_string(img));
+        attributes.emplace("D", to_string_exact(img));
         for (auto v : comb) {
           attributes.emplace("v", std::to_string(v));
         }
@@ -51,7 +61,8 @@ xmlPrs::Tag &printPotential(const factor::Immutable &distr,
 xmlPrs::Tag &printExpPotential(const factor::FactorExponential &distr,
                                xmlPrs::Tag &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag.getAttributes().emplace("weight", std::to_string(distr.getWeight()));
+  pot_tag.getAttributes().emplace("weight",
+                                  to_string_exact(distr.getWeight()));
   return pot_tag;
 }
 } // namespace
-- 
2.43.0


From 87ef1d57756e1b4353e2849880c3a7a291c1774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 36/48] fix: refuse xml files specifying a variable twice with
 different sizes

---
 src/src/io/xml/Importer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/io/xml/Importer.cpp b/src/src/io/xml/Importer.cpp
index 524d127..504b965 100644
--- a/src/src/io/xml/Importer.cpp
+++ b/src/src/io/xml/Importer.cpp
@@ -157,7 +157,10 @@ Importer::convert(Inserters subject, const std::filesystem::path &file_path) {
         const auto &name = access_attribute(*var, "name");
         const auto &size = access_attribute(*var, "Size");
         auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
-        if (variables.find(new_var) != variables.end()) {
+        if (std::any_of(variables.begin(), variables.end(),
+                        [&name](const categoric::VariablePtr &existing) {
+                          return existing->name() == name;
+                        })) {
           throw Error::make(name, " is a multiple times specified variable ");
         }
         variables.emplace(new_var);
-- 
2.43.0


From 158ea6445611d256d57844a625ee3a2e3ec44ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 37/48] fix: refuse variables with a negative size in an xml

---
 src/src/io/xml/Importer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/src/io/xml/Importer.cpp b/src/src/io/xml/Importer.cpp
index 504b965..07430d2 100644
--- a/src/src/io/xml/Importer.cpp
+++ b/src/src/io/xml/Importer.cpp
@@ -156,7 +156,11 @@ Importer::convert(Inserters subject, const std::filesystem::path &file_path) {
       [&variables, &evidences](const xmlPrs::TagPtr &var) {
         const auto &name = access_attribute(*var, "name");
         const auto &size = access_attribute(*var, "Size");
-        auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
+        const int size_val = std::atoi(size.c_str());
+        if (size_val <= 0) {
+          throw Error::make(size, " is an invalid size for a variable");
+        }
+        auto new_var = categoric::make_variable(size_val, name);
         if (std::any_of(variables.begin(), variables.end(),
                         [&name](const categoric::VariablePtr &existing) {
                           return existing->name() == name;
-- 
2.43.0


From 11f6bcf548fe039d45d87b083cd573aca622731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 38/48] fix: do not read past the tokens of a line without
 values

---
 src/src/io/Utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index 7757e80..09a8e56 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -20,6 +20,9 @@ parse_combination_image(const std::string &line) {
       tokens.emplace_back(std::move(token));
     }
   }
+  if (tokens.empty()) {
+    throw Error{"Expected a combination and an image"};
+  }
   std::vector<std::size_t> comb;
   std::for_each(
       tokens.begin(), tokens.end() - 1, [&comb](const std::string &str) {
-- 
2.43.0


From 00558739f40910df2ef5cab8016d855f4d6d4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:06 +0000
Subject: [PATCH 39/48] fix: keep the sharing groups of the absorbed clusters

The elements of an absorbed cluster were joined to the first cluster having a
factor with the variables of the front one, which may be another cluster.
---
 .../trainable/FactorsTunableManager.h         |  5 +++
 src/src/trainable/FactorsTunableManager.cpp   | 41 +++++++++++--------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
index d7f984e..cb1caac 100644
--- a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
+++ b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
@@ -130,6 +130,11 @@ protected:
   Tuners::iterator findTuner(const categoric::VariablesSet &tuned_vars_group);
 
 private:
+  // tuner_sharing_weight is the position in tuners of the tuner to join
+  void insertTunableFactor(
+      const FactorExponentialPtr &factor,
+      const std::optional<std::size_t> &tuner_sharing_weight);
+
   TunerPtr makeTuner(const FactorExponentialPtr &factor);
 };
 
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index f19c114..e9ac051 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -135,16 +135,25 @@ void FactorsTunableInserter::addTunableFactor(
     const FactorExponentialPtr &factor,
     const std::optional<categoric::VariablesSet> &group_sharing_weight) {
   // searched before altering the model, as it may throw
-  auto other_it = group_sharing_weight.has_value()
-                      ? findTuner(*group_sharing_weight)
-                      : tuners.end();
+  std::optional<std::size_t> tuner_sharing_weight;
+  if (group_sharing_weight.has_value()) {
+    tuner_sharing_weight =
+        std::distance(tuners.begin(), findTuner(*group_sharing_weight));
+  }
+  insertTunableFactor(factor, tuner_sharing_weight);
+}
+
+void FactorsTunableInserter::insertTunableFactor(
+    const FactorExponentialPtr &factor,
+    const std::optional<std::size_t> &tuner_sharing_weight) {
   addDistribution(factor);
   auto tuner = makeTuner(factor);
   tunable_factors.emplace(factor);
-  if (std::nullopt == group_sharing_weight) {
+  if (std::nullopt == tuner_sharing_weight) {
     tuners.emplace_back(std::move(tuner));
     return;
   }
+  auto other_it = tuners.begin() + *tuner_sharing_weight;
   visitTuner(
       other_it->get(),
       [&tuner, &other_it](BaseTuner &) {
@@ -173,12 +182,11 @@ void FactorsTunableInserter::absorbTunableClusters(
   auto insertFactor =
       [copy = copy, this](
           const FactorExponentialPtr &factor,
-          const std::optional<categoric::VariablesSet> &group_sharing_weight) {
-        if (copy) {
-          copyTunableFactor(*factor, group_sharing_weight);
-        } else {
-          addTunableFactor(factor, group_sharing_weight);
-        }
+          const std::optional<std::size_t> &tuner_sharing_weight) {
+        insertTunableFactor(
+            copy ? std::make_shared<factor::FactorExponential>(*factor)
+                 : factor,
+            tuner_sharing_weight);
       };
 
   for (const auto &cluster : source.getTunableClusters()) {
@@ -187,15 +195,14 @@ void FactorsTunableInserter::absorbTunableClusters(
           [&insertFactor](const FactorExponentialPtr &base) {
             insertFactor(base, std::nullopt);
           },
-          [&insertFactor](const TunableClusters &composite) {
-            auto front_factor = composite.front();
-            const auto &vars =
-                front_factor->function().vars().getVariablesSet();
-            insertFactor(front_factor, std::nullopt);
+          [&insertFactor, this](const TunableClusters &composite) {
+            insertFactor(composite.front(), std::nullopt);
+            // the variables may not be enough to identify the cluster
+            const std::size_t added = tuners.size() - 1;
             std::for_each(
                 composite.begin() + 1, composite.end(),
-                [&insertFactor, &vars](const FactorExponentialPtr &tuner) {
-                  insertFactor(tuner, vars);
+                [&insertFactor, &added](const FactorExponentialPtr &tuner) {
+                  insertFactor(tuner, added);
                 });
           }}
           .visit(cluster);
-- 
2.43.0


From b156cc02a3f36c94143ad0fe7b401e33a9862e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:37 +0000
Subject: [PATCH 40/48] fix: identify sharing groups by their front factor
 first

Exported files refer to a group through the variables of its front factor, which
may be also the ones of a factor previously added to another group.
---
 src/src/trainable/FactorsTunableManager.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index e9ac051..aeec6ac 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -85,6 +85,24 @@ std::vector<float> FactorsTunableGetter::getWeightsGradient(
 
 Tuners::iterator FactorsTunableInserter::findTuner(
     const categoric::VariablesSet &tuned_vars_group) {
+  auto front_refers_to = [&group = tuned_vars_group](const TunerPtr &tuner) {
+    bool is_here = false;
+    auto check = [&is_here, &group](const Tuner &front) {
+      is_here = extract_factor(front)->function().vars().getVariablesSet() ==
+                group;
+    };
+    visitTuner(
+        tuner.get(), [&check](const BaseTuner &base) { check(base); },
+        [&check](const CompositeTuner &composite) {
+          check(*composite.getElements().front());
+        });
+    return is_here;
+  };
+  // clusters are identified by their front factor
+  if (auto it = std::find_if(tuners.begin(), tuners.end(), front_refers_to);
+      it != tuners.end()) {
+    return it;
+  }
   auto tuners_it = std::find_if(
       tuners.begin(), tuners.end(),
       [&group = tuned_vars_group](const TunerPtr &tuner) {
-- 
2.43.0


From 93297dc3ff4a59c154df7242c3eb1c2f9fc3b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 41/48] fix: propagate again the belief after changing the
 propagation context or strategy

---
 src/header/EasyFactorGraph/structure/bases/BeliefAware.h | 5 ++++-
 src/src/structure/bases/BeliefAware.cpp                  | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/BeliefAware.h b/src/header/EasyFactorGraph/structure/bases/BeliefAware.h
index bd3f970..22fc13d 100644
--- a/src/header/EasyFactorGraph/structure/bases/BeliefAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/BeliefAware.h
@@ -36,7 +36,10 @@ public:
   virtual ~BeliefAware() = default;
 
   const PropagationContext &getPropagationContext() const { return context; }
-  void setPropagationContext(const PropagationContext &ctxt) { context = ctxt; }
+  void setPropagationContext(const PropagationContext &ctxt) {
+    context = ctxt;
+    resetBelief();
+  }
 
   bool hasPropagationResult() const { return lastPropagation.has_value(); }
   const PropagationResult &getLastPropagationResult() const {
diff --git a/src/src/structure/bases/BeliefAware.cpp b/src/src/structure/bases/BeliefAware.cpp
index c019b7f..db4369a 100644
--- a/src/src/structure/bases/BeliefAware.cpp
+++ b/src/src/structure/bases/BeliefAware.cpp
@@ -20,6 +20,7 @@ void BeliefAware::setLoopyPropagationStrategy(
     throw Error{"trying to set a null propagator"};
   }
   loopy_propagator = std::move(strategy);
+  resetBelief();
 }
 
 bool BeliefAware::wouldNeedPropagation(PropagationKind kind) const {
-- 
2.43.0


From 5fad195e1d9a7bdaa94126a8ee80996633893f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:00 +0000
Subject: [PATCH 42/48] fix: refuse percentages that are not a number

---
 src/src/model/ConditionalRandomField.cpp | 2 +-
 src/src/trainable/TrainSet.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index c6dd687..3009aad 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -193,7 +193,7 @@ std::vector<float> ConditionalRandomField::getWeightsGradient_(
 std::vector<std::vector<std::size_t>> ConditionalRandomField::makeTrainSet(
     const GibbsSampler::SamplesGenerationContext &context,
     float range_percentage, const std::size_t threads) {
-  if ((range_percentage > 1.f) || (range_percentage < 0)) {
+  if (!((range_percentage >= 0) && (range_percentage <= 1.f))) { // nan included
     throw Error{"Invalid range percentage"};
   }
 
diff --git a/src/src/trainable/TrainSet.cpp b/src/src/trainable/TrainSet.cpp
index 9cd88a4..cb6fa6d 100644
--- a/src/src/trainable/TrainSet.cpp
+++ b/src/src/trainable/TrainSet.cpp
@@ -29,7 +29,7 @@ TrainSet::Iterator::Iterator(const TrainSet &subject, float percentage) {
   if (1.f == percentage) {
     return;
   }
-  if ((percentage <= 0) || (percentage > 1.f)) {
+  if (!((percentage > 0) && (percentage <= 1.f))) { // nan included
     throw Error::make(percentage,
                       " is an invalid percentage for a TrainSet Iterator");
   }
-- 
2.43.0


From afac7d946fafb7b82fc4fe821766992be74aff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:49 +0000
Subject: [PATCH 43/48] fix: don't wrap the number of combinations of factors
 with many variables

The product of the sizes wrapped, leading to a too small dense container
when more than 2^64 combinations are possible.
---
 src/src/factor/Function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/factor/Function.cpp b/src/src/factor/Function.cpp
index d255737..5c62c6a 100644
--- a/src/src/factor/Function.cpp
+++ b/src/src/factor/Function.cpp
@@ -7,13 +7,19 @@
 
 #include <EasyFactorGraph/factor/Function.h>
 
+#include <limits>
 #include <math.h>
 
 namespace EFG::factor {
 namespace {
 std::size_t sizes_prod(const std::vector<std::size_t> &sizes) {
+  constexpr std::size_t MAX = std::numeric_limits<std::size_t>::max();
   std::size_t res = 1;
   for (auto v : sizes) {
+    if (res > MAX / v) {
+      // saturate, in order to never pass to the dense representation
+      return MAX;
+    }
     res *= v;
   }
   return res;
-- 
2.43.0


From bf2343dfbe3fa87c4f1a574ec7066ccb8d621461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:29 +0000
Subject: [PATCH 44/48] fix: revert 51b75ab, groups with other instances of the
 variables were already refused

---
 src/src/factor/Factor.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/src/factor/Factor.cpp b/src/src/factor/Factor.cpp
index 8d1163b..f9ab8b6 100644
--- a/src/src/factor/Factor.cpp
+++ b/src/src/factor/Factor.cpp
@@ -10,8 +10,6 @@
 // #include <EasyFactorGraph/factor/CombinationFinder.h>
 #include <EasyFactorGraph/factor/Factor.h>
 
-#include <algorithm>
-
 namespace EFG::factor {
 Factor::Factor(FunctionPtr data) : Immutable{data}, Mutable{data} {}
 
@@ -178,9 +176,7 @@ compute_new_positions(const categoric::VariablesSoup &old_order,
   std::vector<std::size_t> result;
   result.reserve(old_order.size());
   for (const auto &var : old_order) {
-    auto it = std::find_if(
-        new_order.begin(), new_order.end(),
-        [&var](const categoric::VariablePtr &o) { return *o == *var; });
+    auto it = std::find(new_order.begin(), new_order.end(), var);
     result.push_back(std::distance(new_order.begin(), it));
   }
   return result;
-- 
2.43.0


From 846e8c66749835294775c7051b475e633cf65324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 45/48] fix: refuse train sets not compatible with the model

The gradient of samples with missing columns, or with values out of the
domains, was reading out of the images of the factors, and the one of a
conditional model could be left half way by the refused evidences.
---
 .../trainable/FactorsTunableManager.h          |  4 ++++
 src/src/trainable/FactorsTunableManager.cpp    | 18 ++++++++++++++++++
 src/src/trainable/ModelTrainer.cpp             |  4 +++-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
index cb1caac..e8acaf5 100644
--- a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
+++ b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
@@ -51,6 +51,7 @@ public:
    * getTunableClusters() is assumed.
    * @param the training set to use
    * @param the number of threads to use for the gradient computation
+   * @throw in case the training set is not compatible with this model
    */
   std::vector<float>
   getWeightsGradient(const TrainSet::Iterator &train_set_combinations,
@@ -62,6 +63,9 @@ protected:
   virtual std::vector<float>
   getWeightsGradient_(const TrainSet::Iterator &train_set_combinations) = 0;
 
+  // throws if the samples don't refer to the variables in this model
+  void checkCompatible(const TrainSet::Iterator &train_set_combinations) const;
+
   // invalidates whatever was precomputed with the previous weights
   void resetWeightsDependencies();
 
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index aeec6ac..5a23acb 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -76,9 +76,27 @@ void FactorsTunableGetter::resetWeightsDependencies() {
   resetBelief();
 }
 
+void FactorsTunableGetter::checkCompatible(
+    const TrainSet::Iterator &train_set_combinations) const {
+  const auto &vars = getAllVariables();
+  train_set_combinations.forEachSample(
+      [&vars](const std::vector<std::size_t> &combination) {
+        if (combination.size() < vars.size()) {
+          throw Error{"Train set not compatible with the model"};
+        }
+        for (std::size_t k = 0; k < vars.size(); ++k) {
+          if (combination[k] >= vars[k]->size()) {
+            throw Error::make(combination[k], " is an invalid value for ",
+                              vars[k]->name());
+          }
+        }
+      });
+}
+
 std::vector<float> FactorsTunableGetter::getWeightsGradient(
     const TrainSet::Iterator &train_set_combinations,
     const std::size_t threads) {
+  checkCompatible(train_set_combinations);
   ScopedPoolActivator activator(*this, threads);
   return getWeightsGradient_(train_set_combinations);
 }
diff --git a/src/src/trainable/ModelTrainer.cpp b/src/src/trainable/ModelTrainer.cpp
index 0b025a1..2670a59 100644
--- a/src/src/trainable/ModelTrainer.cpp
+++ b/src/src/trainable/ModelTrainer.cpp
@@ -55,7 +55,9 @@ public:
                const TrainInfo &info)
       : subject(subject),
         train_set(TrainSetWrapper{train_set, info.stochastic_percentage}),
-        activator(subject, info.threads) {}
+        activator(subject, info.threads) {
+    subject.checkCompatible(train_set.makeIterator());
+  }
 
   ::train::Vect getParameters() const final {
     return to_Vect(subject.getWeights());
-- 
2.43.0


From 4a7c3c1c93f6ecc25240ae1ca734ed3459ad8427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:25 +0000
Subject: [PATCH 46/48] fix: numbers in files out of range are not wrapped

Values like 4294967296 were read as 0 by atoi (undefined for them), and
accepted as part of the domain of the variables.
---
 src/src/io/TrainSetImport.cpp |  2 +-
 src/src/io/Utils.cpp          | 13 ++++++++++++-
 src/src/io/Utils.h            |  3 +++
 src/src/io/json/Importer.cpp  |  6 +++---
 src/src/io/xml/Importer.cpp   |  6 +++---
 5 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/src/io/TrainSetImport.cpp b/src/src/io/TrainSetImport.cpp
index 081dffe..736cffa 100644
--- a/src/src/io/TrainSetImport.cpp
+++ b/src/src/io/TrainSetImport.cpp
@@ -24,7 +24,7 @@ train::TrainSet import_train_set(const std::string &file_name) {
       std::string token;
       while (buff >> token) {
         combination.push_back(
-            static_cast<std::size_t>(std::atoi(token.c_str())));
+            static_cast<std::size_t>(parse_integer(token)));
       }
       if ((expected_size != 0) && (combination.size() != expected_size)) {
         throw Error::make("Invalid combination size at line ",
diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index 09a8e56..84c0ed8 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -7,9 +7,20 @@
 
 #include "Utils.h"
 
+#include <cerrno>
+#include <cstdlib>
 #include <sstream>
 
 namespace EFG::io {
+long long parse_integer(const std::string &subject) {
+  errno = 0;
+  const long long result = std::strtoll(subject.c_str(), nullptr, 10);
+  if (ERANGE == errno) {
+    throw Error::make(subject, " is out of the range of the integers");
+  }
+  return result;
+}
+
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line) {
   std::stringstream buff{line};
@@ -26,7 +37,7 @@ parse_combination_image(const std::string &line) {
   std::vector<std::size_t> comb;
   std::for_each(
       tokens.begin(), tokens.end() - 1, [&comb](const std::string &str) {
-        comb.push_back(static_cast<std::size_t>(std::atoi(str.c_str())));
+        comb.push_back(static_cast<std::size_t>(parse_integer(str)));
       });
   return std::make_pair(std::move(comb),
                         static_cast<float>(std::atof(tokens.back().c_str())));
diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index 8563812..49a9ff8 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -50,6 +50,9 @@ void for_each_line(std::istream &stream, const Predicate &pred) {
   }
 }
 
+// throws for numbers out of range, that atoi would alter
+long long parse_integer(const std::string &subject);
+
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line);
 
diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index 7d6f6f2..3410ce0 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -94,7 +94,7 @@ importFactor(const nlohmann::json &subject,
   for (const auto &comb : access(subject, "Distr_val")) {
     std::vector<std::size_t> combination;
     for (const auto &v : access(comb, "v")) {
-      combination.push_back(std::atoi(to_string(v).c_str()));
+      combination.push_back(parse_integer(to_string(v)));
     }
     const float val =
         static_cast<float>(std::atof(to_string(access(comb, "D")).c_str()));
@@ -139,7 +139,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   for (const auto &var : access(source, "Variables")) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
-    const int size_val = std::atoi(size.c_str());
+    const auto size_val = parse_integer(size);
     if (size_val <= 0) {
       throw Error::make(size, " is an invalid size for a variable");
     }
@@ -154,7 +154,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
     const auto *obs_flag = try_access(var, "evidence");
     if (nullptr != obs_flag) {
       const std::size_t val =
-          static_cast<std::size_t>(std::atoi(to_string(*obs_flag).c_str()));
+          static_cast<std::size_t>(parse_integer(to_string(*obs_flag)));
       evidences.emplace(name, val);
     }
   }
diff --git a/src/src/io/xml/Importer.cpp b/src/src/io/xml/Importer.cpp
index 07430d2..c0199dd 100644
--- a/src/src/io/xml/Importer.cpp
+++ b/src/src/io/xml/Importer.cpp
@@ -101,7 +101,7 @@ importFactor(const std::string &prefix, const xmlPrs::Tag &tag,
                  std::vector<std::size_t> combination;
                  for_each_key(comb->getAttributes(), xmlPrs::Name{"v"},
                               [&combination](const std::string &var) {
-                                combination.push_back(std::atoi(var.c_str()));
+                                combination.push_back(parse_integer(var));
                               });
                  const float val = static_cast<float>(
                      std::atof(access_attribute(*comb, "D").c_str()));
@@ -156,7 +156,7 @@ Importer::convert(Inserters subject, const std::filesystem::path &file_path) {
       [&variables, &evidences](const xmlPrs::TagPtr &var) {
         const auto &name = access_attribute(*var, "name");
         const auto &size = access_attribute(*var, "Size");
-        const int size_val = std::atoi(size.c_str());
+        const auto size_val = parse_integer(size);
         if (size_val <= 0) {
           throw Error::make(size, " is an invalid size for a variable");
         }
@@ -171,7 +171,7 @@ Importer::convert(Inserters subject, const std::filesystem::path &file_path) {
         const auto *obs_flag = try_access_attribute(*var, "evidence");
         if (nullptr != obs_flag) {
           const std::size_t val =
-              static_cast<std::size_t>(atoi(obs_flag->c_str()));
+              static_cast<std::size_t>(parse_integer(*obs_flag));
           evidences.emplace(name, val);
         }
       });
-- 
2.43.0


From 0a9e6ebb1ce668c504ea9a44645ee4f458919eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:18 +0000
Subject: [PATCH 47/48] fix: values files are found also for a document in the
 current folder

---
 src/src/io/xml/Importer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/io/xml/Importer.cpp b/src/src/io/xml/Importer.cpp
index c0199dd..6837a8d 100644
--- a/src/src/io/xml/Importer.cpp
+++ b/src/src/io/xml/Importer.cpp
@@ -92,7 +92,8 @@ importFactor(const std::string &prefix, const xmlPrs::Tag &tag,
 
   const auto *source = try_access_attribute(tag, "Source");
   if (nullptr != source) {
-    import_values(*result, prefix + "/" + *source);
+    // the prefix is empty when importing from the current folder
+    import_values(*result, (prefix.empty() ? "." : prefix) + "/" + *source);
     return result;
   }
 
-- 
2.43.0


From 482a4661852ecb0d49155a27cc93dca1587f6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:31 +0000
Subject: [PATCH 48/48] fix: avoid overflows when summing images close to the
 float limit

---
 src/src/factor/Immutable.cpp         |  2 +-
 src/src/structure/SpecialFactors.cpp | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/src/factor/Immutable.cpp b/src/src/factor/Immutable.cpp
index 8698904..cd4efa6 100644
--- a/src/src/factor/Immutable.cpp
+++ b/src/src/factor/Immutable.cpp
@@ -24,7 +24,7 @@ std::vector<float> Immutable::getProbabilities() const {
         probs.push_back(img);
       });
   // normalize values
-  float sum = 0.f;
+  double sum = 0; // might be not representable as a float
   for (const auto &val : probs) {
     sum += val;
   }
diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index 33f35d9..649d6c5 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -151,6 +151,8 @@ void fill_message(const UnaryFactor &merged_unaries,
                 message_pos);
   std::size_t message_size =
       binary_factor.function().vars().getVariables()[message_pos]->size();
+  std::vector<double> values;
+  values.reserve(message_size);
   for (std::size_t r = 0; r < message_size; ++r) {
     ReducerT reducer{};
     merged_unaries.function().forEachCombination<true>(
@@ -162,7 +164,15 @@ void fill_message(const UnaryFactor &merged_unaries,
           reducer.update(sender_val * binary_factor.function().findTransformed(
                                           binary_factor_comb));
         });
-    recipient.set(std::vector<std::size_t>{r}, reducer.val);
+    values.push_back(reducer.val);
+  }
+  // messages are defined up to a scale factor
+  const double max = *std::max_element(values.begin(), values.end());
+  const double scale =
+      max > static_cast<double>(std::numeric_limits<float>::max()) ? max : 1.0;
+  for (std::size_t r = 0; r < message_size; ++r) {
+    recipient.set(std::vector<std::size_t>{r},
+                  static_cast<float>(values[r] / scale));
   }
 }
 } // namespace
@@ -173,7 +183,7 @@ MessageSUM::MessageSUM(const UnaryFactor &merged_unaries,
           get_other_var(binary_factor, merged_unaries.getVariable()))) {
   struct Reducer {
     void update(float v) { val += v; }
-    float val = 0;
+    double val = 0; // might be not representable as a float
   };
   fill_message<Reducer>(merged_unaries, binary_factor, functionMutable());
 }
-- 
2.43.0

