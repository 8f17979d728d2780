From 8dc135bc81f08646ca4f3e5dbb2816f43a861299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:52 +0000
Subject: [PATCH 01/52] fix: skip dead listeners and allow registration while
 an event is delivered

---
 src/event/Source.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/event/Source.cpp b/src/event/Source.cpp
index d4a8734..9509e3b 100644
--- a/src/event/Source.cpp
+++ b/src/event/Source.cpp
@@ -14,9 +14,14 @@ void Source::regist(std::shared_ptr<Listener> user, Type evt) { registrations_[e
 
 void Source::notify(Type evt)
 {
-  const auto & list = registrations_[evt];
+  // We iterate on a copy as a listener may register other ones while receiving the event.
+  const auto list = registrations_[evt];
   for(const auto & u : list)
-    u.lock()->receive(evt, *this);
+  {
+    // Listeners that are not alive anymore are skipped.
+    if(auto l = u.lock())
+      l->receive(evt, *this);
+  }
 }
 
 } // namespace event
-- 
2.43.0


From 4e2a477d1470a7ad4933dd698bd6ddf766eb1f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:26 +0000
Subject: [PATCH 02/52] fix: run each callback once whatever callbacks do while
 being run

---
 include/tvm/internal/CallbackManager.h | 45 +++++++++++++++++++-------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/tvm/internal/CallbackManager.h b/include/tvm/internal/CallbackManager.h
index 7905652..3a706c4 100644
--- a/include/tvm/internal/CallbackManager.h
+++ b/include/tvm/internal/CallbackManager.h
@@ -5,8 +5,8 @@
 #include <tvm/internal/PairElementToken.h>
 
 #include <algorithm>
+#include <deque>
 #include <functional>
-#include <vector>
 
 namespace tvm::internal
 {
@@ -36,11 +36,17 @@ public:
 
   /** Run all callbacks. Remove the ones for which the token obtained at the
    * registration was destroyed.
+   *
+   * A callback can register or unregister callbacks (itself included). Callbacks
+   * registered during a run are only called at the next one.
    */
   void run();
 
 private:
-  std::vector<TCPair> callbacks_;
+  /** \internal A deque, so that registering a callback does not move the ones being run.*/
+  std::deque<TCPair> callbacks_;
+  /** Number of (nested) runs being executed. Callbacks are not erased meanwhile.*/
+  int running_ = 0;
 };
 
 inline PairElementTokenHandle CallbackManager::registerCallback(std::function<void()> c)
@@ -54,25 +60,42 @@ inline void CallbackManager::unregisterCallback(const PairElementToken & t)
   auto it =
       std::find_if(callbacks_.begin(), callbacks_.end(), [&](const TCPair & p) { return p.first.isPairedWith(t); });
   if(it != callbacks_.end())
-    callbacks_.erase(it);
+  {
+    if(running_ == 0)
+      callbacks_.erase(it);
+    else
+      it->first = PairElementToken(); // unpair only: the callback is not called anymore and will be erased later
+  }
   else
     throw std::runtime_error("Element to unregister not found.");
 }
 
 inline void CallbackManager::run()
 {
-  for(size_t i = 0; i < callbacks_.size();)
+  if(running_ == 0)
   {
-    if(callbacks_[i].first.isPaired())
-    {
-      std::invoke(callbacks_[i].second);
-      ++i;
-    }
-    else
+    for(size_t i = 0; i < callbacks_.size();)
     {
-      callbacks_.erase(callbacks_.begin() + i);
+      if(callbacks_[i].first.isPaired())
+        ++i;
+      else
+        callbacks_.erase(callbacks_.begin() + i);
     }
   }
+
+  struct Running
+  {
+    explicit Running(int & n) : n(n) { ++n; }
+    ~Running() { --n; }
+    int & n;
+  } running(running_);
+
+  const size_t n = callbacks_.size();
+  for(size_t i = 0; i < n; ++i)
+  {
+    if(callbacks_[i].first.isPaired())
+      std::invoke(callbacks_[i].second);
+  }
 }
 
 } // namespace tvm::internal
-- 
2.43.0


From 13038a85569f68c49a05aa74f101dd7556abff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:26 +0000
Subject: [PATCH 03/52] fix: notify requirement changes made by assigning a
 requirement

---
 include/tvm/requirements/abstract/SingleSolvingRequirement.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tvm/requirements/abstract/SingleSolvingRequirement.h b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
index 63ce1c2..089cdd3 100644
--- a/include/tvm/requirements/abstract/SingleSolvingRequirement.h
+++ b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
@@ -55,6 +55,10 @@ protected:
   {
     value_ = other.value();
     default_ = other.isDefault();
+    if constexpr(!Lightweight)
+    {
+      Base::run();
+    }
     return *this;
   }
 
-- 
2.43.0


From a0ee67a8709ef5ea2889e42bbf0fc1c735741818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:11 +0000
Subject: [PATCH 04/52] fix: report cycles that are not reachable from any root
 when ordering a dependency graph

---
 src/graph/DependencyGraph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/graph/DependencyGraph.cpp b/src/graph/DependencyGraph.cpp
index 898c3f5..3a9a98f 100644
--- a/src/graph/DependencyGraph.cpp
+++ b/src/graph/DependencyGraph.cpp
@@ -316,6 +316,13 @@ std::pair<std::vector<size_t>, DependencyGraph::DisjointSet> DependencyGraph::or
         "[DependencyGraph::Order] Try to order a non-empty graph with no root. It contains at least one cycle.");
   }
 
+  // Every node of an acyclic graph can be reached from a root.
+  if(ret.first.size() != n)
+  {
+    throw std::logic_error("[DependencyGraph::Order] Some nodes cannot be reached from any root. The graph contains at "
+                           "least one cycle.");
+  }
+
   return ret;
 }
 
-- 
2.43.0


From ba785037d57e567b053769ed58abeaa270cf1708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:49 +0000
Subject: [PATCH 05/52] fix: restore the allocation guard after creating
 computation data and when an update throws

---
 include/tvm/scheme/abstract/ResolutionScheme.h |  6 ++----
 include/tvm/utils/memoryChecks.h               | 12 ++++++++++++
 src/hint/SubstitutionUnit.cpp                  |  3 +--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/tvm/scheme/abstract/ResolutionScheme.h b/include/tvm/scheme/abstract/ResolutionScheme.h
index ea8f446..2bcab3d 100644
--- a/include/tvm/scheme/abstract/ResolutionScheme.h
+++ b/include/tvm/scheme/abstract/ResolutionScheme.h
@@ -85,9 +85,8 @@ template<typename Problem>
 inline std::unique_ptr<internal::ProblemComputationData> ResolutionScheme<Derived>::createComputationData(
     const Problem & problem) const
 {
-  tvm::utils::override_is_malloc_allowed(true);
+  tvm::utils::ScopedMallocOverride allow(true);
   return derived().createComputationData_(problem);
-  tvm::utils::restore_is_malloc_allowed();
 }
 
 template<typename Derived>
@@ -95,9 +94,8 @@ template<typename Problem>
 void ResolutionScheme<Derived>::updateComputationData(const Problem & problem,
                                                       internal::ProblemComputationData * data) const
 {
-  tvm::utils::override_is_malloc_allowed(true);
+  tvm::utils::ScopedMallocOverride allow(true);
   derived().updateComputationData_(problem, data);
-  tvm::utils::restore_is_malloc_allowed();
 }
 
 template<typename Derived>
diff --git a/include/tvm/utils/memoryChecks.h b/include/tvm/utils/memoryChecks.h
index c09a117..66048aa 100644
--- a/include/tvm/utils/memoryChecks.h
+++ b/include/tvm/utils/memoryChecks.h
@@ -82,6 +82,18 @@ inline void restore_is_malloc_allowed()
 }
 #endif
 
+/** Call override_is_malloc_allowed(allow) and ensure the mirroring call to restore_is_malloc_allowed() is made when
+ * leaving the scope, be it by an exception.
+ */
+class ScopedMallocOverride
+{
+public:
+  explicit ScopedMallocOverride(bool allow) { override_is_malloc_allowed(allow); }
+  ~ScopedMallocOverride() { restore_is_malloc_allowed(); }
+  ScopedMallocOverride(const ScopedMallocOverride &) = delete;
+  ScopedMallocOverride & operator=(const ScopedMallocOverride &) = delete;
+};
+
 #define TVM_TEMPORARY_ALLOW_EIGEN_MALLOC(x)     \
   tvm::utils::override_is_malloc_allowed(true); \
   x;                                            \
diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index ed52975..9fb48c8 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -84,10 +84,9 @@ SubstitutionUnit::SubstitutionUnit(const std::vector<Substitution> & substitutio
   extractSubstitutions(substitutionPool, groups, order);
   scanSubstitutions();
   computeDependencies();
-  tvm::utils::override_is_malloc_allowed(true);
+  tvm::utils::ScopedMallocOverride allow(true);
   initializeMatrices();
   createFunctions();
-  tvm::utils::restore_is_malloc_allowed();
 }
 
 void SubstitutionUnit::update()
-- 
2.43.0


From 31c64e6f24bf437555ff310b68fa394a18951242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 06/52] fix: no temporary matrix when updating linear functions
 and task dynamics with matrix gains

---
 src/function/LinearFunction.cpp              | 4 ++--
 src/task_dynamics/Proportional.cpp           | 4 +++-
 src/task_dynamics/ProportionalDerivative.cpp | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/function/LinearFunction.cpp b/src/function/LinearFunction.cpp
index c302b89..99a53d7 100644
--- a/src/function/LinearFunction.cpp
+++ b/src/function/LinearFunction.cpp
@@ -39,14 +39,14 @@ void LinearFunction::updateValue_()
 {
   value_ = b_;
   for(auto v : variables())
-    value_ += jacobian(*v) * v->value();
+    value_.noalias() += jacobian(*v) * v->value();
 }
 
 void LinearFunction::updateVelocity_()
 {
   velocity_.setZero();
   for(auto v : variables())
-    velocity_ += jacobian(*v) * dot(v)->value();
+    velocity_.noalias() += jacobian(*v) * dot(v)->value();
 }
 
 void LinearFunction::setDerivativesToZero()
diff --git a/src/task_dynamics/Proportional.cpp b/src/task_dynamics/Proportional.cpp
index 374d89b..25d3a37 100644
--- a/src/task_dynamics/Proportional.cpp
+++ b/src/task_dynamics/Proportional.cpp
@@ -49,7 +49,9 @@ void Proportional::Impl::updateValue()
       value_.noalias() = -(mpark::get<Eigen::VectorXd>(kp_).asDiagonal() * (function().value() - rhs()));
       break;
     case 2:
-      value_.noalias() = -mpark::get<Eigen::MatrixXd>(kp_) * (function().value() - rhs());
+      // two products, because multiplying by the difference would require a temporary
+      value_.noalias() = mpark::get<Eigen::MatrixXd>(kp_) * rhs();
+      value_.noalias() -= mpark::get<Eigen::MatrixXd>(kp_) * function().value();
       break;
     default:
       assert(false);
diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 08b62f1..7196bc2 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -106,7 +106,9 @@ void ProportionalDerivative::Impl::updateValue()
       value_.noalias() -= mpark::get<Eigen::VectorXd>(kp_).asDiagonal() * (function().value() - rhs());
       break;
     case 2:
-      value_.noalias() -= mpark::get<Eigen::MatrixXd>(kp_) * (function().value() - rhs());
+      // two products, because multiplying by the difference would require a temporary
+      value_.noalias() -= mpark::get<Eigen::MatrixXd>(kp_) * function().value();
+      value_.noalias() += mpark::get<Eigen::MatrixXd>(kp_) * rhs();
       break;
     default:
       assert(false);
-- 
2.43.0


From 2ce4d83ea2d24e337bff4377c51b2de2ff6c9c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:25 +0000
Subject: [PATCH 07/52] fix: keep the variables of the assignments alive

---
 include/tvm/scheme/internal/Assignment.h       |  4 ++--
 include/tvm/scheme/internal/MatrixAssignment.h |  2 +-
 src/scheme/Assignment.cpp                      | 16 ++++++++--------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.h b/include/tvm/scheme/internal/Assignment.h
index 6560ae2..8735922 100644
--- a/include/tvm/scheme/internal/Assignment.h
+++ b/include/tvm/scheme/internal/Assignment.h
@@ -130,7 +130,7 @@ private:
    * to variable \p x to the block of matrix described by \p M and \p range.
    * \p flip indicates a sign change if \p true.
    */
-  void addMatrixAssignment(Variable & x, MatrixFunction M, const Range & range, bool flip);
+  void addMatrixAssignment(const VariablePtr & x, MatrixFunction M, const Range & range, bool flip);
 
   /** Creates the assignments due to substituting the variable \p x by the
    * linear expression given by \p sub. The target is given by \p M.
@@ -194,7 +194,7 @@ private:
    * and \p range. The variable \p x is simply stored in the corresponding
    * \p MatrixAssignment.
    */
-  void addZeroAssignment(Variable & x, MatrixFunction M, const Range & range);
+  void addZeroAssignment(const VariablePtr & x, MatrixFunction M, const Range & range);
 
   /** Calls addAssignments(const VariableVector& variables, MatrixFunction M,
    * RHSFunction f1, VectorFunction v1, RHSFunction f2, VectorFunction v2,
diff --git a/include/tvm/scheme/internal/MatrixAssignment.h b/include/tvm/scheme/internal/MatrixAssignment.h
index 1ac89d1..1f3347c 100644
--- a/include/tvm/scheme/internal/MatrixAssignment.h
+++ b/include/tvm/scheme/internal/MatrixAssignment.h
@@ -25,7 +25,7 @@ public:
   using MatrixFunction = MatrixRef (AssignmentTarget::*)(int, int) const;
 
   CompiledAssignmentWrapper<Eigen::MatrixXd> assignment;
-  Variable * x;
+  VariablePtr x;
   Range colRange;
   MatrixFunction getTargetMatrix;
 
diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 70b6b5d..38f3f9a 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -411,13 +411,13 @@ void Assignment::processRequirements()
   }
 }
 
-void Assignment::addMatrixAssignment(Variable & x, MatrixFunction M, const Range & range, bool flip)
+void Assignment::addMatrixAssignment(const VariablePtr & x, MatrixFunction M, const Range & range, bool flip)
 {
-  MatrixConstRef from = source_->jacobian(x);
+  MatrixConstRef from = source_->jacobian(*x);
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = createAssignment<Eigen::MatrixXd, AssignType::COPY>(from, to, flip);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x, range, M});
 }
 
 void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variables,
@@ -459,7 +459,7 @@ void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variabl
     // - use CUSTOM multiplications
     // - in particular use the nullspace custom multiplication for variable z
     // when appropriate.
-    matrixSubstitutionAssignments_.push_back({w, xi.get(), range, M});
+    matrixSubstitutionAssignments_.push_back({w, xi, range, M});
   }
 }
 
@@ -508,12 +508,12 @@ void Assignment::addVectorSubstitutionAssignments(const function::BasicLinearFun
   }
 }
 
-void Assignment::addZeroAssignment(Variable & x, MatrixFunction M, const Range & range)
+void Assignment::addZeroAssignment(const VariablePtr & x, MatrixFunction M, const Range & range)
 {
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = CompiledAssignmentWrapper<Eigen::MatrixXd>::make<COPY, NONE, IDENTITY, ZERO>(to);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x, range, M});
 }
 
 void Assignment::addAssignments(const VariableVector & variables,
@@ -570,7 +570,7 @@ void Assignment::addAssignments(const VariableVector & variables,
     if(!xc.contains(*x))
     {
       Range cols = x->getMappingIn(variables);
-      addZeroAssignment(*x, M, cols);
+      addZeroAssignment(x, M, cols);
     }
   }
 
@@ -593,7 +593,7 @@ void Assignment::addAssignments(const VariableVector & variables,
     else // usual case
     {
       Range cols = x->getMappingIn(variables);
-      addMatrixAssignment(*x, M, cols, flip);
+      addMatrixAssignment(x, M, cols, flip);
     }
   }
 }
-- 
2.43.0


From 5b4affe5bb9d5d4eaaac9b04f537826268645a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:42 +0000
Subject: [PATCH 08/52] fix: skip the temporaries when the target of a bound
 changes

---
 src/scheme/Assignment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 38f3f9a..5a893e1 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -73,7 +73,10 @@ void Assignment::onUpdatedTarget()
   for(auto & a : matrixSubstitutionAssignments_)
     a.updateTarget(target_);
   for(auto & a : vectorAssignments_)
-    a.assignment.to((target_.*a.getTargetVector)());
+  {
+    if(a.getTargetVector) // assignments to temporary vectors do not depend on the target
+      a.assignment.to((target_.*a.getTargetVector)());
+  }
   for(auto & a : vectorSubstitutionAssignments_)
     a.assignment.to((target_.*a.getTargetVector)());
 }
-- 
2.43.0


From 26fde6d986795e17a73733c04aa210b80ed9b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:06 +0000
Subject: [PATCH 09/52] fix: update the anisotropic weight with the scalar one
 and when it comes back to its default

---
 src/scheme/Assignment.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 5a893e1..89f3fbc 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -99,7 +99,8 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
     data_->scalarWeight_ = std::sqrt(requirements_->weight().value()) * scalarizationWeight_;
     data_->minusScalarWeight_ = -data_->scalarWeight_;
   }
-  if(vector)
+  // the anisotropic weight includes the scalar one, so that it needs to be updated in both cases
+  if(vector || (scalar && !useDefaultAnisotropicWeight_))
   {
     if(!requirements_->anisotropicWeight().isDefault()
        && requirements_->anisotropicWeight().value().size() != target_.size())
@@ -109,7 +110,10 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
        && !requirements_->anisotropicWeight().value().isConstant(1))
       throw std::runtime_error("[Assignment::onUpdateWeights] Can't update a default weight.");
 
-    data_->anisotropicWeight_ = requirements_->anisotropicWeight().value().cwiseSqrt();
+    if(requirements_->anisotropicWeight().isDefault())
+      data_->anisotropicWeight_.setConstant(source_->size(), 1);
+    else
+      data_->anisotropicWeight_ = requirements_->anisotropicWeight().value().cwiseSqrt();
     data_->anisotropicWeight_ *= data_->scalarWeight_;
     data_->minusAnisotropicWeight_ = -data_->anisotropicWeight_;
   }
-- 
2.43.0


From 8184fbf5c4ac3040432d264d50ee964a4d686fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:06 +0000
Subject: [PATCH 10/52] fix: process the weight changes once the layout of the
 problem is up to date

---
 src/solver/LeastSquareSolver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 433a135..cde4818 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -182,7 +182,6 @@ int LeastSquareSolver::constraintSize(const constraint::abstract::LinearConstrai
 
 void LeastSquareSolver::process(const internal::SolverEvents & se)
 {
-  updateWeights(se);
   auto impactRemove = processRemovedConstraints(se);
   bool needMappingUpdate = updateVariables(se);
   auto impactAdd = previewAddedConstraints(se);
@@ -288,6 +287,8 @@ void LeastSquareSolver::process(const internal::SolverEvents & se)
       updateMapping(objectiveToAssignments_);
   }
 
+  // Changing a weight might require to rebuild an assignment, what needs the final mapping and target.
+  updateWeights(se);
   processAddedConstraints(se);
 }
 
@@ -300,9 +301,8 @@ void LeastSquareSolver::updateWeights(const internal::SolverEvents & se)
     auto [c, scalar, vector] = e;
 
     // We might have change of weights on constraints that were not added yet (because process of
-    // of weight arise before processing added constraints - if we'd process the weight after, we
-    // could have change of weight on removed constraints). Therefore we need to ignore constraints
-    // that were not found in the map.
+    // of weight arise before processing added constraints) or that were removed. Therefore we need to
+    // ignore constraints that were not found in the map.
     auto it = objectiveToAssignments_.find(c);
     if(it == objectiveToAssignments_.end())
       continue;
-- 
2.43.0


From 5b4dcd1301b6ede05672877ea718495a53ddcba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:06 +0000
Subject: [PATCH 11/52] fix: use the large number of the scheme when updating a
 problem

---
 src/scheme/HierarchicalLeastSquares.cpp | 3 +++
 src/scheme/WeightedLeastSquares.cpp     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index e6c9db7..dbfa3a4 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -43,6 +43,9 @@ void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlPro
   using EventType = ProblemDefinitionEvent::Type;
   solver::internal::SolverEvents se;
 
+  // The large number is shared by all the assignments, and another scheme might have changed it.
+  Assignment::big_ = big_number_;
+
   if(!data->hasEvents())
   {
     return;
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 990a7a6..e046ee3 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -43,6 +43,9 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
   using EventType = ProblemDefinitionEvent::Type;
   solver::internal::SolverEvents se;
 
+  // The large number is shared by all the assignments, and another scheme might have changed it.
+  Assignment::big_ = big_number_;
+
   if(data->hasEvents())
   {
     Memory * memory = static_cast<Memory *>(data);
-- 
2.43.0


From a948c0cda59e890b832cf486d52f33a49100b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:08 +0000
Subject: [PATCH 12/52] fix: discard the computation data when processing the
 changes of a problem fails

---
 include/tvm/ControlProblem.h                   |  2 ++
 include/tvm/scheme/abstract/ResolutionScheme.h | 11 ++++++++++-
 include/tvm/scheme/internal/helpers.h          |  6 ++++++
 include/tvm/scheme/internal/helpers.hpp        |  4 ++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/tvm/ControlProblem.h b/include/tvm/ControlProblem.h
index ed110c3..562a25b 100644
--- a/include/tvm/ControlProblem.h
+++ b/include/tvm/ControlProblem.h
@@ -126,6 +126,8 @@ private:
   friend scheme::internal::ProblemComputationData * scheme::internal::getComputationData(
       Problem & problem,
       const Scheme & resolutionScheme);
+  template<typename Problem, typename Scheme>
+  friend void scheme::internal::discardComputationData(Problem & problem, const Scheme & resolutionScheme);
 };
 
 template<constraint::Type T>
diff --git a/include/tvm/scheme/abstract/ResolutionScheme.h b/include/tvm/scheme/abstract/ResolutionScheme.h
index 2bcab3d..7691690 100644
--- a/include/tvm/scheme/abstract/ResolutionScheme.h
+++ b/include/tvm/scheme/abstract/ResolutionScheme.h
@@ -73,7 +73,16 @@ inline bool ResolutionScheme<Derived>::solve(Problem & problem) const
 {
   auto data = getComputationData(problem, *this);
   problem.update();
-  updateComputationData(problem, data);
+  try
+  {
+    updateComputationData(problem, data);
+  }
+  catch(...)
+  {
+    // The events were partially processed: data do not correspond to problem anymore.
+    discardComputationData(problem, *this);
+    throw;
+  }
   bool b = derived().solve_(problem, data);
   data->setVariablesToSolution();
   problem.substitutions().updateVariableValues();
diff --git a/include/tvm/scheme/internal/helpers.h b/include/tvm/scheme/internal/helpers.h
index f75dad8..33bb393 100644
--- a/include/tvm/scheme/internal/helpers.h
+++ b/include/tvm/scheme/internal/helpers.h
@@ -38,6 +38,12 @@ class ProblemComputationData;
 template<typename Problem, typename Scheme>
 inline ProblemComputationData * getComputationData(Problem & problem, const Scheme & resolutionScheme);
 
+/** Discard the computation data linked to a particular resolution scheme, if
+ * any. It will be created anew the next time it is needed.
+ */
+template<typename Problem, typename Scheme>
+inline void discardComputationData(Problem & problem, const Scheme & resolutionScheme);
+
 /** We consider as bound a constraint with a single variable and a diagonal,
  * invertible jacobian.
  * It would be possible to accept non-invertible sparse diagonal jacobians
diff --git a/include/tvm/scheme/internal/helpers.hpp b/include/tvm/scheme/internal/helpers.hpp
index ea2b0ed..c13eb21 100644
--- a/include/tvm/scheme/internal/helpers.hpp
+++ b/include/tvm/scheme/internal/helpers.hpp
@@ -28,6 +28,10 @@ inline ProblemComputationData * getComputationData(Problem & problem, const Sche
   }
 }
 
+template<typename Problem, typename Scheme>
+inline void discardComputationData(Problem & problem, const Scheme & resolutionScheme)
+{ problem.computationData_.erase(resolutionScheme.id()); }
+
 } // namespace internal
 } // namespace scheme
 } // namespace tvm
-- 
2.43.0


From cc9ee3c04aeba6bbdc535eb9f4c982caeac78c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:08 +0000
Subject: [PATCH 13/52] fix: leave the problem unchanged when adding or
 removing a task fails

---
 src/LinearizedControlProblem.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/LinearizedControlProblem.cpp b/src/LinearizedControlProblem.cpp
index 36907a5..c0bfdc2 100644
--- a/src/LinearizedControlProblem.cpp
+++ b/src/LinearizedControlProblem.cpp
@@ -25,8 +25,6 @@ TaskWithRequirementsPtr LinearizedControlProblem::add(const Task & task, const r
 
 void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 {
-  ControlProblem::add(tr);
-
   // FIXME A lot of work can be done here based on the properties of the task's jacobian.
   // In particular, we could detect bounds, pairs of tasks forming a double-sided constraints...
   LinearConstraintWithRequirements lcr;
@@ -35,6 +33,9 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
   // lcr.requirements points to and doesn't outlive tr->requirements.
   lcr.requirements = std::shared_ptr<requirements::SolvingRequirementsWithCallbacks>(tr, &tr->requirements);
   lcr.bound = scheme::internal::isBound(lcr.constraint);
+
+  // The above might throw, we change the problem only once it is done.
+  ControlProblem::add(tr);
   constraints_[tr.get()] = lcr;
 
   using CstrOutput = internal::FirstOrderProvider::Output;
@@ -59,13 +60,13 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 
 void LinearizedControlProblem::remove(const TaskWithRequirements & tr)
 {
-  ControlProblem::remove(tr);
   auto it = constraints_.find(&tr);
   if(it == constraints_.end())
   {
     return;
   }
-  removeSubstitutionFor(*it->second.constraint);
+  removeSubstitutionFor(*it->second.constraint); // Might throw, so it needs to be done before any other change.
+  ControlProblem::remove(tr);
   updater_.removeInput(it->second.constraint.get());
   constraints_.erase(it);
 }
-- 
2.43.0


From 0fe68c6c261b611411708a97f53bdc97142356fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:08 +0000
Subject: [PATCH 14/52] fix: keep the value of a derivative when deriving a
 subvariable

---
 src/Variable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index c0e1965..8914c6f 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -223,7 +223,8 @@ Variable::Variable(Variable * var, bool autoName)
     ss << "[" << shift_.tSize() << ":" << shift_.tSize() + size() - 1 << "]";
   }
   name_ = ss.str();
-  value_.setZero();
+  if(!isSubvariable()) // the memory of a subvariable is that of its supervariable
+    value_.setZero();
 }
 
 VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space shift, bool autoName) const
-- 
2.43.0


From 52355b02b155f5669b0461dbca07c60ce4db587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:06 +0000
Subject: [PATCH 15/52] fix: allocate the objective and account for its rows
 when using the minimum norm

---
 src/solver/LeastSquareSolver.cpp         | 1 +
 src/solver/QLDLeastSquareSolver.cpp      | 4 +++-
 src/solver/QuadprogLeastSquareSolver.cpp | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index cde4818..af47cf1 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -134,6 +134,7 @@ void LeastSquareSolver::setMinimumNorm()
     throw std::runtime_error("[LeastSquareSolver]: attempting to add an objective without calling startBuild first");
   }
   setMinimumNorm_();
+  objSize_ = nObj_;
 }
 
 bool LeastSquareSolver::solve()
diff --git a/src/solver/QLDLeastSquareSolver.cpp b/src/solver/QLDLeastSquareSolver.cpp
index 48ce27a..0b45b70 100644
--- a/src/solver/QLDLeastSquareSolver.cpp
+++ b/src/solver/QLDLeastSquareSolver.cpp
@@ -104,7 +104,9 @@ void QLDLeastSquareSolver::addObjective_(LinearConstraintPtr cstr, SolvingRequir
 void QLDLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  // Q_ is not allocated by resize_ when using the Cholesky decomposition.
+  int n = variables().totalSize();
+  Q_.setIdentity(n, n);
   c_.setZero();
 }
 
diff --git a/src/solver/QuadprogLeastSquareSolver.cpp b/src/solver/QuadprogLeastSquareSolver.cpp
index b4b5d68..f10c115 100644
--- a/src/solver/QuadprogLeastSquareSolver.cpp
+++ b/src/solver/QuadprogLeastSquareSolver.cpp
@@ -136,7 +136,9 @@ void QuadprogLeastSquareSolver::addObjective_(LinearConstraintPtr cstr,
 void QuadprogLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  // Q_ is not allocated by resize_ when using the Cholesky decomposition.
+  int n = variables().totalSize();
+  Q_.setIdentity(n, n);
   c_.setZero();
 }
 
-- 
2.43.0


From c973601f4329a7ba7292ad9da214ab4f8aed55b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:44 +0000
Subject: [PATCH 16/52] fix: update the automatic damping when tasks are added
 or removed

---
 include/tvm/scheme/WeightedLeastSquares.h |  3 +++
 src/scheme/WeightedLeastSquares.cpp       | 23 +++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/tvm/scheme/WeightedLeastSquares.h b/include/tvm/scheme/WeightedLeastSquares.h
index ab44c3e..5e20eab 100644
--- a/include/tvm/scheme/WeightedLeastSquares.h
+++ b/include/tvm/scheme/WeightedLeastSquares.h
@@ -41,6 +41,9 @@ private:
 
     int maxp = 0;
 
+    /** Whether the minimum norm was used in the absence of objectives. */
+    bool autoMinNorm = false;
+
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
   };
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index e046ee3..1fd93d9 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -22,6 +22,20 @@ const internal::SchemeAbilities WeightedLeastSquares::abilities_ = {2,
                                                                     {{0, {true, {VET::L2}}}, {1, {false, {VET::L2}}}},
                                                                     true};
 
+namespace
+{
+/** Check if a problem has a task to be handled as an objective, i.e. with priority level > 0. */
+bool hasObjective(const LinearizedControlProblem & problem)
+{
+  for(const auto & c : problem.constraints())
+  {
+    if(c.requirements->priorityLevel().value() > 0 && !problem.substitutions().uses(c.constraint))
+      return true;
+  }
+  return false;
+}
+} // namespace
+
 bool WeightedLeastSquares::solve_(const LinearizedControlProblem & problem,
                                   internal::ProblemComputationData * data) const
 {
@@ -58,6 +72,13 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
         resetComputationData(problem, memory);
         return;
       }
+      // The presence and the size of the automatic damping depend on the tasks of the problem.
+      if((e.type() == EventType::TaskAddition || e.type() == EventType::TaskRemoval)
+         && (memory->autoMinNorm || (options_.autoDamping().value() && !hasObjective(problem))))
+      {
+        resetComputationData(problem, memory);
+        return;
+      }
     }
     while(memory->hasEvents())
     {
@@ -184,6 +205,7 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
   // memory->assignments.reserve(constr.size() + bounds.size()); //TODO something equivalent
 
   memory->maxp = maxp;
+  memory->autoMinNorm = autoMinNorm;
 
   // assignments for general constraints
   for(const auto & c : constr)
@@ -325,6 +347,7 @@ void WeightedLeastSquares::Memory::reset(std::unique_ptr<solver::abstract::Least
   LinearizedProblemComputationData::reset();
   this->solver = std::move(solver);
   maxp = 0;
+  autoMinNorm = false;
 }
 
 void WeightedLeastSquares::Memory::setVariablesToSolution_(tvm::internal::VariableCountingVector & x)
-- 
2.43.0


From 46bfef7d13e37121e09ca1ef6a10e8dadae1bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:19 +0000
Subject: [PATCH 17/52] fix: reset the right-hand side of the minimum norm
 objective before each resolution with LSSOL

---
 src/solver/LSSOLLeastSquareSolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/LSSOLLeastSquareSolver.cpp b/src/solver/LSSOLLeastSquareSolver.cpp
index 1b01850..c2650cf 100644
--- a/src/solver/LSSOLLeastSquareSolver.cpp
+++ b/src/solver/LSSOLLeastSquareSolver.cpp
@@ -142,8 +142,12 @@ void LSSOLLeastSquareSolver::preAssignmentProcess_()
 
 void LSSOLLeastSquareSolver::postAssignmentProcess_()
 {
+  // LSSOL is overwriting A and b during the resolution.
   if(autoMinNorm_)
+  {
     A_.setIdentity();
+    b_.setZero();
+  }
 }
 
 bool LSSOLLeastSquareSolver::solve_()
-- 
2.43.0


From 796a670888c355c98d278bb05c7745f03b4fcb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:21 +0000
Subject: [PATCH 18/52] fix: report allocation failures when registering
 assignments

---
 src/solver/HierarchicalLeastSquareSolver.cpp | 10 +++++++---
 src/solver/LeastSquareSolver.cpp             | 11 ++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/solver/HierarchicalLeastSquareSolver.cpp b/src/solver/HierarchicalLeastSquareSolver.cpp
index cee065a..a4f78d4 100644
--- a/src/solver/HierarchicalLeastSquareSolver.cpp
+++ b/src/solver/HierarchicalLeastSquareSolver.cpp
@@ -9,13 +9,13 @@ namespace
 {
 using namespace tvm;
 using namespace tvm::solver::abstract;
-/** Helper class relying on RAII to update automatically the map from a constraint to
+/** Helper class to update the map from a constraint to
  * the corresponding assignments
  */
 class AutoMap
 {
 public:
-  /** Upon destruction of this object, pointers to all new elements in \a observed since
+  /** When calling update, pointers to all new elements in \a observed since
    * calling this constructor will be added to \a target[cstr.get()].
    */
   AutoMap(LinearConstraintPtr cstr,
@@ -23,7 +23,8 @@ public:
           HierarchicalLeastSquareSolver::MapToAssignment & target)
   : observedSize_(observed.size()), observed_(observed), target_(target[cstr.get()])
   {}
-  ~AutoMap()
+  // This may throw, and thus can't be done in the destructor.
+  void update()
   {
     for(size_t i = observedSize_; i < observed_.size(); ++i)
       target_.push_back(observed_[i].get());
@@ -92,6 +93,7 @@ void HierarchicalLeastSquareSolver::addBound(LinearConstraintPtr bound)
 
   AutoMap autoMap(bound, assignments_, boundToAssignments_);
   addBound_(bound, range, false);
+  autoMap.update();
 }
 
 void HierarchicalLeastSquareSolver::addConstraint(LinearConstraintPtr cstr, SolvingRequirementsPtr req)
@@ -105,12 +107,14 @@ void HierarchicalLeastSquareSolver::addConstraint(LinearConstraintPtr cstr, Solv
   {
     AutoMap autoMap(cstr, assignments_, equalityConstraintToAssignments_[lvl]);
     addEqualityConstraint_(cstr, req);
+    autoMap.update();
     eqSize_[lvl] += constraintSize(*cstr);
   }
   else
   {
     AutoMap autoMap(cstr, assignments_, inequalityConstraintToAssignments_[lvl]);
     addIneqalityConstraint_(cstr, req);
+    autoMap.update();
     ineqSize_[lvl] += constraintSize(*cstr);
   }
 }
diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index af47cf1..eff694e 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -9,13 +9,13 @@ namespace
 {
 using namespace tvm;
 using namespace tvm::solver::abstract;
-/** Helper class relying on RAII to update automatically the map from a constraint to
+/** Helper class to update the map from a constraint to
  * the corresponding assignments
  */
 class AutoMap
 {
 public:
-  /** Upon destruction of this object, pointers to all new elements in \a observed since
+  /** When calling update, pointers to all new elements in \a observed since
    * calling this constructor will be added to \a target[cstr.get()].
    */
   AutoMap(LinearConstraintPtr cstr,
@@ -23,7 +23,8 @@ public:
           LeastSquareSolver::MapToAssignment & target)
   : observedSize_(observed.size()), observed_(observed), target_(target[cstr.get()])
   {}
-  ~AutoMap()
+  // This may throw, and thus can't be done in the destructor.
+  void update()
   {
     for(size_t i = observedSize_; i < observed_.size(); ++i)
       target_.push_back(observed_[i].get());
@@ -91,6 +92,7 @@ void LeastSquareSolver::addBound(LinearConstraintPtr bound)
 
   AutoMap autoMap(bound, assignments_, boundToAssignments_);
   addBound_(bound, range, false);
+  autoMap.update();
 }
 
 void LeastSquareSolver::addConstraint(LinearConstraintPtr cstr)
@@ -101,12 +103,14 @@ void LeastSquareSolver::addConstraint(LinearConstraintPtr cstr)
   {
     AutoMap autoMap(cstr, assignments_, equalityConstraintToAssignments_);
     addEqualityConstraint_(cstr);
+    autoMap.update();
     eqSize_ += constraintSize(*cstr);
   }
   else
   {
     AutoMap autoMap(cstr, assignments_, inequalityConstraintToAssignments_);
     addIneqalityConstraint_(cstr);
+    autoMap.update();
     ineqSize_ += constraintSize(*cstr);
   }
 }
@@ -123,6 +127,7 @@ void LeastSquareSolver::addObjective(LinearConstraintPtr obj, SolvingRequirement
   }
   AutoMap autoMap(obj, assignments_, objectiveToAssignments_);
   addObjective_(obj, req, additionalWeight);
+  autoMap.update();
   objSize_ += obj->size();
 }
 
-- 
2.43.0


From 78b224a7efdd41b1b192c581a6b971bda87b6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:38 +0000
Subject: [PATCH 19/52] fix: update the targets when a matrix changes shape
 without changing its number of elements

---
 include/tvm/solver/abstract/LeastSquareSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/solver/abstract/LeastSquareSolver.h b/include/tvm/solver/abstract/LeastSquareSolver.h
index a153a99..46ebdf1 100644
--- a/include/tvm/solver/abstract/LeastSquareSolver.h
+++ b/include/tvm/solver/abstract/LeastSquareSolver.h
@@ -239,7 +239,7 @@ template<typename Derived>
 inline bool LeastSquareSolver::ImpactFromChanges::willReallocate(const Eigen::DenseBase<Derived> & M,
                                                                  int rows,
                                                                  int cols)
-{ return M.rows() * M.cols() != rows * cols; }
+{ return M.rows() != rows || M.cols() != cols; }
 
 } // namespace abstract
 
-- 
2.43.0


From 409c003e9fed28b1cdce4425632dfc7b5a757a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:22 +0000
Subject: [PATCH 20/52] fix: assign the decompositions instead of constructing
 them over the previous ones

---
 src/solver/QLDLeastSquareSolver.cpp      | 4 ++--
 src/solver/QuadprogLeastSquareSolver.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/QLDLeastSquareSolver.cpp b/src/solver/QLDLeastSquareSolver.cpp
index 0b45b70..6f720f8 100644
--- a/src/solver/QLDLeastSquareSolver.cpp
+++ b/src/solver/QLDLeastSquareSolver.cpp
@@ -64,9 +64,9 @@ QLDLeastSquareSolver::ImpactFromChanges QLDLeastSquareSolver::resize_(int nObj,
   if(cholesky_)
   {
     if(underspecifiedObj_)
-      new(&qr_) Eigen::HouseholderQR<Eigen::MatrixXd>(nObj + n, n);
+      qr_ = Eigen::HouseholderQR<Eigen::MatrixXd>(nObj + n, n);
     else
-      new(&qr_) Eigen::HouseholderQR<Eigen::MatrixXd>(nObj, n);
+      qr_ = Eigen::HouseholderQR<Eigen::MatrixXd>(nObj, n);
   }
 
   impact.inequalityConstraints_ = impact.equalityConstraints_;
diff --git a/src/solver/QuadprogLeastSquareSolver.cpp b/src/solver/QuadprogLeastSquareSolver.cpp
index f10c115..9919195 100644
--- a/src/solver/QuadprogLeastSquareSolver.cpp
+++ b/src/solver/QuadprogLeastSquareSolver.cpp
@@ -88,9 +88,9 @@ QuadprogLeastSquareSolver::ImpactFromChanges QuadprogLeastSquareSolver::resize_(
   if(cholesky_)
   {
     if(underspecifiedObj_)
-      new(&qr_) Eigen::HouseholderQR<Eigen::MatrixXd>(nObj + n, n);
+      qr_ = Eigen::HouseholderQR<Eigen::MatrixXd>(nObj + n, n);
     else
-      new(&qr_) Eigen::HouseholderQR<Eigen::MatrixXd>(nObj, n);
+      qr_ = Eigen::HouseholderQR<Eigen::MatrixXd>(nObj, n);
   }
 
   impact.inequalityConstraints_ = impact.equalityConstraints_;
-- 
2.43.0


From f11462cd926a63540d10d9be945c5bd4723b9d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:59 +0000
Subject: [PATCH 21/52] fix: create the first level of the hierarchy when there
 are only bounds in it

---
 src/scheme/HierarchicalLeastSquares.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index dbfa3a4..68f7175 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -150,8 +150,8 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
     }
   }
   // we need to add the additional constraints due to the substitutions.
-  // They are added at level 0.
-  if(subs.additionalConstraints().size() > 0 && nEq.size() == 0)
+  // They are added at level 0. Bounds also require this level to exist.
+  if((subs.additionalConstraints().size() > 0 || bounds.size() > 0) && nEq.size() == 0)
   {
     nEq.push_back(0);
     nIneq.push_back(0);
-- 
2.43.0


From 26b49e30a5fe457293effa9108d13b25513c8cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:59 +0000
Subject: [PATCH 22/52] fix: find a substitution to remove from any of its
 copies

---
 src/hint/Substitutions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index d1f6a76..bab44c7 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -45,7 +45,9 @@ void Substitutions::add(const Substitution & s)
 
 void Substitutions::remove(const Substitution & s)
 {
-  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) { return &e == &s; });
+  // We hold copies of the substitutions given by the user. A substitution and its copies share the same calculator.
+  auto it = std::find_if(substitutions_.begin(), substitutions_.end(),
+                         [&](const auto & e) { return e.calculator() == s.calculator(); });
   if(it == substitutions_.end())
     return;
 
-- 
2.43.0


From d80244acfd48399d627c0152fd85e2ea18d01306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:59 +0000
Subject: [PATCH 23/52] fix: finalize the substitutions only when they changed,
 and from scratch

---
 include/tvm/hint/internal/Substitutions.h | 3 +++
 src/hint/Substitutions.cpp                | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/tvm/hint/internal/Substitutions.h b/include/tvm/hint/internal/Substitutions.h
index d5d96a5..adeafe5 100644
--- a/include/tvm/hint/internal/Substitutions.h
+++ b/include/tvm/hint/internal/Substitutions.h
@@ -102,6 +102,9 @@ private:
   /** The additional constraints to add to the problem*/
   std::vector<std::shared_ptr<constraint::BasicLinearConstraint>> additionalConstraints_;
 
+  /** True if \p finalize was called since the last change in the substitutions.*/
+  bool upToDate_ = false;
+
   friend class SubstitutionTest;
 };
 
diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index bab44c7..f8e57f3 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -29,6 +29,7 @@ void Substitutions::add(const Substitution & s)
   auto i = dependencies_.addNode();
   assert(i == substitutions_.size());
   substitutions_.push_back(s);
+  upToDate_ = false;
 
   for(size_t j = 0; j < substitutions_.size(); ++j)
   {
@@ -53,6 +54,7 @@ void Substitutions::remove(const Substitution & s)
 
   dependencies_.removeNode(it - substitutions_.begin());
   substitutions_.erase(it);
+  upToDate_ = false;
 }
 
 const std::vector<Substitution> & Substitutions::substitutions() const { return substitutions_; }
@@ -72,6 +74,11 @@ bool Substitutions::uses(LinearConstraintPtr c) const
 
 void Substitutions::finalize()
 {
+  // The data depend only on the substitutions. We must not renew them if the substitutions
+  // did not change, because they might be in use.
+  if(upToDate_)
+    return;
+
   // Detect interdependent substitutions (this corresponds to strongly connected
   // components of the dependency graph).
   tvm::graph::internal::DependencyGraph g;
@@ -92,6 +99,7 @@ void Substitutions::finalize()
   // Retrieve all the variables, functions and constraints
   variables_.clear();
   varSubstitutions_.clear();
+  additionalVariables_.clear();
   additionalConstraints_.clear();
   otherVariables_.clear();
   for(const auto & u : units_)
@@ -125,6 +133,7 @@ void Substitutions::finalize()
       }
     }
   }
+  upToDate_ = true;
 }
 
 void Substitutions::updateSubstitutions()
-- 
2.43.0


From 754400f9c167635c69e4a4089a2e6c6eb6caeef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:30 +0000
Subject: [PATCH 24/52] fix: solve for the variables that only appear in
 substitutions

---
 src/scheme/HierarchicalLeastSquares.cpp         | 17 +++++++++++++----
 src/scheme/WeightedLeastSquares.cpp             | 12 ++++++++++--
 .../LexLSHierarchicalLeastSquareSolver.cpp      |  2 +-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 68f7175..ec76b78 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -25,9 +25,10 @@ const internal::SchemeAbilities HierarchicalLeastSquares::abilities_ = {NoLimit,
 bool HierarchicalLeastSquares::solve_(const LinearizedControlProblem & problem,
                                       internal::ProblemComputationData * data) const
 {
-  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size()))
+  Memory * memory = static_cast<Memory *>(data);
+  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size())
+     || memory->variables().totalSize() > 0)
   {
-    Memory * memory = static_cast<Memory *>(data);
     return memory->solver->solve();
   }
   else
@@ -149,9 +150,17 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
       constr.push_back(c);
     }
   }
+  // The variables from which the substituted variables are computed are part of the
+  // problem, even if no other constraint depends on them.
+  for(const auto & y : subs.otherVariables())
+    memory->addVariable(y);
+  for(const auto & z : subs.additionalVariables())
+    memory->addVariable(z);
+
   // we need to add the additional constraints due to the substitutions.
-  // They are added at level 0. Bounds also require this level to exist.
-  if((subs.additionalConstraints().size() > 0 || bounds.size() > 0) && nEq.size() == 0)
+  // They are added at level 0. Bounds, and variables that are only used in substitutions, also
+  // require this level to exist.
+  if((subs.additionalConstraints().size() > 0 || memory->variables().totalSize() > 0) && nEq.size() == 0)
   {
     nEq.push_back(0);
     nIneq.push_back(0);
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 1fd93d9..871dd03 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -39,9 +39,10 @@ bool hasObjective(const LinearizedControlProblem & problem)
 bool WeightedLeastSquares::solve_(const LinearizedControlProblem & problem,
                                   internal::ProblemComputationData * data) const
 {
-  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size()))
+  Memory * memory = static_cast<Memory *>(data);
+  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size())
+     || memory->variables().totalSize() > 0)
   {
-    Memory * memory = static_cast<Memory *>(data);
     return memory->solver->solve();
   }
   else
@@ -181,6 +182,13 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
       constr.push_back(c);
     }
   }
+  // The variables from which the substituted variables are computed are part of the
+  // problem, even if no other constraint depends on them.
+  for(const auto & y : subs.otherVariables())
+    memory->addVariable(y);
+  for(const auto & z : subs.additionalVariables())
+    memory->addVariable(z);
+
   // we need to add the additional constraints due to the substitutions.
   // They are added at level 0
   for(const auto & c : subs.additionalConstraints())
diff --git a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
index 99fc660..eaa9c44 100644
--- a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
+++ b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
@@ -117,7 +117,7 @@ LexLSHierarchicalLeastSquareSolver::ImpactFromChanges LexLSHierarchicalLeastSqua
     impact.inequalityConstraints_[i] = impact.equalityConstraints_[i];
   }
 
-  if(impact.any())
+  if(impact.any() || impact.newLevels_ > 0)
   {
     std::vector<LexLS::Index> objDim;
     std::vector<LexLS::ObjectiveType> objType;
-- 
2.43.0


From cd5f55978981f4728af89ff3643d128d66084b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:31 +0000
Subject: [PATCH 25/52] fix: substitute variables of which several parts are
 substituted

---
 src/hint/Substitutions.cpp | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index f8e57f3..950ce95 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -167,35 +167,26 @@ const std::vector<VariablePtr> & Substitutions::otherVariables() const { return
 
 VariableVector Substitutions::substitute(const VariablePtr & x) const
 {
-  auto it =
-      std::find_if(variables_.begin(), variables_.end(), [&x](const VariablePtr & v) { return v->intersects(*x); });
-  if(it == variables_.end()) // no substitution of var
-  {
-    VariableVector v({x});
-    return v;
-  }
-  else // substitution of var
+  // Several parts of x can be substituted.
+  tvm::internal::VariableCountingVector vcv;
+  vcv.add(x);
+  for(size_t i = 0; i < variables_.size(); ++i)
   {
-    const auto & f = varSubstitutions_[static_cast<size_t>(it - variables_.begin())];
-    if(*x == **it) // substitution by a full variable
-    {
-      return f->variables();
-    }
-    else if(x->contains(**it)) // part of x should be substituted
-    {
-      tvm::internal::VariableCountingVector vcv;
-      vcv.add(x);
-      vcv.remove(*it);
-      vcv.add(f->variables());
-      return vcv.variables();
-    }
-    else
+    const auto & v = variables_[i];
+    if(!v->intersects(*x))
+      continue;
+    if(*x == *v) // substitution by a full variable
+      return varSubstitutions_[i]->variables();
+    if(!x->contains(*v))
     {
       throw std::runtime_error("[Substitutions::substitute] Variable " + x->name()
-                               + " intersect but is not contained by a variable being substituted (" + (*it)->name()
+                               + " intersect but is not contained by a variable being substituted (" + v->name()
                                + "). Variables in the subsitution do not a fine enough level of granularity.");
     }
+    vcv.remove(*v);
+    vcv.add(varSubstitutions_[i]->variables());
   }
+  return vcv.variables();
 }
 
 Substitution const * Substitutions::getSubstitutionFor(const constraint::abstract::LinearConstraint & cstr)
-- 
2.43.0


From e8248d613bbd17d328e188a98dd44dc2681cb354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:31 +0000
Subject: [PATCH 26/52] fix: compute substitutions from constraints depending
 on a part of a variable only

---
 src/hint/SubstitutionCalculatorImpl.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hint/SubstitutionCalculatorImpl.cpp b/src/hint/SubstitutionCalculatorImpl.cpp
index d21121b..316aff7 100644
--- a/src/hint/SubstitutionCalculatorImpl.cpp
+++ b/src/hint/SubstitutionCalculatorImpl.cpp
@@ -4,6 +4,8 @@
 
 #include <tvm/Variable.h>
 #include <tvm/constraint/abstract/LinearConstraint.h>
+#include <tvm/internal/VariableCountingVector.h>
+#include <tvm/internal/VariableVectorPartition.h>
 
 namespace
 {
@@ -155,9 +157,13 @@ SubstitutionCalculatorImpl::SubstitutionCalculatorImpl(const std::vector<LinearC
     for(auto c : cstr)
     {
       int mi = c->size();
-      for(auto v : variables_.variables())
+      // c might depend on a part of a variable only.
+      tvm::internal::VariableCountingVector partition(true);
+      partition.add(c->variables());
+      partition.add(variables_);
+      for(const auto & v : tvm::internal::VariableVectorPartition(c->variables(), partition))
       {
-        if(c->variables().contains(*v))
+        if(variables_.contains(*v))
         {
           auto cols = v->getMappingIn(variables_);
           fillData_.push_back({v, c, A_.block(m, cols.start, mi, cols.dim)});
@@ -171,9 +177,9 @@ SubstitutionCalculatorImpl::SubstitutionCalculatorImpl(const std::vector<LinearC
   constant_ = true;
   for(const auto & c : constraints_)
   {
-    for(const auto & v : variables_.variables())
+    for(const auto & v : c->variables().variables())
     {
-      if(c->variables().contains(*v))
+      if(variables_.intersects(*v))
       {
         constant_ &= c->jacobian(*v).properties().isConstant();
       }
-- 
2.43.0


From 6f5ea7e8c92eca4775b8569b53c5666ee0c52782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:31 +0000
Subject: [PATCH 27/52] fix: zero the blocks of several substitutions involving
 overlapping variables

---
 src/scheme/Assignment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 89f3fbc..c03a427 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -563,7 +563,7 @@ void Assignment::addAssignments(const VariableVector & variables,
 
   // For all variables that are substituted into but are not part of the source variables,
   // we set the corresponding matrix block to zero.
-  VariableVector substitutedInto;
+  tvm::internal::VariableCountingVector substitutedInto(true);
   for(const auto & x : xcp)
   {
     int i = xs.indexOf(*x);
@@ -572,7 +572,7 @@ void Assignment::addAssignments(const VariableVector & variables,
       substitutedInto.add(variableSubstitutions_[static_cast<int>(i)]->variables());
     }
   }
-  for(const auto & x : substitutedInto)
+  for(const auto & x : substitutedInto.variables())
   {
     if(!xc.contains(*x))
     {
-- 
2.43.0


From 08ad0bd7638814fa915cafbcdc225859d86f941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 28/52] fix: handles on a subvariable obtained from itself or
 its derivatives keep it alive

Variable::shared_from_this of a subvariable shared the counter of the supervariable, which does not own it:
primitive(), basePrimitive(), superVariable()... returned handles that dangled once the original ones were dropped.
---
 include/tvm/Variable.h | 11 ++++++-----
 src/Variable.cpp       | 16 ++++------------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/tvm/Variable.h b/include/tvm/Variable.h
index 74e0c41..2bde247 100644
--- a/include/tvm/Variable.h
+++ b/include/tvm/Variable.h
@@ -40,8 +40,9 @@ VariablePtr TVM_DLLAPI dot(VariablePtr var, int ndiff = 1, bool autoName = false
  *
  * \internal A note on memory management for variables: Variable instances can
  * only be created through factory function returning shared_ptr (unique_ptr for
- * initial variables created from Space). Derived variables and subvariables
- * share the same reference counter, through the aliasing mechanism of shared_ptr.
+ * initial variables created from Space). Derived variables share the reference
+ * counter of their base primitive, through the aliasing mechanism of shared_ptr.
+ * A subvariable has its own counter and keeps a pointer to its supervariable.
  * This ensure that the lifetime of a variable, and in particular the original
  * variable always exceed that of a variable constructed from it.
  */
@@ -203,9 +204,9 @@ public:
 
   /** Overload of enable_shared_from_this::shared_from_this, for technical purpose.
    *
-   * \internal This is necessary because all derivative and subvariables are
-   * sharing the same ref counter as the primitive supervariable, while the
-   * default shared_from_this use the variable own (and unused) ref counter.
+   * \internal This is necessary because all derivatives are sharing the same ref
+   * counter as their base primitive, while the default shared_from_this use the
+   * variable own (and unused) ref counter.
    */
   [[nodiscard]] VariablePtr shared_from_this();
 
diff --git a/src/Variable.cpp b/src/Variable.cpp
index 8914c6f..9bc8cb9 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -266,20 +266,12 @@ Variable::Variable(make_shared_token, VariablePtr var, const Space & space, std:
 
 VariablePtr Variable::shared_from_this()
 {
+  // A base primitive, subvariable or not, has its own ref counter (a subvariable keeps its supervariable alive, but is
+  // not owned by it). Derivatives are owned by their primitive.
   if(isBasePrimitive())
-  {
-    if(isSubvariable())
-      return {superVariable_->shared_from_this(), this};
-    else
-      return std::enable_shared_from_this<Variable>::shared_from_this();
-  }
+    return std::enable_shared_from_this<Variable>::shared_from_this();
   else
-  {
-    if(isSubvariable())
-      return {superVariable_->basePrimitive()->shared_from_this(), this};
-    else
-      return {basePrimitive()->shared_from_this(), this};
-  }
+    return {basePrimitive(), this};
 }
 
 } // namespace tvm
-- 
2.43.0


From 3b281057ef1cb93f4e9a26c732ab5ea1d2c99c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 29/52] fix: a counting vector keeps its variables alive

The counts were indexed by bare pointers, dereferenced after the last handle on a variable was dropped.
---
 include/tvm/internal/VariableCountingVector.h | 1 +
 src/internal/VariableCountingVector.cpp       | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tvm/internal/VariableCountingVector.h b/include/tvm/internal/VariableCountingVector.h
index 1ab100b..314bef4 100644
--- a/include/tvm/internal/VariableCountingVector.h
+++ b/include/tvm/internal/VariableCountingVector.h
@@ -76,6 +76,7 @@ private:
     tvm::internal::RangeCounting mSize_;
     tvm::internal::RangeCounting rSize_;
     tvm::internal::RangeCounting tSize_;
+    VariablePtr variable_;
 
     bool add(const Space & start, const Space & dim);
     bool remove(const Space & start, const Space & dim);
diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index 29c09a4..e575f39 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -14,6 +14,7 @@ bool VariableCountingVector::add(VariablePtr v)
   const Space & start = v->spaceShift();
   const Space & dim = v->space();
   auto & counterPair = count_.insert({s.get(), {SpaceRangeCounting{}, 0}}).first->second;
+  counterPair.first.variable_ = s; // the variable needs to live as long as it is part of the vector
   // bool change = counterPair.first.add(v->subvariableRange());
   bool change = counterPair.first.add(start, dim);
   if(change)
@@ -39,7 +40,7 @@ bool VariableCountingVector::remove(const Variable & v)
   {
     if(counterPair.first.empty())
     {
-      counterPair.second = 0;
+      count_.erase(s.get());
     }
     else
     {
-- 
2.43.0


From fa7021cdbf007be8b69b7044f0a1175da2be1102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 30/52] fix: self-assignment of a VariableVector keeps its
 variables

---
 src/VariableVector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index 4081250..12d4324 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -14,8 +14,11 @@ VariableVector::VariableVector(const VariableVector & other) : VariableVector(ot
 
 VariableVector & VariableVector::operator=(const VariableVector & other)
 {
-  clear();
-  add(other.variables());
+  if(this != &other)
+  {
+    clear();
+    add(other.variables());
+  }
   return *this;
 }
 
-- 
2.43.0


From 1bdda47e4b2a4a158aca696fc45cd1f81055ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:08 +0000
Subject: [PATCH 31/52] fix: a splitting counting vector accounts for changes
 of the counts only

After its variables were read, adding or removing again a part already present did not update the partition.
---
 src/internal/VariableCountingVector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index e575f39..8604f2f 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -19,7 +19,7 @@ bool VariableCountingVector::add(VariablePtr v)
   bool change = counterPair.first.add(start, dim);
   if(change)
     ++counterPair.second;
-  upToDate_ = upToDate_ && !change;
+  upToDate_ = upToDate_ && !change && !split_; // with split_, the counts matter as well
   return change;
 }
 
@@ -49,7 +49,7 @@ bool VariableCountingVector::remove(const Variable & v)
       counterPair.second += 10;
     }
   }
-  upToDate_ = upToDate_ && !change;
+  upToDate_ = upToDate_ && !change && !split_; // with split_, the counts matter as well
   return change;
 }
 
-- 
2.43.0


From e5d3ca575ff7e15b16c5b5a7cb696ce37fc683c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:20 +0000
Subject: [PATCH 32/52] fix: moving a VariableVector leaves valid identities

Moved-from vectors all had the id -1, under which the variables of those reused cached their mappings.
---
 include/tvm/VariableVector.h |  4 ++--
 src/VariableVector.cpp       | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/tvm/VariableVector.h b/include/tvm/VariableVector.h
index 2a8c460..5267452 100644
--- a/include/tvm/VariableVector.h
+++ b/include/tvm/VariableVector.h
@@ -58,10 +58,10 @@ public:
 
   /** Copy constructor*/
   VariableVector(const VariableVector & other);
-  VariableVector(VariableVector &&) = default;
+  VariableVector(VariableVector && other);
 
   VariableVector & operator=(const VariableVector & other);
-  VariableVector & operator=(VariableVector &&) = default;
+  VariableVector & operator=(VariableVector && other);
 
   ~VariableVector();
 
diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index 12d4324..c371f93 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -4,6 +4,8 @@
 
 #include <tvm/Variable.h>
 
+#include <utility>
+
 namespace tvm
 {
 int VariableVector::counter = 0;
@@ -12,6 +14,8 @@ VariableVector::VariableVector() : size_(0) { getNewStamp(); }
 
 VariableVector::VariableVector(const VariableVector & other) : VariableVector(other.variables()) {}
 
+VariableVector::VariableVector(VariableVector && other) : VariableVector() { *this = std::move(other); }
+
 VariableVector & VariableVector::operator=(const VariableVector & other)
 {
   if(this != &other)
@@ -22,6 +26,20 @@ VariableVector & VariableVector::operator=(const VariableVector & other)
   return *this;
 }
 
+VariableVector & VariableVector::operator=(VariableVector && other)
+{
+  if(this != &other)
+  {
+    clear();
+    // The mappings cached by the variables go along with the id and stamp. other is left empty, with a valid id.
+    std::swap<tvm::internal::ObjWithId>(*this, other);
+    std::swap(stamp_, other.stamp_);
+    std::swap(size_, other.size_);
+    std::swap(variables_, other.variables_);
+  }
+  return *this;
+}
+
 VariableVector::~VariableVector() { clear(); }
 
 bool VariableVector::add(VariablePtr v)
-- 
2.43.0


From 0dda957aa63dd2504fb4e51077a2109999f4e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 33/52] fix: stamps of variable vectors are taken atomically

The stamp identifies the content a mapping was computed for. Two threads
changing their own collections could take the same stamp, and a cached
mapping then looked valid for another content.
---
 include/tvm/VariableVector.h | 3 ++-
 src/VariableVector.cpp       | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/VariableVector.h b/include/tvm/VariableVector.h
index 5267452..f327f00 100644
--- a/include/tvm/VariableVector.h
+++ b/include/tvm/VariableVector.h
@@ -10,6 +10,7 @@
 
 #include <tvm/deprecated.hh>
 
+#include <atomic>
 #include <map>
 #include <memory>
 #include <set>
@@ -195,7 +196,7 @@ private:
   void remove_(std::vector<VariablePtr>::const_iterator it);
   void getNewStamp() const;
 
-  static int counter;
+  static std::atomic<int> counter;
 
   mutable int stamp_;
   int size_;
diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index c371f93..06b8326 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -8,7 +8,7 @@
 
 namespace tvm
 {
-int VariableVector::counter = 0;
+std::atomic<int> VariableVector::counter{0};
 
 VariableVector::VariableVector() : size_(0) { getNewStamp(); }
 
@@ -247,8 +247,7 @@ void VariableVector::remove_(std::vector<VariablePtr>::const_iterator it)
 
 void VariableVector::getNewStamp() const
 {
-  stamp_ = counter;
-  counter++;
+  stamp_ = counter++;
 }
 
 VariableVector TVM_DLLAPI dot(const VariableVector & vars, int ndiff)
-- 
2.43.0


From 0cfd6f5ac0446768eec049ea0efaa687c222b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:00 +0000
Subject: [PATCH 34/52] fix: the default damping of a matrix gain is critical

---
 src/task_dynamics/ProportionalDerivative.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 7196bc2..4922399 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -51,7 +51,8 @@ ProportionalDerivative::ProportionalDerivative(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseMax(0).cwiseSqrt().asDiagonal()
+                 * dec.matrixU().transpose());
 }
 
 std::unique_ptr<abstract::TaskDynamicsImpl> ProportionalDerivative::impl_(FunctionPtr f,
@@ -154,7 +155,8 @@ void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseMax(0).cwiseSqrt().asDiagonal()
+                 * dec.matrixU().transpose());
 }
 
 void ProportionalDerivative::Impl::checkGainSize(double) const
-- 
2.43.0


From 7e675ec3ffeec5785ebe77ed0322199831982887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:00 +0000
Subject: [PATCH 35/52] fix: changing the matrix gain of a PD with the default
 damping changes the gain

---
 src/task_dynamics/ProportionalDerivative.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 4922399..d64a575 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -155,6 +155,7 @@ void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
+  kp_ = kp;
   kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseMax(0).cwiseSqrt().asDiagonal()
                  * dec.matrixU().transpose());
 }
-- 
2.43.0


From a337865fa7edf44ca2e945fd24b97ae101ee367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:22 +0000
Subject: [PATCH 36/52] fix: refuse an anisotropic weight that has not the size
 of its task

---
 src/scheme/Assignment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index c03a427..d9eb00e 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -401,6 +401,9 @@ void Assignment::processRequirements()
         }
         else
         {
+          if(requirements_->anisotropicWeight().value().size() != source_->size())
+            throw std::runtime_error("[Assignment::processRequirements] Anisotropic weight has not the correct size.");
+
           useDefaultAnisotropicWeight_ = false;
           data_->anisotropicWeight_ = requirements_->anisotropicWeight().value().cwiseSqrt();
           data_->anisotropicWeight_ *= data_->scalarWeight_;
-- 
2.43.0


From 3a040d608726b3631bf855eacaa98e4c3a650816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:27 +0000
Subject: [PATCH 37/52] fix: refuse a non-square matrix gain in Proportional

---
 src/task_dynamics/Proportional.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/Proportional.cpp b/src/task_dynamics/Proportional.cpp
index 25d3a37..9ae20fb 100644
--- a/src/task_dynamics/Proportional.cpp
+++ b/src/task_dynamics/Proportional.cpp
@@ -29,8 +29,9 @@ Proportional::Impl::Impl(FunctionPtr f, constraint::Type t, const Eigen::VectorX
 : TaskDynamicsImpl(Order::One, f, t, rhs), kp_(kp)
 {
   if((kp.index() == 1 && mpark::get<Eigen::VectorXd>(kp).size() != f->size())   // Diagonal gain
-     || (kp.index() == 2 && mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
-         && mpark::get<Eigen::MatrixXd>(kp).rows() != f->size()))
+     || (kp.index() == 2 // Matrix gain
+         && (mpark::get<Eigen::MatrixXd>(kp).cols() != f->size()
+             || mpark::get<Eigen::MatrixXd>(kp).rows() != f->size())))
   {
     throw std::runtime_error("[task_dynamics::Proportional::Impl] Gain and function have incompatible sizes.");
   }
-- 
2.43.0


From 6983d2f06a0bbc362796ad0845d87d640589040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:25 +0000
Subject: [PATCH 38/52] fix: register all the outputs given to
 addInputDependency as inputs

---
 include/tvm/graph/abstract/Node.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tvm/graph/abstract/Node.hpp b/include/tvm/graph/abstract/Node.hpp
index 9c5a1a6..8e4ab0d 100644
--- a/include/tvm/graph/abstract/Node.hpp
+++ b/include/tvm/graph/abstract/Node.hpp
@@ -145,7 +145,7 @@ void Node<T>::addInputDependency(EnumU u, std::shared_ptr<S> source, EnumO i, Ar
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
   // Make sure we have this input
-  addInput(source, i);
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, source.get(), i, args...);
 }
@@ -162,7 +162,7 @@ void Node<T>::addInputDependency(EnumU u, S & source, EnumO i, Args... args)
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
   // Make sure we have this input
-  addInput(source, i);
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, &source, i, args...);
 }
-- 
2.43.0


From 752afe21a890c4e7c8e6f02cfa46b6b23b939fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:53 +0000
Subject: [PATCH 39/52] fix: the graph log accounts for removed inputs and
 cleared graphs

---
 include/tvm/graph/internal/Inputs.hpp |  4 ++++
 include/tvm/graph/internal/Log.h      |  5 +++++
 include/tvm/graph/internal/Logger.h   | 22 ++++++++++++++++++++++
 src/graph/CallGraph.cpp               |  2 ++
 src/graph/Log.cpp                     | 14 ++++++++++++++
 src/graph/Logger.cpp                  |  2 ++
 6 files changed, 49 insertions(+)

diff --git a/include/tvm/graph/internal/Inputs.hpp b/include/tvm/graph/internal/Inputs.hpp
index 1a487e1..2433df1 100644
--- a/include/tvm/graph/internal/Inputs.hpp
+++ b/include/tvm/graph/internal/Inputs.hpp
@@ -12,6 +12,8 @@
     tvm::graph::internal::Logger::logger().addInput<T, EnumI>(node, source, i); \
   }
 
+#define TVM_GRAPH_LOG_REMOVE_INPUTS(node, source) tvm::graph::internal::Logger::logger().removeInputs(node, source);
+
 namespace
 {
 template<typename T>
@@ -91,6 +93,7 @@ inline void Inputs::removeInput(T * source)
   }
   else
   {
+    TVM_GRAPH_LOG_REMOVE_INPUTS(this, source)
     removeInput(it, source);
   }
 }
@@ -113,6 +116,7 @@ inline void Inputs::removeInput(T * source, Args... args)
       if(it->second.erase(i) == 0)
         throw std::runtime_error("You attempted to remove an input that was not there.");
     }
+    (Logger::logger().removeInput(this, source, args), ...);
     if(it->second.size() == 0)
     {
       removeInput(it, source);
diff --git a/include/tvm/graph/internal/Log.h b/include/tvm/graph/internal/Log.h
index 39f7933..959e6bd 100644
--- a/include/tvm/graph/internal/Log.h
+++ b/include/tvm/graph/internal/Log.h
@@ -207,6 +207,11 @@ public:
    */
   const std::type_index & getPromotedType(const Pointer & p) const;
 
+  /** Remove the inputs of \p owner coming from \p source, or only the one with the given \p id
+   * if it is not null. Inputs on which a dependency was declared are kept.
+   */
+  void removeInputs(const Pointer & owner, const Pointer & source, const EnumValue * id);
+
   // raw logs
   std::vector<Update> updates_;
   std::vector<Input> inputs_;
diff --git a/include/tvm/graph/internal/Logger.h b/include/tvm/graph/internal/Logger.h
index 5bbb1ac..4e86ff0 100644
--- a/include/tvm/graph/internal/Logger.h
+++ b/include/tvm/graph/internal/Logger.h
@@ -55,6 +55,17 @@ public:
 
   void addGraphOutput(CallGraph * g, Inputs * node);
 
+  /** Forget the outputs of a graph. */
+  void clearGraphOutputs(CallGraph * g);
+
+  /** Forget an input, unless a dependency was declared on it. */
+  template<typename S, typename EnumO>
+  void removeInput(Inputs * node, S * source, EnumO i);
+
+  /** Forget all the inputs from \p source, except those on which a dependency was declared. */
+  template<typename S>
+  void removeInputs(Inputs * node, S * source);
+
   /** Register the type associated to a pointer. */
   template<typename U>
   void registerType(U * node);
@@ -155,6 +166,17 @@ inline void Logger::addDirectDependency(U * node, EnumO o, S * source, EnumI i)
   registerType(source);
 }
 
+template<typename S, typename EnumO>
+inline void Logger::removeInput(Inputs * node, S * source, EnumO i)
+{
+  const Log::EnumValue id(i);
+  log_.removeInputs(node, source, &id);
+}
+
+template<typename S>
+inline void Logger::removeInputs(Inputs * node, S * source)
+{ log_.removeInputs(node, source, nullptr); }
+
 template<typename U>
 inline void Logger::registerType(U * node)
 {
diff --git a/src/graph/CallGraph.cpp b/src/graph/CallGraph.cpp
index c8dfdb2..43f3dec 100644
--- a/src/graph/CallGraph.cpp
+++ b/src/graph/CallGraph.cpp
@@ -4,6 +4,7 @@
 #include <tvm/graph/internal/Logger.h>
 
 #define TVM_GRAPH_LOG_ADD_GRAPH_OUTPUTS(graph, inputs) internal::Logger::logger().addGraphOutput(graph, inputs.get());
+#define TVM_GRAPH_LOG_CLEAR_GRAPH_OUTPUTS(graph) internal::Logger::logger().clearGraphOutputs(graph);
 
 namespace tvm
 {
@@ -35,6 +36,7 @@ void CallGraph::clear()
   dependencyGraph_.clear();
   visited_.clear();
   plan_.clear();
+  TVM_GRAPH_LOG_CLEAR_GRAPH_OUTPUTS(this)
 }
 
 std::vector<int> CallGraph::addOutput(abstract::Outputs * source, int output)
diff --git a/src/graph/Log.cpp b/src/graph/Log.cpp
index b96ccce..baf9ff4 100644
--- a/src/graph/Log.cpp
+++ b/src/graph/Log.cpp
@@ -264,6 +264,20 @@ std::ostream & operator<<(std::ostream & os, const std::type_index & t)
   return os;
 }
 
+void Log::removeInputs(const Pointer & owner, const Pointer & source, const EnumValue * id)
+{
+  auto used = [](const auto & dependencies, const Input & i) {
+    return std::any_of(dependencies.begin(), dependencies.end(), [&i](const auto & d) {
+      return d.owner == i.owner && d.source == i.source && d.input == i.id;
+    });
+  };
+  auto remove = [&](const Input & i) {
+    return i.owner == owner && i.source == source && (!id || i.id == *id) && !used(inputDependencies_, i)
+           && !used(directDependencies_, i);
+  };
+  inputs_.erase(std::remove_if(inputs_.begin(), inputs_.end(), remove), inputs_.end());
+}
+
 std::pair<std::vector<Log::Output>, std::vector<Log::Update>> Log::subGraph(const CallGraph * const g) const
 {
   auto it = graphOutputs_.find(g);
diff --git a/src/graph/Logger.cpp b/src/graph/Logger.cpp
index 475d2ab..24b3830 100644
--- a/src/graph/Logger.cpp
+++ b/src/graph/Logger.cpp
@@ -31,6 +31,8 @@ void Logger::addGraphOutput(CallGraph * g, Inputs * node)
   log_.graphOutputs_[g].push_back(node);
 }
 
+void Logger::clearGraphOutputs(CallGraph * g) { log_.graphOutputs_.erase(g); }
+
 } // namespace internal
 
 } // namespace graph
-- 
2.43.0


From dbb66c5f82fa7637f08c02f24082806e848a718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:53 +0000
Subject: [PATCH 40/52] fix: the graph log forgets the objects which address is
 used again

---
 include/tvm/graph/CallGraph.h        |  3 +++
 include/tvm/graph/abstract/Outputs.h |  3 +++
 include/tvm/graph/internal/Inputs.h  |  3 +++
 include/tvm/graph/internal/Log.h     |  3 +++
 include/tvm/graph/internal/Logger.h  |  3 +++
 src/graph/CallGraph.cpp              |  2 ++
 src/graph/Inputs.cpp                 | 10 ++++++++++
 src/graph/Log.cpp                    | 19 +++++++++++++++++++
 src/graph/Logger.cpp                 |  2 ++
 9 files changed, 48 insertions(+)

diff --git a/include/tvm/graph/CallGraph.h b/include/tvm/graph/CallGraph.h
index de82ebd..ef4832a 100644
--- a/include/tvm/graph/CallGraph.h
+++ b/include/tvm/graph/CallGraph.h
@@ -22,6 +22,9 @@ namespace graph
 class TVM_DLLAPI CallGraph
 {
 public:
+  /** Create an empty graph */
+  CallGraph();
+
   /** Add a given Inputs object to the graph */
   void add(std::shared_ptr<internal::Inputs> inputs);
 
diff --git a/include/tvm/graph/abstract/Outputs.h b/include/tvm/graph/abstract/Outputs.h
index 89b4456..10e10df 100644
--- a/include/tvm/graph/abstract/Outputs.h
+++ b/include/tvm/graph/abstract/Outputs.h
@@ -32,6 +32,9 @@ class TVM_DLLAPI Outputs
 public:
   friend class tvm::graph::CallGraph;
 
+  Outputs();
+  Outputs(const Outputs &) = default;
+  Outputs & operator=(const Outputs &) = default;
   virtual ~Outputs() = default;
 
   /** Base Output enumeration. Empty */
diff --git a/include/tvm/graph/internal/Inputs.h b/include/tvm/graph/internal/Inputs.h
index 67747de..562b631 100644
--- a/include/tvm/graph/internal/Inputs.h
+++ b/include/tvm/graph/internal/Inputs.h
@@ -26,6 +26,9 @@ class TVM_DLLAPI Inputs
 public:
   friend class tvm::graph::CallGraph;
 
+  Inputs();
+  Inputs(const Inputs &) = default;
+  Inputs & operator=(const Inputs &) = default;
   virtual ~Inputs() = default;
 
   /** Type used to store the inputs */
diff --git a/include/tvm/graph/internal/Log.h b/include/tvm/graph/internal/Log.h
index 959e6bd..d398ac2 100644
--- a/include/tvm/graph/internal/Log.h
+++ b/include/tvm/graph/internal/Log.h
@@ -212,6 +212,9 @@ public:
    */
   void removeInputs(const Pointer & owner, const Pointer & source, const EnumValue * id);
 
+  /** Remove all the entries about an object, as owner or as source.*/
+  void forget(std::uintptr_t object);
+
   // raw logs
   std::vector<Update> updates_;
   std::vector<Input> inputs_;
diff --git a/include/tvm/graph/internal/Logger.h b/include/tvm/graph/internal/Logger.h
index 4e86ff0..23c103b 100644
--- a/include/tvm/graph/internal/Logger.h
+++ b/include/tvm/graph/internal/Logger.h
@@ -66,6 +66,9 @@ public:
   template<typename S>
   void removeInputs(Inputs * node, S * source);
 
+  /** Forget everything about an object that was previously at this address. */
+  void forget(const void * p);
+
   /** Register the type associated to a pointer. */
   template<typename U>
   void registerType(U * node);
diff --git a/src/graph/CallGraph.cpp b/src/graph/CallGraph.cpp
index 43f3dec..7a3e09e 100644
--- a/src/graph/CallGraph.cpp
+++ b/src/graph/CallGraph.cpp
@@ -12,6 +12,8 @@ namespace tvm
 namespace graph
 {
 
+CallGraph::CallGraph() { TVM_GRAPH_LOG_CLEAR_GRAPH_OUTPUTS(this) }
+
 void CallGraph::add(std::shared_ptr<internal::Inputs> inputs)
 {
   inputs_.push_back(inputs);
diff --git a/src/graph/Inputs.cpp b/src/graph/Inputs.cpp
index eca992e..2dac585 100644
--- a/src/graph/Inputs.cpp
+++ b/src/graph/Inputs.cpp
@@ -1,6 +1,7 @@
 /** Copyright 2017-2020 CNRS-AIST JRL and CNRS-UM LIRMM */
 
 #include <tvm/graph/internal/Inputs.h>
+#include <tvm/graph/internal/Logger.h>
 
 namespace tvm
 {
@@ -8,9 +9,18 @@ namespace tvm
 namespace graph
 {
 
+namespace abstract
+{
+
+Outputs::Outputs() { internal::Logger::logger().forget(this); }
+
+} // namespace abstract
+
 namespace internal
 {
 
+Inputs::Inputs() { Logger::logger().forget(this); }
+
 Inputs::Iterator::Iterator(inputs_t::iterator it, inputs_t::iterator end) : Inputs::inputs_t::iterator(it), end_(end) {}
 
 Inputs::Iterator::operator bool() { return *this != end_; }
diff --git a/src/graph/Log.cpp b/src/graph/Log.cpp
index baf9ff4..4b346ee 100644
--- a/src/graph/Log.cpp
+++ b/src/graph/Log.cpp
@@ -278,6 +278,25 @@ void Log::removeInputs(const Pointer & owner, const Pointer & source, const Enum
   inputs_.erase(std::remove_if(inputs_.begin(), inputs_.end(), remove), inputs_.end());
 }
 
+void Log::forget(std::uintptr_t object)
+{
+  if(types_.erase(object) == 0)
+    return;
+
+  auto owned = [object](const auto & e) { return e.owner.value == object; };
+  auto linked = [object](const auto & e) { return e.owner.value == object || e.source.value == object; };
+  auto removeFrom = [](auto & v, const auto & pred) { v.erase(std::remove_if(v.begin(), v.end(), pred), v.end()); };
+  removeFrom(updates_, owned);
+  removeFrom(outputs_, owned);
+  removeFrom(outputDependencies_, owned);
+  removeFrom(internalDependencies_, owned);
+  removeFrom(inputs_, linked);
+  removeFrom(inputDependencies_, linked);
+  removeFrom(directDependencies_, linked);
+  for(auto & g : graphOutputs_)
+    removeFrom(g.second, [object](const Pointer & p) { return p.value == object; });
+}
+
 std::pair<std::vector<Log::Output>, std::vector<Log::Update>> Log::subGraph(const CallGraph * const g) const
 {
   auto it = graphOutputs_.find(g);
diff --git a/src/graph/Logger.cpp b/src/graph/Logger.cpp
index 24b3830..299fac7 100644
--- a/src/graph/Logger.cpp
+++ b/src/graph/Logger.cpp
@@ -33,6 +33,8 @@ void Logger::addGraphOutput(CallGraph * g, Inputs * node)
 
 void Logger::clearGraphOutputs(CallGraph * g) { log_.graphOutputs_.erase(g); }
 
+void Logger::forget(const void * p) { log_.forget(reinterpret_cast<std::uintptr_t>(p)); }
+
 } // namespace internal
 
 } // namespace graph
-- 
2.43.0


From dc3a74e9eb2f55cd1fe507c838811d4e9f41d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:53 +0000
Subject: [PATCH 41/52] fix: say which value given to an UpdatelessFunction has
 a wrong size

---
 src/utils/UpdatelessFunction.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/utils/UpdatelessFunction.cpp b/src/utils/UpdatelessFunction.cpp
index 0ed4869..ba4b4d3 100644
--- a/src/utils/UpdatelessFunction.cpp
+++ b/src/utils/UpdatelessFunction.cpp
@@ -91,9 +91,9 @@ void UpdatelessFunction::assign(size_t i, const Eigen::VectorXd & val, bool valu
     else
     {
       std::stringstream s;
-      s << "The size provided for the " << i << "-th variable's value (" << x[i]->name() << ") is incorrect (got"
+      s << "The size provided for the " << i << "-th variable's value (" << x[i]->name() << ") is incorrect (got "
         << val.size() << ", expected " << x[i]->size() << ")." << std::endl;
-      throw std::runtime_error("");
+      throw std::runtime_error(s.str());
     }
   }
   else
@@ -106,9 +106,9 @@ void UpdatelessFunction::assign(size_t i, const Eigen::VectorXd & val, bool valu
     else
     {
       std::stringstream s;
-      s << "The size provided for the " << i << "-th variable's velocity (" << x[i]->name() << ") is incorrect (got"
+      s << "The size provided for the " << i << "-th variable's velocity (" << x[i]->name() << ") is incorrect (got "
         << val.size() << ", expected " << dxi->size() << ")." << std::endl;
-      throw std::runtime_error("");
+      throw std::runtime_error(s.str());
     }
   }
 }
@@ -135,9 +135,9 @@ void UpdatelessFunction::assign(Variable & x, const Eigen::VectorXd & val, bool
       else
       {
         std::stringstream s;
-        s << "The size provided for the value of variable " << x.name() << "is incorrect (got" << val.size()
+        s << "The size provided for the value of variable " << x.name() << " is incorrect (got " << val.size()
           << ", expected " << x.size() << ")." << std::endl;
-        throw std::runtime_error("");
+        throw std::runtime_error(s.str());
       }
     }
     else
@@ -150,9 +150,9 @@ void UpdatelessFunction::assign(Variable & x, const Eigen::VectorXd & val, bool
       else
       {
         std::stringstream s;
-        s << "The size provided for the velocity of variable " << x.name() << "is incorrect (got" << val.size()
+        s << "The size provided for the velocity of variable " << x.name() << " is incorrect (got " << val.size()
           << ", expected " << dxi->size() << ")." << std::endl;
-        throw std::runtime_error("");
+        throw std::runtime_error(s.str());
       }
     }
   }
-- 
2.43.0


From 02b9fe89cf2caef2ee3ec599dd3a91c5822cbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:53 +0000
Subject: [PATCH 42/52] fix: JDot of a part of a non-Euclidean variable is
 taken in the tangent space

---
 include/tvm/function/abstract/Function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/function/abstract/Function.h b/include/tvm/function/abstract/Function.h
index 81deda5..325b4b8 100644
--- a/include/tvm/function/abstract/Function.h
+++ b/include/tvm/function/abstract/Function.h
@@ -89,7 +89,7 @@ protected:
   // cache
   Eigen::VectorXd velocity_;
   Eigen::VectorXd normalAcceleration_;
-  utils::internal::MapWithVariableAsKey<Eigen::MatrixXd, slice_jdot> JDot_;
+  utils::internal::MapWithVariableAsKey<Eigen::MatrixXd, slice_jdot, true> JDot_;
 
 private:
   // we retain the variables' derivatives shared_ptr to ensure the reference is never lost
-- 
2.43.0


From 525247e7656ae2f8ac8c4ba80400b7dcc1ddf694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:53 +0000
Subject: [PATCH 43/52] fix: check the normal acceleration along a trajectory
 with constant acceleration

---
 src/utils/checkFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 74119c3..198f1c7 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -349,7 +349,7 @@ bool checkNormalAcceleration(const UpdatelessFunction & uf,
   // we consider a constant-acceleration trajectory in variable space
   double dt = opt.step;
   VectorXd vel1 = vel0 + acc * dt;
-  VectorXd val1 = val0 + vel0 * dt + 0.5 * acc.cwiseProduct(acc) * dt * dt;
+  VectorXd val1 = val0 + vel0 * dt + 0.5 * acc * dt * dt;
 
   VectorXd v0 = uf.velocity(val0, vel0);
   VectorXd v1 = uf.velocity(val1, vel1);
-- 
2.43.0


From e27d30cd4940cd8efe75004d9045ac728b711a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:53 +0000
Subject: [PATCH 44/52] fix: refuse to remove a variable that is not in the
 function

---
 src/internal/FirstOrderProvider.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/FirstOrderProvider.cpp b/src/internal/FirstOrderProvider.cpp
index a89497b..8e2f543 100644
--- a/src/internal/FirstOrderProvider.cpp
+++ b/src/internal/FirstOrderProvider.cpp
@@ -58,7 +58,8 @@ void FirstOrderProvider::addVariable(const VariableVector & vv, bool linear)
 
 void FirstOrderProvider::removeVariable(VariablePtr v)
 {
-  variables_.remove(*v);
+  if(!variables_.remove(*v))
+    throw std::runtime_error("[FirstOrderProvider::removeVariable] Variable " + v->name() + " is not a variable of this entity.");
   jacobian_.erase(v.get());
   linear_.erase(v.get());
   removeVariable_(v);
-- 
2.43.0


From a5a5987a15e5afea58b05947bc17eb48f66c8081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:53 +0000
Subject: [PATCH 45/52] fix: concatenated velocities go to the current
 variables of the function

---
 src/utils/UpdatelessFunction.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils/UpdatelessFunction.cpp b/src/utils/UpdatelessFunction.cpp
index ba4b4d3..8350491 100644
--- a/src/utils/UpdatelessFunction.cpp
+++ b/src/utils/UpdatelessFunction.cpp
@@ -191,11 +191,11 @@ void UpdatelessFunction::assign(const Eigen::VectorXd & val, const Eigen::Vector
   const auto & x = f_->variables().variables();
 
   auto sp = x[0]->size();
-  auto sd = dx_[0]->size();
+  auto sd = dot(x[0])->size();
   for(size_t i = 1; i < x.size(); ++i)
   {
     sp += x[i]->size();
-    sd += dx_[i]->size();
+    sd += dot(x[i])->size();
   }
   if(val.size() != sp)
   {
@@ -213,9 +213,10 @@ void UpdatelessFunction::assign(const Eigen::VectorXd & val, const Eigen::Vector
   for(size_t i = 0; i < x.size(); ++i)
   {
     auto spi = x[i]->size();
-    auto sdi = dx_[i]->size();
+    auto dxi = dot(x[i]);
+    auto sdi = dxi->size();
     x[i]->set(val.segment(sp, spi));
-    dx_[i]->set(vel.segment(sd, sdi));
+    dxi->set(vel.segment(sd, sdi));
     sp += spi;
     sd += sdi;
   }
-- 
2.43.0


From 035f2a908dbca7a0f85145f0b0b30b35bb6c9c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:53 +0000
Subject: [PATCH 46/52] fix: checkJacobian compares all the columns of the
 jacobian

---
 src/utils/checkFunction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 198f1c7..1658da7 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -131,6 +131,7 @@ bool checkJacobian(const UpdatelessFunction & uf, const CheckOptions & opt, cons
                     << ") of the total jacobian) is not equivalent to the result of the ffd." << std::endl;
         }
       }
+      ++i;
     }
   }
 
-- 
2.43.0


From b4a06acf1d6c80cb5bdd6601098ac42133865cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:53 +0000
Subject: [PATCH 47/52] fix: recognize the variables of a function through any
 handle on them

---
 src/utils/UpdatelessFunction.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utils/UpdatelessFunction.cpp b/src/utils/UpdatelessFunction.cpp
index 8350491..74719fd 100644
--- a/src/utils/UpdatelessFunction.cpp
+++ b/src/utils/UpdatelessFunction.cpp
@@ -121,9 +121,7 @@ void UpdatelessFunction::assign(Variable & x, const Eigen::VectorXd & val, bool
     throw std::runtime_error("This function has no variable.");
   }
 
-  auto ptr = vars[0];
-  VariablePtr p(ptr, &x);
-  auto it = std::find(vars.begin(), vars.end(), p);
+  auto it = std::find_if(vars.begin(), vars.end(), [&x](const VariablePtr & v) { return *v == x; });
   if(it != vars.end())
   {
     if(value)
-- 
2.43.0


From 3507d5b141f39e08f0ec62ffe4a8336ef288c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:54 +0000
Subject: [PATCH 48/52] fix: DiagonalCalculator: find the zero rows in the
 matrix, not in the diagonal

The rows of the matrix are the rows of the diagonal which are listed, as
documented and as done for the non-zero rows. When a row preceding a zero
row was not listed, a wrong row, possibly outside of the matrix, was read.
---
 include/tvm/hint/internal/DiagonalCalculator.h | 1 +
 src/hint/DiagonalCalculator.cpp                | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tvm/hint/internal/DiagonalCalculator.h b/include/tvm/hint/internal/DiagonalCalculator.h
index 2212c17..ad6ca0b 100644
--- a/include/tvm/hint/internal/DiagonalCalculator.h
+++ b/include/tvm/hint/internal/DiagonalCalculator.h
@@ -54,6 +54,7 @@ public:
     std::vector<Eigen::DenseIndex> innz_;  // indices of the non-zero rows in the resulting matrix
     std::vector<Eigen::DenseIndex> cnnz_;  // complementary to nnz in [0:col-1]
     std::vector<Eigen::DenseIndex> zeros_; // indices of the zero rows
+    std::vector<Eigen::DenseIndex> izeros_; // indices of the zero rows in the resulting matrix
 
     Eigen::VectorXd inverse_;
   };
diff --git a/src/hint/DiagonalCalculator.cpp b/src/hint/DiagonalCalculator.cpp
index 88005e2..4e03662 100644
--- a/src/hint/DiagonalCalculator.cpp
+++ b/src/hint/DiagonalCalculator.cpp
@@ -223,9 +223,9 @@ void DiagonalCalculator::Impl::premultiplyByASharpAndSTranspose_(MatrixRef outA,
   }
 
   // multiplying by S^T
-  for(size_t i = 0; i < zeros_.size(); ++i)
+  for(size_t i = 0; i < izeros_.size(); ++i)
   {
-    outS.row(static_cast<DenseIndex>(i)) = in.row(zeros_[i]);
+    outS.row(static_cast<DenseIndex>(i)) = in.row(izeros_[i]);
   }
 }
 
@@ -275,6 +275,7 @@ void DiagonalCalculator::Impl::build()
     }
     else if(appearZero[i])
     {
+      izeros_.push_back(k);
       ++k;
     }
   }
-- 
2.43.0


From 2c0c8b66d513b69fa898a48347f460cb230dbc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:54 +0000
Subject: [PATCH 49/52] fix: SubstitutionUnit: index uIsZero_ by substitution

uIsZero_ has one element per substitution but was read with the index of a
variable: the offset of a substitution could be said to be zero when it was not.
---
 src/hint/SubstitutionUnit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index 9fb48c8..4d0b80b 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -179,7 +179,7 @@ void SubstitutionUnit::update()
 
         // c_i -= A{il}*u_l
         c_.segment(m + mk, mki).noalias() -= A * u_.segment(rx.start, rx.dim);
-        cIsZero_[i] = cIsZero_[i] && uIsZero_[l];
+        cIsZero_[i] = cIsZero_[i] && uIsZero_[x2sub_[l]];
       }
       cZero = cZero && cIsZero_[i];
       mk += mki;
-- 
2.43.0


From 4ce92754fe90c827085caa009bca8f7f57d9eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:54 +0000
Subject: [PATCH 50/52] fix: SubstitutionUnit: one cIsZero_ flag per constraint

There was one per variable, while the flags are read and written with the
index of a constraint: out of the vector when there are more constraints than variables.
---
 include/tvm/hint/internal/SubstitutionUnit.h | 2 +-
 src/hint/SubstitutionUnit.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tvm/hint/internal/SubstitutionUnit.h b/include/tvm/hint/internal/SubstitutionUnit.h
index f8be8d0..f2a1358 100644
--- a/include/tvm/hint/internal/SubstitutionUnit.h
+++ b/include/tvm/hint/internal/SubstitutionUnit.h
@@ -146,7 +146,7 @@ private:
    * in \p constraints_.
    */
   Eigen::VectorXd c_;
-  /** cIsZero_[i] is true if the value of u corresponding to x_[i] is zero.*/
+  /** cIsZero_[i] is true if the right hand side c corresponding to constraints_[i] is zero.*/
   std::vector<bool> cIsZero_;
   /** All the matrices M_{i,j} assembled, where \p i corresponds to the i-th
    * variables in \p x_ and \p j corresponds to the j-th variable in \p y_.
diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index 4d0b80b..a5d7d2e 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -317,7 +317,6 @@ void SubstitutionUnit::scanSubstitutions()
       ni += v->size();
       XYdependencies_.push_back({});
       XZdependencies_.push_back({});
-      cIsZero_.push_back(false);
     }
     int mi = 0;
     for(const auto & c : s.constraints())
@@ -325,6 +324,7 @@ void SubstitutionUnit::scanSubstitutions()
       sub2cstr_[i].push_back(constraints_.size());
       constraints_.push_back(c);
       constraintsY_.push_back({});
+      cIsZero_.push_back(false);
       CXdependencies_.push_back({});
       mi += c->size();
       for(const auto & v : tvm::internal::VariableVectorPartition(c->variables(), partition))
-- 
2.43.0


From b2dca994e7e8bd8187b2bc29963f05d54ecbe151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:25 +0000
Subject: [PATCH 51/52] fix: refuse a substitution without variables or without
 constraints

Without variables, the loop looking for intersections ran for ever. Without
both, the constraint and the variable that do not exist were dereferenced.
---
 src/hint/Substitution.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hint/Substitution.cpp b/src/hint/Substitution.cpp
index 5f33699..551413e 100644
--- a/src/hint/Substitution.cpp
+++ b/src/hint/Substitution.cpp
@@ -71,6 +71,11 @@ std::shared_ptr<abstract::SubstitutionCalculatorImpl> Substitution::calculator()
 
 void Substitution::check() const
 {
+  if(constraints_.empty() || x_.empty())
+  {
+    throw std::runtime_error("A substitution needs at least one constraint and one variable.");
+  }
+
   // all constraints need to be equality
   for(const auto & c : constraints_)
   {
-- 
2.43.0


From 03b224e07fa8dd51e10e30fe44dd0eb37e1bce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:26 +0000
Subject: [PATCH 52/52] fix: allow to partition an empty vector of variables

A task without variables is supported, but as soon as a substitution was
present, the first variable of its empty vector of variables was accessed.
---
 include/tvm/internal/VariableVectorPartition.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tvm/internal/VariableVectorPartition.h b/include/tvm/internal/VariableVectorPartition.h
index 1515fd4..16c3504 100644
--- a/include/tvm/internal/VariableVectorPartition.h
+++ b/include/tvm/internal/VariableVectorPartition.h
@@ -70,9 +70,9 @@ public:
   public:
     iterator(const VarVector & var, const VariableVector & p, int iv) : ip_(0), iv_(iv), var_(var), partition_(p)
     {
-      if(iv == p.numberOfVariables()) // end
+      if(iv == p.numberOfVariables() || var.begin() == var.end()) // end
       {
-        ip_ = iv;
+        ip_ = p.numberOfVariables();
       }
       else
       {
-- 
2.43.0

