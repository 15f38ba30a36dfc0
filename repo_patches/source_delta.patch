From ee14ed060d26eaf11890aea30790698c7873f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:34 +0000
Subject: [PATCH 01/46] fix: Restart takes the solution of an interrupted run
 into account

When a run was interrupted (budget exhausted) its solution was lost: if it was
the first run then the reported solution was the null bit vector, never
evaluated, with value 0.
---
 lib/hnco/algorithms/decorators/restart.cc | 22 +++++++++++++++++++---
 lib/hnco/algorithms/decorators/restart.hh | 13 +++++++++++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/lib/hnco/algorithms/decorators/restart.cc b/lib/hnco/algorithms/decorators/restart.cc
index 17a98ca..2752e05 100644
--- a/lib/hnco/algorithms/decorators/restart.cc
+++ b/lib/hnco/algorithms/decorators/restart.cc
@@ -28,12 +28,28 @@ using namespace hnco::exception;
 void
 Restart::iterate(bool first_iteration)
 {
+  if (first_iteration)
+    _has_solution = false;
   _algorithm->maximize(_functions);
+  update();
+}
+
+void
+Restart::update()
+{
   _algorithm->finalize();
-  if (first_iteration)
-    _solution = _algorithm->get_solution();
-  else
+  if (_has_solution)
     update_solution(_algorithm->get_solution());
+  else {
+    _solution = _algorithm->get_solution();
+    _has_solution = true;
+  }
+}
+
+void
+Restart::finalize()
+{
+  update();
 }
 
 void
diff --git a/lib/hnco/algorithms/decorators/restart.hh b/lib/hnco/algorithms/decorators/restart.hh
index 842a0d6..66458a1 100644
--- a/lib/hnco/algorithms/decorators/restart.hh
+++ b/lib/hnco/algorithms/decorators/restart.hh
@@ -40,6 +40,12 @@ class Restart: public Decorator {
   /// Number of iterations
   int _num_iterations = 0;
 
+  /// The solution has been set by a previous iteration
+  bool _has_solution = false;
+
+  /// Update the solution with that of the decorated algorithm
+  void update();
+
   /**
    * Iterate.
    *
@@ -63,6 +69,13 @@ public:
   /// Maximize
   void maximize(const std::vector<function::Function *>& functions) override;
 
+  /** Finalize.
+
+      If the last run has been interrupted then its solution has not
+      been taken into account yet.
+  */
+  void finalize() override;
+
   ///@}
 
   /**
-- 
2.43.0


From ce72071f37507ffe3ef89ff2fb34ed4d20c94280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:34 +0000
Subject: [PATCH 02/46] fix: RandomWalk starts incremental evaluation from the
 value of its starting point

The value of the starting point was an uninitialized data member.
---
 lib/hnco/algorithms/local-search/random-walk.cc | 8 ++++++++
 lib/hnco/algorithms/local-search/random-walk.hh | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/lib/hnco/algorithms/local-search/random-walk.cc b/lib/hnco/algorithms/local-search/random-walk.cc
index 177c484..c13709c 100644
--- a/lib/hnco/algorithms/local-search/random-walk.cc
+++ b/lib/hnco/algorithms/local-search/random-walk.cc
@@ -29,6 +29,14 @@ using namespace hnco::algorithm;
 using namespace hnco;
 
 
+void
+RandomWalk::init()
+{
+  LocalSearchAlgorithm<neighborhood::Neighborhood>::init();
+  _value = _solution.second;
+}
+
+
 void
 RandomWalk::iterate()
 {
diff --git a/lib/hnco/algorithms/local-search/random-walk.hh b/lib/hnco/algorithms/local-search/random-walk.hh
index a802912..65a6c20 100644
--- a/lib/hnco/algorithms/local-search/random-walk.hh
+++ b/lib/hnco/algorithms/local-search/random-walk.hh
@@ -59,6 +59,9 @@ protected:
    */
   ///@{
 
+  /// Initialize
+  void init() override;
+
   /// Single iteration
   void iterate() override;
 
-- 
2.43.0


From d02bf6acea685af2fab35a24babe0776aea4192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:34 +0000
Subject: [PATCH 03/46] fix: (1+(lambda,lambda)) GA does not read past its
 population when all values are equal

---
 .../one-plus-lambda-comma-lambda-ga.cc                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
index 8504b8f..b163367 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
@@ -51,7 +51,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
 
   double value = _offsprings.get_best_value(0);
   int n = 0;
-  while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+  while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
     n++;
   assert(n > 0);
   std::uniform_int_distribution<int> choose_parent(0, n - 1);
@@ -67,7 +67,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
   value = _offsprings.get_best_value(0);
   if (value >= _solution.second) {
     n = 0;
-    while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+    while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
       n++;
     assert(n > 0);
     choose_parent = std::uniform_int_distribution<int>(0, n - 1);
-- 
2.43.0


From 1095697540462e31ec46557496df7f44320ab459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:34 +0000
Subject: [PATCH 04/46] fix: P3, LTGA and HBOA report their best solution with
 its true value

Values were truncated to single precision; values below INT_MIN were never
recorded, which made finalize fail on an empty bit vector.
---
 lib/hnco/algorithms/fast-efficient-p3/hboa.cc |  4 ++--
 .../fast-efficient-p3/hnco-evaluator.hh       | 21 ++++++++++++++++++-
 lib/hnco/algorithms/fast-efficient-p3/ltga.cc |  4 ++--
 lib/hnco/algorithms/fast-efficient-p3/p3.cc   |  4 ++--
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/lib/hnco/algorithms/fast-efficient-p3/hboa.cc b/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
index 022a8da..9d2a543 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
@@ -71,6 +71,6 @@ Hboa::maximize(const std::vector<function::Function *>& functions)
 void
 Hboa::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  if (_implementation->evaluator && _implementation->evaluator->has_best_solution())
+    _solution = _implementation->evaluator->get_best_solution();
 }
diff --git a/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh b/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
index e1e7b86..7c1ca15 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
+++ b/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
@@ -24,6 +24,7 @@
 #include <cassert>
 
 #include "hnco/functions/function.hh"
+#include "hnco/algorithms/solution.hh"
 
 #include "fast-efficient-p3/Evaluation.h"
 
@@ -41,6 +42,12 @@ class HncoEvaluator: public Evaluator {
   /// Argument of HNCO function
   hnco::bit_vector_t _bv;
 
+  /// Best solution so far, with its value in double precision
+  hnco::algorithm::solution_t _best_solution;
+
+  /// Whether there is a best solution
+  bool _has_best_solution = false;
+
 public:
 
   /// Constructor
@@ -57,9 +64,21 @@ public:
     assert(x.size() == _bv.size());
 
     bv_from_vector_bool(_bv, x);
-    return _function->evaluate(_bv);
+    const double value = _function->evaluate(_bv);
+    if (!_has_best_solution || value > _best_solution.second) {
+      _best_solution.first = _bv;
+      _best_solution.second = value;
+      _has_best_solution = true;
+    }
+    return value;
   }
 
+  /// Check for a best solution
+  bool has_best_solution() const { return _has_best_solution; }
+
+  /// Get the best solution
+  const hnco::algorithm::solution_t& get_best_solution() const { return _best_solution; }
+
 };
 
 } // end of namespace fast_efficient_p3
diff --git a/lib/hnco/algorithms/fast-efficient-p3/ltga.cc b/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
index c606691..15f4862 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
@@ -78,6 +78,6 @@ Ltga::maximize(const std::vector<function::Function *>& functions)
 void
 Ltga::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  if (_implementation->evaluator && _implementation->evaluator->has_best_solution())
+    _solution = _implementation->evaluator->get_best_solution();
 }
diff --git a/lib/hnco/algorithms/fast-efficient-p3/p3.cc b/lib/hnco/algorithms/fast-efficient-p3/p3.cc
index 24f76b4..b8c65d1 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/p3.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/p3.cc
@@ -80,6 +80,6 @@ ParameterLessPopulationPyramid::maximize(const std::vector<function::Function *>
 void
 ParameterLessPopulationPyramid::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  if (_implementation->evaluator && _implementation->evaluator->has_best_solution())
+    _solution = _implementation->evaluator->get_best_solution();
 }
-- 
2.43.0


From be81e1b466d7ad0c8abc274d24e7657fb3850e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:34 +0000
Subject: [PATCH 05/46] fix: Algorithm::random_solution leaves the solution
 unchanged if evaluation throws

---
 lib/hnco/algorithms/algorithm.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/algorithm.cc b/lib/hnco/algorithms/algorithm.cc
index d5c8b3f..e4efadd 100644
--- a/lib/hnco/algorithms/algorithm.cc
+++ b/lib/hnco/algorithms/algorithm.cc
@@ -30,8 +30,11 @@ Algorithm::random_solution()
 {
   assert(_function);
 
-  bv_random(_solution.first);
-  _solution.second = _function->evaluate(_solution.first);
+  // In case evaluate throws an exception, the solution is left
+  // unchanged.
+  bit_vector_t bv(_solution.first.size());
+  bv_random(bv);
+  set_solution(bv);
 }
 
 void
-- 
2.43.0


From 039d51b4336708b03be10947ef61b8385eb7c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:46 +0000
Subject: [PATCH 06/46] fix: (mu+lambda) EA and GA have a solution even if
 their initialization is interrupted

The reported solution was the null bit vector, never evaluated, with value 0.
---
 .../evolutionary-algorithms/genetic-algorithm.cc      | 11 ++++++++++-
 .../evolutionary-algorithms/mu-plus-lambda-ea.cc      | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc b/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc
index 18b2cfe..8bb57c9 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc
@@ -39,7 +39,16 @@ GeneticAlgorithm::init()
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
   _parents.random();
-  _parents.evaluate(_function);
+  // The solution must be defined even if the initialization is
+  // interrupted.
+  for (int i = 0; i < _parents.get_size(); i++) {
+    const double value = _function->evaluate(_parents.bvs[i]);
+    _parents.values[i] = value;
+    if (i == 0)
+      set_solution(_parents.bvs[i], value);
+    else
+      update_solution(_parents.bvs[i], value);
+  }
   _parents.sort();
 
   set_solution(_parents.get_best_bv(),
diff --git a/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc b/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc
index 0c783e8..3e9ed80 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc
@@ -35,7 +35,16 @@ MuPlusLambdaEa::init()
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
   _parents.random();
-  _parents.evaluate(_function);
+  // The solution must be defined even if the initialization is
+  // interrupted.
+  for (int i = 0; i < _parents.get_size(); i++) {
+    const double value = _function->evaluate(_parents.bvs[i]);
+    _parents.values[i] = value;
+    if (i == 0)
+      set_solution(_parents.bvs[i], value);
+    else
+      update_solution(_parents.bvs[i], value);
+  }
   _parents.sort();
 
   set_solution(_parents.get_best_bv(),
-- 
2.43.0


From 57ff01fcad0f6ce6441c114b3bde8c01fb0dbc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:04 +0000
Subject: [PATCH 07/46] fix: Cache forwards update to the decorated function

With a cache, the evaluations of an algorithm which evaluates its population in
parallel reached neither the budget nor the progress tracker: the budget was
never enforced and the results were empty.
---
 lib/hnco/functions/controllers/controller.cc | 7 +++++++
 lib/hnco/functions/controllers/controller.hh | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index 5b34e0a..1df62b1 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -189,3 +189,10 @@ Cache::evaluate(const bit_vector_t& bv)
     return iter->second;
   }
 }
+
+void
+Cache::update(const bit_vector_t& bv, double value)
+{
+  _num_evaluations++;
+  _function->update(bv, value);
+}
diff --git a/lib/hnco/functions/controllers/controller.hh b/lib/hnco/functions/controllers/controller.hh
index 5ba23c3..c4a7a7f 100644
--- a/lib/hnco/functions/controllers/controller.hh
+++ b/lib/hnco/functions/controllers/controller.hh
@@ -406,6 +406,12 @@ public:
   /// Evaluate a bit vector
   double evaluate(const bit_vector_t&);
 
+  /**
+   * Update after a safe evaluation. Safe evaluations do not go through
+   * the cache.
+   */
+  void update(const bit_vector_t& bv, double value);
+
   ///@}
 
   /// Get lookup ratio
-- 
2.43.0


From f4deadc7ac440d17dfc7c52ec9d0d59f682edc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:04 +0000
Subject: [PATCH 08/46] fix: Gomea seeds its random number generator from that
 of the library

It was seeded from the clock, so that runs were not reproducible in spite of the
option --seed.
---
 lib/hnco/algorithms/gomea/gomea.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/gomea/gomea.cc b/lib/hnco/algorithms/gomea/gomea.cc
index cae85b8..e4df401 100644
--- a/lib/hnco/algorithms/gomea/gomea.cc
+++ b/lib/hnco/algorithms/gomea/gomea.cc
@@ -18,6 +18,8 @@
 
 */
 
+#include "hnco/random.hh"
+
 #include "gomea/src/discrete/Config.hpp"
 #include "gomea/src/discrete/gomeaIMS.hpp"
 
@@ -52,8 +54,11 @@ Gomea::maximize(const std::vector<function::Function *>& functions)
   // _config.maximumNumberOfEvaluations = max_number_of_evaluations;
   // _config.maximumNumberOfGenerations = max_number_of_generations;
   // _config.maximumNumberOfSeconds     = max_number_of_seconds;
-  // _config.randomSeed                 = random_seed;
-  // _config.fix_seed                   = true;
+
+  // GOMEA has its own random number generator, which would otherwise
+  // be seeded from the clock.
+  _config.fix_seed                      = true;
+  _config.randomSeed                    = random::Generator::engine();
 
   ::gomea::discrete::gomeaIMS gomea(&_config);
   gomea.run();
-- 
2.43.0


From 1e037db6267bd2c11f763b6d8797519b6a218fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:10:34 +0000
Subject: [PATCH 09/46] fix: synchronous Gibbs sampling does not read past the
 rows of a triangular moment matrix

---
 lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
index 0c81e00..a2561ed 100644
--- a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
+++ b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
@@ -70,14 +70,18 @@ TriangularMomentGibbsSampler::update_sync()
   for (size_t i = 0; i < _pv.size(); i++) {
     double delta = _model_parameters.first_moment[i];
     const std::vector<double>& row = _model_parameters.second_moment[i];
-    for (size_t j = 0; j < _state.size(); j++) {
-      if (j == i)
-        continue;
+    for (size_t j = 0; j < i; j++) {
       if (_state[j])
         delta -= row[j];
       else
         delta += row[j];
     }
+    for (size_t j = i + 1; j < _state.size(); j++) {
+      if (_state[j])
+        delta -= _model_parameters.second_moment[j][i];
+      else
+        delta += _model_parameters.second_moment[j][i];
+    }
     delta *= -2;
 
     _pv[i] = logistic(delta);
-- 
2.43.0


From 889caa84c551e115c3259c7499dfd7104a1946a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:53 +0000
Subject: [PATCH 10/46] fix: StopOnTarget keeps the point reached by
 incremental evaluation, not the one it started from

---
 lib/hnco/functions/controllers/controller.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index 1df62b1..22d82e4 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -45,6 +45,7 @@ StopOnTarget::evaluate_incrementally(const bit_vector_t& bv, double value, const
   double result = _function->evaluate_incrementally(bv, value, flipped_bits);
   if (result >= _target) {
     _trigger.first = bv;
+    bv_flip(_trigger.first, flipped_bits);
     _trigger.second = result;
     throw TargetReached();
   }
-- 
2.43.0


From ca0b4ea708771d4f5294f8932923bcba022bbde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:53 +0000
Subject: [PATCH 11/46] fix: ProgressTracker records the point reached by
 incremental evaluation, not the one it started from

---
 lib/hnco/functions/controllers/controller.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index 22d82e4..1904336 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -129,7 +129,13 @@ double
 ProgressTracker::evaluate_incrementally(const bit_vector_t& bv, double value, const hnco::sparse_bit_vector_t& flipped_bits)
 {
   double result = CallCounter::evaluate_incrementally(bv, value, flipped_bits);
-  update_last_improvement(bv, result);
+  if (_record_bit_vector) {
+    bit_vector_t x = bv;
+    bv_flip(x, flipped_bits);
+    update_last_improvement(x, result);
+  } else {
+    update_last_improvement(bv, result);
+  }
   return result;
 }
 
-- 
2.43.0


From 26a9414ceddc5090c9997e879cf97432e75d2ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:47 +0000
Subject: [PATCH 12/46] fix: HBOA does not break ties between splits by the
 addresses of its trees

---
 lib/fast-efficient-p3/HBOA.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/fast-efficient-p3/HBOA.cpp b/lib/fast-efficient-p3/HBOA.cpp
index 299a921..24900da 100644
--- a/lib/fast-efficient-p3/HBOA.cpp
+++ b/lib/fast-efficient-p3/HBOA.cpp
@@ -368,8 +368,11 @@ void Bayesian_Forest::build_forest(Random & rand) {
   shuffle(options.begin(), options.end(), rand);
   // while there are still worthwhile splits
   while (options.size()) {
-    // get the best split
-    auto best = *min_element(options.begin(), options.end());
+    // get the best split (ties are broken by the shuffle, not by the
+    // addresses of the trees)
+    auto best = *min_element(options.begin(), options.end(),
+                             [](const tuple<double, Bayesian_Tree*, size_t>& a,
+                                const tuple<double, Bayesian_Tree*, size_t>& b) { return get<0>(a) < get<0>(b); });
     Bayesian_Tree& splitting = *get<1>(best);
     size_t new_index = get<2>(best);
     // update dependency information to prevent cycles
-- 
2.43.0


From 6375245e9871a220690e8170217b62fe3a280d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:47 +0000
Subject: [PATCH 13/46] fix: StandardBitMutation leaves rejection sampling when
 its mutation rate grows again

---
 lib/hnco/neighborhoods/neighborhood.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/hnco/neighborhoods/neighborhood.hh b/lib/hnco/neighborhoods/neighborhood.hh
index 8dfbe8e..ccddb2e 100644
--- a/lib/hnco/neighborhoods/neighborhood.hh
+++ b/lib/hnco/neighborhoods/neighborhood.hh
@@ -282,8 +282,7 @@ public:
   void set_mutation_rate(double p) {
     _bernoulli_dist = std::bernoulli_distribution(p);
     _binomial_dist = std::binomial_distribution<int>(_origin.size(), p);
-    if (p < 1 / std::sqrt(_origin.size()))
-      _rejection_sampling = true;
+    _rejection_sampling = p < 1 / std::sqrt(_origin.size());
   }
 
   /// Set the flag _allow_no_mutation
-- 
2.43.0


From 44b879df894e589703e77b9bc3a05c583985327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:47 +0000
Subject: [PATCH 14/46] fix: StandardBitMutation allows no mutation at all
 mutation rates when told so

---
 lib/hnco/neighborhoods/neighborhood.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/neighborhoods/neighborhood.cc b/lib/hnco/neighborhoods/neighborhood.cc
index 05620e2..2d77e42 100644
--- a/lib/hnco/neighborhoods/neighborhood.cc
+++ b/lib/hnco/neighborhoods/neighborhood.cc
@@ -93,7 +93,7 @@ StandardBitMutation::bernoulli_process()
         _flipped_bits.push_back(i);
         again = false;
       }
-  } while (again);
+  } while (again && !_allow_no_mutation);
 }
 
 
-- 
2.43.0


From 8b894ff0a369110b939483cfcbb807a7196dd2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:22 +0000
Subject: [PATCH 15/46] fix: compact GA does not evaluate its candidates again
 in an assertion

With assertions on, each iteration took four evaluations of the budget instead
of two, and a noisy function aborted the run.
---
 lib/hnco/algorithms/probability-vector/compact-ga.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/compact-ga.cc b/lib/hnco/algorithms/probability-vector/compact-ga.cc
index d6bb120..e0051ab 100644
--- a/lib/hnco/algorithms/probability-vector/compact-ga.cc
+++ b/lib/hnco/algorithms/probability-vector/compact-ga.cc
@@ -55,7 +55,7 @@ CompactGa::iterate()
   } else
     update_solution(_candidates[0], v0);
 
-  assert(_function->evaluate(_candidates[best]) >= _function->evaluate(_candidates[worst]));
+  assert(best == 0 ? !(v0 < v1) : v0 < v1);
 
   // Update probability vector
   for (size_t i = 0; i < _pv.size(); i++)
-- 
2.43.0


From 688acbecadfb44922de6379f2b7785239c4a825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:08 +0000
Subject: [PATCH 16/46] fix: OppositeFunction provides incremental evaluation
 only if the decorated function does

Minimizing a function without incremental evaluation failed as soon as
incremental evaluation was requested.
---
 lib/hnco/functions/modifiers/modifier.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/modifiers/modifier.hh b/lib/hnco/functions/modifiers/modifier.hh
index 5ae20fe..c3fa693 100644
--- a/lib/hnco/functions/modifiers/modifier.hh
+++ b/lib/hnco/functions/modifiers/modifier.hh
@@ -63,9 +63,9 @@ public:
   int get_bv_size() const override { return _function->get_bv_size(); }
   /**
    * Check whether the function provides incremental evaluation.
-   * @return true
+   * @return true if the decorated function does
    */
-  bool provides_incremental_evaluation() const override { return true; }
+  bool provides_incremental_evaluation() const override { return _function->provides_incremental_evaluation(); }
   ///@}
 
   /**
-- 
2.43.0


From b2e8b9a47e34463307f4613a6380dc2aa42f82f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 17/46] fix: prior noise is applied to bit vectors of the size
 the composed function takes

Combined with a map which changes the size of bit vectors, prior noise aborted
the application.
---
 lib/hnco/app/decorated-function-factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/app/decorated-function-factory.cc b/lib/hnco/app/decorated-function-factory.cc
index 296e75e..f1d515f 100644
--- a/lib/hnco/app/decorated-function-factory.cc
+++ b/lib/hnco/app/decorated-function-factory.cc
@@ -230,7 +230,7 @@ DecoratedFunctionFactory::make_function_modifier()
 
   // Prior noise
   if (_options.with_prior_noise()) {
-    Neighborhood *nh = make_prior_noise_neighborhood(_options, bv_size);
+    Neighborhood *nh = make_prior_noise_neighborhood(_options, function->get_bv_size());
     function = new PriorNoise(function, nh);
   }
 
-- 
2.43.0


From cfbf9f50157470164a87175e988894d2fb02d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:38 +0000
Subject: [PATCH 18/46] fix: TournamentSelection returns the winner of the last
 tournament of a pass

---
 lib/hnco/multiobjective/algorithms/random-selection.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/multiobjective/algorithms/random-selection.hh b/lib/hnco/multiobjective/algorithms/random-selection.hh
index bfb31d2..c5f526a 100644
--- a/lib/hnco/multiobjective/algorithms/random-selection.hh
+++ b/lib/hnco/multiobjective/algorithms/random-selection.hh
@@ -105,12 +105,15 @@ public:
       }
     }
 
+    // init() shuffles the permutation
+    const int index = _permutation[winner];
+
     _start = _stop;
     _stop += _tournament_size;
     if (_stop > int(_bvs.size()))
       init();
 
-    return _bvs[_permutation[winner]];
+    return _bvs[index];
   }
 
   /** @name Setters
-- 
2.43.0


From a5f0b048acec90de624cdd35f33977daa339b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:38 +0000
Subject: [PATCH 19/46] fix: Nsga2 can be run more than once

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index d9e0358..bd4c874 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -150,6 +150,10 @@ Nsga2::finalize()
   Nsga2ParetoFrontComputation computation(_parents);
   computation.compute(fronts);
 
+  // A previous run may have shrunk the population of solutions
+  _solutions.bvs.resize(_parents.get_size());
+  _solutions.values.resize(_parents.get_size());
+
   int index = 0;
   for (int i = 0; i < _parents.get_size(); i++) {
     if (fronts[i] == 0) {
-- 
2.43.0


From 1a5ffb4528f30d1ed8e357ff2f7714b6b579bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:38 +0000
Subject: [PATCH 20/46] fix: Nsga2 takes its crossover probability into account

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index bd4c874..67ea58b 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -40,6 +40,8 @@ Nsga2::init()
   _mutation.set_mutation_rate(_mutation_rate);
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
+  _do_crossover = std::bernoulli_distribution(_crossover_probability);
+
   _parents.random();
   _parents.evaluate(_function);
 
-- 
2.43.0


From aab2a9314290345e913e0162e71064dc9bdc7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:42 +0000
Subject: [PATCH 21/46] fix: a failing evaluation in a parallel region is
 reported instead of ending the process

---
 lib/hnco/algorithms/population.cc                | 15 ++++++++++++++-
 lib/hnco/multiobjective/algorithms/population.cc | 16 +++++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/population.cc b/lib/hnco/algorithms/population.cc
index c5b9e49..31971cd 100644
--- a/lib/hnco/algorithms/population.cc
+++ b/lib/hnco/algorithms/population.cc
@@ -21,6 +21,7 @@
 #include <omp.h>                // omp_get_thread_num
 
 #include <algorithm>            // std::equal_range
+#include <exception>            // std::exception_ptr, std::current_exception
 #include <iterator>             // std::distance
 
 #include "hnco/util.hh"         // hnco::is_in_range
@@ -55,15 +56,27 @@ Population::evaluate_in_parallel(const std::vector<Function *>& fns)
   assert(have_same_size(bvs, values));
   assert(!fns.empty());
 
+  // An exception must not leave a parallel region
+  std::exception_ptr failure;
+
 #pragma omp parallel for
   for (size_t i = 0; i < bvs.size(); i++) {
     int k = omp_get_thread_num();
     assert(is_in_range(k, fns.size()));
     assert(fns[k]);
 
-    values[i] = fns[k]->evaluate_safely(bvs[i]);
+    try {
+      values[i] = fns[k]->evaluate_safely(bvs[i]);
+    }
+    catch (...) {
+#pragma omp critical
+      failure = std::current_exception();
+    }
   }
 
+  if (failure)
+    std::rethrow_exception(failure);
+
   for (size_t i = 0; i < bvs.size(); i++)
     fns[0]->update(bvs[i], values[i]);
 }
diff --git a/lib/hnco/multiobjective/algorithms/population.cc b/lib/hnco/multiobjective/algorithms/population.cc
index 089668e..2e548af 100644
--- a/lib/hnco/multiobjective/algorithms/population.cc
+++ b/lib/hnco/multiobjective/algorithms/population.cc
@@ -20,6 +20,8 @@
 
 #include <omp.h>                // omp_get_thread_num
 
+#include <exception>            // std::exception_ptr, std::current_exception
+
 #include "hnco/util.hh"         // hnco::is_in_range, hnco::have_same_size
 
 #include "population.hh"
@@ -48,11 +50,23 @@ void Population::evaluate_in_parallel(const std::vector<Function *>& functions)
   assert(have_same_size(bvs, values));
   assert(!functions.empty());
 
+  // An exception must not leave a parallel region
+  std::exception_ptr failure;
+
 #pragma omp parallel for
   for (size_t i = 0; i < bvs.size(); i++) {
     const int k = omp_get_thread_num();
     assert(is_in_range(k, functions.size()));
     assert(functions[k]);
-    functions[k]->evaluate(bvs[i], values[i]);
+    try {
+      functions[k]->evaluate(bvs[i], values[i]);
+    }
+    catch (...) {
+#pragma omp critical
+      failure = std::current_exception();
+    }
   }
+
+  if (failure)
+    std::rethrow_exception(failure);
 }
-- 
2.43.0


From e9a7aa911f02fa77c0dc00d937723e9f30dc3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:00 +0000
Subject: [PATCH 22/46] fix: save reports write errors instead of leaving an
 incomplete file behind

---
 lib/hnco/functions/collection/max-sat.hh | 3 +++
 lib/hnco/functions/collection/sudoku.hh  | 3 +++
 lib/hnco/serialization.hh                | 8 +++++++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/max-sat.hh b/lib/hnco/functions/collection/max-sat.hh
index 63c7f5e..dd6f52a 100644
--- a/lib/hnco/functions/collection/max-sat.hh
+++ b/lib/hnco/functions/collection/max-sat.hh
@@ -102,6 +102,9 @@ public:
     if (!stream.good())
       throw std::runtime_error("LinearFunction::save: Cannot open " + path);
     save_(stream);
+    stream.close();
+    if (!stream)
+      throw std::runtime_error("AbstractMaxSat::save: Cannot write " + path);
   }
 
   ///@}
diff --git a/lib/hnco/functions/collection/sudoku.hh b/lib/hnco/functions/collection/sudoku.hh
index dbcc8e0..b7d7e4e 100644
--- a/lib/hnco/functions/collection/sudoku.hh
+++ b/lib/hnco/functions/collection/sudoku.hh
@@ -114,6 +114,9 @@ public:
     if (!stream.good())
       throw std::runtime_error("Sudoku::save: Cannot open " + path);
     save_(stream);
+    stream.close();
+    if (!stream)
+      throw std::runtime_error("Sudoku::save: Cannot write " + path);
   }
 
   ///@}
diff --git a/lib/hnco/serialization.hh b/lib/hnco/serialization.hh
index db743bf..ece2526 100644
--- a/lib/hnco/serialization.hh
+++ b/lib/hnco/serialization.hh
@@ -22,6 +22,7 @@
 #define HNCO_SERIALIZATION_H
 
 #include <fstream>              // std::ifstream, std::ofstream
+#include <sstream>              // std::ostringstream
 #include <string>               // std::string
 
 #include <boost/archive/text_iarchive.hpp>
@@ -66,13 +67,18 @@ void save_to_archive(const T& object, std::string path, std::string name)
   std::ofstream stream(path);
   if (!stream.good())
     throw std::runtime_error(name + "::save: Cannot open " + path);
+  std::ostringstream buffer;
   try {
-    boost::archive::text_oarchive archive(stream);
+    boost::archive::text_oarchive archive(buffer);
     archive << object;
   }
   catch (boost::archive::archive_exception& e) {
     throw std::runtime_error(name + "::save: " + std::string(e.what()));
   }
+  stream << buffer.str();
+  stream.close();
+  if (!stream)
+    throw std::runtime_error(name + "::save: Cannot write " + path);
 }
 
 ///@}
-- 
2.43.0


From 79c4811104fff1705006e6285deb635152ea1504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:00 +0000
Subject: [PATCH 23/46] fix: loading MaxSat, Qubo and Tsp instances ends when
 the file cannot be read

---
 lib/hnco/functions/collection/max-sat.cc | 2 ++
 lib/hnco/functions/collection/qubo.cc    | 2 ++
 lib/hnco/functions/collection/tsp.cc     | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/lib/hnco/functions/collection/max-sat.cc b/lib/hnco/functions/collection/max-sat.cc
index 7db546a..5d9cecf 100644
--- a/lib/hnco/functions/collection/max-sat.cc
+++ b/lib/hnco/functions/collection/max-sat.cc
@@ -69,6 +69,8 @@ AbstractMaxSat::load_(std::istream& stream)
   while (!stream.eof()) {
     std::string line;
     getline(stream, line);
+    if (stream.bad())
+      throw std::runtime_error("AbstractMaxSat::load: Read error");
 
     if (line.empty())
       continue;
diff --git a/lib/hnco/functions/collection/qubo.cc b/lib/hnco/functions/collection/qubo.cc
index 42bd5e4..12cd0d7 100644
--- a/lib/hnco/functions/collection/qubo.cc
+++ b/lib/hnco/functions/collection/qubo.cc
@@ -47,6 +47,8 @@ Qubo::load(std::istream& stream)
   while (!stream.eof()) {
     std::string line;
     getline(stream, line);
+    if (stream.bad())
+      throw std::runtime_error("Qubo::load: Read error");
 
     if (line.empty())
       continue;
diff --git a/lib/hnco/functions/collection/tsp.cc b/lib/hnco/functions/collection/tsp.cc
index a76c45e..9017b8d 100644
--- a/lib/hnco/functions/collection/tsp.cc
+++ b/lib/hnco/functions/collection/tsp.cc
@@ -42,6 +42,8 @@ Tsp::load_(std::istream& stream)
 
   while(!stream.eof()) {
     getline(stream, line);
+    if (stream.bad())
+      throw std::runtime_error("Tsp::load_: Read error");
     if (line.empty())
       continue;
 
-- 
2.43.0


From 1b41433d65e128aa3b60279fe2857d001c9b8e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:00 +0000
Subject: [PATCH 24/46] fix: MaxSat and Qubo instances without p line are
 refused, so are clauses not ended by 0 on a blank line

---
 lib/hnco/functions/collection/max-sat.cc | 4 +++-
 lib/hnco/functions/collection/qubo.cc    | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/max-sat.cc b/lib/hnco/functions/collection/max-sat.cc
index 5d9cecf..ef1ce51 100644
--- a/lib/hnco/functions/collection/max-sat.cc
+++ b/lib/hnco/functions/collection/max-sat.cc
@@ -117,7 +117,7 @@ AbstractMaxSat::load_(std::istream& stream)
         throw std::runtime_error("AbstractMaxSat::load: No p line");
 
       std::istringstream iss(line);
-      int n;
+      int n = -1;
       std::vector<int> clause;
 
       while (has_next_variable(iss)) {
@@ -144,6 +144,8 @@ AbstractMaxSat::load_(std::istream& stream)
     }
   }
 
+  if (!spec)
+    throw std::runtime_error("AbstractMaxSat::load: No p line");
   if (int(_expression.size()) != num_clauses)
     throw std::runtime_error("AbstractMaxSat::load: Incoherent number of clauses");
 
diff --git a/lib/hnco/functions/collection/qubo.cc b/lib/hnco/functions/collection/qubo.cc
index 12cd0d7..d5d4165 100644
--- a/lib/hnco/functions/collection/qubo.cc
+++ b/lib/hnco/functions/collection/qubo.cc
@@ -131,6 +131,8 @@ Qubo::load(std::istream& stream)
     }
   }
 
+  if (!spec)
+    throw std::runtime_error("Qubo::load: No p line");
   if (count_other_elements != num_other_elements)
     throw std::runtime_error("Qubo::load: Not enough off diagonal elements");
   if (count_diagonal_elements != num_diagonal_elements)
-- 
2.43.0


From 294cc0a47b891c2ac24f4b54e2b162f0e076d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:01 +0000
Subject: [PATCH 25/46] fix: incomplete Tsp instances are refused

---
 lib/hnco/functions/collection/tsp.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/tsp.cc b/lib/hnco/functions/collection/tsp.cc
index 9017b8d..a614cb7 100644
--- a/lib/hnco/functions/collection/tsp.cc
+++ b/lib/hnco/functions/collection/tsp.cc
@@ -40,6 +40,9 @@ Tsp::load_(std::istream& stream)
   std::string line;
   std::string key, value;
 
+  _num_cities = 0;
+  _distances.clear();
+
   while(!stream.eof()) {
     getline(stream, line);
     if (stream.bad())
@@ -80,23 +83,37 @@ Tsp::load_(std::istream& stream)
       break;
     }
   }
+
+  if (_distances.empty())
+    throw std::runtime_error("Tsp::load_: No NODE_COORD_SECTION");
 }
 
 void
 Tsp::load_coordinates(std::istream& stream)
 {
-  assert(_num_cities > 0);
+  if (_num_cities <= 0)
+    throw std::runtime_error("Tsp::load_coordinates: Bad dimension");
   _xs.resize(_num_cities);
   _ys.resize(_num_cities);
+  std::vector<bool> found(_num_cities, false);
   while (!stream.eof()) {
     int index;
     stream >> index;
     if (stream.fail())
       break;
-    assert((index >= 1) && (index <= _num_cities));
+    if (index < 1 || index > _num_cities)
+      throw std::runtime_error("Tsp::load_coordinates: Bad city index");
     stream >> _xs[index - 1];
     stream >> _ys[index - 1];
+    if (stream.fail())
+      throw std::runtime_error("Tsp::load_coordinates: Bad coordinates");
+    found[index - 1] = true;
   }
+  if (stream.bad())
+    throw std::runtime_error("Tsp::load_coordinates: Read error");
+  for (bool f : found)
+    if (!f)
+      throw std::runtime_error("Tsp::load_coordinates: Missing city");
 }
 
 void
-- 
2.43.0


From 91b9b015aa4a5d3cfedb78ac6eae55057567f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:10 +0000
Subject: [PATCH 26/46] fix: invalid maps are refused when loaded

---
 lib/hnco/maps/map.hh          | 24 ++++++++++++++++--------
 lib/hnco/maps/transvection.hh |  4 +++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/lib/hnco/maps/map.hh b/lib/hnco/maps/map.hh
index 7cdb170..d0e1062 100644
--- a/lib/hnco/maps/map.hh
+++ b/lib/hnco/maps/map.hh
@@ -95,7 +95,8 @@ private:
   {
     ar & _bv;
 
-    assert(bv_is_valid(_bv));
+    if (!bv_is_valid(_bv))
+      throw std::runtime_error("Translation::load: Invalid bit vector");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -183,7 +184,8 @@ private:
   {
     ar & _permutation;
 
-    assert(perm_is_valid(_permutation));
+    if (!perm_is_valid(_permutation))
+      throw std::runtime_error("Permutation::load: Invalid permutation");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -263,7 +265,8 @@ private:
   {
     ar & _bm;
 
-    assert(bm_is_valid(_bm));
+    if (!bm_is_valid(_bm))
+      throw std::runtime_error("LinearMap::load: Invalid bit matrix");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -349,9 +352,12 @@ private:
     ar & _bm;
     ar & _bv;
 
-    assert(bm_is_valid(_bm));
-    assert(bv_is_valid(_bv));
-    assert(bm_num_rows(_bm) == int(_bv.size()));
+    if (!bm_is_valid(_bm))
+      throw std::runtime_error("AffineMap::load: Invalid bit matrix");
+    if (!bv_is_valid(_bv))
+      throw std::runtime_error("AffineMap::load: Invalid bit vector");
+    if (bm_num_rows(_bm) != int(_bv.size()))
+      throw std::runtime_error("AffineMap::load: Incompatible bit matrix and bit vector");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -614,8 +620,10 @@ private:
   {
     ar & _bv;
     ar & _ts;
-    assert(bv_is_valid(_bv));
-    assert(ts_is_valid(_ts, _bv.size()));
+    if (!bv_is_valid(_bv))
+      throw std::runtime_error("TsAffineMap::load: Invalid bit vector");
+    if (!ts_is_valid(_ts, _bv.size()))
+      throw std::runtime_error("TsAffineMap::load: Invalid transvection sequence");
   }
   BOOST_SERIALIZATION_SPLIT_MEMBER()
   /// %Transvection sequence
diff --git a/lib/hnco/maps/transvection.hh b/lib/hnco/maps/transvection.hh
index 0d24145..e3bcdc7 100644
--- a/lib/hnco/maps/transvection.hh
+++ b/lib/hnco/maps/transvection.hh
@@ -22,6 +22,7 @@
 #define HNCO_MAPS_TRANSVECTION_H
 
 #include <assert.h>
+#include <stdexcept>            // std::runtime_error
 
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
@@ -72,7 +73,8 @@ struct Transvection {
   {
     ar & row_index;
     ar & column_index;
-    assert(is_valid());
+    if (!is_valid())
+      throw std::runtime_error("Transvection::load: Invalid transvection");
   }
   BOOST_SERIALIZATION_SPLIT_MEMBER()
   /// Row index
-- 
2.43.0


From 5bc33e135a520fe388f6f53f177e777c36f720e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:31 +0000
Subject: [PATCH 27/46] fix: read errors in expressions, representations and
 numbers to factorize are reported

---
 lib/hnco/app/parser.cc                         | 5 ++++-
 lib/hnco/functions/collection/factorization.hh | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/app/parser.cc b/lib/hnco/app/parser.cc
index 15c12f6..d464e8a 100644
--- a/lib/hnco/app/parser.cc
+++ b/lib/hnco/app/parser.cc
@@ -38,7 +38,10 @@ hnco::app::read_file_content(std::string path)
     throw std::runtime_error("read_file_content: Cannot open " + path);
   std::cerr << "hnco::app::read_file_content: Reading content from file: " << path << std::endl;
   std::ostringstream sstream;
-  sstream << fstream.rdbuf();
+  for (char c; fstream.get(c); )
+    sstream.put(c);
+  if (fstream.bad())
+    throw std::runtime_error("read_file_content: Cannot read " + path);
   return sstream.str();
 }
 
diff --git a/lib/hnco/functions/collection/factorization.hh b/lib/hnco/functions/collection/factorization.hh
index 82773d0..5808d38 100644
--- a/lib/hnco/functions/collection/factorization.hh
+++ b/lib/hnco/functions/collection/factorization.hh
@@ -105,6 +105,8 @@ public:
       throw std::runtime_error("Factorization::load: Cannot open " + path);
     std::string number;
     stream >> number;
+    if (!stream)
+      throw std::runtime_error("Factorization::load: Cannot read " + path);
     set_number(number);
   }
 
-- 
2.43.0


From 346d95ef60a8a4106c5e0801b4ff4f2593264d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:38 +0000
Subject: [PATCH 28/46] fix: MaxSat refuses the smallest integer as a literal

---
 lib/hnco/functions/collection/max-sat.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/max-sat.cc b/lib/hnco/functions/collection/max-sat.cc
index ef1ce51..fe89266 100644
--- a/lib/hnco/functions/collection/max-sat.cc
+++ b/lib/hnco/functions/collection/max-sat.cc
@@ -129,8 +129,7 @@ AbstractMaxSat::load_(std::istream& stream)
         if (n == 0)
           break;
 
-        int v = (n > 0) ? n : -n;
-        if (v > _num_variables)
+        if (n > _num_variables || n < -_num_variables)
           throw std::runtime_error("AbstractMaxSat::load: Variable index overflow");
 
         clause.push_back(n);
-- 
2.43.0


From 3106442416d38e21f3952b1ae92c89bfb96565e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:38 +0000
Subject: [PATCH 29/46] fix: a permutation and a translation of different sizes
 are refused when loaded

---
 lib/hnco/app/decorated-function-factory.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/app/decorated-function-factory.cc b/lib/hnco/app/decorated-function-factory.cc
index f1d515f..f28009b 100644
--- a/lib/hnco/app/decorated-function-factory.cc
+++ b/lib/hnco/app/decorated-function-factory.cc
@@ -103,6 +103,8 @@ make_map(const HncoOptions& options, int bv_size)
       catch (boost::archive::archive_exception& e) {
         throw std::runtime_error(e.what());
       }
+      if (permutation->get_output_size() != translation->get_input_size())
+        throw std::runtime_error("make_map: Permutation and translation must have the same size");
     }
     return new MapComposition(permutation, translation);
   }
-- 
2.43.0


From 4b3c00af5cadae6041c4d937369dc87ae317d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:53 +0000
Subject: [PATCH 30/46] fix: hnco and mapgen report write errors instead of
 leaving incomplete files behind

---
 app/mapgen.cc               | 34 +++++++++++++++++-----------------
 lib/hnco/app/application.cc |  9 +++++++++
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/app/mapgen.cc b/app/mapgen.cc
index 100035a..51b3af7 100644
--- a/app/mapgen.cc
+++ b/app/mapgen.cc
@@ -20,6 +20,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <sstream>
 
 #include "hnco/exception.hh"
 #include "hnco/maps/map.hh"
@@ -42,10 +43,8 @@ void generate_map(MapgenOptions& options)
   case 1: {
     Translation map;
     map.random(options.get_output_size());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing translation to " << options.get_path() << " ... ";
-    archive << map;
+    map.save(options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
@@ -53,10 +52,8 @@ void generate_map(MapgenOptions& options)
   case 2: {
     Permutation map;
     map.random(options.get_output_size());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing permutation to " << options.get_path() << " ... ";
-    archive << map;
+    map.save(options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
@@ -67,9 +64,18 @@ void generate_map(MapgenOptions& options)
     permutation.random(options.get_output_size());
     translation.random(options.get_output_size());
     std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
+    if (!stream.good())
+      throw std::runtime_error("generate_map: Cannot open " + options.get_path());
     std::cout << "Writing permutation and translation to " << options.get_path() << " ... ";
-    archive << permutation << translation;
+    std::ostringstream buffer;
+    {
+      boost::archive::text_oarchive archive(buffer);
+      archive << permutation << translation;
+    }
+    stream << buffer.str();
+    stream.close();
+    if (!stream)
+      throw std::runtime_error("generate_map: Cannot write " + options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
@@ -77,10 +83,8 @@ void generate_map(MapgenOptions& options)
   case 4: {
     LinearMap map;
     map.random(options.get_output_size(), options.get_input_size(), options.with_surjective());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing linear map to " << options.get_path() << " ... ";
-    archive << map;
+    map.save(options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
@@ -88,10 +92,8 @@ void generate_map(MapgenOptions& options)
   case 5: {
     AffineMap map;
     map.random(options.get_output_size(), options.get_input_size(), options.with_surjective());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing affine map to " << options.get_path() << " ... ";
-    archive << map;
+    map.save(options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
@@ -103,10 +105,8 @@ void generate_map(MapgenOptions& options)
     map.random(options.get_input_size(),
                options.get_ts_length(),
                options.get_ts_sampling_mode());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing affine map (transvection sequence) to " << options.get_path() << " ... ";
-    archive << map;
+    map.save(options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index e6c5f92..1f56f0f 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -225,6 +225,9 @@ CommandLineApplication::print_results(double total_time, bool target_reached)
   if (_options.with_save_results()) {
     std::ofstream stream(_options.get_results_path());
     stream << results.str();
+    stream.close();
+    if (!stream)
+      throw std::runtime_error("CommandLineApplication::print_results: Cannot write " + _options.get_results_path());
   }
 }
 
@@ -252,6 +255,9 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
     std::ofstream stream(_options.get_solution_path());
     bv_display(concrete_solution, stream);
     stream << std::endl;
+    stream.close();
+    if (!stream)
+      throw std::runtime_error("CommandLineApplication::manage_solution: Cannot write " + _options.get_solution_path());
   }
 
   // Print description
@@ -263,6 +269,9 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
   if (_options.with_save_description()) {
     std::ofstream stream(_options.get_description_path());
     _fn->describe(concrete_solution, stream);
+    stream.close();
+    if (!stream)
+      throw std::runtime_error("CommandLineApplication::manage_solution: Cannot write " + _options.get_description_path());
   }
 }
 
-- 
2.43.0


From aad2be8082c064e892d29223309e797bcf255145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:53 +0000
Subject: [PATCH 31/46] fix: hnco describes the solution the function was
 given, with or without --concrete-solution

---
 lib/hnco/app/application.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index 1f56f0f..1ba1e6c 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -262,13 +262,13 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
 
   // Print description
   if (_options.with_print_description()) {
-    _fn->describe(concrete_solution, std::cout);
+    _fn->describe(bv, std::cout);
   }
 
   // Save description
   if (_options.with_save_description()) {
     std::ofstream stream(_options.get_description_path());
-    _fn->describe(concrete_solution, stream);
+    _fn->describe(bv, stream);
     stream.close();
     if (!stream)
       throw std::runtime_error("CommandLineApplication::manage_solution: Cannot write " + _options.get_description_path());
-- 
2.43.0


From 65cc610d284647c64851d12ea4d0eec2f1437ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:53 +0000
Subject: [PATCH 32/46] fix: hnco evaluates a loaded solution whose value is
 above the target

---
 lib/hnco/app/application.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index 1ba1e6c..6ae376c 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -92,7 +92,7 @@ CommandLineApplication::load_solution()
     if (int(x.size()) != _fn->get_bv_size())
       throw std::runtime_error("CommandLineApplication::load_solution: Solution size and function bv_size must be equal");
     if (_options.with_print_results())
-      std::cout << _fn->evaluate(x) << std::endl;
+      std::cout << _fn->evaluate_safely(x) << std::endl;
     if (_options.with_print_description())
       _fn->describe(x, std::cout);
     exit(0);
-- 
2.43.0


From 0f8fad5acedcc7dd3e65ac6ee068616f1fbe23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:40 +0000
Subject: [PATCH 33/46] fix: parsed integer functions have the value of their
 expression

---
 .../functions/collection/parsed-multivariate-function.hh    | 6 +++++-
 .../functions/collection/parsed-multivariate-function.hh    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/parsed-multivariate-function.hh b/lib/hnco/functions/collection/parsed-multivariate-function.hh
index e9a2fee..d5931f4 100644
--- a/lib/hnco/functions/collection/parsed-multivariate-function.hh
+++ b/lib/hnco/functions/collection/parsed-multivariate-function.hh
@@ -26,6 +26,7 @@
 #include <iosfwd>
 #include <sstream>
 #include <string>
+#include <type_traits>          // std::is_integral
 #include <vector>
 #include <algorithm>            // std::remove_if
 
@@ -89,7 +90,10 @@ public:
         << " in _expression: " << _expression;
       throw std::runtime_error(stream.str());
     }
-    _fparser.Optimize();
+    // The optimizer of fparser changes the value of some integer
+    // expressions.
+    if constexpr(!std::is_integral<domain_type>::value)
+      _fparser.Optimize();
   }
 
   /// Display the problem
diff --git a/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh b/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh
index 3e8ba6d..5da2377 100644
--- a/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh
+++ b/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh
@@ -26,6 +26,7 @@
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <type_traits>          // std::is_integral
 #include <unordered_map>
 #include <unordered_set>
 #include <vector>
@@ -149,7 +150,10 @@ public:
           << " in expression: " << _expressions[i];
         throw std::runtime_error(stream.str());
       }
-      _parsers[i].Optimize();
+      // The optimizer of fparser changes the value of some integer
+      // expressions.
+      if constexpr(!std::is_integral<domain_type>::value)
+        _parsers[i].Optimize();
       _variables[i].resize(_names[i].size());
     }
 
-- 
2.43.0


From d5dd26fb5380ec25c609cc0aa7f5e8e3919d41f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:22 +0000
Subject: [PATCH 34/46] fix: RamUmda starts every run with the transvection
 sequence length it was given

---
 lib/hnco/algorithms/probability-vector/ram-umda.cc | 2 ++
 lib/hnco/algorithms/probability-vector/ram-umda.hh | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index b634e26..201b6bb 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -37,6 +37,7 @@ RamUmda::init()
   set_something_to_log();
   random_solution();
   _population_x.random();
+  _ts_length = _ts_length_init;
 }
 
 void
@@ -128,6 +129,7 @@ RamUmda2::init()
   set_something_to_log();
   random_solution();
   _population_x.random();
+  _ts_length = _ts_length_init;
 }
 
 void
diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.hh b/lib/hnco/algorithms/probability-vector/ram-umda.hh
index a250ec2..8dc7867 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.hh
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.hh
@@ -70,7 +70,7 @@ public:
   /// Set the transvection sequence length mode
   void set_ts_length_mode(int n) { _ts_length_mode = n; }
   /// Set the transvection sequence length
-  void set_ts_length(int n) { _ts_length = n; }
+  void set_ts_length(int n) { _ts_length_init = n; }
   /// Set the lower bound for the transvection sequence length
   void set_ts_length_lower_bound(int n) { _ts_length_lower_bound = n; }
   /// Set the upper bound for the transvection sequence length
@@ -96,6 +96,8 @@ protected:
   bit_vector_t _b;
   /// Temporary bit vector
   bit_vector_t _c;
+  /// Transvection sequence length
+  int _ts_length;
   /**
    * @name Parameters
    */
@@ -104,8 +106,8 @@ protected:
   int _selection_size = 10;
   /// Transvection sequence length mode
   int _ts_length_mode = TsLengthMode::constant;
-  /// Transvection sequence length
-  int _ts_length = 10;
+  /// Initial transvection sequence length
+  int _ts_length_init = 10;
   /// Lower bound for the transvection sequence length
   int _ts_length_lower_bound = 0;
   /// Upper bound for the transvection sequence length
-- 
2.43.0


From f593b1f32229316cd72a11640753614cd23eb54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:22 +0000
Subject: [PATCH 35/46] fix: running out of memory while logging does not end
 the process

---
 lib/hnco/logging/logger.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/logging/logger.hh b/lib/hnco/logging/logger.hh
index 3d7d87c..a520026 100644
--- a/lib/hnco/logging/logger.hh
+++ b/lib/hnco/logging/logger.hh
@@ -22,7 +22,7 @@
 #define HNCO_LOGGING_LOGGER_H
 
 #include <iostream>             // std::cout
-#include <sstream>              // std::ostringstream
+#include <sstream>              // std::stringstream
 #include <string>
 
 #include "log-context.hh"
@@ -40,7 +40,7 @@ namespace logging {
  */
 class Logger {
   /// Line
-  std::ostringstream _line;
+  std::stringstream _line;
 public:
   /// Default constructor
   Logger() {}
@@ -54,9 +54,14 @@ public:
   }
   /**
    * Destructor.
-   * Sends _line to std::cout and flushes it.
+   * Sends _line to std::cout and flushes it. A destructor must not
+   * throw hence the line is not copied into a string.
    */
-  virtual ~Logger() { std::cout << _line.str() << std::endl; }
+  virtual ~Logger() {
+    if (_line.rdbuf()->in_avail() > 0)
+      std::cout << _line.rdbuf();
+    std::cout << std::endl;
+  }
   /// Append data to the line
   template<class T>
   Logger& operator<<(T value) {
-- 
2.43.0


From a13ef8f39c84fd01d79c5c7651ace4a976185e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:50 +0000
Subject: [PATCH 36/46] fix: NpsPbil takes its worst individuals into account

---
 lib/hnco/algorithms/probability-vector/nps-pbil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/nps-pbil.cc b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
index c6a752b..d648752 100644
--- a/lib/hnco/algorithms/probability-vector/nps-pbil.cc
+++ b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
@@ -58,7 +58,7 @@ NpsPbil::iterate()
 
   pv_init(_mean_worst);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_mean_worst, _population.get_best_bv(i));
+    pv_add(_mean_worst, _population.get_worst_bv(i));
   pv_average(_mean_worst, _selection_size);
 
   pv_update(_pv, _mean_best, _mean_worst, _learning_rate);
-- 
2.43.0


From c10ec8e8b2bca5ce51a09fb6279a0a5229c710b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:50 +0000
Subject: [PATCH 37/46] fix: RamUmda2 learns from its selected individuals

---
 lib/hnco/algorithms/probability-vector/ram-umda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index 201b6bb..0005dfd 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -146,7 +146,7 @@ RamUmda2::iterate()
   // Compute probability vector in the solution space
   pv_init(_pv);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_pv, _population_x.bvs[i]);
+    pv_add(_pv, _population_x.get_best_bv(i));
   pv_average(_pv, _selection_size);
   pv_bound(_pv, _lower_bound, _upper_bound);
 
-- 
2.43.0


From 90a7193796bcd0d4957ff99b7ed0b46e9fe5243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:10 +0000
Subject: [PATCH 38/46] fix: reading a bit vector accepted characters other
 than 0 and 1 as ones

---
 lib/hnco/bit-vector.cc | 8 ++++++--
 lib/hnco/bit-vector.hh | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/bit-vector.cc b/lib/hnco/bit-vector.cc
index 5d69a26..e489fa9 100644
--- a/lib/hnco/bit-vector.cc
+++ b/lib/hnco/bit-vector.cc
@@ -20,6 +20,7 @@
 
 #include <assert.h>
 
+#include <stdexcept>            // std::runtime_error
 #include <string>               // std::getline
 #include <iostream>
 
@@ -235,8 +236,11 @@ hnco::bv_from_stream(std::istream& stream)
 {
   std::string line;
 
-  if (std::getline(stream, line))
+  if (std::getline(stream, line)) {
+    for (auto c : line)
+      if (c != '0' && c != '1')
+        throw std::runtime_error("bv_from_stream: Bits must be 0 or 1");
     return bv_from_string(line);
-  else
+  } else
     return bit_vector_t();
 }
diff --git a/lib/hnco/bit-vector.hh b/lib/hnco/bit-vector.hh
index 9898473..99bc3c9 100644
--- a/lib/hnco/bit-vector.hh
+++ b/lib/hnco/bit-vector.hh
@@ -229,6 +229,7 @@ bit_vector_t bv_from_string(const std::string& str);
 
     @param stream Input stream
     @return A bit_vector_t
+    @throw std::runtime_error if a character is neither 0 nor 1
 */
 bit_vector_t bv_from_stream(std::istream& stream);
 
-- 
2.43.0


From ce14f1160ce4259970eb1e495a780cd3b77a19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 39/46] fix: interactive search never ended at the end of input

---
 lib/hnco/algorithms/human.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/human.cc b/lib/hnco/algorithms/human.cc
index 3e5815a..949b659 100644
--- a/lib/hnco/algorithms/human.cc
+++ b/lib/hnco/algorithms/human.cc
@@ -37,8 +37,7 @@ Human::parse_bit_vector()
   do {
     std::string str;
     std::cout << "bv? ";
-    std::cin >> str;
-    if (str == "quit")
+    if (!(std::cin >> str) || str == "quit")
       throw LastEvaluation();
     _candidate = bv_from_string(str);
     if (int(_candidate.size()) < get_bv_size())
-- 
2.43.0


From ab10c586f1378841e8ea94f9dcfe41a8d9cfdb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:53 +0000
Subject: [PATCH 40/46] fix: the infinite norm of a moment ignored negative
 entries

---
 lib/hnco/algorithms/walsh-moment/walsh-moment.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
index dba6f21..6f2d9ae 100644
--- a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
+++ b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
@@ -208,10 +208,10 @@ TriangularMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
@@ -424,10 +424,10 @@ FullMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
-- 
2.43.0


From f4d9ceb9eb3ed10c47f6959d9fa41dbc8a289bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:43 +0000
Subject: [PATCH 41/46] fix: --fn-walsh-transform on a constant function read
 past the end of its terms

---
 lib/hnco/app/application.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index 6ae376c..b0f72e5 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -143,12 +143,13 @@ CommandLineApplication::print_information()
               terms.end(),
               [](const function::WalshTerm& a,
                  const function::WalshTerm& b){ return a.coefficient > b.coefficient; });
-    assert(terms.size() > 0);
-    double norm;
-    if (bv_hamming_weight(terms[0].feature) == 0)
-      norm = terms[1].coefficient;
-    else
-      norm = terms[0].coefficient;
+    double norm = 1;
+    for (const auto& t : terms) {
+      if (bv_hamming_weight(t.feature) > 0) {
+        norm = t.coefficient;
+        break;
+      }
+    }
     for (auto t : terms) {
       int weight = bv_hamming_weight(t.feature);
       double amplitude = t.coefficient / norm;
-- 
2.43.0


From 6cc386824bc92f0451557a86b15158f4a24eaee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:42 +0000
Subject: [PATCH 42/46] fix: random transvection sequences replace what the
 sequence held

---
 lib/hnco/maps/transvection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/hnco/maps/transvection.cc b/lib/hnco/maps/transvection.cc
index 5ec0d9a..4258825 100644
--- a/lib/hnco/maps/transvection.cc
+++ b/lib/hnco/maps/transvection.cc
@@ -184,6 +184,7 @@ void hnco::map::ts_random_commuting(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -246,6 +247,7 @@ void hnco::map::ts_random_unique_source(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -279,6 +281,7 @@ void hnco::map::ts_random_unique_destination(transvection_sequence_t& ts, int n,
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -312,6 +315,7 @@ void hnco::map::ts_random_disjoint(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -342,6 +346,7 @@ void hnco::map::ts_random_non_commuting(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
-- 
2.43.0


From deacf9d3368a4d1a40ed0a0b812a82fd951d2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:42 +0000
Subject: [PATCH 43/46] fix: NkLandscape::generate on an object that held
 another instance

---
 lib/hnco/functions/collection/nk-landscape.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/nk-landscape.cc b/lib/hnco/functions/collection/nk-landscape.cc
index b94b633..487e8ae 100644
--- a/lib/hnco/functions/collection/nk-landscape.cc
+++ b/lib/hnco/functions/collection/nk-landscape.cc
@@ -36,8 +36,8 @@ NkLandscape::random_structure(int n, int k)
   assert(n > 0);
   assert(k > 0);
 
-  _neighbors.resize(n, std::vector<int>(k + 1));
-  _partial_functions.resize(n, std::vector<double>(1 << (k + 1)));
+  _neighbors.assign(n, std::vector<int>(k + 1));
+  _partial_functions.assign(n, std::vector<double>(1 << (k + 1)));
 
   size_t length = _partial_functions.size();
 
-- 
2.43.0


From a51f37f3d16baa28c85da41f70b2a1988de2edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:42 +0000
Subject: [PATCH 44/46] fix: Sudoku::random sets the number of variables

---
 lib/hnco/functions/collection/sudoku.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/hnco/functions/collection/sudoku.cc b/lib/hnco/functions/collection/sudoku.cc
index e6ca2fb..3864b16 100644
--- a/lib/hnco/functions/collection/sudoku.cc
+++ b/lib/hnco/functions/collection/sudoku.cc
@@ -115,6 +115,7 @@ Sudoku::random(int c)
   // Digits to erase
   bit_vector_t erase(81);
   bv_random(erase, c);
+  _num_variables = c;
   for (int i = 0; i < 9; i++) {
     for (int j = 0; j < 9; j++) {
       if (erase[i + 9 * j])
-- 
2.43.0


From 4e88d4aba06df4930b5b92d3f9b9dbd6b61b195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:37 +0000
Subject: [PATCH 45/46] fix: Qubo::load took the integral part of a value for a
 missing column index

---
 lib/hnco/functions/collection/qubo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/qubo.cc b/lib/hnco/functions/collection/qubo.cc
index d5d4165..f2a6814 100644
--- a/lib/hnco/functions/collection/qubo.cc
+++ b/lib/hnco/functions/collection/qubo.cc
@@ -19,6 +19,7 @@
 */
 
 #include <assert.h>
+#include <cctype>               // std::isspace
 
 #include <iostream>
 #include <sstream>              // std::ostringstream
@@ -112,7 +113,7 @@ Qubo::load(std::istream& stream)
         throw std::runtime_error("Qubo::load: Bad line index");
 
       iss >> j;
-      if (iss.fail() || j < 0 || !(j < dimension))
+      if (iss.fail() || j < 0 || !(j < dimension) || !std::isspace(iss.peek()))
         throw std::runtime_error("Qubo::load: Bad column index");
 
       if (i > j)
-- 
2.43.0


From dd920a03fd33d212cbfea03983e2aab1138c4af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:08 +0000
Subject: [PATCH 46/46] fix: StandardBitMutation kept a deviate drawn before
 the generator was seeded again

---
 lib/hnco/neighborhoods/neighborhood.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/neighborhoods/neighborhood.cc b/lib/hnco/neighborhoods/neighborhood.cc
index 2d77e42..11bb30a 100644
--- a/lib/hnco/neighborhoods/neighborhood.cc
+++ b/lib/hnco/neighborhoods/neighborhood.cc
@@ -67,6 +67,8 @@ void
 StandardBitMutation::sample_bits()
 {
   if (_rejection_sampling) {
+    // Forget deviates drawn before the generator was last seeded
+    _binomial_dist.reset();
     int k;
     if (_allow_no_mutation)
       k = _binomial_dist(Generator::engine);
-- 
2.43.0

