From d086053dcc14b25fc35eefdb9f23916b4b8461e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 01/27] fix: print the unary gaussian so that its text denotes
 its value

exp(-(x)**2): with an argument starting with a minus, such as inv_sum's, the
unparenthesised form read exp(--(x)**2), that is exp(+x**2).
---
 include/dcgp/wrapped_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 0817174..1ca3206 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -775,7 +775,7 @@ struct print_my_gaussian_func {
     /// Call operator
     std::string operator()(const std::vector<std::string> &in) const
     {
-        return "exp(-" + in[0] + "**2)";
+        return "exp(-(" + in[0] + ")**2)";
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
-- 
2.43.0


From 8030943237feff6003c2034ed926b8c042c65d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 02/27] fix: a loaded kernel has the thread safety level of its
 own functions

The level was neither archived nor recomputed on load, so a loaded kernel
kept that of the kernel loaded into (or, default constructed, an
uninitialised one), which could overstate it.
---
 include/dcgp/kernel.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/kernel.hpp b/include/dcgp/kernel.hpp
index cdc2164..dcbe88b 100644
--- a/include/dcgp/kernel.hpp
+++ b/include/dcgp/kernel.hpp
@@ -157,6 +157,9 @@ public:
         ar &m_f;
         ar &m_pf;
         ar &m_name;
+        if (Archive::is_loading::value) {
+            m_thread_safety = std::min(m_f.get_thread_safety(), m_pf.get_thread_safety());
+        }
     }
 
 private:
@@ -167,7 +170,7 @@ private:
     /// Its name
     std::string m_name;
     // Thread safety.
-    pagmo::thread_safety m_thread_safety;
+    pagmo::thread_safety m_thread_safety = pagmo::thread_safety::basic;
 };
 
 } // end of namespace dcgp
-- 
2.43.0


From a98c3cbdc9babed8aca78916ab5ce43f010c7b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:34 +0000
Subject: [PATCH 03/27] fix: reject chromosomes containing NaN

Every comparison with a NaN is false, so set_from_range took a NaN gene for one
within bounds and then converted it to unsigned, which is undefined.
---
 include/dcgp/expression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index f684e92..15a8ed8 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -1107,7 +1107,8 @@ private:
         auto lb_iter = m_lb.begin();
         auto ub_iter = m_ub.begin();
         while (begin != end) {
-            if ((*begin > *ub_iter) || (*begin < *lb_iter)) {
+            // (written so that a NaN, which compares false with everything, is rejected too)
+            if (!(*begin <= *ub_iter) || !(*begin >= *lb_iter)) {
                 throw std::invalid_argument("Inconsistent chromosome: out of bounds. A component of the chromosome is "
                                             + std::to_string(*begin) + " while the bounds are: ["
                                             + std::to_string(*lb_iter) + " " + ", " + std::to_string(*ub_iter) + "]");
-- 
2.43.0


From 5df571cc253369cdb398b02bc199822fd1b5f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 04/27] fix: expression::mutate(vector) checks every index
 before mutating

An out-of-range index met mid-list left the earlier genes mutated, with the
active nodes and genes still those of the old chromosome.
---
 include/dcgp/expression.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 15a8ed8..b962ce3 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -677,11 +677,14 @@ public:
      */
     void mutate(std::vector<unsigned> idxs)
     {
-        bool flag = false;
+        // All indices are checked before any gene is touched, so that a rejected call changes nothing
         for (auto i = 0u; i < idxs.size(); ++i) {
             if (idxs[i] >= m_x.size()) {
                 throw std::invalid_argument("idx of gene to be mutated is out of bounds");
             }
+        }
+        bool flag = false;
+        for (auto i = 0u; i < idxs.size(); ++i) {
             // If only one value is allowed for the gene, (lb==ub),
             // then we will not do anything as mutation does not apply
             if (m_lb[idxs[i]] < m_ub[idxs[i]]) {
-- 
2.43.0


From e78f1f177845cb2ed6fcecb629e508e90756f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:45 +0000
Subject: [PATCH 05/27] fix: expression::mutate_ogene honours N with a single
 output

With one output the gene was mutated exactly once whatever N, 0 included.
---
 include/dcgp/expression.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index b962ce3..58a935a 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -834,9 +834,11 @@ public:
             }
 
         } else {
-            idx = static_cast<unsigned>(m_active_genes.size() - 1u);
-            idx = m_active_genes[idx];
-            mutate(idx);
+            for (auto i = 0u; i < N; ++i) {
+                idx = static_cast<unsigned>(m_active_genes.size() - 1u);
+                idx = m_active_genes[idx];
+                mutate(idx);
+            }
         }
     }
 
-- 
2.43.0


From 77b1db25aa8021398f9d2434f4ce58eb5bab01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 06/27] fix: ISRU derivative of a dCGPANN at a zero input sum

It was computed as (node / sum)^3, NaN when the sum of the inputs is 0.
---
 include/dcgp/expression_ann.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 28cf15b..3c984a9 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -961,7 +961,9 @@ private:
                         break;
                     case kernel_type::ISRU: {
                         auto cumin = std::accumulate(function_in.begin(), function_in.end(), 0.);
-                        d_node[node_id] = node[node_id] * node[node_id] * node[node_id] / cumin / cumin / cumin;
+                        // The derivative is (1 + x^2)^(-3/2), also at x = 0 (where (node / x)^3 would be 0 / 0)
+                        auto dummy = 1. / std::sqrt(1. + cumin * cumin);
+                        d_node[node_id] = dummy * dummy * dummy;
                         break;
                     }
                     case kernel_type::SIN_NU: {
-- 
2.43.0


From ecd9655084dca2574ac2bc1c67e550f95a7413d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 07/27] fix: dCGPANN weights and biases addressed by index are
 checked

An index too large read or wrote outside the vectors, while set_weight promises
to throw.
---
 include/dcgp/expression_ann.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 3c984a9..91e9960 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -657,10 +657,13 @@ public:
      * @param[idx] index of the weight to be changed.
      * @param[w] value of the weight to be changed.
      *
-     * @throws std::invalid_argument if the node_id or input_id are not valid
+     * @throws std::invalid_argument if the index is not valid
      */
     void set_weight(std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight does not exist");
+        }
         m_weights[idx] = w;
     }
 
@@ -712,9 +715,13 @@ public:
      *
      * @param[in] idx index of the weight
      *
+     * @throws std::invalid_argument if the index is not valid
      */
     double get_weight(std::vector<double>::size_type idx) const
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight does not exist");
+        }
         return m_weights[idx];
     }
 
@@ -759,9 +766,13 @@ public:
      * @param[idx] index of the bias to be changed.
      * @param[w] value of the new bias.
      *
+     * @throws std::invalid_argument if the index is not valid
      */
     void set_bias(typename std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias does not exist");
+        }
         m_biases[idx] = w;
     }
 
@@ -787,9 +798,13 @@ public:
      *
      * @param[in] idx index of the bias
      *
+     * @throws std::invalid_argument if the index is not valid
      */
     double get_bias(typename std::vector<double>::size_type idx) const
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias does not exist");
+        }
         return m_biases[idx];
     }
 
-- 
2.43.0


From c3a7a26e4bc81278fc62a27444425b1af736c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 08/27] fix: set_output_f rejects unknown names and leaves
 nothing half set

An unknown name compared an uninitialised iterator, and an output connected to
an input made the call throw with some of the function genes already changed.
---
 include/dcgp/expression_ann.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 91e9960..ee15385 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -530,7 +530,8 @@ public:
      */
     void set_output_f(const std::string &name)
     {
-        typename std::vector<kernel_type>::iterator it;
+        // A name that is no kernel at all is not found
+        auto it = m_kernel_map.end();
         if (name == "sig") {
             it = std::find(m_kernel_map.begin(), m_kernel_map.end(), kernel_type::SIG);
         } else if (name == "tanh") {
@@ -560,6 +561,13 @@ public:
         if (it == m_kernel_map.end()) {
             throw std::invalid_argument("The nonlinearity " + name + " is not a Kernel for this dCGP expression");
         } else {
+            // All outputs are checked before any gene is touched, so that a rejected call changes nothing
+            for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
+                if (this->get()[this->get().size() - 1 - i] < this->get_n()) {
+                    throw std::invalid_argument(
+                        "Cannot set the nonlinearity of an output that is connected directly to an input");
+                }
+            }
             unsigned f_id = static_cast<unsigned>(it - m_kernel_map.begin());
             for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
                 this->set_f_gene(this->get()[this->get().size() - 1 - i], f_id);
-- 
2.43.0


From 21835e86c406c988df162c42a7e61e1843b00642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 09/27] fix: sgd checks its arguments before changing anything

A batch size of 0 never ended; a point or label of the wrong size, or a (last)
batch not divisible into the parallel parts, threw in the middle of the epoch
with the data shuffled and part of the updates done.
---
 include/dcgp/expression_ann.hpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index ee15385..24e50d2 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -457,8 +457,9 @@ public:
      * @return The average error across the batches. Note: this will not be equal to the error on the whole data set
      * as weights get updated after each batch. It is an indicator, though, and its free to compute.
      *
-     * @throws std::invalid_argument if the *data* and *label* size do not match or is zero, or if *lr* is not
-     * positive.
+     * @throws std::invalid_argument if the *data* and *label* size do not match or is zero, if *lr* is not
+     * positive, if *batch_size* is zero, if any point or label has the wrong size, or if a batch cannot be divided
+     * into *parallel* parts. In all these cases neither the data nor the expression are changed.
      */
     double sgd(std::vector<std::vector<double>> &points, std::vector<std::vector<double>> &labels, double lr,
                unsigned batch_size, const std::string &loss_s, unsigned parallel = 0u, bool shuffle = true)
@@ -476,6 +477,32 @@ public:
                                         + " was detected.");
         }
 
+        if (batch_size == 0u) {
+            throw std::invalid_argument("The batch size cannot be zero");
+        }
+        // All points and labels are checked here, and so is the parallel split of every batch (the last one may be
+        // shorter), so that nothing is rejected after some of the updates were already made.
+        for (decltype(points.size()) i = 0u; i < points.size(); ++i) {
+            if (points[i].size() != this->get_n()) {
+                throw std::invalid_argument("When computing the loss the point dimension (input) seemed wrong, it was: "
+                                            + std::to_string(points[i].size())
+                                            + " while I expected: " + std::to_string(this->get_n()));
+            }
+            if (labels[i].size() != this->get_m()) {
+                throw std::invalid_argument(
+                    "When computing the loss the prediction dimension (output) seemed wrong, it was: "
+                    + std::to_string(labels[i].size()) + " while I expected: " + std::to_string(this->get_m()));
+            }
+        }
+        if (parallel > 0u) {
+            if ((batch_size <= points.size() && batch_size % parallel != 0u)
+                || (points.size() % batch_size) % parallel != 0u) {
+                throw std::invalid_argument("Batches of size: " + std::to_string(batch_size) + " out of "
+                                            + std::to_string(points.size()) + " points cannot be divided into "
+                                            + std::to_string(parallel) + " parts.");
+            }
+        }
+
         // Decoding the loss from string to the enum type (loss_s -> loss_e)
         expression<double>::loss_type loss_e;
         if (loss_s == "MSE") {
-- 
2.43.0


From 0f9daf278e5142e535553173dd3c6e7028dd6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 10/27] fix: ReLu, ELU and step of vectorized gduals work
 element by element

---
 include/dcgp/wrapped_functions.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 1ca3206..d544b8a 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -274,6 +274,17 @@ struct print_my_tanh_func {
 
 inline constexpr auto print_my_tanh = print_my_tanh_func{};
 
+// The comparison of vectorized coefficients tells about the batch as a whole: functions defined by cases need to know
+// about its elements. Returns a constant that is 0 where the constant coefficient is negative and 1 elsewhere.
+inline audi::gdual_v non_negative_mask(const audi::gdual_v &x)
+{
+    std::vector<double> mask;
+    for (const auto value : x.constant_cf()) {
+        mask.push_back(value < 0. ? 0. : 1.);
+    }
+    return audi::gdual_v(mask);
+}
+
 // ReLu function (double overload):
 template <typename T, typename = void>
 struct my_relu_func {
@@ -304,6 +315,8 @@ struct my_relu_func<T, std::enable_if_t<is_gdual<T>::value>> {
         }
         if (retval.constant_cf() < T(0.).constant_cf()) {
             retval = T(0.);
+        } else if constexpr (std::is_same<T, audi::gdual_v>::value) {
+            retval *= non_negative_mask(retval);
         }
         return retval;
     }
@@ -358,6 +371,9 @@ struct my_elu_func<T, std::enable_if_t<is_gdual<T>::value>> {
         }
         if (retval.constant_cf() < T(0.).constant_cf()) {
             retval = audi::exp(retval) - T(1.);
+        } else if constexpr (std::is_same<T, audi::gdual_v>::value) {
+            const T mask = non_negative_mask(retval);
+            retval = retval * mask + (audi::exp(retval * (T(1.) - mask)) - T(1.));
         }
         return retval;
     }
@@ -627,6 +643,8 @@ struct my_step_func<T, std::enable_if_t<is_gdual<T>::value>> {
         }
         if (retval.constant_cf() < T(0.).constant_cf()) {
             retval = T(0.);
+        } else if constexpr (std::is_same<T, audi::gdual_v>::value) {
+            retval = non_negative_mask(retval);
         } else {
             retval = T(1.);
         }
-- 
2.43.0


From af7ac56cf20e2156b6ef42f54dc19c8bab0a3435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:12 +0000
Subject: [PATCH 11/27] fix: cross entropy loss does not underflow to infinity
 or NaN

---
 include/dcgp/expression.hpp     | 14 +++++++-------
 include/dcgp/expression_ann.hpp | 10 +++++-----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 58a935a..d752724 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -307,14 +307,14 @@ public:
             case loss_type::CE: {
                 // We guard from numerical instabilities subtracting the max element
                 auto max = *std::max_element(outputs.begin(), outputs.end());
-                // exp(a_i - max)
-                std::transform(outputs.begin(), outputs.end(), outputs.begin(),
-                               [max](T a) { return audi::exp(a - max); });
-                // sum exp(a_i - max)
-                T cumsum = std::accumulate(outputs.begin(), outputs.end(), T(0.));
-                // log(p_i) * y_i
+                // a_i - max
+                std::transform(outputs.begin(), outputs.end(), outputs.begin(), [max](T a) { return a - max; });
+                // log(sum exp(a_i - max))
+                T logsum = audi::log(std::accumulate(outputs.begin(), outputs.end(), T(0.),
+                                                     [](T sum, T a) { return sum + audi::exp(a); }));
+                // log(p_i) * y_i, computed without p_i as that may be too small to be represented
                 std::transform(outputs.begin(), outputs.end(), prediction.begin(), outputs.begin(),
-                               [cumsum](T a, T y) { return audi::log(a / cumsum) * y; });
+                               [logsum](T a, T y) { return (a - logsum) * y; });
                 // - sum log(p_i) y_i
                 retval = -std::accumulate(outputs.begin(), outputs.end(), T(0.));
                 break;
diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 24e50d2..5bb0fca 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -369,11 +369,11 @@ public:
                 for (decltype(ps.size()) i = 0u; i < ps.size(); ++i) {
                     d_node.push_back(ps[i] - prediction[i]);
                 }
-                // We compute the cross-entropy
-                std::transform(ps.begin(), ps.end(), prediction.begin(), ps.begin(),
-                               [](double p, double y) { return std::log(p) * y; });
-                // - sum log(p_i) y_i
-                value += -std::accumulate(ps.begin(), ps.end(), 0.);
+                // We compute the cross-entropy - sum log(p_i) y_i, without p_i as that may be too small to be represented
+                for (decltype(ps.size()) i = 0u; i < ps.size(); ++i) {
+                    auto node_idx = this->get()[this->get().size() - this->get_m() + i];
+                    value -= (node[node_idx] - max - std::log(cumsum)) * prediction[i];
+                }
                 break;
             }
         }
-- 
2.43.0


From 813b1cfc520bc88fe5061dc9e1c5825fab181386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:12 +0000
Subject: [PATCH 12/27] fix: symbolic_regression reads the labels only after
 checking there are any

---
 include/dcgp/problems/symbolic_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index b9991fb..63b558c 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -570,14 +570,14 @@ private:
         if (m_points.size() == 0) {
             throw std::invalid_argument("The size of the input data (points) is zero.");
         }
-        n = static_cast<unsigned>(m_points[0].size());
-        m = static_cast<unsigned>(m_labels[0].size());
         // 2 - We check labels and points have the same (non-empty) size
         if (m_points.size() != m_labels.size()) {
             throw std::invalid_argument("The number of input data (points) is " + std::to_string(m_points.size())
                                         + " while the number of labels is " + std::to_string(m_labels.size())
                                         + ". They should be equal.");
         }
+        n = static_cast<unsigned>(m_points[0].size());
+        m = static_cast<unsigned>(m_labels[0].size());
         // 3 - We check that all p in points have the same size
         if (!std::all_of(m_points.begin(), m_points.end(),
                          [n](const std::vector<double> &p) { return p.size() == n; })) {
-- 
2.43.0


From 8edc19fdf63f7af4754bbc198e31fbc7c3b39065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:12 +0000
Subject: [PATCH 13/27] fix: a phenotype correction invalidates the cached
 fitness of symbolic_regression

---
 include/dcgp/problems/symbolic_regression.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 63b558c..1f3ac75 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -527,6 +527,8 @@ public:
     {
         m_cgp.set_phenotype_correction(pc);
         m_dcgp.set_phenotype_correction(dpc);
+        // The losses computed so far are those of another model.
+        m_cache_fitness.first.clear();
     }
 
     /// Unsets the phenotype correction
@@ -534,6 +536,8 @@ public:
     {
         m_cgp.unset_phenotype_correction();
         m_dcgp.unset_phenotype_correction();
+        // The losses computed so far are those of another model.
+        m_cache_fitness.first.clear();
     }
 
 private:
-- 
2.43.0


From f9bcdb27a2c2840a5f02f8258ad5f86f7c239ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:12 +0000
Subject: [PATCH 14/27] fix: symbolic_regression does not cache the loss of the
 unprotected division

---
 include/dcgp/problems/symbolic_regression.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 1f3ac75..631154b 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -198,9 +198,7 @@ public:
         // TODO: make this work also when m_parallel_batches does not divide exactly the data size.
         auto loss = m_dcgp.loss(m_dpoints, m_dlabels, m_loss_e);
         // Now we extract fitness and gradient and store the values in the caches or in the return value
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_loss(x, collapse(loss.constant_cf()));
 
         loss.extend_symbol_set(m_deph_symb);
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
@@ -275,9 +273,7 @@ public:
         loss.extend_symbol_set(m_deph_symb);
 
         // Now we extract fitness, gradient and hessians from the gdual and store the values (retval or cache)
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_loss(x, collapse(loss.constant_cf()));
         // We compute the gradient and the hessian only if
         // the loss depends on at least one ephemeral constant.
         // Otherwise the initialization values will be returned, that is zeros.
@@ -541,6 +537,17 @@ public:
     }
 
 private:
+    // Remembers the loss computed together with the derivatives, unless it is not the one fitness() is to return as
+    // a protected division was replaced by the unprotected one.
+    void cache_loss(const pagmo::vector_double &x, double loss) const
+    {
+        if (std::any_of(m_f.begin(), m_f.end(), [](const auto &ker) { return ker.get_name() == "pdiv"; })) {
+            return;
+        }
+        m_cache_fitness.first = x;
+        m_cache_fitness.second.resize(get_nobj());
+        m_cache_fitness.second[0] = loss;
+    }
     // Collapses a vectorized cf into one (taking the mean)
     static inline double collapse(const audi::vectorized<double> &vec)
     {
-- 
2.43.0


From 3c5976fcd637707e3e85a11b32c2e36f147fd0ec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 15/27] fix: offspring of es4cgp and moes4cgp keep the
 constants of their parent when these are not learned

---
 include/dcgp/algorithms/es4cgp.hpp   | 2 ++
 include/dcgp/algorithms/moes4cgp.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/dcgp/algorithms/es4cgp.hpp b/include/dcgp/algorithms/es4cgp.hpp
index 0c83b66..cb046b0 100644
--- a/include/dcgp/algorithms/es4cgp.hpp
+++ b/include/dcgp/algorithms/es4cgp.hpp
@@ -185,6 +185,8 @@ public:
                         mutated_eph_val[j] = best_x[j] + 10. * normal(m_e);
                     }
                     std::copy(mutated_eph_val.begin(), mutated_eph_val.end(), dvs.data() + i * dim);
+                } else { // otherwise the mutant has the constants of its parent
+                    std::copy(best_x.data(), best_x.data() + n_eph, dvs.data() + i * dim);
                 }
             }
 
diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 897c64e..6ded69f 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -186,6 +186,8 @@ public:
                     for (auto j = 0u; j < n_eph; ++j) {
                         dvs[i * dim + j] = pop.get_x()[i][j] + 10. * normal(m_e);
                     }
+                } else { // otherwise the mutant has the constants of its parent
+                    std::copy(pop.get_x()[i].data(), pop.get_x()[i].data() + n_eph, dvs.data() + i * dim);
                 }
             }
 
-- 
2.43.0


From 426ec9907b7268bea75ca5c23cc7629bb3b55a08 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 16/27] fix: moes4cgp and momes4cgp check the tolerance
 whatever the verbosity

---
 include/dcgp/algorithms/moes4cgp.hpp  | 14 +++++++-------
 include/dcgp/algorithms/momes4cgp.hpp | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 6ded69f..8c1255b 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -164,15 +164,15 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
-                    }
                 }
             }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
+                return pop;
+            }
             // 1 - We generate new NP individuals mutating the best and we write on the dvs for pagmo::bfe to evaluate
             // their fitnesses.
             for (decltype(NP) i = 0u; i < NP; ++i) {
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 16c2467..7b5692f 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -152,15 +152,15 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
-                    }
                 }
             }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
+                return pop;
+            }
 
             // At each generation we need a copy of the population
             pagmo::population popnew(pop);
-- 
2.43.0


From 6cd0491e7615e3bf845dcd592bad57b0ac842d7e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 17/27] fix: mes4cgp does not log or print on reaching the
 tolerance with verbosity off

---
 include/dcgp/algorithms/mes4cgp.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index c76a1eb..8d5d514 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -289,12 +289,14 @@ public:
             }
             // 4 - Exit if ftol is reached
             if (pagmo::detail::greater_than_f(m_ftol, best_f[0])) {
-                auto formula = udp_ptr->prettier(best_x);
-                log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                if (m_verbosity > 0u) {
+                    auto formula = udp_ptr->prettier(best_x);
+                    log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
                 if (pagmo::detail::less_than_f(best_f[0], pop.get_f()[best_idx][0])) {
                     pop.set_xf(worst_idx, best_x, best_f);
                 }
-                pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
                 return pop;
             }
         }
-- 
2.43.0


From d0083a5b18358f276f0d3592bbc4e5a41340ca59 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 18/27] fix: moes4cgp archives its tolerance

---
 include/dcgp/algorithms/moes4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 8c1255b..f971e05 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -368,6 +368,7 @@ public:
     {
         ar &m_gen;
         ar &m_max_mut;
+        ar &m_ftol;
         ar &m_learn_constants;
         ar &m_e;
         ar &m_seed;
-- 
2.43.0


From 3d12affab99810c2581fbf93327021144a6671da Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 19/27] fix: the single active constant of a memetic step uses
 its own diagonal entry of the Hessian

---
 include/dcgp/algorithms/mes4cgp.hpp   | 8 ++++----
 include/dcgp/algorithms/momes4cgp.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index 8d5d514..3c1f575 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -214,10 +214,10 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
-                            mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                        // The diagonal entry of the constant in the (packed, lower triangular) Hessian.
+                        auto h = hess[0][non_zero[0] * (non_zero[0] + 3u) / 2u];
+                        if (h != 0. && std::isfinite(grad[non_zero[0]]) && std::isfinite(h)) {
+                            mutated_x[i][non_zero[0]] = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / h;
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 7b5692f..f7cbc76 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -220,10 +220,10 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
-                            mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                        // The diagonal entry of the constant in the (packed, lower triangular) Hessian.
+                        auto h = hess[0][non_zero[0] * (non_zero[0] + 3u) / 2u];
+                        if (h != 0. && std::isfinite(grad[non_zero[0]]) && std::isfinite(h)) {
+                            mutated_x[i][non_zero[0]] = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / h;
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
-- 
2.43.0


From 3031a3f44fd3584eebbe8ad6a21c49515814570b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 20/27] fix: gd4cgp archives its selection and replacement
 policies

---
 include/dcgp/algorithms/gd4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/gd4cgp.hpp b/include/dcgp/algorithms/gd4cgp.hpp
index 9b26e7b..f08d056 100644
--- a/include/dcgp/algorithms/gd4cgp.hpp
+++ b/include/dcgp/algorithms/gd4cgp.hpp
@@ -290,6 +290,7 @@ public:
     template <typename Archive>
     void serialize(Archive &ar, unsigned)
     {
+        ar &boost::serialization::base_object<pagmo::not_population_based>(*this);
         ar &m_max_iter;
         ar &m_lr;
         ar &m_lr_min;
-- 
2.43.0


From 760ece9fb0a044effda84549b2b8603691a12e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 21/27] fix: uball5d sums the squared distances instead of
 multiplying them

---
 include/dcgp/gym.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index 835ba55..61a3395 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -89,9 +89,8 @@ inline double salutowicz2d(const std::vector<double> &x)
 inline double uball5d(const std::vector<double> &x)
 {
     return 10.
-           / (5.
-              + std::pow((x[0] - 3.), 2) * std::pow((x[1] - 3.), 2) * std::pow((x[2] - 3.), 2)
-                    * std::pow((x[3] - 3.), 2) * std::pow((x[4] - 3.), 2));
+           / (5. + std::pow((x[0] - 3.), 2) + std::pow((x[1] - 3.), 2) + std::pow((x[2] - 3.), 2)
+              + std::pow((x[3] - 3.), 2) + std::pow((x[4] - 3.), 2));
 }
 
 inline double ratpol3d(const std::vector<double> &x)
-- 
2.43.0


From 568947e681edc858a703c68806f21f4d62c1c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 22/27] fix: sinecosine is the product of the sine and the
 cosine

---
 include/dcgp/gym.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index 61a3395..c30ae0b 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -100,7 +100,7 @@ inline double ratpol3d(const std::vector<double> &x)
 
 inline double sinecosine(const std::vector<double> &x)
 {
-    return 6. * std::cos(x[0] * std::sin(x[1]));
+    return 6. * std::sin(x[0]) * std::cos(x[1]);
 }
 
 inline double ripple(const std::vector<double> &x)
-- 
2.43.0


From fdae2778531f18081f81b1628b69a874a6824ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 23/27] fix: the lanczos2 labels have their six digits of
 accuracy

---
 include/dcgp/nist_data.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/nist_data.hpp b/include/dcgp/nist_data.hpp
index ccf7344..02f5a4e 100644
--- a/include/dcgp/nist_data.hpp
+++ b/include/dcgp/nist_data.hpp
@@ -243,9 +243,10 @@ inline std::vector<std::vector<double>> lanczos2_points
        {6.00000E-01}, {6.50000E-01}, {7.00000E-01}, {7.50000E-01}, {8.00000E-01}, {8.50000E-01},
        {9.00000E-01}, {9.50000E-01}, {1.00000E+00}, {1.05000E+00}, {1.10000E+00}, {1.15000E+00}};
 inline std::vector<std::vector<double>> lanczos2_labels
-    = {{2.5134E+00}, {2.0443E+00}, {1.6684E+00}, {1.3664E+00}, {1.1232E+00}, {0.9269E+00}, {0.7679E+00}, {0.6389E+00},
-       {0.5338E+00}, {0.4479E+00}, {0.3776E+00}, {0.3197E+00}, {0.2720E+00}, {0.2325E+00}, {0.1997E+00}, {0.1723E+00},
-       {0.1493E+00}, {0.1301E+00}, {0.1138E+00}, {0.1000E+00}, {0.0883E+00}, {0.0783E+00}, {0.0698E+00}, {0.0624E+00}};
+    = {{2.51340E+00}, {2.04433E+00}, {1.66840E+00}, {1.36642E+00}, {1.12323E+00}, {9.26890E-01},
+       {7.67934E-01}, {6.38878E-01}, {5.33784E-01}, {4.47936E-01}, {3.77585E-01}, {3.19739E-01},
+       {2.72013E-01}, {2.32497E-01}, {1.99659E-01}, {1.72270E-01}, {1.49341E-01}, {1.30070E-01},
+       {1.13812E-01}, {1.00042E-01}, {8.83321E-02}, {7.83354E-02}, {6.97669E-02}, {6.23931E-02}};
 
 // misra1b
 inline std::vector<std::vector<double>> misra1b_points
-- 
2.43.0


From d84d9dce5849e6628a93382b492773032c2113fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 24/27] fix: the docstrings of the benchmark problems state the
 functions that are generated

---
 dcgpy/docstrings.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dcgpy/docstrings.cpp b/dcgpy/docstrings.cpp
index d6eb8ba..fabfecc 100644
--- a/dcgpy/docstrings.cpp
+++ b/dcgpy/docstrings.cpp
@@ -533,7 +533,7 @@ European Conference on Genetic Programming. Springer, 2017.
 The functional form of such a problem is:
 
 .. math::
-   y = x^5 - \pi x^3 + \frac{\pi}{x}
+   y = x^5 - \pi x^3 + \frac{2\pi}{x}
 
 x is sampled in ten equally spaced points in [0.1,5].
 
@@ -736,7 +736,7 @@ The functional form of such a problem is:
 .. math::
    y = e^{-x} x^3 \cos x\sin x (\cos x \sin^2 x - 1)
 
-x is sampled in one hundred points uniformly sampled in [0.5,10].
+x is sampled in one hundred points uniformly sampled in [0.05,10].
 
 Returns:
     A tuple containing the points (``2D NumPy float array``) and labels (``2D NumPy float array``).
@@ -763,7 +763,7 @@ programming." IEEE Transactions on Evolutionary Computation 13.2 (2008): 333-349
 The functional form of such a problem is:
 
 .. math::
-   y = e^{-x} x^3 \cos x_1\sin x_1 (\cos x_1 \sin^2 x_1 - 1) * (x_2 - 5)
+   y = e^{-x_1} x_1^3 \cos x_1\sin x_1 (\cos x_1 \sin^2 x_1 - 1) * (x_2 - 5)
 
 :math:`x_1` and :math:`x_2` are sampled in 601 randomly selected points in [0.05,10]x[0.05,10].
 
@@ -824,9 +824,9 @@ programming." IEEE Transactions on Evolutionary Computation 13.2 (2008): 333-349
 The functional form of such a problem is:
 
 .. math::
-   y = 30 \frac{(x_1 - 3)(x_3 - 1)}{x_2^2(x_1-10)}
+   y = 30 \frac{(x_1 - 1)(x_3 - 1)}{x_2^2(x_1-10)}
 
-:math:`x_1`, :math:`x_2`, :math:`x_3` are sampled in 300 randomly selected points in [0.05,2] x [1,2].
+:math:`x_1`, :math:`x_2`, :math:`x_3` are sampled in 300 randomly selected points in [0.05,2] x [1,2] x [0.05,2].
 
 Returns:
     A tuple containing the points (``2D NumPy float array``) and labels (``2D NumPy float array``).
@@ -1112,7 +1112,7 @@ available. (see https://www.itl.nist.gov/div898/strd/nls/data/misra1b.shtml)
 A good model for such a problem is:
 
 .. math::
-   y = \beta_1 \left( 1 - \frac 1{\left(1 + \beta_1 \frac x2\right)^2}\right) + \epsilon
+   y = \beta_1 \left( 1 - \frac 1{\left(1 + \beta_2 \frac x2\right)^2}\right) + \epsilon
 
 Returns:
     A tuple containing the points (``2D NumPy float array``) and labels (``2D NumPy float array``).
-- 
2.43.0


From 6f544c39cfdfc205f19fc0575412578f6d5d9f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 25/27] fix: derivatives of symbolic_regression are looked up
 by constant, not by alphabetical position

---
 include/dcgp/problems/symbolic_regression.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 631154b..1de6357 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -3,6 +3,8 @@
 #include <algorithm>
 #include <functional>
 #include <numeric> // std::accumulate
+#include <string>
+#include <unordered_map>
 #include <vector>
 
 #include <audi/gdual.hpp>
@@ -204,8 +206,8 @@ public:
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
                                          // (gradient is then zero)
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
+                // By name, as the symbols are kept in alphabetical order (dc10 comes before dc2).
+                std::unordered_map<std::string, unsigned> coeff{{m_deph_symb[i], 1u}};
                 auto dvec = loss.get_derivative(coeff);
                 retval[i] = collapse(dvec);
             }
@@ -280,16 +282,16 @@ public:
         if (!(loss.get_order() == 0u)) {
             // gradient (we cache it)
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
+                // By name, as the symbols are kept in alphabetical order (dc10 comes before dc2).
+                std::unordered_map<std::string, unsigned> coeff{{m_deph_symb[i], 1u}};
                 auto deriv = loss.get_derivative(coeff);
                 m_cache_gradient.second[i] = collapse(deriv);
             }
             // hessian (we return it)
             for (decltype(hd) i = 0u; i < hd; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[hs[0][i].first] = 1;
-                coeff[hs[0][i].second] += 1;
+                std::unordered_map<std::string, unsigned> coeff;
+                coeff[m_deph_symb[hs[0][i].first]] += 1u;
+                coeff[m_deph_symb[hs[0][i].second]] += 1u;
                 auto deriv = loss.get_derivative(coeff);
                 retval[0][i] = collapse(deriv);
             }
-- 
2.43.0


From 386b535fd9a7306b65cf580502b3ed7cd0c02589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 26/27] fix: networks of one row and one input can be
 visualized

The distance between rows was computed as 1/(max(r, n) - 1), a division by
zero when there is one row and one input.
---
 dcgpy/_visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcgpy/_visualize.py b/dcgpy/_visualize.py
index 68a8360..cc7644c 100644
--- a/dcgpy/_visualize.py
+++ b/dcgpy/_visualize.py
@@ -61,7 +61,7 @@ def _dcgpann_visualize(self, show_connections = True, fill_color = 'w', active_c
     x = self.get()
 
     # Grid parameters: dr is the separation between rows and dc between columns. radius is the neuron radius
-    dr = 1./(max(r,n)-1)
+    dr = 1./(max(r,n)-1) if max(r,n) > 1 else 1.
     dc = 1./(c-1) if c > 1 else 1.
 
     radius = 1. / max(n,r,c) / 4.
-- 
2.43.0


From 0fc4d64b95d7d6f37ea331dbe30d7a793af946b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 27/27] fix: networks with all weights zero can be visualized

The transparency of a connection is proportional to its weight over the
largest one: when all are zero it was 0/0, not a number, which matplotlib
refuses.
---
 dcgpy/_visualize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcgpy/_visualize.py b/dcgpy/_visualize.py
index cc7644c..733a791 100644
--- a/dcgpy/_visualize.py
+++ b/dcgpy/_visualize.py
@@ -97,7 +97,8 @@ def _dcgpann_visualize(self, show_connections = True, fill_color = 'w', active_c
     # ------------------------------_HERE WE PLOT -----------------------------------------------
     if show_connections:
         # We loop over all cartesian nodes and plot intranodes connections
-        weight_normalization = max(np.abs(self.get_weights()))
+        # (when all weights are zero any normalization will do)
+        weight_normalization = max(np.abs(self.get_weights())) or 1.
         for node_id in range(n, n+r*c):
             start = gene[node_id]
             connections = x[start+1:start+1+self.get_arity(node_id)]
-- 
2.43.0

