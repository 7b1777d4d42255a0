From a0f686aae3106e352c0a6b8b57c41fa1ec215b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 01/29] fix: expression::mutate checks all the gene indexes
 before changing any gene

---
 include/dcgp/expression.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index f684e92..5269b9f 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -677,11 +677,14 @@ public:
      */
     void mutate(std::vector<unsigned> idxs)
     {
-        bool flag = false;
+        // All indexes are checked before any gene is changed, so that a throw leaves the expression untouched
         for (auto i = 0u; i < idxs.size(); ++i) {
             if (idxs[i] >= m_x.size()) {
                 throw std::invalid_argument("idx of gene to be mutated is out of bounds");
             }
+        }
+        bool flag = false;
+        for (auto i = 0u; i < idxs.size(); ++i) {
             // If only one value is allowed for the gene, (lb==ub),
             // then we will not do anything as mutation does not apply
             if (m_lb[idxs[i]] < m_ub[idxs[i]]) {
-- 
2.43.0


From ea3969564df6313e0033e3e839de9222a21e56e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 02/29] fix: expression::set_from_range refuses a NaN gene
 instead of converting it to an integer

---
 include/dcgp/expression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 5269b9f..8c8a31e 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -1110,7 +1110,8 @@ private:
         auto lb_iter = m_lb.begin();
         auto ub_iter = m_ub.begin();
         while (begin != end) {
-            if ((*begin > *ub_iter) || (*begin < *lb_iter)) {
+            // Written so that it also refuses a gene that compares false with everything (NaN)
+            if (!(*begin <= *ub_iter && *begin >= *lb_iter)) {
                 throw std::invalid_argument("Inconsistent chromosome: out of bounds. A component of the chromosome is "
                                             + std::to_string(*begin) + " while the bounds are: ["
                                             + std::to_string(*lb_iter) + " " + ", " + std::to_string(*ub_iter) + "]");
-- 
2.43.0


From 91044b131d4b2b33edd1711f552a0ed4deb65a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 03/29] fix: expression::mutate_ogene mutates N times also when
 there is a single output

---
 include/dcgp/expression.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 8c8a31e..7cbf850 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -825,16 +825,13 @@ public:
     void mutate_ogene(unsigned N = 1u)
     {
         unsigned idx;
-        if (m_m > 1u) {
-            for (auto i = 0u; i < N; ++i) {
+        for (auto i = 0u; i < N; ++i) {
+            if (m_m > 1u) {
                 idx = std::uniform_int_distribution<unsigned>(static_cast<unsigned>(m_active_genes.size() - m_m),
                                                               static_cast<unsigned>(m_active_genes.size() - 1u))(m_e);
-                idx = m_active_genes[idx];
-                mutate(idx);
+            } else {
+                idx = static_cast<unsigned>(m_active_genes.size() - 1u);
             }
-
-        } else {
-            idx = static_cast<unsigned>(m_active_genes.size() - 1u);
             idx = m_active_genes[idx];
             mutate(idx);
         }
-- 
2.43.0


From 551feb530b881da117aed01bbab654be28fa6efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 04/29] fix: expression_ann::sgd refuses a NaN learning rate

---
 include/dcgp/expression_ann.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 28cf15b..1236fa7 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -471,7 +471,8 @@ public:
         if (points.size() == 0) {
             throw std::invalid_argument("Data size cannot be zero");
         }
-        if (lr <= 0) {
+        // Written so that it also refuses a NaN
+        if (!(lr > 0)) {
             throw std::invalid_argument("The learning rate must be a positive number, while: " + std::to_string(lr)
                                         + " was detected.");
         }
-- 
2.43.0


From 0e70373fc29660c00b9c17c29d3433d45db3d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 05/29] fix: expression_ann::sgd refuses a zero batch size
 instead of looping forever

---
 include/dcgp/expression_ann.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 1236fa7..017ceab 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -476,6 +476,9 @@ public:
             throw std::invalid_argument("The learning rate must be a positive number, while: " + std::to_string(lr)
                                         + " was detected.");
         }
+        if (batch_size == 0u) {
+            throw std::invalid_argument("The batch size cannot be zero");
+        }
 
         // Decoding the loss from string to the enum type (loss_s -> loss_e)
         expression<double>::loss_type loss_e;
-- 
2.43.0


From 765c6f4e4e7aa5bd27cc30da5b70088e12ce01a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 06/29] fix: expression_ann::sgd refuses batches that cannot be
 divided before updating any weight

---
 include/dcgp/expression_ann.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 017ceab..d8bf303 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -479,6 +479,16 @@ public:
         if (batch_size == 0u) {
             throw std::invalid_argument("The batch size cannot be zero");
         }
+        // All the batches, the last (possibly smaller) one included, must be divisible into parallel parts. We check
+        // it here so that no weight is updated if one of them is not.
+        if (parallel > 0u) {
+            for (auto size : {std::min<std::size_t>(batch_size, points.size()), points.size() % batch_size}) {
+                if (size % parallel != 0u) {
+                    throw std::invalid_argument("A batch of size: " + std::to_string(size)
+                                                + " cannot be divided into " + std::to_string(parallel) + " parts.");
+                }
+            }
+        }
 
         // Decoding the loss from string to the enum type (loss_s -> loss_e)
         expression<double>::loss_type loss_e;
-- 
2.43.0


From deffbd612ce58b02dacfab8d841bcb35da386f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 07/29] fix: the derivative of the ISRU activation is one, not
 NaN, at zero

---
 include/dcgp/expression_ann.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index d8bf303..ce5c0b4 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -975,7 +975,8 @@ private:
                         break;
                     case kernel_type::ISRU: {
                         auto cumin = std::accumulate(function_in.begin(), function_in.end(), 0.);
-                        d_node[node_id] = node[node_id] * node[node_id] * node[node_id] / cumin / cumin / cumin;
+                        auto isr = 1. / std::sqrt(1. + cumin * cumin);
+                        d_node[node_id] = isr * isr * isr;
                         break;
                     }
                     case kernel_type::SIN_NU: {
-- 
2.43.0


From 6adb67ebd78e0bb8470837c4dd03d5ce71de011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 08/29] fix: expression_ann::set_output_f refuses unknown names
 and outputs connected to an input before changing any node

---
 include/dcgp/expression_ann.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index ce5c0b4..f0cd34b 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -544,7 +544,7 @@ public:
      */
     void set_output_f(const std::string &name)
     {
-        typename std::vector<kernel_type>::iterator it;
+        auto it = m_kernel_map.end();
         if (name == "sig") {
             it = std::find(m_kernel_map.begin(), m_kernel_map.end(), kernel_type::SIG);
         } else if (name == "tanh") {
@@ -575,6 +575,13 @@ public:
             throw std::invalid_argument("The nonlinearity " + name + " is not a Kernel for this dCGP expression");
         } else {
             unsigned f_id = static_cast<unsigned>(it - m_kernel_map.begin());
+            // An output can be connected directly to an input, which has no nonlinearity. We check it here so that no
+            // node is changed if that is the case.
+            for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
+                if (this->get()[this->get().size() - 1 - i] < this->get_n()) {
+                    throw std::invalid_argument("The nonlinearity of an output connected to an input cannot be set");
+                }
+            }
             for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
                 this->set_f_gene(this->get()[this->get().size() - 1 - i], f_id);
             }
-- 
2.43.0


From bbf75e33f018f2928fe921e90087567901eb23fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 09/29] fix: the protected division with a single argument does
 not read past the end of it

---
 include/dcgp/wrapped_functions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 0817174..7e24027 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -154,9 +154,9 @@ struct my_pdiv_func {
     T operator()(const std::vector<T> &in) const
     {
         T retval(in[0]);
-        T tmpval(in[1]);
+        T tmpval(1.);
 
-        for (auto i = 2u; i < in.size(); ++i) {
+        for (auto i = 1u; i < in.size(); ++i) {
             tmpval *= in[i];
         }
 
-- 
2.43.0


From d634260057027caa10432e15ea7310b7b5f06767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 10/29] fix: the printed gaussian squares its whole argument

---
 include/dcgp/wrapped_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 7e24027..e73458c 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -775,7 +775,7 @@ struct print_my_gaussian_func {
     /// Call operator
     std::string operator()(const std::vector<std::string> &in) const
     {
-        return "exp(-" + in[0] + "**2)";
+        return "exp(-(" + in[0] + ")**2)";
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
-- 
2.43.0


From 535acaf550b5160b8b1d8ed0227ab0cbe6381f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 11/29] fix: symbolic_regression refuses a NaN in the integer
 part of the chromosome instead of converting it

---
 include/dcgp/problems/symbolic_regression.hpp | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index b9991fb..4d2cd8d 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -1,5 +1,6 @@
 #ifndef DCGP_SYMBOLIC_REGRESSION_H
 #define DCGP_SYMBOLIC_REGRESSION_H
+#include <cmath>
 #include <algorithm>
 #include <functional>
 #include <numeric> // std::accumulate
@@ -184,9 +185,7 @@ public:
         std::vector<double> retval(m_n_eph, 0);
         // The chromosome has a floating point part (the ephemeral constants) and an integer part (the encoded CGP).
         // 1 - We extract the integer part and represent it as an unsigned vector to set the CGP expression.
-        std::vector<unsigned> xu(x.size() - m_n_eph);
-        std::transform(x.data() + m_n_eph, x.data() + x.size(), xu.begin(),
-                       [](double a) { return boost::numeric_cast<unsigned>(a); });
+        auto xu = integer_part(x);
         m_dcgp.set(xu);
         // 2 - We use the floating point part of the chromosome to set ephemeral constants.
         std::vector<audi::gdual_v> eph_val;
@@ -258,9 +257,7 @@ public:
 
         // The chromosome has a floating point part (the ephemeral constants) and an integer part (the encoded CGP).
         // 1 - We extract the integer part and represent it as an unsigned vector to set the CGP expression.
-        std::vector<unsigned> xu(x.size() - m_n_eph);
-        std::transform(x.data() + m_n_eph, x.data() + x.size(), xu.begin(),
-                       [](double a) { return boost::numeric_cast<unsigned>(a); });
+        auto xu = integer_part(x);
         m_dcgp.set(xu);
         // 2 - We use the floating point part of the chromosome to set the ephemeral constants values of the dcgp
         // member.
@@ -453,9 +450,7 @@ public:
     void set_cgp(const pagmo::vector_double &x) const
     {
         // We need to make a copy of the chromosome as to represents its genes as unsigned
-        std::vector<unsigned> xu(x.size() - m_n_eph);
-        std::transform(x.data() + m_n_eph, x.data() + x.size(), xu.data(),
-                       [](double a) { return boost::numeric_cast<unsigned>(a); });
+        auto xu = integer_part(x);
         m_cgp.set(xu);
         // 2 - We set the floating point part as ephemeral constants.
         std::vector<double> eph_val(x.data(), x.data() + m_n_eph);
@@ -537,6 +532,20 @@ public:
     }
 
 private:
+    // Extracts the integer part (the encoded CGP) from the decision vector
+    std::vector<unsigned> integer_part(const pagmo::vector_double &x) const
+    {
+        std::vector<unsigned> xu(x.size() - m_n_eph);
+        std::transform(x.data() + m_n_eph, x.data() + x.size(), xu.begin(), [](double a) {
+            // boost::numeric_cast does not detect NaNs
+            if (std::isnan(a)) {
+                throw std::invalid_argument("A NaN was found in the integer part of the chromosome.");
+            }
+            return boost::numeric_cast<unsigned>(a);
+        });
+        return xu;
+    }
+
     // Collapses a vectorized cf into one (taking the mean)
     static inline double collapse(const audi::vectorized<double> &vec)
     {
-- 
2.43.0


From c7aaab0fb2253743124f16c492e3e50c20887f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 12/29] fix: symbolic_regression checks that there are labels
 before reading the first one

---
 include/dcgp/problems/symbolic_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 4d2cd8d..0a00a5f 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -579,14 +579,14 @@ private:
         if (m_points.size() == 0) {
             throw std::invalid_argument("The size of the input data (points) is zero.");
         }
-        n = static_cast<unsigned>(m_points[0].size());
-        m = static_cast<unsigned>(m_labels[0].size());
         // 2 - We check labels and points have the same (non-empty) size
         if (m_points.size() != m_labels.size()) {
             throw std::invalid_argument("The number of input data (points) is " + std::to_string(m_points.size())
                                         + " while the number of labels is " + std::to_string(m_labels.size())
                                         + ". They should be equal.");
         }
+        n = static_cast<unsigned>(m_points[0].size());
+        m = static_cast<unsigned>(m_labels[0].size());
         // 3 - We check that all p in points have the same size
         if (!std::all_of(m_points.begin(), m_points.end(),
                          [n](const std::vector<double> &p) { return p.size() == n; })) {
-- 
2.43.0


From 8c532f9cead684689b1dd6b9b0f422099414d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 13/29] fix: symbolic_regression forgets the cached fitness
 when the phenotype correction changes

---
 include/dcgp/problems/symbolic_regression.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 0a00a5f..b8412a4 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -522,6 +522,9 @@ public:
     {
         m_cgp.set_phenotype_correction(pc);
         m_dcgp.set_phenotype_correction(dpc);
+        // The cached values refer to the expression as it was before
+        m_cache_fitness.first.clear();
+        m_cache_gradient.first.clear();
     }
 
     /// Unsets the phenotype correction
@@ -529,6 +532,9 @@ public:
     {
         m_cgp.unset_phenotype_correction();
         m_dcgp.unset_phenotype_correction();
+        // The cached values refer to the expression as it was before
+        m_cache_fitness.first.clear();
+        m_cache_gradient.first.clear();
     }
 
 private:
-- 
2.43.0


From acffa4da3c2842299dbf34c4611296eaf5d455c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 14/29] fix: symbolic_regression does not cache as fitness the
 loss computed without the protected division

---
 include/dcgp/problems/symbolic_regression.hpp | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index b8412a4..e06a67b 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -197,9 +197,7 @@ public:
         // TODO: make this work also when m_parallel_batches does not divide exactly the data size.
         auto loss = m_dcgp.loss(m_dpoints, m_dlabels, m_loss_e);
         // Now we extract fitness and gradient and store the values in the caches or in the return value
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, loss);
 
         loss.extend_symbol_set(m_deph_symb);
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
@@ -272,9 +270,7 @@ public:
         loss.extend_symbol_set(m_deph_symb);
 
         // Now we extract fitness, gradient and hessians from the gdual and store the values (retval or cache)
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, loss);
         // We compute the gradient and the hessian only if
         // the loss depends on at least one ephemeral constant.
         // Otherwise the initialization values will be returned, that is zeros.
@@ -552,6 +548,18 @@ private:
         return xu;
     }
 
+    // Caches the fitness (as computed with gduals) in the decision vector x
+    void cache_fitness(const pagmo::vector_double &x, const audi::gdual_v &loss) const
+    {
+        // The gdual expression contains div in place of pdiv, hence its value may not be the fitness
+        if (std::any_of(m_f.begin(), m_f.end(), [](const auto &ker) { return ker.get_name() == "pdiv"; })) {
+            return;
+        }
+        m_cache_fitness.first = x;
+        m_cache_fitness.second.resize(get_nobj());
+        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+    }
+
     // Collapses a vectorized cf into one (taking the mean)
     static inline double collapse(const audi::vectorized<double> &vec)
     {
-- 
2.43.0


From 31dd45fab9f8e4a38913305b776aee875869f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 15/29] fix: symbolic_regression orders the derivatives as the
 ephemeral constants also with ten constants or more

---
 include/dcgp/problems/symbolic_regression.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index e06a67b..88218ae 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <functional>
 #include <numeric> // std::accumulate
+#include <unordered_map>
 #include <vector>
 
 #include <audi/gdual.hpp>
@@ -203,8 +204,7 @@ public:
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
                                          // (gradient is then zero)
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
+                std::unordered_map<std::string, unsigned> coeff{{m_deph_symb[i], 1u}};
                 auto dvec = loss.get_derivative(coeff);
                 retval[i] = collapse(dvec);
             }
@@ -277,16 +277,14 @@ public:
         if (!(loss.get_order() == 0u)) {
             // gradient (we cache it)
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
+                std::unordered_map<std::string, unsigned> coeff{{m_deph_symb[i], 1u}};
                 auto deriv = loss.get_derivative(coeff);
                 m_cache_gradient.second[i] = collapse(deriv);
             }
             // hessian (we return it)
             for (decltype(hd) i = 0u; i < hd; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[hs[0][i].first] = 1;
-                coeff[hs[0][i].second] += 1;
+                std::unordered_map<std::string, unsigned> coeff{{m_deph_symb[hs[0][i].first], 1u}};
+                coeff[m_deph_symb[hs[0][i].second]] += 1u;
                 auto deriv = loss.get_derivative(coeff);
                 retval[0][i] = collapse(deriv);
             }
-- 
2.43.0


From 72483affeb3540120a3037dee5e5a6fbddca9426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 16/29] fix: symbolic_regression never claims to be more thread
 safe than basic

---
 include/dcgp/problems/symbolic_regression.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 88218ae..2c39b5d 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -492,14 +492,15 @@ public:
 
     /// Thread safety for this udp
     /**
-     * This is set to none as pitonic kernels could be in the inner expression
+     * This is set to none as pitonic kernels could be in the inner expression. It never exceeds basic, since the
+     * evaluations use (and modify) the inner expressions.
      */
     pagmo::thread_safety get_thread_safety() const
     {
-        return (*std::min_element(
-                    m_f.begin(), m_f.end(),
-                    [](const auto &a, const auto &b) { return a.get_thread_safety() < b.get_thread_safety(); }))
-            .get_thread_safety();
+        auto retval = (*std::min_element(m_f.begin(), m_f.end(), [](const auto &a, const auto &b) {
+                          return a.get_thread_safety() < b.get_thread_safety();
+                      })).get_thread_safety();
+        return std::min(retval, pagmo::thread_safety::basic);
     }
 
     /// Sets the phenotype correction
-- 
2.43.0


From eb29ec2a64308fd02f11bfdd975bb68af545d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 17/29] fix: es4cgp and moes4cgp keep the constants of the
 parent when they do not learn them

---
 include/dcgp/algorithms/es4cgp.hpp   | 2 ++
 include/dcgp/algorithms/moes4cgp.hpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/dcgp/algorithms/es4cgp.hpp b/include/dcgp/algorithms/es4cgp.hpp
index 0c83b66..a14b1c8 100644
--- a/include/dcgp/algorithms/es4cgp.hpp
+++ b/include/dcgp/algorithms/es4cgp.hpp
@@ -185,6 +185,8 @@ public:
                         mutated_eph_val[j] = best_x[j] + 10. * normal(m_e);
                     }
                     std::copy(mutated_eph_val.begin(), mutated_eph_val.end(), dvs.data() + i * dim);
+                } else {
+                    std::copy(best_x.begin(), best_x.begin() + static_cast<long>(n_eph), dvs.data() + i * dim);
                 }
             }
 
diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 897c64e..f52d26b 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -186,6 +186,9 @@ public:
                     for (auto j = 0u; j < n_eph; ++j) {
                         dvs[i * dim + j] = pop.get_x()[i][j] + 10. * normal(m_e);
                     }
+                } else {
+                    std::copy(pop.get_x()[i].begin(), pop.get_x()[i].begin() + static_cast<long>(n_eph),
+                              dvs.data() + i * dim);
                 }
             }
 
-- 
2.43.0


From d92412220ddf8769ab15b8096880016d80e80845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 18/29] fix: moes4cgp and momes4cgp exit below ftol whatever
 their verbosity

---
 include/dcgp/algorithms/moes4cgp.hpp  | 15 +++++++++------
 include/dcgp/algorithms/momes4cgp.hpp | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index f52d26b..592e95b 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -164,14 +164,17 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
+                }
+            }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    if (gen % m_verbosity != 1u && m_verbosity != 1u) { // not logged above
+                        log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     }
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
                 }
+                return pop;
             }
             // 1 - We generate new NP individuals mutating the best and we write on the dvs for pagmo::bfe to evaluate
             // their fitnesses.
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 16c2467..8830999 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -152,14 +152,17 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
+                }
+            }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    if (gen % m_verbosity != 1u && m_verbosity != 1u) { // not logged above
+                        log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     }
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
                 }
+                return pop;
             }
 
             // At each generation we need a copy of the population
-- 
2.43.0


From 21f13d6e3e91be8c34428d812ae175679d275125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 19/29] fix: mes4cgp prints and logs nothing at verbosity zero

---
 include/dcgp/algorithms/mes4cgp.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index c76a1eb..8d5d514 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -289,12 +289,14 @@ public:
             }
             // 4 - Exit if ftol is reached
             if (pagmo::detail::greater_than_f(m_ftol, best_f[0])) {
-                auto formula = udp_ptr->prettier(best_x);
-                log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                if (m_verbosity > 0u) {
+                    auto formula = udp_ptr->prettier(best_x);
+                    log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
                 if (pagmo::detail::less_than_f(best_f[0], pop.get_f()[best_idx][0])) {
                     pop.set_xf(worst_idx, best_x, best_f);
                 }
-                pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
                 return pop;
             }
         }
-- 
2.43.0


From b519a570ea304822ec120ba9ebf63cf681d6dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 20/29] fix: mes4cgp and momes4cgp use the curvature of the
 constant when only one is active

---
 include/dcgp/algorithms/mes4cgp.hpp   | 8 ++++----
 include/dcgp/algorithms/momes4cgp.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index 8d5d514..224e31e 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -214,10 +214,10 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
-                            mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                        // NOTE: the Hessian is packed, we need its diagonal element.
+                        const auto diag = non_zero[0] * (non_zero[0] + 3u) / 2u;
+                        if (hess[0][diag] != 0. && std::isfinite(grad[non_zero[0]]) && std::isfinite(hess[0][diag])) {
+                            mutated_x[i][non_zero[0]] = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][diag];
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 8830999..f82f9f1 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -223,10 +223,10 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
-                            mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                        // NOTE: the Hessian is packed, we need its diagonal element.
+                        const auto diag = non_zero[0] * (non_zero[0] + 3u) / 2u;
+                        if (hess[0][diag] != 0. && std::isfinite(grad[non_zero[0]]) && std::isfinite(hess[0][diag])) {
+                            mutated_x[i][non_zero[0]] = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][diag];
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
-- 
2.43.0


From 8dbfacc50e09343582e896007c23d469e33aa5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 21/29] fix: mes4cgp and momes4cgp take Newton steps only when
 the Hessian is positive definite

---
 include/dcgp/algorithms/mes4cgp.hpp   | 18 ++++++++++--------
 include/dcgp/algorithms/momes4cgp.hpp | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index 224e31e..156ca46 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -150,8 +150,9 @@ public:
         // (active) Constants
         Eigen::MatrixXd C;
         // Full pivoting LU decomposition to check that H is invertible, find the inverse
-        // and see if H is positive definite
         Eigen::FullPivLU<Eigen::MatrixXd> fullpivlu;
+        // LDLT decomposition to see if H is positive definite
+        Eigen::LDLT<Eigen::MatrixXd> ldlt;
         // Uniform distribution (to pick the number of active mutations)
         std::uniform_int_distribution<unsigned> dis(1u, m_max_mut);
         // Main loop
@@ -254,13 +255,14 @@ public:
                         // And we perform a Newton step
                         if (G.array().isFinite().all()) {
                             fullpivlu.compute(H);
-                            // NOTE: the eigenvalues of U (i.e. its diagonal elements) have the same sign structure as
-                            // the eigenvalues of H according to Sylvesters theorem of intertia
-                            // so we can check that H is positive (semi) definite trough looking at the diagonal
-                            // elements of U (see e.g.
-                            // https://math.stackexchange.com/questions/621040/compute-eigenvalues-of-a-square-matrix-given-lu-decomposition)
-                            if (fullpivlu.isInvertible() && (fullpivlu.matrixLU().diagonal().array() >= 0.).all()) {
-                                // H is invertible and positive (semi) definite
+                            // NOTE: the elements of D have the same signs as the eigenvalues of H according to
+                            // Sylvesters theorem of inertia, so we can check that H is positive definite trough
+                            // looking at them. (This is not true of the diagonal of U, as the permutations of the LU
+                            // decomposition are not the same for the rows and the columns).
+                            ldlt.compute(H);
+                            if (fullpivlu.isInvertible() && ldlt.info() == Eigen::Success
+                                && (ldlt.vectorD().array() > 0.).all()) {
+                                // H is invertible and positive definite
                                 // we are therefore approaching a minimum and the inverse is defined
                                 // it can however contain infinities in some elements
                                 // so we check that all elements of the inverse are finite and only then do a Newton
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index f82f9f1..ba8e1b9 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -136,8 +136,9 @@ public:
         // (active) Constants
         Eigen::MatrixXd C;
         // Full pivoting LU decomposition to check that H is invertible, find the inverse
-        // and see if H is positive definite
         Eigen::FullPivLU<Eigen::MatrixXd> fullpivlu;
+        // LDLT decomposition to see if H is positive definite
+        Eigen::LDLT<Eigen::MatrixXd> ldlt;
 
         // Main loop
         for (decltype(m_gen) gen = 1u; gen <= m_gen; ++gen) {
@@ -263,13 +264,14 @@ public:
                         // And we perform a Newton step
                         if (G.array().isFinite().all()) {
                             fullpivlu.compute(H);
-                            // NOTE: the eigenvalues of U (i.e. its diagonal elements) have the same sign structure as
-                            // the eigenvalues of H according to Sylvesters theorem of intertia
-                            // so we can check that H is positive (semi) definite trough looking at the diagonal
-                            // elements of U (see e.g.
-                            // https://math.stackexchange.com/questions/621040/compute-eigenvalues-of-a-square-matrix-given-lu-decomposition)
-                            if (fullpivlu.isInvertible() && (fullpivlu.matrixLU().diagonal().array() >= 0.).all()) {
-                                // H is invertible and positive (semi) definite
+                            // NOTE: the elements of D have the same signs as the eigenvalues of H according to
+                            // Sylvesters theorem of inertia, so we can check that H is positive definite trough
+                            // looking at them. (This is not true of the diagonal of U, as the permutations of the LU
+                            // decomposition are not the same for the rows and the columns).
+                            ldlt.compute(H);
+                            if (fullpivlu.isInvertible() && ldlt.info() == Eigen::Success
+                                && (ldlt.vectorD().array() > 0.).all()) {
+                                // H is invertible and positive definite
                                 // we are therefore approaching a minimum and the inverse is defined
                                 // it can however contain infinities in some elements
                                 // so we check that all elements of the inverse are finite and only then do a Newton
-- 
2.43.0


From c50ef7e2e4f90180e022920c3bc9a3bcdd944bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 22/29] fix: gd4cgp refuses learning rates that are not numbers

---
 include/dcgp/algorithms/gd4cgp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/algorithms/gd4cgp.hpp b/include/dcgp/algorithms/gd4cgp.hpp
index 9b26e7b..e5fc8a3 100644
--- a/include/dcgp/algorithms/gd4cgp.hpp
+++ b/include/dcgp/algorithms/gd4cgp.hpp
@@ -55,10 +55,10 @@ public:
     gd4cgp(unsigned max_iter = 1u, double lr = 1., double lr_min = 1e-3)
         : m_max_iter(max_iter), m_lr(lr), m_lr_min(lr_min), m_verbosity(0u)
     {
-        if (lr_min <= 0.) {
+        if (!(lr_min > 0.)) {
             throw std::invalid_argument("The minimum learning rate must be strictly positive.");
         }
-        if (lr_min >= lr) {
+        if (!(lr_min < lr)) {
             throw std::invalid_argument(
                 "The minimum learning rate must be strictly smaller than the initial learning rate.");
         }
-- 
2.43.0


From 86e3743db631cf5b73e79b6c54eb7503aacdce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 23/29] fix: a loaded kernel has the thread safety of its
 functions

---
 include/dcgp/kernel.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/kernel.hpp b/include/dcgp/kernel.hpp
index cdc2164..d85b76d 100644
--- a/include/dcgp/kernel.hpp
+++ b/include/dcgp/kernel.hpp
@@ -157,6 +157,8 @@ public:
         ar &m_f;
         ar &m_pf;
         ar &m_name;
+        // NOTE: the thread safety is that of the two functions.
+        m_thread_safety = std::min(m_f.get_thread_safety(), m_pf.get_thread_safety());
     }
 
 private:
@@ -167,7 +169,7 @@ private:
     /// Its name
     std::string m_name;
     // Thread safety.
-    pagmo::thread_safety m_thread_safety;
+    pagmo::thread_safety m_thread_safety = pagmo::thread_safety::basic;
 };
 
 } // end of namespace dcgp
-- 
2.43.0


From 4ccef2e1484890a2e21c8ad65bd7077742655caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 24/29] fix: moes4cgp serializes its tolerance

---
 include/dcgp/algorithms/moes4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 592e95b..2dbc564 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -372,6 +372,7 @@ public:
     {
         ar &m_gen;
         ar &m_max_mut;
+        ar &m_ftol;
         ar &m_learn_constants;
         ar &m_e;
         ar &m_seed;
-- 
2.43.0


From fbd12acc7a40d649b5a5557cdea4f1f069e5586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 25/29] fix: a default constructed symbolic_regression has a
 defined loss type

---
 include/dcgp/problems/symbolic_regression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 2c39b5d..3b1489d 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -53,7 +53,8 @@ public:
      */
     symbolic_regression()
         : m_points(1), m_labels(1), m_r(1), m_c(1), m_l(1), m_arity(2), m_f(kernel_set<double>({"sum"})()), m_n_eph(0),
-          m_multi_objective(true), m_parallel_batches(0u), m_loss_s("MSE")
+          m_multi_objective(true), m_parallel_batches(0u), m_loss_s("MSE"),
+          m_loss_e(dcgp::expression<audi::gdual_v>::loss_type::MSE)
     {
     }
 
-- 
2.43.0


From 16ffb59a69ae489df9d1fcaf3edb8bd2f9379f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 26/29] fix: gd4cgp serializes its selection and replacement
 policies

---
 include/dcgp/algorithms/gd4cgp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dcgp/algorithms/gd4cgp.hpp b/include/dcgp/algorithms/gd4cgp.hpp
index e5fc8a3..8ee0fb3 100644
--- a/include/dcgp/algorithms/gd4cgp.hpp
+++ b/include/dcgp/algorithms/gd4cgp.hpp
@@ -290,6 +290,8 @@ public:
     template <typename Archive>
     void serialize(Archive &ar, unsigned)
     {
+        // The policies to select and replace individuals are in the base class
+        ar &boost::serialization::base_object<pagmo::not_population_based>(*this);
         ar &m_max_iter;
         ar &m_lr;
         ar &m_lr_min;
-- 
2.43.0


From 09d683d219870bcdc88e9ceeed32d008dbe8e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 27/29] fix: uball5d sums the squares, it does not multiply
 them

---
 include/dcgp/gym.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index 835ba55..ba1b983 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -90,8 +90,8 @@ inline double uball5d(const std::vector<double> &x)
 {
     return 10.
            / (5.
-              + std::pow((x[0] - 3.), 2) * std::pow((x[1] - 3.), 2) * std::pow((x[2] - 3.), 2)
-                    * std::pow((x[3] - 3.), 2) * std::pow((x[4] - 3.), 2));
+              + std::pow((x[0] - 3.), 2) + std::pow((x[1] - 3.), 2) + std::pow((x[2] - 3.), 2)
+              + std::pow((x[3] - 3.), 2) + std::pow((x[4] - 3.), 2));
 }
 
 inline double ratpol3d(const std::vector<double> &x)
-- 
2.43.0


From ca235bc26a3bcf01af69af973a641757be57999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 28/29] fix: generate_1Ddata does not divide by zero when asked
 for a single point

---
 include/dcgp/gym.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index ba1b983..7999564 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -121,7 +121,7 @@ inline void generate_1Ddata(std::vector<std::vector<double>> &points, std::vecto
     points.clear();
     labels.clear();
     for (unsigned i = 0u; i < N; ++i) {
-        double x = lb + (i * (ub - lb)) / (N - 1);
+        double x = N > 1u ? lb + (i * (ub - lb)) / (N - 1) : lb;
         points.push_back({x});
         labels.push_back({f({x})});
     }
-- 
2.43.0


From fdc0cb9c21705f06a3a49810a7a2ff4a9bb93b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 29/29] fix: the lanczos2 labels are those of Lanczos2, not of
 Lanczos3

---
 include/dcgp/nist_data.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/nist_data.hpp b/include/dcgp/nist_data.hpp
index ccf7344..02f5a4e 100644
--- a/include/dcgp/nist_data.hpp
+++ b/include/dcgp/nist_data.hpp
@@ -243,9 +243,10 @@ inline std::vector<std::vector<double>> lanczos2_points
        {6.00000E-01}, {6.50000E-01}, {7.00000E-01}, {7.50000E-01}, {8.00000E-01}, {8.50000E-01},
        {9.00000E-01}, {9.50000E-01}, {1.00000E+00}, {1.05000E+00}, {1.10000E+00}, {1.15000E+00}};
 inline std::vector<std::vector<double>> lanczos2_labels
-    = {{2.5134E+00}, {2.0443E+00}, {1.6684E+00}, {1.3664E+00}, {1.1232E+00}, {0.9269E+00}, {0.7679E+00}, {0.6389E+00},
-       {0.5338E+00}, {0.4479E+00}, {0.3776E+00}, {0.3197E+00}, {0.2720E+00}, {0.2325E+00}, {0.1997E+00}, {0.1723E+00},
-       {0.1493E+00}, {0.1301E+00}, {0.1138E+00}, {0.1000E+00}, {0.0883E+00}, {0.0783E+00}, {0.0698E+00}, {0.0624E+00}};
+    = {{2.51340E+00}, {2.04433E+00}, {1.66840E+00}, {1.36642E+00}, {1.12323E+00}, {9.26890E-01},
+       {7.67934E-01}, {6.38878E-01}, {5.33784E-01}, {4.47936E-01}, {3.77585E-01}, {3.19739E-01},
+       {2.72013E-01}, {2.32497E-01}, {1.99659E-01}, {1.72270E-01}, {1.49341E-01}, {1.30070E-01},
+       {1.13812E-01}, {1.00042E-01}, {8.83321E-02}, {7.83354E-02}, {6.97669E-02}, {6.23931E-02}};
 
 // misra1b
 inline std::vector<std::vector<double>> misra1b_points
-- 
2.43.0

