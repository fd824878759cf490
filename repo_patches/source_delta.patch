From 38c4b462982a87f3419c42e2d02c2024ecd6bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 01/37] fix: divide by n! for n equivalent elementary
 contractions in Wick's theorem

combinatorial_factor divided by binomial(n,1) = n, so diagrams in which the
same elementary contraction appears three or more times had a wrong prefactor
(e.g. <L3 T3> gave 1/9 instead of 1/36).
---
 wicked/diagrams/wick_theorem_process_contractions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index cf8e7d9..ba017ba 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -548,7 +548,7 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
     contraction_count[contraction] += 1;
   }
   for (const auto &kv : contraction_count) {
-    factor /= binomial(kv.second, 1);
+    factor /= scalar_t(rational_t(factorial(kv.second)));
   }
   return factor;
 }
-- 
2.43.0


From 55517118e8ffdabf7db2be032c6ec92bdf78861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 02/37] fix: keep the denominator of a rational positive after
 division

Dividing by a negative rational left a negative denominator, so e.g.
rational(3) / rational(-2) was not equal to rational(-3,2).
---
 wicked/helpers/rational.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 4bb564d..f2cfce3 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -200,6 +200,11 @@ void rational::reduce() {
     numerator_ /= gcd;
     denominator_ /= gcd;
   }
+  // enforce a positive denominator
+  if (denominator_ < 0) {
+    numerator_ = -numerator_;
+    denominator_ = -denominator_;
+  }
 }
 
 #include <iostream>
-- 
2.43.0


From 9fd90ef6e434febecc12f60d566c32d761c95981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 03/37] fix: reject rationals with a zero denominator

rational(1,0), make_rational("1/0") and r / rational(0) silently produced the
invalid number 1/0.
---
 wicked/helpers/rational.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index f2cfce3..92be5e0 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -63,6 +63,9 @@ rational &rational::operator*=(const rational &rhs) {
 }
 
 rational &rational::operator/=(const rational &rhs) {
+  if (rhs.numerator() == 0) {
+    throw std::runtime_error("rational: division by zero");
+  }
   numerator_ *= rhs.denominator();
   denominator_ *= rhs.numerator();
   reduce();
@@ -189,6 +192,9 @@ std::ostream &operator<<(std::ostream &os, const rational &rhs) {
 }
 
 void rational::reduce() {
+  if (denominator_ == 0) {
+    throw std::runtime_error("rational: division by zero");
+  }
 // find the gcd
 #if USE_BOOST_1024_INT
   rational_t gcd = boost::gcd(numerator_, denominator_);
-- 
2.43.0


From 169e4916eef7355b6e5ef64186e8892a04479320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 04/37] fix: scaling an expression by zero gives the empty
 expression

The terms were kept with a zero coefficient, so (e * rational(0)) had a nonzero
length and did not compare equal to an empty expression.
---
 wicked/helpers/algebra.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index 4c137cf..4a2cb06 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -124,6 +124,11 @@ public:
   /// @brief Scalar multiplication assignment operator
   /// @param rhs the scalar to multiply by
   Algebra &operator*=(scalar_t factor) {
+    // multiplication by zero gives the zero vector, which has no terms
+    if (factor == scalar_t(0, 1)) {
+      terms_.clear();
+      return *this;
+    }
     for (auto &[e, c] : terms()) {
       c *= factor;
     }
-- 
2.43.0


From bc57cb42e2875a5d52aba244b897afed37742880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 05/37] fix: do not truncate n! to an int in the prefactor of
 an operator

An operator with 13 or more creation (or annihilation) operators in one space
had a wrong prefactor (1/1932053504 instead of 1/13!).
---
 wicked/diagrams/operator.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/operator.cc b/wicked/diagrams/operator.cc
index b22e1a1..40a2cec 100644
--- a/wicked/diagrams/operator.cc
+++ b/wicked/diagrams/operator.cc
@@ -19,11 +19,16 @@ GraphMatrix Operator::graph_matrix() const { return graph_matrix_; }
 
 scalar_t Operator::factor() const {
   scalar_t result = 1;
+  // divide by n! one factor at a time: n! does not fit in an int for n > 12
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    result /= static_cast<scalar_t>(factorial(cre(s)));
+    for (int n = 2; n <= cre(s); ++n) {
+      result /= scalar_t(n);
+    }
   }
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    result /= static_cast<scalar_t>(factorial(ann(s)));
+    for (int n = 2; n <= ann(s); ++n) {
+      result /= scalar_t(n);
+    }
   }
   return result;
 }
-- 
2.43.0


From 8c98d8ca4ff6e2f1158e3d90168d9b83eab755f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 06/37] fix: do not capture free operator indices when
 canonicalizing a term

The index of an operator that appears on no tensor keeps its label, but the
same label could be given to another index of the term: t^{o3}_{} a+(o3) a-(o0)
became t^{o0}_{} a+(o0) a-(o0).
---
 wicked/algebra/symbolic_term.cc | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 5d7addd..ed04eef 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -187,6 +187,23 @@ scalar_t SymbolicTerm::canonicalize() {
     is_operator_index[sqop.index()] = true;
   }
 
+  // an operator index that does not appear on any tensor keeps its label, so
+  // this label cannot be assigned to another index
+  std::map<Index, bool> is_reserved = is_operator_index;
+  for (const auto &tensor : tensors_) {
+    for (const auto &idx : tensor.indices()) {
+      is_reserved.erase(idx);
+    }
+  }
+  auto next_index = [&](int s, std::vector<int> &count) {
+    while (is_reserved.count(Index(s, count[s])) > 0) {
+      count[s] += 1;
+    }
+    Index idx(s, count[s]);
+    count[s] += 1;
+    return idx;
+  };
+
   // b. Assign indices to tensors operators
   for (const auto &tensor : tensors_) {
     // lower indices
@@ -194,16 +211,12 @@ scalar_t SymbolicTerm::canonicalize() {
       if (is_operator_index.count(l) == 0) {
         // this index is not shared with an operator
         if (index_map.count(l) == 0) {
-          int s = l.space();
-          index_map[l] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[l] = next_index(l.space(), tens_index_count);
         }
       } else {
         // this index is shared with an operator
         if (index_map.count(l) == 0) {
-          int s = l.space();
-          index_map[l] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[l] = next_index(l.space(), sqop_index_count);
         }
       }
     }
@@ -211,15 +224,11 @@ scalar_t SymbolicTerm::canonicalize() {
     for (const auto &u : tensor.upper()) {
       if (is_operator_index.count(u) == 0) {
         if (index_map.count(u) == 0) {
-          int s = u.space();
-          index_map[u] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[u] = next_index(u.space(), tens_index_count);
         }
       } else {
         if (index_map.count(u) == 0) {
-          int s = u.space();
-          index_map[u] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[u] = next_index(u.space(), sqop_index_count);
         }
       }
     }
-- 
2.43.0


From a5c1a4be5bee388f88bf91d7bc3a1f9a184ecca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 07/37] fix: bosonic operators do not contribute to the sign of
 a permutation

Canonicalizing b+(p1) b+(p0) gave -b+(p0) b+(p1).
---
 wicked/algebra/sqoperator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/sqoperator.cc b/wicked/algebra/sqoperator.cc
index d4de1fd..0140de9 100644
--- a/wicked/algebra/sqoperator.cc
+++ b/wicked/algebra/sqoperator.cc
@@ -145,7 +145,10 @@ scalar_t canonicalize_sqops(Product<SQOperator> &sqops, bool reversed) {
   sqops.clear();
   for (const auto &[sqop, pos] : sqop_pos) {
     sqops.push_back(sqop);
-    perm.push_back(pos);
+    // only permutations of fermionic operators change the sign
+    if (sqop.field_type() == FieldType::Fermion) {
+      perm.push_back(pos);
+    }
   }
   return permutation_sign(perm);
 }
-- 
2.43.0


From 2d6e86122707c77154c1e3a1cee77b052d4f25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 08/37] fix: a rejected add_space leaves the orbital space
 unchanged

When an index was already assigned or an elementary space unknown, the label
stayed registered: it could not be used again and pointed to a missing space.
---
 wicked/helpers/orbital_space.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 10a4cfa..6a1aaa0 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -81,21 +81,25 @@ void OrbitalSpaceInfo::add_space(char label, FieldType field_type,
                              "\" is already defined. Use another label.");
   }
 
+  // validate all the arguments before modifying this object
   size_t pos = space_info_.size();
-  label_to_pos_[label] = pos;
+  std::map<std::string, int> new_indices_to_pos = indices_to_pos_;
   for (auto &index : indices) {
-    if (indices_to_pos_.count(index)) {
+    if (new_indices_to_pos.count(index)) {
       throw std::runtime_error(
           "add_space: Index \"" + index +
           "\" is already assigned to another space. Use another index.");
     } else {
-      indices_to_pos_[index] = pos;
+      new_indices_to_pos[index] = pos;
     }
   }
   std::vector<int> elementary_spaces_int;
   for (char e : elementary_spaces) {
-    elementary_spaces_int.push_back(label_to_space(e));
+    elementary_spaces_int.push_back(e == label ? static_cast<int>(pos)
+                                               : label_to_space(e));
   }
+  label_to_pos_[label] = pos;
+  indices_to_pos_ = new_indices_to_pos;
   space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,
                                      elementary_spaces_int));
 }
-- 
2.43.0


From 389a46bbe03bc2a130280a3e770574362f78cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 09/37] fix: reject operators when more than eight orbital
 spaces are defined

GraphMatrix stores at most eight spaces and wrote past the end of its array.
---
 wicked/diagrams/graph_matrix.cc | 11 ++++++++++-
 wicked/diagrams/graph_matrix.h  |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/graph_matrix.cc b/wicked/diagrams/graph_matrix.cc
index 3a15a96..12ba369 100644
--- a/wicked/diagrams/graph_matrix.cc
+++ b/wicked/diagrams/graph_matrix.cc
@@ -1,5 +1,6 @@
 #include <cassert>
 #include <numeric>
+#include <stdexcept>
 
 #include "graph_matrix.h"
 #include "helpers/helpers.h"
@@ -7,10 +8,18 @@
 
 using namespace std;
 
-GraphMatrix::GraphMatrix() {}
+GraphMatrix::GraphMatrix() { check_num_spaces(); }
+
+void GraphMatrix::check_num_spaces() {
+  if (orbital_subspaces->num_spaces() > max_spaces_) {
+    throw std::runtime_error("GraphMatrix: operators can span at most " +
+                             std::to_string(max_spaces_) + " orbital spaces");
+  }
+}
 
 GraphMatrix::GraphMatrix(const std::vector<int> &cre,
                          const std::vector<int> &ann) {
+  check_num_spaces();
   for (int i = 0; i < orbital_subspaces->num_spaces(); i++) {
     elements_[i] = std::make_pair(cre[i], ann[i]);
   }
diff --git a/wicked/diagrams/graph_matrix.h b/wicked/diagrams/graph_matrix.h
index 613ffa5..9a0e036 100644
--- a/wicked/diagrams/graph_matrix.h
+++ b/wicked/diagrams/graph_matrix.h
@@ -70,6 +70,9 @@ public:
   friend std::ostream &operator<<(std::ostream &os, const GraphMatrix &v);
 
 private:
+  /// Throw if there are more orbital spaces than this object can store
+  static void check_num_spaces();
+
   /// This object stores the number of creation/annihilation
   /// operators in each space. This initializes it to all zeros
   graph_matrix_t elements_ = {};
-- 
2.43.0


From b61ff3f0d80b218f58193d314c176a20a591d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 10/37] fix: protect the timers updated by the threads that
 process contractions

The asynchronous tasks inserted into and updated the same std::map without
synchronization.
---
 wicked/diagrams/wick_theorem.h                       |  4 ++++
 wicked/diagrams/wick_theorem_process_contractions.cc | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem.h b/wicked/diagrams/wick_theorem.h
index e941cb3..34a6e7e 100644
--- a/wicked/diagrams/wick_theorem.h
+++ b/wicked/diagrams/wick_theorem.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <mutex>
 #include <optional>
 #include <string>
 #include <vector>
@@ -57,6 +58,9 @@ private:
 
   std::map<std::string, double> timers_;
 
+  /// Protects timers_, which is updated by the threads that process contractions
+  std::mutex timers_mutex_;
+
   /// The number of contractions found
   int ncontractions_ = 0;
 
diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index ba017ba..eef4430 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -169,12 +169,18 @@ Expression WickTheorem::process_single_contraction(
         do_canonicalize_graph_
             ? canonicalize_contraction_graph(ops, contraction)
             : std::make_tuple(ops, contraction, scalar_t(1));
-    timers_["canonicalize_contraction_graph"] += tc.get();
+    {
+      const std::lock_guard<std::mutex> lock(timers_mutex_);
+      timers_["canonicalize_contraction_graph"] += tc.get();
+    }
 
     timer te;
     std::pair<SymbolicTerm, scalar_t> term_factor =
         evaluate_contraction(best_ops, best_contractions, factor * sign);
-    timers_["evaluate_contraction"] += te.get();
+    {
+      const std::lock_guard<std::mutex> lock(timers_mutex_);
+      timers_["evaluate_contraction"] += te.get();
+    }
 
     SymbolicTerm &term = term_factor.first;
     scalar_t canonicalize_factor = term.canonicalize();
-- 
2.43.0


From 25aa423a91a508b831615da9b2cf5fd44f91b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 11/37] fix: operator_expr uses the coefficient argument

The coefficient was stored in a Term that was sliced to a SymbolicTerm, so every
term was added with coefficient one.
---
 wicked/algebra/expression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 71d8316..4cf511a 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -241,7 +241,7 @@ Expression make_operator_expr(const std::string &label,
     std::reverse(std::begin(ann), std::end(ann));
     Tensor tensor(label, cre, ann, symmetry);
     term.add(tensor);
-    result.add(term);
+    result.add(term.symterm(), coefficient);
   }
   return result;
 }
-- 
2.43.0


From 73e355d3ef4c2ff60aa72141b977963eab995f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 12/37] fix: print a space between a one-digit coefficient and
 the first term

The expression 2 t^{o0}_{v0} was printed as 2t^{o0}_{v0}, which reads back as
twice the tensor 2t.
---
 wicked/algebra/expression.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 4cf511a..8126a71 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -104,7 +104,8 @@ std::string Expression::str() const {
       }
       // rational(1,1).str() returns "", so we need to handle the case of
       // a pure scalar term with no operator
-      if ((factor_str.size() > 1) and (factor_str != "-")) {
+      if ((factor_str.size() > 0) and (factor_str != "-") and
+          (factor_str != "+")) {
         factor_str += " ";
       }
     } else {
-- 
2.43.0


From 5871084e7a49cd3aa4b44f35a14332943d8ab1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 13/37] fix: read tensor labels that contain an underscore

Labels such as E_0 are accepted and printed, but expression("E_0^{}_{}") gave
the tensor 0 and tensor("E_0^{}_{}") failed.
---
 wicked/algebra/expression.cc | 2 +-
 wicked/algebra/tensor.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 8126a71..0814436 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -259,7 +259,7 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
 
   std::regex factor_re, operator_re, normal_ordered_re, tensor_re;
   if (syntax == TensorSyntax::Wicked) {
-    tensor_re = std::regex(R"(([a-zA-Z0-9]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
+    tensor_re = std::regex(R"(([a-zA-Z0-9_]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
     operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
     factor_re = std::regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
     normal_ordered_re = std::regex(R"((?:\{(?:\s*a[+-]\([\w\d]+\))+\s*\}))");
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index 29f83f9..c6c3b2b 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -181,7 +181,7 @@ Tensor make_tensor(const std::string &label,
 Tensor make_tensor_from_str(const std::string &s, SymmetryType symmetry) {
   std::smatch sm;
   auto const tensor_re =
-      std::regex("([a-zA-Z0-9]+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
+      std::regex("([a-zA-Z0-9_]+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
   auto m = std::regex_match(s, sm, tensor_re);
   if (not m) {
     throw std::runtime_error("\nCould not convert the string " + s +
-- 
2.43.0


From 7fd92af86afa84da42b4c252312b032ee5262f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 14/37] fix: read the normal ordering braces of terms with
 bosonic operators

expression("{ b+(p0) b-(p0) }") dropped the braces that are printed for a normal
ordered term.
---
 wicked/algebra/expression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 0814436..6385684 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -262,7 +262,7 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
     tensor_re = std::regex(R"(([a-zA-Z0-9_]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
     operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
     factor_re = std::regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
-    normal_ordered_re = std::regex(R"((?:\{(?:\s*a[+-]\([\w\d]+\))+\s*\}))");
+    normal_ordered_re = std::regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
   }
 
   auto tensors = findall(s, tensor_re);
-- 
2.43.0


From f9fa43ae8c20d3131d9c2279cfcb011433fa81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 15/37] fix: compile_einsum uses the tensor on the left-hand
 side of the equation

It raised an AttributeError for every left-hand side that is not a scalar.
---
 wicked/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index b60b9ac..36e4f5f 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -94,9 +94,9 @@ def compile_einsum(equation):
     tensor_label_string += "optimize='optimal')"
 
     if (lhs.tensors()[0].upper() != [] or lhs.tensors()[0].lower() != []): # If the lhs is not a scalar
-        left = rhs.tensors()[0].label()
+        left = lhs.tensors()[0].label()
         left += ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].upper()]) + ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].lower()])
-        res_indx = _get_unique_tensor_indices(rhs.tensors(), unused_indices, index_dict)
+        res_indx = _get_unique_tensor_indices(lhs.tensors()[0], unused_indices, index_dict)
         index_string += res_indx
     else: # If it's scalar, just return the label.
         left = lhs.tensors()[0].label()
-- 
2.43.0


From 93ee30cc392c9a46755023fd48f591ec37fb81e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 16/37] fix: gen_op(diagonal=False) also excludes diagonal
 blocks of mixed spaces

The annihilation spaces are listed in the reverse order of the creation spaces,
so the block 'o+ v+ v o' was kept.
---
 wicked/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index 36e4f5f..c12b851 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -45,7 +45,8 @@ def gen_op(label, rank, cre_spaces, ann_spaces, diagonal=True):
                 is_re_sorted = all(m[re[i]] >= m[re[i + 1]] for i in range(len(re) - 1))
                 if is_re_sorted:
                     if not diagonal:
-                        if le != re:
+                        # re is sorted in the opposite order of le
+                        if le != re[::-1]:
                             terms.append(
                                 " ".join([s + "+" for s in le]) + " " + " ".join(re)
                             )
-- 
2.43.0


From 3210333557f4e08ee19c40846c9c916ceda85139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 17/37] fix: do not merge a normal ordered term with one that
 is not

a+(v0) a-(o0) + { a+(v0) a-(o0) } became twice the first term.
---
 wicked/algebra/symbolic_term.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index ed04eef..16224bd 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -372,11 +372,19 @@ bool SymbolicTerm::operator<(const SymbolicTerm &other) const {
   if (tensors_ < other.tensors_) {
     return true;
   }
-  return operators_ < other.operators_;
+  if (operators_ < other.operators_) {
+    return true;
+  }
+  if (other.operators_ < operators_) {
+    return false;
+  }
+  // normal ordering is meaningful only in the presence of operators
+  return (nops() > 0) and (normal_ordered_ < other.normal_ordered_);
 }
 
 bool SymbolicTerm::operator==(const SymbolicTerm &other) const {
-  return (tensors_ == other.tensors_) and (operators_ == other.operators_);
+  return (tensors_ == other.tensors_) and (operators_ == other.operators_) and
+         ((nops() == 0) or (normal_ordered_ == other.normal_ordered_));
 }
 
 std::string SymbolicTerm::str() const {
-- 
2.43.0


From 7e0a187100b3dd8d18e00fc9bfc1a527a7bb1b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 18/37] fix: read rational numbers that do not fit in an int

make_rational and expression() could not read back coefficients printed by the
library (std::stoi throws out_of_range).
---
 wicked/helpers/rational.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 92be5e0..33e174c 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -227,7 +227,15 @@ rational make_rational_from_str(const std::string &s) {
   std::string numerator_str = sm[2];
   std::string division = sm[3];
   std::string denominator_str = sm[4];
-  int numerator = 1, denominator = 1;
+  rational_t numerator = 1, denominator = 1;
+  // convert a string of digits of any length
+  auto to_integer = [](const std::string &digits) {
+    rational_t result = 0;
+    for (char d : digits) {
+      result = 10 * result + (d - '0');
+    }
+    return result;
+  };
   if (sign == "-") {
     numerator *= -1;
   }
@@ -239,10 +247,10 @@ rational make_rational_from_str(const std::string &s) {
                                " to a rational object");
   }
   if (numerator_str.size() > 0) {
-    numerator *= std::stoi(numerator_str);
+    numerator *= to_integer(numerator_str);
   }
   if ((division == "/") and (denominator_str.size() > 0)) {
-    denominator *= std::stoi(denominator_str);
+    denominator *= to_integer(denominator_str);
   }
   return rational(numerator, denominator);
 }
-- 
2.43.0


From 7f4869276b2b607b5ceaf21a9e7dfda619b1a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 19/37] fix: print a scalar Term with coefficient minus one as
 -1

---
 wicked/algebra/term.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wicked/algebra/term.cc b/wicked/algebra/term.cc
index c301a47..b520146 100644
--- a/wicked/algebra/term.cc
+++ b/wicked/algebra/term.cc
@@ -32,6 +32,8 @@ std::string Term::str() const {
   std::string coeff_str = coefficient_.str();
   if ((term_str == "") and (coeff_str == "")) {
     return "1";
+  } else if ((term_str == "") and (coeff_str == "-")) {
+    return "-1";
   } else if ((term_str == "") and (coeff_str != "")) {
     return coeff_str;
   } else if ((term_str != "") and (coeff_str == "")) {
-- 
2.43.0


From 4bb3c0bab7fa343bd2da634c0abe6beebbc0db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 20/37] fix: integer_partitions(1, 0) is empty

---
 wicked/helpers/combinatorics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/helpers/combinatorics.cc b/wicked/helpers/combinatorics.cc
index c6c8740..1e2951c 100644
--- a/wicked/helpers/combinatorics.cc
+++ b/wicked/helpers/combinatorics.cc
@@ -83,7 +83,7 @@ std::vector<std::vector<int>> integer_partitions(int n, int maxlen) {
   } else if (n == 0) {
     // Special case not handled by ZS2
     partitions.push_back({});
-  } else if (n == 1) {
+  } else if (n == 1 and maxlen >= 1) {
     // Special case not handled by ZS2
     partitions.push_back({1});
   }
-- 
2.43.0


From 91eacb5ee1e8a1a5d54be8694a13e3f4235f0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 21/37] fix: do not render bosonic operators as fermionic ones
 in LaTeX

---
 wicked/algebra/symbolic_term.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 16224bd..96feaca 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -413,7 +413,12 @@ std::string SymbolicTerm::latex() const {
   if (nops()) {
     if (normal_ordered())
       str_vec.push_back("\\{");
-    if (is_creation_then_annihilation()) {
+    // the compact notation is used only for fermionic operators
+    const bool all_fermions =
+        std::all_of(operators_.begin(), operators_.end(), [](const auto &op) {
+          return op.field_type() == FieldType::Fermion;
+        });
+    if (all_fermions and is_creation_then_annihilation()) {
       std::vector<std::string> str_vec_cre;
       std::vector<std::string> str_vec_ann;
       for (const auto &op : operators_) {
-- 
2.43.0


From c21e1f3bf2991ada0012da368aba2680dd17d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 22/37] fix: add2 of an operator expression to itself

---
 wicked/diagrams/operator_expression.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/operator_expression.cc b/wicked/diagrams/operator_expression.cc
index 62996fa..a42ca3c 100644
--- a/wicked/diagrams/operator_expression.cc
+++ b/wicked/diagrams/operator_expression.cc
@@ -15,7 +15,9 @@ OperatorExpression::OperatorExpression(
 }
 
 void OperatorExpression::add2(const OperatorExpression &expr, scalar_t factor) {
-  for (const auto &vec_dop_factor : expr.terms()) {
+  // loop over a copy of the terms: expr may be this expression
+  const auto terms = expr.terms();
+  for (const auto &vec_dop_factor : terms) {
     add(vec_dop_factor.first, factor * vec_dop_factor.second);
   }
 }
-- 
2.43.0


From 15badb27c4914ab10bb15ec22d242266b24508e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 23/37] fix: compile equations with a scalar right-hand side

---
 wicked/algebra/equation.cc | 14 +++++++++++---
 wicked/utils.py            |  3 +++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index b1f2d4f..1a047d7 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -95,7 +95,11 @@ std::string Equation::compile(const std::string &format) const {
   if (format == "ambit") {
     std::vector<std::string> str_vec;
     str_vec.push_back(lhs_.compile(format) + " += " + factor_.compile(format));
-    str_vec.push_back(rhs_.compile(format));
+    // a scalar right-hand side (no tensors) contributes only its factor
+    const std::string rhs_str = rhs_.compile(format);
+    if (not rhs_str.empty()) {
+      str_vec.push_back(rhs_str);
+    }
     return (join(str_vec, " * ") + ";");
   }
 
@@ -112,8 +116,12 @@ std::string Equation::compile(const std::string &format) const {
     }
 
     str_vec.push_back(lhs_tensor_label +
-                      " += " + std::format("{:.9f}", rhs_factor().to_double()) +
-                      " * np.einsum(");
+                      " += " + std::format("{:.9f}", rhs_factor().to_double()));
+    // a scalar right-hand side (no tensors) contributes only its factor
+    if (rhs().tensors().empty()) {
+      return join(str_vec, "");
+    }
+    str_vec.push_back(" * np.einsum(");
 
     std::map<std::string, std::string> index_map;
     std::vector<std::string> unused_indices = {
diff --git a/wicked/utils.py b/wicked/utils.py
index c12b851..9f0e1e5 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -102,6 +102,9 @@ def compile_einsum(equation):
     else: # If it's scalar, just return the label.
         left = lhs.tensors()[0].label()
 
+    if not rhs.tensors(): # A scalar right-hand side contributes only its factor.
+        return left + f" += {float(factor):+.8f}"
+
     einsum_string = left \
         + ' ' \
         + f"+= {float(factor):+.8f} * np.einsum('"\
-- 
2.43.0


From 1ff6afbf5e1f0fab07b500cd18ed9f7ad293539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 24/37] fix: compile_einsum with multi-character or too few
 index names

---
 wicked/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index 9f0e1e5..1ceece9 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -62,6 +62,8 @@ def compile_einsum(equation):
     Turns a Wick&d equation (wicked._wicked.Equation) like H^{c0,a0}_{a1,a2} += 1/4 T2^{c0,a0}_{a3,a4} V^{a5,a6}_{a1,a2} eta1^{a4}_{a6} eta1^{a3}_{a5}
     into the einsum code string "H_caaa += +0.25000000 * np.einsum('iuvw,xyzr,wr,vz->iuxy', T2['caaa'], V['aaaa'], eta1, eta1, optimize='optimal')"
     """
+    import string
+
     def _get_unique_tensor_indices(tensor, unused_indices, index_dict):
         indstr = ''
         for i in tensor.upper()+tensor.lower():
@@ -69,7 +71,13 @@ def compile_einsum(equation):
             if index_dict.get(i):
                 indstr += index_dict[i]
             else:
-                index = unused_indices[i[0]].pop(0)
+                # use the first free name of this space or, when there are no
+                # more names, any free letter. einsum wants one-letter indices
+                used = set(index_dict.values())
+                names = unused_indices[i[0]] + list(reversed(string.ascii_letters))
+                index = next(
+                    x for x in names if x in string.ascii_letters and len(x) == 1 and x not in used
+                )
                 index_dict[i] = index
                 indstr += index
         
-- 
2.43.0


From 688eb9f9210967fb339661eade84464840cc9951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 25/37] fix: render scalar terms with coefficient one or minus
 one in LaTeX

---
 wicked/algebra/expression.cc | 9 ++++++++-
 wicked/algebra/term.cc       | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 6385684..4817099 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -147,7 +147,14 @@ std::string Expression::latex(const std::string &sep) const {
   std::vector<std::string> str_vec;
   bool first = true;
   for (const auto &[term, factor] : terms_) {
-    str_vec.push_back(factor.latex(first) + ' ' + term.latex());
+    const std::string factor_str = factor.latex(first);
+    const std::string term_str = term.latex();
+    // the latex form of 1 and -1 is just a sign
+    if ((term_str == "") and ((factor_str == "+") or (factor_str == "-"))) {
+      str_vec.push_back(factor_str + "1");
+    } else {
+      str_vec.push_back(factor_str + ' ' + term_str);
+    }
     first = false;
   }
   return join(str_vec, sep);
diff --git a/wicked/algebra/term.cc b/wicked/algebra/term.cc
index b520146..9b4f3c1 100644
--- a/wicked/algebra/term.cc
+++ b/wicked/algebra/term.cc
@@ -43,7 +43,13 @@ std::string Term::str() const {
 }
 
 std::string Term::latex() const {
-  return coefficient_.latex(true) + " " + SymbolicTerm::latex();
+  const std::string coeff_str = coefficient_.latex(true);
+  const std::string term_str = SymbolicTerm::latex();
+  // the latex form of 1 and -1 is just a sign
+  if ((term_str == "") and ((coeff_str == "+") or (coeff_str == "-"))) {
+    return coeff_str + "1";
+  }
+  return coeff_str + " " + term_str;
 }
 
 std::ostream &operator<<(std::ostream &os, const Term &term) {
-- 
2.43.0


From a4925149fa13ddd8fd02370f125f4b5f05d3ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:23 +0000
Subject: [PATCH 26/37] fix: do not overflow n! in the combinatorial factor of
 a contraction

---
 wicked/diagrams/wick_theorem_process_contractions.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index eef4430..7fa90fa 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -554,7 +554,10 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
     contraction_count[contraction] += 1;
   }
   for (const auto &kv : contraction_count) {
-    factor /= scalar_t(rational_t(factorial(kv.second)));
+    // divide by n! one factor at a time: n! does not fit in 64 bits for n > 20
+    for (int n = 2; n <= kv.second; ++n) {
+      factor /= scalar_t(n);
+    }
   }
   return factor;
 }
-- 
2.43.0


From 1155619773d143cde0493bb8fef2d7592386ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:06 +0000
Subject: [PATCH 27/37] fix: size the list of elementary contractions to the
 product

The backtracking kept at most 100 simultaneous elementary contractions; with
more it wrote past the end of its list.
---
 wicked/diagrams/wick_theorem_composite_contractions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_composite_contractions.cc b/wicked/diagrams/wick_theorem_composite_contractions.cc
index 8e0159f..d7aaaad 100644
--- a/wicked/diagrams/wick_theorem_composite_contractions.cc
+++ b/wicked/diagrams/wick_theorem_composite_contractions.cc
@@ -25,7 +25,8 @@ void WickTheorem::generate_composite_contractions(const OperatorProduct &ops,
 
   // this vector is used in the backtracking algorithm to hold the list of
   // elementary contractions
-  std::vector<int> a(100, -1);
+  // (each of them removes at least two second-quantized operators)
+  std::vector<int> a(ops.num_ops() / 2 + 1, -1);
   // create a vector that keeps track of the free (uncontracted graph matrices)
   std::vector<GraphMatrix> free_graph_matrix_vec;
   for (const auto &op : ops) {
-- 
2.43.0


From 26d06b8667c7103514ed6169f5aa53c71e183b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 28/37] fix: iterate over copies of the terms of an expression

Iterating handed out references to the keys of the map of terms, so that
changing a term read from an expression changed the expression (and
broke the order of its map).
---
 wicked/api/expression_api.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wicked/api/expression_api.cc b/wicked/api/expression_api.cc
index 04f42e4..1a75ef0 100644
--- a/wicked/api/expression_api.cc
+++ b/wicked/api/expression_api.cc
@@ -59,7 +59,10 @@ void export_Expression(py::module &m) {
           py::is_operator()) // Bind in-place addition with Term
       .def(
           "__iter__",
-          [](Expression &e) { return py::make_iterator(e.begin(), e.end()); },
+          [](Expression &e) {
+            return py::make_iterator<py::return_value_policy::copy>(e.begin(),
+                                                                    e.end());
+          },
           py::keep_alive<0, 1>())
       .def("dot", &Expression::dot, "rhs"_a)
       .def("norm", &Expression::norm)
-- 
2.43.0


From ab382b61e2c16bfa0bd35c81bc8c843f2268c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:14 +0000
Subject: [PATCH 29/37] fix: do not truncate binomial coefficients to an int in
 a contraction

---
 wicked/helpers/combinatorics.cc | 4 ++--
 wicked/helpers/combinatorics.h  | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/combinatorics.cc b/wicked/helpers/combinatorics.cc
index 1e2951c..ec16cbc 100644
--- a/wicked/helpers/combinatorics.cc
+++ b/wicked/helpers/combinatorics.cc
@@ -8,7 +8,7 @@ long long int factorial(int n) {
   return result;
 }
 
-long long int binomial(int n, int k) {
+rational_t binomial(int n, int k) {
   if (k > n)
     return 0;
   if (k * 2 > n)
@@ -16,7 +16,7 @@ long long int binomial(int n, int k) {
   if (k == 0)
     return 1;
 
-  long long int result = n;
+  rational_t result = n;
   for (long long int i = 2; i <= k; ++i) {
     result *= (n - i + 1);
     result /= i;
diff --git a/wicked/helpers/combinatorics.h b/wicked/helpers/combinatorics.h
index 4c55e99..2abfb1f 100644
--- a/wicked/helpers/combinatorics.h
+++ b/wicked/helpers/combinatorics.h
@@ -2,11 +2,13 @@
 
 #include <vector>
 
+#include "rational.h"
+
 /// Compute the factorial of an integer
 long long int factorial(int n);
 
 /// Compute a binomial coefficient
-long long int binomial(int n, int k);
+rational_t binomial(int n, int k);
 
 /// Generate all the integer partitions of the integer n
 /// For example, for n = 4 this code generates
-- 
2.43.0


From 02309c6ab6399d065926fdba474533a532524aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:14 +0000
Subject: [PATCH 30/37] fix: bound the number of threads held by a
 multi-threaded contraction

---
 .../wick_theorem_process_contractions.cc      | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index 7fa90fa..2aa2af8 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <deque>
 #include <format>
 #include <future>
 #include <iomanip>
@@ -115,12 +116,21 @@ Expression WickTheorem::process_contractions_threads(scalar_t factor,
   PRINT(PrintLevel::Summary,
         std::cout << "\n- Step 3. Processing contractions" << std::endl;)
 
-  // Vector to store futures of each async call
-  std::vector<std::future<Expression>> futures;
+  // Stores the futures of the async calls whose results are not combined yet.
+  // Each task holds a thread until its result is taken, so bound their number
+  constexpr size_t max_futures = 512;
+  std::deque<std::future<Expression>> futures;
   int ops_rank = ops.num_ops();
 
+  // Combine the results of all futures into a single Expression
+  Expression result;
+
   // Launch async tasks for each contraction
   for (const auto &contraction_vec : contractions_) {
+    if (futures.size() == max_futures) {
+      result += futures.front().get();
+      futures.pop_front();
+    }
     futures.push_back(
         std::async(std::launch::async, [this, &ops, &contraction_vec, factor,
                                         minrank, maxrank, ops_rank] {
@@ -129,16 +139,13 @@ Expression WickTheorem::process_contractions_threads(scalar_t factor,
         }));
   }
 
-  // Combine the results of all futures into a single Expression
-  Expression result;
-
   // Use std::accumulate to sum all the results
   for (auto &fut : futures) {
     result += fut.get(); // Get the result from the future and add to the result
   }
 
   // Check if any contractions were processed
-  if (futures.empty()) {
+  if (contractions_.empty()) {
     PRINT(PrintLevel::Summary, std::cout << "\n  No contractions generated\n"
                                          << std::endl;)
   }
-- 
2.43.0


From 3cb17414c57aa199247ab2af3284064d449d6e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:46 +0000
Subject: [PATCH 31/37] fix: raise an error when a rational number overflows

---
 wicked/helpers/rational.cc | 6 +++++-
 wicked/helpers/rational.h  | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 33e174c..60396b8 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -197,7 +197,11 @@ void rational::reduce() {
   }
 // find the gcd
 #if USE_BOOST_1024_INT
-  rational_t gcd = boost::gcd(numerator_, denominator_);
+  // (of unchecked integers: the intermediate numbers of boost's algorithm can
+  // be longer than its arguments)
+  using unchecked_t = boost::multiprecision::int1024_t;
+  rational_t gcd(
+      boost::gcd(unchecked_t(numerator_), unchecked_t(denominator_)));
 #else
   rational_t gcd = std::gcd(numerator_, denominator_);
 #endif
diff --git a/wicked/helpers/rational.h b/wicked/helpers/rational.h
index 4141b1b..e693854 100644
--- a/wicked/helpers/rational.h
+++ b/wicked/helpers/rational.h
@@ -10,7 +10,8 @@
 #if USE_BOOST_1024_INT
 #include <boost/multiprecision/cpp_int.hpp>
 #include <boost/rational.hpp>
-using rational_t = boost::multiprecision::int1024_t;
+/// checked: an overflow throws std::overflow_error instead of wrapping around
+using rational_t = boost::multiprecision::checked_int1024_t;
 #else
 using rational_t = long long int;
 #endif
-- 
2.43.0


From 3e592ba2131a3e4b1defd1e8143af580fe7845df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:58 +0000
Subject: [PATCH 32/37] fix: return the numerator and denominator of any
 rational number

---
 wicked/api/rational_api.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/wicked/api/rational_api.cc b/wicked/api/rational_api.cc
index e440a39..6a3d0cd 100644
--- a/wicked/api/rational_api.cc
+++ b/wicked/api/rational_api.cc
@@ -1,3 +1,5 @@
+#include <sstream>
+
 #include <pybind11/pybind11.h>
 
 #include "diagrams/operator.h"
@@ -7,6 +9,17 @@
 namespace py = pybind11;
 using namespace pybind11::literals;
 
+/// convert to a Python integer, which holds a number of any size
+py::object to_python_int(const rational_t &n) {
+  std::stringstream ss;
+  ss << n;
+  PyObject *result = PyLong_FromString(ss.str().c_str(), nullptr, 10);
+  if (result == nullptr) {
+    throw py::error_already_set();
+  }
+  return py::reinterpret_steal<py::object>(result);
+}
+
 void export_rational(py::module &m) {
 
   py::class_<rational, std::shared_ptr<rational>>(m, "rational")
@@ -16,13 +29,9 @@ void export_rational(py::module &m) {
       .def("latex", &rational::latex)
       .def("compile", &rational::compile)
       .def("numerator",
-           [](const rational &r) {
-             return static_cast<long long int>(r.numerator());
-           })
+           [](const rational &r) { return to_python_int(r.numerator()); })
       .def("denominator",
-           [](const rational &r) {
-             return static_cast<long long int>(r.denominator());
-           })
+           [](const rational &r) { return to_python_int(r.denominator()); })
       .def("__float__", &rational::to_double)
       .def("__eq__",
            [](const rational &lhs, const rational &rhs) { return lhs == rhs; })
-- 
2.43.0


From ca8d1be684a1471025d656bc1b0259ce7b43fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:26 +0000
Subject: [PATCH 33/37] fix: refuse to compile an einsum with more than 52
 distinct indices

---
 wicked/algebra/equation.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index 1a047d7..14fec81 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -56,6 +56,10 @@ std::string get_unique_index(const std::string &s,
   // is this index (something like "i" or "o2") in the map? If not, figure out
   // what it corresponds to.
   if (index_map.count(s) == 0) {
+    if (unused_indices.empty()) {
+      throw std::runtime_error("Equation::compile() - einsum has only 52 "
+                               "letters for the indices of an equation");
+    }
     // a character
     if (s.size() == 1) {
       if (std::find(unused_indices.begin(), unused_indices.end(), s) !=
-- 
2.43.0


From 10c30462ead79eab1530fd7cc1046155ebac81c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:26 +0000
Subject: [PATCH 34/37] fix: check positions of orbital spaces

Positions outside the registry (or kept by objects made before a reset) were read out of bounds.
---
 wicked/algebra/index.cc         |  2 +-
 wicked/algebra/symbolic_term.cc |  2 +-
 wicked/algebra/tensor.cc        |  4 ++--
 wicked/helpers/orbital_space.cc | 18 ++++++++++++++----
 wicked/helpers/orbital_space.h  |  3 +++
 5 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/wicked/algebra/index.cc b/wicked/algebra/index.cc
index 5b1f31e..285d35f 100644
--- a/wicked/algebra/index.cc
+++ b/wicked/algebra/index.cc
@@ -106,7 +106,7 @@ index_map_t remap(const std::vector<Index> &idx_vec1,
 std::vector<int> num_indices_per_space(const std::vector<Index> &indices) {
   std::vector<int> counter(orbital_subspaces->num_spaces());
   for (const auto &index : indices) {
-    counter[index.space()] += 1;
+    counter.at(index.space()) += 1;
   }
   return counter;
 }
diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 96feaca..91fff74 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -183,7 +183,7 @@ scalar_t SymbolicTerm::canonicalize() {
 
   // a. Assign indices to free operators
   for (const auto &sqop : operators_) {
-    tens_index_count[sqop.index().space()] += 1;
+    tens_index_count.at(sqop.index().space()) += 1;
     is_operator_index[sqop.index()] = true;
   }
 
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index c6c3b2b..0fe68fb 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -16,10 +16,10 @@ std::vector<std::pair<int, int>> Tensor::signature() const {
   std::vector<std::pair<int, int>> result(orbital_subspaces->num_spaces(),
                                           std::pair(0, 0));
   for (const Index &idx : upper_) {
-    result[idx.space()].first += 1;
+    result.at(idx.space()).first += 1;
   }
   for (const Index &idx : lower_) {
-    result[idx.space()].second += 1;
+    result.at(idx.space()).second += 1;
   }
   return result;
 }
diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 6a1aaa0..e831a10 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -123,7 +123,17 @@ std::map<std::string, std::vector<std::string>> OrbitalSpaceInfo::to_dict() cons
   return d;
 }
 
-char OrbitalSpaceInfo::label(int pos) const { return space_info_[pos].label(); }
+const OrbitalSpace &OrbitalSpaceInfo::space(int pos) const {
+  if ((pos < 0) or (pos >= static_cast<int>(space_info_.size()))) {
+    throw std::runtime_error("\n  Orbital space number " +
+                             std::to_string(pos) + " is not defined (" +
+                             std::to_string(space_info_.size()) +
+                             " spaces are defined).");
+  }
+  return space_info_[pos];
+}
+
+char OrbitalSpaceInfo::label(int pos) const { return space(pos).label(); }
 
 const std::string OrbitalSpaceInfo::index_label(int pos, int idx) const {
   const std::vector<std::string> &index_labels = indices(pos);
@@ -134,11 +144,11 @@ const std::string OrbitalSpaceInfo::index_label(int pos, int idx) const {
 }
 
 SpaceType OrbitalSpaceInfo::space_type(int pos) const {
-  return space_info_[pos].space_type();
+  return space(pos).space_type();
 }
 
 FieldType OrbitalSpaceInfo::field_type(int pos) const {
-  return space_info_[pos].field_type();
+  return space(pos).field_type();
 }
 
 const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
@@ -146,7 +156,7 @@ const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
 }
 
 const std::vector<std::string> &OrbitalSpaceInfo::indices(int pos) const {
-  return space_info_[pos].indices();
+  return space(pos).indices();
 }
 
 int OrbitalSpaceInfo::label_to_space(char label) const {
diff --git a/wicked/helpers/orbital_space.h b/wicked/helpers/orbital_space.h
index 35e9bdc..b3217e1 100644
--- a/wicked/helpers/orbital_space.h
+++ b/wicked/helpers/orbital_space.h
@@ -85,6 +85,9 @@ public:
   std::map<std::string, std::vector<std::string>> to_dict() const;
 
 private:
+  /// The space at a given position (throws if there is no such space)
+  const OrbitalSpace &space(int pos) const;
+
   /// Vector of spaces
   std::vector<OrbitalSpace> space_info_;
 
-- 
2.43.0


From f386a9feb5a7eb78504ce5a34849d2f21a6b4d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:26 +0000
Subject: [PATCH 35/37] fix: refuse operators with a list of the wrong length
 or negative numbers

---
 wicked/diagrams/graph_matrix.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wicked/diagrams/graph_matrix.cc b/wicked/diagrams/graph_matrix.cc
index 12ba369..4eeac9b 100644
--- a/wicked/diagrams/graph_matrix.cc
+++ b/wicked/diagrams/graph_matrix.cc
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cassert>
 #include <numeric>
 #include <stdexcept>
@@ -20,6 +21,16 @@ void GraphMatrix::check_num_spaces() {
 GraphMatrix::GraphMatrix(const std::vector<int> &cre,
                          const std::vector<int> &ann) {
   check_num_spaces();
+  const size_t num_spaces = orbital_subspaces->num_spaces();
+  const auto negative = [](int n) { return n < 0; };
+  if ((cre.size() != num_spaces) or (ann.size() != num_spaces) or
+      std::any_of(cre.begin(), cre.end(), negative) or
+      std::any_of(ann.begin(), ann.end(), negative)) {
+    throw std::runtime_error(
+        "GraphMatrix: the number of creation and annihilation operators must "
+        "be given for each of the " +
+        std::to_string(num_spaces) + " orbital spaces");
+  }
   for (int i = 0; i < orbital_subspaces->num_spaces(); i++) {
     elements_[i] = std::make_pair(cre[i], ann[i]);
   }
-- 
2.43.0


From 84bb0044b7c835ffe5c8eec950e8135dd348eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:26 +0000
Subject: [PATCH 36/37] fix: refuse to compile equations without a single
 left-hand tensor or with operators

---
 wicked/algebra/equation.cc | 10 ++++++++++
 wicked/utils.py            |  7 +++++++
 2 files changed, 17 insertions(+)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index 14fec81..dd13d27 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -96,6 +96,16 @@ get_unique_tensor_indices(const Tensor &t,
 }
 
 std::string Equation::compile(const std::string &format) const {
+  // the code adds a product of tensors to one tensor
+  if ((format == "ambit") or (format == "einsum")) {
+    if ((lhs().tensors().size() != 1) or (lhs().nops() > 0) or
+        (rhs().nops() > 0)) {
+      throw std::runtime_error(
+          "Equation::compile() - the code requires an equation with one "
+          "tensor on the left-hand side and no operators");
+    }
+  }
+
   if (format == "ambit") {
     std::vector<std::string> str_vec;
     str_vec.push_back(lhs_.compile(format) + " += " + factor_.compile(format));
diff --git a/wicked/utils.py b/wicked/utils.py
index 1ceece9..c9878d7 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -91,6 +91,13 @@ def compile_einsum(equation):
     rhs = equation.rhs()
     factor = equation.rhs_factor()
 
+    # the code adds a product of tensors to one tensor
+    if len(lhs.tensors()) != 1 or len(lhs.ops()) > 0 or len(rhs.ops()) > 0:
+        raise RuntimeError(
+            "compile_einsum() requires an equation with one tensor on the "
+            "left-hand side and no operators"
+        )
+
     index_string = ''  # holds the expression part of the einsum contraction, e.g., iuvw,xyzr,wr,vz->iuxy 
     tensor_label_string = '' # holds the tensor label part of the einsum contraction, e.g., T2['caaa'], V['aaaa'], eta1, eta1, optimize='optimal')
 
-- 
2.43.0


From 41635d809aefd712555b510bbc7da3d5766c6b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:22 +0000
Subject: [PATCH 37/37] fix: iterate over a copy of the terms of an expression

Changing an expression while iterating over it used freed memory.
---
 wicked/api/expression_api.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wicked/api/expression_api.cc b/wicked/api/expression_api.cc
index 1a75ef0..58b7f3a 100644
--- a/wicked/api/expression_api.cc
+++ b/wicked/api/expression_api.cc
@@ -59,11 +59,15 @@ void export_Expression(py::module &m) {
           py::is_operator()) // Bind in-place addition with Term
       .def(
           "__iter__",
-          [](Expression &e) {
-            return py::make_iterator<py::return_value_policy::copy>(e.begin(),
-                                                                    e.end());
-          },
-          py::keep_alive<0, 1>())
+          [](const Expression &e) {
+            // iterate over a copy of the terms: the expression may change
+            // before the iteration ends
+            py::list terms;
+            for (const auto &term : e.terms()) {
+              terms.append(term);
+            }
+            return py::iter(terms);
+          })
       .def("dot", &Expression::dot, "rhs"_a)
       .def("norm", &Expression::norm)
       .def("latex", &Expression::latex, "sep"_a = " \\\\ \n")
-- 
2.43.0

