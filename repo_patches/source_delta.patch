From 0f859fd923b7c04d6ea467cb2f91327bea8d3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 01/16] fix: forward-mode erf must multiply its derivative by
 the incoming adjoint

---
 include/fastad_bits/forward/core/forward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/forward/core/forward.hpp b/include/fastad_bits/forward/core/forward.hpp
index 1e9aa5a..68de289 100644
--- a/include/fastad_bits/forward/core/forward.hpp
+++ b/include/fastad_bits/forward/core/forward.hpp
@@ -134,7 +134,7 @@ FORWARD_UNARY_FUNC(sqrt, tmp, x.get_adjoint() / (2 * tmp),
         auto tmp = std::sqrt(x.get_value());)
 // ad::erf(core::ADForward)
 FORWARD_UNARY_FUNC(erf, std::erf(x.get_value()), 
-        two_over_sqrt_pi * std::exp(-t_sq), 
+        two_over_sqrt_pi * std::exp(-t_sq) * x.get_adjoint(), 
         static constexpr double two_over_sqrt_pi =
                 1.1283791670955126;
         auto t_sq = x.get_value() * x.get_value();)
-- 
2.43.0


From 7cf7a7422e854f28d424ec07d7c87c15d07e5d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 02/16] fix: transpose of a constant must hold a matrix, not a
 scalar

---
 include/fastad_bits/reverse/core/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/transpose.hpp b/include/fastad_bits/reverse/core/transpose.hpp
index 47d4839..be59583 100644
--- a/include/fastad_bits/reverse/core/transpose.hpp
+++ b/include/fastad_bits/reverse/core/transpose.hpp
@@ -70,7 +70,7 @@ inline auto transpose(const T &x) {
     // optimization for when expression is constant
     if constexpr (util::is_constant_v<expr_t>) {
         static_assert(!util::is_scl_v<expr_t>);
-        using var_t = util::constant_var_t<value_t, ad::scl>;
+        using var_t = util::constant_var_t<value_t, ad::mat>;
         var_t out = expr.feval().transpose();
         return ad::constant(out);
     } else {
-- 
2.43.0


From d9222fed2bbe694e30694a35649055097ef41b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:14 +0000
Subject: [PATCH 03/16] fix: sigmoid, sinh, cosh and tanh of scalar expressions
 do not compile

---
 include/fastad_bits/reverse/core/unary.hpp | 28 ++++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/fastad_bits/reverse/core/unary.hpp b/include/fastad_bits/reverse/core/unary.hpp
index 653124c..c671377 100644
--- a/include/fastad_bits/reverse/core/unary.hpp
+++ b/include/fastad_bits/reverse/core/unary.hpp
@@ -273,26 +273,34 @@ UNARY_STRUCT(Erf,
 UNARY_STRUCT(Sigmoid, 
              USING_STD_AD_EIGEN(exp);
              return 1/(1+exp(-x));, 
-             static_cast<void>(x); 
+             static_cast<void>(f); 
+             USING_STD_AD_EIGEN(exp);
              return seed * exp(-x)/((exp(-x)+1)*(exp(-x)+1)););
 
 // sinh
 UNARY_STRUCT(Sinh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::sinh(x);, 
+             using std::sinh;
+             using Eigen::sinh;
+             return sinh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::cosh(x)););
+             using std::cosh;
+             using Eigen::cosh;
+             return seed *(cosh(x)););
 // cosh
 UNARY_STRUCT(Cosh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::cosh(x);, 
+             using std::cosh;
+             using Eigen::cosh;
+             return cosh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::sinh(x)););			 
+             using std::sinh;
+             using Eigen::sinh;
+             return seed *(sinh(x)););			 
 // tanh
 UNARY_STRUCT(Tanh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::tanh(x);, 
-             static_cast<void>(f); 
+             using std::tanh;
+             using Eigen::tanh;
+             return tanh(x);, 
+             static_cast<void>(x); 
              return seed *(1-f*f););
 			 
 // operator- (IMPORTANT TO DECLARE IN core)
-- 
2.43.0


From bd234f0678c6051ec7095cc6b21dc01284b1a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:14 +0000
Subject: [PATCH 04/16] fix: binary nodes with operands of different value
 types do not compile

---
 include/fastad_bits/reverse/core/binary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index a738294..ffb7f4c 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -37,7 +37,7 @@ template <class Binary
         , class LeftExprType
         , class RightExprType>
 struct BinaryNode:
-    ValueAdjView<typename util::expr_traits<LeftExprType>::value_t,
+    ValueAdjView<util::common_value_t<LeftExprType, RightExprType>,
                  util::max_shape_t<typename util::shape_traits<LeftExprType>::shape_t,
                                    typename util::shape_traits<RightExprType>::shape_t>
                 >,
-- 
2.43.0


From 5be2c3561e616aef30f588629b3b264aae649251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:14 +0000
Subject: [PATCH 05/16] fix: prod of elements as right side of an assignment
 writes past its adjoint cache

---
 include/fastad_bits/reverse/core/prod.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 12621d1..263b273 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -229,13 +229,15 @@ public:
 
     util::SizePack bind_cache_size() const 
     { 
+        // adjoint cache is not part of the view of this node
         return expr_.bind_cache_size() + 
+                util::SizePack(0, adj_cache_.size()) +
                 single_bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
     { 
-        return {this->size(), expr_.size()}; 
+        return {this->size(), 0}; 
     }
 
 private:
-- 
2.43.0


From 23444976924b75eacc855a1a68afe58d322e72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:14 +0000
Subject: [PATCH 06/16] fix: if_else nested in another expression reads a value
 it never bound

---
 include/fastad_bits/reverse/core/if_else.hpp | 22 ++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/if_else.hpp b/include/fastad_bits/reverse/core/if_else.hpp
index beade43..bc4291d 100644
--- a/include/fastad_bits/reverse/core/if_else.hpp
+++ b/include/fastad_bits/reverse/core/if_else.hpp
@@ -75,10 +75,14 @@ public:
         assert(if_expr.cols() == else_expr.cols());
     }
 
-    const auto& feval()
+    const var_t& feval()
     {
-        return cond_expr_.feval() ? 
-                if_expr_.feval() : else_expr_.feval();
+        if (cond_expr_.feval()) {
+            this->get() = if_expr_.feval();
+        } else {
+            this->get() = else_expr_.feval();
+        }
+        return this->get();
     }
 
     template <class T>
@@ -95,18 +99,24 @@ public:
     {
         begin = cond_expr_.bind_cache(begin);
         begin = if_expr_.bind_cache(begin);
-        return else_expr_.bind_cache(begin);
+        begin = else_expr_.bind_cache(begin);
+        auto adj = begin.adj;
+        begin.adj = nullptr;
+        begin = value_adj_view_t::bind(begin);
+        begin.adj = adj;
+        return begin;
     }
 
     util::SizePack bind_cache_size() const 
     { 
-        return cond_expr_.bind_cache_size() +
+        return single_bind_cache_size() +
+                cond_expr_.bind_cache_size() +
                 if_expr_.bind_cache_size() + 
                 else_expr_.bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
-    { return {0,0}; }
+    { return {this->size(), 0}; }
 
 private:
     cond_t cond_expr_;
-- 
2.43.0


From 7fc2381f9c75f89a133c24105b9932d54fec5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:54 +0000
Subject: [PATCH 07/16] fix: combining a scalar with an empty vector or matrix
 gives a one-element result

---
 include/fastad_bits/reverse/core/binary.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index ffb7f4c..353a611 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -77,8 +77,8 @@ public:
     BinaryNode(const left_t& expr_lhs, 
                const right_t& expr_rhs)
         : value_adj_view_t(nullptr, nullptr,
-                       std::max(expr_lhs.rows(), expr_rhs.rows()),
-                       std::max(expr_lhs.cols(), expr_rhs.cols()))
+                       util::is_scl_v<left_t> ? expr_rhs.rows() : expr_lhs.rows(),
+                       util::is_scl_v<left_t> ? expr_rhs.cols() : expr_lhs.cols())
         , expr_lhs_(expr_lhs)
         , expr_rhs_(expr_rhs)
     {
-- 
2.43.0


From bd185f01bc31bbc0ae49765da86a863f909e951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:06 +0000
Subject: [PATCH 08/16] fix: result of an in-place operator changes during
 back-evaluation

The node viewed the values of the variable it modifies, and back-evaluation
restores the old values there, so a parent that read the result afterwards
(for instance v * (u += v)) used the old value and got a wrong gradient.
---
 include/fastad_bits/reverse/core/eq.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 5503a89..7a625b1 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -271,29 +271,34 @@ public:
     }
 
     /**
-     * Binds itself to view the same values as the variable viewer,
+     * Binds itself to view the same adjoints as the variable viewer,
      * binds the RHS expression, but DOES NOT bind the root of RHS to LHS like EqNode.
      * Needs to cache the previous LHS value, so we store a member value viewer to bind.
+     * The result needs its own values (not those of the variable viewer), because
+     * back-evaluation restores the previous LHS value and
+     * other expressions may still need the result at that point.
      *
      * @return  next pointer not bound by expression or itself.
      */
     ptr_pack_t bind_cache(ptr_pack_t begin)
     {
-        value_adj_view_t::bind({var_view_.data(), var_view_.data_adj()});
         begin = expr_.bind_cache(begin);
         begin = cache_.bind(begin);
+        begin.val = value_adj_view_t::bind({begin.val, var_view_.data_adj()}).val;
         return begin;
     }
 
     util::SizePack bind_cache_size() const 
     {
+        util::SizePack cache_size = {cache_.size(), cache_.size()};
         return single_bind_cache_size() + 
+                cache_size +
                 expr_.bind_cache_size(); 
     }
 
     util::SizePack single_bind_cache_size() const
     {
-        return {cache_.size(), cache_.size()}; 
+        return {this->size(), 0}; 
     }
 
 private:
-- 
2.43.0


From f0fa7a3f17be6637c26e5a91347f33555718c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:14 +0000
Subject: [PATCH 09/16] fix: vector cauchy log-pdf applies the seed twice to
 loc and scale gradients

---
 include/fastad_bits/reverse/stat/cauchy.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/cauchy.hpp b/include/fastad_bits/reverse/stat/cauchy.hpp
index 2e89726..1027014 100644
--- a/include/fastad_bits/reverse/stat/cauchy.hpp
+++ b/include/fastad_bits/reverse/stat/cauchy.hpp
@@ -228,8 +228,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        value_t dx0 = -dx.sum();
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
         
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -297,8 +297,8 @@ public:
 
         auto diff = x - x0;
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        auto dgamma = (-seed) * (dx * diff + 1) / gamma;
+        value_t dx0 = -dx.sum();
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -367,8 +367,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        auto dx0 = (-seed) * dx;
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        auto dx0 = -dx;
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -436,8 +436,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        auto dx0 = (-seed) * dx;
-        auto dgamma = (-seed/gamma) * ((dx * diff) + 1);
+        auto dx0 = -dx;
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
-- 
2.43.0


From 857b1fb285cc6ce8a64a1df527b20a3c93aa65a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:39 +0000
Subject: [PATCH 10/16] fix: log-pdfs of a constant vector do not compile:
 constants have no size()

---
 include/fastad_bits/reverse/core/constant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastad_bits/reverse/core/constant.hpp b/include/fastad_bits/reverse/core/constant.hpp
index 0f2108e..ce95d99 100644
--- a/include/fastad_bits/reverse/core/constant.hpp
+++ b/include/fastad_bits/reverse/core/constant.hpp
@@ -130,6 +130,8 @@ public:
         }
     }
 
+    size_t size() const { return rows() * cols(); }
+
     size_t rows() const { 
         if constexpr (util::is_scl_v<this_t>) {
             return 1;
-- 
2.43.0


From 23cba765b8c75382446aef0c302048462dcfe08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:46 +0000
Subject: [PATCH 11/16] fix: uniform log-pdf of a constant vector never looks
 at changing bounds

The comparison of x with a vector bound was made only once, in the
constructor, whenever x was a constant, even if that bound is not.
---
 include/fastad_bits/reverse/stat/uniform.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/uniform.hpp b/include/fastad_bits/reverse/stat/uniform.hpp
index fb4ea17..b6dd90b 100644
--- a/include/fastad_bits/reverse/stat/uniform.hpp
+++ b/include/fastad_bits/reverse/stat/uniform.hpp
@@ -306,7 +306,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<max_t>) {
             update_x_cache();
         }
     }
@@ -322,7 +323,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<max_t>) {
             update_x_cache();
         }
 
@@ -399,7 +401,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<min_t>) {
             update_x_cache();
         }
     }
@@ -415,7 +418,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<min_t>) {
             update_x_cache();
         }
 
-- 
2.43.0


From 4362be0dd759bd74e45ab5aa50b98572d621af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:01 +0000
Subject: [PATCH 12/16] fix: wishart log-pdf of a constant matrix ignores a
 variable scale matrix

The cache of a constant X was computed only in the constructor, and only
if V had already been found positive definite, so X with a variable V was
always reported as not positive definite.
---
 include/fastad_bits/reverse/stat/wishart.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 5d64c5a..1ecbd2c 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -169,6 +169,7 @@ public:
         if constexpr (!util::is_constant_v<x_t>) {
             update_x_cache();
         }
+        update_xv_cache();
 
         if (!valid()) {
             return this->get() = util::neg_inf<value_t>;
@@ -204,14 +205,17 @@ private:
     }
 
     void update_x_cache() {
-        if (is_v_pos_def_) {
-            x_llt_.compute(x_.get());
-            is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
-            if (is_x_pos_def_) {
-                log_x_det_ = std::log(x_llt_.matrixL().determinant());
-                x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
-                xv_inv_ = x_.get() * v_inv_;
-            }
+        x_llt_.compute(x_.get());
+        is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
+        if (is_x_pos_def_) {
+            log_x_det_ = std::log(x_llt_.matrixL().determinant());
+            x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
+        }
+    }
+
+    void update_xv_cache() {
+        if (is_x_pos_def_ && is_v_pos_def_) {
+            xv_inv_ = x_.get() * v_inv_;
         }
     }
 
-- 
2.43.0


From 2d7cbc90357c2cbad0493003c203dfa2e3f12add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:06 +0000
Subject: [PATCH 13/16] fix: evaluate_adj of a bound vector or matrix
 expression does not compile

---
 include/fastad_bits/reverse/core/eval.hpp | 326 ++++++++++++----------
 1 file changed, 171 insertions(+), 155 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 799dbac..7caf8a5 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -1,155 +1,171 @@
-#pragma once
-#include <cstdlib>
-#include <type_traits>
-#include <tuple>
-#include <fastad_bits/reverse/core/expr_base.hpp>
-#include <fastad_bits/reverse/core/bind.hpp>
-#include <fastad_bits/util/value.hpp>
-
-namespace ad {
-
-/*
- * Evaluates expression in the forward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward evaluate
- * @return the expression value
- */
-
-template <class ExprType>
-inline auto evaluate(ExprType&& expr)
-{
-    return expr.feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>& expr)
-{
-    return expr.get().feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>&& expr)
-{
-    return expr.get().feval();
-}
-
-/* 
- * Evaluates expression in the backward direction of reverse-mode AD.
- * Default parameter should fail exactly when expression is multi-dimensional.
- *
- * @tparam ExprType expression type
- * @param expr  expression to backward evaluate
- */
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-/* 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-/** 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * Overload for ExprBind helper class.
- *
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-} // namespace ad
+#pragma once
+#include <cstdlib>
+#include <type_traits>
+#include <tuple>
+#include <fastad_bits/reverse/core/expr_base.hpp>
+#include <fastad_bits/reverse/core/bind.hpp>
+#include <fastad_bits/util/value.hpp>
+
+namespace ad {
+
+/*
+ * Evaluates expression in the forward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward evaluate
+ * @return the expression value
+ */
+
+template <class ExprType>
+inline auto evaluate(ExprType&& expr)
+{
+    return expr.feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>& expr)
+{
+    return expr.get().feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>&& expr)
+{
+    return expr.get().feval();
+}
+
+/* 
+ * Evaluates expression in the backward direction of reverse-mode AD.
+ * Default parameter should fail exactly when expression is multi-dimensional.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to backward evaluate
+ */
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+/* 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+/** 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * Overload for ExprBind helper class.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+} // namespace ad
-- 
2.43.0


From 195e1a6832d4368c2de60c7c45eb1053a55ac834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:17 +0000
Subject: [PATCH 14/16] fix: copy of a bound expression uses the storage of the
 original

---
 include/fastad_bits/reverse/core/bind.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 9ea7ca6..7107ee3 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -32,6 +32,16 @@ struct ExprBind
         expr_.bind_cache({val_cache_.data(), adj_cache_.data()});
     }
     
+    // The expression views the caches, so a copy must view its own.
+    ExprBind(const ExprBind& other)
+        : ExprBind(other.expr_)
+    {
+        val_cache_ = other.val_cache_;
+        adj_cache_ = other.adj_cache_;
+    }
+
+    ExprBind(ExprBind&&) = default;
+    
     expr_t& get() { return expr_; }
 
 private:
-- 
2.43.0


From 2ad3869d36c05daaba49c15a5d0c1a05fb10f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:09 +0000
Subject: [PATCH 15/16] fix: eval.hpp keeps its original line ends

---
 include/fastad_bits/reverse/core/eval.hpp | 342 +++++++++++-----------
 1 file changed, 171 insertions(+), 171 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 7caf8a5..5245198 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -1,171 +1,171 @@
-#pragma once
-#include <cstdlib>
-#include <type_traits>
-#include <tuple>
-#include <fastad_bits/reverse/core/expr_base.hpp>
-#include <fastad_bits/reverse/core/bind.hpp>
-#include <fastad_bits/util/value.hpp>
-
-namespace ad {
-
-/*
- * Evaluates expression in the forward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward evaluate
- * @return the expression value
- */
-
-template <class ExprType>
-inline auto evaluate(ExprType&& expr)
-{
-    return expr.feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>& expr)
-{
-    return expr.get().feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>&& expr)
-{
-    return expr.get().feval();
-}
-
-/* 
- * Evaluates expression in the backward direction of reverse-mode AD.
- * Default parameter should fail exactly when expression is multi-dimensional.
- *
- * @tparam ExprType expression type
- * @param expr  expression to backward evaluate
- */
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>&& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-/* 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-/** 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * Overload for ExprBind helper class.
- *
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-} // namespace ad
+#pragma once
+#include <cstdlib>
+#include <type_traits>
+#include <tuple>
+#include <fastad_bits/reverse/core/expr_base.hpp>
+#include <fastad_bits/reverse/core/bind.hpp>
+#include <fastad_bits/util/value.hpp>
+
+namespace ad {
+
+/*
+ * Evaluates expression in the forward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward evaluate
+ * @return the expression value
+ */
+
+template <class ExprType>
+inline auto evaluate(ExprType&& expr)
+{
+    return expr.feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>& expr)
+{
+    return expr.get().feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>&& expr)
+{
+    return expr.get().feval();
+}
+
+/* 
+ * Evaluates expression in the backward direction of reverse-mode AD.
+ * Default parameter should fail exactly when expression is multi-dimensional.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to backward evaluate
+ */
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+/* 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+/** 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * Overload for ExprBind helper class.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+} // namespace ad
-- 
2.43.0


From 56cdecab3e656318956438ca39a1f8e6652b2698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:15 +0000
Subject: [PATCH 16/16] fix: sum and prod over a range of constant matrices do
 not compile

---
 include/fastad_bits/reverse/core/prod.hpp | 2 +-
 include/fastad_bits/reverse/core/sum.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 263b273..77355f9 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -268,7 +268,7 @@ inline auto prod(Iter begin, Iter end, Lmda f)
 
     // optimized for f that returns a constant node
     if constexpr (util::is_constant_v<expr_t>) {
-        if (std::distance(begin, end) <= 0) return ad::constant(var_t(0));
+        if (std::distance(begin, end) <= 0) return ad::constant(var_t());
         var_t prod = f(*begin).feval();     // value_t or Eigen::Matrix
         std::for_each(std::next(begin), end, 
                 [&](const auto& x) 
diff --git a/include/fastad_bits/reverse/core/sum.hpp b/include/fastad_bits/reverse/core/sum.hpp
index aba293a..4262168 100644
--- a/include/fastad_bits/reverse/core/sum.hpp
+++ b/include/fastad_bits/reverse/core/sum.hpp
@@ -223,7 +223,7 @@ inline auto sum(Iter begin, Iter end, Lmda&& f)
 
     // optimized for f that returns a constant node
     if constexpr (util::is_constant_v<expr_t>) {
-        if (std::distance(begin, end) <= 0) return ad::constant(var_t(0));
+        if (std::distance(begin, end) <= 0) return ad::constant(var_t());
         var_t sum = f(*begin).feval(); 
         std::for_each(std::next(begin), end, 
                 [&](const auto& x) 
-- 
2.43.0

