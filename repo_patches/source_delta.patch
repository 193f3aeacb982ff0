From 87b6ce15ec47b9febe717588a06f3e65b48926bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:15 +0000
Subject: [PATCH 01/19] fix: vectors of different size are not deep_equal (and
 are not read out of bounds)

---
 viennamath/runtime/vector_expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index b3bd26d..bc249db 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -139,9 +139,9 @@ namespace viennamath
         if (dynamic_cast< const self_type * >(other) != NULL)
         {
           const self_type * temp = dynamic_cast< const self_type * >(other);
-          bool is_equal = true;
+          bool is_equal = (BaseType::size() == temp->size());
 
-          for (std::size_t i=0; i<temp->size(); ++i)
+          for (std::size_t i=0; is_equal && i<temp->size(); ++i)
             is_equal = is_equal && (*this)[i].get()->deep_equal( (*temp)[i].get() );
 
 
-- 
2.43.0


From 18f487be2481f1678ddfeb905d1bd3ef1eda0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:15 +0000
Subject: [PATCH 02/19] fix: differentiating a gradient node leaks the
 derivative of its operand

---
 viennamath/manipulation/detail/unary_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index fcf4617..e71e03d 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -656,7 +656,7 @@ namespace viennamath
 
       // return grad(...)
       delete c0;
-      return new rt_unary_expr<InterfaceType>(e->diff(diff_var), new op_unary<op_gradient<NumericT>, InterfaceType>());
+      return new rt_unary_expr<InterfaceType>(new_expr, new op_unary<op_gradient<NumericT>, InterfaceType>());
     }
 
     throw expression_not_differentiable_exception("Cannot differentiate gradient operator!");
-- 
2.43.0


From 203c989850d47d1755416a5f7f1028c872d5752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:14 +0000
Subject: [PATCH 03/19] fix: integral operations over different intervals or
 variables are not equal

---
 viennamath/runtime/integral.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/viennamath/runtime/integral.hpp b/viennamath/runtime/integral.hpp
index 6f1e71f..193a839 100644
--- a/viennamath/runtime/integral.hpp
+++ b/viennamath/runtime/integral.hpp
@@ -94,6 +94,15 @@ namespace viennamath
       viennamath::rt_variable<InterfaceType> integration_variable_;
   };
 
+  /** @brief Two integral operations are equal if their limits and their integration variables are equal */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_integral<InterfaceType> const & lhs, op_rt_integral<InterfaceType> const & rhs)
+  {
+    return lhs.interval().lower().get()->deep_equal(rhs.interval().lower().get())
+           && lhs.interval().upper().get()->deep_equal(rhs.interval().upper().get())
+           && lhs.variable().id() == rhs.variable().id();
+  }
+
 
 
   //
@@ -185,6 +194,13 @@ namespace viennamath
       viennamath::rt_symbolic_interval<InterfaceType> interval_;
   };
 
+  /** @brief Two symbolic integral operations are equal if they refer to the same symbolic interval */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_symbolic_integral<InterfaceType> const & lhs, op_rt_symbolic_integral<InterfaceType> const & rhs)
+  {
+    return lhs.interval().id() == rhs.interval().id();
+  }
+
 
   //
   // Convenience functions with symbolic integrals
-- 
2.43.0


From ea38f48f1212d78ba47ed7031ee21832e41021b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:34 +0000
Subject: [PATCH 04/19] fix: substituting a symbolic interval replaces only the
 integrals over that interval

---
 viennamath/manipulation/substitute.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index ab80b62..f2bafe7 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -296,7 +296,8 @@ namespace viennamath
     class integral_substitution_functor : public viennamath::rt_manipulation_interface<InterfaceType>
     {
       public:
-        integral_substitution_functor(op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : ptr_(ptr) {}
+        integral_substitution_functor(id_type interval_id,
+                                      op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : interval_id_(interval_id), ptr_(ptr) {}
 
 
         InterfaceType * operator()(InterfaceType const * e) const
@@ -307,7 +308,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == interval_id_)
             {
               //std::cout << "Modifies!" << std::endl;
               return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());
@@ -327,7 +328,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == interval_id_)
             {
               //std::cout << "FOUND!" << std::endl;
               return true;
@@ -337,6 +338,7 @@ namespace viennamath
         }
 
       private:
+        id_type interval_id_;
         std::auto_ptr<const op_unary<op_rt_integral<InterfaceType>, InterfaceType> > ptr_;
     };
   } //namespace detail
@@ -348,13 +350,13 @@ namespace viennamath
    * @param e          The expression on which the substitution is carried out
    */
   template <typename InterfaceType, typename PairType>
-  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & /*search*/,
+  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & search,
                                     PairType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
     typedef op_rt_integral<InterfaceType>    OperatorT;
 
-    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
+    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(search.id(), new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
 
     rt_expr<InterfaceType> temp(e.get()->recursive_manipulation(fun));
 
-- 
2.43.0


From 1742ec0395dbc98fdb8f7941accd41f40f1d85dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 05/19] fix: rt_interval::operator= flows off its end without
 returning a value

---
 viennamath/runtime/interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 2f1b5d2..c8095be 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -56,7 +56,8 @@ namespace viennamath
       {
         lower_ = other.lower().get()->clone();
         upper_ = other.upper().get()->clone();
-      };
+        return *this;
+      }
 
     private:
       rt_expr<InterfaceType> lower_;
-- 
2.43.0


From 271524650c63421f7ed7deed77adc2c1cb7b048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 06/19] fix: assigning a compile-time variable to a runtime
 expression stores the variable

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index f2d767e..0b7998d 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -161,7 +161,7 @@ namespace viennamath
       template <id_type id>
       rt_expr & operator=(ct_variable<id> const &)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_constant<InterfaceType>(id));
+        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
         return *this;
       }
 
-- 
2.43.0


From 4a5949aa4d91db7198997905c046dcdd526f2421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 07/19] fix: assigning an empty runtime expression dereferences
 a null pointer

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index 0b7998d..57e601d 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -128,7 +128,7 @@ namespace viennamath
 
       rt_expr & operator=(rt_expr const & other)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(other.get()->clone());
+        rt_expr_ = std::auto_ptr<InterfaceType>(other.get() != NULL ? other.get()->clone() : NULL);
         return *this;
       }
 
-- 
2.43.0


From 843f9549e59bb6187046c0e98565de798801ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 08/19] fix: assignment of unary runtime expressions names a
 member that does not exist

---
 viennamath/runtime/unary_expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index d861e4d..a79179e 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -93,8 +93,9 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.lhs_->clone());
+        std::auto_ptr<InterfaceType> new_expr(other.expr_->clone());   // 'other' may be part of this expression
         op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
+        expr_ = new_expr;
         return *this;
       }
 
-- 
2.43.0


From 44de43cc7ebd53062f012961c8441bff2f783584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 09/19] fix: assigning a part of a binary expression to the
 expression itself reads freed memory

---
 viennamath/runtime/binary_expr.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 6a8bd51..f44fe85 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -199,9 +199,12 @@ namespace viennamath
 
       rt_binary_expr & operator=(rt_binary_expr const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.lhs()->clone());
+        // 'other' may be part of this expression, hence nothing is released before everything is copied
+        std::auto_ptr<InterfaceType> new_lhs(other.lhs()->clone());
+        std::auto_ptr<InterfaceType> new_rhs(other.rhs()->clone());
         op_  = std::auto_ptr<op_interface_type>(other.op()->clone());
-        rhs_ = std::auto_ptr<InterfaceType>(other.rhs()->clone());
+        lhs_ = new_lhs;
+        rhs_ = new_rhs;
         return *this;
       }
 
-- 
2.43.0


From bcc276aa8a178ed1e434717ea651146b66f03dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 10/19] fix: a binary expression assigned from a constant
 cannot be evaluated

---
 viennamath/runtime/binary_expr.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index f44fe85..0495e93 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -44,7 +44,7 @@ namespace viennamath
   class rt_binary_expr : public InterfaceType
   {
     typedef op_interface<InterfaceType>                                           op_interface_type;
-    typedef op_unary<op_id<typename InterfaceType::numeric_type>, InterfaceType>  op_unary_id_type;
+    typedef op_binary<op_plus<typename InterfaceType::numeric_type>, InterfaceType>  op_binary_plus_type;
 
       typedef rt_binary_expr<InterfaceType>    self_type;
 
@@ -190,9 +190,9 @@ namespace viennamath
       rt_binary_expr & operator=(ct_binary_expr<ct_constant<value1>, OP, ct_constant<value2> > const &)
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
+        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value1));
+        op_  = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value2));
         return *this;
       }
 
@@ -211,9 +211,10 @@ namespace viennamath
       template <typename ScalarType>
       rt_binary_expr & operator=(rt_constant<ScalarType> const & other)
       {
+        // a binary expression needs a binary operation: represent the constant as 'other + 0'
         lhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(other.clone());
+        op_  = std::auto_ptr<op_interface_type>(new op_binary_plus_type());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(0));
         return *this;
       }
 
@@ -226,8 +227,8 @@ namespace viennamath
       rt_binary_expr & operator=(numeric_type value)
       {
         lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
+        op_  = std::auto_ptr<op_interface_type>(new op_binary_plus_type());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(0));
         return *this;
       }
 
-- 
2.43.0


From cc4cecba9263d16a418c50399dded07983d1452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 11/19] fix: the text of the variable index exception is read
 after its destruction

---
 viennamath/exception.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/viennamath/exception.hpp b/viennamath/exception.hpp
index e5ce131..6d4bd7b 100644
--- a/viennamath/exception.hpp
+++ b/viennamath/exception.hpp
@@ -122,19 +122,22 @@ namespace viennamath
    */
   class variable_index_out_of_bounds_exception : public std::exception
   {
-    const char * what() const throw()
-    {
-      std::stringstream ss;
-      ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
-      return ss.str().c_str();
-    }
+    const char * what() const throw() { return message_.c_str(); }
 
     public:
-      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size) {}
+      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size)
+      {
+        std::stringstream ss;
+        ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
+        message_ = ss.str();
+      }
+
+      virtual ~variable_index_out_of_bounds_exception() throw () {}
 
     private:
       long id_;
       long vector_size_;
+      std::string message_;
   };
 
 
-- 
2.43.0


From c78bd59e96d0ea2c8fbc6731ae3639089044c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 12/19] fix: numerical quadrature of a symbolic integral
 dereferences a null pointer

---
 viennamath/runtime/numerical_quadrature.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index b04694d..8c0625f 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -151,11 +151,7 @@ namespace viennamath
             const SymbolicIntegrationOperation * op_symb_tmp = dynamic_cast<const SymbolicIntegrationOperation *>(integral_expression->op());
 
             if (op_symb_tmp != NULL)
-            {
-              return quadrature_rule_->eval(op_tmp->op().interval(),
-                                            rt_expr<InterfaceType>(integral_expression->lhs()->clone()),
-                                            op_tmp->op().variable());
-            }
+              throw symbolic_integral_evaluation_not_possible_exception();   // there are no limits to integrate over
 
             //std::cerr << "ERROR: No integral encountered in numerical quadrature!" << std::endl;
             //std::cerr << e << std::endl;
-- 
2.43.0


From ea5532c21bd485cbc3fa59602a89ed1658d7f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:31 +0000
Subject: [PATCH 13/19] fix: quotient of compile-time expressions holding
 different runtime constants is not one

---
 viennamath/compiletime/operations/ct_ct.hpp   |  2 +-
 viennamath/compiletime/operations/ct_expr.hpp | 29 +++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_ct.hpp b/viennamath/compiletime/operations/ct_ct.hpp
index 6eb3a95..8e4154a 100644
--- a/viennamath/compiletime/operations/ct_ct.hpp
+++ b/viennamath/compiletime/operations/ct_ct.hpp
@@ -73,7 +73,7 @@ namespace viennamath
                              op_div<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
   }
diff --git a/viennamath/compiletime/operations/ct_expr.hpp b/viennamath/compiletime/operations/ct_expr.hpp
index 1aa3b59..28c4bcc 100644
--- a/viennamath/compiletime/operations/ct_expr.hpp
+++ b/viennamath/compiletime/operations/ct_expr.hpp
@@ -29,6 +29,30 @@
 
 namespace viennamath
 {
+  namespace result_of
+  {
+    /** @brief Metafunction for checking whether a (compiletime) expression contains a runtime constant, i.e. whether the value of the expression is not determined by its type */
+    template <typename T>
+    struct holds_runtime_constant
+    {
+      enum { value = false };
+    };
+
+    /** @cond */
+    template <typename ScalarType, typename InterfaceType>
+    struct holds_runtime_constant< rt_constant<ScalarType, InterfaceType> >
+    {
+      enum { value = true };
+    };
+
+    template <typename LHS, typename OP, typename RHS>
+    struct holds_runtime_constant< ct_binary_expr<LHS, OP, RHS> >
+    {
+      enum { value = holds_runtime_constant<LHS>::value || holds_runtime_constant<RHS>::value };
+    };
+    /** @endcond */
+  }
+
   /////////////////////////////////// operator+ ///////////////////////////////////
 
       /** @brief Special overload: (ct_c1 + X) + ct_c2 becomes [ct_c1 + ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -154,9 +178,10 @@ namespace viennamath
 
   /////////////////////////////////// operator/ ///////////////////////////////////
 
-      /** @brief Special overload: division of the same thing leads to '1' */
+      /** @brief Special overload: division of the same thing leads to '1'. Not applicable if a runtime constant is involved, because equal types do not imply equal values then. */
       template <typename LHS, typename OP, typename RHS>
-      ct_constant<1>
+      typename enable_if< !result_of::holds_runtime_constant< ct_binary_expr<LHS, OP, RHS> >::value,
+                          ct_constant<1> >::type
       operator/(ct_binary_expr<LHS, OP, RHS> const & /*lhs*/,
                 ct_binary_expr<LHS, OP, RHS> const & /*other*/)
       {
-- 
2.43.0


From f60f174d0ecab90dff9f1c88d908256f15e7cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:59 +0000
Subject: [PATCH 14/19] fix: eval() of a compile-time variable reads the point
 out of bounds

---
 viennamath/manipulation/eval.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/eval.hpp b/viennamath/manipulation/eval.hpp
index 12cd769..a0b9017 100644
--- a/viennamath/manipulation/eval.hpp
+++ b/viennamath/manipulation/eval.hpp
@@ -284,9 +284,9 @@ namespace viennamath
    * @param v         Either a single number (typically of type double) or a vector type offering bracket-access (e.g. std::vector<>)
    */
   template <id_type id, typename VectorType>
-  default_numeric_type eval(ct_variable<id> /*c*/, VectorType const & v)
+  default_numeric_type eval(ct_variable<id> c, VectorType const & v)
   {
-    return v[id];
+    return c(v);
   }
 
   /** @brief Evaluation of a ViennaMath compiletime variable using a compiletime vector with one entry */
-- 
2.43.0


From 389495744bef223b5d0e92918f19d3ad171bc7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:48 +0000
Subject: [PATCH 15/19] fix: compute compile-time rational arithmetic in
 simplify() and gcd with long instead of int (truncation beyond 32 bits)

---
 viennamath/forwards.h                |  4 +--
 viennamath/manipulation/simplify.hpp | 52 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/viennamath/forwards.h b/viennamath/forwards.h
index 62d5a75..69be73e 100644
--- a/viennamath/forwards.h
+++ b/viennamath/forwards.h
@@ -657,14 +657,14 @@ namespace viennamath
     template <long a, long b>
     struct gcd
     {
-      static const int value = gcd<b, a % b>::value;
+      static const long value = gcd<b, a % b>::value;
     };
 
     /** @brief Specialization for the computation of the greatest common divisor of a and 0, which is a */
     template <long a>
     struct gcd <a, 0>
     {
-      static const int value = a;
+      static const long value = a;
     };
 
     /** @brief Specialization forcing a compile time error, since the greatest common divisor of 0 and 0 is not defined. */
diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 343b618..47c7fce 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -365,8 +365,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -384,8 +384,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 + numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 + numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -403,8 +403,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 + value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 + value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -426,8 +426,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -444,8 +444,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 - numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 - numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -462,8 +462,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 - value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 - value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -480,8 +480,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -502,8 +502,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * numerator_2;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * numerator_2;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -520,8 +520,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -538,8 +538,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * value_2;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 * value_2;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -559,8 +559,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2;
-        static const int denominator = denominator_1 * numerator_2;
+        static const long numerator = numerator_1 * denominator_2;
+        static const long denominator = denominator_1 * numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -577,8 +577,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2;
-        static const int denominator = numerator_2;
+        static const long numerator = value_1 * denominator_2;
+        static const long denominator = numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -595,8 +595,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1 * value_2;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1 * value_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
-- 
2.43.0


From 65417e04b8f835f2b4990a72f593af4b764896d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:24 +0000
Subject: [PATCH 16/19] fix: compile-time integration treats a variable other
 than the integration variable as a constant

---
 viennamath/manipulation/integrate.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 0828d82..2e92a79 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -294,6 +294,7 @@ namespace viennamath
         typedef typename ct_function_symbol<TAG>::ERROR_INTEGRATION_OF_FUNCTION_SYMBOL_NOT_SUPPORTED    type;
       };
 
+      //a variable other than the integration variable is a constant with respect to the integration:
       template <typename LowerBound, typename UpperBound,
                 id_type id,
                 typename VariableType>
@@ -301,6 +302,26 @@ namespace viennamath
                             ct_variable<id>,
                             VariableType
                             >
+      {
+        typedef ct_binary_expr<UpperBound,
+                              op_minus<default_numeric_type>,
+                              LowerBound
+                              >                    interval_length;
+
+        typedef ct_binary_expr< ct_variable<id>,
+                                op_mult<default_numeric_type>,
+                                interval_length
+                              >    integrated_type;
+
+        typedef typename viennamath::result_of::simplify<integrated_type>::type   type;
+      };
+
+      template <typename LowerBound, typename UpperBound,
+                id_type id>
+      struct integrate_impl <LowerBound, UpperBound,
+                            ct_variable<id>,
+                            ct_variable<id>
+                            >
       {
         typedef ct_binary_expr< ct_binary_expr<UpperBound,
                                               op_mult<default_numeric_type>,
-- 
2.43.0


From 18a8ab420f057b7afed51bbafb2fba84468702f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:05 +0000
Subject: [PATCH 17/19] fix: a compile-time function symbol cannot be printed
 (its str() is private)

---
 viennamath/compiletime/ct_function_symbol.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennamath/compiletime/ct_function_symbol.hpp b/viennamath/compiletime/ct_function_symbol.hpp
index 7560817..6d719f2 100644
--- a/viennamath/compiletime/ct_function_symbol.hpp
+++ b/viennamath/compiletime/ct_function_symbol.hpp
@@ -75,6 +75,7 @@ namespace viennamath
   template <typename Tag>
   class ct_function_symbol
   {
+    public:
       static std::string str()
       {
         return Tag::str();
-- 
2.43.0


From 909039bd21290b11e752418c7e206649cc6ddab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:14 +0000
Subject: [PATCH 18/19] fix: a copied LaTeX translator loses its customised
 names

---
 viennamath/manipulation/latex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index ef06ebe..3bad166 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -455,7 +455,7 @@ namespace viennamath
       typedef viennamath::rt_variable<InterfaceType>                         Variable;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
@@ -512,7 +512,7 @@ namespace viennamath
       typedef std::pair<id_type, id_type>           KeyType;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
-- 
2.43.0


From 93e07d97e39962378141fea03be24d478ff702a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:14 +0000
Subject: [PATCH 19/19] fix: assigning a LaTeX translator deletes its
 processors twice

---
 viennamath/manipulation/latex.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 3bad166..174dd37 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -125,6 +125,13 @@ namespace viennamath
         }
       }
 
+      rt_latex_translator & operator=(rt_latex_translator const & other)
+      {
+        rt_latex_translator temp(other);
+        processors_.swap(temp.processors_);
+        return *this;
+      }
+
       ~rt_latex_translator()
       {
         for (typename ProcessorArray::iterator it = processors_.begin();
-- 
2.43.0

