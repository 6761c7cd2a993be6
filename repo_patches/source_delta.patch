From 0039b16fe4ea2a73b08171a4ddef05ee4dda9a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 01/36] fix: what() of variable_index_out_of_bounds_exception
 returned a dangling pointer

---
 viennamath/exception.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/viennamath/exception.hpp b/viennamath/exception.hpp
index e5ce131..57c14a6 100644
--- a/viennamath/exception.hpp
+++ b/viennamath/exception.hpp
@@ -122,19 +122,20 @@ namespace viennamath
    */
   class variable_index_out_of_bounds_exception : public std::exception
   {
-    const char * what() const throw()
-    {
-      std::stringstream ss;
-      ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
-      return ss.str().c_str();
-    }
+    const char * what() const throw() { return message_.c_str(); }
 
     public:
-      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size) {}
+      variable_index_out_of_bounds_exception(long id, long vector_size)
+      {
+        std::stringstream ss;
+        ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id << ", vector_size=" << vector_size << std::endl;
+        message_ = ss.str();
+      }
+
+      virtual ~variable_index_out_of_bounds_exception() throw () {}
 
     private:
-      long id_;
-      long vector_size_;
+      std::string message_;
   };
 
 
-- 
2.43.0


From adb922314869461b234f276d2a934ad2f42e85f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 02/36] fix: rt_interval::operator= did not return a value

---
 viennamath/runtime/interval.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 2f1b5d2..ed1d9ba 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -56,6 +56,7 @@ namespace viennamath
       {
         lower_ = other.lower().get()->clone();
         upper_ = other.upper().get()->clone();
+        return *this;
       };
 
     private:
-- 
2.43.0


From b63bf5c3607adc0e78c5d25feefeabc4d0d87543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 03/36] fix: numerical quadrature of a symbolic integral
 dereferenced a NULL pointer

---
 viennamath/runtime/numerical_quadrature.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index b04694d..8cbb291 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -150,12 +150,8 @@ namespace viennamath
 
             const SymbolicIntegrationOperation * op_symb_tmp = dynamic_cast<const SymbolicIntegrationOperation *>(integral_expression->op());
 
-            if (op_symb_tmp != NULL)
-            {
-              return quadrature_rule_->eval(op_tmp->op().interval(),
-                                            rt_expr<InterfaceType>(integral_expression->lhs()->clone()),
-                                            op_tmp->op().variable());
-            }
+            if (op_symb_tmp != NULL) // no concrete interval and no integration variable available
+              throw symbolic_integral_evaluation_not_possible_exception();
 
             //std::cerr << "ERROR: No integral encountered in numerical quadrature!" << std::endl;
             //std::cerr << e << std::endl;
-- 
2.43.0


From 8a517ba5d73174d3694b74339a43ce0f87e0e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 04/36] fix: comparison of vector expressions of different size
 read out of bounds

---
 viennamath/runtime/vector_expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index b3bd26d..ca30ad0 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -139,9 +139,9 @@ namespace viennamath
         if (dynamic_cast< const self_type * >(other) != NULL)
         {
           const self_type * temp = dynamic_cast< const self_type * >(other);
-          bool is_equal = true;
+          bool is_equal = (temp->size() == BaseType::size());
 
-          for (std::size_t i=0; i<temp->size(); ++i)
+          for (std::size_t i=0; is_equal && i<temp->size(); ++i)
             is_equal = is_equal && (*this)[i].get()->deep_equal( (*temp)[i].get() );
 
 
-- 
2.43.0


From 5649bfb7a557fa2920fddcb1aecb0abe77099950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 05/36] fix: integrals over different intervals or variables
 compared equal

---
 viennamath/runtime/integral.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/viennamath/runtime/integral.hpp b/viennamath/runtime/integral.hpp
index 6f1e71f..5a03dac 100644
--- a/viennamath/runtime/integral.hpp
+++ b/viennamath/runtime/integral.hpp
@@ -94,6 +94,15 @@ namespace viennamath
       viennamath::rt_variable<InterfaceType> integration_variable_;
   };
 
+  /** @brief Compares two integrals for equality with respect to the integration interval and the integration variable */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_integral<InterfaceType> const & lhs, op_rt_integral<InterfaceType> const & rhs)
+  {
+    return    lhs.variable().id() == rhs.variable().id()
+           && lhs.interval().lower().get()->deep_equal(rhs.interval().lower().get())
+           && lhs.interval().upper().get()->deep_equal(rhs.interval().upper().get());
+  }
+
 
 
   //
@@ -185,6 +194,13 @@ namespace viennamath
       viennamath::rt_symbolic_interval<InterfaceType> interval_;
   };
 
+  /** @brief Compares two symbolic integrals for equality with respect to the ID of the symbolic interval */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_symbolic_integral<InterfaceType> const & lhs, op_rt_symbolic_integral<InterfaceType> const & rhs)
+  {
+    return lhs.interval().id() == rhs.interval().id();
+  }
+
 
   //
   // Convenience functions with symbolic integrals
-- 
2.43.0


From 037e73c108c19e54bf0ade40ed514e543b22877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 06/36] fix: substitution of a symbolic interval replaced
 symbolic intervals with other IDs as well

---
 viennamath/manipulation/substitute.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index ab80b62..da9b6a9 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -296,7 +296,7 @@ namespace viennamath
     class integral_substitution_functor : public viennamath::rt_manipulation_interface<InterfaceType>
     {
       public:
-        integral_substitution_functor(op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : ptr_(ptr) {}
+        integral_substitution_functor(id_type interval_id, op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : interval_id_(interval_id), ptr_(ptr) {}
 
 
         InterfaceType * operator()(InterfaceType const * e) const
@@ -307,7 +307,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == interval_id_)
             {
               //std::cout << "Modifies!" << std::endl;
               return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());
@@ -327,7 +327,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == interval_id_)
             {
               //std::cout << "FOUND!" << std::endl;
               return true;
@@ -337,6 +337,7 @@ namespace viennamath
         }
 
       private:
+        id_type interval_id_;
         std::auto_ptr<const op_unary<op_rt_integral<InterfaceType>, InterfaceType> > ptr_;
     };
   } //namespace detail
@@ -348,13 +349,13 @@ namespace viennamath
    * @param e          The expression on which the substitution is carried out
    */
   template <typename InterfaceType, typename PairType>
-  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & /*search*/,
+  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & search,
                                     PairType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
     typedef op_rt_integral<InterfaceType>    OperatorT;
 
-    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
+    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(search.id(), new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
 
     rt_expr<InterfaceType> temp(e.get()->recursive_manipulation(fun));
 
-- 
2.43.0


From 4cbb6dd469daa5b43610881a3f95c0bb0ec6aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 07/36] fix: copies of a LaTeX translator lost all
 customizations

---
 viennamath/manipulation/latex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index ef06ebe..3bad166 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -455,7 +455,7 @@ namespace viennamath
       typedef viennamath::rt_variable<InterfaceType>                         Variable;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
@@ -512,7 +512,7 @@ namespace viennamath
       typedef std::pair<id_type, id_type>           KeyType;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
-- 
2.43.0


From ba6a2dbefebb78da2553ce488817c2f12512d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 08/36] fix: assignment of LaTeX translators led to double
 frees

---
 viennamath/manipulation/latex.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 3bad166..7891a95 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -125,6 +125,13 @@ namespace viennamath
         }
       }
 
+      rt_latex_translator & operator=(rt_latex_translator const & other)
+      {
+        rt_latex_translator tmp(other);
+        processors_.swap(tmp.processors_);
+        return *this;
+      }
+
       ~rt_latex_translator()
       {
         for (typename ProcessorArray::iterator it = processors_.begin();
-- 
2.43.0


From 454ef492bc25c84aab86840dbd33e9af5b537df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 09/36] fix: LaTeX translation of runtime constants did not
 compile

---
 viennamath/manipulation/latex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 7891a95..0692d96 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -155,7 +155,7 @@ namespace viennamath
       std::string operator()(UnaryExpr  const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
 
       template <typename ScalarType>
-      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(e, use_parenthesis); }
+      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Variable   const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(FuncSymbol const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Equation   const & e, bool use_parenthesis = false) const
-- 
2.43.0


From 0f6dfa4b34c2603647e62e6f506097723e7336d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 10/36] fix: compiletime integration ignored whether a variable
 is the integration variable

---
 viennamath/manipulation/integrate.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 0828d82..e97dfd3 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -294,6 +294,7 @@ namespace viennamath
         typedef typename ct_function_symbol<TAG>::ERROR_INTEGRATION_OF_FUNCTION_SYMBOL_NOT_SUPPORTED    type;
       };
 
+      // integrand is a variable other than the integration variable, i.e. does not depend on the integration variable:
       template <typename LowerBound, typename UpperBound,
                 id_type id,
                 typename VariableType>
@@ -301,6 +302,27 @@ namespace viennamath
                             ct_variable<id>,
                             VariableType
                             >
+      {
+        typedef ct_binary_expr<UpperBound,
+                              op_minus<default_numeric_type>,
+                              LowerBound
+                              >                    interval_length;
+
+        typedef ct_binary_expr< ct_variable<id>,
+                                op_mult<default_numeric_type>,
+                                interval_length
+                              >    integrated_type;
+
+        typedef typename viennamath::result_of::simplify<integrated_type>::type   type;
+      };
+
+      // integrand is the integration variable:
+      template <typename LowerBound, typename UpperBound,
+                id_type id>
+      struct integrate_impl <LowerBound, UpperBound,
+                            ct_variable<id>,
+                            ct_variable<id>
+                            >
       {
         typedef ct_binary_expr< ct_binary_expr<UpperBound,
                                               op_mult<default_numeric_type>,
-- 
2.43.0


From 37287297bab3f4ce8d4f416fa6182f4fb9e500d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 11/36] fix: assignment of a compiletime variable to an
 expression did not compile

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index f2d767e..0b7998d 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -161,7 +161,7 @@ namespace viennamath
       template <id_type id>
       rt_expr & operator=(ct_variable<id> const &)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_constant<InterfaceType>(id));
+        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
         return *this;
       }
 
-- 
2.43.0


From b04db2effbdfa6b50a642decb24355afcd521ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 12/36] fix: assignment of unary expressions did not compile

---
 viennamath/runtime/unary_expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index d861e4d..2576b3a 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -93,7 +93,7 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.lhs_->clone());
+        expr_ = std::auto_ptr<InterfaceType>(other.expr_->clone());
         op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
         return *this;
       }
-- 
2.43.0


From bdeddad16ee454827141ce1dcbfd08a55d58047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 13/36] fix: Gateaux derivative of a gradient leaked memory

---
 viennamath/manipulation/detail/unary_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index fcf4617..e71e03d 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -656,7 +656,7 @@ namespace viennamath
 
       // return grad(...)
       delete c0;
-      return new rt_unary_expr<InterfaceType>(e->diff(diff_var), new op_unary<op_gradient<NumericT>, InterfaceType>());
+      return new rt_unary_expr<InterfaceType>(new_expr, new op_unary<op_gradient<NumericT>, InterfaceType>());
     }
 
     throw expression_not_differentiable_exception("Cannot differentiate gradient operator!");
-- 
2.43.0


From f6c1439b44c8944d8906bf48692313e088db46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 14/36] fix: exp() was not available for unary expressions,
 e.g. exp(sin(x))

---
 viennamath/manipulation/detail/unary_operations.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index e71e03d..5c727fe 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -77,6 +77,13 @@ namespace viennamath
     return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_exp<default_numeric_type> >());
   }
 
+  /** @brief Overload of the exponential function for a ViennaMath runtime unary expression */
+  template <typename InterfaceType>
+  rt_unary_expr<InterfaceType> exp(rt_unary_expr<InterfaceType> const & other)
+  {
+    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
+  }
+
   /** @brief Overload of the exponential function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> exp(rt_binary_expr<InterfaceType> const & other)
-- 
2.43.0


From d6db79d9e47d15a9f98f2d25ff8c6b78ab36876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 15/36] fix: grad() and thus laplace() were not available for
 runtime expression wrappers

---
 viennamath/manipulation/detail/unary_operations.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index 5c727fe..50a1b54 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -677,6 +677,13 @@ namespace viennamath
     return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
+  /** @brief Overload of the gradient function for a ViennaMath runtime expression wrapper */
+  template <typename InterfaceType>
+  rt_unary_expr<InterfaceType> grad(rt_expr<InterfaceType> const & other)
+  {
+    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
+  }
+
   /** @brief Overload of the gradient function for a ViennaMath runtime unary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> grad(rt_unary_expr<InterfaceType> const & other)
-- 
2.43.0


From c65cf3883d49bccd4c42da1972b3b4946183d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 16/36] fix: compiletime rational arithmetic truncated
 numerators and denominators to int

---
 viennamath/forwards.h                |  4 +--
 viennamath/manipulation/simplify.hpp | 52 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/viennamath/forwards.h b/viennamath/forwards.h
index 62d5a75..69be73e 100644
--- a/viennamath/forwards.h
+++ b/viennamath/forwards.h
@@ -657,14 +657,14 @@ namespace viennamath
     template <long a, long b>
     struct gcd
     {
-      static const int value = gcd<b, a % b>::value;
+      static const long value = gcd<b, a % b>::value;
     };
 
     /** @brief Specialization for the computation of the greatest common divisor of a and 0, which is a */
     template <long a>
     struct gcd <a, 0>
     {
-      static const int value = a;
+      static const long value = a;
     };
 
     /** @brief Specialization forcing a compile time error, since the greatest common divisor of 0 and 0 is not defined. */
diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 343b618..47c7fce 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -365,8 +365,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -384,8 +384,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 + numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 + numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -403,8 +403,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 + value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 + value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -426,8 +426,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -444,8 +444,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 - numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 - numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -462,8 +462,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 - value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 - value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -480,8 +480,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -502,8 +502,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * numerator_2;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * numerator_2;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -520,8 +520,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -538,8 +538,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * value_2;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 * value_2;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -559,8 +559,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2;
-        static const int denominator = denominator_1 * numerator_2;
+        static const long numerator = numerator_1 * denominator_2;
+        static const long denominator = denominator_1 * numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -577,8 +577,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2;
-        static const int denominator = numerator_2;
+        static const long numerator = value_1 * denominator_2;
+        static const long denominator = numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -595,8 +595,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1 * value_2;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1 * value_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
-- 
2.43.0


From 701ae4a0a0b76a89bca0990663b9cd191855ad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 17/36] fix: compiletime simplification was ambiguous (did not
 compile) for e.g. 5 - 0 or (1/2) * 3

---
 viennamath/manipulation/simplify.hpp | 288 +++++++++++++++++++++++++++
 1 file changed, 288 insertions(+)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 47c7fce..49f90df 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -778,6 +778,294 @@ namespace viennamath
       };
 
 
+      //////// Resolve the remaining ambiguities among the rules above:
+
+      // (0 - X) combined with 0:
+      template <typename NumericT, typename RHS>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>,
+                                            op_plus<NumericT>,
+                                            ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>          type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl < ct_binary_expr<ct_constant<0>,
+                                            op_plus<NumericT>,
+                                            ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>          type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>,
+                                            op_minus<NumericT>,
+                                            ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>          type;
+      };
+
+      // a - 0 for constants a:
+      template <long value_1, typename NumericT>
+      struct simplify_impl < ct_binary_expr<ct_constant<value_1>,
+                                            op_minus<NumericT>,
+                                            ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<value_1>          type;
+      };
+
+      // (1 / X) multiplied by 0 or 1:
+      template <typename NumericT, typename RHS>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>,
+                                            op_mult<NumericT>,
+                                            ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl < ct_binary_expr<ct_constant<0>,
+                                            op_mult<NumericT>,
+                                            ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>,
+                                            op_mult<NumericT>,
+                                            ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>          type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl < ct_binary_expr<ct_constant<1>,
+                                            op_mult<NumericT>,
+                                            ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>          type;
+      };
+
+      template <typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator> >,
+                                            op_mult<NumericT>,
+                                            ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_constant<0>,
+                                            op_mult<NumericT>,
+                                            ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator> >,
+                                            op_mult<NumericT>,
+                                            ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator> >          type;
+      };
+
+      template <typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_constant<1>,
+                                            op_mult<NumericT>,
+                                            ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator> >          type;
+      };
+
+      // (a / b) combined with the neutral elements:
+      template <long numerator, typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >,
+                                            op_plus<NumericT>,
+                                            ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr< ct_constant<(numerator) / result_of::gcd<numerator, denominator>::value>,
+                                op_div<NumericT>,
+                                ct_constant<(denominator) / result_of::gcd<numerator, denominator>::value> >          type;
+      };
+
+      template <long numerator, typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_constant<0>,
+                                            op_plus<NumericT>,
+                                            ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr< ct_constant<(numerator) / result_of::gcd<numerator, denominator>::value>,
+                                op_div<NumericT>,
+                                ct_constant<(denominator) / result_of::gcd<numerator, denominator>::value> >          type;
+      };
+
+      template <long numerator, typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >,
+                                            op_mult<NumericT>,
+                                            ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <long numerator, typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_constant<0>,
+                                            op_mult<NumericT>,
+                                            ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <long numerator, typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >,
+                                            op_mult<NumericT>,
+                                            ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr< ct_constant<(numerator) / result_of::gcd<numerator, denominator>::value>,
+                                op_div<NumericT>,
+                                ct_constant<(denominator) / result_of::gcd<numerator, denominator>::value> >          type;
+      };
+
+      template <long numerator, typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_constant<1>,
+                                            op_mult<NumericT>,
+                                            ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr< ct_constant<(numerator) / result_of::gcd<numerator, denominator>::value>,
+                                op_div<NumericT>,
+                                ct_constant<(denominator) / result_of::gcd<numerator, denominator>::value> >          type;
+      };
+
+      template <long numerator, typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >,
+                                            op_div<NumericT>,
+                                            ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr< ct_constant<(numerator) / result_of::gcd<numerator, denominator>::value>,
+                                op_div<NumericT>,
+                                ct_constant<(denominator) / result_of::gcd<numerator, denominator>::value> >          type;
+      };
+
+      template <long numerator, typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_constant<0>,
+                                            op_div<NumericT>,
+                                            ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      // 0 / (-1):
+      template <typename NumericT>
+      struct simplify_impl < ct_binary_expr<ct_constant<0>,
+                                            op_div<NumericT>,
+                                            ct_constant<-1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      // (1 / b) multiplied by constants or rational numbers:
+      template <long value_1, typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_constant<value_1>,
+                                            op_mult<NumericT>,
+                                            ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr< ct_constant<(value_1) / result_of::gcd<value_1, denominator>::value>,
+                                op_div<NumericT>,
+                                ct_constant<(denominator) / result_of::gcd<value_1, denominator>::value> >          type;
+      };
+
+      template <long value_1, typename NumericT, long denominator>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator> >,
+                                            op_mult<NumericT>,
+                                            ct_constant<value_1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr< ct_constant<(value_1) / result_of::gcd<value_1, denominator>::value>,
+                                op_div<NumericT>,
+                                ct_constant<(denominator) / result_of::gcd<value_1, denominator>::value> >          type;
+      };
+
+      template <long numerator_1, long denominator_1, typename NumericT, long denominator_2>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                            op_mult<NumericT>,
+                                            ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr< ct_constant<(numerator_1) / result_of::gcd<numerator_1, denominator_1 * denominator_2>::value>,
+                                op_div<NumericT>,
+                                ct_constant<(denominator_1 * denominator_2) / result_of::gcd<numerator_1, denominator_1 * denominator_2>::value> >          type;
+      };
+
+      template <long denominator_1, typename NumericT, long numerator_2, long denominator_2>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                            op_mult<NumericT>,
+                                            ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr< ct_constant<(numerator_2) / result_of::gcd<numerator_2, denominator_1 * denominator_2>::value>,
+                                op_div<NumericT>,
+                                ct_constant<(denominator_1 * denominator_2) / result_of::gcd<numerator_2, denominator_1 * denominator_2>::value> >          type;
+      };
+
+      template <long denominator_1, typename NumericT, long denominator_2>
+      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                            op_mult<NumericT>,
+                                            ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr< ct_constant<1>,
+                                op_div<NumericT>,
+                                ct_constant<denominator_1 * denominator_2> >          type;
+      };
+
     } //namespace detail
 
     ////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f7c9ed2e39a12d24b2d0dc2d3786b4ada902c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 18/36] fix: sums of compiletime constants and expressions with
 runtime constants did not compile

---
 viennamath/compiletime/operations/ct_constant.hpp | 8 ++++----
 viennamath/runtime/operations/constant.hpp        | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_constant.hpp b/viennamath/compiletime/operations/ct_constant.hpp
index ae359f7..dd7a4fb 100644
--- a/viennamath/compiletime/operations/ct_constant.hpp
+++ b/viennamath/compiletime/operations/ct_constant.hpp
@@ -43,7 +43,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 + X) -> [ct_c1 + ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -70,7 +70,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 - X) -> [ct_c1 + ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -109,7 +109,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 + X) -> [ct_c1 - ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -136,7 +136,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 - X) -> [ct_c1 - ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
diff --git a/viennamath/runtime/operations/constant.hpp b/viennamath/runtime/operations/constant.hpp
index d00ef5d..2fc4e39 100644
--- a/viennamath/runtime/operations/constant.hpp
+++ b/viennamath/runtime/operations/constant.hpp
@@ -125,7 +125,7 @@ namespace viennamath
       typedef rt_constant<ScalarType, InterfaceType>    result_constant;
       return ct_binary_expr<result_constant,
                             op_minus<default_numeric_type>,
-                            RHS >(result_constant(value + other),
+                            RHS >(result_constant(value + static_cast<ScalarType>(other)),
                                   lhs.rhs());
     }
 
-- 
2.43.0


From a87cf70fe1083f08cae7ee95baf5cd75516ba507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 19/36] fix: compiletime expressions with runtime constants
 could not be converted to runtime expressions

---
 viennamath/runtime/binary_expr.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 6a8bd51..abd3d0f 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -136,6 +136,28 @@ namespace viennamath
         rhs_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
       }
 
+      /////////////////// special case: rt_constant involved: //////////////////////////
+      template <typename ScalarType, typename OP, typename RHS>
+      explicit rt_binary_expr(ct_binary_expr<rt_constant<ScalarType, InterfaceType>, OP, RHS> const & other) : op_(new op_binary<OP, InterfaceType>())
+      {
+        lhs_ = std::auto_ptr<InterfaceType>(other.lhs().clone());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+      }
+
+      template <typename ScalarType, typename OP, long value>
+      explicit rt_binary_expr(ct_binary_expr<rt_constant<ScalarType, InterfaceType>, OP, ct_constant<value> > const & other) : op_(new op_binary<OP, InterfaceType>())
+      {
+        lhs_ = std::auto_ptr<InterfaceType>(other.lhs().clone());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
+      }
+
+      template <typename ScalarType, typename OP, id_type id>
+      explicit rt_binary_expr(ct_binary_expr<rt_constant<ScalarType, InterfaceType>, OP, ct_variable<id> > const & other) : op_(new op_binary<OP, InterfaceType>())
+      {
+        lhs_ = std::auto_ptr<InterfaceType>(other.lhs().clone());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
+      }
+
       /*explicit rt_binary_expr(variable<InterfaceType> const & other) : lhs_(other.clone()),
                                                                     op_(new op_unary_id_type()),
                                                                     rhs_(other.clone()) {}
-- 
2.43.0


From d90d484034fbdc5895f89b40fe6635ab478df1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 20/36] fix: operators dropped the values of runtime constants
 within compiletime expressions

---
 viennamath/compiletime/operations/ct_ct.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_ct.hpp b/viennamath/compiletime/operations/ct_ct.hpp
index 6eb3a95..e3a3eb5 100644
--- a/viennamath/compiletime/operations/ct_ct.hpp
+++ b/viennamath/compiletime/operations/ct_ct.hpp
@@ -40,7 +40,7 @@ namespace viennamath
                              op_plus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for subtracting two compiletime expressions */
@@ -51,7 +51,7 @@ namespace viennamath
                              op_minus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for multiplying two compiletime expressions */
@@ -62,7 +62,7 @@ namespace viennamath
                              op_mult<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for dividing two compiletime expressions */
@@ -73,7 +73,7 @@ namespace viennamath
                              op_div<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
   }
-- 
2.43.0


From cbeb59412762f0a93d2eab5da6a2c2012b5b2356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 21/36] fix: quotient of two expressions with different runtime
 constants was reduced to one

---
 viennamath/compiletime/operations/ct_expr.hpp | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/viennamath/compiletime/operations/ct_expr.hpp b/viennamath/compiletime/operations/ct_expr.hpp
index 1aa3b59..3d7fc3e 100644
--- a/viennamath/compiletime/operations/ct_expr.hpp
+++ b/viennamath/compiletime/operations/ct_expr.hpp
@@ -29,6 +29,34 @@
 
 namespace viennamath
 {
+
+  namespace result_of
+  {
+    /** @brief Helper metafunction: Nonzero if the expression contains a runtime constant, in which case two expressions of the same type do not necessarily have the same value. */
+    template <typename T>
+    struct has_rt_constant
+    {
+      enum { value = 0 };
+    };
+
+    template <typename ScalarType, typename InterfaceType>
+    struct has_rt_constant< rt_constant<ScalarType, InterfaceType> >
+    {
+      enum { value = 1 };
+    };
+
+    template <typename LHS, typename OP, typename RHS>
+    struct has_rt_constant< ct_binary_expr<LHS, OP, RHS> >
+    {
+      enum { value = has_rt_constant<LHS>::value || has_rt_constant<RHS>::value };
+    };
+
+    template <typename LHS, typename OP>
+    struct has_rt_constant< ct_unary_expr<LHS, OP> >
+    {
+      enum { value = has_rt_constant<LHS>::value };
+    };
+  }
   /////////////////////////////////// operator+ ///////////////////////////////////
 
       /** @brief Special overload: (ct_c1 + X) + ct_c2 becomes [ct_c1 + ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -156,7 +184,8 @@ namespace viennamath
 
       /** @brief Special overload: division of the same thing leads to '1' */
       template <typename LHS, typename OP, typename RHS>
-      ct_constant<1>
+      typename enable_if< !result_of::has_rt_constant< ct_binary_expr<LHS, OP, RHS> >::value,
+                          ct_constant<1> >::type
       operator/(ct_binary_expr<LHS, OP, RHS> const & /*lhs*/,
                 ct_binary_expr<LHS, OP, RHS> const & /*other*/)
       {
-- 
2.43.0


From 1f21a666b85e6e67b67b2a570e29f6ddb4660c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 22/36] fix: LaTeX translation of integer runtime constants
 resulted in an unknown symbol

---
 viennamath/manipulation/latex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 0692d96..0743b99 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -433,6 +433,9 @@ namespace viennamath
           return process_impl(*temp, use_parenthesis, translator);
         }
 
+        if (dynamic_cast< const rt_constant<long, InterfaceType> * >(ptr) != NULL)
+          return process_impl(Constant(ptr->unwrap()), use_parenthesis, translator);
+
         return "";
       }
 
-- 
2.43.0


From cf0cc2dc35507241943dd310ce0d62043f0725aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 23/36] fix: assignment of an empty expression dereferenced a
 NULL pointer

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index 0b7998d..a12716c 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -128,7 +128,7 @@ namespace viennamath
 
       rt_expr & operator=(rt_expr const & other)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(other.get()->clone());
+        rt_expr_ = std::auto_ptr<InterfaceType>((other.get() != NULL) ? other.get()->clone() : NULL);
         return *this;
       }
 
-- 
2.43.0


From e40d8105537539aa486b2075ad74a3338d91ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:33 +0000
Subject: [PATCH 24/36] fix: assigning an operand of an expression to the
 expression itself read freed memory

---
 viennamath/runtime/binary_expr.hpp | 10 +++++++---
 viennamath/runtime/unary_expr.hpp  |  7 +++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index abd3d0f..affd803 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -221,9 +221,13 @@ namespace viennamath
 
       rt_binary_expr & operator=(rt_binary_expr const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.lhs()->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op()->clone());
-        rhs_ = std::auto_ptr<InterfaceType>(other.rhs()->clone());
+        // copy everything first, because 'other' may be an operand of *this
+        std::auto_ptr<InterfaceType>     new_lhs(other.lhs()->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op()->clone());
+        std::auto_ptr<InterfaceType>     new_rhs(other.rhs()->clone());
+        lhs_ = new_lhs;
+        op_  = new_op;
+        rhs_ = new_rhs;
         return *this;
       }
 
diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 2576b3a..5ea64b4 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -93,8 +93,11 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.expr_->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
+        // copy everything first, because 'other' may be the operand of *this
+        std::auto_ptr<InterfaceType>     new_expr(other.expr_->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op_->clone());
+        expr_ = new_expr;
+        op_   = new_op;
         return *this;
       }
 
-- 
2.43.0


From 905474fdb6c7d08b16a1bdd39ca9717524613756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:03 +0000
Subject: [PATCH 25/36] fix: a number or constant assigned to a binary
 expression could not be evaluated

---
 viennamath/runtime/binary_expr.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index affd803..d583982 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -44,7 +44,7 @@ namespace viennamath
   class rt_binary_expr : public InterfaceType
   {
     typedef op_interface<InterfaceType>                                           op_interface_type;
-    typedef op_unary<op_id<typename InterfaceType::numeric_type>, InterfaceType>  op_unary_id_type;
+    typedef op_binary<op_plus<typename InterfaceType::numeric_type>, InterfaceType>  op_binary_plus_type;
 
       typedef rt_binary_expr<InterfaceType>    self_type;
 
@@ -213,8 +213,8 @@ namespace viennamath
       {
         //std::cout << "Constructing from expression " << other << std::endl;
         lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
+        op_  = std::auto_ptr<op_interface_type>(new op_binary_plus_type());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(0));
         return *this;
       }
 
@@ -235,8 +235,8 @@ namespace viennamath
       rt_binary_expr & operator=(rt_constant<ScalarType> const & other)
       {
         lhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(other.clone());
+        op_  = std::auto_ptr<op_interface_type>(new op_binary_plus_type());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(0));
         return *this;
       }
 
@@ -249,8 +249,8 @@ namespace viennamath
       rt_binary_expr & operator=(numeric_type value)
       {
         lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
+        op_  = std::auto_ptr<op_interface_type>(new op_binary_plus_type());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(0));
         return *this;
       }
 
-- 
2.43.0


From f265caf4af74202536f6a8754002caa6d793708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 26/36] fix: compiletime integration did not compile if
 simplification factored out -1

---
 viennamath/manipulation/integrate.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index e97dfd3..b77f5e7 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -366,8 +366,11 @@ namespace viennamath
       typedef typename viennamath::result_of::expand<IntegrandType>::type         expanded_integrand;
       typedef typename viennamath::result_of::simplify<expanded_integrand>::type  simplified_integrand;
 
+      // simplification may factor out -1, as in (0 - x) - y -> -1 * (x + y), hence expand again:
+      typedef typename viennamath::result_of::expand<simplified_integrand>::type  prepared_integrand;
+
       typedef typename detail::integrate_impl<LowerBound, UpperBound,
-                                              simplified_integrand,
+                                              prepared_integrand,
                                               VariableType>::type    type;
 
     };
-- 
2.43.0


From 848b6eee1583f74959232c0a07271fcacf18386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:48 +0000
Subject: [PATCH 27/36] fix: sum of (ct constant - X) and an integer runtime
 constant did not compile

---
 viennamath/runtime/operations/constant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/operations/constant.hpp b/viennamath/runtime/operations/constant.hpp
index 2fc4e39..8c9c0a8 100644
--- a/viennamath/runtime/operations/constant.hpp
+++ b/viennamath/runtime/operations/constant.hpp
@@ -122,7 +122,7 @@ namespace viennamath
     operator+(ct_binary_expr<ct_constant<value>, op_minus<default_numeric_type>, RHS> const & lhs,
               rt_constant<ScalarType, InterfaceType> const & other)
     {
-      typedef rt_constant<ScalarType, InterfaceType>    result_constant;
+      typedef rt_constant<default_numeric_type, InterfaceType>    result_constant;
       return ct_binary_expr<result_constant,
                             op_minus<default_numeric_type>,
                             RHS >(result_constant(value + static_cast<ScalarType>(other)),
-- 
2.43.0


From 7ad2a4ff062ec37acd865de936d9ed655e6f629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:16 +0000
Subject: [PATCH 28/36] fix: eval() of a compile-time variable read beyond the
 end of short vectors

---
 viennamath/manipulation/eval.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/eval.hpp b/viennamath/manipulation/eval.hpp
index 12cd769..a0b9017 100644
--- a/viennamath/manipulation/eval.hpp
+++ b/viennamath/manipulation/eval.hpp
@@ -284,9 +284,9 @@ namespace viennamath
    * @param v         Either a single number (typically of type double) or a vector type offering bracket-access (e.g. std::vector<>)
    */
   template <id_type id, typename VectorType>
-  default_numeric_type eval(ct_variable<id> /*c*/, VectorType const & v)
+  default_numeric_type eval(ct_variable<id> c, VectorType const & v)
   {
-    return v[id];
+    return c(v);
   }
 
   /** @brief Evaluation of a ViennaMath compiletime variable using a compiletime vector with one entry */
-- 
2.43.0


From f5ed5466066fa8084c1fe7a85a00d77d9ae3423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:16 +0000
Subject: [PATCH 29/36] fix: printing a compile-time function symbol did not
 compile

---
 viennamath/compiletime/ct_function_symbol.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennamath/compiletime/ct_function_symbol.hpp b/viennamath/compiletime/ct_function_symbol.hpp
index 7560817..6d719f2 100644
--- a/viennamath/compiletime/ct_function_symbol.hpp
+++ b/viennamath/compiletime/ct_function_symbol.hpp
@@ -75,6 +75,7 @@ namespace viennamath
   template <typename Tag>
   class ct_function_symbol
   {
+    public:
       static std::string str()
       {
         return Tag::str();
-- 
2.43.0


From 75885e739396bd7e295704fbf25e2455a0adfe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:16 +0000
Subject: [PATCH 30/36] fix: compile-time vectors with one or two entries held
 references to temporaries

---
 viennamath/compiletime/ct_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viennamath/compiletime/ct_vector.hpp b/viennamath/compiletime/ct_vector.hpp
index 7f0c4b9..e9d369f 100644
--- a/viennamath/compiletime/ct_vector.hpp
+++ b/viennamath/compiletime/ct_vector.hpp
@@ -54,7 +54,7 @@ namespace viennamath
       size_t size() const { return 1; }
 
     private:
-      T0 const & t0_;
+      T0 t0_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with one entry to an output stream */
@@ -98,8 +98,8 @@ namespace viennamath
       std::size_t size() const { return 2; }
 
     private:
-      T0 const & t0_;
-      T1 const & t1_;
+      T0 t0_;
+      T1 t1_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with two entries to an output stream */
-- 
2.43.0


From 872f316132d8db1397c811cfdc288d7c189f3516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 31/36] fix: make_interval() and make_equation() with a number
 and a runtime constant did not compile

---
 viennamath/runtime/equation.hpp | 2 +-
 viennamath/runtime/interval.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/equation.hpp b/viennamath/runtime/equation.hpp
index aaf99fb..30025ab 100644
--- a/viennamath/runtime/equation.hpp
+++ b/viennamath/runtime/equation.hpp
@@ -72,7 +72,7 @@ namespace viennamath
 
   ////// scalar is first argument:
   /** @brief Generator for an equation with a (floating point) constant as left hand side and a ViennaMath runtime constant as right hand side */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_equation<InterfaceType> make_equation(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_equation<InterfaceType>(lhs, rhs);
diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index ed1d9ba..976f738 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -92,7 +92,7 @@ namespace viennamath
   }
 
   /** @brief Creates an interval, where the upper bound is given by a ViennaMath constant */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_interval<InterfaceType> make_interval(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_interval<InterfaceType>(lhs, rhs);
-- 
2.43.0


From 263ed0cc0112b50422aef148d959153ca8633371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 32/36] fix: make_interval() with a compile-time variable and a
 runtime object was ambiguous

---
 viennamath/runtime/interval.hpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 976f738..d34a8e6 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -224,14 +224,6 @@ namespace viennamath
     return rt_interval<typename RHSType::interface_type>(lhs, rhs);
   }
 
-  /** @brief Creates an interval, where the lower bound is given by a ViennaMath compiletime variable */
-  template <id_type id, typename RHSType>
-  rt_interval<typename RHSType::interface_type>
-  make_interval(ct_variable<id> const & lhs, RHSType const & rhs)
-  {
-    return rt_interval<typename RHSType::interface_type>(lhs, rhs);
-  }
-
 }
 
 #endif
-- 
2.43.0


From 718f7078e1470380ecf2559f509f28688e5e1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:01 +0000
Subject: [PATCH 33/36] fix: copying an empty numerical quadrature object
 dereferenced a null pointer

---
 viennamath/runtime/numerical_quadrature.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index 8cbb291..a348a05 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -116,13 +116,13 @@ namespace viennamath
 
 
       // Copy CTOR:
-      rt_numerical_quadrature(const rt_numerical_quadrature & other) : quadrature_rule_(other.quadrature_rule_->clone()) {}
+      rt_numerical_quadrature(const rt_numerical_quadrature & other) : quadrature_rule_(other.quadrature_rule_.get() ? other.quadrature_rule_->clone() : NULL) {}
 
 
       // Copy CTOR:
       rt_numerical_quadrature & operator=(const rt_numerical_quadrature & other)
       {
-        quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_->clone());
+        quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_.get() ? other.quadrature_rule_->clone() : NULL);
         return *this;
       }
 
-- 
2.43.0


From 875e7fd53512538efc820ae51f50846268c00724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:34 +0000
Subject: [PATCH 34/36] fix: assigning a compile-time expression with a
 variable to a binary expression compiles

The assignment operators built the operands with rt_binary_expr's constructor
even where an operand is a compile-time variable, for which there is none.
---
 viennamath/runtime/binary_expr.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index d583982..cac8352 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -182,30 +182,20 @@ namespace viennamath
       template <typename LHS, typename OP, typename RHS>
       rt_binary_expr & operator=(ct_binary_expr<LHS, OP, RHS> const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
-        return *this;
+        // the constructors deal with compile time constants, variables and nested expressions as operands
+        return *this = rt_binary_expr<InterfaceType>(other);
       }
 
       template <typename LHS, typename OP, long value>
       rt_binary_expr & operator=(ct_binary_expr<LHS, OP, ct_constant<value> > const & other)
       {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        return *this;
+        return *this = rt_binary_expr<InterfaceType>(other);
       }
 
       template <long value, typename OP, typename RHS>
       rt_binary_expr & operator=(ct_binary_expr<ct_constant<value>, OP, RHS > const & other)
       {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
-        return *this;
+        return *this = rt_binary_expr<InterfaceType>(other);
       }
 
       template <long value1, typename OP, long value2>
-- 
2.43.0


From ba2495484a50947cfe3941147e44b500aa23a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 35/36] fix: a unary expression can be made from a compile-time
 constant

The constructor called ct_constant::clone(), which does not exist.
---
 viennamath/runtime/unary_expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 5ea64b4..45e3ed9 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -75,8 +75,8 @@ namespace viennamath
                                                                       op_(new op_unary_id_type()) {}
 
       template <long value>
-      explicit rt_unary_expr(ct_constant<value> const & other) : expr_(other.clone()),
-                                                              op_(new op_unary_id_type()) {}
+      explicit rt_unary_expr(ct_constant<value> const & /*other*/) : expr_(new rt_constant<numeric_type, InterfaceType>(value)),
+                                                                  op_(new op_unary_id_type()) {}
 
       //Copy CTOR:
       rt_unary_expr(rt_unary_expr const & other) : expr_(other.expr_->clone()),
-- 
2.43.0


From 7659ebb027eaf2643fd1280b951c2f5fbd7273ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:24 +0000
Subject: [PATCH 36/36] fix: LaTeX translation of int and float runtime
 constants resulted in an unknown symbol

---
 viennamath/manipulation/latex.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 0743b99..da04485 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -433,7 +433,9 @@ namespace viennamath
           return process_impl(*temp, use_parenthesis, translator);
         }
 
-        if (dynamic_cast< const rt_constant<long, InterfaceType> * >(ptr) != NULL)
+        if (   dynamic_cast< const rt_constant<long, InterfaceType> * >(ptr) != NULL
+            || dynamic_cast< const rt_constant<int, InterfaceType> * >(ptr) != NULL
+            || dynamic_cast< const rt_constant<float, InterfaceType> * >(ptr) != NULL)
           return process_impl(Constant(ptr->unwrap()), use_parenthesis, translator);
 
         return "";
-- 
2.43.0

