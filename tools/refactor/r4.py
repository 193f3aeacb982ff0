# behaviour-preserving edits, fourth round (every listed check has to stay quiet)
R = 'viennamath/runtime/'; MA = 'viennamath/manipulation/'
B = R+'binary_expr.hpp'; UN = R+'unary_expr.hpp'; VX = R+'vector_expr.hpp'; X = R+'expr.hpp'; IV = R+'interval.hpp'; EQ = R+'equation.hpp'; C = R+'constant.hpp'
V = R+'variable.hpp'; F = R+'function_symbol.hpp'; INT = R+'integral.hpp'; Q = R+'numerical_quadrature.hpp'; FW = R+'functor_wrapper.hpp'; EI = R+'expression_interface.hpp'
S = MA+'detail/binary_operations.hpp'; U = MA+'detail/unary_operations.hpp'; SU = MA+'substitute.hpp'; SI = MA+'simplify.hpp'; L = MA+'latex.hpp'; CS = MA+'apply_coordinate_system.hpp'; D = MA+'diff.hpp'
EX = MA+'expand.hpp'; CO = MA+'coefficient.hpp'; EV = MA+'eval.hpp'; IG = MA+'integrate.hpp'
import re
def T(f): return open('/repo/' + f).read()
def whole(f, fn): t = T(f); n = fn(t); assert n != t, f; return (f, t, n)
RT = 'P01,P04,P06,P07,P08,P10,P11,P12,P13,P14,P22'
M = [
 # --- compile time
 ('e01-expand-sum', 'P18,P19,P20', [(EX, '''    struct expand< ct_binary_expr<LHS, op_plus<NumericT>, RHS> >
    {
      typedef ct_binary_expr<typename expand<LHS>::type,
                             op_plus<NumericT>,
                             typename expand<RHS>::type >     type;
    };''', '''    struct expand< ct_binary_expr<LHS, op_plus<NumericT>, RHS> > : public detail::expand_operands<LHS, op_plus<NumericT>, RHS> {};'''),
   (EX, '''    struct expand< ct_binary_expr<LHS, op_minus<NumericT>, RHS> >
    {
      typedef ct_binary_expr<typename expand<LHS>::type,
                             op_minus<NumericT>,
                             typename expand<RHS>::type >     type;
    };''', '''    struct expand< ct_binary_expr<LHS, op_minus<NumericT>, RHS> > : public detail::expand_operands<LHS, op_minus<NumericT>, RHS> {};'''),
   (EX, '''    } //namespace detail

''', '''      template <typename LHS, typename OP, typename RHS>
      struct expand_operands
      {
        typedef ct_binary_expr<typename viennamath::result_of::expand<LHS>::type, OP, typename viennamath::result_of::expand<RHS>::type >     type;
      };
    } //namespace detail

''')]),
 ('e02-expand-kind', 'P18,P19,P20', [(EX, '''                bool lhs_expandable = (has_plus_or_minus<LHS>::value != 0),
                bool rhs_expandable = (has_plus_or_minus<RHS>::value != 0)>''', '''                int kind = (has_plus_or_minus<LHS>::value != 0 ? 2 : 0) + (has_plus_or_minus<RHS>::value != 0 ? 1 : 0)>'''),
   (EX, 'struct expand_product <LHS, RHS, true, false>', 'struct expand_product <LHS, RHS, 2>'), (EX, 'struct expand_product <LHS, RHS, false, true>', 'struct expand_product <LHS, RHS, 1>'), (EX, 'struct expand_product <LHS, RHS, true, true>', 'struct expand_product <LHS, RHS, 3>')]),
 ('e03-enum-values', 'P18,P19,P20', [whole(EX, lambda t: re.sub(r'static const int value = (.*?);', r'enum { value = \1 };', t)), whole(CO, lambda t: re.sub(r'static const int value = (.*?);', r'enum { value = \1 };', t))]),
 ('e04-simplify-bool', 'P16,P20,P21,P19', [whole(SI, lambda t: t.replace('static const int value = simplify_impl<LHS>::value + simplify_impl<RHS>::value;', 'static const bool value = simplify_impl<LHS>::value || simplify_impl<RHS>::value;').replace('static const int value = 1;', 'static const bool value = true;').replace('static const int value = 0;', 'static const bool value = false;').replace('bool optimization_possible = (detail::simplify_impl<ExpressionType>::value != 0)', 'bool optimization_possible = detail::simplify_impl<ExpressionType>::value'))]),
 ('e05-extract-merge', 'P19', [(CO, '''      struct extract_factor_from_product<FactorType, LHS, NumericT, RHS, true, false>
      {''', '''      struct extract_factor_from_product<FactorType, LHS, NumericT, RHS, true, false> : public extract_factor_from_product<FactorType, LHS, NumericT, RHS, true, true> {};

      template <typename FactorType,
                typename LHS, typename NumericT, typename RHS>
      struct extract_lhs_factor
      {'''), (CO, '''        // if both LHS and RHS contain the factor, we extract the coefficient from the LHS and multiply with RHS
        typedef ct_binary_expr< typename coefficient_impl<FactorType, LHS>::type,
                                op_mult<NumericT>,
                                RHS
                              >                    type;''', '''        // if both LHS and RHS contain the factor, we extract the coefficient from the LHS and multiply with RHS
        typedef typename extract_lhs_factor<FactorType, LHS, NumericT, RHS>::type                    type;''')]),
 ('e06-subst-detail', 'P21,P20,P19', [(SU, '''    struct substitute <SearchType, ReplacementType, ct_binary_expr<LHS, OP, RHS> >
    {
      typedef ct_binary_expr< typename substitute<SearchType, ReplacementType, LHS>::type,
                              OP,
                              typename substitute<SearchType, ReplacementType, RHS>::type >   type;
    };''', '''    struct substitute <SearchType, ReplacementType, ct_binary_expr<LHS, OP, RHS> >
    {
      typedef typename substitute<SearchType, ReplacementType, LHS>::type   left_type;
      typedef typename substitute<SearchType, ReplacementType, RHS>::type   right_type;
      typedef ct_binary_expr<left_type, OP, right_type>   type;
    };''')]),
 ('e07-eval-operand', 'P21', [(EV, '''      typedef ct_binary_expr< typename eval<LHS, VectorType>::type,
                              OP,
                              typename eval<RHS, VectorType>::type >  intermediate_type;

      // run two rational evaluations in the following (the second ensures a resolution of a/1 and 0/b cases)
      typedef typename result_of::simplify<intermediate_type>::type   type;''', '''      typedef typename result_of::simplify< typename eval_operands<LHS, OP, RHS, VectorType>::type >::type   type;'''),
   (EV, '''    //valid arguments:
''', '''    template <typename LHS, typename OP, typename RHS, typename VectorType>
    struct eval_operands
    {
      typedef ct_binary_expr< typename eval<LHS, VectorType>::type, OP, typename eval<RHS, VectorType>::type >  type;
    };

    //valid arguments:
''')]),
 ('e09-diff-swap', 'P17', [whole(D, lambda t: t)] if 0 else []),
 ('e11-degree-enum', 'P20', [whole(IG, lambda t: re.sub(r'static const int value = (.*?);', r'enum { value = \1 };', t))]),
 ('e12-front-ends', 'P16,P18,P21', [(SI, '''    return typename result_of::simplify<ExpressionType>::type();''', '''    typedef typename result_of::simplify<ExpressionType>::type    result_type;
    result_type result;
    return result;'''), (EX, '''    return typename result_of::expand<ExpressionType>::type();''', '''    typedef typename result_of::expand<ExpressionType>::type  result_type;
    return result_type();''')]),
 ('e13-macro-rules', 'P16', [(SI, '''      // something times 0 is 0
      template <typename LHS, typename NumericT>
      struct simplify_impl < ct_binary_expr<LHS, op_mult<NumericT>, ct_constant<0> > >
      {
        static const int value = 1;
        typedef ct_constant<0>          type;
      };
''', '''      #define VIENNAMATH_RESULT(T)  static const int value = 1; typedef T type
      // something times 0 is 0
      template <typename LHS, typename NumericT>
      struct simplify_impl < ct_binary_expr<LHS, op_mult<NumericT>, ct_constant<0> > > { VIENNAMATH_RESULT(ct_constant<0>); };
      #undef VIENNAMATH_RESULT
''')]),
 ('e14-monomial-base', 'P20', [(IG, '''    struct integrate_monomial < VariableType, 0>
    {
      typedef VariableType      type;
    };''', '''    struct integrate_monomial < VariableType, 0> : public pow<VariableType, 1> {};''')]),
 # --- runtime
 ('f01-new-virtual', RT, [(EI, '''      /** @brief Returns true, if the expression can be evaluated without providing values for variables (i.e. the expression is a constant) */
      virtual bool is_constant() const { return false; }''', '''      /** @brief Returns true, if the expression can be evaluated without providing values for variables (i.e. the expression is a constant) */
      virtual bool is_constant() const { return false; }

      /** @brief Returns true for a constant with the supplied value */
      virtual bool is_value(NumericT val) const { return is_constant() && unwrap() == val; }''')] ),
 ('f02-copy-swap', 'P11,P12,P04', [(X, '''        rt_expr_ = std::auto_ptr<InterfaceType>(other.get() != NULL ? other.get()->clone() : NULL);
        return *this;''', '''        rt_expr temp(other);
        rt_expr_.reset(temp.rt_expr_.release());
        return *this;''')]),
 ('f06-eval-helper', 'P01,P02', [(B, '''        return op_->apply(lhs_.get()->eval(v), rhs_.get()->eval(v));''', '''        return apply_to(v);'''), (B, '''        return op_->apply(lhs_.get()->eval(val), rhs_.get()->eval(val));
      }
''', '''        return apply_to(val);
      }

      template <typename ArgumentT>
      numeric_type apply_to(ArgumentT const & arg) const
      {
        const numeric_type left  = lhs_->eval(arg);
        const numeric_type right = rhs_->eval(arg);
        return op_->apply(left, right);
      }
''')]),
 ('f07-is-zero-helper', 'P06,P07,P12', [whole(S, lambda t: t.replace('lhs->is_constant())\n      {\n        if (lhs->unwrap() == 0.0)', 'has_value(lhs, NumericT(0)))\n      {\n        if (true)').replace('''  //
  // subtraction
  //''', '''  //
  // subtraction
  //''')), (S, '''  //
  // addition
  //''', '''  template <typename InterfaceType, typename NumericT>
  bool has_value(const InterfaceType * e, NumericT val) { return e->is_constant() && e->unwrap() == val; }

  //
  // addition
  //''')]),
 ('f08-vec-transform', 'P15,P12,P04,P08', [(VX, '''        self_type * result = new self_type(BaseType::size());

        for (std::size_t i=0; i<result->size(); ++i)
          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->diff(diff_var));

        return result;''', '''        self_type * result = new self_type(BaseType::size());
        typename BaseType::const_iterator it = BaseType::begin();

        for (typename BaseType::iterator out = result->begin(); out != result->end(); ++out, ++it)
          *out = viennamath::rt_expr<InterfaceType>(it->get()->diff(diff_var));

        return result;''')]),
 ('f09-vec-lambda', 'P15,P12', [(VX, '''    rt_vector_expr<InterfaceType> result(lhs.size());
    for (std::size_t i=0; i<lhs.size(); ++i)
      result[i] = lhs[i] / rhs;

    return result;''', '''    rt_vector_expr<InterfaceType> result(lhs);
    for (auto & component : result)
      component = component / rhs;

    return result;''')]),
 ('f10-scoped-holder', 'P06,P07,P12', [(SI, '''    while (e.get()->can_simplify())
      e = e.get()->simplify();''', '''    for (const InterfaceType * current = e.get(); current->can_simplify(); current = e.get())
      e = current->simplify();''')]),
 ('f11-typeid', 'P10,P04', [(V, 'dynamic_cast< const self_type * >(other) != NULL', 'typeid(*other) == typeid(self_type)', 'all')]),
 ('f14-throw-helper', 'P01,P02,P12', [(V, '''      template <typename VectorType>
      numeric_type
      operator()(VectorType const & v) const
      {''', '''      void out_of_bounds(std::size_t available) const
      {
        throw variable_index_out_of_bounds_exception(static_cast<long>(id_), static_cast<long>(available));
      }

      template <typename VectorType>
      numeric_type
      operator()(VectorType const & v) const
      {'''), whole(V, lambda t: t)] if 0 else []),
 ('f15-coord-lambda', 'P24', [(CS, '''    rt_expr<InterfaceType> new_ex1(substitute(grad(u), grad_u, ex) );
    rt_expr<InterfaceType> new_ex2(substitute(grad(v), grad_v, new_ex1) );

    //replace div:
    rt_expr<InterfaceType> new_ex3(substitute(div(u), diff(u, x) + diff(u, y) + diff(u, z), new_ex2) );
    rt_expr<InterfaceType> new_ex4(substitute(div(v), diff(v, x) + diff(v, y) + diff(v, z), new_ex3) );

    return new_ex4;''', '''    rt_expr<InterfaceType> result(ex);
    result = substitute(grad(u), grad_u, result);
    result = substitute(grad(v), grad_v, result);

    //replace div:
    result = substitute(div(u), grad_u[0] + grad_u[1] + grad_u[2], result);
    result = substitute(div(v), grad_v[0] + grad_v[1] + grad_v[2], result);

    return result;''')]),
 ('f16-diff-one-helper', 'P08,P09', [whole(D, lambda t: t.replace('''    rt_expr<InterfaceType> temp(e.diff(&var));
    inplace_simplify(temp);
    return temp;''', '''    return simplified_derivative(&e, &var);''').replace('''  //
  /////////////////// Derivative of runtime expression''', '''  template <typename InterfaceType>
  rt_expr<InterfaceType> simplified_derivative(InterfaceType const * e, InterfaceType const * var)
  {
    rt_expr<InterfaceType> temp(e->diff(var));
    inplace_simplify(temp);
    return temp;
  }

  //
  /////////////////// Derivative of runtime expression''', 1).replace('simplified_derivative(&e, &var)', 'simplified_derivative<InterfaceType>(&e, &var)'))]),
 ('f17-interface-cache', RT, [(B, '''      numeric_type eval(std::vector<double> const & v) const
      {
''', '''      numeric_type eval(std::vector<double> const & v) const
      {
        ++evaluations_;
'''), (B, '''      std::auto_ptr<op_interface_type>     op_;''', '''      std::auto_ptr<op_interface_type>     op_;
      mutable std::size_t evaluations_ = 0;''')]),
 ('f18-swap-helper-assign', 'P11,P12', [(B, '''        std::auto_ptr<InterfaceType> new_lhs(other.lhs()->clone());
        std::auto_ptr<InterfaceType> new_rhs(other.rhs()->clone());
        op_  = std::auto_ptr<op_interface_type>(other.op()->clone());
        lhs_ = new_lhs;
        rhs_ = new_rhs;
        return *this;''', '''        rt_binary_expr temp(other);
        std::swap(lhs_, temp.lhs_);
        std::swap(op_, temp.op_);
        std::swap(rhs_, temp.rhs_);
        return *this;''')]),
 ('f19-self-check', 'P11,P12', [(X, '''        rt_expr_ = std::auto_ptr<InterfaceType>(other.get() != NULL ? other.get()->clone() : NULL);
        return *this;''', '''        if (this != &other)
        {
          std::auto_ptr<InterfaceType> copied;
          if (other.get())
            copied.reset(other.get()->clone());
          rt_expr_ = copied;
        }
        return *this;''')]),
 ('f20-quotient-rule-form', 'P08,P09', [(S, '''    return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs->diff(diff_var),
                                                                                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                                                   rhs->clone()),''', '''    return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(rhs->clone(),
                                                                                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                                                   lhs->diff(diff_var)),''')]),
]
M = [m for m in M if m[2]]
