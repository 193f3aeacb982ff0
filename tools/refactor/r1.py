# behaviour-preserving edits: every listed check has to stay quiet (tools/mut.py)
B = 'viennamath/runtime/binary_expr.hpp'; UN = 'viennamath/runtime/unary_expr.hpp'; VX = 'viennamath/runtime/vector_expr.hpp'
S = 'viennamath/manipulation/detail/binary_operations.hpp'; SU = 'viennamath/manipulation/substitute.hpp'; Q = 'viennamath/runtime/numerical_quadrature.hpp'
X = 'viennamath/runtime/expr.hpp'; CS = 'viennamath/manipulation/apply_coordinate_system.hpp'
M = [
 ('r01-for-to-while', 'P05,P12', (B, '''        for (size_t i=0; i<e.size(); ++i)
          if (deep_equal(e[i]))
            return repl[i]->clone();
''', '''        size_t i = 0;
        const size_t num = e.size();
        while (i < num)
        {
          const InterfaceType * candidate = e[i];
          if (deep_equal(candidate))
          {
            return repl[i]->clone();
          }
          i += 1;
        }
''')),
 ('r02-iterators', 'P05,P12', (UN, '''        for (std::size_t i=0; i<e.size(); ++i)
          if (deep_equal(e[i]))
            return repl[i]->clone();
''', '''        typename std::vector<const InterfaceType *>::const_iterator r = repl.begin();
        for (typename std::vector<const InterfaceType *>::const_iterator it = e.begin(); it != e.end(); ++it, ++r)
          if (deep_equal(*it))
            return (*r)->clone();
''')),
 ('r03-helper-find', 'P05,P12', (B, '''        for (size_t i=0; i<e.size(); ++i)
          if (deep_equal(e[i]))
            return repl[i]->clone();

        return new rt_binary_expr(lhs_->substitute(e, repl),
                               op_->clone(),
                               rhs_->substitute(e, repl) );
      };
''', '''        const std::size_t pos = find_match(e);
        if (pos < e.size())
          return repl[pos]->clone();

        return new rt_binary_expr(lhs_->substitute(e, repl),
                               op_->clone(),
                               rhs_->substitute(e, repl) );
      };

      /** @brief position of the first expression in e equal to this one */
      std::size_t find_match(std::vector<const InterfaceType *> const & e) const
      {
        std::size_t i = 0;
        for (; i<e.size(); ++i)
          if (deep_equal(e[i]))
            break;
        return i;
      }
''')),
 ('r04-deep-equal-once', 'P10,P04', (B, '''        if (dynamic_cast< const rt_binary_expr * >(other) != NULL)
        {
          const rt_binary_expr * temp = dynamic_cast< const rt_binary_expr * >(other);
          return lhs_->deep_equal(temp->lhs())
                 && op_->equal(temp->op())
                 && rhs_->deep_equal(temp->rhs());
        }
        return false;
''', '''        const rt_binary_expr * temp = dynamic_cast< const rt_binary_expr * >(other);
        if (temp == NULL)
          return false;
        if (!op_->equal(temp->op()))
          return false;
        bool lhs_equal = lhs_->deep_equal(temp->lhs());
        bool rhs_equal = rhs_->deep_equal(temp->rhs());
        return lhs_equal && rhs_equal;
''')),
 ('r05-eval-temporaries', 'P01,P02', (B, '''        return op_->apply(lhs_.get()->eval(v), rhs_.get()->eval(v));''', '''        const numeric_type right = rhs_->eval(v);
        const numeric_type left  = lhs_->eval(v);
        return op_->apply(left, right);''')),
 ('r06-make-helper', 'P06,P07,P12', [(S, '''  /** @brief Implementation of the simplification procedures for an expression of the form e1 + e2 */''', '''  template <typename OpT, typename InterfaceType>
  InterfaceType * make_binary(InterfaceType * lhs, InterfaceType * rhs)
  {
    return new rt_binary_expr<InterfaceType>(lhs, new op_binary<OpT, InterfaceType>(), rhs);
  }

  /** @brief Implementation of the simplification procedures for an expression of the form e1 + e2 */'''),
  (S, '''          return new rt_binary_expr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val),
                                                   new op_binary<op_minus<NumericT>, InterfaceType>(),
                                                   rhs->simplify());''', '''          return make_binary<op_minus<NumericT>, InterfaceType>(new rt_constant<NumericT, InterfaceType>(val), rhs->simplify());''')]),
 ('r07-simplify-order', 'P06,P07,P12', (S, '''        if (lhs->is_constant())
        {
          NumericT val = lhs->unwrap();
          if (val == 0.0)
            return new rt_constant<NumericT, InterfaceType>(0.0);
          if (val == 1.0)
            return rhs->simplify();
''', '''        const bool lhs_is_constant = lhs->is_constant();
        if (lhs_is_constant)
        {
          const NumericT val = lhs->unwrap();
          if (val == 1.0)
            return rhs->simplify();
          else if (val == 0.0)
            return new rt_constant<NumericT, InterfaceType>(0.0);
''')),
 ('r08-can-simplify-flat', 'P06,P07', (S, '''    if (lhs->is_constant())
    {
      if (lhs->unwrap() == 0.0)
      {
        //std::cout << "can_simplify: true in op_div" << std::endl;
        return true;
      }
    }
    if (rhs->is_constant())
    {
      if (rhs->unwrap() == 1.0)
      {
        //std::cout << "can_simplify: true in op_div" << std::endl;
        return true;
      }
    }
    return lhs->can_simplify() || rhs->can_simplify();''', '''    const bool zero_numerator  = lhs->is_constant() && lhs->unwrap() == 0.0;
    const bool one_denominator = rhs->is_constant() && rhs->unwrap() == 1.0;
    return zero_numerator || one_denominator || rhs->can_simplify() || lhs->can_simplify();''')),
 ('r09-autoptr-hold', 'P08,P12', (S, '''      return new rt_binary_expr<InterfaceType>( lhs->diff(diff_var),
                                                new op_binary<op_minus<NumericT>, InterfaceType>(),
                                                rhs->diff(diff_var) );''', '''      std::auto_ptr<InterfaceType> d_lhs(lhs->diff(diff_var));
      std::auto_ptr<InterfaceType> d_rhs(rhs->diff(diff_var));
      std::auto_ptr<op_interface<InterfaceType> > op(new op_binary<op_minus<NumericT>, InterfaceType>());
      return new rt_binary_expr<InterfaceType>(d_lhs.release(), op.release(), d_rhs.release());''')),
 ('r10-diff-mult-locals', 'P08,P12', (S, '''      return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs->diff(diff_var),
                                                                                  new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                  rhs->clone()),
                                                new op_binary<op_plus<NumericT>, InterfaceType>(),
                                                new rt_binary_expr<InterfaceType>(lhs->clone(),
                                                                                  new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                  rhs->diff(diff_var) )
                            );''', '''      typedef rt_binary_expr<InterfaceType>                  BinaryExpr;
      typedef op_binary<op_mult<NumericT>, InterfaceType>    Mult;
      InterfaceType * second = new BinaryExpr(lhs->clone(), new Mult(), rhs->diff(diff_var));
      InterfaceType * first  = new BinaryExpr(lhs->diff(diff_var), new Mult(), rhs->clone());
      return new BinaryExpr(first, new op_binary<op_plus<NumericT>, InterfaceType>(), second);''')),
 ('r11-vec-clone-loop', 'P11,P12,P10', (VX, '''          for (std::size_t i=0; is_equal && i<temp->size(); ++i)
            is_equal = is_equal && (*this)[i].get()->deep_equal( (*temp)[i].get() );


          return is_equal;''', '''          if (!is_equal)
            return false;
          const std::size_t num = temp->size();
          for (std::size_t i=0; i<num; ++i)
          {
            if (!(*this)[i].get()->deep_equal( (*temp)[i].get() ))
              return false;
          }
          return true;''')),
 ('r12-vec-subst-loop', 'P04,P12', (VX, '''        self_type * result = new self_type(BaseType::size());

        for (std::size_t i=0; i<result->size(); ++i)
          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->substitute(e, repl));

        return result;
      };
''', '''        const std::size_t num = BaseType::size();
        self_type * result = new self_type(num);
        for (std::size_t i=0; i != num; i++)
        {
          InterfaceType * entry = (*this)[i].get()->substitute(e, repl);
          (*result)[i] = viennamath::rt_expr<InterfaceType>(entry);
        }
        return result;
      };
''', 0)),
 ('r13-vec-mult-pushback', 'P15,P12', (VX, '''    rt_vector_expr<InterfaceType> result(lhs.size());
    for (std::size_t i=0; i<lhs.size(); ++i)
      result[i] = lhs[i] * rhs;

    return result;''', '''    rt_vector_expr<InterfaceType> result(lhs.size());
    std::size_t i = 0;
    while (i < result.size())
    {
      result[i] = lhs[i] * rhs;
      ++i;
    }
    return result;''')),
 ('r14-dot-loop', 'P15,P12', (VX, '''    rt_expr<InterfaceType> result = lhs[0] * rhs[0];
    for (std::size_t i=1; i<rhs.size(); ++i)
      result = result + lhs[i] * rhs[i];

    return result;''', '''    const std::size_t num = lhs.size();
    rt_expr<InterfaceType> result(lhs[0] * rhs[0]);
    for (std::size_t i=1; i<num; ++i)
    {
      rt_expr<InterfaceType> product = lhs[i] * rhs[i];
      rt_expr<InterfaceType> sum = result + product;
      result = sum;
    }
    return result;''')),
 ('r15-subst-list-pushback', 'P05,P12', (SU, '''    std::vector<const InterfaceType *> search_ptrs(search.size());
    for (size_t i=0; i<search_ptrs.size(); ++i)
      search_ptrs[i] = search[i].get();
''', '''    std::vector<const InterfaceType *> search_ptrs;
    search_ptrs.reserve(search.size());
    for (size_t i=0; i<search.size(); ++i)
      search_ptrs.push_back(search[i].get());
''')),
 ('r16-quad-helper', 'P23,P12', [(Q, '''        numeric_type abscissa = (viennamath::eval(interv.lower(), 0.0) + viennamath::eval(interv.upper(), 0.0)) / 2.0;
        rt_expr<InterfaceType> tmp = viennamath::substitute(var, abscissa, e);
        return tmp.get()->unwrap() * viennamath::eval(interv.upper() - interv.lower(), 0.0);''', '''        const numeric_type lower = viennamath::eval(interv.lower(), 0.0);
        const numeric_type upper = viennamath::eval(interv.upper(), 0.0);
        rt_expr<InterfaceType> tmp = viennamath::substitute(var, midpoint(lower, upper), e);
        return (upper - lower) * tmp.get()->unwrap();'''),
        (Q, '''    private:
      std::vector<numeric_type> p_;''', '''    private:
      static numeric_type midpoint(numeric_type a, numeric_type b) { return 0.5 * (a + b); }
      std::vector<numeric_type> p_;''')]),
 ('r17-quad-operator-helper', 'P23,P12', (Q, '''              return this->operator()(rt_expr<InterfaceType>(binary_ptr->lhs()->clone()))
                     - this->operator()(rt_expr<InterfaceType>(binary_ptr->rhs()->clone()));''', '''              const rt_expr<InterfaceType> left(binary_ptr->lhs()->clone());
              const rt_expr<InterfaceType> right(binary_ptr->rhs()->clone());
              const NumericT left_value = (*this)(left);
              const NumericT right_value = (*this)(right);
              return left_value - right_value;''')),
 ('r18-subst-functor-helper', 'P04,P12', (SU, '''          viennamath::rt_unary_expr<InterfaceType> const * ex_ptr = dynamic_cast< viennamath::rt_unary_expr<InterfaceType> const * >(e);
          if (ex_ptr != NULL)
          {
            typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;

            OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
            if (op_ptr != NULL && op_ptr->op().interval().id() == interval_id_)
            {
              //std::cout << "Modifies!" << std::endl;
              return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());
            }
          }

          return e->clone();''', '''          if (!this->modifies(e))
            return e->clone();
          viennamath::rt_unary_expr<InterfaceType> const * ex_ptr = dynamic_cast< viennamath::rt_unary_expr<InterfaceType> const * >(e);
          return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());''')),
 ('r19-coord-helper', 'P24,P12', [(CS, '''    rt_vector_expr<InterfaceType> grad_u(3);
    grad_u[0] = diff(u, x);
    grad_u[1] = diff(u, y);
    grad_u[2] = diff(u, z);
''', '''    rt_vector_expr<InterfaceType> grad_u(3);
    grad_u[2] = diff(u, z);
    grad_u[1] = diff(u, y);
    grad_u[0] = diff(u, x);
'''), (CS, '''    rt_vector_expr<InterfaceType> grad_v(3);
    grad_v[0] = diff(v, x);
    grad_v[1] = diff(v, y);
    grad_v[2] = diff(v, z);
''', '''    rt_vector_expr<InterfaceType> grad_v(gradient_3d(v));
'''), (CS, '''  /******** 3d ***********/
''', '''  /******** 3d ***********/
  template <typename InterfaceType>
  rt_vector_expr<InterfaceType> gradient_3d(rt_function_symbol<InterfaceType> const & f)
  {
    rt_vector_expr<InterfaceType> result(3);
    for (id_type i=0; i<3; ++i)
    {
      rt_variable<InterfaceType> xi(i);
      result[i] = diff(f, xi);
    }
    return result;
  }
''')]),
 ('r20-expr-copy', 'P11,P12', (X, '''        if (other.get() != NULL)
        rt_expr_ = std::auto_ptr<InterfaceType>(other.get()->clone());''', '''        InterfaceType const * ptr = other.get();
        if (ptr == NULL)
          return;
        rt_expr_.reset(ptr->clone());''')),
 ('r21-expr-assign', 'P11,P12', (X, '''        rt_expr_ = std::auto_ptr<InterfaceType>(other.get() != NULL ? other.get()->clone() : NULL);
        return *this;''', '''        std::auto_ptr<const InterfaceType> copy;
        if (other.get() != NULL)
          copy.reset(other.get()->clone());
        rt_expr_ = copy;
        return *this;''')),
 ('r22-eval-vector-loop', 'P01,P02', (X, '''        std::vector<double> stl_v(v.size());
        for (size_t i=0; i<v.size(); ++i)
          stl_v[i] = v[i];

        return rt_expr_.get()->eval(stl_v);''', '''        const size_t dim = v.size();
        std::vector<double> stl_v;
        stl_v.reserve(dim);
        for (size_t i=0; i<dim; ++i)
          stl_v.push_back(v[i]);

        return (*this)(stl_v);''')),
 ('r23-binary-ctvec-helper', 'P01,P02', (B, '''        std::vector<double> stl_v(2);
        stl_v[0] = v[ct_index<0>()];
        stl_v[1] = v[ct_index<1>()];
        return this->eval(stl_v);''', '''        double values[2] = { v[ct_index<0>()], v[ct_index<1>()] };
        return this->eval(std::vector<double>(values, values + 2));''')),
 ('r24-traversal', 'P14,P13', (B, '''        if (fw.step_into(this))
        {
          lhs_->recursive_traversal(fw);
          fw(this);
          rhs_->recursive_traversal(fw);
        }
        else
          fw(this);''', '''        const bool descend = fw.step_into(this);
        if (descend)
          lhs_->recursive_traversal(fw);
        fw(this);
        if (descend)
          rhs_->recursive_traversal(fw);''')),
 ('r25-unary-simplify', 'P06,P07,P12', (UN, '''        if (expr_->is_constant())
        {
          if (op_->can_simplify())
            return new rt_constant<numeric_type, InterfaceType>( op_->apply(expr_->unwrap()) );
          else
            return new rt_unary_expr(new rt_constant<numeric_type, InterfaceType>(expr_->unwrap()),
                                     op_->clone());
        }


        return new rt_unary_expr(expr_->simplify(), op_->clone());''', '''        if (!expr_->is_constant())
          return new rt_unary_expr(expr_->simplify(), op_->clone());

        const numeric_type value = expr_->unwrap();
        return op_->can_simplify()
                 ? static_cast<InterfaceType *>(new rt_constant<numeric_type, InterfaceType>(op_->apply(value)))
                 : static_cast<InterfaceType *>(new rt_unary_expr(new rt_constant<numeric_type, InterfaceType>(value), op_->clone()));''')),
 ('r26-unary-assign', 'P11,P12', (UN, '''        std::auto_ptr<InterfaceType> new_expr(other.expr_->clone());   // 'other' may be part of this expression
        op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
        expr_ = new_expr;
        return *this;''', '''        if (this != &other)
        {
          std::auto_ptr<op_interface_type> new_op(other.op_->clone());
          std::auto_ptr<InterfaceType> new_expr(other.expr_->clone());
          op_ = new_op;
          expr_ = new_expr;
        }
        return *this;''')),
 ('r27-unary-assign-swap', 'P11,P12', (UN, '''        std::auto_ptr<InterfaceType> new_expr(other.expr_->clone());   // 'other' may be part of this expression
        op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
        expr_ = new_expr;
        return *this;''', '''        rt_unary_expr copy(other);
        InterfaceType * tmp = expr_.release();
        expr_.reset(copy.expr_.release());
        copy.expr_.reset(tmp);
        op_ = copy.op_;
        return *this;''')),
]
