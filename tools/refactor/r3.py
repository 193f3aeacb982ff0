# behaviour-preserving edits, third round: structural changes (every listed check has to stay quiet)
R = 'viennamath/runtime/'; MA = 'viennamath/manipulation/'
B = R+'binary_expr.hpp'; UN = R+'unary_expr.hpp'; VX = R+'vector_expr.hpp'; X = R+'expr.hpp'; IV = R+'interval.hpp'; EQ = R+'equation.hpp'; C = R+'constant.hpp'
V = R+'variable.hpp'; F = R+'function_symbol.hpp'; INT = R+'integral.hpp'; Q = R+'numerical_quadrature.hpp'; FW = R+'functor_wrapper.hpp'; UO = R+'unary_operators.hpp'
S = MA+'detail/binary_operations.hpp'; U = MA+'detail/unary_operations.hpp'; SU = MA+'substitute.hpp'; SI = MA+'simplify.hpp'; L = MA+'latex.hpp'; CS = MA+'apply_coordinate_system.hpp'; D = MA+'diff.hpp'
import re
def T(f): return open('/repo/' + f).read()
def whole(f, fn): t = T(f); n = fn(t); assert n != t, f; return (f, t, n)
def rn(f, a, b): return whole(f, lambda t: re.sub(r'(?<![\w])%s(?![\w])' % a, b, t))
M = [
 ('d01-rename-fields', 'P01,P04,P06,P08,P10,P11,P12,P14,P22,P28', [rn(B, 'lhs_', 'left_operand_'), rn(UN, 'expr_', 'operand_')]),
 ('d02-reorder-fields', 'P01,P04,P06,P08,P10,P11,P12,P22', [(B, '''      /** @brief The left hand side operand */
      std::auto_ptr<InterfaceType>         lhs_;
      /** @brief The operation */
      std::auto_ptr<op_interface_type>     op_;
''', '''      /** @brief The operation */
      std::auto_ptr<op_interface_type>     op_;
      /** @brief The left hand side operand */
      std::auto_ptr<InterfaceType>         lhs_;
''')]),
 ('d03-unique-ptr-expr', 'P04,P11,P12,P06,P26,P27', [whole(X, lambda t: t.replace('rt_expr_ = std::auto_ptr<InterfaceType>(', 'rt_expr_.reset(').replace('std::auto_ptr<const InterfaceType>  rt_expr_;', 'std::unique_ptr<const InterfaceType>  rt_expr_;'))]),
 ('d04-raw-ptr-expr', 'P04,P11,P12,P06,P26,P27,P05', [whole(X, lambda t: re.sub(r'rt_expr_ = std::auto_ptr<InterfaceType>\((.*)\);', r'this->take(\1);', t).replace('rt_expr_.get()', 'rt_expr_').replace('rt_expr() {}', 'rt_expr() : rt_expr_(NULL) {}\n      ~rt_expr() { delete rt_expr_; }')
    .replace('std::auto_ptr<const InterfaceType>  rt_expr_;', '''void take(const InterfaceType * ptr)
      {
        const InterfaceType * old = rt_expr_;
        rt_expr_ = ptr;
        if (old != ptr)
          delete old;
      }

      const InterfaceType *  rt_expr_;''')) if False else (X, '''        if (other.get() != NULL)
        rt_expr_ = std::auto_ptr<InterfaceType>(other.get()->clone());''', '''        set(clone_of(other));'''), (X, '''        rt_expr_ = std::auto_ptr<InterfaceType>(other.get() != NULL ? other.get()->clone() : NULL);
        return *this;''', '''        set(clone_of(other));
        return *this;'''), (X, '''    private:
      std::auto_ptr<const InterfaceType>  rt_expr_;''', '''    private:
      static InterfaceType * clone_of(rt_expr const & other)
      {
        return (other.get() == NULL) ? NULL : other.get()->clone();
      }

      void set(InterfaceType * ptr) { rt_expr_ = std::auto_ptr<const InterfaceType>(ptr); }

      std::auto_ptr<const InterfaceType>  rt_expr_;''')]),
 ('d05-interval-assign', 'P26,P27,P12,P11', [(IV, '''        lower_ = other.lower().get()->clone();
        upper_ = other.upper().get()->clone();
        return *this;''', '''        if (this != &other)
        {
          rt_expr<InterfaceType> new_lower(other.lower());
          rt_expr<InterfaceType> new_upper(other.upper());
          upper_ = new_upper;
          lower_ = new_lower;
        }
        return *this;'''), (IV, '''lower_(other.lower_.get()->clone()),
                                               upper_(other.upper_.get()->clone()) {}''', '''lower_(other.lower_),
                                               upper_(other.upper_) {}''')]),
 ('d06-equation-init', 'P26,P12', [(EQ, 'lhs_(lhs.get()->clone()), rhs_(rhs.get()->clone()) {}', 'lhs_(lhs), rhs_()\n      {\n        rhs_ = rhs;\n      }')]),
 ('d07-str-concat', 'P28', [(B, '''        std::stringstream ss;
        ss << "(";
        ss << lhs_->deep_str();
        ss << op_->str();
        ss << rhs_->deep_str();
        ss << ")";
        return ss.str();''', '''        std::string result("(");
        result += lhs_->deep_str();
        result += op_->str();
        result += rhs_->deep_str();
        return result + ")";'''), (UN, '''        std::stringstream ss;
        ss << op_->str();
        ss << "(";
        ss << expr_->deep_str();
        ss << ")";
        return ss.str();''', '''        return op_->str() + "(" + expr_->deep_str() + ")";'''), (V, '''        std::stringstream ss;
        ss << "variable(" << id_ << ")";
        return ss.str();''', '''        std::ostringstream buffer;
        buffer << "variable(";
        buffer << id_;
        buffer << ')';
        return buffer.str();''')]),
 ('d08-vector-print', 'P28', [(VX, '''      stream << e[i];
      if (i+1 < e.size())
        stream << ", ";
''', '''      if (i > 0)
        stream << ", ";
      stream << e[i];
''')]),
 ('d09-symbol-str', 'P28', [(F, '''        std::stringstream ss;
        ss << "function_symbol<";
        if (tag_id_ == unknown_tag<>::tag_id())
          ss << "unknown(" << id_ << ")>";
        else if (tag_id_ == test_tag<>::tag_id())
          ss << "test(" << id_ << ")>";
        else
          ss << "invalid>";

        return ss.str();''', '''        std::stringstream ss;
        const bool is_unknown = (tag_id_ == unknown_tag<>::tag_id());
        if (!is_unknown && tag_id_ != test_tag<>::tag_id())
          return "function_symbol<invalid>";
        ss << "function_symbol<" << (is_unknown ? "unknown" : "test") << "(" << id_ << ")>";
        return ss.str();''')]),
 ('d10-latex-binary', 'P25', [(L, '''          bool is_op_mult = false;
          if (dynamic_cast< const op_binary<op_mult<NumericType>, InterfaceType> * >(e.op()) != NULL)
            is_op_mult = true;''', '''          const bool is_op_mult = (dynamic_cast< const op_binary<op_mult<NumericType>, InterfaceType> * >(e.op()) != NULL);'''),
   (L, '''          if (use_parenthesis)
            ss << "(";

          ss << translator(lhs, is_op_mult);''', '''          ss << (use_parenthesis ? "(" : "") << translator(lhs, is_op_mult);''') if '''            ss << "(";

          ss << translator(lhs, is_op_mult);''' in T(L) else (L, '''ss << translator(lhs, is_op_mult);''', '''std::string left = translator(lhs, is_op_mult);
          ss << left;''')]),
 ('d11-latex-function-helper', 'P25', [(L, '''          ss << " \\\\exp " << translator(lhs, true) << " ";''', '''          ss << function("\\\\exp", lhs, translator);'''), (L, '''          ss << " \\\\sin " << translator(lhs, true) << " ";''', '''          ss << function("\\\\sin", lhs, translator);'''),
   (L, '''      std::string process_impl(UnaryExpr const & e, bool use_parenthesis''', '''      std::string function(std::string const & name, viennamath::rt_expr<InterfaceType> const & arg, rt_latex_translator<InterfaceType> const & translator) const
      {
        return " " + name + " " + translator(arg, true) + " ";
      }

      std::string process_impl(UnaryExpr const & e, bool use_parenthesis''')]),
 ('d12-latex-loop', 'P25,P12', [(L, '''        std::string ret;

        for (typename ProcessorArray::const_iterator it = processors_.begin();
                                                     it != processors_.end();
                                                   ++it)
        {
          ret = (*it)->process(ptr, use_parenthesis, *this);
          if (ret.size() > 0)
            return ret;
        }
''', '''        for (std::size_t i=0; i<processors_.size(); ++i)
        {
          const std::string ret = processors_[i]->process(ptr, use_parenthesis, *this);
          if (!ret.empty())
            return ret;
        }
''')]),
 ('d13-quad-split', 'P23,P12', [(Q, '''            if (op_ptr_plus != NULL)
              return this->operator()(rt_expr<InterfaceType>(binary_ptr->lhs()->clone()))
                     + this->operator()(rt_expr<InterfaceType>(binary_ptr->rhs()->clone()));''', '''            if (op_ptr_plus != NULL)
              return evaluate(binary_ptr->lhs()) + evaluate(binary_ptr->rhs());'''), (Q, '''              return this->operator()(rt_expr<InterfaceType>(binary_ptr->lhs()->clone()))
                     - this->operator()(rt_expr<InterfaceType>(binary_ptr->rhs()->clone()));''', '''              return evaluate(binary_ptr->lhs()) - evaluate(binary_ptr->rhs());'''), (Q, '''    private:
      std::auto_ptr<numerical_quadrature_interface<InterfaceType> > quadrature_rule_;''', '''    private:
      NumericT evaluate(InterfaceType const * operand) const
      {
        rt_expr<InterfaceType> temp(operand->clone());
        return (*this)(temp);
      }

      std::auto_ptr<numerical_quadrature_interface<InterfaceType> > quadrature_rule_;''')]),
 ('d14-integral-helper', 'P27,P12', [whole(INT, lambda t: re.sub(r'return rt_expr<InterfaceType>\(new rt_unary_expr<InterfaceType>\(integrand(\.get\(\)->|\.)clone\(\),\s*new op_unary<OperatorT, InterfaceType>\(OperatorT\(interv\)\)\)\s*\);', r'return detail::make_integral<InterfaceType>(integrand\1clone(), OperatorT(interv));', t)
    .replace('''  //
  // Convenience functions with symbolic integrals
  //
''', '''  namespace detail
  {
    template <typename InterfaceType, typename OperatorT>
    rt_expr<InterfaceType> make_integral(InterfaceType * integrand, OperatorT const & op)
    {
      op_interface<InterfaceType> * op_ptr = new op_unary<OperatorT, InterfaceType>(op);
      return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(integrand, op_ptr));
    }
  }

  //
  // Convenience functions with symbolic integrals
  //
'''))]),
 ('d15-subst-delegate', 'P04,P12,P24,P23', [whole(SU, lambda t: re.sub(r'rt_expr<InterfaceType> temp\(e\.get\(\)->substitute\((.*), (.*)\)\);\s*inplace_simplify\(temp\);\s*return temp;', r'return detail::substitute_and_simplify<InterfaceType>(\1, \2, e);', t).replace('detail::substitute_and_simplify<InterfaceType>(search_ptrs, repl_ptrs, e)', 'viennamath::simplify(rt_expr<InterfaceType>(e.get()->substitute(search_ptrs, repl_ptrs)))')
    .replace('''  //
  //   Section 2: Run time substitution
  //
''', '''  //
  //   Section 2: Run time substitution
  //
  namespace detail
  {
    template <typename InterfaceType>
    rt_expr<InterfaceType> substitute_and_simplify(InterfaceType const * search, InterfaceType const * repl, rt_expr<InterfaceType> const & e)
    {
      rt_expr<InterfaceType> temp(e.get()->substitute(search, repl));
      inplace_simplify(temp);
      return temp;
    }
  }

''', 1))]),
 ('d16-inplace-loop', 'P06,P07,P12', [(SI, '''    while (e.get()->can_simplify())
      e = e.get()->simplify();''', '''    for (;;)
    {
      InterfaceType const * current = e.get();
      if (!current->can_simplify())
        break;
      InterfaceType * next = current->simplify();
      e = next;
    }''')]),
 ('d17-simplify-wrappers', 'P06,P07,P12', [whole(SI, lambda t: t.replace('''    rt_expr<InterfaceType> ret(e);
    inplace_simplify(ret);
    return ret;''', '''    rt_expr<InterfaceType> copy = e;
    inplace_simplify(copy);
    return copy;'''))]),
 ('d18-chain-rule', 'P08,P12,P09', [(U, '''    return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_exp<NumericT>, InterfaceType>()),
                                           new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
                                           e->diff(diff_var));''', '''    InterfaceType * inner = e->diff(diff_var);
    InterfaceType * outer = new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_exp<NumericT>, InterfaceType>());
    return new rt_binary_expr<InterfaceType>(inner, new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(), outer);'''),
   (U, '''    return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_cos<NumericT>, InterfaceType>()),
                                           new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
                                           e->diff(diff_var) );''', '''    op_unary<op_cos<NumericT>, InterfaceType> outer_op;
    rt_unary_expr<InterfaceType> outer(e->clone(), outer_op.clone());
    return new rt_binary_expr<InterfaceType>( outer.clone(),
                                              new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
                                              e->diff(diff_var) );''')]),
 ('d19-wrapper-const', 'P14,P12', [(FW, '''        return functor_.get()->operator()(e);
      }
      ''' if False else '''        functor_.get()->operator()(e);''', '''        rt_traversal_interface<InterfaceType> const & f = *functor_;
        f(e);''', 0 if T(FW).count('        functor_.get()->operator()(e);') == 1 else 0)]),
 ('d20-variable-eval', 'P01,P02', [(V, '''        if (id_ >= v.size())
          throw variable_index_out_of_bounds_exception(static_cast<long>(id_), static_cast<long>(v.size()));

        return (*this)(v);''' if '''static_cast<long>(v.size()));

        return (*this)(v);''' in T(V) else '''        return (*this)(v);''', '''        if (id_ < v.size())
          return v[id_];

        throw variable_index_out_of_bounds_exception(static_cast<long>(id_), static_cast<long>(v.size()));''')]),
 ('d21-coord-generic', 'P24,P12', [whole(CS, lambda t: re.sub(r'''    rt_vector_expr<InterfaceType> grad_u\(2\);.*?return new_ex4;''', '''    rt_vector_expr<InterfaceType> grad_u(2), grad_v(2);
    grad_u[0] = diff(u, x);  grad_v[0] = diff(v, x);
    grad_u[1] = diff(u, y);  grad_v[1] = diff(v, y);

    // gradients first, then divergences:
    rt_expr<InterfaceType> result(ex);
    result = substitute(grad(v), grad_v, result);
    result = substitute(grad(u), grad_u, result);
    result = substitute(div(v), diff(v, x) + diff(v, y), result);
    result = substitute(div(u), diff(u, x) + diff(u, y), result);

    return result;''', t, count=1, flags=re.S))]),
 ('d22-vector-plus', 'P15,P12', [(VX, '''        self_type result(other.size());
        for (std::size_t i=0; i<other.size(); ++i)
          result[i] = (*this)[i] + other[i];

        return result;''', '''        self_type result(*this);
        for (std::size_t i=0; i<result.size(); ++i)
          result[i] = result[i] + other[i];

        return result;''')]),
 ('d23-dot-backwards', 'P15,P06,P07,P12', [(VX, '''    rt_expr<InterfaceType> result = lhs[0] * rhs[0];
    for (std::size_t i=1; i<rhs.size(); ++i)
      result = result + lhs[i] * rhs[i];

    return result;''', '''    std::size_t i = rhs.size() - 1;
    rt_expr<InterfaceType> result = lhs[i] * rhs[i];
    while (i > 0)
    {
      --i;
      result = lhs[i] * rhs[i] + result;
    }

    return result;''')]),
 ('d24-op-equal', 'P10,P04', [(UO, '''        if (ptr != NULL)
          return unary_op_equal(ptr->op(), unary_op_); //needed for partial derivatives

        return false;''', '''        return ptr != NULL && unary_op_equal(unary_op_, ptr->op()); //needed for partial derivatives''')]),
 ('d25-binary-simplify-apply', 'P06,P07,P13,P12', [(B, '''        if (lhs_->is_constant() && rhs_->is_constant())
          return new rt_constant<numeric_type, InterfaceType>( unwrap() );
''', '''        if (this->is_constant())
        {
          const numeric_type left_value  = lhs_->unwrap();
          const numeric_type right_value = rhs_->unwrap();
          return new rt_constant<numeric_type, InterfaceType>( op_->apply(left_value, right_value) );
        }
'''), (B, '''        if (lhs_->is_constant() && rhs_->is_constant())
        {
          //std::cout << "optimizable(): true in rt_binary_expr" << std::endl;
          return true;
        }
        return op_->can_simplify(lhs_.get(), rhs_.get());''', '''        return is_constant() || op_->can_simplify(lhs_.get(), rhs_.get());''')]),
 ('d26-ct-convert-helper', 'P22,P11,P12', [(B, '''        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
        rhs_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));''', '''        rhs_.reset(new rt_variable<InterfaceType>(id));
        lhs_.reset(new rt_binary_expr<InterfaceType>(other.lhs()));'''), (B, '''      explicit rt_binary_expr(ct_binary_expr<LHS, OP, RHS> const & other) : op_(new op_binary<OP, InterfaceType>())
      {
        //std::cout << "Constructing from expression " << other << std::endl;
        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
      }''', '''      explicit rt_binary_expr(ct_binary_expr<LHS, OP, RHS> const & other)
       : lhs_(new rt_binary_expr<InterfaceType>(other.lhs())),
         op_(new op_binary<OP, InterfaceType>()),
         rhs_(new rt_binary_expr<InterfaceType>(other.rhs())) {}''')]),
 ('d27-constant-equal', 'P10,P04,P05', [(C, '''        const self_type * ptr = dynamic_cast< const self_type *>(other);
        if (ptr != NULL)
          return (ptr->s <= s) && (ptr->s >= s); //to suppress warnings on Clang when using ==

        return false;''' if '''when using ==

        return false;''' in T(C) else '''          return (ptr->s <= s) && (ptr->s >= s); //to suppress warnings on Clang when using ==''', '''        if (const self_type * ptr = dynamic_cast< const self_type *>(other))
          return !(ptr->s < s) && !(s < ptr->s) && ptr->s == s;
        return false;''' if '''when using ==

        return false;''' in T(C) else '''          return ptr->s == s;''')]),
 ('d28-symbol-diff', 'P09,P12', [(F, '''        if (ptr != NULL)
        {''', '''        if (ptr == NULL)
          throw expression_not_differentiable_exception("Cannot differentiate rt_function_symbol!");
        else
        {''')]),
 ('d29-expr-out', 'P28', [(X, '''    if (e.get()->is_unary())
    {
      stream << "expr"
            << "("
            << e.get()->deep_str()
            << ")";
    }
    else
    {
      stream << "expr"
            << e.get()->deep_str();
    }

    return stream;''', '''    InterfaceType const & node = *e.get();
    const std::string text = node.deep_str();
    stream << "expr";
    if (!node.is_unary())
      return stream << text;
    return stream << "(" << text << ")";''')]),
 ('d30-diff-div-locals', 'P08,P09,P12', [whole(S, lambda t: re.sub(r'''    return new rt_binary_expr<InterfaceType>\( new rt_binary_expr<InterfaceType>\( new rt_binary_expr<InterfaceType>\(lhs->diff\(diff_var\),.*?\n  \}\n''', '''    // (u'v - uv') / v^2
    typedef rt_binary_expr<InterfaceType>   Binary;
    std::auto_ptr<InterfaceType> du(lhs->diff(diff_var));
    std::auto_ptr<InterfaceType> dv(rhs->diff(diff_var));
    InterfaceType * uv_prime = new Binary(lhs->clone(), new op_binary<op_mult<NumericT>, InterfaceType>(), dv.release());
    InterfaceType * u_prime_v = new Binary(du.release(), new op_binary<op_mult<NumericT>, InterfaceType>(), rhs->clone());
    InterfaceType * numerator = new Binary(u_prime_v, new op_binary<op_minus<NumericT>, InterfaceType>(), uv_prime);
    InterfaceType * denominator = new Binary(rhs->clone(), new op_binary<op_mult<NumericT>, InterfaceType>(), rhs->clone());
    return new Binary(numerator, new op_binary<op_div<NumericT>, InterfaceType>(), denominator);
  }
''', t, count=1, flags=re.S))]),
 ('d31-unary-subst-helper', 'P04,P05,P12', [(UN, '''        if (deep_equal(e))
          return repl->clone();

        return new rt_unary_expr(expr_->substitute(e, repl),
                              op_->clone());
      };
''', '''        return deep_equal(e) ? repl->clone() : rebuild(expr_->substitute(e, repl));
      };

      /** @brief Wraps a new operand with this operation */
      InterfaceType * rebuild(InterfaceType * new_operand) const
      {
        op_interface_type * new_op = op_->clone();
        return new rt_unary_expr(new_operand, new_op);
      }
''', 0), (UN, '''        return new rt_unary_expr(expr_->recursive_manipulation(fw),
                              op_->clone() );''', '''        return rebuild(expr_->recursive_manipulation(fw));''')]),
 ('d32-quad-rule-local', 'P23,P12', [(Q, '''        rt_expr<InterfaceType> tmp = viennamath::substitute(var, abscissa, e);
        return tmp.get()->unwrap() * viennamath::eval(interv.upper() - interv.lower(), 0.0);''', '''        numeric_type weight = viennamath::eval(interv.upper(), 0.0) - viennamath::eval(interv.lower(), 0.0);
        return weight * viennamath::substitute(var, abscissa, e).get()->unwrap();''')]),
 ('d33-list-subst-helper', 'P05,P12', [(SU, '''    std::vector<const InterfaceType *> search_ptrs(search.size());''', '''    const std::size_t num = search.size();
    std::vector<const InterfaceType *> search_ptrs(num);'''), (SU, '''    std::vector<const InterfaceType *> repl_ptrs(repl.size());
    for (size_t i=0; i<repl_ptrs.size(); ++i)
      repl_ptrs[i] = repl[i].get();
''', '''    std::vector<const InterfaceType *> repl_ptrs(num, static_cast<const InterfaceType *>(NULL));
    for (size_t i=num; i>0; --i)
      repl_ptrs[i-1] = repl[i-1].get();
''')]),
 ('d34-vec-clone-copy', 'P11,P12,P15', [(VX, '''        self_type * result = new self_type(BaseType::size());

        for (std::size_t i=0; i<result->size(); ++i)
          //(*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->clone());
          (*result)[i] = (*this)[i];

        return result;''', '''        return new self_type(*this);''')]),
 ('d35-range-for', 'P04,P12,P10', [(VX, '''        self_type * result = new self_type(BaseType::size());

        for (std::size_t i=0; i<result->size(); ++i)
          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->diff(diff_var));

        return result;''', '''        self_type * result = new self_type(*this);

        for (typename BaseType::iterator it = result->begin(); it != result->end(); ++it)
          *it = viennamath::rt_expr<InterfaceType>(it->get()->diff(diff_var));

        return result;''')]),
]
