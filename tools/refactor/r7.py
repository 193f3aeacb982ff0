# behaviour-preserving edits, seventh round: rules of calculus in other forms, extra simplifications, reformulated control flow
R = 'viennamath/runtime/'; MA = 'viennamath/manipulation/'; D = MA+'detail/'
BO = D+'binary_operations.hpp'; UO = D+'unary_operations.hpp'; B = R+'binary_expr.hpp'; UN = R+'unary_expr.hpp'; VX = R+'vector_expr.hpp'; X = R+'expr.hpp'; V = R+'variable.hpp'; C = R+'constant.hpp'
Q = R+'numerical_quadrature.hpp'; AC = MA+'apply_coordinate_system.hpp'; SI = MA+'simplify.hpp'; LX = MA+'latex.hpp'; IV = R+'interval.hpp'; SU = MA+'substitute.hpp'
import re
def T(f): return open('/repo/' + f).read()
def whole(f, fn): t = T(f); n = fn(t); assert n != t, f; return (f, t, n)
SQ = '''      return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
                                             new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
                                             new rt_binary_expr<InterfaceType>( new rt_constant<NumericT>(2),
                                                                             new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
                                                                             new rt_unary_expr<InterfaceType>(e->clone(),
                                                                                                           new op_unary<op_sqrt<NumericT>, InterfaceType>())
                                                                           )
                                            );'''
MULT = '''      return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs->diff(diff_var),
                                                                                  new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                  rhs->clone()),
                                                new op_binary<op_plus<NumericT>, InterfaceType>(),
                                                new rt_binary_expr<InterfaceType>(lhs->clone(),
                                                                                  new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                  rhs->diff(diff_var) )
                            );'''
EXPD = '''    return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_exp<NumericT>, InterfaceType>()),
                                           new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
                                           e->diff(diff_var));'''
G2 = '''    rt_vector_expr<InterfaceType> grad_u(2);
    grad_u[0] = diff(u, x);
    grad_u[1] = diff(u, y);
'''
QE = '''        numeric_type abscissa = (viennamath::eval(interv.lower(), 0.0) + viennamath::eval(interv.upper(), 0.0)) / 2.0;
        rt_expr<InterfaceType> tmp = viennamath::substitute(var, abscissa, e);
        return tmp.get()->unwrap() * viennamath::eval(interv.upper() - interv.lower(), 0.0);'''
IA = '''        lower_ = other.lower().get()->clone();
        upper_ = other.upper().get()->clone();
        return *this;'''
SIMP = '''  void inplace_simplify(rt_expr<InterfaceType> & e)
  {
    while (e.get()->can_simplify())
      e = e.get()->simplify();'''
PQ = '''              return this->operator()(rt_expr<InterfaceType>(binary_ptr->lhs()->clone()))
                     + this->operator()(rt_expr<InterfaceType>(binary_ptr->rhs()->clone()));'''
M = [
 ('i01-equal-operands-cancel', 'P06,P07,P12', [(BO, '''  InterfaceType * simplify_impl(const InterfaceType * lhs, op_minus<NumericT>, const InterfaceType * rhs)
  {''', '''  InterfaceType * simplify_impl(const InterfaceType * lhs, op_minus<NumericT>, const InterfaceType * rhs)
  {
        if (lhs->is_constant() && rhs->is_constant() && lhs->deep_equal(rhs))
          return new rt_constant<NumericT, InterfaceType>(0);
''')]),
 ('i02-constant-factor-rule', 'P08,P09,P12', (BO, MULT, '''      if (lhs->is_constant())    // (c * v)' = c * v'
        return new rt_binary_expr<InterfaceType>(lhs->clone(), new op_binary<op_mult<NumericT>, InterfaceType>(), rhs->diff(diff_var));
''' + MULT)),
 ('i03-sqrt-derivative-half', 'P08,P12', (UO, SQ, '''      InterfaceType * root = new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_sqrt<NumericT>, InterfaceType>());
      InterfaceType * half = new rt_binary_expr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(0.5), new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(), e->diff(diff_var));
      return new rt_binary_expr<InterfaceType>(half, new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(), root);''')),
 ('i04-exp-derivative-order', 'P08,P12', (UO, EXPD, '''    InterfaceType * outer = new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_exp<NumericT>, InterfaceType>());
    return new rt_binary_expr<InterfaceType>( e->diff(diff_var), new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(), outer);''')),
 ('i05-gradient-helper', 'P24,P12', [(AC, G2, '''    rt_vector_expr<InterfaceType> grad_u(2);
    rt_variable<InterfaceType> const * coords[2] = { &x, &y };
    for (std::size_t i = 0; i < 2; ++i)
      grad_u[i] = diff(u, *coords[i]);
''', 0)]),
 ('i06-quad-locals', 'P23,P12', (Q, QE, '''        const numeric_type a = viennamath::eval(interv.lower(), 0.0);
        const numeric_type b = viennamath::eval(interv.upper(), 0.0);
        const numeric_type midpoint = 0.5 * (a + b);
        return (b - a) * viennamath::substitute(var, midpoint, e).get()->unwrap();''')),
 ('i07-interval-copy-swap', 'P26,P12,P11', (IV, IA, '''        rt_interval temp(other);
        lower_ = temp.lower_;
        upper_ = temp.upper_;
        return *this;''')),
 ('i08-simplify-for', 'P06,P07,P12', (SI, SIMP, '''  void inplace_simplify(rt_expr<InterfaceType> & e)
  {
    for (;;)
    {
      if (!e.get()->can_simplify())
        break;
      InterfaceType * next = e.get()->simplify();
      e = next;
    }''')),
 ('i09-quad-terms', 'P23,P12', (Q, PQ, '''            {
              rt_expr<InterfaceType> first(binary_ptr->lhs()->clone());
              rt_expr<InterfaceType> second(binary_ptr->rhs()->clone());
              NumericT sum = (*this)(first);
              sum += (*this)(second);
              return sum;
            }''')),
 ('i10-latex-parens-helper', 'P25,P12', (LX, '''          if (use_parenthesis)
            ss << "(";
          ss << translator(lhs, is_op_mult);
          if (is_op_mult)
            ss << " \\\\cdot ";
          else
            ss << " " << e.op()->str() << " ";
          ss << translator(rhs, is_op_mult || is_op_minus);
          if (use_parenthesis)
            ss << ")";''', '''          const std::string symbol = is_op_mult ? std::string("\\\\cdot") : e.op()->str();
          const std::string body = translator(lhs, is_op_mult) + " " + symbol + " " + translator(rhs, is_op_mult || is_op_minus);
          ss << (use_parenthesis ? "(" + body + ")" : body);''')),
 ('i11-latex-left-right', 'P25,P12', (LX, '''          if (use_parenthesis)
            ss << "(";
          ss << translator(lhs, is_op_mult);''', '''          if (use_parenthesis)
            ss << "( ";
          ss << translator(lhs, is_op_mult);''')),
 ('i12-binary-deep-equal-nested', 'P10,P04', whole(B, lambda t: t.replace('''          return lhs_->deep_equal(temp->lhs())
                 && op_->equal(temp->op())
                 && rhs_->deep_equal(temp->rhs());''', '''          if (!op_->equal(temp->op()))
            return false;
          if (!rhs_->deep_equal(temp->rhs()))
            return false;
          return lhs_->deep_equal(temp->lhs());'''))),
 ('i13-variable-eval-order', 'P01,P02', whole(V, lambda t: re.sub(r'if \(id_ >= v\.size\(\)\)', 'if (!(id_ < v.size()))', t))),
 ('i14-mult-zero-helper', 'P06,P07,P12', whole(BO, lambda t: t.replace('''  /** @brief Implementation of the simplification procedures for an expression of the form e1 * e2 */''', '''  template <typename InterfaceType>
  bool constant_with_value(const InterfaceType * e, typename InterfaceType::numeric_type value)
  {
    return e->is_constant() && e->unwrap() == value;
  }

  /** @brief Implementation of the simplification procedures for an expression of the form e1 * e2 */''', 1).replace('''          NumericT val = lhs->unwrap();
          if (val == 0.0)
            return new rt_constant<NumericT, InterfaceType>(0.0);''', '''          NumericT val = lhs->unwrap();
          if (constant_with_value(lhs, 0.0))
            return new rt_constant<NumericT, InterfaceType>(0.0);''', 1))),
 ('i15-symmetric-zero-rule', 'P06,P07,P12', (BO, '''  InterfaceType * simplify_impl(const InterfaceType * lhs, op_mult<NumericT>, const InterfaceType * rhs)
  {''', '''  InterfaceType * simplify_impl(const InterfaceType * lhs, op_mult<NumericT>, const InterfaceType * rhs)
  {
        const bool left_vanishes  = lhs->is_constant() && lhs->unwrap() == 0.0;
        const bool right_vanishes = rhs->is_constant() && rhs->unwrap() == 0.0;
        if (left_vanishes || right_vanishes)
          return new rt_constant<NumericT, InterfaceType>(0.0);
''')),
 ('i16-subst-helper-member', 'P04,P05,P12', whole(B, lambda t: t.replace('''        for (size_t i=0; i<e.size(); ++i)
          if (deep_equal(e[i]))
            return repl[i]->clone();
''', '''        typedef typename std::vector<const InterfaceType *>::const_iterator iter_type;
        iter_type r = repl.begin();
        for (iter_type it = e.begin(); it != e.end(); ++it, ++r)
        {
          if (!deep_equal(*it))
            continue;
          return (*r)->clone();
        }
''') if 'for (size_t i=0; i<e.size(); ++i)\n          if (deep_equal(e[i]))' in t else t.replace('''        for (std::size_t i=0; i<e.size(); ++i)
          if (deep_equal(e[i]))
            return repl[i]->clone();
''', '''        typedef typename std::vector<const InterfaceType *>::const_iterator iter_type;
        iter_type r = repl.begin();
        for (iter_type it = e.begin(); it != e.end(); ++it, ++r)
        {
          if (!deep_equal(*it))
            continue;
          return (*r)->clone();
        }
'''))),
 ('i17-subst-wrapper', 'P04,P12', whole(SU, lambda t: t.replace('''    rt_expr<InterfaceType> temp(e.get()->substitute(&u, &repl));
    inplace_simplify(temp);
    return temp;''', '''    InterfaceType * replaced = e.get()->substitute(&u, &repl);
    rt_expr<InterfaceType> temp(replaced);
    while (temp.get()->can_simplify())
      temp = temp.get()->simplify();
    return temp;'''))),
 ('i18-unary-chain-helper', 'P08,P09,P12', whole(UO, lambda t: t.replace(EXPD, '''    typedef typename InterfaceType::numeric_type value_type;
    std::auto_ptr<InterfaceType> inner(e->diff(diff_var));
    std::auto_ptr<InterfaceType> outer(new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_exp<NumericT>, InterfaceType>()));
    return new rt_binary_expr<InterfaceType>(outer.release(), new op_binary<op_mult<value_type>, InterfaceType>(), inner.release());'''))),
 ('i19-quotient-zero-numerator', 'P06,P07,P12', (BO, '''  InterfaceType * simplify_impl(const InterfaceType * lhs, op_div<NumericT>, const InterfaceType * rhs)
  {''', '''  InterfaceType * simplify_impl(const InterfaceType * lhs, op_div<NumericT>, const InterfaceType * rhs)
  {
        if (lhs->is_constant() && rhs->is_constant())
          return new rt_constant<NumericT, InterfaceType>(lhs->unwrap() / rhs->unwrap());
''')),
 ('i20-plus-simplify-children-first', 'P06,P07,P12', (BO, '''  InterfaceType * simplify_impl(const InterfaceType * lhs, op_plus<NumericT>, const InterfaceType * rhs)
  {''', '''  InterfaceType * simplify_impl(const InterfaceType * lhs, op_plus<NumericT>, const InterfaceType * rhs)
  {
        if (lhs->is_constant() && rhs->is_constant())
        {
          const NumericT sum = lhs->unwrap() + rhs->unwrap();
          return new rt_constant<NumericT, InterfaceType>(sum);
        }
''')),
 ('i21-constant-denominator', 'P08,P09,P12', (BO, """  InterfaceType * diff_impl(const InterfaceType * lhs, op_div<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
  {""", """  InterfaceType * diff_impl(const InterfaceType * lhs, op_div<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
  {
    if (rhs->is_constant())   // (u / c)' = u' / c
      return new rt_binary_expr<InterfaceType>(lhs->diff(diff_var), new op_binary<op_div<NumericT>, InterfaceType>(), rhs->clone());
""")),
 ('i22-constant-derivative', 'P08,P09,P12', (B, "        return op_->diff(lhs_.get(), rhs_.get(), diff_var);", "        if (is_constant())\n          return new rt_constant<numeric_type, InterfaceType>(0);\n        return op_->diff(lhs_.get(), rhs_.get(), diff_var);")),
 ('i23-square', 'P08,P09,P12', (BO, MULT, """      if (lhs->deep_equal(rhs))    // (u * u)' = 2 * u * u'
        return new rt_binary_expr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(2), new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                 new rt_binary_expr<InterfaceType>(lhs->clone(), new op_binary<op_mult<NumericT>, InterfaceType>(), rhs->diff(diff_var)));
""" + MULT)),
 ('i24-same-sum', 'P06,P07,P12', (BO, """  InterfaceType * simplify_impl(const InterfaceType * lhs, op_plus<NumericT>, const InterfaceType * rhs)
  {""", """  InterfaceType * simplify_impl(const InterfaceType * lhs, op_plus<NumericT>, const InterfaceType * rhs)
  {
        if (lhs->is_constant() && lhs->unwrap() == 0)
          return rhs->can_simplify() ? rhs->simplify() : rhs->clone();
""")),
]
