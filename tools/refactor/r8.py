# round 8: modern C++ (lambdas, algorithms, smart pointers, switch, references, moves)
V='viennamath/runtime/vector_expr.hpp'; B='viennamath/runtime/binary_expr.hpp'; U='viennamath/runtime/unary_expr.hpp'
X='viennamath/manipulation/latex.hpp'; Q='viennamath/runtime/numerical_quadrature.hpp'; A='viennamath/manipulation/apply_coordinate_system.hpp'
M=[
('h01','P10,P12',(V,'''          bool is_equal = (BaseType::size() == temp->size());

          for (std::size_t i=0; is_equal && i<temp->size(); ++i)
            is_equal = is_equal && (*this)[i].get()->deep_equal( (*temp)[i].get() );


          return is_equal;''','''          return BaseType::size() == temp->size()
              && std::equal(BaseType::begin(), BaseType::end(), temp->begin(),
                            [](viennamath::rt_expr<InterfaceType> const & a, viennamath::rt_expr<InterfaceType> const & b) { return a.get()->deep_equal(b.get()); });''')),
('h02','P04,P05,P12,P15',[(V,'''        for (std::size_t i=0; i<e.size(); ++i)
          if (deep_equal(e[i]))
            return repl[i]->clone();
''','''        auto hit = std::find_if(e.begin(), e.end(), [this](const InterfaceType * p) { return deep_equal(p); });
        if (hit != e.end())
          return repl[hit - e.begin()]->clone();
'''),(V,'#include <sstream>','#include <sstream>\n#include <algorithm>')]),
('h03','P11,P12,P15',(V,'''        self_type * result = new self_type(BaseType::size());

        for (std::size_t i=0; i<result->size(); ++i)
          //(*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->clone());
          (*result)[i] = (*this)[i];

        return result;''','''        std::unique_ptr<self_type> result(new self_type(BaseType::size()));
        std::size_t i = 0;
        for (auto const & component : *this)
          (*result)[i++] = component;
        return result.release();''')),
('h04','P11,P12',(V,'''        self_type * result = new self_type(BaseType::size());

        for (std::size_t i=0; i<result->size(); ++i)
          //(*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->clone());
          (*result)[i] = (*this)[i];

        return result;''','''        return new self_type(*this);''')),
('h05','P15,P08,P12',(V,'''          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->diff(diff_var));''','''        {
          viennamath::rt_expr<InterfaceType> component((*this)[i].get()->diff(diff_var));
          (*result)[i] = std::move(component);
        }''')),
('h06','P04,P12,P05',(B,'''        for (size_t i=0; i<e.size(); ++i)
          if (deep_equal(e[i]))
            return repl[i]->clone();
''','''        for (auto it = e.cbegin(); it != e.cend(); ++it)
          if (deep_equal(*it))
            return repl[static_cast<std::size_t>(it - e.cbegin())]->clone();
''')),
('h07','P04,P12',(B,'''        return new rt_binary_expr(lhs_->substitute(e, repl),
                               op_->clone(),
                               rhs_->substitute(e, repl) );
      };

''','''        std::unique_ptr<InterfaceType> left(lhs_->substitute(e, repl));
        std::unique_ptr<InterfaceType> right(rhs_->substitute(e, repl));
        return new rt_binary_expr(left.release(), op_->clone(), right.release());
      };

''',0)),
('h08','P01,P02',(B,'''        return op_->apply(lhs_.get()->eval(v), rhs_.get()->eval(v));''','''        auto value = [&v](const InterfaceType * p) { return p->eval(v); };
        numeric_type const left = value(lhs_.get());
        numeric_type const right = value(rhs_.get());
        return op_->apply(left, right);''')),
('h09','P28',(B,'''        std::stringstream ss;
        ss << "(";
        ss << lhs_->deep_str();
        ss << op_->str();
        ss << rhs_->deep_str();
        ss << ")";
        return ss.str();''','''        return "(" + lhs_->deep_str() + op_->str() + rhs_->deep_str() + ")";''')),
('h10','P06,P07,P13',(B,'''        if (lhs_->is_constant() && rhs_->is_constant())
        {
          //std::cout << "optimizable(): true in rt_binary_expr" << std::endl;
          return true;
        }
        return op_->can_simplify(lhs_.get(), rhs_.get());''','''        return this->is_constant() ? true : op_->can_simplify(lhs_.get(), rhs_.get());''')),
('h11','P06,P12',(B,'''        if (lhs_->is_constant() && rhs_->is_constant())
          return new rt_constant<numeric_type, InterfaceType>( unwrap() );

        //std::cout << "Optimization forwarded to " << op_->str() << std::endl;
        return op_->simplify(lhs_.get(), rhs_.get());''','''        if (!is_constant())
          return op_->simplify(lhs_.get(), rhs_.get());

        const numeric_type folded = op_->apply(lhs_->unwrap(), rhs_->unwrap());
        InterfaceType * result = new rt_constant<numeric_type, InterfaceType>(folded);
        return result;''')),
('h12','P25',(X,'''        for (typename ProcessorArray::const_iterator it = processors_.begin();
                                                     it != processors_.end();
                                                   ++it)
        {
          ret = (*it)->process(ptr, use_parenthesis, *this);
          if (ret.size() > 0)
            return ret;
        }
''','''        for (ProcessorInterface * processor : processors_)
        {
          ret = processor->process(ptr, use_parenthesis, *this);
          if (!ret.empty())
            return ret;
        }
''')),
('h13','P25',(X,'''        for (typename ProcessorArray::const_iterator it = other.processors_.begin();
                                                     it != other.processors_.end();
                                                   ++it)
        {
          processors_.push_back( (*it)->clone() );
        }''','''        processors_.reserve(other.processors_.size());
        for (std::size_t i = 0; i < other.processors_.size(); ++i)
          processors_.push_back(other.processors_[i]->clone());''')),
('h14','P25',(X,'''          bool is_op_mult = false;
          if (dynamic_cast< const op_binary<op_mult<NumericType>, InterfaceType> * >(e.op()) != NULL)
            is_op_mult = true;

          bool is_op_minus = false;
          if (dynamic_cast< const op_binary<op_minus<NumericType>, InterfaceType> * >(e.op()) != NULL)
            is_op_minus = true;

          if (use_parenthesis)
            ss << "(";
          ss << translator(lhs, is_op_mult);
          if (is_op_mult)
            ss << " \\\\cdot ";
          else
            ss << " " << e.op()->str() << " ";
          ss << translator(rhs, is_op_mult || is_op_minus);
          if (use_parenthesis)
            ss << ")";''','''          const bool product = dynamic_cast< const op_binary<op_mult<NumericType>, InterfaceType> * >(e.op()) != NULL;
          const bool difference = dynamic_cast< const op_binary<op_minus<NumericType>, InterfaceType> * >(e.op()) != NULL;
          const std::string left = translator(lhs, product);
          const std::string right = translator(rhs, product || difference);
          const std::string sign = product ? std::string(" \\\\cdot ") : " " + e.op()->str() + " ";
          const std::string text = left + sign + right;
          ss << (use_parenthesis ? "(" + text + ")" : text);''')),
('h15','P25',(X,'''        ss << operator()(e.lhs()) << " = " << operator()(e.rhs());
        (void)use_parenthesis; //to silence unused parameter warnings
        return ss.str();''','''        (void)use_parenthesis; //to silence unused parameter warnings
        std::string text = operator()(e.lhs());
        text += " = ";
        text.append(operator()(e.rhs()));
        return text;''')),
('h16','P23,P12',(Q,'''        numeric_type abscissa = (viennamath::eval(interv.lower(), 0.0) + viennamath::eval(interv.upper(), 0.0)) / 2.0;
        rt_expr<InterfaceType> tmp = viennamath::substitute(var, abscissa, e);
        return tmp.get()->unwrap() * viennamath::eval(interv.upper() - interv.lower(), 0.0);''','''        auto limit = [](rt_expr<InterfaceType> const & l) { return viennamath::eval(l, 0.0); };
        const numeric_type a = limit(interv.lower()), b = limit(interv.upper());
        const numeric_type weight = b - a;
        return weight * viennamath::substitute(var, a + weight / 2.0, e).get()->unwrap();''')),
('h17','P23,P12',(Q,'''            const BinaryPlus * op_ptr_plus = dynamic_cast<const BinaryPlus *>(binary_ptr->op());
            if (op_ptr_plus != NULL)
              return this->operator()(rt_expr<InterfaceType>(binary_ptr->lhs()->clone()))
                     + this->operator()(rt_expr<InterfaceType>(binary_ptr->rhs()->clone()));
''','''            auto part = [this](const InterfaceType * p) { return (*this)(rt_expr<InterfaceType>(p->clone())); };
            if (const BinaryPlus * plus = dynamic_cast<const BinaryPlus *>(binary_ptr->op()))
            {
              (void)plus;
              NumericT sum = part(binary_ptr->lhs());
              sum += part(binary_ptr->rhs());
              return sum;
            }
''')),
('h18','P24,P12',(A,'''    rt_vector_expr<InterfaceType> grad_u(3);
    grad_u[0] = diff(u, x);
    grad_u[1] = diff(u, y);
    grad_u[2] = diff(u, z);

    rt_vector_expr<InterfaceType> grad_v(3);
    grad_v[0] = diff(v, x);
    grad_v[1] = diff(v, y);
    grad_v[2] = diff(v, z);
''','''    auto gradient = [&](rt_function_symbol<InterfaceType> const & f)
    {
      rt_vector_expr<InterfaceType> g(3);
      const rt_variable<InterfaceType> * coordinates[3] = { &x, &y, &z };
      for (std::size_t i = 0; i < 3; ++i)
        g[i] = diff(f, *coordinates[i]);
      return g;
    };
    rt_vector_expr<InterfaceType> grad_u = gradient(u);
    rt_vector_expr<InterfaceType> grad_v = gradient(v);
''')),
('h19','P24',(A,'''    //replace grad:
    rt_expr<InterfaceType> new_ex = ex;
    rt_expr<InterfaceType> new_ex1(substitute(grad(u), diff(u, x), new_ex) );
    rt_expr<InterfaceType> new_ex2(substitute(grad(v), diff(v, x), new_ex1) );

    //replace div:
    rt_expr<InterfaceType> new_ex3(substitute(div(u), diff(u, x), new_ex2) );
    rt_expr<InterfaceType> new_ex4(substitute(div(v), diff(v, x), new_ex3) );

    return new_ex4;''','''    rt_expr<InterfaceType> const du(diff(u, x)), dv(diff(v, x));
    rt_expr<InterfaceType> result(ex);
    result = substitute(grad(u), du, result);
    result = substitute(grad(v), dv, result);
    result = substitute(div(u), du, result);
    return substitute(div(v), dv, result);''')),
('h20','P11,P12',(B,'''        std::auto_ptr<InterfaceType> new_lhs(other.lhs()->clone());
        std::auto_ptr<InterfaceType> new_rhs(other.rhs()->clone());
        op_  = std::auto_ptr<op_interface_type>(other.op()->clone());
        lhs_ = new_lhs;
        rhs_ = new_rhs;
        return *this;''','''        if (this != &other)
        {
          rt_binary_expr copy(other);
          std::swap(lhs_, copy.lhs_);
          std::swap(op_, copy.op_);
          std::swap(rhs_, copy.rhs_);
        }
        return *this;''')),
('h21','P11,P12',(B,'''        std::auto_ptr<InterfaceType> new_lhs(other.lhs()->clone());
        std::auto_ptr<InterfaceType> new_rhs(other.rhs()->clone());
        op_  = std::auto_ptr<op_interface_type>(other.op()->clone());
        lhs_ = new_lhs;
        rhs_ = new_rhs;
        return *this;''','''        InterfaceType * const left = other.lhs()->clone();
        InterfaceType * const right = other.rhs()->clone();
        op_.reset(other.op()->clone());
        lhs_.reset(left);
        rhs_.reset(right);
        return *this;''')),
('h22','P15,P03,P12',(V,'''        self_type result(other.size());
        for (std::size_t i=0; i<other.size(); ++i)
          result[i] = (*this)[i] - other[i];

        return result;''','''        self_type result(*this);
        for (std::size_t i = result.size(); i-- > 0; )
          result[i] = result[i] - other[i];
        return result;''')),
('h23','P15,P03,P12',[(V,'''        self_type result(other.size());
        for (std::size_t i=0; i<other.size(); ++i)
          result[i] = (*this)[i] + other[i];

        return result;''','''        self_type result(other.size());
        std::transform(BaseType::begin(), BaseType::end(), other.begin(), result.begin(),
                       [](viennamath::rt_expr<InterfaceType> const & a, viennamath::rt_expr<InterfaceType> const & b) { return viennamath::rt_expr<InterfaceType>(a + b); });
        return result;'''),(V,'#include <sstream>','#include <sstream>\n#include <algorithm>')]),
('h24','P15,P03,P12',(V,'''        for (std::size_t i=0; i<other.size(); ++i)
          result[i] = (*this)[i] + other[i];

        return result;''','''        auto r = result.begin();
        auto b = other.begin();
        for (auto const & a : *this)
          *r++ = a + *b++;

        return result;''')),
]
