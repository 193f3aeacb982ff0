R='viennamath/runtime/'; M='viennamath/manipulation/'; D=M+'detail/'; C='viennamath/compiletime/'
SEEDS=[
dict(id='d01-exp-clipped',prop='P01',file=C+'unary_op_tags.hpp',old='''return ::exp(value); }''',new='''return (value < -60) ? NumericT(0) : ::exp(value); }''',needs='the exponential of a large negative number',breaks='tiny values of the exponential become zero',
 demo='''int main() { RV x(0); RE e = vm::exp(RE(x)); want(near(e(2.0), std::exp(2.0)), "exp(2)"); double r = e(-100.0), s = std::exp(-100.0); want(r > 0.5 * s && r < 2 * s, "exp(-100)"); return bad; }'''),
dict(id='d03-substitute-by-text',prop='P04',file=R+'unary_expr.hpp',nth=0,old='''        if (deep_equal(e))
          return repl->clone();''',new='''        if (shallow_equal(e) && deep_str() == e->deep_str())
          return repl->clone();''',needs='two unary expressions whose constants differ beyond the printed digits',breaks='an expression which is not equal to the searched one gets replaced',
 demo='''int main() { RV x(0); RE a = vm::sin(RE(x + 0.5)), b = vm::sin(RE(x + 0.5000000001)); RE r = vm::substitute(b, RE(RC(7.0)), RE(a * 1.0)); want(near(r(1.0), std::sin(1.5)), "sin(x + 0.5) is not the searched expression"); RE s = vm::substitute(a, RE(RC(7.0)), RE(a + 1.0)); want(near(s(1.0), 8), "sin(x + 0.5) replaced"); return bad; }'''),
dict(id='d04-clone-long-vector',prop='P11',file=R+'vector_expr.hpp',old='''        for (std::size_t i=0; i<result->size(); ++i)
          //(*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->clone());''',new='''        const unsigned char n = static_cast<unsigned char>(BaseType::size());
        for (std::size_t i=0; i<n; ++i)
          //(*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->clone());''',needs='cloning a vector of 256 or more components',breaks='the components beyond the multiple of 256 are not copied',
 demo='''int main() { VE v(260); for (int i = 0; i < 260; ++i) v[i] = RE(RC(i)); RE e(v); RE f(e); const VE * w = dynamic_cast<const VE *>(f.get()); want(w && w->size() == 260, "size"); for (int i = 0; w && i < 260; ++i) if (!(*w)[i].get() || !(*w)[i].get()->is_constant() || (*w)[i].get()->unwrap() != i) { want(false, "component"); break; } return bad; }'''),
dict(id='d05-zero-quotient-constant',prop='P13',file=R+'binary_expr.hpp',old='''bool is_constant() const { return lhs_->is_constant() && rhs_->is_constant(); };''',new='''bool is_constant() const
      {
        if (!lhs_->is_constant())
          return false;
        // zero divided by anything is a constant:
        return rhs_->is_constant() || (lhs_->unwrap() == 0 && dynamic_cast<const op_binary<op_div<numeric_type>, InterfaceType> *>(op_.get()) != NULL);
      };''',needs='a quotient of zero and a variable',breaks='the quotient claims to be constant, unwrapping it throws',
 demo='''int main() { RV x(0); RE e(RB(new RC(0.0), new vm::op_binary<vm::op_div<double>, IF>(), x.clone())); if (e.get()->is_constant()) { try { want(e.get()->unwrap() == 0, "value"); } catch (...) { want(false, "constant but not unwrappable"); } } RE f(RB(new RC(2.0), new vm::op_binary<vm::op_mult<double>, IF>(), new RC(3.0))); want(f.get()->is_constant() && f.get()->unwrap() == 6, "2*3"); return bad; }'''),
dict(id='d06-fraction-narrow',prop='P16',file=M+'simplify.hpp',old='''        static const long numerator = value_1 * denominator_2 + numerator_2;
        static const long denominator = denominator_2;''',new='''        static const int numerator = value_1 * denominator_2 + numerator_2;
        static const int denominator = denominator_2;''',nth=0,needs='the compile-time sum of a constant and a fraction with a numerator beyond 32 bits',breaks='the numerator wraps',
 demo='''int main() { typedef vm::ct_binary_expr<vm::ct_constant<300000>, vm::op_plus<double>, vm::ct_binary_expr<vm::ct_constant<1>, vm::op_div<double>, vm::ct_constant<30000> > > T; T t; vm::ct_variable<0> x; RE e(x + vm::result_of::simplify<T>::type()); want(near(e(0.0), 300000 + 1.0 / 30000), "300000 + 1/30000");
 typedef vm::ct_binary_expr<vm::ct_constant<3>, vm::op_plus<double>, vm::ct_binary_expr<vm::ct_constant<1>, vm::op_div<double>, vm::ct_constant<4> > > S; S s; RE f(x + vm::result_of::simplify<S>::type()); want(near(f(0.0), 3.25), "3 + 1/4"); return bad; }'''),
dict(id='d07-ct-diff-variable-modulo',prop='P17',file=M+'diff.hpp',old='''    struct diff< ct_variable<other_id>,
                 ct_variable<id> >
    {
      typedef ct_constant<0>    result_type;''',new='''    struct diff< ct_variable<other_id>,
                 ct_variable<id> >
    {
      typedef ct_constant<static_cast<unsigned char>(other_id) == static_cast<unsigned char>(id)>    result_type;''',needs='compile-time differentiation with variable numbers equal modulo 256',breaks='the derivative of another variable is one',
 demo='''int main() { vm::ct_variable<1> x; vm::ct_variable<257> y; vm::ct_variable<2> z; RE e(z + vm::diff(x * y, y)); std::vector<double> p(300, 2.0); p[1] = 5; p[257] = 7; p[2] = 0; want(near(e(p), 5), "d(x1 x257)/dx257"); RE f(z + vm::diff(x * z, z)); want(near(f(p), 5), "d(x1 x2)/dx2"); return bad; }'''),
dict(id='d09-power-unbalanced',prop='P20',file=M+'integrate.hpp',old='''typename pow<T, exponent - exponent / 2>::type>  type;''',new='''typename pow<T, exponent - (exponent + 1) / 2>::type>  type;''',needs='the compile-time integral of a monomial of degree two or more',breaks='odd powers lose a factor',
 demo='''#include "viennamath/manipulation/integrate.hpp"
int main() { vm::ct_variable<0> x; vm::ct_variable<1> y; RE e(y + vm::integrate(vm::make_interval(vm::ct_constant<0>(), vm::ct_constant<2>()), (x * x) * (x * x), x)); want(near(e(pt(0, 0)), 32.0 / 5), "int x^4"); RE f(y + vm::integrate(vm::make_interval(vm::ct_constant<0>(), vm::ct_constant<2>()), x, x)); want(near(f(pt(0, 0)), 2), "int x"); return bad; }'''),
dict(id='d10-product-like-square',prop='P08',file=D+'binary_operations.hpp',old='''      return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs->diff(diff_var),
                                                                                  new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                  rhs->clone()),
                                                new op_binary<op_plus<NumericT>, InterfaceType>(),''',new='''      if (!lhs->is_unary() && lhs->shallow_equal(rhs))   // a square: 2 * u' * u
        return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(2),
                                                                                    new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                    lhs->diff(diff_var)),
                                                  new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                  rhs->clone());

      return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs->diff(diff_var),
                                                                                  new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                  rhs->clone()),
                                                new op_binary<op_plus<NumericT>, InterfaceType>(),''',needs='differentiating a product of two different expressions of the same kind',breaks='the product is differentiated like a square',
 demo='''int main() { RV x(0); RE a = x + 1.0, b = RE(x * x) + 1.0; RE d = vm::diff(RE(a * b), x); want(near(d(2.0), 5 + 3 * 4), "((x+1)(x^2+1))'"); RE s = vm::diff(RE(a * a), x); want(near(s(2.0), 6), "((x+1)^2)'"); return bad; }'''),
dict(id='d11-identity-drops-group',prop='P25',file=M+'latex.hpp',old='''          ss << translator(lhs, use_parenthesis);''',new='''          ss << translator(lhs, use_parenthesis && dynamic_cast<const viennamath::rt_unary_expr<InterfaceType> *>(lhs.get()) == NULL);''',needs='a sum wrapped twice in the identity as a factor',breaks='the parentheses around the sum are lost',
 demo='''#include "viennamath/manipulation/latex.hpp"
int main() { RV x(0), y(1); RB s = x + y; RU u(s.clone()); RU w(u.clone()); RE a(w * RE(y)), b(x + RE(y * RE(y))); vm::rt_latex_translator<IF> t; std::string l = t(a); want(l.find('(') != std::string::npos, "(x + y) y keeps its parentheses"); want(t(RE(u * RE(y))).find('(') != std::string::npos, "single identity"); return bad; }'''),
dict(id='d12-deep-equal-by-text',prop='P10',file=R+'binary_expr.hpp',edits=[(R+'binary_expr.hpp','''          return lhs_->deep_equal(temp->lhs())
                 && op_->equal(temp->op())
                 && rhs_->deep_equal(temp->rhs());''','''          return op_->equal(temp->op()) && deep_str() == temp->deep_str();''')],needs='expressions with constants which differ beyond the printed digits',breaks='different expressions compare equal',
 demo='''int main() { RV x(0); RE a = x * 0.1, b = x * 0.1000000001, c = x * 0.1; want(!a.get()->deep_equal(b.get()), "0.1 and 0.1000000001 differ"); want(a.get()->deep_equal(c.get()), "equal"); return bad; }'''),
dict(id='d13-ct-constant-rounded',prop='P22',file=R+'binary_expr.hpp',old='''      template <long value, typename OP, typename RHS>
      explicit rt_binary_expr(ct_binary_expr<ct_constant<value>, OP, RHS > const & other) : op_(new op_binary<OP, InterfaceType>())
      {
        //std::cout << "Constructing from expression " << other << std::endl;
        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));''',new='''      template <long value, typename OP, typename RHS>
      explicit rt_binary_expr(ct_binary_expr<ct_constant<value>, OP, RHS > const & other) : op_(new op_binary<OP, InterfaceType>())
      {
        //std::cout << "Constructing from expression " << other << std::endl;
        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(static_cast<float>(value)));''',needs='a compile-time constant of more than 24 bits in front of a nested compile-time expression',breaks='the constant is rounded',
 demo='''int main() { vm::ct_variable<0> x; vm::ct_variable<1> y; vm::ct_constant<16777217> c; RE e(c - x * y); want(e(pt(0, 0)) == 16777217.0, "16777217 - x y"); vm::ct_constant<3> t; RE f(t - x * y); want(f(pt(1, 2)) == 1.0, "3 - x y"); return bad; }'''),
dict(id='d14-ct-substitute-chained',prop='P21',file=M+'substitute.hpp',old='''      typedef ct_binary_expr< typename substitute<SearchType, ReplacementType, LHS>::type,
                              OP,
                              typename substitute<SearchType, ReplacementType, RHS>::type >   type;''',new='''      typedef typename substitute<SearchType, ReplacementType, LHS>::type    new_lhs;
      typedef ct_binary_expr< new_lhs,
                              OP,
                              typename substitute<SearchType, new_lhs, RHS>::type >   type;''',needs='a compile-time expression in which the left operand is not replaced as a whole but the right one contains the searched variable',breaks='occurrences on the right are replaced by the new left operand',
 demo='''int main() { vm::ct_variable<0> x; vm::ct_variable<1> y; vm::ct_variable<2> z; RE e(z + vm::substitute(x, y, y * x)); want(near(e(pt(3, 5)), 25), "y x with y for x"); RE f(z + vm::substitute(x, y, (z + y) * x)); want(near(f(pt(3, 5, 0)), 25), "(z + y) x"); RE g(z + vm::substitute(x, y, z - x)); want(near(g(pt(3, 5, 11)), 17), "z - x"); return bad; }'''),
]
