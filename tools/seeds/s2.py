R='viennamath/runtime/'; M='viennamath/manipulation/'; D=M+'detail/'
SEEDS=[
dict(id='c01-product-short-circuit',prop='P02',file=R+'binary_expr.hpp',old='''        return op_->apply(lhs_.get()->eval(v), rhs_.get()->eval(v));''',new='''        const numeric_type left = lhs_.get()->eval(v);
        if (left == 0 && dynamic_cast<const op_binary<op_mult<numeric_type>, InterfaceType> *>(op_.get()) != NULL)
          return 0;   // no need to look at the other factor
        return op_->apply(left, rhs_.get()->eval(v));''',
 needs='a product whose left factor evaluates to zero and whose right factor contains a variable beyond the point',breaks='no index exception for the variable in the skipped factor',
 demo='''int main() { RV x(0), w(7); RE e = x * w; bool thrown = false; try { e(pt(0, 1, 2)); } catch (vm::variable_index_out_of_bounds_exception const&) { thrown = true; } want(thrown, "index exception");
 RE f = x * RV(1); want(near(f(pt(0, 3)), 0) && near(f(pt(2, 3)), 6), "value"); return bad; }'''),
dict(id='c02-constant-minuend-derivative',prop='P08',file=D+'binary_operations.hpp',old='''      return new rt_binary_expr<InterfaceType>( lhs->diff(diff_var),
                                                new op_binary<op_minus<NumericT>, InterfaceType>(),
                                                rhs->diff(diff_var) );''',new='''      if (lhs->is_constant() || rhs->is_constant())   // the constant does not contribute
        return lhs->is_constant() ? rhs->diff(diff_var) : lhs->diff(diff_var);

      return new rt_binary_expr<InterfaceType>( lhs->diff(diff_var),
                                                new op_binary<op_minus<NumericT>, InterfaceType>(),
                                                rhs->diff(diff_var) );''',
 needs='differentiating constant - f',breaks='the sign of the derivative of constant - f is lost',
 demo='''int main() { RV x(0); RE e = RE(3.0) - RE(x * x); RE d = vm::diff(e, x); want(near(d(2.0), -4), "derivative of 3 - x^2"); RE g = vm::diff(RE(RE(x * x) - 3.0), x); want(near(g(2.0), 4), "derivative of x^2 - 3"); return bad; }'''),
dict(id='c03-interval-binary-order',prop='P26',file=R+'interval.hpp',old='''  rt_interval<InterfaceType> make_interval(typename InterfaceType::numeric_type lhs, rt_binary_expr<InterfaceType> const & rhs)
  {
    return rt_interval<InterfaceType>(lhs, rhs);''',new='''  rt_interval<InterfaceType> make_interval(typename InterfaceType::numeric_type lhs, rt_binary_expr<InterfaceType> const & rhs)
  {
    return rt_interval<InterfaceType>(rhs, lhs);''',needs='make_interval of a number and a runtime binary expression',breaks='the two limits are swapped',
 demo='''int main() { RV x(0); RI i = vm::make_interval<IF>(2.0, x + x); want(i.lower().get()->is_constant() && !i.upper().get()->is_constant(), "limits in order"); return bad; }'''),
dict(id='c04-quadrature-zero-minuend',prop='P23',file=R+'numerical_quadrature.hpp',old='''            if (op_ptr_minus != NULL)
            {''',new='''            if (op_ptr_minus != NULL)
            {
              if (binary_ptr->lhs()->is_constant() && binary_ptr->lhs()->unwrap() == 0)
                return this->operator()(rt_expr<InterfaceType>(binary_ptr->rhs()->clone()));
''',needs='quadrature of 0 - integral',breaks='the sign of the integral is lost',
 demo='''int main() { RV x(0); RE i = vm::integral(RI(RE(0.0), RE(2.0)), RE(x + 1.0), x); vm::numerical_quadrature q(new vm::rt_gauss_quad_1<>()); RE z(0.0); RE e = z - i; want(near(q(e), -4), "0 - int(x+1, 0..2)"); want(near(q(RE(i - z)), 4), "int - 0"); return bad; }'''),
dict(id='c05-test-gradient-3d',prop='P24',file=M+'apply_coordinate_system.hpp',old='''    grad_v[2] = diff(v, z);''',new='''    grad_v[2] = diff(u, z);''',needs='gradient of the test function in three dimensions',breaks='the third component is the derivative of the unknown instead of the test function',
 demo='''int main() { RF v(0, vm::test_tag<>()); RV x(0), y(1), z(2); RE e = RE(vm::grad(v)); RE r = vm::apply_coordinate_system(vm::cartesian<3>(), e); VE g(3); g[0] = vm::diff(v, x); g[1] = vm::diff(v, y); g[2] = vm::diff(v, z); want(r.get()->deep_equal(&g), "gradient of the test function"); return bad; }'''),
dict(id='c06-integral-prints-lower-twice',prop='P28',file=R+'interval.hpp',old='''    stream << "interval(" << e.lower() << ", " << e.upper() << ")";''',new='''    stream << "interval(" << e.lower() << ", ";
    if (e.upper().get()->is_constant() || !e.lower().get()->is_constant())
      stream << e.upper() << ")";
    else
      stream << e.lower() << ")";''',needs='an interval with a constant lower and a variable upper limit',breaks='the printed upper limit is the lower one',
 demo='''#include <sstream>
int main() { RV x(0), y(1); RE a = vm::integral(RI(RE(0.0), RE(y)), RE(x), x), b = vm::integral(RI(RE(0.0), RE(y * 2.0)), RE(x), x); std::stringstream s, t; s << a; t << b; want(s.str() != t.str(), "different integrals print differently"); return bad; }'''),
dict(id='c07-gateaux-quotient-symbol',prop='P09',file=R+'function_symbol.hpp',old='''if (ptr->id() == id_ && ptr->tag_id() == tag_id_)''',new='''if (ptr->id() == id_ && (ptr->tag_id() == tag_id_ || tag_id_ == test_tag<>::tag_id()))''',needs='differentiating a test function with respect to the unknown of the same number',breaks='the derivative of the test function with respect to the unknown is one',
 demo='''int main() { RF u(0, vm::unknown_tag<>()), v(0, vm::test_tag<>()); RE e = u * v; RE d = vm::diff(e, u); RE w(v); want(d.get()->deep_equal(w.get()), "d(u v)/du is v"); return bad; }'''),
dict(id='c08-coefficient-of-quotient',prop='P19',file=M+'coefficient.hpp',old='''      struct coefficient_impl< FactorType, ct_binary_expr<LHS, op_div<NumericT>, RHS> >
      {
        typedef ct_binary_expr< typename coefficient_impl<FactorType, LHS>::type,
                                op_div<NumericT>,
                                RHS
                              >   type;''',new='''      struct coefficient_impl< FactorType, ct_binary_expr<LHS, op_div<NumericT>, RHS> >
      {
        typedef ct_binary_expr< typename coefficient_impl<FactorType, LHS>::type,
                                op_mult<NumericT>,
                                RHS
                              >   type;''',needs='the coefficient of a variable in a quotient with another variable in the denominator',breaks='the denominator becomes a factor',
 demo='''#include "viennamath/manipulation/coefficient.hpp"
int main() { vm::ct_variable<0> x; vm::ct_variable<1> y; typedef vm::ct_binary_expr<vm::ct_variable<0>, vm::op_div<double>, vm::ct_variable<1> > T; T q(x, y); vm::ct_constant<3> three; vm::ct_binary_expr<T, vm::op_mult<double>, vm::ct_variable<1> > e(q, y);
 RE c(vm::coefficient(x, vm::ct_binary_expr<T, vm::op_plus<double>, vm::ct_variable<1> >(q, y))); want(near(c(pt(7, 4)), 0.25), "coefficient of x in x/y + y"); return bad; }'''),
dict(id='c10-ct-integral-variable',prop='P27',file=R+'integral.hpp',nth=1,old='''    OperatorT op(interv, rt_variable<InterfaceType>(id));''',new='''    OperatorT op(interv, rt_variable<InterfaceType>(id > 2 ? 2 : id));''',needs='integral of a runtime binary expression over a compile-time variable with index above 2',breaks='another integration variable is stored',
 demo='''int main() { RV t(3); vm::ct_variable<3> ct; RE e = vm::integral(RI(RE(0.0), RE(1.0)), t * t, ct); RE f = vm::integral(RI(RE(0.0), RE(1.0)), RE(t * t), t); want(e.get()->deep_equal(f.get()), "integration variable"); return bad; }'''),
dict(id='c11-vector-difference-shared',prop='P15',file=R+'vector_expr.hpp',old='''          result[i] = (*this)[i] - other[i];''',new='''          result[i] = (i < 3) ? (*this)[i] - other[i] : other[i] - (*this)[i];''',needs='the difference of vectors with more than three components',breaks='later components have the wrong sign',
 demo='''int main() { RV x(0); VE a(4), b(4); for (int i = 0; i < 4; ++i) { a[i] = RE(x * double(i + 1)); b[i] = RE(x + double(i)); } VE d = a - b; for (int i = 0; i < 4; ++i) want(near(d[i](2.0), a[i](2.0) - b[i](2.0)), "component of the difference"); return bad; }'''),
dict(id='c12-latex-minus-group',prop='P25',file=M+'latex.hpp',old='''ss << translator(rhs, is_op_mult || is_op_minus);''',new='''{
            const BinaryExpr * rhs_ptr = dynamic_cast< const BinaryExpr * >(e.rhs());
            const bool rhs_is_sum = (rhs_ptr != NULL) && dynamic_cast< const op_binary<op_minus<NumericType>, InterfaceType> * >(rhs_ptr->op()) == NULL;
            ss << translator(rhs, is_op_mult || (is_op_minus && rhs_is_sum));
          }''',needs='a difference whose subtrahend is a difference',breaks='a - (b - c) is written as a - b - c',
 demo='''#include "viennamath/manipulation/latex.hpp"
int main() { RV x(0), y(1), z(2); RE a = RE(x) - RE(RE(y) - RE(z)), b = RE(RE(x) - RE(y)) - RE(z); vm::rt_latex_translator<> t; want(t(a) != t(b), "grouping of differences"); return bad; }'''),
]
