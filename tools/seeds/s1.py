R='viennamath/runtime/'; M='viennamath/manipulation/'; D=M+'detail/'
SEEDS=[
dict(id='b01-symbol-family',prop='P10',file=R+'function_symbol.hpp',old='''return (ptr->id() == id_ && ptr->tag_id_ == tag_id_);''',new='''return (ptr->id() == id_ && (ptr->tag_id_ == tag_id_ || id_ != 0));''',
 needs='two function symbols with the same non-zero number and different families',breaks='deep_equal of function symbols ignores the family when the number is not zero',
 demo='''int main() { RF u(3, vm::unknown_tag<>()), v(3, vm::test_tag<>()); want(!u.deep_equal(&v), "symbols of different families are different"); want(u.deep_equal(&u), "reflexive"); return bad; }'''),
dict(id='b02-list-substitution-last-match',prop='P05',file=R+'binary_expr.hpp',old='''        for (size_t i=0; i<e.size(); ++i)
          if (deep_equal(e[i]))''',new='''        for (size_t i=e.size(); i-- > 0; )
          if (deep_equal(e[i]))''',needs='a substitution list in which two search expressions equal the same binary sub-expression',breaks='the last instead of the first equal search expression decides',
 demo='''int main() { RV x(0), y(1); RE s = x + y, a = 2.0 * x, b = 3.0 * y, e = RE(x + y) * 5.0; std::vector<RE> S, R; S.push_back(s); S.push_back(s); R.push_back(a); R.push_back(b);
 RE o = vm::substitute(S, R, e); want(near(o(pt(1, 10)), 10), "first match decides"); return bad; }'''),
dict(id='b03-minus-one-factor',prop='P06',file=D+'binary_operations.hpp',old='''          if (val == 1.0)
            return lhs->simplify();

          return new rt_binary_expr<InterfaceType>(lhs->simplify(),
                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),''',new='''          if (val * val == 1.0)
            return lhs->simplify();

          return new rt_binary_expr<InterfaceType>(lhs->simplify(),
                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),''',needs='a right factor that is the constant -1, in an expression that is simplified',breaks='simplifying e * -1 yields e',
 demo='''int main() { RV x(0); RE e = RE(x * -1.0) + RE(x * 1.0) * 2.0; RE s = vm::simplify(e); want(near(e(4.0), s(4.0)), "simplification keeps the value"); return bad; }'''),
dict(id='b04-vector-substitution-leak',prop='P12',file=R+'vector_expr.hpp',nth=1,old='''(*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->substitute(e, repl));''',new='''(*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->substitute(e, repl)->clone());''',needs='list substitution reaching a vector expression; the leak shows only when allocations are counted',breaks='every component of the substituted vector leaks',
 demo='''#include <new>
static long live = 0; void* operator new(std::size_t n) { ++live; return std::malloc(n); } void operator delete(void* p) noexcept { if (p) { --live; std::free(p); } } void operator delete(void* p, std::size_t) noexcept { if (p) { --live; std::free(p); } }
int main() { RV x(0); RC c(2.0); VE v(2); v[0] = x; v[1] = RE(x + 1.0); std::vector<const IF*> s(1, &x), r(1, &c); long a = live; { RE o(v.substitute(s, r)); } want(live == a, "everything is released"); return bad; }'''),
dict(id='b06-traversal-order',prop='P14',file=R+'binary_expr.hpp',old='''          lhs_->recursive_traversal(fw);
          fw(this);
          rhs_->recursive_traversal(fw);''',new='''          lhs_->recursive_traversal(fw);
          rhs_->recursive_traversal(fw);
          fw(this);''',needs='a traversal functor that records the order',breaks='a binary node is visited after its right operand',
 demo='''struct T : vm::rt_traversal_interface<> { std::vector<std::string>* l; T(std::vector<std::string>* q) : l(q) {} void operator()(IF const* e) const { l->push_back(e->shallow_str()); } bool step_into(IF const*) const { return true; } };
int main() { RV x(0); RE e = x + 1.0; std::vector<std::string> l; vm::rt_traversal_wrapper<> w(new T(&l)); e.get()->recursive_traversal(w); want(l.size() == 3 && l[1] == e.get()->shallow_str(), "node between its operands"); return bad; }'''),
dict(id='b07-minus-leaves-zero',prop='P07',file=D+'binary_operations.hpp',nth=1,old='''      if (rhs->is_constant())
      {
        if (rhs->unwrap() == 0.0)
        {
          //std::cout << "can_simplify: true in op_minus" << std::endl;
          return true;
        }
      }
''',new='',needs='an expression that subtracts zero and has nothing else to simplify',breaks='e - 0 reports that nothing can be simplified and stays',
 demo='''int main() { RV x(0); RE e = RE(x - 0.0); RE s = vm::simplify(e); want(dynamic_cast<RV const*>(s.get()) != 0, "subtracting zero disappears"); return bad; }'''),
]
SEEDS[-1].pop('nth')
