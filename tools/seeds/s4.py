R='viennamath/runtime/'; M='viennamath/manipulation/'
SEEDS=[
dict(id='e01-vector-text-cut',prop='P28',file=R+'vector_expr.hpp',old='''    stream << "[" << e.size() << "](";
    for (std::size_t i=0; i<e.size(); ++i)
    {
      stream << e[i];
      if (i+1 < e.size())''',new='''    const std::size_t shown = (e.size() < 300) ? e.size() : 300;
    stream << "[" << e.size() << "](";
    for (std::size_t i=0; i<shown; ++i)
    {
      stream << e[i];
      if (i+1 < shown)''',needs='printing a vector of more than 300 components',breaks='the components beyond the first 300 are not named',
 demo='''#include <sstream>
int main() { for (int n : {3, 310}) { VE v(n); for (int i = 0; i < n; ++i) v[i] = RE(RV(i)); std::stringstream s; s << v; std::string t = s.str(); size_t c = 0, p = 0; while ((p = t.find("variable", p)) != std::string::npos) { ++c; ++p; } want(c == (size_t)n, "every component is printed"); } return bad; }'''),
dict(id='e02-variable-index-narrow',prop='P02',file=R+'variable.hpp',old='''        if (id_ >= v.size())
          throw variable_index_out_of_bounds_exception(static_cast<long>(id_), static_cast<long>(v.size()));

        return (*this)(v);
      }

      /** @brief Interface function for evaluating the variable. Throws''',new='''        const unsigned int index = static_cast<unsigned int>(id_);
        if (index >= v.size())
          throw variable_index_out_of_bounds_exception(static_cast<long>(id_), static_cast<long>(v.size()));

        return v[index];
      }

      /** @brief Interface function for evaluating the variable. Throws''',needs='a variable with an index beyond 32 bits',breaks='a coordinate is returned where the index exception is due',
 demo='''int main() { std::vector<double> p(2, 3.0); for (unsigned long id : {1ul, 2ul, 4294967296ul, 4294967297ul}) { RE e(RB(RV(id).clone(), new vm::op_binary<vm::op_plus<double>, IF>(), RC(1.0).clone())); bool t = false; try { e.get()->eval(p); } catch (vm::variable_index_out_of_bounds_exception const &) { t = true; } want(t == (id >= 2), "index exception"); } return bad; }'''),
dict(id='e04-operand-constant-narrow',prop='P03',file=R+'operations/rt_rt.hpp',old='''    InterfaceType * clone(ct_constant<value> const & /*c*/) { return new rt_constant<default_numeric_type, InterfaceType>(value); }''',new='''    InterfaceType * clone(ct_constant<value> const & /*c*/)
    {
      const int number = static_cast<int>(value);
      return new rt_constant<default_numeric_type, InterfaceType>(number);
    }''',needs='a compile-time constant beyond 32 bits combined with a runtime expression',breaks='the operand has another value',
 demo='''int main() { RV x(0); RE e(x * x); RE a(e + vm::ct_constant<7>()), b(e - vm::ct_constant<6000000001L>()), c(vm::ct_constant<6000000001L>() / e); want(near(a(3.0), 16), "x^2 + 7"); want(near(b(3.0), 9 - 6000000001.0), "x^2 - 6000000001"); want(near(c(2.0), 6000000001.0 / 4), "6000000001 / x^2"); return bad; }'''),
]
