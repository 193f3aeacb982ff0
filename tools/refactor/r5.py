# behaviour-preserving edits, fifth round: other ways to write the loops
R = 'viennamath/runtime/'; MA = 'viennamath/manipulation/'
B = R+'binary_expr.hpp'; UN = R+'unary_expr.hpp'; VX = R+'vector_expr.hpp'; X = R+'expr.hpp'; V = R+'variable.hpp'; C = R+'constant.hpp'; SU = MA+'substitute.hpp'; SI = MA+'simplify.hpp'; L = MA+'latex.hpp'
def T(f): return open('/repo/' + f).read()
INC = (VX, '#include <vector>', '#include <vector>\n#include <algorithm>\n#include <functional>', 0)
def whole(f, fn): t = T(f); n = fn(t); assert n != t, f; return (f, t, n)
EQL = '''          bool is_equal = (BaseType::size() == temp->size());

          for (std::size_t i=0; is_equal && i<temp->size(); ++i)
            is_equal = is_equal && (*this)[i].get()->deep_equal( (*temp)[i].get() );


          return is_equal;'''
LST = '''        for (std::size_t i=0; i<e.size(); ++i)
          if (deep_equal(e[i]))
            return repl[i]->clone();
'''
DOT = '''    rt_expr<InterfaceType> result = lhs[0] * rhs[0];
    for (std::size_t i=1; i<rhs.size(); ++i)
      result = result + lhs[i] * rhs[i];

    return result;'''
SUB = '''        for (std::size_t i=0; i<result->size(); ++i)
          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->substitute(e, repl));
'''
CPY = '''        std::vector<double> stl_v(v.size());
        for (std::size_t i=0; i<v.size(); ++i)
          stl_v[i] = v[i];
'''
P = '#include'
M = [
 ('g01-equal-algo', 'P10,P04,P15', [whole(VX, lambda t: t.replace(EQL, '''          return BaseType::size() == temp->size()
                 && std::equal(BaseType::begin(), BaseType::end(), temp->begin(), components_equal);''').replace('''      /** @brief Returns 'true' if 'other' is strictly the same as this class. Also''', '''      static bool components_equal(rt_expr<InterfaceType> const & a, rt_expr<InterfaceType> const & b) { return a.get()->deep_equal(b.get()); }

      /** @brief Returns 'true' if 'other' is strictly the same as this class. Also''').replace('#include', '#include <algorithm>\n#include', 1))]),
 ('g02-equal-early-return', 'P10,P04', [(VX, EQL, '''          if (BaseType::size() != temp->size())
            return false;

          std::size_t i = 0;
          while (i < temp->size() && (*this)[i].get()->deep_equal( (*temp)[i].get() ))
            ++i;
          return i == temp->size();''')]),
 ('g03-equal-count', 'P10', [(VX, EQL, '''          if (BaseType::size() != temp->size())
            return false;

          std::size_t differing = 0;
          for (std::size_t i=0; i<temp->size(); ++i)
            if (!(*this)[i].get()->deep_equal( (*temp)[i].get() ))
              ++differing;
          return differing == 0;''')]),
 ('g04-list-find-if', 'P05', [(VX, LST, '''        typename std::vector<const InterfaceType *>::const_iterator repl_it = repl.begin();
        for (typename std::vector<const InterfaceType *>::const_iterator it = e.begin(); it != e.end(); ++it, ++repl_it)
          if (deep_equal(*it))
            return (*repl_it)->clone();
''')]),
 ('g05-list-index-after', 'P05', [(VX, LST, '''        std::size_t match = 0;
        while (match < e.size() && !deep_equal(e[match]))
          ++match;
        if (match < e.size())
          return repl[match]->clone();
''')]),
 ('g06-list-found-flag', 'P05', [(VX, LST, '''        const InterfaceType * found = NULL;
        for (std::size_t i=0; i<e.size() && found == NULL; ++i)
          if (deep_equal(e[i]))
            found = repl[i];
        if (found != NULL)
          return found->clone();
''')]),
 ('g07-list-backwards', 'P05', [(VX, LST, '''        const InterfaceType * found = NULL;
        for (std::size_t i=e.size(); i>0; --i)   // the first match counts
          if (deep_equal(e[i-1]))
            found = repl[i-1];
        if (found != NULL)
          return found->clone();
''')]),
 ('g08-dot-accumulate', 'P15,P06', [(VX, DOT, '''    rt_expr<InterfaceType> result(rt_expr<InterfaceType>(lhs[0] * rhs[0]));
    std::size_t i = 0;
    do
    {
      ++i;
      if (i == rhs.size())
        break;
      result = result + lhs[i] * rhs[i];
    } while (true);

    return result;''')]),
 ('g09-dot-products-first', 'P15,P06', [(VX, DOT, '''    rt_vector_expr<InterfaceType> products(lhs.size());
    for (std::size_t i=0; i<lhs.size(); ++i)
      products[i] = lhs[i] * rhs[i];

    rt_expr<InterfaceType> result = products[0];
    for (std::size_t i=1; i<products.size(); ++i)
      result = result + products[i];

    return result;''')]),
 ('g10-dot-from-zero', 'P15,P06,P07', [(VX, DOT, '''    rt_expr<InterfaceType> result;
    for (std::size_t i=0; i<rhs.size(); ++i)
    {
      if (i == 0)
        result = lhs[i] * rhs[i];
      else
        result = result + lhs[i] * rhs[i];
    }

    return result;''')]),
 ('g11-subst-component-helper', 'P04,P15', [(VX, SUB, '''        for (std::size_t i=0; i<result->size(); ++i)
        {
          InterfaceType * component = BaseType::at(i).get()->substitute(e, repl);
          result->at(i) = component;
        }
''', 0)]),
 ('g12-copy-ctor-range', 'P01,P02', [whole(B, lambda t: t.replace(CPY, '''        std::vector<double> stl_v;
        stl_v.reserve(v.size());
        for (std::size_t i=0; i<v.size(); ++i)
          stl_v.push_back(v[i]);
'''))]),
 ('g13-copy-backwards', 'P01,P02', [whole(B, lambda t: t.replace(CPY, '''        std::vector<double> stl_v(v.size());
        for (std::size_t i=v.size(); i-- > 0; )
          stl_v[i] = v[i];
'''))]),
 ('g14-plus-copy', 'P15', [(VX, '''        self_type result(other.size());
        for (std::size_t i=0; i<other.size(); ++i)
          result[i] = (*this)[i] + other[i];
''', '''        self_type result(*this);
        for (std::size_t i=0; i<other.size(); ++i)
          result[i] = result[i] + other[i];
''')]),
 ('g15-minus-transform', 'P15', [whole(VX, lambda t: t.replace('''        for (std::size_t i=0; i<other.size(); ++i)
          result[i] = (*this)[i] - other[i];
''', '''        std::transform(BaseType::begin(), BaseType::end(), other.begin(), result.begin(), difference);
''').replace('''      /** @brief Operator overload for subtracting''', '''      static rt_expr<InterfaceType> difference(rt_expr<InterfaceType> const & a, rt_expr<InterfaceType> const & b) { return a - b; }

      /** @brief Operator overload for subtracting''').replace('#include', '#include <algorithm>\n#include', 1))]),
 ('g16-scale-iter', 'P15', [(VX, '''    rt_vector_expr<InterfaceType> result(rhs.size());
    for (std::size_t i=0; i<rhs.size(); ++i)
      result[i] = lhs * rhs[i];
''', '''    rt_vector_expr<InterfaceType> result(rhs.size());
    typename rt_vector_expr<InterfaceType>::iterator out = result.begin();
    for (typename rt_vector_expr<InterfaceType>::const_iterator it = rhs.begin(); it != rhs.end(); ++it)
      *out++ = lhs * *it;
''')]),
 ('g17-ctor-fill', 'P15,P12', [(VX, '''        //initialize all zeros:
        for (std::size_t i=0; i<num; ++i)
          BaseType::operator[](i) = viennamath::rt_constant<numeric_type, interface_type>(0);
''', '''        //initialize all zeros:
        viennamath::rt_constant<numeric_type, interface_type> zero(0);
        for (typename BaseType::iterator it = BaseType::begin(); it != BaseType::end(); ++it)
          *it = zero;
''')]),
 ('g18-clone-copy-ctor', 'P11,P12,P15', [(VX, '''        self_type * result = new self_type(BaseType::size());

        for (std::size_t i=0; i<result->size(); ++i)
          //(*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->clone());
          (*result)[i] = (*this)[i];

        return result;''', '''        std::auto_ptr<self_type> result(new self_type(BaseType::size()));
        std::copy(BaseType::begin(), BaseType::end(), result->begin());
        return result.release();''')]),
 ('g19-print-sep', 'P28', [(VX, '''      stream << e[i];
      if (i+1 < e.size())
        stream << ", ";''', '''      if (i > 0)
        stream << ", ";
      stream << e[i];''')]),
]
