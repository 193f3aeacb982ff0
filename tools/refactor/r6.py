# behaviour-preserving edits, sixth round: the compile-time part in other forms (every listed check has to stay quiet)
MA = 'viennamath/manipulation/'; SI = MA+'simplify.hpp'; EX = MA+'expand.hpp'; CO = MA+'coefficient.hpp'; IG = MA+'integrate.hpp'; SU = MA+'substitute.hpp'; DR = MA+'drop_dependent_terms.hpp'; DI = MA+'diff.hpp'
import re
def T(f): return open('/repo/' + f).read()
def whole(f, fn): t = T(f); n = fn(t); assert n != t, f; return (f, t, n)
HF = '''      template <typename FactorType,
                typename LHS, typename NumericT, typename RHS>
      struct extract_factor_from_product<FactorType, LHS, NumericT, RHS, true, true>
      {'''
M = [
 ('h01-using', 'P16,P17,P18,P19,P20,P21', [whole(f, lambda t: re.sub(r'typedef ([^;{}]*?)\s+(type|integrated_type|expanded_type);', lambda m: 'using %s = %s;' % (m.group(2), m.group(1)), t)) for f in (SI, EX, CO, IG, SU)]),
 ('h02-enum', 'P18,P19,P20', [whole(f, lambda t: re.sub(r'static const int value = ([^;]*);', r'enum { value = \1 };', t)) for f in (EX, CO, IG)]),
 ('h03-constexpr', 'P16,P18,P19,P20', [whole(f, lambda t: re.sub(r'static const int value', r'static constexpr int value', t)) for f in (SI, EX, CO, IG)]),
 ('h04-bools', 'P18,P20,P19', [whole(EX, lambda t: re.sub(r'has_plus_or_minus<(\w+)>::value != 0', r'has_plus_or_minus<\1>::value', re.sub(r'static const int value = (.*?);', lambda m: 'static const bool value = %s;' % m.group(1).replace('0', 'false').replace('1', 'true').replace('+', '||'), t)))]),
 ('h05-linear-power', 'P20', (IG, '''      typedef ct_binary_expr< typename pow<T, exponent / 2>::type,
                              op_mult<default_numeric_type>,
                              typename pow<T, exponent - exponent / 2>::type>  type;''', '''      typedef ct_binary_expr< typename pow<T, exponent - 1>::type,
                              op_mult<default_numeric_type>,
                              T>  type;''')),
 ('h06-monomial', 'P20', (IG, 'typedef ct_binary_expr< typename pow<VariableType, exponent + 1>::type,', 'typedef ct_binary_expr< ct_binary_expr<VariableType, op_mult<default_numeric_type>, typename pow<VariableType, exponent>::type>,')),
 ('h07-constant', 'P20', (IG, '''        typedef ct_binary_expr< ct_constant<value>,
                                op_mult<default_numeric_type>,
                                interval_length
                              >    integrated_type;''', '''        typedef ct_binary_expr< interval_length,
                                op_mult<default_numeric_type>,
                                ct_constant<value>
                              >    integrated_type;''')),
 ('h08-drop-unexpanded', 'P19', (DR, 'typedef typename viennamath::result_of::substitute<FactorType, ct_constant<0>, expanded_expression>::type    substituted_expression;', 'typedef typename viennamath::result_of::substitute<FactorType, ct_constant<0>, ExpressionType>::type    substituted_expression;')),
 ('h09-expand-both', 'P18,P19,P20', (EX, 'typedef typename expand_with_factor<LHS, RHS>::type   intermediate_type;', 'typedef typename expand_with_factor<RHS, LHS>::type   intermediate_type;')),
 ('h10-both-factors', 'P19', [(CO, '''        // if both LHS and RHS contain the factor, we extract the coefficient from the LHS and multiply with RHS
        typedef ct_binary_expr< typename coefficient_impl<FactorType, LHS>::type,
                                op_mult<NumericT>,
                                RHS
                              >                    type;''', '''        // if both LHS and RHS contain the factor, we extract the coefficient from the RHS and multiply with LHS
        typedef ct_binary_expr< LHS,
                                op_mult<NumericT>,
                                typename coefficient_impl<FactorType, RHS>::type
                              >                    type;''')]),
 ('h11-select', 'P19', [(CO, '''                bool lhs_has_factor = (has_factor<FactorType, LHS>::value != 0),
                bool rhs_has_factor = (has_factor<FactorType, RHS>::value != 0)
                >''', '''                int factors_found = (has_factor<FactorType, LHS>::value != 0 ? 1 : 0) + (has_factor<FactorType, RHS>::value != 0 ? 2 : 0)
                >'''), (CO, 'LHS, NumericT, RHS, true, false>', 'LHS, NumericT, RHS, 1>'), (CO, 'LHS, NumericT, RHS, false, true>', 'LHS, NumericT, RHS, 2>'), (CO, 'LHS, NumericT, RHS, true, true>', 'LHS, NumericT, RHS, 3>')]),
 ('h12-conditional', 'P16', [(SI, '''      // something plus 0 is something
      template <typename LHS, typename NumericT>
      struct simplify_impl < ct_binary_expr<LHS, op_plus<NumericT>, ct_constant<0> > >
      {
        static const int value = 1;
        typedef LHS          type;
      };
''', '''      template <bool C, typename A, typename B> struct pick { typedef A type; };
      template <typename A, typename B> struct pick<false, A, B> { typedef B type; };

      // something plus 0 is something
      template <typename LHS, typename NumericT>
      struct simplify_impl < ct_binary_expr<LHS, op_plus<NumericT>, ct_constant<0> > >
      {
        static const int value = 1;
        typedef typename pick<(simplify_impl<LHS>::value > 0), typename simplify_impl<LHS>::type, LHS>::type          type;
      };
''')]),
 ('h13-tag-dispatch', 'P18,P19,P20', [(EX, '''    struct expand< ct_binary_expr<LHS, op_mult<NumericT>, RHS> >
    {
      typedef typename detail::expand_product<LHS, RHS>::type    type;''', '''    struct expand< ct_binary_expr<LHS, op_mult<NumericT>, RHS> >
    {
      static const bool l = (detail::has_plus_or_minus<LHS>::value != 0);
      static const bool r = (detail::has_plus_or_minus<RHS>::value != 0);
      typedef typename detail::expand_product<LHS, RHS, l, r>::type    type;''')]),
 ('h14-degree-long', 'P20', [whole(IG, lambda t: t.replace('static const int value', 'static const long value').replace('enum { exponent =', 'static const long exponent =').replace('>::value  };', '>::value;'))]),
 ('h15-alias-template', 'P20', [(IG, '''    namespace detail
    {
      /** @brief The worker''', '''    namespace detail
    {
      template <typename T> using simplified = typename viennamath::result_of::simplify<T>::type;

      /** @brief The worker'''), (IG, '''                                RHS>                     integrated_type;

        typedef typename viennamath::result_of::simplify<integrated_type>::type    type;''', '''                                RHS>                     integrated_type;

        typedef simplified<integrated_type>    type;''')]),
 ('h16-diff-by-parts', 'P17', whole(DI, lambda t: t)) if False else None,
]
M = [m for m in M if m]
