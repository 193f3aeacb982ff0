# behaviour-preserving edits of the compile-time metafunctions
C = 'viennamath/manipulation/coefficient.hpp'; E = 'viennamath/manipulation/expand.hpp'; D = 'viennamath/manipulation/diff.hpp'; I = 'viennamath/manipulation/integrate.hpp'
S = 'viennamath/manipulation/simplify.hpp'; SU = 'viennamath/manipulation/substitute.hpp'; DR = 'viennamath/manipulation/drop_dependent_terms.hpp'; EV = 'viennamath/manipulation/eval.hpp'
def rn(f, a, b):
    t = open('/repo/' + f).read(); import re
    n = re.sub(r'\b%s\b' % a, b, t); return (f, t, n)
M = [
 ('c01-has-factor-bool', 'P19', (C, '''        static const int value = has_factor<FactorType, LHS>::value + has_factor<FactorType, RHS>::value;''', '''        static const int lhs_factors = has_factor<FactorType, LHS>::value;
        static const int rhs_factors = has_factor<FactorType, RHS>::value;
        static const int value = rhs_factors + lhs_factors;''')),
 ('c02-coefficient-generic-op', 'P19', [(C, '''        // get the factor from LHS:
        typedef ct_binary_expr< typename coefficient_impl<FactorType, LHS>::type,
                                op_mult<NumericT>,
                                RHS
                              >                    type;
      };

      template <typename FactorType,
                typename LHS, typename NumericT, typename RHS>
      struct extract_factor_from_product<FactorType, LHS, NumericT, RHS, false, true>''', '''        typedef typename coefficient_impl<FactorType, LHS>::type  lhs_coefficient;
        typedef ct_binary_expr<lhs_coefficient, op_mult<NumericT>, RHS>   type;
      };

      template <typename FactorType,
                typename LHS, typename NumericT, typename RHS>
      struct extract_factor_from_product<FactorType, LHS, NumericT, RHS, false, true>'''),
   (C, '''      struct extract_factor_from_product<FactorType, LHS, NumericT, RHS, true, true>
      {
        // if both LHS and RHS contain the factor, we extract the coefficient from the LHS and multiply with RHS
        typedef ct_binary_expr< typename coefficient_impl<FactorType, LHS>::type,
                                op_mult<NumericT>,
                                RHS
                              >                    type;
      };''', '''      struct extract_factor_from_product<FactorType, LHS, NumericT, RHS, true, true>
       : public extract_factor_from_product<FactorType, LHS, NumericT, RHS, true, false> {};''')]),
 ('c03-diff-product-helper', 'P18', [(D, '''    /** @brief Specialization implementing the rule (u * v)' = u'*v + u*v' */''', '''    namespace detail
    {
      template <typename LHS, typename OP, typename RHS, typename VAR>
      struct diff_cross_terms
      {
        typedef ct_binary_expr<typename diff<LHS, VAR>::result_type, op_mult<default_numeric_type>, RHS>  first;
        typedef ct_binary_expr<LHS, op_mult<default_numeric_type>, typename diff<RHS, VAR>::result_type>  second;
        typedef ct_binary_expr<first, OP, second>   type;
      };
    }

    /** @brief Specialization implementing the rule (u * v)' = u'*v + u*v' */'''),
   (D, '''      typedef ct_binary_expr< ct_binary_expr< typename diff<LHS, ct_variable<id> >::result_type,
                                              op_mult<default_numeric_type>,
                                              RHS>,
                              op_plus<default_numeric_type>,
                              ct_binary_expr< LHS,
                                              op_mult<default_numeric_type>,
                                              typename diff<RHS, ct_variable<id> >::result_type >
                            >                                                      result_type;''', '''      typedef typename detail::diff_cross_terms<LHS, op_plus<default_numeric_type>, RHS, ct_variable<id> >::type   result_type;'''),
   (D, '''      typedef ct_binary_expr< ct_binary_expr< ct_binary_expr< typename diff<LHS, ct_variable<id> >::result_type,
                                                              op_mult<default_numeric_type>,
                                                              RHS>,
                                              op_minus<default_numeric_type>,
                                              ct_binary_expr< LHS,
                                                              op_mult<default_numeric_type>,
                                                              typename diff<RHS, ct_variable<id> >::result_type >
                                            >,
                              op_div''', '''      typedef ct_binary_expr< typename detail::diff_cross_terms<LHS, op_minus<default_numeric_type>, RHS, ct_variable<id> >::type,
                              op_div''')]),
 ('c04-integrate-contribution', 'P20', (I, '''        typedef ct_binary_expr< typename integrate_monomial<UpperBound, exponent>::type,
                                op_mult<NumericT>,
                                simplified_coefficient_type
                              >                    upper_contribution;

        typedef ct_binary_expr< typename integrate_monomial<LowerBound, exponent>::type,
                                op_mult<NumericT>,
                                simplified_coefficient_type
                              >                    lower_contribution;

        typedef ct_binary_expr< typename simplify<upper_contribution>::type,
                                op_minus<NumericT>,
                                typename simplify<lower_contribution>::type
                              >            integrated_type;
''', '''        typedef typename integrate_monomial<LowerBound, exponent>::type   lower_monomial;
        typedef typename integrate_monomial<UpperBound, exponent>::type   upper_monomial;
        typedef typename simplify< ct_binary_expr<lower_monomial, op_mult<NumericT>, simplified_coefficient_type> >::type  lower_contribution;
        typedef typename simplify< ct_binary_expr<upper_monomial, op_mult<NumericT>, simplified_coefficient_type> >::type  upper_contribution;
        typedef ct_binary_expr<upper_contribution, op_minus<NumericT>, lower_contribution>            integrated_type;
''')),
 ('c05-integrate-helper', 'P20', [(I, '''        typedef ct_binary_expr< typename integrate_monomial<UpperBound, exponent>::type,
                                op_mult<NumericT>,
                                simplified_coefficient_type
                              >                    upper_contribution;

        typedef ct_binary_expr< typename integrate_monomial<LowerBound, exponent>::type,
                                op_mult<NumericT>,
                                simplified_coefficient_type
                              >                    lower_contribution;

        typedef ct_binary_expr< typename simplify<upper_contribution>::type,
                                op_minus<NumericT>,
                                typename simplify<lower_contribution>::type
                              >            integrated_type;
''', '''        typedef ct_binary_expr< typename monomial_contribution<UpperBound, exponent, simplified_coefficient_type>::type,
                                op_minus<NumericT>,
                                typename monomial_contribution<LowerBound, exponent, simplified_coefficient_type>::type
                              >            integrated_type;
'''), (I, '''      struct integrate_impl {};
''', '''      struct integrate_impl {};

      template <typename Bound, long exponent, typename Coefficient>
      struct monomial_contribution
      {
        typedef typename integrate_monomial<Bound, exponent>::type    monomial_type;
        typedef typename viennamath::result_of::simplify< ct_binary_expr<monomial_type, op_mult<default_numeric_type>, Coefficient> >::type   type;
      };
''')]),
 ('c06-pow-order', 'P20', (I, '''      typedef ct_binary_expr< typename pow<T, exponent / 2>::type,
                              op_mult<default_numeric_type>,
                              typename pow<T, exponent - exponent / 2>::type>  type;''', '''      static const long half = exponent / 2;
      typedef typename pow<T, half>::type                first_half;
      typedef typename pow<T, exponent - half>::type     second_half;
      typedef ct_binary_expr<second_half, op_mult<default_numeric_type>, first_half>  type;''')),
 ('c07-pow-linear', 'P20', (I, '''      typedef ct_binary_expr< typename pow<T, exponent / 2>::type,
                              op_mult<default_numeric_type>,
                              typename pow<T, exponent - exponent / 2>::type>  type;''', '''      typedef ct_binary_expr< typename pow<T, exponent - 1>::type,
                              op_mult<default_numeric_type>,
                              T>  type;''')),
 ('c08-expand-reorder', 'P19', (E, '''         //First expand with factor RHS:
         typedef typename expand_with_factor<LHS, RHS>::type   intermediate_type;''', '''         //First expand with factor LHS:
         typedef typename expand_with_factor<RHS, LHS>::type   intermediate_type;''')),
 ('c09-expand-with-factor-rename', 'P19,P20', [rn(E, 'expand_with_factor', 'distribute_factor')]),
 ('c10-coefficient-impl-rename', 'P19', [rn(C, 'coefficient_impl', 'extract_coefficient')]),
 ('c11-has-plus-minus-bool', 'P19,P20', (E, '''        static const int value = has_plus_or_minus<LHS>::value + has_plus_or_minus<RHS>::value;''', '''        static const int value = (has_plus_or_minus<LHS>::value != 0 || has_plus_or_minus<RHS>::value != 0) ? 1 : 0;''')),
 ('c12-rational-helper', 'P16', [(S, '''        typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                op_div<NumericT>,
                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >        type;
      };

      template <long value_1, typename NumericT,
                long numerator_2, long denominator_2>
      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
                                          op_plus<NumericT>,''', '''        static const long divisor = result_of::gcd<numerator, denominator>::value;

        typedef ct_constant<denominator / divisor>    denominator_type;
        typedef ct_constant<numerator / divisor>      numerator_type;
        typedef ct_binary_expr<numerator_type, op_div<NumericT>, denominator_type>        type;
      };

      template <long value_1, typename NumericT,
                long numerator_2, long denominator_2>
      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
                                          op_plus<NumericT>,''')]),
 ('c13-drop-inline', 'P19', (DR, '''      typedef typename viennamath::result_of::substitute<FactorType, ct_constant<0>, expanded_expression>::type    substituted_expression;

      typedef typename viennamath::result_of::simplify<substituted_expression>::type    type;''', '''      typedef typename viennamath::result_of::simplify< typename viennamath::result_of::substitute<FactorType, ct_constant<0>, expanded_expression>::type >::type    type;''')),
 ('c14-eval-two-step', 'P21', (EV, '''      typedef ct_binary_expr< typename eval<LHS, VectorType>::type,
                              OP,
                              typename eval<RHS, VectorType>::type >  intermediate_type;
''', '''      typedef typename eval<RHS, VectorType>::type              rhs_type;
      typedef typename eval<LHS, VectorType>::type              lhs_type;
      typedef ct_binary_expr<lhs_type, OP, rhs_type>            intermediate_type;
''')),
 ('c15-subst-inherit', 'P17,P19,P20', (SU, '''      typedef ct_unary_expr< typename substitute<SearchType, ReplacementType, LHS>::type,
                             OP >   type;''', '''      typedef typename substitute<SearchType, ReplacementType, LHS>::type    operand_type;
      typedef ct_unary_expr<operand_type, OP>   type;''')),
 ('c16-drop-coefficient-default', 'P19', (C, '''        typedef typename extract_factor_from_product<FactorType, LHS, NumericT, RHS>::type    type;''', '''        static const bool in_lhs = (has_factor<FactorType, LHS>::value > 0);
        static const bool in_rhs = (has_factor<FactorType, RHS>::value > 0);
        typedef typename extract_factor_from_product<FactorType, LHS, NumericT, RHS, in_lhs, in_rhs>::type    type;''')),
 ('c17-simplify-extra-rule', 'P16,P19,P20', (S, '''      ////////// Subtraction of zero:
''', '''      // 0 minus 0 is 0
      template <typename NumericT>
      struct simplify_impl < ct_binary_expr<ct_constant<0>, op_minus<NumericT>, ct_constant<0> > >
      {
        static const int value = 1;
        typedef ct_constant<0>          type;
      };

      ////////// Subtraction of zero:
''')),
]
